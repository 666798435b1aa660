// Runs the real pair style (pair_symmetrix_mace.cpp) on simulated ranks.
#include <array>
#include <barrier>
#include <exception>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "pair_symmetrix_mace.h"
namespace py = pybind11;
using namespace LAMMPS_NS;
using V = std::vector<double>;
using I = std::vector<int>;

struct Rank {
    LAMMPS lmp;
    Memory memory;
    Error error;
    Atom atom;
    Neighbor neighbor;
    Comm comm;
    Domain domain;
    Force force;
    NeighList list;
    I tag, type, ilist, numneigh;
    std::vector<std::vector<int>> neigh;
    std::vector<int*> first;
    std::vector<V> x, f, f0, x0;
    std::vector<double*> xp, fp;
    // ghosts received from rank q: [start, start+count), and the entries of q's sendlist
    std::vector<int> recv_first, recv_n;
    std::vector<I> sendlist;          // to rank p: own local indices
    std::unique_ptr<PairSymmetrixMACE> pair;
    std::exception_ptr err;
};

// mode, then per rank: tags, types, positions (locals first, ghosts grouped by owner), nlocal, order of ilist, neighbour rows
// (with rows for ghosts where the mode wants them), receive ranges, send lists
py::dict run(const std::string& model, const std::string& mode, const std::vector<std::string>& elements, const std::vector<py::dict>& in,
             int eflag, int vflag, double skin, int repeat, double cutoff, bool twice)
{
    const int P = in.size();
    std::vector<std::unique_ptr<Rank>> R;
    std::barrier bar(P);
    py::dict out;
    for (int p = 0; p < P; ++p) {
        R.push_back(std::make_unique<Rank>());
        Rank& k = *R.back();
        k.lmp.memory = &k.memory; k.lmp.error = &k.error; k.lmp.atom = &k.atom; k.lmp.neighbor = &k.neighbor; k.lmp.comm = &k.comm;
        k.lmp.domain = &k.domain; k.lmp.force = &k.force;
        k.neighbor.skin = skin;
        k.comm.me = p; k.comm.nprocs = P; k.comm.cutoff = cutoff;
        k.atom.ntypes = elements.size();
        const auto& d = in[p];
        k.tag = d["tag"].cast<I>(); k.type = d["type"].cast<I>();
        k.x = d["x"].cast<std::vector<V>>();
        k.f = d["f"].cast<std::vector<V>>();
        k.f0 = k.f;
        k.x0 = k.x;
        for (auto& q : k.x) k.xp.push_back(q.data());
        for (auto& q : k.f) k.fp.push_back(q.data());
        k.atom.nlocal = d["nlocal"].cast<int>(); k.atom.nghost = (int)k.x.size() - k.atom.nlocal;
        k.atom.tag = k.tag.data(); k.atom.type = k.type.data(); k.atom.x = k.xp.data(); k.atom.f = k.fp.data();
        std::map<int, int> where;
        for (int i = (int)k.tag.size() - 1; i >= 0; --i) where[k.tag[i]] = i;
        k.atom.mapper = [where](tagint t) { auto w = where.find(t); return w == where.end() ? -1 : w->second; };
        k.ilist = d["ilist"].cast<I>(); k.neigh = d["neigh"].cast<std::vector<I>>();
        k.recv_first = d["recv_first"].cast<I>(); k.recv_n = d["recv_n"].cast<I>(); k.sendlist = d["send"].cast<std::vector<I>>();
        k.list.inum = d["inum"].cast<int>(); k.list.gnum = (int)k.ilist.size() - k.list.inum;
        k.list.ilist = k.ilist.data();
        for (auto& r : k.neigh) { k.numneigh.push_back(r.size()); k.first.push_back(r.data()); }
        k.list.numneigh = k.numneigh.data(); k.list.firstneigh = k.first.data();
    }
    auto fail = [&](const std::string& s) { throw std::runtime_error(s); };
    for (int p = 0; p < P; ++p) {
        Rank& k = *R[p];
        k.comm.fwd = [&, p](Pair* pr) {
            bar.arrive_and_wait();
            for (int q = 0; q < P; ++q) {
                const int n = R[p]->recv_n[q], w = pr->comm_forward;
                if (!n) continue;
                V buf((size_t)n * w, 0.5);
                int got = R[q]->pair->pack_forward_comm(n, R[q]->sendlist[p].data(), buf.data(), 0, nullptr);
                if (got != n * w) fail("pack_forward_comm returned " + std::to_string(got) + " for " + std::to_string(n * w));
                pr->unpack_forward_comm(n, R[p]->recv_first[q], buf.data());
            }
            bar.arrive_and_wait();
        };
        k.comm.rev = [&, p](Pair* pr) {
            bar.arrive_and_wait();
            for (int q = 0; q < P; ++q) {       // rank q holds ghosts of mine: they are added to my atoms
                const int n = R[q]->recv_n[p], w = pr->comm_reverse;
                if (!n) continue;
                V buf((size_t)n * w, 0.5);
                int got = R[q]->pair->pack_reverse_comm(n, R[q]->recv_first[p], buf.data());
                if (got != n * w) fail("pack_reverse_comm returned " + std::to_string(got) + " for " + std::to_string(n * w));
                pr->unpack_reverse_comm(n, R[p]->sendlist[q].data(), buf.data());
            }
            bar.arrive_and_wait();
        };
    }
    auto body = [&](int p) {
        Rank& k = *R[p];
        try {
            k.pair = std::make_unique<PairSymmetrixMACE>(&k.lmp);
            std::string m = mode;
            char* arg[1] = {m.data()};
            if (mode == "default") k.pair->settings(0, arg); else k.pair->settings(1, arg);
            std::vector<std::string> a = {"*", "*", model};
            for (auto& e : elements) a.push_back(e);
            std::vector<char*> av;
            for (auto& s : a) av.push_back(s.data());
            if (twice) {        // an earlier pair_coeff with the elements in another order
                std::vector<char*> bv(av.begin(), av.begin() + 3);
                bv.insert(bv.end(), av.rbegin(), av.rend() - 3);
                k.pair->coeff(bv.size(), bv.data());
            }
            k.pair->coeff(av.size(), av.data());
            k.pair->init_style();
            k.pair->list = &k.list;
            for (int t = 0; t < repeat; ++t) {
                for (size_t i = 0; i < k.f.size(); ++i)
                    for (int c = 0; c < 3; ++c) {
                        k.f[i][c] = k.f0[i][c];
                        k.x[i][c] = k.x0[i][c]*(t + 1 < repeat ? 1.3 : 1.0);        // earlier steps: another configuration
                    }
                bar.arrive_and_wait();
                k.pair->compute(eflag, vflag);
                bar.arrive_and_wait();
            }
        } catch (...) {
            k.err = std::current_exception();
            bar.arrive_and_drop();
        }
    };
    if (P == 1) {
        body(0);
    } else {
        py::gil_scoped_release rel;
        std::vector<std::thread> th;
        for (int p = 0; p < P; ++p) th.emplace_back(body, p);
        for (auto& t : th) t.join();
    }
    for (auto& k : R) if (k->err) std::rethrow_exception(k->err);
    py::list l;
    for (auto& k : R) {
        py::dict d;
        d["energy"] = k->pair->eng_vdwl;
        d["f"] = k->f;
        d["virial"] = std::vector<double>(k->pair->virial, k->pair->virial + 6);
        d["eatom"] = (eflag & 2) ? k->pair->eatom_store : V();
        d["cutoff"] = k->comm.cutoff;
        d["request"] = k->neighbor.requested;
        V one;
        for (int i = 1; i <= k->atom.ntypes; ++i) for (int j = i; j <= k->atom.ntypes; ++j) one.push_back(k->pair->init_one(i, j));
        d["init_one"] = one;
        bool refused = false;
        k->force.newton_pair = 0;
        try { k->pair->init_style(); } catch (const std::exception&) { refused = true; }
        k->force.newton_pair = 1;
        d["refused"] = refused;
        l.append(d);
    }
    out["ranks"] = l;
    return out;
}

PYBIND11_MODULE(vpair, m) {
    m.def("run", &run);
    py::class_<MACE>(m, "MACE").def(py::init<std::string>())
        .def("compute", [](MACE& o, int n, I types, I num, I idx, I ntypes, V xyz, V r) {
            o.compute_node_energies_forces(n, types, num, idx, ntypes, xyz, r);
            return std::make_pair(o.node_energies, o.node_forces); });
}
