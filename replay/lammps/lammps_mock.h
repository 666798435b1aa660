// Stand-in for the parts of LAMMPS that pair_style symmetrix/mace uses: the declarations of LAMMPS (same names and types), with
// bodies that simulate one MPI rank; ranks are threads and communication goes through the pair style's own pack/unpack functions.
#pragma once
#include <cmath>
#include <cstdlib>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

#define FLERR __FILE__, __LINE__
#define NEIGHMASK 0x1FFFFFFF

namespace LAMMPS_NS {
typedef int tagint;
typedef long bigint;

class Pair;
class LAMMPS;

namespace utils {
template <typename... A> void logmesg(LAMMPS *, const std::string &, A &&...) {}
}    // namespace utils

namespace NeighConst {
enum { REQ_DEFAULT = 0, REQ_FULL = 1 << 0, REQ_GHOST = 1 << 1 };
}

class Atom {
 public:
  enum { MAP_NONE = 0, MAP_ARRAY = 1, MAP_HASH = 2, MAP_YES = 3 };
  int map_user = MAP_YES;
  int ntypes = 0;
  int nlocal = 0, nghost = 0;
  tagint *tag = nullptr;
  int *type = nullptr;
  double **x = nullptr, **f = nullptr;
  int *sametag = nullptr;
  std::function<int(tagint)> mapper;
  int map(tagint t) { return mapper(t); }
};

class NeighList {
 public:
  int inum = 0, gnum = 0;
  int *ilist = nullptr;
  int *numneigh = nullptr;
  int **firstneigh = nullptr;
};

class Comm {
 public:
  int me = 0, nprocs = 1;
  double cutoff = 0.0;
  std::function<void(Pair *)> fwd, rev;
  void forward_comm(Pair *p) { fwd(p); }
  void reverse_comm(Pair *p) { rev(p); }
  double get_comm_cutoff() { return cutoff; }
  void modify_params(int n, char **a)
  {
    if (n == 2 && std::string(a[0]) == "cutoff") cutoff = std::atof(a[1]);
  }
};

class Domain {
};

class Error {
 public:
  template <typename... A> [[noreturn]] void all(const std::string &, int, const std::string &m, A &&...) { throw std::runtime_error(m); }
  template <typename... A> [[noreturn]] void one(const std::string &, int, const std::string &m, A &&...) { throw std::runtime_error(m); }
  template <typename... A> void warning(const std::string &, int, const std::string &, A &&...) {}
};

class Force {
 public:
  int newton_pair = 1, newton = 1;
};

class Memory {
 public:
  template <typename T> T **create(T **&a, int n1, int n2, const char *)
  {
    a = (T **) std::malloc(sizeof(T *) * n1);
    T *d = (T *) std::malloc(sizeof(T) * n1 * n2);
    for (int i = 0; i < n1; ++i) a[i] = d + (size_t) i * n2;
    return a;
  }
  template <typename T> void destroy(T **&a)
  {
    if (!a) return;
    std::free(a[0]);
    std::free(a);
    a = nullptr;
  }
};

class Neighbor {
 public:
  double skin = 0.0;
  int requested = -1;
  void add_request(Pair *, int flags = 0) { requested = flags; }
};

class LAMMPS {
 public:
  Memory *memory = nullptr;
  Error *error = nullptr;
  Atom *atom = nullptr;
  Neighbor *neighbor = nullptr;
  Comm *comm = nullptr;
  Domain *domain = nullptr;
  Force *force = nullptr;
};

class Pointers {
 public:
  Pointers(LAMMPS *p) : lmp(p), memory(p->memory), error(p->error), atom(p->atom), neighbor(p->neighbor), comm(p->comm),
                        domain(p->domain), force(p->force) {}
  virtual ~Pointers() = default;

 protected:
  LAMMPS *lmp;
  Memory *memory;
  Error *error;
  Atom *atom;
  Neighbor *neighbor;
  Comm *comm;
  Domain *domain;
  Force *force;
};

class Pair : protected Pointers {
 public:
  Pair(LAMMPS *p) : Pointers(p) {}
  double eng_vdwl = 0.0, eng_coul = 0.0;
  double virial[6] = {0, 0, 0, 0, 0, 0};
  double *eatom = nullptr, **vatom = nullptr;
  double **cutsq = nullptr;
  int **setflag = nullptr;
  int comm_forward = 0, comm_reverse = 0;
  int single_enable = 1, restartinfo = 1, one_coeff = 0, manybody_flag = 0, no_virial_fdotr_compute = 0;
  int allocated = 0;
  NeighList *list = nullptr;
  int evflag = 0, eflag_either = 0, eflag_global = 0, eflag_atom = 0, vflag_either = 0, vflag_global = 0, vflag_atom = 0;
  std::vector<double> eatom_store;

  virtual void compute(int, int) = 0;
  virtual void settings(int, char **) = 0;
  virtual void coeff(int, char **) = 0;
  virtual void init_style() {}
  virtual double init_one(int, int) { return 0.0; }
  virtual int pack_forward_comm(int, int *, double *, int, int *) { return 0; }
  virtual void unpack_forward_comm(int, int, double *) {}
  virtual int pack_reverse_comm(int, int, double *) { return 0; }
  virtual void unpack_reverse_comm(int, int *, double *) {}

 protected:
  void ev_init(int eflag, int vflag, int = 1)
  {
    eflag_global = eflag & 1;
    eflag_atom = eflag & 2;
    vflag_global = vflag & 3;
    if ((vflag & 2) && no_virial_fdotr_compute == 1) vflag_global = 1;
    if (vflag_global == 2) vflag_global = 0;      // LAMMPS would take the virial from the total forces by itself, if the style called for it
    vflag_atom = vflag & 4;
    eflag_either = eflag_global || eflag_atom;
    vflag_either = vflag_global || vflag_atom;
    evflag = eflag_either || vflag_either;
    eng_vdwl = eng_coul = 0.0;
    for (int i = 0; i < 6; ++i) virial[i] = 0.0;
    if (eflag_atom) {
      eatom_store.assign(atom->nlocal + atom->nghost, 0.0);
      eatom = eatom_store.data();
    }
  }
};
}    // namespace LAMMPS_NS
