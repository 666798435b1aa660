#!/usr/bin/env python3-vt
"""check.py ID [--replay FILE]      decide one property on /repo's current tree

 1. proof     the functions of /repo the property depends on are parsed from the current source (clang AST),
              executed symbolically against their contracts, and every obligation is discharged (z3 and the
              term normaliser); runs in a child process with time and memory limits
 2. replay    the real code is compiled and (a) confirmed to behave like the verified text on sampled inputs,
              (b) searched for a failing input when an obligation failed, (c) used as a labelled, bounded
              stand-in where the changed code is out of the verifier's reach
 exit 0: holds on everything explored;  exit 1 with a VIOLATION line otherwise."""
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULES = {"spline": ["C01", "C02", "C03", "C04"], "zbl": ["C05", "C06", "C07", "C08"],
           "mlp": ["C09", "C10", "C11", "C12"], "poly": ["C13", "C14", "C15", "C16"], "tools": ["C17"],
           "mace_adj": ["C18"], "mace": ["C19"], "calc": ["C20"], "load": ["C25"], "pair": ["C21"], "mace_fwd": ["C26"]}
MOD = {p: m for m, ps in MODULES.items() for p in ps}
NO_NATIVE = {"C20"}            # replay needs no compiled module
PARTS = {"C18": ["Phi1", "Phi1z", "A0", "M0", "A0s", "A1s", "M1", "A1", "R", "Y", "H1", "H2", "readouts", "whole"],
         "C26": ["Phi1", "A0", "R", "scaled", "A1", "M0", "M1", "H1", "H2", "readouts", "Y", "whole"],
         "C21": ["comm", "serial", "messages", "ghosts"]}   # proved in parallel
MORE_TIME = {"C18": 200, "C26": 60}
CONFORM = {"C21": 30}
LIMITS = {"quick": dict(proof=420, conform=12, search=60), "thorough": dict(proof=2400, conform=150, search=300)}


def proof_child(prop, tier, seed, out, part=None):
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    t0 = time.time()
    from vc import session, prover
    S = session.Session(prop, tier, seed)
    try:
        import importlib
        M = importlib.import_module("contracts." + MOD[prop])
        if part is None:
            M.PROPS[prop](S)
        else:
            M.part(prop, part, S)
    except session.Unsupported as e:
        S.limit("out of reach: %s" % (str(e)[:500],))
    except MemoryError:
        S.limit("out of memory")
    except Exception as e:      # noqa: BLE001   an engine failure decides nothing
        tb = traceback.extract_tb(e.__traceback__)
        S.limit("engine: %s: %s at %s" % (type(e).__name__, str(e)[:300], "%s:%d" % (tb[-1].filename, tb[-1].lineno) if tb else "?"))
    if prover.STATS["z3_unknown"] and S.failed():
        S.limit("z3 gave up on %d queries" % prover.STATS["z3_unknown"])
    res = dict(items=[dict(name=i.name, kind=i.kind, fn=i.fn, status=i.status, detail=i.detail[:1500], definite=bool(i.definite))
                      for i in S.items],
               limits=S.limits, functions=sorted(S.functions), assumptions=sorted(S.assumptions), trusted=sorted(S.trusted),
               consts=sorted(float(c) for c in S.consts), vacuity=S.vac, bounded_parts=S.bounded_parts, level=S.level, notes=S.notes,
               stats=dict(prover.STATS), summary={k: v for k, v in S.summary().items()}, seconds=time.time() - t0)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


class ProofRun(threading.Thread):
    """the proof of a property in child processes: one, or one per part"""

    def __init__(self, prop, tier, seed, pf, deadline):
        super().__init__()
        self.prop, self.tier, self.seed, self.pf, self.deadline = prop, tier, seed, pf, deadline
        self.parts = PARTS.get(prop, [None])
        self.t0 = time.time()

    def run(self):
        ctx = mp.get_context("fork")
        todo, live = list(self.parts), []
        while todo or live:
            while todo and len(live) < max(2, min(8, os.cpu_count() or 2)):
                part = todo.pop(0)
                p = ctx.Process(target=proof_child, args=(self.prop, self.tier, self.seed, self.file(part), part))
                p.start()
                live.append(p)
            time.sleep(0.05)
            live = [p for p in live if p.is_alive()]
            if time.time() > self.deadline:
                for p in live:
                    p.kill()
                    p.join()
                return

    def file(self, part):
        return self.pf if part is None else "%s.%s" % (self.pf, part)

    def result(self):
        self.join()
        res = dict(items=[], limits=[], functions=[], assumptions=[], trusted=[], consts=[], vacuity=[], bounded_parts=[], notes=[],
                   stats={}, summary={}, seconds=0.0, level="proof")
        for part in self.parts:
            f = self.file(part)
            if not os.path.exists(f):
                res["limits"].append("proof%s did not finish" % ("" if part is None else " of part " + part))
                res["seconds"] = max(res["seconds"], time.time() - self.t0)
                continue
            d = json.load(open(f))
            for k in ("items", "limits", "vacuity", "bounded_parts", "notes"):
                res[k] += d[k]
            for k in ("functions", "assumptions", "trusted", "consts"):
                res[k] = sorted(set(res[k]) | set(d[k]))
            for k, v in d["stats"].items():
                res["stats"][k] = res["stats"].get(k, 0) + v
            for k, v in d["summary"].items():
                if isinstance(v, (int, float)):
                    res["summary"][k] = res["summary"].get(k, 0) + v
                elif isinstance(v, dict):
                    w = res["summary"].setdefault(k, {})
                    for a, b in v.items():
                        w[a] = w.get(a, 0) + b if isinstance(b, (int, float)) else b
                else:
                    res["summary"][k] = v
            res["seconds"] += d["seconds"]
            if d.get("level", "proof") != "proof":
                res["level"] = d["level"]
        return res


def literals(prop):
    """numeric literals of the anchored sources: sizes and values a special case may test for"""
    out = set()
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == prop:
            for f in d["anchors"]["files"]:
                try:
                    txt = open(os.path.join(REPO, f), errors="replace").read()
                except OSError:
                    continue
                for m in re.findall(r"(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?)", txt):
                    try:
                        out.add(float(m))
                    except ValueError:
                        pass
    return {c for c in out if 0 < abs(c) < 1e9}


def run_replay(prop, scratch, seed, budget, consts, native, tag):
    sys.path.insert(0, os.path.join(HERE, "replay"))
    import build
    out = os.path.join(scratch, "replay_%s.json" % tag)
    env = build.environment(scratch) if native else dict(os.environ, VREP_DIR=scratch, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    cmd = [build.PY, os.path.join(HERE, "replay", "run.py"), prop, out, "--seed", str(seed), "--budget", str(budget),
           "--consts", ",".join(repr(c) for c in sorted(consts))]
    with open(os.path.join(scratch, "log_" + tag), "w") as log:
        try:
            rc = subprocess.run(cmd, env=env, stdout=log, stderr=log, timeout=budget * 3 + 120, cwd=scratch).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    d = json.load(open(out)) if os.path.exists(out) else dict(evaluations=0, distinct=0, samples=[], failure=None, done=False)
    d["rc"] = rc
    logtxt = open(os.path.join(scratch, "log_" + tag), errors="replace").read()
    if not d.get("done") and os.path.exists(out + ".current"):
        case = json.load(open(out + ".current"))
        if rc == "timeout":
            d["note"] = "replay did not finish"
        elif rc != 0 and ("AddressSanitizer" in logtxt or "Assertion" in logtxt or (isinstance(rc, int) and rc < 0) or rc == 134):
            k = logtxt.find("ERROR: AddressSanitizer")
            d["failure"] = dict(case=case, message="the real code did not return within 60 s" if rc == -14 else "the real code crashed: " + (logtxt[k:k + 500] if k >= 0 else logtxt[-500:]))
    if not d.get("done") and not d["failure"]:
        d["note"] = d.get("note") or "replay driver failed: " + logtxt[-800:]
    return d


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in LIMITS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    lim = LIMITS[tier]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        sys.exit(decide(prop, tier, seed, lim, t0, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, lim, t0, scratch):
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    sys.path.insert(0, os.path.join(HERE, "replay"))
    import build
    native = prop not in NO_NATIVE
    bres = {}

    def bld():
        if native:
            bres["so"], bres["log"] = build.build(scratch, prop)
        else:
            bres["so"], bres["log"] = True, ""
    th = threading.Thread(target=bld)
    th.start()
    pf = os.path.join(scratch, "proof.json")
    px = ProofRun(prop, tier, seed, pf, t0 + lim["proof"] + MORE_TIME.get(prop, 0))
    px.start()
    th.join()
    # conformance runs while the proof runs
    consts = literals(prop)
    rep = None
    if bres["so"]:
        rep = run_replay(prop, scratch, seed, max(lim["conform"], CONFORM.get(prop, 0)), consts, native, "conform")
    proof = px.result()
    failed = [i for i in proof["items"] if i["status"] != "discharged"]
    clean = not failed and not proof["limits"]
    failure = rep and rep.get("failure")
    search = None
    if not clean and not failure and bres["so"]:
        search = run_replay(prop, scratch, seed + 1000, lim["search"], consts | {c for c in proof["consts"] if 0 < abs(c) < 1e9},
                            native, "search")
        failure = search.get("failure")
    definite = [i for i in failed if i["definite"]]
    known = []
    if failure:
        for pat, text in known_findings(prop):
            if re.search(pat, failure["message"]):
                known.append(text)
                failure = None
                break
    for text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    verdict, tail = 0, ""
    rp = os.path.join(outdir, "%s.replay.json" % prop)
    if failure or definite or (failed and not proof["limits"]):
        verdict = 1
        with open(rp, "w") as f:
            json.dump(dict(property=prop, failing_input=failure["case"] if failure else None,
                           observed=failure["message"] if failure else None,
                           rerun="python3-vt %s/check.py %s --replay %s" % (HERE, prop, rp) if failure else None,
                           failed_obligations=failed, out_of_reach=proof["limits"],
                           verifier_output=["%s: %s [%s] %s" % (i["fn"], i["name"], i["kind"], i["detail"]) for i in failed]), f, indent=1)
        if not failure:
            tail = " no-failing-input-found"
    # ---------------------------------------------------------------- evidence
    n, d = len(proof["items"]), len(proof["items"]) - len(failed)
    runs = [x for x in (rep, search) if x]
    bounded = not clean or bool(proof["bounded_parts"])
    cov = dict(obligations=n, discharged=d,
               checker_cmd="python3-vt check.py %s  (vc engine over clang-18 AST; back ends: z3 %s, term normaliser)" % (prop, z3v()),
               trusted_base=TRUSTED + proof["trusted"],
               functions_under_contract=proof["functions"], obligations_by_function=proof["summary"],
               solver=dict(z3_queries=proof["stats"].get("z3_queries"), z3_seconds=round(proof["stats"].get("z3_time", 0), 2),
                           equality_queries=proof["stats"].get("eq_queries"), seconds_total=round(proof["seconds"], 2)),
               vacuity_witnesses=[v[0] for v in proof["vacuity"] if v[1]],
               failed_obligations=[dict(name=i["name"], fn=i["fn"], definite=i["definite"]) for i in failed],
               out_of_reach=proof["limits"], bounded_parts=proof["bounded_parts"], notes=proof["notes"],
               real_code_runs=sum(x["evaluations"] for x in runs), real_code_enumerated=max([x.get("exhaustive_part", 0) for x in runs] or [0]),
               real_code_notes=[x["note"] for x in runs if x.get("note")] + ([] if bres["so"] else ["replay build failed: " + bres["log"][-1500:]]))
    level = proof.get("level", "proof")
    if level != "proof":
        cov["explanation"] = "contracts proved for part of the functions; the rest is bounded: " + "; ".join(proof["bounded_parts"])
    if not clean and verdict == 0:
        level = "other"
        cov["explanation"] = ("bounded stand-in, not a proof: %d of %d obligations discharged, %s; the real code agreed with the oracle on "
                              "%d sampled inputs" % (d, n, "; ".join(proof["limits"])[:600] or "rest undecided", cov["real_code_runs"]))
    cov["samples"] = [s for x in runs for s in x.get("samples", [])][:2]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + proof["assumptions"],
              wall_s=round(time.time() - t0, 2), violations=verdict)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged over %d functions, %d real-code runs, %.0f s%s" % (
        prop, d, n, len(proof["functions"]), cov["real_code_runs"], time.time() - t0,
        "" if clean else " [NOT A PROOF: %s]" % ("; ".join(proof["limits"] + [i["name"] for i in failed])[:400])))
    if verdict:
        for i in failed[:5]:
            print("  failed obligation: %s: %s" % (i["fn"], i["name"]))
        if failure:
            print("  failing input: " + failure["message"][:400])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
        return 1
    if not n and not (rep and rep["evaluations"]):
        print("%s: nothing could be decided" % prop)
        return 2
    return 0


def z3v():
    import z3
    return z3.get_version_string()


TRUSTED = ["clang 18 parser and AST", "the vc engine's C++ semantics (vc/exec.py, loops.py) and term normaliser (vc/terms.py)", "z3",
           "contracts of the C++ standard library and CBLAS used by the code (vc/stdmodel.py)"]
ASSUME = ["floating-point arithmetic treated as real arithmetic (compiled with -ffast-math)",
          "int arithmetic treated as mathematical integers (no overflow)"]


def replay(prop, path):
    import build
    scratch = tempfile.mkdtemp(prefix="verif_")
    try:
        d = json.load(open(path))
        if d.get("failing_input") is None:
            print("no failing input recorded; failed obligations:")
            for l in d.get("verifier_output", []):
                print("  " + l[:400])
            return 1
        native = prop not in NO_NATIVE
        if native:
            build.build(scratch, prop)
        cf = os.path.join(scratch, "case.json")
        json.dump(d["failing_input"], open(cf, "w"))
        env = build.environment(scratch) if native else dict(os.environ, VREP_DIR=scratch)
        out = os.path.join(scratch, "o.json")
        r = subprocess.run([build.PY, os.path.join(HERE, "replay", "run.py"), prop, out, "--case", cf], env=env)
        m = json.load(open(out)) if os.path.exists(out) else None
        print("rc", r.returncode, m and m["failure"] and m["failure"]["message"])
        return 1 if (r.returncode or (m and m["failure"])) else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if "--replay" in sys.argv:
        sys.path.insert(0, os.path.join(HERE, "replay"))
        sys.exit(replay(sys.argv[1], sys.argv[sys.argv.index("--replay") + 1]))
    main()
