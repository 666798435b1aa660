"""run.py PROP OUT.json  --seed S --budget SECONDS --consts a,b,c [--max N] [--case FILE]
Runs cases of one property against the real code; writes what was covered and the first disagreement."""
import argparse
import hashlib
import json
import os
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cases
for _m in ("mace_cases", "load_cases", "pair_cases", "calc_cases"):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), _m + ".py")):
        __import__(_m)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--consts", default="")
    ap.add_argument("--case")
    a = ap.parse_args()
    P = cases.PROPS[a.prop]
    out = dict(property=a.prop, evaluations=0, distinct=0, samples=[], failure=None, done=False)
    journal = a.out + ".current"

    def save():
        with open(a.out + ".tmp", "w") as f:
            json.dump(out, f)
        os.replace(a.out + ".tmp", a.out)

    def one(c):
        txt = json.dumps(c)
        with open(journal, "w") as f:
            f.write(txt)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(60)        # a call that never returns ends the process; the parent reports the case
        try:
            return P.run(c), txt
        except Exception as e:      # noqa: BLE001
            return "unexpected exception %s: %s" % (type(e).__name__, e), txt

    if a.case:
        c = json.load(open(a.case))
        m, _ = one(c.get("case", c))
        out.update(evaluations=1, failure=m and dict(case=c, message=m), done=True)
        save()
        return
    consts = [float(x) for x in a.consts.split(",") if x]
    t0 = time.time()
    seen = set()
    i = 0
    fixed = list(P.fixed()) if hasattr(P, "fixed") else []
    while i < a.max and (i < len(fixed) or time.time() - t0 < a.budget):
        if i < len(fixed):
            c = fixed[i]
        else:
            c = P.gen(cases.R((a.seed, i), consts))
        i += 1
        m, txt = one(c)
        out["evaluations"] += 1
        seen.add(hashlib.sha1(txt.encode()).hexdigest())
        if len(out["samples"]) < 2 and len(txt) < 1500:
            out["samples"].append(c)
        if m:
            out["failure"] = dict(case=c, message=m)
            break
    out["distinct"] = len(seen)
    out["exhaustive_part"] = len(fixed)
    out["done"] = True
    save()


main()
