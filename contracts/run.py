"""
python -m contracts.run PROPERTY --out FILE [--tier quick|thorough] [--list]

Discharges the obligations of the contracts on which a property depends, generated from the current
sources in /repo. Every contract is verified in a process of its own.
"""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "contracts")) if f.startswith("c_") and f.endswith(".py"))
CVC5 = "cvc5"


def load():
    """Load the contracts (and the instrumented sources)"""
    from vc import loader
    loader.install()
    import warnings
    import logging
    warnings.simplefilter("ignore")
    from contracts import base
    errors = []
    for m in MODULES:
        try:
            importlib.import_module("contracts." + m)
        except Exception as ex:
            errors.append(f"contracts.{m}: {type(ex).__name__}: {ex}")
    logging.disable(logging.CRITICAL)
    return base.REGISTRY, errors


def cross_check(queries, budget):
    """Discharge the same obligations with another solver"""
    out = dict(solver="cvc5", agreed=0, unknown=0, disagreed=[])
    t_end = time.time() + budget
    for name, smt in queries:
        left = t_end - time.time()
        if left < 1:
            out["unknown"] += 1
            continue
        try:
            p = subprocess.run([CVC5, "--lang=smt2", "--tlimit=%d" % int(min(left, 10) * 1000)],
                               input="(set-logic ALL)\n" + smt, capture_output=True, text=True, timeout=min(left, 10) + 5)
            ans = p.stdout.strip().splitlines()[:1]
        except Exception:
            ans = []
        if ans == ["unsat"]:
            out["agreed"] += 1
        elif ans == ["sat"]:
            out["disagreed"].append(name)
        else:
            out["unknown"] += 1
    return out


def verify(c, tier, bound=None):
    from vc import engine as E
    opts = dict(budget_s=90)
    opts.update(c.opts)
    if tier == "thorough":
        opts["budget_s"] = opts["budget_s"] * 4
        opts["prove_ms"] = 30000
        opts["keep_queries"] = True
    if bound is not None:
        opts["bound"] = bound
        opts["budget_s"] = 45 if tier == "quick" else 300
    r = E.explore(c.name, c.fn, opts)
    out = dict(name=c.name, functions=c.functions, props=c.props, assumes=c.assumes, contract=(c.fn.__doc__ or "").strip(),
               obligations={k: dict(discharged=v["discharged"], refuted=len(v["refuted"]), unknown=len(v["unknown"])) for k, v in r.obligations.items()},
               total=r.total, discharged=r.discharged, refuted=r.refuted[:5], nrefuted=len(r.refuted), unknown=r.unknown[:3], nunknown=len(r.unknown),
               bounded=c.bounded, undecided=r.undecided, paths=r.paths, covers=sorted(r.covers), maybe=sorted(r.maybe - r.covers), loops=sorted(x.rsplit(":", 1)[0] for x in r.cuts), solver_s=round(r.solver_s, 3), wall_s=round(r.wall_s, 3))
    if tier == "thorough":
        out["cross_check"] = cross_check(r.queries, 120)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--bound", type=int, help="unroll the loops, for sequences of up to this length")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--only")
    ap.add_argument("--names", help="only these contracts (separated by commas)")
    ap.add_argument("--touch", help="only the contracts of a function (or those related to it)")
    a = ap.parse_args()
    report = dict(property=a.property, contracts=[], errors=[])
    try:
        registry, errors = load()
        report["errors"] += errors
        todo = [c for c in registry if (a.property in c.props or a.property == "all") and (not a.only or a.only in c.name)]
        if a.names:
            todo = [c for c in todo if c.name in a.names.split(",")]
        if a.touch:
            names = set(a.touch.split("."))
            todo = [c for c in todo if any(set(f.split(".")[-2:] if len(f.split(".")) > 1 else [f]) & names and f.split(".")[-1] in names or f.split(".")[0] == a.touch.split(".")[0] and f.split(".")[0][0].isupper()
                                           for f in c.functions)]
        import tempfile
        tmp = tempfile.mkdtemp(prefix="vc")
        running = {}
        queue = list(enumerate(todo))
        done = {}
        while queue or running:
            while queue and len(running) < a.jobs:
                ix, c = queue.pop(0)
                f = os.path.join(tmp, f"{ix}.json")
                pid = os.fork()
                if pid == 0:
                    try:
                        sys.setrecursionlimit(5000)
                        if not os.environ.get("VC_VERBOSE"):
                            null = os.open(os.devnull, os.O_WRONLY)
                            os.dup2(null, 1)
                            os.dup2(null, 2)
                        signal.alarm(int(600 if a.tier == "quick" else 3000))
                        try:
                            r = verify(c, a.tier, a.bound)
                        except BaseException as ex:
                            r = dict(name=c.name, functions=c.functions, props=c.props, assumes=c.assumes, contract="", obligations={}, total=0, discharged=0,
                                     refuted=[], nrefuted=0, unknown=[], nunknown=0, undecided=[f"engine error: {type(ex).__name__}: {ex} {traceback.format_exc()[-600:]}"], paths=0, covers=[], loops=[],
                                     solver_s=0, wall_s=0)
                        with open(f, "w") as h:
                            json.dump(r, h, default=str)
                    finally:
                        os._exit(0)
                running[pid] = (ix, c, f)
            pid, _ = os.wait()
            ix, c, f = running.pop(pid)
            if os.path.exists(f):
                with open(f) as h:
                    done[ix] = json.load(h)
                os.remove(f)
            else:
                done[ix] = dict(name=c.name, functions=c.functions, props=c.props, assumes=c.assumes, contract="", obligations={}, total=0, discharged=0,
                                refuted=[], nrefuted=0, unknown=[], nunknown=0, undecided=["the verifier did not finish"], paths=0, covers=[], loops=[], solver_s=0, wall_s=0)
        os.rmdir(tmp)
        report["contracts"] = [done[k] for k in sorted(done)]
    except BaseException as ex:
        report["errors"].append(f"{type(ex).__name__}: {ex}\n{traceback.format_exc()[-1500:]}")
    if a.out:
        with open(a.out, "w") as h:
            json.dump(report, h, indent=1, default=str)
    else:
        for e in report["errors"]:
            print("ERROR", e)
        for c in report["contracts"]:
            st = "ok" if c["total"] and c["discharged"] == c["total"] and not c["undecided"] else "??"
            print(f"{st} {c['name']}: {c['discharged']}/{c['total']} paths {c['paths']} {c['wall_s']}s covers {c['covers']} loops {c['loops']}")
            for u in c["undecided"]:
                print("    UNDECIDED", u)
            for r in c["refuted"][:3]:
                print("    REFUTED", r["obligation"], "|", r["info"], "|", r["inputs"], "|", r["path"][-8:])
            for r in c["unknown"][:3]:
                print("    UNKNOWN", r["obligation"], r.get("reason") or r.get("notes"))
            if "cross_check" in c:
                print("    ", c["cross_check"])
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
