#!/opt/venv/bin/python
"""
check.py PROPERTY [--tier quick|thorough]

Decides a property on the current tree of /repo:

  A. the contracts of the functions on which it depends are verified (contracts/, vc/): every obligation is
     generated from the current sources and discharged with z3
  B. the property is evaluated at run time on the plain code (concrete/): to find a failing input for the
     obligations that are refuted, and as a bounded stand-in for what is out of the reach of the verifier

Exit code: 0 if the property holds on everything that was explored, 1 (and a VIOLATION line) if it does not,
2 if the check could not be carried out.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable
REPO = os.environ.get("SOIL_REPO", "/repo")

TRUSTED = [
    "CPython 3.12 executes the instrumented functions (vc/loader.py states the instrumentation: loops, comprehensions, list displays, f-strings and some builtins go through vc/rt.py; annotations are dropped)",
    "verification condition generator: vc/engine.py, vc/loops.py, vc/rt.py (path exploration, inductive summaries of loops)",
    "z3 (python binding 4.x) as the back end; in the thorough tier, every query is re-checked with cvc5",
    "numbers are mathematical reals/integers (times: extended with +infinity), not machine floats",
]


def spawn(args, cwd, env):
    return subprocess.Popen([PY, "-m"] + args, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)


def wait(procs, timeout):
    end = time.time() + timeout
    for p in procs:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property
    thorough = a.tier == "thorough"
    scratch = tempfile.mkdtemp(prefix="soilcheck")
    try:
        code = decide(prop, a, seed, thorough, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def concrete(prop, seeds, runs, budget, scratch, tag):
    procs, outs = [], []
    for s in seeds:
        work = os.path.join(scratch, f"{tag}{s}")
        os.makedirs(os.path.join(work, "tmp"))
        env = dict(os.environ, PYTHONPATH=HERE, TMPDIR=os.path.join(work, "tmp"), PYTHONDONTWRITEBYTECODE="1", HOME=work, MPLCONFIGDIR=work,
                   PYTHONHASHSEED=str(s % 1000))
        for k in ("SOIL_DEBUG", "SOIL_VERBOSE", "SOIL_POSTMORTEM"):
            env.pop(k, None)
        out = os.path.join(scratch, f"{tag}{s}.json")
        procs.append(spawn(["concrete.run", prop, "--seed", str(s), "--runs", str(runs), "--budget", str(budget), "--out", out], work, env))
        outs.append(out)
    return procs, outs


def decide(prop, a, seed, thorough, scratch, t0):
    # Both parts at the same time
    aout = os.path.join(scratch, "a.json")
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=scratch, HOME=scratch, MPLCONFIGDIR=scratch)
    pa = spawn(["contracts.run", prop, "--tier", a.tier, "--out", aout, "--jobs", "4" if not thorough else "6"], scratch, env)
    sout = os.path.join(scratch, "selftest.json")
    ps = subprocess.Popen([PY, "-m", "vc.selftest", sout], cwd=scratch, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    nproc = 3 if not thorough else 6
    runs, budget = (400, 25) if not thorough else (20000, 300)
    seeds = [seed * 1000 + k for k in range(nproc)]
    pb, bouts = concrete(prop, seeds, runs, budget, scratch, "b")
    wait(pb, budget + (120 if not thorough else 400))
    wait([pa], 450 if not thorough else 3300)
    wait([ps], 60)
    selftest = load(sout) or dict(functions=0, wrong=[], undecided=["did not finish"])
    ra = load(aout) or dict(contracts=[], errors=["the verifier did not finish"])
    rb = [load(o) for o in bouts]

    contracts = ra["contracts"]
    baseline = load(os.path.join(HERE, "contracts", "baseline.json")) or {}
    refuted, undecided, again = [], [], []
    for e in ra["errors"]:
        undecided.append(e)
    for c in contracts:
        expected = baseline.get(c["name"], {})
        for r in c["refuted"]:
            refuted.append(dict(contract=c["name"], functions=c["functions"], **r))
        for u in c["undecided"]:
            undecided.append(f"{c['name']}: {u}")
        for u in c["unknown"]:
            undecided.append(f"{c['name']}: {u['obligation']}: {u.get('reason') or u.get('notes')}")
        missing = [x for x in expected.get("covers", []) if x not in c["covers"] and x not in c.get("maybe", [])]
        if missing and not c["undecided"]:
            undecided.append(f"{c['name']}: never reached: {missing}")
        if not c["total"] and not c["undecided"]:
            undecided.append(f"{c['name']}: no obligations")
        if not c["refuted"] and (c["undecided"] or c["unknown"] or missing or not c["total"]):
            again.append(c["name"])

    failures = [dict(f, seed=r["seed"]) for r in rb if r for f in r["failures"]]
    berrors = [e for r in rb if r for e in r["errors"]] + ["a run did not finish" for r in rb if not r]
    counts = {}
    for r in rb:
        for k, v in (r or {}).get("scenarios", {}).items():
            counts[k] = counts.get(k, 0) + v

    # What could not be decided: the same contracts, with the loops unrolled, for sequences of a bounded length
    unrolled = []
    for bound in ((1, 2, 3) if not thorough else (1, 2, 3, 4)) if not failures and not refuted else ():
        todo = [n for n in (again if not thorough else [c["name"] for c in contracts]) if not any(u["contract"] == n and u["refuted"] for u in unrolled)]
        if not todo:
            break
        bo = os.path.join(scratch, f"bounded{bound}.json")
        pb2 = spawn(["contracts.run", prop, "--tier", a.tier, "--out", bo, "--jobs", "6", "--bound", str(bound), "--names", ",".join(todo)], scratch, env)
        wait([pb2], 120 if not thorough else 900)
        for c in (load(bo) or dict(contracts=[]))["contracts"]:
            unrolled.append(dict(contract=c["name"], bound=bound, obligations=c["total"], discharged=c["discharged"], refuted=c["nrefuted"], undecided=c["undecided"]))
            for r in c["refuted"]:
                refuted.append(dict(contract=c["name"], functions=c["functions"], bound=f"loops unrolled, for sequences of up to {bound} items", **r))

    if (refuted or undecided) and not failures:
        # Look harder for a failing input
        more, mouts = concrete(prop, [seed * 1000 + 100 + k for k in range(6)], 100000, 60, scratch, "m")
        wait(more, 150)
        for o in mouts:
            r = load(o)
            if r:
                failures += [dict(f, seed=r["seed"]) for f in r["failures"]]
                for k, v in r["scenarios"].items():
                    counts[k] = counts.get(k, 0) + v

    known = known_findings(prop)
    fresh = [f for f in failures if not any(k in f["message"] for k in known)]
    for k in known:
        if any(k in f["message"] for f in failures):
            print(f"KNOWN-FINDING: property={prop} {k}")

    violation = bool(fresh) or bool(refuted)
    replay = None
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    rfile = os.path.join(evdir, "replay", f"{prop}.json")
    if os.path.exists(rfile):
        os.remove(rfile)
    if violation:
        replay = rfile
        with open(rfile, "w") as f:
            json.dump(dict(property=prop, tier=a.tier, seed=seed,
                           failing_inputs=fresh,
                           replay_cmds=[f"cd $(mktemp -d) && PYTHONPATH={HERE} {PY} -m concrete.run {prop} --seed {x['seed']} --only {x['scenario']} --case {x['case']} --out /dev/stdout" for x in fresh],
                           failed_obligations=refuted), f, indent=1, default=str)

    proved = [c for c in contracts if not c.get("bounded")]
    limited = [c for c in contracts if c.get("bounded")]
    total = sum(c["total"] for c in proved)
    discharged = sum(c["discharged"] for c in proved)
    level = LEVELS.get(prop, "proof")
    def described(c):
        return dict(contract=c["name"], functions=c["functions"], specification=c["contract"], bound=c.get("bounded"), obligations=c["obligations"], paths=c["paths"], loops_cut=c["loops"],
                    reached=c["covers"], solver_s=c["solver_s"], wall_s=c["wall_s"], undecided=c["undecided"], cross_check=c.get("cross_check"))

    ev = dict(property=prop, tier=a.tier, seed=seed, level=level,
              coverage=dict(
                  obligations=total, discharged=discharged, refuted=len(refuted),
                  checker_cmd=f"{PY} -m contracts.run {prop} (z3, queries generated from {REPO}/soil on this run)",
                  trusted_base=TRUSTED,
                  functions_under_contract=sorted({f for c in proved for f in c["functions"]}),
                  contracts=[described(c) for c in proved],
                  bounded_contracts=dict(label="bounded, not proved: the same machinery, with the stated bound on the inputs",
                                         obligations=sum(c["total"] for c in limited), discharged=sum(c["discharged"] for c in limited),
                                         contracts=[described(c) for c in limited]),
                  solver_s=round(sum(c["solver_s"] for c in contracts), 2),
                  undecided=undecided,
                  unrolled=dict(label="bounded, not proved: contracts verified with the loops unrolled, for sequences of up to `bound` items (what could not be decided without a bound; in the thorough tier, all)", contracts=unrolled),
                  verifier_self_test=dict(functions=selftest["functions"], wrong_answers=selftest["wrong"], no_answer=len(selftest["undecided"])),
                  bounded_stand_in=dict(label="bounded, not proved: run-time evaluation on the plain code with pseudo-random inputs",
                                        evaluations=counts, seeds=len(seeds), errors=berrors, failures=len(failures))),
              assumptions=sorted({x for c in contracts for x in c["assumes"]}),
              wall_s=round(time.time() - t0, 2), violations=len(fresh) + len(refuted))
    if level == "exploration":
        ev["coverage"]["evaluations"] = sum(counts.values())
        ev["coverage"]["distinct_nontrivial"] = sum(counts.values())
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{prop} [{a.tier}] contracts: {len(proved)}, obligations: {discharged}/{total} discharged"
          f" (bounded: {len(limited)}, {sum(c['discharged'] for c in limited)}/{sum(c['total'] for c in limited)}), {len(refuted)} refuted, {len(undecided)} undecided; "
          f"run-time evaluations (bounded): {sum(counts.values())}, {len(failures)} failures; {time.time() - t0:.1f} s")
    for u in undecided:
        print("  undecided:", u)
    for e in berrors:
        print("  error:", e)
    for r in refuted[:5]:
        print(f"  failed obligation: {r['contract']} ({', '.join(r['functions'])}): {r['obligation']}: {r.get('info') or ''}"[:600])
    for f in fresh[:5]:
        print(f"  failing input: {f['scenario']} case {f['case']}: {f['message']}"[:600])
    if violation:
        print(f"VIOLATION property={prop} replay={replay}" + ("" if fresh else " no-failing-input-found"))
        return 1
    if selftest["wrong"]:
        print("the self-test of the verifier failed:", selftest["wrong"][:3])
        return 2
    if berrors and not sum(counts.values()):
        print("the check could not be carried out")
        return 2
    if not total and not sum(counts.values()):
        print("nothing was checked")
        return 2
    return 0


LEVELS = {}


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                if line.startswith(f"known: property={prop} "):
                    out.append(line.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out


if __name__ == "__main__":
    main()
