"""python -m concrete.run PROPERTY --seed N --budget S --runs N --out FILE [--only scenario --case K]"""
import argparse
import json
import logging
import os
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOIL_REPO", "/repo")
MODULES = ["s_sched", "s_agents", "s_net", "s_events", "s_sim", "s_data", "s_serial", "s_export", "s_topo", "s_config"]


class Timeout(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--runs", type=int, default=100)
    ap.add_argument("--out", required=True)
    ap.add_argument("--only")
    ap.add_argument("--case", type=int)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()

    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    import importlib
    from concrete import base

    report = dict(property=a.property, seed=a.seed, scenarios={}, failures=[], errors=[])

    def alarm(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, alarm)
    real_out = os.dup(1)
    if not a.verbose:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    try:
        try:
            signal.alarm(120)
            import soil
            signal.alarm(0)
        except BaseException as ex:
            report["failures"].append(dict(scenario="import", case=0, message=f"soil cannot be imported: {ex!r}",
                                           notes=[], trace=traceback.format_exc()[-2000:]))
            return finish(a, report)
        if not os.path.abspath(soil.__file__).startswith(os.path.abspath(REPO)):
            report["errors"].append(f"soil imported from {soil.__file__}")
            return finish(a, report)
        logging.disable(logging.CRITICAL)
        for m in MODULES:
            if os.path.exists(os.path.join(HERE, "concrete", m + ".py")):
                importlib.import_module("concrete." + m)
        todo = [s for s in base.SCENARIOS if a.property in s.props and (not a.only or s.name == a.only)]
        from concrete import novel
        base.NUMBERS[:], base.TEXTS[:] = novel.novel(REPO)
        report["novel"] = base.NUMBERS + base.TEXTS
        t_end = time.time() + a.budget
        counts = {s.name: 0 for s in todo}
        active = list(todo)
        k = 0
        while active and time.time() < t_end and (k < a.runs or a.case is not None):
            for s in list(active):
                if time.time() > t_end and counts[s.name] > 0:
                    continue
                case = a.case if a.case is not None else a.seed * 100003 + k
                if s.exhaustive is not None and k >= s.exhaustive:
                    active.remove(s)
                    continue
                counts[s.name] += 1
                base.NOTES.clear()
                base.CURRENT[0] = s.props
                fail = None
                try:
                    signal.alarm(int(s.timeout))
                    s.fn(base.Rng(case) if s.exhaustive is None else k if a.case is None else a.case)
                except base.Skip:
                    pass
                except base.Violation as ex:
                    if a.property in ex.props:
                        fail = (str(ex), traceback.format_exc())
                except Timeout:
                    fail = (f"it does not end (after {s.timeout} s)", traceback.format_exc())
                except BaseException as ex:
                    fail = (f"unexpected error {type(ex).__name__}: {ex}", traceback.format_exc())
                finally:
                    signal.alarm(0)
                if fail:
                    report["failures"].append(dict(scenario=s.name, case=case if s.exhaustive is None else (k if a.case is None else a.case), message=fail[0], notes=list(base.NOTES),
                                                   trace=fail[1][-3000:]))
                    active.remove(s)
            if a.case is not None:
                break
            k += 1
        report["scenarios"] = counts
    except BaseException as ex:
        report["errors"].append(f"{ex!r}: {traceback.format_exc()[-2000:]}")
    finish(a, report)


def finish(a, report):
    with open(a.out, "w") as f:
        json.dump(report, f, indent=1, default=str)
    if not os.environ.get("KEEP_EXIT"):  # (to measure the coverage)
        os._exit(0)


if __name__ == "__main__":
    main()
