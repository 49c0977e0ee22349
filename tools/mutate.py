#!/opt/venv/bin/python
"""
Mutation analysis of the checks (a development tool: no check uses it).

  tools/mutate.py --files time.py agents/fsm.py --out /tmp/mut.jsonl [--jobs 8] [--sample N]

Plants small changes in a copy of /repo, one at a time, and looks for them with the contracts (A) of the function changed, the run-time checks (B) of the
properties related to the file, and, for those that survive, the test suite of the repository.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = {
    "time.py": "C01 C02 C03 C04 C05 C06 C07", "agents/__init__.py": "C01 C05 C08 C12 C16 C25 C26 C02 C20 C10", "agents/fsm.py": "C09 C10 C05 C24 C26 C08",
    "agents/evented.py": "C13 C14 C15", "agents/network_agents.py": "C11 C12 C05 C25", "environment.py": "C03 C11 C13 C16 C17 C20 C25 C02 C06 C12 C28 C05",
    "network.py": "C11 C20 C25 C16 C28", "simulation.py": "C06 C18 C19 C20 C21 C23 C17 C25 C29 C28 C27", "exporters.py": "C19 C21 C17 C27", "serialization.py": "C22 C23 C18 C29",
    "utils.py": "C21 C22 C18 C20", "datacollection.py": "C17 C20 C27", "agents/SISaModel.py": "C24 C25", "events.py": "C14 C13 C15", "__init__.py": "C18 C21 C23 C29 C06", "analysis.py": "C27", "config.py": "C29", "parameters.py": "C18",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def functions(tree, prefix=""):
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield prefix + n.name, n
            yield from functions(n, prefix + n.name + ".")
        elif isinstance(n, ast.ClassDef):
            yield from functions(n, prefix + n.name + ".")
        elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            yield from functions(n, prefix)


def own(fn):
    """Nodes of a function, without those of the functions inside of it"""
    todo = list(fn.body) + [d for d in fn.args.defaults + fn.args.kw_defaults if d is not None]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.append(c)


def mutants(source):
    """(function, line, description, new source)"""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    offs = [0]
    data = [l.encode() for l in lines]
    for l in data:
        offs.append(offs[-1] + len(l))
    raw = source.encode()

    def replace(node, new):
        a, b = offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset
        text = new if isinstance(new, str) else ast.unparse(new)
        if not isinstance(node, ast.stmt):
            text = "(" + text + ")"
        else:
            text = text.replace("\n", "\n" + " " * node.col_offset)
        return (raw[:a] + text.encode() + raw[b:]).decode()

    for name, fn in functions(tree):
        for n in own(fn):
            out = []
            if isinstance(n, ast.Compare):
                for k, op in enumerate(n.ops):
                    if type(op) in CMP:
                        m = copy.deepcopy(n)
                        m.ops[k] = CMP[type(op)]()
                        out.append(m)
                        if type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                            m = copy.deepcopy(n)
                            m.ops[k] = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
                            out.append(m)
            elif isinstance(n, ast.BoolOp):
                m = copy.deepcopy(n)
                m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
                out.append(m)
                for k in range(len(n.values)):
                    m = copy.deepcopy(n)
                    del m.values[k]
                    out.append(m if len(m.values) > 1 else m.values[0])
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                out.append(n.operand)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                m = copy.deepcopy(n)
                m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
                out.append(m)
                out.append(n.left)
            elif isinstance(n, ast.Constant):
                v = n.value
                if v is True or v is False:
                    out.append(ast.Constant(not v))
                elif isinstance(v, (int, float)):
                    out.append(ast.Constant(v + 1))
                elif v is None:
                    pass
                elif isinstance(v, str) and v and len(v) < 20 and not isinstance(getattr(n, "parent", None), ast.Expr):
                    out.append(ast.Constant(v + "x"))
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Constant)):
                out.append((n.test, ast.UnaryOp(ast.Not(), n.test)))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and any(w in ast.unparse(n.value.func) for w in ("log", "print", "info", "debug", "warn")):
                    continue
                out.append("pass")
                if isinstance(n, ast.AugAssign):
                    m = copy.deepcopy(n)
                    m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
                    out.append(m)
            elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                out.append("return None")
            elif isinstance(n, ast.Break):
                out.append("continue")
            elif isinstance(n, ast.Continue):
                out.append("pass")
            elif isinstance(n, ast.Call):
                for k in range(len(n.keywords)):
                    if n.keywords[k].arg:
                        m = copy.deepcopy(n)
                        del m.keywords[k]
                        out.append(m)
                if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "set", "dict", "sorted", "reversed", "deepcopy", "copy", "float", "str") and len(n.args) == 1 and not n.keywords:
                    out.append(n.args[0])
            for m in out:
                node, new = m if isinstance(m, tuple) else (n, m)
                try:
                    src = replace(node, new)
                    t2 = ast.parse(src)
                except SyntaxError:
                    continue
                if ast.dump(t2) == ast.dump(tree):
                    continue
                old = ast.get_source_segment(source, node) or ""
                yield name, node.lineno, f"{old.strip()[:110]!r} -> {(new if isinstance(new, str) else ast.unparse(new))[:110]!r}", src


def sh(cmd, cwd, timeout, **env):
    e = dict(os.environ, **{**dict(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=cwd, MPLCONFIGDIR=cwd, TMPDIR=cwd), **env})
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            return -1
        finally:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
    except OSError:
        return -2


def load(f):
    try:
        with open(f) as h:
            return json.load(h)
    except (OSError, ValueError):
        return None


def stable():
    with open("/opt/vp/BASELINE.json") as f:
        for t in json.load(f)["stable"]:
            mod, test = t.split("::")
            m = mod.split(".")
            yield "/".join(m[:2]) + ".py::" + "::".join(m[2:] + [test])


def attempt(file, m, full):
    name, line, what, src = m
    work = tempfile.mkdtemp(prefix="mut")
    res = dict(file=file, function=name, line=line, what=what)
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "docs", "soil_output", "__pycache__"))
        with open(os.path.join(repo, "soil", file), "w") as f:
            f.write(src)
        run = os.path.join(work, "run")
        os.mkdir(run)
        out = os.path.join(work, "a.json")
        sh([PY, "-m", "contracts.run", "all", "--touch", name, "--jobs", "2", "--out", out], run, 400, SOIL_REPO=repo)
        a = load(out) or dict(contracts=[], errors=["no answer"])
        ref = [f"{c['name']}: {r['obligation']}" for c in a["contracts"] for r in c["refuted"]]
        res["contracts"] = len(a["contracts"])
        res["a"] = sorted(set(ref))[:5]
        res["undecided"] = [f"{c['name']}: {u}"[:200] for c in a["contracts"] for u in c["undecided"]][:3] + a["errors"]
        if ref and not full:
            res["result"] = "A"
            return res
        b = None
        for p in PROPS.get(file, "").split():
            out = os.path.join(work, "b.json")
            if os.path.exists(out):
                os.remove(out)
            sh([PY, "-m", "concrete.run", p, "--seed", "1000", "--runs", "150", "--budget", "8", "--out", out], run, 60, SOIL_REPO=repo)
            r = load(out)
            if r is None:
                b = f"{p}: no answer"
                break
            if r["failures"]:
                b = f"{p}: {r['failures'][0]['scenario']}: {r['failures'][0]['message']}"[:300]
                break
        res["b"] = b
        if b:
            res["result"] = "B" if not ref else "A+B"
            return res
        if ref:
            res["result"] = "A"
            return res
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", *stable()], repo, 200, PYTHONPATH=repo, MPLBACKEND="Agg")
        res["tests_rc"] = t
        res["result"] = "survived"
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", nargs="+", default=sorted(PROPS))
    ap.add_argument("--out", required=True)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--sample", type=int)
    ap.add_argument("--function")
    ap.add_argument("--skip", nargs="*", default=[], help="previous results: those found by the checks (or the tests) are not tried again")
    ap.add_argument("--exclude", nargs="*", default=[], help="functions")
    ap.add_argument("--full", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    todo = []
    for f in a.files:
        with open(os.path.join("/repo/soil", f)) as h:
            ms = list(mutants(h.read()))
        if a.function:
            ms = [m for m in ms if a.function in m[0]]
        todo += [(f, m) for m in ms]
    old = set()
    for name in a.skip:
        with open(name) as h:
            for r in map(json.loads, h):
                if r["result"] != "survived" or r.get("tests_rc"):
                    old.add((r["file"], r["function"], r["line"], r["what"]))
    todo = [(f, m) for f, m in todo if (f,) + tuple(m[:3]) not in old and not any(x in m[0] for x in a.exclude)]
    random.Random(1).shuffle(todo)
    if a.sample:
        todo = todo[: a.sample]
    print(len(todo), "mutants", flush=True)
    if a.list:
        for f, m in todo:
            print(f, m[:3])
        return
    done = {}
    with open(a.out, "a") as h, ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda x: attempt(x[0], x[1], a.full), todo):
            h.write(json.dumps(r) + "\n")
            h.flush()
            done[r["result"]] = done.get(r["result"], 0) + 1
    print(done)


if __name__ == "__main__":
    main()
