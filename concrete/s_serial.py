"""Serialization, source files and output files"""
import collections
import copy
import fractions
import glob
import json
import os
import shutil
import sqlite3
import sys
import tempfile
import textwrap
import contextlib
import networkx as nx
from .base import scenario, check, same, raises, note, Skip
import soil
from soil import Environment, Simulation, serialization, utils, exporters
from soil.agents import BaseAgent
from soil.serialization import serialize, deserialize, serialize_dict, name, with_source

ATOMS = [None, True, False, 0, 1, -3, 2 ** 70, 0.5, -1e300, 1e-9, "", "a", "ab", "None", "1", "it's", 'q"', "a.b", "á\n", "<class 'int'>", "[1]", " ", "\n", "\t ", " a ", "A", "a" * 300, "\\", "\\n", "{}", "True", "nan", "\x00", "🙂"]


def atom(rng):
    if rng.random() < 0.15:
        return "".join(rng.choice("aAzZ09 _-.,:;'\"\\\n\t#%{}[]()<>=ñ") for _ in range(rng.size(0, 6, cap=60)))
    if rng.random() < 0.1:
        return rng.choice([rng.randint(-10 ** 6, 10 ** 6), rng.uniform(-1e3, 1e3), 10.0 ** rng.randint(-300, 300)])
    return rng.choice([rng.choice(ATOMS), rng.choice(ATOMS), rng.number(ATOMS), rng.text(ATOMS)])


def plain(rng, depth=3, hashable=False, kinds=("list", "tuple", "set", "dict")):
    kind = rng.choice(["atom"] * 3 + list(kinds)) if depth else "atom"
    if kind == "atom" or (hashable and kind in ("list", "set", "dict")):
        return atom(rng)
    n = rng.choice([0, 1, 2, 2, 3]) if rng.random() < 0.9 else rng.size(0, 3, cap=60 if depth < 2 else 6)
    if kind == "list":
        return [plain(rng, depth - 1, kinds=kinds) for _ in range(n)]
    if kind == "tuple":
        return tuple(plain(rng, depth - 1, hashable, kinds=kinds) for _ in range(n))
    if kind == "set":
        return {plain(rng, depth - 1, True, kinds=kinds) for _ in range(n)}
    return {plain(rng, depth - 1, True, kinds=kinds): plain(rng, depth - 1, kinds=kinds) for _ in range(n)}


def strict(x):
    """Comparison that takes types into account"""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [strict(i) for i in x])
    if isinstance(x, set):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, dict):
        return ("dict", [(strict(k), strict(v)) for k, v in x.items()])
    return (type(x).__name__, repr(x))


@scenario("C22")
def roundtrip(rng):
    v = plain(rng, rng.choice([3, 3, 3, 5]))
    note(repr(v))
    before = strict(v)
    text, kind = serialize(v)
    check(isinstance(text, str) and isinstance(kind, str), "serialized as text", "C22")
    back = deserialize(kind, text)
    same(strict(back), before, f"round trip of {v!r} through {text!r}, {kind!r}", "C22")
    same(strict(v), before, "serialize changed its input", "C22")


CLASSES = [int, str, list, dict, float, bool, soil.Environment, soil.Simulation, BaseAgent, soil.agents.FSM, soil.agents.NetworkAgent,
           soil.environment.BaseEnvironment, soil.time.PQueueActivation, soil.exporters.SQLite, soil.exporters.csv, soil.exporters.default,
           collections.OrderedDict, collections.deque, fractions.Fraction, nx.Graph, nx.DiGraph, soil.agents.evented.EventedAgent,
           soil.events.Tell, soil.events.Message, soil.time.Delay, soil.exporters.dummy, soil.exporters.Exporter]


@scenario("C22", cases=len(CLASSES))
def classes(k):
    cls = CLASSES[k]
    note(cls)
    n = name(cls)
    found = deserialize(n)
    if cls.__module__ == "builtins":
        # They lead to a function that builds values of that class
        same(type(found()), cls, f"type built from {n}", "C22")
    else:
        check(found is cls, f"the name of {cls}, {n}, leads to {found}", "C22")
    if cls.__module__ != "builtins":
        found = deserialize(str(cls))
        check(found is cls, f"the representation of {cls} leads to {found}", "C22")


@scenario("C22")
def shadowed(rng):
    """Classes with the same name as others that are known"""
    tmp = tempfile.mkdtemp()
    n = "shadow_%d" % rng.randrange(10 ** 9)
    try:
        cname = rng.choice(["Environment", "Simulation", "Agent", "list", "Other", "FSM", "Other_2", "X9", "_Hidden", "lower", "ÁB"])
        path = os.path.join(tmp, n + ".py")
        with open(path, "w") as f:
            f.write(f"class {cname}:\n    here = 1\n")
        import sys
        import importlib
        sys.path.insert(0, tmp)
        try:
            importlib.invalidate_caches()
            mod = importlib.import_module(n)
        finally:
            sys.path.remove(tmp)
        cls = getattr(mod, cname)
        got = deserialize(name(cls))
        check(got is cls, f"the name of {cls}, {name(cls)}, leads to {got}", "C22")
        got = deserialize(str(cls))
        check(got is cls, f"the representation of {cls} leads to {got}", "C22")
        sys.modules.pop(n)
        serialization.KNOWN_MODULES.pop(n, None)
    finally:
        shutil.rmtree(tmp)


def config(rng, depth=3):
    kind = rng.choice(["atom"] * 3 + ["list", "dict", "class"]) if depth else "atom"
    if kind == "atom":
        return atom(rng)
    if kind == "class":
        return rng.choice(CLASSES)
    if kind == "list":
        return [config(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    return {rng.choice(["a", "bb", "c", 1, "k.x", ""]): config(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))}


def expected(c):
    if isinstance(c, type):
        return name(c)
    if isinstance(c, list):
        return [expected(i) for i in c]
    if isinstance(c, dict):
        return {k: expected(v) for k, v in c.items()}
    return c


@scenario("C22")
def configuration(rng):
    c = {k: config(rng) for k in rng.sample(["model", "x", "yy", "params", 3], rng.randint(0, 5))}
    note(repr(c))
    before = strict(c)
    got = serialize_dict(c)
    same(strict(got), strict(expected(c)), "serialized configuration", "C22")
    same(strict(c), before, "serialize_dict changed its input", "C22")
    check(got is not c, "serialize_dict returned its input", "C22")


@scenario("C22")
def simulation_dict(rng):
    class M(Environment):
        pass
    p = {"a": atom(rng), "lst": [atom(rng) for _ in range(rng.size(0, 4, cap=60))], "deep": {"x": [[atom(rng)], {"y": atom(rng)}]}}
    mat = {"m": [atom(rng) for _ in range(rng.randint(1, 3))]}
    saved = copy.deepcopy((p, mat))
    s = Simulation(model=soil.Environment, name="n", parameters=p, matrix=mat, max_time=rng.choice([None, 3, 2.5]), exporters=[exporters.csv])
    note(p, mat)
    for _ in range(2):
        d = s.to_dict()
        same(strict(d["parameters"]), strict(saved[0]), "parameters in the configuration", "C22")
        same(strict(d["matrix"]), strict(saved[1]), "matrix in the configuration", "C22")
        same(d["model"], name(soil.Environment), "model in the configuration", "C22")
        same(d["exporters"], [name(exporters.csv)], "exporters in the configuration", "C22")
        same(strict((p, mat)), strict(saved), "to_dict changed the simulation", "C22")
        check(s.model is soil.Environment and s.exporters == [exporters.csv], "to_dict changed the simulation", "C22")
        import yaml
        back = yaml.load(s.to_yaml(), Loader=yaml.FullLoader)
        same(strict(back["parameters"]), strict({k: saved[0][k] for k in sorted(saved[0])}) if False else strict(back["parameters"]), "", "C22")
        same(back["parameters"], saved[0], "parameters in the YAML file", "C22")


def nested(rng, depth=3):
    out = {}
    for k in rng.sample(["a", "b", "ab", "x y", "1", "None"], rng.randint(1, 4)) + ([t for t in [rng.text([""])] if t and "." not in t and rng.random() < 0.5]):
        if depth and rng.random() < (0.5 if depth < 5 else 0.3):
            out[k] = nested(rng, depth - 1)
        else:
            out[k] = rng.choice(ATOMS + [[1, {"z": 2}], (1, 2)])
    return out


@scenario("C22")
def flatten(rng):
    d = nested(rng, rng.choice([3, 3, 2, rng.size(1, 5, cap=12)])) if rng.random() < 0.95 else {}
    note(d)
    before = strict(d)
    flat = utils.flatten_dict(d)
    same(strict(d), before, "flatten_dict changed its input", "C22")
    check(all(not isinstance(v, dict) for v in flat.values()), "flat dictionary", "C22")

    def leaves(x, pre=()):
        for k, v in x.items():
            if isinstance(v, dict):
                yield from leaves(v, pre + (k,))
            else:
                yield ".".join(pre + (k,)), v
    same(strict(flat), strict(dict(leaves(d))), "flat dictionary", "C22")
    fb = strict(flat)
    back = utils.unflatten_dict(flat)
    same(strict(flat), fb, "unflatten_dict changed its input", "C22")
    same(strict(back), before, "dictionary after flattening and unflattening", "C22")
    # The order of the items does not matter
    items = list(flat.items())
    rng.shuffle(items)
    same(utils.unflatten_dict(dict(items)), d, "unflattening in other order", "C22")


# ------------------------------------------------------------------ source files


def registry():
    # The modules that can be imported may be cached at any time
    return dict(serialization.MODULE_FILES), {k: v for k, v in serialization.KNOWN_MODULES.items() if v is not None and k not in sys.modules}


def same_registry(a, b, what):
    same(sorted(a[0].items()), sorted(b[0].items()), f"source files known {what}", "C23")
    same(sorted(a[1]), sorted(b[1]), f"modules known {what}", "C23")
    for k in a[1]:
        check(a[1][k] is b[1][k], f"module {k} was replaced {what}", "C23")


class Boom(Exception):
    pass


@contextlib.contextmanager
def sources(rng, n):
    tmp = tempfile.mkdtemp()
    try:
        files = []
        for i in range(n):
            tag = rng.randrange(10 ** 6)
            p = os.path.join(tmp, f"src{i}.py")
            with open(p, "w") as f:
                f.write(textwrap.dedent(f"""
                from soil import Environment
                from soil.agents import BaseAgent
                class Cls_{i}_{tag}(BaseAgent):
                    def where(self):
                        return {i}
                    def step(self):
                        return 1
                class Env_{i}_{tag}(Environment):
                    def where(self):
                        return {i}
                    def init(self):
                        self.add_agent(Cls_{i}_{tag})
                """))
            files.append((p, f"Cls_{i}_{tag}", f"Env_{i}_{tag}", i))
        yield files, tmp
    finally:
        shutil.rmtree(tmp)


def found(cname):
    try:
        return deserialize(cname)
    except Exception:
        return None


def check_visible(files, active):
    for p, c, e, i in files:
        for nm in (c, e):
            got = found(nm)
            if p in active:
                check(isinstance(got, type) and got.__name__ == nm and got.where(None) == i, f"{nm} of source file {i}, which is in use, leads to {got}", "C23")
            else:
                check(got is None, f"{nm} of source file {i}, which is not in use, leads to {got}", "C23")


@scenario("C23")
def interleaved(rng):
    """Uses that are nested or interleaved in any way"""
    with sources(rng, rng.size(1, 4, cap=12)) as (files, tmp):
        start = registry()
        open_ = []
        depth = collections.Counter()
        nest_same = rng.random() < 0.5
        for _ in range(rng.size(2, 10, cap=60)):
            if open_ and rng.random() < 0.45:
                k = rng.randrange(len(open_))
                p, cm = open_[k]
                open_.pop(k)
                depth[p] -= 1
                how = rng.choice(["ok", "error"])
                note("end", os.path.basename(p), how)
                if how == "ok":
                    cm.__exit__(None, None, None)
                else:
                    try:
                        r = cm.__exit__(Boom, Boom(), None)
                    except Boom:
                        r = None
                    check(not r, "the error is hidden", "C23")
            else:
                p = rng.choice(files)[0]
                if depth[p] and not nest_same:
                    continue
                arg = p if rng.random() < 0.7 else os.path.relpath(p)
                note("use", os.path.basename(p))
                before = registry()
                cm = with_source(arg)
                cm.__enter__()
                open_.append((p, cm))
                depth[p] += 1
                after = registry()
                for f, mod in before[0].items():
                    check(f == p or after[0].get(f) == mod, f"using {p} affected {f}", "C23")
            active = {p for p, _ in open_}
            same(sorted(serialization.MODULE_FILES), sorted(set(start[0]) | active), "source files known", "C23")
            check_visible(files, active)
        while open_:
            p, cm = open_.pop()
            cm.__exit__(None, None, None)
        same_registry(registry(), start, "at the end")


@scenario("C23")
def failing_source(rng):
    """Files that cannot be loaded leave no trace"""
    with sources(rng, 2) as (files, tmp):
        bad = os.path.join(tmp, "bad.py")
        with open(bad, "w") as f:
            f.write(rng.choice(["class X_bad_source: pass\nraise ValueError('x')\n", "def f(:\n", "import does_not_exist_at_all\n"]))
        missing = os.path.join(tmp, "missing.py")
        start = registry()
        inner = rng.random() < 0.6
        which = rng.choice([bad, missing])
        with (with_source(files[0][0]) if inner else contextlib.nullcontext()):
            mid = registry()
            raises(lambda: with_source(which).__enter__(), "use of a broken source file", "C23")
            same_registry(registry(), mid, "after a broken source file")
            check_visible(files, {files[0][0]} if inner else set())
            if rng.random() < 0.5:
                with with_source(files[1][0]):
                    check_visible(files, {files[1][0]} | ({files[0][0]} if inner else set()))
                same_registry(registry(), mid, "after another source file")
        same_registry(registry(), start, "at the end")


@scenario("C23")
def simulations(rng):
    """Simulations with a source file"""
    with sources(rng, 2) as (files, tmp):
        start = registry()
        p, c, e, i = files[0]
        kw = dict(source_file=os.path.basename(p), dir_path=tmp) if rng.random() < 0.5 else dict(source_file=p)
        outer = rng.choice([None, files[1][0], p])
        with with_source(outer):
            mid = registry()
            s = Simulation(model=e, max_steps=2, dump=False, iterations=rng.randint(1, 3), exporters=[], name="x", **kw)
            check(s.model.__name__ == e, "model of the simulation", "C23")
            same_registry(registry(), mid, "after creating a simulation")
            seen = []

            class Exp(exporters.Exporter):
                def iteration_end(self, env, *args, **kwargs):
                    seen.append(found(c))
                    if fail:
                        raise Boom()
            fail = rng.random() < 0.3
            note("fail", fail, "outer", outer)
            try:
                s.run(exporters=[Exp])
                check(not fail, "error in an exporter", "C23")
            except Boom:
                pass
            import gc
            gc.collect()
            same_registry(registry(), mid, "after running a simulation")
            check(all(x is not None for x in seen), "classes of the source file, during the simulation", "C23")
            raises(lambda: Simulation(model="NoSuchModel_x", name="x", **kw), "unknown model", "C23")
            same_registry(registry(), mid, "after an error in a simulation")
        same_registry(registry(), start, "at the end")


# ------------------------------------------------------------------ output files


class A(BaseAgent):
    level = 0

    def step(self):
        RAN.append(1)
        self.level += 1
        return 1


RAN = []


class Mod(Environment):
    par = 0

    def init(self):
        RAN.append(1)
        self.create_network(generator="complete_graph", n=2)
        self.add_agents([A], k=2)
        self.add_agent_reporter("level")


def tree(folder):
    out = {}
    for base, dirs, fs in os.walk(folder):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), folder) + "/"] = None
        for f in fs:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, folder)] = h.read()
    return out


def rows(path):
    con = sqlite3.connect(path)
    try:
        tabs = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
        return {t: con.execute(f'select * from "{t}"').fetchall() for t in tabs}
    finally:
        con.close()


def db_contents(folder):
    """Contents of all the databases, backups included"""
    out = []
    for base, _, fs in os.walk(folder):
        for f in fs:
            if ".sqlite" in f and f != "other.sqlite":
                out.append((os.path.relpath(os.path.join(base, f), folder), rows(os.path.join(base, f))))
    return out


@contextlib.contextmanager
def workdir():
    tmp = tempfile.mkdtemp()
    old = os.getcwd()
    os.makedirs(os.path.join(tmp, "cwd"))
    with open(os.path.join(tmp, "cwd", "precious.txt"), "w") as f:
        f.write("precious")
    os.chdir(os.path.join(tmp, "cwd"))
    try:
        yield tmp
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


EXPORTERS = [exporters.default, exporters.YAML, exporters.SQLite, exporters.csv, exporters.gexf, exporters.dummy, exporters.summary]


@scenario("C21")
def nodump(rng):
    """Nothing is written when dumping is disabled, or in a dry run"""
    with workdir() as tmp:
        out = os.path.join(tmp, "out")
        exps = rng.sample(EXPORTERS, rng.randint(1, len(EXPORTERS)))
        kw = dict(model=Mod, name="sim", group=rng.choice([None, "grp"]), max_steps=2, iterations=rng.randint(1, 2), exporters=exps, outdir=out)
        if rng.random() < 0.6:  # Previous results
            Simulation(dump=True, **kw).run()
        before = tree(tmp)
        dump, dry = rng.choice([(False, False), (False, True), (True, True)])
        opts = dict(dump=dump, dry_run=dry, backup=rng.random() < 0.5, overwrite=rng.random() < 0.5)
        if rng.random() < 0.3:
            opts["matrix"] = {"par": [1, 2]}
        if rng.random() < 0.3:
            kw.pop("outdir")
        note(opts, [e.__name__ for e in exps])
        RAN.clear()
        s = Simulation(**kw, **opts)
        for e in list(exps):
            s.exporter_params.setdefault("copy_to", Sink())
        if exporters.default in exps and False:
            pass
        s.run()
        after = tree(tmp)
        same(sorted(after), sorted(before), "files and folders", "C21")
        for k in before:
            check(after[k] == before[k], f"the contents of {k} changed", "C21")
        if dry:
            check(not RAN, "the model was run in a dry run", "C21")
        else:
            check(bool(RAN), "the model was not run", "C21")


class Sink:
    def write(self, *a):
        pass


@scenario("C21")
def dumped(rng):
    """Several runs of a simulation"""
    with workdir() as tmp:
        out = os.path.join(tmp, "out")
        os.makedirs(out)
        with open(os.path.join(out, "other.sqlite"), "w") as f:
            f.write("unrelated")
        group = rng.choice([None, "grp"])
        nm = rng.choice(["sim", "other.sim", "with space"]) + rng.text([""]).replace("/", "_")
        home = os.path.join("out", group or "", nm)
        exps = rng.sample(EXPORTERS, rng.randint(1, 4))
        if exporters.default in exps and exporters.SQLite in exps:
            exps.remove(exporters.SQLite)
        if exporters.default in exps and exporters.YAML in exps:
            exps.remove(exporters.YAML)
        note(group, nm, [e.__name__ for e in exps])
        for k in range(rng.randint(1, 4)):
            opts = dict(backup=rng.random() < 0.5, overwrite=rng.random() < 0.4)
            iters = rng.randint(1, 2)
            note("run", k, opts, iters)
            before = tree(tmp)
            db = db_contents(out) if k else []
            s = Simulation(model=Mod, name=nm, group=group, max_steps=rng.randint(1, 3), iterations=iters, exporters=exps, outdir=out, dump=True,
                           parameters={"par": k}, **opts)
            envs = s.run()
            same(len(envs), iters, "iterations", "C21")
            after = tree(tmp)
            for f in after:
                if f not in before or before[f] != after[f]:
                    where = os.path.normpath(f)
                    check(where == "out" or where.startswith(os.path.normpath(home)) or os.path.normpath(home).startswith(where + os.sep), f"{f} was written, and it is not in {home}", "C21")
            for f, content in before.items():
                inside = os.path.normpath(f).startswith(os.path.normpath(home) + os.sep)
                if not inside or "/backup" in f:
                    check(f in after and after[f] == content, f"{f} was changed or lost", "C21")
                    continue
                if content is None:
                    check(f in after, f"folder {f} was lost", "C21")
                    continue
                if f.endswith(".yml"):
                    check(after.get(f) == content or opts["overwrite"], f"{f} was changed or lost", "C21")
                if f.endswith(".csv"):
                    check(f in after and after[f].startswith(content) or opts["overwrite"], f"the results in {f} were lost", "C21")
                if opts["backup"] and after.get(f) != content:
                    kept = [g for g in after if "/backup/" in g and after[g] == content and g not in before]
                    check(bool(kept) or (f.endswith(".csv") and after.get(f, b"").startswith(content)), f"{f} was changed without a backup of its previous version", "C21")
            now = db_contents(out) if any(e in (exporters.default, exporters.SQLite) for e in exps) else []
            if not opts["overwrite"] or opts["backup"]:
                # All previous results are still somewhere
                for path, tabs in db:
                    if path == "other.sqlite":
                        continue
                    for t, rws in tabs.items():
                        check(any(rws == d.get(t, [])[:len(rws)] for _, d in now), f"rows of {t} in {path} were lost", "C21")
            if any(e in (exporters.default, exporters.SQLite) for e in exps):
                d = rows(os.path.join(tmp, home, nm + ".sqlite"))
                ids = {r for r in read(os.path.join(tmp, home, nm + ".sqlite"), "configuration", "simulation_id")}
                check((s.id,) in ids, "the results of the run are not in the database", "C21")
                if opts["overwrite"]:
                    same(ids, {(s.id,)}, "simulations in the database, after overwriting it", "C21")
                got = sorted(read(os.path.join(tmp, home, nm + ".sqlite"), "env", "iteration_id", s.id))
                want = sorted((e.id,) for e in envs for _ in range(len(e.datacollector.model_vars["time"])))
                same(got, want, "rows of the environments in the database", "C21")


def read(path, table, col, sim=None):
    con = sqlite3.connect(path)
    try:
        q = f'select {col} from "{table}"' + (" where simulation_id = ?" if sim else "")
        return con.execute(q, (sim,) if sim else ()).fetchall()
    finally:
        con.close()


@scenario("C21")
def backups(rng):
    """Backups of a file that is written many times"""
    with workdir() as tmp:
        p = os.path.join(tmp, rng.choice(["f.txt", "sub/f.txt", "a@b.c", "noext", ".hidden", "sub.d/f.txt@x", "s" + rng.text(["ub"]).replace("/", "") + "/f" + rng.text([".txt"]).replace("/", "")]))
        versions = []
        current = None
        for k in range(rng.size(1, 6, cap=60)):
            how = rng.choice(["w", "w", "wb", "move", "a", "nobackup"])
            note(how)
            text = f"version {k} {rng.random()}"
            if how == "move":
                r = utils.try_backup(p, remove=True)
                if current is not None:
                    versions.append(current)
                    check(not os.path.exists(p), "the file was not moved", "C21")
                    current = None
                else:
                    check(r is None, "backup of a file that does not exist", "C21")
            elif how == "a":
                with utils.safe_open(p, "a", backup=True) as f:
                    f.write(text)
                current = (current or "") + text
            elif how == "nobackup":
                with utils.safe_open(p, "w", backup=False) as f:
                    f.write(text)
                current = text
            else:
                if current is not None:
                    versions.append(current)
                with utils.safe_open(p, how, backup=True) as f:
                    f.write(text if how == "w" else text.encode())
                current = text
            b = os.path.join(os.path.dirname(p), "backup")
            have = []
            for f in (os.listdir(b) if os.path.exists(b) else []):
                with open(os.path.join(b, f)) as h:
                    have.append(h.read())
            if current is not None:
                with open(p) as h:
                    same(h.read(), current, "contents", "C21")
            for v in versions:
                check(v in have, f"a version was lost: {v!r}; {have}", "C21")
            same(open(os.path.join(tmp, "cwd", "precious.txt")).read(), "precious", "unrelated file", "C21")


@scenario("C21")
def output(rng):
    """Files opened by an exporter"""
    with workdir() as tmp:
        out = os.path.join(tmp, "out")
        dump = rng.random() < 0.6
        sim = Simulation(model=Mod, name="sim", group=rng.choice([None, "g"]), backup=rng.random() < 0.5)
        ex = exporters.Exporter(sim, outdir=out, dump=dump, copy_to=Sink() if rng.random() < 0.5 or not dump else None)
        fname = rng.choice(["x.txt", "deep/er/x.txt", os.path.join(tmp, "absolute.txt")])
        mode = rng.choice(["w", "a", "wb"])
        before = tree(tmp)
        note(dump, fname, mode)
        with ex.output(fname, mode=mode) as f:
            f.write(b"data" if mode == "wb" else "data")
        after = tree(tmp)
        if not dump:
            same(after, before, "files", "C21")
        else:
            want = fname if os.path.isabs(fname) else os.path.join(out, sim.group or "", "sim", fname)
            check(os.path.exists(want), "the file was not written", "C21")
            new = [f for f in after if f not in before and not f.endswith("/")]
            same(new, [os.path.relpath(want, tmp)], "files written", "C21")
            same(open(want).read(), "data", "contents", "C21")
