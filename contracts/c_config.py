"""Contracts of configurations in files (soil/simulation.py, soil/serialization.py, soil/__init__.py)"""
from .base import *
import os as _os
from vc.loops import VMap, Comp
import soil
from soil import simulation as SIM, serialization as SER


TRUE = z3.BoolVal(True)
I = z3.IntSort()


class Document(Indexed):
    """A document of a configuration: any number of settings, with any names"""

    def vc_segments(self):
        return self.settings(*self.ix)

    def items(self):
        return VMap(self.settings(*self.ix), "document", True).items()

    def vc_isinstance(self, cls):
        return cls in (dict, object)

    def vc_subst(self, a, b):
        return Document(self.kind, *[z3.substitute(x, (a, b)) for x in self.ix], **self.extra)

    def vc_find(self, k):
        return VMap(self.settings(*self.ix), "document", True).vc_find(k)

    def __contains__(self, k):
        return self.vc_find(k) is not None

    def get(self, k, default=None):
        r = self.vc_find(k)
        return default if r is None else r[0]

    def __getitem__(self, k):
        r = self.vc_find(k)
        if r is None:
            raise KeyError(k)
        return r[0]


class Folder(Indexed):
    """The path of a file, or of a folder"""


@contract("C29", ["iter_from_config"], sdict=True, feasible_ms=500,
          assumes=["load_config (its contract)", "Simulation(...): a simulation with those settings (dataclasses)", "os.path.isdir, os.path.dirname (standard library)"])
def from_config(ctx):
    """
    requires  any number of configurations, with any number of documents each, with any settings each; any settings in the call
    ensures   one simulation for each document of each of the configurations, in order, with the settings in it, except those given in the call; its files are
              looked up in the folder of its file, unless it says otherwise
    """
    need(SIM, "serialization", "Simulation", "os")
    from .c_meta import Name, Names, NAMES
    NAMES[0] = Names()
    nc, m = length("configurations"), length("settings in the call")
    nd = ctx.func("documents", I, I)
    ns = ctx.func("settings", I, I, I)
    dname, dwhere = ctx.func("name of the setting", I, I, I, I), ctx.func("setting with the name", I, I, I, I)
    kname, kwhere = ctx.func("name in the call", I, I), ctx.func("argument with the name", I, I)
    isdir = ctx.func("is a folder", I, I, z3.BoolSort())
    a, b, j = z3.Ints("a b j")
    assume(z3.ForAll([a], nd(a) >= 0))
    assume(z3.ForAll([a, b], ns(a, b) >= 0))
    assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), kwhere(kname(j)) == j), patterns=[kname(j)]))
    assume(z3.ForAll([a, b, j], z3.Implies(z3.And(0 <= j, j < ns(a, b)), dwhere(a, b, dname(a, b, j)) == j), patterns=[dname(a, b, j)]))
    settings = lambda c, i: [Comp(z3.IntVal(0), ns(c, i), lambda j: [(TRUE, [(Name(dname(c, i, j)), Indexed("setting", c, i, j))])])]
    kw = VMap([Comp(z3.IntVal(0), m, lambda j: [(TRUE, [(Name(kname(j)), Indexed("given", j))])])], "settings in the call", True)
    t = Name(ctx.input("setting", ctx.fresh("t", I)))

    def load_config(cfg):
        if not isinstance(cfg, Indexed) or cfg.kind != "configuration":
            raise NotApplicable("configuration")
        c = cfg.ix[0]
        yield from rt.yield_all(SymSeq(nd(c), lambda i: (Document("document", c, i, settings=settings), Folder("path", c, i)), "documents"))

    def is_dir(p):
        if not isinstance(p, Folder) or p.kind != "path":
            raise Unsupported("isdir of another path")
        return E.CTX.branch(isdir(*p.ix))

    def dirname(p):
        if not isinstance(p, Folder) or p.kind != "path":
            raise Unsupported("dirname of another path")
        return Folder("folder", *p.ix)

    def made(*args, **d):
        # (the value of an arbitrary setting of the simulation)
        if args or rt.KW not in d:
            raise NotApplicable("settings")
        r = rt.varkw(d).vc_find(t)
        return ("simulation", ABSENT if r is None else r[0])
    os_ = Stub("os", path=Stub("path", isdir=is_dir, dirname=dirname))
    with patched((SIM, "serialization", Stub("serialization", load_config=load_config)), (SIM, "Simulation", made), (SIM, "os", os_)):
        res, end = drive(SIM.iter_from_config(rt.SymArgs(SymSeq(nc, lambda c: Indexed("configuration", c), "configurations")), **{rt.KW: kw}))
    if not returned(end, "no errors"):
        return
    cover("simulations")
    incall = z3.And(0 <= kwhere(t.e), kwhere(t.e) < m, kname(kwhere(t.e)) == t.e)
    isfolder = t.vc_equal("dir_path")

    def docs(c):
        def one(i):
            w = dwhere(c, i, t.e)
            indoc = z3.And(0 <= w, w < ns(c, i), dname(c, i, w) == t.e)
            rest = z3.And(z3.Not(incall), z3.Not(indoc))
            return [(incall, [("simulation", Indexed("given", kwhere(t.e)))]),
                    (z3.And(z3.Not(incall), indoc), [("simulation", Indexed("setting", c, i, w))]),
                    (z3.And(rest, isfolder, isdir(c, i)), [("simulation", Folder("path", c, i))]),
                    (z3.And(rest, isfolder, z3.Not(isdir(c, i))), [("simulation", Folder("folder", c, i))]),
                    (z3.And(rest, z3.Not(isfolder)), [("simulation", ABSENT)])]
        return comp(0, nd(c), one)
    prove_seq(res, [comp(0, nc, lambda c: [(TRUE, [docs(c)])])], "one simulation for each document, with its settings and the options given")


ABSENT = "there is none"


@contract("C29", ["from_config"], assumes=["iter_from_config (its contract)"])
def one_config(ctx):
    """ensures  the simulation, if there is exactly one; otherwise, an error"""
    need(SIM, "iter_from_config")
    n = length("simulations")
    asked = []

    def it(*a, **k):
        asked.append(a)
        return SymSeq(n, lambda i: Indexed("simulation", i), "simulations")
    with patched((SIM, "iter_from_config", it)):
        try:
            out = call(SIM.from_config, "conf")
        except Unsupported:
            raise
    if not out.ok:
        if isinstance(out.exc, (TypeError, NameError)):
            raise NotApplicable(repr(out.exc))
        cover("error")
        prove(n != 1, "no error for just one simulation", out)
        return
    cover("one")
    prove(z3.BoolVal(asked == [("conf",)]), "the configuration is the given one")
    prove(n == 1, "several simulations are an error")
    prove(equal(out.value, Indexed("simulation", 0)), "the simulation of the configuration")


@contract("C29", ["iter_from_file"], sdict=True, assumes=["iter_from_py, iter_from_config (their contracts); files that are not Python code are a ValueError"])
def from_file(ctx):
    """
    requires  any number of files, with any number of simulations each
    ensures   the simulations of each file, in order, once, with the options given
    """
    need(SIM, "iter_from_py", "iter_from_config")
    nf = length("files")
    python, n = ctx.func("is Python code", I, z3.BoolSort()), ctx.func("simulations", I, I)
    a = z3.Int("a")
    assume(z3.ForAll([a], n(a) >= 0))
    X = opaque("option")

    def given(f, args, kw):
        if args or not isinstance(f, Indexed) or f.kind != "file":
            raise NotApplicable("file")
        if rt.KW in kw:
            kw = kw[rt.KW].as_dict()
        prove(z3.BoolVal(set(kw) == {"color"} and kw["color"] is X), "the options are those given", sorted(kw))
        return f.ix[0]

    def py(f, *args, **kw):
        c = given(f, args, kw)
        if not E.CTX.branch(python(c)):
            raise ValueError("not a Python module")
        yield from rt.yield_all(SymSeq(n(c), lambda i: Indexed("simulation", c, i), "simulations"))

    def conf(f, *args, **kw):
        c = given(f, args, kw)
        if E.CTX.branch(python(c)):
            raise External("not a configuration")
        yield from rt.yield_all(SymSeq(n(c), lambda i: Indexed("simulation", c, i), "simulations"))
    with patched((SIM, "iter_from_py", py), (SIM, "iter_from_config", conf)):
        res, end = drive(SIM.iter_from_file(rt.SymArgs(SymSeq(nf, lambda c: Indexed("file", c), "files")), color=X))
    if not returned(end, "no errors"):
        return
    cover("files")
    prove_seq(res, [comp(0, nf, lambda c: [(TRUE, [comp(0, n(c), lambda i: [(TRUE, [Indexed("simulation", c, i)])])])])], "all the simulations of each of the files, in order")


class Name_(Indexed):
    """The name of a file"""

    def vc_isinstance(self, cls):
        return cls in (str, object)


@contract("C29", ["load_config", "load_files"], assumes=["glob.glob: the files that match (standard library)", "load_file (its contract)", "os.path.abspath: the absolute path (standard library)"])
def loading(ctx):
    """
    ensures  a dictionary: itself; otherwise, every document of each of the files that match (any number of them, with any number of documents), with the
             absolute path of its file
    """
    need(SER, "glob", "load_file", "os", "config")
    kind = choice("given", ["dictionary", "pattern", "patterns"])
    if kind == "dictionary":
        d = {"a": 1}
        res, end = drive(SER.load_config(d))
        if not returned(end, "no errors"):
            return
        cover(kind)
        got = list(res.segs)
        prove(z3.BoolVal(len(got) == 1 and got[0][0] == {"a": 1}), "the configuration is the dictionary", got)
        prove(z3.BoolVal(got[0][1].rstrip("/") == _os.getcwd().rstrip("/")), "its files are in the current folder", got)
        prove(z3.BoolVal(d == {"a": 1}), "the dictionary is not modified")
        return
    nf, n = ctx.func("files that match", I, I), ctx.func("documents", I, I, I)
    np = length("patterns") if kind == "patterns" else z3.IntVal(1)
    a, b = z3.Ints("a b")
    assume(z3.ForAll([a], nf(a) >= 0))
    assume(z3.ForAll([a, b], n(a, b) >= 0))

    def glob(p, recursive=False, **k):
        if not isinstance(p, Indexed) or p.kind != "pattern" or k:
            raise NotApplicable("pattern")
        prove(z3.BoolVal(recursive is True), "folders are searched too (**)")
        return VList(SymSeq(nf(*p.ix), lambda f: Name_("file", *p.ix, f), "files").vc_segments(), "files")

    def load_file(f):
        if not isinstance(f, Indexed) or f.kind not in ("file", "absolute"):
            raise NotApplicable("file")
        return SymSeq(n(*f.ix), lambda i: Indexed("document", *f.ix, i), "documents")

    def abspath(f):
        if not isinstance(f, Indexed) or f.kind not in ("file", "absolute"):
            raise NotApplicable("file")
        return Name_("absolute", *f.ix)
    with patched((SER, "glob", glob), (SER, "load_file", load_file), (SER, "os", Stub("os", path=Stub("path", abspath=abspath), getcwd=_os.getcwd))):
        if kind == "pattern":
            res, end = drive(SER.load_config(Name_("pattern", 0)))
        else:
            res, end = drive(SER.load_files(rt.SymArgs(SymSeq(np, lambda p: Name_("pattern", p), "patterns"))))
    if not returned(end, "no errors"):
        return
    cover(kind)
    each = lambda p: comp(0, nf(p), lambda f: [(TRUE, [comp(0, n(p, f), lambda i: [(TRUE, [(Indexed("document", p, f, i), Name_("absolute", p, f))])])])])
    prove_seq(res, [each(z3.IntVal(0))] if kind == "pattern" else [comp(0, np, lambda p: [(TRUE, [each(p)])])],
              "every document of each file, in order and with its path")


class Parameters(Indexed):
    """The parameters of a simulation: a dictionary"""

    def __setitem__(self, k, v):
        LOG[0].add("set", self.ix[0], k, v)

    def vc_setattr(self, k, v):
        raise AttributeError(k)

    def __setattr__(self, k, v):
        raise AttributeError(k)

    def vc_isinstance(self, cls):
        return cls in (dict, object)


class Sim(Indexed):
    """A simulation in a file"""
    @property
    def parameters(self):
        return Parameters("parameters", *self.ix)

    @property
    def debug(self):
        return False

    @property
    def name(self):
        return Indexed("name", *self.ix)

    def run(self, *args, **kw):
        if args:
            raise NotApplicable("arguments of run")
        LOG[0].add("run", self.ix[0], tuple(sorted(kw)), tuple(kw[k] for k in sorted(kw)))
        return Indexed("result", *self.ix)

    def to_yaml(self):
        LOG[0].add("yaml", self.ix[0])
        return "yaml"

    def __setattr__(self, k, v):
        raise Unsupported(f"setting {k} of a simulation changed")


LOG = [None]


class Text(E.Opaque):
    """Some text in the command line: a number, for the limits and iterations"""
    _vc_symbolic = True

    def vc_float(self):
        return SymNum(z3.Function("number in the text", E.Val, z3.RealSort())(self.e))

    def vc_int(self):
        return SymNum(z3.Function("integer in the text", E.Val, I)(self.e))

    def __bool__(self):
        return E.CTX.branch(self.e != E.lit(""))

    def vc_isinstance(self, cls):
        return cls in (str, object)


@contract("C29 C06 C21", ["main"], assumes=["argparse: the options given, or else their default values (standard library; executed, and then the values of the options replaced with any others)",
                                           "iter_from_file, Simulation.run (their contracts)", "eval: the value of a literal"],
          bounded="up to two exporters and two parameters in the command line (any number of simulations in the file, and any values of the rest of the options)")
def command_line(ctx):
    """
    ensures  each of the simulations in the file is run once, in order, with the options of the command line; without an option, with its own setting
    """
    import sys as _sys
    import io
    import contextlib
    import argparse
    log = LOG[0] = Log("events")
    n = length("simulations")
    flags = dict(max_time=["--max_time", "2.5"], max_steps=["--max_steps", "7"], iterations=["--iterations", "3"], seed=["--seed", "0"], dry=["--dry-run"], nodump=["--no-dump"],
                 output=["--output", "/some/out"], set=["--set", "x=5"], set2=["--set", "x=5", "--set", "y='a=b'"], convert=["--only-convert"], csv=["--csv"], exporter=["-e", "my.exporter"],
                 exporters=["-e", "my.exporter", "-e", "other.exporter"], twice=["-e", "my.exporter", "-e", "my.exporter"])
    # one option at a time, and some combinations
    combo = choice("options", [(), ("max_time",), ("max_steps",), ("iterations",), ("seed",), ("dry",), ("nodump",), ("output",), ("set",), ("set2",), ("convert",), ("csv",),
                               ("exporter",), ("exporters",), ("twice", "csv"), ("max_time", "max_steps"), ("seed", "iterations"), ("nodump", "dry", "max_steps"),
                               ("convert", "set"), ("set", "max_time")])
    argv = ["soil", __file__]
    for c in combo:
        argv += flags[c]
    texts = {}
    loaded = []
    parse = argparse.ArgumentParser.parse_args

    def parse_args(self, *a, **k):
        args = parse(self, *a, **k)
        for c, name in (("max_time", "max_time"), ("max_steps", "max_steps"), ("iterations", "iterations"), ("seed", "seed"), ("output", "output")):
            if c in combo:
                if str(getattr(args, name, None)) != str(float(flags[c][1]) if isinstance(getattr(args, name, None), float) else flags[c][1]):
                    raise NotApplicable(f"option {c}")
                if not isinstance(getattr(args, name), str):
                    raise NotApplicable(f"option {c} is converted")
                t = texts[c] = Text(ctx.fresh(f"text of {c}", E.Val))
                ctx.input(f"text of {c}", t.e)
                assume(E.Val.is_text(t.e))
                if c.startswith("max"):
                    # (any other number, or this number written in another way)
                    assume(t.e != E.lit("-1"))
                if c in ("iterations", "max_time", "max_steps"):
                    assume(t.e != E.lit(""))
                setattr(args, name, t)
        return args

    def it(f, **kw):
        loaded.append((f, kw))
        yield from rt.yield_all(SymSeq(n, lambda i: Sim("simulation", i), "simulations"))
    old, lev = _sys.argv, soil.logger.level
    path0 = list(_sys.path)
    try:
        _sys.argv = argv
        with patched((SIM, "iter_from_file", it), (argparse.ArgumentParser, "parse_args", parse_args)), contextlib.redirect_stdout(io.StringIO()):
            out = call(soil.main)
    finally:
        _sys.argv = old
        _sys.path[:] = path0
        soil.logger.setLevel(lev)
    if not returned(out, "no errors"):
        return
    cover(str(combo))
    if len(loaded) != 1:
        raise NotApplicable("files")
    f, kw = loaded[0]
    given = lambda name, default: texts[name] if name in texts else default
    prove(z3.BoolVal(f == __file__), "the file is the given one", f)
    prove(z3.BoolVal(kw.get("dump") is ("nodump" not in combo)), "results are dumped unless told otherwise", kw)
    prove(z3.BoolVal(kw.get("dry_run") is ("dry" in combo)), "dry runs", kw)
    prove(equal(kw.get("outdir"), given("output", "soil_output")), "the output folder is the given one", kw)
    prove(z3.And(z3.BoolVal(("seed" in kw) == ("seed" in combo)), equal(kw.get("seed"), given("seed", None))), "the seed is the given one, or else that of the simulation", kw)
    prove(z3.And(z3.BoolVal(("iterations" in kw) == ("iterations" in combo)), equal(kw.get("iterations"), texts["iterations"].vc_int() if "iterations" in texts else None)),
          "the iterations are the given ones, or else those of the simulation", kw)
    exps = ["default"] + (["my.exporter"] if {"exporter", "exporters", "twice"} & set(combo) else []) + (["other.exporter"] if "exporters" in combo else []) + (["csv"] if "csv" in combo else [])
    prove(z3.BoolVal(kw.get("exporters") == exps), "the exporters are the default one and those given", kw)
    forbidden = [k for k in kw if k in ("parameters", "matrix", "max_time", "max_steps", "model", "name", "group", "backup", "overwrite", "source_file")]
    prove(z3.BoolVal(not [k for k in forbidden if k not in combo]), "the rest of the settings are those of the file", kw)
    events = lambda i: [("set", i, "x", 5)] * ("set" in combo or "set2" in combo) + [("set", i, "y", "a=b")] * ("set2" in combo)
    if "convert" in combo:
        prove_seq(log, [comp(0, n, lambda i: [(TRUE, events(i) + [("yaml", i)])])], "every simulation is converted, and nothing is run")
        prove(z3.BoolVal(isinstance(out.value, (list, VList)) and not (out.value.segs if isinstance(out.value, VList) else out.value)), "no results when converting", out)
        return
    # (the limits may be given to the simulation, or when running it)
    limits = {c: texts[c].vc_float() for c in ("max_time", "max_steps") if c in combo}
    for c in list(limits):
        if c in kw:
            prove(equal(kw[c], limits.pop(c)), f"the limits are those given: {c}")
    lim = ("run",), tuple(sorted(limits)), tuple(limits[k] for k in sorted(limits))
    prove_seq(log, [comp(0, n, lambda i: [(TRUE, events(i) + [("run", i) + lim[1:]])])], "every simulation is run once, in order, with the limits and parameters given, or else its own")
    if not isinstance(out.value, VList):
        raise NotApplicable("results")
    prove_seq(out.value, [comp(0, n, lambda i: [(TRUE, [Indexed("result", i)])])], "the results of every simulation are returned")
