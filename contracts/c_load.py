"""Contracts of the creation of simulations (Simulation.__post_init__), of the functions that load and run them, and of some simple helpers"""
import contextlib as _contextlib
import inspect as _inspect
from .base import *
import soil
from soil import simulation as SIM, serialization as SER, environment as ENV, decorators as DEC
from soil.simulation import Simulation
from soil.agents import fsm as FSMOD, BaseAgent
import soil.agents as AG

I = z3.IntSort()
TRUE = z3.BoolVal(True)


@contract("C29 C23", ["Simulation.__post_init__"], assumes=["with_source, deserialize (their contracts)", "os.path (standard library)"])
def created(ctx):
    """
    ensures  the model is the given class, or the class with the given name, which is looked up while the source file of the simulation is in use;
             the source file is looked up in the folder of the simulation; the name is the given one, or else that of the model; nothing else changes,
             and no source file is left in use (not even after an error)
    """
    need(SIM, "serialization", "os")
    name = choice("name", [None, "given"])
    model = choice("model", ["text", "class"])
    source = choice("source file", [None, "", "relative", "absolute"])
    bad = choice("the model", ["found", "unknown"]) if model == "text" else "found"

    class Cls:
        pass
    found = type("Found", (), {})
    folder = opaque("folder")
    events, using = [], []

    def join(*a):
        return ("join",) + a

    def isabs(p):
        return isinstance(p, tuple) and p[0] in ("abs",) or p == "absolute"

    def abspath(p):
        return p if isabs(p) else ("abs", p)

    @_contextlib.contextmanager
    def with_source(file=None):
        events.append(("in", file))
        using.append(file)
        try:
            yield
        finally:
            using.pop()
            events.append(("out", file))

    def deserialize(t, *a, **k):
        if a or k:
            raise NotApplicable("arguments of deserialize")
        events.append(("find", t, tuple(using)))
        if bad == "unknown":
            raise External("unknown class")
        return found
    par, mat = {"a": opaque("a")}, {"m": opaque("m")}
    ar, mr, tb = {"x": 1}, {"y": 2}, {"z": 3}
    fields = dict(name=name, model="some.Model" if model == "text" else Cls, source_file=source, dir_path=folder, parameters=par, matrix=mat, agent_reporters=ar, model_reporters=mr, tables=tb,
                  level=30, seed=opaque("seed"), max_time=opaque("max_time"), max_steps=opaque("max_steps"), iterations=integer("iterations"), dump=boolean("dump"), dry_run=boolean("dry run"),
                  outdir=opaque("outdir"), exporters=opaque("exporters"), backup=boolean("backup"), overwrite=boolean("overwrite"), group=opaque("group"))
    sim = make(Simulation, "simulation", **fields)
    os_ = Stub("os", path=Stub("path", isabs=isabs, abspath=abspath, join=join))
    log = Stub("logger", getChild=lambda n: Logger())
    with patched((SIM, "serialization", Stub("serialization", with_source=with_source, deserialize=deserialize)), (SIM, "os", os_), (SIM, "logger", log), (SIM, "current_time", lambda: 12.5)):
        out = call(sim.__post_init__)
    prove(z3.BoolVal(not using), "no source file is left in use")
    src = ("abs", ("join", folder, "relative")) if source == "relative" else source
    if bad == "unknown":
        cover("unknown")
        prove(z3.BoolVal(not out.ok and isinstance(out.exc, External)), "an unknown model is an error", out)
        return
    if not returned(out, "no errors"):
        return
    cover(f"{model} {source}")
    d = sim.__dict__
    prove(z3.BoolVal(d["model"] is (found if model == "text" else Cls)), "the model is the given one", d["model"])
    prove(z3.BoolVal(d["name"] == ("given" if name else "some.Model" if model == "text" else "Cls")), "the name is the given one, or else that of the model", d["name"])
    finds = [e for e in events if e[0] == "find"]
    if model == "text":
        prove(z3.BoolVal(bool(finds) and all(f[1] == "some.Model" for f in finds)), "the model is looked up by its name", finds)
        if src:
            prove(z3.BoolVal(src in [u for f in finds for u in f[2]]), "the model is looked up while its source file is in use", events)
    if src:
        prove(z3.BoolVal(d["source_file"] == src), "the source file is in the folder of the simulation", d["source_file"])
    else:
        prove(z3.BoolVal(not d["source_file"]), "there is no source file")
    prove(z3.BoolVal(all(not e[1] or e[1] == src for e in events if e[0] in ("in", "out"))), "only its own source file is used", events)
    for k, v in fields.items():
        if k not in ("name", "model", "source_file"):
            prove(z3.BoolVal(d.get(k) is v), f"the setting {k} is kept", d.get(k))
    prove(z3.BoolVal(par.keys() == {"a"} and mat.keys() == {"m"} and ar == {"x": 1} and mr == {"y": 2} and tb == {"z": 3}), "the settings are not modified")


LOG = [None]


class Made(Indexed):
    """A simulation"""

    def run(self, *a, **kw):
        if a:
            raise NotApplicable("arguments of run")
        LOG[0].add("run", self, tuple(sorted(kw)), tuple(kw[k] for k in sorted(kw)))
        return Indexed("results", *self.ix)

    @property
    def name(self):
        return "name"


@contract("C29", ["from_file", "from_py", "run_from_file"], assumes=["iter_from_file, iter_from_py, Simulation.run (their contracts)"])
def shortcuts(ctx):
    """
    ensures  from_file returns all the simulations in the files, with the settings given; from_py returns the first one in a file; run_from_file runs each of
             them once, in order, with the settings given
    """
    need(SIM, "iter_from_file", "iter_from_py")
    log = LOG[0] = Log("events")
    n = length("simulations")
    what = choice("function", ["from_file", "from_py", "run_from_file"])
    nf = length("files")
    files = SymSeq(nf, lambda i: Indexed("file", i), "files")
    asked = []
    X = opaque("setting")

    def it(*a, **kw):
        asked.append((rt.varargs(a), kw))
        if what == "from_py":
            yield Made("simulation", 0)
            yield from rt.yield_all(SymSeq(n - 1, lambda i: Made("simulation", i + 1), "simulations"))
            return
        yield from rt.yield_all(SymSeq(n, lambda i: Made("simulation", i), "simulations"))
    with patched((SIM, "iter_from_file", it), (SIM, "iter_from_py", it)):
        if what == "from_py":
            assume(n > 0)
            out = call(SIM.from_py, "file.py")
        elif what == "from_file":
            out = call(SIM.from_file, rt.SymArgs(files), color=X)
        else:
            out = call(SIM.run_from_file, rt.SymArgs(files), color=X)
    if not returned(out, "no errors"):
        return
    cover(what)
    if len(asked) != 1:
        raise NotApplicable("files")
    a, kw = asked[0]
    if what == "from_py":
        prove(z3.BoolVal(a == ("file.py",) and not kw), "the file is the given one", asked)
        prove(equal(out.value, Made("simulation", 0)), "the first of the simulations")
        prove(z3.BoolVal(not log.segs), "nothing is run")
        return
    if not isinstance(a, VList):
        raise NotApplicable("files")
    prove_seq(a, [comp(0, nf, lambda i: [(TRUE, [Indexed("file", i)])])], "the files are those given")
    if what == "from_file":
        prove(z3.BoolVal(set(kw) == {"color"} and kw["color"] is X and not log.segs), "loaded with the settings given, and not run", kw)
        if not isinstance(out.value, VList):
            raise NotApplicable("result")
        prove_seq(out.value, [comp(0, n, lambda i: [(TRUE, [Made("simulation", i)])])], "all the simulations in the files")
        return
    # (the settings may be given on load or when running)
    if kw:
        prove(z3.BoolVal(set(kw) == {"color"} and kw["color"] is X), "the settings are those given", kw)
        want = lambda i: ("run", Made("simulation", i), (), ())
    else:
        want = lambda i: ("run", Made("simulation", i), ("color",), (X,))
    prove_seq(log, [comp(0, n, lambda i: [(TRUE, [want(i)])])], "every simulation is run once, in order, with the settings given")


@contract("C18 C29", ["BaseEnvironment.run", "run"], assumes=["Simulation(...), Simulation.run (their contracts)"])
def run_model_class(ctx):
    """ensures  a simulation of the model with exactly the settings given is run once, and its results are returned"""
    need(SIM, "Simulation")
    log = LOG[0] = Log("events")
    made = []
    its = integer("iterations")
    what = choice("function", ["method", "function"])
    name = choice("name", [None, "given"])
    extra = choice("settings", [False, True])

    class Env(ENV.Environment):
        pass

    def simulation(*a, **kw):
        if a:
            raise NotApplicable("arguments")
        made.append(kw)
        return Made("simulation", len(made) - 1)
    kw = dict(iterations=its) if choice("iterations", [True, False]) else {}
    if extra:
        kw.update(max_time=real("max_time"), parameters={"a": 1}, dump=boolean("dump"), seed=opaque("seed"))
    if name:
        kw["name"] = name
    with patched((SIM, "Simulation", simulation)):
        out = call(Env.run, **kw) if what == "method" else call(SIM.run, Env, **kw)
    if not returned(out, "no errors"):
        return
    cover(what)
    if len(made) != 1:
        raise NotApplicable("simulations")
    got = made[0]
    prove(z3.BoolVal(got.get("model") is Env), "the model is the given one", got)
    for k, v in kw.items():
        prove(equal(got[k], v) if k in got else z3.BoolVal(False), f"the setting {k} is the given one")
    rest = {k: v for k, v in got.items() if k not in kw and k not in ("model", "name")}
    neutral = dict(iterations=1, num_processes=1, dump=False)
    prove(z3.BoolVal(all(k in neutral and rest[k] == neutral[k] for k in rest)), "no other settings", rest)
    if what == "method" and not name:
        prove(z3.BoolVal(got.get("name") in (None, "Env")), "the name of the simulation is that of the model", got)
    prove_seq(log, [("run", Made("simulation", 0), (), ())], "the simulation is run once")
    prove(equal(out.value, Indexed("results", 0)), "its results are returned")


@contract("C22 C23", ["get_module"], assumes=["importlib.import_module (standard library)"])
def modules(ctx):
    """ensures  a module that is known (such as that of a source file in use) is returned as it is; otherwise, it is imported; the rest of modules are not affected"""
    need(SER, "importlib", "KNOWN_MODULES")
    state = choice("module", ["known", "not loaded", "unknown", "error"])
    mods = {"soil": None, "other": "other module"}
    if state == "known":
        mods["m"] = "the module"
    elif state == "not loaded":
        mods["m"] = None
    before = dict(mods)
    imports = []

    def import_module(n, *a):
        imports.append(n)
        if state == "error":
            raise ImportError(n)
        return "imported module"
    with patched((SER, "KNOWN_MODULES", mods), (SER, "importlib", Stub("importlib", import_module=import_module))):
        out = call(SER.get_module, "m")
    others = {k: v for k, v in mods.items() if k != "m"}
    prove(z3.BoolVal(others == {k: v for k, v in before.items() if k != "m"}), "the rest of modules are not affected", others)
    cover(state)
    if state == "error":
        prove(z3.BoolVal(not out.ok and isinstance(out.exc, ImportError)), "a module that does not exist is an error", out)
        prove(z3.BoolVal(not mods.get("m")), "a module that does not exist is not known")
        return
    if not returned(out, "no errors"):
        return
    prove(z3.BoolVal(out.value == ("the module" if state == "known" else "imported module")), "the module is the known one, or else is imported", out)
    prove(z3.BoolVal(not imports if state == "known" else set(imports) == {"m"}), "known modules are not imported", imports)


# ------------------------------------------------------------------ decorators


@contract("C10 C09", ["state", "default_state", "State.id", "State.__call__"], assumes=["inspect: the kind of a function (standard library)"])
def decorators(ctx):
    """
    ensures  a state has the function, and the name and default given (or else the name of the function, and that it is not the default), and is a multi-step one
             if and only if the function is a generator or a coroutine; states cannot be called
    """
    need(FSMOD, "state", "default_state", "State")

    def plain(self):
        pass

    def gen(self):
        yield 1

    async def coro(self):
        pass
    f = choice("function", [plain, gen, coro])
    how = choice("how", ["bare", "called", "name", "positional name", "default", "name and default", "default_state", "bare then default_state"])
    s = FSMOD.state
    forms = {"bare": lambda: s(f), "called": lambda: s()(f), "name": lambda: s(name="other")(f), "positional name": lambda: s("other")(f), "default": lambda: s(default=True)(f),
             "name and default": lambda: s(name="other", default=True)(f), "default_state": lambda: FSMOD.default_state(s()(f)), "bare then default_state": lambda: FSMOD.default_state(s(f))}
    out = call(forms[how])
    if not returned(out, "no errors"):
        return
    cover(f"{f.__name__} {how}")
    x = out.value
    prove(z3.BoolVal(isinstance(x, FSMOD.State)), "the result is a state", x)
    prove(z3.BoolVal(x.f is f), "its function is the decorated one", x.f)
    prove(z3.BoolVal(x.name == ("other" if "name" in how else f.__name__) and x.id == x.name), "its name is the given one, or else that of the function", x.name)
    prove(z3.BoolVal(bool(x.default) is ("default" in how)), "it is the default if and only if it is marked as such", x.default)
    prove(z3.BoolVal(bool(x.generator or x.awaitable) is (f is not plain)), "it is a multi-step state if and only if its function is", (x.generator, x.awaitable))
    out = call(lambda: x())
    prove(z3.BoolVal(not out.ok), "states cannot be called", out)


@contract("C17", ["report"])
def reported(ctx):
    """ensures  the same property or function, marked for its inclusion in the report"""
    def f(self):
        return 1
    p = choice("what", ["function", "property"])
    v = f if p == "function" else property(f)
    out = call(DEC.report, v)
    if not returned(out, "no errors"):
        return
    cover(p)
    prove(z3.BoolVal(out.value is v), "the same property or function")
    prove(z3.BoolVal(getattr(f, "add_to_report", False) is True), "marked")


# ------------------------------------------------------------------ agents as dictionaries


@contract("C26 C12", ["BaseAgent.__getitem__", "BaseAgent.__setitem__", "BaseAgent.__delitem__", "BaseAgent.__contains__", "BaseAgent.get"])
def dictionary(ctx):
    """ensures  the items of an agent are its attributes: reading, changing or deleting one of them reads, changes or deletes that attribute, and no other"""
    v, w, d, e = opaque("value"), opaque("other value"), opaque("value of the model"), opaque("default")
    there = choice("attribute", [True, False])
    env = choice("the model has it", [True, False])
    m = Stub("model", x=d, absent=()) if env else Stub("model", absent=("x",))
    a = make(type("A", (BaseAgent,), {"step": lambda self: None}), "agent", unique_id=3, model=m, alive=True, logger=Logger(), other=w, **({"x": v} if there else {}))
    op = choice("operation", ["get", "in", "item", "set", "delete"])
    if op == "get":
        out = call(lambda: a.get("x", e))
    elif op == "in":
        out = call(lambda: "x" in a)
    elif op == "item":
        out = call(lambda: a["x"])
    elif op == "set":
        def f():
            a["x"] = w
        out = call(f)
    else:
        def f():
            del a["x"]
        out = call(f)
    cover(f"{op} {there}")
    attrs = lambda: {k: x for k, x in {**a.__dict__, **a.__dict__.get("_vc_attrs", {})}.items() if k in ("x", "other")}
    now = attrs()
    prove(z3.BoolVal(now.get("other") is w), "the rest of attributes are kept")
    if op in ("item", "delete") and not there:
        prove(z3.BoolVal(not out.ok and isinstance(out.exc, (KeyError, AttributeError))), "an attribute that does not exist is an error", out)
        return
    if not out.ok:
        if isinstance(out.exc, (TypeError, NameError)):
            raise NotApplicable(repr(out.exc))
        fail("no errors", out)
        return
    if op == "get":
        prove(equal(out.value, v if there else d if env else e), "the value of the attribute, or else that of the model, or else the default")
    elif op == "in":
        prove(z3.BoolVal(out.value is there), "the attributes of the agent are in it", out)
    elif op == "item":
        prove(equal(out.value, v), "the value of the attribute")
    elif op == "set":
        prove(z3.BoolVal("x" in now) if "x" not in now else equal(now["x"], w), "the attribute is set")
    else:
        prove(z3.BoolVal("x" not in now), "the attribute is deleted")
    if op in ("get", "in", "item"):
        prove(z3.BoolVal(("x" in now) is there and (not there or now["x"] is v)), "reading does not change the attribute")


@contract("C12", ["BaseEnvironment.count_agents", "BaseEnvironment.agent", "BaseEnvironment.get_agents"], assumes=["AgentView (its contract)"])
def counting(ctx):
    """ensures  the number of agents that match the criteria given, among all the agents of the model; a single agent is the one of the same query"""
    need(ENV, "agentmod")
    n = length("agents that match")
    agents = opaque("agents")
    asked = []
    X = opaque("criterion")

    class View:
        def __init__(self, a):
            asked.append(("view", a))

        def __call__(self, *a, **k):
            asked.append(("call", a, k))
            return SymSeq(n, lambda i: Indexed("agent", i), "agents")

        def one(self, *a, **k):
            asked.append(("one", a, k))
            return Indexed("agent", 0)
    env = make(ENV.Environment, "environment", schedule=Stub("schedule", agents=agents))
    op = choice("operation", ["count", "one"])
    with patched((ENV, "agentmod", Stub("agentmod", AgentView=View))):
        out = call(env.count_agents if op == "count" else env.agent, 7, color=X)
    if not returned(out, "no errors"):
        return
    cover(op)
    views = [e for e in asked if e[0] == "view"]
    if len(views) != 1 or len(asked) != 2:
        raise NotApplicable("query")
    prove(z3.BoolVal(views[0][1] is agents), "the query is among all the agents of the model")
    kind, a, k = asked[1]
    prove(z3.BoolVal(a == (7,) and set(k) == {"color"} and k["color"] is X), "the criteria are those given", asked)
    if op == "one":
        prove(z3.BoolVal(kind == "one"), "just one agent is asked for")
        prove(equal(out.value, Indexed("agent", 0)), "the agent")
    else:
        prove(equal(out.value, SymNum(n)), "the number of agents that match")
