"""Contracts of simulations (soil/simulation.py, soil/exporters.py, soil/environment.py, soil/datacollection.py)"""
from .base import *
from vc.loops import VMap
import contextlib as _ctx
from soil import simulation as SIM, utils as U, serialization as SER, exporters as EXP, environment as ENV, datacollection as DC
from soil.simulation import Simulation
from .c_events import Queue

I = z3.IntSort()
B = z3.BoolSort()


# ------------------------------------------------------------------ limits of a run


class Running(L.Tracked):
    """A model and its scheduler: each step changes them in any way"""

    def __init__(self, log):
        self.log = log
        self.n = E.CTX.input("agents", E.CTX.fresh("agents", I))
        E.CTX.assume(self.n >= 0)
        self.dirty = False
        self.change(False)
        self.vc_register("model")
        self.schedule = Scheduling(self)
        self.logger = Logger()

    def vc_state(self):
        return (self.dirty,)

    def vc_changes(self, loop, st, now):
        yield "all", "volatile", []

    def vc_install(self, loop, st, modes, i, summary, ix):
        self.change()

    def change(self, dirty=True):
        c = E.CTX
        self.dirty = dirty
        self.t = SymNum(c.input("clock", c.fresh("clock", z3.RealSort())), c.input("clock is infinite", c.fresh("clock_inf", B)))
        self.k = SymNum(c.input("steps", c.fresh("steps", I)))
        self.r = SymBool(c.input("running", c.fresh("running", B)))

    @property
    def running(self):
        return self.r

    def step(self):
        self.on_step(self)
        self.change()

    def vc_isinstance(self, cls):
        return issubclass(ENV.Environment, cls)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_") or k == "G":
            raise AttributeError(k)
        raise Unsupported(f"model.{k}")


class Scheduling:
    _vc_symbolic = True

    def __init__(self, w):
        self.w = w

    time = property(lambda self: self.w.t)
    steps = property(lambda self: self.w.k)

    @property
    def agents(self):
        return SymSeq(self.w.n, lambda i: Indexed("agent", i), "agents")

    def get_agent_count(self):
        return SymNum(self.w.n)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"schedule.{k}")


def simulation(**kw):
    d = dict(name="sim", logger=Logger(), source_file=None, parameters={}, matrix={}, seed="s", dir_path="/dir", max_time=None, max_steps=None,
             iterations=1, num_processes=1, exporters=[], model_reporters={}, agent_reporters={}, tables={}, outdir="/out", exporter_params={},
             debug=False, dump=False, dry_run=False, backup=False, overwrite=False, group=None, version="2", description="", level=20, skip_test=False, id="sim_1")
    d.update(kw)
    return make(Simulation, "simulation", **d)


def quiet():
    """Progress bars, timing and messages"""
    @_ctx.contextmanager
    def timer(*a, **k):
        yield 0

    class Tqdm:
        def __call__(self, it=(), *a, **k):
            return it

        def write(self, *a, **k):
            pass
    out = [(SIM, "tqdm", Tqdm())]
    if hasattr(SIM, "dedent"):
        out.append((SIM, "dedent", lambda x: x))
    if hasattr(U, "timer"):
        out.append((U, "timer", timer))
    return out


@contract("C06", ["Simulation._run_model"],
          assumes=["a step of the model changes its clock, its number of steps and whether it is running in any way (the contracts of the schedulers are more precise)"])
def run_model(ctx):
    """
    requires  any model, with or without a time limit and a limit on the steps
    ensures   each step takes place while the model is running, before the time limit and with less steps than the limit; the run ends only
              when one of these does not hold; a model without agents is an error
    """
    log = Log("steps")
    kw = {}
    T = N = None
    if choice("time limit", [False, True]):
        T = kw["max_time"] = xreal("max_time")
    if choice("limit on the steps", [False, True]):
        N = kw["max_steps"] = integer("max_steps")
    sim = simulation(**kw)
    w = Running(log)
    envs = []

    def get_env(iteration, params):
        envs.append(iteration)
        return w

    sim.__dict__["_get_env"] = get_env

    def going():
        return z3.And(w.r.e, w.t.lt(T) if T is not None else True, w.k.lt(N) if N is not None else True)

    def on_step(m):
        cover("step")
        prove(w.n > 0, "a model without agents is not run")
        prove(w.r.e, "a model that has stopped is not run")
        if T is not None:
            prove(w.t.lt(T), "no step at or after the time limit")
        if N is not None:
            prove(w.k.lt(N), "no more steps than the limit")

    w.on_step = on_step
    with patched(*quiet()):
        out = call(sim._run_model, 3)
    if len(envs) != 1:
        raise NotApplicable("creation of the environment")
    if not out.ok:
        if isinstance(out.exc, (AttributeError, NameError, TypeError)):
            raise NotApplicable(f"{type(out.exc).__name__}: {out.exc}")
        cover("error")
        prove(w.n == 0, "an error only if there are no agents")
        return
    cover("finished")
    prove(w.n > 0, "a model without agents is an error")
    prove(z3.Not(going()), "the run ends only at its limits, or if the model has stopped")
    prove(z3.BoolVal(out.value is w), "the model is returned")


# ------------------------------------------------------------------ environments


@contract("C18 C20", ["Simulation._run_model", "Simulation._get_env"],
          assumes=["the names of the parameters stand for any others that the function does not mention"])
def new_env(ctx):
    """
    ensures  one environment is created in each run, with exactly the parameters given, and the reporters of the simulation and those in the
             parameters; the seed is a function of that of the simulation and the iteration only (it is the same for other parameters and any other
             configuration of the simulation); what the user gave is neither modified nor shared
    """
    need(Simulation, "_get_env")
    seed = opaque("seed")
    it = integer("iteration")
    made = []

    def model(*args, **kw):
        if args:
            raise NotApplicable("positional arguments")
        made.append(kw)
        return Running0()

    class Running0:
        running = False
        schedule = Stub("schedule", agents=[1], time=0, steps=0, get_agent_count=lambda: 1)

    def one(ix):
        color, size = opaque(f"color{ix}"), opaque(f"size{ix}")
        r1, r2, r3, r4 = (opaque(f"reporter{ix}{k}") for k in range(4))
        areps = choice(f"agent reporters of the simulation {ix}", ["none", "some"]) == "some" if ix == 0 else True
        own = choice(f"reporters in the parameters {ix}", [False, True]) if ix == 0 else False
        sim_a = {"a": r1, "both": r1} if areps else None
        sim_m = {"m": r2, "both": r2} if areps else None
        tables = {"t": ["x"]}
        base = {"unrelated": opaque("base")}
        sim = simulation(seed=seed, agent_reporters=sim_a, model_reporters=sim_m, tables=tables, parameters=base, name=f"n{ix}", dir_path=f"/d{ix}",
                         iterations=ix + 3, id=f"i{ix}", max_time=5 + ix, outdir=f"/o{ix}", matrix={"m": [ix]} if ix else {})
        sim.model = model
        params = {"color": color, "size": size} if ix == 0 else {"color": color, "other": size, "more": 1}
        if own:
            params["agent_reporters"] = {"p": r3, "both": r3}
            params["model_reporters"] = {"q": r4, "both": r4}
        given = dict(params)
        nested = {k: dict(v) for k, v in params.items() if isinstance(v, dict)}
        n = len(made)
        with patched(*quiet()):
            out = call(sim._run_model, it, **params)
        if not returned(out, "no errors"):
            return None
        if len(made) != n + 1:
            fail("exactly one environment is created", len(made) - n)
            return None
        kw = dict(made[-1])
        prove(equal(kw.pop("color", None), color), "the parameters given are used")
        prove(equal(kw.pop("size" if ix == 0 else "other", None), size), "the parameters given are used")
        exp_a = {**({"a": r1, "both": r1} if areps else {}), **({"p": r3, "both": r3} if own else {})}
        exp_m = {**({"m": r2, "both": r2} if areps else {}), **({"q": r4, "both": r4} if own else {})}
        ga, gm = kw.pop("agent_reporters", None), kw.pop("model_reporters", None)
        prove(equal(dict(ga or {}), exp_a), "reporters of the agents")
        prove(equal(dict(gm or {}), exp_m), "reporters of the model")
        users = [x for x in (sim_a, sim_m, params.get("agent_reporters"), params.get("model_reporters"), base, params) if x is not None]
        prove(z3.BoolVal(all(x is not u for u in users for x in (ga, gm))), "the reporters given by the user are not shared")
        prove(equal(params, given), "what the user gave is not modified")
        for k, v in nested.items():
            prove(equal(given[k], v), "what the user gave is not modified")
        if areps:
            prove(z3.BoolVal(sim.agent_reporters is sim_a and sim.model_reporters is sim_m and list(sim_a) == ["a", "both"] and list(sim_m) == ["m", "both"]),
                  "the reporters of the simulation are not modified")
        prove(z3.BoolVal(sim.parameters is base and list(base) == ["unrelated"] and sim.tables is tables and list(tables) == ["t"]), "the simulation is not modified")
        prove(equal(sim.seed, seed), "the simulation is not modified")
        return made[-1]

    a = one(0)
    if a is None:
        return
    b = one(1)
    if b is None:
        return
    cover("two environments")
    prove(equal(a.get("seed"), b.get("seed")), "the seed depends only on the seed of the simulation and the iteration")
    if isinstance(a.get("seed"), rt.FStr):
        text = [p for p in a["seed"].parts if not isinstance(p, str)]
        prove(z3.Or(*[equal(p, it) for p in text]) if text else z3.BoolVal(False), "the seed tells apart the iterations")
        prove(z3.Or(*[equal(p, seed) for p in text]) if text else z3.BoolVal(False), "the seed depends on that of the simulation")


class Run_(Exception):
    pass


@contract("C18 C20 C21 C23", ["Simulation._run_iters_for_params", "run_parallel"],
          assumes=["tqdm: just the items of its argument (tqdm)", "_run_model, with_source (their contracts)", "iterations are run in the same process (num_processes is not among the parameters)"])
def run_iters(ctx):
    """
    ensures  the model is run once per iteration, in order, with exactly the parameters given, and its results are yielded in that order;
             it all takes place while the source file is in use; nothing is run in a dry run
    """
    need(Simulation, "_run_model", "_run_iters_for_params")
    n = length("iterations")
    log = Log("runs")
    dry = boolean("dry run")
    color = opaque("color")
    params = {"color": color, "size": opaque("size")}
    src = opaque("source file")
    sim = simulation(iterations=SymNum(n), dry_run=dry, source_file=src)
    using = []

    def run_model(iteration, **kw):
        log.add("run", iteration, kw.get("color"), kw.get("size"), len(kw), len(using))
        return Indexed("env", num(iteration).v)

    sim.__dict__["_run_model"] = run_model
    sources = []

    @_ctx.contextmanager
    def with_source(f=None):
        sources.append(f)
        using.append(1)
        try:
            yield
        finally:
            using.pop()

    with patched((SER, "with_source", with_source), *quiet()):
        out = call(sim._run_iters_for_params, params)
        if not returned(out, "no errors"):
            return
        it = out.value
        if isinstance(it, VList):
            res, end = it, Outcome()
        else:
            res, end = drive(iter(it))
    if not returned(end, "no errors"):
        return
    cover("finished")
    d = dry.e
    prove(z3.BoolVal(not using), "the source file is no longer in use afterwards")
    prove(z3.BoolVal(len(sources) == 1 and sources[0] is src), "the source file is in use")
    prove_seq(log, [comp(0, n, lambda i: [(d, []), (z3.Not(d), [("run", SymNum(i), color, params["size"], 2, 1)])])], "the model is run once per iteration")
    prove_seq(res, [comp(0, n, lambda i: [(d, []), (z3.Not(d), [Indexed("env", i)])])], "the results are returned in order")
    prove(z3.BoolVal(list(params) == ["color", "size"] and params["color"] is color), "the parameters are not modified")


# ------------------------------------------------------------------ runs of a simulation


class Config(Indexed):
    """The p-th configuration"""

    def __init__(self, kind, p, **extra):
        super().__init__(kind, p, **extra)

    @property
    def count(self):
        return E.CTX.func("number of parameters", I, I)(self.ix[0])

    def items(self):
        p = self.ix[0]
        E.CTX.assume(self.count >= 0)
        return Items(self.count, lambda j: (Indexed("key", p, j), Indexed("value", p, j)), "items", p, True)

    def keys(self):
        p = self.ix[0]
        E.CTX.assume(self.count >= 0)
        return Items(self.count, lambda j: Indexed("key", p, j), "keys", p, False)

    def values(self):
        p = self.ix[0]
        E.CTX.assume(self.count >= 0)
        return Items(self.count, lambda j: Indexed("value", p, j), "values", p, False)

    vc_iter = keys

    def vc_len(self):
        return SymNum(self.count)

    def __getitem__(self, k):
        if isinstance(k, Indexed) and k.kind == "key":
            return Indexed("value", *k.ix)
        raise Unsupported("parameter")

    def vc_sorted(self, **kw):
        return self.keys().vc_sorted(**kw)


class Items(SymSeq):
    def __init__(self, n, item, label, p, full):
        super().__init__(n, item, label)
        self.p, self.full = p, full

    def vc_sorted(self, **kw):
        if kw:
            raise Unsupported("sorted with a key")
        return Contents(self.p, self.full)


class Contents:
    """The items (or just some of the keys and values) of a configuration"""
    _vc_symbolic = True

    def __init__(self, p, full):
        self.p, self.full = p, full

    def vc_subst(self, a, b):
        return Contents(z3.substitute(self.p, (a, b)), self.full)

    def vc_term(self):
        return ("contents", self.p, self.full)

    def vc_equal(self, o):
        return self.p == o.p if isinstance(o, Contents) and o.full == self.full else z3.BoolVal(False)


class Digest:
    """Identifier of the p-th configuration"""
    _vc_symbolic = True

    def __init__(self, p):
        self.p = p

    def vc_subst(self, a, b):
        return Digest(z3.substitute(self.p, (a, b)))

    def vc_term(self):
        return ("digest", self.p)

    def vc_equal(self, o):
        return self.p == o.p if isinstance(o, Digest) else z3.BoolVal(False)

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start in (None, 0) and s.step is None and (s.stop is None or s.stop >= 7):
            return self
        raise Unsupported("part of a digest")

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"digest.{k}")


class Sha(L.Tracked):
    """Cryptographic hash: one to one"""

    def __init__(self, data=None):
        self.parts = ()
        self.vc_register("hash")
        if data is not None:
            self.update(data)

    def vc_state(self):
        return self.parts

    def vc_changes(self, loop, st, now):
        raise Unsupported("hash updated in a loop")

    def vc_install(self, *a):
        raise Unsupported("hash updated in a loop")

    def update(self, data):
        self.parts += (data,)

    def hexdigest(self):
        found = []

        def walk(x):
            if isinstance(x, rt.FStr):
                for p in x.parts:
                    walk(p)
            elif isinstance(x, tuple):
                for p in x:
                    walk(p)
            elif isinstance(x, Contents):
                found.append((x.p, x.full))
            elif isinstance(x, Config):
                found.append((x.ix[0], True))
            elif isinstance(x, Items):
                found.append((x.p, x.full))
            elif isinstance(x, (str, bytes, int, type(None))):
                pass
            else:
                raise Unsupported(f"hash of {type(x).__name__}")
        walk(self.parts)
        full = [p for p, f in found if f]
        if not full:
            fail("the identifier tells apart configurations with different values", self.parts)
            raise Unsupported("hash of something else")
        if any(not p.eq(full[0]) for p, _ in found):
            raise Unsupported("hash of several configurations")
        return Digest(full[0])

    digest = hexdigest


LOG = [None]     # (of the current execution: objects that are in the summary of a loop may come from a previous one)


class Exp(Indexed):
    """The k-th exporter"""
    log = property(lambda self: LOG[0])

    def sim_start(self, *a, **k):
        self.log.add("sim_start", self, *a, *k.values())

    def sim_end(self, *a, **k):
        self.log.add("sim_end", self, *a, *k.values())

    def iteration_end(self, env, params=None, params_id=None, **k):
        self.log.add("iteration_end", self, env, params, params_id)


@contract("C18 C19 C21", ["Simulation.run"],
          assumes=["tqdm: just the items of its argument (tqdm)", "hashlib.sha256 and its first characters, repr, sorted, str.encode: one to one (standard library)",
                   "deserialize_all, _collect_params, _run_iters_for_params (their contracts)", "dataclasses.replace: a copy with those fields (standard library)"])
def run(ctx):
    """
    ensures  each exporter is notified once of the start, before anything is run; then, for each configuration and each of its environments, in
             order, each exporter is notified once, with the environment, its parameters, and an identifier that depends only on these; then,
             each exporter is notified once of the end. All the environments are returned in order. If running is disabled, the simulation is queued
             with each of the configurations instead, and nothing else takes place
    """
    need(Simulation, "_run_iters_for_params", "_collect_params")
    need(SIM, "_QUEUED", "_AVOID_RUNNING")
    need(SER, "deserialize_all")
    log = LOG[0] = Log("events")
    ne, nc = length("exporters"), length("configurations")
    its = ctx.func("iterations", I, I)
    j = z3.Int("j")
    assume(z3.ForAll([j], its(j) >= 0))
    dump, dry = boolean("dump"), boolean("dry run")
    names = SymSeq(ne, lambda k: Indexed("exporter class", k), "exporters")
    extra = opaque("extra")
    sim = simulation(exporters=names, dump=dump, dry_run=dry, exporter_params={"extra": extra}, outdir=opaque("outdir"))
    des, cols = [], []

    def deserialize_all(nm, *args, **kw):
        if args:
            raise NotApplicable("positional arguments")
        des.append((nm, kw))
        return VList(SymSeq(ne, lambda k: Exp("exporter", k), "exporters").vc_segments(), "exporters")

    def collect_params(**kw):
        cols.append(kw)
        return SymSeq(nc, lambda p: Config("configuration", p), "configurations")

    def iters(params):
        if not isinstance(params, Config):
            raise NotApplicable("unknown parameters")
        p = params.ix[0]
        log.add("run", params)
        yield from rt.yield_all(SymSeq(its(p), lambda i: Indexed("env", p, i), "environments"))

    sim.__dict__["_collect_params"] = collect_params
    sim.__dict__["_run_iters_for_params"] = iters
    queue = VList([], "queue")
    mode = choice("mode", ["run", "queue"])
    with patched((SER, "deserialize_all", deserialize_all), (SIM, "_QUEUED", queue), (SIM, "_AVOID_RUNNING", mode == "queue"),
                 (SIM, "hashlib", Stub("hashlib", sha256=Sha, sha1=Sha, md5=Sha, sha512=Sha)), *quiet()):
        out = call(sim.run)
    if not returned(out, "no errors"):
        return
    cover(mode)
    if mode == "queue":
        prove(z3.BoolVal(not log.segs and not des), "nothing is run when running is disabled")
        prove_seq(queue, [comp(0, nc, lambda p: [(z3.BoolVal(True), [(sim, Config("configuration", p))])])], "queued with each of the configurations")
        prove(z3.BoolVal(isinstance(out.value, (list, VList)) and not (out.value.segs if isinstance(out.value, VList) else out.value)), "no results")
        return
    prove(z3.BoolVal(not queue.segs), "nothing is queued")
    if len(des) != 1:
        raise NotApplicable("creation of the exporters")
    nm, kw = des[0]
    prove(z3.BoolVal(nm is names and kw.get("simulation") is sim), "the exporters are those of the simulation")
    prove(equal(kw.get("dump", True), SymBool(z3.And(dump.e, z3.Not(dry.e)))), "exporters write only if asked to, and not in a dry run")
    prove(z3.BoolVal(kw.get("outdir") is sim.outdir and kw.get("extra") is extra), "the exporters get their parameters")
    X = lambda k: Exp("exporter", k)
    C = lambda p: Config("configuration", p)
    true = z3.BoolVal(True)
    each = lambda name: comp(0, ne, lambda k: [(true, [(name, X(k))])])
    prove_seq(log, [
        each("sim_start"),
        comp(0, nc, lambda p: [(true, [("run", C(p)),
                                       comp(0, its(p), lambda i: [(true, [
                                           comp(0, ne, lambda k: [(true, [("iteration_end", X(k), Indexed("env", p, i), C(p), Digest(p))])])])])])]),
        each("sim_end")], "every exporter is notified of every event once, in order")
    if not isinstance(out.value, VList):
        raise NotApplicable("result")
    prove_seq(out.value, [comp(0, nc, lambda p: [(true, [comp(0, its(p), lambda i: [(true, [Indexed("env", p, i)])])])])], "all the results are returned, in order")


@contract("C06 C18 C29", ["Simulation.run"], assumes=["dataclasses.replace: a copy of the simulation with the given settings (standard library)"])
def run_with(ctx):
    """
    ensures  settings given when running (whatever they are) override those of the simulation: a copy of it with exactly these changes is run once,
             the simulation itself is neither run nor changed, and the results are returned
    """
    need(Simulation, "_run_iters_for_params", "_collect_params")
    need(SIM, "replace")
    sim = simulation(exporters=[])
    reps = []
    sentinel = VList([], "result")

    class Other:
        def run(self, *a, **k):
            reps.append(("run", a, k))
            return sentinel

    def replace(s, **kw):
        reps.append((s, kw))
        return Other()

    def unexpected(*a, **k):
        fail("the simulation is not run with the changes")
        return []

    sim.__dict__["_collect_params"] = unexpected
    sim.__dict__["_run_iters_for_params"] = unexpected
    before = dict(sim.__dict__)
    args = {}
    which = choice("settings", ["limits", "no limits", "other", "one"])
    if which == "limits":
        args.update(max_time=real("max_time"), max_steps=integer("max_steps"))
    elif which == "no limits":
        args.update(max_time=None, max_steps=None)
    elif which == "one":
        args["iterations"] = integer("iterations")
    else:
        args.update(name=opaque("name"), dump=boolean("dump"), seed=opaque("seed"), parameters={}, exporters=opaque("exporters"))
    with patched((SIM, "replace", replace), (SIM, "_AVOID_RUNNING", choice("running is disabled", [False, True])), *quiet()):
        out = call(sim.run, **args)
    if not returned(out, "no errors"):
        return
    cover(which)
    if not reps or not isinstance(reps[0][0], type(sim)):
        raise NotApplicable("copy of the simulation")
    prove(z3.BoolVal(reps[0][0] is sim and set(reps[0][1]) == set(args)), "the changes are those given", sorted(set(args) ^ set(reps[0][1])))
    for k in args:
        if k in reps[0][1]:
            prove(equal(reps[0][1][k], args[k]), f"the changes are those given: {k}")
    prove(z3.BoolVal(reps[1:] == [("run", (), {})]), "the changes are used")
    prove(z3.BoolVal(out.value is sentinel), "the results are returned")
    prove(z3.BoolVal(all(sim.__dict__.get(k) is v for k, v in before.items())), "the simulation is not changed")


class Combination(Indexed):
    """A combination of the values in the matrix: one for each of the names"""

    def vc_segments(self):
        i, n, pick = self.ix[0], self.size, self.pick
        return [Comp(z3.IntVal(0), n, lambda k: [(z3.BoolVal(True), [Indexed("value", k, pick(i, k))])])]

    def vc_iter(self):
        i, n, pick = self.ix[0], self.size, self.pick
        return SymSeq(n, lambda k: Indexed("value", k, pick(i, k)), "combination")

    def vc_subst(self, a, b):
        return Combination(self.kind, z3.substitute(self.ix[0], (a, b)), **self.extra)


@contract("C18", ["Simulation._collect_params"], sdict=True, feasible_ms=500,
          assumes=["itertools.product: each combination of the values, once, in order (standard library)"])
def collect_params(ctx):
    """
    requires  any base parameters, and a matrix with any number of names and of values for each
    ensures   a configuration for each combination of the values in the matrix, in order, with the base parameters overridden by it; without a matrix,
              the base parameters alone; the base parameters and the matrix are not modified
    """
    need(SIM, "product")
    from .c_meta import Name, Names, NAMES, same_lookup
    NAMES[0] = Names()
    nk, nb = length("names in the matrix"), length("base parameters")
    m = length("combinations")
    assume(m > 0)
    mname, bname = ctx.func("name in the matrix", I, I), ctx.func("name of the parameter", I, I)
    size = ctx.func("number of values", I, I)
    pick = ctx.func("choice", I, I, I)
    a, b = z3.Ints("a b")
    for f, n in ((mname, nk), (bname, nb)):
        assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < n, 0 <= b, b < n, a != b), f(a) != f(b))))
    true = z3.BoolVal(True)
    values = lambda k: Indexed("values", k)
    basic = lambda: [Comp(z3.IntVal(0), nb, lambda j: [(true, [(Name(bname(j)), Indexed("base", j))])])]
    base = VMap(basic(), "base parameters", True)
    matrix = VMap([Comp(z3.IntVal(0), nk, lambda k: [(true, [(Name(mname(k)), values(k))])])], "matrix", True)
    before, mbefore = list(base.segs), list(matrix.segs)
    asked = []

    def product(*its):
        asked.append(rt.varargs(its))
        return SymSeq(m, lambda i: Combination("combination", i, size=nk, pick=pick), "combinations")

    sim = simulation(parameters=base, matrix=matrix, dump=boolean("dump"), outdir="/out")
    with patched((SIM, "product", product)):
        out = call(sim._collect_params)
    if not returned(out, "no errors"):
        return
    prove(z3.BoolVal(sim.parameters is base and base.same_log(before)), "the base parameters are not modified")
    prove(z3.BoolVal(sim.matrix is matrix and matrix.same_log(mbefore)), "the matrix is not modified")
    res = out.value
    if not isinstance(res, VList):
        if isinstance(res, list):
            res = VList(res)
        else:
            raise NotApplicable("result")
    q = Name(ctx.input("name", ctx.fresh("q", I)))
    if E.CTX.branch(nk > 0):
        if len(asked) != 1 or not isinstance(asked[0], VList):
            raise NotApplicable("combinations")
        if choice("what", ["values", "configurations"]) == "values":
            prove_seq(asked[0], [comp(0, nk, lambda k: [(true, [values(k)])])], "all the values in the matrix are used")
            return
        if len(res.segs) != 1 or not isinstance(res.segs[0], Comp):
            raise NotApplicable("result")
        c = res.segs[0]
        prove(z3.And(c.lo == 0, c.hi == m), "a configuration per combination")
        i = ctx.input("combination", ctx.fresh("i", I))
        assume(z3.And(0 <= i, i < m))
        parts = c.parts(i)
        g, items = ctx.choice("part", parts) if len(parts) > 1 else parts[0]
        assume(g)
        if len(items) != 1 or not isinstance(items[0], VMap):
            fail("one configuration per combination", items)
            return
        same_lookup(q, items[0], VMap(basic() + [Comp(z3.IntVal(0), nk, lambda k: [(true, [(Name(mname(k)), Indexed("value", k, pick(i, k)))])])]),
                    "a configuration per combination, which overrides the base parameters")
        cover("matrix")
    else:
        if len(res.segs) != 1 or not isinstance(res.segs[0], VMap):
            fail("one configuration", res.segs)
            return
        same_lookup(q, res.segs[0], VMap(basic()), "the base parameters alone")
        cover("no matrix")


@contract("C18", ["_iter_queued"], assumes=["dataclasses.replace: a copy with those fields (standard library)", "list.pop(0) removes the first item (standard library)"])
def iter_queued(ctx):
    """ensures  every simulation in the queue is yielded once, in order, with its configuration and without a matrix; the queue is left empty"""
    need(SIM, "_iter_queued", "_QUEUED", "replace")
    m = length("queued")

    class Q(Queue):
        def pop(self, k=-1):
            if k != 0:
                raise Unsupported("pop of another item")
            return self.popleft()

    q = Q(m, lambda i: (Indexed("simulation", i), Config("configuration", i)), Log("changes"))

    def replace(sim, **kw):
        if not isinstance(sim, Indexed) or set(kw) != {"parameters", "matrix"}:
            raise NotApplicable("copy of the simulation")
        return ("copy", sim, kw["parameters"], kw["matrix"])

    with patched((SIM, "_QUEUED", q), (SIM, "replace", replace)):
        res, end = drive(SIM._iter_queued())
    if not returned(end, "no errors"):
        return
    cover("finished")
    prove_seq(res, [comp(0, m, lambda i: [(z3.BoolVal(True), [("copy", Indexed("simulation", i), Config("configuration", i), {})])])],
              "every simulation, once, with its own configuration and no matrix")
    prove(equal(q.head, SymNum(m)), "the queue is left empty")


# ------------------------------------------------------------------ composite exporter


@contract("C19", ["default.__init__", "default.sim_start", "default.iteration_end", "default.sim_end"])
def composite(ctx):
    """
    ensures  a composite exporter has an exporter of each of the classes given (or, by default, of YAML and SQLite), created with the same arguments;
             each notification is forwarded once to each of them, in order, with the same arguments
    """
    need(EXP, "default", "YAML", "SQLite")
    log = LOG[0] = Log("events")
    n = length("parts")
    assume(n > 0)
    a, b = opaque("simulation"), opaque("outdir")

    class Cls(Indexed):
        def __call__(self, *args, **kw):
            LOG[0].add("create", self, args, tuple(sorted(kw.items())))
            return Exp("exporter", *self.ix)

    default = choice("parts", ["given", "default"]) == "default"
    x = make(EXP.default, "exporter")
    kw = {} if default else dict(exporter_cls=SymSeq(n, lambda k: Cls("class", k), "classes"))
    with patched((EXP, "YAML", Cls("class", 0)), (EXP, "SQLite", Cls("class", 1))):
        out = call(EXP.default.__init__, x, a, outdir=b, **kw)
    if not returned(out, "no errors"):
        return
    args = ((a,), (("outdir", b),))
    true = z3.BoolVal(True)
    parts = (lambda f: [f(z3.IntVal(0)), f(z3.IntVal(1))]) if default else (lambda f: [comp(0, n, lambda k: [(true, [f(k)])])])
    prove_seq(log, parts(lambda k: ("create", Cls("class", k)) + args), "a part of each class, with the same arguments")
    env, params, pid = opaque("env"), opaque("params"), opaque("id")
    for ev, ar in (("sim_start", ()), ("iteration_end", (env, params, pid)), ("sim_end", ())):
        log.segs = []
        out = call(getattr(x, ev), *ar)
        if not returned(out, "no errors"):
            return
        cover(ev + (" default" if default else ""))
        prove_seq(log, parts(lambda k: (ev, Exp("exporter", k)) + ar), "each notification is forwarded once to each part")


# ------------------------------------------------------------------ environments and collected data


class Env0(ENV.Environment):
    pass


@contract("C17", ["BaseEnvironment.step"], assumes=["mesa.Model.step: nothing (executed)"])
def env_step(ctx):
    """ensures  one step of the scheduler, and then the data are collected once"""
    log = Log("events")

    class Schedule:
        time = steps = 1

        def step(self):
            log.add("step")

    class Collector:
        model_vars = {}

        def collect(self, m):
            log.add("collect", m)

    env = make(Env0, "model", schedule=Schedule(), datacollector=Collector(), logger=Logger(), running=boolean("running"))
    out = call(env.step)
    if not returned(out, "no errors"):
        return
    cover("step")
    prove_seq(log, [("step",), ("collect", env)], "one step of the scheduler, and then the data are collected once")


@contract("C17 C16 C03", ["BaseEnvironment.__init__"],
          assumes=["mesa.Model.__init__ (executed)", "the name of the parameter stands for any other that is not an argument of the function"])
def env_init(ctx):
    """
    ensures  the parameters become attributes, and the agents given are added, before the model is initialized; the data are collected once, right
             after its initialization; the scheduler is the given one, or else a new one of the given class, or else of the class of the model
    """
    log = Log("events")

    class Collector:
        def collect(self, m):
            log.add("collect", m)

    class S:
        def __init__(self, model):
            log.add("schedule", type(self).__name__, model)

    class S1(S):
        pass

    class S2(S):
        pass

    color = opaque("color")

    class Env1(ENV.BaseEnvironment):
        schedule_class = S2

        def init(self):
            log.add("init", self.__dict__.get("color"), self.schedule)

        def add_agents(self, *a, **k):
            log.add("add_agents", a, tuple(sorted(k.items())), self.schedule)

    env = make(Env1, "model", datacollector=Collector(), random=Stub("random"))
    kw = dict(color=color)
    sch = choice("scheduler", ["given", "class", "default"])
    given = None
    if sch == "given":
        given = kw["schedule"] = Stub("schedule")
        if choice("and class", [False, True]):
            kw["schedule_class"] = S1
    elif sch == "class":
        kw["schedule_class"] = S1
    ag = choice("agents", [False, True])
    k = integer("k")
    if ag:
        kw["agents"] = dict(agent_classes=S1, k=k)
    ini = choice("init", ["default", True, False])
    if ini != "default":
        kw["init"] = ini
    out = call(Env1.__init__, env, **kw)
    if not returned(out, "no errors"):
        return
    cover(f"{sch} {ini}")
    evs = [e for e in log.segs if e[0] == "schedule"]
    if given is not None:
        prove(z3.BoolVal(env.schedule is given and not evs), "the scheduler is the given one")
    else:
        prove(z3.BoolVal(len(evs) == 1 and evs[0][1] == ("S1" if sch == "class" else "S2") and evs[0][2] is env and type(env.schedule).__name__ == evs[0][1]), "a new scheduler of that class")
    rest = [e for e in log.segs if e[0] != "schedule"]
    want = []
    if ag:
        want.append(("add_agents", (), (("agent_classes", S1), ("k", k)), env.schedule))
    if ini is not False:
        want += [("init", color, env.schedule), ("collect", env)]
    prove(z3.BoolVal(len(rest) == len(want) and all(len(a) == len(b) and all(x is y or x == y if not isinstance(x, tuple) else repr(x) == repr(y) for x, y in zip(a, b)) for a, b in zip(rest, want))),
          "the agents are added, and the model is initialized and its data collected, once and in that order", rest)
    prove(z3.BoolVal(env.__dict__.get("color") is color), "the parameters become attributes of the model")
    prove(z3.BoolVal(env.__dict__.get("running") is True), "the model is running")
    prove(equal(env.current_id, -1) if ag is False else z3.BoolVal(True), "no id has been used")


@contract("C17 C20 C25", ["BaseEnvironment.__new__"], assumes=["mesa.Model.__new__ (executed)", "random.Random: a function of its seed (standard library)"])
def env_new(ctx):
    """ensures  the random generator of the model is new and created with exactly the given seed; the collector is new and gets the given reporters"""
    import mesa.model as MM
    log = Log("events")
    made = []

    class Random:
        def __init__(self, *a):
            self.args = a
            made.append(self)

    class Collector:
        def __init__(self, **kw):
            self.kw = kw

    class Env1(ENV.BaseEnvironment):
        collector_class = Collector

    seed = opaque("seed")
    assume(seed.e != Val.none)
    a, m, t = ({"x": opaque(f"reporter {k}")} for k in "amt")
    fake = Stub("random", Random=Random)
    kw = dict(seed=seed, agent_reporters=a, model_reporters=m, tables=t, dir_path="/d", color=opaque("color"))
    own = choice("collector", ["of the class", "given"])

    class C2(Collector):
        pass
    if own == "given":
        kw["collector_class"] = C2
    with patched((MM, "random", fake)):
        out = call(Env1.__new__, Env1, **kw)
    if not returned(out, "no errors"):
        return
    cover(own)
    e = out.value
    prove(z3.BoolVal(len(made) == 1 and e.random is made[0] and len(made[0].args) == 1), "a new generator")
    prove(equal(made[0].args[0], seed), "created with exactly the given seed")
    c = e.datacollector
    prove(z3.BoolVal(type(c) is (C2 if own == "given" else Collector) and c.kw["agent_reporters"] is a and c.kw["model_reporters"] is m and c.kw["tables"] is t), "a new collector, with those reporters")


@contract("C17 C20", ["SoilCollector.__init__"],
          assumes=["mesa.DataCollector.__init__: registers each of the reporters and tables (executed)"])
def collector_init(ctx):
    """
    ensures  the reporters are those given, plus the number of agents and the clock (unless given); what was given is neither modified nor shared
    """
    n, t = integer("number of agents"), real("clock")
    own = choice("given", ["nothing", "some", "all"])
    r = [opaque(f"reporter {k}") for k in range(4)]
    m = None if own == "nothing" else {"x": r[0]} if own == "some" else {"x": r[0], "time": r[1], "agent_count": r[2]}
    a = None if own == "nothing" else {"y": r[3]}
    tables = None if own == "nothing" else {"t": ["col"]}
    m0, a0 = dict(m or {}), dict(a or {})
    c = make(DC.SoilCollector, "collector")
    out = call(DC.SoilCollector.__init__, c, model_reporters=m, agent_reporters=a, tables=tables)
    if not returned(out, "no errors"):
        return
    cover(own)
    if m is not None:
        prove(z3.BoolVal(list(m) == list(m0) and list(a) == list(a0) and list(tables) == ["t"] and tables["t"] == ["col"]), "what was given is not modified")
    prove(z3.BoolVal(c.model_reporters is not m and c.agent_reporters is not a), "what was given is not shared")
    prove(z3.BoolVal(set(c.model_reporters) == set(m0) | {"time", "agent_count"} and set(c.agent_reporters) == set(a0)), "exactly those reporters")
    for k, v in m0.items():
        prove(equal(c.model_reporters[k], v), "the reporters given")
    for k, v in a0.items():
        prove(equal(c.agent_reporters[k], v), "the reporters given")
    model = Stub("model", schedule=Stub("schedule", time=t, get_agent_count=lambda: SymNum(n.v), steps=3), now=t)
    for k, v in (("time", t), ("agent_count", n)):
        if k in m0:
            continue
        f = c.model_reporters.get(k)
        if not callable(f):
            raise NotApplicable("reporter")
        out = call(f, model)
        if not returned(out, "no errors"):
            return
        prove(equal(out.value, v), f"the value of {k} is that of the model at that moment")


@contract("C17", ["BaseEnvironment.add_agent_reporter", "BaseEnvironment.add_model_reporter"],
          assumes=["mesa.DataCollector._new_agent_reporter, _new_model_reporter (executed)"])
def reporters(ctx):
    """
    ensures  the reporter gets its value for each agent; if it is limited to a type, there is no value for the agents of other types (and the reporter
             is not even used); the rest of reporters are not changed
    """
    import mesa.datacollection as MDC
    dc = make(MDC.DataCollector, "collector", model_reporters={}, agent_reporters={}, model_vars={}, _agent_records={}, tables={})
    other = dc.agent_reporters["other"] = lambda a: 1
    env = make(Env0, "model", datacollector=dc, logger=Logger())
    if choice("what", ["agent", "model"]) == "model":
        kind = choice("kind", ["function", "name"])
        f = lambda m: 3
        out = call(env.add_model_reporter, "color", f) if kind == "function" else call(env.add_model_reporter, "color")
        if returned(out, "no errors"):
            cover("model " + kind)
            prove(z3.BoolVal(dc.model_reporters == {"color": f if kind == "function" else "color"}), "the reporter of the model")
            prove(z3.BoolVal(list(dc.agent_reporters) == ["other"]), "the rest of reporters are not changed")
        return
    used = []
    value = opaque("value")

    class Agent:
        def __init__(self, yes):
            self.yes = yes

        def vc_isinstance(self, cls):
            return SymBool(self.yes) if cls is Type else cls in (object, Agent)

        @property
        def color(self):
            used.append(1)
            return value

    class Type:
        pass

    yes = boolean("the agent is of that type")
    ag = Agent(yes.e)
    kind = choice("reporter", ["function", "name", "other name"])
    limited = choice("type", [False, True])
    kw = dict(agent_type=Type) if limited else {}
    if kind == "function":
        out = call(env.add_agent_reporter, "rep", lambda a: a.color, **kw)
        key = "rep"
    elif kind == "name":
        out = call(env.add_agent_reporter, "color", **kw)
        key = "color"
    else:
        out = call(env.add_agent_reporter, "rep", "color", **kw)
        key = "rep"
    if not returned(out, "no errors"):
        return
    prove(z3.BoolVal(dc.agent_reporters["other"] is other and set(dc.agent_reporters) == {"other", key} and not dc.model_reporters), "the rest of reporters are not changed")
    out = call(dc.agent_reporters[key], ag)
    if not returned(out, "no errors"):
        return
    if limited:
        cover("limited")
        if out.value is None:
            prove(z3.Not(yes.e), "there is a value for the agents of that type")
            prove(z3.BoolVal(not used), "the reporter is not used for the rest")
        else:
            prove(yes.e, "there is no value for the agents of other types")
            prove(equal(out.value, value), "the value of the agent")
    else:
        cover("all")
        prove(equal(out.value, value) if out.value is not None else z3.BoolVal(False), "the value of the agent")


# ------------------------------------------------------------------ loading files


@contract("C18 C29", ["iter_from_py", "do_not_run"],
          assumes=["importlib: executes the file once (standard library)", "_iter_queued (its contract)", "inspect.getmembers (standard library)",
                   "dataclasses.replace: a copy with those fields (standard library)"])
def from_py(ctx):
    """
    ensures  running is disabled while the file is executed, and only then (also if there is an error); every simulation defined in the file, and
             every one that was queued, is yielded once, with the arguments given
    """
    import importlib.util as IU
    import types
    need(SIM, "_iter_queued", "replace", "iter_from_py")
    n = length("queued")
    err = choice("error in the file", [False, True])
    ns = 0 if err else choice("simulations in the file", [0, 2])
    state = []
    mod = types.ModuleType("imported_file")
    sims = [simulation(name=f"s{k}") for k in range(ns)]
    color = opaque("color")

    class Loader_:
        def exec_module(self, m):
            state.append(SIM._AVOID_RUNNING)
            if err:
                raise External("error in the file")
            for k, s in enumerate(sims):
                setattr(m, f"s{k}", s)

    def queued():
        state.append("queued")
        yield from rt.yield_all(SymSeq(n, lambda i: Indexed("queued", i), "queue"))

    def replace(sim, **kw):
        if set(kw) != {"color"} or kw["color"] is not color:
            raise NotApplicable("copy")
        return ("copy", sim)

    import sys as _sys
    if ns == 0:
        assume(n > 0)
    path0 = list(_sys.path)
    try:
        with patched((SIM, "_iter_queued", queued), (SIM, "replace", replace), (IU, "spec_from_file_location", lambda *a, **k: Stub("spec", loader=Loader_())),
                     (IU, "module_from_spec", lambda s: mod)):
            res, end = drive(SIM.iter_from_py("/nowhere/file.py", color=color))
    finally:
        _sys.path[:] = path0
        _sys.modules.pop("imported_file", None)
    after = SIM._AVOID_RUNNING
    SIM._AVOID_RUNNING = False
    prove(z3.BoolVal(after is False), "running is enabled again afterwards")
    prove(z3.BoolVal(state[:1] == [True]), "running is disabled while the file is executed")
    if err:
        cover("error")
        prove(z3.BoolVal(isinstance(end.exc, External)), "the error is reported")
        return
    if not returned(end, "no errors"):
        return
    cover(f"{ns} simulations")
    prove(z3.BoolVal(state.count(True) == 1), "the file is executed once")
    prove_seq(res, [("copy", s) for s in sims] + [comp(0, n, lambda i: [(z3.BoolVal(True), [("copy", Indexed("queued", i))])])],
              "every simulation in the file, and every one that was queued, once and with the arguments given")
