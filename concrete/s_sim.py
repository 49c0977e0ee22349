"""Simulations: configurations, iterations, exporters, isolation, reproducibility"""
import copy
import itertools
import os
import random as global_random
import tempfile
import textwrap
import networkx as nx
import numpy as np
from .base import scenario, check, same, raises, note, Skip
from .s_sched import KINDS
from soil import Environment, Simulation, simulation as simmod, exporters as expmod
from soil.agents import BaseAgent, Agent, NetworkAgent, FSM, state
from soil.agents.SISaModel import SISaModel

RUNS = []


class Ticker(BaseAgent):
    def step(self):
        return 1


class Recorder(Environment):
    """Writes down the parameters with which it is created"""
    a = "default a"
    b = "default b"
    c = "default c"

    def init(self):
        RUNS.append((dict(a=self.a, b=self.b, c=self.c), self.id))
        self.add_agent(Ticker)


def value(rng):
    return rng.choice([1, 2, 3, "x", "y", None, True, False, 0.5, (1, 2), 0, "1", 1.5, "None", "", [1], {"k": 1}, -1, rng.number([4]), rng.text(["z"])])


def setting(rng, matrix=True):
    params = {k: value(rng) for k in rng.sample("abc", rng.randint(0, 3))}
    mat = {}
    if matrix:
        for k in rng.sample("abc", rng.choice([0, 1, 1, 2, 3])):
            mat[k] = [value(rng) for _ in range(rng.size(1, 3, cap=12) if not mat else rng.randint(1, 3))]
            if rng.random() < 0.2:
                mat[k] = tuple(mat[k])
    combos = [{}]
    for k, vs in mat.items():
        combos = [{**c, k: v} for c in combos for v in vs]
    expected = [{**params, **c} for c in combos]
    return params, mat, expected


def full(p):
    return {**dict(a="default a", b="default b", c="default c"), **p}


@scenario("C18")
def configurations(rng):
    params, mat, expected = setting(rng)
    iters = rng.choice([1, 1, 2, 3, rng.size(2, 4, cap=12)]) if len(expected) < 10 else rng.randint(1, 2)
    note("parameters", params, "matrix", mat, "iterations", iters)
    RUNS.clear()
    p0, m0 = copy.deepcopy(params), copy.deepcopy(mat)
    how = rng.choice(["plain", "replace", "env"])
    common = dict(name="x", exporters=[], dump=False, max_steps=1)
    its = dict(iterations=iters) if iters > 1 or rng.random() < 0.5 else {}
    if rng.random() < 0.3:
        del common["name"]
    if rng.random() < 0.2:
        common["num_processes"] = 1
    if how == "plain":
        res = Simulation(model=rng.choice([Recorder, "concrete.s_sim.Recorder"]), parameters=params, matrix=mat, **its, **common).run()
    elif how == "replace":
        res = Simulation(model=Recorder, **common).run(parameters=params, matrix=mat, **its)
    else:
        res = Recorder.run(parameters=params, matrix=mat, **its, **common)
    got = [r[0] for r in RUNS]
    want = [full(e) for e in expected for _ in range(iters)]
    # (the order of the combinations is that of the results)
    check(len(got) == len(want), f"{len(got)} runs, expected {len(want)}: {got}", "C18")
    for w in want:
        same(sum(1 for g in got if g == w and str(g) == str(w)), sum(1 for x in want if x == w and str(x) == str(w)), f"runs with {w}", "C18")
    for k in range(0, len(got), iters):
        check(all(str(got[k + j]) == str(got[k]) for j in range(iters)), f"the iterations of a configuration are not together: {got}", "C18")
        same([RUNS[k + j][1] for j in range(iters)], [str(j) for j in range(iters)], "numbers of the iterations", "C18 C20")
    same([dict(a=e.a, b=e.b, c=e.c) for e in res], got, "order of the results", "C18")
    same([e.id for e in res], [r[1] for r in RUNS], "order of the results", "C18")
    same((params, mat), (p0, m0), "parameters and matrix after the run", "C20")


SOURCE = '''
from soil import Simulation, Environment
from concrete.s_sim import Recorder
'''


@scenario("C18")
def queued(rng):
    """Simulations run while loading a file"""
    sims = []
    text = SOURCE
    expected = []
    for k in range(rng.randint(1, 3)):
        params, mat, exp = setting(rng)
        iters = rng.choice([1, 2])
        text += f"sim{k} = Simulation(model=Recorder, name='s{k}', parameters={params!r}, matrix={mat!r}, iterations={iters}, exporters=[], max_steps=1)\n"
        text += f"sim{k}.run()\n" if rng.random() < 0.5 else f"sim{k}.run(dump=False)\n"
        text += f"del sim{k}\n"
        expected.append([(full(e), iters) for e in exp])
    note(text)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "sims.py")
        with open(path, "w") as f:
            f.write(text)
        RUNS.clear()
        sims = list(simmod.iter_from_file(path))
        same(len(RUNS), 0, "runs while loading", "C18")
        want = [e for l in expected for e in l]
        results = []
        for s in sims:
            results += s.run(dump=False, exporters=[])
    flat = [str(w) for w, it in want for _ in range(it)]
    same(sorted(str(r[0]) for r in RUNS), sorted(flat), "configurations that were run", "C18")
    same([str(r[0]) for r in RUNS], flat, "order of the configurations", "C18")
    check(not simmod._QUEUED, "simulations left in the queue", "C18")


# ------------------------------------------------------------------ exporters


EVENTS = []


class Spy(expmod.Exporter):
    label = "spy"

    def sim_start(self):
        EVENTS.append((self.label, "start", len(RUNS)))

    def sim_end(self):
        EVENTS.append((self.label, "end", len(RUNS)))

    def iteration_end(self, env, params, params_id):
        EVENTS.append((self.label, "iteration", len(RUNS), env, copy.deepcopy(params), params_id))


class Spy2(Spy):
    label = "spy2"


class SpyDefault(expmod.default):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, exporter_cls=[Spy, Spy2], **kwargs)


@scenario("C19")
def exporter_protocol(rng):
    params, mat, expected = setting(rng)
    iters = rng.choice([1, 2, 3, rng.size(2, 4, cap=12)]) if len(expected) < 10 else rng.randint(1, 2)
    which = rng.choice([[Spy], [Spy, Spy2], [SpyDefault], [Spy, SpyDefault], ["concrete.s_sim.Spy"], []])
    note("parameters", params, "matrix", mat, "iterations", iters, "exporters", which)
    RUNS.clear()
    EVENTS.clear()
    res = Simulation(model=Recorder, name="x", parameters=params, matrix=mat, iterations=iters, exporters=which, dump=False,
                     max_steps=rng.choice([1, 2])).run()
    labels = []
    for w in which:
        labels += {"Spy": ["spy"], "Spy2": ["spy2"], "SpyDefault": ["spy", "spy2"], "concrete.s_sim.Spy": ["spy"]}[w if isinstance(w, str) else w.__name__]
    total = len(expected) * iters
    same(len(res), total, "environments", "C19 C18")
    ids = {}
    for label in set(labels):
        times = labels.count(label)
        mine = [e for e in EVENTS if e[0] == label]
        same([e[1] for e in mine], ["start"] * times + [x for _ in range(total) for x in ["iteration"] * times] + ["end"] * times,
             f"notifications to {label}", "C19")
        for e in mine[:times]:
            same(e[2], 0, "runs before the start of the simulation", "C19")
        its = mine[times:-times][::times]
        for k, e in enumerate(its):
            check(e[3] is res[k], f"notification {k}: environment {e[3].id}, expected {res[k].id}", "C19")
            same(e[2], k + 1, f"runs before notification {k}", "C19")
            got = full(e[4])
            same((got, str(got)), ((lambda d: (d, str(full(d))))(full(RUNS[k][0]))), f"parameters of notification {k}", "C19")
            key = str(sorted(e[4].items()))
            check(ids.setdefault(key, e[5]) == e[5], f"different identifiers for the same configuration: {key}", "C19")
    byid = {}
    for key, i in ids.items():
        check(byid.setdefault(i, key) == key, f"the same identifier for {key} and {byid[i]}", "C19")


class Plain(Environment):
    def init(self):
        self.add_agent(Ticker)


@scenario("C19")
def identifiers(rng):
    """Many parameters, with values and names that are alike"""
    RUNS.clear()
    EVENTS.clear()
    stem = rng.choice(["p", "parameter_", "p" * rng.size(1, 9, cap=60)])
    names = [f"{stem}{k}" for k in range(rng.size(1, 6, cap=40))]
    rng.shuffle(names)
    long = rng.choice(["v", "a long text " * 3, "x" * rng.size(1, 20, cap=300)])
    values = [1, 2, 10, 0.5, 0.5000001, "1", "", None, "None", long, long + "1", long + "2", "1" + long, (1, 2), (2, 1), [1, 2], [1, [2]], {"k": 1}, {"k": 2}, {"k": [1]}, -1,
              1234567.5, 1234567.25, rng.number([4]), rng.text(["z"])]
    params = {k: rng.choice(values) for k in names}
    mat = {k: rng.sample(values, rng.randint(2, 4)) for k in rng.sample(names, min(len(names), rng.choice([1, 1, 2])))}
    configs = [{}]
    for k, vs in mat.items():
        configs = [{**c, k: v} for c in configs for v in vs]
    configs = [{**params, **c} for c in configs]
    iters = rng.choice([1, 2])
    note("parameters", params, "matrix", mat, "iterations", iters)
    Simulation(model=Plain, name="x", parameters=params, matrix=mat, iterations=iters, exporters=[Spy], dump=False, max_steps=1).run()
    its = [e for e in EVENTS if e[1] == "iteration"]
    same(len(its), len(configs) * iters, "notifications", "C19")
    known, back = {}, {}
    for k, e in enumerate(its):
        want = str(sorted(configs[k // iters].items()))
        same(str(sorted(e[4].items())), want, f"parameters of notification {k}", "C19")
        same(known.setdefault(want, e[5]), e[5], f"identifier of the same configuration: {want}", "C19")
        same(back.setdefault(e[5], want), want, f"configurations with the identifier {e[5]}", "C19")


# ------------------------------------------------------------------ isolation


class Messy(Environment):
    """Changes everything within its reach"""
    a = None
    b = None
    c = None

    def init(self):
        RUNS.append(dict(id=self.id, first=self.random.random(), reporters=sorted(self.datacollector.model_reporters),
                         agent_reporters=sorted(self.datacollector.agent_reporters),
                         nodes=[(n, dict(d)) for n, d in self.G.nodes(data=True)], edges=list(self.G.edges), state=copy.deepcopy((self.a, self.b, self.c)),
                         me=id(self), env=self, nagents=len(self.schedule.agents), time=self.schedule.time))
        self.add_agent(Ticker)
        for k in range(2):
            self.add_node(Net)
        self.G.add_node("extra")
        self.add_model_reporter(f"mine{len(RUNS)}", lambda m: 1)
        self.add_agent_reporter(f"agent{len(RUNS)}", lambda a: 1)
        self.added = True


class Net(NetworkAgent):
    def step(self):
        if "agent" in self.G.nodes[self.node_id]:
            self.G.nodes[self.node_id]["touched"] = True
        return 1


@scenario("C20")
def isolation(rng):
    params = {k: rng.choice([1, "x", 2.5, [1, [2]], {"k": []}]) for k in rng.sample("abc", rng.randint(0, 2))}
    g = nx.path_graph(rng.size(1, 4, cap=30))
    if rng.random() < 0.8:
        params["topology"] = g
    before_nodes, before_edges = copy.deepcopy(list(g.nodes(data=True))), list(g.edges)
    mat = {}
    if rng.random() < 0.5:
        mat = {"c": [1, 2, 3][: rng.randint(1, 3)]}
    rep = {"r1": "a"}
    arep = {"unique_id": "unique_id"}
    given = {}
    if rng.random() < 0.5:
        given["model_reporters"] = rep
    if rng.random() < 0.5:
        given["agent_reporters"] = arep
    if rng.random() < 0.3:
        params["model_reporters"] = {"r2": "b"}
    if rng.random() < 0.2:
        params["agent_reporters"] = {"r3": "unique_id"}
    seed = rng.choice(["one", "two", "default", "1", rng.text(["three"])])
    iters = rng.choice([1, 2, 3, rng.size(2, 4, cap=12)])
    snapshot = ({k: v for k, v in params.items() if k != "topology"}, copy.deepcopy(mat), dict(rep), dict(arep))
    snapshot = copy.deepcopy(snapshot)
    note("parameters", params, "matrix", mat, given, "seed", seed, "iterations", iters)
    firsts = []
    for again in range(2):
        RUNS.clear()
        global_random.seed(rng.random())
        sim = Simulation(model=Messy, name="x", parameters=params, matrix=mat, iterations=iters, seed=seed, exporters=[], dump=False,
                         max_steps=2, **given)
        res = sim.run()
        n = len(RUNS)
        same(n, iters * (len(mat["c"]) if mat else 1), "runs", "C20 C18")
        same(len({id(e) for e in res}), n, "different environments", "C20")
        check([r["env"] for r in RUNS] == res or all(x["env"] is y for x, y in zip(RUNS, res)), "environments", "C20")
        r0 = RUNS[0]
        for k, r in enumerate(RUNS):
            same(r["id"], str(k % iters), "id", "C20")
            same(r["first"], RUNS[k % iters]["first"], f"first random number of iteration {r['id']}", "C20")
            same(r["reporters"], r0["reporters"], "reporters of a new environment", "C20")
            same(r["agent_reporters"], r0["agent_reporters"], "agent reporters of a new environment", "C20")
            same((r["nodes"], r["edges"]), (r0["nodes"], r0["edges"]), "network of a new environment", "C20")
            same((r["nagents"], r["time"]), (0, 0), "agents and time of a new environment", "C20")
            check(r["nodes"] == (before_nodes if "topology" in params else []), "network of a new environment", "C20")
        same(len({r["first"] for r in RUNS}), iters, "iterations with different seeds", "C20")
        firsts.append([r["first"] for r in RUNS])
        same((list(g.nodes(data=True)), list(g.edges)), (before_nodes, before_edges), "network given by the user", "C20")
        now = ({k: v for k, v in params.items() if k != "topology"}, mat, rep, arep)
        same(now, snapshot, "parameters, matrix and reporters given by the user", "C20")
        same(len({id(e.G) for e in res}), n, "environments sharing a network", "C20")
        same(len({id(e.datacollector) for e in res}), n, "environments sharing a collector", "C20")
    same(firsts[0], firsts[1], "first random number, with the same seed", "C20 C25")
    RUNS.clear()
    Simulation(model=Messy, name="other", parameters=dict(params), iterations=iters, seed=seed + "!", exporters=[], dump=False, max_steps=1).run()
    check(RUNS[0]["first"] != firsts[0][0], "the seed of the simulation does not matter", "C20")
    if iters > 1:
        # it does not depend on how many iterations there are
        RUNS.clear()
        Simulation(model=Messy, name="third", parameters=dict(params), iterations=1, seed=seed, exporters=[], dump=False, max_steps=1).run()
        same(RUNS[0]["first"], firsts[0][0], "first random number with fewer iterations", "C20")


class Shared(Environment):
    def init(self):
        self.add_agent(Ticker)
        RUNS.append((sorted(self.datacollector.model_reporters), sorted(self.datacollector.agent_reporters)))


@scenario("C20")
def reporters(rng):
    """Reporters of an environment do not reach another one"""
    which = rng.choice(["shared_dict", "none", "class", "empty"])
    rep = {"x": lambda m: 1}
    arep = {}
    kw = {"shared_dict": dict(model_reporters=rep, agent_reporters=arep), "none": dict(), "class": dict(model_reporters=rep), "empty": dict(model_reporters={})}[which]
    note(which)
    a = Shared(**kw)
    a.add_model_reporter("mine", lambda m: 2)
    a.add_agent_reporter("mine_too", lambda m: 2)
    b = Shared(**kw)
    check("mine" not in b.datacollector.model_reporters, "model reporter in another environment", "C20")
    check("mine_too" not in b.datacollector.agent_reporters, "agent reporter in another environment", "C20")
    same((sorted(rep), sorted(arep)), (["x"], []), "reporters given by the user", "C20")


# ------------------------------------------------------------------ reproducibility


class Walker(Agent):
    energy = 1

    @state(default=True)
    def walk(self):
        self.energy = self.random.random()
        if self.prob(0.3):
            return self.rest, self.random.choice([1, 2, 0.5])
        return self.random.choice([1, 0.25, 3])

    @state
    def rest(self):
        if self.prob(0.1):
            return self.die()
        others = self.get_neighbors(state_id="walk")
        if others:
            self.model.events.append((self.now, self.unique_id, self.random.choice(others).unique_id))
        return self.walk


class Runner(Agent):
    def step(self):
        self.model.events.append((self.now, self.unique_id, self.node_id))
        if self.prob(0.1) and len(self.model.schedule.agents) < 30:
            self.model.add_node(Runner)
        return self.random.choice([None, 1, 2])


class World(Environment):
    n = 5
    how = "populate"
    kinds = ()

    def init(self):
        self.events = []
        self.add_agent_reporter("energy", lambda a: getattr(a, "energy", None))
        self.add_agent_reporter("node_id")
        kinds = list(self.kinds) or [Walker, Runner]
        if self.how == "populate":
            self.populate_network(kinds, weights=[2] + [1] * (len(kinds) - 1))
        elif self.how == "agents":
            self.add_agents(kinds, k=self.n)
        elif self.how == "nodes":
            for _ in range(self.n):
                self.add_node(self.random.choice(kinds))
        else:
            self.add_agents([Runner], weights=[1])


JUNK = []


def new_kinds(n, junk):
    """Classes of agents, in different places of the memory"""
    out = []
    for k in range(n):
        for _ in range(junk.randrange(7)):
            JUNK.append(type("Junk", (), {}) if junk.random() < 0.5 else bytearray(junk.randrange(600, 5000)))
        out.append(type(f"Kind{k}", (Walker if k % 2 else Runner,), {}))
    del JUNK[:-300]
    return out


@scenario("C25")
def reproducible(rng):
    kind = rng.choice(list(KINDS))
    cls = type("World", (World,), {"schedule_class": KINDS[kind]})
    net = rng.choice(["graph", "generator", "generator2"])
    n = rng.size(3, 9, cap=130)
    how = rng.choice(["populate", "agents", "nodes", "default"])
    fresh = rng.choice([0, 0, 3, 5])

    def run():
        if net == "graph":
            kw = dict(topology=nx.path_graph(n))
        elif net == "generator":
            kw = dict(network_generator=nx.erdos_renyi_graph, network_params=dict(n=n, p=0.5))
        else:
            kw = dict(network_generator="barabasi_albert_graph", network_params=dict(n=n, m=2))
        if fresh:
            kw["kinds"] = new_kinds(fresh, rng)
        seed = rng_seed
        if via == "env":
            env = cls(seed=seed, n=n, how=how, **kw)
            for _ in range(steps):
                env.step()
            envs = [env]
        else:
            envs = Simulation(model=cls, name="x", seed=str(seed), parameters=dict(n=n, how=how, **kw), iterations=2,
                              max_steps=steps, exporters=[], dump=False).run()
        out = []
        for env in envs:
            out.append(dict(
                agents=[(a.unique_id, type(a).__name__, a.node_id) for a in env.schedule.agents],
                nodes=[(x, getattr(d.get("agent"), "unique_id", None)) for x, d in env.G.nodes(data=True)],
                edges=sorted(map(str, env.G.edges)), events=list(env.events), time=env.schedule.time,
                model=env.model_df().to_csv(), data=env.agent_df(steps=True).to_csv()))
        return out
    rng_seed = rng.choice([1, "abc", 42, "z"])
    via = rng.choice(["env", "sim"])
    steps = rng.size(1, 8, cap=40)
    note(kind, net, n, how, "seed", rng_seed, via, steps)
    global_random.seed(1)
    np.random.seed(1)
    first = run()
    for k in range(2):
        global_random.seed(rng.random())
        np.random.seed(rng.randint(0, 1000))
        for _ in range(rng.randint(0, 3)):
            global_random.random()
        other = run()
        for x, y in zip(first, other):
            for key in x:
                same(y[key], x[key], f"{key} of two runs with the same seed", "C25")


ACROSS = """
import sys, json, logging, warnings
warnings.simplefilter("ignore")
sys.path[:0] = {path!r}
logging.disable(logging.CRITICAL)
from concrete import s_sim
print("@@@" + json.dumps(s_sim.batch({case})))
"""


def batch(case):
    """Some runs, with names instead of numbers for the nodes"""
    from .base import Rng
    out = []
    for k in range(8):
        rng = Rng(case * 1000 + k)
        kind = rng.choice(list(KINDS))
        cls = type("World", (World,), {"schedule_class": KINDS[kind]})
        n = rng.randint(4, 9)
        g = nx.relabel_nodes(nx.gnp_random_graph(n, 0.5, seed=case + k), lambda i: f"node {i}")
        how = rng.choice(["populate", "agents", "nodes", "default"])
        if rng.random() < 0.7:
            kw = dict(topology=g)
        else:
            kw = dict(network_generator=rng.choice(["erdos_renyi_graph", nx.gnp_random_graph]), network_params=dict(n=n, p=0.5))
        seed = rng.choice(["abc", "s", "1"]) + str(k)
        if rng.random() < 0.5:
            kw["kinds"] = new_kinds(4, Rng(os.environ.get("PYTHONHASHSEED", "")))
        if rng.random() < 0.5:
            env = cls(seed=seed, n=n, how=how, **kw)
            for _ in range(6):
                env.step()
            envs = [env]
        else:
            envs = Simulation(model=cls, name="x", seed=seed, parameters=dict(n=n, **kw), matrix=dict(how=[how, "nodes"]), iterations=2,
                              max_steps=6, exporters=[], dump=False).run()
        for env in envs:
            out.append(dict(
                agents=[(a.unique_id, type(a).__name__, str(a.node_id)) for a in env.schedule.agents],
                nodes=[(str(x), getattr(d.get("agent"), "unique_id", None)) for x, d in env.G.nodes(data=True)],
                edges=sorted(map(str, env.G.edges)), events=[list(map(str, e)) for e in env.events], time=str(env.schedule.time), how=env.how,
                model=env.model_df().to_csv(), data=env.agent_df(steps=True).to_csv()))
    return out


@scenario("C25 C20", timeout=100, cases=2)
def across_processes(case):
    """The same runs in different processes (in which texts have different hashes)"""
    import json
    import subprocess
    import sys
    import soil
    root = os.path.dirname(os.path.dirname(os.path.abspath(soil.__file__)))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    procs = []
    for h in ("1", "2", "12345"):
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1")
        procs.append(subprocess.Popen([sys.executable, "-c", ACROSS.format(path=[root, here], case=case)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True))
    outs = []
    for p in procs:
        try:
            out, err = p.communicate(timeout=90)
        finally:
            p.kill()
        if p.returncode or "@@@" not in out:
            raise RuntimeError(f"a run failed: {err[-500:]}")
        outs.append(json.loads(out.split("@@@")[1]))
    note("runs", len(outs[0]))
    for other in outs[1:]:
        same(len(other), len(outs[0]), "number of runs", "C25")
        for x, y in zip(outs[0], other):
            for key in x:
                same(y[key], x[key], f"{key} of two runs with the same seed in different processes", "C25 C20")


@scenario("C25")
def ambient(rng):
    """The framework does not use the random generators of the process"""
    kind = rng.choice(list(KINDS))
    cls = type("World", (World,), {"schedule_class": KINDS[kind]})
    how = rng.choice(["populate", "agents", "nodes", "default"])
    global_random.seed(7)
    s0 = global_random.getstate()
    n0 = np.random.get_state()[1].tolist()
    n = rng.size(3, 8, cap=130)
    kw = rng.choice([dict(topology=nx.path_graph(n)),
                     dict(network_generator=nx.erdos_renyi_graph, network_params=dict(n=n, p=0.5))])
    note(kind, how, kw)
    env = cls(seed="x", how=how, **kw)
    for _ in range(4):
        env.step()
    check(global_random.getstate() == s0, "the random generator of the process was used", "C25")
    check(np.random.get_state()[1].tolist() == n0, "the numpy generator of the process was used", "C25")


# ------------------------------------------------------------------ SISa


PARAMS = dict(neutral_discontent_spon_prob=0.05, neutral_discontent_infected_prob=0.1, neutral_content_spon_prob=0.4,
              neutral_content_infected_prob=0.4, discontent_neutral=0.13, discontent_content=0.07, variance_d_c=0.02,
              content_discontent=0.009, variance_c_d=0.003, content_neutral=0.088, standard_variance=0.055)


class Fixed:
    """Generator that gives a fixed list of numbers"""

    def __init__(self, values):
        self.values, self.used = list(values), 0

    def random(self):
        self.used += 1
        return self.values[self.used - 1] if self.used <= len(self.values) else 0.999999


@scenario("C24")
def sisa(rng):
    n = rng.size(1, 7, cap=130)
    g = nx.star_graph(n - 1) if n > 1 else nx.empty_graph(1)
    m = Environment(topology=g, **PARAMS)
    m.populate_network(SISaModel)
    center = m.G.nodes[0]["agent"]
    others = [m.G.nodes[i]["agent"] for i in range(1, n)]
    states = ["neutral", "discontent", "content"]
    for a in others:
        a._set_state(rng.choice(states))
    here = rng.choice(states)
    center._set_state(here)
    for k in ("neutral_discontent_spon_prob", "neutral_discontent_infected_prob", "neutral_content_spon_prob", "neutral_content_infected_prob",
              "discontent_neutral", "discontent_content", "content_discontent", "content_neutral"):
        setattr(center, k, rng.choice([0, 0.05, 0.2, 0.3, 0.5, 1, 0.11]))
    nd = sum(a.state_id == "discontent" for a in others)
    nc = sum(a.state_id == "content" for a in others)
    if here == "neutral":
        rules = [(center.neutral_discontent_spon_prob, "discontent"), (center.neutral_content_spon_prob, "content"),
                 (nd * center.neutral_discontent_infected_prob, "discontent"), (nc * center.neutral_content_infected_prob, "content")]
    elif here == "discontent":
        rules = [(center.discontent_neutral, "neutral"), (nc * center.discontent_content, "content")]
    else:
        rules = [(center.content_neutral, "neutral"), (nd * center.content_discontent, "discontent")]
    # numbers close to the probabilities, so that every branch is taken
    draws = []
    for p, _ in rules:
        draws.append(rng.choice([rng.random(), rng.random(), min(p, 0.999), max(0, min(p, 1) - 1e-9), 0.999]))
    want = here
    for (p, s), r in zip(rules, draws):
        if r < p:
            want = s
            break
    note("state", here, "discontent neighbours", nd, "content neighbours", nc, "rules", rules, "draws", draws)
    m.random = Fixed(draws)
    center.step()
    same(center.state_id, want, "next state", "C24")


@scenario("C24")
def sisa_probabilities(rng):
    """The probabilities of an agent are those of the model, with the given deviations"""
    dev = dict(neutral_discontent_spon_prob="standard_variance", neutral_discontent_infected_prob="standard_variance", neutral_content_spon_prob="standard_variance",
               neutral_content_infected_prob="standard_variance", discontent_neutral="standard_variance", discontent_content="variance_d_c", content_discontent="variance_c_d",
               content_neutral="standard_variance")
    seed = rng.choice(["text", rng.randint(0, 1000), str(rng.random())])

    def one(params):
        m = Environment(topology=nx.path_graph(2), seed=seed, **params)
        m.populate_network(SISaModel)
        return [m.G.nodes[i]["agent"] for i in range(2)]

    def some(zero):
        p = {k: rng.choice([0.0, 1.0, rng.random()]) for k in dev}
        p.update({k: 0.0 if zero else 0.01 + rng.random() for k in set(dev.values())})
        return p
    p = some(True)
    note(seed, p)
    for a in one(p):
        for k in dev:
            check(abs(getattr(a, k) - p[k]) < 1e-12, f"{k} is {getattr(a, k)}, and that of the model is {p[k]} (without deviation)", "C24")
    p, q = some(False), some(False)
    note(p, q)
    for a, b, c in zip(one(p), one(q), one(p)):
        for k, d in dev.items():
            x, y = (getattr(a, k) - p[k]) / p[d], (getattr(b, k) - q[k]) / q[d]
            check(abs(x - y) < 1e-6, f"{k} does not have the given mean and deviation: {getattr(a, k)} with {p[k]}, {p[d]}; {getattr(b, k)} with {q[k]}, {q[d]} (same seed)", "C24")
            same(getattr(a, k), getattr(c, k), f"{k} for the same seed", "C24")


@scenario("C24")
def probability(rng):
    from soil.agents import prob
    p = rng.choice([0, 1, 0.5, rng.random(), -0.1, 1.5])
    r = rng.choice([rng.random(), 0.0, min(max(p, 0), 0.999), 0.5, max(0, p - 1e-12) if p <= 1 else 0.3])
    note(p, r)
    f = Fixed([r])
    got = prob(p, f)
    check(bool(got) == (r < p), f"prob({p}) with the number {r} is {got}", "C24")
    same(f.used, 1, "random numbers used", "C24 C25")

    class A(BaseAgent):
        def step(self):
            pass
    m = Environment()
    a = m.add_agent(A)
    f = Fixed([r])
    m.random = f
    check(bool(a.prob(p)) == (r < p), f"agent.prob({p}) with the number {r}", "C24")
    same(f.used, 1, "random numbers used", "C24 C25")
