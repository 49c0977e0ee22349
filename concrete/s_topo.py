"""Creation of networks"""
import copy
import os
import networkx as nx
from .base import scenario, check, same, raises, note
from .s_serial import workdir
from soil import Environment, Simulation
from soil.agents import NetworkAgent, BaseAgent


class Walker(NetworkAgent):
    def step(self):
        return 1


class Tick(BaseAgent):
    def step(self):
        return 1


def random_graph(rng, directed=True, attrs=True, ints=False):
    cls = rng.choice([nx.Graph, nx.DiGraph, nx.MultiGraph] if directed else [nx.Graph])
    g = cls()
    n = rng.size(1, 6)
    nodes = list(range(n)) if ints or rng.random() < 0.6 else [f"n{i}" for i in range(n)] if rng.random() < 0.7 else list(dict.fromkeys([rng.text(["", "agent", "a b", "0", "-1"])] + list(range(-2, n - 3)) + ["x"]))
    rng.shuffle(nodes)
    for x in nodes:
        g.add_node(x, **({"color": rng.choice(["red", "blue"]), "size": int(rng.number([0, 3, 9, -1]))} if attrs and rng.random() < 0.7 else {}))
    for _ in range(rng.size(0, 8)):
        g.add_edge(rng.choice(nodes), rng.choice(nodes), **({"weight": float(rng.number([0.5, 1.5, 2.5, 0.0]))} if attrs else {}))
    return g


def contents(g, links=True):
    return (sorted(((str(n), repr(n), sorted((k, repr(v)) for k, v in d.items() if k not in ("agent", "label"))) for n, d in g.nodes(data=True))),
            sorted((sorted([repr(a), repr(b)]) if not g.is_directed() else [repr(a), repr(b)], sorted((k, repr(v)) for k, v in d.items() if k != "id")) for a, b, d in g.edges(data=True)),
            g.is_directed(), g.is_multigraph())


def build(rng, how, populate, **kw):
    """A model with a network, given in its constructor or in its initialization"""
    class M(Environment):
        def init(self):
            self.before = None
            if how == "init":
                self.create_network(**{("generator" if k == "network_generator" else k): v for k, v in args.items()})
            if populate:
                self.populate_network(Walker)
            self.add_agent(Tick)
    if how == "init":
        args = dict(kw)
        args.update(args.pop("network_params", {}))
        dp = args.pop("dir_path", None)
        return M(seed=rng.random(), **({"dir_path": dp} if dp else {}))
    return M(seed=rng.random(), **kw)


@scenario("C28")
def given(rng):
    """A graph, or a dictionary"""
    g = random_graph(rng)
    want = contents(g)
    how = rng.choice(["init", "constructor"])
    kind = rng.choice(["graph", "dict", "simulation"])
    populate = rng.random() < 0.5
    note(kind, how, want)
    if kind == "graph":
        m = build(rng, how, populate, topology=g)
    elif kind == "dict":
        data = nx.node_link_data(g)
        saved = copy.deepcopy(data)
        m = build(rng, how, populate, topology=data)
        same(data, saved, "the dictionary that was given", "C28")
    else:
        class M(Environment):
            def init(self):
                if populate:
                    self.populate_network(Walker)
                self.add_agent(Tick)
        m, = Simulation(model=M, name="x", parameters={"topology": g}, max_steps=2, dump=False, exporters=[]).run()
    same(contents(m.G), want, "network", "C28")
    if populate:
        check(all("agent" in d for _, d in m.G.nodes(data=True)), "nodes without agent", "C28 C11")
    check(m.G is not g, "the network is the one that was given, and not a copy", "C28 C20")
    m.G.add_node("more")
    for _, d in m.G.nodes(data=True):
        d["color"] = "changed"
    for *_, d in m.G.edges(data=True):
        d["weight"] = "changed"
    same(contents(g), want, "the graph that was given", "C28 C20")
    check(not any("agent" in d for _, d in g.nodes(data=True)), "the graph that was given has agents", "C28 C20")


@scenario("C28")
def files(rng):
    with workdir() as tmp:
        folder = os.path.join(tmp, "nets")
        os.makedirs(os.path.join(folder, "sub.d"))
        os.makedirs("sub.d")
        fmt = rng.choice(["gexf", "graphml", "gml", "edgelist", "adjlist", "unknown"])
        g = random_graph(rng, directed=fmt in ("graphml",), attrs=fmt not in ("edgelist", "adjlist"), ints=fmt in ("gexf",))
        if fmt in ("edgelist", "adjlist", "gml"):
            g = nx.Graph([(str(a).replace(" ", "_") or "empty", str(b).replace(" ", "_") or "empty") for a, b in g.edges] or [("0", "1")])
        if fmt == "graphml":
            g = nx.Graph(g) if g.is_multigraph() else g
            g = nx.relabel_nodes(g, {n: str(n) for n in g})
        rel = rng.choice(["net.", "sub.d/net."]) + fmt
        path = os.path.join(folder, rel)
        other = os.path.join(os.getcwd(), rel)
        if fmt == "unknown":
            open(path, "w").write("?")
        elif fmt == "gexf":
            nx.write_gexf(g, path, version="1.2draft")
        else:
            getattr(nx, "write_" + fmt)(g, path, **({"data": True} if fmt == "edgelist" else {}))
            h = nx.Graph([("decoy", "other")])
            getattr(nx, "write_" + fmt)(h, other)
        how = rng.choice(["init", "constructor"])
        absolute = rng.random() < 0.4
        key = rng.choice(["topology", "path"]) if how == "init" else "topology"
        kw = {key: path if absolute else rel}
        if not absolute or rng.random() < 0.5:
            kw["dir_path"] = folder
        note(fmt, how, kw, list(g.edges))
        populate = rng.random() < 0.4
        if fmt == "unknown":
            raises(lambda: build(rng, how, populate, **kw), "an unknown format", "C28")
            return
        m = build(rng, how, populate, **kw)
        same(contents(m.G), contents(g), "network", "C28")


CALLS = []


def with_seed(n, p=0.5, seed=None):
    CALLS.append(dict(n=n, p=p, seed=seed))
    return nx.gnp_random_graph(n, p, seed=seed)


def no_seed(n, extra=1):
    CALLS.append(dict(n=n, extra=extra))
    g = nx.path_graph(n)
    g.graph["extra"] = extra
    return g


@scenario("C28")
def generated(rng):
    how = rng.choice(["init", "constructor"])
    n = rng.size(1, 6, cap=60)
    kind = rng.choice(["function", "no seed", "path_graph", "complete_graph", "cycle_graph", "circular_ladder_graph", "random", "nothing", "by name", "failing"])
    populate = rng.random() < 0.4
    del CALLS[:]
    note(kind, how, n)
    if kind in ("function", "by name"):
        params = dict(n=n) if rng.random() < 0.5 else dict(n=n, p=rng.choice([0, 0.3, 1]))
        m = build(rng, how, populate, network_generator=with_seed if kind == "function" else "concrete.s_topo.with_seed", network_params=params)
        same(len(CALLS), 1, "calls to the generator", "C28")
        c = CALLS[0]
        same((c["n"], c["p"]), (n, params.get("p", 0.5)), "parameters", "C28")
        check(c["seed"] is m.random, "the seed is not the generator of the model", "C28 C25")
        same(len(m.G), n, "nodes", "C28")
    elif kind == "no seed":
        params = dict(n=n) if rng.random() < 0.5 else dict(n=n, extra=5)
        m = build(rng, how, populate, network_generator=no_seed, network_params=params)
        same(CALLS, [dict(n=n, extra=params.get("extra", 1))], "calls to the generator", "C28")
        same(contents(m.G), contents(nx.path_graph(n)), "network", "C28")
    elif kind == "random":
        p = rng.choice([0, 0.4, 1])
        m = build(rng, how, populate, network_generator="erdos_renyi_graph", network_params=dict(n=n, p=p))
        same(len(m.G), n, "nodes", "C28")
        if p in (0, 1):
            same(m.G.number_of_edges(), 0 if p == 0 else n * (n - 1) // 2, "edges", "C28")
    elif kind == "failing":
        error = rng.choice([ValueError, KeyError, nx.NetworkXError, RuntimeError, AttributeError])

        def generator(n, **kwargs):
            CALLS.append(n)
            raise error("it cannot be generated")
        raises(lambda: build(rng, how, populate, network_generator=generator, network_params=dict(n=n)), "a generator that fails", "C28", exc=error)
        same(CALLS, [n], "calls to the generator", "C28")
    elif kind == "nothing":
        class M(Environment):
            def init(self):
                self.add_agent(Tick)
        m = M(seed=1)
        same(len(m.G), 0, "nodes of a model without network", "C28")
        raises(lambda: m.create_network(), "creating a network without a topology", "C28")
    else:
        n = max(n, 3)
        m = build(rng, how, populate, network_generator=rng.choice([kind, getattr(nx, kind)]), network_params=dict(n=n))
        same(contents(m.G), contents(getattr(nx, kind)(n)), "network", "C28")
