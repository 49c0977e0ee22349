"""Contracts of the creation of networks (soil/network.py, NetworkEnvironment.create_network)"""
from .base import *
import os as _os
import networkx as nx
from soil import environment as ENV, network as NET, serialization as SER


class Ghost(nx.Graph):
    """Some graph: copies know where they come from"""

    def copy(self, *a, **k):
        return type(self)(origin=self.graph.get("me"))


@contract("C28", ["from_topology"], assumes=["networkx: Graph.copy, node_link_graph and the read_* functions give the graph that is described by their argument", "os.path (standard library)"])
def topology(ctx):
    """
    ensures  nothing: an empty network; a graph: a copy of it; a dictionary: the node-link graph that it describes; otherwise, the contents of that file, from
             the given folder if its path is relative, according to its extension (an error if it is not known)
    """
    need(NET, "nx", "os")
    kind = choice("given", ["nothing", "graph", "digraph", "dictionary", "bad dictionary", "file", "unknown file"])
    read = []
    made = nx.Graph(made=True)

    def node_link(data, *a, **k):
        read.append(("node_link", data, a, k))
        if kind == "bad dictionary":
            raise KeyError("nodes")
        return made

    formats = ["gexf", "graphml", "gml", "edgelist", "adjlist", "pajek"]

    def reader(fmt):
        def f(path, *a, **k):
            read.append((fmt, path, a, k))
            return made
        return f
    rw = Stub("readwrite", absent=("read_other",), **{"read_" + f: reader(f) for f in formats})
    jg = Stub("json_graph", node_link_graph=node_link)
    rw.__dict__["json_graph"] = jg
    nxs = Stub("networkx", Graph=nx.Graph, DiGraph=nx.DiGraph, readwrite=rw, json_graph=jg, node_link_graph=node_link, **{"read_" + f: reader(f) for f in formats})
    data = {"nodes": [], "links": []}
    kw = {}
    given = None
    path = fmt = None
    if kind in ("graph", "digraph"):
        base = Ghost if kind == "graph" else type("DGhost", (nx.DiGraph,), dict(copy=Ghost.copy))
        given = base(me="given")
    elif "dictionary" in kind:
        given = data
    elif "file" in kind:
        fmt = choice("format", formats) if kind == "file" else "other"
        absolute = choice("absolute", [True, False])
        given = ("/abs/net." if absolute else choice("relative", ["net.", "sub/net.", "sub.d/net."])) + fmt
        folder = choice("folder", [None, "/folder"])
        if folder:
            kw["dir_path"] = folder
        path = _os.path.join(folder, given) if folder else given
    with patched((NET, "nx", nxs)):
        out = call(NET.from_topology, given, **kw)
    cover(kind)
    if kind in ("bad dictionary", "unknown file"):
        prove(z3.BoolVal(not out.ok), "an unknown format is an error")
        prove(z3.BoolVal(not [r for r in read if r[0] != "node_link"]), "nothing is read")
        return
    if not returned(out, "no errors"):
        return
    g = out.value
    if kind == "nothing":
        prove(z3.BoolVal(isinstance(g, nx.Graph) and len(g) == 0 and not g.graph), "an empty network")
    elif "graph" in kind:
        prove(z3.BoolVal(g is not given and type(g) is type(given) and g.graph == {"origin": "given"} and not read), "a copy of the graph")
    else:
        prove(z3.BoolVal(g is made and len(read) == 1), "the network is what was read")
        how, what, a, k = (read or [(None,) * 4])[0]
        if kind == "dictionary":
            prove(z3.BoolVal(how == "node_link" and what is data and not a and not k), "the dictionary is a node-link graph", read)
            prove(z3.BoolVal(data == {"nodes": [], "links": []}), "the dictionary is not modified")
        else:
            prove(z3.BoolVal(how == fmt), "the format is that of the extension", read)
            prove(z3.BoolVal(_os.path.normpath(str(what)) == _os.path.normpath(path)), "the file is in the given folder", what)
            prove(z3.BoolVal(not a and k == (dict(version="1.2draft", node_type=int) if fmt == "gexf" else {})), "options of the format", k)


@contract("C28", ["from_params"], assumes=["deserializer (its contract)"])
def generator(ctx):
    """
    ensures  the network is the result of calling the generator once, with exactly the given parameters
    """
    need(NET, "serialization", "sys")
    fresh = choice("folder is new", [True, False])
    path = ["/a"] if fresh else ["/a", "/folder"]
    calls = []
    fails = choice("the generator fails", [False, True])
    a, b = opaque("a"), opaque("b")
    result = Stub("graph")

    def method(*args, **kw):
        calls.append((args, kw))
        if fails:
            raise External()
        return result
    asked = []

    def deserializer(t, known_modules=(), **k):
        asked.append((t, list(known_modules)))
        return method
    names = choice("parameters", [(), ("n",), ("n", "seed"), ("generator_", "m", "p")])
    kw = dict(zip(names, [a, b, a]))
    with patched((NET, "serialization", Stub("serialization", deserializer=deserializer)), (NET, "sys", Stub("sys", path=path))):
        out = call(NET.from_params, "some generator", dir_path="/folder", **kw)
    cover(f"{len(names)} {fails}")
    prove(z3.BoolVal(len(asked) == 1 and asked[0][0] == "some generator" and "networkx.generators" in asked[0][1]), "the generator is the one that was asked for", asked)
    prove(z3.BoolVal(len(calls) == 1 and not calls[0][0] and sorted(calls[0][1]) == sorted(names)), "the generator is called once, with the given parameters", calls)
    for k in names:
        if calls and k in calls[0][1]:
            prove(equal(calls[0][1][k], kw[k]), "the values of the parameters are those given")
    if fails:
        prove(z3.BoolVal(isinstance(out.exc, External)), "errors are reported")
    elif returned(out, "no errors"):
        prove(z3.BoolVal(out.value is result), "the network is what the generator returns")


class Env(ENV.NetworkEnvironment):
    def __new__(cls, *a, **k):
        return object.__new__(cls)


@contract("C28 C25", ["NetworkEnvironment.create_network"], assumes=["from_topology, from_params (their contracts)"])
def create(ctx):
    """
    ensures  the network is that of the topology, or else that of the path, or else that of the generator, with the given parameters and the random generator
             of the model (only if the generator takes it); without any of them, an error and nothing changes
    """
    need(ENV, "network")
    rnd, old = Stub("random"), Stub("previous network")
    e = make(Env, "model", random=rnd, logger=Logger(), dir_path="/folder", G=old)
    given = choice("given", ["topology", "topology and generator", "path", "generator", "nothing"])
    takes = choice("the generator takes a seed", [True, False])
    done = []
    result = Stub("graph")

    def from_topology(t, dir_path=None):
        done.append(("topology", t, dir_path))
        return result

    def from_params(generator=None, dir_path=None, **kw):
        if not takes and "seed" in kw:
            raise TypeError("unexpected argument seed")
        done.append(("generator", generator, dir_path, kw))
        if fails:
            raise fails("it cannot be generated")
        return result
    kw = {}
    fails = choice("the generator fails", [None, ValueError, KeyError, RuntimeError]) if given == "generator" else None
    if "topology" in given:
        kw["topology"] = "T"
    if given == "path":
        kw["path"] = "P"
    if "generator" in given:
        kw["generator"] = "some"
    params = choice("parameters", [{}, {"n": integer("n")}, {"n": integer("n"), "p": real("p"), "x": None, "y": opaque("y")}])
    if "generator" in given:
        kw.update(params)
    with patched((ENV, "network", Stub("soil.network", from_topology=from_topology, from_params=from_params))):
        out = call(e.create_network, **kw)
    cover(given)
    if given == "nothing":
        prove(z3.BoolVal(not out.ok and not done), "an error without a network")
        prove(z3.BoolVal(e.G is old), "the network does not change")
        return
    if fails:
        prove(z3.BoolVal(not out.ok and type(out.exc) is fails and len(done) == 1), "an error of the generator is reported, and it is not called again")
        prove(z3.BoolVal(e.G is old), "the network does not change")
        return
    if not returned(out, "no errors"):
        return
    prove(z3.BoolVal(e.G is result), "the network is the one that was made")
    if "topology" in given:
        prove(z3.BoolVal(done == [("topology", "T", "/folder")]), "the topology is the given one", done)
    elif given == "path":
        prove(z3.BoolVal(done == [("topology", "P", "/folder")]), "the topology is in the given file", done)
    else:
        prove(z3.BoolVal(len(done) == 1 and done[0][0] == "generator" and done[0][1] == "some"), "the network is generated once", done)
        got = {k: v for k, v in done[0][3].items() if k != "seed"}
        prove(z3.BoolVal(set(got) == set(params)), "the parameters are those given", done)
        for k in params:
            if k in got:
                prove(equal(got[k], params[k]), f"the parameters are those given: {k}", done)
        if takes:
            prove(z3.BoolVal(done[0][3].get("seed") is rnd), "the seed is the generator of the model")
