"""Contracts of networks and populations (soil/environment.py, soil/network.py, soil/agents/network_agents.py)"""
from .base import *
import random as ambient
import networkx as nx
import soil.agents as A
from soil.agents import BaseAgent, NetworkAgent
from soil import environment as ENV, network as NET

I = z3.IntSort()
B = z3.BoolSort()


class NodeId:
    """Name of the i-th node of the network (names are unique)"""
    _vc_symbolic = True

    def __init__(self, i):
        self.i = i

    def vc_subst(self, a, b):
        return NodeId(z3.substitute(self.i, (a, b)))

    def vc_term(self):
        return self.i

    def vc_equal(self, o):
        return self.i == o.i if isinstance(o, NodeId) else z3.BoolVal(False)

    def __eq__(self, o):
        return SymBool(self.vc_equal(o))

    def __hash__(self):
        raise Unsupported("hash of a node")

    def __bool__(self):
        # (names such as 0 are false)
        return E.CTX.branch(z3.Function("the name of the node is true", I, B)(self.i))

    def __repr__(self):
        return f"node@{self.i}"


class Occupant:
    """Agent that was in the i-th node"""
    _vc_symbolic = True

    def __init__(self, i):
        self.i = i

    def vc_subst(self, a, b):
        return Occupant(z3.substitute(self.i, (a, b)))

    def vc_term(self):
        return self.i

    def vc_equal(self, o):
        return self.i == o.i if isinstance(o, Occupant) else z3.BoolVal(False)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"agent.{k}")


class NewNode:
    """A node that was added"""

    def __init__(self, name):
        self.name = name


class Net:
    """Any network. Assignments of agents to nodes, and new nodes, are logged"""
    _vc_symbolic = True

    def __init__(self, ctx, log, none=True):
        self.n = length("nodes")
        self.log = log
        self.key = ctx.func("has agent", I, B)       # there is an entry for the agent
        self.none = ctx.func("is none", I, B) if none else (lambda i: z3.BoolVal(False))
        self.isnode = ctx.func("is a node", I, B)    # numbers that are names of nodes
        self.named = []
        self.added = []
        self.nodes = Nodes(self)
        self.strict = True

    def free(self, i):
        return z3.Or(z3.Not(self.key(i)), self.none(i))

    def vc_len(self):
        return SymNum(self.n)

    def __len__(self):
        raise Unsupported("length of a network, by uninstrumented code")

    def __bool__(self):
        return E.CTX.branch(self.n > 0)

    def __contains__(self, k):
        if isinstance(k, NodeId):
            return bool(SymBool(z3.And(0 <= k.i, k.i < self.n)))
        for a in self.added:
            if a is k:
                return True
        if isinstance(k, SymNum):
            return E.CTX.branch(self.isnode(k.v))
        for x, e in self.named:
            if x is k:
                return E.CTX.branch(e)
        e = E.CTX.fresh("is a node", B)
        self.named.append((k, e))
        return E.CTX.branch(e)

    def has_node(self, k):
        return k in self

    def add_node(self, k, **attrs):
        if attrs:
            raise Unsupported("attributes of a new node")
        if isinstance(k, NodeId):
            return
        if isinstance(k, SymNum):
            prove(z3.Not(self.isnode(k.v)), "a new node is new")
        self.added.append(k)
        self.log.add("add_node", k)

    def vc_iter(self):
        return SymSeq(self.n, NodeId, "nodes")

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"G.{k}")

    def data(self, k):
        if isinstance(k, NodeId):
            return Data(self, k)
        for a in self.added:
            if a is k:
                return Data(self, k)
        for x, e in self.named:
            if x is k:
                if E.CTX.branch(e):
                    return Data(self, k)
        raise KeyError(k)


class Nodes:
    _vc_symbolic = True

    def __init__(self, net):
        self.net = net

    def __getitem__(self, k):
        return self.net.data(k)

    def __contains__(self, k):
        return k in self.net

    def vc_iter(self):
        return SymSeq(self.net.n, NodeId, "nodes")

    def vc_list(self):
        return VList(self.vc_iter().vc_segments(), "list of nodes")

    def vc_len(self):
        return SymNum(self.net.n)

    def __call__(self, data=False):
        if data:
            return SymSeq(self.net.n, lambda i: (NodeId(i), Data(self.net, NodeId(i))), "nodes and data")
        return self

    def items(self):
        return self(data=True)

    def data(self):
        return self(data=True)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"G.nodes.{k}")


class Data:
    """Attributes of a node"""
    _vc_symbolic = True

    def __init__(self, net, node):
        self.net, self.node = net, node

    def vc_subst(self, a, b):
        return Data(self.net, L.subst(self.node, a, b))

    def assigned(self):
        """
        The values assigned to this node so far, the last one first: [(condition, value)].
        (own_nodes checks that each iteration of a loop over the nodes only assigns to its own one)
        """
        active = [l.node for l in E.CTX.loops]
        out = []
        for s in reversed(self.net.log.segs):
            if isinstance(s, (Comp, L.Prefix)):
                if not isinstance(self.node, NodeId):
                    continue
                if s.node in active:
                    # previous iterations of this same loop: other nodes
                    if not self.node.i.eq(E.CTX.loops[-1].i):
                        raise Unsupported("access to another node in a loop")
                    continue
                for g, items in s.parts(self.node.i):
                    for ev in reversed(items):
                        if ev[0] == "assign":
                            out.append((z3.And(0 <= self.node.i, self.node.i < s.hi, g), ev[2]))
                            break
            elif s[0] == "assign":
                if s[1] is self.node:
                    out.append((z3.BoolVal(True), s[2]))
                elif isinstance(s[1], NodeId) and isinstance(self.node, NodeId):
                    out.append((s[1].i == self.node.i, s[2]))
        return out

    def __contains__(self, k):
        if k != "agent":
            return self.other(k)
        own = self.net.key(self.node.i) if isinstance(self.node, NodeId) else z3.BoolVal(False)
        return E.CTX.branch(z3.Or(own, *[g for g, _ in self.assigned()]))

    def other(self, k):
        """Any other attribute: the node may have it or not"""
        if not isinstance(self.node, NodeId):
            return False
        return E.CTX.branch(z3.Function(f"the node has {k}", I, B)(self.node.i))

    def is_me(self, ev):
        if ev[0] != "assign":
            return z3.BoolVal(False)
        return equal(ev[1], self.node)

    def get(self, k, default=None):
        if k != "agent":
            return Indexed(f"node {k}", self.node.i) if self.other(k) else default
        if k in self:
            return self[k]
        return default

    def __getitem__(self, k):
        if k != "agent":
            if not self.other(k):
                raise KeyError(k)
            return Indexed(f"node {k}", self.node.i)
        for g, v in self.assigned():
            if E.CTX.branch(g):
                return v
        if k not in self:
            raise KeyError(k)
        if E.CTX.branch(self.net.none(self.node.i)):
            return None
        return Occupant(self.node.i)

    def __setitem__(self, k, v):
        if k != "agent":
            raise Unsupported(f"node attribute {k}")
        self.net.log.add("assign", self.node, v)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"node.{k}")


def own_nodes(loop, new):
    for ev in new:
        if ev[0] == "assign" and not (isinstance(ev[1], NodeId) and ev[1].i.eq(loop.i)):
            raise Unsupported("a node assigned in the iteration of another one")


class Shuffler:
    """Generator of the model: shuffling gives any permutation"""

    def __init__(self, ctx, n):
        self.n = n
        self.p, self.q = ctx.func("permutation", I, I), ctx.func("inverse", I, I)
        j = z3.Int("j")
        p, q = self.p, self.q
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= p(j), p(j) < n, q(p(j)) == j))))
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= q(j), q(j) < n, p(q(j)) == j))))
        self.count = 0

    def shuffle(self, xs):
        if L.bounded() and isinstance(xs, VList):
            items = list(L.expand(xs.segs))
            if E.CTX.branch(self.n != len(items)):
                raise Unsupported("shuffle")
            self.count += 1
            xs.segs = [next(items[k] for k in range(len(items)) if E.CTX.branch(self.p(z3.IntVal(j)) == k)) for j in range(len(items))]
            return
        if not isinstance(xs, VList) or len(xs.segs) != 1 or not isinstance(xs.segs[0], Comp) or E.CTX.loops:
            raise Unsupported("shuffle")
        s = xs.segs[0]
        self.count += 1
        xs.segs = [Comp(s.lo, s.hi, lambda j: s.parts(self.p(j)))]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"random.{k}")


def no_ambient():
    """Patches for the generator shared by all the process: it must not be used"""
    def bad(name):
        def f(*a, **k):
            fail("random choices only come from the generator of the model", name)
            raise Unsupported("ambient randomness")
        return f
    return [(ambient, k, bad(k)) for k in ("shuffle", "choice", "choices", "random", "sample", "randint", "randrange", "uniform")]


class NetA(NetworkAgent):
    def step(self):
        return 1


@contract("C11 C25", ["NetworkAgent.__init__"],
          assumes=["BaseAgent.__init__ (its contract)", "random.Random.shuffle: any permutation (standard library)",
                   "networkx: nodes, add_node (networkx)"])
def placement(ctx):
    """
    ensures  the agent and its node are linked; without a node given: it is a node that was free, or a new one if there was none (and
             only then); no other assignment is changed
    """
    log = Log("network")
    G = Net(ctx, log)
    rnd = Shuffler(ctx, G.n)
    model = Stub("model", G=G, random=rnd, logger=Logger(), now=real("now"))
    a = make(NetA, "agent")
    inits = []
    base = []

    def binit(self, *args, **kw):
        base.append((args, kw))
        self.model, self.unique_id, self.logger, self.alive = model, 7, Logger(), True

    def init():
        inits.append(len(log.segs))

    a.__dict__["init"] = init
    color = opaque("color")
    kw = dict(model=model, unique_id=7, color=color)
    given = None
    if choice("node", ["none", "given"]) == "given":
        k0 = ctx.input("given node", ctx.fresh("given", I))
        assume(z3.And(0 <= k0, k0 < G.n))
        given = kw["node_id"] = NodeId(k0)
    how = choice("topology", ["of the model", "given"])
    if how == "given":
        assume(G.n > 0)
        kw["topology"] = G
        model.G = Stub("another network")
    ini = choice("init", ["default", True, False])
    if ini != "default":
        kw["init"] = ini
    with patched((BaseAgent, "__init__", binit), *no_ambient()):
        out = call(NetworkAgent.__init__, a, **kw)
    if not returned(out, "no errors"):
        return
    if len(base) != 1:
        raise NotApplicable("initialization of the base class")
    prove(z3.BoolVal(base[0][1].get("color") is color and base[0][1].get("unique_id") == 7 and base[0][1].get("model") is model), "the attributes given are used")
    prove(z3.BoolVal(base[0][1].get("init") is False), "the initialization takes place once the agent is in its node")
    want_init = 1 if ini in ("default", True) else 0
    prove(z3.BoolVal(len(inits) == want_init), "the agent is initialized once")
    evs = [e for e in log.segs if not isinstance(e, Comp)]
    assigns = [e for e in evs if e[0] == "assign"]
    news = [e for e in evs if e[0] == "add_node"]
    if want_init and inits:
        prove(z3.BoolVal(inits[0] == len(log.segs)), "the initialization takes place once the agent is in its node")
    if len(assigns) != 1 or assigns[0][2] is not a:
        fail("exactly one node is assigned, to the agent", evs)
        return
    node = assigns[0][1]
    prove(z3.BoolVal(a.G is G), "the network is the given one")
    prove(equal(a.node_id, node), "the node of the agent is the one that it is assigned to")
    if given is not None:
        cover("given")
        prove(equal(node, given), "the given node is used")
        prove(z3.BoolVal(not news), "no node is added")
    elif isinstance(node, NodeId):
        cover("free node")
        prove(z3.And(0 <= node.i, node.i < G.n), "a node of the network")
        prove(G.free(node.i), "the node was free")
        prove(z3.BoolVal(not news), "no node is added")
    else:
        cover("new node")
        prove(z3.BoolVal(len(news) == 1 and news[0][1] is node), "one node is added")
        k = ctx.fresh("k", I)
        # (instance of the permutation, as a hint)
        assume(z3.Implies(z3.And(0 <= k, k < G.n), rnd.p(rnd.q(k)) == k))
        prove(z3.Implies(z3.And(0 <= k, k < G.n), z3.Not(G.free(k))), "a node is added only if there is no free one")


@contract("C11 C25", ["find_unassigned"], assumes=["random.Random.shuffle: any permutation (standard library)"])
def unassigned(ctx):
    """ensures  a node without an agent; nothing is returned only if every node has one; the network is not changed"""
    need(NET, "find_unassigned")
    log = Log("network")
    G = Net(ctx, log, none=False)
    rnd = Shuffler(ctx, G.n)
    kw = {}
    s = choice("shuffle", [None, True, False])
    if s is not None:
        kw["shuffle"] = s
        if s:
            kw["random"] = rnd
    with patched(*no_ambient()):
        out = call(NET.find_unassigned, G, **kw)
    if not returned(out, "no errors"):
        return
    prove(z3.BoolVal(not log.segs), "the network is not changed")
    if isinstance(out.value, NodeId):
        cover("found")
        k = out.value.i
        prove(z3.And(0 <= k, k < G.n, z3.Not(G.key(k))), "a node without agent")
    else:
        cover("not found")
        prove(z3.BoolVal(out.value is None), "nothing")
        k = ctx.fresh("k", I)
        assume(z3.Implies(z3.And(0 <= k, k < G.n), rnd.p(rnd.q(k)) == k))
        prove(z3.Implies(z3.And(0 <= k, k < G.n), G.key(k)), "every node has an agent")


class Env(ENV.Environment):
    pass


@contract("C11 C16", ["NetworkEnvironment.add_node"], assumes=["find_unassigned, add_agent (their contracts)", "mesa.Model.next_id (executed)"])
def add_node(ctx):
    """
    ensures  exactly one agent is added, with the given class and attributes: in the given node (which is added if it is not there), or
             else in a free one, or else in a new one
    """
    need(NET, "find_unassigned")
    log = Log("network")
    G = Net(ctx, log, none=False)
    cur = integer("current id")
    rnd = Stub("random")
    env = make(Env, "model", G=G, current_id=cur, random=rnd, logger=Logger())
    calls, asked = [], []
    agent = {}

    def find(G=None, shuffle=False, random=None):
        asked.append((G, random))
        if not choice("is there a free node", [True, False]):
            j = z3.Int("j")
            assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < env.G.n), env.G.key(j))))
            return None
        k = ctx.fresh("free", I)
        assume(z3.And(0 <= k, k < env.G.n, z3.Not(env.G.key(k))))
        return NodeId(k)

    def add_agent(*args, **kw):
        calls.append((args, kw))
        return agent

    env.__dict__["add_agent"] = add_agent

    class Cls:
        pass

    color = opaque("color")
    kw = dict(color=color)
    uid = None
    if choice("id", ["none", "given"]) == "given":
        uid = kw["unique_id"] = integer("unique_id")
    which = choice("node", ["none", "existing", "new"])
    given = None
    if which == "existing":
        k0 = ctx.fresh("given", I)
        assume(z3.And(0 <= k0, k0 < G.n))
        given = kw["node_id"] = NodeId(k0)
    elif which == "new":
        given = kw["node_id"] = "some name"
    with patched((NET, "find_unassigned", find)):
        out = call(env.add_node, Cls, **kw)
    if isinstance(out.exc, AssertionError):
        cover("occupied")
        if which == "existing":
            prove(G.key(given.i), "only occupied nodes are rejected")
        prove(z3.BoolVal(not calls), "nothing is done for an occupied node")
        return
    if not returned(out, "no errors"):
        return
    cover("added " + which)
    if len(calls) != 1:
        fail("exactly one agent is added", calls)
        return
    args, got = calls[0]
    cls = got.pop("agent_class", args[0] if args else None)
    prove(z3.BoolVal(cls is Cls and got.get("color") is color), "the class and attributes given are used")
    prove(equal(got.get("unique_id"), uid if uid is not None else cur + 1), "the id is the given one, or a new one")
    node = got.get("node_id")
    for g, r in asked:
        prove(z3.BoolVal(g is G and r is rnd), "random choices only come from the generator of the model")
    news = [e[1] for e in log.segs if e[0] == "add_node"]
    if given is not None:
        prove(equal(node, given) if isinstance(given, NodeId) else z3.BoolVal(node is given), "the given node is used")
        prove(z3.BoolVal(news == [] or (which == "new" and news == [given])), "a node is added only if it was not there")
    elif isinstance(node, NodeId):
        cover("free node")
        prove(z3.Not(G.key(node.i)), "the node was free")
        prove(z3.BoolVal(not news), "no node is added")
    else:
        cover("new node")
        j = ctx.fresh("j", I)
        prove(z3.Implies(z3.And(0 <= j, j < G.n), G.key(j)), "a node is added only if there is no free one")
        prove(z3.BoolVal(len(news) <= 1 and all(x is node for x in news)), "one node is added")
    prove(z3.BoolVal(out.value is agent), "the agent is returned")


class Class_:
    """The class chosen for the i-th agent"""
    _vc_symbolic = True

    def __init__(self, i):
        self.i = i

    def vc_subst(self, a, b):
        return Class_(z3.substitute(self.i, (a, b)))

    def vc_term(self):
        return self.i

    def vc_equal(self, o):
        return self.i == o.i if isinstance(o, Class_) else z3.BoolVal(False)

    def __repr__(self):
        return f"class@{self.i}"


class Chooser:
    """Generator of the model: choices"""

    def __init__(self):
        self.calls = []

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if cum_weights is not None or E.CTX.loops:
            raise Unsupported("choices")
        self.calls.append((population, weights, k))
        n = num(k).v
        return SymSeq(n, Class_, "chosen classes")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"random.{k}")


class K1:
    pass


class K2:
    pass


def check_choices(rnd, classes, weights, k):
    if len(rnd.calls) != 1:
        raise NotApplicable(f"{len(rnd.calls)} choices")
    pop, w, kk = rnd.calls[0]
    prove(z3.BoolVal(list(pop) == classes), "the classes are chosen among those given")
    if weights is None:
        prove(z3.BoolVal(w is None or (len(w) == len(classes) and len(set(w)) == 1 and list(w)[0] > 0)), "all the classes have the same weight by default")
    else:
        prove(z3.BoolVal(list(w) == weights), "the weights are those given")
    prove(equal(kk, k), "number of agents")


@contract("C16 C25", ["BaseEnvironment.add_agents"], assumes=["random.Random.choices: k items of the population (standard library)", "add_agent (its contract)"])
def add_agents(ctx):
    """ensures  exactly k agents are added, of classes chosen by the generator of the model among those given, with the given attributes"""
    rnd = Chooser()
    log = Log("agents")
    env = make(ENV.BaseEnvironment, "model", random=rnd, logger=Logger())
    k = integer("k")
    assume(k.v >= 0)
    color = opaque("color")

    def add_agent(agent_class=None, **kw):
        log.add("add", agent_class, tuple(sorted(kw)), kw.get("color"))
        return Stub("agent")

    env.__dict__["add_agent"] = add_agent
    one = choice("classes", ["one", "several"])
    classes = K1 if one == "one" else [K1, K2]
    kw = {}
    weights = None
    if one == "several" and choice("weights", [False, True]):
        weights = kw["weights"] = [1, 3]
    with patched(*no_ambient()):
        out = call(env.add_agents, classes, k=k, color=color, **kw)
    if not returned(out, "no errors"):
        return
    cover("added")
    check_choices(rnd, [K1] if one == "one" else [K1, K2], weights, k)
    prove_seq(log, [comp(0, k.v, lambda i: [(z3.BoolVal(True), [("add", Class_(i), ("color",), color)])])], "one agent for each of the classes chosen")


@contract("C16", ["NetworkEnvironment.add_agents"], assumes=["BaseEnvironment.add_agents (its contract)"])
def add_agents_network(ctx):
    """ensures  by default, as many agents as nodes; everything else is as given"""
    G = Net(ctx, Log("network"))
    env = make(Env, "model", G=G, logger=Logger())
    calls = []

    def base(self, *args, **kw):
        calls.append((args, kw))

    color = opaque("color")
    kw = dict(color=color)
    k = None
    if choice("k", ["none", "given"]) == "given":
        k = kw["k"] = integer("k")
        assume(k.v >= 0)
    if choice("weights", [False, True]):
        kw["weights"] = [1, 2]
    with patched((ENV.BaseEnvironment, "add_agents", base)):
        out = call(env.add_agents, [K1, K2], **kw)
    if isinstance(out.exc, ValueError):
        cover("empty")
        prove(z3.BoolVal(k is None), "the only error is for the lack of nodes")
        prove(G.n == 0, "the only error is for the lack of nodes")
        prove(z3.BoolVal(not calls), "nothing is added")
        return
    if not returned(out, "no errors"):
        return
    if len(calls) != 1:
        fail("agents are added once", calls)
        return
    cover("added")
    args, got = calls[0]
    prove(z3.BoolVal(list(args[0] if args else got.get("agent_classes")) == [K1, K2] and got.get("color") is color and got.get("weights") == kw.get("weights")), "the classes and attributes are those given")
    prove(equal(got.get("k"), k if k is not None else SymNum(G.n)), "number of agents")


@contract("C16 C03", ["BaseEnvironment.add_agent"], assumes=["mesa.Model.next_id: executed", "schedule.add (its contract)"])
def add_agent(ctx):
    """
    ensures  one agent is created, of that class and with those attributes, and it is registered exactly once (unless it has died in its
             initialization); its id is the given one, or else the next one, which is used up
    """
    log = Log("agents")
    cur = integer("current id")
    alive = choice("alive", ["yes or no", "no such attribute"])
    living = boolean("alive")
    agent = Stub("agent", absent=("alive",), **(dict(alive=living) if alive == "yes or no" else {}))
    count = length("agents")
    env = make(ENV.BaseEnvironment, "model", current_id=cur, logger=Logger(),
               schedule=Stub("schedule", add=lambda a, *x, **k: log.add("register", a, x, tuple(k)), agents=SymSeq(count, lambda i: Indexed("agent", i), "agents"),
                             get_agent_count=lambda: SymNum(count)))

    class Cls:
        def __new__(cls, **kw):
            log.add("create", dict(kw))
            return agent

    color = opaque("color")
    kw = dict(color=color)
    uid = None
    if choice("id", ["none", "given"]) == "given":
        uid = kw["unique_id"] = integer("unique_id")
    out = call(env.add_agent, Cls, **kw)
    if not returned(out, "no errors"):
        return
    cover("added")
    evs = log.segs
    created = [e for e in evs if e[0] == "create"]
    if len(created) != 1 or evs[0][0] != "create":
        fail("one agent is created", evs)
        return
    got = created[0][1]
    prove(z3.BoolVal(set(got) == {"unique_id", "model", "color"} and got["model"] is env and got["color"] is color), "with the given attributes")
    prove(equal(got["unique_id"], uid if uid is not None else cur + 1), "the id is the given one, or the next one")
    if uid is None:
        prove(equal(env.current_id, cur + 1), "the id is used up")
    else:
        prove(num(env.current_id).v >= cur.v, "ids are never reused")
    reg = [e for e in evs if e[0] == "register"]
    yes = living.e if alive == "yes or no" else z3.BoolVal(True)
    ok = len(reg) == 1 and reg[0][1] is agent and not reg[0][2] and not reg[0][3]
    if reg:
        prove(z3.BoolVal(ok), "the agent is registered once")
        prove(yes, "dead agents are not registered")
    else:
        prove(z3.Not(yes), "the agent is registered once")
    prove(z3.BoolVal(out.value is agent), "the agent is returned")


@contract("C11 C16", ["NetworkEnvironment.add_agent"], assumes=["BaseEnvironment.add_agent (its contract)"])
def add_agent_network(ctx):
    """ensures  one agent is added, and the given node (if any) is assigned to it, unless it has died"""
    log = Log("network")
    G = Net(ctx, log)
    env = make(Env, "model", G=G, logger=Logger())
    living = boolean("alive")
    agent = Stub("agent", alive=living)
    calls, created = [], []

    def base(self, agent_class, *args, **kw):
        calls.append((agent_class, args, kw))
        if "node_id" in kw and choice("the class does not take a node", [False, True]):
            raise TypeError("unexpected keyword argument")
        created.append(kw)
        return agent

    color = opaque("color")
    kw = dict(color=color)
    node = None
    if choice("node", ["none", "given"]) == "given":
        k0 = ctx.fresh("given", I)
        assume(z3.And(0 <= k0, k0 < G.n))
        node = kw["node_id"] = NodeId(k0)
    if choice("topology", [False, True]):
        kw["topology"] = G
    if choice("id", [False, True]):
        kw["unique_id"] = 5
    with patched((ENV.BaseEnvironment, "add_agent", base)):
        out = call(env.add_agent, K1, **kw)
    if not returned(out, "no errors"):
        return
    cover("added")
    done = [c for c in calls]
    prove(z3.BoolVal(len(created) == 1 and all(c[0] is K1 and c[2].get("color") is color and c[2].get("unique_id") == kw.get("unique_id") for c in done)), "one agent, with the class and attributes given")
    if node is not None:
        prove(z3.BoolVal("node_id" in done[0][2] and done[0][2]["node_id"] is node), "the node is given to the agent")
        ass = log.segs
        if ass:
            prove(z3.BoolVal(len(ass) == 1 and ass[0][1] is node and ass[0][2] is agent), "the node is assigned to the agent")
            prove(living.e, "nodes are not assigned to dead agents")
        else:
            prove(z3.Not(living.e), "the node is assigned to the agent")
    else:
        prove(z3.BoolVal(not log.segs), "no node is changed")
    prove(z3.BoolVal(out.value is agent), "the agent is returned")


class NewAgent:
    """Agent created for the i-th node"""
    _vc_symbolic = True

    def __init__(self, i, alive):
        self.__dict__.update(i=i, alive_=alive)

    def __getattr__(self, k):
        if k == "alive":
            return SymBool(self.alive_(self.i))
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"agent.{k}")

    def vc_subst(self, a, b):
        return NewAgent(z3.substitute(self.i, (a, b)), self.alive_)

    def vc_term(self):
        return self.i

    def vc_equal(self, o):
        return self.i == o.i if isinstance(o, NewAgent) else z3.BoolVal(False)


@contract("C11 C16 C25", ["NetworkEnvironment.populate_network", "NetworkEnvironment.network_agents"],
          assumes=["random.Random.choices: k items of the population (standard library)", "add_agent (its contract)",
                   "the alive attribute of the agents does not change afterwards"], feasible_ms=1000)
def populate(ctx):
    """
    ensures  one agent is added for each of the nodes that had none, in that node, of a class chosen by the generator of the model and with
             the given attributes; the other nodes are not changed
    """
    log = Log("network")
    log.check_iteration = own_nodes
    added = Log("agents")
    G = Net(ctx, log, none=False)
    rnd = Chooser()
    env = make(Env, "model", G=G, random=rnd, logger=Logger())
    alive = ctx.func("alive", I, B)
    j = z3.Int("j")
    assume(z3.ForAll([j], alive(j)))
    assume(G.n > 0)
    color = opaque("color")

    def add(agent_class=None, node_id=None, topology=None, **kw):
        if not isinstance(node_id, NodeId):
            raise NotApplicable("node")
        if topology is not None and not isinstance(topology, Net):
            fail("in this network")
        added.add("add", node_id, agent_class, tuple(sorted(kw)), kw.get("color"))
        a = NewAgent(node_id.i, alive)
        log.add("assign", node_id, a)
        return a

    env.__dict__["add_agent"] = add
    one = choice("classes", ["one", "several"])
    kw = {}
    weights = None
    if one == "several" and choice("weights", [False, True]):
        weights = kw["weights"] = [1, 3]
    orig = Occupant.__getattr__
    Occupant.__getattr__ = lambda self, k: SymBool(z3.Function("alive before", I, B)(self.i)) if k == "alive" else orig(self, k)
    try:
        with patched(*no_ambient()):
            out = call(env.populate_network, K1 if one == "one" else [K1, K2], color=color, **kw)
    finally:
        Occupant.__getattr__ = orig
    if isinstance(out.exc, AssertionError):
        # sanity checks of the function
        cover("rejected")
        k = ctx.fresh("k", I)
        prove(z3.Implies(z3.And(0 <= k, k < G.n), z3.And(G.key(k), z3.Not(z3.Function("alive before", I, B)(k)))), "the only error is for a network full of dead agents")
        return
    if not returned(out, "no errors"):
        return
    cover("populated")
    check_choices(rnd, [K1] if one == "one" else [K1, K2], weights, SymNum(G.n))
    exp = comp(0, G.n, lambda i: [(z3.Not(G.key(i)), [("add", NodeId(i), Class_(i), ("color",), color)]), (G.key(i), [])])
    prove_seq(added, [exp], "one agent for each of the nodes without agent")
    k = ctx.fresh("k", I)
    me = Data(G, NodeId(k))
    prove(z3.Implies(z3.And(0 <= k, k < G.n, G.key(k)), z3.Not(L.nonempty(log.segs, me.is_me))), "the nodes that had an agent are not changed")
    # the agent of a node is never replaced by something else
    bad = z3.BoolVal(False)
    seen = False
    for s in log.segs:
        if isinstance(s, Comp):
            now = seen
            for g, items in s.parts(k):
                here = False
                for ev in items:
                    if ev[0] == "assign":
                        if isinstance(ev[2], NewAgent):
                            here = now = True
                            bad = z3.Or(bad, z3.And(g, 0 <= k, k < G.n, z3.Not(equal(ev[1], NodeId(ev[2].i)))))
                        elif seen or here:
                            bad = z3.Or(bad, z3.And(g, 0 <= k, k < G.n))
            seen = now
    prove(z3.Not(bad), "the agent of a node is the one that was created for it")


@contract("C11 C17 C20 C25", ["NetworkEnvironment.__init__", "NetworkEnvironment.create_network", "from_topology"],
          assumes=["BaseEnvironment.__init__ (its contract)", "networkx.Graph.copy: an independent copy (networkx)"])
def network_init(ctx):
    """
    ensures  the network is a copy of the given one, or a new one built with the generator of the model; it is populated, initialized and
             recorded, in this order and once each
    """
    log = Log("init")
    rnd = Stub("random")

    class Given(nx.Graph):
        def copy(self, *a, **k):
            return nx.Graph(self, mark="copy")

    g = Given(title="t")
    g.add_node(0, color=1)
    g.add_edge(0, 1, weight=2)
    made = nx.Graph(mark="made")

    def base(self, *a, **kw):
        log.add("base", kw)

    class P(Env):
        def populate_network(self, cls, *a, **k):
            log.add("populate", cls)

        def _check_agent_nodes(self):
            log.add("check")

        def init(self):
            log.add("init")

    class DC:
        def collect(self, model):
            log.add("collect", model is e)

    e = make(P, "model", random=rnd, logger=Logger(), dir_path=".", datacollector=DC())
    kind = choice("network", ["none", "topology", "generator", "generator without seed"])
    kw = dict(color=1)
    seeds = []

    def from_params(generator=None, dir_path=None, **params):
        seeds.append(params.get("seed"))
        if kind == "generator without seed" and "seed" in params:
            raise TypeError("unexpected argument")
        log.add("generate", generator, {k: v for k, v in params.items() if k != "seed"})
        return made

    if kind == "topology":
        kw["topology"] = g
    elif kind != "none":
        kw.update(network_generator="some", network_params=dict(n=4))
    if choice("agent class", [False, True]):
        kw["agent_class"] = K1
    ini = choice("init", ["default", True, False])
    if ini != "default":
        kw["init"] = ini
    with patched((ENV.BaseEnvironment, "__init__", base), (NET, "from_params", from_params), *no_ambient()):
        out = call(ENV.NetworkEnvironment.__init__, e, **kw)
    if not returned(out, "no errors"):
        return
    cover(kind)
    G = e.G
    if kind == "topology":
        if G is not g and G.graph.get("mark") != "copy":
            # Copied in some other way
            G.add_node("more")
            for x in (*G.nodes(data=True), *G.edges(data=True)):
                x[-1]["more"] = 1
            G.graph["more"] = 1
            if (list(g.nodes(data=True)), list(g.edges(data=True)), g.graph) == ([(0, dict(color=1)), (1, {})], [(0, 1, dict(weight=2))], dict(title="t")):
                raise NotApplicable("copy of the network")
        prove(z3.BoolVal(G is not g and G.graph.get("mark") == "copy"), "the network is a copy of the given one")
    elif kind != "none":
        prove(z3.BoolVal(G is made), "the network is the one generated")
        prove(z3.BoolVal(bool(seeds) and seeds[0] is rnd), "networks are generated with the generator of the model")
        prove(z3.BoolVal([s[1:] for s in log.segs if s[0] == "generate"] == [("some", dict(n=4))]), "the parameters of the generator are those given")
    else:
        prove(z3.BoolVal(isinstance(G, nx.Graph) and len(G) == 0), "an empty network")
    evs = [s[0] for s in log.segs if s[0] not in ("generate", "check")]
    b = [s for s in log.segs if s[0] == "base"]
    if len(b) != 1:
        raise NotApplicable("initialization of the base class")
    prove(z3.BoolVal(b[0][1].get("init") is False and b[0][1].get("color") == 1), "parameters are passed on, and nothing is initialized yet")
    want = ["base"] + (["populate"] if "agent_class" in kw else []) + (["init", "collect"] if ini in ("default", True) else [])
    prove(z3.BoolVal(evs == want), "population, initialization and first record, once each and in order", evs)
