"""Contracts of the queries (soil/agents/__init__.py, network_agents.py, environment.py)"""
from .base import *
import soil.agents as A
from soil.agents import BaseAgent, NetworkAgent, AgentView
from soil import environment as ENV

I = z3.IntSort()


class Population:
    """Any number of agents, with any attributes"""

    def __init__(self, ctx, attrs=("color", "size", "state_id"), classes=()):
        self.n = length("agents")
        self.uid = ctx.func("uid", I, I)
        i, j = z3.Ints("i j")
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n), self.uid(i) != self.uid(j))))
        self.has = {k: ctx.func("has_" + k, I, z3.BoolSort()) for k in attrs}
        self.val = {k: ctx.func(k, I, Val) for k in attrs}
        self.isa = {c: ctx.func("isa_" + c.__name__, I, z3.BoolSort()) for c in classes}
        self.writes = []
        # (the state is looked up in the model too)
        self.model = Stub("model", absent=[k for k in attrs if k == "state_id"], **{k: Opaque(ctx.fresh("model " + k, Val), k) for k in attrs if k != "state_id"})

    def seq(self):
        return SymSeq(self.n, lambda i: SomeAgent(self, i), "agents")

    def get(self, k, i):
        """Value of an attribute, or none"""
        return z3.If(self.has[k](i), self.val[k](i), Val.none)


class SomeAgent:
    _vc_symbolic = True

    def __init__(self, pop, i):
        self.__dict__.update(pop=pop, i=i)

    def __getattr__(self, k):
        pop = self.pop
        if k == "unique_id":
            return SymNum(pop.uid(self.i))
        if k == "model":
            return pop.model
        if k in pop.has:
            if E.CTX.branch(pop.has[k](self.i)):
                return Opaque(pop.val[k](self.i), k)
            raise AttributeError(k)
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"agent.{k}")

    def __setattr__(self, k, v):
        fail("queries do not modify the agents", k)

    def get(self, *a, **k):
        return BaseAgent.get(self, *a, **k)

    def vc_equal(self, o):
        return self.i == o.i if isinstance(o, SomeAgent) else z3.BoolVal(False)

    def __eq__(self, o):
        return SymBool(self.vc_equal(o))

    def __hash__(self):
        raise Unsupported("hash of an agent")

    def vc_subst(self, i, j):
        return SomeAgent(self.pop, z3.substitute(self.i, (i, j)))

    def vc_term(self):
        return self.i

    def vc_isinstance(self, cls):
        if cls in self.pop.isa:
            return SymBool(self.pop.isa[cls](self.i))
        if cls in (object, BaseAgent):
            return True
        raise Unsupported(f"isinstance(agent, {cls})")

    def __repr__(self):
        return f"agent@{self.i}"


class TupleValue(Opaque):
    """A value that is a tuple"""

    def vc_isinstance(self, cls):
        return cls in (tuple, object)

    def __iter__(self):
        f = z3.Function("element", Val, z3.IntSort(), Val)
        return iter([Opaque(f(self.e, 0), "element"), Opaque(f(self.e, 1), "element")])


class C1:
    pass


class C2:
    pass


class Values:
    """A criterion on a value: none, a single one, or any number of alternatives"""

    def __init__(self, name, ctx, kinds, sort=Val):
        self.kind = choice(name, kinds)
        k = self.kind
        mk = (lambda e: Opaque(e, name)) if sort == Val else SymNum
        self.arg, self.match = None, None
        if k == "none":
            return
        if k == "one":
            e = ctx.input(name, ctx.fresh(name, sort))
            if sort == Val:
                ctx.assume(e != Val.none)
            self.arg, self.match = mk(e), lambda x: x == e
        elif k == "a tuple":
            e = ctx.input(name, ctx.fresh(name, sort))
            ctx.assume(e != Val.none)
            self.arg, self.match = TupleValue(e, name), lambda x: x == e
        elif k == "empty":
            self.arg, self.match = L.VList((), name), lambda x: z3.BoolVal(False)
        elif k == "list":
            m, f = length(f"number of {name}"), ctx.func(name, I, sort)
            self.arg = SymSeq(m, lambda i: mk(f(i)), name)
            self.frozen = True

            def match(x):
                j = z3.Int(f"w!{L.next_id()}")
                return z3.Exists([j], z3.And(0 <= j, j < m, x == f(j)))
            self.match = match
        elif k == "tuple":
            e1, e2 = ctx.fresh(name, sort), ctx.fresh(name, sort)
            self.arg, self.match = (mk(e1), mk(e2)), lambda x: z3.Or(x == e1, x == e2)


@contract("C12", ["filter_agents", "BaseAgent.get", "_deserialize_type"], budget_s=200, feasible_ms=150,
          assumes=["up to two positional ids, and up to two attributes as criteria, are considered (each one adds one more filter)"])
def filtering(ctx):
    """
    ensures  exactly the agents that satisfy all the criteria are returned, once each and in their order, up to the limit;
             the criteria and the agents are not modified
    """
    pop = Population(ctx, classes=(C1, C2))
    preds = []
    kw = {}
    group = choice("criteria", ["ids", "state and class", "attributes", "all"])
    args = ()
    if group in ("ids", "all"):
        u = Values("unique_id", ctx, ["none", "one", "list", "empty"] if group == "ids" else ["list"], I)
        if u.kind != "none":
            kw["unique_id"] = u.arg
        nargs = choice("positional ids", [0, 1, 2]) if group == "ids" else 0
        args = tuple(integer(f"id {k}") for k in range(nargs))
        if u.kind != "none" or args:
            preds.append(lambda i: z3.Or(*[pop.uid(i) == x.v for x in args], *([u.match(pop.uid(i))] if u.match else [])))
    if group in ("state and class", "all"):
        s = Values("state_id", ctx, ["none", "one", "list", "tuple", "empty"] if group != "all" else ["one"])
        if s.kind != "none":
            kw["state_id"] = s.arg
            preds.append(lambda i: s.match(pop.get("state_id", i)))
        c = choice("agent_class", ["none", "one", "list", "tuple"] if group != "all" else ["one"])
        if c == "one":
            kw["agent_class"] = C1
            preds.append(lambda i: pop.isa[C1](i))
        elif c in ("list", "tuple"):
            kw["agent_class"] = [C1, C2] if c == "list" else (C1, C2)
            preds.append(lambda i: z3.Or(pop.isa[C1](i), pop.isa[C2](i)))
    if group in ("attributes", "all"):
        v = Values("color", ctx, ["one", "list", "empty", "a tuple"] if group != "all" else ["list"])
        how = choice("given in", ["state", "keyword"])
        if how == "state":
            kw["state"] = {"color": v.arg}
        else:
            kw["color"] = v.arg
        preds.append(lambda i: v.match(pop.get("color", i)))
        if choice("second attribute", [False, True]):
            w = Values("size", ctx, ["one", "list"] if group != "all" else ["one"])
            kw["size"] = w.arg
            preds.append(lambda i: w.match(pop.get("size", i)))
    lim = choice("limit", ["no", "yes"])
    limit = None
    if lim == "yes":
        limit = integer("limit")
        assume(limit.v >= 0)
        kw["limit"] = limit
    before = {k: (v, v.vc_state() if isinstance(v, L.VList) else dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    out, end = drive(A.filter_agents(pop.seq(), *args, **kw))
    if not returned(end, "no errors"):
        return
    cover(group)

    def parts(i):
        g = z3.And(*[p(i) for p in preds]) if preds else z3.BoolVal(True)
        return [(g, [SomeAgent(pop, i)]), (z3.Not(g), [])]
    exp = comp(0, pop.n, parts)
    exp.rank = limit
    prove_seq(out, [exp], "exactly the agents that match, in order")
    for k, (v, old) in before.items():
        now = v.vc_state() if isinstance(v, L.VList) else dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v
        prove(z3.BoolVal(now is old or E.same_state(now, old) or now == old), "the criteria are not modified")


def neighbourhood(ctx, pop, me):
    """Some network: nodes adjacent to that of the agent, with or without an agent"""
    m = length("adjacent nodes")
    node = ctx.func("node", I, I)
    occupied = ctx.func("occupied", I, z3.BoolSort())
    explicit = ctx.func("explicitly none", I, z3.BoolSort())
    who = ctx.func("who", I, I)
    j = z3.Int("j")
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= who(j), who(j) < pop.n))))
    loop = ctx.fresh("adjacent to itself", I)      # position of its own node, if it is adjacent to itself
    ctx.assume(z3.Implies(z3.And(0 <= loop, loop < m), occupied(loop)))

    class Node:
        _vc_symbolic = True

        def __init__(self, i):
            self.i = i

        def get(self, k, default=None):
            if k != "agent":
                raise Unsupported(f"node attribute {k}")
            if E.CTX.branch(self.i == loop):
                return me[0]
            if E.CTX.branch(occupied(self.i)):
                return SomeAgent(pop, who(self.i))
            if E.CTX.branch(explicit(self.i)):
                return None
            return default

        def __getitem__(self, k):
            v = self.get(k, KeyError)
            if v is KeyError:
                raise KeyError(k)
            return v

        def __contains__(self, k):
            return self.get(k, KeyError) is not KeyError

    class NodeId:
        _vc_symbolic = True

        def __init__(self, i):
            self.i = i

        def vc_subst(self, a, b):
            return NodeId(z3.substitute(self.i, (a, b)))

        def vc_term(self):
            return self.i

    class Nodes:
        def __getitem__(self, k):
            if not isinstance(k, NodeId):
                raise Unsupported("another node")
            return Node(k.i)

    class G:
        _vc_symbolic = True
        nodes = Nodes()

        def neighbors(self, n):
            if n is not here:
                fail("the neighbours are those of the node of the agent", n)
                raise Unsupported("another node")
            return SymSeq(m, lambda i: NodeId(i), "neighbors")

        adj = None

        def __getattr__(self, k):
            if k.startswith("__") or k.startswith("vc_"):
                raise AttributeError(k)
            raise Unsupported(f"G.{k}")

    here = opaque("node of the agent")

    def is_neighbour(uid):
        j = z3.Int(f"w!{L.next_id()}")
        return z3.Or(z3.And(0 <= loop, loop < m, me[0].unique_id.v == uid),
                     z3.Exists([j], z3.And(0 <= j, j < m, j != loop, occupied(j), pop.uid(who(j)) == uid)))
    return G(), here, is_neighbour


class NetA(NetworkAgent):
    def step(self):
        return 1


@contract("C12", ["NetworkAgent.iter_agents", "NetworkAgent.iter_neighbors", "NetworkAgent.get_neighbors", "NetworkAgent.count_neighbors"], feasible_ms=150,
          assumes=["networkx: neighbors() returns the adjacent nodes (networkx)"])
def neighbours(ctx):
    """
    ensures  the query is restricted to the agents in adjacent nodes (and to the given ids, if any); all the other criteria
             are passed on
    """
    pop = Population(ctx)
    me = []
    G, here, is_neighbour = neighbourhood(ctx, pop, me)
    a = make(NetA, "agent", G=G, node_id=here, unique_id=integer("own id"), model=Stub("model"), alive=True, logger=Logger())
    me.append(a)
    calls = []
    res = SymSeq(length("results"), lambda i: SomeAgent(pop, i), "results")
    res.atomic = True

    def base(self, *args, **kw):
        calls.append((args, kw))
        yield from rt.yield_all(res)

    u = Values("unique_id", ctx, ["none", "one", "list", "empty"], I)
    how = choice("how", ["iter_agents", "iter_neighbors"])
    kw = {} if u.kind == "none" else dict(unique_id=u.arg)
    color = opaque("color")
    limit = integer("limit")
    kw.update(color=color, limit=limit, state_id="on")
    neigh = True
    if how == "iter_agents":
        neigh = choice("limit_neighbors", [True, False])
        kw["limit_neighbors"] = neigh
    with patched((BaseAgent, "iter_agents", base)):
        out, end = drive(getattr(a, how)(**kw))
    if not returned(end, "no errors"):
        return
    want = lambda x: z3.And(is_neighbour(x) if neigh else z3.BoolVal(True), u.match(x) if u.match else z3.BoolVal(True))
    x = ctx.fresh("x", I)
    if not calls:
        cover("nobody")
        prove(z3.BoolVal(not out.segs), "nothing else is returned")
        prove(z3.Not(want(x)), "nobody is left out")
        return
    if len(calls) != 1:
        fail("one query", calls)
        return
    cover("query")
    args, got = calls[0]
    if args:
        raise NotApplicable("positional ids")
    prove(z3.BoolVal(got.get("color") is color and got.get("limit") is limit and got.get("state_id") == "on"), "all the criteria are used")
    ids = got.get("unique_id")
    if ids is None:
        prove(z3.BoolVal(not neigh and u.kind == "none"), "the query is restricted to the neighbours, and the given ids")
    else:
        if isinstance(ids, (L.VList,)):
            m = L.member(SymNum(x), ids.segs)
        elif isinstance(ids, SymSeq):
            m = ids.contains(SymNum(x))
        elif isinstance(ids, SymNum):
            m = x == ids.v
        else:
            raise NotApplicable(f"ids: {type(ids)}")
        prove(m == want(x), "the query is restricted to the neighbours, and the given ids")
    prove_seq(out, [Splice(res)], "the result is that of the query")


@contract("C12", ["AgentView.__call__", "AgentView.filter", "AgentView.one", "AgentView.__iter__", "AgentView.__len__", "AgentView.__getitem__",
                  "BaseEnvironment.get_agents", "BaseEnvironment.agent", "BaseAgent.iter_agents", "BaseAgent.get_agents"])
def views(ctx):
    """ensures  queries through the model and through the agents are those of filter_agents, over all the agents of the model"""
    need(A, "filter_agents")
    pop = Population(ctx)
    agents = pop.seq()
    model = make(ENV.BaseEnvironment, "model", schedule=Stub("schedule", agents=agents))
    res = SymSeq(length("results"), lambda i: SomeAgent(pop, z3.Int("r") + i), "results")
    calls = []

    def filt(ag, *args, **kw):
        calls.append((ag, args, kw))
        yield from rt.yield_all(res)

    class P(BaseAgent):
        def step(self):
            return 1

    a = make(P, "agent", model=model, unique_id=0, alive=True)
    how = choice("how", ["model", "filter", "agent", "iter", "iteration", "len", "item"])
    crit = opaque("criterion")
    n1 = integer("id")
    kw = dict(color=crit, limit=integer("limit"))
    with patched((A, "filter_agents", filt)):
        if how == "model":
            view = call(lambda: model.get_agents)
            if not returned(view, "no errors"):
                return
            out, end = drive(view.value.filter(n1, **kw))
        elif how == "filter":
            out, end = drive(AgentView(agents).filter(n1, **kw))
        elif how == "agent":
            got = call(a.iter_agents, n1, **kw)
            if not returned(got, "no errors"):
                return
            out, end = drive(got.value)
        elif how == "iter":
            out, end = drive(a.iter_agents(n1, **kw))
        elif how == "iteration":
            out, end = drive(iter(AgentView(agents)))
            if returned(end, "no errors"):
                cover("iteration")
                prove_seq(out, [Splice(agents)], "iteration over all the agents")
            return
        elif how == "len":
            r = call(AgentView(agents).__len__)
            if returned(r, "no errors"):
                prove(equal(r.value, SymNum(pop.n)), "number of agents")
            return
        else:
            x = integer("wanted")
            r = call(AgentView(agents).__getitem__, x)
            if r.ok:
                cover("found")
                if not isinstance(r.value, SomeAgent):
                    raise NotApplicable("agent")
                prove(z3.And(0 <= r.value.i, r.value.i < pop.n, pop.uid(r.value.i) == x.v), "the agent has that id")
            else:
                cover("not found")
                j = ctx.fresh("j", I)
                prove(z3.Implies(z3.And(0 <= j, j < pop.n), pop.uid(j) != x.v), "errors are only for unknown ids")
            return
    if not returned(end, "no errors"):
        return
    cover("query")
    if len(calls) != 1:
        fail("one query", calls)
        return
    ag, args, k = calls[0]
    prove(z3.BoolVal(ag is agents), "over all the agents of the model")
    prove(z3.BoolVal(len(args) == 1 and args[0] is n1 and k == kw), "all the criteria are used")
    prove_seq(out, [Splice(res)], "the result is that of the query")
