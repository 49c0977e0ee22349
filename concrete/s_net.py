"""Networks, queries and registration of agents"""
import copy
import networkx as nx
from .base import scenario, check, same, raises, note, Skip
from .s_sched import KINDS
from soil.agents import BaseAgent, FSM, Agent, NetworkAgent, EventedAgent, state, filter_agents
from soil import Environment


class Net(NetworkAgent):
    def step(self):
        return 1


class Other(NetworkAgent):
    def step(self):
        return 1


class Tag(NetworkAgent):
    """With a constructor of its own"""

    def __init__(self, *args, tag=1, **kwargs):
        super().__init__(*args, **kwargs)
        self.tag = tag

    def step(self):
        return 1


class Full(Agent):
    @state(default=True)
    def on(self):
        return 1

    @state
    def off(self):
        return 1


class Plain(BaseAgent):
    def step(self):
        return 1


def graph(rng):
    n = rng.size(1, 8, cap=120)
    k = rng.choice(["path", "empty", "random", "labels", "sparse", "di", "star"])
    if k == "path":
        g = nx.path_graph(n)
    elif k == "empty":
        g = nx.empty_graph(n)
    elif k == "labels":
        g = nx.relabel_nodes(nx.cycle_graph(max(n, 3)), lambda i: f"n{i}")
    elif k == "sparse":
        g = nx.relabel_nodes(nx.path_graph(n), lambda i: i * 3 + 1)
    elif k == "di":
        g = nx.gnp_random_graph(n, 0.4, seed=rng.randint(0, 999), directed=True)
    elif k == "star":
        g = nx.star_graph(n)
    else:
        g = nx.gnp_random_graph(n, 0.5, seed=rng.randint(0, 999))
    loops = rng.random() < 0.25
    for x in list(g.nodes):
        if loops and rng.random() < 0.4:
            g.add_edge(x, x)
        if rng.random() < 0.25:
            g.nodes[x].update(rng.choice([dict(weight=1), dict(agent_type="a", label="x"), dict(id=3, pos=(0, 1)), dict(agents=2)]))
    return g


def owner(m, n):
    return m.G.nodes[n].get("agent")


def consistent(m, agents, what, prop="C11"):
    """Nodes and agents agree, one to one"""
    seen = {}
    for n in m.G.nodes:
        a = owner(m, n)
        if a is None:
            continue
        check(a.node_id == n, f"{what}: the agent of node {n} says it is in {a.node_id}", prop)
        check(id(a) not in seen, f"{what}: agent {a.unique_id} in nodes {seen.get(id(a))} and {n}", prop)
        seen[id(a)] = n
    for a in agents:
        if isinstance(a, NetworkAgent):
            check(a.node_id in m.G.nodes, f"{what}: agent {a.unique_id} is in node {a.node_id!r}, which does not exist", prop)
            check(owner(m, a.node_id) is a, f"{what}: the node of agent {a.unique_id} belongs to another one", prop)
            same(m.agent_for_node_id(a.node_id) is a, True, f"{what}: agent_for_node_id", prop)


@scenario("C11")
def placement(rng):
    g = graph(rng)
    m = Environment(topology=g, seed=rng.random())
    note("nodes", list(g.nodes), "directed", g.is_directed())
    for x in m.G.nodes:
        if rng.random() < 0.2:
            m.G.nodes[x][rng.text(["agent_id", "unique_id", "size"])] = rng.choice([0, "a", None])
    live = []
    for _ in range(rng.size(1, 14, cap=60)):
        cls = rng.choice([Net, Other, Full, Tag])
        free = [n for n in m.G.nodes if owner(m, n) is None]
        owners = {n: owner(m, n) for n in m.G.nodes}
        nodes = set(m.G.nodes)
        edges = set(m.G.edges)
        op = rng.choice(["add_agent", "add_agent", "add_node", "topology", "node_id", "new_node_id", "populate", "die", "agents", "agents_one"])
        if len(live) > 140:
            op = "die"
        note(op, "free", free)
        if op in ("add_agent", "add_node", "topology"):
            if op == "add_agent":
                a = m.add_agent(cls)
            elif op == "add_node":
                a = m.add_node(cls)
            else:
                a = m.add_agent(cls, topology=m.G)
            live.append(a)
            if free:
                check(a.node_id in free, f"{op}: placed in {a.node_id!r}, and the free nodes were {free}", "C11")
                same(set(m.G.nodes), nodes, f"{op}: nodes of the network", "C11")
            else:
                check(a.node_id not in nodes, f"{op}: placed in {a.node_id!r}, which was taken", "C11")
                same(set(m.G.nodes), nodes | {a.node_id}, f"{op}: nodes of the network", "C11")
            new = {a.node_id: a}
        elif op == "node_id":
            if not free:
                continue
            n = rng.choice(free)
            if rng.random() < 0.3:
                # not aware of the network
                cls = Plain
            a = m.add_agent(cls, node_id=n) if rng.random() < 0.6 or cls is Plain else m.add_node(cls, node_id=n)
            check(owner(m, n) is a, f"{op}: the agent of node {n} is not the one that was placed in it", "C11")
            live.append(a)
            same(a.node_id, n, f"{op}: requested node", "C11")
            same(set(m.G.nodes), nodes, f"{op}: nodes of the network", "C11")
            new = {n: a}
        elif op == "new_node_id":
            n = f"new{len(live)}{len(nodes)}"
            if n in nodes:
                continue
            a = m.add_node(cls, node_id=n)
            live.append(a)
            same(a.node_id, n, f"{op}: requested node", "C11")
            same(set(m.G.nodes), nodes | {n}, f"{op}: nodes of the network", "C11")
            new = {n: a}
        elif op == "populate":
            if not len(m.G):
                continue
            before = len(m.schedule.agents)
            m.populate_network(rng.choice([cls, [Net, Other]]))
            same(set(m.G.nodes), nodes, f"{op}: nodes of the network", "C11")
            same(len(m.schedule.agents) - before, len(free), f"{op}: agents created", "C11 C16")
            new = {n: owner(m, n) for n in free}
            for n, a in new.items():
                check(a is not None, f"{op}: node {n} without agent", "C11")
                live.append(a)
        elif op in ("agents", "agents_one"):
            k = rng.size(0, 4, cap=60)
            before = list(m.schedule.agents)
            m.add_agents([cls], k=k)
            added = [a for a in m.schedule.agents if all(a is not b for b in before)]
            same(len(added), k, "agents added", "C11 C16")
            live += added
            check(len(set(m.G.nodes) - nodes) == max(0, k - len(free)), f"{op}: nodes added {set(m.G.nodes) - nodes}, with {free} free, for {k} agents", "C11")
            new = {a.node_id: a for a in added}
            check(set(new) >= set(free) or len(free) > k, f"{op}: free nodes {free} not used", "C11")
        else:
            if not live:
                continue
            a = live.pop(rng.randrange(len(live)))
            n = a.node_id
            a.die()
            if isinstance(a, Plain):
                continue
            check(n not in m.G, f"{op}: node not removed", "C05")
            new = {n: None}
        for n, a in owners.items():
            if n not in new:
                check(n in m.G and owner(m, n) is a, f"{op}: the agent in node {n} was displaced", "C11")
        consistent(m, live, op)
        check(set(m.G.edges) >= {e for e in edges if e[0] in m.G and e[1] in m.G}, f"{op}: edges lost", "C11")


@scenario("C11")
def from_start(rng):
    """Agents given when creating the model, or through the attributes of the nodes"""
    g = graph(rng)
    n = len(g)
    k = rng.choice(["class", "populate_init", "agents", "agent_id"])
    note(k, list(g.nodes))
    if k == "class":
        m = Environment(topology=g, agent_class=Net)
        check(all(isinstance(owner(m, x), Net) for x in m.G.nodes), "a node without agent", "C11")
        same(len(m.schedule.agents), n, "agents", "C11 C16")
    elif k == "populate_init":
        class M(Environment):
            def init(self):
                self.populate_network([Net, Other], weights=[1, 3])
        m = M(topology=g)
        check(all(isinstance(owner(m, x), (Net, Other)) for x in m.G.nodes), "a node without agent", "C11")
        same(len(m.schedule.agents), n, "agents", "C11 C16")
    elif k == "agents":
        m = Environment(topology=g, agents=dict(agent_classes=[Net], k=rng.randint(1, n)))
    else:
        ids = list(range(n))
        rng.shuffle(ids)
        m0 = g.copy()
        for x, i in zip(m0.nodes, ids):
            m0.nodes[x]["agent_id"] = i

        m = Environment(topology=m0, agents=dict(agent_classes=[Plain], k=n))
        for x, i in zip(m0.nodes, ids):
            a = owner(m, x)
            check(a is not None and a.unique_id == i, f"node {x} has agent {a}, but its agent_id is {i}", "C11")
            same(a.node_id, x, f"node of the agent {i}", "C11")
        return
    same(set(m.G.nodes), set(g.nodes), "nodes", "C11")
    consistent(m, m.schedule.agents, k)


# ------------------------------------------------------------------ queries


def population(rng):
    g = graph(rng)
    m = Environment(topology=g, seed=rng.random(), mood=rng.choice(["good", "bad"]))

    class Sub(Full):
        pass
    pool = [Net, Other, Full, Full, Sub, Plain]
    agents = []
    for _ in range(rng.size(1, 12, cap=80)):
        cls = rng.choice(pool)
        kw = dict(color=rng.choice(["red", "blue", None, 1]), size=rng.choice([1, 2, 2, 3]))
        if rng.random() < 0.2:
            kw.pop("size")
        if rng.random() < 0.2:
            kw["tags"] = [1, 2]
        if rng.random() < 0.3:
            kw["mood"] = rng.choice(["good", "bad", 0])
        if rng.random() < 0.3:
            kw["color"] = rng.choice([("red", "blue"), ("red",), 0, "", rng.text(["green"]), rng.number([7])])
        if issubclass(cls, Full) and rng.random() < 0.5:
            kw["state_id"] = "off"
        agents.append(m.add_agent(cls, **kw))
    for _ in range(rng.choice([0, 0, 1, 2])):
        if len(agents) > 1:
            a = agents.pop(rng.randrange(len(agents)))
            a.die()
    return m, agents, [Net, Other, Full, Sub, Plain]


MISSING = object()


def criteria(rng, agents, classes, positional=True, ids=True):
    """Random criteria, and the predicate that they stand for"""
    args, kw, preds = (), {}, []
    known = [a.unique_id for a in agents]
    if ids and rng.random() < 0.45:
        k = rng.choice(["one", "list", "args", "empty", "both"])
        some = [rng.choice(known + [999, -1]) for _ in range(rng.size(1, 5, cap=80))]
        if k == "one":
            kw["unique_id"] = some[0]
            sel = {some[0]}
        elif k == "list":
            kw["unique_id"] = list(some)
            sel = set(some)
        elif k == "empty":
            kw["unique_id"] = []
            sel = set()
        elif k == "args" and positional:
            args = tuple(some)
            sel = set(some)
        elif k == "both" and positional:
            args = tuple(some[:1])
            kw["unique_id"] = list(some[1:])
            sel = set(some)
        else:
            kw["unique_id"] = list(some)
            sel = set(some)
        preds.append(lambda a: a.unique_id in sel)
    if rng.random() < 0.35:
        s = rng.choice(["on", "off", ["on"], ["on", "off"], ("off",), "nope", []])
        kw["state_id"] = s
        l = [s] if isinstance(s, str) else list(s)
        preds.append(lambda a: getattr(a, "state_id", None) in l)
    if rng.random() < 0.35:
        c = rng.choice(classes)
        c = rng.choice([c, [c], [c, rng.choice(classes)], (c, rng.choice(classes))])
        kw["agent_class"] = c
        cs = tuple(c) if isinstance(c, (list, tuple)) else (c,)
        if rng.random() < 0.2:
            # by its name
            name = rng.choice(["FSM", "NetworkAgent", "BaseAgent", "soil.agents.FSM", "soil.agents.network_agents.NetworkAgent"])
            kw["agent_class"] = name
            cs = ({"FSM": FSM, "NetworkAgent": NetworkAgent, "BaseAgent": BaseAgent}[name.split(".")[-1]],)
        preds.append(lambda a: isinstance(a, cs))
    if rng.random() < 0.4:
        v = rng.choice(["red", "blue", ["red", "blue"], ["red", 1], "none such", [], ("red", "blue"), ("red",), 0, "", "re", None,
                        [None], ["red", ("red", "blue")], rng.text(["green"]), rng.number([7])])
        st = {"color": v}
        if rng.random() < 0.3:
            st["size"] = rng.choice([1, [2, 3]])
        if rng.random() < 0.5:
            kw["state"] = st
        else:
            kw.update(st)
        for key, val in st.items():
            vs = val if isinstance(val, list) else [val]
            preds.append(lambda a, key=key, vs=vs: any(getattr(a, key, None) == x for x in vs))
    if "size" not in kw and "size" not in kw.get("state", {}) and rng.random() < 0.25:
        v = rng.choice([1, 2, [1, 3], 7])
        kw["size"] = v
        vs = v if isinstance(v, list) else [v]
        preds.append(lambda a: getattr(a, "size", None) in vs)
    if rng.random() < 0.2:
        v = rng.choice(["good", "bad", ["good", "bad"], 0])
        kw["mood"] = v
        ms = v if isinstance(v, list) else [v]
        preds.append(lambda a: any(getattr(a, "mood", None) == x for x in ms))
    limit = rng.choice([None, None, None, 0, 1, 2, 5, rng.size(6, 9)])
    if limit is not None:
        kw["limit"] = limit
    return args, kw, lambda a: all(p(a) for p in preds), limit


def frozen(x):
    return copy.deepcopy({k: v for k, v in x.items() if k != "agent_class"}), copy.copy(x.get("agent_class"))


def snapshot(agents):
    return {a.unique_id: {k: copy.copy(v) if isinstance(v, (list, dict)) else v for k, v in a.__dict__.items() if not k.startswith("_") and k not in ("G", "model", "logger")} for a in agents}


@scenario("C12")
def queries(rng):
    m, agents, classes = population(rng)
    note("agents", [(a.unique_id, type(a).__name__, getattr(a, "color", None), getattr(a, "size", None), getattr(a, "state_id", None), getattr(a, "node_id", None)) for a in agents])
    note("edges", list(m.G.edges))
    for _ in range(25):
        args, kw, pred, limit = criteria(rng, agents, classes)
        note("query", args, kw)
        before = frozen(kw)
        attrs = snapshot(agents)
        expected = [a.unique_id for a in agents if pred(a)][:limit]
        how = rng.choice(["env", "env_filter", "env_count", "env_one", "agent", "agent_iter", "agent_count", "function", "net"])
        who = rng.choice(agents)
        if how in ("agent", "agent_iter", "agent_count", "net") and isinstance(who, NetworkAgent):
            # the ids are given by keyword
            if args:
                kw["unique_id"] = list(args) + (kw["unique_id"] if isinstance(kw.get("unique_id"), list) else [kw["unique_id"]] if "unique_id" in kw else [])
                args = ()
                before = frozen(kw)
        if how == "net" and isinstance(who, NetworkAgent):
            adj = set(m.G.neighbors(who.node_id))
            expected = [a.unique_id for a in agents if pred(a) and getattr(a, "node_id", MISSING) in adj][:limit]
            via = rng.choice(["get_neighbors", "iter_neighbors", "count_neighbors", "limit", "iter_limit"])
            note(f"  {via} of {who.unique_id}")
            if via == "get_neighbors":
                got = [a.unique_id for a in who.get_neighbors(**kw)]
            elif via == "iter_neighbors":
                got = [a.unique_id for a in who.iter_neighbors(**kw)]
            elif via == "limit":
                got = [a.unique_id for a in who.get_agents(limit_neighbors=True, **kw)]
            elif via == "iter_limit":
                got = [a.unique_id for a in who.iter_agents(limit_neighbors=True, **kw)]
            else:
                got = who.count_neighbors(**kw)
                expected = len(expected)
            same(got, expected, f"neighbours ({via})", "C12")
        elif how == "env":
            same([a.unique_id for a in m.get_agents(*args, **kw)], expected, "model.get_agents()", "C12")
        elif how == "env_filter":
            same([a.unique_id for a in m.get_agents.filter(*args, **kw)], expected, "model.get_agents.filter()", "C12")
        elif how == "env_count":
            same(m.count_agents(*args, **kw), len(expected), "model.count_agents()", "C12")
        elif how == "env_one":
            if expected:
                same(m.agent(*args, **kw).unique_id, expected[0], "model.agent()", "C12")
            else:
                raises(lambda: m.agent(*args, **kw), "model.agent() without matches", "C12", exc=BaseException)
        elif how == "function":
            same([a.unique_id for a in filter_agents(m.schedule.agents, *args, **kw)], expected, "filter_agents()", "C12")
        elif how == "agent_iter":
            same([a.unique_id for a in who.iter_agents(*args, **kw)], expected, f"{type(who).__name__}.iter_agents()", "C12")
        elif how == "agent_count":
            if not args:
                same(who.count_agents(**kw), len(expected), f"{type(who).__name__}.count_agents()", "C12")
        else:
            same([a.unique_id for a in who.get_agents(*args, **kw)], expected, f"{type(who).__name__}.get_agents()", "C12")
        same(frozen(kw), before, "the criteria were modified", "C12")
        now = snapshot(agents)
        same(now, attrs, "the agents were modified", "C12")
        same([a.unique_id for a in m.schedule.agents], [a.unique_id for a in agents], "agents of the model", "C12")
    # views
    v = m.get_agents
    same([a.unique_id for a in v], [a.unique_id for a in agents], "iteration over the agents", "C12")
    same(len(v), len(agents), "number of agents", "C12")
    for a in agents:
        check(v[a.unique_id] is a, "agent by id", "C12")
    raises(lambda: v[12345], "unknown id", "C12")
    for a in agents:
        check(a in v, "an agent of the model is not among its agents", "C12")
    same([a.unique_id for a in m], [a.unique_id for a in agents], "iteration over the model", "C12")
    same([a.unique_id for a in v()], [a.unique_id for a in agents], "all the agents", "C12")
    if len(agents) > 1:
        a = rng.choice(agents)
        a.die()
        check(a not in m.get_agents, "a dead agent is among the agents of the model", "C12")
        same([x.unique_id for x in m.get_agents()], [x.unique_id for x in agents if x is not a], "agents after a death", "C12 C05")


@scenario("C12")
def changing(rng):
    """Queries while agents are being added or removed"""
    m, agents, classes = population(rng)
    seen = []
    for a in m.get_agents():
        seen.append(a.unique_id)
        if rng.random() < 0.3:
            m.add_agent(Plain)
        if rng.random() < 0.3 and a in m.schedule.agents:
            a.die()
    same(seen, [a.unique_id for a in agents], "agents seen", "C12")


# ------------------------------------------------------------------ registration


@scenario("C16")
def registration(rng):
    kind = rng.choice(list(KINDS))

    class M(Environment):
        schedule_class = KINDS[kind]
    g = rng.choice([None, graph(rng)])
    m = M(topology=g, seed=rng.random()) if g is not None else M(seed=rng.random())
    auto, made = [], []
    if rng.random() < 0.3:
        # ids used before
        m.current_id = int(rng.number([100, 1000], lo=0, hi=10 ** 6))
    note("topology", None if g is None else len(g), kind)
    explicit = set()

    class P(BaseAgent):
        value = 1

        def step(self):
            return rng.choice([1, 2])

    class Q(P):
        value = 2

    class N(NetworkAgent):
        value = 3

        def step(self):
            return 1

    def register(a, cls, attrs, what):
        check(type(a) is cls, f"{what}: class {type(a).__name__}, expected {cls.__name__}", "C16")
        for k, v in attrs.items():
            same(getattr(a, k), v, f"{what}: attribute {k}", "C16")
        check(a.unique_id not in auto, f"{what}: id {a.unique_id} was given before", "C16")
        auto.append(a.unique_id)
        made.append(a)

    def verify(what):
        ids = [a.unique_id for a in m.schedule.agents]
        same(sorted(ids), sorted(a.unique_id for a in made), f"{what}: agents registered", "C16")
        check(all(any(a is b for b in m.schedule.agents) for a in made), f"{what}: an agent was not registered", "C16")
        same(m.schedule.get_agent_count(), len(made), "agent count", "C16")

    for _ in range(rng.size(1, 9, cap=60)):
        op = rng.choice(["one", "one", "many", "many_weights", "default_k", "die", "step", "explicit", "add_node"])
        note(op)
        attrs = {}
        if rng.random() < 0.6:
            attrs = dict(size=rng.number(list(range(10))), tag=rng.choice(["a", None, [1], 0, rng.text(["b"])]))
        if op == "one":
            cls = rng.choice([P, Q] + ([N] if g is not None else []))
            register(m.add_agent(cls, **attrs), cls, attrs, op)
        elif op == "add_node":
            if g is None:
                continue
            register(m.add_node(N, **attrs), N, attrs, op)
        elif op == "explicit":
            uid = 2000000 + len(made) * 7
            if uid in explicit:
                continue
            explicit.add(uid)
            a = m.add_agent(P, unique_id=uid, **attrs)
            same(a.unique_id, uid, "explicit id", "C16")
            made.append(a)
        elif op in ("many", "many_weights", "default_k"):
            if op == "default_k" and not (g is not None and len(m.G)):
                continue
            classes = rng.choice([[P], [P, Q], [Q], P, (P, Q)])
            cl = (classes,) if isinstance(classes, type) else tuple(classes)
            kw = {}
            if op != "default_k":
                kw["k"] = rng.size(0, 7, cap=120)
            k = kw.get("k", len(m.G))
            allowed = cl
            if op == "many_weights":
                kw["weights"] = [rng.choice([1, 2, 5]) for _ in cl]
                if len(cl) > 1 and rng.random() < 0.5:
                    kw["weights"] = [0, 1]
                    allowed = cl[1:]
            before = list(m.schedule.agents)
            m.add_agents(classes, **kw, **attrs)
            added = [a for a in m.schedule.agents if all(a is not b for b in before)]
            same(len(added), k, f"{op}: agents added", "C16")
            for a in added:
                check(type(a) in allowed, f"{op}: class {type(a).__name__} not in {allowed}", "C16")
                register(a, type(a), attrs, op)
        elif op == "die":
            if len(made) > 1:
                a = made.pop(rng.randrange(len(made)))
                a.die()
        else:
            if made:
                m.step()
        verify(op)
