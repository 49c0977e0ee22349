"""Behaviours of agents: multi-step behaviours, state machines, attributes"""
import copy
from .base import scenario, check, same, raises, note, Skip
from .s_sched import KINDS
from soil import time as T
from soil.agents import BaseAgent, FSM, Agent, state, default_state, NetworkAgent, EventedAgent
from soil import Environment

INF = float("inf")


def model(rng, **kw):
    class M(Environment):
        schedule_class = KINDS[rng.choice(list(KINDS))]
    return M(**kw)


# ------------------------------------------------------------------ multi-step behaviours


def script(rng):
    """Bodies: list of lists of delays. The last value of each body is what it returns"""
    bodies = []
    for _ in range(rng.size(1, 4, cap=60)):
        bodies.append([rng.number([1, 2, 0.5, 3, None, 0, 1.25], lo=0, hi=1000) for _ in range(rng.size(1, 5, cap=120))])
    return bodies


def raw(rng, self, d):
    if d is None:
        return None
    return rng.choice([lambda: d, lambda: self.delay(d), lambda: self.at(self.now + d), lambda: T.Delay(d)])()


@scenario("C08")
def multistep(rng):
    how = rng.choice(["gen", "async", "fsm", "nested", "sub_async"])
    log = []
    scripts = {}
    counters = {}

    def body_of(self):
        k = counters.get(self.unique_id, 0)
        counters[self.unique_id] = k + 1
        bodies = scripts[self.unique_id]
        return k, bodies[k % len(bodies)]

    class G(BaseAgent):
        def step(self):
            k, body = body_of(self)
            for pos, d in enumerate(body[:-1]):
                log.append((self.unique_id, self.now, k, pos))
                got = yield raw(rng, self, d)
                check(got is None, f"something was sent to the generator: {got!r}", "C08")
            log.append((self.unique_id, self.now, k, len(body) - 1))
            return raw(rng, self, body[-1])

    class S(BaseAgent):
        def sub(self, k, pos, d):
            log.append((self.unique_id, self.now, k, pos))
            yield raw(rng, self, d)
            return pos

        def step(self):
            k, body = body_of(self)
            for pos, d in enumerate(body[:-1]):
                same((yield from self.sub(k, pos, d)), pos, "value returned by a sub-generator", "C08")
            log.append((self.unique_id, self.now, k, len(body) - 1))
            return raw(rng, self, body[-1])

    class A(BaseAgent):
        async def step(self):
            k, body = body_of(self)
            for pos, d in enumerate(body[:-1]):
                log.append((self.unique_id, self.now, k, pos))
                await self.delay(d or 0)
            log.append((self.unique_id, self.now, k, len(body) - 1))
            return raw(rng, self, body[-1])

    class SA(BaseAgent):
        async def sub(self, k, pos, d):
            log.append((self.unique_id, self.now, k, pos))
            await self.at(self.now + (d or 0))
            return pos

        async def step(self):
            k, body = body_of(self)
            for pos, d in enumerate(body[:-1]):
                same(await self.sub(k, pos, d), pos, "value returned by a coroutine", "C08")
            log.append((self.unique_id, self.now, k, len(body) - 1))
            return raw(rng, self, body[-1])

    class F(FSM):
        @state(default=True)
        def a(self):
            k, body = body_of(self)
            for pos, d in enumerate(body[:-1]):
                log.append((self.unique_id, self.now, k, pos))
                yield raw(rng, self, d)
            log.append((self.unique_id, self.now, k, len(body) - 1))
            return self.b, raw(rng, self, body[-1])

        @state
        async def b(self):
            k, body = body_of(self)
            for pos, d in enumerate(body[:-1]):
                log.append((self.unique_id, self.now, k, pos))
                await self.delay(d or 0)
            log.append((self.unique_id, self.now, k, len(body) - 1))
            return self.a, raw(rng, self, body[-1])

    cls = dict(gen=G, nested=S, fsm=F, sub_async=SA)
    cls["async"] = A
    cls = cls[how]
    m = model(rng)
    n = rng.size(1, 4, cap=60)
    agents = []
    for _ in range(n):
        uid = m.next_id()
        scripts[uid] = script(rng)
        agents.append(m.add_agent(cls, unique_id=uid))
    note(how, scripts)
    for _ in range(rng.size(30, 40, cap=250)):
        m.step()
    horizon = m.schedule.time
    default = m.schedule.default_interval
    for a in agents:
        mine = [x[1:] for x in log if x[0] == a.unique_id]
        expected, t, k = [], 0, 0
        bodies = scripts[a.unique_id]
        while t < horizon:
            body = bodies[k % len(bodies)]
            for pos, d in enumerate(body):
                if t >= horizon:
                    break
                expected.append((t, k, pos))
                t += d or default
            k += 1
        same(mine, expected, f"(time, execution of the body, point of the body) for agent {a.unique_id}", "C08")


# ------------------------------------------------------------------ state machines


@scenario("C09")
def transitions(rng):
    names = ["s%d" % i for i in range(rng.size(2, 5, cap=30))] + rng.choice([[], ["ab"], ["x"], ["dead_"], ["S0"]])
    extra = rng.text([""])
    if extra.isidentifier() and extra not in names and not hasattr(Agent, extra) and extra not in ("model", "G", "node_id", "logger", "unique_id", "pos", "name", "alive"):
        names.append(extra)
    plan = {}
    log = []
    kinds = {n: rng.choice(["plain", "plain", "gen", "async"]) for n in names}
    attrs = {n: rng.choice([n, n, "f_" + n]) for n in names}  # the name of a state may differ from that of its function
    expected = []
    me = {}

    def respond(self, here):
        """Choose a response, and write down what should follow"""
        k = rng.choice(["none", "state", "name", "state_delay", "name_delay", "helper", "helper_at", "delay", "delayobj", "self",
                        "none_delay", "unbound", "list_pair", "only_state_pair"])
        other = rng.choice(names)
        d = rng.number([1, 2, 0.5, 4, 1 / 4], lo=0.25)
        r = rng.choice([lambda: d, lambda: self.delay(d), lambda: self.at(self.now + d)])()
        nxt, delta = here, 1
        if k == "none":
            v = None
        elif k == "state":
            v, nxt = getattr(self, rng.choice([other, attrs[other]])), other
        elif k == "unbound":
            v, nxt = getattr(type(self), other), other
        elif k == "name":
            v, nxt = other, other
        elif k == "state_delay":
            v, nxt, delta = (getattr(self, rng.choice([other, attrs[other]])), r), other, d
        elif k == "name_delay":
            v, nxt, delta = (other, r), other, d
        elif k == "list_pair":
            v, nxt, delta = [rng.choice([other, getattr(self, other)]), r], other, d
        elif k == "only_state_pair":
            v, nxt = (rng.choice([other, getattr(self, other)]), rng.choice([None, 0])), other
        elif k == "helper":
            v, nxt, delta = getattr(self, other).delay(d), other, d
        elif k == "helper_at":
            v, nxt, delta = getattr(self, other).at(self.now + d), other, d
        elif k == "delay":
            v, delta = d, d
        elif k == "delayobj":
            v, delta = self.delay(d), d
        elif k == "none_delay":
            v, delta = (None, r), d
        else:
            v = getattr(self, here)
        note(f"  {self.unique_id} in {here} at {self.now} returns {k} {other} {d}")
        me[self.unique_id] = (nxt, self.now + delta, None)
        return v

    def enter(self, here, point):
        want = me[self.unique_id]
        note(f"{self.unique_id} runs {here} ({point}) at {self.now}")
        check(want == (here, self.now, point), f"agent {self.unique_id} runs {here}, point {point}, at {self.now}: expected {want}", "C09")
        same(self.state_id, here, "state_id", "C09")

    def make(n):
        if kinds[n] == "plain":
            def f(self):
                enter(self, n, None)
                return respond(self, n)
        elif kinds[n] == "gen":
            def f(self):
                enter(self, n, None)
                for p in range(rng.randint(0, 2)):
                    d = rng.choice([1, 0.5, 2])
                    me[self.unique_id] = (n, self.now + d, p)
                    yield d
                    enter(self, n, p)
                return respond(self, n)
        else:
            async def f(self):
                enter(self, n, None)
                for p in range(rng.randint(0, 2)):
                    d = rng.choice([1, 0.5, 2])
                    me[self.unique_id] = (n, self.now + d, p)
                    await self.delay(d)
                    enter(self, n, p)
                return respond(self, n)
        f.__name__ = attrs[n]
        return state(f) if attrs[n] == n else state(name=n)(f)
    ns = {attrs[n]: make(n) for n in names}
    first = rng.choice(names)
    ns[attrs[first]] = default_state(ns[attrs[first]])
    base = rng.choice([FSM, Agent])
    cls = type(base)("Machine", (base,), ns)
    import networkx as nx
    m = model(rng, topology=nx.path_graph(5))
    note("states", kinds, "default", first)
    for _ in range(rng.size(1, 3, cap=40)):
        start = rng.choice([None, None, rng.choice(names)])
        uid = m.next_id()
        me[uid] = (start or first, 0, None)
        kw = {} if start is None else dict(state_id=start)
        a = m.add_agent(cls, unique_id=uid, **kw)
        same(a.state_id, start or first, "initial state", "C09 C10")
    for _ in range(rng.size(25, 30, cap=150)):
        m.step()
        for uid, (nxt, when, point) in me.items():
            check(when >= m.schedule.time, f"agent {uid} should have run {nxt} at {when}, and the clock is at {m.schedule.time}", "C09")


@scenario("C09")
def invalid(rng):
    m = model(rng)
    k = rng.choice(["unknown", "object", "pair_unknown", "pair_object", "list", "triple", "pair_delay", "empty",
                    "similar", "pair_similar", "dict", "pair_pair", "function"])
    gen = rng.choice([True, False])
    runs = []
    like = rng.choice([" b", "b ", "B", "bb", "", "b\n", "_b", "step", "now", "state_id", "unique_id", "A.b"])

    def value(self):
        return {
            "similar": like, "pair_similar": (like, 1), "dict": {"a": 1}, "pair_pair": ((self.b, 1), 1), "function": lambda: self.b,
            "unknown": "not_a_state", "object": object(), "pair_unknown": ("not_a_state", 1), "pair_object": (object(), 1),
            "list": [self.b, 1, 2], "triple": (self.b, 1, 2), "pair_delay": (self.b, "soon"), "empty": (),
        }[k]

    class A(FSM):
        if gen:
            @state(default=True)
            def a(self):
                runs.append(self.now)
                yield 1
                return value(self)
        else:
            @state(default=True)
            def a(self):
                runs.append(self.now)
                return value(self)

        @state
        def b(self):
            runs.append("b")
            return 1
    ag = m.add_agent(A)
    note(k, "generator", gen)

    def go():
        for _ in range(4):
            m.step()
    raises(go, f"returning {k} is rejected", "C09")
    same(ag.state_id, "a", "the state is kept", "C09")
    same(runs, [0], "activations", "C09")


@scenario("C10")
def classes(rng):
    """Random hierarchies of state machines"""
    calls = []
    pool = ["p", "q", "r", "s", "t"]
    base = rng.choice([FSM, Agent])
    cls, known, default = base, {}, None
    level = 0
    import networkx as nx
    m = Environment(topology=nx.path_graph(rng.choice([1, 12])))
    chain = []
    for level in range(rng.size(1, 4, cap=12)):
        ns = {}
        own_default = None
        names = rng.sample(pool, rng.randint(0, 3))
        dflt = rng.choice(names) if names and rng.random() < 0.5 else None
        for n in names:
            def f(self, n=n, level=level):
                calls.append((n, level))
                return 1
            f.__name__ = n
            how = rng.choice(["plain", "called", "named"])
            attr = n
            if rng.random() < 0.25:
                attr = "f_" + n
                f.__name__ = attr
                s = state(name=n, default=n == dflt)(f)
                own_default = n if n == dflt else own_default
            elif n == dflt:
                s = rng.choice([lambda: default_state(state(f)), lambda: state(default=True)(f)])()
                own_default = n
            elif how == "plain":
                s = state(f)
            elif how == "called":
                s = state()(f)
            else:
                f.__name__ = "whatever"
                s = state(name=n)(f) if rng.random() < 0.5 else state(n)(f)
            ns[attr] = s
            known[n] = level
        default = own_default or default
        cls = type(base)(f"Machine{level}", (cls,), ns)
        chain.append((cls, dict(known), default))
        note(f"class {level}: states {names}, default {own_default}")
    for cls, known, default in chain:
        same(sorted(cls.states()), sorted(list(known) + ["dead"]), f"states of {cls.__name__}", "C10")
        if default is None:
            if known:
                raises(lambda: m.add_agent(cls), "several states without a default one", "C10")
            start = None
        else:
            a = m.add_agent(cls)
            b = m.add_agent(cls)
            same(a.state_id, default, "initial state", "C10")
            calls.clear()
            a.step()
            same(calls, [(default, known[default])], "function of the initial state", "C10")
        if rng.random() < 0.3 and default is not None:
            same(m.add_agent(cls, state_id="dead").state_id, "dead", "given initial state", "C10")
            same(m.add_agent(cls).state_id, default, "initial state after another agent was given a different one", "C10")
        if known:
            start = rng.choice(list(known))
            calls.clear()
            try:
                c = m.add_agent(cls, state_id=start)
            except ValueError:
                check(default is None, "valid initial state rejected", "C10")
            else:
                same(c.state_id, start, "given initial state", "C10")
                c.step()
                same(calls, [(start, known[start])], "function of the given state", "C10")
                if default is not None:
                    d = m.add_agent(cls)
                    same(d.state_id, default, "initial state after another agent was given a different one", "C10")
        bad = rng.choice(["nope", "pp", "", " p", "P", "step", "p,q", "now"])
        raises(lambda: m.add_agent(cls, state_id=bad), f"unknown initial state {bad!r}", "C10")
        if len(known) > 1 and default is not None:
            # not shared
            a, b = m.add_agent(cls), m.add_agent(cls)
            other = rng.choice([n for n in known if n != default])
            a.set_state(other)
            same((a.state_id, b.state_id), (other, default), "states of two agents", "C10")
            same(m.add_agent(cls).state_id, default, "state of a new agent", "C10")


@scenario("C10")
def several_bases(rng):
    """States and default state with several base classes: those that Python would look up"""
    calls = []
    pool = ["p", "q", "r"]
    base = rng.choice([FSM, Agent])
    import networkx as nx
    m = Environment(topology=nx.path_graph(5))
    classes, own = [base], {base: ({}, None)}
    for k in range(rng.randint(3, 6)):
        ns, mine, dflt = {}, {}, None
        names = rng.sample(pool, rng.randint(0, 2)) if k else pool
        for n in names:
            def f(self, k=k, n=n):
                calls.append((k, n))
                return 1
            f.__name__ = n
            d = dflt is None and rng.random() < (0.4 if k else 1)
            if d:
                dflt = n
            ns[n] = state(default=d)(f)
            mine[n] = k
        bases = tuple(rng.sample(classes[1:], min(len(classes) - 1, rng.randint(1, 2)))) or (base,)
        try:
            cls = type(base)(f"C{k}", bases, ns)
        except TypeError:   # (no consistent order)
            continue
        classes.append(cls)
        own[cls] = (mine, dflt)
        note(cls.__name__, [b.__name__ for b in bases], mine, dflt)
        known, default = {}, None
        for c in reversed(cls.__mro__):
            if c in own:
                known.update(own[c][0])
                default = own[c][1] or default
        same(sorted(cls.states()), sorted(list(known) + ["dead"]), f"states of {cls.__name__}", "C10")
        same(m.add_agent(cls).state_id, default, f"default state of {cls.__name__}", "C10")
        for n, who in known.items():
            calls.clear()
            a = m.add_agent(cls, state_id=n)
            a.step()
            same(calls, [(who, n)], f"state {n} of {cls.__name__}", "C10")


@scenario("C10")
def independent(rng):
    """Agents of the same class move on their own"""
    class A(FSM):
        @state(default=True)
        def a(self):
            if self.unique_id in movers and self.now >= 1:
                return self.b

        @state
        def b(self):
            return 1

        @state
        def c(self):
            pass
    m = model(rng)
    n = rng.size(2, 5, cap=60)
    movers = set(rng.sample(range(n), rng.randint(0, n - 1)))
    started = {i: rng.choice(["a", "a", "c"]) for i in range(n)}
    ags = [m.add_agent(A, **({} if started[i] == "a" else {"state_id": "c"})) for i in range(n)]
    note(n, movers, started)
    for _ in range(4):
        m.step()
    for a in ags:
        want = "c" if started[a.unique_id] == "c" else ("b" if a.unique_id in movers else "a")
        same(a.state_id, want, f"state of {a.unique_id}", "C10 C09")
    same(m.add_agent(A).state_id, "a", "state of a new agent", "C10")


# ------------------------------------------------------------------ attributes


def plain_value(rng):
    return rng.choice([1, 2, "x", 0.5, True, [1, 2], {"a": [1]}, (1, 2), [], {}, [[1], [2]], {"x": {"y": 1}}, 0, False, "",
                       {1, 2}, ([1], 2), {"x": {"y": {"z": [0]}}}, rng.number([3]), rng.text(["y"])])


@scenario("C26")
def attributes(rng):
    base = rng.choice([BaseAgent, FSM, Agent, NetworkAgent, EventedAgent])
    import networkx as nx
    names = ["alpha", "beta", "gamma", "delta_", "eps"]
    levels = []
    cls = base
    effective = {}
    for level in range(rng.randint(1, 3)):
        ns = {"step": lambda self: 1}
        own = {n: copy.deepcopy(plain_value(rng)) for n in rng.sample(names, rng.randint(0, 3))}
        how = rng.choice(["attrs", "defaults", "w"])
        if how == "attrs":
            ns.update(own)
            cls = type(base)(f"A{level}", (cls,), ns)
        elif how == "defaults":
            ns["defaults"] = dict(own)
            cls = type(base)(f"A{level}", (cls,), ns)
        else:
            cls = cls.w(**own)
        effective.update(copy.deepcopy(own))
        note(f"level {level} ({how}): {own}")
    model_values = {n: copy.deepcopy(plain_value(rng)) for n in rng.sample(names, rng.randint(0, 2))}
    given = {n: copy.deepcopy(rng.choice([plain_value(rng), plain_value(rng), None])) for n in rng.sample(names, rng.randint(0, 2))}
    note("model", model_values, "given", given)
    where = rng.choice(["given", "given", "class", "property", "init"])
    M = Environment
    if where == "class":
        M = type("M", (Environment,), copy.deepcopy(model_values))
    elif where == "property":
        M = type("M", (Environment,), {k: property(lambda self, v=v: v) for k, v in copy.deepcopy(model_values).items()})
    elif where == "init":
        M = type("M", (Environment,), {"init": lambda self: [setattr(self, k, v) for k, v in copy.deepcopy(model_values).items()]})
    note("values of the model:", where)
    m = M(topology=nx.path_graph(10), **(copy.deepcopy(model_values) if where == "given" else {}))
    agents = []

    def expected(given):
        e = dict(effective)
        for k in e:
            if k in model_values:
                e[k] = model_values[k]
        e.update(given)
        return e

    def verify(a, given, when):
        for k, v in expected(given).items():
            got = getattr(a, k)
            check(got == v and type(got) is type(v), f"attribute {k} of {when}: {got!r}, expected {v!r}", "C26")

    a = m.add_agent(cls, **copy.deepcopy(given))
    b = m.add_agent(cls)
    verify(a, given, "an agent with given values")
    verify(b, {}, "an agent without given values")
    # change everything that can be changed in place (but for the values of the model)
    for k in effective:
        if k in model_values:
            continue
        for x in (a, b):
            v = getattr(x, k)
            if isinstance(v, list):
                v.append("changed")
                if v and isinstance(v[0], list):
                    v[0].append("changed")
            elif isinstance(v, dict):
                v["changed"] = 1
                if isinstance(v.get("a"), list):
                    v["a"].append("changed")
                if isinstance(v.get("x"), dict):
                    v["x"]["changed"] = 1
                    if isinstance(v["x"].get("y"), dict):
                        v["x"]["y"]["z"].append("changed")
            elif isinstance(v, set):
                v.add("changed")
            elif isinstance(v, tuple) and v and isinstance(v[0], list):
                v[0].append("changed")
            else:
                setattr(x, k, "changed")
    c = m.add_agent(cls)
    verify(c, {}, "an agent created after changing others")
    d = m.add_agent(cls, **copy.deepcopy(given))
    verify(d, given, "an agent with given values, created after changing others")
    m2 = Environment(topology=nx.path_graph(3))
    e = m2.add_agent(cls)
    for k, v in effective.items():
        same(getattr(e, k), v, f"attribute {k} in another model", "C26")


@scenario("C26")
def several_bases_attributes(rng):
    """Defaults with several base classes: those that Python would look up"""
    names = ["alpha", "beta", "gamma"]
    base = rng.choice([BaseAgent, FSM, EventedAgent])
    m = Environment()
    classes, own = [base], {base: {}}
    for k in range(rng.randint(3, 6)):
        mine = {n: [k, n] for n in (rng.sample(names, rng.randint(0, 2)) if k else names)}
        bases = tuple(rng.sample(classes[1:], min(len(classes) - 1, rng.randint(1, 2)))) or (base,)
        ns = {"step": lambda self: 1}
        ns.update(copy.deepcopy(mine) if rng.random() < 0.5 else {"defaults": copy.deepcopy(mine)})
        try:
            cls = type(base)(f"C{k}", bases, ns)
        except TypeError:
            continue
        classes.append(cls)
        own[cls] = mine
        note(cls.__name__, [b.__name__ for b in bases], mine)
        want = {}
        for c in reversed(cls.__mro__):
            want.update(own.get(c, {}))
        for _ in range(2):
            a = m.add_agent(cls)
            for n, v in want.items():
                same(getattr(a, n), v, f"attribute {n} of {cls.__name__}", "C26")
                getattr(a, n).append("changed")


@scenario("C26")
def unshared(rng):
    """Changes of one agent are not seen by the others (of its class, or of related classes)"""
    class P(BaseAgent):
        things = []
        table = {"k": []}
        number = 3

        def step(self):
            return 1

    class Q(P):
        extra = [[]]
        if rng.random() < 0.5:
            things = ["q"]
    m = Environment()
    agents = [m.add_agent(rng.choice([P, Q])) for _ in range(rng.randint(2, 5))]
    v = rng.choice(agents)
    v.things.append(1)
    v.table["k"].append(1)
    v.table["j"] = 2
    v.number += 1
    if isinstance(v, Q):
        v.extra[0].append(3)
    agents += [m.add_agent(P), m.add_agent(Q)]
    for a in agents:
        if a is v:
            continue
        base = ["q"] if isinstance(a, Q) and "q" in a.things else []
        same((a.things, a.table, a.number), (base, {"k": []}, 3), "attributes of another agent", "C26")
        if isinstance(a, Q):
            same(a.extra, [[]], "attribute of another agent", "C26")
