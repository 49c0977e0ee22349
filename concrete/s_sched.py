"""Schedulers: histories of activations against a reference"""
import random as global_random
import networkx as nx
from .base import scenario, check, same, raises, note, Skip, Violation
from soil import time as T
from soil.agents import BaseAgent, FSM, state
from soil import Environment, Simulation

INF = float("inf")


class OrderedPQueue(T.PQueueActivation):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, shuffle=False, **kwargs)


KINDS = {
    "bucket": T.TimedActivation,
    "shuffled": T.ShuffledTimedActivation,
    "ordered": T.OrderedTimedActivation,
    "pqueue": T.PQueueActivation,
    "pqueue_ordered": OrderedPQueue,
}


class Reference:
    """What has to happen"""

    def __init__(self, kind, default):
        self.kind, self.default = kind, default
        self.pending = []       # [time, seq, agent]
        self.ghosts = []        # times of the pending activations of dead agents
        self.seq = 0
        self.dead = set()
        self.started = set()
        self.adds = 0
        self.trace = []
        self.clock = 0

    def push(self, when, who):
        self.pending.append((when, self.seq, who))
        self.seq += 1

    def kill(self, who):
        self.dead.add(who)
        self.ghosts += [e[0] for e in self.pending if e[2] == who]
        self.pending = [e for e in self.pending if e[2] != who]

    def tags(self, who):
        t = "C01 C02" if who in self.started else "C03 C02"
        return t + (" C03" if self.adds else "")

    def activated(self, who, now):
        self.trace.append((now, who))
        note(f"activation of agent {who} at {now}")
        check(who not in self.dead, f"agent {who} was activated at {now}, after its death", "C05")
        mine = [e for e in self.pending if e[2] == who]
        due = [e for e in mine if e[0] == now]
        if not due:
            again = any(x == who and n == now for n, x in self.trace[:-1])
            check(False, f"agent {who} was activated at {now}, but it should at {[e[0] for e in mine]}",
                  self.tags(who) + (" C04" if again else ""))
        first = min(e[0] for e in self.pending)
        check(first == now, f"agent {who} activated at {now}, but there was an earlier activation at {first}", self.tags(who))
        same_instant = [e for e in self.pending if e[0] == now]
        if self.kind == "ordered":
            e = min(same_instant, key=lambda e: e[1])
            check(e[2] == who, f"agent {who} acted before {e[2]}, which was scheduled earlier", "C04")
        elif self.kind == "pqueue_ordered":
            e = min(same_instant, key=lambda e: e[2])
            check(e[2] == who, f"agent {who} acted before {e[2]}, with a lower id", "C04")
        self.started.add(who)
        self.pending.remove(due[0])

    def after_step(self, model):
        now = model.schedule.time
        note(f"clock at {now}")
        check(now >= self.clock, f"the clock went from {self.clock} to {now}", "C02")
        late = [e for e in self.pending if e[0] < now]
        if late:
            t = "C01 C02 C04" if late[0][2] in self.started else "C02 C03 C04"
            check(False, f"activations missed when the clock got to {now}: {late}", t + (" C03" if self.adds else ""))
        self.ghosts = [g for g in self.ghosts if g >= now]
        live = min((e[0] for e in self.pending), default=INF)
        anyone = min([live] + self.ghosts)
        check(now in (live, anyone), f"the clock is at {now}, and the earliest activation is at {live}", "C02")
        if live == INF and not self.ghosts:
            check(now == INF and not model.running, f"nothing pending: clock at {now}, running={model.running}", "C02 C06")
        if now != INF:
            check(model.running, f"the model stopped with pending activations", "C02 C06")
        self.clock = now


def number(rng, zero=True):
    exact = rng.number([0, 1, 1, 2, 3, 5, 0.25, 0.5, 1.5, 2.75, 10, 0.125] if zero else [1, 1, 2, 3, 5, 0.25, 0.5, 1.5, 10],
                       lo=0 if zero else 2 ** -20)
    if rng.random() < 0.1:
        return rng.choice([1 / 3, 0.1, 2 ** 0.5, 7.3, 1e-3, 1e-9, 12345.678, 1e6])
    return exact


class Actor:
    """Behaviour common to all the kinds of agents"""

    def _act(self):
        """One activation. Returns the response (as it is) """
        ref, rng, model = self._ref, self._rng, self.model
        now = self.now
        check(now == model.schedule.time, "agent.now is not the clock", "C02")
        ref.activated(self.unique_id, now)
        self._left -= 1
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            what = rng.choice(["add", "add_at", "kill", "kill_due"])
            if what.startswith("add") and len(model._made) < model._most:
                spawn(model, rng, ref, via=what)
            elif what.startswith("kill"):
                others = [a for a in model._made if a.unique_id not in ref.dead and a is not self]
                if what == "kill_due":
                    others = [a for a in others if any(e[0] == now and e[2] == a.unique_id for e in ref.pending)]
                if len(others) > (2 if what == "kill" else 0):
                    v = rng.choice(others)
                    note(f"  {self.unique_id} kills {v.unique_id}")
                    ref.kill(v.unique_id)
                    v.die()
                    if rng.random() < 0.3:
                        v.die()
        if self._left <= 0:
            end = rng.choice(["inf", "die", "delayinf"])
            if end == "die":
                note(f"  {self.unique_id} dies")
                ref.kill(self.unique_id)
                return self.die()
            note(f"  {self.unique_id} asks for {end}")
            return INF if end == "inf" else self.delay(INF)
        how = rng.choice(["none", "zero", "number", "number", "delay", "at", "default"])
        if how == "none":
            d, r = ref.default, None
        elif how == "zero":
            d, r = ref.default, rng.choice([0, 0.0])
        elif how == "number":
            d = number(rng, False)
            r = d
        elif how == "delay":
            d = number(rng, False)
            r = self.delay(d) if rng.random() < 0.5 else T.Delay(d)
        elif how == "default":
            d, r = 1, self.delay()
        else:
            d = number(rng, False)
            if (now + d) - now != d:
                d = (now + d) - now     # (as close as a float can be)
            if d <= 0:
                d = ref.default
            r = self.at(now + d)
            d = float(now + d) - now
        note(f"  {self.unique_id} asks for {how} ({d})")
        ref.push(now + d, self.unique_id)
        return r

    def _setup(self, ref, rng):
        self._ref, self._rng = ref, rng
        self._left = rng.size(1, 8, cap=60)


class Plain(BaseAgent, Actor):
    def step(self):
        return self._act()


class Generator(BaseAgent, Actor):
    def step(self):
        for _ in range(self._rng.randint(0, 3)):
            yield self._act()
        return self._act()


class Nested(BaseAgent, Actor):
    def _sub(self, n):
        for _ in range(n):
            yield self._act()

    def step(self):
        while True:
            yield from self._sub(self._rng.randint(1, 3))
            if self._rng.random() < 0.3:
                return self._act()


class Async(BaseAgent, Actor):
    async def step(self):
        while True:
            v = self._act()
            if v is None:
                v = 0
            if self._rng.random() < 0.3:
                return v
            await (v if isinstance(v, T.Delay) else T.Delay(v))


class Machine(FSM, Actor):
    def _next(self, other):
        v = self._act()
        if isinstance(v, tuple):  # dead
            return v
        k = self._rng.choice(["state", "name", "only", "stay"])
        if k == "only" or (v is None and k == "stay"):
            return v
        if k == "state":
            return other, v
        if k == "name":
            return other.name, v
        return v

    @state(default=True)
    def one(self):
        return self._next(self.two)

    @state
    def two(self):
        for _ in range(self._rng.randint(0, 2)):
            v = self._act()
            if isinstance(v, tuple):
                return v
            yield v
        return self._next(self.one)


CLASSES = [Plain, Generator, Nested, Async, Machine]


def spawn(model, rng, ref, via=None):
    cls = rng.choice(model._classes)
    via = via or rng.choice(["add", "add_at", "add_at"])
    now = model.schedule.time
    ref.adds += 1 if ref.trace else 0
    if via == "add":
        a = model.add_agent(cls, init=False)
        first = now
    else:
        uid = model.next_id()
        if rng.random() < 0.1:
            used = {x.unique_id for x in model._made}
            uid = rng.choice([u for u in (-1, -2, 10 ** 6, 10 ** 6 + 1, -10 ** 4, 512) if u not in used] or [uid])
        a = cls(unique_id=uid, model=model)
        when = rng.choice([None, now, now + number(rng), now + number(rng), max(0, now - number(rng))])
        if when is None and rng.random() < 0.5:
            model.schedule.add(a)
        else:
            model.schedule.add(a, when=when)
        first = now if when is None else max(when, now)
    a._setup(ref, rng)
    note(f"  add {cls.__name__} {a.unique_id}, for {first}")
    ref.push(first, a.unique_id)
    model._made.append(a)
    return a


def build(rng, kind=None, n=None, classes=None, default=None, seed=None):
    kind = kind or rng.choice(list(KINDS))
    default = default if default is not None else rng.choice([None, None, 1, 2, 0.5])

    class M(Environment):
        schedule_class = KINDS[kind]
    if default is not None:
        M.default_interval = default
    ref = Reference(kind, 1 if default is None else default)
    model = M(seed=seed if seed is not None else rng.random())
    model._made = []
    model._classes = classes or rng.choice([CLASSES, [Plain], [Generator], [Async], [Machine]])
    note(f"scheduler {kind}, default interval {default}")
    n = n or rng.size(1, 6, cap=120)
    model._most = n + 8
    for _ in range(n):
        spawn(model, rng, ref)
    return model, ref


def run(model, ref, limit=120):
    for k in range(limit):
        if not model.running:
            break
        before = len(ref.trace)
        t0 = model.schedule.time
        model.step()
        instants = {n for n, _ in ref.trace[before:]}
        check(len(instants) <= 1, f"activations at different times in a step: {instants}", "C02 C04")
        ref.after_step(model)
        ids = sorted(a.unique_id for a in model.schedule.agents)
        expected = sorted(a.unique_id for a in model._made if a.unique_id not in ref.dead)
        check(ids == expected, f"agents in the model {ids}, expected {expected}", "C05 C16")
        same(sorted(a.unique_id for a in model.get_agents()), expected, "get_agents()", "C05 C12")
    else:
        return
    check(not ref.pending, f"the model stopped with pending activations {ref.pending}", "C01 C02 C06")


@scenario("C01 C02 C03 C04 C05")
def history(rng):
    model, ref = build(rng)
    run(model, ref)


@scenario("C01 C02 C04")
def quiet_history(rng):
    """Without agents that are added or killed"""
    model, ref = build(rng, classes=[Plain])
    for a in model._made:
        a._act = lambda a=a: simple(a)
    run(model, ref)


def simple(self):
    ref, rng = self._ref, self._rng
    ref.activated(self.unique_id, self.now)
    self._left -= 1
    if self._left <= 0:
        return INF
    d = number(rng)
    ref.push(self.now + (d or ref.default), self.unique_id)
    return d if rng.random() < 0.5 else self.delay(d)


@scenario("C04")
def crowd(rng):
    """Many agents at the same instants: exactly once each, and in order"""
    kind = rng.choice(list(KINDS))

    class M(Environment):
        schedule_class = KINDS[kind]
    n = rng.size(2, 30)
    log = []
    period = rng.number([1, 2, 0.5], lo=2 ** -10)

    class A(BaseAgent):
        def step(self):
            log.append((self.now, self.unique_id))
            return period
    orders = []
    steps = rng.size(4, 6, cap=100)
    for _ in range(2):
        log.clear()
        global_random.seed(rng.random())
        m = M(seed=f"s{n}")
        for _ in range(n):
            m.add_agent(A)
        for _ in range(steps):
            m.step()
        note(kind, n, log)
        for k in range(steps):
            ids = [i for t, i in log if t == k * period]
            check(sorted(ids) == list(range(n)), f"at {k * period}: activated {ids}, out of {n} agents", "C04")
            if kind == "pqueue_ordered":
                check(ids == sorted(ids), f"not in the order of the ids: {ids}", "C04")
            if kind == "ordered":
                check(ids == list(range(n)), f"not in the order in which they were scheduled: {ids}", "C04")
        orders.append(list(log))
    check(orders[0] == orders[1], f"the order depends on something other than the generator of the model: {orders}", "C04")
    if kind in ("bucket", "shuffled", "pqueue") and n >= 12:
        seen = set()
        for t in range(4):
            seen.add(tuple(i for tt, i in log if tt == t * period))
        check(len(seen) > 1, "the order is never shuffled", "C04")
        # every position of the list takes part in the shuffle
        check(any(s != tuple(range(n)) for s in seen), "the order is never shuffled", "C04")


@scenario("C02 C01")
def past(rng):
    """Requests to be activated in the past are errors"""
    kind = rng.choice(list(KINDS))

    class M(Environment):
        schedule_class = KINDS[kind]
    start = rng.number([1, 2, 4, 8], lo=0.5)
    back = rng.choice([0.5, 1, 2, start, start + 1, INF, 1e-3, 0.25])
    log = []
    cls = rng.choice(["plain", "gen", "fsm", "at"])

    class A(BaseAgent):
        def step(self):
            log.append(self.now)
            if len(log) == 1:
                return start
            return -back if cls != "at" else self.at(self.now - back)

    class G(BaseAgent):
        def step(self):
            log.append(self.now)
            yield start
            log.append(self.now)
            yield -back
            log.append(self.now)

    class F(FSM):
        @state(default=True)
        def a(self):
            log.append(self.now)
            return self.b, start

        @state
        def b(self):
            log.append(self.now)
            return self.a, -back
    m = M()
    m.add_agent(dict(gen=G, fsm=F).get(cls, A))
    note(kind, cls, start, back)

    def go():
        for _ in range(5):
            m.step()
            check(m.schedule.time >= (log or [0])[-1], "the clock went back", "C02")
    raises(go, f"a request to be activated in the past (by {back} at {start}) is rejected", "C02")
    same(log, [0, start], "activations", "C02")


@scenario("C06 C02")
def exhausted(rng):
    """The run ends when nobody has anything left to do"""
    model, ref = build(rng)
    model_cls = type(model)

    class S(model_cls):
        def init(self):
            self._made, self._classes, self._most = [], model._classes, 11
            ref.__init__(ref.kind, ref.default)
            for _ in range(3):
                spawn(self, rng, ref)
    limit = rng.choice([None, None, rng.number([40.0], lo=1)])
    note("max_time", limit)
    env, = Simulation(model=S, name="x", max_time=limit, exporters=[], dump=False).run()
    if limit is None:
        check(not ref.pending, f"it ended with pending activations {ref.pending}", "C06")
        check(not env.running, "it ended while running", "C06")
    else:
        check(all(e[0] >= limit for e in ref.pending), f"pending before the limit {limit}: {ref.pending}", "C06")
    for now, who in ref.trace:
        check(limit is None or now < limit, f"activation at {now}, with a limit of {limit}", "C06")


@scenario("C06")
def limits(rng):
    kind = rng.choice(list(KINDS))
    max_time = rng.number([None, 0, 1, 2.5, 5, 7, 10, 12.25], lo=0, hi=400)
    max_steps = rng.choice([None, 0, 1, 2, 5, 9, rng.size(10, 20)])
    stop_at = rng.number([None, None, 1, 3, 6], lo=1, hi=300)
    dies = rng.number([None, 3, 8, 15], lo=1, hi=300)
    if max_time is None and max_steps is None and stop_at is None and dies is None:
        raise Skip
    delays = [rng.number([1, 1, 2, 0.5, 3, 0.25], lo=0.25) for _ in range(rng.size(1, 4, cap=60))]
    first = [rng.number([0, 0, 0, 1, 2, 4], lo=0) for _ in delays]
    log, steps = [], []
    iters = rng.choice([1, 2, 2, 3])

    class A(BaseAgent):
        delta = 1

        def step(self):
            log.append((self.model.id, self.now, self.unique_id))
            if stop_at is not None and self.now >= stop_at:
                self.model.running = False
            if dies is not None and self.now >= dies:
                return self.die()
            return self.delta

    class M(Environment):
        schedule_class = KINDS[kind]

        def init(self):
            for d, f in zip(delays, first):
                if f:
                    self.schedule.add(A(unique_id=self.next_id(), model=self, delta=d), when=f)
                else:
                    self.add_agent(A, delta=d)

        def step(self):
            steps.append((self.id, self.schedule.time, self.schedule.steps))
            return super().step()
    note(kind, "max_time", max_time, "max_steps", max_steps, "stop_at", stop_at, "dies", dies, "delays", delays, "first", first)
    limits_ = dict(max_time=max_time, max_steps=max_steps)
    how = rng.choice(["constructor", "constructor", "run", "override", "class"])
    note(how)
    if how == "constructor":
        envs = Simulation(model=M, name="x", iterations=iters, exporters=[], dump=False, **limits_).run()
    elif how == "run":
        envs = Simulation(model=M, name="x", iterations=iters, exporters=[], dump=False).run(**limits_)
    elif how == "override":
        # The limits given when running it take precedence
        envs = Simulation(model=M, name="x", iterations=iters, exporters=[], dump=False, **{k: rng.choice([1, 3, 20]) for k in limits_}).run(**limits_)
    else:
        envs = M.run(iterations=iters, exporters=[], **limits_)
    same(len(envs), iters, "environments", "C06 C18")
    for env in envs:
        mine = [(t, a) for i, t, a in log if i == env.id]
        if max_time is not None:
            bad = [x for x in mine if x[0] >= max_time]
            check(not bad, f"activations {bad} at or after the limit {max_time}", "C06")
        if max_steps is not None:
            check(env.schedule.steps <= max_steps, f"{env.schedule.steps} steps, and the limit is {max_steps}", "C06")
        ended = not env.running
        reached = (max_time is not None and env.schedule.time >= max_time) or (max_steps is not None and env.schedule.steps >= max_steps)
        check(ended or reached, f"it stopped at {env.schedule.time}, after {env.schedule.steps} steps, for no reason", "C06")
        # nothing else after the model stopped
        if stop_at is not None:
            over = [t for t, _ in mine if t >= stop_at]
            check(len(set(over)) <= 1, f"it went on after it was stopped: {over}", "C06")
        # the activations are those of the reference, up to the limits
        expected = []
        t = {k: f for k, f in enumerate(first)}
        nsteps = 0
        running = True
        while t:
            now = min(t.values())
            if max_time is not None and now >= max_time:
                break
            if max_steps is not None and nsteps >= max_steps:
                break
            if not running:
                break
            for k in sorted(t):
                if t[k] == now:
                    expected.append((now, k))
                    if stop_at is not None and now >= stop_at:
                        running = False
                    if dies is not None and now >= dies:
                        del t[k]
                    else:
                        t[k] = now + delays[k]
            nsteps += 1
        if max_steps is None or not any(first):
            # (a step that only moves the clock to the first activation may or may not be counted)
            same(sorted(mine), sorted(expected), "activations", "C06")


@scenario("C06")
def empty(rng):
    gone, stopped = rng.random() < 0.4, rng.random() < 0.2

    class A(BaseAgent):
        def step(self):
            pass

    class M(Environment):
        def init(self):
            if gone:
                for a in [self.add_agent(A) for i in range(rng.randint(1, 3))]:
                    a.die()
            if stopped:
                self.running = False
    how = rng.choice([dict(max_time=5), dict(max_steps=3), dict(), dict(max_time=5, max_steps=2), dict(max_time=0), dict(max_steps=0)])
    if rng.random() < 0.3:
        how["agent_reporters"] = {"x": lambda a: 1}
    if rng.random() < 0.3:
        how["model_reporters"] = {"y": lambda m: 2}
    if rng.random() < 0.3:
        how["tables"] = {"t": ["a", "b"]}
    if rng.random() < 0.3:
        how["iterations"] = 2
    if rng.random() < 0.3:
        how["seed"] = rng.choice(["a", 0, None])
    p = how["parameters"] = {}
    if rng.random() < 0.3:
        p["size"] = 3
    net = rng.choice([None, "graph", "generator"])
    if net == "graph":
        p["topology"] = nx.path_graph(3)
    elif net == "generator":
        p.update(network_generator="path_graph", network_params=dict(n=2))
    note(how, gone, stopped)
    raises(lambda: Simulation(model=M, name="x", exporters=[], dump=False, **how).run(), "a model without agents is an error", "C06")


@scenario("C07")
def lockstep(rng):
    kind = rng.choice(list(KINDS))
    model, ref = build(rng, kind=kind, classes=[Plain, Generator])
    sched = model.schedule
    if rng.random() < 0.3:
        sched.step()
    interval = rng.number([1, 1, 2, 0.5, 3, 0.75, 10, 0.125], lo=2 ** -4)
    note("interval", interval)
    ls = T.Lockstepper(sched, interval)
    t0 = ls.time
    same(t0, sched.time, "initial time", "C07")
    for k in range(1, rng.size(15, 20)):
        before = len(ref.trace)
        c0 = ls.time
        ls.step()
        check(ls.time == t0 + k * interval or abs(ls.time - (t0 + k * interval)) <= 1e-9 * max(1, abs(ls.time)), f"clock of the wrapper at {ls.time}, expected {t0 + k * interval}", "C07")
        same(ls.steps, k, "steps of the wrapper", "C07")
        new = ref.trace[before:]
        for now, who in new:
            check(now < ls.time, f"activation at {now}, at or after the end of the interval {ls.time}", "C07")
        late = [e for e in ref.pending if e[0] < ls.time]
        check(not late, f"activations {late} before the end of the interval {ls.time} did not take place", "C07")
        same(sorted(a.unique_id for a in ls.agents), sorted(a.unique_id for a in sched.agents), "agents", "C07")


@scenario("C05")
def death(rng):
    """An agent killed before, while, or after acting at the same instant"""
    kind = rng.choice(list(KINDS))
    log = []
    victim_kind = rng.choice(["fsmdead", "plain", "gen", "async", "fsm", "fsmgen", "net"])
    when = rng.number([0, 1, 2, 3], lo=0, hi=100)
    remove = rng.choice([True, False])
    from soil.agents import Agent, NetworkAgent
    import networkx as nx

    class P(BaseAgent):
        def step(self):
            log.append((self.now, self.unique_id))

    class G(BaseAgent):
        def step(self):
            while True:
                log.append((self.now, self.unique_id))
                yield 1
                log.append((self.now, self.unique_id))
                yield 1

    class C(BaseAgent):
        async def step(self):
            while True:
                log.append((self.now, self.unique_id))
                await self.delay(1)

    class F(FSM):
        @state(default=True)
        def a(self):
            log.append((self.now, self.unique_id))
            return self.b

        @state
        def b(self):
            log.append((self.now, self.unique_id))
            return "a"

    class FD(FSM):
        """Goes to the final state (which is not the same as dying)"""
        @state(default=True)
        def a(self):
            log.append((self.now, self.unique_id))
            return self.dead

    class FG(FSM):
        @state(default=True)
        def a(self):
            log.append((self.now, self.unique_id))
            yield 1
            log.append((self.now, self.unique_id))
            return self.a, 1

    class N(NetworkAgent):
        def step(self):
            log.append((self.now, self.unique_id))
    cls = dict(plain=P, gen=G, fsm=F, fsmgen=FG, net=N, fsmdead=FD)
    cls["async"] = C
    vc = cls[victim_kind]
    # the victim dies when it is killed, or by itself
    suicide = rng.choice([False, False, True])
    twice = rng.choice([False, True])
    deaths = []

    class M(Environment):
        schedule_class = KINDS[kind]

    g = nx.path_graph(6)
    for u in range(6):
        if rng.random() < 0.3:
            g.remove_edges_from(list(g.edges(u)))
        if rng.random() < 0.15:
            g.add_edge(u, u)
    m = M(topology=g)
    killed = set()
    unplaced = rng.random() < 0.2    # its node had been removed before

    def kill(v):
        if v.unique_id in killed and not twice:
            return
        at = m.schedule.time
        if v.unique_id not in killed:
            deaths.append((at, v.unique_id, len(log)))
        killed.add(v.unique_id)
        if isinstance(v, NetworkAgent):
            if unplaced and v.node_id is not None:
                v.remove_node()
            v.die(remove=remove and not unplaced)
        else:
            v.die()

    class Killer(BaseAgent):
        def step(self):
            if self.now >= when:
                for v in victims:
                    kill(v)
            return 1

    victims = []
    order = rng.choice(["before", "after"])
    if order == "after":
        m.add_agent(Killer)
    for _ in range(rng.randint(1, 3)):
        victims.append(m.add_agent(vc))
    if order == "before":
        m.add_agent(Killer)
    nodes = {v.unique_id: v.node_id for v in victims if victim_kind == "net"}
    note(kind, victim_kind, "killed at", when, "order", order, "twice", twice)
    for _ in range(int(when) + 8):
        m.step()
    check(len(deaths) == len(victims), "not killed", "C05")
    for at, uid, pos in deaths:
        later = [x for x in log[pos:] if x[1] == uid]
        check(not later, f"agent {uid}, killed at {at}, acted at {later}", "C05")
    ids = {a.unique_id for a in m.get_agents()}
    check(not ids & killed, f"dead agents {ids & killed} in the model", "C05")
    check(not {a.unique_id for a in m.schedule.agents} & killed, "dead agents in the scheduler", "C05")
    for v in victims:
        check(not v.alive, "dead agent with alive=True", "C05")
        if victim_kind == "net":
            n = nodes[v.unique_id]
            if remove or unplaced:
                check(n not in m.G, f"node {n} was not removed", "C05")
            else:
                check(n in m.G, f"node {n} was removed", "C05")


@scenario("C05")
def suicide(rng):
    """Agents that die by themselves in the different kinds of behaviours"""
    kind = rng.choice(list(KINDS))
    log = []
    after = rng.size(0, 3)
    how = rng.choice(["plain", "plain_ignored", "gen", "gen_ignored", "async", "fsm", "fsm_ignored", "net"])
    from soil.agents import NetworkAgent
    import networkx as nx

    def tick(self):
        log.append((self.unique_id, self.now))
        return sum(1 for u, _ in log if u == self.unique_id) > after

    class P(BaseAgent):
        def step(self):
            if tick(self):
                if how == "plain":
                    return self.die()
                self.die()
            return 1

    class G(BaseAgent):
        def step(self):
            while True:
                if tick(self):
                    if how == "gen":
                        yield self.die()
                    else:
                        self.die()
                yield 1

    class C(BaseAgent):
        async def step(self):
            while True:
                if tick(self):
                    await self.die()
                await self.delay(1)

    class F(FSM):
        @state(default=True)
        def a(self):
            if tick(self):
                if how == "fsm":
                    return self.die()
                self.die()
            return self.a, 1

    class N(NetworkAgent):
        def step(self):
            if tick(self):
                return self.die()
            return 1
    cls = {"plain": P, "gen": G, "async": C, "fsm": F, "net": N}[how.split("_")[0]]

    class M(Environment):
        schedule_class = KINDS[kind]
    m = M(topology=nx.path_graph(8))
    n = rng.size(1, 4)
    agents = [m.add_agent(cls) for _ in range(n)]
    extra = rng.choice([True, False])
    if extra:
        class Forever(BaseAgent):
            def step(self):
                return 1
        m.add_agent(Forever)
    note(kind, how, "after", after, "agents", n)
    for _ in range(after + 6):
        if not m.running:
            break
        m.step()
    for a in agents:
        mine = [t for u, t in log if u == a.unique_id]
        same(mine, [float(t) for t in range(after + 1)], f"activations of agent {a.unique_id}", "C05 C01")
        check(not a.alive, "alive", "C05")
        check(a not in m.schedule.agents, "still in the model", "C05")
    if not extra:
        check(not m.running, "the model goes on without agents", "C06")


@scenario("C05")
def dies_in_init(rng):
    """Agents that die while they are being created"""
    from soil.agents import NetworkAgent, FSM, Agent, EventedAgent, state
    import networkx as nx
    kind = rng.choice(list(KINDS))
    base = rng.choice([BaseAgent, NetworkAgent, Agent, EventedAgent])
    acted = []
    doomed = set(rng.sample(range(6), rng.randint(0, 5)))
    note(kind, base.__name__, doomed)

    class D(base):
        def init(self):
            if self.unique_id in doomed:
                self.die()

        if base is not Agent:
            def step(self):
                acted.append(self.unique_id)
                return 1
        else:
            @state(default=True)
            def only(self):
                acted.append(self.unique_id)
                return 1

    class M(Environment):
        schedule_class = KINDS[kind]
    g = nx.path_graph(6)
    m = M(topology=g)
    how = rng.choice(["populate", "add", "node"]) if base in (NetworkAgent, Agent) else "add"
    if how == "populate":
        m.populate_network([D])
    else:
        for u in range(6):
            if how == "add":
                m.add_agent(D, unique_id=u)
            else:
                m.add_agent(D, unique_id=u, node_id=u)
    live = sorted(set(range(6)) - doomed)
    same(sorted(a.unique_id for a in m.schedule.agents), live, "agents of the model", "C05")
    same(sorted(a.unique_id for a in m.get_agents()), live, "agents found", "C05")
    if base in (NetworkAgent, Agent):
        same(len(m.G), 6 - len(doomed) if how != "add" else len(m.G), "nodes", "C05")
        same(sorted(a.unique_id for a in m.network_agents), live, "agents in the network", "C05")
    for _ in range(4):
        if m.running:
            m.step()
    check(not (set(acted) & doomed), f"dead agents acted: {set(acted) & doomed}", "C05")
    same(sorted(set(acted)), live, "agents that acted", "C05")
