"""Contracts of the priority queue, the lockstep wrapper and delays (soil/time.py)"""
from .base import *
from .c_time import SAgent, agent_outcome
import soil.time as T
from soil.agents import BaseAgent
from mesa.time import BaseScheduler


# ------------------------------------------------------------------ priority queue


@contract("C01 C03 C04 C25", ["PQueueActivation._schedule"],
          assumes=["heapq: heappush adds the entry, heappop removes the least one (standard library)"])
def pqueue_schedule(ctx):
    """
    ensures  exactly one entry is added to the heap: for the agent, at the requested time (or now), and with its id
             (or, when shuffling, one draw of the generator of the model) to break ties
    """
    need(T.PQueueActivation, "_schedule")
    need(T, "heappush")
    now = real("now")
    assume(now.v >= 0)
    log = Log()
    draw = real("draw")
    shuffle = choice("shuffle", [False, True])
    queue = Stub("heap")

    def rnd():
        log.add("draw")
        return draw

    def push(q, entry):
        log.add("push", q is queue, entry)

    model = Stub("model", random=Stub("model.random", random=rnd))
    s = make(T.PQueueActivation, "scheduler", time=now, _queue=queue, model=model, _shuffle=shuffle)
    agent = Stub("agent", unique_id=integer("unique_id"))
    when = None
    if choice("when", ["given", "none"]) == "given":
        when = real("when")
        assume(when.v >= now.v)
    w = when if when is not None else now
    with patched((T, "heappush", push)):
        out = call(s._schedule, agent, when)
    if not returned(out, "the agent is scheduled without errors"):
        return
    cover("scheduled")
    prove(equal(s.time, now), "scheduling does not change the clock")
    evs = log.segs
    pushes = [e for e in evs if e[0] == "push"]
    draws = [e for e in evs if e[0] == "draw"]
    if len(pushes) != 1 or not pushes[0][1]:
        fail("exactly one entry is added to the heap", evs)
        return
    try:
        (t, tie), a = pushes[0][2]
    except (TypeError, ValueError):
        raise NotApplicable("unknown kind of entry")
    prove(z3.BoolVal(a is agent), "the entry is for the agent")
    prove(equal(t, w), "the entry is for the requested time")
    if shuffle:
        prove(z3.BoolVal(len(draws) == 1), "one draw of the generator of the model")
        prove(equal(tie, draw), "ties are broken by the generator of the model")
    else:
        prove(z3.BoolVal(not draws), "no draw is used without shuffling")
        prove(equal(tie, agent.unique_id), "ties are broken by the id of the agent")


class Heap(L.Tracked):
    """
    Heap as seen by step(): agents and _schedule may change it, so that all that is known afterwards is the
    invariant (no entry is in the past).
    """

    def __init__(self, now, step, log):
        self.now, self.stepf, self.log = now, step, log
        self.version = 0
        self.cache = None
        self.vc_register("heap")

    def vc_state(self):
        return (self.version > 0,)

    def vc_changes(self, loop, st, now):
        yield "version", "volatile", []

    def vc_install(self, loop, st, modes, i, summary, ix):
        self.change()

    def change(self):
        self.version += 1
        self.cache = None

    def get(self):
        if self.cache is None:
            c = E.CTX
            ne = c.fresh("pending", z3.BoolSort())
            h = c.fresh("earliest", z3.RealSort())
            tie = c.fresh("tie", z3.RealSort())
            pos = c.fresh("who", z3.IntSort())
            c.assume(h >= self.now.v)
            self.cache = (ne, ((SymNum(h), SymNum(tie)), SAgent(pos, self.stepf)))
        return self.cache

    def __bool__(self):
        return E.CTX.branch(self.get()[0])

    def vc_len(self):
        raise Unsupported("length of the heap")

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported(f"heap[{k}]")
        ne, top = self.get()
        if not E.CTX.branch(ne):
            raise IndexError("list index out of range")
        return top

    def pop(self):
        ne, top = self.get()
        if not E.CTX.branch(ne):
            raise IndexError("index out of range")
        self.log.add("pop", top[1], top[0][0])
        self.change()
        return top

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"heap.{k}")


@contract("C01 C02 C04 C05 C06", ["PQueueActivation.step"],
          assumes=["heapq: heappush adds the entry, heappop removes the least one (standard library)",
                   "agents only change the queue through the scheduler's add (client obligation)"])
def pqueue_step(ctx):
    """
    requires  no entry of the heap is in the past; agents may do anything, but they leave the heap so
    ensures   only entries for the current time are taken out, the agent of each one is activated exactly once, with
              the clock at that time, and it is scheduled again for now plus its delay (or the default interval),
              unless it is infinite or the agent is dead; a negative delay is an error; in the end, nothing is pending
              for the current time, and the clock moves to the earliest one, or to infinity (and the model stops)
    """
    need(T.PQueueActivation, "_schedule", "step")
    need(T, "heappop")
    now = xreal("now")
    D = real("default_interval")
    assume(z3.And(z3.Or(now.inf, now.v >= 0), D.v > 0))
    log = Log()
    kindf = ctx.func("kind", z3.IntSort(), z3.IntSort())
    retf = ctx.func("ret", z3.IntSort(), z3.RealSort())
    steps = integer("steps")
    running = boolean("running")
    model = make(Stub, "model", running=running, random=Stub("model.random"), _label="model", _absent=())
    s = make(T.PQueueActivation, "scheduler", time=now, model=model, default_interval=D, steps=steps, _shuffle=False,
             next_time=now, logger=Logger())
    heap = None
    # every activation is different
    count = [0]

    def step(agent):
        c = E.CTX
        log.add("step", agent, s.time)
        heap.change()
        k = c.fresh("kind", z3.IntSort())
        if c.branch(k == 0):
            log.add("outcome", "none", None)
            return None
        if c.branch(k == 1):
            r = SymNum(c.fresh("ret", z3.RealSort()))
            log.add("outcome", "number", r)
            return r
        if c.branch(k == 2):
            log.add("outcome", "never", None)
            return INF
        if c.branch(k == 3):
            log.add("outcome", "dead", None)
            raise T.DeadAgent("dead")
        log.add("outcome", "error", None)
        raise External("some error in the agent")

    heap = Heap(now, step, log)
    s._queue = heap
    finite = ctx.branch(z3.Not(now.inf))

    def _schedule(self, agent, when=None, replace=False):
        if replace is not False:
            raise NotApplicable("replace")
        w = when if when is not None else now
        log.add("schedule", agent, w)
        prove(z3.And(now.le(w), num(w).lt(INF)), "agents are never scheduled in the past or at infinity")
        heap.change()

    def activation(evs, complete=True):
        """The events of one activation"""
        if not evs or evs[0][0] != "pop":
            fail("every activation takes the entry of the agent out of the queue", evs)
            return
        if len(evs) < 3 or evs[1][0] != "step" or evs[2][0] != "outcome":
            fail("the agent of every entry that is taken out is activated", evs)
            return
        a, t = evs[0][1:]
        prove(equal(t, now), "activated at the time for which they were scheduled")
        prove(z3.And(equal(evs[1][1], a), equal(evs[1][2], now)), "the agent is activated with the clock at its time")
        kind, r = evs[2][1:]
        rest = evs[3:]
        if kind == "number":
            if ctx.branch(r.v == 0):
                kind = "none"
            elif ctx.branch(r.v < 0):
                prove(z3.BoolVal(not complete and not rest), "a request in the past is rejected")
                return
        if kind in ("never", "dead", "error"):
            prove(z3.BoolVal(not rest), "agents that are dead, or that never want to be activated again, are dropped")
            return
        if len(rest) != 1 or rest[0][0] != "schedule":
            fail("the agent is scheduled again, once", rest)
            return
        prove(z3.And(equal(rest[0][1], a), equal(rest[0][2], now + D if kind == "none" else now + r)),
              "the agent is scheduled for its requested time")

    log.check_iteration = lambda loop, evs: activation(evs)

    def pop(h):
        if h is not heap:
            raise NotApplicable("another heap")
        return heap.pop()

    with patched((T.PQueueActivation, "_schedule", _schedule), (T, "heappop", pop)):
        out = call(T.PQueueActivation.step, s)
    last = log.last()
    if L.bounded():
        # all the activations are in the same trace
        groups = []
        for e in last:
            if e[0] == "pop" or not groups:
                groups.append([])
            groups[-1].append(e)
        for g in groups[:-1]:
            activation(g)
        last = groups[-1] if groups else []
    if not out.ok:
        if isinstance(out.exc, External):
            cover("error in an agent")
            return
        if isinstance(out.exc, (AttributeError, NameError, TypeError)):
            raise NotApplicable(repr(out.exc)) from out.exc
        oc = [e for e in last if e[0] == "outcome"]
        if not oc or oc[-1][1] != "number":
            fail("errors are only for requests in the past", out.exc)
            return
        cover("request in the past")
        prove(oc[-1][2].v < 0, "errors are only for requests in the past")
        prove(z3.BoolVal(last[-1][0] == "outcome"), "an agent that asked for the past is not scheduled")
        return
    if not finite:
        prove(z3.And(equal(s.time, INF), z3.BoolVal(not log.segs)), "nothing happens after the end")
        cover("after the end")
        return
    if last:
        activation(last)
    ne, top = heap.get()
    if ctx.branch(ne):
        cover("pending")
        prove(now.lt(top[0][0]), "all the agents due are activated")
        prove(equal(s.time, top[0][0]), "the clock moves to the earliest pending activation")
        prove(E.truth(s.model.running) == running.e, "the model keeps running while there are pending activations")
    else:
        cover("nothing pending")
        prove(equal(s.time, INF), "the clock is at infinity if nothing is pending")
        prove(z3.Not(E.truth(s.model.running)), "the model stops if nothing is pending")
    prove(equal(s.steps, steps + 1), "one step is counted")


# ------------------------------------------------------------------ interval, delays


@contract("C01", ["DiscreteActivation.__init__", "TimedActivation.__init__", "OrderedTimedActivation.__init__",
                  "ShuffledTimedActivation.__init__", "PQueueActivation.__init__"],
          assumes=["mesa.time.BaseScheduler.__init__ sets the clock and the number of steps to zero (mesa)"])
def scheduler_init(ctx):
    """ensures  an empty queue, at time zero; the default interval is the one of the model, if it has any, or else 1"""
    cls = choice("class", [T.TimedActivation, T.OrderedTimedActivation, T.ShuffledTimedActivation, T.PQueueActivation])
    need(cls, "_schedule")
    D = real("interval of the model")
    given = choice("interval", [True, False])
    attrs = dict(default_interval=D) if given else {}
    model = Stub("model", absent=("default_interval", "schedule"), logger=Logger(), **attrs)

    def init(self, model):
        self.model, self.steps, self.time = model, 0, 0

    s = make(cls, "scheduler")
    with patched((BaseScheduler, "__init__", init)):
        out = call(cls.__init__, s, model)
    if not returned(out, "the scheduler is created without errors"):
        return
    cover("created")
    prove(equal(s.default_interval, D if given else 1), "default interval")
    prove(equal(s.time, 0), "the clock starts at zero")
    if hasattr(s, "_queue"):
        q = s._queue
        prove(z3.BoolVal(len(q) == 0), "the queue is empty")
    if hasattr(s, "_shuffle"):
        prove(z3.BoolVal(bool(s._shuffle) == (cls is not T.OrderedTimedActivation)), "only the ordered scheduler does not shuffle")


@contract("C01 C08 C09", ["Delay.__init__", "Delay.__float__", "Delay.__await__", "BaseAgent.at", "BaseAgent.delay"])
def delays(ctx):
    """
    ensures  a delay object stands for the given number of units from now (and at(t), for t - now); awaiting for it
             pauses exactly once, with that number
    """
    now = real("now")
    assume(now.v >= 0)
    a = make(BaseAgent, "agent", model=Stub("model", now=now))
    k = choice("kind", ["Delay", "delay", "delay()", "at"])
    if k == "Delay":
        d = xreal("delay")
        out = call(T.Delay, d)
    elif k == "delay":
        d = xreal("delay")
        out = call(a.delay, d)
    elif k == "delay()":
        d = 1
        out = call(a.delay)
    else:
        t = xreal("when")
        out = call(a.at, t)
        d = t - now
    if not returned(out, "no errors"):
        return
    cover(k)
    v = out.value
    prove(equal(rt.vfloat(v), d), "length of the delay")
    if not hasattr(v, "__await__"):
        return
    it = v.__await__()
    out = call(lambda: next(it))
    if not returned(out, "pauses when awaited for"):
        return
    prove(equal(rt.vfloat(out.value), d), "pauses for the length of the delay")
    try:
        it.send(None)
    except StopIteration:
        return
    fail("pauses exactly once")


# ------------------------------------------------------------------ lockstep


class Inner(L.Tracked):
    """Wrapped scheduler: its clock moves forward in any way with each step"""

    def __init__(self, t0, on_step):
        self._t = t0
        self._on_step = on_step
        self._dirty = False
        self.vc_register("wrapped scheduler")

    def vc_state(self):
        return (self._dirty,)

    def vc_changes(self, loop, st, now):
        yield "time", "volatile", []

    def vc_install(self, loop, st, modes, i, summary, ix):
        self.change()

    def change(self):
        c = E.CTX
        self._dirty = True
        v, f = c.fresh("clock", z3.RealSort()), c.fresh("clock_inf", z3.BoolSort())
        self._t = SymNum(v, f)

    @property
    def time(self):
        return self._t

    def step(self):
        self._on_step(self._t)
        self.change()
        return None

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"the wrapper uses scheduler.{k}")


@contract("C07", ["Lockstepper.step", "Lockstepper.__init__"],
          assumes=["the contract of the wrapped scheduler: a step performs all the activations of the current time, and moves its clock to the next one"])
def lockstep(ctx):
    """
    ensures  the own clock advances by exactly the interval, and one step is counted; the wrapped scheduler performs its
             steps while its clock is before the end of the interval, and none after that
    """
    t0 = real("clock")
    D = real("interval")
    inner0 = xreal("clock of the wrapped scheduler")
    assume(z3.And(t0.v >= 0, D.v > 0))
    end = t0 + D
    steps = integer("steps")

    def on_step(t):
        prove(t.lt(end), "no activation takes place at or after the end of the interval")
        cover("inner step")

    inner = Inner(inner0, on_step)
    if choice("what", ["init", "step"]) == "init":
        w = make(T.Lockstepper, "wrapper")
        how = choice("interval", ["given", "default"])
        out = call(T.Lockstepper.__init__, w, inner, **(dict(interval=D) if how == "given" else {}))
        if returned(out, "created without errors"):
            cover("created")
            prove(equal(w.time, inner0), "the clock starts at that of the wrapped scheduler")
            prove(equal(w.steps, 0), "no steps at the start")
            prove(equal(w.default_interval, D if how == "given" else 1), "interval")
        return
    w = make(T.Lockstepper, "wrapper", scheduler=inner, default_interval=D, time=t0, steps=steps)
    out = call(w.step)
    if not returned(out, "no errors"):
        return
    cover("step")
    prove(z3.Not(inner.time.lt(end)), "every activation before the end of the interval takes place")
    prove(equal(w.time, end), "the clock advances by the interval")
    prove(equal(w.steps, steps + 1), "one step is counted")
