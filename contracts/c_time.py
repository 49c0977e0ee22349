"""Contracts of the schedulers (soil/time.py)"""
from .base import *
import soil.time as T
from mesa.time import BaseScheduler


# ------------------------------------------------------------------ queue of buckets


class SymEntry:
    """(time, bucket) in position i of the queue"""
    _vc_symbolic = True

    def __init__(self, q, i):
        self.q, self.i = q, i

    def __getitem__(self, k):
        if k == 0 or k == -2:
            return SymNum(self.q.key(self.i))
        if k == 1 or k == -1:
            return SymBucketRef(self.q, self.i)
        raise IndexError(k)

    def __iter__(self):
        return iter((self[0], self[1]))

    def vc_len(self):
        return 2


class SymBucketRef:
    _vc_symbolic = True

    def __init__(self, q, i):
        self.q, self.i = q, i

    def append(self, x):
        self.q.ops.append(("append", self.i, x))

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"bucket.{k}")


class SymBucketQueue:
    """
    Queue in an arbitrary state that satisfies the invariant of the scheduler: the times are strictly
    increasing, and not in the past.
    """
    _vc_symbolic = True

    def __init__(self, now):
        c = E.CTX
        self.n = length("buckets")
        f = c.func("K", z3.IntSort(), z3.RealSort())
        self.key = f
        i, j = z3.Ints("i j")
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n), f(i) < f(j))))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), f(i) >= now.v)))
        self.ops = []

    def vc_iter(self):
        return SymSeq(self.n, lambda i: SymEntry(self, i), "queue")

    def vc_len(self):
        return SymNum(self.n)

    def __bool__(self):
        return E.CTX.branch(self.n > 0)

    def __getitem__(self, k):
        k = num(k)
        if E.CTX.branch(z3.Or(k.v < -self.n, k.v >= self.n)):
            raise IndexError("deque index out of range")
        return SymEntry(self, z3.If(k.v < 0, k.v + self.n, k.v))

    def insert(self, pos, x):
        self.ops.append(("insert", num(pos).v, x))

    def append(self, x):
        self.ops.append(("insert", self.n, x))

    def appendleft(self, x):
        self.ops.append(("insert", z3.IntVal(0), x))

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"queue.{k}")


@contract("C01 C02 C03 C04", ["TimedActivation._schedule"],
          assumes=["collections.deque: iteration in order, insert(i, x) shifts the items from i on (standard library)"])
def bucket_schedule(ctx):
    """
    requires  the times in the queue are strictly increasing, and 0 <= now <= when < infinity
    ensures   the list of agents for `when` is the old one (or an empty one) plus the agent, at its end;
              all the other lists are unchanged; the times in the queue are still strictly increasing
    """
    need(T.TimedActivation, "_schedule")
    now = real("now")
    assume(now.v >= 0)
    q = SymBucketQueue(now)
    s = make(T.TimedActivation, "scheduler", time=now, _queue=q, model=Stub("model"))
    agent = Stub("agent")
    kind = choice("when", ["given", "none"])
    when = None
    if kind == "given":
        when = real("when")
        assume(when.v >= now.v)
    w = when if when is not None else now
    extra = choice("replace", [(), (True,)])
    out = call(s._schedule, agent, when, *extra)
    if not returned(out, "the agent is scheduled without errors"):
        return
    cover("scheduled")
    prove(equal(s.time, now), "scheduling does not change the clock")
    if len(q.ops) != 1:
        fail("exactly one change in the queue", q.ops)
        return
    op, pos, x = q.ops[0]
    j = z3.Int("j")
    inq = lambda k: z3.And(0 <= k, k < q.n)
    if op == "append":
        cover("existing bucket")
        prove(z3.BoolVal(x is agent), "the agent is added to the bucket")
        prove(z3.And(inq(pos), q.key(pos) == w.v), "the agent is added to the bucket of the requested time")
    else:
        cover("new bucket")
        # position, as in deque.insert
        pos = z3.If(pos < 0, z3.If(pos + q.n < 0, z3.IntVal(0), pos + q.n), z3.If(pos > q.n, q.n, pos))
        try:
            key, bucket = x
            items = list(bucket)
        except (TypeError, ValueError):
            raise NotApplicable("unknown representation of buckets")
        prove(z3.BoolVal(len(items) == 1 and items[0] is agent), "the new bucket has just the agent")
        prove(equal(key, w), "the time of the new bucket is the requested one")
        k = ctx.fresh("k", z3.IntSort())
        prove(z3.Implies(z3.And(inq(k), k < pos), q.key(k) < w.v), "the previous buckets are for earlier times")
        prove(z3.Implies(z3.And(inq(k), k >= pos), q.key(k) > w.v), "the following buckets are for later times")


@contract("C03 C16", ["TimedActivation.add", "PQueueActivation.add"],
          assumes=["mesa.time.BaseScheduler.add registers the agent (mesa)"])
def add(ctx):
    """
    ensures  the agent is scheduled once, at the requested time (or now, if that has passed or is not given),
             and registered once
    """
    cls = choice("scheduler", [T.TimedActivation, T.PQueueActivation])
    need(cls, "_schedule", "add")
    now = real("now")
    assume(now.v >= 0)
    log = Log()
    s = make(cls, "scheduler", time=now, model=Stub("model"), _queue=Stub("queue"))

    def _schedule(self, agent, when=None, replace=False):
        w = when if when is not None else self.time
        log.add("schedule", agent, w)
        if not isinstance(w, (SymNum, int, float)):
            raise NotApplicable("unknown kind of time")
        prove(num(w).lt(INF), "agents are scheduled at a finite time")
        prove(now.le(w), "agents are never scheduled in the past")
        if replace is not False:
            prove(z3.Not(E.truth(replace)), "adding an agent does not replace the head of the queue")

    def base_add(self, agent):
        log.add("register", agent)

    agent = Stub("agent")
    when = choice("when", ["given", "none", "default"])
    with patched((cls, "_schedule", _schedule), (BaseScheduler, "add", base_add)):
        if when == "given":
            w = real("when")
            out = call(s.add, agent, w)
            expected = rt.max_(w, now)
        elif when == "none":
            out = call(s.add, agent, None)
            expected = now
        else:
            out = call(s.add, agent)
            expected = now
    if not returned(out, "the agent is added without errors"):
        return
    cover("added")
    prove(equal(s.time, now), "adding does not change the clock")
    evs = log.last()
    sch = [e for e in evs if e[0] == "schedule"]
    reg = [e for e in evs if e[0] == "register"]
    prove(z3.BoolVal(len(sch) == 1 and sch[0][1] is agent), "scheduled exactly once")
    prove(z3.BoolVal(len(reg) == 1 and reg[0][1] is agent), "registered exactly once")
    if len(sch) == 1:
        prove(equal(sch[0][2], expected), "first activation at the requested time, or now if it has passed")


# ------------------------------------------------------------------ step


class SAgent:
    """Agent in some position of a bucket. What its step does is arbitrary"""
    _vc_symbolic = True

    def __init__(self, pos, step):
        self.pos, self._step = pos, step

    def step(self):
        return self._step(self)

    def vc_equal(self, o):
        return self.pos == o.pos if isinstance(o, SAgent) else z3.BoolVal(False)

    def vc_subst(self, i, j):
        return SAgent(z3.substitute(self.pos, (i, j)), self._step)

    def vc_term(self):
        return self.pos

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        if k == "unique_id":
            return SymNum(z3.Function("unique_id", z3.IntSort(), z3.IntSort())(self.pos))
        raise Unsupported(f"the scheduler uses agent.{k}")

    def __repr__(self):
        return f"agent@{self.pos}"


class StepBucket(SymSeq):
    def __init__(self, n, item):
        super().__init__(n, item, "bucket")
        self.shuffled = 0


class QueueView(L.Tracked):
    """
    Queue as seen by step(): it may be changed by the agents and by _schedule, so everything that is known
    after that is the invariant.
    """

    def __init__(self, now, nonempty, head, bucket):
        self.now = now
        self.version = 0
        self.cache = {}
        self.nonempty0, self.head0, self.bucket = nonempty, head, bucket
        self.popped = False
        self.vc_register("queue")

    def vc_state(self):
        return (self.version > 0, self.popped)

    def vc_changes(self, loop, st, now):
        yield "version", "volatile", []

    def vc_install(self, loop, st, modes, i, summary, ix):
        self.change()

    def change(self):
        self.version += 1
        self.cache = {}

    def _get(self):
        if self.version == 0:
            return self.nonempty0, self.head0
        if not self.cache:
            c = E.CTX
            ne = c.fresh("pending", z3.BoolSort())
            h = c.fresh("earliest", z3.RealSort())
            c.assume(h >= self.now.v)
            self.cache = dict(ne=ne, h=h)
        return self.cache["ne"], SymNum(self.cache["h"])

    def __bool__(self):
        return E.CTX.branch(self._get()[0])

    def vc_len(self):
        raise Unsupported("length of the queue")

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported(f"queue[{k}]")
        ne, h = self._get()
        if not E.CTX.branch(ne):
            raise IndexError("deque index out of range")
        return (h, self.bucket if self.version == 0 else Poison_bucket())

    def popleft(self):
        ne, h = self._get()
        if not E.CTX.branch(ne):
            raise IndexError("pop from an empty deque")
        if self.version > 0:
            fail("only the bucket of this instant is taken out of the queue")
            raise Unsupported("second bucket")
        self.popped = True
        self.change()
        return (h, self.bucket)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"queue.{k}")


def Poison_bucket():
    return E.Poison("a bucket of a later instant")


def agent_outcome(log, sched, kindf, retf, inff, on_call=None):
    """Arbitrary behaviour of an agent: none, a number, infinity, an error, or being dead"""
    def step(agent):
        c = E.CTX
        log.add("step", agent, sched.time)
        if on_call:
            on_call()
        k = kindf(agent.pos)
        if c.branch(k == 0):
            return None
        if c.branch(k == 1):
            return SymNum(retf(agent.pos))
        if c.branch(k == 2):
            return INF
        if c.branch(k == 3):
            raise T.DeadAgent("dead")
        raise External("some error in the agent")
    return step


@contract("C01 C02 C04 C05 C06", ["TimedActivation.step"],
          assumes=["random.Random.shuffle permutes the list in place (standard library)",
                   "agents only change the queue through the scheduler's add (client obligation)"])
def bucket_step(ctx):
    """
    requires  the queue is sorted and not in the past; agents may do anything, but they leave the queue so
    ensures   nothing pending: nothing happens
              earliest time > now: only the clock moves, to it
              otherwise: every agent in the first bucket is activated once, in order (or in the order given by the
              generator of the model), with the clock at `now`; it is scheduled again for now plus its delay (or the
              default interval), unless it is infinite or the agent is dead; a negative delay is an error; then the
              clock moves to the earliest time, or to infinity (and the model stops) if there is none
    """
    need(T.TimedActivation, "_schedule", "step")
    now = real("now")
    D = real("default_interval")
    assume(z3.And(now.v >= 0, D.v > 0))
    nonempty = ctx.fresh("nonempty", z3.BoolSort())
    head = SymNum(ctx.input("earliest", ctx.fresh("head", z3.RealSort())))
    assume(head.v >= now.v)
    shuffle = choice("shuffle", [False, True])
    log = Log()
    n = length("agents due")
    assume(n > 0)
    perm = ctx.func("perm", z3.IntSort(), z3.IntSort())
    kindf = ctx.func("kind", z3.IntSort(), z3.IntSort())
    retf = ctx.func("ret", z3.IntSort(), z3.RealSort())
    steps = integer("steps")
    running = boolean("running")

    def do_shuffle(b):
        log.add("shuffle", b is bucket)
        if b is bucket:
            bucket.shuffled += 1
            base = bucket.item
            bucket.item = lambda i: base(perm(i))

    model = make(Stub, "model", running=running, random=Stub("model.random", shuffle=do_shuffle), _label="model", _absent=())
    queue = None
    s = make(T.TimedActivation, "scheduler", time=now, model=model, default_interval=D, steps=steps, _shuffle=shuffle,
             next_time=now, logger=Logger())
    step = agent_outcome(log, s, kindf, retf, None, lambda: queue.change())
    bucket = StepBucket(n, lambda i: SAgent(i, step))
    queue = QueueView(now, nonempty, head, bucket)
    s._queue = queue

    def _schedule(self, agent, when=None, replace=False):
        w = when if when is not None else now
        log.add("schedule", agent, w)
        prove(z3.And(now.le(w), num(w).lt(INF)), "agents are never scheduled in the past or at infinity")
        queue.change()

    with patched((T.TimedActivation, "_schedule", _schedule)):
        out = call(T.TimedActivation.step, s)

    k = lambda j: kindf(perm(j) if shuffle else j)
    pos = lambda j: perm(j) if shuffle else j
    agent = lambda j: SAgent(pos(j), step)

    def expected(hi):
        def parts(j):
            p = pos(j)
            st = ("step", agent(j), now)
            r = retf(p)
            return [
                (z3.Or(kindf(p) == 0, z3.And(kindf(p) == 1, r == 0)), [st, ("schedule", agent(j), now + D)]),
                (z3.And(kindf(p) == 1, r != 0), [st, ("schedule", agent(j), now + SymNum(r))]),
                (z3.Or(kindf(p) == 2, kindf(p) == 3), [st]),
                (z3.Or(kindf(p) < 0, kindf(p) > 3), [st]),
            ]
        return comp(0, hi, parts)

    head_ev = [("shuffle", True)] if shuffle else []
    evs = log.segs
    if not out.ok:
        if isinstance(out.exc, External):
            cover("error in an agent")
            return
        if isinstance(out.exc, (AttributeError, NameError, TypeError)):
            raise NotApplicable(repr(out.exc)) from out.exc
        # Rejected: only for a request in the past
        cover("request in the past")
        last = log.last()
        st = [e for e in last if e[0] == "step"]
        if not st:
            fail("errors are only for requests in the past", out.exc)
            return
        p = st[-1][1].pos
        prove(z3.And(kindf(p) == 1, retf(p) < 0), "errors are only for requests in the past")
        prove(z3.BoolVal(last[-1][0] == "step"), "an agent that asked for the past is not scheduled")
        return

    if not queue.popped:
        # Nothing to do at this instant
        prove(z3.BoolVal(not evs), "nobody is activated before its time")
        prove(z3.Or(z3.Not(nonempty), head.v > now.v), "all the agents due are activated")
        prove(z3.Or(z3.Not(nonempty), equal(s.time, head)), "the clock moves to the earliest pending activation")
        prove(z3.Implies(z3.Not(nonempty), z3.Or(equal(s.time, now), equal(s.time, INF))), "nothing pending, nothing happens")
        cover("nothing due")
        return
    prove(z3.And(nonempty, equal(head, now)), "activated at the time for which they were scheduled")
    prove_seq(log, head_ev + [expected(n)],
              "every agent due is activated exactly once, in order, and scheduled for its requested time")
    if queue.version == 0:
        fail("the bucket is taken out of the queue")
        return
    ne, h = queue._get()
    if ctx.branch(ne):
        cover("pending")
        prove(equal(s.time, h), "the clock moves to the earliest pending activation")
        prove(E.truth(s.model.running) == running.e, "the model keeps running while there are pending activations")
    else:
        cover("nothing pending")
        prove(equal(s.time, INF), "the clock is at infinity if nothing is pending")
        prove(z3.Not(E.truth(s.model.running)), "the model stops if nothing is pending")
    prove(equal(s.steps, steps + 1), "one step is counted")
