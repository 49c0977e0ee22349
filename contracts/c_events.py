"""Contracts of messages (soil/environment.py, soil/agents/evented.py, soil/events.py)"""
from .base import *
import soil.agents as A
import soil.events as EV
from soil.agents import BaseAgent, EventedAgent, AgentView
from soil.agents import evented as AE
from soil import environment as ENV
from .c_query import Population, SomeAgent

I = z3.IntSort()
B = z3.BoolSort()


class Recipient(SomeAgent):
    """An agent that may have an inbox: what is added to it is logged"""

    def __getattr__(self, k):
        if k == "_inbox":
            if E.CTX.branch(self.pop.inbox(self.i)):
                return Inbox(self)
            raise AttributeError(k)
        return super().__getattr__(k)

    def vc_subst(self, i, j):
        return Recipient(self.pop, z3.substitute(self.i, (i, j)))

    def vc_hasattr(self, k):
        raise Unsupported("symbolic attribute name")


def describe(msg):
    """Contents of a message"""
    return (type(msg).__name__, msg.payload, msg.sender, msg.expiration)


class Inbox:
    _vc_symbolic = True

    def __init__(self, agent):
        self.agent = agent

    def append(self, msg):
        self.agent.pop.log.add("append", self.agent, *describe(msg))

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"inbox.{k}")


@contract("C13", ["EventedEnvironment.broadcast", "AgentView.__call__", "BaseEnvironment.get_agents"],
          assumes=["filter_agents (its contract): the agents that match the criteria, each once",
                   "agents are told apart by ==, which compares them as mappings (collections.abc)"])
def broadcast(ctx):
    """
    ensures  exactly one message is added to the inbox of each agent that matches and has an inbox, except the sender, with the
             given payload and sender, and the expiration (or now plus the time to live); nothing else is added anywhere
    """
    need(A, "filter_agents")
    pop = Population(ctx)
    pop.inbox = ctx.func("has_inbox", I, B)
    pop.log = Log("messages")
    m = length("matching agents")
    sel = ctx.func("match", I, I)
    j = z3.Int("j")
    assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= sel(j), sel(j) < pop.n))))
    now = real("now")
    agents = SymSeq(pop.n, lambda i: Recipient(pop, i), "agents")
    env = make(ENV.Environment, "model", schedule=Stub("schedule", agents=agents, time=now), logger=Logger())
    calls = []

    def filt(ag, *args, **kw):
        calls.append((ag, args, kw))
        yield from rt.yield_all(SymSeq(m, lambda i: Recipient(pop, sel(i)), "matching agents"))

    payload = opaque("payload")
    color = opaque("color")
    kw = dict(color=color)
    who = choice("sender", ["nobody", "an agent", "somebody else"])
    s = ctx.input("position of the sender", ctx.fresh("sender", I))
    sender = None
    if who == "an agent":
        assume(z3.And(0 <= s, s < pop.n))
        sender = Recipient(pop, s)
        kw["sender"] = sender
    elif who == "somebody else":
        sender = kw["sender"] = "outside"
    exp, ttl = None, None
    if choice("expiration", [False, True]):
        exp = kw["expiration"] = real("expiration")
    if choice("time to live", [False, True]):
        ttl = kw["ttl"] = real("time to live")
    with patched((A, "filter_agents", filt)):
        out = call(env.broadcast, payload, **kw)
    if not returned(out, "no errors"):
        return
    cover("sent")
    if len(calls) != 1:
        raise NotApplicable(f"{len(calls)} queries")
    prove(z3.BoolVal(calls[0][0] is agents and not calls[0][1] and list(calls[0][2]) == ["color"] and calls[0][2]["color"] is color), "the recipients are those that match the criteria")
    expiration = exp if ttl is None else now + ttl

    def parts(i):
        g = pop.inbox(sel(i))
        if who == "an agent":
            g = z3.And(g, sel(i) != s)
        return [(g, [("append", Recipient(pop, sel(i)), "Tell", payload, sender, expiration)]), (z3.Not(g), [])]
    prove_seq(pop.log, [comp(0, m, parts)], "exactly one copy for each recipient")


class Queue(L.Tracked):
    """
    Inbox of the agent: messages [head, m) out of m that were there, and an unknown number of those that arrived later
    """

    def __init__(self, m, message, log):
        self.m, self.message, self.log = m, message, log
        self.head = SymNum(z3.IntVal(0))
        self.dirty = False
        self.extra = None
        self.vc_register("inbox")

    def vc_state(self):
        return {"head": self.head, "dirty": self.dirty}

    def vc_changes(self, loop, st, now):
        if not E.same_state(st["head"], now["head"]):
            yield "head", "value", (st["head"], now["head"])
        if st["dirty"] != now["dirty"]:
            yield "dirty", "volatile", []

    def vc_install(self, loop, st, modes, i, summary, ix):
        if "head" in modes:
            self.head = loop.value_at(modes["head"], st["head"], i, "messages taken", ("heap", ix, "head"))
        if "dirty" in modes:
            self.arrive()

    def arrive(self):
        """Any number of messages arrive"""
        self.dirty = True
        self.extra = None

    def more(self):
        if not self.dirty:
            return z3.IntVal(0)
        if self.extra is None:
            self.extra = E.CTX.fresh("arrived", I)
            E.CTX.assume(self.extra >= 0)
        return self.extra

    def left(self):
        return self.m - self.head.v + self.more()

    def vc_len(self):
        return SymNum(z3.simplify(self.left()))

    def __bool__(self):
        return E.CTX.branch(self.left() > 0)

    def popleft(self):
        if E.CTX.branch(self.head.v < self.m):
            v = self.message(self.head.v)
            self.head = SymNum(z3.simplify(self.head.v + 1))
            return v
        if E.CTX.branch(self.more() > 0):
            fail("messages that arrive while processing stay in the inbox")
            raise Unsupported("new message taken")
        raise IndexError("pop from an empty deque")

    def vc_list(self):
        if self.dirty:
            raise Unsupported("copy of the inbox once new messages have arrived")
        lo = self.head.v
        return VList([Comp(z3.simplify(lo), self.m, lambda j: [(z3.BoolVal(True), [self.message(j)])])], "copy of the inbox")

    def copy(self):
        return self.vc_list()

    def vc_iter(self):
        if self.dirty or not z3.simplify(self.head.v).eq(z3.IntVal(0)):
            raise Unsupported("iteration over a changing inbox")
        return SymSeq(self.m, self.message, "inbox")

    def clear(self):
        prove(self.more() == 0, "messages that arrive while processing stay in the inbox")
        self.head = SymNum(self.m)

    def append(self, msg):
        self.log.add("append", *describe(msg))

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"inbox.{k}")


class Payload:
    """Payload of the i-th message"""
    _vc_symbolic = True

    def __init__(self, i):
        self.i = i

    def vc_term(self):
        return self.i

    def vc_subst(self, a, b):
        return Payload(z3.substitute(self.i, (a, b)))

    def vc_equal(self, o):
        return self.i == o.i if isinstance(o, Payload) else z3.BoolVal(False)

    def __bool__(self):
        return E.CTX.branch(z3.Function("the payload is true", I, B)(self.i))

    def __repr__(self):
        return f"payload@{self.i}"


class Msg:
    """The i-th message. The real code of expired() is used"""
    _vc_symbolic = True

    def __init__(self, w, i):
        self.__dict__.update(w=w, i=i)

    def __getattr__(self, k):
        w, i = self.w, self.i
        if k == "payload":
            return Payload(i)
        if k == "sender":
            return Opaque(w.sender(i), "sender")
        if k == "expiration":
            if E.CTX.branch(w.has_exp(i)):
                return SymNum(w.exp(i))
            return None
        if k == "timestamp":
            return SymNum(w.stamp(i))
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"message.{k}")

    def expired(self, when):
        return EV.Message.expired(self, when)

    def __setattr__(self, k, v):
        self.w.log.add("set " + k, self, v)

    def vc_isinstance(self, cls):
        if cls is EV.Ask:
            return SymBool(self.w.ask(self.i))
        if cls is EV.Tell:
            return SymBool(z3.Not(self.w.ask(self.i)))
        return cls in (EV.Message, object)

    def vc_term(self):
        return self.i

    def vc_subst(self, a, b):
        return Msg(self.w, z3.substitute(self.i, (a, b)))

    def vc_equal(self, o):
        return self.i == o.i if isinstance(o, Msg) else z3.BoolVal(False)

    def __repr__(self):
        return f"message@{self.i}"


class World:
    pass


class Ev(EventedAgent):
    def step(self):
        return 1


@contract("C14", ["EventedAgent.process_messages", "Message.expired"],
          assumes=["collections.deque: popleft removes the first item, append adds at the end (standard library)",
                   "handlers only add messages to the inbox (they do not take them)"])
def process(ctx):
    """
    requires  any number of messages in the inbox, of any kind; the handler may send any number of messages to the same agent
    ensures   every message is taken; those that have not expired are handled exactly once, in order, and returned; the result of
              handling a question is its reply; those that arrive are left in the inbox
    """
    w = World()
    w.log = log = Log("handled")
    w.sender, w.has_exp, w.exp = ctx.func("sender", I, Val), ctx.func("has_expiration", I, B), ctx.func("expiration", I, z3.RealSort())
    w.ask, w.stamp = ctx.func("is_ask", I, B), ctx.func("timestamp", I, z3.RealSort())
    answer = ctx.func("answer", I, Val)
    m = length("messages")
    now = real("now")
    q = Queue(m, lambda i: Msg(w, i), log)
    a = make(Ev, "agent", model=Stub("model", now=now, logger=Logger()), _inbox=q, _processed=integer("processed before"), alive=True, unique_id=1)

    def on_receive(payload, sender=None, **kw):
        if not isinstance(payload, Payload):
            raise NotApplicable("unknown payload")
        log.add("handled", payload, sender)
        if isinstance(a._inbox, Queue):
            a._inbox.arrive()
        return Opaque(answer(payload.i), "answer")

    a.__dict__["on_receive"] = on_receive
    new = []

    def mkdeque(it=()):
        if it != ():
            raise Unsupported("deque of something")
        new.append(Queue(z3.IntVal(0), None, log))
        return new[-1]

    with patched((AE, "deque", mkdeque)):
        out = call(a.process_messages)
    if not returned(out, "no errors"):
        return
    cover("processed")
    expired = lambda i: z3.And(w.has_exp(i), w.exp(i) < now.v)

    def handled(i):
        h = ("handled", Payload(i), Opaque(w.sender(i), "sender"))
        return [(expired(i), []),
                (z3.And(z3.Not(expired(i)), w.ask(i)), [h, ("set reply", Msg(w, i), Opaque(answer(i), "answer"))]),
                (z3.And(z3.Not(expired(i)), z3.Not(w.ask(i))), [h])]
    prove_seq(log, [comp(0, m, handled)], "every message is handled once and in order, unless expired, and questions are replied")
    if isinstance(a._inbox, Queue):
        if a._inbox is q:
            prove(equal(q.head, SymNum(m)), "every message is taken out of the inbox")
        else:
            prove(z3.BoolVal(a._inbox in new), "a new inbox")
    else:
        raise NotApplicable("unknown inbox")
    if not isinstance(out.value, VList):
        raise NotApplicable("result")
    prove_seq(out.value, [comp(0, m, lambda i: [(expired(i), []), (z3.Not(expired(i)), [Msg(w, i)])])], "the messages handled are returned")


@contract("C13", ["EventedAgent.tell", "EventedAgent.__init__"], assumes=["BaseAgent.__init__ (its contract)"])
def telling(ctx):
    """ensures  exactly that message is added at the end of the inbox; the inbox of a new agent is empty, and its own"""
    now = real("now")
    if choice("what", ["tell", "init"]) == "tell":
        log = Log("messages")
        q = Queue(length("messages"), lambda i: Opaque(ctx.func("m", I, Val)(i)), log)
        a = make(Ev, "agent", model=Stub("model", now=now), _inbox=q, alive=True, unique_id=1)
        payload = opaque("payload")
        s = choice("sender", [None, "given"])
        sender = opaque("sender") if s else None
        out = call(a.tell, payload, **(dict(sender=sender) if s else {}))
        if not returned(out, "no errors"):
            return
        cover("told")
        prove_seq(log, [("append", "Tell", payload, sender, None)], "exactly that message is added at the end")
        prove(equal(q.head, 0), "the messages that were there are kept")
        prove(z3.BoolVal(a._inbox is q), "the messages that were there are kept")
        return
    ags = [make(Ev, f"agent {k}") for k in (1, 2)]
    args = []

    def init(self, *a, **k):
        args.append((self, a, k))
    with patched((BaseAgent, "__init__", init)):
        for g in ags:
            out = call(EventedAgent.__init__, g, model=1, unique_id=2, color=3)
            if not returned(out, "no errors"):
                return
    cover("created")
    prove(z3.BoolVal(len(args) == 2 and all(a == () and k == dict(model=1, unique_id=2, color=3) for _, a, k in args)), "the arguments are those given")
    prove(z3.BoolVal(all(len(g._inbox) == 0 for g in ags) and ags[0]._inbox is not ags[1]._inbox), "an empty inbox of its own")


class Surroundings(L.Tracked):
    """What changes between activations: the clock, the inbox and the reply"""

    def __init__(self, now):
        self.now = now
        self.dirty = False
        self.cache = {}
        self.vc_register("surroundings")

    def vc_state(self):
        return (self.dirty,)

    def vc_changes(self, loop, st, now):
        yield "all", "volatile", []

    def vc_install(self, loop, st, modes, i, summary, ix):
        self.change()

    def change(self):
        self.dirty = True
        self.cache = {}
        self.now = SymNum(E.CTX.fresh("now", z3.RealSort()))

    def get(self, k, sort):
        if k not in self.cache:
            self.cache[k] = E.CTX.fresh(k, sort)
        return self.cache[k]


class VolatileInbox:
    _vc_symbolic = True

    def __init__(self, w, log):
        self.w, self.log = w, log
        self.copy_ = VList([], "copy of the inbox")

    def __bool__(self):
        return E.CTX.branch(self.w.get("messages", B))

    def vc_len(self):
        n = self.w.get("number", I)
        E.CTX.assume(z3.And(n >= 0, (n > 0) == self.w.get("messages", B)))
        return SymNum(n)

    def vc_list(self):
        return self.copy_

    def append(self, msg):
        self.log.add("append", *describe(msg))

    def __contains__(self, msg):
        return E.CTX.branch(z3.And(self.w.get("messages", B), self.w.get("the message is in the inbox", B)))

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"inbox.{k}")


def waiting(ctx, gen, w, delay, deadline, arrived, check):
    """
    Drive a coroutine that waits: in each activation, it ends with a timeout if the deadline has been reached; or else with the
    result, if it has arrived; or else it pauses for the given delay
    """
    while True:
        try:
            v = next(gen)
            kind = "pause"
        except StopIteration as ex:
            v, kind = ex.value, "result"
        except EV.TimedOut:
            kind = "timeout"
        except (TypeError, AttributeError, NameError) as ex:
            raise NotApplicable(f"{type(ex).__name__}: {ex}") from ex
        except Exception as ex:
            fail("no other errors", repr(ex))
            return
        late = z3.Not(w.now.lt(deadline))
        if kind == "timeout":
            cover("timeout")
            prove(late, "there is a timeout only once the expiration is reached")
            return
        prove(z3.Not(late), "there is a timeout once the expiration is reached")
        if kind == "result":
            cover("result")
            prove(arrived(), "it resumes only when there is something")
            check(v)
            return
        cover("pause")
        prove(z3.Not(arrived()), "it resumes as soon as there is something")
        prove(equal(rt.vfloat(v), delay), "it checks again after the given delay")
        w.change()


def times(ctx, now, default, explicit_none=False):
    """Arguments about the time, and the deadline"""
    kw = {}
    exp = choice("expiration", [False, True])
    to = choice("timeout", [False, True])
    if exp:
        kw["expiration"] = xreal("expiration")
    if to:
        kw["timeout"] = real("timeout")
    if exp:
        deadline = kw["expiration"]
    elif to:
        deadline = now + kw["timeout"]
    else:
        deadline = INF if default is None else now + default
    delay = 1
    if choice("delay", [False, True]):
        delay = kw["delay"] = real("delay")
    return kw, num(deadline), delay


@contract("C15", ["EventedAgent.received"], assumes=["process_messages (its contract)", "types.coroutine (standard library)"])
def received(ctx):
    """
    ensures  in each activation: a timeout if the expiration (or else now plus the timeout) has been reached; the messages, if there
             is any; or else, a pause for the given delay
    """
    now0 = real("now")
    w = Surroundings(now0)
    log = Log("messages")

    class M:
        now = property(lambda self: w.now)
        logger = Logger()

    box = VolatileInbox(w, log)
    a = make(Ev, "agent", model=M(), _inbox=box, alive=True, unique_id=1)
    kw, deadline, delay = times(ctx, now0, 60)
    proc = True
    if choice("process", ["default", "given"]) == "given":
        proc = kw["process"] = choice("process them", [True, False])
    result = opaque("messages")
    count = []

    def process_messages():
        count.append(1)
        return result

    a.__dict__["process_messages"] = process_messages

    def check(v):
        if proc:
            prove(z3.BoolVal(v is result and len(count) == 1), "the messages are processed once")
        else:
            prove(z3.BoolVal(v is box.copy_ and not count), "the messages, without processing them")

    gen = a.received(**kw)
    waiting(ctx, gen, w, delay, deadline, lambda: w.get("messages", B), check)
    prove(z3.BoolVal(not log.plain() or not log.segs), "no message is added")


@contract("C15", ["EventedAgent.ask"], assumes=["types.coroutine (standard library)"])
def asking(ctx):
    """
    ensures  one question is added to the inbox, before anything else; in each activation: a timeout if the expiration (or else now plus
             the timeout, if any) has been reached; the reply, if it is not None; or else, a pause for the given delay
    """
    now0 = real("now")
    w = Surroundings(now0)
    log = Log("messages")

    class M:
        now = property(lambda self: w.now)
        logger = Logger()

    real_ask = AE.Ask

    class SomeAsk(real_ask):
        @property
        def reply(self):
            r = w.get("reply", Val)
            if E.CTX.branch(r == Val.none):
                return None
            return Opaque(r, "reply")

    SomeAsk.__name__ = real_ask.__name__
    box = VolatileInbox(w, log)
    a = make(Ev, "agent", model=M(), _inbox=box, alive=True, unique_id=1)
    kw, deadline, delay = times(ctx, now0, None)
    payload = opaque("question")

    def check(v):
        prove(z3.BoolVal(isinstance(v, Opaque)) if not isinstance(v, Opaque) else v.e == w.get("reply", Val), "the reply is returned")

    with patched((AE, "Ask", SomeAsk)):
        gen = a.ask(payload, **kw)
        waiting(ctx, gen, w, delay, deadline, lambda: w.get("reply", Val) != Val.none, check)
    evs = [e for e in log.segs]
    if not log.plain():
        raise NotApplicable("messages sent in the loop")
    prove(z3.BoolVal(len(evs) == 1 and evs[0][:2] == ("append", "Ask") and evs[0][2] is payload), "one question is asked")
