"""Messages"""
import networkx as nx
from .base import scenario, check, same, raises, note, Skip
from .s_sched import KINDS
from .s_net import Plain
from soil import Environment, events
from soil.agents import BaseAgent, EventedAgent, Agent, state, FSM, NetworkAgent
from soil.events import TimedOut

INF = float("inf")


class Listener(EventedAgent):
    color = "red"

    def step(self):
        return 1


class Talker(Listener):
    pass


def contents(a):
    return [(m.payload, m.sender, m.expiration) for m in a._inbox]


@scenario("C13")
def broadcast(rng):
    m = Environment(seed=rng.random(), topology=nx.path_graph(6))
    ags = []
    for _ in range(rng.size(1, 8, cap=80)):
        cls = rng.choice([Listener, Talker, Plain])
        ags.append(m.add_agent(cls, color=rng.choice(["red", "blue"])))
    for _ in range(rng.choice([0, 0, 1])):
        if len(ags) > 1:
            ags.pop(rng.randrange(len(ags))).die()
    m.schedule.time = rng.number([0, 1, 2.5, 7, 0.1], lo=0)
    model_box = {a.unique_id: [] for a in ags}
    note([(a.unique_id, type(a).__name__, a.color if hasattr(a, "color") else None) for a in ags], "now", m.now)
    for k in range(rng.size(1, 6)):
        op = rng.choice(["broadcast", "broadcast", "tell"])
        sender = rng.choice([None, rng.choice(ags), rng.choice(ags)])
        payload = rng.choice([f"m{k}", k, None, [k], 0, "", rng.text(["text"]), rng.number([3]), {"k": k}, True])
        if op == "tell":
            to = rng.choice([a for a in ags if isinstance(a, EventedAgent)] or [None])
            if to is None:
                continue
            note("tell", to.unique_id, payload, sender and sender.unique_id)
            if rng.random() < 0.2:
                for x in range(rng.size(2, 6)):
                    to.tell(x)
                    model_box[to.unique_id].append((x, None, None))
            if sender is None:
                to.tell(payload)
            else:
                to.tell(payload, sender=sender)
            model_box[to.unique_id].append((payload, sender, None))
            last = to._inbox[-1]
            check(isinstance(last, events.Tell), "kind of message", "C13")
        else:
            crit, pred = {}, lambda a: True
            c = rng.choice(["all", "class", "color", "id", "limit"])
            if c == "class":
                crit, pred = dict(agent_class=Talker), lambda a: isinstance(a, Talker)
            elif c == "color":
                crit, pred = dict(color="red"), lambda a: getattr(a, "color", None) == "red"
            elif c == "id":
                ids = [rng.choice(ags).unique_id for _ in range(2)]
                crit, pred = dict(unique_id=ids), lambda a: a.unique_id in ids
            extra = rng.choice([{}, {"expiration": rng.number([0, 5, m.now + 3, 0.5, INF])}, {"ttl": rng.number([0, 1, 2.5, INF], lo=0)}])
            note("broadcast", payload, sender and sender.unique_id, crit, extra)
            exp = extra.get("expiration")
            if "ttl" in extra:
                exp = m.now + extra["ttl"]
            m.broadcast(payload, sender=sender, **crit, **extra)
            for a in ags:
                if pred(a) and a is not sender and isinstance(a, EventedAgent):
                    model_box[a.unique_id].append((payload, sender, exp))
        for a in ags:
            if isinstance(a, EventedAgent):
                got = contents(a)
                want = model_box[a.unique_id]
                ok = len(got) == len(want) and all(g[0] is w[0] or g[0] == w[0] for g, w in zip(got, want)) \
                    and all(g[1] is w[1] and g[2] == w[2] for g, w in zip(got, want))
                check(ok, f"inbox of {a.unique_id}: {got}, expected {want}", "C13")
            else:
                check(not hasattr(a, "_inbox"), "an agent without inbox got one", "C13")
        check(len(m.schedule.agents) == len(ags), "agents changed", "C13")


@scenario("C14")
def processing(rng):
    m = Environment(seed=rng.random())
    handled = []
    during = rng.choice([True, False])

    class A(EventedAgent):
        def step(self):
            return 1

        def on_receive(self, msg, sender=None):
            handled.append((msg, sender))
            if during and isinstance(msg, int) and msg % 2:
                self.tell(("late", msg))
            return ("reply", msg)

    a = m.add_agent(A)
    b = m.add_agent(A)
    now = rng.number([0, 1, 4.5, 10, 1000], lo=0)
    m.schedule.time = now
    sent = []
    asks = []
    for k in range(rng.size(0, 8)):
        exp = rng.choice([None, None, now, now - 1, now + 1, now - 0.5, now + 100, 0, now + 1e-3, now - 1e-3, INF, -1])
        kind = rng.choice(["tell", "ask"])
        s = rng.choice([None, b])
        msg = (events.Ask if kind == "ask" else events.Tell)(payload=k, sender=s, expiration=exp)
        if exp is None and kind == "tell" and rng.random() < 0.5:
            a.tell(k, sender=s)
            msg = a._inbox[-1]
        elif exp is None and kind == "ask" and rng.random() < 0.5:
            gen = a.ask(k)
            next(gen)
            msg = a._inbox[-1]
            s = a
        else:
            a._inbox.append(msg)
        sent.append((k, s, exp, kind, msg))
    note("now", now, "messages", [x[:1] + x[2:4] for x in sent], "replies while processing", during)
    out = a.process_messages()
    live = [x for x in sent if x[2] is None or x[2] >= now]
    same([h[0] for h in handled], [x[0] for x in live], "messages handled", "C14")
    check(all(h[1] is x[1] for h, x in zip(handled, live)), "senders", "C14")
    check(list(map(id, out)) == [id(x[4]) for x in live], f"messages returned: {out}", "C14")
    for k, s, exp, kind, msg in sent:
        if kind == "ask":
            ok = any(x[4] is msg for x in live)
            same(msg.reply, ("reply", k) if ok else None, f"reply to question {k}", "C14")
    late = [("late", x[0]) for x in live if during and x[0] % 2]
    same([x.payload for x in a._inbox], late, "messages that arrived while processing", "C14")
    handled.clear()
    a.process_messages()
    same([h[0] for h in handled], late, "messages handled the second time", "C14")
    same(len(a._inbox), 0, "messages left", "C14")
    handled.clear()
    same(list(a.process_messages()), [], "nothing left", "C14")
    same(handled, [], "nothing left", "C14")


@scenario("C15")
def waiting(rng):
    kind = rng.choice(list(KINDS))

    class M(Environment):
        schedule_class = KINDS[kind]
    log = []
    form = rng.choice(["gen", "async", "fsm"])
    delay = rng.number([1, 1, 2, 0.5, 3], lo=0.5)
    start = rng.number([0, 1, 2], lo=0, hi=500)
    timeout = rng.number([None, 2, 5, 4.5, 10, 0], lo=0, hi=100)
    expiration = rng.choice([None, None, start, start + 3, start + 6.5, 0, start + rng.number([1], lo=0, hi=100)])
    process = rng.choice([True, False])
    kw = dict(delay=delay)
    if timeout is not None:
        kw["timeout"] = timeout
    if expiration is not None:
        kw["expiration"] = expiration
    if not process:
        kw["process"] = False
    limit = expiration if expiration is not None else start + (60 if timeout is None else timeout)
    arrival = rng.number([None, 0, 0.25, 1, 2, 3.25, 4, 7, 20, 58, 59, 60, 61], lo=0, hi=100)
    if arrival is not None:
        arrival += rng.choice([0, start])

    def show(msgs):
        return [x.payload for x in msgs]

    class G(EventedAgent):
        def step(self):
            try:
                msgs = yield from self.received(**kw)
                log.append((self.now, show(msgs)))
            except TimedOut:
                log.append((self.now, "timeout"))
            yield INF

    class C(EventedAgent):
        async def step(self):
            try:
                msgs = await self.received(**kw)
                log.append((self.now, show(msgs)))
            except TimedOut:
                log.append((self.now, "timeout"))
            await self.delay(INF)

    class F(Agent):
        @state(default=True)
        async def a(self):
            try:
                msgs = await self.received(**kw)
                log.append((self.now, show(msgs)))
            except TimedOut:
                log.append((self.now, "timeout"))
            return self.b, INF

        @state
        def b(self):
            return INF
    m = M(topology=nx.path_graph(3))
    cls = {"gen": G, "async": C, "fsm": F}[form]
    a = cls(unique_id=m.next_id(), model=m)
    m.schedule.add(a, when=start)
    note(kind, form, kw, "start", start, "limit", limit, "arrival", arrival)

    class Sender(BaseAgent):
        def step(self):
            a.tell("hello", sender=self)
            return INF
    if arrival is not None:
        s = Sender(unique_id=m.next_id(), model=m)
        m.schedule.add(s, when=arrival + 1 / 64)
    for _ in range(1500):
        if not m.running:
            break
        m.step()
    t, want = start, None
    while True:
        if t >= limit:
            want = (t, "timeout")
            break
        if arrival is not None and arrival + 1 / 64 < t:
            want = (t, ["hello"])
            break
        t += delay
    same(log, [want], "when and how it resumed", "C15")
    if want[1] != "timeout":
        same(len(a._inbox), 0 if process else 1, "inbox after resuming", "C15 C14")


@scenario("C15")
def asking(rng):
    kind = rng.choice(list(KINDS))

    class M(Environment):
        schedule_class = KINDS[kind]
    log = []
    form = rng.choice(["gen", "async", "fsm"])
    delay = rng.number([1, 1, 2, 0.5], lo=0.5)
    start = rng.number([0, 1, 2], lo=0, hi=100)
    timeout = rng.number([None, 2, 5, 4.5, 0], lo=0, hi=100)
    expiration = rng.choice([None, None, start, start + 3, start + 6.5, 0])
    reply = rng.choice(["yes", None, 0, False, "", [], 3.5, {"a": 1}, rng.text(["no"]), rng.number([2])])
    answer_at = rng.number([None, 0, 1, 3, 6, 9, 70], lo=0, hi=150)
    if timeout is None and expiration is None and answer_at is None:
        answer_at = 3
    kw = dict(delay=delay)
    if timeout is not None:
        kw["timeout"] = timeout
    if expiration is not None:
        kw["expiration"] = expiration
    limit = expiration if expiration is not None else INF if timeout is None else start + timeout
    received = []

    class Answerer(EventedAgent):
        def on_receive(self, msg, sender=None):
            received.append((msg, sender))
            return reply

        def step(self):
            self.process_messages()
            return INF
    m = M(topology=nx.path_graph(3))
    target = Answerer(unique_id=m.next_id(), model=m)
    if answer_at is not None:
        m.schedule.add(target, when=answer_at + 1 / 64)

    # (ask() puts the question in the inbox of the agent on which it is called)
    class G(EventedAgent):
        def step(self):
            try:
                v = yield from target.ask("question", **kw)
                log.append((self.now, v))
            except TimedOut:
                log.append((self.now, "timeout!"))
            yield INF

    class C(EventedAgent):
        async def step(self):
            try:
                v = await target.ask("question", **kw)
                log.append((self.now, v))
            except TimedOut:
                log.append((self.now, "timeout!"))
            await self.delay(INF)

    class F(Agent):
        @state(default=True)
        async def a(self):
            try:
                v = await target.ask("question", **kw)
                log.append((self.now, v))
            except TimedOut:
                log.append((self.now, "timeout!"))
            return self.b, INF

        @state
        def b(self):
            return INF
    cls = {"gen": G, "async": C, "fsm": F}[form]
    a = cls(unique_id=m.next_id(), model=m)
    m.schedule.add(a, when=start)
    note(kind, form, kw, "start", start, "limit", limit, "answered at", answer_at, "reply", repr(reply))
    for _ in range(1500):
        if not m.running:
            break
        m.step()
    answered = None
    if answer_at is not None and start < answer_at + 1 / 64:
        answered = answer_at + 1 / 64
    t, want = start, None
    asked, answered = answered, None if reply is None else answered
    while True:
        if t >= limit:
            want = (t, "timeout!")
            break
        if answered is not None and answered < t:
            want = (t, reply)
            break
        if t > 200:
            break
        t += delay
    if want is None:
        raise Skip
    same(log, [want], "when and how it resumed", "C15")
    check(type(log[0][1]) is type(want[1]), f"reply {log[0][1]!r} instead of {want[1]!r}", "C15")
    if answered is not None:
        same([r[0] for r in received], ["question"], "questions received", "C15 C14")
    elif asked is None:
        same([r[0] for r in received], [], "questions received", "C15 C14")
