"""Contracts of the behaviours of agents (soil/agents/__init__.py, fsm.py, network_agents.py)"""
from .base import *
import soil.time as T
import soil.agents as A
from soil.agents import BaseAgent, FSM, NetworkAgent, Agent, EventedAgent
import soil.agents.fsm as F


def value(kind, name="value"):
    """What a behaviour asks for, and the number that it stands for"""
    if kind == "none":
        return None, None
    if kind == "number":
        d = real(name)
        return d, d
    if kind == "infinity":
        return INF, INF
    d = xreal(name)
    return T.Delay(d), d


def same_value(got, want):
    if want is None:
        return z3.BoolVal(got is None)
    if got is None or num(got) is None:
        return z3.BoolVal(False)
    return equal(got, want)


class Body:
    """Generator or coroutine (pending, or just created): what it does is arbitrary"""

    def __init__(self, log, label):
        self.log, self.label = log, label

    def send(self, v):
        self.log.add("resume", self.label, v)
        self.how = choice("outcome", ["pause", "return", "error", "dead"])
        if self.how == "error":
            self.exc = External("some error in the body")
            raise self.exc
        if self.how == "dead":
            self.exc = T.DeadAgent("dead")
            raise self.exc
        v, self.number = value(choice("value", ["none", "number", "infinity", "delay"]))
        if self.how == "return":
            raise StopIteration(v)
        return v

    def __next__(self):
        return self.send(None)

    def throw(self, *a):
        self.log.add("throw", self.label, a)
        raise External("thrown")

    def close(self):
        self.log.add("close", self.label)

    def __iter__(self):
        return self


@contract("C05 C08", ["decorate_generator_step.decorated", "BaseAgent._check_alive"],
          assumes=["generators and coroutines are resumed by send() (Python)"])
def multistep(ctx):
    """
    requires  an agent with or without a pending body
    ensures   a dead agent: an error for the scheduler, and nothing is run
              otherwise: the pending body (or else a new one) is resumed, exactly once; if it pauses or returns, its value
              is the delay; it is kept if it paused, and forgotten if it returned
    """
    need(A, "decorate_generator_step")
    log = Log()

    def start(self):
        log.add("start")
        return Body(log, "new")

    decorated = A.decorate_generator_step(start, "step")
    pending = choice("pending body", [False, True])
    alive = boolean("alive")
    body = Body(log, "pending") if pending else None
    if not all(hasattr(FSM, k) for k in ("_coroutine", "_last_return", "_last_except")):
        raise NotApplicable("unknown representation of pending bodies")
    a = make(BaseAgent, "agent", alive=alive, unique_id=integer("unique_id"), _coroutine=body, _last_return=None, _last_except=None)
    out = call(decorated, a)
    if ctx.branch(z3.Not(alive.e)):
        cover("dead")
        prove(z3.BoolVal(isinstance(out.exc, T.DeadAgent)), "the scheduler is told that the agent is dead")
        prove(z3.BoolVal(not log.segs), "no behaviour of a dead agent is run")
        return
    evs = log.segs
    want = [("resume", "pending", None)] if pending else [("start",), ("resume", "new", None)]
    if evs != want:
        fail("the pending body (or, if there is none, a new one) is resumed exactly once", evs)
        return
    gen = body
    if not pending:
        gen = a._coroutine
    prove(z3.BoolVal(a._last_return is None and a._last_except is None), "nothing is left for the next activation")
    if gen is None:
        # it returned or failed
        if out.ok:
            cover("started and finished")
            prove(z3.BoolVal(num(out.value) is not None or out.value is None), "a number, or nothing, is returned")
        return
    if gen.how in ("error", "dead"):
        prove(z3.BoolVal(out.exc is gen.exc), "errors are reported")
        cover("error")
        return
    if not returned(out, "no errors"):
        return
    prove(same_value(out.value, gen.number), "the value of the body is the delay")
    if gen.how == "pause":
        cover("pause")
        prove(z3.BoolVal(a._coroutine is gen), "the body is kept for the next activation")
    else:
        cover("return")
        prove(z3.BoolVal(a._coroutine is None), "the next activation starts anew")


@contract("C01 C08", ["decorate_generator_step.decorated"])
def multistep_start(ctx):
    """ensures  the same as the previous contract, for a body that has just been created, in any of its outcomes"""
    need(A, "decorate_generator_step")
    log = Log()
    made = []

    def start(self):
        made.append(Body(log, "new"))
        return made[-1]

    decorated = A.decorate_generator_step(start, "step")
    a = make(BaseAgent, "agent", alive=True, unique_id=1, _coroutine=None, _last_return=None, _last_except=None)
    out = call(decorated, a)
    prove(z3.BoolVal(len(made) == 1), "one body is created")
    if len(made) != 1:
        return
    b = made[0]
    if b.how in ("error", "dead"):
        prove(z3.BoolVal(out.exc is b.exc), "errors are reported")
        return
    if not returned(out, "no errors"):
        return
    cover(b.how)
    prove(same_value(out.value, b.number), "the value of the body is the delay")
    prove(z3.BoolVal(a._coroutine is (b if b.how == "pause" else None)), "the body is kept only if it paused")


@contract("C01 C05", ["decorate_normal_func.decorated", "BaseAgent._check_alive"])
def plain_step(ctx):
    """
    ensures  a dead agent: an error for the scheduler, and nothing is run
             otherwise: the function is run exactly once, and its value is the delay; its errors are reported
    """
    log = Log()
    got = []
    boom = External("some error")

    class P(BaseAgent):
        def step(self):
            log.add("run", self is a)
            how = choice("outcome", ["return", "error", "dead"])
            if how == "error":
                raise boom
            if how == "dead":
                raise T.DeadAgent("x")
            v, n = value(choice("value", ["none", "number", "infinity", "delay"]))
            got.append(n)
            return v

    alive = boolean("alive")
    a = make(P, "agent", alive=alive, unique_id=integer("unique_id"))
    out = call(a.step)
    if ctx.branch(z3.Not(alive.e)):
        cover("dead")
        prove(z3.BoolVal(isinstance(out.exc, T.DeadAgent)), "the scheduler is told that the agent is dead")
        prove(z3.BoolVal(not log.segs), "no behaviour of a dead agent is run")
        return
    prove(z3.BoolVal(log.segs == [("run", True)]), "the behaviour is run exactly once")
    if not got:
        prove(z3.BoolVal(out.exc is boom or isinstance(out.exc, T.DeadAgent)), "errors are reported")
        cover("error")
        return
    if not returned(out, "no errors"):
        return
    cover("value")
    prove(same_value(out.value, got[0]), "the value is the delay")


# ------------------------------------------------------------------ death


class Graph:
    """Network, as far as dying is concerned"""

    def __init__(self, log):
        self.log = log

    def remove_node(self, n):
        self.log.add("remove_node", n)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"G.{k}")


class Net1(NetworkAgent):
    def step(self):
        return 1


class Plain1(BaseAgent):
    def step(self):
        return 1


class Machine1(FSM):
    @F.state(default=True)
    def a(self):
        return 1


class Full1(Agent):
    @F.state(default=True)
    def a(self):
        return 1


@contract("C05", ["BaseAgent.die", "NetworkAgent.die", "NetworkAgent.remove_node", "FSM.die"],
          assumes=["mesa schedulers: remove() drops the agent, or raises a KeyError (mesa)", "networkx: remove_node() removes the node (networkx)"])
def die(ctx):
    """
    ensures  the agent is not alive, and was removed from the scheduler; its node, if any, was removed, unless asked
             otherwise; the result is an infinite delay (and the final state, in state machines).
             Dying again changes nothing
    """
    cls = choice("class", [Plain1, Net1, Machine1, Full1])
    log = Log()
    known = choice("registered", [True, False])

    def remove(x):
        log.add("remove", x is a)
        if not known:
            raise KeyError(x)

    node = opaque("node")
    assume(node.e != Val.none)
    attrs = {}
    net = issubclass(cls, NetworkAgent)
    if net:
        attrs = dict(G=Graph(log), node_id=node)
    model = Stub("model", schedule=Stub("schedule", remove=remove, default_interval=real("default interval"), time=real("time")), now=real("now"))
    model.__dict__["G"] = attrs.get("G")
    a = make(cls, "agent", alive=True, unique_id=integer("id"), model=model, logger=Logger(), name="agent", **attrs)
    if issubclass(cls, FSM):
        for k, v in cls._states.items():
            v.bind(a)
        a.__dict__["_state"] = a.dead if choice("current state", ["final one", "another one"]) == "final one" else a.a
    kw = {}
    if net and choice("keep the node", [False, True]):
        kw = dict(remove=False)
        if choice("its node had been removed", [False, True]):
            a.__dict__["node_id"] = None
    out = call(a.die, **kw)
    if not returned(out, "no errors"):
        return
    cover("died " + cls.__name__)
    prove(z3.BoolVal(a.alive is False), "the agent is not alive")
    evs = log.segs
    prove(z3.BoolVal(evs.count(("remove", True)) == 1), "the agent is removed from the scheduler")
    nodes = [e for e in evs if e[0] == "remove_node"]
    if net and not kw:
        if len(nodes) != 1:
            fail("its node is removed", evs)
        else:
            prove(equal(nodes[0][1], node), "its node is removed")
    else:
        prove(z3.BoolVal(not nodes), "no node is removed")
    r = out.value
    if isinstance(r, tuple):
        if issubclass(cls, FSM):
            prove(z3.BoolVal(len(r) == 2 and isinstance(r[0], F.State) and r[0].name == "dead"), "the final state")
        r = r[-1]
    prove(equal(rt.vfloat(r), INF), "never activated again")
    # again
    n = len(log.segs)
    out = call(a.die, **kw)
    if not returned(out, "dying twice is harmless"):
        return
    prove(z3.BoolVal(a.alive is False), "still dead")
    prove(z3.BoolVal(not any(e[0] == "remove_node" for e in log.segs[n:])), "no other node is removed")


# ------------------------------------------------------------------ state machines


class Name:
    """Text that may be the name of a state"""
    _vc_symbolic = True

    def __init__(self, known):
        self.known = known

    def vc_isinstance(self, cls):
        return cls in (str, object)

    def vc_float(self):
        raise ValueError("could not convert string to float")

    def __repr__(self):
        return "<name>"

    def __format__(self, spec):
        return "<name>"

    def __iter__(self):
        raise Unsupported("iteration over a text")

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"text method {k}")


class States:
    """The states of a class"""
    _vc_symbolic = True

    def __init__(self, known):
        self.known = known      # name -> state

    def __contains__(self, k):
        if isinstance(k, Name):
            return k.known
        return k in self.known

    def __getitem__(self, k):
        if isinstance(k, Name) and not k.known:
            raise KeyError(k)
        return self.known[k]

    def get(self, k, default=None):
        return self.known.get(k, default) if k in self else default

    def __bool__(self):
        return True

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"states.{k}")


class Weird:
    """Something that is neither a state nor a number"""


def new_state(name, run, bound=None):
    """State with an arbitrary function"""
    def f(self):
        raise AssertionError
    s = F.UnboundState(f, name, False, False, False)
    if bound is not None:
        s = F.BoundState(f, name, False, False, False, obj=bound)
    return s


@contract("C09", ["FSM.step", "FSM._set_state", "decorate_generator_step.decorated", "State.step"],
          assumes=["the states are those in _states (MetaFSM.__new__: its contract)"])
def transitions(ctx):
    """
    requires  an agent in any state, which may pause or return any value
    ensures   the function of the current state is run (or resumed) once; the next state and the delay are those that it
              returned, in any of the ways allowed: nothing, a delay, a state, its name, or a pair of these; anything
              else is an error, and the state is kept
    """
    need(F, "UnboundState", "BoundState", "State")
    need(FSM, "_set_state")
    log = Log()
    now = real("now")
    assume(now.v >= 0)

    kind = choice("kind of state", ["function", "generator", "async"])
    paused = []

    def result(self):
        return make_result()

    if kind == "function":
        def f(self):
            log.add("run", self is a)
            return result(self)
    elif kind == "generator":
        def f(self):
            log.add("run", self is a)
            p = choice("pauses", [False, True])
            if p:
                v, n = value(choice("pause", ["none", "number", "delay"]), "pause")
                paused.append(n)
                yield v
                log.add("resumed")
            return result(self)
    else:
        async def f(self):
            log.add("run", self is a)
            p = choice("pauses", [False, True])
            if p:
                d = real("pause")
                paused.append(d)
                await T.Delay(d)
                log.add("resumed")
            return result(self)

    expected = {}

    def make_result():
        other = F.UnboundState(lambda self: None, "other", False, False, False)
        a._states.known[known_name] = other
        what = choice("next state", ["nothing", "unbound", "bound", "name", "same", "unknown name", "something else"])
        ok, st = True, cur
        if what == "nothing":
            v = None
        elif what == "unbound":
            v = st = other
        elif what == "bound":
            v = st = F.BoundState(lambda self: None, "other", False, False, False, obj=a)
        elif what == "name":
            v, st = known_name, other
        elif what == "same":
            v = cur
        elif what == "unknown name":
            v, ok = Name(False), False
        else:
            v, ok = Weird(), False
        form = choice("form", ["alone", "pair", "triple", "delay"])
        n = None
        if form == "delay":
            if what != "nothing":
                E.CTX.end()
            v, n = value(choice("delay", ["number", "infinity", "delay"]), "delay")
        elif form == "pair":
            d, n = value(choice("delay", ["none", "number", "infinity", "delay", "text", "weird"][:4]), "delay") \
                if choice("valid delay", [True, False]) else (choice("bad delay", [Name(False), Weird()]), None)
            if isinstance(d, (Name, Weird)):
                ok = False
            v = (v, d) if choice("kind of pair", ["tuple", "list"]) == "tuple" else [v, d]
        elif form == "triple":
            v, ok = (v, 1, 2), False
        expected.update(ok=ok, state=st, delay=n, what=what, form=form)
        return v

    known_name = Name(True)
    cur = F.UnboundState(f, "current", False, kind == "generator", kind == "async")
    a = make(FSM, "agent", alive=True, unique_id=1, model=Stub("model", now=now), _coroutine=None, _last_return=None, _last_except=None)
    a._states = States({"current": cur})
    a._state = cur
    out = call(a.step)
    if paused and not expected:
        cover("paused")
        prove(z3.BoolVal(log.segs == [("run", True)]), "the function of the state is run once")
        if not returned(out, "no errors while pausing"):
            return
        prove(same_value(out.value, paused[0]), "a multi-step state pauses for the time it asked for")
        prove(z3.BoolVal(a._state is cur), "the state is kept while pausing")
        out = call(a.step)
        prove(z3.BoolVal(log.segs == [("run", True), ("resumed",)]), "a multi-step state is resumed where it paused")
    else:
        prove(z3.BoolVal(log.segs == [("run", True)]), "the function of the state is run once")
    if not expected:
        return
    if expected["ok"]:
        if not returned(out, f"{expected['what']} ({expected['form']}) is accepted"):
            return
        cover("transition")
        prove(z3.BoolVal(a._state is expected["state"]), "the next state is the one that was returned")
        prove(same_value(out.value, expected["delay"]), "the delay is the one that was returned")
    else:
        cover("rejected")
        prove(z3.BoolVal(not out.ok), f"{expected['what']} ({expected['form']}) is rejected", repr(out))
        prove(z3.BoolVal(a._state is cur), "the state is kept after an error")


@contract("C09", ["BoundState.at", "BoundState.delay", "BaseAgent.at", "BaseAgent.delay", "UnboundState.bind"])
def state_helpers(ctx):
    """ensures  state.delay(d) is the pair of the state and a delay of d; state.at(t), of the state and a delay of t - now"""
    need(F, "UnboundState", "BoundState")
    now = real("now")
    a = make(FSM, "agent", alive=True, unique_id=1, model=Stub("model", now=now))
    f = lambda self: None
    u = F.UnboundState(f, "s", choice("default", [True, False]), choice("generator", [True, False]), choice("awaitable", [True, False]))
    out = call(u.bind, a)
    if not returned(out, "bound without errors"):
        return
    b = out.value
    prove(z3.BoolVal(b.f is f and b.name == "s" and b.generator == u.generator and b.awaitable == u.awaitable), "the bound state is the same state")
    d = real("d")
    how = choice("helper", ["delay", "at"])
    out = call(getattr(b, how), d)
    if not returned(out, "no errors"):
        return
    cover(how)
    v = out.value
    if not (isinstance(v, tuple) and len(v) == 2):
        fail("a pair", v)
        return
    prove(z3.BoolVal(v[0] is b), "the state")
    prove(equal(rt.vfloat(v[1]), d if how == "delay" else d - now), "the delay")


@contract("C10", ["FSM.__init__", "FSM._set_state", "FSM.set_state", "UnboundState.bind", "BoundState.__init__", "State.__init__"],
          assumes=["the states are those in _states (MetaFSM.__new__: its contract)"])
def machine_init(ctx):
    """
    ensures  the initial state is the one given, or else the default of the class; every state is bound to the agent;
             an unknown state, or no default one if there are several, are errors; init() is run once, at the end
    """
    need(F, "UnboundState", "State", "BoundState")
    log = Log()
    n = length("states")
    assume(n >= 1)

    class SomeState(F.UnboundState):
        __slots__ = ("ix",)
        _vc_symbolic = True

        def __init__(self, ix):
            self.ix = ix
            F.State.__init__(self, Indexed("function", ix), Opaque(namef(ix), "name"), False, False, False)

        def vc_term(self):
            return self.ix

        def vc_isinstance(self, cls):
            return cls in (F.State, F.UnboundState, object)

    namef = ctx.func("name", z3.IntSort(), Val)

    class All(States):
        def vc_len(self):
            return SymNum(n)

        def items(self):
            return SymSeq(n, lambda i: (Opaque(namef(i), "name"), SomeState(i)), "states")

        def values(self):
            return SymSeq(n, lambda i: SomeState(i), "states")

        def keys(self):
            return SymSeq(n, lambda i: Opaque(namef(i), "name"), "states")

    default = choice("default", [None, "state"])
    default = default and F.UnboundState(lambda s: None, "default", True, False, False)
    name = choice("state_id", [None, Name(True), Name(False), "object"])
    chosen = F.UnboundState(lambda s: None, "chosen", False, False, False)

    class M(FSM):
        def init(self):
            log.add("init", self._state)

        def vc_setattr(self, k, v):
            if isinstance(v, F.BoundState) and isinstance(v.f, Indexed):
                v = ("bound", v.f.ix[0], v.obj is a)
            last = log.segs[-1] if log.segs else None
            if isinstance(last, tuple) and last[0] == "attribute" and isinstance(v, tuple) and isinstance(k, Opaque) and isinstance(last[1], Opaque) \
                    and last[1].e.eq(k.e) and isinstance(last[2], tuple) and last[2][1].eq(v[1]) and last[2][2] == v[2]:
                return  # Again
            log.add("attribute", k, v)

    def base_init(self, *args, init=True, **kw):
        log.add("base", init)
        self.model = Stub("model", now=0)
        self.unique_id = 1

    # the class has all the states
    st = All({})
    if isinstance(name, Name) and name.known:
        st.known[name] = chosen
    run_init = choice("init", [True, False])
    with patched((BaseAgent, "__init__", base_init)):
        a = make(M, "agent")
        object.__setattr__(a, "_states", st)
        object.__setattr__(a, "_state", default)
        kw = {} if name is None else dict(state_id=chosen if name == "object" else name)
        out = call(FSM.__init__, a, init=run_init, **kw)
    bad = z3.BoolVal(isinstance(name, Name) and not name.known)
    nodefault = z3.And(z3.BoolVal(default is None and name is None), n > 1)
    if not out.ok:
        if isinstance(out.exc, (AttributeError, NameError, TypeError)):
            raise NotApplicable(repr(out.exc)) from out.exc
        cover("error")
        prove(z3.Or(bad, nodefault), "errors are only for unknown states, or the lack of a default one", out)
        return
    prove(z3.Not(bad), "unknown states are rejected")
    prove(z3.Not(nodefault), "the lack of a default state is an error")
    cover("created")
    want = default if name is None else chosen
    prove(z3.BoolVal(a._state is want), "the initial state is the given one, or else the default")
    evs = [e for e in log.segs if not (isinstance(e, tuple) and e[0] == "base")]
    exp = [comp(0, n, lambda i: [(z3.BoolVal(True), [("attribute", Opaque(namef(i), "name"), ("bound", i, True))])])]
    if run_init:
        if not evs or not isinstance(evs[-1], tuple) or evs[-1][0] != "init":
            fail("init() is run once, at the end", evs)
            return
        prove(z3.BoolVal(evs[-1][1] is want), "init() is run in the initial state")
        evs = evs[:-1]
    prove_seq(evs, exp, "every state is bound to the agent")
