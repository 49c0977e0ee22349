"""Contracts of the creation of the classes of agents (MetaAgent, MetaFSM): which attributes, defaults and states a class has"""
from abc import ABCMeta
import types
from .base import *
from vc.loops import VMap
import soil.agents as AG
from soil.agents import fsm as FSMOD

I = z3.IntSort()
B = z3.BoolSort()
UNDER = z3.Function("starts with an underscore", I, B)


class Names:
    """Texts (names of attributes), as numbers"""

    def __init__(self):
        self.codes = {}

    def code(self, text):
        if text not in self.codes:
            self.codes[text] = len(self.codes)
            assume(UNDER(z3.IntVal(self.codes[text])) == z3.BoolVal(text[:1] == "_"))
        return z3.IntVal(self.codes[text])


NAMES = [None]


class Name:
    """Any name of an attribute"""
    _vc_symbolic = True

    def __init__(self, e):
        self.e = e

    def vc_subst(self, a, b):
        return Name(z3.substitute(self.e, (a, b)))

    def vc_term(self):
        return ("name", self.e)

    def vc_equal(self, o):
        if isinstance(o, Name):
            return self.e == o.e
        return self.e == NAMES[0].code(o) if isinstance(o, str) else z3.BoolVal(False)

    def __eq__(self, o):
        return SymBool(self.vc_equal(o))

    def __ne__(self, o):
        return SymBool(z3.Not(self.vc_equal(o)))

    def __hash__(self):
        raise Unsupported("hash of a name")

    def __bool__(self):
        return True

    def startswith(self, prefix):
        if prefix != "_":
            raise Unsupported(f"startswith({prefix!r})")
        return SymBool(UNDER(self.e))

    def __getitem__(self, k):
        if k not in (0, slice(None, 1), slice(0, 1)):
            raise Unsupported("part of a name")
        return FirstChar(self.e)

    def vc_isinstance(self, cls):
        return cls in (str, object)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"method {k} of a name")

    def __repr__(self):
        return f"name({self.e})"


class FirstChar:
    _vc_symbolic = True

    def __init__(self, e):
        self.e = e

    def vc_equal(self, o):
        if o != "_":
            raise Unsupported("comparison of the first character of a name")
        return UNDER(self.e)

    def __eq__(self, o):
        return SymBool(self.vc_equal(o))

    def __ne__(self, o):
        return SymBool(z3.Not(self.vc_equal(o)))

    __hash__ = None


FUNCTION, GENERATOR, COROUTINE, ASYNCGEN, PROPERTY, CLASSMETHOD, VALUE = range(7)


class Thing:
    """The value of an attribute in the body of a class: some kind of function, a property, a class method or any other value"""
    _vc_symbolic = True

    def __init__(self, w, i):
        self.w, self.i = w, i

    def vc_subst(self, a, b):
        return type(self)(self.w, z3.substitute(self.i, (a, b)))

    def vc_term(self):
        return ("thing", self.i)

    def vc_equal(self, o):
        return self.i == o.i if isinstance(o, Thing) else z3.BoolVal(False)

    def __eq__(self, o):
        return SymBool(self.vc_equal(o))

    def __hash__(self):
        raise Unsupported("hash of the value of an attribute")

    def __bool__(self):
        return E.CTX.branch(z3.Or(self.w.kind(self.i) != VALUE, z3.Function("the value is true", I, B)(self.i)))

    def is_(self, *kinds):
        k = self.w.kind(self.i)
        return z3.Or(*[k == x for x in kinds])

    def vc_isinstance(self, cls):
        if isinstance(cls, tuple):
            return any(self.vc_isinstance(c) for c in cls)
        kinds = {types.FunctionType: (FUNCTION, GENERATOR, COROUTINE, ASYNCGEN), property: (PROPERTY,), classmethod: (CLASSMETHOD,)}.get(cls)
        if cls is object:
            return True
        if kinds is None:
            return E.CTX.branch(z3.And(self.is_(VALUE), z3.Bool(f"the values are instances of {cls!r}"))) if cls in (staticmethod, type) else self.other(cls)
        return E.CTX.branch(self.is_(*kinds))

    def other(self, cls):
        raise Unsupported(f"isinstance(value, {cls!r})")

    def vc_pairs(self):
        # (a mapping: the one in the attribute "defaults")
        return [Comp(z3.IntVal(0), self.w.ndefaults, lambda j: [(z3.BoolVal(True), [(Name(self.w.default_name(j)), Indexed("value in defaults", j))])])]

    def items(self):
        return VList(self.vc_pairs())

    def __call__(self, *a, **k):
        raise Unsupported("call of an attribute of the class that is being created")

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"the code uses .{k} of the value of an attribute")

    def __repr__(self):
        return f"thing({self.i})"


class Inspect:
    """inspect: the kinds of functions are exclusive, and what is not a function is of none of them"""

    def __getattr__(self, k):
        kinds = dict(isgeneratorfunction=(GENERATOR,), iscoroutinefunction=(COROUTINE,), isasyncgenfunction=(ASYNCGEN,),
                     isfunction=(FUNCTION, GENERATOR, COROUTINE, ASYNCGEN)).get(k)
        if kinds is None:
            raise Unsupported(f"inspect.{k}")
        return lambda f: SymBool(f.is_(*kinds)) if isinstance(f, Thing) else False


class World:
    pass


class ClassDict:
    """__dict__ of one of the classes"""
    _vc_symbolic = True

    def __init__(self, w, i, key):
        self.w, self.i, self.key = w, i, key

    def own(self, k):
        if k != self.key:
            raise Unsupported(f"attribute {k} of the base classes")
        return self.w.own(self.i)

    def get(self, k, default=None):
        r = self.own(k)
        return default if r is None else r

    def __contains__(self, k):
        return self.own(k) is not None

    def __getitem__(self, k):
        r = self.own(k)
        if r is None:
            raise KeyError(k)
        return r


class Class:
    """One of the classes in the order of look up of the attributes: 0 is the new one"""
    _vc_symbolic = True
    __slots__ = ("_vc",)

    def __init__(self, w, i, key):
        object.__setattr__(self, "_vc", (w, i, key))

    def vc_term(self):
        return ("class", self._vc[1])

    def vc_subst(self, a, b):
        w, i, key = self._vc
        return Class(w, z3.substitute(i, (a, b)), key)

    @property
    def __dict__(self):
        return ClassDict(*self._vc)

    def __getattr__(self, k):
        raise Unsupported(f"the code uses .{k} of a base class, which is not part of its contract")


def same_lookup(q, got, expected, what, known=()):
    """Both dictionaries have the same value (or none) for the key q"""
    a = got.vc_find(q) if isinstance(got, VMap) else None
    if not isinstance(got, VMap):
        raise NotApplicable(f"{what}: not a dictionary")
    b = expected.vc_find(q)
    if (a is None) != (b is None):
        fail(f"{what}: the same names", "there is none" if a is None else "not expected")
    elif a is not None:
        prove(equal(a[0], b[0]), f"{what}: the value of each name")
        cover(f"{what}: some")
    else:
        cover(f"{what}: none")


def spy(base):
    """Metaclass whose super().__new__ is recorded"""
    calls = []

    class Spy(base):
        def __new__(mcls, *a, **k):
            names = ("name", "bases", "namespace")
            args = dict(zip(names, a), **{x: y for x, y in k.items() if x != "mcls"})
            calls.append(args)
            return CREATE[0](args)
    return Spy, calls


CREATE = [None]


@contract("C26 C08 C05", ["MetaAgent.__new__"], sdict=True,
          assumes=["type.__new__: a class with the attributes in the namespace it is given, and those of the rest of the classes in its __mro__ (CPython)",
                   "decorate_generator_step, decorate_normal_func (their contracts)", "copy.copy: an equal value", "inspect: the kinds of functions are exclusive (standard library)",
                   "no attribute has the name of those of the metaclass (_own_defaults, _coroutine, _last_return, _last_except)"])
def agent_class(ctx):
    """
    requires  a class with any number of attributes of any kind, and any number of base classes with any defaults of their own
    ensures   the step is wrapped (as a multi-step one if and only if it is a generator or a coroutine); functions, properties, class methods and names with an
              underscore are attributes of the class as they are, and the rest are defaults of the class; the defaults of the agents are those of the first of
              the classes, in the order of look up, that has them
    """
    NAMES[0] = Names()
    w = World()
    n = length("number of attributes")
    w.kind = ctx.func("kind of the attribute", I, I)
    w.name = ctx.func("name of the attribute", I, I)
    w.ndefaults = length("number of names in defaults")
    w.default_name = ctx.func("name in defaults", I, I)
    a, b = z3.Ints("a b")
    assume(z3.ForAll([a], z3.And(w.kind(a) >= 0, w.kind(a) <= VALUE)))
    assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < n, 0 <= b, b < n, a != b), w.name(a) != w.name(b))))
    assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < w.ndefaults, 0 <= b, b < w.ndefaults, a != b), w.default_name(a) != w.default_name(b))))
    reserved = ["_own_defaults", "_coroutine", "_last_return", "_last_except"]
    assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(*[w.name(a) != NAMES[0].code(r) for r in reserved]))))
    ctx.on_index.append(lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(w.kind(j) >= 0, w.kind(j) <= VALUE, *[w.name(j) != NAMES[0].code(r) for r in reserved])))
    step, dflt = NAMES[0].code("step"), NAMES[0].code("defaults")
    namespace = VMap([Comp(z3.IntVal(0), n, lambda j: [(z3.BoolVal(True), [(Name(w.name(j)), Thing(w, j))])])], "namespace", True)

    # the rest of the classes
    nclasses = length("number of classes")
    assume(nclasses >= 1)
    has = ctx.func("the class has defaults", I, B)
    size = ctx.func("number of defaults", I, I)
    own_name = ctx.func("name of the default", I, I, I)
    assume(z3.ForAll([a], size(a) >= 0))
    created = {}

    def pairs(i):
        return [Comp(z3.IntVal(0), size(i), lambda j: [(z3.BoolVal(True), [(Name(own_name(i, j)), Indexed("default", i, j))])])]

    def own(i):
        if E.CTX.branch(i == 0):
            return created["own"]
        return VMap(pairs(i), "defaults of a class", True) if E.CTX.branch(has(i)) else None
    w.own = own

    def create(args):
        if "nmspc" in created:
            fail("one class is created")
        nm = args["namespace"]
        if not isinstance(nm, VMap):
            raise NotApplicable("namespace")
        created["nmspc"] = nm.copy()
        created["args"] = args
        r = nm.vc_find("_own_defaults")
        if r is None or not isinstance(r[0], VMap):
            raise NotApplicable("where the defaults of a class are kept")
        created["own"] = r[0]
        cls = make(World, "class")
        object.__setattr__(cls, "__mro__", SymSeq(nclasses, lambda i: Class(w, i, "_own_defaults"), "mro"))
        created["cls"] = cls
        return cls

    need(AG, "MetaAgent", "decorate_generator_step", "decorate_normal_func")
    Spy, calls = spy(ABCMeta)
    CREATE[0] = create
    mcls = type("M", (AG.MetaAgent, Spy), {})
    decorated = lambda kind: lambda f, name: Indexed(kind, f.i) if isinstance(f, Thing) else need(AG, "the step is a function of the class")
    name, bases = Stub("name"), Stub("bases")
    pats = [(AG, "inspect", Inspect()), (AG, "decorate_generator_step", decorated("multi-step")), (AG, "decorate_normal_func", decorated("plain step"))]
    pats += [(AG, k, lambda x: x) for k in ("copy", "deepcopy") if hasattr(AG, k)]
    with patched(*pats):
        out = call(AG.MetaAgent.__new__, mcls, name, bases, namespace)
    s = ctx.fresh("index of the step", I)
    if out.exc is not None:
        if not isinstance(out.exc, ValueError):
            returned(out, "no errors")
            return
        cover("error")
        illegal = z3.Exists([a], z3.And(0 <= a, a < n, w.name(a) == step, z3.Or(w.kind(a) == ASYNCGEN, w.kind(a) >= PROPERTY)))
        prove(illegal, "only a step that is not a function (or that is an asynchronous generator) is rejected")
        return
    if "cls" not in created:
        fail("a class is created")
        return
    prove(z3.BoolVal(out.value is created["cls"] and created["args"].get("name") is name and created["args"].get("bases") is bases), "the class that was asked for")
    q = Name(ctx.input("name", ctx.fresh("q", I)))
    which = choice("what", ["attributes", "nothing pending", "own defaults", "defaults"])
    fun = lambda j: z3.Or(w.kind(j) <= ASYNCGEN, w.kind(j) == PROPERTY, w.kind(j) == CLASSMETHOD, UNDER(w.name(j)))
    item = lambda j: (Name(w.name(j)), Thing(w, j))
    multi = lambda j: z3.Or(w.kind(j) == GENERATOR, w.kind(j) == COROUTINE)
    if which == "attributes":
        assume(z3.And(*[q.e != NAMES[0].code(r) for r in reserved]))
        st = lambda j: z3.And(w.name(j) == step)
        expected = VMap([Comp(z3.IntVal(0), n, lambda j: [
            (z3.And(st(j), multi(j)), [(Name(w.name(j)), Indexed("multi-step", j))]),
            (z3.And(st(j), z3.Not(multi(j))), [(Name(w.name(j)), Indexed("plain step", j))]),
            (z3.And(z3.Not(st(j)), fun(j)), [item(j)]),
            (z3.And(z3.Not(st(j)), z3.Not(fun(j))), [])])])
        same_lookup(q, created["nmspc"], expected, "attributes of the class")
        return
    if which == "nothing pending":
        # a multi-step behaviour has not been started
        k = choice("attribute", reserved[1:])
        assume(z3.And(0 <= s, s < n, w.name(s) == step, multi(s)))
        for f in ctx.on_index:
            assume(f(s))
        r = created["nmspc"].vc_find(k)
        prove(z3.BoolVal(r is not None and r[0] is None), "a multi-step behaviour starts with nothing pending")
        cover("multi-step")
        return
    plain = lambda j: z3.And(w.name(j) != step, z3.Not(fun(j)))
    mine = [Comp(z3.IntVal(0), n, lambda j: [
        (z3.And(plain(j), w.name(j) != dflt), [item(j)]),
        (z3.And(plain(j), w.name(j) == dflt), Thing(w, j).vc_pairs()),
        (z3.Not(plain(j)), [])])]
    if which == "own defaults":
        same_lookup(q, created["own"], VMap(mine), "own defaults of the class")
        return
    d = getattr(out.value, "_defaults", None)
    rest = Comp(z3.IntVal(0), nclasses - 1, lambda r: [(has(nclasses - 1 - r), pairs(nclasses - 1 - r)), (z3.Not(has(nclasses - 1 - r)), [])])
    same_lookup(q, d, VMap([rest] + mine), "defaults of the agents")


class Attr(Indexed):
    """The value of an attribute in the body of a state machine: a state, or not"""
    truthy = True

    def vc_isinstance(self, cls):
        if cls is object:
            return True
        if cls in (FSMOD.State, FSMOD.UnboundState):
            return E.CTX.branch(self.isstate(self.ix[0]))
        raise Unsupported(f"isinstance(attribute, {cls!r})")

    def isstate(self, j):
        return z3.Function("is a state", I, B)(j)


class Machine:
    """The new class: attributes whose names are symbolic are logged"""
    _vc_symbolic = True

    def vc_setattr(self, k, v):
        ATTRS[0].add("set", k, v)


ATTRS = [None]


@contract("C10", ["MetaFSM.__new__"], sdict=True, sdict_key=Name,
          assumes=["type.__new__: a class with the attributes in the namespace it is given, and those of the rest of the classes in its __mro__ (CPython)",
                   "MetaAgent.__new__ (its contract): the attributes whose names start with an underscore are attributes of the class",
                   "the values of a dictionary are those of its keys, each key once (CPython)"])
def machine_class(ctx):
    """
    requires  a class with any number of attributes, that may be states, and any number of base classes with any states of their own
    ensures   for each name, the state is the one of the first of the classes, in the order of look up, that has one with that name (the last one
              defined, if there are several in that class), and it is the attribute of the class with that name; the default state is the one with the name of
              the default state of the first of the classes that has one
    """
    NAMES[0] = Names()
    w = World()
    n = length("number of attributes")
    name = ctx.func("name of the attribute", I, I)
    isstate = z3.Function("is a state", I, B)
    sname = ctx.func("name of the state", I, I)
    sdef = ctx.func("is the default state", I, B)
    a, b = z3.Ints("a b")
    own_states = NAMES[0].code("_own_states")
    fact = lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(name(j) != own_states))
    assume(z3.ForAll([a], fact(a)))
    assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < n, 0 <= b, b < n, a != b), name(a) != name(b))))
    ctx.on_index.append(fact)
    own = lambda j: Attr("own", j, name=Name(sname(j)), default=SymBool(sdef(j)))
    namespace = VMap([Comp(z3.IntVal(0), n, lambda j: [(z3.BoolVal(True), [(Name(name(j)), own(j))])])], "namespace", True)
    nclasses = length("number of classes")
    assume(nclasses >= 1)
    has = ctx.func("the class has states", I, B)
    size = ctx.func("number of states", I, I)
    iname = ctx.func("name of the inherited state", I, I, I)
    idef = ctx.func("the inherited state is the default one", I, I, B)
    assume(z3.ForAll([a], size(a) >= 0))
    assume(has(0))

    class Inherited(Indexed):
        truthy = True

    inherited = lambda i, j: Inherited("inherited", i, j, name=Name(iname(i, j)), default=SymBool(idef(i, j)))
    created = {}

    def own_of(i):
        # (those of the new class, 0, are any list too: see "own states")
        return SymSeq(size(i), lambda j: inherited(i, j), "states of a class") if E.CTX.branch(has(i)) else None
    w.own = own_of

    def create(args):
        if "cls" in created:
            fail("one class is created")
        nm = args["namespace"]
        if not isinstance(nm, VMap):
            raise NotApplicable("namespace")
        r = nm.vc_find("_own_states")
        if r is None or not isinstance(r[0], VList):
            raise NotApplicable("where the states of a class are kept")
        created["own"] = r[0]
        created["args"] = args
        created["namespace"] = nm.copy()
        cls = Machine()
        cls.__dict__["__mro__"] = SymSeq(nclasses, lambda i: Class(w, i, "_own_states"), "mro")
        created["cls"] = cls
        return cls

    need(FSMOD, "MetaFSM", "MetaAgent")
    Spy, calls = spy(AG.MetaAgent)
    CREATE[0] = create
    ATTRS[0] = Log("attributes")
    mcls = type("M", (FSMOD.MetaFSM, Spy), {})
    nme, bases = Stub("name"), Stub("bases")
    out = call(FSMOD.MetaFSM.__new__, mcls, nme, bases, namespace)
    if not returned(out, "no errors"):
        return
    if "cls" not in created:
        fail("a class is created")
        return
    cls = created["cls"]
    prove(z3.BoolVal(out.value is cls and created["args"].get("name") is nme and created["args"].get("bases") is bases), "the class that was asked for")
    states = cls.__dict__.get("_states")
    if not isinstance(states, VMap):
        raise NotApplicable("where the states are kept")
    log = lambda f: [Comp(z3.IntVal(0), nclasses, lambda r: [(has(nclasses - 1 - r), [Comp(z3.IntVal(0), size(nclasses - 1 - r), lambda j: f(inherited(nclasses - 1 - r, j)))]),
                                                             (z3.Not(has(nclasses - 1 - r)), [])])]
    expected = lambda: VMap(log(lambda s: [(z3.BoolVal(True), [(s.name, s)])]))
    which = choice("what", ["own states", "attributes of the body", "attributes", "states", "default"])
    if which == "own states":
        prove_seq(created["own"], [comp(0, n, lambda j: [(isstate(j), [own(j)]), (z3.Not(isstate(j)), [])])], "the states of the class are those in its body, in order")
        cover("own states")
    elif which == "attributes of the body":
        q = Name(ctx.input("name", ctx.fresh("q", I)))
        assume(q.e != own_states)
        same_lookup(q, created["namespace"], VMap([Comp(z3.IntVal(0), n, lambda j: [(z3.BoolVal(True), [(Name(name(j)), own(j))])])]), "attributes in the body of the class")
    elif which == "attributes":
        prove_seq(ATTRS[0], [L.map_seg(s, lambda p: ("set",) + tuple(p)) for s in states.items().segs], "each state is the attribute of the class with its name")
        cover("attributes")
    elif which == "states":
        q = Name(ctx.input("name", ctx.fresh("q", I)))
        same_lookup(q, states, expected(), "states of the class")
    else:
        if "_state" not in cls.__dict__:
            fail("there is a default state, or none")
            return
        got = cls.__dict__["_state"]
        d = VMap(log(lambda s: [(s.default.e, [(Name(z3.IntVal(-1)), s)]), (z3.Not(s.default.e), [])])).vc_find(Name(z3.IntVal(-1)))
        if d is None:
            prove(z3.BoolVal(got is None), "no class has a default state")
            cover("no default")
            return
        s = expected().vc_find(d[0].name)
        if got is None or s is None:
            fail("the default state is that of the first class that has one", got)
            return
        prove(equal(got, s[0]), "the default state is that of the first class that has one")
        cover("default")
