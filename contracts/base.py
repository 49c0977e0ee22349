"""Helpers to write contracts"""
import sys
import contextlib
import z3
from vc import engine as E
from vc import loops as L
from vc import rt
from vc.engine import SymNum, SymBool, Opaque, Val, Unsupported, num, equal, zb, INF
from vc.loops import SymSeq, VList, VSet, Comp, Splice, make, seq_equal_formula, tracked_class

REGISTRY = []


class Contract:
    def __init__(self, name, props, functions, fn, assumes=(), opts=None, bounded=None):
        self.name, self.props, self.functions, self.fn = name, props, functions, fn
        self.assumes = list(assumes)
        self.opts = opts or {}
        self.bounded = bounded


def contract(props, functions, assumes=(), bounded=None, **opts):
    """Register the contract of some functions, on which some properties depend"""
    props = props.split() if isinstance(props, str) else props
    functions = [functions] if isinstance(functions, str) else functions

    def deco(fn):
        REGISTRY.append(Contract(f"{fn.__module__.split('.')[-1]}.{fn.__name__}", props, functions, fn, assumes, opts, bounded))
        return fn
    return deco


# ------------------------------------------------------------------ symbols


def ctx():
    return E.CTX


def real(name):
    c = E.CTX
    return SymNum(c.input(name, c.fresh(name, z3.RealSort())))


def xreal(name):
    """Real or +infinity"""
    c = E.CTX
    v, i = c.fresh(name, z3.RealSort()), c.fresh(name + "_inf", z3.BoolSort())
    c.input(name, v)
    c.input(name + " is infinite", i)
    return SymNum(v, i)


def integer(name):
    c = E.CTX
    return SymNum(c.input(name, c.fresh(name, z3.IntSort())))


def boolean(name):
    c = E.CTX
    return SymBool(c.input(name, c.fresh(name, z3.BoolSort())))


def opaque(name, kind=None):
    c = E.CTX
    return Opaque(c.input(name, c.fresh(name, Val)), kind or name)


def length(name):
    c = E.CTX
    n = c.input(name, c.fresh(name, z3.IntSort()))
    c.assume(n >= 0)
    return n


def assume(e):
    E.CTX.assume(e)


def prove(e, name, info=None):
    E.CTX.prove(e, name, info)


def fail(name, info=None):
    E.CTX.fail(name, info)


def cover(name):
    E.CTX.cover(name)


def choice(name, options):
    return E.CTX.choice(name, options)


class NotApplicable(Unsupported):
    pass


# ------------------------------------------------------------------ calls


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return f"raise {self.exc!r}" if self.exc is not None else f"return {self.value!r}"


class External(Exception):
    """Some exception raised by code that is not under verification"""


PROXIES = ("SymNum", "_vc_kw_", "SymArgs", "VMap", "SymBool", "Opaque", "VList", "VSet", "SymSeq", "LazySeq", "FStr", "Stub", "Poison", "CompSeq", "Sym", "SAgent", "NoneType' object is not iter")


def call(f, *a, **k):
    """Call the real code"""
    try:
        return Outcome(f(*a, **k))
    except Exception as ex:
        msg = str(ex)
        if isinstance(ex, (TypeError, AttributeError, NameError)) and any(p in msg for p in PROXIES):
            raise Unsupported(f"{type(ex).__name__}: {msg}") from ex
        return Outcome(exc=ex)


def returned(out, name):
    """The function has to return normally. Returns False (and fails) otherwise"""
    if out.ok:
        return True
    if isinstance(out.exc, (AttributeError, NameError, TypeError)):
        # Most likely, the code needs something that this contract does not provide
        raise NotApplicable(f"{type(out.exc).__name__}: {out.exc}") from out.exc
    fail(name, f"unexpected exception {out.exc!r}")
    return False


class Stub:
    """Object with just the attributes that a contract gives it"""

    _vc_symbolic = False

    def __init__(self, label, absent=(), **attrs):
        self.__dict__.update(attrs)
        self.__dict__["_label"] = label
        self.__dict__["_absent"] = absent

    def __getattr__(self, k):
        if k in self._absent or (k.startswith("__") and k.endswith("__")):
            raise AttributeError(k)
        raise Unsupported(f"the code uses {self._label}.{k}, which is not part of its contract")

    def __repr__(self):
        return f"<{self._label}>"


class Indexed:
    """Some object of a family: equal iff it is of the same kind and has the same indices"""
    _vc_symbolic = True

    def __init__(self, kind, *ix, **extra):
        self.__dict__.update(extra)
        self.__dict__.update(kind=kind, ix=tuple(z3.IntVal(k) if isinstance(k, int) else k for k in ix), extra=extra)

    def vc_subst(self, a, b):
        def extra(v):
            if type(v) is SymSeq:
                return SymSeq(z3.substitute(v.n, (a, b)), lambda j: L.subst(v.item(j), a, b), v.label)
            return L.subst(v, a, b)
        return type(self)(self.kind, *[z3.substitute(k, (a, b)) for k in self.ix], **{k: extra(v) for k, v in self.extra.items()})

    def vc_term(self):
        return (self.kind,) + self.ix

    def vc_equal(self, o):
        if not isinstance(o, Indexed) or o.kind != self.kind or len(o.ix) != len(self.ix):
            return z3.BoolVal(False)
        return z3.And(*[a == b for a, b in zip(self.ix, o.ix)]) if self.ix else z3.BoolVal(True)

    def __eq__(self, o):
        return SymBool(self.vc_equal(o))

    def __hash__(self):
        raise Unsupported(f"hash of {self.kind}")

    truthy = False

    def __bool__(self):
        if self.truthy:
            return True
        return E.CTX.branch(z3.Function(f"truth of {self.kind}", *[z3.IntSort()] * len(self.ix), z3.BoolSort())(*self.ix) if self.ix else z3.Bool(f"truth of {self.kind}"))

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"the code uses {self.kind}.{k}, which is not part of its contract")

    def __repr__(self):
        return f"{self.kind}{list(self.ix)}"


class Null:
    """Logger and the like: anything goes, nothing happens"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Null()

    def __call__(self, *a, **k):
        return Null()

    def __bool__(self):
        return False


class Logger:
    def __init__(self, *a, **k):
        pass

    def isEnabledFor(self, level):
        return False

    def getChild(self, n):
        return self

    def debug(self, *a, **k):
        pass

    info = warning = warn = error = log = setLevel = debug


@contextlib.contextmanager
def patched(*triples):
    """patched((object, attribute, value)...)"""
    saved = []
    missing = object()
    try:
        for o, k, v in triples:
            d = o.__dict__
            saved.append((o, k, d.get(k, missing)))
            if o.__class__ is type(sys) or isinstance(o, type):
                setattr(o, k, v)
            else:
                setattr(o, k, v)
        yield
    finally:
        for o, k, v in reversed(saved):
            if v is missing:
                try:
                    delattr(o, k)
                except AttributeError:
                    pass
            else:
                setattr(o, k, v)


def need(o, *names):
    """The contract refers to these names: otherwise, it is not applicable"""
    for n in names:
        if not hasattr(o, n):
            raise NotApplicable(f"{o} has no {n}")


class Log(VList):
    """Ghost trace of events. Events are tuples"""

    def __init__(self, label="events"):
        super().__init__((), label)
        self.check_iteration = None

    def add(self, *ev):
        if E.CTX is not None and not E.CTX.dead:
            self.segs.append(tuple(ev))

    def vc_changes(self, loop, st, now):
        new = list(now[len(st):])
        if self.check_iteration is not None:
            self.check_iteration(loop, new)
        yield from L._list_changes(self, loop, st, now)

    def last(self):
        """Events after the last completed iterations of a loop"""
        out = []
        for s in reversed(self.segs):
            if isinstance(s, (Comp, L.Prefix, Splice)):
                break
            out.append(s)
        return out[::-1]


def prove_seq(a, b, name, info=None):
    """Equality of two sequences of segments"""
    sa = a.segs if isinstance(a, (VList, VSet)) else list(a)
    sb = b.segs if isinstance(b, (VList, VSet)) else list(b)
    if E.CTX.suppress or E.CTX.dead:
        return
    if L.bounded():
        xs, ys = list(L.expand(sa)), list(L.expand(sb))
        if len(xs) != len(ys):
            fail(name, info or f"{show(xs)} =? {show(ys)}")
        else:
            prove(z3.And(*[equal(x, y) for x, y in zip(xs, ys)]) if xs else z3.BoolVal(True), name, info or f"{show(xs)} =? {show(ys)}")
        return
    # Element by element
    goals = L.seq_goals(sa, sb)
    if goals is not None and all(E.CTX.valid(g) for g in goals):
        for g in goals:
            E.CTX.prove(g, name, known=True)
        return
    prove(seq_equal_formula(sa, sb), name, info or f"{show(sa)} =? {show(sb)}")


def show(x):
    return str(x)[:1500]


def comp(lo, hi, parts):
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    return Comp(lo, hi, parts)


def drive(gen, limit=50):
    """Items yielded by a generator (possibly, in cut loops), as a tracked list, and its outcome"""
    out = VList((), "yielded items")
    try:
        while True:
            v = next(gen)
            if isinstance(v, rt.YieldAll):
                out.extend(v.seq)
            else:
                out.append(v)
    except StopIteration as ex:
        return out, Outcome(ex.value)
    except Exception as ex:
        msg = str(ex)
        if isinstance(ex, (TypeError, AttributeError, NameError)) and any(p in msg for p in PROXIES):
            raise Unsupported(f"{type(ex).__name__}: {msg}") from ex
        return out, Outcome(exc=ex)
