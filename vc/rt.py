"""
Run-time support for the instrumented sources: loops, displays, and builtins that know about
symbolic values.  With concrete values they all behave as the original ones.
"""
import builtins as B
import collections
import itertools
import string
import types
import functools
from . import engine as E
from . import loops as L
from .engine import SymNum, SymBool, Opaque, Unsupported, num, is_sym
import z3


def active():
    return E.CTX is not None and not E.CTX.dead


# ------------------------------------------------------------------ loops


def bound(it):
    """The items of a symbolic collection, if they are bounded (otherwise, the collection)"""
    if L.bounded() and active() and not B.isinstance(it, (SymNum, SymBool)):
        if B.isinstance(it, L.VList):
            return it if it.plain() else L.VList(L.expand(it.segs))
        if B.isinstance(it, L.VSet):
            return L.VList(list(it))
        s = symbolic_iter(it)
        if s is not None:
            return L.unrolled(s)
    return it


def symbolic_iter(it):
    """The symbolic collection behind an iterable, or None"""
    if isinstance(it, L.VList):
        return it.vc_iterable()
    if isinstance(it, L.SymSeq):
        return it
    if hasattr(type(it), "vc_iter"):
        return it.vc_iter()
    return None


def peek(it, inner=False):
    """
    The symbolic sequence behind a generator that just yields from it (otherwise, an equivalent iterable).
    If `inner`, the values may come from a loop of the generator that is cut: what is done with them is then part of its body
    """
    if L.bounded() and active():
        return bound(it)
    if not B.isinstance(it, types.GeneratorType) or not active():
        return it
    if it.gi_frame is not None and it.gi_code is _yield_all.__code__:
        return next(it).seq
    depth = len(E.CTX.loops)
    try:
        first = next(it)
    except StopIteration:
        return ()
    if len(E.CTX.loops) > depth and not inner:
        raise Unsupported("values that come from a loop of another function")
    if not B.isinstance(first, YieldAll):
        return itertools.chain([first], it)
    for _ in it:
        raise Unsupported("generator that yields from several sequences")
    return first.seq


def guarded(it):
    """Iteration by code whose state is not tracked: the iterator must not enter a loop that is cut"""
    if not active():
        yield from it
        return
    depth = len(E.CTX.loops)
    for x in it:
        if E.CTX is not None and not E.CTX.dead and len(E.CTX.loops) > depth:
            raise Unsupported("values that come from a loop of another function")
        yield x


def for_(it, lid, names):
    if E.CTX is None:
        return L.NativeLoop(it)
    if E.CTX.dead:
        return L.NativeLoop(())
    isgen = B.isinstance(it, types.GeneratorType)
    it = peek(it, inner=not names)
    if isgen and names and symbolic_iter(it) is None:
        it = guarded(it)
    s = symbolic_iter(it)
    if s is None:
        if is_sym(it) and not isinstance(it, L.VList) and not hasattr(type(it), "__iter__"):
            raise Unsupported(f"iteration over {type(it).__name__}")
        return L.NativeLoop(it)
    if isinstance(s, L.SegSeq):
        return L.MultiLoop(lid, names, s.segs)
    if isinstance(s, L.CompSeq):
        if s.comp.rank is not None:
            raise Unsupported("iteration over a truncated sequence")
        return L.Loop(lid, names, False, s.comp.hi, comp=s.comp)
    if isinstance(s, L.LazySeq):
        if s.rank is not None:
            raise Unsupported("iteration over a truncated sequence")
        base = s.base
        bs = symbolic_iter(base)
        if bs is None or isinstance(bs, (L.LazySeq, L.CompSeq, L.SegSeq)):
            segs = s.vc_segments()
            if len(segs) == 1 and isinstance(segs[0], L.Comp):
                return L.Loop(lid, names, False, segs[0].hi, comp=segs[0])
            raise Unsupported("lazy sequence over several segments")
        segs = s.vc_segments()
        return L.Loop(lid, names, False, segs[0].hi, comp=segs[0])
    n, item = s.vc_loop()
    return L.Loop(lid, names, False, n, item)


class NativeWhile:
    def __init__(self, limit):
        self.count, self.limit = 0, limit

    def arrive(self, locs):
        self.locs = locs
        self.count += 1
        if self.limit and self.count > self.limit:
            if L.bounded():
                E.CTX.end()
            raise Unsupported("loop unrolled too many times")
        return True

    def local(self, name, value=None):
        return self.locs.get(name, L.UNSET)

    def after(self):
        pass

    ret = after


def while_(lid, names):
    if E.CTX is None or E.CTX.dead:
        return NativeWhile(0)
    if L.bounded():
        return NativeWhile(2 * E.CTX.bound + 1)
    if lid.rsplit(":", 1)[0] in E.CTX.opts.get("unroll", ()) or "*" in E.CTX.opts.get("unroll", ()):
        return NativeWhile(E.CTX.opts.get("unroll_limit", 40))
    return L.Loop(lid, names, True)


def ret(value, *loops):
    for l in reversed(loops):
        if l is not None:
            l.ret()
    return value


def comp(kind, it, conds, elt, lid):
    """Comprehensions and generator expressions with one generator"""
    acc = None
    if active() and kind in ("list", "set") and B.isinstance(it, types.GeneratorType) and not L.bounded():
        acc = L.VList((), f"list at {lid}") if kind == "list" else L.VSet((), f"set at {lid}")
    else:
        it = peek(it)
    s = symbolic_iter(it) if active() else None
    if acc is not None:
        for x in it:
            if B.isinstance(x, YieldAll):
                x = L.VList(L.segments(x.seq)) if not getattr(x.seq, "atomic", False) else L.VList([L.Splice(x.seq)])
                y = comp(kind, x, conds, elt, lid)
                acc.extend(y) if kind == "list" else acc.update(y)
                continue
            for c in conds:
                if not c(x):
                    break
            else:
                v = elt(x)
                acc.append(v) if kind == "list" else acc.add(v)
        return acc
    if s is None:
        def gen():
            for x in guarded(it):
                for c in conds:
                    if not c(x):
                        break
                else:
                    yield elt(x)
        if kind == "gen":
            it = iter(it)
            return gen()
        if kind == "list":
            r = list(gen())
            return L.VList(r, f"list at {lid}") if active() else r
        if kind == "set":
            if active():
                return L.VSet(gen(), f"set at {lid}")
            return set(gen())
        pairs = list(gen())
        if active() and E.CTX.opts.get("sdict"):
            return L.VMap(pairs, f"dict at {lid}")
        if L.bounded() and any(is_sym(k) for k, _ in pairs):
            return L.VDict(pairs, f"dict at {lid}")
        return dict(pairs)
    if kind == "gen":
        r = it if isinstance(it, L.LazySeq) else L.LazySeq(it)
        for c in conds:
            r = r.stage("filter", c)
        return r.stage("map", elt)
    acc = L.VList((), f"list at {lid}") if kind == "list" else L.VSet((), f"set at {lid}") if kind == "set" else (L.VMap if E.CTX.opts.get("sdict") else L.VDict)((), f"dict at {lid}")
    loop = for_(it, lid, ())
    for x in loop:
        ok = True
        for c in conds:
            if not c(x):
                ok = False
                break
        if ok:
            v = elt(x)
            acc.add(v) if kind == "set" else acc.append(v)
    loop.after()
    return acc


def mklist(*items):
    if active():
        return L.VList(items, "list display")
    return list(items)


class SymArgs:
    """Arguments f(*sequence), where the sequence is symbolic: only functions with *args (or stubs that know about this) may be called with them"""
    _vc_symbolic = True

    def __init__(self, seq):
        self.seq = seq

    def _bad(self, *a, **k):
        raise Unsupported("call with a symbolic number of arguments")

    __bool__ = __eq__ = __lt__ = __iter__ = __len__ = __add__ = __call__ = __getitem__ = __float__ = __str__ = __repr__ = _bad
    __hash__ = None

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self._bad()


def star(xs):
    """f(*xs)"""
    if E.CTX is None or E.CTX.dead or not is_sym(xs):
        return xs
    if B.isinstance(xs, L.VList) and not any(B.isinstance(s, (L.Comp, L.Splice, L.Prefix)) for s in xs.segs):
        return list(xs.segs)
    if L.bounded():
        return list(L.unrolled(xs)) if not B.isinstance(xs, L.VList) else list(L.expand(xs.segs))
    if not (B.isinstance(xs, (L.VList, L.SymSeq)) or hasattr(B.type(xs), "vc_iter") or hasattr(B.type(xs), "vc_segments")):
        return xs
    return (SymArgs(xs),)


def varargs(args):
    """The tuple of the arguments, in the function"""
    if not any(B.isinstance(a, SymArgs) for a in args):
        return args
    out = []
    for a in args:
        out.extend(L.segments(a.seq) if B.isinstance(a, SymArgs) else [a])
    return L.VList(out, "arguments")


KW = "_vc_kw_"


def starkw(kw):
    """f(**kw)"""
    if E.CTX is None or E.CTX.dead or not B.isinstance(kw, L.VMap):
        return kw
    if kw.plain():
        return kw.as_dict()
    return {KW: kw}


def varkw(kw):
    """The dictionary of the arguments with names, in the function"""
    if KW not in kw:
        return kw
    rest = {k: v for k, v in kw.items() if k != KW}
    m = kw[KW].copy()
    if rest:
        # (names are given just once)
        m.segs = list(rest.items()) + m.segs
        m._once = list(m.segs)
    return m


def mkdict(*pairs):
    """Dict display: pairs (key, value), or (mapping,) for **mapping"""
    if E.CTX is not None and not E.CTX.dead and E.CTX.opts.get("sdict"):
        m = L.VMap((), "dict display", True)
        for p in pairs:
            m.__setitem__(*p) if len(p) == 2 else m.update(p[0])
        return m
    d = {}
    for p in pairs:
        if len(p) == 2:
            d[p[0]] = p[1]
        else:
            d = {**d, **p[0]}
    return own(d)


def own(x):
    """x is a new plain collection: it can be changed in this same iteration of the loops"""
    if type(x) is dict and E.CTX is not None and not E.CTX.dead and E.CTX.opts.get("sdict"):
        return L.VMap(x.items(), "dict display")
    if E.CTX is not None and not E.CTX.dead and E.CTX.loops:
        E.CTX.owned[id(x)] = (x, list(E.CTX.loops))
    return x


def mut(x):
    """x is about to be changed"""
    if E.CTX is not None and not E.CTX.dead and E.CTX.loops and type(x) in (dict, list, set, collections.deque, collections.defaultdict, collections.OrderedDict):
        mine = E.CTX.owned.get(id(x))
        if mine is not None and mine[0] is x and len(mine[1]) == len(E.CTX.loops) and all(a is b for a, b in zip(mine[1], E.CTX.loops)):
            return x    # (new in this iteration)
        raise Unsupported(f"change of a plain {type(x).__name__} in a loop")
    return x


class FStr:
    """Text built from symbolic parts: equal iff its parts are"""

    _vc_symbolic = True

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, FStr):
                out.extend(p.parts)
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        self.parts = tuple(out)

    def vc_term(self):
        return self.parts

    def vc_equal(self, o):
        if isinstance(o, FStr):
            return E.equal(self.parts, o.parts)
        return z3.BoolVal(False)

    def __eq__(self, o):
        return SymBool(self.vc_equal(o))

    def __add__(self, o):
        return FStr(self.parts + ((o,) if isinstance(o, str) else o.parts if isinstance(o, FStr) else (o,)))

    def __radd__(self, o):
        return FStr((o,) + self.parts)

    def vc_subst(self, i, j):
        return FStr(L.subst(self.parts, i, j))

    def __hash__(self):
        raise Unsupported("hash of a symbolic text")

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def vc_isinstance(self, cls):
        return cls in (str, object)

    def encode(self, *a):
        return self     # (one to one)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"method {k} of a symbolic text")


def fstr(*parts):
    """parts: constant texts or (value, conversion, format)"""
    sym = False
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if is_sym(v) and active() and not isinstance(v, L.VList):
            sym = True
            out.append(v)
            continue
        if conv == ord("r"):
            v = repr(v)
        elif conv == ord("s"):
            v = B.str(v)
        elif conv == ord("a"):
            v = ascii(v)
        out.append(format(v, spec))
    if sym:
        return FStr(out)
    return "".join(out)


def fmt(_text, *args, **kw):
    """text.format(*args, **kw)"""
    if not active() or not any(is_sym(x) and not isinstance(x, L.VList) for x in [*args, *kw.values()]):
        return _text.format(*args, **kw)
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(_text):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[B.int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            raise Unsupported("format of a part of a value")
        if "{" in (spec or ""):
            raise Unsupported("nested format")
        parts.append((v, ord(conv) if conv else -1, spec or ""))
    return fstr(*parts)


# ------------------------------------------------------------------ builtins


class _Meta(type):
    def __instancecheck__(cls, x):
        return bool(isinstance_(x, cls._real))

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __getattr__(cls, k):
        return getattr(cls._real, k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    @property
    def __name__(cls):
        return cls._real.__name__

    def __or__(cls, o):
        return cls._real | o

    def __ror__(cls, o):
        return o | cls._real

    def __getitem__(cls, k):
        return cls._real[k]


def real(cls):
    if B.isinstance(cls, _Meta):
        return cls._real
    if B.isinstance(cls, tuple):
        return tuple(real(c) for c in cls)
    return cls


class vfloat(metaclass=_Meta):
    _real = float

    def __new__(cls, x=0.0):
        if B.isinstance(x, SymNum):
            v = x.v
            return SymNum(z3.ToReal(v) if v.is_int() else v, x.inf)
        if B.isinstance(x, SymBool):
            return num(x)
        if is_sym(x) and active():
            if hasattr(type(x), "vc_float"):
                return x.vc_float()
            raise Unsupported(f"float({type(x).__name__})")
        f = getattr(type(x), "__float__", None)
        if f is not None and not B.isinstance(x, (int, float)):
            r = f(x)
            if is_sym(r):
                return vfloat(r)
        return float(x)


class vint(metaclass=_Meta):
    _real = int

    def __new__(cls, x=0, *a):
        if B.isinstance(x, SymNum):
            if x.v.is_int():
                return x
            return x.__trunc__()
        if is_sym(x) and active():
            if hasattr(type(x), "vc_int"):
                return x.vc_int()
            raise Unsupported(f"int({type(x).__name__})")
        return int(x, *a)

    from_bytes = int.from_bytes


class vstr(metaclass=_Meta):
    _real = str

    def __new__(cls, *a, **k):
        if a and active() and is_sym(a[0]) and not B.isinstance(a[0], L.VList):
            if B.isinstance(a[0], FStr):
                return a[0]
            return FStr((a[0],))
        return str(*a, **k)


class vlist(metaclass=_Meta):
    _real = list

    def __new__(cls, it=()):
        it = it if hasattr(type(it), "vc_list") else bound(it)
        if not active():
            return list(it)
        if B.isinstance(it, L.VList):
            return L.VList(it.segs, "list()")
        if hasattr(type(it), "vc_list"):
            return it.vc_list()
        s = symbolic_iter(it)
        if s is None:
            if B.isinstance(it, L.Inter):
                return L.VList(it.vc_segments(), "list()")
            if B.isinstance(it, L.VSet):
                return L.VList(it.segs, "list()")
            v = L.VList((), "list()")
            for x in it:
                v.extend(x.seq) if B.isinstance(x, YieldAll) else v.append(x)
            return v
        return L.VList(L.segments(it if not B.isinstance(it, L.VList) else s), "list()")


class vtuple(metaclass=_Meta):
    _real = tuple

    def __new__(cls, it=()):
        it = it if hasattr(type(it), "vc_tuple") else bound(it)
        if not active():
            return tuple(it)
        if B.isinstance(it, L.VList) and it.plain():
            return tuple(it.segs)
        if symbolic_iter(it) is not None:
            return vlist(it)
        if hasattr(type(it), "vc_tuple"):
            return it.vc_tuple()
        return tuple(it)


class vset(metaclass=_Meta):
    _real = set

    def __new__(cls, it=()):
        it = bound(it)
        if not active():
            return set(it)
        if B.isinstance(it, (L.VList, L.VSet)):
            v = L.VSet((), "set()")
            v.segs = list(it.segs)
            return v
        if is_sym(it):
            s = symbolic_iter(it)
            if s is None:
                raise TypeError("not iterable")
            v = L.VSet((), "set()")
            v.segs = L.segments(s)
            return v
        return L.VSet(it, "set()")


class vdict(metaclass=_Meta):
    _real = dict

    def __new__(cls, *a, **k):
        if active() and a and hasattr(type(a[0]), "vc_dict"):
            r = a[0].vc_dict()
            if k:
                r.update(k)
            return r
        if active() and a and E.CTX.opts.get("sdict") and (is_sym(a[0]) or B.isinstance(a[0], types.GeneratorType)):
            m = L.VMap((), "dict()")
            it = peek(a[0])
            m.update(list(L.unrolled(it)) if L.bounded() and is_sym(it) and not B.isinstance(it, (L.VList, L.VMap)) else it, **k)
            return m
        if active() and a and is_sym(a[0]):
            raise Unsupported(f"dict({type(a[0]).__name__})")
        return own(dict(*a, **k))


class vbool(metaclass=_Meta):
    _real = bool

    def __new__(cls, x=False):
        if B.isinstance(x, SymBool):
            return x
        return bool(x)


def isinstance_(x, cls):
    cls = real(cls)
    if B.isinstance(cls, tuple):
        for c in cls:
            if isinstance_(x, c):
                return True
        return False
    if is_sym(cls) or hasattr(type(cls), "vc_instancecheck"):
        return cls.vc_instancecheck(x)
    f = getattr(type(x), "vc_isinstance", None)
    if f is not None:
        return x.vc_isinstance(cls)
    return B.isinstance(x, cls)


def len_(x):
    f = getattr(type(x), "vc_len", None)
    if f is not None:
        return x.vc_len()
    return len(x)


def any_(it):
    it = bound(it)
    if active():
        it = peek(it)
        s = symbolic_iter(it)
        if s is not None:
            segs = L.segments(s)
            return SymBool(L.nonempty(segs, lambda x: E.CTX.reify(lambda: x)))
    return any(guarded(it))


def all_(it):
    it = bound(it)
    if active():
        it = peek(it)
        s = symbolic_iter(it)
        if s is not None:
            segs = L.segments(s)
            return SymBool(z3.Not(L.nonempty(segs, lambda x: z3.Not(E.CTX.reify(lambda: x)))))
    return all(guarded(it))


def sum_constant(v, start):
    """The sum of a sequence of constants: their number matters"""
    j = z3.Int("j!sum")
    for s in L.flat(v.segs):
        if B.isinstance(s, L.Comp):
            parts = [(g, items) for g, items in s.parts(j) if items]
            if s.rank is not None or len(parts) != 1 or not E.CTX.valid(z3.Implies(z3.And(s.lo <= j, j < s.hi), parts[0][0])):
                raise Unsupported("sum of a part of a sequence")
            if not all(type(x) is int for x in parts[0][1]):
                raise Unsupported("sum of different values")
            start = start + SymNum(s.hi - s.lo) * sum(parts[0][1])
        elif B.isinstance(s, (L.Splice, L.Prefix)):
            raise Unsupported("sum of an unknown sequence")
        else:
            start = start + s
    return start


def sum_(it, start=0):
    it = bound(it)
    if active():
        s = symbolic_iter(it)
        if s is not None:
            v = vlist(it)
            if B.isinstance(v, L.VList):
                return sum_constant(v, start)
            raise Unsupported("sum of a symbolic sequence")
    for x in guarded(it):
        start = start + x
    return start


def filter_(f, it):
    it = bound(it)
    if active():
        it = peek(it)
        s = symbolic_iter(it)
        if s is not None:
            r = it if B.isinstance(it, L.LazySeq) else L.LazySeq(s)
            return r.stage("filter", f if f is not None else (lambda x: x))
    return filter(f, it)


def map_(f, *its):
    its = [bound(it) for it in its]
    if active() and len(its) == 1:
        s = symbolic_iter(its[0])
        if s is not None:
            r = its[0] if B.isinstance(its[0], L.LazySeq) else L.LazySeq(s)
            return r.stage("map", f)
    return map(f, *its)


def islice_(it, *args):
    it = bound(it)
    if active():
        s = symbolic_iter(it)
        if s is not None or any(is_sym(a) for a in args):
            if L.bounded() and len(args) == 1:
                return _first(it, num(args[0]))
            if len(args) != 1 or s is None:
                raise Unsupported("islice")
            r = it if B.isinstance(it, L.LazySeq) else L.LazySeq(s)
            return r.take(args[0])
    return itertools.islice(it, *args)


def _first(it, k):
    if E.CTX.branch(k.v < 0):
        raise ValueError("Stop argument for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
    n = 0
    it = iter(it)
    while E.CTX.branch(k.v > n):
        try:
            x = next(it)
        except StopIteration:
            return
        yield x
        n += 1


def one_each(s):
    """A list built by a loop with exactly one item for each iteration, as a sequence"""
    if B.isinstance(s, L.SegSeq) and len(s.segs) == 1:
        c = s.segs[0]
    elif B.isinstance(s, L.CompSeq):
        c = s.comp
    else:
        return s
    if not B.isinstance(c, L.Comp) or c.rank is not None or not z3.simplify(c.lo == 0).eq(z3.BoolVal(True)):
        return s
    j = z3.Int("j")
    parts = c.parts(j)
    if len(parts) != 1 or len(parts[0][1]) != 1 or B.isinstance(parts[0][1][0], (L.Comp, L.Splice, L.Prefix)) or not z3.simplify(parts[0][0]).eq(z3.BoolVal(True)):
        return s
    return L.SymSeq(c.hi, lambda i: c.parts(i)[0][1][0], "list")


def enumerate_(it, start=0):
    it = bound(it)
    if active():
        s = one_each(symbolic_iter(it))
        if s is not None:
            if B.isinstance(s, (L.LazySeq, L.CompSeq, L.SegSeq)):
                raise Unsupported("enumerate of a lazy sequence")
            n, item = s.vc_loop()
            return L.SymSeq(n, lambda i: (SymNum(i + start), item(i)), f"enumerate({s.label})")
    return enumerate(it, start)


def zip_(*its):
    its = [bound(it) for it in its]
    if active():
        ss = [one_each(symbolic_iter(i)) for i in its]
        if any(s is not None for s in ss):
            if any(s is None or B.isinstance(s, (L.LazySeq, L.CompSeq, L.SegSeq)) for s in ss):
                raise Unsupported("zip of different kinds of sequences")
            loops = [s.vc_loop() for s in ss]
            n = loops[0][0]
            for m, _ in loops[1:]:
                if not m.eq(n):
                    n = z3.If(m < n, m, n)
            return L.SymSeq(z3.simplify(n), lambda i: tuple(item(i) for _, item in loops), "zip")
    return zip(*its)


def range_(*args):
    if active() and any(is_sym(a) for a in args):
        if len(args) == 1:
            lo, hi = z3.IntVal(0), num(args[0]).v
        elif len(args) == 2:
            lo, hi = num(args[0]).v, num(args[1]).v
        else:
            raise Unsupported("range with a step")
        n = z3.If(hi - lo > 0, hi - lo, z3.IntVal(0))
        return L.SymSeq(z3.simplify(n), lambda i: SymNum(z3.simplify(lo + i)), "range",
                        contains=lambda x: z3.And(lo <= num(x).v, num(x).v < hi))
    return range(*args)


def _minmax(name, nat, pick):
    def f(*args, **kw):
        if active() and (any(is_sym(a) for a in args)):
            if kw or len(args) < 2:
                raise Unsupported(f"{name} of a collection")
            r = num(args[0])
            for a in args[1:]:
                a = num(a)
                c = pick(a, r)
                av, rv = a.v, r.v
                if av.is_int() != rv.is_int():
                    av = z3.ToReal(av) if av.is_int() else av
                    rv = z3.ToReal(rv) if rv.is_int() else rv
                r = SymNum(z3.If(c, av, rv), z3.simplify(z3.If(c, a.inf, r.inf)))
            return r
        return nat(*args, **kw)
    return f


min_ = _minmax("min", min, lambda a, r: a.lt(r))
max_ = _minmax("max", max, lambda a, r: r.lt(a))


def sorted_(it, **kw):
    it = it if hasattr(type(it), "vc_sorted") else bound(it)
    if active():
        if hasattr(type(it), "vc_sorted"):
            return it.vc_sorted(**kw)
        if symbolic_iter(it) is not None:
            raise Unsupported("sorted of a symbolic sequence")
    return sorted(it, **kw)


def reversed_(it):
    it = bound(it)
    if active() and symbolic_iter(it) is not None:
        segs = []
        for s in L.segments(it if not B.isinstance(it, L.VList) else L.SegSeq(it.segs))[::-1]:
            if B.isinstance(s, L.Comp):
                if s.rank is not None or not z3.simplify(s.lo == 0).eq(z3.BoolVal(True)) or any(B.isinstance(x, (L.Comp, L.Splice)) for _, xs in s.parts(z3.Int("j")) for x in xs):
                    raise Unsupported("reversed symbolic sequence")
                segs.append(L.Comp(s.lo, s.hi, lambda j, s=s: [(g, xs[::-1]) for g, xs in s.parts(z3.simplify(s.hi - 1 - j))]))
            elif B.isinstance(s, (L.Splice, L.Prefix)):
                raise Unsupported("reversed symbolic sequence")
            else:
                segs.append(s)
        return L.VList(segs, "reversed()")
    if B.isinstance(it, L.VList):
        return iter(list(it.segs)[::-1])
    return reversed(it)


def getattr_(o, k, *default):
    if is_sym(k) and active():
        f = getattr(type(o), "vc_getattr", None)
        if f is None:
            raise Unsupported("symbolic attribute name")
        return o.vc_getattr(k, *default)
    return getattr(o, k, *default)


def setattr_(o, k, v):
    if is_sym(k) and active():
        f = getattr(type(o), "vc_setattr", None)
        if f is None:
            raise Unsupported("symbolic attribute name")
        return o.vc_setattr(k, v)
    return setattr(o, k, v)


def hasattr_(o, k):
    if is_sym(k) and active():
        f = getattr(type(o), "vc_hasattr", None)
        if f is None:
            raise Unsupported("symbolic attribute name")
        return o.vc_hasattr(k)
    return hasattr(o, k)


def repr_(x):
    if active() and is_sym(x):
        return FStr((("repr", x),)) if not B.isinstance(x, L.VList) else repr(x)
    return repr(x)


def next_(it, *default):
    if active() and B.isinstance(it, L.SymSeq):
        if hasattr(it, "vc_next"):
            return it.vc_next(*default)
        raise Unsupported("next() of a symbolic sequence")
    return next(it, *default)


def iter_(it, *a):
    it = bound(it)
    if active() and symbolic_iter(it) is not None:
        return it
    return iter(it, *a)


def type_(*a, **k):
    return type(*a, **k)


class YieldAll:
    def __init__(self, seq):
        self.seq = seq


def yf(x):
    """Argument of a yield from"""
    if L.bounded() and active():
        return bound(x)
    if active():
        if symbolic_iter(x) is not None:
            return _yield_all(symbolic_iter(x) if B.isinstance(x, L.VList) else x)
    return x


def _yield_all(seq):
    yield YieldAll(seq)


def yield_all(seq):
    """All the items of a symbolic sequence"""
    if L.bounded():
        yield from L.unrolled(seq)
    else:
        yield YieldAll(seq)


def fromkeys_(it, value=None):
    it = bound(it)
    if active() and (symbolic_iter(it) is not None or B.isinstance(it, (L.VList, L.VSet))):
        raise Unsupported("dict.fromkeys of a symbolic sequence")
    return own(dict.fromkeys(it, value))


vdict.fromkeys = staticmethod(fromkeys_)


def _number(f, sym):
    """f, for symbolic numbers too"""
    @functools.wraps(f)
    def g(*args, **kw):
        if active() and (any(B.isinstance(a, SymNum) for a in args) or any(B.isinstance(a, SymNum) for a in kw.values())):
            args = [num(a) if B.isinstance(a, (SymNum, SymBool, int, float)) else a for a in args]
            return sym(*args, **kw)
        return f(*args, **kw)
    return g


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a, b, rel, ab = num(a), num(b), num(rel_tol), num(abs_tol)
    A, Bv = [z3.ToReal(x.v) if x.v.is_int() else x.v for x in (a, b)]
    mod = lambda x: z3.If(x < 0, -x, x)
    d = mod(A - Bv)
    big = z3.If(mod(A) > mod(Bv), mod(A), mod(Bv))
    return SymBool(z3.Or(a.eq(b), z3.And(z3.Not(a.inf), z3.Not(b.inf), z3.Or(d <= rel.v * big, d <= ab.v))))


def _no(what):
    def f(*a, **k):
        raise Unsupported(what)
    return f


class Proxy:
    """A module of the standard library, with some functions replaced"""

    def __init__(self, module, **new):
        self.__dict__["_vc_module"] = module
        self.__dict__.update(new)

    def __getattr__(self, k):
        return getattr(self._vc_module, k)


def _math():
    import math
    new = {}
    for k, v in vars(math).items():
        if callable(v) and not k.startswith("_"):
            new[k] = _number(v, _no(f"math.{k} of a symbolic number"))
    for k, f in dict(isclose=_isclose, floor=lambda x: x.__floor__(), ceil=lambda x: x.__ceil__(), trunc=lambda x: x.__trunc__(), fabs=abs,
                     isinf=lambda x: SymBool(x.inf), isfinite=lambda x: SymBool(z3.Not(x.inf)), isnan=lambda x: SymBool(z3.BoolVal(False))).items():
        new[k] = _number(getattr(math, k), f)
    return Proxy(math, **new), new


MATH, _mathnew = _math()
REPLACED = {}


def _replace(old, new):
    REPLACED[id(old)] = (old, new)


import math as _m
_replace(_m, MATH)
for _k, _f in _mathnew.items():
    _replace(getattr(_m, _k), _f)
_replace(itertools.islice, islice_)
ITERTOOLS = Proxy(itertools, islice=islice_)
_replace(itertools, ITERTOOLS)


def imported(x):
    """What the instrumented modules see of what they import"""
    r = REPLACED.get(id(x))
    return r[1] if r is not None and r[0] is x else x


OVERRIDES = dict(
    float=vfloat, int=vint, str=vstr, list=vlist, tuple=vtuple, set=vset, dict=vdict, isinstance=isinstance_, len=len_,
    any=any_, all=all_, sum=sum_, filter=filter_, map=map_, enumerate=enumerate_, zip=zip_, range=range_,
    min=min_, max=max_, sorted=sorted_, reversed=reversed_, getattr=getattr_, setattr=setattr_, hasattr=hasattr_,
    repr=repr_, next=next_, iter=iter_, bool=vbool,
)


def is_(a, b):
    """Identity"""
    for x, y in ((a, b), (b, a)):
        if type(x) is E.Poison:
            E.Poison._bad(x)
        if isinstance(x, E.Opaque):
            if y is None:
                return E.CTX.branch(x.e == E.Val.none)
            if isinstance(y, E.Opaque):
                if y is x or y.e.eq(x.e):
                    return True
                raise E.Unsupported("identity of unknown values")
            if isinstance(y, (bool, int, str, float)) or E.is_sym(y):
                raise E.Unsupported("identity of unknown values")
        if isinstance(x, E.SymBool) and isinstance(y, (bool, E.SymBool)):
            return E.CTX.branch(E.zb(x) == E.zb(y))
    return a is b
