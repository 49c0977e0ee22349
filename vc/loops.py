"""
Cut loops and the collections they work on.

A loop over a symbolic collection (or a while loop) is replaced by its inductive summary:

  probe   the body is run from a generic iteration i in order to find out which locations it
          changes and how (unchanged, affine in i, appended to, scratch), and under which
          conditions an iteration completes.  No obligation is generated here.
  iter    the body is run from the state at the start of a generic iteration i, as given by that
          summary (by induction: all the iterations j < i completed).  Obligations are generated.
          The end of the body has to agree with the summary, otherwise everything starts again.
  exit    the code after the loop is run from the state after all the n iterations.

For while loops, iter and exit are the same phase (the condition is evaluated in the generic state).
"""
import sys
import dis
import z3
from . import engine as E
from .engine import SymNum, SymBool, Opaque, Poison, Unsupported, PathEnd, num, zb, equal, same_state

UNSET = Poison("an unset local variable")


# ------------------------------------------------------------------ symbolic sequences of effects


class Comp:
    """
    Segment of a sequence: for j in [lo, hi), in order, the items of the (only) part whose guard holds.
    `parts` are functions of the index: fn(j) -> list of (guard, items)
    """

    def __init__(self, lo, hi, parts, rank=None):
        self.lo, self.hi, self.parts = lo, hi, parts
        self.rank = rank    # limit on the number of items: only the first `rank` ones

    def vc_term(self):
        return ("comp", id(self))

    def __repr__(self):
        j = z3.Int("j")
        return f"[{self.parts(j)} for j in [{self.lo}, {self.hi})" + (f" limit {self.rank}" if self.rank is not None else "") + "]"


class Splice:
    """Segment: all the items of an (unknown) sequence, by identity"""

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return f"*{self.seq!r}"


def subst(x, i, j):
    """Replace the generic index i by j in any value"""
    if isinstance(x, z3.ExprRef):
        return z3.substitute(x, (i, j))
    if isinstance(x, SymNum):
        return SymNum(z3.substitute(x.v, (i, j)), z3.substitute(x.inf, (i, j)))
    if isinstance(x, SymBool):
        return SymBool(z3.substitute(x.e, (i, j)))
    if isinstance(x, tuple):
        return tuple(subst(y, i, j) for y in x)
    if type(x) is list:
        return [subst(y, i, j) for y in x]
    if type(x) is dict:
        return {k: subst(y, i, j) for k, y in x.items()}
    if hasattr(type(x), "vc_subst"):
        return x.vc_subst(i, j)
    if isinstance(x, Comp):
        return Comp(z3.substitute(x.lo, (i, j)), z3.substitute(x.hi, (i, j)),
                    lambda k, p=x.parts: [(z3.substitute(g, (i, j)), [subst(y, i, j) for y in it]) for g, it in p(k)],
                    None if x.rank is None else subst(x.rank, i, j))
    if isinstance(x, Opaque):
        return type(x)(z3.substitute(x.e, (i, j)), x.kind) if type(x) is Opaque else x
    if isinstance(x, VList):
        v = VList.__new__(type(x))
        v._init([subst(y, i, j) for y in x.segs])
        return v
    return x


def bounded():
    """The sequences are bounded (and loops are unrolled)"""
    return E.CTX is not None and E.CTX.bound is not None


def unrolled(seq):
    """The items of a symbolic sequence, one by one (only if the sequences are bounded)"""
    if type(seq) in (VList, VDict) or isinstance(seq, VSet):
        yield from expand(seq.segs)
    elif isinstance(seq, SymSeq) and type(seq).vc_loop is not LazySeq.vc_loop and not isinstance(seq, (CompSeq, SegSeq)):
        n, item = seq.vc_loop()
        for j in indices(z3.IntVal(0), n):
            yield item(j)
    else:
        yield from expand(segments(seq))


def indices(lo, hi):
    k = 0
    while E.CTX.branch(hi > lo + k):
        if k >= E.CTX.bound:
            E.CTX.end()
        yield z3.simplify(lo + k)
        k += 1


def expand(segs):
    for s in segs:
        if isinstance(s, Comp):
            n = 0
            for j in indices(s.lo, s.hi):
                for g, items in s.parts(j):
                    if E.CTX.branch(g):
                        for x in expand(items):
                            if s.rank is not None and not E.CTX.branch(num(s.rank).v > n):
                                break
                            n += 1
                            yield x
                        break
        elif isinstance(s, Splice):
            yield from unrolled(s.seq)
        elif isinstance(s, Prefix):
            raise Unsupported("prefix of a loop")
        else:
            yield s


class Tracked:
    """Mutable object whose changes inside of cut loops are taken into account"""

    _vc_symbolic = True

    def vc_register(self, label):
        self.vc_label = label
        if E.CTX is not None:
            self.vc_loops = list(E.CTX.loops)
            E.CTX.tracked.append(self)

    # state: an immutable snapshot
    def vc_state(self):
        raise NotImplementedError

    def vc_restore(self, state):
        raise NotImplementedError

    def vc_modes(self, head, now):
        """Yields (location, mode) for the changes from head to now. None if there is no change"""
        raise NotImplementedError


class VList(Tracked):
    """List built by the code, possibly in cut loops"""

    def __init__(self, items=(), label="list"):
        self._init(list(items))
        self.vc_register(label)

    def _init(self, segs):
        self.segs = segs

    def vc_state(self):
        return tuple(self.segs)

    def vc_restore(self, state):
        self.segs = list(state)

    # -- effects
    def append(self, x):
        self.segs.append(x)

    def extend(self, xs):
        if isinstance(xs, VList):
            self.segs.extend(xs.segs)
        elif E.is_sym(xs) and bounded():
            self.segs.extend(unrolled(xs))
        elif E.is_sym(xs):
            self.segs.extend([Splice(xs)] if getattr(xs, "atomic", False) else segments(xs))
        else:
            self.segs.extend(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        v = VList(self.segs)
        v.extend(xs)
        return v

    def __radd__(self, xs):
        v = VList(xs)
        v.extend(self)
        return v

    def __mul__(self, k):
        self._need_plain()
        if E.is_sym(k):
            if len(self.segs) != 1:
                raise Unsupported("list repeated a symbolic number of times")
            x = self.segs[0]
            return VList([Comp(z3.IntVal(0), num(k).v, lambda j: [(z3.BoolVal(True), [x])])])
        return VList(self.segs * k)

    __rmul__ = __mul__

    def plain(self):
        return not any(isinstance(s, (Comp, Splice, Prefix)) for s in self.segs)

    def _need_plain(self):
        if not self.plain():
            raise Unsupported("access to a list built in a loop")

    def __len__(self):
        self._need_plain()
        return len(self.segs)

    def vc_len(self):
        if self.plain():
            return len(self.segs)
        return length(self.segs)

    def __bool__(self):
        if self.plain():
            return bool(self.segs)
        if any(not isinstance(s, (Comp, Splice, Prefix)) for s in self.segs):
            return True
        return E.CTX.branch(nonempty(self.segs))

    def __iter__(self):
        self._need_plain()
        return iter(list(self.segs))

    def __getitem__(self, k):
        if isinstance(k, int) and k >= 0 and all(not isinstance(s, (Comp, Splice, Prefix)) for s in self.segs[: k + 1]):
            return self.segs[k]
        if isinstance(k, int) and k >= 0 and self.segs and isinstance(self.segs[0], Comp) and self.segs[0].rank is None:
            c = self.segs[0]
            parts = [(g, it) for g, it in c.parts(c.lo + k) if not z3.is_false(z3.simplify(g))]
            if len(parts) == 1 and len(parts[0][1]) == 1 and z3.is_true(z3.simplify(parts[0][0])):
                if E.CTX.branch(c.lo + k < c.hi):
                    return parts[0][1][0]
                if len(self.segs) == 1:
                    raise IndexError("list index out of range")
        self._need_plain()
        if isinstance(k, slice):
            return VList(self.segs[k])
        return self.segs[k]

    def __setitem__(self, k, v):
        self._need_plain()
        self.segs[k] = v

    def insert(self, k, v):
        self._need_plain()
        self.segs.insert(k, v)

    def pop(self, k=-1):
        self._need_plain()
        return self.segs.pop(k)

    def clear(self):
        self.segs = []

    def copy(self):
        return VList(self.segs)

    def __contains__(self, x):
        return bool(SymBool(member(x, self.segs)))

    def __eq__(self, o):
        if isinstance(o, (list, VList)):
            return SymBool(seq_equal_formula(self.segs, o.segs if isinstance(o, VList) else list(o)))
        return False

    def vc_equal(self, o):
        if isinstance(o, (list, VList)):
            return seq_equal_formula(self.segs, o.segs if isinstance(o, VList) else list(o))
        return z3.BoolVal(False)

    __hash__ = None

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"list method {k}")

    def __repr__(self):
        return f"VList{self.segs}"

    def vc_isinstance(self, cls):
        return cls in (list, object)

    def vc_iterable(self):
        """A symbolic collection to iterate over, or None"""
        if self.plain():
            return None
        if len(self.segs) == 1 and isinstance(self.segs[0], Comp):
            return CompSeq(self.segs[0])
        if len(self.segs) == 1 and isinstance(self.segs[0], Splice):
            return self.segs[0].seq
        return SegSeq(self.segs)


class VDict(VList):
    """Dictionary built by the code in a cut loop, as the list of its (key, value) pairs in order of assignment"""

    def append(self, x):
        self.segs.append(tuple(x))

    def items(self):
        return VList(self.segs, "items()")      # (assumes that the keys are distinct)

    def vc_isinstance(self, cls):
        return cls in (dict, object)

    def _no(self, *a, **k):
        raise Unsupported("dictionary built in a loop")

    __getitem__ = __setitem__ = __iter__ = __contains__ = __add__ = __radd__ = __iadd__ = __mul__ = insert = pop = copy = extend = _no


class Looked:
    """The value of some key of a dictionary, not known further"""
    _vc_symbolic = True

    def __init__(self, label, e):
        self.label, self.e = label, e

    def vc_subst(self, a, b):
        return Looked(self.label, z3.substitute(self.e, (a, b)))

    def vc_term(self):
        return ("value of", self.label, self.e)

    def vc_equal(self, o):
        return self.e == o.e if isinstance(o, Looked) and o.label == self.label else z3.BoolVal(False)

    def _bad(self, *a):
        raise Unsupported("use of the values of a dictionary with any keys")

    __bool__ = __hash__ = __eq__ = _bad

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        self._bad()


class VMap(Tracked):
    """
    Dictionary with symbolic keys: the log of the (key, value) pairs, as segments. The value of a key is the last one in the log.
    """

    def __init__(self, pairs=(), label="dict", distinct=False):
        self.segs = [tuple(p) if type(p) in (list, tuple) else p for p in pairs]
        self._once = list(self.segs) if distinct else None
        self.vc_register(label)

    def same_log(self, segs):
        return len(segs) == len(self.segs) and all(a is b for a, b in zip(segs, self.segs))

    @property
    def distinct(self):
        """No key is twice in the log"""
        return not self.segs or (len(self.segs) == 1 and not isinstance(self.segs[0], (Comp, Splice, Prefix))) or (self._once is not None and self.same_log(self._once))

    def vc_state(self):
        return tuple(self.segs)

    def vc_restore(self, state):
        self.segs = list(state)

    def vc_subst(self, i, j):
        m = VMap.__new__(VMap)
        m.segs = [subst(x, i, j) for x in self.segs]
        m._once, m.vc_label = list(m.segs) if self.distinct else None, self.vc_label
        return m

    def plain(self):
        return not any(isinstance(s, (Comp, Splice, Prefix)) or E.is_sym(s[0]) for s in self.segs)

    def as_dict(self):
        return dict(self.segs)

    # -- reading
    def vc_find(self, key):
        """The value of a key, as a tuple, or None: all the cases are explored"""
        en = self.__dict__.get("_enum")
        if en is not None and self.same_log(en[2]) and z3.is_app(getattr(key, "e", None)) and key.e.decl().eq(en[0](z3.IntVal(0)).decl()):
            return (Looked(self.vc_label, key.e),)
        if self.plain() and not E.is_sym(key):
            d = self.as_dict()
            return (d[key],) if key in d else None
        r = last_item(list(expand(self.segs)) if bounded() else self.segs, lambda p: equal(key, p[0]))
        return None if r is None else (r[0][1],)

    def get(self, key, default=None):
        r = self.vc_find(key)
        return default if r is None else r[0]

    def __getitem__(self, key):
        r = self.vc_find(key)
        if r is None:
            raise KeyError(key)
        return r[0]

    def __contains__(self, key):
        return self.vc_find(key) is not None

    def setdefault(self, key, default=None):
        r = self.vc_find(key)
        if r is None:
            self[key] = default
            return default
        return r[0]

    def __bool__(self):
        if any(not isinstance(s, (Comp, Splice, Prefix)) for s in self.segs):
            return True
        return bool(self.segs) and E.CTX.branch(nonempty(self.segs))

    def items(self):
        if self.plain():
            return VList(self.as_dict().items(), "items()")
        if self.distinct:
            return VList(self.segs, "items()")
        if bounded():
            out = []
            for k, v in expand(self.segs):
                for ix, (k2, _) in enumerate(out):
                    if E.CTX.branch(equal(k, k2)):
                        out[ix] = (k2, v)
                        break
                else:
                    out.append((k, v))
            return VList(out, "items()")
        return VList(self._enumeration()[1], "items()")

    def _enumeration(self):
        """The keys, each once, in some order: an uninterpreted function (the values are not known further: see vc_find for that)"""
        key = E.CTX.opts.get("sdict_key")
        if key is None or E.CTX.loops:
            raise Unsupported("iteration over a dictionary whose keys may be repeated")
        old = self.__dict__.get("_enum")
        if old is not None and self.same_log(old[2]):
            return old
        n = E.CTX.fresh("number of keys", z3.IntSort())
        E.CTX.assume(n >= 0)
        at = E.CTX.func("key in the dictionary", z3.IntSort(), z3.IntSort())
        self._enum = (at, [Comp(z3.IntVal(0), n, lambda r: [(z3.BoolVal(True), [(key(at(r)), Looked(self.vc_label, at(r)))])])], tuple(self.segs))
        return self._enum

    def _each(self, pick, label):
        v = VList(self.items().segs, label)
        v.segs = [map_seg(x, pick) for x in v.segs]
        return v

    def keys(self):
        return self._each(lambda p: p[0], "keys()")

    def values(self):
        return self._each(lambda p: p[1], "values()")

    def vc_iter(self):
        return self.keys().vc_iterable()

    def __iter__(self):
        return iter(self.keys())

    def vc_len(self):
        return self.items().vc_len()

    def __len__(self):
        return len(self.items())

    def copy(self):
        return VMap(self.segs, "copy()", self.distinct)

    vc_dict = copy

    def vc_isinstance(self, cls):
        return cls in (dict, object)

    # -- effects
    def __setitem__(self, key, value):
        self.segs.append((key, value))

    def append(self, pair):
        # (comprehensions)
        self[pair[0]] = pair[1]

    def update(self, *others, **kw):
        for o in others + ((kw,) if kw else ()):
            if isinstance(o, VMap):
                if not self.segs and o.distinct:
                    self._once = list(o.segs)
                self.segs.extend(o.segs)
            elif hasattr(type(o), "vc_pairs"):
                self.segs.extend(o.vc_pairs())
            elif isinstance(o, dict):
                self.segs.extend(o.items())
            elif E.is_sym(o):
                self.segs.extend(segments(o))
            else:
                self.segs.extend(tuple(p) for p in o)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def clear(self):
        self.segs = []

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("comparison of dictionaries with symbolic keys")

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"dict method {k}")

    def __repr__(self):
        return f"VMap{self.segs}"


def map_seg(s, f):
    """The same segment, with f(item) instead of each item"""
    if isinstance(s, Comp):
        return Comp(s.lo, s.hi, lambda j: [(g, [map_seg(x, f) for x in items]) for g, items in s.parts(j)], s.rank)
    if isinstance(s, (Splice, Prefix)):
        raise Unsupported("part of a collection")
    return f(s)


class LenNum(SymNum):
    """Number of items: only whether there is any is known"""
    __slots__ = ("some",)

    def nonzero(self):
        return self.some

    def _bin(self, o, f, name):
        self.loose()
        return super()._bin(o, f, name)

    def loose(self):
        E.CTX.imprecise = True
        E.CTX.notes.append("the number of items of a list built in a loop is not known")

    def lt(self, o):
        self.loose()
        return super().lt(o)

    def le(self, o):
        self.loose()
        return super().le(o)

    def eq(self, o):
        if isinstance(o, int) and o == 0:
            return z3.Not(self.some)
        self.loose()
        return super().eq(o)


def length(segs):
    """Number of items"""
    total = z3.IntVal(0)
    for s in segs:
        if isinstance(s, Prefix):
            raise Unsupported("length of a collection built by the same loop")
        if isinstance(s, Splice):
            total = total + s.seq.n
        elif isinstance(s, Comp):
            parts = s.parts(z3.Int("j")) if s.rank is None else []
            if len(parts) == 1 and z3.is_true(z3.simplify(parts[0][0])) and not any(isinstance(x, (Comp, Splice)) for x in parts[0][1]):
                total = total + z3.If(s.hi > s.lo, s.hi - s.lo, 0) * len(parts[0][1])
            else:
                c = E.CTX
                n = LenNum(c.fresh("length", z3.IntSort()))
                n.some = nonempty(segs)
                c.assume(z3.And(n.v >= 0, (n.v > 0) == n.some))
                return n
        else:
            total = total + 1
    return SymNum(z3.simplify(total))


class Prefix:
    """Unknown items added by previous iterations of a loop that is being probed"""

    def __init__(self, node):
        self.node = node


class VSet(Tracked):
    """Set built by the code: the (unordered) items of the segments"""

    def __init__(self, items=(), label="set"):
        self.segs = []
        self.vc_register(label)
        for i in items:
            self.add(i)

    def vc_state(self):
        return tuple(self.segs)

    def vc_restore(self, state):
        self.segs = list(state)

    def add(self, x):
        self.segs.append(x)

    def update(self, xs):
        if isinstance(xs, (VList, VSet)):
            self.segs.extend(xs.segs)
        elif E.is_sym(xs):
            self.segs.extend(unrolled(xs) if bounded() else segments(xs))
        else:
            self.segs.extend(xs)

    def __contains__(self, x):
        return bool(SymBool(self.contains(x)))

    def contains(self, x):
        return member(x, self.segs)

    def __and__(self, o):
        return Inter(self, o)

    __rand__ = __and__

    def __bool__(self):
        if not self.segs:
            return False
        return E.CTX.branch(nonempty(self.segs))

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"set method {k}")

    __hash__ = None

    def __iter__(self):
        if not bounded():
            raise Unsupported("iteration over a set")
        out = []
        for x in expand(segments(self)):
            if not E.CTX.branch(member(x, out)):
                out.append(x)
        return iter(out)

    def vc_isinstance(self, cls):
        return cls in (set, object)


class Inter(VSet):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.segs = []
        self.vc_register("intersection")

    def contains(self, x):
        def c(s):
            return s.contains(x) if hasattr(s, "contains") else member(x, list(s))
        return z3.And(c(self.a), c(self.b))

    def vc_state(self):
        return ()

    def add(self, x):
        raise Unsupported("change of an intersection")

    update = add

    def has(self, s, x):
        return s.contains(x) if hasattr(s, "contains") else member(x, list(s))

    def __bool__(self):
        a, b = self.a, self.b
        segs = a.segs if isinstance(a, VSet) and not isinstance(a, Inter) else None
        if segs is None:
            raise Unsupported("nested intersection")
        return E.CTX.branch(nonempty(segs, lambda x: self.has(b, x)))

    def vc_segments(self):
        a, b = self.a, self.b
        if isinstance(a, Inter):
            raise Unsupported("nested intersection")
        return filter_segs(a.segs, lambda x: self.has(b, x))


def member(x, segs):
    """x is one of the items, as a formula"""
    alts = []
    for s in segs:
        if isinstance(s, Comp):
            if s.rank is not None:
                raise Unsupported("membership in a truncated sequence")
            j = z3.Int(f"m!{next_id()}")
            inner = []
            for g, items in s.parts(j):
                if items:
                    inner.append(z3.And(g, member(x, items)))
            if inner:
                alts.append(z3.Exists([j], z3.And(s.lo <= j, j < s.hi, z3.Or(*inner))))
        elif isinstance(s, Splice):
            alts.append(s.seq.contains(x))
        elif isinstance(s, Prefix):
            raise Unsupported("membership in a collection built by the same loop")
        else:
            alts.append(equal(x, s))
    return z3.Or(*alts) if alts else z3.BoolVal(False)


def filter_segs(segs, pred):
    out = []
    for s in segs:
        if isinstance(s, Comp):
            def parts(j, s=s):
                r = []
                for g, items in s.parts(j):
                    if not items:
                        r.append((g, []))
                    elif len(items) == 1 and not isinstance(items[0], (Comp, Splice)):
                        r.append((z3.And(g, pred(items[0])), items))
                        r.append((z3.And(g, z3.Not(pred(items[0]))), []))
                    else:
                        raise Unsupported("filter of nested sequences")
                return r
            out.append(Comp(s.lo, s.hi, parts))
        elif isinstance(s, Splice):
            out.extend(filter_segs(segments(s.seq), pred))
        elif isinstance(s, Prefix):
            raise Unsupported("access to a collection built by the same loop")
        else:
            out.append(Comp(z3.IntVal(0), z3.IntVal(1), lambda j, s=s: [(pred(s), [s]), (z3.Not(pred(s)), [])]))
    return out


def nonempty(segs, pred=None):
    alts = []
    for s in segs:
        if isinstance(s, Comp):
            j = z3.Int(f"m!{next_id()}")
            inner = [z3.And(g, nonempty(items, pred)) for g, items in s.parts(j) if items]
            if inner:
                c = z3.Exists([j], z3.And(s.lo <= j, j < s.hi, z3.Or(*inner)))
                if s.rank is not None:
                    if pred is not None:
                        raise Unsupported("truncated sequence")
                    c = z3.And(c, num(s.rank).v > 0)
                alts.append(c)
        elif isinstance(s, Splice):
            if pred is not None:
                alts.append(nonempty(segments(s.seq), pred))
            else:
                alts.append(s.seq.n > 0)
        elif isinstance(s, Prefix):
            raise Unsupported("access to a collection built by the same loop")
        elif pred is not None:
            alts.append(pred(s))
        else:
            return z3.BoolVal(True)
    return z3.Or(*alts) if alts else z3.BoolVal(False)


def last_item(segs, pred=None):
    """The last item (for which pred holds), as a tuple, or None if there is none: all the cases are explored"""
    c = E.CTX
    for s in reversed(list(segs)):
        if isinstance(s, Splice):
            r = last_item(segments(s.seq), pred)
            if r is not None:
                return r
        elif isinstance(s, Comp):
            if s.rank is not None:
                raise Unsupported("last item of a truncated sequence")
            def hit(j):
                inner = [z3.And(g, nonempty(items, pred)) for g, items in s.parts(j) if items]
                return z3.Or(*inner) if inner else z3.BoolVal(False)
            (some, j), m = c.defined(("some", z3.BoolSort()), ("last", z3.IntSort())), z3.Int("m!last")
            c.axiom(some, z3.Implies(some, z3.And(s.lo <= j, j < s.hi, hit(j))))
            c.axiom(some, z3.Implies(z3.And(s.lo <= m, m < s.hi, z3.Or(z3.Not(some), j < m)), z3.Not(hit(m))), m)
            if not c.branch(some):
                continue
            for f in c.on_index:
                c.assume(f(j))
            parts = [(g, items) for g, items in s.parts(j) if items]
            g, items = c.choice("last item", parts) if len(parts) > 1 else parts[0]
            c.assume(z3.And(g, nonempty(items, pred)), check=True)
            return last_item(items, pred)
        elif isinstance(s, Prefix):
            raise Unsupported("access to a collection built by the same loop")
        elif pred is None or c.branch(pred(s)):
            return (s,)
    return None


_ids = [0]


def next_id():
    _ids[0] += 1
    return _ids[0]


def flat(segs):
    out = []
    for s in segs:
        if isinstance(s, Splice) and not getattr(s.seq, "atomic", False):
            out.extend(flat(segments(s.seq)))
        elif isinstance(s, Comp):
            lo, hi = z3.simplify(s.lo), z3.simplify(s.hi)
            if z3.is_int_value(lo) and z3.is_int_value(hi) and lo.as_long() >= hi.as_long():
                continue
            out.append(s)
        else:
            out.append(s)
    return out


def seq_equal_formula(a, b):
    """Sufficient condition for the equality of two sequences of segments, as a formula"""
    if bounded():
        a, b = list(expand(a)), list(expand(b))
        return z3.And(*[equal(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)
    a, b = drop_trivial(flat(a)), drop_trivial(flat(b))
    if len(a) != len(b):
        # they may still be equal if some segments are empty
        if not any(isinstance(s, (Comp, Splice)) for s in a + b):
            return z3.BoolVal(False)
        short, long_ = (a, b) if len(a) < len(b) else (b, a)
        if not short:
            return z3.And(*[z3.Not(nonempty([s])) for s in long_])
        if len(long_) > 7:
            return z3.BoolVal(False)
        return align(a, b)
    conj = []
    for x, y in zip(a, b):
        conj.append(seg_equal(x, y))
    return z3.And(*conj) if conj else z3.BoolVal(True)


def align(a, b):
    """Equality of two sequences of segments, some of which may be empty"""
    if not a or not b:
        rest = a or b
        return z3.And(*[z3.Not(nonempty([s])) for s in rest]) if rest else z3.BoolVal(True)
    alts = [z3.And(seg_equal(a[0], b[0]), align(a[1:], b[1:]))]
    if isinstance(a[0], (Comp, Splice)):
        alts.append(z3.And(z3.Not(nonempty(a[:1])), align(a[1:], b)))
    if isinstance(b[0], (Comp, Splice)):
        alts.append(z3.And(z3.Not(nonempty(b[:1])), align(a, b[1:])))
    return z3.simplify(z3.Or(*alts))


def unmatched(p, q):
    """An index for which one of the sides has no part produces nothing: the other must not produce anything, either"""
    out = []
    for a, b in ((p, q), (q, p)):
        some = z3.Or(*[h for h, _ in b]) if b else z3.BoolVal(False)
        for g, it in a:
            if flat(it):
                out.append(z3.Implies(z3.And(g, z3.Not(some)), seq_equal_formula(it, [])))
    return out


def seg_equal(x, y):
    if isinstance(x, Comp) and isinstance(y, Comp):
        if (x.rank is None) != (y.rank is None):
            return z3.BoolVal(False)
        j = z3.Int(f"q!{next_id()}")
        conj = []
        for g, it in x.parts(j):
            for h, jt in y.parts(j):
                e = seq_equal_formula(it, jt)
                conj.append(z3.Implies(z3.And(g, h), e))
        conj += unmatched(x.parts(j), y.parts(j))
        body = z3.Implies(z3.And(x.lo <= j, j < x.hi), z3.And(*conj) if conj else z3.BoolVal(True))
        r = z3.And(x.lo == y.lo, x.hi == y.hi, z3.ForAll([j], body))
        if x.rank is not None:
            r = z3.And(r, equal(x.rank, y.rank))
        # both empty
        return z3.Or(r, z3.And(z3.Not(nonempty([x])), z3.Not(nonempty([y]))))
    if isinstance(x, Splice) and isinstance(y, Splice):
        return z3.BoolVal(x.seq is y.seq)
    if isinstance(x, (Comp, Splice, Prefix)) or isinstance(y, (Comp, Splice, Prefix)):
        return z3.BoolVal(False)
    return equal(x, y)


def seq_goals(a, b):
    """Goals, without quantifiers, that are sufficient for the equality of two sequences of segments (or None)"""
    a, b = [drop_trivial(flat(x)) for x in (a, b)]
    if len(a) != len(b):
        return None
    goals = []
    for x, y in zip(a, b):
        if isinstance(x, Comp) and isinstance(y, Comp):
            if (x.rank is None) != (y.rank is None):
                return None
            j = z3.Int(f"sk!{next_id()}")
            goals += [x.lo == y.lo, x.hi == y.hi]
            if x.rank is not None:
                goals.append(equal(x.rank, y.rank))
            for g, it in x.parts(j):
                for h, jt in y.parts(j):
                    if flat(it) or flat(jt):
                        goals.append(z3.Implies(z3.And(x.lo <= j, j < x.hi, g, h), seq_equal_formula(it, jt)))
            goals += [z3.Implies(z3.And(x.lo <= j, j < x.hi), e) for e in unmatched(x.parts(j), y.parts(j))]
        else:
            goals.append(seg_equal(x, y))
    return goals


def drop_trivial(segs):
    """Without the segments that never produce anything"""
    def trivial(s):
        if isinstance(s, Comp):
            j = z3.Int("j")
            return all(not flat(items) or z3.is_false(z3.simplify(g)) for g, items in s.parts(j))
        return False
    return [s for s in segs if not trivial(s)]


def segments(seq):
    """Symbolic collection as a list of segments"""
    if isinstance(seq, Inter):
        return seq.vc_segments()
    if isinstance(seq, (VList, VSet)):
        return list(seq.segs)
    if hasattr(seq, "vc_segments"):
        return seq.vc_segments()
    raise Unsupported(f"{type(seq).__name__} used as a sequence")


# ------------------------------------------------------------------ symbolic collections


class SymSeq:
    """
    A sequence of symbolic length n whose i-th item is item(i).
    """

    _vc_symbolic = True
    atomic = False

    def __init__(self, n, item, label="seq", contains=None):
        self.n, self.item, self.label = n, item, label
        self._contains = contains

    def vc_len(self):
        return SymNum(self.n)

    def vc_loop(self):
        return self.n, self.item

    def vc_segments(self):
        return [Comp(z3.IntVal(0), self.n, lambda j: [(z3.BoolVal(True), [self.item(j)])])]

    def __iter__(self):
        if bounded():
            return unrolled(self)
        raise Unsupported(f"iteration over {self.label} by uninstrumented code")

    def __bool__(self):
        return E.CTX.branch(self.n > 0)

    def __contains__(self, x):
        return bool(SymBool(self.contains(x)))

    def contains(self, x):
        if self._contains is not None:
            return self._contains(x)
        return member(x, self.vc_segments())

    def __getitem__(self, k):
        if isinstance(k, int) and k < 0:
            k = SymNum(self.n + k)
        if isinstance(k, slice) and bounded():
            return VList(list(unrolled(self))[k])
        k = num(k)
        if k is None:
            raise Unsupported("slice of a symbolic sequence")
        if E.CTX.branch(z3.Or(k.v < 0, k.v >= self.n)):
            raise IndexError("index out of range")
        return self.item(k.v)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"method {k} of {self.label}")

    def __repr__(self):
        return f"<{self.label}[{self.n}]>"

    __hash__ = None

    def __eq__(self, o):
        return self is o

    def vc_isinstance(self, cls):
        return cls in (list, object)


class CompSeq(SymSeq):
    """Iteration over the items of a Comp with at most one item for each index"""

    def __init__(self, comp):
        self.comp = comp
        self.n = comp.hi
        self.label = "list built in a loop"
        self._contains = None

    def vc_len(self):
        raise Unsupported("length of a list built in a loop")

    def __bool__(self):
        return E.CTX.branch(nonempty([self.comp]))

    def __getitem__(self, k):
        raise Unsupported("item of a list built in a loop")

    def vc_segments(self):
        return [self.comp]


class SegSeq(SymSeq):
    """Items of several segments"""

    def __init__(self, segs):
        self.segs = list(segs)
        self.label = "list built in several loops"
        self._contains = None

    @property
    def n(self):
        raise Unsupported("length of a list built in several loops")

    def vc_len(self):
        return length(self.segs)

    def vc_loop(self):
        raise Unsupported("list built in several loops")

    def __bool__(self):
        return E.CTX.branch(nonempty(self.segs))

    def __getitem__(self, k):
        raise Unsupported("item of a list built in several loops")

    def vc_segments(self):
        return list(self.segs)


class LazySeq(SymSeq):
    """Base sequence, with filters/maps that are evaluated for each item (generator expressions, filter...)"""

    def __init__(self, base, stages=(), rank=None):
        self.base, self.stages, self.rank = base, tuple(stages), rank
        self.label = "lazy " + str(getattr(base, "label", ""))
        self._contains = None

    @property
    def n(self):
        raise Unsupported("length of a lazy sequence")

    def stage(self, kind, f):
        if self.rank is not None:
            raise Unsupported("filter on a truncated sequence")
        return LazySeq(self.base, self.stages + ((kind, f),))

    def take(self, k):
        if self.rank is not None:
            raise Unsupported("truncated twice")
        return LazySeq(self.base, self.stages, num(k))

    def at(self, x):
        """[(condition, value or nothing)] for an item of the base: the conditions are exhaustive"""
        ctx = E.CTX

        def run(x):
            for kind, f in self.stages:
                if kind == "filter":
                    if not SymBool(ctx.reify(lambda: f(x))):
                        return []
                else:
                    x = f(x)
            return [x]
        return ctx.cases(lambda: run(x))

    def vc_segments(self):
        """Evaluate for a generic item"""
        segs = segments(self.base)
        out = []
        for s in segs:
            if isinstance(s, Comp):
                if s.rank is not None:
                    raise Unsupported("truncated sequence as a base")
                i = z3.Int(f"g!{next_id()}")
                parts = []
                ctx = E.CTX
                ctx.solver.push()
                pc = list(ctx.pc)
                ctx.assume(z3.And(s.lo <= i, i < s.hi))
                try:
                    for g, items in s.parts(i):
                        if not items:
                            parts.append((g, []))
                            continue
                        if len(items) != 1 or isinstance(items[0], (Comp, Splice)):
                            raise Unsupported("nested sequences")
                        for h, ys in self.at(items[0]):
                            parts.append((z3.And(g, h), ys))
                finally:
                    ctx.pc = pc
                    ctx.solver.pop()
                out.append(Comp(s.lo, s.hi, lambda j, i=i, parts=parts: [(z3.substitute(g, (i, j)), [subst(y, i, j) for y in it]) for g, it in parts]))
            elif isinstance(s, (Splice, Prefix)):
                raise Unsupported("lazy sequence over an unknown one")
            else:
                for h, ys in self.at(s):
                    if E.CTX.branch(h):
                        out.extend(ys)
                        break
        if self.rank is not None:
            if len(out) == 1 and isinstance(out[0], Comp):
                out[0].rank = self.rank
            elif all(not isinstance(s, Comp) for s in out):
                raise Unsupported("truncated list")
            else:
                raise Unsupported("truncated list")
        return out

    def vc_loop(self):
        raise AssertionError

    def __bool__(self):
        return True  # generators are always true

    def __iter__(self):
        if bounded():
            return unrolled(self)
        raise Unsupported("iteration over a lazy sequence by uninstrumented code")

    def __next__(self):
        raise Unsupported("next() on a lazy sequence")


# ------------------------------------------------------------------ loops

_ALLOWED_OPS = {"FOR_ITER", "SEND", "END_SEND", "INSTRUMENTED_FOR_ITER"}
_uid = [0]


class NativeLoop:
    """Not a symbolic collection: nothing is changed"""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def local(self, name, value):
        return value

    local_exit = local

    def after(self):
        pass

    def ret(self):
        pass


class MultiLoop:
    """Loop over a list with several segments: one after another"""

    def __init__(self, lid, names, segs):
        self.lid, self.names = lid, names
        self.todo = list(segs)
        self.cur = None         # current loop
        self.over = {}          # values of the local variables after the last loop

    def __iter__(self):
        return self

    def __next__(self):
        frame = sys._getframe(1)
        while True:
            if E.CTX is None or E.CTX.dead:
                raise StopIteration
            if self.cur is not None:
                try:
                    return self.cur.next(frame, self.over)
                except StopIteration:
                    self.over = {k: self.cur.local_exit(k) for k in self.names}
                    self.cur.after()
                    self.cur = None
            if not self.todo:
                raise StopIteration
            s = self.todo.pop(0)
            if isinstance(s, Splice):
                self.todo = segments(s.seq) + self.todo
                continue
            if isinstance(s, Prefix):
                raise Unsupported("iteration over a list built by the same loop")
            if isinstance(s, Comp):
                if s.rank is not None:
                    raise Unsupported("iteration over a truncated sequence")
                self.cur = Loop(self.lid, self.names, False, s.hi, comp=s)
                continue
            return s

    def local(self, name, value):
        if self.cur is not None:
            return self.cur.local(name, value)
        return self.over.pop(name) if name in self.over else value

    def local_exit(self, name, value):
        return self.over.pop(name) if name in self.over else value

    def after(self):
        if self.cur is not None:
            self.cur.after()

    def ret(self):
        self.after()


class Loop:
    def __init__(self, lid, names, is_while, n=None, item=None, comp=None):
        ctx = E.CTX
        self.ctx = ctx
        self.lid, self.names, self.is_while = lid, names, is_while
        self.n, self.item, self.comp = n, item, comp
        if comp is not None and not z3.simplify(comp.lo == 0).eq(z3.BoolVal(True)):
            raise Unsupported("iteration over a part of a sequence")
        self.state = 0
        if ctx.dead:
            self.phase = "dead"
            return
        if ctx.pos < len(ctx.stack):
            node = ctx.stack[ctx.pos]
            if not isinstance(node, E.LoopNode):
                raise Unsupported("non-deterministic exploration")
        else:
            node = E.LoopNode(lid, is_while)
            ctx.stack.append(node)
        self.uid = f"{ctx.pos}"
        if ctx.loops:
            self.uid = f"{ctx.loops[-1].uid}_{ctx.pos}"
        ctx.pos += 1
        self.node = node
        self.phase = node.phase
        ctx.result.cuts.add(lid)
        # (a function of the indices of the enclosing loops)
        outer = [l.i for l in ctx.loops]
        self.i = z3.Function(f"i!{self.uid}!{self.phase}", *[z3.IntSort()] * len(outer), z3.IntSort())(*outer) \
            if outer else z3.Int(f"i!{self.uid}!{self.phase}")
        self.depth = len(ctx.loops)

    # -- protocol for instrumented code
    def __iter__(self):
        return self

    def __next__(self):
        return self.next(sys._getframe(1))

    def next(self, frame, override=None):
        ctx = self.ctx
        if self.phase == "dead" or ctx.dead:
            raise StopIteration
        if not self.is_while:
            op = dis.opname[frame.f_code.co_code[frame.f_lasti]]
            if op not in _ALLOWED_OPS:
                raise Unsupported(f"symbolic iteration consumed by {op}")
        if self.state == 0:
            self.enter({**frame.f_locals, **(override or {})})
            if self.phase == "exit":
                self.state = 2
                raise StopIteration
            self.state = 1
            if self.comp is None:
                return self.item(self.i)
            # list built by another loop, with at most one item for each of its iterations
            parts = self.comp.parts(self.i)
            g, items = ctx.choice("kind of item", parts) if len(parts) > 1 else parts[0]
            ctx.assume(g, check=True)
            if not items:
                self.back_edge({k: self.head_locals[k] for k in self.names})
                ctx.end()
            if len(items) > 1 or isinstance(items[0], (Comp, Splice)):
                raise Unsupported("iteration over nested sequences")
            return items[0]
        if self.state == 1:
            self.back_edge(dict(frame.f_locals))
            ctx.end()
        raise StopIteration

    # while loops
    def arrive(self, locs):
        if self.phase == "dead" or self.ctx.dead:
            self.cur_locals = dict(locs)
            return True
        if self.state == 0:
            self.enter(dict(locs))
            self.state = 1
            return True
        self.back_edge(dict(locs))
        self.ctx.end()

    # -- state at the head
    def enter(self, locs):
        ctx, node = self.ctx, self.node
        self.locals0 = {k: locs.get(k, UNSET) for k in self.names}
        self.heap0 = [(t, t.vc_state()) for t in ctx.tracked]
        self.ntracked = len(ctx.tracked)
        self.pc0 = len(ctx.pc)
        if self.phase == "exit":
            self.install(self.n, node.iter_summary)
            ctx.assume(self.n >= 0)
            self.facts(self.n, node.iter_summary)
            ctx.assume(z3.BoolVal(True), check=True)
            return
        # generic iteration
        ctx.loops.append(self)
        ctx.assume(self.i >= 0)
        for f in ctx.on_index:
            ctx.assume(f(self.i))
        if not self.is_while:
            ctx.assume(self.i < self.n)
        summary = None if self.phase == "probe" else node.probe_summary
        self.install(self.i, summary)
        if summary is not None:
            self.facts(self.i, summary)
        if self.phase == "probe":
            ctx.suppress += 1
        ctx.assume(z3.BoolVal(True), check=True)
        self.pc1 = len(ctx.pc)
        self.heap1 = [(t, t.vc_state()) for t, _ in self.heap0]

    def install(self, i, summary):
        """Set the state of the locations changed by the loop, at the start of iteration i"""
        node = self.node
        self.head_conds = []
        self.head_locals = {}
        for k in self.names:
            mode = node.installed.get(("local", k))
            self.head_locals[k] = self.value_at(mode, self.locals0[k], i, f"local variable {k} of {self.lid}", ("local", k), summary)
        for ix, (t, st) in enumerate(self.heap0):
            modes = {loc[2]: m for loc, m in node.installed.items() if loc[0] == "heap" and loc[1] == ix}
            if modes:
                t.vc_install(self, st, modes, i, summary, ix)

    def value_at(self, mode, v0, i, what, loc, summary=None):
        if mode is None:
            return v0
        if mode[0] == "affine":
            d = mode[1]
            v = num(v0)
            return SymNum(v.v + d * i, v.inf)
        if mode[0] == "fresh":
            # a number about which nothing is known
            self.ctx.imprecise = True
            self.ctx.notes.append(f"nothing is known about {what}")
            f = z3.Function(f"havoc!{self.uid}!{self.phase}!{loc}", z3.IntSort(), mode[1])
            fi = z3.Function(f"havocinf!{self.uid}!{self.phase}!{loc}", z3.IntSort(), z3.BoolSort())
            return SymNum(f(i), fi(i) if mode[2] else None)
        if mode[0] == "prev":
            # the value given to it by the previous iteration
            first = self.ctx.branch(i == 0)
            self.head_conds.append(i == 0 if first else i != 0)
            return v0 if first else subst(mode[1], mode[2], z3.simplify(i - 1))
        if mode[0] == "last" and summary is not None:
            # the value given to it by the last of the iterations that changed it
            read = (self.lid, loc, "read")
            if self.phase == "iter" and read not in self.ctx.opts["precise"]:
                return Poison(what, read)       # (it is seldom needed in the loop itself)
            k = len(self.ctx.pc)
            r = last_item([comp_of(summary, loc, z3.IntVal(0), i)])
            self.head_conds.extend(self.ctx.pc[k:])
            return v0 if r is None else r[0]
        return Poison(what, (self.lid, loc) if mode[0] == "poison" else None)

    def facts(self, n, summary):
        """All the iterations before n were completed, in one of the ways in the summary"""
        if not summary:
            # no iteration is ever completed
            self.ctx.assume(n <= 0)
            return
        j = z3.Int(f"j!{self.uid}")
        alts = []
        for rec in summary:
            alts.append(z3.And(*[z3.substitute(c, (rec["i"], j)) for c in rec["pc"]]) if rec["pc"] else z3.BoolVal(True))
        body = z3.simplify(z3.Or(*alts))
        if z3.is_true(body):
            return
        self.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), body)))

    def local(self, name, value=None):
        if self.phase == "dead" or self.ctx.dead:
            if self.is_while:
                return self.cur_locals.get(name, UNSET)
            return value
        return self.head_locals[name]

    local_exit = local

    def after(self):
        """The loop has finished (also, with a break)"""
        if self.phase == "dead" or self.ctx.dead:
            return
        self.leave()

    def ret(self):
        self.after()

    def leave(self):
        ctx = self.ctx
        if self.state == 1:
            self.state = 3
            if self.phase == "probe":
                ctx.suppress -= 1
                ctx.end()
            # The code after the loop is no longer generic on i: it is some iteration of it
            if self in ctx.loops:
                del ctx.loops[ctx.loops.index(self):]

    # -- end of the body
    def back_edge(self, locs):
        ctx, node = self.ctx, self.node
        if self not in ctx.loops or ctx.loops[-1] is not self:
            # an inner loop was left through an exception
            while ctx.loops and ctx.loops[-1] is not self:
                l = ctx.loops.pop()
                if l.phase == "probe" and l.state == 1:
                    ctx.suppress -= 1
        effects = {}
        for k in self.names:
            loc = ("local", k)
            self.observe(loc, self.head_locals[k], locs.get(k, UNSET), effects)
        seen = set()
        for ix, (t, st) in enumerate(self.heap1):
            now = t.vc_state()
            if same_state(st, now):
                continue
            for sub, kind, data in t.vc_changes(self, st, now):
                loc = ("heap", ix, sub)
                seen.add(loc)
                if kind == "value":
                    self.observe(loc, *data, effects)
                else:
                    self.need(loc, (kind,))
                    effects[loc] = data
        # locations that are changed in other iterations, but not in this one
        for loc, mode in list(node.plan.items()):
            if loc[0] == "heap" and loc not in seen and mode[0] in ("affine", "prev"):
                st = self.heap1[loc[1]][1]
                if type(st) is not dict:
                    raise Unsupported(f"location {loc} changed in some of the iterations of loop {self.lid}")
                v = st.get(loc[2], UNSET)
                self.observe(loc, v, v, effects)
        pc = self.head_conds + ctx.pc[self.pc1:]
        node.summary.append(dict(i=self.i, pc=list(pc), effects=effects))

    def need(self, loc, mode):
        if self.node.plan.get(loc) is None:
            self.node.plan[loc] = mode
            self.node.changed = True
        elif self.node.plan[loc][0] != mode[0]:
            raise Unsupported(f"location {loc} changed in different ways in loop {self.lid}")

    def observe(self, loc, head, now, effects):
        """A location with value `head` at the start of the iteration has value `now` at its end"""
        plan = self.node.plan
        mode = plan.get(loc)
        if type(now) is Poison and head is not now and (self.lid, loc) in self.ctx.opts["precise"]:
            E.want(now)     # (given by an inner loop)
        if mode is None:
            if head is now or same_state(head, now):
                return
            new = self.delta(head, now)
            if new[0] in ("poison", "fresh") and (self.lid, loc) in self.ctx.opts["precise"] and type(now) is not Poison:
                new = ("prev", now, self.i, 0)
            plan[loc] = new
            self.node.changed = True
        elif mode[0] == "last":
            if head is now or same_state(head, now):
                pass
            elif type(now) is Poison:
                plan[loc] = ("unknown",)
                self.node.changed = True
            else:
                effects[loc] = [now]
        elif mode[0] == "prev" and head is now:
            # not changed by all the iterations
            plan[loc] = ("last",)
            self.node.changed = True
        elif mode[0] == "prev":
            if type(now) is Poison or not same_state(subst(mode[1], mode[2], self.i), now):
                if type(now) is not Poison and mode[3] < 3:
                    # it may depend on other locations, whose values were not known yet: another try
                    plan[loc] = ("prev", now, self.i, mode[3] + 1)
                else:
                    plan[loc] = self.weaken(head, now) if type(now) is not Poison and type(head) is not Poison else ("unknown",)
                if plan[loc][0] == "poison":
                    plan[loc] = ("unknown",)
                self.node.changed = True
        elif mode[0] == "affine":
            d = self.delta(head, now)
            if d[0] != "affine" or not z3.simplify(d[1] - mode[1]).eq(z3.IntVal(0)) and not z3.is_true(z3.simplify(d[1] == mode[1])):
                plan[loc] = self.weaken(head, now)
                self.node.changed = True
        elif mode[0] == "fresh":
            n = num(now) if not isinstance(now, Poison) else None
            if n is None:
                plan[loc] = ("poison",)
                self.node.changed = True

    def delta(self, head, now):
        if isinstance(head, Poison) or isinstance(now, Poison):
            return ("poison",)
        h, n = num(head) if not isinstance(head, (Opaque, Tracked)) else None, None
        if h is not None:
            n = num(now)
        if h is None or n is None:
            return ("poison",)
        d = z3.simplify(n.v - h.v)
        if h.finite and n.finite and (z3.is_rational_value(d) or z3.is_int_value(d)):
            return ("affine", d)
        return self.weaken(head, now)

    def weaken(self, head, now):
        h, n = num(head), num(now)
        if h is None or n is None:
            return ("poison",)
        sort = z3.RealSort() if (not h.v.is_int() or not n.v.is_int()) else z3.IntSort()
        return ("fresh", sort, not (h.finite and n.finite))


def comp_of(summary, loc, lo, hi):
    """Segment with the effects on a location of all the iterations in [lo, hi)"""
    def parts(j):
        out = []
        for rec in summary:
            i = rec["i"]
            g = z3.And(*[z3.substitute(c, (i, j)) for c in rec["pc"]]) if rec["pc"] else z3.BoolVal(True)
            items = [subst(x, i, j) for x in rec["effects"].get(loc, [])]
            out.append((g, items))
        return out
    return Comp(lo, hi, parts)


def _list_install(self, loop, st, modes, i, summary, ix):
    if summary is None:
        self.segs = list(st) + [Prefix(loop.node)]
    else:
        c = comp_of(summary, ("heap", ix, "items"), z3.IntVal(0), i)
        c.node = loop.node
        self.segs = list(st) + [c]


def _list_changes(self, loop, st, now):
    if len(now) < len(st) or not same_state(st, now[: len(st)]):
        raise Unsupported(f"{self.vc_label} changed in a loop other than adding to it")
    yield "items", "append", list(now[len(st):])


VList.vc_install = VSet.vc_install = VMap.vc_install = _list_install
VList.vc_changes = VSet.vc_changes = VMap.vc_changes = _list_changes


class Obj:
    """
    Mixin for the objects on which the code under verification works: it keeps track of the
    attributes that are set.
    """


def tracked_class(cls, volatile=()):
    """Subclass of a real class that keeps track of the changes of the attributes of its instances"""

    class T(cls, Tracked):
        _vc_symbolic = False

        def vc_state(self):
            return dict(self.__dict__.get("_vc_attrs", {}))

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)
            if not k.startswith("vc_"):
                self.__dict__.setdefault("_vc_attrs", {})[k] = v

        def __delattr__(self, k):
            object.__delattr__(self, k)
            self.__dict__.setdefault("_vc_attrs", {}).pop(k, None)

        def vc_install(self, loop, st, modes, i, summary, ix):
            for k, mode in modes.items():
                if k in st:
                    v = loop.value_at(mode, st[k], i, f"attribute {k}", ("heap", ix, k), summary)
                else:
                    v = Poison(f"attribute {k}")
                self.__dict__[k] = v
                self.__dict__["_vc_attrs"][k] = v

        def vc_changes(self, loop, st, now):
            for k in set(st) | set(now):
                a, b = st.get(k, UNSET), now.get(k, UNSET)
                if a is b or same_state(a, b):
                    continue
                yield k, "value", (a, b)

    T.__name__ = cls.__name__
    T.__qualname__ = cls.__qualname__
    return T


def make(cls, label=None, **attrs):
    """Instance of (a tracked subclass of) a real class, without calling its constructor"""
    T = tracked_class(cls)
    o = object.__new__(T)
    o.__dict__["_vc_attrs"] = {}
    for k, v in attrs.items():
        o.__setattr__(k, v)
    o.vc_label = label or cls.__name__
    if E.CTX is not None:
        E.CTX.tracked.append(o)
    return o
