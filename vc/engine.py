"""
Deductive verification engine for the Python sources of soil.

The *real* functions (loaded from /repo by loader.py, with a mechanical instrumentation that is
described there) are executed by CPython on symbolic values.  Every branch on a symbolic value is
explored (depth first, by re-execution), every loop over a symbolic collection is cut with an
inductive summary (see Loop), and every obligation stated by a contract is discharged with an SMT
solver under the path condition.  Nothing is bounded: sequences have symbolic length, numbers are
mathematical (extended) reals/integers.
"""
import sys
import time as _time
import itertools
import re

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

CTX = None  # current path context


class Control(BaseException):
    pass


class PathEnd(Control):
    """This path has been completely dealt with (back edge of a loop)"""


class Infeasible(Control):
    """The path condition is unsatisfiable"""


class Unsupported(Control):
    """The code does something out of the reach of the engine: the function is undecided"""


class Restart(Control):
    """More has to be known about some location that is changed in a loop"""


class Budget(Control):
    """Too many paths or too much time: undecided"""


# Opaque Python values: none, numbers, texts (numbered literals) and anything else
_V = z3.Datatype("Val")
_V.declare("none")
_V.declare("number", ("as_number", z3.RealSort()))
_V.declare("text", ("text_id", z3.IntSort()))
_V.declare("obj", ("obj_id", z3.IntSort()))
Val = _V.create()
_TEXTS = {}


def is_sym(x):
    return getattr(type(x), "_vc_symbolic", False)


# ------------------------------------------------------------------ exploration


class Node:
    """A decision point of the exploration"""

    def __init__(self, alts):
        self.alts = list(alts)
        self.k = 0

    @property
    def cur(self):
        return self.alts[self.k]

    def advance(self):
        self.k += 1
        return self.k < len(self.alts)


class LoopNode:
    """Decision point for a loop that is cut: probe* -> iter -> exit"""

    def __init__(self, lid, is_while):
        self.lid = lid
        self.is_while = is_while
        self.phase = "probe"
        self.plan = {}          # location -> mode
        self.installed = {}     # the plan at the start of the phase
        self.changed = False
        self.summary = []       # back edges seen in this phase
        self.probe_summary = None
        self.iter_summary = None
        self.rounds = 0

    @property
    def cur(self):
        return self.phase

    def advance(self):
        self.installed = dict(self.plan)
        if self.phase == "probe":
            if self.changed:
                self.changed = False
                self.summary = []
                self.rounds += 1
                if self.rounds > 8:
                    raise Unsupported(f"no stable summary for loop {self.lid}")
                return True
            self.probe_summary = self.summary
            self.summary = []
            self.phase = "iter"
            return True
        if self.phase == "iter":
            if self.changed:
                # An effect that was not seen when probing: start again
                self.changed = False
                self.summary = []
                self.phase = "probe"
                self.rounds += 1
                if self.rounds > 8:
                    raise Unsupported(f"no stable summary for loop {self.lid}")
                return True
            self.iter_summary = self.summary
            if self.is_while:
                return False
            self.phase = "exit"
            return True
        return False


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = {}   # name -> dict(discharged=, refuted=[], unknown=[])
        self.undecided = []     # reasons
        self.paths = 0
        self.covers = set()
        self.solver_s = 0.0
        self.queries = []       # smt2 of discharged obligations (thorough)
        self.wall_s = 0.0
        self.cuts = set()
        self.axioms = {}        # definitions of symbols
        self.prefixes = {}
        self.tries = {}
        self.maybe = set()
        self.symbols = {}

    def ob(self, name):
        return self.obligations.setdefault(name, dict(discharged=0, refuted=[], unknown=[]))

    @property
    def total(self):
        return sum(o["discharged"] + len(o["refuted"]) + len(o["unknown"]) for o in self.obligations.values())

    @property
    def discharged(self):
        return sum(o["discharged"] for o in self.obligations.values())

    @property
    def refuted(self):
        return [r for o in self.obligations.values() for r in o["refuted"]]

    @property
    def unknown(self):
        return [r for o in self.obligations.values() for r in o["unknown"]]


_DEFINED = re.compile(r"[a-z]+!d[0-9]+")


class Ctx:
    def __init__(self, stack, result, opts):
        self.stack = stack
        self.pos = 0
        self.result = result
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("feasible_ms", 250))
        self.pc = []
        self.counter = 0
        self.loops = []         # active cut loops (generic index, node, Loop)
        self.suppress = 0       # > 0 while probing
        self.dead = False
        self.owned = {}         # plain collections created in loops
        self.tracked = []       # tracked mutable objects, in order of creation
        self.imprecise = False
        self.notes = []
        self.trace = []
        self.events = None      # ghost log, set by contracts
        self.ambient = []       # calls to ambient (non model) randomness, clock...
        self.on_index = []      # facts about any index (to instantiate the assumptions)
        self.inputs = []        # named symbolic inputs, for counterexamples
        self.bound = opts.get("bound")  # if set: loops are not cut, but unrolled, for sequences of up to this length

    # -- symbols
    def fresh(self, name, sort):
        self.counter += 1
        prefix = ".".join(str(l.uid) for l in self.loops)
        full = f"{name}!{prefix}!{self.counter}"
        if self.loops:
            idx = [l.i for l in self.loops]
            f = z3.Function(full, *[z3.IntSort()] * len(idx), sort)
            return f(*idx)
        return z3.Const(full, sort)

    def func(self, name, *sorts):
        """A fresh function, which may also depend on the enclosing loops"""
        self.counter += 1
        prefix = ".".join(str(l.uid) for l in self.loops)
        full = f"{name}!{prefix}!{self.counter}"
        idx = [l.i for l in self.loops]
        f = z3.Function(full, *[z3.IntSort()] * len(idx), *sorts)
        return lambda *args: f(*idx, *args)

    def input(self, name, expr):
        self.inputs.append((name, expr))
        return expr

    def lit(self, value):
        return lit(value)

    # -- conditions
    def assume(self, expr, check=False):
        if self.dead:
            return
        expr = zb(expr)
        self.pc.append(expr)
        if not (self.opts.get("sdict") and z3.is_quantifier(expr)):     # (too expensive to look for infeasible paths)
            self.solver.add(expr)
        if check and self._check() == z3.unsat:
            self.end(Infeasible())

    def defined(self, *names):
        """
        Fresh symbols (name, sort) that are defined by axioms: unlike the rest of the symbols, they are never used in another path
        with another meaning
        """
        here = tuple((n.cur, n.rounds) if isinstance(n, LoopNode) else n.cur for n in self.stack[:self.pos])
        k = self.result.prefixes.setdefault((here, self.counter), len(self.result.prefixes))
        self.counter += 1
        idx = [l.i for l in self.loops]
        return [z3.Function(f"{n}!d{k}", *[z3.IntSort()] * len(idx), sort)(*idx) if idx else z3.Const(f"{n}!d{k}", sort) for n, sort in names]

    def axiom(self, symbol, expr, *forall):
        """Part of the definition of a symbol: it holds for every iteration of the enclosing loops"""
        if self.dead:
            return
        pairs = [(l.i, z3.Int(f"ax!{k}")) for k, l in enumerate(self.loops)]
        if pairs or forall:
            expr = z3.ForAll([b for _, b in pairs] + list(forall), z3.substitute(expr, *pairs) if pairs else expr)
        known = self.result.axioms.setdefault(symbol.decl().name(), {})
        known[expr.sexpr()] = expr

    def facts(self, *goals):
        """The path condition, and the definitions of its symbols"""
        if not self.result.axioms:
            return self.pc
        out, todo, names = list(self.pc), list(self.pc) + list(goals), set()
        while todo:
            for name in self.symbols(todo.pop()):
                if name in self.result.axioms and name not in names:
                    names.add(name)
                    new = list(self.result.axioms[name].values())
                    out += new
                    todo += new
        return out

    def symbols(self, e):
        """The defined symbols of a formula"""
        known = self.result.symbols.get(e.get_id())
        if known is None:
            known = self.result.symbols[e.get_id()] = (e, set(_DEFINED.findall(e.sexpr())))
        return known[1]

    def end(self, exc=None):
        """Finish this path"""
        self.dead = True
        raise exc or PathEnd()

    def _check(self, *extra):
        t = _time.time()
        if t > self.opts["deadline"]:
            raise Budget("time budget exhausted")
        r = self.solver.check(*extra)
        self.result.solver_s += _time.time() - t
        return r

    def branch(self, expr, why="?"):
        if self.dead:
            return False
        expr = z3.simplify(zb(expr))
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            if not isinstance(node, Node):
                raise Unsupported("non-deterministic exploration")
        else:
            alts = []
            rt = self._check(expr)
            rf = self._check(z3.Not(expr))
            if rt != z3.unsat:
                alts.append(True)
            if rf != z3.unsat:
                alts.append(False)
            if not alts:
                self.end(Infeasible())
            node = Node(alts)
            self.stack.append(node)
        self.pos += 1
        v = node.cur
        if not isinstance(v, bool):
            raise Unsupported("non-deterministic exploration")
        e = expr if v else z3.Not(expr)
        self.pc.append(e)
        self.solver.add(e)
        self.trace.append(("branch", str(expr)[:160], v))
        return v

    def choice(self, name, options):
        """Demonic choice among a finite set of (complete) alternatives"""
        options = list(options)
        if self.dead:
            return options[0]
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            if not isinstance(node, Node):
                raise Unsupported("non-deterministic exploration")
        else:
            node = Node(range(len(options)))
            self.stack.append(node)
        self.pos += 1
        if len(node.alts) != len(options):
            raise Unsupported("non-deterministic exploration")
        v = options[node.cur]
        self.trace.append(("choice", name, str(v)[:80]))
        if self.loops:
            # make the choice visible in the summaries (one symbol per iteration)
            c = self.fresh("choice:" + name, z3.IntSort())
            self.assume(c == node.cur)
        return v

    # -- obligations
    def valid(self, expr, ms=None):
        """The formula follows from the path condition (quietly)"""
        s = z3.Solver()
        s.set("timeout", ms or self.opts.get("prove_ms", 10000))
        s.add(*self.facts(expr))
        s.add(z3.Not(zb(expr)))
        t = _time.time()
        if t > self.opts["deadline"]:
            raise Budget("time budget exhausted")
        r = s.check()
        self.result.solver_s += _time.time() - t
        return r == z3.unsat

    def prove(self, expr, name, info=None, known=False):
        if self.dead or self.suppress:
            return
        res = self.result.ob(name)
        expr = zb(expr)
        if known and not self.opts.get("keep_queries"):
            # already discharged by valid()
            res["discharged"] += 1
            return
        s = z3.Solver()
        s.set("timeout", self.opts.get("prove_ms", 10000))
        s.add(*self.facts(expr))
        s.add(z3.Not(expr))
        if _time.time() > self.opts["deadline"]:
            raise Budget("time budget exhausted")
        t = _time.time()
        r = s.check()
        if r == z3.unknown:
            for seed in (7, 42):
                s2 = z3.Solver()
                s2.set("timeout", self.opts.get("prove_ms", 10000))
                s2.set("random_seed", seed)
                s2.add(s.assertions())
                r = s2.check()
                if r != z3.unknown:
                    s = s2
                    break
        self.result.solver_s += _time.time() - t
        if r == z3.unsat:
            res["discharged"] += 1
            if self.opts.get("keep_queries"):
                self.result.queries.append((name, s.to_smt2()))
        elif r == z3.sat:
            m = s.model()
            rec = dict(obligation=name, goal=str(expr)[:600], info=str(info) if info else None,
                       inputs={n: str(m.eval(e, model_completion=True)) for n, e in self.inputs
                               if isinstance(e, z3.ExprRef)},
                       path=[f"{k}: {a} -> {b}" for k, a, b in self.trace][-40:],
                       model=str(m)[:3000], notes=list(self.notes))
            if self.imprecise:
                rec["imprecise"] = True
                res["unknown"].append(rec)
            else:
                res["refuted"].append(rec)
        else:
            res["unknown"].append(dict(obligation=name, goal=str(expr)[:600], reason=s.reason_unknown(),
                                       path=[f"{k}: {a} -> {b}" for k, a, b in self.trace][-40:]))

    def fail(self, name, info=None):
        """An obligation that is false on this path (if the path is feasible)"""
        self.prove(z3.BoolVal(False), name, info)

    def cover(self, name):
        """The path condition here is satisfiable (vacuity check)"""
        if self.dead or self.suppress or name in self.result.covers:
            return
        if self.opts.get("sdict"):
            tries = self.result.tries[name] = self.result.tries.get(name, 0) + 1
            if tries > 4:
                return
        s = z3.Solver()
        s.set("timeout", 3000 if not self.opts.get("sdict") else 1000)
        s.add(*self.facts())
        r = s.check()
        if r == z3.sat:
            self.result.covers.add(name)
        elif r == z3.unknown:
            self.result.maybe.add(name)

    def cases(self, thunk, conv=lambda v: v):
        """
        All the values of thunk(), as a list of (condition, value): it is explored on all its paths, and it has to
        be free of side effects.
        """
        if self.dead:
            return []
        parts = []
        sub = []
        before = [t.vc_state() for t in self.tracked]
        saved = (self.stack, self.pos, list(self.pc), self.counter, self.trace)
        ntracked, nloops, suppress = len(self.tracked), list(self.loops), self.suppress
        count = 0
        while True:
            count += 1
            if count > 200:
                raise Unsupported("predicate with too many paths")
            self.stack, self.pos = sub, 0
            self.pc = list(saved[2])
            self.trace = list(saved[4])
            self.solver.push()
            value = None
            try:
                value = (conv(thunk()),)
            except (Infeasible, PathEnd):
                pass
            except Exception as ex:
                raise Unsupported(f"exception in a predicate: {type(ex).__name__}: {ex}") from ex
            finally:
                self.dead = False
                self.loops[:] = nloops
                self.suppress = suppress
                del self.tracked[ntracked:]
                delta = self.pc[len(saved[2]):]
                self.solver.pop()
                self.stack, self.pos = saved[0], saved[1]
                self.pc = saved[2][:]
                self.trace = saved[4]
            if value is not None:
                parts.append((z3.And(*delta) if delta else z3.BoolVal(True), value[0]))
            while sub and not sub[-1].advance():
                sub.pop()
            if not sub:
                break
        after = [t.vc_state() for t in self.tracked[: len(before)]]
        for b, a in zip(before, after):
            if not same_state(b, a):
                raise Unsupported("predicate with side effects")
        if self.counter != saved[3]:
            raise Unsupported("predicate that is not a function of its arguments")
        return parts

    def reify(self, thunk):
        """The truth value of thunk(), as a formula"""
        parts = [z3.And(c, v) for c, v in self.cases(thunk, truth)]
        return z3.simplify(z3.Or(*parts)) if parts else z3.BoolVal(False)


def same_state(a, b):
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_state(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        ta = getattr(a, "vc_term", None)
        tb = getattr(b, "vc_term", None)
        if ta is not None and tb is not None and type(a) is type(b):
            return same_state(ta(), tb())
        return False
    if type(a) is type(b) and isinstance(a, (int, float, str, bool, bytes, type(None))):
        return a == b
    return False


def lit(value):
    """The value that stands for a Python literal"""
    if value is None:
        return Val.none
    if isinstance(value, (bool, int)):
        return Val.number(z3.RealVal(int(value)))
    if isinstance(value, float):
        return Val.number(num(value).v)
    if isinstance(value, (str, bytes)):
        return Val.text(z3.IntVal(_TEXTS.setdefault(value, len(_TEXTS))))
    raise Unsupported(f"literal {value!r}")


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymBool):
        return x.e
    return x


def truth(v):
    """Truth value of v as a formula (without forking when possible)"""
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, SymNum):
        return v.nonzero()
    return z3.BoolVal(bool(v))


# ------------------------------------------------------------------ values


class SymBool:
    _vc_symbolic = True
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = zb(e)

    def __bool__(self):
        return CTX.branch(self.e)

    def vc_isinstance(self, cls):
        from numbers import Number
        return cls in (bool, int, Number, object)

    def vc_term(self):
        return self.e

    def __and__(self, o):
        return SymBool(z3.And(self.e, zb(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zb(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == zb(o))
        return NotImplemented

    def __repr__(self):
        return f"<{self.e}>"

    __hash__ = None


INF = float("inf")


def num(x):
    """Lift to SymNum"""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, bool):
        return SymNum(z3.IntVal(int(x)))
    if isinstance(x, int):
        return SymNum(z3.IntVal(x))
    if isinstance(x, float):
        if x == INF:
            return SymNum(z3.RealVal(0), z3.BoolVal(True))
        if x == -INF or x != x:
            raise Unsupported("-inf/nan")
        return SymNum(z3.RealVal(repr(x) if "e" not in repr(x) else z3.Q(*x.as_integer_ratio())))
    if isinstance(x, z3.ArithRef):
        return SymNum(x)
    if isinstance(x, SymBool):
        return SymNum(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    return None


class SymNum:
    """Mathematical number (integer or real), possibly +infinity"""

    _vc_symbolic = True
    __slots__ = ("v", "inf")

    def __init__(self, v, inf=None):
        self.v = v
        self.inf = z3.BoolVal(False) if inf is None else inf

    def vc_term(self):
        return (self.v, self.inf)

    @property
    def finite(self):
        return z3.is_false(z3.simplify(self.inf))

    def nonzero(self):
        return z3.Or(self.inf, self.v != 0)

    def __bool__(self):
        return CTX.branch(self.nonzero())

    def _bin(self, o, f, name):
        o = num(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: SymNum(a.v + b.v, z3.simplify(z3.Or(a.inf, b.inf))), "+")

    __radd__ = __add__

    def __sub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if not o.finite:
            if CTX.branch(o.inf):
                raise Unsupported("subtraction of infinity")
        return SymNum(self.v - o.v, self.inf)

    def __rsub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return o - self

    def __neg__(self):
        if not self.finite and CTX.branch(self.inf):
            raise Unsupported("-inf")
        return SymNum(-self.v)

    def __mul__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if not (self.finite and o.finite):
            if CTX.branch(z3.Or(self.inf, o.inf)):
                raise Unsupported("product with infinity")
        return SymNum(self.v * o.v)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if CTX.branch(z3.And(z3.Not(o.inf), o.v == 0)):
            raise ZeroDivisionError("division by zero")
        if CTX.branch(z3.Or(self.inf, o.inf)):
            raise Unsupported("division with infinity")
        return SymNum(z3.ToReal(self.v) / o.v if self.v.is_int() else self.v / o.v)

    def __rtruediv__(self, o):
        return num(o) / self

    def _finite(self, what):
        if not self.finite and CTX.branch(self.inf):
            raise Unsupported(f"{what} of infinity")

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.v < 0, -self.v, self.v), self.inf)

    def _overflow(self, what):
        if not self.finite and CTX.branch(self.inf):
            raise OverflowError(f"cannot convert float infinity to integer ({what})")

    def __floor__(self):
        self._overflow("floor")
        return self if self.v.is_int() else SymNum(z3.ToInt(self.v))

    def __ceil__(self):
        self._overflow("ceil")
        return self if self.v.is_int() else SymNum(-z3.ToInt(-self.v))

    def __trunc__(self):
        self._overflow("trunc")
        return self if self.v.is_int() else SymNum(z3.If(self.v < 0, -z3.ToInt(-self.v), z3.ToInt(self.v)))

    def __round__(self, n=None):
        """To the nearest one (in the middle, to the even one)"""
        if n is None:
            self._overflow("round")
        elif not isinstance(n, int):
            raise Unsupported("symbolic number of digits")
        if self.v.is_int() and (n is None or n >= 0):
            return self
        k = 10 ** (n or 0) if (n or 0) >= 0 else z3.Q(1, 10 ** -n)
        v = z3.ToReal(self.v) if self.v.is_int() else self.v
        w = v * k + z3.Q(1, 2)
        r = z3.ToInt(w)
        r = z3.If(z3.And(z3.ToReal(r) == w, r % 2 != 0), r - 1, r)
        if n is None:
            return SymNum(r)
        return SymNum(z3.ToReal(r) / k, self.inf)

    def is_integer(self):
        return SymBool(z3.And(z3.Not(self.inf), z3.BoolVal(True) if self.v.is_int() else z3.IsInt(self.v)))

    def __floordiv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if CTX.branch(z3.And(z3.Not(o.inf), o.v == 0)):
            raise ZeroDivisionError("division by zero")
        self._finite("division")
        o._finite("division")
        a, b = self.v, o.v
        if a.is_int() and b.is_int():
            # z3: the remainder is never negative; Python: it has the sign of the divisor
            return SymNum(z3.If(z3.Or(b > 0, a % b == 0), a / b, a / b - 1))
        a, b = (z3.ToReal(x) if x.is_int() else x for x in (a, b))
        return SymNum(z3.ToReal(z3.ToInt(a / b)))

    def __rfloordiv__(self, o):
        o = num(o)
        return NotImplemented if o is None else o // self

    def __mod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        o = num(o)
        return NotImplemented if o is None else o % self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (num(o) // self, num(o) % self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            self._finite("power")
            r = SymNum(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("power")

    def lt(self, o):
        o = num(o)
        return z3.And(z3.Not(self.inf), z3.Or(o.inf, self.v < o.v))

    def le(self, o):
        o = num(o)
        return z3.Or(o.inf, z3.And(z3.Not(self.inf), self.v <= o.v))

    def eq(self, o):
        o = num(o)
        return z3.And(self.inf == o.inf, z3.Or(self.inf, self.v == o.v))

    def __lt__(self, o):
        return NotImplemented if num(o) is None else SymBool(self.lt(o))

    def __le__(self, o):
        return NotImplemented if num(o) is None else SymBool(self.le(o))

    def __gt__(self, o):
        return NotImplemented if num(o) is None else SymBool(num(o).lt(self))

    def __ge__(self, o):
        return NotImplemented if num(o) is None else SymBool(num(o).le(self))

    def __eq__(self, o):
        return NotImplemented if num(o) is None else SymBool(self.eq(o))

    def __ne__(self, o):
        return NotImplemented if num(o) is None else SymBool(z3.Not(self.eq(o)))

    def __hash__(self):
        if z3.is_int_value(z3.simplify(self.v)):
            return hash(z3.simplify(self.v).as_long())
        raise Unsupported("hash of a symbolic number")

    def __index__(self):
        v = z3.simplify(self.v)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("symbolic number used as a concrete index")

    def __float__(self):
        raise Unsupported("symbolic number converted to a machine float")

    def __int__(self):
        raise Unsupported("symbolic number converted to a machine int")

    def __repr__(self):
        return f"<{z3.simplify(self.v)}{'|inf' if not self.finite else ''}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def vc_isinstance(self, cls):
        from numbers import Number
        if cls is int:
            return bool(self.v.is_int())
        if cls is float:
            return not self.v.is_int()
        return cls in (Number, object)


class Opaque:
    """A Python value about which nothing is known, except equality"""

    _vc_symbolic = True

    def __init__(self, e, kind="value"):
        self.__dict__["e"] = e
        self.__dict__["kind"] = kind

    def vc_term(self):
        return self.e

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return SymBool(self.e == o.e)
        if isinstance(o, (int, float, str, bytes, type(None), bool)):
            return SymBool(self.e == lit(o))
        if isinstance(o, SymNum):
            v = z3.ToReal(o.v) if o.v.is_int() else o.v
            return SymBool(z3.And(z3.Not(o.inf), self.e == Val.number(v)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        raise Unsupported("hash of an opaque value")

    def __bool__(self):
        f = z3.Function("truthy", Val, z3.BoolSort())
        e = self.e
        return CTX.branch(z3.And(e != Val.none, z3.Or(z3.And(Val.is_number(e), Val.as_number(e) != 0),
                                                      z3.And(z3.Not(Val.is_number(e)), f(e)))))

    def __setattr__(self, k, v):
        raise Unsupported(f"attribute {k} of an opaque value set")

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"attribute {k} of an opaque value")

    def __repr__(self):
        return f"<{self.kind} {self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def vc_isinstance(self, cls):
        return False


def want(poison):
    """The value of this location has to be known"""
    key = object.__getattribute__(poison, "_key")
    if key is not None and key not in CTX.opts["precise"]:
        CTX.opts["precise"].add(key)
        raise Restart(str(key))


class Poison:
    """A value that must not be used"""

    _vc_symbolic = True

    def __init__(self, why, key=None):
        object.__setattr__(self, "_why", why)
        object.__setattr__(self, "_key", key)

    def _bad(self, *a, **k):
        if CTX is not None and CTX.dead:
            return None
        want(self)
        raise Unsupported(f"use of {object.__getattribute__(self, '_why')}")

    def __getattribute__(self, k):
        if k in ("__class__",):
            return object.__getattribute__(self, k)
        if k in ("vc_term", "__dict__", "vc_isinstance"):
            raise AttributeError(k)
        Poison._bad(self)

    __bool__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __iter__ = __len__ = _bad
    __getitem__ = __setattr__ = __contains__ = __call__ = __iadd__ = __sub__ = __rsub__ = _bad

    def __repr__(self):
        return "<poison>"

    __hash__ = None


# ------------------------------------------------------------------ structure equality as a formula


def equal(a, b):
    """Equality of two (possibly symbolic) values, as a formula"""
    for x in (a, b):
        if type(x) is Poison:
            Poison._bad(x)
    if a is b:
        return z3.BoolVal(True)
    if (isinstance(a, SymNum) or isinstance(b, SymNum)) and not (isinstance(a, Opaque) or isinstance(b, Opaque)):
        x, y = num(a), num(b)
        if x is None or y is None:
            return z3.BoolVal(False)
        return x.eq(y)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return zb(a) == zb(b)
        return z3.BoolVal(False)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort() and not (a.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT)):
            return z3.BoolVal(False)
        return a == b
    if hasattr(type(a), "vc_equal"):
        return a.vc_equal(b)
    if hasattr(type(b), "vc_equal"):
        return b.vc_equal(a)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        r = a == b if isinstance(a, Opaque) else b == a
        return zb(r)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple):
            return z3.BoolVal(False)
        return z3.And(*[equal(x, y) for x, y in zip(a, b)]) if len(a) else z3.BoolVal(True)
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a.keys()) != list(b.keys()) and set(a.keys()) != set(b.keys()):
            return z3.BoolVal(False)
        return z3.And(*[equal(a[k], b[k]) for k in a]) if a else z3.BoolVal(True)
    if is_sym(a) or is_sym(b):
        return z3.BoolVal(False)
    if type(a) is type(b) and isinstance(a, (int, float, str, bool, bytes, type(None))):
        return z3.BoolVal(a == b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return z3.BoolVal(a == b)
    return z3.BoolVal(False)


# ------------------------------------------------------------------ driver


def explore(name, fn, opts=None):
    """Explore all the paths of fn(ctx), and discharge its obligations"""
    global CTX
    o = dict(max_paths=20000, budget_s=120, prove_ms=10000, feasible_ms=250)
    o.update(opts or {})
    o["deadline"] = _time.time() + o["budget_s"]
    o["precise"] = set()
    t0 = _time.time()
    while True:
        try:
            result = _explore(name, fn, o)
        except Restart:
            if len(o["precise"]) < 20:
                continue
            result = Result(name)
            result.undecided.append("too many changes in loops")
        break
    result.wall_s = _time.time() - t0
    return result


def _explore(name, fn, o):
    global CTX
    result = Result(name)
    stack = []
    try:
        while True:
            result.paths += 1
            if result.paths > o["max_paths"]:
                raise Budget("too many paths")
            ctx = Ctx(stack, result, o)
            CTX = ctx
            try:
                fn(ctx)
            except (PathEnd, Infeasible):
                pass
            except Unsupported as ex:
                # There is nothing to verify if no execution gets there
                if ctx.dead or "non-deterministic" in str(ex) or not ctx.valid(z3.BoolVal(False), 5000):
                    raise
            finally:
                ctx.dead = True
            if len(stack) > 3000:
                raise Budget("path too long")
            while stack and not stack[-1].advance():
                stack.pop()
            if not stack:
                break
    except Unsupported as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f"{f.filename.split('/')[-1]}:{f.lineno} {f.name}" for f in tb if "/repo/" in f.filename or "contracts" in f.filename]
        result.undecided.append(f"out of reach: {ex} ({'; '.join(where[-3:])})")
    except Budget as ex:
        result.undecided.append(f"budget: {ex}")
    except RecursionError as ex:
        result.undecided.append("recursion limit")
    except Exception as ex:
        # The contract could not be applied to this code (a renamed function, for instance)
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f"{f.filename.split('/')[-1]}:{f.lineno} {f.name}" for f in tb]
        result.undecided.append(f"contract not applicable: {type(ex).__name__}: {ex} ({'; '.join(where[-4:])})")
    finally:
        CTX = None
    return result
