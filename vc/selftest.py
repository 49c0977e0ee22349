"""
Self-test of the verifier: small functions with a known answer.

    python -m vc.selftest [REPORT]

Every case has a contract, a function that satisfies it and several that do not. The verifier has to discharge
all the obligations for the first one, and must not do it for any of the others.
"""
import ast
import json
import os
import sys
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CASES = []


def case(good, *bad):
    def deco(fn):
        CASES.append((fn.__name__, fn, good, bad))
        return fn
    return deco


def build(source, name):
    from vc import loader, rt
    tree = loader.Instrument(f"selftest_{name}").visit(ast.parse(source))
    ast.fix_missing_locations(tree)
    m = types.ModuleType(f"selftest_{name}")
    m.__dict__["_vcrt_"] = rt
    m.__dict__.update(rt.OVERRIDES)
    exec(compile(tree, f"selftest_{name}", "exec", dont_inherit=True), m.__dict__)
    for k, v in list(m.__dict__.items()):
        if k not in rt.OVERRIDES and k != "_vcrt_":
            m.__dict__[k] = rt.imported(v)
    return m


def cases():
    from contracts.base import (real, xreal, integer, length, opaque, boolean, call, returned, prove, prove_seq, comp, drive, assume, SymSeq, Indexed, VList, z3, rt, External, fail, L)
    from vc.engine import equal, num, zb
    TRUE = z3.BoolVal(True)

    @case("def f(a, b):\n    if a < b:\n        return b\n    return a",
          "def f(a, b):\n    if a < b:\n        return a\n    return b",
          "def f(a, b):\n    return a",
          "def f(a, b):\n    if a > 1000 and b > 2000:\n        return a\n    return b if a < b else a",
          "def f(a, b):\n    if a == b:\n        raise ValueError()\n    return b if a < b else a")
    def maximum(m):
        a, b = real("a"), real("b")
        out = call(m.f, a, b)
        if returned(out, "no errors"):
            prove(z3.And(zb(out.value >= a), zb(out.value >= b), z3.Or(zb(out.value == a), zb(out.value == b))), "maximum")

    @case("def f(s):\n    out = []\n    for x in s:\n        if x > 0:\n            out.append(x)\n    return out",
          "def f(s):\n    out = []\n    for x in s:\n        if x >= 0:\n            out.append(x)\n    return out",
          "def f(s):\n    out = []\n    for x in s:\n        if x > 0:\n            out.append(x)\n            break\n    return out",
          "def f(s):\n    out = []\n    for x in s:\n        if x > 0:\n            out.append(x)\n        if x < -5:\n            return out\n    return out",
          "def f(s):\n    out = []\n    for x in s:\n        if x > 0:\n            out.append(x)\n            out.append(x)\n    return out",
          "def f(s):\n    return [x for x in s]",
          "def f(s):\n    return [x + 1 for x in s if x > 0]",
          "def f(s):\n    return [x for x in s if x > 0][:3]",
          "def f(s):\n    out = []\n    for i, x in enumerate(s):\n        if x > 0 and i != 7:\n            out.append(x)\n    return out",
          "def f(s):\n    out = []\n    last = 1\n    for x in s:\n        if x > 0 and last > 0:\n            out.append(x)\n        last = x\n    return out")
    def positive(m):
        n = length("n")
        from vc import engine as E
        h = E.CTX.func("h", z3.IntSort(), z3.RealSort())
        item = lambda i: num(h(i))
        out = call(m.f, SymSeq(n, item, "numbers"))
        if returned(out, "no errors"):
            prove_seq(list(out.value.segs) if hasattr(out.value, "segs") else list(out.value), [comp(0, n, lambda i: [(h(i) > 0, [item(i)])])], "the positive numbers, in order")
    positive.alternatives = ["def f(s):\n    return [x for x in s if x > 0]", "def f(s):\n    return [x for x in s if not (x <= 0)]",
                             "def f(s):\n    out = []\n    for i, x in enumerate(s):\n        if x <= 0:\n            continue\n        out.append(x)\n    return out"]

    @case("def f(s):\n    k = 0\n    for x in s:\n        k += 1\n    return k",
          "def f(s):\n    k = 0\n    for x in s:\n        k += 2\n    return k",
          "def f(s):\n    k = 0\n    for x in s:\n        k = 1\n    return k",
          "def f(s):\n    k = 1\n    for x in s:\n        k += 1\n    return k",
          "def f(s):\n    k = 0\n    for x in s:\n        if x.special:\n            continue\n        k += 1\n    return k",
          "def f(s):\n    k = 0\n    for x in s:\n        k += 1\n        if k == 100:\n            break\n    return k")
    def counting(m):
        n = length("n")
        from vc import engine as E
        h = E.CTX.func("special", z3.IntSort(), z3.BoolSort())
        from vc.engine import SymBool
        out = call(m.f, SymSeq(n, lambda i: Indexed("item", i, special=SymBool(h(i))), "items"))
        if returned(out, "no errors"):
            prove(equal(out.value, num(n)), "the number of items")

    @case("def f(t, step, until):\n    while t < until:\n        t = step(t)\n    return t",
          "def f(t, step, until):\n    while t <= until - 1:\n        t = step(t)\n    return t",
          "def f(t, step, until):\n    t = step(t)\n    while t < until:\n        t = step(t)\n    return t - 1",
          "def f(t, step, until):\n    k = 0\n    while t < until and k < 50:\n        t = step(t)\n        k += 1\n    return t")
    def while_loop(m):
        t, u = real("t"), real("until")
        from vc import engine as E

        def step(t):
            v = real("next")
            assume(v.v >= t.v)
            return v
        out = call(m.f, t, step, u)
        if returned(out, "no errors"):
            prove(zb(out.value >= u), "the limit was reached")

    @case("def f(d, k, v):\n    try:\n        x = d.get(k)\n    except LookupError:\n        x = v\n    return x",
          "def f(d, k, v):\n    return d.get(k)",
          "def f(d, k, v):\n    try:\n        x = d.get(k)\n    except LookupError:\n        x = None\n    return x",
          "def f(d, k, v):\n    try:\n        d.get(k)\n    finally:\n        return v")
    def exceptions(m):
        K, V, W = opaque("key"), opaque("default"), opaque("value")
        b = boolean("present")

        class D:
            def get(self, k):
                if b:
                    return W
                raise LookupError()
        out = call(m.f, D(), K, V)
        if returned(out, "no errors"):
            prove(z3.If(b.e, equal(out.value, W), equal(out.value, V)), "the value, or else the default")

    @case("def f(s, g):\n    for x in s:\n        yield g(x)",
          "def f(s, g):\n    for x in s:\n        yield x",
          "def f(s, g):\n    yield 1\n    for x in s:\n        yield g(x)",
          "def f(s, g):\n    for x in s:\n        yield g(x)\n        return",
          "def f(s, g):\n    out = [g(x) for x in s]\n    out.append(None)\n    yield from out")
    def generators(m):
        n = length("n")
        res, end = drive(m.f(SymSeq(n, lambda i: Indexed("item", i), "items"), lambda x: ("g", x)))
        if returned(end, "no errors"):
            prove_seq(res, [comp(0, n, lambda i: [(TRUE, [("g", Indexed("item", i))])])], "g of each of the items")

    @case("def f(a, b, d):\n    r = []\n    for x in a:\n        for y in b:\n            r.append((x, y))\n    return r",
          "def f(a, b, d):\n    r = []\n    for x in a:\n        for y in b:\n            r.append((y, x))\n    return r",
          "def f(a, b, d):\n    r = []\n    for y in b:\n        for x in a:\n            r.append((x, y))\n    return r",
          "def f(a, b, d):\n    r = []\n    for x in a:\n        for y in b:\n            r.append((x, y))\n            break\n    return r",
          "def f(a, b, d):\n    r = []\n    for x in a:\n        for y in b:\n            r.append((x, y))\n        if d:\n            break\n    return r")
    def nested(m):
        n, k = length("n"), length("k")
        A, B = SymSeq(n, lambda i: Indexed("a", i), "as"), SymSeq(k, lambda i: Indexed("b", i), "bs")
        out = call(m.f, A, B, boolean("d"))
        if returned(out, "no errors"):
            prove_seq(out.value, [comp(0, n, lambda i: [(TRUE, [comp(0, k, lambda j: [(TRUE, [(Indexed("a", i), Indexed("b", j))])])])])], "all the pairs")

    @case("def f(s, k):\n    for x in s:\n        if x == k:\n            return True\n    return False",
          "def f(s, k):\n    for x in s:\n        if x == k:\n            return False\n    return False",
          "def f(s, k):\n    for x in s:\n        return x == k\n    return False",
          "def f(s, k):\n    r = True\n    for x in s:\n        if x == k:\n            return True\n    return r",
          "def f(s, k):\n    r = False\n    for x in s:\n        r = x == k\n    return r",
          "def f(s, k):\n    return any(x == k for i, x in enumerate(s) if i > 0)")
    def search(m):
        n = length("n")
        from vc import engine as E
        h = E.CTX.func("h", z3.IntSort(), z3.RealSort())
        k = real("k")
        out = call(m.f, SymSeq(n, lambda i: num(h(i)), "numbers"), k)
        if returned(out, "no errors"):
            j = z3.Int("j")
            found = z3.Exists([j], z3.And(0 <= j, j < n, h(j) == k.v))
            got = zb(out.value) if not isinstance(out.value, bool) else z3.BoolVal(out.value)
            prove(got == found, "whether it is there")
    search.alternatives = ["def f(s, k):\n    return any(x == k for x in s)"]

    def items(n, **kw):
        return SymSeq(n, lambda i: Indexed("item", i, **{k: v(i) for k, v in kw.items()}), "items")

    def flag(name):
        from vc import engine as E
        from vc.engine import SymBool
        h = E.CTX.func(name, z3.IntSort(), z3.BoolSort())
        return h, lambda i: SymBool(h(i))

    def number(name):
        from vc import engine as E
        h = E.CTX.func(name, z3.IntSort(), z3.RealSort())
        return h, lambda i: num(h(i))

    @case("def f(s, g):\n    for x in s:\n        if x.ok:\n            g(x)",
          "def f(s, g):\n    for x in s:\n        if x.ok:\n            g(x)\n            return",
          "def f(s, g):\n    for x in s:\n        if not x.ok:\n            break\n        g(x)",
          "def f(s, g):\n    done = False\n    for x in s:\n        if x.ok and not done:\n            g(x)\n            done = True",
          "def f(s, g):\n    first = True\n    for x in s:\n        if x.ok and not first:\n            g(x)\n        first = False",
          "def f(s, g):\n    for x in s:\n        g(x)",
          "def f(s, g):\n    for x in s:\n        if x.ok:\n            g(x)\n    for x in s:\n        if x.ok:\n            g(x)",
          "def f(s, g):\n    for x in s:\n        try:\n            if x.ok:\n                g(x)\n                raise ValueError()\n        except ValueError:\n            break",
          "def f(s, g):\n    for x in s:\n        if x.ok:\n            g(x)\n    else:\n        g(x)",
          "def f(s, g):\n    prev = None\n    for x in s:\n        if x.ok and prev is not None:\n            g(prev)\n        prev = x",
          "def f(s, g):\n    k = 0\n    for x in s:\n        if x.ok:\n            k += 1\n            if k < 3:\n                g(x)",
          "def f(s, g):\n    todo = []\n    for x in s:\n        if x.ok:\n            todo.append(x)\n    for x in todo:\n        g(x)\n        break",
          "def f(s, g):\n    for x in reversed(s):\n        if x.ok:\n            g(x)",
          "def f(s, g):\n    for x in s[1:]:\n        if x.ok:\n            g(x)",
          "def f(s, g):\n    it = iter(s)\n    next(it, None)\n    for x in it:\n        if x.ok:\n            g(x)",
          "def f(s, g):\n    list(map(g, s))",
          "def f(s, g):\n    for x in s:\n        if x.ok:\n            yield g(x)")
    def effects(m):
        n = length("n")
        h, ok = flag("ok")
        log = L.VList((), "log")
        out = call(m.f, items(n, ok=ok), lambda x: log.append(("g", x)))
        if returned(out, "no errors"):
            prove_seq(log, [comp(0, n, lambda i: [(h(i), [("g", Indexed("item", i, ok=ok(i)))])])], "g is called once for each of the right items, in order")
    effects.alternatives = ["def f(s, g):\n    for x in [y for y in s if y.ok]:\n        g(x)", "def f(s, g):\n    for x in filter(lambda y: y.ok, s):\n        g(x)",
                            "def f(s, g):\n    todo = []\n    for x in s:\n        if x.ok:\n            todo.append(x)\n    for x in todo:\n        g(x)",
                            "def f(s, g):\n    def one(y):\n        if not y.ok:\n            return\n        g(y)\n    for x in s:\n        one(x)"]

    @case("def f(s, d):\n    for k, v in s:\n        d[k] = v\n    return d",
          "def f(s, d):\n    for k, v in s:\n        d[k] = k\n    return d",
          "def f(s, d):\n    for k, v in s:\n        d.setdefault('x', v)\n    return d",
          "def f(s, d):\n    for k, v in s:\n        if v:\n            d[k] = v\n    return d",
          "def f(s, d):\n    for k, v in s:\n        d = {k: v}\n    return d",
          "def f(s, d):\n    return d")
    def dictionaries(m):
        n = length("n")
        seq = SymSeq(n, lambda i: (Indexed("key", i), Indexed("value", i)), "pairs")
        log = L.VList((), "log")

        class D:
            def __setitem__(self, k, v):
                log.append((k, v))

            def setdefault(self, k, v):
                log.append((k, v))
        d = D()
        out = call(m.f, seq, d)
        if returned(out, "no errors"):
            prove(z3.BoolVal(out.value is d), "the dictionary is returned")
            prove_seq(log, [comp(0, n, lambda i: [(TRUE, [(Indexed("key", i), Indexed("value", i))])])], "every value is stored under its key")

    @case("def f(s):\n    t = 0\n    for x in s:\n        if x > t:\n            raise ValueError()\n    return t",
          "def f(s):\n    t = 0\n    for x in s:\n        if x > t:\n            raise ValueError()\n        t = x\n    return t + 0 * t if t > 0 else 0",
          "def f(s):\n    for i, x in enumerate(s):\n        if x > 0 and i > 0:\n            raise ValueError()\n    return 0",
          "def f(s):\n    for x in s:\n        if x > 0:\n            return 0\n    return 0",
          "def f(s):\n    for x in s:\n        if x >= 0:\n            raise ValueError()\n    return 0")
    def rejection(m):
        n = length("n")
        h, x = number("x")
        out = call(m.f, SymSeq(n, x, "numbers"))
        j = z3.Int("j")
        some = z3.Exists([j], z3.And(0 <= j, j < n, h(j) > 0))
        if out.ok:
            prove(z3.Not(some), "a positive number is rejected")
        else:
            prove(some, "nothing else is rejected")

    @case("def f(a, b):\n    x = a.val\n    a.val = b.val\n    b.val = x",
          "def f(a, b):\n    a.val = b.val\n    b.val = a.val",
          "def f(a, b):\n    a.val, b.val = a.val, b.val",
          "def f(a, b):\n    if a.val > b.val:\n        a.val, b.val = b.val, a.val")
    def swap(m):
        x, y = real("x"), real("y")
        a, b = types.SimpleNamespace(val=x), types.SimpleNamespace(val=y)
        out = call(m.f, a, b)
        if returned(out, "no errors"):
            prove(z3.And(equal(a.val, y), equal(b.val, x)), "swapped")
    swap.alternatives = ["def f(a, b):\n    a.val, b.val = b.val, a.val"]

    @case("def f(s, o):\n    for x in s:\n        o.total += x\n        o.n += 1",
          "def f(s, o):\n    for x in s:\n        o.n += 1\n        if x > 0:\n            o.n = 0",
          "def f(s, o):\n    for x in s:\n        o.n += 1\n        o.n += 1",
          "def f(s, o):\n    o.n = 0\n    for x in s:\n        o.n += 1",
          "def f(s, o):\n    for x in s:\n        if x > 0:\n            o.n += 1")
    def attributes(m):
        n = length("n")
        h, x = number("x")
        k = integer("k")
        o = L.make(type("Obj", (), {}), n=k, total=real("total"))
        out = call(m.f, SymSeq(n, x, "numbers"), o)
        if returned(out, "no errors"):
            prove(equal(o.n, k + num(n)), "one more for each item")

    @case("from itertools import islice\ndef f(s, k):\n    return list(islice((x for x in s if x.ok), k))",
          "from itertools import islice\ndef f(s, k):\n    return list(x for x in islice(s, k) if x.ok)",
          "from itertools import islice\ndef f(s, k):\n    return list(islice((x for x in s if x.ok), k + 1))",
          "from itertools import islice\ndef f(s, k):\n    return list(islice(s, k))",
          "def f(s, k):\n    return list(s)")
    def limited(m):
        n = length("n")
        k = integer("k")
        assume(k.v >= 0)
        h, ok = flag("ok")
        out = call(m.f, items(n, ok=ok), k)
        if returned(out, "no errors"):
            segs = list(out.value.segs) if hasattr(out.value, "segs") else L.segments(out.value)
            want = comp(0, n, lambda i: [(h(i), [Indexed("item", i, ok=ok(i))])])
            want.rank = k
            prove_seq(segs, [want], "the first k items")

    @case("def f(x, y, z):\n    return x < y < z",
          "def f(x, y, z):\n    return x < y and x < z",
          "def f(x, y, z):\n    return x <= y < z",
          "def f(x, y, z):\n    return x < y or y < z",
          "def f(x, y, z):\n    return not x >= y")
    def chained(m):
        x, y, z = real("x"), real("y"), real("z")
        out = call(m.f, x, y, z)
        if returned(out, "no errors"):
            got = zb(out.value) if not isinstance(out.value, bool) else z3.BoolVal(out.value)
            prove(got == z3.And(x.v < y.v, y.v < z.v), "ordered")

    @case("def f(a, b):\n    return a or b",
          "def f(a, b):\n    return b or a",
          "def f(a, b):\n    return a if a is not None else b")
    def falsy(m):
        a, b = real("a"), real("b")
        out = call(m.f, a, b)
        if returned(out, "no errors"):
            prove(equal(out.value, num(z3.If(a.v == 0, b.v, a.v))), "the first one, unless it is zero")

    @case("def f(s, o):\n    for x in s:\n        o.last = x",
          "def f(s, o):\n    for x in s:\n        if x.ok:\n            o.last = x",
          "def f(s, o):\n    for x in s:\n        o.last = x\n        break",
          "def f(s, o):\n    for x in s:\n        o.last = x\n    o.last = None",
          "def f(s, o):\n    for x in s:\n        o.last = o.last",
          "def f(s, o):\n    prev = None\n    for x in s:\n        o.last = prev\n        prev = x",
          "def f(s, o):\n    pass")
    def last_one(m):
        n = length("n")
        assume(n > 0)
        h, ok = flag("ok")
        o = L.make(type("Obj", (), {}), last=None)
        out = call(m.f, items(n, ok=ok), o)
        if returned(out, "no errors"):
            got = o.last
            if got is None:
                fail("the last item is kept")
            else:
                prove(equal(got, Indexed("item", n - 1)), "the last item is kept")

    @case("def f(s, o):\n    for x in s:\n        if x.ok:\n            o.found = True\n            break",
          "def f(s, o):\n    for x in s:\n        o.found = True\n        break",
          "def f(s, o):\n    for x in s:\n        o.found = x.ok\n        if x.ok:\n            o.found = False\n            break",
          "def f(s, o):\n    for x in s:\n        if x.ok:\n            break\n    o.found = True",
          "def f(s, o):\n    for x in s:\n        if x.ok:\n            o.found = True\n            break\n        else:\n            break")
    def flagged(m):
        n = length("n")
        h, ok = flag("ok")
        o = L.make(type("Obj", (), {}), found=False)
        out = call(m.f, items(n, ok=ok), o)
        if returned(out, "no errors"):
            j = z3.Int("j")
            got = zb(o.found) if not isinstance(o.found, bool) else z3.BoolVal(o.found)
            prove(got == z3.Exists([j], z3.And(0 <= j, j < n, h(j))), "whether there is one")

    @case("def f(s, o):\n    for x in s:\n        o.n += 1\n    for x in s:\n        o.n += 1",
          "def f(s, o):\n    for x in s:\n        o.n += 1\n    o.n = 0\n    for x in s:\n        o.n += 1",
          "def f(s, o):\n    for x in s:\n        o.n += 1\n    for x in s:\n        if x.ok:\n            break\n        o.n += 1",
          "def f(s, o):\n    for x in s:\n        o.n += 2\n    for x in s:\n        o.n -= 1")
    def two_loops(m):
        n = length("n")
        h, ok = flag("ok")
        k = integer("k")
        o = L.make(type("Obj", (), {}), n=k)
        out = call(m.f, items(n, ok=ok), o)
        if returned(out, "no errors"):
            prove(equal(o.n, k + num(2 * n)), "two for each item")

    @case("def f(s, g):\n    try:\n        for x in s:\n            g(x)\n    except LookupError:\n        return False\n    return True",
          "def f(s, g):\n    for x in s:\n        try:\n            g(x)\n        except LookupError:\n            pass\n    return True",
          "def f(s, g):\n    try:\n        for x in s:\n            g(x)\n    except LookupError:\n        return True\n    return True",
          "def f(s, g):\n    try:\n        for x in s:\n            g(x)\n    finally:\n        return True")
    def caught(m):
        n = length("n")
        h, ok = flag("ok")

        def g(x):
            if not x.ok:
                raise LookupError()
        out = call(m.f, items(n, ok=ok), g)
        if returned(out, "no errors"):
            j = z3.Int("j")
            prove(z3.BoolVal(bool(out.value)) == z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), h(j))), "whether all of them work")
    caught.alternatives = ["def f(s, g):\n    ok = True\n    for x in s:\n        try:\n            g(x)\n        except LookupError:\n            return False\n    return ok"]

    @case("def f(s, t):\n    return {x for x in s if x in t}",
          "def f(s, t):\n    return {x for x in s}",
          "def f(s, t):\n    return {x for x in s if x not in t}",
          "def f(s, t):\n    return set()")
    def sets(m):
        n, k = length("n"), length("k")
        h, x = number("x")
        g, y = number("y")
        v = real("v")
        out = call(m.f, SymSeq(n, x, "numbers"), SymSeq(k, y, "others"))
        if returned(out, "no errors"):
            j = z3.Int("j")
            got = out.value.contains(v) if hasattr(out.value, "contains") else z3.BoolVal(False)
            got = zb(got)
            prove(got == z3.And(z3.Exists([j], z3.And(0 <= j, j < n, h(j) == v.v)), z3.Exists([j], z3.And(0 <= j, j < k, g(j) == v.v))), "those in both")

    @case("import math\ndef f(a):\n    return math.floor(a)",
          "import math\ndef f(a):\n    return math.ceil(a) - 1",
          "import math\ndef f(a):\n    return round(a)",
          "def f(a):\n    return int(a)",
          "import math\ndef f(a):\n    return math.floor(a) if not math.isclose(a, 3) else 3")
    def rounding(m):
        a = real("a")
        out = call(m.f, a)
        if returned(out, "no errors"):
            v = num(out.value).v
            prove(z3.And(v <= a.v, a.v < v + 1), "the integer part")
    rounding.alternatives = ["def f(a):\n    return a // 1", "def f(a):\n    import math as m\n    return m.floor(a)", "def f(a):\n    from math import floor\n    return floor(a)", "def f(a):\n    return int(a - a % 1)"]

    @case("def f(s, t):\n    for x in s:\n        if x.ok:\n            t.append(x)\n    for x in s:\n        if not x.ok:\n            t.append(x)",
          "def f(s, t):\n    for x in s:\n        t.append(x)",
          "def f(s, t):\n    for x in s:\n        if not x.ok:\n            t.append(x)\n    for x in s:\n        if x.ok:\n            t.append(x)",
          "def f(s, t):\n    for x in s:\n        if x.ok:\n            t.append(x)\n    for x in s:\n        t.append(x)",
          "def f(s, t):\n    for x in s:\n        if x.ok:\n            t.append(x)\n    for x in s:\n        if not x.ok:\n            t.insert(0, x)",
          "def f(s, t):\n    for x in s:\n        if x.ok:\n            t.append(x)\n    for x in s:\n        if x.ok:\n            continue\n        t.append(x)\n        break")
    def partition(m):
        n = length("n")
        h, ok = flag("ok")
        log = L.VList((), "log")
        out = call(m.f, items(n, ok=ok), log)
        if returned(out, "no errors"):
            it = lambda i: Indexed("item", i, ok=ok(i))
            prove_seq(log, [comp(0, n, lambda i: [(h(i), [it(i)])]), comp(0, n, lambda i: [(z3.Not(h(i)), [it(i)])])], "the right ones, then the rest")
    partition.alternatives = ["def f(s, t):\n    t.extend([x for x in s if x.ok])\n    t.extend(x for x in s if not x.ok)"]


    @case("def f(s):\n    r = None\n    for x in s:\n        if x.ok:\n            r = x\n    return r",
          "def f(s):\n    r = None\n    for x in s:\n        if x.ok and r is None:\n            r = x\n    return r",
          "def f(s):\n    r = None\n    for x in s:\n        r = x\n    return r",
          "def f(s):\n    r = None\n    for x in s:\n        if x.ok:\n            r = x\n        else:\n            r = None\n    return r",
          "def f(s):\n    r = None\n    for x in s:\n        if x.ok:\n            r = x\n            break\n    return r",
          "def f(s):\n    for x in s:\n        if x.ok:\n            return x\n    return None")
    def last_right(m):
        n = length("n")
        h, ok = flag("ok")
        out = call(m.f, items(n, ok=ok))
        if returned(out, "no errors"):
            j = z3.Int("some")
            if out.value is None:
                prove(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(h(j)))), "nothing, if there is none")
            else:
                prove(z3.And(0 <= out.value.ix[0], out.value.ix[0] < n, h(out.value.ix[0])), "one of the right ones")
                prove(z3.ForAll([j], z3.Implies(z3.And(out.value.ix[0] < j, j < n), z3.Not(h(j)))), "the last one")
    last_right.alternatives = ["def f(s):\n    r = None\n    for x in s:\n        if not x.ok:\n            continue\n        y = x\n        r = y\n    return r"]

    @case("def f(s, t):\n    r = None\n    for x in s:\n        for y in x.inner:\n            if y.ok:\n                r = y\n    return r",
          "def f(s, t):\n    r = None\n    for x in s:\n        for y in x.inner:\n            if y.ok:\n                r = y\n                break\n    return r",
          "def f(s, t):\n    r = None\n    for x in s:\n        r = None\n        for y in x.inner:\n            if y.ok:\n                r = y\n    return r",
          "def f(s, t):\n    r = None\n    for x in s:\n        for y in x.inner:\n            r = y\n    return r")
    def last_nested(m):
        from vc import engine as E
        from vc.engine import SymBool
        n = length("n")
        size = E.CTX.func("size", z3.IntSort(), z3.IntSort())
        h = E.CTX.func("ok", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        a, b = z3.Ints("a b")
        assume(z3.ForAll([a], size(a) >= 0))
        pair = lambda i: SymSeq(size(i), lambda j: Indexed("item", j, ok=SymBool(h(i, j)), outer=num(i)), "inner")
        out = call(m.f, SymSeq(n, lambda i: Indexed("outer", i, inner=pair(i)), "outer"), n)
        if returned(out, "no errors"):
            inside = lambda i, j: z3.And(0 <= i, i < n, 0 <= j, j < size(i), h(i, j))
            if out.value is None:
                prove(z3.ForAll([a, b], z3.Not(inside(a, b))), "nothing, if there is none")
            else:
                i, j = out.value.outer.v, out.value.ix[0]
                prove(inside(i, j), "one of the right ones")
                prove(z3.ForAll([a, b], z3.Implies(inside(a, b), z3.Or(a < i, z3.And(a == i, b <= j)))), "the last one")


def arithmetic(ctx):
    """The operations on symbolic numbers, for constants, against those of Python"""
    import fractions
    import math
    import operator
    from contracts.base import prove, z3, rt
    from vc.engine import SymNum, num, zb, SymBool
    values = [-7, -3, -1, 0, 1, 2, 5, -2.5, -1.5, -0.5, 0.25, 0.5, 1.5, 2.5, 3.75]
    sym = lambda x: num(fractions.Fraction(x).numerator) if isinstance(x, int) else SymNum(z3.Q(*fractions.Fraction(x).as_integer_ratio()))

    def agree(name, got, expected):
        if isinstance(expected, bool):
            prove(zb(got) == z3.BoolVal(expected), name)
        else:
            prove(z3.And(z3.Not(num(got).inf), num(got).v == z3.Q(*fractions.Fraction(expected).as_integer_ratio())), name)
    for a in values:
        for op in (abs, round, math.floor, math.ceil, math.trunc, operator.neg, operator.pos):
            agree(f"{op.__name__}({a})", op(sym(a)), op(a))
        agree(f"round({a}, 1)", round(sym(a), 1), round(fractions.Fraction(a), 1))
        agree(f"float({a}).is_integer()", sym(a).is_integer(), float(a).is_integer())
        agree(f"int({a})", rt.vint(sym(a)), int(a))
        for b in values:
            for op in (operator.add, operator.sub, operator.mul, operator.lt, operator.le, operator.eq, operator.ne, operator.ge, operator.gt, min, max):
                op2 = {min: rt.min_, max: rt.max_}.get(op, op)
                agree(f"{op.__name__}({a}, {b})", op2(sym(a), sym(b)), op(a, b))
                agree(f"{op.__name__}({a}, {b}) (2)", op2(a, sym(b)), op(a, b))
                agree(f"{op.__name__}({a}, {b}) (3)", op2(sym(a), b), op(a, b))
            agree(f"isclose({a}, {b})", rt.MATH.isclose(sym(a), sym(b), rel_tol=0.3), math.isclose(a, b, rel_tol=0.3))
            if b:
                for op in (operator.floordiv, operator.mod, operator.truediv):
                    x, y = fractions.Fraction(a), fractions.Fraction(b)
                    agree(f"{op.__name__}({a}, {b})", op(sym(a), sym(b)), op(x, y))
                    agree(f"{op.__name__}({a}, {b}) (2)", op(a, sym(b)), op(x, y))
                    agree(f"{op.__name__}({a}, {b}) (3)", op(sym(a), b), op(x, y))


def main():
    from vc import loader
    loader.install()
    import warnings
    warnings.simplefilter("ignore")
    from vc import engine as E
    cases()
    wrong, undecided, n = [], [], 0
    r = E.explore("selftest.arithmetic", arithmetic, dict(budget_s=60))
    if not r.total or r.discharged != r.total or r.undecided:
        wrong.append(f"arithmetic: {r.refuted[:3]} {r.undecided} {r.unknown[:1]}")
    for name, fn, good, bad in CASES:
        for k, (source, expected) in enumerate([(good, True)] + [(x, True) for x in getattr(fn, "alternatives", [])] + [(b, False) for b in bad]):
            m = build(source, f"{name}{k}")
            r = E.explore(f"selftest.{name}{k}", lambda ctx: fn(m), dict(budget_s=30))
            ok = r.total > 0 and r.discharged == r.total and not r.undecided and not r.unknown
            n += 1
            if not ok or k == 0:
                # the same, with the loops unrolled
                b = E.explore(f"selftest.{name}{k}", lambda ctx: fn(m), dict(budget_s=20, bound=3))
                if expected and b.refuted:
                    wrong.append(f"{name}: a right function is refuted (bounded): {source!r}: {b.refuted[:1]}")
                elif not expected and not r.refuted:
                    r = b
            if expected and r.refuted:
                wrong.append(f"{name}: a right function is refuted: {source!r}: {r.refuted[:1]}")
            elif expected and not ok:
                undecided.append(f"{name}: a right function is not decided: {source!r}: {r.undecided} {r.unknown[:1]}")
            elif not expected and ok:
                wrong.append(f"{name}: a wrong function is accepted: {source!r}")
            elif not expected and not r.refuted:
                undecided.append(f"{name}: a wrong function is not decided: {source!r}: {r.undecided} {r.unknown[:1]}")
    report = dict(functions=n, wrong=wrong, undecided=undecided)
    if sys.argv[1:]:
        with open(sys.argv[1], "w") as f:
            json.dump(report, f, default=str)
    else:
        print(json.dumps(report, indent=1, default=str))
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(main())
