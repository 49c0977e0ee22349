"""Contracts of the attributes of agents (BaseAgent.__init__), probabilities and the SISa model"""
from .base import *
import collections
import soil.agents as AG
from soil.agents import BaseAgent
from soil.agents import SISaModel as SISA

I = z3.IntSort()
B = z3.BoolSort()


# ------------------------------------------------------------------ probabilities


@contract("C24 C25", ["prob", "BaseAgent.prob"], assumes=["random.Random.random: some number in [0, 1) (standard library)"])
def probability(ctx):
    """ensures  exactly one number of the generator of the model is used; the result is true if and only if it is lower than the probability"""
    draws = []

    def random():
        r = real(f"number {len(draws)}")
        assume(z3.And(r.v >= 0, r.v < 1))
        draws.append(r)
        return r

    rnd = Stub("generator", random=random, uniform=lambda a, b: random() * (b - a) + a)
    p = real("p")
    how = choice("called through", ["the agent", "the function"])
    pats = [(AG, k, None) for k in ("random", "np", "numpy") if hasattr(AG, k)]
    with patched(*pats):
        if how == "the agent":
            a = make(BaseAgent, "agent", model=Stub("model", random=rnd), unique_id=1, alive=True)
            out = call(a.prob, p)
        else:
            need(AG, "prob")
            out = call(AG.prob, p, rnd)
    if not returned(out, "no errors"):
        return
    cover(how)
    if len(draws) != 1:
        fail("exactly one number of the generator is used", len(draws))
        return
    res = out.value
    res = res.e if isinstance(res, SymBool) else z3.BoolVal(bool(res))
    prove(res == (draws[0].v < p.v), "true if and only if the number is lower than the probability")


# ------------------------------------------------------------------ SISa


@contract("C24", ["SISaModel.neutral", "SISaModel.discontent", "SISaModel.content"],
          assumes=["prob, count_neighbors (their contracts)", "FSM.step makes the state returned the current one (C09)"])
def sisa(ctx):
    """
    ensures  each of the events of a state is decided by one call to prob, with its own probability (or the number of neighbours in the right state times its probability),
             spontaneous events before contagions; the first one that happens decides the next state, and the agent stays as it is if there are none
    """
    cls = SISA.SISaModel if hasattr(SISA, "SISaModel") else SISA
    need(cls, "_states")
    attrs = {k: real(k) for k in ("neutral_discontent_spon_prob", "neutral_discontent_infected_prob", "neutral_content_spon_prob", "neutral_content_infected_prob",
                                  "discontent_neutral", "discontent_content", "content_discontent", "content_neutral")}
    counts = {k: integer(f"{k} neighbours") for k in ("neutral", "discontent", "content", "dead")}
    for c in counts.values():
        assume(c.v >= 0)
    which = choice("state", ["neutral", "discontent", "content"])
    a = make(cls, "agent", alive=True, unique_id=1, model=Stub("model"), **attrs)
    states = cls._states
    if not all(k in states for k in ("neutral", "discontent", "content")):
        raise NotApplicable("states")
    for s in states.values():
        s.bind(a)
    calls = []

    def prob(p):
        u = boolean(f"event {len(calls)}")
        calls.append((num(p), u))
        return u

    def name_of(s):
        return s if isinstance(s, str) else getattr(s, "name", None)

    def count(state_id=None, limit=None, **kw):
        s = name_of(state_id)
        if kw or s not in counts:
            raise Unsupported("count_neighbors with other criteria")
        if limit is not None:
            return rt.min_(counts[s], limit)
        return counts[s]

    a.__dict__["prob"] = prob
    a.__dict__["count_neighbors"] = count
    f = states[which].f
    out = call(f, a)
    if not returned(out, "no errors"):
        return
    nxt = out.value
    if nxt is None:
        nxt = which
    nxt = name_of(nxt)
    if nxt is None:
        raise NotApplicable(out.value)
    A = attrs
    if which == "neutral":
        spec = [("discontent", A["neutral_discontent_spon_prob"].v, 0), ("content", A["neutral_content_spon_prob"].v, 0),
                ("discontent", A["neutral_discontent_infected_prob"].v * z3.ToReal(counts["discontent"].v), 1),
                ("content", A["neutral_content_infected_prob"].v * z3.ToReal(counts["content"].v), 1)]
    else:
        other = "content" if which == "discontent" else "discontent"
        spec = [("neutral", A[f"{which}_neutral"].v, 0), (other, A[f"{which}_{other}"].v * z3.ToReal(counts[other].v), 1)]
    left = dict(enumerate(spec))
    happened = None
    for p, u in calls:
        if happened is not None:
            fail("the first event that happens decides the next state")
            return
        for k, (target, want, kind) in list(left.items()):
            if E.CTX.valid(p.v == want):
                break
        else:
            fail("every event has its own probability", str(p))
            return
        del left[k]
        if kind == 1:
            prove(z3.BoolVal(not any(x[2] == 0 for x in left.values())), "spontaneous events come before contagions")
        if bool(u):
            happened = target
    if happened is None:
        cover(f"{which} stays")
        prove(z3.BoolVal(not left), "every event is considered", [x[0] for x in left.values()])
        prove(z3.BoolVal(nxt == which), "the agent stays as it is", nxt)
    else:
        cover(f"{which} to {happened}")
        prove(z3.BoolVal(nxt == happened), "the event decides the next state", nxt)


SISA_PROBS = dict(neutral_discontent_spon_prob="standard_variance", neutral_discontent_infected_prob="standard_variance", neutral_content_spon_prob="standard_variance",
                  neutral_content_infected_prob="standard_variance", discontent_neutral="standard_variance", discontent_content="variance_d_c", content_discontent="variance_c_d",
                  content_neutral="standard_variance")


@contract("C24 C25", ["SISaModel.__init__"], assumes=["FSM.__init__, NetworkAgent.__init__, BaseAgent.__init__ (their contracts)",
                                                     "numpy.random.Generator.normal: a number of the distribution with that mean and deviation, determined by the seed and the previous numbers (numpy)"])
def sisa_init(ctx):
    """ensures  each of the probabilities of the agent is drawn from the distribution with the mean and deviation in the model, with a generator whose seed is that of the model"""
    cls = SISA.SISaModel if hasattr(SISA, "SISaModel") else SISA
    vals = {k: real(k) for k in SISA_PROBS}
    devs = {k: real(k) for k in set(SISA_PROBS.values())}
    kind = choice("seed", ["number", "text"])
    seed = integer("seed") if kind == "number" else "some text"
    model = Stub("model", _seed=seed, **vals, **devs)
    a = make(cls, "agent", model=model)
    rngs, normal = [], []

    class Gen:
        def normal(self, loc=None, scale=None):
            r = Stub("number", loc=loc, scale=scale)
            normal.append(r)
            return r

    def default_rng(seed=None):
        rngs.append(seed)
        return Gen()
    mod = sys.modules[cls.__module__]
    if not hasattr(mod, "np"):
        raise NotApplicable("numpy")
    base = cls.__mro__[1]
    with patched((mod, "np", Stub("numpy", random=Stub("numpy.random", default_rng=default_rng))), (base, "__init__", lambda self, *a, **k: None)):
        out = call(cls.__init__, a, unique_id=1, model=model)
    if not returned(out, "no errors"):
        return
    cover(kind)
    prove(z3.BoolVal(bool(rngs)), "there is a generator")
    for r in rngs:
        if kind == "number":
            prove(equal(r, seed), "the seed is that of the model", r)
        else:
            prove(z3.BoolVal(r is not None), "the seed is that of the model", r)
    for k, dev in SISA_PROBS.items():
        v = a.__dict__.get(k)
        if not isinstance(v, Stub) or v not in normal:
            if v is None:
                fail(f"{k} is set")
                continue
            raise NotApplicable(f"{k}: {v}")
        prove(equal(v.loc, vals[k]), f"the mean of {k} is that in the model", v.loc)
        prove(equal(v.scale, devs[dev]), f"the deviation of {k} is that in the model", v.scale)
    prove(z3.BoolVal(len(normal) == len(set(map(id, normal)))), "each probability has its own number")


# ------------------------------------------------------------------ attributes


class Attr(Indexed):
    """Name of the i-th attribute with a default value"""


class Defaults:
    """Any dictionary of default values"""
    _vc_symbolic = True

    def __init__(self, n):
        self.n = n

    def items(self):
        return SymSeq(self.n, lambda i: (Attr("attribute", i), Indexed("default", i)), "defaults")

    def keys(self):
        return SymSeq(self.n, lambda i: Attr("attribute", i), "names")

    vc_iter = keys

    def __getitem__(self, k):
        if isinstance(k, Attr):
            return Indexed("default", k.ix[0])
        raise Unsupported("default value")

    def __contains__(self, k):
        if not isinstance(k, Attr):
            raise Unsupported("default value")
        return E.CTX.branch(z3.And(0 <= k.ix[0], k.ix[0] < self.n))

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __setitem__(self, k, v):
        fail("the defaults of the class do not change")

    def vc_len(self):
        return SymNum(self.n)

    def __bool__(self):
        return E.CTX.branch(self.n > 0)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"defaults.{k}")


UNKNOWN = object()


def lookup(segs, t, names=None):
    """Value of the attribute t after some assignments, or UNKNOWN if there were none"""
    c = E.CTX
    for s in reversed(segs):
        if isinstance(s, L.Prefix):
            # (only in the first pass of a loop: that every iteration assigns its own attribute is checked in the second one)
            continue
        if isinstance(s, Splice):
            raise Unsupported("attributes")
        if isinstance(s, Comp):
            j = z3.Int("j!lookup")
            own = True
            for g, items in s.parts(j):
                if any(isinstance(x, (Comp, Splice)) for x in items):
                    raise Unsupported("attributes set in nested loops")
                for k, v in items:
                    if not isinstance(k, Attr):
                        raise Unsupported("attributes set in another order")
                    own = own and z3.simplify(k.ix[0]).eq(j)
            if not own and names and all(z3.simplify(k.ix[0]).eq(names[0](j)) for g, items in s.parts(j) for k, v in items):
                # (each name is given once)
                w = names[1](t)
                for g, items in s.parts(w):
                    if items and c.branch(z3.And(s.lo <= w, w < s.hi, g, names[0](w) == t)):
                        return items[-1][1]
                continue
            if not own:
                r = L.last_item([s], lambda p: p[0].ix[0] == t)
                if r is not None:
                    return r[0][1]
                continue
            for g, items in s.parts(t):
                if items and c.branch(z3.And(s.lo <= t, t < s.hi, g)):
                    return items[-1][1]
            continue
        k, v = s
        if isinstance(k, Attr) and c.branch(k.ix[0] == t):
            return v
    return UNKNOWN


def attributes(ctx, some_given):
    need(AG, "deepcopy")
    n = length("defaults")
    has = ctx.func("the model has", I, B)
    log = VList((), "attributes")
    LOG[:] = [log]
    m = length("given") if some_given else z3.IntVal(0)
    which, where = ctx.func("name given", I, I), ctx.func("argument with that name", I, I)
    names = (which, where)
    value, ofmodel = ctx.func("value given", I, E.Val), ctx.func("value of the model", I, E.Val)
    if some_given:
        j = z3.Int("j")
        assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), where(which(j)) == j), patterns=[which(j)]))
    T = tracked_class(BaseAgent)

    def vset(self, k, v):
        LOG[0].append((k, v))

    def vget(self, k, *d):
        v = lookup(LOG[0].segs, k.ix[0], names)
        if v is UNKNOWN:
            if d:
                return d[0]
            raise AttributeError(str(k))
        return v

    def vhas(self, k):
        return lookup(LOG[0].segs, k.ix[0], names) is not UNKNOWN

    class Model:
        _vc_symbolic = True
        logger = Stub("logger", getChild=lambda name: Logger())
        random = Stub("random")
        agents_ = collections.defaultdict(dict)

        def vc_getattr(self, k, *d):
            if E.CTX.branch(has(k.ix[0])):
                return E.Opaque(ofmodel(k.ix[0]))
            if d:
                return d[0]
            raise AttributeError(str(k))

        def vc_hasattr(self, k):
            raise Unsupported("hasattr(model)")

        def __getattr__(self, k):
            if k.startswith("__") or k.startswith("vc_"):
                raise AttributeError(k)
            raise Unsupported(f"model.{k}")

    type.__setattr__(T, "vc_setattr", vset)
    type.__setattr__(T, "vc_getattr", vget)
    type.__setattr__(T, "vc_hasattr", vhas)
    a = object.__new__(T)
    a.__dict__["_vc_attrs"] = {}
    a.__dict__["_defaults"] = Defaults(n)
    a.vc_label = "agent"
    ctx.tracked.append(a)
    inits = []
    a.__dict__["init"] = lambda: inits.append(len(log.segs))
    model = Model()
    run_init = choice("init", [None, True, False])
    nm = choice("name", [None, "some"])

    def deepcopy(v, *x):
        if isinstance(v, Indexed) and v.kind == "default":
            return Indexed("copy of the default", v.ix[0])
        raise Unsupported("deepcopy")

    def copy(v):
        return Indexed("shallow copy", v.ix[0])
    pats = [(AG, "copy", copy)] if hasattr(AG, "copy") else []
    if some_given:
        kw = {rt.KW: L.VMap([comp(0, m, lambda j: [(z3.BoolVal(True), [(Attr("attribute", which(j)), E.Opaque(value(j)))])])], "arguments", True)}
    else:
        kw = {}
    extra = {} if run_init is None else dict(init=run_init)
    with patched((AG, "deepcopy", deepcopy), (AG, "logging", Stub("logging", LoggerAdapter=lambda *x, **k: Logger())), *pats):
        out = call(BaseAgent.__init__, a, 7, model, **({} if nm is None else dict(name=nm)), **extra, **kw)
    if not returned(out, "no errors"):
        return
    cover(f"init {run_init} name {nm}")
    d = a.__dict__
    prove(z3.BoolVal(d.get("unique_id") == 7 and d.get("model") is model), "the id and model are those given")
    prove(z3.BoolVal(d.get("alive") is True), "new agents are alive")
    if nm:
        prove(z3.BoolVal(d.get("name") == nm), "the name is the one given")
    prove(z3.BoolVal(inits == ([] if run_init is False else [len(log.segs)])), "init is called once, after setting all the attributes", inits)
    t = ctx.fresh("t", I)
    # (an attribute with a default, or one of those given)
    assume(z3.Or(z3.And(0 <= t, t < n), z3.And(0 <= where(t), where(t) < m, which(where(t)) == t)))
    v = lookup(log.segs, t, names)
    if v is UNKNOWN:
        fail("every attribute has a value")
        return
    if some_given and ctx.branch(z3.And(0 <= where(t), where(t) < m, which(where(t)) == t)):
        cover("given")
        prove(equal(v, E.Opaque(value(where(t)))), "the value given on creation is used", v)
        return
    if ctx.branch(z3.And(has(t), ofmodel(t) != E.Val.none)):
        cover("model")
        prove(equal(v, E.Opaque(ofmodel(t))), "the value of the model is used", v)
    else:
        cover("default")
        prove(equal(v, Indexed("copy of the default", t)), "a (deep) copy of the default is used", v)


LOG = [None]
ASSUMES = ["mesa.Agent.__init__ (run as it is)", "copy.deepcopy: a copy that shares nothing with the original (standard library)", "logging (standard library)",
           "the names of attributes with defaults are not those of methods, or of the attributes of every agent"]


@contract("C26", ["BaseAgent.__init__"], assumes=ASSUMES)
def defaults(ctx):
    """
    requires  any number of attributes with default values, any of which the model may have a value for
    ensures   every attribute has the value of the model, or else a deep copy of the default; then, init is called once (unless it is disabled)
    """
    attributes(ctx, False)


@contract("C26", ["BaseAgent.__init__"], assumes=ASSUMES)
def given(ctx):
    """
    requires  any number of attributes with default values, and any number of attributes given on creation (with a default or not)
    ensures   every attribute has the value given on creation, or else that of the model, or else a deep copy of the default
    """
    attributes(ctx, True)
