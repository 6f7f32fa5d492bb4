"""Trust region and exploration factor, schedule of gradient steps and of the training, setup of the optimiser."""
import itertools
from .common import *
from .lin import Fn, P, R, at, el, mat_eq, rejects, size, exists, throw_cond, call, add, sub, mul, div, K, I_, J_, ME, VEC, MAT
from .opt import OPT, OBJF, CONF, HIST, GOD, DES, DBO
from .opt4 import chain
from .sur import decide, rewrite, sfn, leq, total, nr, nc, when, pcond
from .value import Val
from .opt2 import ploc

LOOP = OPT + "::performEfficientGlobalOptimizationOnlyWithFunctionalValues"
STEP = ("findTheMostPromisingDesignToBeSimulated", "calculateImprovementValue", "findTheGlobalOptimalDesign", "computeConstraintsandPenaltyTerm",
        "initializeSurrogates", "trainSurrogates", "addConstraintValuesToData", "adjustSigmaFactor", "abortIfCurrentDesignHasANaN")
IMPV = DES + "::improvementValue"


def s(n):
    return mk("sym", n)


class Loop(Hooks):
    """what the optimisation loop hands to the parts that are analysed on their own"""

    def __init__(self, names):
        self.names = names
        self.calls = []

    def on_call(self, I, st, c):
        if not I.quiet and c.n in self.names:
            self.calls.append((c, st.copy(), I.where(c.node)))


def main_loop(ctx, f, I, rule):
    L = fld(OPT, "outerIterationNumber")
    c = [(lid, info) for lid, info in I.loops.items() if L in info["mod"]]
    if ctx.ob(rule, "iterations are counted in one loop", f.where(), len(c) == 1, "%d loops count iterations" % len(c)):
        return c[0]
    return None, None


class Names:
    """symbols for the values at the start of an iteration and for the improvement values compared"""

    def __init__(self, I, lid, info, names):
        self.names = names
        self.I, self.lid = I, lid

    def __call__(self, t):
        def fn(x):
            if x.k == "lv" and x.a[0] is self.lid and x.a[1].k == "F" and x.a[1].a[0] is THIS:
                n = x.a[1].a[1].split("::")[-1]
                if n in self.names:
                    return s(n)
            if x.k == "init" and x.a[0].k == "F" and x.a[0].a[0] is THIS and not [1 for n in self.names if x.a[0].a[1] == OPT + "::" + n]:
                return None
            if x.k == "fld" and x.a[1] == IMPV or x.k in ("lv", "init", "out", "mut") and self.impv(x):
                who = self.who(x)
                if who:
                    return s(who)
            return None
        return rewrite(t, fn)

    def impv(self, x):
        for y in x.a:
            if isinstance(y, T) and y.k == "F":
                return y.a[1] == IMPV
        return False

    def who(self, x):
        ch = chain(x)
        roots = set()
        for y in subterms(x):
            if y.k in ("lv", "init"):
                loc = y.a[1] if y.k == "lv" else y.a[0]
                base, path = root_field(loc)
                if path:
                    roots.add(path[0].split("::")[-1])
        if "calculateImprovementValue" in ch:
            return "improvement of the new design"
        if "globalOptimalDesign" in roots and "findTheGlobalOptimalDesign" not in ch:
            return "improvement of the best design"
        return None


KEPT = ("trLength", "trSuccessCounter", "trFailureCounter", "bestDeltaImprovementValueAchieved", "sigmaMultiplier", "outerIterationNumber", "sigmaFactor")


def mx(a, b):
    return ite(op("<", a, b), b, a)


def mn(a, b):
    return ite(op("<", b, a), b, a)


def O11_trust(ctx):
    rule = "trust-region"
    h = Loop(("adjustSigmaFactor",))
    f = Fn(ctx, LOOP, None, inl=inline_classes(OPT, stop=STEP), hooks=h)
    I = f.I
    lid, info = main_loop(ctx, f.f, I, rule)
    if lid is None:
        return
    N = Names(I, lid, info, KEPT)
    o = lambda n: init(fld(OPT, n))

    def nxt(n):
        m = info["mod"].get(fld(OPT, n))
        return N(m[1]) if m else s(n)
    g, c = s("improvement of the best design"), s("improvement of the new design")
    imp = op("<", g, c)
    S, F_, L = s("trSuccessCounter"), s("trFailureCounter"), s("trLength")
    tS, tF, mxl, mnl = o("trSuccessTolerance"), o("trFailureTolerance"), o("trLengthMax"), o("trLengthMin")
    s1, f1 = add(S, INT(1)), add(F_, INT(1))
    yes, no = op("==", s1, tS), op("==", f1, tF)
    A = [op("<", S, tS), op("<", F_, tF), op("<=", INT(0), S), op("<=", INT(0), F_)]
    f.eq(rule, "successes in a row", nxt("trSuccessCounter"), ite(imp, ite(yes, INT(0), s1), INT(0)), A)
    f.eq(rule, "failures in a row", nxt("trFailureCounter"), ite(imp, INT(0), ite(no, INT(0), f1)), A)
    f.eq(rule, "size of the trust region", nxt("trLength"),
         ite(imp, ite(yes, mn(mul(INT(2), L), mxl), L), ite(no, mx(div(L, INT(2)), mnl), L)), A)
    bd, d = s("bestDeltaImprovementValueAchieved"), sub(c, g)
    nb = ite(imp, mx(bd, d), bd)
    f.eq(rule, "largest improvement", nxt("bestDeltaImprovementValueAchieved"), nb, A)
    m = s("sigmaMultiplier")

    def ten(b):
        return op("<", INT(10), mul(div(d, b), INT(100)))
    nm = ite(imp, ite(op("<", bd, d), ite(ten(d), INT(1), m), ite(ten(bd), INT(1), m)), m)
    flag = o("ifVariableSigmaStrategy")
    f.eq(rule, "exploration multiplier", nxt("sigmaMultiplier"), ite(flag, mul(nm, o("sigmaGrowthFactor")), nm), A)
    f.eq(rule, "iterations", nxt("outerIterationNumber"), add(s("outerIterationNumber"), INT(1)), A)
    # the exploration factor is adjusted once per iteration, with the multiplier before it grows
    cs = [x for x in h.calls]
    if f.ob(rule, "exploration factor is adjusted in every iteration", len(cs) == 1, "is adjusted at %d places" % len(cs)):
        cc, st, w = cs[0]
        f.eq(rule, "multiplier used for the exploration factor", N(I.load(st, fld(OPT, "sigmaMultiplier"))), nm, A + [flag])
        pc = N(pcond(st))
        f.ob(rule, "exploration factor is adjusted exactly when it is variable", same_cond(only(pc, flag), flag) is None, "is adjusted when %s" % show(pc)[:200])


def only(pc, flag):
    """the path condition restricted to what it says about the flag"""
    return TRUE if flag not in subterms(pc) else flag if decided(pc, flag) else neg(flag)


def decided(pc, flag):
    at = []
    cond_atoms(pc, at)
    for p in (True, False):
        pass
    return not sat(pc, {flag: False})


def sat(pc, fixed):
    at = []
    cond_atoms(pc, at)
    at = [a for a in at if a not in fixed]
    if len(at) > 12:
        raise AnalysisError("decision table with %d atoms" % len(at))
    for vals in itertools.product((False, True), repeat=len(at)):
        env = dict(zip(at, vals))
        env.update(fixed)
        if eval_cond(pc, env):
            return True
    return False


def crowding(t):
    """value of the crowding factor after it has been computed anew"""
    return t.k == "mut" and t.a[0] == HIST + "::calculateCrowdingFactor"


def O11_sigma(ctx):
    rule = "exploration"
    f = Fn(ctx, OPT + "::adjustSigmaFactor", None, inl=inline_classes(OPT, also=(HIST + "::getCrowdingFactor",)))
    o = lambda n: init(fld(OPT, n))
    got = f.load(fld(OPT, "sigmaFactor"))
    cf = {x for x in subterms(got) if crowding(x)}
    f.ob(rule, "present crowding is computed anew", len(cf) == 1, "the factor uses %s" % (", ".join(show(x)[:100] for x in cf) or "no new crowding factor"))
    if len(cf) != 1:
        return
    cf = next(iter(cf))
    base = mul(o("sigmaMultiplier"), div(o("crowdingCoefficient"), cf))
    rnd = [x for x in subterms(got) if x.k == "call" and "andom" in x.a[0]]
    val = base
    if rnd:
        # sometimes larger by a random factor from 2 to 3
        dbl = [x for x in rnd if x.a[0].split("::")[-1] == "getRandomDouble"]
        sel = {norm_atom(x.a[0])[0] for x in subterms(got) if x.k == "ite" and any(y in rnd and y not in dbl for y in subterms(x.a[0]))
               and not any(y in dbl or y.k == "init" for y in subterms(x.a[0]))}
        ok = len(set(dbl)) == 1 and len(sel) == 1
        f.ob(rule, "random enlargement", ok and [f.V.eq(x, y) for x, y in zip(dbl[0].a[1:], (INT(2), INT(3)))] == [True, True],
             "the factor depends on %s" % ", ".join(show(x)[:80] for x in rnd))
        if not ok:
            return
        c = next(iter(sel))
        A = [op("<=", INT(2), dbl[0]), op("<=", dbl[0], INT(3))]
        big = mul(base, dbl[0])
        vals = [ite(c, big, base), ite(c, base, big)]
    else:
        vals, A = [base], []
    lo, hi = o("sigmaFactorMin"), o("sigmaFactorMax")
    A = A + [op("<=", lo, hi)]

    def clamp(x):
        return ite(op("<", x, lo), lo, ite(op("<", hi, x), hi, x))
    f.ob(rule, "exploration factor", any(f.V.eq(got, clamp(v), A) for v in vals), "becomes %s" % show(got)[:400])
    sf = init(fld(OBJF, "sigmaFactor", fld(OPT, "objFun")))
    now = f.load(fld(OBJF, "sigmaFactor", fld(OPT, "objFun")))
    f.ob(rule, "objective receives the exploration factor", now.k == "mut" and now.a[0] == OBJF + "::setSigmaFactor" and now.a[2] is got or f.V.eq(now, got),
         "the factor of the objective becomes %s" % show(now)[:300])


def atoms(t):
    at = []
    atoms_of(t, at)
    return at


def O11_crowding(ctx):
    rule = "crowding"
    f = Fn(ctx, HIST + "::calculateCrowdingFactor", None, inl=inline_classes(HIST))
    o = lambda n: init(fld(HIST, n))
    D, n, d = o("data"), o("numberOfDoESamples"), o("dimension")
    N = nr(D)
    got = f.load(fld(HIST, "crowdingFactor"))
    some = op("<=", n, N)
    from .sur import enum_of
    l1 = enum_of(ctx, "L1")
    for c, m, first, what in ((some, n, sub(N, n), "the newest samples"), (neg(some), N, INT(0), "all samples of a short history")):
        H = [c, op("<=", INT(2), m), neg(op("==", mul(m, sub(m, INT(1))), INT(0))), op("<", INT(0), d), op("<", INT(0), n), op("<", INT(0), N)]

        def pair(i, j):
            return call(VEC + "::norm", vecsub(row(D, add(first, i), d), row(D, add(first, j), d)), l1)

        def all_pairs(lo, hi, swap, parts):
            su = total(f, m, lambda i: upto(lo(i), hi(i), lambda j: pair(j, i) if swap else pair(i, j)))
            return div(su, div(mul(m, sub(m, INT(1))), INT(3 - parts)))
        n0, up, i_ = (lambda i: INT(0)), (lambda i: m), (lambda i: i)
        want = [all_pairs(lo, hi, sw, p) for lo, hi, p in ((lambda i: add(i, INT(1)), up, 1), (n0, i_, 1), (n0, up, 2)) for sw in (False, True)]
        leq(f, rule, "mean distance of " + what, settle_n(f, decide(got, [c]), H), want, [], H)


def settle_n(f, t, H):
    """conditions about numbers that follow are decided"""
    A = conj_(H)

    def fn(x):
        if x.k == "ite" and not any(y.k in ("exists", "bv") for y in subterms(x.a[0])):
            try:
                if f.V.implies(A, x.a[0]):
                    return rewrite(x.a[1], fn)
                if f.V.implies(A, neg(x.a[0])):
                    return rewrite(x.a[2], fn)
            except Exception:
                return None
        return None
    return rewrite(t, fn)


def upto(lo, hi, term):
    k = mk("bv", "from")
    absint.UNSIGNED.add(k)
    return absint.quant("agg", lo, hi, term(k), k, "sum")


def vecsub(a, b):
    return call(VEC + "::operator-", a, b)


def row(D, i, d):
    return call(VEC + "::head", call(MAT + "::getRow", D, i), d)


def value_of(f, name, cls=OPT):
    return f.load(fld(cls, name))


def number(t):
    """value of a constant expression"""
    import math
    t = norm_num(t)
    try:
        return eval_num(t)
    except (TypeError, ValueError, KeyError):
        return None


def norm_num(t):
    return t


def eval_num(t):
    if t.k in ("int", "flt"):
        return float(t.a[0])
    if t.k == "op" and t.a[0] in ("+", "-", "*", "/"):
        a, b = eval_num(t.a[1]), eval_num(t.a[2])
        return {"+": a + b, "-": a - b, "*": a * b, "/": a / b if b else None}[t.a[0]]
    if t.k == "un" and t.a[0] == "-":
        return -eval_num(t.a[1])
    if t.k == "un":
        return eval_num(t.a[1])
    if t.k == "call" and t.a[0].split("::")[-1] == "pow":
        return eval_num(t.a[1]) ** eval_num(t.a[2])
    if t.k == "call" and t.a[0].split("::")[-1] in ("ldexp", "exp2"):
        return eval_num(t.a[1]) * 2.0 ** eval_num(t.a[2]) if len(t.a) == 3 else 2.0 ** eval_num(t.a[1])
    if t.k == "poly":
        from .value import unpoly
        return eval_num(unpoly(t))
    raise KeyError(t.k)


class Before(Hooks):
    """states at calls, with the object"""

    def __init__(self, *names):
        self.names, self.got = names, []

    def on_call(self, I, st, c):
        if c.n in self.names and not I.quiet:
            self.got.append((c, st.copy(), I.where(c.node)))


def O11_settings(ctx):
    rule = "trust-region"
    f = Fn(ctx, OPT + "::initializeOptimizerSettings", None, inl=inline_classes(OPT))
    for n, v in (("trLengthMax", 1.0), ("trLengthMin", 0.5 ** 8), ("sigmaFactor", 1.0), ("sigmaFactorMin", 1.0), ("sigmaFactorMax", 100.0)):
        t = value_of(f, n)
        f.ob(rule, "initial " + n, number(t) == v, "is %s instead of %g" % (show(t)[:100], v))
    for n, lo, hi in (("maximumIterationGradientStep", 1, 1e9), ("factorForGradientStepWindow", 1e-300, 1)):
        t = value_of(f, n)
        v = number(t)
        f.ob(rule, "initial " + n, v is not None and lo <= v <= hi, "is %s" % show(t)[:100])
    # the history is complete before its crowding is measured
    rule = "exploration"
    h = Before("calculateCrowdingFactor")
    f = Fn(ctx, OPT + "::initializeOptimizationHistory", None, inl=inline_classes(OPT, also=(HIST + "::getCrowdingFactor",)), hooks=h)
    H_ = fld(OPT, "history")
    flag = init(fld(OPT, "ifVariableSigmaStrategy"))
    got = when(f, flag, value_of(f, "crowdingCoefficient"))
    cf = [x for x in subterms(got) if crowding(x)]
    if f.ob(rule, "initial crowding is computed", len(set(cf)) == 1 and len(h.got) >= 1, "the crowding coefficient is %s" % show(got)[:200]):
        f.eq(rule, "initial crowding", got, mul(cf[0], init(fld(OPT, "sigmaFactor"))), [flag])
        for c, st, w in h.got:
            d = f.I.load(st, F(H_, HIST + "::data"))
            n = f.I.load(st, F(H_, HIST + "::numberOfDoESamples"))
            f.ob(rule, "crowding is that of the initial samples", d.k == "mut" and d.a[0].startswith(HIST + "::"), "is computed before the history holds the initial samples")
            f.ob(rule, "number of initial samples", any(training(x) and n is nr(x) for x in subterms(n)),
                 "is %s" % show(n)[:200])


def training(t):
    return t.k == "call" and t.a[0] in (OBJF + "::getTrainingData",)


GSTOP = ("findPromisingDesignConstrainedGradientStep", "findPromisingDesignUnconstrainedGradientStep", "findTheMostPromisingDesignEGO",
         "maximizeAcqusitionFunctionGradientBased", "changeSettingsForAGradientBasedStep", "doesObjectiveFunctionHaveGradients",
         "setGradientGlobalOptimumFromTrainingData", "checkIfGlobalOptimaHasGradientVector", "roundDiscreteParameters", "findTheGlobalOptimalDesign")


def flags(f):
    """conditions of a gradient step as symbols; the first finding about them"""
    bad = []

    def fn(x):
        if x.k == "call":
            n = x.a[0].split("::")[-1]
            if n == "doesObjectiveFunctionHaveGradients":
                return s("objective has gradients")
            if n == "checkIfGlobalOptimaHasGradientVector":
                g = f.I.fldval(x.a[1], DES + "::gradient")
                if not (g.k == "mut" and g.a[0] == GOD + "::setGradientGlobalOptimumFromTrainingData" and len(g.a) > 2 and
                        g.a[2].k == "call" and g.a[2].a[0] == OBJF + "::getFileNameTrainingData"):
                    bad.append("the gradient tested is not the one read from the objective's training data: %s" % show(g)[:150])
                return s("optimum has a gradient")
        return None
    return (lambda t: rewrite(t, fn)), bad


def O12_gradient_steps(ctx):
    rule = "gradient-steps"
    h = Before("changeSettingsForAGradientBasedStep", "findPromisingDesignConstrainedGradientStep", "findPromisingDesignUnconstrainedGradientStep",
               "findTheMostPromisingDesignEGO")
    f = Fn(ctx, OPT + "::findTheMostPromisingDesignToBeSimulated", None, inl=inline_classes(OPT, stop=GSTOP), hooks=h)
    N, bad = flags(f)
    o = lambda n: init(fld(OPT, n))
    v = lambda n: N(value_of(f, n))
    W = o("WillGradientStepBePerformed")
    G, HG = s("objective has gradients"), s("optimum has a gradient")
    try_ = op("&&", G, W)
    do = op("&&", try_, HG)
    k, mxk = o("iterationNumberGradientStep"), o("maximumIterationGradientStep")
    last = op("==", add(k, INT(1)), mxk)
    A = [op("<", k, mxk), op("<=", INT(0), k)]
    fac = o("trustRegionFactorGradientStep")
    f.eq(rule, "number of gradient steps in a row", v("iterationNumberGradientStep"), ite(do, ite(last, INT(0), add(k, INT(1))), k), A)
    f.eq(rule, "window of the gradient step", v("trustRegionFactorGradientStep"), ite(do, ite(last, INT(1), mul(fac, mk("flt", "0.5"))), fac), A)
    w2 = v("WillGradientStepBePerformed")
    f.ob(rule, "gradient steps end", f.V.iff(w2, ite(try_, ite(HG, neg(last), FALSE), W), A), "whether a gradient step follows becomes %s" % show(w2)[:300])
    f.eq(rule, "local search steps", v("numberOfLocalSearchSteps"), ite(do, add(o("numberOfLocalSearchSteps"), INT(1)), o("numberOfLocalSearchSteps")), A)
    f.ob(rule, "gradient of the optimum", not bad, bad[0] if bad else "")
    # the window is set before the step is searched, the list is empty before
    seen = {}
    for c, st, w in h.got:
        pc = N(pcond(st))
        seen.setdefault(c.n, []).append(pc)
        if c.n.startswith("findPromisingDesign"):
            for b in ("lowerBounds", "upperBounds"):
                x = f.I.load(st, fld(OPT, b + "ForAcquisitionFunctionMaximizationGradientStep"))
                f.ob(rule, "search window of the gradient step is set first", x.k == "mut" and x.a[0].endswith("changeSettingsForAGradientBasedStep"), "is %s" % show(x)[:100])
            f.ob(rule, "window before it shrinks", f.V.eq(f.I.load(st, fld(OPT, "trustRegionFactorGradientStep")), fac), "the window factor changes before the step is searched")
            g = f.I.load(st, F(fld(OPT, "globalOptimalDesign"), DES + "::gradient"))
            f.ob(rule, "gradient is read before the step is searched", g.k == "mut" and g.a[0] == GOD + "::setGradientGlobalOptimumFromTrainingData", "the gradient is %s" % show(g)[:100])
        if c.n == "findTheMostPromisingDesignEGO" or c.n.startswith("findPromisingDesign"):
            l = f.I.load(st, fld(OPT, "theMostPromisingDesigns"))
            f.ob(rule, "no proposal of an earlier iteration is left", l.k in ("obj", "cleared") or norm_size0(l), "the list of proposals starts as %s" % show(l)[:150])
    con = op("<", INT(0), o("numberOfConstraints"))
    for n, want in (("findPromisingDesignConstrainedGradientStep", op("&&", do, con)), ("findPromisingDesignUnconstrainedGradientStep", op("&&", do, neg(con))),
                    ("findTheMostPromisingDesignEGO", neg(do))):
        got = None
        for pc in seen.get(n, []):
            got = pc if got is None else op("||", got, pc)
        absint.UNSIGNED.add(o("numberOfConstraints"))
        f.ob(rule, n + " is used when it should", got is not None and f.V.iff(got, want, []), "is used when %s" % (show(got)[:300] if got is not None else "never"))
    # what is proposed
    dn = v_dn = N(f.load(F(fld(OPT, "currentBestDesign"), DES + "::designParametersNormalized")))
    for conds, who, what in (([G, W, HG, con], "findPromisingDesignConstrainedGradientStep", "gradient step with constraints"),
                             ([G, W, HG, neg(con)], "findPromisingDesignUnconstrainedGradientStep", "gradient step without constraints"),
                             ([G, W, neg(HG)], "findTheMostPromisingDesignEGO", "fallback to the global search"),
                             ([neg(G)], "maximizeAcqusitionFunctionGradientBased", "global search of an objective without gradients"),
                             ([neg(W)], "maximizeAcqusitionFunctionGradientBased", "global search")):
        t = settle(f, v_dn, conds)
        src = origin(t)
        f.ob(rule, "proposal of the " + what, src == who, "comes from %s: %s" % (src, show(t)[:200]))


def settle(f, t, conds):
    """t under the conditions, conditions that follow decided"""
    A = None
    for c in conds:
        A = c if A is None else op("&&", A, c)

    def fn(x):
        if x.k == "ite":
            c = x.a[0]
            if f.V.implies(A, c):
                return rewrite(x.a[1], fn)
            if f.V.implies(A, neg(c)):
                return rewrite(x.a[2], fn)
        return None
    return rewrite(t, fn)


def origin(t):
    """name of the search whose result the design is"""
    while True:
        if t.k == "fld" or t.k == "snap":
            t = t.a[0]
        elif t.k == "elem" and t.a[1] is INT(0):
            t = t.a[0]
        elif t.k == "push":
            t = t.a[1]
        elif t.k == "call" and t.a[0].split("::")[-1] == "maximizeAcqusitionFunctionGradientBased":
            return "maximizeAcqusitionFunctionGradientBased" if origin(t.a[2]) == "findTheMostPromisingDesignEGO" else "a refinement of something else (%s)" % show(t)[:100]
        elif t.k in ("out", "mut", "call"):
            return t.a[0].split("::")[-1]
        else:
            return show(t)[:100]


def norm_size0(l):
    from .content import norm, Hyp
    return norm(size(l), Hyp()) is INT(0)


def O12_gradient_data(ctx):
    rule = "gradient-steps"
    f = Fn(ctx, OPT + "::doesObjectiveFunctionHaveGradients", None, inl=inline_classes(OPT))
    from .sur import enum_of
    ty = call(OBJF + "::getSurrogateModelType", init(fld(OPT, "objFun")))
    f.ob(rule, "an objective has gradients when its model uses them", f.V.iff(f.rv, op("==", ty, enum_of(ctx, "GRADIENT_ENHANCED")), []), "is %s" % show(f.rv)[:200])
    f = Fn(ctx, GOD + "::checkIfGlobalOptimaHasGradientVector", None, inl=inline_classes(GOD, DES))
    g = init(fld(DES, "gradient"))
    zero = next((y for y in subterms(f.rv) if y.k == "call" and y.a[0] == VEC + "::is_zero" and y.a[1] is g), call(VEC + "::is_zero", g))
    f.ob(rule, "a gradient that is there and not zero counts", f.V.iff(f.rv, op("&&", op("<", INT(0), size(g)), neg(zero)), []), "is %s" % show(f.rv)[:200])
    # gradient of the optimum
    f = Fn(ctx, GOD + "::setGradientGlobalOptimumFromTrainingData", None, inl=inline_classes(GOD, DES))
    got = f.load(fld(DES, "gradient"))
    d, x = init(fld(DES, "dimension")), init(fld(DES, "designParameters"))
    rows = {y for y in subterms(got) if y.k == "call" and y.a[0] == MAT + "::findRowIndex"}
    if f.ob(rule, "gradient comes from the row of the optimum", len(rows) == 1, "the gradient is %s" % show(got)[:200]):
        r = next(iter(rows))
        M, y = r.a[1], r.a[2]
        raw = [z for z in subterms(M) if z.k == "mut" and z.a[0] == MAT + "::readFromCSV"]
        f.ob(rule, "training data is read from the file", len(set(raw)) == 1 and raw[0].a[2] in (P(f.f.p[0]["n"]), init(P(f.f.p[0]["n"])), f.par(0)), "is %s" % show(M)[:200])
        f.ob(rule, "the optimum is looked up", y is x, "looks for %s" % show(y)[:100])
        if raw:
            D = raw[0]
            mat_eq(f, rule, M, nr(D), d, lambda i, j: el(D, i, j), "matrix searched", [op("<", INT(0), d), op("<", INT(0), nr(D))], [(INT(0), "<", d), (INT(0), "<", nr(D))])
            n = nc(D)
            f.eq(rule, "gradient has the right size", size(got), d, [])
            f.elems(rule, "gradient is the end of the row", got, el(D, r, add(sub(n, d), K)), K, [(INT(0), "<=", K), (K, "<", d), (mul(INT(2), d), "<=", n), (INT(0), "<=", r), (r, "<", nr(D))])
            rejects(f, rule, op("&&", op("<", r, INT(0)), op("==", r, INT(-1))), "an optimum that is not among the samples")
            rejects(f, rule, op("<", n, mul(INT(2), d)), "samples without gradients")
            rejects(f, rule, op("==", d, INT(0)), "a design without dimension")
    # the first iteration
    f = Fn(ctx, OPT + "::decideIfAGradientStepShouldBeTakenForTheFirstIteration", None, inl=inline_classes(OPT, stop=GSTOP))
    N, bad = flags(f)
    w = N(value_of(f, "WillGradientStepBePerformed"))
    W = init(fld(OPT, "WillGradientStepBePerformed"))
    fe = {y for y in subterms(w) if y.k in ("fld", "mut", "init") and feas(y)}
    ok = len(fe) == 1 and not bad
    f.ob(rule, "feasible optimum with gradient starts gradient steps", ok and f.V.iff(w, op("||", W, op("&&", op("&&", s("objective has gradients"), s("optimum has a gradient")), next(iter(fe)))), []),
         bad[0] if bad else "whether a gradient step is taken becomes %s" % show(w)[:300])
    f = Fn(ctx, OPT + "::findTheMostPromisingDesignEGO", None, inl=inline_classes(OPT, stop=("searchCompleteDesignSpace", "searchAroundGlobalOptima", "defineTrustRegion")))
    n = init(fld(OPT, "numberOfGlobalSearchSteps"))
    f.eq(rule, "global search steps", value_of(f, "numberOfGlobalSearchSteps"), add(n, INT(1)))


def feas(y):
    if y.k == "fld":
        return y.a[1] == DES + "::isDesignFeasible"
    return any(isinstance(z, T) and z.k == "F" and z.a[1] == DES + "::isDesignFeasible" for z in y.a) or \
        y.k == "mut" and any(isinstance(z, T) and z.k == "init" and feas(z) for z in y.a)


def O12_derivatives(ctx):
    """gradient of the acquisition value and scaling of gradients"""
    rule = "gradient-steps"
    f = Fn(ctx, OPT + "::scaleGradientVector", None, inl=inline_classes(OPT))
    g = f.par(0)
    d, lb, ub = (init(fld(OPT, n)) for n in ("dimension", "lowerBounds", "upperBounds"))
    now = f.load(ptr_(f, 0))
    f.elems(rule, "gradient with respect to the normalised parameters", now, mul(at(g, K), mul(d, sub(at(ub, K), at(lb, K)))), K, [(INT(0), "<=", K), (K, "<", d), (d, "<=", size(g))])
    f = Fn(ctx, OPT + "::calculateGradientOfAcquisitionFunction", None, inl=inline_classes(OPT))
    g = FD(f)
    D = ploc(f.f, 0)
    G, X = None, None
    for lid, info in f.I.loops.items():
        for l, (a, b) in info["mod"].items():
            b = once(g(b))
            if b.k == "upd" and b.a[0].k == "lv" and b.a[0].a[1] is l and l.k == "L":
                G = (lid, info, b)
            if l.k == "F" and l.a[1] == DBO + "::dv":
                X = (lid, l, b)
    ok = f.ob(rule, "gradient is filled component by component", G is not None and X is not None, "no loop fills the gradient of the acquisition value")
    if ok:
        lid, info, b = G
        lv, lo, hi = info["range"]
        f.ob(rule, "every component", lo is INT(0) and f.V.eq(hi, d) and b.a[1] is lv and f.V.eq(size(f.rv), d), "components %s to %s are computed" % (show(lo), show(hi)))
        x = mk("lv", lid, X[1])
        xi = mk("elem", x, lv)
        # the parameters at the start of an iteration, as a part of the design and on their own
        whole = lambda y: x if y.k == "fld" and y.a[1] == DBO + "::dv" and y.a[0] is mk("lv", lid, X[1].a[0]) else None
        b, X = rewrite(b, whole), (X[0], X[1], rewrite(X[2], whole))
        ei = [y for y in subterms(b.a[2]) if y.k == "sym" and isinstance(y.a[0], str) and y.a[0] == "EI"]
        pts_ = list(dict.fromkeys(ei))
        up, dn = None, None
        for e in pts_:
            c = f.I and cont(f, e.a[1], lv)
            other = cont(f, e.a[1], K, [neg(op("==", K, lv))])
            f.ob(rule, "only one component moves", other is mk("elem", x, K), "component k of the point is %s" % show(other)[:200])
            h = sub(c, xi)
            if up is None:
                up = (e, h)
            else:
                dn = (e, h)
        if f.ob(rule, "difference of two values", len(pts_) == 2, "%d values of the acquisition function are used" % len(pts_)):
            f.eq(rule, "the points lie on both sides", up[1], mul(INT(-1), dn[1]))
            f.eq(rule, "difference quotient", b.a[2], div(sub(up[0], dn[0]), sub(up[1], dn[1])))
            f.ob(rule, "the points differ", nonzero(f, up[1]), "the step is %s" % show(up[1])[:200])
        back = X[2]
        f.ob(rule, "the design is restored", f.V.eq(cont(f, back, K), mk("elem", x, K)), "component k becomes %s" % show(cont(f, back, K))[:200])
    e = Fn(ctx, OBJF + "::calculateExpectedImprovement", None, inl=inline_classes(OBJF))
    dv = e.load(F(ploc(e.f, 0), DBO + "::dv"))
    e.ob(rule, "judging a candidate does not move it", dv is init(F(ploc(e.f, 0), DBO + "::dv")), "its parameters become %s" % show(dv)[:200])


def once(t):
    """an entry that is written several times, as its last value"""
    def fn(x):
        if x.k == "elem" and x.a[0].k == "upd" and x.a[0].a[1] is x.a[1]:
            return rewrite(x.a[0].a[2], fn)
        return None
    while t.k == "upd" and t.a[0].k == "upd" and t.a[0].a[1] is t.a[1]:
        t = mk("upd", t.a[0].a[0], t.a[1], rewrite(t.a[2], fn))
    return t


class FD:
    """values of the acquisition function as symbols of the point"""

    def __init__(self, f):
        self.f = f

    def __call__(self, t):
        def fn(x):
            if x.k == "fld" and x.a[0].k in ("out", "mut") and x.a[0].a[0] == OBJF + "::calculateExpectedImprovement":
                if x.a[0].k != "out":
                    return None
                n = x.a[0].a[1]
                d = x.a[0].a[3 + (n if isinstance(n, int) else n.a[0])]
                if x.a[1] == DBO + "::dv":
                    return rewrite(self.dv(d), fn)
                if x.a[1] == DBO + "::valueAcquisitionFunction":
                    return mk("sym", "EI", rewrite(self.dv(d), fn))
            return None
        return rewrite(t, fn)

    def dv(self, y):
        return self.f.I.fldval(y, DBO + "::dv")


def cont(f, v, k, conds=()):
    """element k, elements at other places and re-stored elements looked through"""
    def go(v):
        if v.k == "upd":
            if v.a[1] is k:
                return v.a[2]
            if f.V.implies(conj_(conds), neg(op("==", k, v.a[1]))) if conds else False:
                return go(v.a[0])
            c = op("==", k, v.a[1])
            a, b = go_val(v.a[2]), go(v.a[0])
            # the same element stored back
            if b.k == "elem" and b.a[1] is k and a is mk("elem", b.a[0], v.a[1]):
                return b
            return ite(c, a, b)
        return mk("elem", v, k)

    def go_val(t):
        return t

    def deep(t):
        def fn(x):
            if x.k == "elem" and x.a[0].k == "upd":
                return rewrite(cont(f, x.a[0], x.a[1], conds), fn)
            return None
        return rewrite(t, fn)
    return deep(go(v))


def conj_(cs):
    r = TRUE
    for c in cs:
        r = op("&&", r, c)
    return r


def nonzero(f, h):
    """the step is a maximum with a positive constant, or the negative of one"""
    for sgn in (1, -1):
        p = h if sgn == 1 else mul(INT(-1), h)
        if f.V.implies(TRUE, op("<", INT(0), p)):
            return True
    return False


def ptr_(f, i):

    return ploc(f.f, i)


# ------------------------------------------------------------------ setup of the optimiser
CON = OPT + "::constraintFunctions"


def setup_fn(ctx, name, *also, **kw):
    return Fn(ctx, OPT + "::" + name, None, inl=inline_classes(OPT, *also, **kw.pop("pol", {})), **kw)


def constraint(f, field):
    """field of the constraint k"""
    H = f.H.copy()
    n = size(init(fld(OPT, "constraintFunctions")))
    for a in ((INT(0), "<=", K), (K, "<", n)):
        H.add(*a)
    from .content import content
    v = content(f.load(fld(OPT, "constraintFunctions")), K, H)
    return v, f.I.fldval(v, field)


def in_(f, obj_, field, cls):
    return f.load(F(fld(OPT, obj_), cls + "::" + field))


def is_set(t):
    return t in (TRUE, INT(1), mk("int", 1))


def O13_box(ctx):
    rule = "box"
    f = setup_fn(ctx, "setBoxConstraints", OBJF, CONF, GOD, DES, BNDS)
    b = f.par(0)
    lb, ub = f.I.fldval(b, BNDS + "::lowerBounds"), f.I.fldval(b, BNDS + "::upperBounds")
    o = lambda n: init(fld(OPT, n))
    f.ob(rule, "lower bounds", same_vec(f, value_of(f, "lowerBounds"), lb), "become %s" % show(value_of(f, "lowerBounds"))[:200])
    f.ob(rule, "upper bounds", same_vec(f, value_of(f, "upperBounds"), ub), "become %s" % show(value_of(f, "upperBounds"))[:200])
    for what, t in (("objective", in_(f, "objFun", "boxConstraints", OBJF)), ("record of the best design", in_(f, "globalOptimalDesign", "boxConstraints", GOD))):
        f.ob(rule, "box of the " + what, same_box(t, b), "becomes %s" % show(t)[:200])
    for what, t in (("objective", in_(f, "objFun", "ifParameterBoundsAreSet", OBJF)), ("optimiser", value_of(f, "ifBoxConstraintsSet"))):
        f.ob(rule, "box of the %s counts as set" % what, is_set(t), "is %s" % show(t)[:100])
    n = o("numberOfConstraints")
    absint.UNSIGNED.add(n)
    some = op("<", INT(0), n)
    v, t = constraint(f, OBJF + "::boxConstraints")
    t = settle(f, t, [some])
    f.ob(rule, "box of every constraint", same_box(t, b), "constraint k has the box %s" % show(t)[:300])
    t = settle(f, constraint(f, OBJF + "::ifParameterBoundsAreSet")[1], [some])
    f.ob(rule, "box of every constraint counts as set", is_set(t), "is %s" % show(t)[:200])
    from .api import crossed_rejected
    f.ob(rule, "rejects crossed bounds", crossed_rejected(f, size(lb), at, lb, ub, "<"), "some path accepts a lower bound above the upper one")
    rejects(f, rule, neg(op("==", size(lb), size(ub))), "bounds of different lengths")
    # consistent bounds are taken
    f = setup_fn(ctx, "checkBoxConstraints")
    d, lb, ub = (init(fld(OPT, n)) for n in ("dimension", "lowerBounds", "upperBounds"))
    f.ob(rule, "a box is proper when every lower bound is below the upper one", f.V.iff(f.rv, neg(exists(d, lambda i: op("<=", at(ub, i), at(lb, i)))), []), "is %s" % show(f.rv)[:300])
    f = setup_fn(ctx, "checkIfSettingsAreOK", pol=dict(stop=("checkBoxConstraints",)))
    m = init(fld(OPT, "maxNumberOfSamples"))
    absint.UNSIGNED.add(m)
    box = [x for s_, ty, node, fr in f.I.throws[0] for c, p in s_.path for x in subterms(c) if x.k == "call" and x.a[0].endswith("::checkBoxConstraints")]
    f.throws(rule, op("||", op("==", m, INT(0)), neg(box[0])) if box else TRUE, "exactly a missing budget or an improper box")


def same_vec(f, a, b):
    return a is b or f.V.eq(a, b)


def same_box(t, b):
    """the value is the box b, or has its bounds"""
    if t is b:
        return True
    return t.k == "snap" and t.a[0] is b


BNDS = "Rodop::Bounds"


def O13_dimension(ctx):
    rule = "dimension"
    f = setup_fn(ctx, "setDimension", GOD, DES, HIST)
    d = f.par(0)
    f.eq(rule, "dimension", value_of(f, "dimension"), d)
    for n in ("lowerBounds", "upperBounds", "lowerBoundsForAcqusitionFunctionMaximization", "upperBoundsForAcqusitionFunctionMaximization"):
        f.eq(rule, "size of " + n, size(value_of(f, n)), d, [op("<", INT(0), d)])
    fact = [(INT(0), "<=", K), (K, "<", d)]
    f.elems(rule, "whole space searched: upper limit", value_of(f, "upperBoundsForAcqusitionFunctionMaximization"), div(mk("flt", "1.0"), d), K, fact)
    f.eq(rule, "budget of the inner search", value_of(f, "iterMaxAcquisitionFunction"), mul(d, INT(10000)))
    for ob_ in ("globalOptimalDesign", "currentBestDesign"):
        f.eq(rule, "dimension of " + ob_, in_(f, ob_, "dimension", DES), d)
        for n in ("designParameters", "gradient"):
            f.eq(rule, "size of %s of %s" % (n, ob_), size(in_(f, ob_, n, DES)), d)
    f.eq(rule, "dimension of the history", in_(f, "history", "dimension", HIST), d)
    rejects(f, rule, op("==", d, INT(0)), "dimension 0")
    absint.UNSIGNED.add(d)
    f.ob(rule, "accepts every other dimension", never(f, op("<", INT(0), d)), "throws when %s" % show(throw_cond(f.I) or TRUE)[:200])


def blank(f, p):
    """rejects the names without any character other than blanks, and only these"""
    c = throw_cond(f.I)
    if c is None:
        return False
    B = s("blank")

    def fn(x):
        if x.k == "op" and x.a[0] in ("==", "!=") and any(y.k == "call" and y.a[0].split("::")[-1] == "find_first_not_of" and y.a[1] is p for y in x.a[1:]) and \
                any(show(y) == "npos" for y in x.a[1:]):
            return B if x.a[0] == "==" else neg(B)
        if x.k == "exists" and x.a[0] is INT(0) and x.a[1] is size(p):
            c_ = neg(x.a[2])
            if c_.k == "op" and c_.a[0] == "==" and INT(32) in c_.a[1:] and any(y.k == "elem" and y.a[0] is p and y.a[1].k == "bv" or
                                                                                          y.k == "init" and y.a[0].k == "E" and init(y.a[0].a[0]) is p and y.a[0].a[1].k == "bv" for y in c_.a[1:]):
                return neg(B)
        return None
    try:
        # an empty name has no such character either
        return Val(Hyp_()).iff(rewrite(c, fn), B, [op("||", neg(op("==", size(p), INT(0))), B)])
    except Exception:
        return False


def never(f, cond):
    """no exception under the condition"""
    c = throw_cond(f.I)
    try:
        return c is not None and Val(Hyp_()).implies(op("&&", cond, c), FALSE)
    except Exception:
        return False


def Hyp_():
    from .content import Hyp
    return Hyp()


def O13_functions(ctx):
    rule = "functions"
    f = setup_fn(ctx, "addObjectFunction", OBJF)
    x = f.par(0)
    obj_ = value_of(f, "objFun")
    base, ovs = (obj_.a[0], obj_.a[1]) if obj_.k == "snap" else (obj_, ())
    f.ob(rule, "objective is the one given", base is x and {y.a[0] for y in ovs} <= {OBJF + "::sigmaFactor"}, "is %s" % show(obj_)[:300])
    f.eq(rule, "exploration factor of the objective", f.I.fldval(obj_, OBJF + "::sigmaFactor"), init(fld(OPT, "sigmaFactor")))
    dv = value_of(f, "designVectorFileName")
    f.ob(rule, "design vector file is that of the objective", dv.k in ("fld", "init") and root_name(dv) == "designVectorFilename" and x in subterms(dv) or
         f.V.eq(dv, f.I.fldval(f.I.fldval(x, OBJF + "::definition"), "Rodop::ObjectiveFunctionDefinition::designVectorFilename")), "is %s" % show(dv)[:200])
    f.ob(rule, "objective counts as given", is_set(value_of(f, "ifObjectFunctionIsSpecied")), "does not")
    f = setup_fn(ctx, "addConstraint", GOD, DES)
    c = init(fld(OPT, "constraintFunctions"))
    new = value_of(f, "constraintFunctions")
    f.eq(rule, "one more constraint", size(new), add(size(c), INT(1)))
    n = size(c)
    el_ = norm_el(f, new, n)
    f.ob(rule, "constraint is the one given", el_ is f.par(0), "is %s" % show(el_)[:200])
    f.ob(rule, "earlier constraints stay", norm_el(f, new, K, [(INT(0), "<=", K), (K, "<", n)]) in (mk("elem", c, K), init(E(fld(OPT, "constraintFunctions"), K))), "change to %s" % show(new)[:200])
    m = init(fld(OPT, "numberOfConstraints"))
    f.eq(rule, "number of constraints", value_of(f, "numberOfConstraints"), add(m, INT(1)))
    f.eq(rule, "number of constraints of the best design", in_(f, "globalOptimalDesign", "numberOfConstraints", DES), add(m, INT(1)))
    f.eq(rule, "constraint values of the best design", size(in_(f, "globalOptimalDesign", "constraintTrueValues", DES)), add(m, INT(1)))
    for n in ("numberOfConstraintEvaluations", "numberOfConstraintGradientEvaluations"):
        q = F(fld(OPT, "statistics"), "Rodop::OptimizationStatistics::" + n)
        f.eq(rule, "counter %s" % n, size(f.load(q)), add(size(init(q)), INT(1)))
        e = norm_el(f, f.load(q), size(init(q)))
        f.ob(rule, "%s starts at zero" % n, e is INT(0), "starts at %s" % show(e)[:100])
    f = setup_fn(ctx, "initializeCurrentBestDesign", GOD, DES)
    f.eq(rule, "number of constraints of the current design", in_(f, "currentBestDesign", "numberOfConstraints", DES), m)
    f.eq(rule, "constraint values of the current design", size(in_(f, "currentBestDesign", "constraintTrueValues", DES)), m)
    f.ob(rule, "current design starts feasible", is_set(in_(f, "currentBestDesign", "isDesignFeasible", DES)), "does not")
    # predicates
    for n, w in (("isConstrained", op("<", INT(0), m)), ("isNotConstrained", op("==", m, INT(0)))):
        absint.UNSIGNED.add(m)
        f = setup_fn(ctx, n)
        f.ob(rule, "value", f.V.iff(f.rv, w, []), "is %s" % show(f.rv)[:100])


def root_name(t):
    return t.a[1].split("::")[-1] if t.k == "fld" else t.a[0].a[1].split("::")[-1] if t.a[0].k == "F" else ""


def norm_el(f, v, k, facts=()):
    from .content import content
    H = f.H.copy()
    for a in facts:
        H.add(*a)
    return content(v, k, H)


SUR_ = ("initializeSurrogate", "trainSurrogate")


def O13_models(ctx):
    rule = "models"
    f = setup_fn(ctx, "initializeSurrogates")
    for n in ("surrogate", "ifInitialized"):
        t = in_(f, "objFun", n, OBJF)
        f.ob(rule, "model of the objective is initialised", "initializeSurrogate" in chain(t), "%s is %s" % (n, show(t)[:200]))
    v, t = constraint(f, OBJF + "::surrogate")
    user = {x for x in subterms(t) if x.k == "call" and x.a[0].endswith("::isUserDefinedFunction")}
    c = {x.a[1] for x in user}
    own = init(fld(OPT, "constraintFunctions"))
    if f.ob(rule, "user defined constraints are told apart one by one", len(user) == 1 and c <= {mk("elem", own, K), init(E(fld(OPT, "constraintFunctions"), K))}, "decides by %s" % ", ".join(show(x)[:100] for x in user)):
        u = next(iter(user))
        a, b = settle(f, t, [neg(u)]), settle(f, t, [u])
        f.ob(rule, "model of every constraint is initialised", "initializeSurrogate" in chain(a), "is %s" % show(a)[:200])
        f.ob(rule, "a user defined constraint has no model", "initializeSurrogate" not in chain(b), "is %s" % show(b)[:200])
    f.ob(rule, "models count as initialised", is_set(value_of(f, "ifSurrogatesAreInitialized")), "do not")
    rejects(f, rule, neg(init(fld(OPT, "ifObjectFunctionIsSpecied"))), "a missing objective")
    f = setup_fn(ctx, "trainSurrogates")
    n = init(fld(OPT, "numberOfConstraints"))
    absint.UNSIGNED.add(n)
    t = in_(f, "objFun", "surrogate", OBJF)
    f.ob(rule, "model of the objective is trained", "trainSurrogate" in chain(t), "is %s" % show(t)[:200])
    t = settle(f, constraint(f, OBJF + "::surrogate")[1], [op("<", INT(0), n)])
    f.ob(rule, "model of every constraint is trained", "trainSurrogate" in chain(t), "is %s" % show(t)[:200])
    # in which iterations
    h = Loop(("initializeSurrogates", "trainSurrogates", "findTheMostPromisingDesignToBeSimulated"))
    f = Fn(ctx, LOOP, None, inl=inline_classes(OPT, stop=STEP), hooks=h)
    I = f.I
    lid, info = main_loop(ctx, f.f, I, rule)
    if lid is None:
        return
    N = Names(I, lid, info, ("outerIterationNumber",))
    L, how = s("outerIterationNumber"), init(fld(OPT, "howOftenTrainModels"))
    absint.UNSIGNED.add(how)
    B = s("first of the cycle")

    def rem(x):
        return x.k == "op" and x.a[0] == "%" and x.a[2] is how and f.V.eq(x.a[1], L)

    def cyc(t):
        def fn(x):
            if x.k == "op" and x.a[0] in ("==", "!=", "<") and any(rem(y) for y in x.a[1:]) and INT(0) in x.a[1:]:
                return B if x.a[0] == "==" else neg(B) if x.a[0] == "!=" or x.a[1] is INT(0) else FALSE
            return neg(B) if rem(x) else None       # a number as a condition
        return rewrite(N(t), fn)
    A = [op("||", neg(op("==", how, INT(1))), B), op("<", INT(0), how)]
    for n in ("initializeSurrogates", "trainSurrogates"):
        cs = [(c, st, w) for c, st, w in h.calls if c.n == n]
        pc = FALSE
        for c, st, w in cs:
            pc = op("||", pc, cyc(pcond(st)))
        f.ob(rule, n + " in the first of every howOftenTrainModels iterations", bool(cs) and f.V.iff(pc, B, A), "happens when %s" % show(pc)[:300])
    st = [st for c, st, w in h.calls if c.n == "findTheMostPromisingDesignToBeSimulated"]
    if f.ob(rule, "one search per iteration", len(st) == 1, "%d searches" % len(st)):
        t = cyc(I.load(st[0], F(fld(OPT, "objFun"), OBJF + "::surrogate")))
        t = settle(f, t, A + [B])
        ch = [x for x in chain(t) if x in ("initializeSurrogates", "trainSurrogates")]
        f.ob(rule, "models are initialised and then trained before the search", ch == ["trainSurrogates", "initializeSurrogates"], "the search uses the model after %s" % (" of ".join(chain(t)) or "nothing"))
    f = setup_fn(ctx, "setHowOftenTrainModels")
    f.eq(rule, "cycle of the training", value_of(f, "howOftenTrainModels"), f.par(0))
    f.throws(rule, op("==", f.par(0), INT(0)), "exactly a cycle of no iterations")


START_ = (("initializeOptimizerSettings", "trLengthMax", None), ("initializeSurrogates", "ifSurrogatesAreInitialized", None),
          ("initializeCurrentBestDesign", "numberOfConstraints", "currentBestDesign"), ("initializeOptimizationHistory", "data", "history"))


def O13_start(ctx):
    rule = "start"
    h = Before("performEfficientGlobalOptimizationOnlyWithFunctionalValues", "initializeOptimizationHistory", "initializeSurrogates", "initializeCurrentBestDesign",
               "initializeOptimizerSettings", "checkIfSettingsAreOK")
    names = h.names
    f = Fn(ctx, OPT + "::performEfficientGlobalOptimization", None, inl=inline_classes(OPT, stop=names), hooks=h)
    for n, what in (("ifObjectFunctionIsSpecied", "a missing objective"), ("ifBoxConstraintsSet", "a missing box")):
        rejects(f, rule, neg(init(fld(OPT, n))), what)
    order = [c.n for c, st, w in h.got]
    run_ = "performEfficientGlobalOptimizationOnlyWithFunctionalValues"
    f.ob(rule, "one optimisation", order.count(run_) == 1, "%d optimisations" % order.count(run_))
    for n in names[1:]:
        f.ob(rule, n + " comes before the first iteration", n in order and run_ in order and order.index(n) < order.index(run_), "does not")
    for a, b in (("initializeOptimizerSettings", "initializeOptimizationHistory"), ("initializeSurrogates", "initializeOptimizationHistory"), ("checkIfSettingsAreOK", "initializeSurrogates")):
        f.ob(rule, "%s comes before %s" % (a, b), a in order and b in order and order.index(a) < order.index(b), "does not")
    g, bx = init(fld(OPT, "ifObjectFunctionIsSpecied")), init(fld(OPT, "ifBoxConstraintsSet"))
    for c, st, w in h.got:
        pc = pcond(st)
        f.ob(rule, c.n + " always happens", f.V.implies(op("&&", g, bx), pc), "happens when %s" % show(pc)[:200])
    # plain settings
    for n, q in (("setMaximumNumberOfIterations", "maxNumberOfSamples"), ("setMaximumNumberOfInnerIterations", "iterMaxAcquisitionFunction"), ("setNumberOfThreads", "numberOfThreads"),
                 ("setFileNameDesignVector", "designVectorFileName"), ("setName", "name")):
        f = setup_fn(ctx, n)
        t = value_of(f, q)
        f.ob(rule, "sets %s" % q, t is f.par(0), "becomes %s" % show(t)[:100])
        p = f.par(0)
        if n == "setNumberOfThreads":
            f.throws(rule, op("==", p, INT(0)), "exactly 0 threads")
        elif n == "setFileNameDesignVector":
            f.ob(rule, "rejects exactly an empty or blank file name", blank(f, p), "throws when %s" % show(throw_cond(f.I) or TRUE)[:200])
        else:
            f.ob(rule, "accepts every value", never(f, TRUE), "throws")
    for n, q, v in (("setDisplayOn", "output", None), ("setUseTangentsOn", "ifTangentsAreUsed", TRUE), ("setAPIUseOn", "ifAPIisUsed", TRUE)):
        if v is None:
            continue
        f = setup_fn(ctx, n)
        f.ob(rule, "switches %s on" % q, is_set(value_of(f, q)), "is %s" % show(value_of(f, q))[:100])
    f = setup_fn(ctx, "setParameterNames", HIST)
    t = in_(f, "history", "parameterNames", HIST)
    f.ob(rule, "parameter names reach the history", t is f.par(0), "are %s" % show(t)[:100])


def O04_record(ctx):
    """what is put into the history is what it holds"""
    rule = "history-record"
    f = Fn(ctx, HIST + "::setData", None)
    p = f.par(0)
    f.ob(rule, "the history holds the data given", f.load(fld(HIST, "data")) is p, "becomes %s" % show(f.load(fld(HIST, "data")))[:200])
    width = add(add(init(fld(HIST, "dimension")), size(init(fld(HIST, "constraintNames")))), INT(3))
    absint.UNSIGNED.add(init(fld(HIST, "dimension")))
    for cond, what in ((op("==", init(fld(HIST, "dimension")), INT(0)), "data before the dimension"), (op("==", mk("nrows", p), INT(0)), "empty data"),
                       (neg(op("==", mk("ncols", p), width)), "data of another width")):
        rejects(f, rule, cond, what)
    f = Fn(ctx, HIST + "::addConstraintName", None)
    n = init(fld(HIST, "constraintNames"))
    v = f.load(fld(HIST, "constraintNames"))
    f.ob(rule, "a constraint name is added behind the others", v is mk("push", n, f.par(0)), "becomes %s" % show(v)[:200])
    rejects(f, rule, op("==", size(f.par(0)), INT(0)), "an empty constraint name")
    f = Fn(ctx, HIST + "::setDimension", None)
    f.ob(rule, "dimension of the history", f.load(fld(HIST, "dimension")) is f.par(0), "becomes %s" % show(f.load(fld(HIST, "dimension")))[:100])



def O04_all(ctx):
    """a design is feasible when every constraint holds for its value"""
    from .bounds import iff_
    from .sur import rewrite
    rule = "all-constraints"
    f = setup_fn(ctx, "checkConstraintFeasibility", pol={"stop": ("printInfoToLog", "log", "getInstance")})
    cs = fld(OPT, "constraintFunctions")
    n, p = size(init(cs)), f.par(0)
    cf = lambda i: init(E(cs, i))
    # constraints are numbered in the order in which they are added: number and position are the same
    t = rewrite(f.rv, lambda x: x.a[1].a[0].a[1] if x.k == "call" and x.a[0] == CONF + "::getID" and x.a[1].k == "init" and x.a[1].a[0].k == "E" and x.a[1].a[0].a[0] is cs else None)
    want = neg(exists(n, lambda i: neg(mk("call", CONF + "::checkFeasibility", cf(i), at(p, i)))))
    f.ob(rule, "feasible exactly when every constraint is satisfied by its own value", iff_(f, t, want, [(size(p), n)]), "is %s" % show(f.rv)[:300])
    rejects(f, rule, op("<", size(p), n), "fewer values than constraints")


def own_entry(v, cs, k):
    """the entry of constraint k in values stored for all constraints under their numbers (or positions, which are the same)"""
    if v.k != "fill":
        return v
    for rngs, cond, idx, val in (g.a for g in v.a[1]):
        if len(rngs) == 1 and rngs[0].a[1] is INT(0) and rngs[0].a[2] in (size(init(cs)), init(fld(OPT, "numberOfConstraints"))):
            b = rngs[0].a[0]
            if idx is b or idx is mk("call", CONF + "::getID", init(E(cs, b))):
                val = subst(val, {b: k})
                c = subst(cond, {b: k})
                return val if c is TRUE else ite(c, val, own_entry(v.a[0], cs, k))
    return v


def O09_estimates(ctx):
    """a candidate's constraint estimates come from that constraint's model at that candidate"""
    from .sur import decide
    from .content import content
    rule = "constraint-estimates"
    f = setup_fn(ctx, "estimateConstraints", DBO, pol={"stop": ("printInfoToLog", "log", "getInstance")})
    cs = fld(OPT, "constraintFunctions")
    n = size(init(cs))
    d = ploc(f.f, 0)
    k = K
    H = f.H.copy()
    H.add(INT(0), "<=", k)
    H.add(k, "<", n)
    cf = init(E(cs, k))
    dv = init(F(d, DBO + "::dv"))
    lb, ub = init(fld(OPT, "lowerBounds")), init(fld(OPT, "upperBounds"))
    udf = mk("call", CONF + "::isUserDefinedFunction", cf)
    for field, part in (("constraintValues", "first"), ("constraintSigmas", "second")):
        v = own_entry(f.load(F(d, DBO + "::" + field)), cs, k)
        for c, x, what in ((udf, mk("call", VEC + "::denormalizeVector", dv, lb, ub), "user-defined constraint"), (neg(udf), dv, "constraint with a model")):
            t = decide(v, [c])
            y = t.a[0] if t.k == "fld" and t.a[1] == "std::pair::" + part else None
            ok = y is not None and y.k == "call" and y.a[0] == CONF + "::interpolateWithVariance" and y.a[1] is cf and (y.a[2] is x or f.V.eq(y.a[2], x))
            f.ob(rule, "%s: %s" % (what, "value" if part == "first" else "deviation"), ok, "is %s" % show(t)[:300])
