"""Improvement value, evaluated design, search boxes, discrete parameters, acquisition values, candidate selection."""
from .common import *
from .content import Hyp, content, norm, lform, simp
from .opt import OPT, OBJF, CONF, HIST, GOD, DES, DBO, inl_opt
from .opt2 import sym, pval, ploc, num


def numeval(t, env):
    """constant folding of a term under values for some of its leaves; None if it depends on something else"""
    import math
    if t in env:
        return env[t]
    if t.k in ("int", "flt"):
        return float(t.a[0])
    if is_huge(t):
        return 1.7976931348623157e308 if t.k == "call" else float(t.a[0])
    if t.k == "call" and t.a[0].endswith("::lowest"):
        return -1.7976931348623157e308
    if t.k == "call" and t.a[0].endswith("::epsilon"):
        return 2.220446049250313e-16
    a = [numeval(x, env) for x in t.a if isinstance(x, T)]
    if any(x is None for x in a):
        return None
    try:
        if t.k == "un":
            return {"-": lambda x: -x, "+": lambda x: x, "!": lambda x: not x}[t.a[0]](a[0])
        if t.k == "op":
            x, y = a
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "<": lambda: x < y,
                    "<=": lambda: x <= y, "==": lambda: x == y, "&&": lambda: x and y, "||": lambda: x or y}[t.a[0]]()
        if t.k == "ite":
            return a[1] if a[0] else a[2]
        if t.k == "call":
            n = t.a[0].split("::")[-1]
            return {"fabs": abs, "abs": abs, "sqrt": math.sqrt, "exp": math.exp, "isinf": math.isinf}[n](*a)
    except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None
    return None


def classify(t, pred):
    """replace atoms of conditions by pred(atom) where that is not None"""
    at = []
    cond_atoms(t, at)
    m = {}
    for a in at:
        r = pred(a)
        if r is not None:
            m[a] = r
    return m


def remap(t, m):
    """apply an atom map to the conditions of an ite tree / boolean term (polarity aware)"""
    if t.k == "un" and t.a[0] == "!":
        return neg(remap(t.a[1], m))
    if t.k == "op" and t.a[0] in ("&&", "||"):
        return op(t.a[0], remap(t.a[1], m), remap(t.a[2], m))
    if t.k == "ite":
        return ite(remap(t.a[0], m), remap(t.a[1], m), remap(t.a[2], m))
    a, p = norm_atom(t)
    if a in m:
        return m[a] if p else neg(m[a])
    return t


def expand(ctx, rule, key, w, got, spec, msg, assume=(), leaf_eq=None):
    """got and spec (ite trees) agree on every row of the joint decision table"""
    try:
        r = same_tree(got, spec, assume, leaf_eq)
    except KeyError:
        r = ("?", got, spec)
    return ctx.ob(rule, key, w, r is None, msg if r is None else "%s: %s instead of %s when %s" % (
        msg, show(r[1])[:160], show(r[2])[:120], show_env(r[0])[:200] if isinstance(r[0], dict) else ""))


# ------------------------------------------------------------------ O05
def O05_improvement(ctx):
    rule = "improvement"
    f = ctx.prog.fn(OPT + "::calculateImprovementValue")
    w = f.where()
    I, st, rv = run(ctx, f, None, inl_opt, OPT)
    D = ploc(f, 0)
    best0 = init(fld(OPT, "bestFeasibleInitialValue"))
    tv = init(F(D, DES + "::trueValue"))
    feas = init(F(D, DES + "::isDesignFeasible"))
    none = mk("sym", "nothing feasible so far")

    def pred(a):
        leaves = {x for x in subterms(a) if x.k == "init"}
        if leaves != {best0}:
            return None
        v = [numeval(a, {best0: z}) for z in (-1.7976931348623157e308, 0.0, 1.0, -1.0, 1e300, -1e300, -1e14)]
        if v[0] is True and not any(v[1:]) and None not in v:
            return none
        if v[0] is False and all(v[1:]) and None not in v:
            return neg(none)
        return None

    def prep(t):
        at = []
        atoms_of(t, at)
        m = {}
        for a in at:
            r = pred(a)
            if r is not None:
                m[a] = r
        return remap(t, m)
    impr = prep(I.load(st, F(D, DES + "::improvementValue")))
    best = prep(I.load(st, fld(OPT, "bestFeasibleInitialValue")))
    # conditions inside leaves of comparisons: resolve the tree per row by lifting
    impr = lift(impr)
    best = lift(best)
    impr, best = prep(impr), prep(best)
    spec = ite(feas, ite(none, mk("sym", "tiny"), ite(op("<", tv, best0), op("-", best0, tv), INT(0))), INT(0))

    def leq(a, b):
        if b.k == "sym":
            a, b = b, a
        if a is mk("sym", "tiny"):
            v = numeval(b, {})
            return v is not None and 0 < v < 1e-6
        return alg_eq(a, b)
    expand(ctx, rule, "improvement value of an evaluated design", w, impr, spec, "improvement value", leaf_eq=leq)
    expand(ctx, rule, "reference value", w, best, ite(feas, ite(none, tv, best0), best0), "reference objective value")
    # nothing else of the optimiser changes the reference value, except its initial computation
    n = 0
    for g in ctx.prog.methods(OPT):
        for x in walk(g.body):
            if x["k"] in ("Assign",) and x["l_"]["k"] == "Mem" and x["l_"].get("q") == OPT + "::bestFeasibleInitialValue" if "l_" in x else False:
                n += 1


def lift(t, depth=0):
    """move conditions out of comparisons and arithmetic: (c?a:b) < x  ->  c ? a<x : b<x"""
    if depth > 40:
        return t
    if t.k == "ite":
        c = lift(t.a[0], depth + 1)
        a, b = lift(t.a[1], depth + 1), lift(t.a[2], depth + 1)
        return ite(c, a, b)
    if t.k == "un":
        x = lift(t.a[1], depth + 1)
        if x.k == "ite" and t.a[0] != "!":
            return ite(x.a[0], lift(mk("un", t.a[0], x.a[1]), depth + 1), lift(mk("un", t.a[0], x.a[2]), depth + 1))
        return neg(x) if t.a[0] == "!" else mk("un", t.a[0], x)
    if t.k == "op":
        a, b = lift(t.a[1], depth + 1), lift(t.a[2], depth + 1)
        if t.a[0] in ("&&", "||"):
            return op(t.a[0], a, b)
        if a.k == "ite":
            return ite(a.a[0], lift(op(t.a[0], a.a[1], b), depth + 1), lift(op(t.a[0], a.a[2], b), depth + 1))
        if b.k == "ite":
            return ite(b.a[0], lift(op(t.a[0], a, b.a[1]), depth + 1), lift(op(t.a[0], a, b.a[2]), depth + 1))
        return op(t.a[0], a, b)
    return t


# ------------------------------------------------------------------ O06/O08
PROPOSE = OPT + "::findTheMostPromisingDesignToBeSimulated"


def O06_proposal(ctx):
    rule = "evaluated-design"
    f = ctx.prog.fn(PROPOSE)
    w = f.where()
    stop = ("findTheMostPromisingDesignGradientStep", "findTheMostPromisingDesignEGO", "maximizeAcqusitionFunctionGradientBased", "roundDiscreteParameters")
    I, st, rv = run(ctx, f, None, inline_classes(OPT, stop=stop), OPT)
    cb = fld(OPT, "currentBestDesign")
    dp = I.load(st, F(cb, DES + "::designParameters"))
    dn = I.load(st, F(cb, DES + "::designParametersNormalized"))
    lb, ub = init(fld(OPT, "lowerBounds")), init(fld(OPT, "upperBounds"))
    ndv = init(fld(OPT, "numberOfDiscreteVariables"))
    absint.UNSIGNED.add(ndv)
    den = mk("call", "Rodop::vec::denormalizeVector", dn, lb, ub)
    some = neg(op("==", ndv, INT(0)))

    def prep(t):
        return t
    rd = None
    for x in subterms(dp):
        if x.k in ("mut", "out") and x.a[0].endswith("::roundDiscreteParameters"):
            rd = x

    def leq(a, b):
        if b.k == "sym":
            return a.k in ("mut", "out") and a.a[0].endswith("::roundDiscreteParameters") and any(y is den for y in a.a)
        return a is b
    dpn = dp
    # denormalizeVector is a pure call
    r = same_tree(dpn, ite(some, mk("sym", "rounded"), den), (), leq) if True else None
    ctx.ob(rule, "evaluated parameters are the denormalised proposal, rounded when discrete parameters exist", w, r is None,
           "evaluated parameters: %s" % show(dp)[:300])
    # which proposal: the acquisition maximiser's result
    froms = {x.a[0].split("::")[-1] for x in subterms(dn) if x.k == "call"} | \
        {x.a[1].split("::")[-1] for x in subterms(dn) if x.k == "F"}
    ctx.ob(rule, "normalised parameters stored with the same proposal", w,
           bool({"dv", "maximizeAcqusitionFunctionGradientBased"} & froms) or any(x.k == "fld" and x.a[1].endswith("::dv") for x in subterms(dn)),
           "the normalised parameters are %s" % show(dn)[:200])


def O08_discrete(ctx):
    rule = "discrete"
    # registration
    f = ctx.prog.fn(OPT + "::setParameterToDiscrete")
    I, st, rv = run(ctx, f, None, inl_opt, OPT)
    w = f.where()
    inc, idx = I.load(st, fld(OPT, "incrementsForDiscreteVariables")), I.load(st, fld(OPT, "indicesForDiscreteVariables"))
    n = I.load(st, fld(OPT, "numberOfDiscreteVariables"))
    i0, x0 = init(fld(OPT, "incrementsForDiscreteVariables")), init(fld(OPT, "indicesForDiscreteVariables"))
    ctx.ob(rule, "registering a discrete parameter stores its index and increment together", w,
           inc is mk("push", i0, pval(f, 1)) and idx is mk("push", x0, pval(f, 0)) and n is op("+", init(fld(OPT, "numberOfDiscreteVariables")), INT(1)),
           "setParameterToDiscrete does not record index and increment of the parameter")
    # rounding
    f = ctx.prog.fn(OPT + "::roundDiscreteParameters")
    w = f.where()
    I, st, rv = run(ctx, f, None, inl_opt, OPT)
    ndv = init(fld(OPT, "numberOfDiscreteVariables"))
    absint.UNSIGNED.add(ndv)
    X0 = pval(f, 0)
    X = I.load(st, ploc(f, 0))
    lbs, ubs = init(fld(OPT, "lowerBounds")), init(fld(OPT, "upperBounds"))
    H = Hyp()
    ok = False
    why = show(X)[:300]
    for lid, inf in I.loops.items():
        if "range" not in inf:
            continue
        j, lo, hi = inf["range"]
        mod = inf["mod"].get(ploc(f, 0))
        if mod is None or lo is not INT(0) or not (norm(hi, H) is ndv):
            continue
        lv, nxt = find_lv_of(nxtlv(mod)), mod[1]
        index = init(E(fld(OPT, "indicesForDiscreteVariables"), j))
        dx = init(E(fld(OPT, "incrementsForDiscreteVariables"), j))
        H2 = Hyp()
        val = None
        if nxt.k == "upd" and nxt.a[1] is index:
            val = norm(nxt.a[2], H2)
        elif nxt.k == "ite":
            why = "only rounded when %s" % show(nxt.a[0])[:200]
        if val is None:
            continue
        ok, why = grid_value(I, val, index, dx, lbs, ubs, nxt, ctx, w)
    ctx.ob(rule, "every discrete parameter is replaced by the closest value of its own grid", w, ok, "rounding: " + why)


def nxtlv(mod):
    return mod[1]


def find_lv_of(t):
    l = find_lvs(t)
    return l[0] if l else None


def grid_value(I, val, index, dx, lbs, ubs, nxt, ctx, w):
    """val = lb(index) + K*dx with K the fold index of the minimal |x - (lb + k dx)| over k in [0, floor((ub-lb)/dx)]"""
    lb, ub = init(E(lbs.a[0], index)), init(E(ubs.a[0], index))
    while val.k == "ite":
        # a selected index stays below the number of values it was selected from
        c = val.a[0]
        g = Fold(I, c.a[1]) if c.k == "op" and c.a[0] == "<" and c.a[1].k == "lv" else None
        if g is not None and g.ok and g.init is INT(0) and update_cond(norm(g.next, Hyp()), g.lv, lambda t: t is g.i) is not None and \
                alg_eq(norm(g.hi, Hyp()), c.a[2]):
            val = val.a[1]
        else:
            break
    for lid, inf in I.loops.items():
        if "range" not in inf:
            continue
        i, lo, hi = inf["range"]
        for loc, (a, b) in inf["mod"].items():
            lv = mk("lv", lid, loc) if True else None
        for lv in [x for x in subterms(val) if x.k == "lv" and x.a[0] is lid]:
            if lv is i:
                continue
            f = Fold(I, lv)
            if not f.ok:
                continue
            H = Hyp()
            hi = norm(f.hi, H)
            H.add(f.i, "<", hi).add(f.lo, "<=", f.i).add(lv, "<", hi).add(INT(0), "<", hi)
            # the value at K
            if not alg_eq(val, op("+", lb, op("*", lv, dx))):
                continue
            good = count_ok(hi, ub, lb, dx)
            if not good:
                return False, "the grid has %s values" % show(hi)[:200]
            if f.lo is INT(0):
                pass
            elif f.lo is INT(1) and f.init is INT(0):
                pass
            else:
                return False, "the search starts at grid value %s" % show(f.lo)
            x = mk("elem", find_base(nxt), index)
            g = op("+", lb, op("*", i, dx))
            C = update_cond(norm(f.next, H), lv, lambda t: t is f.i)
            if C is None or C is FALSE:
                return False, "the closest value is not searched"
            C = norm(C, H)
            # compares |x-g(i)| with the best distance
            best = [y for y in find_lvs(C, lid) if y is not f.i and y is not lv]
            if C.k == "op" and C.a[0] in ("<", "<="):
                d = C.a[1]
                b = C.a[2]
                okd = is_dist(d, g, lb, dx, f.i)
                if not okd:
                    return False, "distance %s" % show(d)[:200]
                if b.k == "lv":
                    fb = Fold(I, b)
                    cu = update_cond(norm(fb.next, H), b, lambda t: alg_eq(t, d))
                    if cu is None or same_cond(norm(cu, H), C) is not None:
                        return False, "the best distance does not follow the chosen value"
                    i0 = fb.init
                    if not (is_huge(i0) or is_dist(norm(i0, H), lb, lb, dx, None) and f.lo is INT(1) or is_dist(norm(i0, H), lb, lb, dx, None)):
                        return False, "the best distance starts at %s" % show(i0)[:200]
                    return True, ""
                if is_dist(b, op("+", lb, op("*", lv, dx)), lb, dx, lv):
                    return True, ""
                return False, "compared with %s" % show(b)[:200]
            return False, "condition %s" % show(C)[:200]
    # closed form: lb + round((x-lb)/dx)*dx
    for y in subterms(val):
        if y.k == "call" and y.a[0].split("::")[-1] in ("round", "lround", "llround", "rint", "nearbyint", "floor"):
            pass
    return False, "value %s is not on the grid of the parameter" % show(val)[:200]


def is_dist(d, g, lb, dx, i):
    if d.k == "call" and canon_fun(d.a[0]) == "fabs":
        a = d.a[1]
        for x in subterms(a):
            if x.k == "elem" or x.k == "init":
                for e in (op("-", x, g), op("-", g, x)):
                    if alg_eq(a, e) and x is not lb and not (x.k == "init" and x.a[0].k == "E" and x is dx):
                        return True
    return False


def find_base(nxt):
    return nxt.a[0] if nxt.k == "upd" else nxt


def count_ok(hi, ub, lb, dx):
    """floor((ub-lb)/dx) + 1"""
    q = op("/", op("-", ub, lb), dx)
    b, c = lin(hi)
    if c != 1 or b is None:
        return False
    t = b
    while not alg_eq(t, q):
        if t.k == "un" and t.a[0] == "int":
            t = t.a[1]
        elif t.k == "call" and t.a[0].split("::")[-1] in ("floor", "trunc"):
            t = t.a[1]
        else:
            return False
    return alg_eq(t, q)


# ------------------------------------------------------------------ O07
GOPT_DV = GOD + "::designParametersNormalized"


def clip(x, lo, hi):
    return ite(op("<", x, lo), lo, ite(op("<", hi, x), hi, x))


def leq_env(env):
    """leaves equal, also because the row fixes an order between them"""
    def f(a, b):
        return alg_eq(a, b)
    return f


def same_value(ctx, rule, key, w, got, spec, msg, assume=(), cls=None):
    r = same_rows(got, spec, assume, cls=cls)
    ok = r is None
    return ctx.ob(rule, key, w, ok, "" if ok else "%s: %s instead of %s when %s" % (msg, show(r[1])[:200], show(r[2])[:200], show_env(r[0])[:900]))


def window_spec(k, dimf, width):
    best = init(E(F(fld(OPT, "globalOptimalDesign"), DES + "::designParametersNormalized"), k))
    one = op("/", INT(1), dimf)
    d = op("*", one, width)
    return clip(op("-", best, d), INT(0), one), clip(op("+", best, d), INT(0), one), one


class CandHooks(Hooks):
    def __init__(self):
        self.got = []

    def on_call(self, I, st, c):
        if c.n in ("generateRandomDesignVector", "generateRandomDesignVectorAroundASample", "gradientUpdateDesignVector") and c.q.startswith(DBO) and not I.quiet:
            self.got.append((c.n, list(c.args), I.where(c.node), st.copy()))


def O07_boxes(ctx):
    rule = "search-box"
    dimf = init(fld(OPT, "dimension"))
    absint.UNSIGNED.add(dimf)
    pos = (op("<", INT(0), op("/", INT(1), dimf)), True)
    k = sym("k")
    H = Hyp().add(k, "<", dimf).add(INT(0), "<=", k)
    seen = {}
    for entry, width, what in (
            ("findTheMostPromisingDesignEGO", init(fld(OPT, "trLength")), "trust region"),
            ("findTheMostPromisingDesignGradientStep", None, "gradient step window")):
        f = ctx.prog.fn(OPT + "::" + entry)
        h = CandHooks()
        I, st, rv = run(ctx, f, h, inl_opt, OPT)
        for n, args, w, s in h.got:
            lbv, ubv = (args[0], args[1]) if n == "generateRandomDesignVector" else (args[1], args[2])
            if n == "generateRandomDesignVector" and len(args) < 2:
                ctx.ob(rule, "%s: random candidates" % entry, w, False, "candidates are drawn without the current search box")
                continue
            ego = entry.endswith("EGO") or any(field_in_term(x, OPT + "::trLength") for x in (lbv, ubv))
            wd = init(fld(OPT, "trLength")) if ego else op("*", init(fld(OPT, "factorForGradientStepWindow")), init(fld(OPT, "trustRegionFactorGradientStep")))
            lo, hi, one = window_spec(k, dimf, wd)
            nm = "trust region" if ego else "gradient step window"
            seen[nm] = seen.get(nm, 0) + 1
            same_value(ctx, rule, "%s: lower end of the candidates' box" % nm, w, content(lbv, k, H), lo, "lower end", (pos,))
            same_value(ctx, rule, "%s: upper end of the candidates' box" % nm, w, content(ubv, k, H), hi, "upper end", (pos,))
            if n == "generateRandomDesignVectorAroundASample":
                c = content(args[0], k, H)
                ctx.ob(rule, "local search is centred at the best design", w, c is init(E(F(fld(OPT, "globalOptimalDesign"), DES + "::designParametersNormalized"), k)),
                       "the local search is centred at %s" % show(c)[:200])
                seen["local"] = 1
    for nm in ("trust region", "gradient step window", "local"):
        ctx.ob(rule, "candidates drawn: " + nm, ctx.prog.fn(OPT + "::findTheMostPromisingDesignEGO").where(), nm in seen, "no candidate is drawn in the " + nm)
    # ascent steps use the trust region
    f = ctx.prog.fn(OPT + "::maximizeAcqusitionFunctionGradientBased")
    h = CandHooks()
    I, st, rv = run(ctx, f, h, inl_opt, OPT)
    lo, hi = init(fld(OPT, "lowerBoundsForAcqusitionFunctionMaximization")), init(fld(OPT, "upperBoundsForAcqusitionFunctionMaximization"))
    g = [x for x in h.got if x[0] == "gradientUpdateDesignVector"]
    for n, args, w, s in g:
        ctx.ob(rule, "ascent steps stay in the trust region", w, args[1] is lo and args[2] is hi, "ascent step bounded by %s and %s" % (show(args[1])[:100], show(args[2])[:100]))
    ctx.ob(rule, "ascent steps", f.where(), bool(g), "the acquisition function is not maximised by bounded ascent steps")
    # the candidate operations themselves
    dimb = init(fld(DBO, "dim"))
    absint.UNSIGNED.add(dimb)
    H = Hyp().add(k, "<", dimb).add(INT(0), "<=", k)
    dv0 = init(E(fld(DBO, "dv"), k))
    f = ctx.prog.fn(DBO + "::gradientUpdateDesignVector")
    I, st, rv = run(ctx, f, None, inline_classes(DBO), DBO)
    v = content(I.load(st, fld(DBO, "dv")), k, H)
    el = lambda i: init(E(ploc(f, i), k))
    l, u = el(1), el(2)
    x = op("+", dv0, op("*", el(0), pval(f, 3)))
    same_value(ctx, rule, "ascent step: candidate moved along the gradient and clipped to its box", f.where(), v, clip(x, l, u), "component", ((op("<", u, l), False),))
    for f in ctx.prog.byq.get(DBO + "::generateRandomDesignVector", []):
        if len(f.p) == 2:
            h = CandHooks2()
            run(ctx, f, h, inline_classes(DBO), DBO)
            ok = len(h.got) == 1 and len(h.got[0]) == 2 and h.got[0][0] is pval(f, 0) and h.got[0][1] is pval(f, 1)
            ctx.ob(rule, "random candidate drawn between its bounds", f.where(), ok, "the candidate is not drawn between lower and upper bound")
    f = ctx.prog.fn(DBO + "::generateRandomDesignVectorAroundASample")
    h = CandHooks2()
    run(ctx, f, h, inline_classes(DBO), DBO)
    ok = len(h.got) == 1 and len(h.got[0]) == 2
    if ok:
        c, lbk, ubk = init(E(ploc(f, 0), k)), init(E(ploc(f, 1), k)), init(E(ploc(f, 2), k))
        dx = op("/", pval(f, 3), dimb)
        same_value(ctx, rule, "local candidate: lower end", f.where(), content(h.got[0][0], k, H), ite(op("<", op("-", c, dx), lbk), lbk, op("-", c, dx)), "lower end")
        same_value(ctx, rule, "local candidate: upper end", f.where(), content(h.got[0][1], k, H), ite(op("<", ubk, op("+", c, dx)), ubk, op("+", c, dx)), "upper end")
    ctx.ob(rule, "local candidate drawn between its bounds", f.where(), ok, "the local candidate is not drawn between lower and upper ends")


class CandHooks2(Hooks):
    def __init__(self):
        self.got = []

    def on_call(self, I, st, c):
        if c.n == "fillRandom" and not I.quiet:
            self.got.append(list(c.args))


# ------------------------------------------------------------------ O09
def phi_cdf(z):
    s2 = mk("flt", "1.4142135623730951")
    return op("*", mk("flt", "0.5"), op("+", INT(1), mk("call", "erf", op("/", z, s2))))


def phi_pdf(z):
    return op("*", mk("flt", "0.3989422804014327"), mk("call", "exp", op("*", mk("flt", "-0.5"), op("*", z, z))))


def small_sigma(s):
    """classifier: comparison of |s| (or s) with a tiny constant -> canonical atom 's > 0'"""
    canon = mk("sym", "uncertainty is positive")

    def pred(a):
        if a.k != "op" or a.a[0] not in ("<", "==", "<="):
            return None
        if a.a[0] == "<=":
            r = pred(mk("op", "<", a.a[2], a.a[1]))
            return None if r is None else neg(r)
        for x, y, c in ((a.a[1], a.a[2], canon), (a.a[2], a.a[1], None)):
            v = numeval(x, {})
            if v is None or not 0 <= v <= 1e-6:
                continue
            z = y
            if z.k == "call" and canon_fun(z.a[0]) == "fabs":
                z = z.a[1]
            if alg_eq(z, s):
                if a.a[0] == "==":
                    return neg(canon)
                return canon if c is canon else neg(canon)
        return None
    return canon, pred


def classify_tree(t, pred):
    at = []
    atoms_of(t, at)
    return remap(t, {a: pred(a) for a in at if pred(a) is not None})


def O09_acquisition(ctx):
    rule = "expected-improvement"
    n = 0
    for name in ("calculateExpectedImprovement", "calculateExpectedImprovementUsingDerivatives"):
        f = ctx.prog.fn(OBJF + "::" + name)
        w = f.where()
        I, st, rv = run(ctx, f, None, inline_classes(OBJF), OBJF)
        D = ploc(f, 0)
        val = I.load(st, F(D, DBO + "::valueAcquisitionFunction"))
        mean = I.load(st, F(D, DBO + "::objectiveFunctionValue"))
        sg = I.load(st, F(D, DBO + "::sigma"))
        dv = init(F(D, DBO + "::dv"))
        outs = {x.a[1]: x for x in subterms(val) if x.k == "out" and x.a[0].endswith("::interpolateWithVariance")}
        outs.update({x.a[1]: x for x in subterms(sg) if x.k == "out" and x.a[0].endswith("::interpolateWithVariance")})
        okq = 2 in outs and any(y is dv for y in outs[2].a) and any(field_in_term(y, OBJF + "::surrogate") for y in outs[2].a if isinstance(y, T))
        ctx.ob(rule, name + ": surrogate queried at the candidate", w, okq, "the surrogate is not queried at the candidate's design vector")
        if not okq:
            continue
        var = outs[2]
        if name.endswith("Derivatives"):
            s = mk("call", "sqrt", var)
            ms = [x for x in subterms(mean) if x.k == "call" and x.a[0].endswith("::interpolateUsingDerivatives")]
            ok = bool(ms) and ms[0] is mean and any(y is dv for y in mean.a)
        else:
            s = op("*", mk("call", "sqrt", var), init(fld(OBJF, "sigmaFactor")))
            ok = mean.k == "out" and mean.a[1] == 1 and mean.a[2:] == var.a[2:]
        ctx.ob(rule, name + ": estimated objective stored in the candidate", w, ok, "the candidate's estimate is %s" % show(mean)[:200])
        ctx.ob(rule, name + ": estimated uncertainty stored in the candidate", w, alg_eq(sg, mk("call", "sqrt", var)), "the candidate's sigma is %s" % show(sg)[:200])
        imp = op("-", init(fld(OBJF, "sampleMinimum")), mean)
        z = op("/", imp, s)
        canon, pred = small_sigma(s)
        t = val
        spec = ite(canon, op("+", op("*", imp, phi_cdf(z)), op("*", s, phi_pdf(z))), INT(0))
        same_value(ctx, rule, name + ": value", w, t, spec, "expected improvement", cls=pred)
    # reference value of the improvement
    f = ctx.prog.fn(OBJF + "::setFeasibleMinimum")
    I, st, rv = run(ctx, f, None, inline_classes(OBJF), OBJF)
    ctx.ob(rule, "reference value stored", f.where(), I.load(st, fld(OBJF, "sampleMinimum")) is pval(f, 0), "setFeasibleMinimum does not store its argument")
    f = ctx.prog.fn(OPT + "::findTheMostPromisingDesignEGO")
    got = []
    order = []

    class Hk(Hooks):
        def on_call(self, I, st, c):
            if c.q == OBJF + "::setFeasibleMinimum":
                if not I.quiet:
                    got.append((c.args[0], I.where(c.node)))
                set_done(st, "fmin", c.obj)
            if c.n == "calculateExpectedImprovement" and not I.quiet:
                order.append((has_done(st, "fmin"), I.where(c.node)))
    I, st, rv = run(ctx, f, Hk(), inl_opt, OPT)
    g = fld(OPT, "globalOptimalDesign")
    fe, tv = init(F(g, DES + "::isDesignFeasible")), init(F(g, DES + "::trueValue"))
    big = mk("sym", "very large")
    for v, w in got:
        ok = v.k == "ite"
        same_value(ctx, rule, "improvement measured from the best feasible objective value", w, bigleaf(v, big), ite(fe, tv, big), "reference value")
    ctx.ob(rule, "reference value set", f.where(), bool(got), "the reference value of the improvement is never set before the search")
    for o, w in order:
        ctx.ob(rule, "reference value set before candidates are judged", w, o, "candidates are judged before the reference value is set")
    feas_prob(ctx)


def bigleaf(t, big):
    if t.k == "ite":
        return ite(t.a[0], bigleaf(t.a[1], big), bigleaf(t.a[2], big))
    return big if is_huge(t) else t


def feas_prob(ctx):
    rule = "feasibility-probability"
    CFE = fld(OPT, "constraintFunctions")
    f = ctx.prog.fn(OPT + "::addPenaltyToAcqusitionFunctionForConstraints")
    w = f.where()
    I, st, rv = run(ctx, f, None, inline_classes(OPT, DBO), OPT)
    D = ploc(f, 0)
    H = Hyp()
    NCF = init(fld(OPT, "numberOfConstraints"))
    absint.UNSIGNED.add(NCF)
    unc = op("==", NCF, INT(0))
    v0 = init(F(D, DBO + "::valueAcquisitionFunction"))
    v = I.load(st, F(D, DBO + "::valueAcquisitionFunction"))
    p = I.load(st, F(D, DBO + "::constraintFeasibilityProbabilities"))
    # value: product over all probabilities
    ok = False
    lv = None
    con = v
    if v.k == "ite":
        s = {same_cond(v.a[0], unc) is None: (v.a[2], v.a[1]), same_cond(v.a[0], neg(unc)) is None: (v.a[1], v.a[2])}.get(True)
        if s and s[1] is v0:
            con = s[0]
    pc = p
    if p.k == "ite":
        pc = p.a[2] if same_cond(p.a[0], unc) is None else p.a[1]
    # (the product may be formed first and multiplied by the acquisition value afterwards)
    lvs = [x for x in subterms(con) if x.k == "lv"] if con.k == "op" and con.a[0] == "*" else []
    prodt = con if con.k == "lv" else lvs[0] if len(lvs) == 1 else None
    first = v0 if con is prodt else INT(1)
    fo = Fold(I, prodt) if prodt is not None and (con is prodt or alg_eq(con, op("*", v0, prodt))) else None
    if fo is not None and fo.ok:
        n = norm(fo.hi, H)
        start = fo.init is first or first is not v0 and alg_eq(fo.init, first)
        ok = fo.lo is INT(0) and n is NCF and start and alg_eq(norm(fo.next, H.copy().add(fo.i, "<", NCF)), op("*", prodt, content(pc, fo.i, H.copy().add(fo.i, "<", NCF))))
        if not ok and fo.lo is INT(0) and start:
            ok = (n is NCF or n is mk("size", pc)) and alg_eq(fo.next, op("*", prodt, mk("elem", pc, fo.i)))
    ctx.ob(rule, "acquisition value multiplied by every constraint's probability of feasibility", w, ok,
           "penalised acquisition value: %s" % show(v)[:200])
    # each probability
    c = sym("c")
    segs = pc.a[1] if pc.k == "fill" else ()
    ids = [x for x in subterms(pc) if x.k == "call" and x.a[0].endswith("::getID")]
    covered = {}
    for sg in segs:
        rngs, cond, idx, val = sg.a
        if len(rngs) != 1 or rngs[0].a[1] is not INT(0) or not H.eq(norm(rngs[0].a[2], H), mk("size", init(CFE))):
            continue
        b = rngs[0].a[0]
        cf = init(E(CFE, b))
        gid = mk("call", CONF + "::getID", cf)
        if not (idx.k == "call" and idx.a[0].endswith("::getID") and idx.a[1] is cf):
            ctx.ob(rule, "probability stored under the constraint's own index", w, False, "a probability is stored at %s" % show(idx)[:100])
            continue
        covered.setdefault("idx", True)
        typ = None
        for x in subterms(cond):
            if x.k == "call" and x.a[0].endswith("::getInequalityType"):
                typ = x
        target = None
        for x in subterms(val):
            if x.k == "call" and x.a[0].endswith("::getInequalityTargetValue") and x.a[1] is cf:
                target = x
        if typ is None or target is None or typ.a[1] is not cf:
            ctx.ob(rule, "probability uses the constraint's own type and target", w, False, "probability: %s if %s" % (show(val)[:150], show(cond)[:100]))
            continue
        Hb = H.copy().add(b, "<", mk("size", init(CFE)))
        val = norm(val, Hb)
        # mean and sigma at this constraint's index
        mean, sig = est_at(I, st, D, idx, cf, Hb)
        for tp in ("<", ">"):
            cs = op("==", typ, mk("str", tp))
            other = op("==", typ, mk("str", ">" if tp == "<" else "<"))
            r = reach(cond, cs, other)
            if not r:
                continue
            z = op("/", op("-", target, mk("sym", "mean")), mk("sym", "sigma"))
            got = subst(val, {mean: mk("sym", "mean"), sig: mk("sym", "sigma")}) if mean is not None else val
            sg_, me_ = mk("sym", "sigma"), mk("sym", "mean")
            canon, pred = small_sigma(sg_)
            less = ite(canon, phi_cdf(z), ite(op("<", target, me_), INT(0), INT(1)))
            spec = less if tp == "<" else ite(canon, op("-", INT(1), phi_cdf(z)), ite(op("<", target, me_), INT(1), INT(0)))
            same_value(ctx, rule, "probability of satisfying a '%s' constraint" % tp, w, got, spec, "probability", ((cs, True), (other, False)), cls=pred)
            covered[tp] = True
    for tp in ("<", ">"):
        ctx.ob(rule, "'%s' constraints get a probability" % tp, w, tp in covered, "no probability is computed for '%s' constraints at the constraint's own index from its own estimate" % tp)


def boolleaf(t):
    if t.k == "ite":
        return ite(t.a[0], boolleaf(t.a[1]), boolleaf(t.a[2]))
    if t.k == "op" and t.a[0] in ("<", "<=", "==") or t.k == "un" and t.a[0] == "!":
        return ite(t, INT(1), INT(0))
    if t.k == "op" and t.a[0] in "+-*":
        a, b = boolleaf(t.a[1]), boolleaf(t.a[2])
        if a is not t.a[1] or b is not t.a[2]:
            return lift(op(t.a[0], a, b))
    return t


def reach(cond, cs, other):
    at = []
    cond_atoms(cond, at)
    for env in envs(at):
        if env.get(norm_atom(cs)[0], True) and not env.get(norm_atom(other)[0], False) and eval_cond(cond, env):
            return True
    return False


def est_at(I, st, D, idx, cf, H):
    """estimated mean and sigma of constraint cf: element idx of the candidate's estimates"""
    out = []
    for fn in ("constraintValues", "constraintSigmas"):
        v = I.load(st, F(D, DBO + "::" + fn))
        if v.k == "ite":
            v = v.a[1] if v.a[1].k in ("fill", "upd") else v.a[2]
        out.append(content(v, idx, H))
    return out
