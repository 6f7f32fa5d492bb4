"""Surrogate models: training data, normalisation, Kriging and linear regression formulas, model errors."""
from .lin import *
from .lin import I_, J_, NR, NC, el, mat_eq, rejects

SMD = "Rodop::SurrogateModelData"
SM = "Rodop::SurrogateModel"
KM = "Rodop::KrigingModel"
LM = "Rodop::LinearModel"
CFB = "Rodop::CorrelationFunctionBase"
ECF = "Rodop::ExponentialCorrelationFunction"
GCF = "Rodop::GaussianCorrelationFunction"
BND = "Rodop::Bounds"
CHS = "Rodop::CholeskySystem"
ONE, ZERO = INT(1), INT(0)


class Obj:
    """initial and final values of the fields of this"""

    def __init__(self, f, cls):
        self.f, self.cls = f, cls

    def old(self, name, cls=None):
        return init(fld(cls or self.cls, name))

    def new(self, name, cls=None):
        return self.f.load(fld(cls or self.cls, name))


def sfn(ctx, cls, name, types, also=(), **kw):
    kw.setdefault("inl", inline_classes(cls, *also, stop=("operator()",)))
    f = Fn(ctx, cls + "::" + name, types, **kw)
    f.o = Obj(f, cls)
    return f


def nr(m):
    return dimq("nrows", m)


def nc(m):
    return dimq("ncols", m)


def when(f, c, t):
    """value of t when the condition c holds"""
    H = f.H
    if t.k == "ite":
        if f.V.implies(c, t.a[0]):
            return when(f, c, t.a[1])
        if f.V.implies(c, neg(t.a[0])):
            return when(f, c, t.a[2])
    return t


def unchanged(f, rule, *names):
    for n in names:
        f.ob(rule, n + " is not changed", f.o.new(n) is f.o.old(n), "becomes %s" % show(f.o.new(n))[:200])


def lo(b):
    return init(F(b, BND + "::lowerBounds"))


def up(b):
    return init(F(b, BND + "::upperBounds"))


NORM = lambda x, a, b, d: div(div(sub(x, a), sub(b, a)), d)


# ------------------------------------------------------------------ S01
def S01_columns(ctx):
    r = "training-data"
    f = sfn(ctx, SMD, "assignDimensionFromData", [])
    o = f.o.old
    w = o("rawDataWork")
    cols = nc(w)
    dim = ite(o("ifDataHasGradients"), div(sub(cols, ONE), INT(2)), ite(o("ifDataHasDirectionalDerivatives"), div(sub(cols, INT(2)), INT(2)), sub(cols, ONE)))
    f.eq(r, "dimension", f.o.new("dimension"), dim)
    f.throws(r, op("||", op("||", op("==", nr(w), ZERO), op("==", cols, ZERO)), op("&&", op("<", ZERO, o("dimension")), neg(op("==", o("dimension"), dim)))),
             "empty data and data of another dimension")
    d, n, nv = o("dimension"), o("numberOfSamples"), o("numberOfValidationSamples")
    none = op("||", op("==", d, ZERO), op("==", n, ZERO))

    f = sfn(ctx, SMD, "assignSampleInputMatrix", [])
    for x in ("X", "Xraw"):
        mat_eq(f, r, f.o.new(x), n, d, lambda i, j: el(w, i, j), x)
    v = op("<", ZERO, nv)
    wv = o("rawDataValidation")
    for x in ("XValidation", "XrawValidation"):
        t = when(f, v, f.o.new(x))
        mat_eq(f, r, t, nv, d, lambda i, j: el(wv, i, j), x)
    rejects(f, r, none, "data without dimension or samples")
    f = sfn(ctx, SMD, "assignSampleOutputVector", [])
    H = [(n, "==", nr(w))]
    f.eq(r, "one output per sample", size(f.o.new("y")), nr(w))
    f.elems(r, "outputs", f.o.new("y"), el(w, K, d), K, [(ZERO, "<=", K), (K, "<", n)])
    t = when(f, v, f.o.new("yValidation"))
    f.elems(r, "validation outputs", t, el(wv, K, d), K, [(ZERO, "<=", K), (K, "<", nv)])
    rejects(f, r, none, "data without dimension or samples")
    f = sfn(ctx, SMD, "assignGradientMatrix", [])
    g = o("ifDataHasGradients")
    t = when(f, g, f.o.new("gradient"))
    mat_eq(f, r, t, n, d, lambda i, j: el(w, i, add(add(d, ONE), j)), "gradient")
    f.throws(r, op("||", none, op("&&", g, op("<=", nc(w), add(d, ONE)))), "data without gradient columns")
    f = sfn(ctx, SMD, "assignDirectionalDerivativesVector", [])
    g = o("ifDataHasDirectionalDerivatives")
    t = when(f, g, f.o.new("directionalDerivatives"))
    f.elems(r, "directional derivatives", t, el(w, K, add(d, ONE)), K, [(ZERO, "<=", K), (K, "<", n)])
    f = sfn(ctx, SMD, "assignDifferentiationDirectionMatrix", [])
    t = when(f, g, f.o.new("differentiationDirections"))
    mat_eq(f, r, t, n, d, lambda i, j: el(w, i, add(add(d, INT(2)), j)), "differentiation directions")
    rejects(f, r, none, "data without dimension or samples")


def S01_reading(ctx):
    r = "training-data"
    f = sfn(ctx, SMD, "readData", ["basic_string<char>"])
    o, z = f.o.old, f.o.new
    raw = z("rawData")
    ratio = o("ratioValidationData")
    fname = init(mk("P", f.f.p[0]["n"]))
    f.ob(r, "reads the given file", raw.k == "mut" and raw.a[0] == MAT + "::readFromCSV" and raw.a[2] is fname, "raw data is %s" % show(raw)[:200])
    full = op("<=", ratio, ZERO)
    split = op("<", ZERO, ratio)
    work = z("rawDataWork")
    f.ob(r, "all samples are used without validation", when(f, full, work) is raw, "working data is %s" % show(when(f, full, work))[:200])
    ws = when(f, split, work)
    idx = when(f, split, z("indicesForValidationData"))
    f.ob(r, "validation samples are removed from the training data",
         ws.k == "mut" and ws.a[0] == MAT + "::deleteRows" and ws.a[1] is raw and ws.a[2] is idx, "working data is %s" % show(ws)[:200])
    f.eq(r, "number of samples", z("numberOfSamples"), nr(work))
    f.eq(r, "number of validation samples", when(f, split, z("numberOfValidationSamples")), size(idx))
    f.eq(r, "no validation samples of an earlier file stay", when(f, full, z("numberOfValidationSamples")), ZERO)
    val = when(f, split, z("rawDataValidation"))
    H = f.H.copy()
    f.eq(r, "number of validation rows", nr(val), size(idx))
    c = content(val, mk("tup", I_, J_), H.copy().add(ZERO, "<=", I_).add(I_, "<", size(idx)).add(ZERO, "<=", J_).add(J_, "<", nc(val)))
    H = f.H.copy().add(ZERO, "<=", I_).add(I_, "<", size(idx))
    want = el(raw, content(idx, I_, H), J_)
    f.ob(r, "validation rows", f.V.eq(c, want), "row is %s" % show(c)[:200])
    f.ob(r, "marked as read", z("ifDataIsRead") is TRUE or z("ifDataIsRead") is ONE, "is %s" % show(z("ifDataIsRead")))
    # everything used later comes from the work matrix (dimension of the file)
    d, n = z("dimension"), z("numberOfSamples")
    fc = [(ZERO, "<=", I_), (I_, "<", n), (ZERO, "<=", J_), (J_, "<", d)]
    for c_, nm in ((full, ""), (split, " (with validation)")):
        W = when(f, c_, work)
        for x in ("X", "Xraw"):
            t = f.o.new(x)
            f.ob(r, x + nm, sub_of(f, t, work, ZERO, ZERO), "is %s" % show(t)[:200])
    f.ob(r, "y", is_call(z("y"), MAT + "::getCol") and z("y").a[1] is work and f.V.eq(z("y").a[2], d), "is %s" % show(z("y"))[:200])
    g = when(f, o("ifDataHasGradients"), z("gradient"))
    f.ob(r, "gradient", sub_of(f, g, work, ZERO, add(d, ONE)), "is %s" % show(g)[:200])
    g = when(f, o("ifDataHasDirectionalDerivatives"), z("directionalDerivatives"))
    f.ob(r, "directional derivatives", is_call(g, MAT + "::getCol") and g.a[1] is work and f.V.eq(g.a[2], add(d, ONE)), "is %s" % show(g)[:200])
    g = when(f, o("ifDataHasDirectionalDerivatives"), z("differentiationDirections"))
    f.ob(r, "differentiation directions", sub_of(f, g, work, ZERO, add(d, INT(2))), "is %s" % show(g)[:200])


def is_call(t, q):
    return t.k == "call" and t.a[0] == q


def sub_of(f, t, m, r0, c0):
    """t is a submatrix of m starting at (r0, c0)"""
    if is_call(t, MAT + "::submat"):
        return t.a[1] is m and f.V.eq(t.a[2], r0) and f.V.eq(t.a[4], c0)
    H = f.H.copy().add(ZERO, "<=", I_).add(I_, "<", nr(t)).add(ZERO, "<=", J_).add(J_, "<", nc(t))
    return f.V.eq(content(t, mk("tup", I_, J_), H), el(m, add(r0, I_) if r0 is not ZERO else I_, add(c0, J_) if c0 is not ZERO else J_))


def S01_split(ctx):
    r = "training-data"
    f = sfn(ctx, SMD, "generateRandomIndicesForValidationData", ["int", "double"])
    n, q = f.par(0), f.par(1)
    t = f.rv
    cnt = ite(op("<", n, castint(mul(n, q))), n, ite(op("<", castint(mul(n, q)), ZERO), ZERO, castint(mul(n, q))))
    f.eq(r, "their number is the ratio", size(t), cnt, assume=[op("<=", ZERO, n)])
    e = content(t, I_, f.H.copy().add(ZERO, "<=", I_).add(I_, "<", size(t)))
    v = e.a[0] if e.k == "elem" else None
    ok = v is not None and v.k == "mut" and v.a[0] == "std::shuffle" and v.a[2] is ZERO and f.V.eq(v.a[3], size(v.a[1]))
    f.ob(r, "validation samples are a part of a list shuffled as a whole", ok, "sample is %s" % show(e)[:300])
    if ok:
        f.ob(r, "without repetitions", not contains_(sub(e.a[1], I_), I_), "position is %s" % show(e.a[1])[:200])
        f.eq(r, "length of the list", size(v.a[1]), n, [op("<=", ZERO, n)])
        f.elems(r, "list of all samples", v.a[1], K, K, [(ZERO, "<=", K), (K, "<", n)])
    f = sfn(ctx, SMD, "setValidationRatio", ["double"])
    f.eq(r, "ratio", f.o.new("ratioValidationData"), f.par(0))
    f.throws(r, op("||", op("<", f.par(0), ZERO), op("<", ONE, f.par(0))), "ratios outside [0, 1]")


def castint(t):
    return mk("un", "int", t)


def S01_full(ctx):
    r = "training-data"
    f = sfn(ctx, SMD, "revertBackToFullData", [])
    o, z = f.o.old, f.o.new
    raw, d = o("rawData"), o("dimension")
    f.ob(r, "working data is the full data again", z("rawDataWork") is raw, "is %s" % show(z("rawDataWork"))[:200])
    f.eq(r, "number of samples", z("numberOfSamples"), nr(raw))
    f.eq(r, "number of validation samples", z("numberOfValidationSamples"), ZERO)
    b = fld(SMD, "boxConstraints")
    lb, ub = bounds_of(f, b)
    mat_eq(f, r, z("Xraw"), nr(raw), d, lambda i, j: el(raw, i, j), "raw inputs")
    norm_mat(f, r, z("X"), lambda t: sub_of(f, t, raw, ZERO, ZERO), lb, ub, "inputs")
    f.ob(r, "outputs", is_call(z("y"), MAT + "::getCol") and z("y").a[1] is raw and f.V.eq(z("y").a[2], d), "is %s" % show(z("y"))[:200])
    g = when(f, o("ifDataHasGradients"), z("gradientRaw"))
    f.ob(r, "gradient", sub_of(f, g, raw, ZERO, add(d, ONE)), "is %s" % show(g)[:200])
    dd = o("ifDataHasDirectionalDerivatives")
    g = when(f, dd, z("directionalDerivatives"))
    g = [t for t in subterms(g) if is_call(t, MAT + "::getCol")]
    f.ob(r, "directional derivatives", len(g) == 1 and g[0].a[1] is raw and f.V.eq(g[0].a[2], add(d, ONE)), "are %s" % show(z("directionalDerivatives"))[:200])
    g = when(f, dd, z("differentiationDirections"))
    f.ob(r, "differentiation directions", sub_of(f, g, raw, ZERO, add(d, INT(2))), "is %s" % show(g)[:200])


def bounds_of(f, b):
    """lower and upper bounds as they appear in terms"""
    v = init(b)
    return call(BND + "::getLowerBounds", v), call(BND + "::getUpperBounds", v)


def norm_mat(f, r, t, base, lb, ub, what):
    f.ob(r, what + " are normalised with the box constraints",
         is_call(t, MAT + "::normalizeMatrix") and len(t.a) == 4 and base(t.a[1]) and t.a[2] is lb and t.a[3] is ub, "is %s" % show(t)[:300])


# ------------------------------------------------------------------ S02
def S02_normalisation(ctx):
    r = "data-normalisation"
    for name in ("normalizeSampleInputMatrix", "normalize"):
        f = sfn(ctx, SMD, name, [])
        o, z = f.o.old, f.o.new
        lb, ub = bounds_of(f, fld(SMD, "boxConstraints"))
        norm_mat(f, r, z("X"), lambda t: t is o("X"), lb, ub, "training inputs")
        has = op("<", ZERO, o("numberOfValidationSamples"))
        norm_mat(f, r, when(f, has, z("XValidation")), lambda t: t is o("XValidation"), lb, ub, "validation inputs")
        f.ob(r, "marked as normalised", z("ifDataIsNormalized") in (TRUE, ONE), "is %s" % show(z("ifDataIsNormalized")))
        unchanged(f, r, "Xraw", "XrawValidation", "y", "yValidation", "rawData", "rawDataWork", "XTest", "XrawTest")
        wrong = op("||", neg(op("==", nr(o("X")), o("numberOfSamples"))), neg(op("==", nc(o("X")), o("dimension"))))
        rejects(f, r, wrong, "inputs of the wrong size")
        rejects(f, r, neg(op("==", call(BND + "::getDimension", init(fld(SMD, "boxConstraints"))), o("dimension"))), "a box of another dimension")
        rejects(f, r, neg(call(BND + "::areBoundsSet", init(fld(SMD, "boxConstraints")))), "missing box constraints")
    d = o("dimension")
    L, U = mk("elem", lb, J_), mk("elem", ub, J_)
    g = o("gradient")
    G = when(f, o("ifDataHasGradients"), z("gradient"))
    fc = [(nr(g), "==", o("numberOfSamples")), (nc(g), "==", d)]
    mat_eq(f, r, G, nr(g), nc(g), lambda i, j: mul(el(g, i, j), mul(sub(mk("elem", ub, j), mk("elem", lb, j)), d)), "scaled gradient", facts=fc)
    f.ob(r, "raw gradient is kept", when(f, o("ifDataHasGradients"), z("gradientRaw")) is g, "is %s" % show(z("gradientRaw"))[:200])
    dd = o("directionalDerivatives")
    D_ = when(f, o("ifDataHasDirectionalDerivatives"), z("directionalDerivatives"))
    f.vec(r, D_, size(dd), lambda k: mul(mk("elem", dd, k), mul(sub(mk("elem", ub, ZERO), mk("elem", lb, ZERO)), d)), what="scaled directional derivatives")
    f = sfn(ctx, SMD, "normalizeSampleInputMatrixTest", [])
    norm_mat(f, r, f.o.new("XTest"), lambda t: t is f.o.old("XTest"), lb, ub, "test inputs")
    unchanged(f, r, "X", "XValidation", "y", "XrawTest")
    rejects(f, r, neg(call(BND + "::areBoundsSet", init(fld(SMD, "boxConstraints")))), "missing box constraints")


def S02_test_data(ctx):
    r = "test-data"
    f = sfn(ctx, SMD, "readDataTest", ["basic_string<char>"])
    o, z = f.o.old, f.o.new
    d = o("dimension")
    fname = init(mk("P", f.f.p[0]["n"]))
    raw = z("XrawTest")
    f.ob(r, "reads the given file", raw.k == "mut" and raw.a[0] == MAT + "::readFromCSV" and raw.a[2] is fname, "raw data is %s" % show(raw)[:200])
    f.eq(r, "number of samples", z("numberOfTestSamples"), nr(raw))
    val = op("==", nc(raw), add(d, ONE))
    t = when(f, val, z("XTest"))
    mat_eq(f, r, t, nr(raw), d, lambda i, j: el(raw, i, j), "inputs", facts=[(nc(raw), "==", add(d, ONE))])
    y = when(f, val, z("yTest"))
    f.eq(r, "outputs has the right size", size(y), nr(raw))
    y = content(y, K, f.H.copy().add(ZERO, "<=", K).add(K, "<", nr(raw)).add(nc(raw), "==", add(d, ONE)))
    f.ob(r, "outputs has the right elements", f.V.eq(y, el(raw, K, d)) or f.V.eq(subst(y, {nc(raw): add(d, ONE)}), el(raw, K, d)), "element is %s instead of %s" % (show(y)[:200], show(el(raw, K, d))))
    only = op("==", nc(raw), d)
    t = when(f, only, z("XTest"))
    f.ob(r, "inputs without outputs", t is raw, "is %s" % show(t)[:200])
    flag = z("ifTestDataHasFunctionValues")
    f.ob(r, "outputs present", f.V.implies(val, flag), "is %s" % show(flag))
    f.ob(r, "outputs absent", f.V.implies(op("&&", only, flag), FALSE), "is %s" % show(flag))
    y = when(f, only, z("yTest"))
    f.ob(r, "no outputs of earlier test data stay", f.V.eq(size(y), ZERO, [only]), "outputs are %s" % show(y)[:200])
    rejects(f, r, op("&&", neg(val), neg(only)), "other numbers of columns")


# ------------------------------------------------------------------ vector algebra in terms
VECARGS = {VEC + "::norm": (1,), MAT + "::solveCholesky": (2,), MAT + "::matVecProduct": (2,), MAT + "::solveLU": (2,), ECF + "::computeCorrelationVector": (), LM + "::interpolate": (2,),
           VEC + "::computeExponentialCorrelation": ()}


class Lex:
    """rewrites vector reductions as sums over elements and vector arguments of opaque functions as (size, generic element)"""

    def __init__(self, f, facts=()):
        self.f = f
        self.H = f.H.copy()
        for a in facts:
            self.H.add(*a)
        self.memo = {}
        self.n = 0

    def __call__(self, t):
        if not isinstance(t, T):
            return t
        if t in self.memo:
            return self.memo[t]
        r = self.go(t)
        self.memo[t] = r
        return r

    def elem(self, v, k):
        return self(content(v, k, self.H))

    def vec(self, v):
        k = mk("bv", "generic element")
        UNSIGNED.add(k)
        H = self.H
        self.H = H.copy()
        n = self(norm(size(v), H))
        self.H.add(ZERO, "<=", k)
        self.H.add(k, "<", n)
        e = self(content(v, k, self.H))
        self.H = H
        return mk("vecof", n, e)

    def go(self, t):
        if t.k == "call":
            q = t.a[0]
            if q == VEC + "::dot" and len(t.a) == 3:
                return self.total(size(t.a[1]), t.a[1], t.a[2])
            if q == VEC + "::sum" and len(t.a) == 2:
                return self.total(size(t.a[1]), t.a[1])
            if q == VEC + "::mean" and len(t.a) == 2:
                return div(self.total(size(t.a[1]), t.a[1]), self(norm(size(t.a[1]), self.H)))
            if q in VECARGS:
                a = [self.vec(x) if i in VECARGS[q] else self(x) for i, x in enumerate(t.a)]
                return mk("call", *a)
            if q == "pow" and len(t.a) == 3 and t.a[2].k in ("int", "flt") and float(t.a[2].a[0]) == 2.0:
                x = self(t.a[1])
                return op("*", x, x)
        if t.k in ("fill", "upd", "snap", "init", "L", "F", "E", "D", "lv", "obj", "site"):
            if t.k in ("fill", "upd"):
                return t
            return t
        if t.k == "elem":
            c = content(t.a[0], t.a[1], self.H)
            if c is not t:
                return self(c)
        a = tuple(self(x) if isinstance(x, T) else x for x in t.a)
        if a == t.a:
            return t
        if t.k == "op":
            return op(*a)
        if t.k == "ite":
            return ite(*a)
        return mk(t.k, *a)

    def total(self, n, *vs):
        self.n += 1
        k = mk("bv", ("lex", self.n))
        UNSIGNED.add(k)
        H = self.H
        self.H = H.copy()
        n = self(norm(n, H))
        self.H.add(ZERO, "<=", k)
        self.H.add(k, "<", n)
        p = None
        for v in vs:
            e = self(content(v, k, self.H))
            p = e if p is None else op("*", p, e)
        self.H = H
        return absint.quant("agg", ZERO, n, p, k, "sum")


def leq(f, rule, key, got, want, facts=(), assume=()):
    """equality (with one of several forms) after expanding vector algebra"""
    try:
        L = Lex(f, facts)
        for w in want if isinstance(want, list) else [want]:
            a, b = L(got), L(w)
            ok = f.V.eq(a, b, [L(x) for x in assume] + [op(o, x, y) for x, o, y in facts])
            if ok:
                break
        m = "computes %s instead of %s" % (f.sh(a), f.sh(b))
    except Big:
        ok, m = False, "is not decidable"
    return f.ob(rule, key, ok, m)


def lvec(f, rule, key, got, n, elem, facts=(), assume=()):
    leq(f, rule, key + " has the right size", size(got), n, facts, assume)
    H = f.H.copy()
    for a in facts:
        H.add(*a)
    H.add(ZERO, "<=", K).add(K, "<", n)
    leq(f, rule, key + " has the right elements", content(got, K, H), elem(K), list(facts) + [(ZERO, "<=", K), (K, "<", n)], assume)


KALSO = (SM, SMD, CHS, ECF, CFB)


def kfields():
    cf = fld(KM, "correlationFunction")
    c = lambda n, cls=CFB: init(F(cf, cls + "::" + n))
    return dict(X=c("X"), theta=c("thetaParameters", ECF), gamma=c("gammaParameters", ECF), eps=c("epsilon"), N=c("N"))


# ------------------------------------------------------------------ S03
def consistent(f, r):
    """the auxiliary fields are those of the current samples, outputs and hyperparameters"""
    z = f.o.new
    cf = fld(KM, "correlationFunction")
    c = lambda n, cls=CFB: f.load(F(cf, cls + "::" + n))
    n = z("numberOfSamples", SM)
    y = f.load(F(fld(SM, "data"), SMD + "::y"))
    C = call(MAT + "::computeCorrelationMatrixExponentialNaive", c("X"), c("thetaParameters", ECF), c("gammaParameters", ECF))
    R = mk("mut", MAT + "::addEpsilonToDiagonal", C, c("epsilon"))
    ls = fld(KM, "linearSystemCorrelationMatrix")
    A = f.load(F(ls, CHS + "::A"))
    f.ob(r, "correlation matrix of all samples with the current hyperparameters", A is R, "matrix is %s" % show(A)[:300])
    f.ob(r, "correlation matrix is kept", f.load(F(cf, CFB + "::correlationMatrix")) is R, "")
    fac = f.load(F(ls, CHS + "::factorizationMatrix"))
    f.ob(r, "matrix is factorised", is_call(fac, MAT + "::cholesky") and fac.a[1] is R, "factor is %s" % show(fac)[:200])
    done = f.load(F(ls, CHS + "::ifFactorizationIsDone"))
    ones_ = z("vectorOfOnes")
    f.vec(r, ones_, n, lambda k: ONE, what="vector of ones")
    sol = lambda b: call(MAT + "::solveCholesky", fac, b)
    facts = [(size(y), "==", n)]
    w = lambda name: when(f, done, z(name))
    f.ob(r, "solution for the outputs", w("R_inv_ys") is sol(y), "is %s" % show(w("R_inv_ys"))[:200])
    lvec(f, r, "solution for ones", w("R_inv_I"), size(sol(ones_)), lambda k: mk("elem", sol(ones_), k), facts)
    leq(f, r, "beta0", w("beta0"), ite(f.o.old("ifUseAverageBeta0"), call(VEC + "::mean", y),
                                      div(call(VEC + "::dot", ones_, sol(y)), call(VEC + "::dot", ones_, sol(ones_)))), facts)
    b0 = w("beta0")
    res = call(VEC + "::operator-", y, b0)
    lvec(f, r, "solution for the residual", w("R_inv_ys_min_beta"), size(sol(res)), lambda k: mk("elem", sol(res), k), facts)
    leq(f, r, "sigma squared", w("sigmaSquared"), div(call(VEC + "::dot", res, sol(res)), n), facts)
    nd = neg(done)
    for nme in ("beta0", "sigmaSquared"):
        f.ob(r, nme + " without factorisation", f.V.eq(when(f, nd, z(nme)), ZERO), "is %s" % show(when(f, nd, z(nme)))[:100])
    return done


def S03_system(ctx):
    r = "kriging-system"
    f = sfn(ctx, KM, "updateAuxilliaryFields", [], KALSO)
    o = f.o.old
    consistent(f, r)
    f.throws(r, op("||", op("||", neg(o("ifDataIsRead", SM)), neg(o("ifNormalized", SM))),
                   op("||", neg(o("ifCorrelationFunctionIsInitialized")), op("||", op("||", op("==", o("numberOfSamples", SM), ZERO), op("==", o("dimension", SM), ZERO)),
                                                                             neg(init(F(fld(KM, "correlationFunction"), CFB + "::ifInputSampleMatrixIsSet")))))),
             "models without data, normalisation, correlation function, samples or dimension")


def S03_initial(ctx):
    """initialisation: the model is built from the training data"""
    r = "kriging-system"
    f = sfn(ctx, KM, "initializeSurrogateModel", [], KALSO)
    o, z = f.o.old, f.o.new
    consistent(f, r)
    cf = fld(KM, "correlationFunction")
    X = init(F(fld(SM, "data"), SMD + "::X"))
    f.ob(r, "samples of the correlation function", f.load(F(cf, CFB + "::X")) is X, "are %s" % show(f.load(F(cf, CFB + "::X")))[:200])
    f.eq(r, "number of samples of the correlation function", f.load(F(cf, CFB + "::N")), nr(X))
    f.eq(r, "number of hyperparameters", z("numberOfHyperParameters", SM), mul(INT(2), o("dimension", SM)))
    f.ob(r, "marked as initialised", z("ifInitialized", SM) in (ONE, TRUE), "is %s" % show(z("ifInitialized", SM)))
    t = when(f, neg(o("ifCorrelationFunctionIsInitialized")), z("ifCorrelationFunctionIsInitialized"))
    f.ob(r, "correlation function is marked as initialised", t in (ONE, TRUE), "is %s" % show(t))
    residual(f, r, init(F(fld(SM, "data"), SMD + "::y")), X)
    for c, what in ((op("==", o("dimension", SM), ZERO), "no dimension"), (op("==", o("numberOfSamples", SM), ZERO), "no samples"),
                    (neg(o("ifDataIsRead", SM)), "no data"), (neg(o("ifNormalized", SM)), "data that is not normalised")):
        rejects(f, r, c, what)
    ci = neg(o("ifCorrelationFunctionIsInitialized"))
    d = f.load(F(cf, CFB + "::dim"))
    for n, v in (("thetaParameters", ONE), ("gammaParameters", mk("flt", "1.8"))):
        t = when(f, ci, f.load(F(cf, ECF + "::" + n)))
        f.vec(r, t, d, lambda k: v, what="initial " + n)
        t = when(f, neg(ci), f.load(F(cf, ECF + "::" + n)))
        f.ob(r, "hyperparameters are kept: " + n, t is init(F(cf, ECF + "::" + n)), "become %s" % show(t)[:100])


def residual(f, r, y, X, cond=None, only=None):
    """outputs are reduced by the predictions of the linear model at the samples when it is used"""
    t = f.load(F(fld(SM, "data"), SMD + "::y"))
    if cond is not None:
        t = when(f, cond, t)
    u = f.o.old("ifUsesLinearRegression")
    H = f.H
    on, off = when(f, u, t), when(f, neg(u), t)
    if only is not TRUE:
        f.ob(r, "outputs without linear regression", off is y, "are %s" % show(off)[:200])
    if only is FALSE:
        return
    lmod = fld(KM, "linearModel")
    k = K
    h = H.copy().add(ZERO, "<=", k).add(k, "<", size(y))
    c = content(on, k, h)
    lin_ = [x for x in subterms(c) if x.k == "call" and x.a[0].startswith(LM + "::interpolate")]
    ok = len(lin_) == 1 and f.V.eq(c, sub(content(y, k, h), lin_[0] if lin_[0].a[0] == LM + "::interpolate" else mk("elem", lin_[0], k)))
    f.ob(r, "outputs are reduced by the linear regression", ok, "are %s" % show(c)[:300])
    if ok:
        a = lin_[0].a[2]
        f.ob(r, "linear regression at the samples", a is X or (lin_[0].a[0] == LM + "::interpolate" and is_row(f, a, X, k, h)), "is evaluated at %s" % show(a)[:200])
        m = lin_[0].a[1]
        while m.k == "snap" or (m.k == "mut" and m.a[0].startswith(LM)):
            m = m.a[0] if m.k == "snap" else m.a[1]
        f.ob(r, "linear regression of this model", m in (lmod, init(lmod)), "is %s" % show(m)[:200])


def S03_prediction(ctx):
    r = "kriging-prediction"
    x = None
    c = kfields()
    ls = fld(KM, "linearSystemCorrelationMatrix")
    f = sfn(ctx, KM, "interpolate", ["vec"], (SM,))
    x = f.par(0)
    o = f.o.old
    rv = call(ECF + "::computeCorrelationVector", init(fld(KM, "correlationFunction")), x)
    lin_ = ite(o("ifUsesLinearRegression"), call(LM + "::interpolate", init(fld(KM, "linearModel")), x), ZERO)
    mean = add(lin_, add(o("beta0"), call(VEC + "::dot", rv, o("R_inv_ys_min_beta"))))
    per = [(size(rv), "==", size(o("R_inv_ys_min_beta")))]      # one entry per sample
    leq(f, r, "prediction", f.rv, mean, per)
    f = sfn(ctx, KM, "interpolateWithVariance", ["vec", "double*", "double*"], (SM, SMD, CHS))
    p, v = [f.load(mk("D", init(mk("P", f.f.p[i]["n"])))) for i in (1, 2)]
    leq(f, r, "mean", p, mean, per)
    sol = call(MAT + "::solveCholesky", init(F(ls, CHS + "::factorizationMatrix")), rv)
    dot = lambda a, b: call(VEC + "::dot", a, b)
    rr, ri, ii = dot(rv, sol), dot(rv, o("R_inv_I")), dot(o("vectorOfOnes"), o("R_inv_I"))
    small = lambda t: op("<", FABS_(sub(t, ONE)), mk("flt", "1e-09"))
    var = mul(o("sigmaSquared"), add(ite(small(rr), ZERO, sub(ONE, rr)), ite(small(ri), ZERO, div(sq(sub(ri, ONE)), ii))))
    facts = [(size(rv), "==", size(sol)), (size(rv), "==", size(o("R_inv_I"))), (size(rv), "==", size(o("vectorOfOnes")))]
    leq(f, r, "variance", v, var, facts)
    # correlation of a point with every sample
    f = sfn(ctx, ECF, "computeCorrelationVector", ["vec&"], (CFB,))
    o = lambda n, cls=CFB: init(fld(cls, n))
    X = o("X")
    t = f.rv
    f.eq(r, "one correlation per sample", size(t), o("N"))
    H = f.H.copy().add(ZERO, "<=", K).add(K, "<", o("N"))
    kernel_ok(f, r, content(t, K, H), f.par(0), X, K, "correlation with a sample", ["exp"], H)
    f.throws(r, neg(o("ifInputSampleMatrixIsSet")), "missing samples")


def kernel_ok(f, r, t, x, X, k, what, kind, H):
    """t is the kernel of the point x and row k of X with the hyperparameters of this"""
    q = VEC + ("::computeExponentialCorrelation" if kind == ["exp"] else "::computeGaussianCorrelation")
    hyp = [init(fld(ECF, "thetaParameters")), init(fld(ECF, "gammaParameters"))] if kind == ["exp"] else [init(fld(GCF, "theta"))]
    ok = t.k == "call" and t.a[0].startswith(q) and len(t.a) == 4 + len(hyp)
    f.ob(r, what, ok, "is %s" % show(t)[:300])
    if not ok:
        return
    a, b = points(t.a[1]), points(t.a[2])
    f.ob(r, what + ": points", same_pair(f, a, b, x, X, k, H), "are %s and %s" % (show(t.a[1])[:100], show(t.a[2])[:100]))
    for i, h in enumerate(hyp):
        f.ob(r, what + ": hyperparameter %d" % i, points(t.a[3 + i]) is h, "is %s" % show(t.a[3 + i])[:100])
    f.ob(r, what + ": dimension", any(f.V.eq(t.a[-1], x) for x in (nc(X), size(x))), "computes %s instead of %s" % (show(t.a[-1])[:100], show(nc(X))[:100]))


def points(p):
    """vector behind a data pointer"""
    while is_call(p, VEC + "::getPointer"):
        p = p.a[1]
    if p.k == "init" and p.a[0].k == "F" and p.a[0].a[1] == VEC + "::ptr":
        p = init(p.a[0].a[0])
    return p


def is_row(f, t, X, k, H):
    """t is row k of the matrix X"""
    if is_call(t, MAT + "::getRow") and t.a[1] is X and f.V.eq(t.a[2], k):
        return True
    q = mk("bv", "row entry")
    h = H.copy().add(ZERO, "<=", q).add(q, "<", nc(X))
    return f.V.eq(norm(size(t), h), nc(X)) and f.V.eq(content(t, q, h), el(X, k, q))


def is_point(t, x):
    return t is x or t is init(x) or (t.k == "copy" and is_point(t.a[0], x))


def same_pair(f, a, b, x, X, k, H):
    return (is_point(a, x) and is_row(f, b, X, k, H)) or (is_point(b, x) and is_row(f, a, X, k, H))


# ------------------------------------------------------------------ S04
KHO = "Rodop::KrigingHyperParameterOptimizer"
EAO = "Rodop::EAOptimizer"
GPO = "Rodop::GeneralPurposeOptimizer"
EAI = "Rodop::EAIndividual"
LOWEST = lambda t: t.k == "call" and t.a[0].endswith("lowest")
MAXV = lambda t: t.k == "call" and t.a[0].endswith("::max")


def enum_is(t, name):
    return t.k == "op" and t.a[0] == "==" and any(x.k == "enum" and show(x) == name for x in t.a[1:])


def hyper(f, r, p, d):
    cf = fld(KM, "correlationFunction")
    th, ga = f.load(F(cf, ECF + "::thetaParameters")), f.load(F(cf, ECF + "::gammaParameters"))
    two = {size(p): mul(INT(2), d)}
    for t, what, off in ((th, "theta", ZERO), (ga, "gamma", d)):
        f.eq(r, what + " has the right size", subst(norm(size(t), f.H), two), d)
        h = f.H.copy().add(ZERO, "<=", K).add(K, "<", d).add(size(p), "==", mul(INT(2), d))
        c = subst(content(t, K, h), two)
        f.ob(r, what + " has the right elements", is_entry(f, c, p, add(off, K)), "element is %s" % show(c)[:200])


def is_entry(f, c, p, i):
    """c is entry i of the vector p"""
    if c.k == "elem" and c.a[0] is p:
        return f.V.eq(c.a[1], i)
    return c.k == "init" and c.a[0].k == "E" and init(c.a[0].a[0]) is p and f.V.eq(c.a[0].a[1], i)


def S04_objective(ctx):
    r = "kriging-training"
    cf = fld(KM, "correlationFunction")
    f = sfn(ctx, KM, "calculateLikelihoodFunction", ["vec"], KALSO,
            inl=inline_classes(KM, *KALSO, stop=("operator()", "calculateLogDeterminant")))
    o, z = f.o.old, f.o.new
    d = init(F(cf, CFB + "::dim"))
    hyper(f, r, f.par(0), d)
    done = consistent(f, r)
    s2 = mk("sym", "sigma squared")
    t = subst(when(f, done, f.rv), {z("sigmaSquared"): s2, when(f, done, z("sigmaSquared")): s2})
    pos = op("<", ZERO, s2)
    v = when(f, pos, t)
    ld = [x for x in subterms(v) if is_call(x, CHS + "::calculateLogDeterminant")]
    f.ob(r, "log determinant", len(ld) == 1, "likelihood is %s" % show(v)[:300])
    if ld:
        n = o("numberOfSamples", SM)
        leq(f, r, "log likelihood", v, sub(neg_(mul(div(n, INT(2)), call("log", s2))), div(ld[0], INT(2))), assume=[pos])
        f.ob(r, "log determinant of the correlation matrix", ld[0].a[1].k == "snap" and contains_(ld[0].a[1], f.load(F(fld(KM, "linearSystemCorrelationMatrix"), CHS + "::factorizationMatrix"))),
             "of %s" % show(ld[0].a[1])[:200])
    for c, what in ((neg(done), "failed factorisation"), (neg(pos), "non-positive variance")):
        x = when(f, c, f.rv) if what.startswith("failed") else when(f, c, t)
        f.ob(r, "worst likelihood for " + what, LOWEST(x), "is %s" % show(x)[:200])
    rejects(f, r, neg(op("==", size(f.par(0)), mul(INT(2), d))), "hyperparameters of the wrong size")

    f = sfn(ctx, KM, "calculateValidationErrorForGivenHyperparameters", ["vec"], KALSO,
            inl=inline_classes(KM, *KALSO, stop=("operator()", "calculateValidationError")))
    hyper(f, r, f.par(0), d)
    done = consistent(f, r)
    x = when(f, done, f.rv)
    f.ob(r, "validation error of the model with these hyperparameters", is_call(x, SM + "::calculateValidationError") and contains_(x, f.o.new("R_inv_ys_min_beta")),
         "is %s" % show(x)[:200])
    x = when(f, neg(done), f.rv)
    f.ob(r, "worst validation error for failed factorisation", MAXV(x), "is %s" % show(x)[:200])
    rejects(f, r, op("==", init(F(fld(SM, "data"), SMD + "::numberOfValidationSamples")), ZERO), "missing validation samples")

    f = sfn(ctx, KHO, "calculateObjectiveFunctionInternal", ["vec&"])
    t = f.o.old("objectiveFunctionType")
    m = init(fld(KHO, "KrigingModelForCalculations"))
    val, ml = [op("==", t, enum_of(ctx, x)) for x in ("VALIDATION_ERROR", "MAXIMUM_LIKELIHOOD")]
    x = when(f, val, f.rv)
    f.ob(r, "validation error is minimised", is_call(x, KM + "::calculateValidationErrorForGivenHyperparameters") and x.a[1] is m and x.a[2] is f.par(0), "objective is %s" % show(x)[:200])
    x = when(f, neg(val), f.rv)
    ok = alg_eq_(f, x, neg_(call(KM + "::calculateLikelihoodFunction", m, f.par(0))), [ml])
    f.ob(r, "likelihood is maximised", ok, "objective is %s" % show(x)[:200])
    rejects(f, r, op("&&", neg(val), neg(ml)), "other objectives")


def neg_(t):
    return op("-", ZERO, t)


def contains_(t, x):
    return any(y is x for y in subterms(t))


def alg_eq_(f, a, b, assume=()):
    try:
        return f.V.eq(a, b, list(assume))
    except Big:
        return False


def enum_of(ctx, name):
    for q, e in ctx.prog.enums.items():
        for c in e["c"]:
            if c["n"] == name:
                return mk("enum", c["q"])
    raise AnalysisError("enumerator %s not found" % name)


class AtCalls(Hooks):
    """states at calls with one of the names"""

    def __init__(self, *names):
        self.names, self.got = names, []

    def on_call(self, I, st, c):
        if c.n in self.names and not I.quiet:
            self.got.append((c.n, c.obj, list(c.args), I.where(c.node), st.copy()))


def S04_train(ctx):
    r = "kriging-training"
    f = sfn(ctx, KM, "train", [], KALSO)
    o, z = f.o.old, f.o.new
    cf, data = fld(KM, "correlationFunction"), fld(SM, "data")
    warm, d = o("ifReadWarmStartFile", SM), o("dimension", SM)
    consistent(f, r)
    rejects(f, r, neg(o("ifInitialized", SM)), "a model that is not initialised")
    f.ob(r, "marked as trained", z("ifModelTrainingIsDone", SM) in (ONE, TRUE), "is %s" % show(z("ifModelTrainingIsDone", SM)))
    unchanged(f, r, "ifUsesLinearRegression", "ifUseAverageBeta0")
    f.ob(r, "number of training iterations is not changed", z("numberOfTrainingIterations", SM) is o("numberOfTrainingIterations", SM), "becomes %s" % show(z("numberOfTrainingIterations", SM))[:200])
    # hyperparameters: the best solution over all threads
    dc = init(F(cf, CFB + "::dim"))
    now = [when(f, neg(warm), f.load(F(cf, ECF + "::" + n))) for n in ("thetaParameters", "gammaParameters")]
    best = best_over_threads(f, r, now, o("numberOfThreads", SM))
    if best is not None:
        two = {size(best): mul(INT(2), dc)}
        for t, what, off in ((now[0], "theta", ZERO), (now[1], "gamma", dc)):
            h = f.H.copy().add(ZERO, "<=", K).add(K, "<", dc).add(size(best), "==", mul(INT(2), dc))
            c = subst(content(t, K, h), two)
            f.ob(r, "best solution: " + what, c.k == "elem" and c.a[0] is best and f.V.eq(c.a[1], add(off, K)), "element is %s" % show(c)[:200])
    # full data after training with validation samples
    vtype = enum_of(ctx, "VALIDATION_ERROR")
    has = o("ifHasValidationSamples", SM)
    typ = z("objectiveFunctionType")
    f.eq(r, "objective of the training", typ, ite(has, vtype, o("objectiveFunctionType")))
    V = op("==", typ, vtype)
    dl = lambda n: f.load(F(data, SMD + "::" + n))
    di = lambda n: init(F(data, SMD + "::" + n))
    raw, dd = di("rawData"), di("dimension")
    b = F(data, SMD + "::boxConstraints")
    lb, ub = bounds_of(f, b)
    X = when(f, V, dl("X"))
    norm_mat(f, r, X, lambda t: sub_of(f, t, raw, ZERO, ZERO) and f.V.eq(nc(t), dd) and f.V.eq(nr(t), nr(raw)), lb, ub, "after training with validation samples: inputs")
    for t, what in ((when(f, V, f.load(F(cf, CFB + "::X"))), "samples of the correlation function"),):
        f.ob(r, "after training with validation samples: " + what, t is X, "are %s" % show(t)[:200])
    for t, what in ((z("numberOfSamples", SM), "of the model"), (dl("numberOfSamples"), "of the data"), (f.load(F(cf, CFB + "::N")), "of the correlation function")):
        f.eq(r, "after training with validation samples: number of samples " + what, when(f, V, t), nr(raw))
    residual(f, r, call(MAT + "::getCol", raw, dd), X, V)
    nv = neg(V)
    for n in ("X", "Xraw", "y", "numberOfSamples", "rawDataWork"):
        t = when(f, nv, dl(n))
        f.ob(r, "data is kept without validation samples: " + n, t is di(n), "becomes %s" % show(t)[:200])
    t = when(f, nv, f.load(F(cf, CFB + "::X")))
    f.ob(r, "samples are kept without validation samples", t is init(F(cf, CFB + "::X")), "become %s" % show(t)[:200])
    # the search
    h = AtCalls("optimize", "saveToCSV")
    I, st, rv = run(ctx, f.f, h, inline_classes(KM, KHO, EAO, GPO, ECF, CFB, stop=("optimize", "getSolution", "operator()", "updateAuxilliaryFields", "loadHyperParameters")), KM, vals=True)
    opt_ = [x for x in h.got if x[0] == "optimize"]
    f.ob(r, "search for hyperparameters", len(opt_) == 1, "%d searches" % len(opt_))
    for n, obj, args, w, s in opt_:
        g = lambda q: I.load(s, F(obj, q))
        two_d = mul(INT(2), d)
        f.eq(r, "search: dimension", g(GPO + "::dimension"), two_d)
        m = g(KHO + "::KrigingModelForCalculations")
        ov = {x.a[0] for x in m.a[1]} if m.k == "snap" else set()
        ok = (m is init(THIS) or m.k == "snap" and m.a[0] in (THIS, init(THIS))) and ov <= {KM + "::objectiveFunctionType", SM + "::numberOfTrainingIterations"}
        f.ob(r, "search: uses this model", ok, "model is %s" % show(m)[:200])
        t = g(KHO + "::objectiveFunctionType")
        f.eq(r, "search: objective", t, ite(has, vtype, o("objectiveFunctionType")), [neg(warm)])
        lo_, up_ = g(GPO + "::lowerBounds"), g(GPO + "::upperBounds")
        fc = [(ZERO, "<=", K), (K, "<", d), (K, "<", two_d)]
        f.eq(r, "search: size of the lower bounds", size(lo_), two_d)
        f.eq(r, "search: size of the upper bounds", size(up_), two_d)
        f.elems(r, "search: lower bounds of theta", lo_, zero_vec(content(lo_, K, f.H), ZERO), K, fc)
        f.elems(r, "search: upper bounds of theta", up_, INT(20), K, fc)
        fg = [(ZERO, "<=", K), (d, "<=", K), (K, "<", two_d)]
        f.elems(r, "search: lower bounds of gamma", lo_, ONE, K, fg)
        f.elems(r, "search: upper bounds of gamma", up_, INT(2), K, fg)
        f.ob(r, "search: bounds are set", g(GPO + "::ifBoundsAreSet") in (ONE, TRUE), "")
        f.eq(r, "search: iterations are shared by the threads", g(GPO + "::maxNumberOfFunctionEvaluations"), div_int(o("numberOfTrainingIterations", SM), o("numberOfThreads", SM)))
        new, dead, pop, gen = (g(EAO + "::" + n) for n in ("numberOfNewIndividualsInAGeneration", "numberOfDeathsInAGeneration", "sizeOfInitialPopulation", "numberOfGenerations"))
        hd = f.H.copy().add(ONE, "<=", d)
        pops = [pop.a[1], pop.a[2]] if pop.k == "ite" else list(pop.a[1:]) if pop.k == "call" and pop.a[0].split("::")[-1] == "min" else [pop]
        f.ob(r, "search: new individuals", hd.lt(ZERO, new), "are %s" % show(new)[:100])
        f.ob(r, "search: the population does not shrink", hd.le(dead, new) and hd.le(ZERO, dead), "%s are removed and %s added" % (show(dead)[:100], show(new)[:100]))
        f.ob(r, "search: the population has room for the removal", all(hd.lt(dead, add(x, new)) for x in pops), "%s of %s + %s are removed" % (show(dead)[:100], show(pop)[:100], show(new)[:100]))
        total = div_int(o("numberOfTrainingIterations", SM), new)
        forms = [ite(op("==", total, ZERO), ONE, total), ite(op("<", total, ONE), ONE, total), ite(op("<", ONE, total), total, ONE), ite(op("<=", ONE, total), total, ONE)]
        f.ob(r, "search: generations within the number of iterations, at least one", any(same_(f, gen, x) for x in forms), "are %s" % show(gen)[:200])
        c = path_cond([x for x in s.path if x[1] in (True, False) and x[0].k not in ("in", "exc", "dispatch")])
        f.ob(r, "search: without warm start", f.V.implies(c, neg(warm)), "under %s" % show(c)[:200])
    return f


def same_(f, a, b):
    try:
        return a is b or f.V.eq(a, b)
    except Big:
        return False


def div_int(a, b):
    return op("/", a, b)


def zero_vec(t, d):
    return d


def best_over_threads(f, r, now, threads):
    """the loop variable keeping the genes of the solution with the smallest objective"""
    for lid, info in f.I.loops.items():
        for loc, (a, b) in info["mod"].items():
            lv = info["hv"].get(loc)
            if lv is None or b.k != "ite" or not all(any(x is lv for x in subterms(t)) for t in now):
                continue
            w = f.f.where()
            c, new, old = b.a
            if old is not lv:
                c, new, old = neg(c), old, new
            val = lambda t: t.k == "call" and t.a[0] == EAI + "::getObjectiveFunctionValue"
            cmp_ = c.k == "op" and c.a[0] in ("<", "<=") and val(c.a[1]) and c.a[2].k == "lv"
            f.ob(r, "best solution over threads: comparison of objectives", cmp_ and old is lv, "kept when %s" % show(c)[:300])
            if not cmp_:
                return lv
            S = c.a[1].a[1]
            f.ob(r, "best solution over threads: genes", new.k == "call" and new.a[0] == EAI + "::getGenes" and new.a[1] is S, "takes %s" % show(new)[:200])
            bloc = [l for l, x in info["hv"].items() if x is c.a[2]]
            a0, b0 = info["mod"].get(bloc[0], (None, None)) if bloc else (None, None)
            f.ob(r, "best solution over threads: starts with the largest value", a0 is not None and MAXV(a0), "starts with %s" % (show(a0)[:100] if a0 is not None else "?"))
            ok = b0 is not None and b0.k == "ite" and b0.a[0] is b.a[0] and {b0.a[1], b0.a[2]} == {c.a[1], c.a[2]} and (b0.a[1] is c.a[1]) == (b.a[1] is new)
            f.ob(r, "best solution over threads: objective", ok, "becomes %s" % (show(b0)[:300] if b0 is not None else "?"))
            sol = S.k == "call" and S.a[0] == EAO + "::getSolution"
            f.ob(r, "best solution over threads: solution of the search", sol and any(x.k == "mut" and x.a[0] == EAO + "::optimize" for x in subterms(S)), "is %s" % show(S)[:200])
            rg = info.get("range")
            f.ob(r, "best solution over threads: all threads", rg is not None and rg[1] is ZERO and f.V.eq(rg[2], threads), "range %s" % (show(rg[1]) + ".." + show(rg[2]) if rg else "?"))
            return lv
    f.ob(r, "best solution over threads", False, "the hyperparameters do not come from the best solution of all threads: %s" % show(now[0])[:200])
    return None


def S04_warm_start(ctx):
    """hyperparameters are saved to and restored from the warm start file"""
    r = "warm-start"
    cf = fld(KM, "correlationFunction")
    inl = inline_classes(KM, SM, ECF, CFB, stop=("operator()", "updateAuxilliaryFields"))
    h = AtCalls("saveToCSV")
    fn = pick_fn(ctx, KM + "::saveHyperParameters", [])
    I, st, rv = run(ctx, fn, h, inl, KM, vals=True)
    f = sfn(ctx, KM, "saveHyperParameters", [], inl=inl)
    th, ga, d = init(F(cf, ECF + "::thetaParameters")), init(F(cf, ECF + "::gammaParameters")), init(F(cf, CFB + "::dim"))
    f.ob(r, "hyperparameters are saved", len(h.got) == 1, "%d files are written" % len(h.got))
    name = init(fld(SM, "filenameHyperparameters"))
    for n, obj, args, w, s in h.got:
        v = I.load(s, obj) if obj.k not in ("obj", "fill", "upd", "init", "call", "ite") else obj
        v = subst(v, {init(fld(SM, "dimension")): d, init(F(fld(SM, "data"), SMD + "::dimension")): d})
        f.ob(r, "file name", args and args[0] is name, "file is %s" % (show(args[0])[:100] if args else "?"))
        h2 = Hyp().from_state(s)
        f.eq(r, "number of saved values", size(v), mul(INT(2), d))
        f.elems(r, "saved theta", v, content(th, K, h2), K, [(ZERO, "<=", K), (K, "<", d)])
        k2 = sub(K, d)
        f.elems(r, "saved gamma", v, content(ga, k2, h2), K, [(d, "<=", K), (K, "<", mul(INT(2), d))])
    rejects(f, r, op("==", size(name), ZERO), "a missing file name")
    f = sfn(ctx, KM, "loadHyperParameters", [], (SM, SMD, ECF, CFB))
    file = [x for n in ("thetaParameters", "gammaParameters") for x in subterms(f.load(F(cf, ECF + "::" + n))) if x.k == "mut" and x.a[0] == VEC + "::readFromCSV"]
    f.ob(r, "hyperparameters are read", bool(file) and all(x is file[0] for x in file) and file[0].a[2] is name, "read from %s" % (show(file[0])[:200] if file else "nowhere"))
    if file:
        b = file[0]
        ok = op("==", size(b), init(fld(SM, "numberOfHyperParameters")))
        dd = init(F(fld(SM, "data"), SMD + "::dimension"))
        # the dimension of the model, of its data and of its correlation function are one number (setDimension, setInputSampleMatrix)
        one_dim = {init(fld(SM, "dimension")): dd, init(F(cf, CFB + "::dim")): dd}
        for n, off in (("thetaParameters", ZERO), ("gammaParameters", sub(size(b), dd))):
            t = f.load(F(cf, ECF + "::" + n))
            on = subst(when(f, ok, t), one_dim)
            f.eq(r, "restored number of " + n, size(on), dd)
            c = content(on, K, f.H.copy().add(ZERO, "<=", K).add(K, "<", dd))
            f.ob(r, "restored " + n, is_entry(f, c, b, add(off, K)), "element is %s" % show(c)[:200])
            off_ = when(f, neg(ok), t)
            f.ob(r, "a file of another size changes nothing: " + n, off_ is init(F(cf, ECF + "::" + n)), "becomes %s" % show(off_)[:200])
    # training with warm start
    h = AtCalls("saveHyperParameters", "loadHyperParameters", "optimize", "updateAuxilliaryFields")
    fn = pick_fn(ctx, KM + "::train", [])
    I, st, rv = run(ctx, fn, h, inline_classes(KM, SM, stop=("operator()", "saveHyperParameters", "loadHyperParameters", "updateAuxilliaryFields", "optimize")), KM, vals=True)
    f = sfn(ctx, KM, "train", [], inl=inline_classes(KM, SM, stop=("operator()", "saveHyperParameters", "loadHyperParameters", "updateAuxilliaryFields")))
    rd, wr = init(fld(SM, "ifReadWarmStartFile")), init(fld(SM, "ifWriteWarmStartFile"))
    pc = lambda s: path_cond([x for x in s.path if x[1] in (True, False) and x[0].k not in ("in", "exc", "dispatch")])
    by = lambda n: [x for x in h.got if x[0] == n]
    ld, sv, up_ = by("loadHyperParameters"), by("saveHyperParameters"), by("updateAuxilliaryFields")
    ini = init(fld(SM, "ifInitialized"))
    disj = lambda xs: reduce_or([pc(x[4]) for x in xs])
    f.ob(r, "training with a warm start file restores the hyperparameters", bool(ld) and alg_iff(f, disj(ld), op("&&", ini, rd)), "under %s" % show(disj(ld))[:200])
    c = disj(sv)
    f.ob(r, "training saves the hyperparameters on request", bool(sv) and alg_iff(f, c, op("&&", op("&&", ini, neg(op("==", init(fld(SM, "dimension")), ZERO))), op("&&", wr, neg(rd)))), "under %s" % show(c)[:200])
    for x in sv:
        th = I.load(x[4], F(cf, ECF + "::thetaParameters"))
        f.ob(r, "hyperparameters are saved after they are chosen", th is not init(F(cf, ECF + "::thetaParameters")), "saves %s" % show(th)[:100])


def reduce_or(cs):
    c = FALSE
    for x in cs:
        c = op("||", c, x)
    return c


def alg_iff(f, a, b):
    try:
        return f.V.iff(a, b)
    except Big:
        return False


# ------------------------------------------------------------------ S05
def S05_regression(ctx):
    r = "linear-regression"
    data = fld(SM, "data")
    X, y = init(F(data, SMD + "::X")), init(F(data, SMD + "::y"))
    n, d = init(fld(SM, "numberOfSamples")), init(fld(SM, "dimension"))
    for name in ("train", "initializeSurrogateModel"):
        f = sfn(ctx, LM, name, [], (SM, SMD))
        lam = f.o.new("regularizationParameter")
        w = f.o.new("weights")
        ok = is_call(w, MAT + "::matVecProduct") and is_call(w.a[1], MAT + "::invert") and w.a[1].a[1].k == "mut" and w.a[1].a[1].a[0] == MAT + "::addEpsilonToDiagonal"
        f.ob(r, "weights solve the regularised normal equations", ok, "weights are %s" % show(w)[:300])
        if ok:
            m = w.a[1].a[1]
            f.ob(r, "regularisation", f.V.eq(m.a[2], lam), "is %s" % show(m.a[2])[:100])
            G, rhs = m.a[1], w.a[2]
            ok = is_call(G, MAT + "::operator*") and is_call(G.a[1], MAT + "::transpose") and G.a[1].a[1] is G.a[2]
            f.ob(r, "matrix of the normal equations", ok, "is %s" % show(G)[:300])
            ok2 = is_call(rhs, MAT + "::matVecProduct") and rhs.a[2] is y and (not ok or rhs.a[1] is G.a[1])
            f.ob(r, "right-hand side of the normal equations", ok2, "is %s" % show(rhs)[:300])
            if ok:
                A = G.a[2]
                mat_eq(f, r, A, n, add(d, ONE), lambda i, j: ite(op("==", j, ZERO), ONE, el(X, i, sub(j, ONE))), "matrix of regressors")
        for c, what in ((op("==", n, ZERO), "no samples"), (op("==", d, ZERO), "no dimension"), (neg(init(fld(SM, "ifNormalized"))), "data that is not normalised"),
                        (neg(init(fld(SM, "ifDataIsRead"))), "missing data")):
            rejects(f, r, c, what)
        f.ob(r, "marked as trained", yes_(f, f.o.new("ifModelTrainingIsDone", SM)), "")
    f = sfn(ctx, LM, "interpolate", ["vec"])
    w = f.o.old("weights")
    at = lambda v, k: content(v, k, f.H)
    val = lambda x: add(at(w, ZERO), total(f, d, lambda k: mul(x(k), at(w, add(k, ONE)))))
    leq(f, r, "prediction", f.rv, val(lambda k: at(f.par(0), k)))
    f = sfn(ctx, LM, "interpolateAll", ["mat"])
    m = f.par(0)
    lvec(f, r, "predictions", f.rv, nr(m), lambda i: val(lambda k: el(m, i, k)), facts=[(nc(m), "==", d)])
    f.throws(r, neg(op("==", nc(m), d)), "points of another dimension")
    for name, fs, types in (("setWeights", "weights", ["vec"]), ("setRegularizationParameter", "regularizationParameter", ["double"])):
        f = sfn(ctx, LM, name, types)
        f.ob(r, "sets " + fs, f.o.new(fs) is f.par(0), "becomes %s" % show(f.o.new(fs))[:100])
    for name, cond in (("readData", None), ("normalizeData", None)):
        f = sfn(ctx, LM, name, [], (SM,))
        if name == "readData":
            t = f.o.new("numberOfSamples", SM)
            f.ob(r, "number of samples", is_call(t, SMD + "::getNumberOfSamples") and "readData" in show_all(t) or contains_q(t, SMD + "::readData"), "is %s" % show(t)[:200])
            f.ob(r, "marked as read", yes_(f, f.o.new("ifDataIsRead", SM)), "")
            t = f.load(F(data, SMD + "::X"))
            f.ob(r, "reads the training data file", t.k == "mut" and t.a[0] == SMD + "::readData" and t.a[2] is f.o.old("filenameDataInput", SM), "X is %s" % show(t)[:200])
        else:
            t = f.load(F(data, SMD + "::X"))
            f.ob(r, "inputs are normalised", t.k == "mut" and t.a[0] == SMD + "::normalize", "X is %s" % show(t)[:200])
            f.ob(r, "marked as normalised", yes_(f, f.o.new("ifNormalized", SM)), "")


def show_all(t):
    return " ".join(str(x.a[0]) for x in subterms(t) if x.a and isinstance(x.a[0], str))


def contains_q(t, q):
    return any(x.k == "mut" and x.a[0] == q for x in subterms(t))


def yes_(f, t):
    """true when the function returns"""
    if t in (ONE, TRUE):
        return True
    if t.k in ("int", "flt"):
        return False
    end = TRUE
    for c, p in f.st.path:
        if (c is t and p) or (neg(c) is t and not p):
            return True
        end = op("&&", end, c if p else neg(c))
    try:
        return f.V.implies(end, t)
    except Big:
        return False


def total(f, n, term):
    k = mk("bv", "total")
    UNSIGNED.add(k)
    return absint.quant("agg", ZERO, n, term(k), k, "sum")


# ------------------------------------------------------------------ S06
def S05_saved(ctx):
    """the weights of a linear model are written to and read from the file of the hyperparameters"""
    r = "linear-regression"
    name = init(fld(SM, "filenameHyperparameters"))
    w = init(fld(LM, "weights"))
    h = AtCalls("saveToCSV")
    fn = pick_fn(ctx, LM + "::saveHyperParameters", [])
    run(ctx, fn, h, inline_classes(LM, SM, stop=("operator()",)), LM, vals=True)
    f = sfn(ctx, LM, "saveHyperParameters", [])
    ok = len(h.got) == 1
    for n, obj, args, w_, s in h.got:
        v = f.I.load(s, obj) if obj.k not in ("obj", "fill", "upd", "init", "call", "ite") else obj
        f.ob(r, "weights are saved", v is w and len(args) > 0 and args[0] is name, "saves %s to %s" % (show(v)[:100], show(args[0])[:100] if args else "?"))
    f.ob(r, "one file is written", ok, "%d files are written" % len(h.got))
    f = sfn(ctx, LM, "loadHyperParameters", [])
    t = f.o.new("weights")
    f.ob(r, "weights are restored", t.k == "mut" and t.a[0] == VEC + "::readFromCSV" and t.a[2] is name, "are %s" % show(t)[:200])


def extremes(x):
    """comparisons with the smallest or largest entry, as comparisons of entries"""
    from .lin import exists
    if x.k == "op" and x.a[0] in ("<", "<=") and len(x.a) == 3:
        for i, n in ((1, "findMin"), (2, "findMax")):
            e, c = x.a[i], x.a[3 - i]
            if e.k == "call" and e.a[0] == VEC + "::" + n and len(e.a) == 2:
                v = e.a[1]
                return exists(size(v), (lambda k: op(x.a[0], at(v, k), c)) if i == 1 else (lambda k: op(x.a[0], c, at(v, k))))
    return None


def apart(t):
    """a position with one of two properties: one with the first or one with the second"""
    def fn(x):
        if x.k == "exists" and x.a[2].k == "op" and x.a[2].a[0] == "||":
            return op("||", *[apart(mk("exists", x.a[0], x.a[1], c)) for c in x.a[2].a[1:]])
        return None
    return rewrite(t, fn)


def flat_bool(t):
    """nested alternatives as a formula"""
    if t.k == "ite":
        return op("||", op("&&", t.a[0], flat_bool(t.a[1])), op("&&", neg(t.a[0]), flat_bool(t.a[2])))
    return TRUE if t is ONE else FALSE if t is ZERO else t


def S06_correlation(ctx):
    r = "correlation-function"
    o = lambda n, cls=CFB: init(fld(cls, n))
    X, dim, N = o("X"), o("dim"), o("N")
    # common part
    f = sfn(ctx, CFB, "setInputSampleMatrix", ["mat&"])
    m = f.par(0)
    f.ob(r, "samples", f.o.new("X") is m, "are %s" % show(f.o.new("X"))[:100])
    f.eq(r, "number of samples", f.o.new("N"), nr(m))
    f.eq(r, "dimension", f.o.new("dim"), nc(m))
    f.ob(r, "samples are marked as set", yes_(f, f.o.new("ifInputSampleMatrixIsSet")), "")
    rejects(f, r, op("==", nr(m), ZERO), "no samples")
    f = sfn(ctx, CFB, "setDimension", ["unsignedint"])
    f.eq(r, "dimension", f.o.new("dim"), f.par(0))
    f.throws(r, op("==", f.par(0), ZERO), "dimension zero")
    f = sfn(ctx, CFB, "setEpsilon", ["double"])
    f.eq(r, "epsilon", f.o.new("epsilon"), f.par(0))
    f.throws(r, op("||", op("<", f.par(0), ZERO), op("<=", ONE, f.par(0))), "epsilon outside [0, 1)")
    f = sfn(ctx, CFB, "getCorrelationMatrix", [])
    f.ob(r, "correlation matrix", f.rv is o("correlationMatrix"), "is %s" % show(f.rv)[:100])
    f = sfn(ctx, ECF, "checkIfParametersAreSetProperly", [])
    th, ga = o("thetaParameters", ECF), o("gammaParameters", ECF)
    same_size = op("&&", op("==", size(ga), dim), op("==", size(th), dim))
    ranges = TRUE
    for v, c in ((ga, lambda i: op("<", INT(2), at(ga, i))), (ga, lambda i: op("<", at(ga, i), ZERO)), (th, lambda i: op("<", at(th, i), ZERO))):
        ranges = op("&&", ranges, neg(exists(dim, c)))
    got = flat_bool(rewrite(f.rv, extremes))
    try:
        ok = f.V.implies(got, same_size)
        # vectors of the right size
        m = {size(ga): dim, size(th): dim}
        ok = ok and f.V.iff(apart(subst(got, m)), ranges)
    except Big:
        ok = False
    f.ob(r, "parameters are accepted exactly within their ranges", ok, "returns %s" % show(f.rv)[:300])
    for cls, hyp, kern, matf, exc in (
            (ECF, ("thetaParameters", "gammaParameters"), "computeExponentialCorrelation", "computeCorrelationMatrixExponential", None),
            (GCF, ("theta",), "computeGaussianCorrelation", "computeCorrelationMatrixGaussian", None)):
        q = [o(h, cls) for h in hyp]
        f = sfn(ctx, cls, "computeCorrelationMatrix", [], (CFB,))
        R = f.load(fld(CFB, "correlationMatrix"))
        ok = R.k == "mut" and R.a[0] == MAT + "::addEpsilonToDiagonal" and R.a[2] is o("epsilon")
        f.ob(r, "regularised correlation matrix", ok, "is %s" % show(R)[:200])
        C = R.a[1] if ok else R
        f.ob(r, "correlation matrix of the samples", C.k == "call" and C.a[0].startswith(MAT + "::" + matf) and C.a[1] is X and C.a[2:] == tuple(q), "is %s" % show(C)[:200])
        rejects(f, r, neg(o("ifInputSampleMatrixIsSet")), "missing samples")
        f = sfn(ctx, cls, "computeCorrelationVector", ["vec&"], (CFB,))
        t = f.rv
        f.eq(r, "one correlation per sample", size(t), N)
        H = f.H.copy().add(ZERO, "<=", K).add(K, "<", N)
        kernel_of(f, r, content(t, K, H), VEC + "::" + kern, lambda a, b: same_pair(f, a, b, f.par(0), X, K, H), q, nc(X), "correlation with a sample", n2=size(f.par(0)))
        rejects(f, r, neg(o("ifInputSampleMatrixIsSet")), "missing samples")
        f = sfn(ctx, cls, "computeCorrelation", ["vec&", "vec&"], (CFB,))
        a, b = f.par(0), f.par(1)
        kernel_of(f, r, f.rv, VEC + "::" + kern, lambda x, y: {x, y} == {a, b}, q, size(a), "correlation of two points", [op("==", size(a), size(b))], size(b))
        f = sfn(ctx, cls, "computeCorrelationDot", ["vec&", "vec&", "vec&"], (CFB,))
        a, b = f.par(0), f.par(1)
        kernel_of(f, r, f.rv, VEC + "::" + kern + "Dot", lambda x, y: x is a and y is b, [f.par(2)] + q, size(a), "derivative of the correlation", (), size(b))
        # hyperparameters in, the same hyperparameters out
        f = sfn(ctx, cls, "getHyperParameters", [], (CFB,))
        if len(q) == 2:
            f.eq(r, "number of hyperparameters", size(f.rv), mul(INT(2), dim))
            f.elems(r, "theta comes first", f.rv, mk("elem", q[0], K), K, [(ZERO, "<=", K), (K, "<", dim)])
            f.elems(r, "gamma follows", f.rv, content(q[1], sub(K, dim), f.H), K, [(dim, "<=", K), (K, "<", mul(INT(2), dim))])
            rejects(f, r, op("==", dim, ZERO), "missing dimension")
        else:
            f.ob(r, "hyperparameters", f.rv is q[0], "are %s" % show(f.rv)[:100])
        f = sfn(ctx, cls, "setHyperParameters", ["vec&"], (CFB,))
        p = f.par(0)
        if len(q) == 2:
            two = {size(p): mul(INT(2), dim)}
            for h, off in zip(hyp, (ZERO, dim)):
                t = f.load(fld(cls, h))
                f.eq(r, "size of " + h, subst(norm(size(t), f.H), two), dim)
                c = subst(content(t, K, f.H.copy().add(ZERO, "<=", K).add(K, "<", dim).add(size(p), "==", mul(INT(2), dim))), two)
                f.ob(r, h, is_entry(f, c, p, add(off, K)), "element is %s" % show(c)[:200])
            wrong = neg(op("==", size(p), mul(INT(2), dim)))
        else:
            f.ob(r, "hyperparameters", f.load(fld(cls, hyp[0])) is p, "are %s" % show(f.load(fld(cls, hyp[0])))[:100])
            wrong = neg(op("==", size(p), dim))
        rejects(f, r, wrong, "hyperparameters of the wrong size")
        f = sfn(ctx, cls, "initialize", [], (CFB,))
        for h in hyp:
            f.vec(r, f.load(fld(cls, h)), dim, lambda k: mk("flt", "1.8") if h.startswith("gamma") else ONE, what="initial " + h)
        rejects(f, r, op("==", dim, ZERO), "missing dimension")
    for n, h in (("setTheta", "thetaParameters"), ("setGamma", "gammaParameters")):
        f = sfn(ctx, ECF, n, ["vec&"], (CFB,))
        p = f.par(0)
        f.ob(r, "sets " + h, f.load(fld(ECF, h)) is p, "becomes %s" % show(f.load(fld(ECF, h)))[:100])
        f.throws(r, op("||", op("==", size(p), ZERO), neg(op("==", size(p), dim))), "parameters of the wrong size")
    f = sfn(ctx, GCF, "computeCorrelationDotDot", ["vec&", "vec&", "vec&", "vec&"], (CFB,))
    a, b = f.par(0), f.par(1)
    kernel_of(f, r, f.rv, VEC + "::computeGaussianCorrelationDotDot", lambda x, y: x is a and y is b, [f.par(2), f.par(3), o("theta", GCF)], size(a), "second derivative of the correlation", (), size(b))


def kernel_of(f, r, t, q, same, rest, n, what, assume=(), n2=None):
    ok = t.k == "call" and t.a[0] == q and len(t.a) == 4 + len(rest)
    f.ob(r, what, ok, "is %s" % show(t)[:300])
    if not ok:
        return
    a, b = points(t.a[1]), points(t.a[2])
    f.ob(r, what + ": points", same(a, b), "are %s and %s" % (show(t.a[1])[:100], show(t.a[2])[:100]))
    for i, h in enumerate(rest):
        f.ob(r, what + ": parameter %d" % i, points(t.a[3 + i]) is h, "is %s" % show(t.a[3 + i])[:100])
    ok = f.V.eq(t.a[-1], n) or (n2 is not None and f.V.eq(t.a[-1], n2))
    f.ob(r, what + ": dimension", ok, "is %s" % show(t.a[-1])[:100])


# ------------------------------------------------------------------ S07
def S07_results(ctx):
    """file of the test results: what is saved where, and the names of its columns"""
    r = "test-results"
    data = fld(SM, "data")
    d, has = init(F(data, SMD + "::dimension")), init(F(data, SMD + "::ifTestDataHasFunctionValues"))
    absint.UNSIGNED.add(d)
    for fn, var in (("saveTestResults", False), ("saveTestResultsWithVariance", True)):
        h = AtCalls("saveAsCSV")
        f = sfn(ctx, SM, fn, [], (SMD,), hooks=h)
        name = init(fld(SM, "filenameTestResults"))
        rejects(f, r, op("==", size(name), ZERO), "a missing file name")
        if not f.ob(r, "one file is written", len(h.got) == 1, "%d files" % len(h.got)):
            continue
        n, x, args, w, st = h.got[0]
        ok = f.V.implies(neg(op("==", size(name), ZERO)), pcond(st))
        f.ob(r, "results are written whenever there is a file name", ok, "are written when %s" % show(pcond(st))[:200])
        f.ob(r, "the results are written to this file", val_of(f.I, st, x) is init(fld(SM, "testResults")) and val_of(f.I, st, args[0]) is name, "%s is written to %s" % (show(x)[:100], show(args[0])[:100]))
        head = val_of(f.I, st, args[-1])
        for g in (True, False):
            c = has if g else neg(has)
            hd = decide(head, [c])
            what = "names of the columns (%s true values)" % ("with" if g else "without")
            cols = ["Estimated value"] + (["True value", "Squared Error"] if g else []) + (["Variance"] if var else [])
            f.eq(r, what + ": number", size(hd), add(d, INT(len(cols))))
            at = lambda k, *facts: content(hd, k, facts_(f, *facts))
            e = at(K, (ZERO, "<=", K), (K, "<", d))
            f.ob(r, what + ": parameters", numbered(f, e, "x", add(K, ONE)), "column k is %s" % show(e)[:200])
            for j, s_ in enumerate(cols):
                e = at(add(d, INT(j)), (ZERO, "<=", d))
                f.ob(r, what + ": " + s_, e is mk("str", s_), "column is %s" % show(e)[:100])


def facts_(f, *facts):
    H = f.H.copy()
    for x in facts:
        H.add(*x)
    return H


def numbered(f, t, prefix, n):
    """the text prefix followed by the number n"""
    return t.k == "op" and t.a[0] == "+" and t.a[1] is mk("str", prefix) and t.a[2].k == "call" and t.a[2].a[0].endswith("to_string") and f.V.eq(t.a[2].a[1], n)


def S07_errors(ctx):
    r = "model-error"
    data = fld(SM, "data")
    di = lambda n: init(F(data, SMD + "::" + n))
    d = di("dimension")
    itp = lambda x: call(SM + "::interpolate", init(THIS), x)
    f = sfn(ctx, SM, "calculateValidationError", [], (SMD,))
    n, XV, yv = di("numberOfValidationSamples"), di("XValidation"), di("yValidation")
    none = op("==", n, ZERO)
    x = when(f, none, f.rv)
    f.ob(r, "largest value without validation samples", MAXV(x), "is %s" % show(x)[:100])
    pts(f, r, when(f, neg(none), f.rv), n, XV, lambda e, k: call("fabs", sub(e, mk("elem", yv, k))), "mean absolute error of the validation samples")
    rejects(f, r, op("&&", neg(none), neg(init(fld(SM, "ifNormalized")))), "data that is not normalised")
    # in-sample error: all samples are training samples
    f = sfn(ctx, SM, "calculateInSampleError", ["basic_string<char>"], (SMD,))
    mode = f.par(0)
    fv, wd, wv = [op("==", mode, mk("str", s)) for s in ("function_values", "with_derivatives", "with_variances")]
    n, X, raw = di("numberOfSamples"), di("X"), di("rawData")
    sd = init(fld(SM, "dimension"))
    for c, q in ((fv, "interpolate"), (wd, "interpolateUsingDerivatives")):
        pts(f, r, f.rv, n, X, lambda e, k: sq(sub(e, el(raw, k, sd))), "mean squared error of the training samples (%s)" % q, q, [c] + ([neg(fv)] if c is wd else []))
    rejects(f, r, neg(init(fld(SM, "ifInitialized"))), "a model that is not initialised")
    # test data
    f = sfn(ctx, SM, "tryOnTestData", ["basic_string<char>"], (SMD,))
    mode = f.par(0)
    has = di("ifTestDataHasFunctionValues")
    n, XT, raw = di("numberOfTestSamples"), di("XTest"), di("XrawTest")
    true_ = lambda k: el(raw, k, d)
    decide_ = lambda t, c: rewrite(decide(t, c), lambda x: true_(x.a[1]) if x.k == "elem" and x.a[0] is di("yTest") else None)
    rejects(f, r, neg(init(fld(SM, "ifNormalizedTestData"))), "test data that is not normalised")
    res = f.load(fld(SM, "testResults"))
    for c, q in (("function_values", "interpolate"), ("with_derivatives", "interpolateUsingDerivatives"), ("with_variances", "interpolateWithVariance")):
        cases = [op("==", mode, mk("str", c))] + [neg(op("==", mode, mk("str", x))) for x in ("function_values", "with_derivatives", "with_variances") if x != c]
        for g in (True, False):
            asm = cases + [has if g else neg(has)]
            what = "test results (%s, %s true values)" % (c, "with" if g else "without")
            var = c == "with_variances"
            cols = add(d, INT((3 if g else 1) + (1 if var else 0)))
            R = decide_(res, asm)
            f.eq(r, what + ": rows", nr(R), n)
            f.eq(r, what + ": columns", nc(R), cols)
            H = f.H.copy().add(ZERO, "<=", I_).add(I_, "<", n).add(sd, "==", d).add(ZERO, "<", d)
            at = lambda j, H_=None: decide_(subst(content(R, mk("tup", I_, j), H_ or H), {sd: d}), asm)
            e = at(d, H.copy().add(ZERO, "<", add(d, ONE)))
            row = [t for t in subterms(e) if is_call(t, SM + "::" + q) or (t.k == "out" and t.a[0] == SM + "::" + q)]
            pt = [t for x in row for t in x.a[1:] if isinstance(t, T) and (is_call(t, MAT + "::getRow") and t.a[1] is XT and f.V.eq(t.a[2], I_))]
            f.ob(r, what + ": estimate at the test sample", len(row) == 1 and e is row[0] and (bool(pt) or is_row(f, row[0].a[2], XT, I_, H)), "is %s" % show(e)[:300])
            HJ = H.copy().add(ZERO, "<=", J_).add(J_, "<", d)
            f.eq(r, what + ": coordinates of the test sample", at(J_, HJ), el(raw, I_, J_))
            if g:
                f.eq(r, what + ": true value", at(add(d, ONE)), true_(I_))
                leq(f, r, what + ": squared error", at(add(d, INT(2))), sq(sub(true_(I_), e)))
                ge = decide_(f.load(fld(SM, "generalizationError")), asm)
                leq(f, r, what + ": mean squared error", ge, div(total(f, n, lambda k: sq(sub(true_(k), subst(e, {I_: k})))), n))
                sd_ = decide_(f.load(fld(SM, "standardDeviationOfGeneralizationError")), asm)
                v = sd_.a[1] if is_call(sd_, VEC + "::standardDeviation") else None
                f.ob(r, what + ": standard deviation of the squared errors", v is not None and f.V.eq(decide_(size(v), asm), n) and
                     f.V.eq(decide_(subst(content(v, I_, H), {sd: d}), asm), sq(sub(true_(I_), e))), "is %s" % show(sd_)[:300])
            if var:
                v = at(add(d, INT(3 if g else 1)))
                f.ob(r, what + ": variance", v.k == "out" and v.a[0] == SM + "::interpolateWithVariance" and v.a[1] == 2 and e.k == "out" and v.a[2:] == e.a[2:], "is %s" % show(v)[:200])
    f = sfn(ctx, SM, "calculateOutSampleError", [], (SMD,))
    t = decide_(f.rv, [])
    leq(f, r, "out-of-sample error is the mean squared error", t, div(total(f, n, lambda k: sq(sub(true_(k), itp(call(MAT + "::getRow", XT, k))))), n), facts=[(sd, "==", d)])
    f.throws(r, op("||", op("||", neg(init(fld(SM, "ifHasTestData"))), neg(has)), neg(init(fld(SM, "ifNormalizedTestData")))), "missing test data")
    f = sfn(ctx, SM, "interpolateVector", ["mat"])
    m = f.par(0)
    f.eq(r, "one prediction per point", size(f.rv), nr(m))
    c = content(f.rv, K, f.H.copy().add(ZERO, "<=", K).add(K, "<", nr(m)))
    f.ob(r, "predictions at the points", is_call(c, SM + "::interpolate") and is_row(f, c.a[2], m, K, f.H.copy().add(ZERO, "<=", K).add(K, "<", nr(m))), "are %s" % show(c)[:200])


def pts(f, r, t, n, X, term, what, q="interpolate", assume=()):
    """t is the mean over n rows of X of the term of the prediction at the row"""
    t = decide(t, assume)
    ag = [x for x in subterms(t) if x.k == "agg"]
    if len(ag) != 1:
        return f.ob(r, what, False, "is %s" % show(t)[:300])
    rows = [x for x in subterms(ag[0]) if x.k == "call" and x.a[0] == SM + "::" + q]
    if not rows:
        return f.ob(r, what, False, "is %s" % show(t)[:300])
    leq(f, r, what, t, div(total(f, n, lambda k: term(call(SM + "::" + q, rows[0].a[1], call(MAT + "::getRow", X, k)), k)), n))


def rewrite(t, fn):
    memo = {}

    def g(x):
        if not isinstance(x, T):
            return tuple(g(y) for y in x) if isinstance(x, tuple) else x
        if x not in memo:
            v = fn(x)
            if v is None:
                a = tuple(g(y) for y in x.a)
                v = x if a == x.a else op(*a) if x.k == "op" else ite(*a) if x.k == "ite" else mk(x.k, *a)
            memo[x] = v
        return memo[x]
    return g(t)


def decide(t, conds):
    """t with the listed conditions decided"""
    m = {}
    for c in conds:
        m[c] = TRUE
        m[neg(c)] = FALSE
    memo = {}

    def g(x):
        if not isinstance(x, T):
            return tuple(g(y) for y in x) if isinstance(x, tuple) else x
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        if x.k == "ite":
            c = g(x.a[0])
            r = g(x.a[1]) if c is TRUE else g(x.a[2]) if c is FALSE else ite(c, g(x.a[1]), g(x.a[2]))
        elif x.k in ("init", "L", "lv", "bv", "int", "flt", "str"):
            r = x
        else:
            a = tuple(g(y) for y in x.a)
            r = x if a == x.a else op(*a) if x.k == "op" else mk(x.k, *a)
        memo[x] = r
        return r
    return g(t)


# ------------------------------------------------------------------ S08
def pcond(s):
    return path_cond([x for x in s.path if x[1] in (True, False) and x[0].k not in ("in", "exc", "dispatch")])


def val_of(I, s, x):
    """value of the object (location or term) at a call"""
    return I.load(s, x) if x.k in ("F", "L", "E", "D", "G", "P", "V") else x


def S08_new_sample(ctx):
    """a new sample is appended to the training file and the model is rebuilt from this file"""
    r = "new-sample"
    fn = pick_fn(ctx, KM + "::addNewSampleToData", ["vec"])
    h = AtCalls("appendToCSV", "updateModelWithNewData")
    I, st, rv = run(ctx, fn, h, inline_classes(KM, SM, SMD, stop=("updateModelWithNewData",)), KM, vals=True)
    f = sfn(ctx, KM, "addNewSampleToData", ["vec"], inl=inline_classes(KM, SM, SMD, stop=("updateModelWithNewData",)))
    x = init(mk("P", fn.p[0]["n"]))
    data = fld(SM, "data")
    raw, d = init(F(data, SMD + "::rawData")), init(F(data, SMD + "::dimension"))
    f.throws(r, neg(op("==", size(x), add(d, ONE))), "samples of the wrong size")
    ap = [e for e in h.got if e[0] == "appendToCSV"]
    up_ = [e for e in h.got if e[0] == "updateModelWithNewData"]
    conds = [c for e in ap for c in subterms(pcond(e[4])) if c.k == "call" and c.a[0] == MAT + "::findRowIndex"]
    f.ob(r, "the sample is compared with the existing samples", bool(conds) and all(c.a[1] is raw and c.a[2] is x and len(c.a) == 4 and c.a[3].k == "flt" and 0 < float(c.a[3].a[0]) <= 1e-4 for c in conds),
         "comparison %s" % (show(conds[0])[:200] if conds else "is missing"))
    if conds:
        fi = conds[0]
        new = op("&&", op("==", size(x), add(d, ONE)), op("<", fi, ZERO))
        # findRowIndex returns -1 or a row
        w = lambda c: rewrite(c, lambda t: op("<", t.a[1], ZERO) if t.k == "op" and t.a[0] == "==" and t.a[2] is INT(-1) and t.a[1] is fi else
                              op("<", t.a[2], ZERO) if t.k == "op" and t.a[0] == "==" and t.a[1] is INT(-1) and t.a[2] is fi else None)
        c = w(reduce_or([pcond(e[4]) for e in ap]))
        f.ob(r, "new samples are written to the file", alg_iff(f, c, new), "under %s" % show(c)[:300])
        c = w(reduce_or([pcond(e[4]) for e in up_]))
        f.ob(r, "the model is rebuilt with new samples", bool(up_) and alg_iff(f, c, new), "under %s" % show(c)[:300])
    for n, obj, args, wh, s in ap:
        v = I.load(s, obj)
        f.ob(r, "the sample itself is written", v is x or obj is x, "is %s" % show(v)[:200])
        f.ob(r, "the training file is extended", bool(args) and args[0] is init(fld(SM, "filenameDataInput")), "is %s" % (show(args[0])[:100] if args else "?"))
        ok = len(args) < 2 or (args[1].k == "int" and args[1].a[0] >= 9)
        f.ob(r, "with at least 9 digits", ok, "precision is %s" % (show(args[1]) if len(args) > 1 else "default"))
    order = [e[0] for e in h.got]
    f.ob(r, "written before the model is rebuilt", bool(order) and order[0] == "appendToCSV" and "updateModelWithNewData" in order and order.index("updateModelWithNewData") > 0 and len(ap) == 1 and len(up_) == 1,
         "order of calls: %s" % ", ".join(order))
    return f


def S08_rebuild(ctx):
    r = "new-sample"
    for kind in (FALSE, TRUE):
        rebuild(ctx, r, kind)


def rebuild(ctx, r, lin_):
    data, lm = fld(SM, "data"), fld(KM, "linearModel")

    def setup(I, st):
        for c, n, v in ((SMD, "ifDataHasGradients", ZERO), (SMD, "ifDataHasDirectionalDerivatives", ZERO), (SMD, "ratioValidationData", ZERO)):
            for base in (data, F(lm, SM + "::data")):
                st.store[F(base, c + "::" + n)] = v
        st.store[fld(KM, "ifUsesLinearRegression")] = ONE if lin_ is TRUE else ZERO
    f = sfn(ctx, KM, "updateModelWithNewData", [], inl=inline_classes(KM, *KALSO, LM, stop=("operator()", "interpolate", "interpolateAll")), setup=setup)
    f.nm += " with linear regression" if lin_ is TRUE else " without linear regression"
    o, z = f.o.old, f.o.new
    data, cf, lm = fld(SM, "data"), fld(KM, "correlationFunction"), fld(KM, "linearModel")
    dl = lambda n: f.load(F(data, SMD + "::" + n))
    name = o("filenameDataInput", SM)
    raw = dl("rawData")
    f.ob(r, "training file is read again", raw.k == "mut" and raw.a[0] == MAT + "::readFromCSV" and raw.a[2] is name, "raw data is %s" % show(raw)[:200])
    consistent(f, r)
    X = dl("X")
    f.ob(r, "samples of the correlation function are the new ones", f.load(F(cf, CFB + "::X")) is X and X is not init(F(data, SMD + "::X")), "are %s" % show(f.load(F(cf, CFB + "::X")))[:200])
    b = F(data, SMD + "::boxConstraints")
    lb, ub = bounds_of(f, b)
    norm_mat(f, r, X, lambda t: sub_of(f, t, dl("rawDataWork"), ZERO, ZERO), lb, ub, "new samples")
    f.eq(r, "number of samples", z("numberOfSamples", SM), nr(dl("rawDataWork")))
    f.eq(r, "number of samples of the data", dl("numberOfSamples"), nr(dl("rawDataWork")))
    y0 = [t for t in subterms(dl("y")) if is_call(t, MAT + "::getCol") and t.a[1] is dl("rawDataWork")]
    f.ob(r, "outputs are read again", bool(y0) and f.V.eq(y0[0].a[2], dl("dimension")), "are %s" % show(dl("y"))[:200])
    if y0:
        residual(f, r, y0[0], X, only=lin_)
    if lin_ is TRUE:
        rebuild_linear(f, r, lm)
    ci = o("ifCorrelationFunctionIsInitialized")
    for n in ("thetaParameters", "gammaParameters"):
        t = when(f, ci, f.load(F(cf, ECF + "::" + n)))
        f.ob(r, "hyperparameters are kept: " + n, t is init(F(cf, ECF + "::" + n)), "become %s" % show(t)[:100])


def rebuild_linear(f, r, lm):
    u = f.o.old("ifUsesLinearRegression")
    LD = F(lm, SM + "::data")
    lraw = when(f, u, f.load(F(LD, SMD + "::rawData")))
    f.ob(r, "linear regression reads its training file again", lraw.k == "mut" and lraw.a[0] == MAT + "::readFromCSV" and lraw.a[2] is init(F(lm, SM + "::filenameDataInput")), "is %s" % show(lraw)[:200])
    w = when(f, u, f.load(F(lm, LM + "::weights")))
    lX = when(f, u, f.load(F(LD, SMD + "::X")))
    f.ob(r, "linear regression is fitted again", w is not init(F(lm, LM + "::weights")) and contains_(w, lraw), "weights are %s" % show(w)[:200])
    f.ob(r, "linear regression uses normalised inputs", is_call(lX, MAT + "::normalizeMatrix"), "inputs are %s" % show(lX)[:200])


def S08_setup(ctx):
    """dimension, file name and box constraints reach every part of the model"""
    r = "model-setup"
    data, lm = fld(SM, "data"), fld(KM, "linearModel")
    f = sfn(ctx, KM, "setDimension", ["unsignedint"], (SM, SMD, LM))
    d = f.par(0)
    for l, w in ((fld(SM, "dimension"), "model"), (F(data, SMD + "::dimension"), "data"), (F(lm, SM + "::dimension"), "linear regression")):
        f.eq(r, "dimension of the " + w, f.load(l), d)
    f = sfn(ctx, KM, "setNameOfInputFile", ["basic_string<char>"], (SM, SMD, LM))
    n = f.par(0)
    for l, w in ((fld(SM, "filenameDataInput"), "model"), (F(lm, SM + "::filenameDataInput"), "linear regression")):
        f.ob(r, "training file of the " + w, f.load(l) is n, "is %s" % show(f.load(l))[:100])
    rejects(f, r, op("==", size(n), ZERO), "an empty file name")
    f = sfn(ctx, KM, "setBoxConstraints", ["Bounds"], (SM, SMD, LM))
    b, dim = f.par(0), f.o.old("dimension", SM)
    u = f.o.old("ifUsesLinearRegression")
    same = lambda t: t is b or (t.k == "snap" and t.a[0] in (b, mk("P", f.f.p[0]["n"])))
    for l, w, c in ((fld(SM, "boxConstraints"), "model", None), (F(data, SMD + "::boxConstraints"), "data", None), (F(F(lm, SM + "::data"), SMD + "::boxConstraints"), "linear regression", u)):
        t = f.load(l)
        t = when(f, c, t) if c is not None else t
        f.ob(r, "box constraints of the " + w, same(t), "are %s" % show(t)[:200])
    bd = call(BND + "::getDimension", b)
    rejects(f, r, neg(call(BND + "::areBoundsSet", b)), "box constraints that are not set")
    rejects(f, r, op("==", dim, ZERO), "a model without dimension")
    rejects(f, r, neg(op("==", bd, dim)), "box constraints of another dimension")
    # reading and normalising
    f = sfn(ctx, KM, "readData", [], (SM, SMD, LM))
    z, o = f.o.new, f.o.old
    raw = f.load(F(data, SMD + "::rawData"))
    f.ob(r, "training file is read", raw.k == "mut" and raw.a[0] == MAT + "::readFromCSV" and raw.a[2] is o("filenameDataInput", SM), "data is %s" % show(raw)[:200])
    f.ob(r, "number of samples", z("numberOfSamples", SM) is f.load(F(data, SMD + "::numberOfSamples")), "is %s" % show(z("numberOfSamples", SM))[:200])
    f.ob(r, "marked as read", z("ifDataIsRead", SM) in (ONE, TRUE), "")
    lraw = when(f, u, f.load(F(F(lm, SM + "::data"), SMD + "::rawData")))
    f.ob(r, "linear regression reads its training file", lraw.k == "mut" and lraw.a[0] == MAT + "::readFromCSV" and lraw.a[2] is init(F(lm, SM + "::filenameDataInput")), "data is %s" % show(lraw)[:200])
    ln = when(f, u, f.load(F(lm, SM + "::numberOfSamples")))
    f.ob(r, "number of samples of the linear regression", f.V.eq(ln, when(f, u, f.load(F(F(lm, SM + "::data"), SMD + "::numberOfSamples")))), "is %s" % show(ln)[:200])
    rejects(f, r, op("==", o("dimension", SM), ZERO), "reading without dimension")
    rejects(f, r, op("==", size(o("filenameDataInput", SM)), ZERO), "reading without file name")
    f = sfn(ctx, KM, "normalizeData", [], (SM, SMD, LM))
    X = f.load(F(data, SMD + "::X"))
    lb, ub = bounds_of(f, F(data, SMD + "::boxConstraints"))
    norm_mat(f, r, X, lambda t: t is init(F(data, SMD + "::X")), lb, ub, "inputs of the model")
    LD = F(lm, SM + "::data")
    lX = when(f, u, f.load(F(LD, SMD + "::X")))
    lb, ub = bounds_of(f, F(LD, SMD + "::boxConstraints"))
    norm_mat(f, r, lX, lambda t: t is init(F(LD, SMD + "::X")), lb, ub, "inputs of the linear regression")
    f.ob(r, "marked as normalised", yes_(f, f.o.new("ifNormalized", SM)), "")
    rejects(f, r, neg(f.o.old("ifDataIsRead", SM)), "normalising data that was not read")
    return f


SMT = "Rodop::SurrogateModelTester"


def S08_tester(ctx):
    """the model test prepares, trains and evaluates the model in the right order with its settings"""
    r = "model-test"
    names = ("setDimension", "setName", "setNameOfInputFile", "setNameOfInputFileTest", "setBoxConstraints", "readData", "readDataTest", "normalizeData", "normalizeDataTest",
             "initializeSurrogateModel", "setNumberOfTrainingIterations", "setReadWarmStartFileFlag", "train", "tryOnTestData", "saveTestResults", "saveTestResultsWithVariance", "calculateInSampleError",
             "printGeneralizationError")
    fn = pick_fn(ctx, SMT + "::performSurrogateModelTest", [])
    h = AtCalls(*names)
    I, st, rv = run(ctx, fn, h, inline_classes(SMT, stop=names), SMT, vals=True)
    f = sfn(ctx, SMT, "performSurrogateModelTest", [], inl=inline_classes(SMT, stop=names))
    f.w = fn.where()
    model = init(fld(SMT, "surrogateModel"))
    pos = {}
    for i, (n, obj, args, w, s) in enumerate(h.got):
        pos.setdefault(n, []).append((i, obj, args, s))
    T_ = op("==", ZERO, ZERO)

    def once(n, arg=None, cond=None):
        xs = pos.get(n, [])
        f.ob(r, "calls " + n, bool(xs), "it is never called")
        for i, obj, args, s in xs:
            f.ob(r, n + ": model under test", obj in (model, mk("D", model)) or (isinstance(obj, T) and model in list(subterms(obj))), "called on %s" % show(obj)[:100])
            if arg is not None:
                ok = bool(args) and arg(I.load(s, args[0]) if args[0].k in ("F", "L") else args[0])
                f.ob(r, n + ": value", ok, "value is %s" % (show(args[0])[:100] if args else "missing"))
        return xs
    o = f.o.old
    is_ = lambda t: (lambda v: v is t)
    once("setDimension", is_(o("dimension")))
    once("setName", is_(o("name")))
    once("setNameOfInputFile", is_(o("fileNameTraingData")))
    once("setNameOfInputFileTest", is_(o("fileNameTestData")))
    box = fld(SMT, "boxConstraints")
    once("setBoxConstraints", lambda v: v is init(box) or (v.k == "snap" and v.a[0] in (box, init(box))))
    once("setNumberOfTrainingIterations", is_(o("numberOfTrainingIterations")))
    for n in ("readData", "readDataTest", "normalizeData", "normalizeDataTest", "initializeSurrogateModel", "train", "calculateInSampleError"):
        once(n)
    first = lambda n: min([x[0] for x in pos.get(n, [])] or [10**6])
    last = lambda n: max([x[0] for x in pos.get(n, [])] or [-1])
    for a, b in (("setDimension", "setBoxConstraints"), ("setDimension", "readData"), ("setNameOfInputFile", "readData"), ("setNameOfInputFileTest", "readDataTest"), ("readData", "normalizeData"),
                 ("readDataTest", "normalizeDataTest"), ("readData", "readDataTest"), ("normalizeData", "initializeSurrogateModel"), ("initializeSurrogateModel", "train"), ("setNumberOfTrainingIterations", "train"),
                 ("setName", "train"), ("setReadWarmStartFileFlag", "train"), ("train", "tryOnTestData"), ("normalizeDataTest", "tryOnTestData"), ("train", "calculateInSampleError"),
                 ("tryOnTestData", "saveTestResults"), ("tryOnTestData", "saveTestResultsWithVariance")):
        if b in ("saveTestResults", "saveTestResultsWithVariance"):
            ok = first(a) < first(b)
        else:
            ok = last(a) < first(b)
        f.ob(r, "%s before %s" % (a, b), ok, "order of calls: " + ", ".join(x[0] for x in h.got))
    f.ob(r, "setBoxConstraints before normalizeData", first("setBoxConstraints") < first("normalizeData"), "order of calls: " + ", ".join(x[0] for x in h.got))
    f.ob(r, "setBoxConstraints before normalizeDataTest", first("setBoxConstraints") < first("normalizeDataTest"), "order of calls: " + ", ".join(x[0] for x in h.got))
    # every path
    bad = call(BND + "::areBoundsSet", init(box))
    nothing = lambda c: alg_iff(f, c, TRUE) or True
    for n in ("readData", "readDataTest", "normalizeData", "normalizeDataTest", "initializeSurrogateModel", "train"):
        c = reduce_or([model_cond(pcond(x[3]), o) for x in pos.get(n, [])])
        f.ob(r, n + " on every path", c is TRUE or c is ONE or alg_iff(f, c, TRUE), "only under %s" % show(c)[:200])
    var = o("ifVariancesShouldBeComputedInTest")
    warm = o("ifReadWarmStart")

    def under(n, want, flt=None):
        xs = [x for x in pos.get(n, []) if flt is None or flt(x)]
        c = reduce_or([model_cond(pcond(x[3]), o) for x in xs])
        f.ob(r, n + (" with variances" if flt else "") + " under the right condition", bool(xs) and alg_iff(f, c, want), "under %s" % show(c)[:200])
    with_var = lambda x: bool(x[2]) and any(t.k == "str" and "with_variances" in str(t.a[0]) for t in subterms(x[2][0]))
    under("tryOnTestData", var, with_var)
    under("saveTestResultsWithVariance", var)
    under("saveTestResults", neg(var))
    xs = [x for x in pos.get("setReadWarmStartFileFlag", []) if x[2] and x[2][0] in (TRUE, ONE)]
    c = reduce_or([model_cond(pcond(x[3]), o) for x in xs])
    f.ob(r, "warm start on request", bool(xs) and alg_iff(f, c, warm), "under %s" % show(c)[:200])
    # binding
    f = sfn(ctx, SMT, "bindSurrogateModels", [], (SM, KM))
    t, typ = f.o.new("surrogateModel"), f.o.old("surrogateModelType")
    nm = neg(f.o.old("ifMultiLevel"))
    for name, m in (("LINEAR_REGRESSION", "linearModel"), ("ORDINARY_KRIGING", "krigingModel"), ("UNIVERSAL_KRIGING", "krigingModel")):
        v = subst(t, {typ: enum_of(ctx, name)})
        v = when(f, nm, v)
        f.ob(r, "model for " + name, v in (fld(SMT, m), mk("addr", fld(SMT, m))), "is %s" % show(v)[:200])
        u = subst(f.load(F(fld(SMT, "krigingModel"), KM + "::ifUsesLinearRegression")), {typ: enum_of(ctx, name)})
        want = ONE if name == "UNIVERSAL_KRIGING" else init(F(fld(SMT, "krigingModel"), KM + "::ifUsesLinearRegression"))
        f.ob(r, "linear regression of " + name, when(f, nm, u) in ((want, TRUE) if want is ONE else (want,)), "is %s" % show(u)[:200])
    rejects(f, r, neg(f.o.old("ifSurrogateModelSpecified")), "a test without model")


def S09_settings(ctx):
    """settings of the model test"""
    r = "model-test"
    s = lambda n: fld(SMT, n)
    for n, q in (("setDimension", "dimension"), ("setName", "name"), ("setSurrogateModel", "surrogateModelType"), ("setNumberOfTrainingIterations", "numberOfTrainingIterations"),
                 ("setBoxConstraints", "boxConstraints"), ("setFileNameTrainingData", "fileNameTraingData"), ("setFileNameTestData", "fileNameTestData")):
        f = Fn(ctx, SMT + "::" + n, None, inl=inline_classes(SMT))
        t = f.load(s(q))
        f.ob(r, "sets " + q, t is f.par(0) or t.k == "snap" and t.a[0] in (f.par(0), f.par(0).a[0]), "becomes %s" % show(t)[:100])
        if n == "setSurrogateModel":
            f.ob(r, "model counts as chosen", f.load(s("ifSurrogateModelSpecified")) in (ONE, TRUE), "does not")
        if n == "setBoxConstraints":
            rejects(f, r, neg(call(BND + "::areBoundsSet", f.par(0))), "bounds that are not set")
        if n.startswith("setFileName"):
            p = f.par(0)
            rejects(f, r, op("==", size(p), ZERO), "an empty name")
            from .lin import throw_cond
            c = throw_cond(f.I) or FALSE
            f.ob(r, "rejects files that are not CSV files", csv_only(f, c), "throws when %s" % show(c)[:300])
    for n, args in (("setRatioValidationSamples", True), ("setNumberOfTrainingIterations", True)):
        h = AtCalls(n)
        f = Fn(ctx, SMT + "::" + n, None, inl=inline_classes(SMT), hooks=h)
        bound = init(s("ifbindSurrogateModelisDone"))
        v = f.par(0)
        if n == "setRatioValidationSamples":
            bad = op("||", op("<", v, ZERO), op("<", ONE, v))
            rejects(f, r, bad, "ratios outside [0,1]")
            f.ob(r, "accepts ratios from 0 to 1 once a model is bound", f.V.implies(op("&&", bound, neg(bad)), neg(throw_cond(f.I) or FALSE)), "throws when %s" % show(throw_cond(f.I) or TRUE)[:200])
            want = op("&&", bound, neg(bad))
        else:
            want = bound
        c = FALSE
        for m, x, a, w, st in h.got:
            c = op("||", c, pcond(st))
            f.ob(r, "value reaches the model under test", a[0] is v and init(s("surrogateModel")) in list(subterms(x)), "%s(%s)" % (show(x)[:60], show(a[0])[:60]))
        f.ob(r, "model under test receives the value", bool(h.got) and f.V.iff(c, want, []), "receives it when %s" % show(c)[:200])


def csv_only(f, c):
    ext = mk("str", ".csv")
    at = {x for x in subterms(c) if x.k == "op" and x.a[0] == "==" and ext in x.a[1:]}
    if at:
        # a name with another ending is refused
        return all(f.V.implies(neg(a), c) for a in at)
    return any(ext in list(subterms(x)) for x in [c])


def model_cond(c, o):
    """conditions on the names of files (checked before anything else) are left out"""
    def w(t):
        if t.k in ("op", "un", "call") and not any(x.k == "init" and "ifVariances" in show(x) or x.k == "init" and "ifReadWarmStart" in show(x) for x in subterms(t)):
            return TRUE
    if c.k == "op" and c.a[0] == "&&":
        a, b = model_cond(c.a[1], o), model_cond(c.a[2], o)
        return b if a is TRUE else a if b is TRUE else op("&&", a, b)
    return w(c) or c


def S08_settings(ctx):
    """setters and accessors of models and their data"""
    r = "model-setup"
    data = fld(SM, "data")

    def sets(cls, name, types, locs, also=(SMD,)):
        f = sfn(ctx, cls, name, types, also)
        for l, v, what in locs:
            t = f.load(l)
            v = v(f) if callable(v) else v
            ok = t is v or (v is ONE and t is TRUE) or (v is ZERO and t is FALSE) or (t.k == "snap" and t.a[0] in (v, mk("P", f.f.p[0]["n"]) if f.f.p else v))
            f.ob(r, "sets " + what, ok, "becomes %s" % show(t)[:200])
        return f
    a0 = lambda f: f.par(0)
    d = lambda n: F(data, SMD + "::" + n)
    s = lambda n: fld(SM, n)
    f = sets(SM, "setName", ["basic_string<char>"], [(s("name"), a0, "name")])
    t = f.load(s("filenameHyperparameters"))
    f.ob(r, "file of hyperparameters belongs to the name", f.par(0) in list(subterms(t)), "is %s" % show(t)[:100])
    sets(SM, "setDimension", ["unsignedint"], [(s("dimension"), a0, "dimension")])
    sets(SM, "setNumberOfThreads", ["unsignedint"], [(s("numberOfThreads"), a0, "number of threads")])
    sets(SM, "setGradientsOn", [], [(s("ifHasGradientData"), ONE, "gradients"), (d("ifDataHasGradients"), ONE, "gradients of the data")])
    sets(SM, "setGradientsOff", [], [(s("ifHasGradientData"), ZERO, "gradients"), (d("ifDataHasGradients"), ZERO, "gradients of the data")])
    sets(SM, "setWriteWarmStartFileFlag", ["bool"], [(s("ifWriteWarmStartFile"), a0, "flag")])
    sets(SM, "setReadWarmStartFileFlag", ["bool"], [(s("ifReadWarmStartFile"), a0, "flag")])
    sets(SM, "setRatioValidationSamples", ["double"], [(s("ifHasValidationSamples"), ONE, "validation samples"), (d("ratioValidationData"), a0, "ratio")])
    sets(SM, "setNameOfInputFileTest", ["basic_string<char>"], [(s("filenameDataInputTest"), a0, "test file"), (s("ifHasTestData"), ONE, "test data")])
    sets(SM, "setNameOfOutputFileTest", ["basic_string<char>"], [(s("filenameTestResults"), a0, "file of test results")])
    sets(KM, "setNumberOfTrainingIterations", ["unsignedint"], [(s("numberOfTrainingIterations"), a0, "training iterations")], (SM,))
    sets(KM, "setNameOfHyperParametersFile", ["basic_string<char>"], [(s("filenameHyperparameters"), a0, "file of hyperparameters")], (SM,))
    sets(KM, "setLinearRegressionOn", [], [(fld(KM, "ifUsesLinearRegression"), ONE, "linear regression")])
    sets(KM, "setLinearRegressionOff", [], [(fld(KM, "ifUsesLinearRegression"), ZERO, "linear regression")])
    sets(LM, "setNameOfInputFile", ["basic_string<char>"], [(s("filenameDataInput"), a0, "training file")], (SM,))
    sets(SMD, "setBoxConstraints", ["Bounds"], [(fld(SMD, "boxConstraints"), a0, "box constraints")])
    sets(SMD, "setOutputVector", ["vec"], [(fld(SMD, "y"), a0, "outputs")])
    sets(SMD, "setDimension", ["unsignedint"], [(fld(SMD, "dimension"), a0, "dimension")])
    sets(SMD, "setGradientsOn", [], [(fld(SMD, "ifDataHasGradients"), ONE, "gradients")])
    sets(SMD, "setGradientsOff", [], [(fld(SMD, "ifDataHasGradients"), ZERO, "gradients")])
    for on, v in (("setDirectionalDerivativesOn", ONE), ("setDirectionalDerivativesOff", ZERO)):
        sets(SMD, on, [], [(fld(SMD, "ifDataHasDirectionalDerivatives"), v, "directional derivatives")])
    f = sfn(ctx, SM, "readDataTest", [], (SMD,))
    raw = f.load(d("XrawTest"))
    f.ob(r, "test file of the model is read", raw.k == "mut" and raw.a[0] == MAT + "::readFromCSV" and raw.a[2] is init(s("filenameDataInputTest")), "is %s" % show(raw)[:200])
    f = sfn(ctx, SM, "normalizeDataTest", [], (SMD,))
    lb, ub = bounds_of(f, d("boxConstraints"))
    norm_mat(f, r, f.load(d("XTest")), lambda t: t is init(d("XTest")), lb, ub, "test inputs")
    f.ob(r, "test data is marked as normalised", yes_(f, f.load(s("ifNormalizedTestData"))), "")

    def gets(cls, name, types, want, also=(SMD,)):
        f = sfn(ctx, cls, name, types, also)
        w = want(f)
        f.ob(r, "returns the right value", f.rv is w or (f.rv.k == "snap" and w.k == "init" and f.rv.a[0] in (w, w.a[0])), "returns %s" % show(f.rv)[:200])
    smd = lambda n: (lambda f: init(fld(SMD, n)))
    md = lambda n: (lambda f: init(d(n)))
    for q, n in (("getNumberOfSamples", "numberOfSamples"), ("getNumberOfSamplesValidation", "numberOfValidationSamples"), ("getNumberOfSamplesTest", "numberOfTestSamples"), ("getDimension", "dimension"),
                 ("getRawData", "rawData"), ("getOutputVector", "y"), ("getOutputVectorValidation", "yValidation"), ("getInputMatrix", "X"), ("getInputMatrixTest", "XTest"),
                 ("getInputMatrixValidation", "XValidation"), ("getGradientMatrix", "gradient"), ("getDirectionalDerivativesVector", "directionalDerivatives"), ("getBoxConstraints", "boxConstraints"),
                 ("isDataRead", "ifDataIsRead"), ("isDataNormalized", "ifDataIsNormalized")):
        gets(SMD, q, [], smd(n))
    for q, n in (("getRowX", "X"), ("getRowXRaw", "Xraw"), ("getRowXTest", "XTest"), ("getRowXRawTest", "XrawTest"), ("getRowGradient", "gradient"), ("getRowGradientRaw", "gradientRaw"),
                 ("getRowDifferentiationDirection", "differentiationDirections"), ("getRowRawData", "rawData")):
        gets(SMD, q, ["unsignedint"], lambda f: call(MAT + "::getRow", init(fld(SMD, n)), f.par(0)))
    gets(SMD, "getMinimumOutputVector", [], lambda f: call(VEC + "::findMin", init(fld(SMD, "y"))))
    gets(SMD, "getMaximumOutputVector", [], lambda f: call(VEC + "::findMax", init(fld(SMD, "y"))))
    for q, n in (("getX", "X"), ("gety", "y"), ("getRawData", "rawData")):
        gets(SM, q, [], md(n))
    for q, n in (("getName", "name"), ("getNameOfHyperParametersFile", "filenameHyperparameters"), ("getNameOfInputFile", "filenameDataInput"), ("getDimension", "dimension"),
                 ("getNumberOfSamples", "numberOfSamples"), ("areGradientsOn", "ifHasGradientData")):
        gets(SM, q, [], lambda f: init(s(n)))
    for q, n in (("getRowX", "X"), ("getRowXRaw", "Xraw")):
        gets(SM, q, ["unsignedint"], lambda f: call(MAT + "::getRow", init(d(n)), f.par(0)))
    cf = fld(KM, "correlationFunction")
    f = sets(KM, "setEpsilon", ["double"], [(F(cf, CFB + "::epsilon"), a0, "epsilon")], KALSO)
    rejects(f, r, op("<", f.par(0), ZERO), "a negative epsilon")
    sets(KM, "setRegressionWeights", ["vec"], [(F(fld(KM, "linearModel"), LM + "::weights"), a0, "weights")], (LM,))
    f = sfn(ctx, KM, "getRegressionWeights", [], (LM,))
    f.ob(r, "returns the weights", f.rv is init(F(fld(KM, "linearModel"), LM + "::weights")), "returns %s" % show(f.rv)[:100])
