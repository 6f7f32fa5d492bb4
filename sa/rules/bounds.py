"""Box constraints."""
from .design import *
from .files import grows, ent, eq_

BO = "Rodop::Bounds"


def bfn(ctx, name, types=(), **kw):
    f = Fn(ctx, BO + "::" + name, list(types), inl=inline_classes(BO, VEC, stop=("fillRandom", "log", "getInstance") + tuple(kw.pop("stop", ()))), **kw)
    f.o = Obj(f, BO)
    return f


def crossed(d, lb, ub):
    return exists(d, lambda i: op("<=", at(ub, i), at(lb, i)))


def iff_(f, t, want, facts):
    """the boolean t equals want"""
    H = Hyp()
    for a, b in facts:
        H.add(a, "==", b)
    try:
        return t is want or Val(H).iff(t, want, [op("==", a, b) for a, b in facts])
    except Big:
        return False


def B01_bounds(ctx):
    """bounds are stored as given and every lower bound is below its upper bound"""
    r = "bounds"
    for name, ty in (("setBounds", "vector<double>"), ("Bounds", "vector<double>"), ("setBounds", "vec"), ("Bounds", "vec")):
        f = bfn(ctx, name, [ty, ty])
        lb, ub = f.par(0), f.par(1)
        n = size(lb)
        f.eq(r, "dimension", f.o.new("dimension"), n)
        for v, x in (("lowerBounds", lb), ("upperBounds", ub)):
            z = f.o.new(v)
            f.eq(r, "number of %s" % v, size(z), n)
            f.elems(r, v, z, at(x, K), K, [(ZERO, "<=", K), (K, "<", n)], [op("==", size(lb), size(ub))])
        f.ob(r, "bounds are set", yes_(f, f.o.new("ifBoundsAreSet")), "are not")
        end = TRUE
        for c, p in f.st.path:
            end = op("&&", end, c if p else neg(c))
        e = [(size(lb), size(ub))]
        f.ob(r, "bounds of different sizes are rejected", need(f, end, op("==", size(lb), size(ub))), "accepts when %s" % show(end)[:300])
        f.ob(r, "missing bounds are rejected", need(f, end, neg(op("==", size(lb), ZERO))), "accepts when %s" % show(end)[:300])
        good = op("&&", neg(op("==", size(lb), ZERO)), neg(crossed(n, lb, ub)))
        V = Val(eqs(e))
        f.ob(r, "accepts exactly bounds that are not crossed", accepts(f, lb, ub, n), "accepts when %s" % show(end)[:300])
    f = bfn(ctx, "setBounds", ["double", "double"])
    d = f.o.old("dimension")
    for v, i in (("lowerBounds", 0), ("upperBounds", 1)):
        f.vec(r, f.o.new(v), d, lambda k: f.par(i), what=v)
    rejects(f, r, op("==", d, ZERO), "a missing dimension")
    rejects(f, r, op("<=", f.par(1), f.par(0)), "an upper bound that does not exceed the lower one")
    f.ob(r, "bounds are set", yes_(f, f.o.new("ifBoundsAreSet")), "are not")
    f.eq(r, "dimension", f.o.new("dimension"), d)
    # questions
    for n in ("checkBounds", "checkIfBoundsAreValid"):
        f = bfn(ctx, n)
        d, lb, ub = f.o.old("dimension"), f.o.old("lowerBounds"), f.o.old("upperBounds")
        e = [(size(lb), d), (size(ub), d)]
        f.ob(r, "valid exactly when no bounds are crossed", iff_(f, f.rv, neg(crossed(d, lb, ub)), e), "returns %s" % show(f.rv)[:300])
        rejects(f, r, op("==", d, ZERO), "a missing dimension")
    f = bfn(ctx, "isPointWithinBounds", ["vec&"])
    d, lb, ub, x = f.o.old("dimension"), f.o.old("lowerBounds"), f.o.old("upperBounds"), f.par(0)
    e = [(size(lb), d), (size(ub), d), (size(x), d)]
    outside = exists(d, lambda i: op("||", op("<", at(x, i), at(lb, i)), op("<", at(ub, i), at(x, i))))
    f.ob(r, "inside exactly when every parameter lies between its bounds", iff_(f, f.rv, neg(outside), e), "returns %s" % show(f.rv)[:300])
    rejects(f, r, neg(op("==", size(x), d)), "a point of another dimension")
    # random points
    for n in ("generateVectorWithinBounds", "generateStdVectorWithinBounds"):
        f = bfn(ctx, n)
        d, lb, ub = f.o.old("dimension"), f.o.old("lowerBounds"), f.o.old("upperBounds")
        rnd = [t for t in subterms(f.rv) if is_random(t, lb, ub)]
        if n.startswith("generateVec"):
            ok = is_random(f.rv, lb, ub) and of_size(f, f.rv, d)
        else:
            ok = bool(rnd) and of_size(f, rnd[0], d)
            if rnd:
                g = grows(f.I, f.rv)
                if g is not None:
                    rng = g[0].get("range")
                    ok = ok and rng is not None and rng[1] is ZERO and eq_(f, rng[2], d) and ent(f, rng, g[1], lambda k: at(rnd[0], k))
                else:
                    H = [(ZERO, "<=", K), (K, "<", d), (size(rnd[0]), "==", d)]
                    f.elems(r, "random point: elements", f.rv, at(rnd[0], K), K, H)
                    f.eq(r, "random point: dimension", size(f.rv), d)
        f.ob(r, "random point is drawn between the bounds", ok, "returns %s" % show(f.rv)[:300])
        rejects(f, r, neg(f.o.old("ifBoundsAreSet")), "missing bounds")
    # the rest
    f = bfn(ctx, "reset")
    f.ob(r, "reset", f.o.new("dimension") is ZERO and f.o.new("ifBoundsAreSet") in (ZERO, FALSE) and all(f.V.eq(size(f.o.new(v)), ZERO) for v in ("lowerBounds", "upperBounds")), "dimension %s" % show(f.o.new("dimension")))
    for n, v in (("getLowerBounds", "lowerBounds"), ("getUpperBounds", "upperBounds"), ("getDimension", "dimension"), ("areBoundsSet", "ifBoundsAreSet")):
        f = bfn(ctx, n)
        f.ob(r, "returns the value", f.rv is f.o.old(v), "returns %s" % show(f.rv)[:100])
    f = bfn(ctx, "setDimension", ["unsignedint"])
    f.ob(r, "stores the dimension", f.o.new("dimension") is f.par(0), "stores %s" % show(f.o.new("dimension")))


def eqs(e):
    H = Hyp()
    for a, b in e:
        H.add(a, "==", b)
    return H


def need(f, end, cond):
    try:
        return Val(Hyp()).implies(end, cond)
    except Big:
        return False


def accepts(f, lb, ub, n):
    """throws exactly when the dimension is zero, the sizes differ or bounds are crossed"""
    bad = crossed(n, lb, ub)
    got = []
    for c, p in f.st.path:
        x = c if p else neg(c)
        got.append(x)
    V = Val(eqs([(size(lb), size(ub))]))
    rest = TRUE
    for x in got:
        rest = op("&&", rest, x)
    try:
        return V.iff(rest, op("&&", neg(op("==", n, ZERO)), neg(bad)), [op("==", size(lb), size(ub))])
    except Big:
        return False


def is_random(t, lb, ub):
    return t.k == "mut" and t.a[0].endswith("::fillRandom") and len(t.a) == 4 and t.a[2] is lb and t.a[3] is ub


def of_size(f, t, d):
    while t.k == "mut":
        t = t.a[1]
    return t.k == "obj" and f.V.eq(size(t), d) or f.V.eq(size(t), d)
