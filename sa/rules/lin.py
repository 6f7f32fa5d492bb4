"""Linear algebra kernel: values of the vector and matrix operations."""
from .common import *
from rodsa.absint import agg, dimq, subst, UNSIGNED, MATVALS, path_cond, VOID
from .content import Hyp, content, norm
from .value import Val, Big

VEC = "Rodop::vec"
MAT = "Rodop::mat"
K = mk("bv", "k")
UNSIGNED.add(K)


def P(n):
    return init(mk("P", n))


def R(n):
    """value of a reference parameter"""
    return init(mk("D", mk("p", n)))


ME = init(THIS)


def call(q, *a):
    return mk("call", q, *a)


def at(v, *k):
    v = v if not isinstance(v, str) else R(v)
    k = k[0] if len(k) == 1 else mk("tup", *k)
    return mk("elem", v, k)


def size(v):
    return dimq("size", v)


def pick_fn(ctx, q, types):
    """the overload with the given parameter types"""
    al = ctx.prog.byq.get(q, [])
    c = [f for f in al if [short(p["t"]) for p in f.p] == list(types)]
    if len(c) != 1:  # by value or by reference is not part of the contract
        c = [f for f in al if [short(p["t"]).rstrip("&") for p in f.p] == [t.rstrip("&") for t in types]]
    if len(c) != 1:
        c = [f for f in al if len(f.p) == len(types)]
    if len(c) != 1:
        raise absint.AnalysisError("anchor %s(%s): %d definitions" % (q, ",".join(types), len(c)))
    return c[0]


def short(t):
    return t.replace("const ", "").replace("Rodop::", "").replace(" ", "").replace("std::", "")


def par(f, i):
    """initial value of the i-th parameter"""
    p = f.p[i]
    return init(mk("D", mk("p", p["n"]))) if p["t"].endswith("&") else init(mk("P", p["n"]))


def ptr(f, i):
    """element of a pointer parameter"""
    p = f.p[i]
    return lambda k: init(E(mk("D", init(mk("P", p["n"]))), k))


def throw_cond(I, extra=None):
    """condition under which the analysed function throws (None: not decided)"""
    c = FALSE
    for s, typ, node, fr in I.throws[0]:
        p = path_cond(s.path)
        if p is not None and extra and any(x.k == extra for x in subterms(p)):
            continue
        if p is None:
            p = loop_cond(I, s.path)
        if p is None:
            return None
        c = op("||", c, p)
    return c


def loop_cond(I, path):
    """condition of a path into a loop over a range: it is taken when it is taken for some position"""
    k = max((i for i, x in enumerate(path) if x[0].k == "in"), default=None)
    if k is None:
        return path_cond(path)
    lid = path[k][0].a[0]
    info = I.loops.get(lid)
    if not info or "range" not in info or any(x[0].k in ("exc", "dispatch") or x[1] not in (True, False) for x in path[k + 1:]):
        return None
    i, lo, hi = info["range"]
    c = TRUE
    for x, pol in path[k + 1:]:
        x = subst(x, info.get("step", {}))
        if pol and x.k == "op" and x.a[0] == "<" and x.a[1] is i and x.a[2] is hi:
            continue
        c = op("&&", c, x if pol else neg(x))
    if any(y.k == "lv" and y is not i and y.a[0] is lid for y in subterms(c)):
        return None
    TMP[0] += 1
    b = mk("bv", ("tmp", TMP[0]))
    return loop_cond(I, tuple(path[:k]) + ((absint.quant("exists", lo, hi, subst(c, {i: b}), b), True),))


class Fn:
    """summary of one function"""

    def __init__(self, ctx, q, types, inline=True, cls=None, stop=(), also=(), inl=None, f=None, setup=None, hooks=None):
        self.ctx = ctx
        self.f = f or (pick_fn(ctx, q, types) if types is not None else ctx.prog.fn(q))
        cls = cls or self.f.cls
        if cls == MAT:
            also = tuple(also) + (VEC + "::getPointer",)
        pol = inl or (inline_classes(cls, also=also, stop=tuple(stop) + ("operator()",)) if inline else None)
        self.I, self.st, self.rv = run(ctx, self.f, hooks, pol, cls, setup, vals=True)
        self.w = self.f.where()
        self.H = Hyp().from_state(self.st)
        self.V = Val(self.H)
        self.nm = q.split("::", 1)[-1] + "(" + ",".join(types or ()) + ")"

    def par(self, i):
        return par(self.f, i)

    def load(self, loc):
        return self.I.load(self.st, loc)

    def ob(self, rule, key, ok, msg=""):
        return self.ctx.ob(rule, "%s: %s" % (self.nm, key), self.w, ok, msg)

    def eq(self, rule, key, got, want, assume=()):
        try:
            ok = self.V.eq(got, want, assume)
        except Big:
            ok = False
        return self.ob(rule, key, ok, "computes %s instead of %s" % (self.sh(got), self.sh(want)))

    def sh(self, t):
        try:
            from .value import pt
            return showp(self.V.p(t))[:400]
        except Big:
            return show(t)[:400]

    def elems(self, rule, key, got, want, idx=K, facts=(), assume=()):
        """element idx of the container value got equals want"""
        H = self.H.copy()
        for a in facts:
            H.add(*a)
        old, self.V = self.V, Val(H)
        try:
            g = content(got, idx, H)
            ok = self.V.eq(g, want, list(assume) + [op(o, a, b) for a, o, b in facts])
            m = "element is %s instead of %s" % (self.sh(g), self.sh(want))
        except Big:
            ok, m = False, "element is not decidable"
        self.V = old
        return self.ob(rule, key, ok, m)

    def vec(self, rule, got, n, elem, assume=(), what="result", facts=()):
        """got is a vector of n elements with the values elem(k)"""
        self.eq(rule, what + " has the right size", size(got), n, assume)
        self.elems(rule, what + " has the right elements", got, elem(K), K, [(INT(0), "<=", K), (K, "<", n)] + list(facts), assume)

    def throws(self, rule, cond, what, extra=None):
        """throws exactly when cond holds (apart from conditions about the named kind of term)"""
        c = throw_cond(self.I, extra)
        if c is None:
            return self.ob(rule, "rejects " + what, False, "the conditions for throwing are not decidable")
        try:
            ok = Val(Hyp()).iff(c, cond)      # not under what is known after a normal return
        except Big:
            ok = False
        return self.ob(rule, "rejects " + what, ok, "throws when %s" % show(c)[:200])


def showp(p):
    if not p.m:
        return "0"
    out = []
    for k, v in p.m.items():
        s = "*".join((showa(a) if e == 1 else "%s^%d" % (showa(a), e)) for a, e in k)
        out.append((("%s*" % v if v != 1 else "") + s) if s else str(v))
    return " + ".join(out)


def showa(a):
    if a.k == "poly":
        from .value import unpoly
        return "(" + showp(unpoly(a)) + ")"
    if a.k == "ind":
        if a.a[0] in ("gt", "eq"):
            return "[%s %s %s]" % (showa(a.a[1])[1:-1], ">" if a.a[0] == "gt" else "=", a.a[2])
        return "[%s]" % ", ".join(showa(x) for x in a.a[1:] if isinstance(x, T))
    if a.k == "qagg":
        return "%s<%s{%s}" % (a.a[0], showa(a.a[1]), showa(a.a[2]))
    if a.k == "qexists":
        return "exists<%s{%s}" % (showa(a.a[1]), showa(a.a[2]))
    if a.k == "fun":
        return "%s(%s)" % (a.a[0], ",".join(showa(x) for x in a.a[1:]))
    return show(a)[:80]


def sums(n, f):
    return agg("sum", INT(0), n, f)


TMP = [0]


def exists(n, f):
    TMP[0] += 1
    b = mk("bv", ("tmp", TMP[0]))
    return absint.quant("exists", INT(0), n, f(b), b)


FABS_ = lambda x: call("fabs", x)
sq = lambda x: op("*", x, x)
mul, add, sub, div = (lambda o: lambda a, b: op(o, a, b))("*"), (lambda a, b: op("+", a, b)), (lambda a, b: op("-", a, b)), (lambda a, b: op("/", a, b))
N = dimq("size", ME)


def L01_vector_arithmetic(ctx):
    r = "vec"
    me = lambda k: at(ME, k)
    for o, n in ((add, "operator+"), (sub, "operator-")):
        f = Fn(ctx, VEC + "::" + n, ["vec&"])
        y = f.par(0)
        f.vec(r, f.rv, N, lambda k: o(me(k), at(y, k)))
        f.throws(r, neg(op("==", N, size(y))), "vectors of different size")
        f = Fn(ctx, VEC + "::" + n, ["double"])
        f.vec(r, f.rv, N, lambda k: o(me(k), f.par(0)))
    f = Fn(ctx, VEC + "::operator*", ["double"])
    f.vec(r, f.rv, N, lambda k: mul(me(k), f.par(0)))
    f = Fn(ctx, VEC + "::sum", [])
    f.eq(r, "value", f.rv, sums(N, me))
    f = Fn(ctx, VEC + "::mean", [])
    f.eq(r, "value", f.rv, div(sums(N, me), N), [op("<", INT(0), N)])
    f = Fn(ctx, VEC + "::standardDeviation", [])
    m = div(sums(N, me), N)
    f.eq(r, "value", f.rv, call("sqrt", div(sums(N, lambda k: sq(sub(me(k), m))), N)), [op("<", INT(0), N)])
    for n, ty in (("dot", ["vec&"]), ("dotNoLib", ["vec&"])):
        f = Fn(ctx, VEC + "::" + n, ty)
        y = f.par(0)
        f.eq(r, "value", f.rv, sums(N, lambda k: mul(me(k), at(y, k))), [op("==", N, size(y))])
        f.throws(r, neg(op("==", N, size(y))), "vectors of different size")
    f = Fn(ctx, VEC + "::dotProduct", ["vec&", "vec&"])
    x, y = f.par(0), f.par(1)
    f.eq(r, "value", f.rv, sums(size(x), lambda k: mul(at(x, k), at(y, k))), [op("==", size(x), size(y))])
    f.throws(r, neg(op("==", size(x), size(y))), "vectors of different size")
    f = Fn(ctx, VEC + "::scaleAndAdd", ["vec&", "double", "double"])
    x = f.par(0)
    f.vec(r, f.rv, size(x), lambda k: add(mul(f.par(1), at(x, k)), f.par(2)))
    for n in ("scaleAndAdd", "scaleAndAddNoLib"):
        f = Fn(ctx, VEC + "::" + n, ["vec&", "double", "vec&"])
        x, a, y = f.par(0), f.par(1), f.par(2)
        same = [(size(x), "==", size(y))]
        f.vec(r, f.rv, size(x), lambda k: add(mul(a, at(x, k)), at(y, k)), assume=[op("==", size(x), size(y))], facts=same)
        f.throws(r, neg(op("==", size(x), size(y))), "vectors of different size")
    f = Fn(ctx, VEC + "::norm", ["NormType"])
    ty = f.par(0)
    is_ = lambda n: op("==", ty, mk("enum", "Rodop::" + n))
    f.eq(r, "Euclidean norm", f.rv, call("sqrt", sums(N, lambda k: sq(me(k)))), [is_("L2")])
    f.eq(r, "sum norm", f.rv, sums(N, lambda k: FABS_(me(k))), [is_("L1")])
    g = Fn(ctx, VEC + "::unitVector", ["NormType"], stop=("norm",))
    nn = call(VEC + "::norm", ME, g.par(0))
    g.vec(r, g.rv, N, lambda k: div(me(k), nn))


def L01_vector_extrema(ctx):
    r = "vec"
    for n, w in (("findMin", "min"), ("findMax", "max")):
        f = Fn(ctx, VEC + "::" + n, [])
        ix = call(w + "index", ME, INT(0), N)
        f.ob(r, "value", f.rv is norm(at(ME, ix), f.H) or f.rv is at(ME, ix) or is_extreme(f, f.rv, w), "returns %s" % show(f.rv)[:200])
        f.throws(r, op("==", N, INT(0)), "an empty vector")
        f = Fn(ctx, VEC + "::" + n + "Index", [])
        f.ob(r, "value", f.rv is ix or is_extreme_index(f, f.rv, w), "returns %s" % show(f.rv)[:200])
        f.throws(r, op("==", N, INT(0)), "an empty vector")


def is_extreme(f, v, w):
    return v is init(E(THIS, call(w + "index", ME, INT(0), N))) or v.k == "agg" and v.a[0] == w and v.a[3] is init(E(THIS, mk("bv", 1)))


def restrict(t, c, v):
    """the tree t where the condition c has the truth value v"""
    if t.k != "ite":
        return t
    if t.a[0] is c or t.a[0] is neg(c):
        return restrict(t.a[1] if (t.a[0] is c) == v else t.a[2], c, v)
    return ite(t.a[0], restrict(t.a[1], c, v), restrict(t.a[2], c, v))


def is_extreme_index(f, v, w):
    return False


def L01_tests(ctx):
    r = "vec"
    me = lambda k: at(ME, k)
    f = Fn(ctx, VEC + "::is_between", ["vec&", "vec&"])
    lb, ub = f.par(0), f.par(1)
    f.iff = f.V.iff
    H = f.H
    e = neg(exists(N, lambda k: op("||", op("<", me(k), at(lb, k)), op("<", at(ub, k), me(k)))))
    f.eq(r, "value", f.rv, e)
    f = Fn(ctx, VEC + "::has_nan", [])
    f.eq(r, "value", f.rv, exists(N, lambda k: call("isnan", me(k))))
    f = Fn(ctx, VEC + "::is_equal", ["vec&", "double"])
    y, tol = f.par(0), f.par(1)
    f.eq(r, "value", f.rv, op("&&", op("==", N, size(y)), neg(exists(N, lambda k: op("<", tol, FABS_(sub(me(k), at(y, k))))))))


NR, NC = dimq("nrows", ME), dimq("ncols", ME)
I_, J_ = mk("bv", "i"), mk("bv", "j")
UNSIGNED.update((I_, J_, NR, NC))


def L01_order(ctx):
    r = "vec-arithmetic"
    me = lambda k: at(ME, k)
    for o in "<>":
        f = Fn(ctx, VEC + "::operator" + o, ["vec&"])
        y = f.par(0)
        bad = (lambda k: op("<=", at(y, k), me(k))) if o == "<" else (lambda k: op("<=", me(k), at(y, k)))
        f.ob(r, "true when every element compares", f.V.iff(f.rv, neg(exists(N, bad))), "computes %s" % show(f.rv)[:300])
    less = op("-", N, INT(1))
    pair = lambda k: (me(k), me(add(k, INT(1))))
    unsorted = lambda up: exists(less, (lambda k: op("<", pair(k)[1], pair(k)[0])) if up else (lambda k: op("<", pair(k)[0], pair(k)[1])))
    f = Fn(ctx, VEC + "::is_sorted", ["bool"])
    f.ob(r, "true when no neighbours are out of order", f.V.iff(f.rv, op("||", op("<=", N, INT(1)), neg(ite(f.par(0), unsorted(True), unsorted(False))))),
         "computes %s" % show(f.rv)[:300])
    f = Fn(ctx, VEC + "::findInterval", ["double"])
    v = f.par(0)
    inside = lambda k: op("&&", op("<=", pair(k)[0], v), op("<", v, pair(k)[1]))
    f.throws(r, op("&&", op("<", INT(1), N), unsorted(True)), "a vector that is not sorted")
    b = mk("bv", ("tmp", 0))
    last = at(ME, less)
    some = [op("<", INT(0), N)]
    f.eq(r, "the first interval that contains the value", f.rv, absint.quant("first", INT(0), less, inside(b), b), some + [exists(less, inside), op("<", v, last)])   # the vector is sorted
    f.eq(r, "the last element for its own and larger values", f.rv, less, some + [neg(exists(less, inside)), op("<=", last, v)])
    f.eq(r, "none otherwise", f.rv, INT(-1), some + [neg(exists(less, inside)), op("<", v, last)])
    f.eq(r, "none for an empty vector", f.rv, INT(-1), [op("==", N, INT(0))])
    for up in (True, False):
        f = Fn(ctx, VEC + "::sort", ["bool"])
        x = f.load(THIS)
        want = mk("mut", "std::sort", ME, INT(0), N, *(() if up else (mk("obj", "std::greater"),)))
        got = pick(x, [(op("<=", N, INT(1)), False), (f.par(0), up)])
        f.ob(r, "sorts all elements %s" % ("ascending" if up else "descending"), got is want, "leaves %s" % show(got)[:300])
    f = Fn(ctx, VEC + "::quantile", ["double"])
    p = f.par(0)
    f.throws(r, op("||", op("||", op("<", p, INT(0)), op("<", INT(1), p)), op("==", N, INT(0))), "probabilities outside [0,1] and empty vectors")
    srt = next((x for x in subterms(f.rv) if x.k == "mut" and x.a[0] == "std::sort"), None)
    if srt is None or not (srt.a[2] is INT(0) and srt.a[3] is N and len(srt.a) == 4):
        f.ob(r, "the sorted copy of all elements is used", False, "computes %s" % show(f.rv)[:300])
    else:
        f.vec(r, srt.a[1], N, me, what="sorted copy")
        x = mul(p, less)
        lo, hi = call("floor", x), call("ceil", x)
        lo, hi = mk("un", "int", lo), mk("un", "int", hi)
        w = sub(x, lo)
        same = op("==", lo, hi)
        f.eq(r, "an order statistic at its own probability", subst(restrict(f.rv, same, True), {hi: lo}), at(srt, lo))
        f.eq(r, "interpolates between the neighbouring order statistics", restrict(f.rv, same, False), add(mul(at(srt, lo), sub(INT(1), w)), mul(at(srt, hi), w)))


def pick(t, conds):
    """the branch of a value under the truth of conditions"""
    while t.k == "ite":
        for c, b in conds:
            if t.a[0] is c:
                t = t.a[1] if b else t.a[2]
                break
            if t.a[0] is neg(c):
                t = t.a[2] if b else t.a[1]
                break
        else:
            return t
    return t


def mat_eq(f, r, got, n, m, elem, what="result", assume=(), facts=()):
    """got is an n x m matrix with the values elem(i, j)"""
    f.eq(r, what + " has the right number of rows", dimq("nrows", got), n, assume)
    f.eq(r, what + " has the right number of columns", dimq("ncols", got), m, assume)
    f.elems(r, what + " has the right elements", got, elem(I_, J_), mk("tup", I_, J_),
            [(INT(0), "<=", I_), (I_, "<", n), (INT(0), "<=", J_), (J_, "<", m)] + list(facts), assume)


def el(m, i, j):
    return mk("elem", m, mk("tup", i, j))


def L03_matrix(ctx):
    r = "mat"
    me = lambda i, j: el(ME, i, j)
    for o, n in ((add, "operator+"), (sub, "operator-")):
        f = Fn(ctx, MAT + "::" + n, ["mat&"])
        y = f.par(0)
        mat_eq(f, r, f.rv, NR, NC, lambda i, j: o(me(i, j), el(y, i, j)))
        f.throws(r, neg(op("&&", op("==", NR, dimq("nrows", y)), op("==", NC, dimq("ncols", y)))), "matrices of different size")
    f = Fn(ctx, MAT + "::operator*", ["double"])
    mat_eq(f, r, f.rv, NR, NC, lambda i, j: mul(me(i, j), f.par(0)))
    for n in ("transpose", "transposeNaive"):
        f = Fn(ctx, MAT + "::" + n, [])
        mat_eq(f, r, f.rv, NC, NR, lambda i, j: me(j, i))
    f = Fn(ctx, MAT + "::submat", ["unsignedint"] * 4)
    a, b, c, d = [f.par(i) for i in range(4)]
    mat_eq(f, r, f.rv, add(sub(b, a), INT(1)), add(sub(d, c), INT(1)), lambda i, j: me(add(a, i), add(c, j)))
    f = Fn(ctx, MAT + "::diag", [])
    f.vec(r, f.rv, NR, lambda k: me(k, k))
    f.throws(r, op("||", neg(op("==", NR, NC)), op("==", NR, INT(0))), "a matrix that is not square")
    f = Fn(ctx, MAT + "::addEpsilonToDiagonal", ["double"])
    f.elems(r, "diagonal", f.load(THIS), add(me(I_, I_), f.par(0)), mk("tup", I_, I_), [(INT(0), "<=", I_), (I_, "<", NR), (I_, "<", NC)])
    f.elems(r, "off diagonal", f.load(THIS), me(I_, J_), mk("tup", I_, J_), [(INT(0), "<=", I_), (I_, "<", J_), (J_, "<", NC), (I_, "<", NR)])
    f.elems(r, "off diagonal (lower)", f.load(THIS), me(I_, J_), mk("tup", I_, J_), [(INT(0), "<=", J_), (J_, "<", I_), (I_, "<", NR)])
    f = Fn(ctx, MAT + "::fill", ["double"])
    mat_eq(f, r, f.load(THIS), NR, NC, lambda i, j: f.par(0), "matrix")
    f = Fn(ctx, MAT + "::eye", [])
    t = f.load(THIS)
    square = [op("==", NR, NC)]
    f.eq(r, "rows of the identity", dimq("nrows", t), NR)
    f.eq(r, "columns of the identity", dimq("ncols", t), NC)
    for what, a, b, c, v in (("diagonal", I_, I_, [], INT(1)), ("above the diagonal", I_, J_, [(I_, "<", J_), (J_, "<", NC)], INT(0)), ("below the diagonal", J_, I_, [(I_, "<", J_), (J_, "<", NC)], INT(0))):
        f.elems(r, what, t, v, mk("tup", a, b), [(INT(0), "<=", I_), (I_, "<", NR), (I_, "<", NC), (NR, "==", NC)] + c)
    f.throws(r, neg(op("==", NR, NC)), "a matrix that is not square")


def L03_rows_columns(ctx):
    r = "mat"
    me = lambda i, j: el(ME, i, j)
    M1 = INT(-1)
    for n, dim, other, acc in (("getRow", NR, NC, lambda x, k: me(x, k)), ("getCol", NC, NR, lambda x, k: me(k, x))):
        f = Fn(ctx, MAT + "::" + n, ["int"])
        x = f.par(0)
        f.vec(r, f.rv, other, lambda k: acc(x, k), assume=[op("<=", INT(0), x)], what="row or column")
        f.vec(r, f.rv, other, lambda k: acc(add(dim, M1), k), assume=[op("==", x, M1)], what="last row or column")
    for n, dim, other in (("setRow", NR, NC), ("setCol", NC, NR)):
        f = Fn(ctx, MAT + "::" + n, ["vec&", "unsignedint"])
        y, x = f.par(0), f.par(1)
        t = f.load(THIS)
        row = n == "setRow"
        ix = mk("tup", x, J_) if row else mk("tup", I_, x)
        f.elems(r, "new values", t, at(y, J_ if row else I_), ix, [(INT(0), "<=", I_), (I_, "<", NR), (INT(0), "<=", J_), (J_, "<", NC)])
        z = I_ if row else J_
        for nm, fact in (("before", (z, "<", x)), ("after", (x, "<", z))):
            f.elems(r, "values %s are kept" % nm, t, me(I_, J_), mk("tup", I_, J_), [(INT(0), "<=", I_), (I_, "<", NR), (INT(0), "<=", J_), (J_, "<", NC), fact])
        f.eq(r, "rows", dimq("nrows", t), NR)
        f.eq(r, "columns", dimq("ncols", t), NC)


def L04_products(ctx):
    r = "mat"
    me = lambda i, j: el(ME, i, j)
    for n in ("matVecProduct", "matVecProductNaive"):
        f = Fn(ctx, MAT + "::" + n, ["vec&"], also=(VEC + "::getPointer",))
        y = f.par(0)
        same = [(NC, "==", size(y))]
        f.vec(r, f.rv, NR, lambda k: sums(NC, lambda j: mul(me(k, j), at(y, j))), facts=same)
    for n in ("matMatProduct", "matMatProductNaive", "operator*"):
        f = Fn(ctx, MAT + "::" + n, ["mat&"])
        y = f.par(0)
        mat_eq(f, r, f.rv, NR, dimq("ncols", y), lambda i, j: sums(NC, lambda k: mul(me(i, k), el(y, k, j))), facts=[(NC, "==", dimq("nrows", y))])
        


def L02_vector_memory(ctx):
    r = "vec"
    me = lambda k: at(ME, k)
    Z, ONE_ = INT(0), INT(1)
    f = Fn(ctx, VEC + "::vec", [])
    f.eq(r, "empty", size(f.load(THIS)), Z)
    f = Fn(ctx, VEC + "::vec", ["unsignedint"])
    f.vec(r, f.load(THIS), f.par(0), lambda k: Z)
    f = Fn(ctx, VEC + "::vec", ["unsignedint", "double"])
    f.vec(r, f.load(THIS), f.par(0), lambda k: f.par(1))
    for n in ("vec", "operator="):
        f = Fn(ctx, VEC + "::" + n, ["vec&"])
        y = f.par(0)
        f.vec(r, f.load(THIS), size(y), lambda k: at(y, k), what="copy", assume=[neg(op("==", mk("this"), mk("p", f.f.p[0]["n"])))])
    f = Fn(ctx, VEC + "::resize", ["unsignedint", "double"])
    n, d = f.par(0), f.par(1)
    f.vec(r, f.load(THIS), n, lambda k: ite(op("<", k, N), me(k), d))
    f = Fn(ctx, VEC + "::reset", [])
    f.eq(r, "empty", size(f.load(THIS)), Z)
    f = Fn(ctx, VEC + "::push_back", ["double"])
    f.vec(r, f.load(THIS), add(N, ONE_), lambda k: ite(op("<", k, N), me(k), f.par(0)))
    f = Fn(ctx, VEC + "::appendVector", ["vec&", "int"])
    y, p = f.par(0), f.par(1)
    m = size(y)
    app = lambda p: lambda k: ite(op("<", k, p), me(k), ite(op("<", k, add(p, m)), at(y, sub(k, p)), me(sub(k, m))))
    f.vec(r, f.load(THIS), add(N, m), app(p), assume=[op("<=", Z, p), op("<=", p, N)], facts=[(Z, "<=", p), (p, "<=", N)], what="insertion")
    f.vec(r, f.load(THIS), add(N, m), app(N), assume=[op("==", p, INT(-1))], facts=[(p, "==", INT(-1))], what="insertion at the end")
    f = Fn(ctx, VEC + "::copyVector", ["vec&", "int"])
    y, p = f.par(0), f.par(1)
    m = size(y)
    f.vec(r, f.load(THIS), N, lambda k: ite(op("&&", op("<=", p, k), op("<", k, add(p, m))), at(y, sub(k, p)), me(k)),
          assume=[op("<=", Z, p)], facts=[(Z, "<=", p)])
    f = Fn(ctx, VEC + "::head", ["unsignedint"])
    f.vec(r, f.rv, f.par(0), me)
    f.throws(r, op("<", N, f.par(0)), "more elements than there are")
    f = Fn(ctx, VEC + "::tail", ["unsignedint"])
    n = f.par(0)
    f.vec(r, f.rv, n, lambda k: me(add(sub(N, n), k)))
    f.throws(r, op("<", N, n), "more elements than there are")
    f = Fn(ctx, VEC + "::swap", ["vec&"])
    y = f.par(0)
    f.vec(r, f.load(THIS), size(y), lambda k: at(y, k), what="left")
    f.vec(r, f.load(mk("D", mk("p", f.f.p[0]["n"]))), N, me, what="right")
    f = Fn(ctx, VEC + "::fill", ["double"])
    f.vec(r, f.load(THIS), N, lambda k: f.par(0))
    f = Fn(ctx, VEC + "::fillWithIntegersAscendingOrder", [])
    f.vec(r, f.load(THIS), N, lambda k: add(k, ONE_))
    f = Fn(ctx, VEC + "::toStdVector", [])
    f.vec(r, f.rv, N, me)
    f = Fn(ctx, VEC + "::fromStdVector", ["vector<double>&"])
    y = f.par(0)
    f.vec(r, f.load(THIS), size(y), lambda k: at(y, k))
    f = Fn(ctx, VEC + "::get", ["unsignedint"])
    f.eq(r, "element", f.rv, me(f.par(0)))
    f = Fn(ctx, VEC + "::set", ["unsignedint", "double"])
    f.vec(r, f.load(THIS), N, lambda k: ite(op("==", k, f.par(0)), f.par(1), me(k)))
    f = Fn(ctx, VEC + "::product", [])
    f.eq(r, "value", f.rv, agg("prod", Z, N, me))
    f = Fn(ctx, VEC + "::is_zero", ["double"])
    f.eq(r, "value", f.rv, neg(exists(N, lambda k: op("<", f.par(0), FABS_(me(k))))))
    f = Fn(ctx, VEC + "::has_zeros", ["double"])
    f.eq(r, "value", f.rv, exists(N, lambda k: op("<=", FABS_(me(k)), f.par(0))))


def L02_normalization(ctx):
    r = "normalization"
    me = lambda k: at(ME, k)
    f = Fn(ctx, VEC + "::normalizeVector", ["vec&", "vec&"])
    a, b = f.par(0), f.par(1)
    f.vec(r, f.rv, N, lambda k: div(div(sub(me(k), at(a, k)), sub(at(b, k), at(a, k))), N))
    f = Fn(ctx, VEC + "::normalizeVector", ["double", "double"])
    a, b = f.par(0), f.par(1)
    f.vec(r, f.rv, N, lambda k: div(div(sub(me(k), a), sub(b, a)), N))
    f = Fn(ctx, VEC + "::denormalizeVector", ["vec&", "vec&"])
    a, b = f.par(0), f.par(1)
    f.vec(r, f.rv, N, lambda k: add(mul(mul(N, me(k)), sub(at(b, k), at(a, k))), at(a, k)))
    f = Fn(ctx, VEC + "::normalizeVectorFast", ["vec&", "vec&"])
    a, b = f.par(0), f.par(1)
    f.vec(r, f.rv, N, lambda k: div(div(sub(me(k), at(a, k)), at(b, k)), N))
    f = Fn(ctx, VEC + "::denormalizeVectorFast", ["vec&", "vec&"])
    a, b = f.par(0), f.par(1)
    f.vec(r, f.rv, N, lambda k: add(mul(mul(N, me(k)), at(b, k)), at(a, k)))
    f = Fn(ctx, VEC + "::fillRandom", ["double", "double"])
    rnd = lambda a, b: call("random", a, b)
    f.vec(r, f.load(THIS), N, lambda k: rnd(f.par(0), f.par(1)), what="random vector")
    f = Fn(ctx, VEC + "::fillRandom", ["vec&", "vec&"])
    f.vec(r, f.load(THIS), N, lambda k: rnd(at(f.par(0), k), at(f.par(1), k)), what="random vector")
    f = Fn(ctx, VEC + "::generateRandomVectorBetween", ["vec&", "vec&"])
    a, b = f.par(0), f.par(1)
    f.vec(r, f.rv, size(a), lambda k: rnd(at(a, k), at(b, k)), what="random vector")


def L05_kernels(ctx):
    r = "kernel"
    for n in ("computeGaussianCorrelation", "computeGaussianCorrelationNaive", "computeGaussianCorrelationOpenBlas"):
        f = Fn(ctx, VEC + "::" + n, ["double*"] * 3 + ["int"])
        x, y, th = (ptr(f.f, i) for i in range(3))
        n_ = f.par(3)
        f.eq(r, "value", f.rv, call("exp", un_(sums(n_, lambda k: mul(th(k), sq(sub(x(k), y(k))))))))
    f = Fn(ctx, VEC + "::computeGaussianCorrelation", ["vec&"] * 3 + ["int"])
    x, y, th = (lambda k, i=i: at(f.par(i), k) for i in range(3))
    f.eq(r, "value", f.rv, call("exp", un_(sums(f.par(3), lambda k: mul(th(k), sq(sub(x(k), y(k))))))))
    f = Fn(ctx, VEC + "::computeGaussianCorrelationDot", ["double*"] * 4 + ["int"])
    x, y, d, th = (ptr(f.f, i) for i in range(4))
    n_ = f.par(4)
    corr = call("exp", un_(sums(n_, lambda k: mul(th(k), sq(sub(x(k), y(k)))))))
    f.eq(r, "derivative along the direction", f.rv, mul(corr, sums(n_, lambda k: mul(INT(2), mul(th(k), mul(sub(x(k), y(k)), d(k)))))))
    f = Fn(ctx, VEC + "::computeGaussianCorrelationDotDot", ["double*"] * 5 + ["int"])
    names = [p["n"] for p in f.f.p]
    x, y = ptr(f.f, 0), ptr(f.f, 1)
    d1, d2, th = ptr(f.f, 2), ptr(f.f, 3), ptr(f.f, 4)
    n_ = f.par(5)
    corr = call("exp", un_(sums(n_, lambda k: mul(th(k), sq(sub(x(k), y(k)))))))
    g = lambda d: sums(n_, lambda k: mul(INT(2), mul(th(k), mul(sub(x(k), y(k)), d(k)))))
    f.eq(r, "second derivative along the two directions", f.rv, mul(corr, sub(mul(g(d1), g(d2)), sums(n_, lambda k: mul(INT(2), mul(th(k), mul(d1(k), d2(k))))))))
    for n in ("computeExponentialCorrelation", "computeExponentialCorrelationNaive", "computeExponentialCorrelationOpenBlas"):
        f = Fn(ctx, VEC + "::" + n, ["double*"] * 4 + ["int"])
        x, y, th, ga = (ptr(f.f, i) for i in range(4))
        f.eq(r, "value", f.rv, call("exp", un_(sums(f.par(4), lambda k: mul(th(k), call("pow", FABS_(sub(x(k), y(k))), ga(k)))))))
    f = Fn(ctx, VEC + "::computeExponentialCorrelationDot", ["double*"] * 5 + ["int"])
    x, y, d, th, ga = (ptr(f.f, i) for i in range(5))
    n_ = f.par(5)
    ab = lambda k: FABS_(sub(x(k), y(k)))
    sg = lambda k: ite(op("<=", INT(0), sub(x(k), y(k))), INT(1), INT(-1))
    f.eq(r, "derivative along the direction", f.rv,
         mul(call("exp", un_(sums(n_, lambda k: mul(th(k), call("pow", ab(k), ga(k)))))),
             sums(n_, lambda k: mul(mul(th(k), ga(k)), mul(call("pow", ab(k), sub(ga(k), INT(1))), mul(sg(k), d(k)))))))


def un_(x):
    return mk("un", "-", x)


def L06_matrix_memory(ctx):
    r = "mat"
    me = lambda i, j: el(ME, i, j)
    Z, ONE_ = INT(0), INT(1)
    f = Fn(ctx, MAT + "::mat", [])
    f.eq(r, "no rows", dimq("nrows", f.load(THIS)), Z)
    f.eq(r, "no columns", dimq("ncols", f.load(THIS)), Z)
    f = Fn(ctx, MAT + "::mat", ["unsignedint"] * 2)
    mat_eq(f, r, f.load(THIS), f.par(0), f.par(1), lambda i, j: Z, "matrix")
    f = Fn(ctx, MAT + "::mat", ["unsignedint"] * 2 + ["double"])
    mat_eq(f, r, f.load(THIS), f.par(0), f.par(1), lambda i, j: f.par(2), "matrix")
    for n, ty in (("mat", "mat&"), ("operator=", "mat&"), ("mat", "mat&&"), ("operator=", "mat&&")):
        f = Fn(ctx, MAT + "::" + n, [ty])
        y = f.par(0) if not ty.endswith("&&") else R(f.f.p[0]["n"])
        other = list({neg(x) for x in subterms(f.load(THIS)) if x.k == "op" and x.a[0] == "==" and mk("this") in x.a[1:] and any(z.k in ("addr", "p") for z in x.a[1:])})
        mat_eq(f, r, f.load(THIS), dimq("nrows", y), dimq("ncols", y), lambda i, j: el(y, i, j), "copy", assume=other)
    f = Fn(ctx, MAT + "::reset", [])
    f.eq(r, "no rows", dimq("nrows", f.load(THIS)), Z)
    f.eq(r, "no columns", dimq("ncols", f.load(THIS)), Z)
    f = Fn(ctx, MAT + "::resize", ["unsignedint"] * 2)
    n, m = f.par(0), f.par(1)
    mat_eq(f, r, f.load(THIS), n, m, lambda i, j: ite(op("&&", op("<", i, NR), op("<", j, NC)), me(i, j), Z), "matrix")
    nonempty = [(Z, "<", NR), (Z, "<", NC)]
    some = [op("<", Z, NR), op("<", Z, NC)]
    f = Fn(ctx, MAT + "::addRow", ["vec&", "int"])
    y, p = f.par(0), f.par(1)
    ins = lambda p: lambda i, j: ite(op("<", i, p), me(i, j), ite(op("==", i, p), at(y, j), me(sub(i, ONE_), j)))
    mat_eq(f, r, f.load(THIS), add(NR, ONE_), NC, ins(p), "row insertion", assume=some + [op("<=", Z, p), op("<=", p, NR)], facts=nonempty + [(Z, "<=", p), (p, "<=", NR), (size(y), "==", NC)])
    mat_eq(f, r, f.load(THIS), add(NR, ONE_), NC, ins(NR), "row appended", assume=some + [op("==", p, INT(-1))], facts=nonempty + [(p, "==", INT(-1)), (size(y), "==", NC)])
    mat_eq(f, r, f.load(THIS), ONE_, size(y), lambda i, j: at(y, j), "first row", assume=[op("==", NR, Z), op("==", p, INT(-1))], facts=[(NR, "==", Z), (p, "==", INT(-1))])
    f = Fn(ctx, MAT + "::addColumn", ["vec&", "int"])
    y, p = f.par(0), f.par(1)
    ins = lambda p: lambda i, j: ite(op("<", j, p), me(i, j), ite(op("==", j, p), at(y, i), me(i, sub(j, ONE_))))
    mat_eq(f, r, f.load(THIS), NR, add(NC, ONE_), ins(p), "column insertion", assume=some + [op("<=", Z, p), op("<=", p, NC)], facts=nonempty + [(Z, "<=", p), (p, "<=", NC)])
    mat_eq(f, r, f.load(THIS), NR, add(NC, ONE_), ins(NC), "column appended", assume=some + [op("==", p, INT(-1))], facts=nonempty + [(p, "==", INT(-1))])
    f = Fn(ctx, MAT + "::deleteRow", ["int"])
    p = f.par(0)
    dele = lambda p: lambda i, j: ite(op("<", i, p), me(i, j), me(add(i, ONE_), j))
    mat_eq(f, r, f.load(THIS), sub(NR, ONE_), NC, dele(p), "row deletion", assume=[op("<", ONE_, NR), op("<=", Z, p), op("<", p, NR)], facts=[(ONE_, "<", NR), (Z, "<=", p), (p, "<", NR)])
    mat_eq(f, r, f.load(THIS), sub(NR, ONE_), NC, dele(sub(NR, ONE_)), "last row deleted", assume=[op("<", ONE_, NR), op("==", p, INT(-1))], facts=[(ONE_, "<", NR), (p, "==", INT(-1))])
    f = Fn(ctx, MAT + "::concatenateRowWise", ["mat&"])
    y = f.par(0)
    yn = dimq("nrows", y)
    mat_eq(f, r, f.rv, add(NR, yn), NC, lambda i, j: ite(op("<", i, NR), me(i, j), el(y, sub(i, NR), j)),
           assume=[op("<", Z, NR), op("<", Z, yn)], facts=[(Z, "<", NR), (Z, "<", yn), (NC, "==", dimq("ncols", y))])
    f = Fn(ctx, MAT + "::concatenateColumnWise", ["mat&"])
    y = f.par(0)
    yn = dimq("ncols", y)
    mat_eq(f, r, f.rv, NR, add(NC, yn), lambda i, j: ite(op("<", j, NC), me(i, j), el(y, i, sub(j, NC))),
           assume=[op("<", Z, NC), op("<", Z, yn)], facts=[(Z, "<", NC), (Z, "<", yn), (NR, "==", dimq("nrows", y))])
    f = Fn(ctx, MAT + "::normalizeMatrix", ["vec", "vec"], also=(MAT + "::operator*",))
    a, b = f.par(0), f.par(1)
    mat_eq(f, "normalization", f.rv, NR, NC, lambda i, j: div(div(sub(me(i, j), at(a, j)), sub(at(b, j), at(a, j))), NC), facts=[(NC, "==", size(a)), (NC, "==", size(b))], assume=[op("==", NC, size(a))])
    f = Fn(ctx, MAT + "::normalizeMatrix", ["double", "double"])
    a, b = f.par(0), f.par(1)
    mat_eq(f, "normalization", f.rv, NR, NC, lambda i, j: div(div(sub(me(i, j), a), sub(b, a)), NC))
    f = Fn(ctx, MAT + "::isEqual", ["mat&", "double"])
    y = f.par(0)
    f.eq(r, "value", f.rv, op("&&", op("&&", op("==", dimq("nrows", y), NR), op("==", dimq("ncols", y), NC)),
         neg(exists(mul(NR, NC), lambda k: op("<", f.par(1), FABS_(sub(me(k, Z), el(y, k, Z))))))))
    rowdiff = lambda v, tol: lambda i: neg(exists(NC, lambda j: op("<", tol, FABS_(sub(me(i, j), at(v, j))))))
    f = Fn(ctx, MAT + "::isRowInMatrix", ["vec&", "double"])
    y = f.par(0)
    hit = rowdiff(y, f.par(1))
    f.eq(r, "value", f.rv, op("&&", op("==", NC, size(y)), exists(NR, hit)))
    f = Fn(ctx, MAT + "::findRowIndex", ["vec&", "double"])
    hit = rowdiff(f.par(0), f.par(1))
    found = exists(NR, hit)
    b = mk("bv", ("tmp", 0))
    f.eq(r, "value", f.rv, ite(found, absint.quant("first", INT(0), NR, hit(b), b), INT(-1)))


def cor_eq(f, r, val):
    """the returned matrix is the symmetric nrows x nrows matrix of val(i, j) with a unit diagonal"""
    f.eq(r, "result has the right number of rows", dimq("nrows", f.rv), NR)
    f.eq(r, "result has the right number of columns", dimq("ncols", f.rv), NR)
    box = [(INT(0), "<=", I_), (I_, "<", NR), (INT(0), "<=", J_), (J_, "<", NR)]
    ij = mk("tup", I_, J_)
    f.elems(r, "right elements above the diagonal", f.rv, val(I_, J_), ij, box + [(I_, "<", J_)])
    f.elems(r, "right elements below the diagonal", f.rv, val(I_, J_), ij, box + [(J_, "<", I_)])
    f.elems(r, "unit diagonal", f.rv, INT(1), mk("tup", I_, I_), box[:2])


def L05_correlation_matrices(ctx):
    r = "correlation-matrix"
    me = lambda i, j: el(ME, i, j)
    inl = lambda f: inline_classes(MAT, also=(VEC + "::getPointer",) + tuple(VEC + "::" + n for n in
          ("computeGaussianCorrelationOpenBlas", "computeGaussianCorrelationNaive", "computeGaussianCorrelation",
           "computeExponentialCorrelation", "computeExponentialCorrelationOpenBlas", "computeExponentialCorrelationNaive")))
    th = None
    for n in ("computeCorrelationMatrixGaussian", "computeCorrelationMatrixGaussianNaive", "computeCorrelationMatrixGaussianOpenBlas"):
        f = Fn(ctx, MAT + "::" + n, ["vec&"], inl=inl(None))
        th = f.par(0)
        cor_eq(f, r, lambda i, j: (call("exp", un_(sums(NC, lambda k: mul(at(th, k), sq(sub(me(i, k), me(j, k)))))))))
    for n in ("computeCorrelationMatrixExponential", "computeCorrelationMatrixExponentialNaive", "computeCorrelationMatrixExponentialOpenBlas"):
        f = Fn(ctx, MAT + "::" + n, ["vec&", "vec&"], inl=inl(None))
        th, ga = f.par(0), f.par(1)
        cor_eq(f, r, lambda i, j: (call("exp", un_(sums(NC, lambda k: mul(at(th, k), call("pow", FABS_(sub(me(i, k), me(j, k))), at(ga, k))))))))


def lapack(q, o, *a):
    return mk("lapack", q, INT(o), *a)


def L04_solvers(ctx):
    r = "solver"
    ob = tuple(MAT + "::" + n for n in ("choleskyOpenBlas", "solveCholeskyOpenBlas", "luOpenBlas", "solveLUOpenBlas", "invertOpenBlas"))
    square = op("==", NR, NC)
    pol = inline_classes(MAT, also=(VEC + "::getPointer",))
    f = Fn(ctx, MAT + "::cholesky", ["int&"], inl=pol)
    f.throws(r, neg(square), "a matrix that is not square")
    ret = f.load(mk("D", mk("p", f.f.p[0]["n"])))
    lp = [x for x in subterms(f.rv) if x.k == "lapack"]
    fac = next((x for x in lp if x.a[1] in (2, INT(2))), None)
    if fac is None:
        f.ob(r, "factorises the whole matrix", False, "no factorisation of the matrix: %s" % show(f.rv)[:200])
    else:
        info = mk("lapack", fac.a[0], 4 if fac.a[1] == 2 else INT(4), *fac.a[2:])
        f.ob(r, "factorises the whole matrix as a lower triangular factor", fac.a[0] == "dpotrf_" and show(fac.a[2]) in ("'L'", "76") and fac.a[3] is NR
             and lapin(fac.a[4]) and fac.a[5] is NR, "calls %s" % show(fac)[:300])
        f.eq(r, "reports failure exactly when the factorisation fails", ret, ite(op("<", INT(0), info), INT(-1), INT(1)))
        ok = op("<=", info, INT(0))
        box = [(INT(0), "<=", I_), (I_, "<", NR), (INT(0), "<=", J_), (J_, "<", NC), (NR, "==", NC)]
        f.eq(r, "the factor has as many rows as the matrix", dimq("nrows", f.rv), NR, [ok])
        f.eq(r, "the factor has as many columns as the matrix", dimq("ncols", f.rv), NC, [ok])
        f.elems(r, "the factor is zero above the diagonal", f.rv, INT(0), mk("tup", I_, J_), box + [(I_, "<", J_)], [ok])
        f.elems(r, "the factor is kept on and below the diagonal", f.rv, el(fac, I_, J_), mk("tup", I_, J_), box + [(J_, "<=", I_)], [ok])
    f = Fn(ctx, MAT + "::solveCholesky", ["vec&"], inl=pol)
    b = f.par(0)
    f.throws(r, neg(op("&&", square, op("==", NR, size(b)))), "dimensions that do not match")
    calls = chain(f.rv, "cblas_dtrsv")
    f.ob(r, "forward substitution followed by backward substitution with the transposed factor", calls is not None and len(calls[1]) == 2 and calls[0] is b
         and all(trsv(c, t) for c, t in zip(calls[1], ("CblasTrans", "CblasNoTrans"))), "computes %s" % show(f.rv)[:500])
    f = Fn(ctx, MAT + "::lu", ["int*", "int&"], inl=pol)
    f.throws(r, neg(square), "a matrix that is not square", extra="lapack")
    lp = [x for x in subterms(f.rv) if x.k == "lapack" and x.a[0] == "dgetrf_"]
    fac = next((x for x in lp if x.a[1] in (2, INT(2))), None)
    if fac is None:
        f.ob(r, "factorises the whole matrix", False, "no factorisation of the matrix: %s" % show(f.rv)[:200])
    else:
        part = lambda i: mk("lapack", fac.a[0], i if fac.a[1] == 2 else INT(i), *fac.a[2:])
        f.ob(r, "factorises a matrix of the full order", fac.a[2] is NR and fac.a[3] in (NR, NC) and fac.a[5] is NR, "calls %s" % show(fac)[:300])
        f.elems(r, "factorises a copy of the matrix", mk("snap", mk("adopt", fac.a[4], MAT), (mk("ov", MAT + "::ncols", NC), mk("ov", MAT + "::nrows", NR))) if rawarr_(fac.a[4]) else fac.a[4],
                el(ME, I_, J_), mk("tup", I_, J_), [(INT(0), "<=", I_), (I_, "<", NR), (INT(0), "<=", J_), (J_, "<", NC), (NR, "==", NC)])
        info = part(5)
        f.eq(r, "reports failure exactly when the matrix is singular", f.load(mk("D", mk("p", f.f.p[1]["n"]))), ite(op("<", INT(0), info), INT(-1), INT(1)), [op("<=", INT(0), info)])
        f.ob(r, "stores the pivots of the same factorisation", f.load(mk("D", init(mk("P", f.f.p[0]["n"])))) is part(4), "stores %s" % show(f.load(mk("D", init(mk("P", f.f.p[0]["n"])))))[:300])
        ok = [op("<=", info, INT(0))]
        f.eq(r, "the factors have as many rows as the matrix", dimq("nrows", f.rv), NR, ok)
        f.eq(r, "the factors have as many columns as the matrix", dimq("ncols", f.rv), NC, ok)
        got = under_fact(f.rv, info)
        while got.k in ("snap", "adopt"):
            got = got.a[0]
        f.ob(r, "returns the factors", got is fac, "returns %s" % show(got)[:300])
    f = Fn(ctx, MAT + "::solveLU", ["int*", "vec&"], inl=pol)
    b = f.par(1)
    f.throws(r, neg(op("&&", square, op("==", NR, size(b)))), "dimensions that do not match", extra="lapack")
    piv = init(mk("D", init(mk("P", f.f.p[0]["n"]))))
    x = f.rv
    f.ob(r, "solves with the factors, the pivots and the right-hand side", x.k == "lapack" and x.a[0] == "dgetrs_" and x.a[1] in (6, INT(6))
         and show(x.a[2]) in ("78", "'N'") and x.a[3] is NR and x.a[4] is INT(1) and lapin(x.a[5]) and x.a[6] is NR and x.a[7] is piv and x.a[8] is b
         and x.a[9] is NR, "computes %s" % show(x)[:500])
    f = Fn(ctx, MAT + "::invert", [], inl=pol)
    f.throws(r, neg(square), "a matrix that is not square", extra="lapack")
    x = f.rv
    lu = lambda i: lambda y: y.k == "lapack" and y.a[0] == "dgetrf_" and y.a[1] in (i, INT(i)) and y.a[2] is NR and y.a[3] in (NR, NC) and lapin(y.a[4]) and y.a[5] is NR
    f.ob(r, "inverts the whole matrix from its factors and pivots", x.k == "lapack" and x.a[0] == "dgetri_" and x.a[1] in (1, INT(1)) and x.a[2] is NR and lu(2)(x.a[3])
         and x.a[4] is NR and lu(4)(x.a[5]), "computes %s" % show(x)[:500])
    systems(ctx, r)


def rawarr_(v):
    from .content import rawarr
    return rawarr(v)


def lapin(x):
    """the elements of this matrix (or of a copy)"""
    return x is ME or x is init(mk("D", init(F(THIS, MAT + "::matrix"))))


def chain(t, q):
    """nested mutations by q: (original value, calls from the last to the first)"""
    out = []
    while t.k == "mut" and t.a[0] == q:
        out.append(t)
        t = t.a[1]
    return t, out


def trsv(c, trans):
    a = [show(x) for x in c.a[3:]]
    return a[:4] == ["CblasColMajor", "CblasLower", trans, "CblasNonUnit"] and c.a[7] is NR and any(lapin(x) for x in c.a[8:9]) and c.a[-1] is NR


def under_fact(t, info):
    """the branch of a value for a successful factorisation"""
    while t.k == "ite" and contains(t.a[0], info):
        H = Hyp([(info, "==", INT(0))])
        d = H.decides(t.a[0])
        if d is None:
            break
        t = t.a[1] if d else t.a[2]
    return t


def systems(ctx, r):
    CS, LS = "Rodop::CholeskySystem", "Rodop::LUSystem"
    fld = lambda c, n: F(THIS, c + "::" + n)
    for c in (CS, LS):
        f = Fn(ctx, c + "::setMatrix", ["mat"])
        inp = f.par(0)
        g = lambda n: f.load(fld(c, n))
        f.ob(r, "stores the matrix", g("A") is inp, "stores %s" % show(g("A"))[:200])
        f.eq(r, "dimension", g("dimension"), dimq("nrows", inp))
        f.ob(r, "an older factorisation is invalidated", f.V.iff(g("ifFactorizationIsDone"), FALSE), "flag is %s" % show(g("ifFactorizationIsDone")))
        f.ob(r, "the matrix is marked as set", f.V.iff(g("ifMatrixIsSet"), TRUE), "flag is %s" % show(g("ifMatrixIsSet")))
        f = Fn(ctx, c + "::setDimension", None)
        n = f.par(0)
        UNSIGNED.add(n)
        f.eq(r, "new dimension", g_(f, c, "dimension"), n)
        f.ob(r, "a resized system has neither matrix nor factorisation", g_(f, c, "ifMatrixIsSet") in (FALSE, INT(0)) and g_(f, c, "ifFactorizationIsDone") in (FALSE, INT(0)),
             "flags are %s and %s" % (show(g_(f, c, "ifMatrixIsSet")), show(g_(f, c, "ifFactorizationIsDone"))))
        for x in ("A", "factorizationMatrix"):
            for q in ("nrows", "ncols"):
                f.eq(r, "%s of %s" % (q, x), dimq(q, g_(f, c, x)), n, [op("<", INT(0), n)])
        f = Fn(ctx, c + "::factorize", [])
        g = lambda n: f.load(fld(c, n))
        fm = g("factorizationMatrix")
        A = init(fld(c, "A"))
        want = MAT + ("::cholesky" if c == CS else "::lu")
        if c == LS:
            f.ob(r, "uses its own pivots", fm.k == "call" and len(fm.a) > 2 and "pivots" in show(fm.a[2]), "computes %s" % show(fm)[:200])
        f.ob(r, "factorises the stored matrix", fm.k == "call" and fm.a[0] == want and fm.a[1] is A, "factorises %s" % show(fm)[:200])
        out = mk("out", want, 0 if c == CS else 1, *fm.a[1:]) if fm.k == "call" else VOID
        f.ob(r, "factorization flag tells whether it succeeded", f.V.iff(g("ifFactorizationIsDone"), neg(op("==", out, INT(-1)))) or
             f.V.iff(g("ifFactorizationIsDone"), op("==", out, INT(1))), "flag is %s" % show(g("ifFactorizationIsDone"))[:300])
        f = Fn(ctx, c + "::solveLinearSystem", ["vec&"])
        fm = init(fld(c, "factorizationMatrix"))
        x = f.rv
        if c == CS:
            f.ob(r, "solves with the factorised matrix", x is call(MAT + "::solveCholesky", fm, f.par(0)), "computes %s" % show(x)[:200])
        else:
            f.ob(r, "solves with the factorised matrix", x.k == "call" and x.a[0] == MAT + "::solveLU" and x.a[1] is fm and "pivots" in show(x.a[2]) and x.a[3] is f.par(0),
                 "computes %s" % show(x)[:200])
            f.throws(r, neg(op("==", size(f.par(0)), init(fld(c, "dimension")))), "a right-hand side of another dimension")
    dg = call(MAT + "::diag", init(fld(CS, "factorizationMatrix")))
    f = Fn(ctx, CS + "::calculateDeterminant", [])
    f.eq(r, "determinant is the squared product of the diagonal of the factor", f.rv, sq(call(VEC + "::product", dg)))
    f = Fn(ctx, CS + "::calculateLogDeterminant", [])
    n = init(fld(CS, "dimension"))
    UNSIGNED.add(n)
    f.eq(r, "log-determinant is twice the sum of the logarithms of the diagonal of the factor", f.rv, mul(INT(2), sums(n, lambda k: call("log", at(dg, k)))))


def g_(f, c, n):
    return f.load(F(THIS, c + "::" + n))


def L03_random(ctx):
    """random fills, shuffling, symmetry test and element access of matrices"""
    r = "mat"
    me = lambda i, j: el(ME, i, j)
    u01 = div(call("rand"), INT(2147483647))
    f = Fn(ctx, MAT + "::fillRandom", [])
    mat_eq(f, r, f.load(THIS), NR, NC, lambda i, j: u01, "random matrix")
    f = Fn(ctx, MAT + "::fillRandom", ["double", "double"])
    a, b = f.par(0), f.par(1)
    mat_eq(f, r, f.load(THIS), NR, NC, lambda i, j: add(mul(u01, sub(b, a)), a), "random matrix")
    f.throws(r, op("<=", b, a), "an empty interval")
    for ty in ("vec&", "vector<double>&"):
        f = Fn(ctx, MAT + "::fillRandom", [ty, ty])
        a, b = f.par(0), f.par(1)
        wrong = op("||", neg(op("==", size(a), NC)), neg(op("==", size(b), NC)))
        if ty == "vec&":
            mat_eq(f, r, f.load(THIS), NR, NC, lambda i, j: add(at(a, j), mul(u01, sub(at(b, j), at(a, j)))), "random matrix")
        else:
            mat_eq(f, r, f.load(THIS), NR, NC, lambda i, j: call("random", at(a, j), at(b, j)), "random matrix")
        rejects(f, r, wrong, "bounds of the wrong size")
        crossed(f, r, a, b, wrong)
        f = Fn(ctx, MAT + "::fillRandomLHS", [ty, ty])
        a, b = f.par(0), f.par(1)
        t = f.load(THIS)
        f.eq(r, "matrix keeps its size", dimq("nrows", t), NR)
        f.eq(r, "matrix keeps its size (columns)", dimq("ncols", t), NC)
        H = f.H.copy()
        for x, n in ((I_, NR), (J_, NC)):
            H.add(INT(0), "<=", x)
            H.add(x, "<", n)
        c = content(t, mk("tup", I_, J_), H)
        ok = c.k == "elem" and c.a[0].k == "mut" and c.a[0].a[0] == "std::shuffle" and simp_eq(c.a[1], I_) and simp_eq(c.a[0].a[2], INT(0)) and f.V.eq(c.a[0].a[3], NR)
        f.ob(r, "every column is a shuffled sample", ok, "element is %s" % show(c)[:300])
        if ok:
            st = div(sub(at(b, J_), at(a, J_)), NR)
            iv = lambda k: call("random", add(at(a, J_), mul(k, st)), add(at(a, J_), mul(add(k, INT(1)), st)))
            f.elems(r, "one sample per interval", c.a[0].a[1], iv(K), K, [(INT(0), "<=", K), (K, "<", NR), (INT(0), "<=", J_), (J_, "<", NC)])
            f.eq(r, "number of intervals", size(c.a[0].a[1]), NR)
        rejects(f, r, wrong, "bounds of the wrong size")
        crossed(f, r, a, b, wrong)
    f = Fn(ctx, MAT + "::shuffleRows", [])
    t = f.load(THIS)
    f.eq(r, "matrix keeps its size", dimq("nrows", t), NR)
    f.eq(r, "matrix keeps its size (columns)", dimq("ncols", t), NC)
    H = f.H.copy()
    for x, n in ((I_, NR), (J_, NC)):
        H.add(INT(0), "<=", x)
        H.add(x, "<", n)
    c = content(t, mk("tup", I_, J_), H)
    src = None
    if c.k == "elem" and c.a[0] is ME and c.a[1].k == "tup":
        src = c.a[1].a[0]
    elif c.k == "init" and c.a[0].k == "E" and c.a[0].a[0] is THIS and c.a[0].a[1].k == "tup":
        src = c.a[0].a[1].a[0]
    perm = src is not None and src.k == "elem" and src.a[0].k == "mut" and src.a[0].a[0] == "std::shuffle" and src.a[1] is I_ and src.a[0].a[2] is INT(0) and f.V.eq(src.a[0].a[3], NR)
    f.ob(r, "rows are permuted as a whole", perm and (c.a[1] if c.k == "elem" else c.a[0].a[1]).a[1] is J_ and not contains(src, J_), "element is %s" % show(c)[:300])
    if perm:
        f.elems(r, "permutation of all rows", src.a[0].a[1], K, K, [(INT(0), "<=", K), (K, "<", NR)])
    f = Fn(ctx, MAT + "::isSymmetric", ["double"])
    tol = f.par(0)
    diff_ = lambda i, j: op("<", tol, FABS_(sub(me(i, j), me(j, i))))
    f.eq(r, "value", f.rv, op("&&", op("==", NR, NC), neg(exists(NR, lambda i: absint_exists(add(i, INT(1)), NC, lambda j: diff_(i, j))))))
    f.throws(r, op("<", tol, INT(0)), "a negative tolerance")


def crossed(f, r, a, b, wrong):
    """a lower bound above its upper bound is rejected, and nothing else but bounds of the wrong size"""
    f.throws(r, op("||", wrong, exists(NC, lambda j: op("<", at(b, j), at(a, j)))), "crossed bounds")


def L03_access(ctx):
    r = "mat"
    for q, n in ((MAT, 2), (VEC, 1)):
        for f0 in ctx.prog.byq.get(q + "::operator()", []):
            if len(f0.p) != n:
                continue
            f = Fn(ctx, q + "::operator()", None, f=f0)
            k = [f.par(i) for i in range(n)]
            idx = mk("tup", *k) if n == 2 else k[0]
            lim = [NR, NC] if n == 2 else [N]
            bad = FALSE
            for x, m in zip(k, lim):
                bad = op("||", bad, op("<=", m, x))
            f.ob(r, "element", f.rv.k == "refloc" and f.rv.a[0].k == "E" and f.rv.a[0].a[0] is THIS and f.rv.a[0].a[1] is idx, "refers to %s" % show(f.rv))
            f.throws(r, bad, "positions outside")


def simp_eq(a, b):
    from .content import simp
    return a is b or simp(a) is simp(b)


def absint_exists(lo, hi, f):
    TMP[0] += 1
    b = mk("bv", ("tmp", TMP[0]))
    return absint.quant("exists", lo, hi, f(b), b)


def rejects(f, rule, cond, what):
    """throws whenever cond holds"""
    c = FALSE
    for s, typ, node, fr in f.I.throws[0]:
        p = path_cond(s.path)
        if p is not None:
            c = op("||", c, p)
    for s, typ, node, fr in f.I.throws[0]:
        p = path_cond(s.path)
        try:
            if p is not None and f.V.implies(cond, p):
                return f.ob(rule, "rejects " + what, True)
        except Big:
            pass
    try:
        ok = f.V.implies(cond, c)
    except Big:
        ok = False
    return f.ob(rule, "rejects " + what, ok, "throws when %s" % show(c)[:200])


def L03_delete_rows(ctx):
    """rows that are not listed move up in order: a merge loop over all rows and the sorted list of positions"""
    r = "mat"
    f = Fn(ctx, MAT + "::deleteRows", ["vector<int>&"])
    y = f.par(0)
    t = f.load(THIS)
    none = op("==", size(y), INT(0))
    best = None
    for lid, info in f.I.loops.items():
        rg = info.get("range")
        if not rg or rg[1] is not INT(0) or not f.V.eq(rg[2], NR):
            continue
        i = rg[0]
        w = p = None
        for loc, (a, b) in info["mod"].items():
            x = info["hv"].get(loc)
            if x is None or x is i or x.k != "lv" or b.k != "ite" or a is not INT(0):
                continue
            one = op("+", x, INT(1))
            if b.a[1] is x and b.a[2] is one:
                w = (x, b.a[0], True)
            elif b.a[2] is x and b.a[1] is one:
                if w is None or p is not None:
                    p = p or (x, b.a[0])
                else:
                    p = (x, b.a[0])
        cnt = [(info["hv"][l], b) for l, (a, b) in info["mod"].items() if info["hv"].get(l) is not None and info["hv"][l].k == "lv" and info["hv"][l] is not i
               and b.k == "ite" and a is INT(0) and {b.a[1], b.a[2]} == {info["hv"][l], op("+", info["hv"][l], INT(1))}]
        best = best or (lid, info, i, cnt)
    ok = best is not None and len(best[3]) == 2
    f.ob(r, "copies the remaining rows in one pass", ok, "no pass over all rows that skips the listed ones")
    if not ok:
        return
    lid, info, i, cnt = best
    S = next((x.a[0] for x in subterms(cnt[0][1].a[0]) if x.k == "elem" and x.a[0].k == "mut"), None)
    f.ob(r, "list of rows", S is not None and sorted_unique(S, y), "rows to delete are compared with %s instead of the sorted list without repetitions" % (show(S)[:200] if S is not None else "nothing"))
    if S is None:
        return
    # which counter moves on a listed row
    done_ = False
    for (p, pb), (w, wb) in (cnt, cnt[::-1]):
        C = op("&&", op("<", p, size(S)), op("==", i, mk("elem", S, p)))
        adv = lambda x, b: f.V.iff(b.a[0] if b.a[1] is not x else neg(b.a[0]), TRUE)
        moves = lambda x, b: b.a[0] if b.a[1] is not x else neg(b.a[0])
        if not (f.V.iff(moves(p, pb), C) and f.V.iff(moves(w, wb), neg(C))):
            continue
        done_ = True
        for loc, (a, b) in info["mod"].items():
            x = info["hv"].get(loc)
            if x is None or x in (i, p, w) or x.k != "lv" or loc.k == "L":
                continue
            n2 = sub(NR, size(S))
            left = mk("sym", "rows left")
            UNSIGNED.add(left)
            b0, b = b, subst(b, {n2: left})
            H = f.H.copy()
            for v, n in ((J_, NC), (w, left)):
                H.add(INT(0), "<=", v)
                H.add(v, "<", n)
            idx = mk("flat", w, J_, left)
            g = content(subst(b, {C: FALSE}) if b.k != "ite" else (b.a[2] if f.V.iff(b.a[0], C) else b.a[1] if f.V.iff(b.a[0], neg(C)) else b), idx, H)
            f.ob(r, "row is copied", f.V.eq(g, el(ME, i, J_)), "element is %s" % show(g)[:200])
            b = b0
            keep = b.k == "ite" and (b.a[1] if f.V.iff(b.a[0], C) else b.a[2]) is x
            f.ob(r, "nothing else is written", keep and only_row(b.a[2] if f.V.iff(b.a[0], C) else b.a[1], x, w, n2), "value after one row: %s" % show(b)[:200])
            f.ob(r, "new matrix", final_is(t, none, n2, x, f), "result is %s" % show(t)[:200])
    f.ob(r, "skips exactly the listed rows", done_, "a row is skipped when %s" % show(cnt[0][1].a[0])[:300])
    f.eq(r, "number of rows", dimq("nrows", t), ite(none, NR, sub(NR, size(S))))
    f.throws(r, op("&&", neg(none), op("||", op("<=", NR, mk("elem", S, op("-", size(S), INT(1)))), op("<", mk("elem", S, INT(0)), INT(0)))), "positions outside", "newarr")


def sorted_unique(S, y):
    """std::sort, std::unique, erase of the rest, applied to the whole of y"""
    if S.a[0] != "std::vector::erase":
        return False
    u = S.a[1]
    if u.k != "mut" or u.a[0] != "std::unique" or u.a[2] is not INT(0) or u.a[3] is not size(u.a[1]):
        return False
    s = u.a[1]
    if s.k != "mut" or s.a[0] != "std::sort" or len(s.a) != 4 or s.a[1] is not y or s.a[2] is not INT(0) or s.a[3] is not size(y):
        return False
    its = [x for x in S.a[2:]]
    pos = [next((z for z in subterms(x) if z.k == "iter"), None) for x in its]
    return len(pos) == 2 and None not in pos and any(x.k == "call" and x.a[0].endswith("unique") for x in subterms(pos[0].a[1])) and pos[1].a[1] is size(u)


def only_row(v, x, w, n2):
    """v is x with one segment over one row"""
    return v.k == "fill" and v.a[0] is x and len(v.a[1]) == 1 and len(v.a[1][0].a[0]) == 1


def final_is(t, none, n2, x, f):
    """the final matrix: unchanged / empty / the copied rows"""
    while t.k == "snap":
        t = t.a[0]
    if t.k != "ite" or not f.V.iff(t.a[0], none) or t.a[1] is not ME:
        return False
    t = t.a[2]
    if t.k != "ite" or not f.V.iff(t.a[0], op("==", n2, INT(0))):
        return False
    return t.a[2].k == "adopt" and t.a[2].a[0].k == "lv" and t.a[2].a[0].a[0] is x.a[0]
