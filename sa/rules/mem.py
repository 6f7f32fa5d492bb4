"""Storage of vectors and matrices: every access of the linear algebra layer stays inside the array it refers to."""
from .common import *
from .lin import *
from .content import lform
from rodsa import absint
from rodsa.prog import walk
from rodsa.absint import add_fact, State, ename

ZERO, ONE = INT(0), INT(1)
# reference implementations that nothing in the build calls
NAIVE = ("lu_decomposition", "lu_solve", "forward_substitution", "backward_substitution", "matvecmul", "matmatmul")
SKIP = ("print_matrix", "print_permutation", "print", "printPivot", "display")
RANGE2 = {"std::fill", "std::sort", "std::stable_sort", "std::min_element", "std::max_element", "std::accumulate", "std::reverse", "std::iota", "std::shuffle",
          "std::any_of", "std::all_of", "std::none_of", "std::find", "std::find_if", "std::for_each", "std::count_if", "std::is_sorted"}
SQ = {"cblas_dtrsv"}


class Accesses(absint.Hooks):
    """element accesses and library calls over ranges, each with the state in which it happens"""

    def __init__(self):
        self.acc, self.calls, self.own = [], [], []

    def on_deref(self, I, st, loc, node):
        if not I.quiet and loc.k == "E" and not (node.get("k") == "Call" and node["q"].split("::")[-1] in ("operator()", "at")):
            self.acc.append((loc, st.copy(), node, I.where(node)))

    def on_call(self, I, st, c):
        if not I.quiet:
            (self.own if c.fid in I.prog.funcs else self.calls).append((c, st.copy(), I.where(c.node)))


class Proof:
    def __init__(self, f):
        self.f, self.I = f, f.I
        self.assumed, self.assumed_facts = [], []

    def cases(self, st, ts, k, deep=6):
        """k(hypotheses, terms) in every case of the conditional values among the terms"""
        for t in list(ts) + sorted((g for g, _ in st.facts if g.k == "op"), key=lambda g: g.id):
            for x in subterms(t):
                if x.k == "ite" and deep > 0:
                    c = x.a[0]
                    for pol in (True, False):
                        m = {x: x.a[1] if pol else x.a[2]}
                        s = State()
                        if not add_fact(s, c, pol) or not all(add_fact(s, subst(g, m), p) for g, p in sorted(st.facts, key=lambda y: (y[0].id, y[1] is True))):
                            continue
                        if not self.cases(s, [subst(y, m) for y in ts], k, deep - 1):
                            return False
                    return True
        h = Hyp().from_state(st)
        def apart():
            for g, pol in st.facts:
                if not pol and g.k == "op" and g.a[0] == "==":
                    for a, b in ((g.a[1], g.a[2]), (g.a[2], g.a[1])):
                        # different whole numbers, one of them a known bound
                        if absint.integral(a) and absint.integral(b) and not any(x.k in ("str", "enum", "null", "flt") for x in (a, b)) and h.le(a, b):
                            h.add(a, "<", b)
        apart()
        apart()
        for t in list(ts) + [x for x in self.assumed]:
            for x in subterms(t):
                if x.k == "call" and x.a[0] in ("min", "std::min", "fmin") and len(x.a) == 3:
                    h.add(x, "<=", x.a[1])
                    h.add(x, "<=", x.a[2])
        for a, o, b in self.assumed_facts:
            h.add(a, o, b)
        for t in list(ts) + [x for g, _ in st.facts for x in (g,)]:
            for x in subterms(t):
                if x.k == "lv":
                    i = self.I.loops.get(x.a[0])
                    r = i.get("range") if i else None
                    if r and r[0] is x:
                        h.add(r[1], "<=", x)
                        if h.le(r[1], r[2]):
                            # counts one by one up to the position at which the loop ends
                            h.add(x, "<=", r[2])
                            apart()
                elif x.k == "call" and x.a[0] in ("minindex", "maxindex", "std::min_element", "std::max_element") and len(x.a) == 4:
                    if h.lt(x.a[2], x.a[3]):
                        UNSIGNED.add(x)
                        h.add(x.a[2], "<=", x)
                        h.add(x, "<", x.a[3])
                elif x.k in ("un", "call") and x.a[0] in ("int", "floor", "ceil", "std::floor", "std::ceil", "intfloor", "intceil"):
                    y = x.a[1]
                    while y.k in ("un", "call") and y.a[0] in ("int", "floor", "ceil", "std::floor", "std::ceil"):
                        y = y.a[1]
                    if y.k == "op" and y.a[0] == "*":
                        for p, n in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
                            # a fraction of a whole number
                            if absint.integral(n) and h.le(ZERO, p) and h.le(p, ONE) and h.le(ZERO, n):
                                absint.INTT.add(x)
                                h.add(ZERO, "<=", x)
                                h.add(x, "<=", n)
        try:
            return k(h, ts)
        except (TypeError, ValueError):
            return False

    def steps(self, t):
        """positions that advance in step with the counter of their loop, in terms of the counter"""
        for _ in range(4):
            m = {}
            for x in subterms(t):
                i = self.I.loops.get(x.a[0]) if x.k == "lv" else None
                u = i and i.get("step", {}).get(x)
                if u is not None:
                    m[x] = u
            if not m:
                break
            t = subst(t, m)
        return t

    def within(self, st, i, n, strict=True):
        """0 <= i < n (i <= n)"""
        def k(h, t):
            return h.le(ZERO, t[0]) and (h.lt if strict else h.le)(t[0], t[1]) or h.lt(ZERO, MINUS1)
        return self.cases(st, [i, n], k) or i.k == "lv" and self.kept(st, i, n)

    def kept(self, st, x, n):
        """the variable x of a loop lies in the range before the loop, and stays there in every turn"""
        info = self.I.loops.get(x.a[0])
        if info is None or "range" not in info or any(y.k == "lv" for y in subterms(n)):
            return False
        loc = next((l for l, v in info.get("hv", {}).items() if v is x), None)
        if loc is None or loc not in info.get("mod", {}):
            return False
        start, end = info["mod"][loc]
        i, lo, hi = info["range"]
        s = State()
        for g, p in sorted(st.facts, key=lambda y: (y[0].id, y[1] is True)):
            if not any(y.k == "lv" for y in subterms(g)) and not add_fact(s, g, p):
                return False
        def k(h, t):
            return h.le(ZERO, t[0]) and h.lt(t[0], t[1])
        if not self.cases(s, [start, n], k):
            return False
        add_fact(s, op("<", i, hi), True)
        add_fact(s, op("<=", lo, i), True)
        # what holds of x at the beginning of the turn
        add_fact(s, op("<=", ZERO, x), True)
        add_fact(s, op("<", x, n), True)
        return self.cases(s, [x, n], k) and self.cases(s, [end, n], k)

    def rowcol(self, st, i, ld, m):
        """i = r + ld * c with r < ld, c < m"""
        r, c = divide(i, ld)
        for k in range(-1, 3):
            sh = op("*", INT(k), ld) if k else ZERO
            r2 = op("-", r, sh) if k else r
            c2 = op("+", c, INT(k)) if k else c
            if self.within(st, r2, ld) and self.within(st, c2, m):
                return True
        return False

    def inmat(self, st, idx, nr, nc):
        return any(self.inmat1(st, idx, a, b) for a in self.equal(st, nr) for b in self.equal(st, nc))

    def equal(self, st, n):
        """terms known to be equal to n"""
        out = [n]
        for g, pol in sorted(st.facts, key=lambda x: x[0].id):
            if pol and g.k == "op" and g.a[0] == "==":
                for a, b in ((g.a[1], g.a[2]), (g.a[2], g.a[1])):
                    if a is n and b not in out:
                        out.append(b)
        return out

    def inmat1(self, st, idx, nr, nc):
        if idx.k == "tup":
            r, c = idx.a
            if self.within(st, r, nr) and self.within(st, c, nc):
                return True
            for k in (-1, 1):
                if self.within(st, op("+", r, op("*", INT(-k), nr)), nr) and self.within(st, op("+", c, INT(k)), nc):
                    return True
            idx = r if c is ZERO else op("+", r, op("*", nr, c))
        return self.within(st, idx, op("*", nr, nc)) or self.rowcol(st, idx, nr, nc) or self.rowcol(st, idx, nc, nr)

    def flat(self, st, i, n):
        """i < n where n may be a product"""
        if self.within(st, i, n):
            return True
        fs = absint.factors(n)
        if len(fs) < 2:
            fs = prod_factors(n)
        if len(fs) == 2:
            return self.rowcol(st, i, fs[0], fs[1]) or self.rowcol(st, i, fs[1], fs[0])
        return False


MINUS1 = INT(-1)


def prod_factors(n):
    """n*m + n (expanded products) as [n, m + 1]"""
    p = poly(n)
    ats = [x for k in p.m for x, e in k]
    for a in ats:
        if all(any(x is a for x, e in k) for k in p.m):
            return [a, without(p, a)]
    return [n]


def to_term(p):
    r = ZERO
    for k, v in sorted(p.m.items(), key=lambda x: tuple((y.id, e) for y, e in x[0])):
        if v.denominator != 1 if hasattr(v, "denominator") else int(v) != v:
            raise TypeError
        t = INT(int(v))
        for x, e in k:
            for _ in range(e):
                t = x if t is ONE else op("*", t, x)
        r = t if r is ZERO else op("+", r, t)
    return r


def without(p, a):
    """p / a"""
    q = Poly({})
    for k, v in p.m.items():
        out = []
        for x, e in k:
            e -= x is a
            if e:
                out.append((x, e))
        q.m[tuple(out)] = q.m.get(tuple(out), 0) + v
    return to_term(q)


def divide(i, ld):
    """(r, c) with i = r + ld * c, by the leading atom of ld"""
    L, p = poly(ld), poly(i)
    for a in sorted({x for k, v in L.m.items() if len(k) == 1 and k[0][1] == 1 and abs(v) == 1 for x, e in k}, key=lambda x: x.id):
        if any(x is a for k in L.m if len(k) != 1 for x, e in k):
            continue
        q = Poly({k: v for k, v in p.m.items() if any(x is a and e == 1 for x, e in k)})
        if not q.m:
            continue
        sg = L.m[((a, 1),)]
        try:
            c = without(q.scale(sg), a)
            r = to_term(p + (poly(c) * L).scale(-1))
        except (TypeError, ValueError):
            continue
        return r, c
    return i, ZERO


class Storage:
    """obligations of one function"""

    def __init__(self, ctx, f, rule):
        self.ctx, self.fn, self.rule = ctx, f, rule
        self.h = Accesses()
        self.F = Fn(ctx, f.q, None, f=f, hooks=self.h)
        self.F.nm = "%s(%s)" % (f.q.split("::", 1)[-1], ",".join(short(p["t"]) for p in f.p))
        self.P = Proof(self.F)
        self.n = {}
        if f.n.endswith("Naive") and f.cls == MAT:
            # a variant that is called without the checks of its operation: its callers' contract
            for x in f.p:
                if x["t"].replace("const ", "").strip().rstrip("&").strip() in (VEC, "vec"):
                    self.P.assumed_facts.append((size(init(mk("D", mk("p", x["n"])))), "==", mk("ncols", ME)))
        vs = [x for x in f.p if "vec" in x["t"].replace("std::vec", "")]
        if self.count() is not None and (len(vs) > 1 or any("*" in x["t"] for x in f.p)):
            self.P.assumed_facts.append((ZERO, "<=", self.count()))
        if len(vs) > 1 and self.count() is not None:
            # a count that comes with several vectors is at most their length (the callers' contract)
            for x in vs:
                self.P.assumed_facts.append((self.count(), "<=", size(init(mk("D", mk("p", x["n"]))))))

    def count(self):
        """the parameter that holds the length of the arrays passed as pointers"""
        p = [x for x in self.fn.p if x["t"].replace("const ", "").strip() in ("int", "unsigned int", "unsigned", "size_t")]
        return init(mk("P", p[0]["n"])) if len(p) == 1 else None

    def ob(self, what, ok, where, msg):
        k = self.n[what] = self.n.get(what, 0) + 1
        self.ctx.ob(self.rule, "%s: %s%s" % (self.F.nm, what, "" if k == 1 else " (%d)" % k), where, ok, msg)

    def name(self, loc):
        l = loc
        while l.k in ("E", "F"):
            l = l.a[0]
        if l is THIS or loc is THIS:
            return "own storage"
        if l.k == "L":
            return "a local"
        return "an argument" if l.k == "D" else "storage"

    def base(self, st, b):
        """kind and length of the array at this location"""
        if b.k == "D" and b.a[0].k == "newarr":
            return "flat", b.a[0].a[1]
        if b.k == "D" and b.a[0].k == "init" and b.a[0].a[0].k == "P":
            return "ptr", self.count()
        I = self.P.I
        v = I.load(st, b)
        while v.k == "mut" and (v.a[0] in ("std::shuffle", "std::sort", "std::stable_sort", "std::reverse", "std::iota", "std::fill", "std::fill_n", "std::copy", "std::copy_n", "std::transform", "std::swap_ranges") or v.a[0].startswith("cblas_")):
            v = v.a[1]
        if v.k == "lapack" and v.a[:2] == ("dgetrf_", 4):
            return "vec", v.a[2]          # at least the rows of the matrix, checked at the call
        if v.k == "elem":
            v = content(v.a[0], v.a[1], Hyp().from_state(st))
        if I.is_mat(st, b) or v.k == "lapack" and any(isinstance(x, T) and I.is_matval(x) for x in v.a[2:]):
            return "mat", (dimq("nrows", v), dimq("ncols", v))
        n = dimq("size", v)
        if n.k == "size" and (n.a[0] is ME and self.fn.cls == MAT or I.is_matval(n.a[0])):
            return "mat", (dimq("nrows", n.a[0]), dimq("ncols", n.a[0]))
        return "vec", n

    def own(self, b):
        while b.k in ("E", "F"):
            b = b.a[0]
        return b

    def inside(self, st, b, i):
        kind, n = self.base(st, b)
        P = self.P
        i = P.steps(i)
        if kind == "mat":
            return P.inmat(st, i, *n), "rows %s columns %s" % tuple(show(x)[:80] for x in n)
        if kind == "flat":
            return P.flat(st, i, n), show(n)[:120]
        if kind == "ptr":
            if n is None:
                return None, ""
            return P.within(st, i, n) or P.rowcol(st, i, n, n), show(n)
        return P.within(st, i, n), show(n)[:120]

    def span(self, st, p, n, lda=None, cols=None):
        """n elements (or cols columns of n elements, lda apart) from pointer p"""
        I, P = self.P.I, self.P
        b, off = I.ptr_base(st, p)
        off = P.steps(off)
        kind, m = self.base(st, b)
        if kind == "ptr":
            return None if m is None else (lda is None and P.within(st, op("+", off, n), m, False) or lda is not None)
        if lda is None:
            if self.run(st, kind, m, off, n):
                return True
            if kind == "mat":
                m = op("*", *m)
            return P.within(st, op("+", off, n), m, False) or self.same(st, op("+", off, n), m)
        if kind == "mat":
            m = op("*", *m)
        # off + lda * (cols - 1) + n <= m, or lda * cols == m with n <= lda
        return off is ZERO and P.within(st, n, lda, False) and (self.same(st, op("*", lda, cols), m) or P.within(st, op("*", lda, cols), m, False))

    def run(self, st, kind, m, off, n):
        """n consecutive elements from position off lie in one column of a matrix"""
        fs = m if kind == "mat" else absint.factors(m) if kind == "flat" else ()
        if kind == "flat" and len(fs) < 2:
            fs = prod_factors(m)
        if len(fs) != 2:
            return False
        for ld, cols in (fs,) if kind == "mat" else (fs, fs[::-1]):
            r, c = divide(off, ld)
            if self.P.within(st, op("+", r, n), ld, False) and self.P.within(st, c, cols) and self.P.within(st, r, ld, False):
                return True
        return False

    def same(self, st, a, b):
        def k(h, t):
            try:
                return Val(h).eq(t[0], t[1]) or not [x for x in (poly(t[0]) + poly(t[1]).scale(-1)).m]
            except (Big, TypeError):
                return False
        return self.P.cases(st, [a, b], k)

    def val(self, st, p):
        return self.P.I.load(st, p.a[0]) if p.k == "addr" else p

    def library(self, c, st):
        """(what, holds) of the arrays a library routine works on"""
        q, a = c.q, c.args
        I = self.P.I
        if q in RANGE2 and len(a) >= 2 and a[0].k in ("iter", "newarr", "op", "init") and a[1].k == a[0].k or q in RANGE2 and len(a) >= 2 and a[0].k == "newarr":
            b1, o1 = I.ptr_base(st, a[0])
            b2, o2 = I.ptr_base(st, a[1])
            if b1 is b2:
                yield "range", self.ordered(st, b1, o1, o2)
            return
        if q in ("std::copy", "std::transform") and len(a) >= 3:
            b1, o1 = I.ptr_base(st, a[0])
            b2, o2 = I.ptr_base(st, a[1])
            if b1 is not b2:
                return
            n = op("-", o2, o1)
            yield "source", self.ordered(st, b1, o1, o2)
            for x in a[2:]:
                if x.k in ("iter", "newarr", "op", "init") and not (x.k == "op" and x.a[1].k == "fl"):
                    yield "destination", self.span(st, x, n)
            return
        if q in ("std::copy_n",):
            yield "source", self.span(st, a[0], a[1])
            yield "destination", self.span(st, a[2], a[1])
        if q == "std::fill_n":
            yield "destination", self.span(st, a[0], a[1])
        one = lambda x: x is ONE
        for name, ps, st_ in (("cblas_ddot", (1, 3), (2, 4)), ("cblas_dcopy", (1, 3), (2, 4)), ("cblas_daxpy", (2, 4), (3, 5)), ("cblas_dscal", (2,), (3,)), ("cblas_dnrm2", (1,), (2,)), ("cblas_dasum", (1,), (2,))):
            if q == name and all(one(a[i]) for i in st_):
                for i in ps:
                    yield "operand %d" % i, self.span(st, a[i], a[0])
        if q == "cblas_dgemv" and len(a) == 12:
            m, n = a[2], a[3]
            t = ename(a[1]) == "CblasTrans"
            yield "matrix", self.span(st, a[5], m, a[6], n)
            yield "vector", self.span(st, a[7], m if t else n)
            yield "result", self.span(st, a[10], n if t else m)
        if q == "cblas_dgemm" and len(a) == 14:
            m, n, k = a[3:6]
            for nm, p, ld, t, r, c in (("first", a[7], a[8], a[1], m, k), ("second", a[9], a[10], a[2], k, n), ("result", a[12], a[13], None, m, n)):
                if t is not None and ename(t) == "CblasTrans":
                    r, c = c, r
                yield nm, self.span(st, p, r, ld, c)
        if q == "cblas_dtrsv" and len(a) == 9:
            yield "matrix", self.span(st, a[5], a[4], a[6], a[4])
            yield "vector", self.span(st, a[7], a[4])
        V = lambda i: self.val(st, a[i])
        if q == "dpotrf_":
            yield "matrix", self.span(st, a[2], V(1), V(3), V(1))
        if q == "dgetrf_":
            yield "matrix", self.span(st, a[2], V(0), V(3), V(1))
            yield "pivots", self.span(st, a[4], V(0))
        if q == "dgetri_":
            yield "matrix", self.span(st, a[1], V(0), V(2), V(0))
            yield "pivots", self.span(st, a[3], V(0))
            yield "work", self.span(st, a[4], V(5))
        if q == "dgetrs_":
            yield "matrix", self.span(st, a[3], V(1), V(4), V(1))
            yield "right-hand side", self.span(st, a[6], V(1), V(7), V(2))
        if q == "dgesv_":
            yield "matrix", self.span(st, a[2], V(0), V(3), V(0))
            yield "pivots", self.span(st, a[4], V(0))
            yield "right-hand side", self.span(st, a[5], V(0), V(6), V(1))

    def counted(self, c, st):
        """arrays handed with their length to a function of the repository that takes pointers"""
        g = self.ctx.prog.funcs.get(c.fid)
        if g is None or c.inlined:
            return
        n = [i for i, p in enumerate(g.p) if p["t"].replace("const ", "").strip() in ("int", "unsigned int", "unsigned", "size_t")]
        ptr = [i for i, p in enumerate(g.p) if p["t"].replace("const ", "").strip() == "double *"]
        if len(n) == 1 and len(g.p) == len(c.args):
            for i in ptr:
                yield "%s" % g.p[i]["n"], self.span(st, c.args[i], c.args[n[0]])

    def ordered(self, st, b, o1, o2):
        kind, m = self.base(st, b)
        if kind == "ptr":
            return None if m is None else self.P.within(st, o2, m, False)
        if self.run(st, kind, m, o1, op("-", o2, o1)) and self.P.within(st, ZERO, op("-", o2, o1), False):
            return True
        if kind == "mat":
            m = op("*", *m)
        up = self.P.within(st, o2, m, False) or self.same(st, o2, m)
        return up and self.P.cases(st, [o1, o2], lambda h, t: h.le(ZERO, t[0]) and (h.le(t[0], t[1])))

    def length(self, v):
        """number of elements of the array behind a data pointer"""
        if v.k in ("fill", "upd") or v.k == "mut":
            return self.length(v.a[1] if v.k == "mut" else v.a[0])
        if v.k == "ite":
            c = v.a[0]
            empty = lambda x: x.k == "op" and x.a[0] == "==" and any(y.k == "null" for y in x.a[1:]) and any(y.k == "iter" for y in x.a[1:])
            # no array, no elements
            a = ZERO if empty(c) else self.length(v.a[1])
            b = ZERO if c.k == "un" and c.a[0] == "!" and empty(c.a[1]) else self.length(v.a[2])
            return None if a is None or b is None else ite(v.a[0], a, b)
        if v.k == "fld":
            b = v.a[0]
            return self.length(b.a[0]) if b.k == "adopt" else self.length(b)
        if v.k == "null":
            return ZERO
        if v.k in ("init", "D") and v.a[0].k in ("D", "newarr"):
            b = v.a[0] if v.a[0].k == "D" else v
            if b.a[0].k == "newarr":
                return b.a[0].a[1]
        if v.k == "snap" and any(x is not None for x in v.a[1:]):
            return self.length(v.a[0])
        if v.k == "init" and v.a[0].k == "F" and v.a[0].a[0] is THIS:
            v = ME
        if v.k in ("init", "lv"):
            return size(v) if self.fn.cls == VEC else op("*", dimq("nrows", v), dimq("ncols", v))
        return None

    def invariant(self):
        """the size recorded in the object is the length of its array"""
        st, cls, I = self.F.st, self.fn.cls, self.P.I
        if st is None or self.fn.n.startswith("~"):
            return
        v = I.load(st, F(THIS, cls + ("::data" if cls == VEC else "::matrix")))
        if v.k == "init" or v.k == "fld" and v.a[0].k == "lv":
            return
        n = self.length(v)

        def plain(x):
            if x.k == "size" and x.a[0].k == "mut" and x.a[0].a[0] in ("std::sort", "std::reverse", "std::shuffle", "std::iota", "std::stable_sort", "std::fill"):
                return size(x.a[0].a[1])
        from .sur import rewrite
        want = I.load(st, F(THIS, VEC + "::size")) if cls == VEC else op("*", I.load(st, F(THIS, MAT + "::nrows")), I.load(st, F(THIS, MAT + "::ncols")))
        want = rewrite(want, plain)
        if n is not None and any(x.k == "mut" and x.a[0] in ("std::unique", "std::vector::erase") for x in subterms(n)):
            return
        self.ob("size of the array", n is not None and self.same(st, n, want), self.fn.where(), "the array has %s elements, the object says %s" % (show(n)[:200] if n is not None else show(v)[:200], show(want)[:200]))

    def check(self):
        self.invariant()
        for loc, st, node, w in self.h.acc:
            b, i = loc.a
            if b.k == "V" or i.k == "str":
                continue
            if any(x.k == "elem" or x.k == "init" and x.a[0].k == "E" for x in subterms(i)):
                continue          # positions stored in an array (pivots) are data
            if b.k == "D" and b.a[0].k == "newarr" and any(x.k == "mut" and x.a[0] in ("std::unique", "std::vector::erase") for x in subterms(b.a[0].a[1])):
                continue          # the length depends on how many entries of a list differ
            ok, n = self.inside(st, b, i)
            if ok is None:
                continue
            self.ob("element of %s" % self.name(b), ok, w, "%s is not shown to be inside (%s)" % (show(loc)[:200], n))
        for c, st, w in self.h.calls:
            for what, ok in self.library(c, st):
                if ok is None:
                    continue
                self.ob("%s, %s" % (c.n, what), ok, w, "%s(%s) may leave it" % (c.n, ", ".join(show(x)[:60] for x in c.args)))
        for c, st, w in self.h.own:
            for what, ok in self.counted(c, st):
                self.ob("%s, argument %s" % (c.n, what), ok is not False, w, "%s(%s) may leave it" % (c.n, ", ".join(show(x)[:60] for x in c.args)))


def called_outside(prog):
    """functions of the vector and matrix classes that other code calls"""
    out = set()
    for f in prog.funcs.values():
        if f.cls in (VEC, MAT):
            continue
        for x in walk(f.body):
            if x.get("k") == "Call" and x.get("f") in prog.funcs:
                out.add(x["f"])
    return out


def M01_storage(ctx):
    """element accesses and ranges handed to library routines"""
    r = "storage"
    used = called_outside(ctx.prog)
    for cls in (VEC, MAT):
        names = {f.n for f in ctx.prog.funcs.values() if f.cls == cls}
        for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.where()):
            # helpers that are not operations of their own are analysed in the operations that use them;
            # the variants of an operation are analysed inside the operation, after the checks it makes
            variant = any(f.n.endswith(x) and f.n[:-len(x)] in names for x in ("Naive", "OpenBlas")) or f.n.endswith("Naive")
            if f.cls == cls and f.n not in SKIP + NAIVE and (not variant or f.id in used) and f.q in absint.known_fns() and f.where().startswith("src/LinearAlgebra"):
                Storage(ctx, f, r).check()
