"""Canonical form of values: Laurent polynomials over atoms with 0/1 indicators for conditions and linear sums."""
from fractions import Fraction
from rodsa import absint
from rodsa.absint import T, mk, INT, TRUE, FALSE, op, ite, subst, subterms, contains, dimq, UNSIGNED, show, neg, depth_of
from .common import Poly, ONE, FUN1, canon_fun, _const, atom, pinv
from .content import Hyp, norm, content, integer, strict

ENUMS = ("enum", "str", "null", "fnref")
ZERO = Poly({})
UNIT = Poly(dict(ONE))


def const(c):
    return Poly({(): Fraction(c)})


class Big(Exception):
    pass


def plin(p):
    """linear form of a polynomial over its monomials"""
    out = {}
    for k, v in p.m.items():
        if k == ():
            out[None] = v
        elif len(k) == 1 and k[0][1] == 1:
            out[k[0][0]] = v
        else:
            out[mk("mono", tuple(k))] = v
    return out


def is_ind(a):
    return a.k == "ind"


def inds(p):
    s = set()
    for k in p.m:
        for a, e in k:
            if a.k == "ind":
                s.add(a)
    return sorted(s, key=lambda a: a.id)


class Val:
    count = 0

    def __init__(self, H=None, limit=3000):
        self.H = H or Hyp()
        self.memo = {}
        self.fresh = 0
        Val.count += 1
        self.num = Val.count
        self.limit = limit
        self._reps = None

    # ---- indicators
    def red(self, p):
        """idempotent indicators, thresholds on the same quantity combined, contradictions dropped"""
        out = {}
        for k, v in p.m.items():
            if any(a.k == "ind" for a, e in k):
                k = self.redk(k)
                if k is None:
                    continue
                m = self.use_eq(k)
                if m is not None:
                    for k2, v2 in m.m.items():
                        out[k2] = out.get(k2, 0) + v * v2
                    continue
            out[k] = out.get(k, 0) + v
        if len(out) > self.limit:
            raise Big()
        return Poly(out)

    def use_eq(self, k):
        """an equality indicator used on the rest of its monomial"""
        for a, e in k:
            if a.k == "ind" and a.a[0] == "eq":
                rest = Poly({tuple(x for x in k if x[0] is not a): Fraction(1)})
                r = self.eqsub(rest, unpoly(a.a[1]), a.a[2].v)
                if r is not rest and r.key() != rest.key():
                    return self.mul(atom(a), r)
        return None

    def redk(self, k):
        gt, eq, isx, rest = {}, {}, {}, []
        for a, e in k:
            if a.k != "ind":
                rest.append((a, e))
                continue
            kind = a.a[0]
            if kind == "gt":
                q = a.a[1]
                if q not in gt or gt[q] < a.a[2].v:
                    gt[q] = a.a[2].v
            elif kind == "eq":
                q = a.a[1]
                if q in eq and eq[q] != a.a[2].v:
                    return None
                eq[q] = a.a[2].v
            elif kind == "is":
                if a.a[1] in isx and isx[a.a[1]] is not a.a[2]:
                    return None
                isx[a.a[1]] = a.a[2]
                rest.append((a, 1))
            else:
                rest.append((a, 1))
        for q, c in eq.items():
            if q in gt:
                if not c > gt.pop(q):
                    return None
            rest.append((ind("eq", q, c), 1))
        for q, c in gt.items():
            rest.append((ind("gt", q, c), 1))
        d = {}
        for a, e in rest:
            d[a] = 1 if a.k == "ind" else e
        return tuple(sorted(d.items(), key=lambda x: x[0].id))

    def mul(self, a, b):
        if len(a.m) * len(b.m) > 40 * self.limit:
            raise Big()
        return self.red(a * b)

    def split(self, p, x):
        """p with indicator x set to 1 / 0"""
        one, zero = {}, {}
        for k, v in p.m.items():
            if any(a is x for a, e in k):
                k2 = tuple((a, e) for a, e in k if a is not x)
                one[k2] = one.get(k2, 0) + v
            else:
                one[k] = one.get(k, 0) + v
                zero[k] = zero.get(k, 0) + v
        return Poly(one), Poly(zero)

    def shannon(self, ps, f, n=0):
        """apply f to indicator free versions of the polynomials"""
        xs = set()
        for p in ps:
            xs |= set(inds(p))
        if not xs:
            return f(ps)
        if n > 9:
            raise Big()
        x = min(xs, key=lambda a: a.id)
        s = [self.split(p, x) for p in ps]
        a = self.shannon([y[0] for y in s], f, n + 1)
        b = self.shannon([y[1] for y in s], f, n + 1)
        X = atom(x)
        return self.mul(X, a) + self.mul(UNIT + X.scale(-1), b)

    def integral(self, p):
        return all(v.denominator == 1 for v in p.m.values()) and all(
            e > 0 and integer(a) for k in p.m for a, e in k)

    def positive(self, d):
        """indicator of d > 0"""
        def f(ps):
            d = ps[0]
            c = d.m.get((), Fraction(0))
            if set(d.m) <= {()}:
                return UNIT if c > 0 else ZERO
            isint = self.integral(d)
            e = Poly({k: v for k, v in d.m.items() if k != ()})
            key = e.key()
            lead = key[0][1]
            if isint:
                if lead < 0:
                    return UNIT + f([const(1) + d.scale(-1)]).scale(-1)
                q = mk("poly", key)
                c = -c                       # e > c
                if self.nonneg(e) and c < 0:
                    return UNIT
                return atom(ind("gt", q, c))
            g = 1 / abs(lead)
            e2, c2 = e.scale(g if lead > 0 else -g), c * g * (1 if lead > 0 else -1)
            q = mk("poly", e2.key())
            # lead > 0 :  e2 + c2 > 0  <=>  e2 > -c2 ;  lead < 0 :  -(e2 + c2) > 0  <=>  e2 < -c2
            if lead > 0:
                return atom(ind("gt", q, -c2))
            return UNIT + atom(ind("gt", q, -c2)).scale(-1) + atom(ind("eq", q, -c2)).scale(-1)
        return self.shannon([d], f)

    def zero(self, d):
        def f(ps):
            d = ps[0]
            c = d.m.get((), Fraction(0))
            if set(d.m) <= {()}:
                return UNIT if c == 0 else ZERO
            e = Poly({k: v for k, v in d.m.items() if k != ()})
            lead = e.key()[0][1]
            if self.integral(d):
                return self.positive(d + const(1)) + self.positive(d).scale(-1)
            g = 1 / lead
            return atom(ind("eq", mk("poly", e.scale(g).key()), -c * g))
        return self.shannon([d], f)

    def nonneg(self, e):
        return all(v > 0 and all(x > 0 and (a in UNSIGNED or a.k in ("size", "nrows", "ncols")) for a, x in k) for k, v in e.m.items())

    def b(self, c):
        """0/1 value of a condition"""
        key = ("b", c)
        if key in self.memo:
            return self.memo[key]
        r = self._b(c)
        self.memo[key] = r
        return r

    def _b(self, c):
        if c is TRUE:
            return UNIT
        if c is FALSE:
            return ZERO
        k = c.k
        if k == "int":
            return UNIT if c.a[0] else ZERO
        if k == "un" and c.a[0] == "!":
            return UNIT + self.b(c.a[1]).scale(-1)
        if k == "ite":
            i = self.b(c.a[0])
            return self.mul(i, self.b(c.a[1])) + self.mul(UNIT + i.scale(-1), self.b(c.a[2]))
        if k == "op":
            o, x, y = c.a
            if o == "&&":
                return self.mul(self.b(x), self.b(y))
            if o == "||":
                p, q = self.b(x), self.b(y)
                return p + q + self.mul(p, q).scale(-1)
            if o == "<":
                return self.positive(self.p(y) + self.p(x).scale(-1))
            if o == "<=":
                return UNIT + self.positive(self.p(x) + self.p(y).scale(-1)).scale(-1)
            if o == "==":
                for u, v in ((x, y), (y, x)):
                    if v.k in ENUMS:
                        def f(ps, v=v):
                            t = pt(ps[0])
                            if t is v:
                                return UNIT
                            if t.k in ENUMS:
                                return ZERO
                            return atom(ind("is", t, v))
                        return self.shannon([self.p(u)], f)
                if boolish(x) or boolish(y):
                    p, q = self.b(x), self.b(y)
                    m = self.mul(p, q)
                    return UNIT + p.scale(-1) + q.scale(-1) + m.scale(2)
                return self.zero(self.p(x) + self.p(y).scale(-1))
        if k in ("exists", "forall"):
            lo, hi, body = c.a
            if k == "forall":
                return UNIT + self.b(mk("exists", lo, hi, neg(body))).scale(-1)
            return self.exists(lo, hi, body)
        if k == "poly" or k == "ind":
            return self.p(c)
        if k in ("bounded",):
            pass
        return atom(ind("b", self.cl(c), None))

    def exists(self, lo, hi, body):
        v = self.freshvar()
        body = subst(body, {mk("bv", depth_of(body) + 1): v})
        lo_, hi_ = self.p(lo), self.p(hi)
        ab = self.area(hi_) if not lo_.m else None
        if ab:
            # a position in a matrix: row and column
            a, b = ab
            w = self.freshvar()
            p = self.b(subst(body, {v: op("+", op("*", w, a), v)}))
            one = self.exists_(self.within(p, v, atom(a)), v, atom(a))
            return self.exists_(self.within(one, w, atom(b)), w, atom(b))
        p = self.b(body)
        if lo_.m and self.nonneg(lo_) and (any(x.k == "bv" for k in lo_.m for a, e in k for x in subterms(a)) or self.inner(p)):
            p = self.mul(p, UNIT + self.positive(lo_ + atom(v).scale(-1)).scale(-1))
        else:
            p, hi_ = self.shift(p, v, lo_, hi_)
        p = self.within(p, v, hi_)
        return self.exists_(p, v, hi_)

    def area(self, p):
        """(rows, columns) for rows * columns"""
        s = p.single()
        if s is None or s[1] != 1 or len(s[0]) != 2 or any(e != 1 for a, e in s[0]):
            return None
        (a, _), (b, _) = s[0]
        if a.k == "nrows" and b.k == "ncols":
            return a, b
        if b.k == "nrows" and a.k == "ncols":
            return b, a
        return None

    def inner(self, p):
        return [a for a in inds(p) if a.a[0] == "b" and a.a[1].k == "qexists"]

    def exists_(self, p, v, hi_, nest=True):
        if not dep_on(p, v):
            return self.mul(p, self.positive(hi_))
        inv = [a for a in inds(p) if not contains(a, v)]
        if inv and len(inv) < 7:
            a = inv[0]
            one, zero = self.split(p, a)
            return self.mul(atom(a), self.exists_(one, v, hi_, nest)) + self.mul(UNIT + atom(a).scale(-1), self.exists_(zero, v, hi_, nest))
        n = self.nested(p, v, hi_) if nest else None
        return self.mul(self.positive(hi_), n or self.close("exists", None, hi_, p, v))

    def nested(self, p, v, h1):
        """two quantifiers one inside the other, in an order that does not depend on how they were written"""
        es = self.inner(p)
        if not es or len(es) > 4:
            return None
        his = {a.a[1].a[1] for a in es}
        if len(his) != 1:
            return None
        w = self.freshvar()
        h2 = self.p(next(iter(his)))
        P = self.merged(p, {a: self.resub(unpoly(a.a[1].a[2]), {a.a[1].a[3]: w}) for a in es})
        if P is None:
            return None
        if dep_on(h2, v):
            c = plin(h2).get(v)
            if c is None or any(contains(a, v) for k in h2.m for a, e in k if len(k) > 1 or a is not v):
                return None
            P = self.mul(P, self.positive(h2 + atom(w).scale(-1)))
            h2 = self.resub(h2, {v: pt(h1) if c > 0 else INT(0)})
        P = self.implied(P, v, h1, w, h2)
        x, y = self.two(P, v, h1, w, h2), self.two(P, w, h2, v, h1)
        return x if pt(x).id < pt(y).id else y

    def implied(self, P, v, h1, w, h2):
        """without conditions on the variables that follow from others"""
        h = Hyp()
        h.f = list(self.H.f)
        for x, n in ((v, h1), (w, h2)):
            d = plin(n)
            d[x] = d.get(x, 0) - 1
            d[None] = d.get(None, 0) - 1
            h.f += [d, {x: Fraction(1)}]
        own = [a for a in inds(P) if a.a[0] == "gt" and len(plin(unpoly(a.a[1]))) < 4 and all(x in (None, v, w) or integer(x) for x in plin(unpoly(a.a[1])))]
        for b in own[:6]:
            g = h.copy()
            q = plin(unpoly(b.a[1]))
            q[None] = q.get(None, 0) - b.a[2].v
            g.f.append(self.above(unpoly(b.a[1]), q))
            for a in own[:6]:
                if a is not b and a in inds(P) and b in inds(P) and self.truth(a, g):
                    one, zero = self.split(P, b)
                    P = self.red(self.mul(atom(b), self.split(one, a)[0]) + self.mul(UNIT + atom(b).scale(-1), zero))
        return P

    def merged(self, p, bodies, n=0):
        """p with the inner quantifiers replaced by their bodies, where p is one of them in every case"""
        es = [a for a in inds(p) if a in bodies]
        if not es:
            return ZERO if not p.m else None
        xs = [a for a in inds(p) if a not in bodies]
        if not xs:
            return bodies[es[0]] if len(es) == 1 and p.m == atom(es[0]).m else None
        if n > 6:
            return None
        one, zero = self.split(p, xs[0])
        a, b = self.merged(self.red(one), bodies, n + 1), self.merged(self.red(zero), bodies, n + 1)
        if a is None or b is None:
            return None
        X = atom(xs[0])
        return self.mul(X, a) + self.mul(UNIT + X.scale(-1), b)

    def two(self, P, v, h1, w, h2):
        q = self.exists_(self.within(self.within(P, v, h1), w, h2), w, h2, False)
        return self.exists_(self.within(q, v, h1), v, h1, False)

    # ---- values
    def freshvar(self):
        self.fresh += 1
        v = mk("bv", ("f", self.num, self.fresh))
        UNSIGNED.add(v)
        return v

    def shift(self, p, v, lo, hi):
        """sum over [lo,hi) of p  ->  range starting at 0"""
        if not lo.m:
            return p, hi
        sub = self.resub(p, {v: pt(atom(v) + lo)})
        return sub, hi + lo.scale(-1)

    def resub(self, p, m):
        """substitute inside a canonical polynomial and renormalise"""
        out = ZERO
        for k, c in p.m.items():
            t = const(c)
            for a, e in k:
                t = self.mul(t, self.power(self.reatom(a, m), e))
            out = out + t
        return self.red(out)

    def power(self, q, e):
        if e < 0:
            q = self.shannon([q], lambda ps: pinv(ps[0]))
            e = -e
        r = UNIT
        for _ in range(e):
            r = self.mul(r, q)
        return r

    def reatom(self, a, m):
        if a in m:
            return self.p(m[a])
        if not any(contains(a, x) for x in m):
            return atom(a)
        if a.k == "ind":
            if a.a[0] == "gt":
                return self.positive(self.resub(unpoly(a.a[1]), m) + const(-a.a[2].v))
            if a.a[0] == "eq":
                return self.zero(self.resub(unpoly(a.a[1]), m) + const(-a.a[2].v))
            if a.a[0] == "b":
                return self.b(self.subcl(a.a[1], m))
            return self.b(op("==", pt(self.resub(atom(a.a[1]), m)), a.a[2]))
        if a.k in ("qagg", "qexists"):
            kind, hi, body, n = a.a
            v = self.freshvar()
            p = self.resub(self.resub(unpoly(body), {n: v}), m)
            h = self.resub(unpoly(hi), m)
            if a.k == "qexists":
                return self.nested(p, v, h) or self.close("exists", None, h, p, v)
            if kind == "sum":
                return self.sum(h, p, v)
            if kind == "prod" and not h.m:
                return UNIT
            return self.close("agg", kind, h, p, v)
        if a.k == "poly":
            return self.resub(unpoly(a), m)
        if a.k == "fun":
            ps = [self.resub(unpoly(x) if x.k == "poly" else atom(x), m) for x in a.a[1:]]
            return self.fun(a.a[0], ps)
        return self.p(self.subcl(a, m))

    def subcl(self, t, m):
        if t in m:
            return m[t]
        if t.k in ("poly", "ind", "qagg", "qexists", "fun"):
            return pt(self.reatom(t, m))
        if not any(contains(t, x) for x in m):
            return t
        f = lambda x: self.subcl(x, m) if isinstance(x, T) else (tuple(f(y) for y in x) if isinstance(x, tuple) else x)
        a = tuple(f(x) for x in t.a)
        return mk(t.k, *a) if t.k not in ("op", "ite") else (op(*a) if t.k == "op" else ite(*a))

    def depth(self, p):
        n = 0
        for k in p.m:
            for a, e in k:
                for x in subterms(a):
                    if x.k in ("qagg", "qexists"):
                        n = max(n, x.a[3].a[0] if isinstance(x.a[3].a[0], int) else 0)
        return n

    def close(self, what, kind, hi, p, v):
        n = mk("bv", self.depth(p) + 1)
        UNSIGNED.add(n)
        q = self.resub(p, {v: n})
        if kind == "sum" and q.m != {k: Fraction(1) for k in q.m} or kind == "sum" and len(q.m) != 1:
            out = ZERO
            for k, c in q.m.items():
                ins = tuple((a, e) for a, e in k if contains(a, n))
                o = Poly({tuple((a, e) for a, e in k if not contains(a, n)): c})
                out = out + self.mul(o, atom(mk("qagg", kind, pt(hi), pt(Poly({ins: Fraction(1)})), n)) if ins else hi)
            return out
        return atom(ind("b", mk("qexists", None, pt(hi), pt(q), n), None) if what == "exists" else mk("qagg", kind, pt(hi), pt(q), n))

    def within(self, p, v, hi):
        """decide indicators about v by 0 <= v < hi"""
        if not any(contains(a, v) for a in inds(p)):
            return p
        h = Hyp()
        h.f = list(self.H.f)
        d = plin(hi)
        d[v] = d.get(v, 0) - 1
        d[None] = d.get(None, 0) - 1
        h.f.append(d)
        h.f.append({v: Fraction(1)})
        return self.decide(p, h)

    def decide(self, p, h):
        out = p
        for a in inds(p):
            x = self.truth(a, h)
            if x is not None:
                one, zero = self.split(out, a)
                out = one if x else zero
        return out

    def above(self, q, d):
        """d > 0, for d a difference of q and a constant"""
        if self.integral(q) and Fraction(d.get(None, 0)).denominator == 1:
            d = dict(d)
            d[None] = d.get(None, 0) - 1
            return d
        return strict(d)

    def truth(self, a, h):
        """an indicator decided by linear facts"""
        if a.a[0] not in ("gt", "eq"):
            return None
        q, c = plin(unpoly(a.a[1])), a.a[2].v
        up = dict(q)
        up[None] = up.get(None, 0) - c
        up = self.above(unpoly(a.a[1]), up)            # q - c > 0 : above
        dn = {k: -x for k, x in q.items()}
        dn[None] = dn.get(None, 0) + c                 # c - q >= 0 : not above
        if a.a[0] == "gt":
            if h.proves(up):
                return True
            if h.proves(dn):
                return False
            return None
        if h.proves(up):
            return False
        if h.proves(self.above(unpoly(a.a[1]), dn)):
            return False
        ge = dict(q)
        ge[None] = ge.get(None, 0) - c
        if h.proves(dn) and h.proves(ge):
            return True
        return None

    def sum(self, hi, p, v):
        p = self.within(p, v, hi)

        def f(ps):
            hi = ps[0]
            if set(hi.m) <= {()} and hi.m.get((), 0) <= 0:
                return ZERO
            out = ZERO
            groups = {}
            for k, c in p.m.items():
                ins = tuple((a, e) for a, e in k if contains(a, v))
                outs = tuple((a, e) for a, e in k if not contains(a, v))
                groups.setdefault(outs, {})[ins] = c
            for outs, g in groups.items():
                for ins, c in g.items():
                    o = Poly({outs: c})
                    if not ins:
                        out = out + self.mul(o, hi)
                        continue
                    out = out + self.mul(o, self.close("agg", "sum", hi, Poly({ins: Fraction(1)}), v))
            return self.red(out)
        return self.shannon([hi], f)

    def p(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._p(t)
            self.memo[t] = r
        return r

    def _p(self, t):
        c = _const(t)
        if c is not None:
            return const(c)
        k = t.k
        if k == "poly":
            return unpoly(t)
        if k in ("ind", "qagg", "fun"):
            return atom(t)
        if k == "op":
            o, x, y = t.a
            if o == "+":
                return self.p(x) + self.p(y)
            if o == "-":
                return self.p(x) + self.p(y).scale(-1)
            if o == "*":
                return self.mul(self.p(x), self.p(y))
            if o == "/":
                d = self.p(y)
                return self.mul(self.p(x), self.shannon([d], lambda ps: pinv(ps[0])))
            if o in ("<", "<=", "==", "&&", "||"):
                return self.b(t)
        if k == "un":
            if t.a[0] == "-":
                return self.p(t.a[1]).scale(-1)
            if t.a[0] == "+":
                return self.p(t.a[1])
            if t.a[0] == "!":
                return self.b(t)
        if k in ("exists", "forall"):
            return self.b(t)
        if k == "ite":
            i = self.b(t.a[0])
            return self.mul(i, self.p(t.a[1])) + self.mul(UNIT + i.scale(-1), self.p(t.a[2]))
        if k == "call" and canon_fun(t.a[0]) in FUN1 and ("::" not in t.a[0] or t.a[0].startswith("std::")):
            return self.fun(canon_fun(t.a[0]), [self.p(x) for x in t.a[1:]])
        if k == "call" and t.a[0] in ("maximum", "minimum") and len(t.a) == 3:
            x, y = t.a[1], t.a[2]
            return self.p(ite(op("<", x, y), y, x) if t.a[0] == "maximum" else ite(op("<", y, x), y, x))
        if k == "agg":
            kind, lo, hi, body = t.a
            v = self.freshvar()
            body = subst(body, {mk("bv", depth_of(body) + 1): v})
            p = self.p(body)
            lo_, hi_ = self.p(lo), self.p(hi)
            p, hi_ = self.shift(p, v, lo_, hi_)
            if kind == "sum":
                return self.sum(hi_, p, v)
            p = self.within(p, v, hi_)
            return self.shannon([hi_], lambda ps: UNIT if kind == "prod" and not ps[0].m else self.close("agg", kind, ps[0], p, v))
        if k == "init" and t.a[0].k == "E":
            return self.element(t)
        if k == "init" and t.a[0].k == "F" and absint.VALF.get(t.a[0].a[1], "data") != "data":
            return self.p(dimq(absint.VALF[t.a[0].a[1]], mk("init", t.a[0].a[0])))
        r = self.cl(t)
        if r is not t and r.k in ("op", "ite", "poly"):
            return self.p(r)
        return atom(self.reps().get(r, r))

    def reps(self):
        """representatives of sizes known to be equal"""
        n = len(self.H.f)
        if self._reps is None or self._reps[0] != n:
            m = {}
            keys = {frozenset(d.items()) for d in self.H.f if len(d) == 2}
            def find(x):
                while x in m:
                    x = m[x]
                return x
            for d in self.H.f:
                if len(d) == 2 and None not in d and sum(d.values()) == 0 and frozenset((k, -v) for k, v in d.items()) in keys:
                    a, b = sorted((find(x) for x in d), key=lambda x: (x.k not in ("size", "nrows", "ncols"), x.id))
                    if a is not b:
                        m[b] = a
            self._reps = (n, {x: find(x) for x in m})
        return self._reps[1]

    def element(self, t):
        """initial element of an array or matrix: index as a canonical position"""
        loc, k = t.a[0].a
        loc = self.cl(loc)
        if k.k == "tup" and len(k.a) == 2:
            ps = [self.p(k.a[0]) + self.mul(self.p(k.a[1]), self.p(dimq("nrows", mk("init", loc))))]
            f = lambda ps: atom(mk("init", absint.E(loc, pt(ps[0]))))
        elif k.k == "tup":
            return atom(self.rebuild(t))
        else:
            ps = [self.p(k)]
            f = lambda ps: atom(mk("init", absint.E(loc, pt(ps[0]))))
        return self.shannon(ps, f)

    def fun(self, fn, ps):
        def f(args):
            if fn == "pow" and len(args) == 2:
                e = args[1]
                if set(e.m) <= {()}:
                    e = e.m.get((), Fraction(0))
                    if e.denominator == 1 and -4 <= e <= 6:
                        return self.power(args[0], int(e)) if e else UNIT
                    if e == Fraction(1, 2):
                        return f1("sqrt", args[0])
            return f1(fn, *args)

        def f1(fn, *args):
            if fn == "sqrt" and set(args[0].m) <= {()} and args[0].m.get((), 0) > 0:
                return const(Fraction(float(args[0].m[()]) ** 0.5).limit_denominator(10 ** 12))
            if fn == "exp" and not args[0].m:
                return UNIT
            if fn == "fabs":
                a = args[0]
                if set(a.m) <= {()}:
                    return const(abs(a.m.get((), Fraction(0))))
                if a.key()[0][1] < 0:
                    a = a.scale(-1)
                # |x| = x [x>0] - x (1 - [x>0])
                g = self.positive(a)
                return self.mul(a, g.scale(2) + UNIT.scale(-1))
            return atom(mk("fun", fn, *[pt(a) for a in args]))
        return self.shannon(ps, f)

    def cl(self, t):
        """canonical term (arguments normalised)"""
        key = ("cl", t)
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._cl(t)
        self.memo[key] = r
        return r

    def _cl(self, t):
        if t.k == "elem":
            r = content(t.a[0], t.a[1], self.H)
            if r is not t:
                if r.k == "elem":
                    return self.rebuild(r)
                return pt(self.p(r))
        if t.k in ("size", "nrows", "ncols"):
            r = dimq(t.k, t.a[0])
            if r is not t:
                return pt(self.p(r))
        if t.k in ("int", "flt", "str", "enum", "null", "bv", "this", "p", "P", "void"):
            return t
        if t.k == "un" and t.a[0] not in ("-", "+", "!") or t.k == "op" and t.a[0] not in ("+", "-", "*", "/", "<", "<=", "==", "&&", "||"):
            return self.rebuild(t)
        if t.k in ("op", "ite", "un", "agg", "exists", "forall") or t.k == "init" and t.a[0].k == "E":
            return pt(self.p(t))
        return self.rebuild(t)

    def rebuild(self, t):
        def f(x):
            if isinstance(x, T):
                return self.cl(x)
            if isinstance(x, tuple):
                return tuple(f(y) for y in x)
            return x
        a = tuple(f(x) for x in t.a)
        if t.k == "call" and t.a[0].startswith("std::"):
            a = (t.a[0][5:],) + a[1:]
        if a == t.a:
            return t
        r = mk(t.k, *a)
        if t in UNSIGNED:
            UNSIGNED.add(r)
        return r

    # ---- comparison
    def diff(self, a, b, assume=()):
        d = self.p(a) + self.p(b).scale(-1)
        return self.under(d, assume)

    def under(self, d, assume):
        for c in assume:
            d = self.mul(d, self.b(c))
        return d

    def eq(self, a, b, assume=()):
        if a is b:
            return True
        try:
            d = self.diff(a, b, assume)
            return self.vanish(d, self.p(a), self.p(b))
        except Big:
            return False

    def vanish(self, d, pa=None, pb=None):
        d = clear(d, self)
        if not d.m:
            return True
        if self.cases(d, self.H, 0):
            return True
        if pa is None:
            return False
        big = max([abs(v) for v in pa.m.values()] + [abs(v) for v in pb.m.values()] + [Fraction(0)])
        return big > 0 and all(abs(v) < big / 10 ** 9 and v.denominator > 10 ** 6 for v in d.m.values())

    def cases(self, d, h, n):
        """d = 0 in every consistent combination of its indicators"""
        d = self.decide(clear(d, self), h)
        if not d.m:
            return True
        xs = inds(d)
        if not xs:
            g = plin(d)
            return all(k is None or isinstance(k, T) for k in g) and len(d.m) <= 12 and h.proves(g) and h.proves({k: -v for k, v in g.items()})
        if n > 24:
            raise Big()
        xs.sort(key=lambda a: (a.a[0] not in ("gt", "eq"), a.id))
        # an integer quantity squeezed to one value
        x = xs[0]
        one, zero = self.split(d, x)
        if x.a[0] == "b" or x.a[0] == "is":
            return self.cases(one, h, n + 1) and self.cases(zero, h, n + 1)
        q, c = unpoly(x.a[1]), x.a[2].v
        i = 1 if self.integral(q) else 0
        ql = plin(q)
        up = dict(ql)
        up[None] = up.get(None, 0) - c
        up = self.above(q, up)
        dn = {k: -v for k, v in ql.items()}
        dn[None] = dn.get(None, 0) + c
        h1 = Hyp()
        h1.f = list(h.f)
        h0 = Hyp()
        h0.f = list(h.f)
        if x.a[0] == "gt":
            h1.f.append(up)
            h0.f.append(dn)
            return self.cases(self.squeeze(one, q, c, h1, 1, i), h1, n + 1) and self.cases(self.squeeze(zero, q, c, h0, 0, i), h0, n + 1)
        ge = dict(ql)
        ge[None] = ge.get(None, 0) - c
        h1.f += [dn, ge]
        return self.cases(self.eqsub(one, q, c), h1, n + 1) and self.cases(zero, h0, n + 1)

    def squeeze(self, d, q, c, h, pos, i):
        """substitute when the facts leave one value for q"""
        if not i:
            return d
        v = c + 1 if pos else c
        g = {k: (-x if pos else x) for k, x in plin(q).items()}
        g[None] = g.get(None, 0) + (v if pos else -v)
        return self.eqsub(d, q, v) if h.proves(g) else d

    def eqsub(self, d, q, c):
        """use q = c to eliminate a variable"""
        best = None
        for k, v in q.m.items():
            if len(k) == 1 and k[0][1] == 1 and abs(v) == 1:
                a = k[0][0]
                if a.k in ("bv", "init", "size", "nrows", "ncols", "elem", "call"):
                    r = (a.k != "bv", -a.id)
                    if best is None or r < best[0]:
                        best = (r, a, v)
        if best is None:
            return d
        a, v = best[1:]
        rest = Poly({k: x for k, x in q.m.items() if k != ((a, 1),)})
        val = (const(c) + rest.scale(-1)).scale(v)
        if any(contains(x, a) for k in val.m for x, e in k):
            return d
        return self.resub(d, {a: pt(val)})

    def iff(self, a, b, assume=()):
        try:
            return self.vanish(self.under(self.b(a) + self.b(b).scale(-1), assume))
        except Big:
            return False

    def implies(self, a, b, assume=()):
        try:
            return self.vanish(self.under(self.mul(self.b(a), UNIT + self.b(b).scale(-1)), assume))
        except Big:
            return False


def clear(d, V):
    """multiply out 1/poly atoms"""
    for _ in range(6):
        den = None
        for k in d.m:
            for at, e in k:
                if e < 0 and at.k == "poly":
                    den = at
                    break
            if den:
                break
        if den is None:
            break
        dp = unpoly(den)
        r = ZERO
        worst = min(e for k in d.m for at, e in k if at is den)
        for k, v in d.m.items():
            e = dict(k).get(den, 0)
            rest = Poly({tuple((x, y) for x, y in k if x is not den): v})
            for _i in range(e - worst):
                rest = V.mul(rest, dp)
            r = r + rest
        d = V.red(r)
    return d


class Num:
    """constant inside an indicator atom"""
    tab = {}
    __slots__ = ("v",)

    def __new__(cls, v):
        v = Fraction(v)
        r = cls.tab.get(v)
        if r is None:
            r = object.__new__(cls)
            r.v = v
            cls.tab[v] = r
        return r

    def __repr__(self):
        return str(self.v)


def ind(kind, q, c):
    return mk("ind", kind, q, Num(c) if kind in ("gt", "eq") else c)


def unpoly(t):
    if t.k == "poly":
        return Poly({k: Fraction(v) for k, v in t.a[0]})
    c = _const(t)
    if c is not None:
        return const(c)
    return atom(t)


def pt(p):
    """term of a polynomial"""
    if not p.m:
        return INT(0)
    s = p.single()
    if s is not None:
        k, v = s
        if k == () and v.denominator == 1:
            return INT(int(v))
        if v == 1 and len(k) == 1 and k[0][1] == 1:
            return k[0][0]
    return mk("poly", p.key())


def dep_on(p, v):
    return any(contains(a, v) for k in p.m for a, e in k)


def boolish(t):
    return t.k in ("exists", "forall", "ind") or t.k == "un" and t.a[0] == "!" or t.k == "op" and t.a[0] in ("<", "<=", "==", "&&", "||")
