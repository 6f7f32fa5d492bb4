"""Contents of vectors and matrices: element k of a container value, over linear index arithmetic."""
import math
from fractions import Fraction
from rodsa import absint
from rodsa.absint import T, mk, INT, TRUE, FALSE, op, ite, subst, subterms, contains, dimq, UNSIGNED, INTT, show, neg
from .common import poly, Poly, alg_eq


def lform(t):
    """linear form {atom or None: coef} of an index term, or None"""
    p = poly(t)
    out = {}
    for k, v in p.m.items():
        if k == ():
            out[None] = v
        elif len(k) == 1 and k[0][1] == 1:
            out[k[0][0]] = v
        else:
            a = mk("mono", tuple(k))
            out[a] = v
    return out


def lsub(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}


def nonneg(a):
    if a in UNSIGNED or a.k in ("size", "nrows", "ncols"):
        return True
    if a.k == "mono":
        return all(nonneg(x) for x, e in a.a[0] if e > 0) and all(e > 0 for x, e in a.a[0])
    return False


def integer(a):
    """the atom is a whole number"""
    if a in UNSIGNED or a in INTT or a.k in ("size", "nrows", "ncols", "bv", "int"):
        return True
    if a.k == "un" and a.a[0] == "int":
        return True
    if a.k == "mono":
        return all(integer(x) for x, e in a.a[0]) and all(e > 0 for x, e in a.a[0])
    return False


def given(t, c, pol):
    """t where the condition is known"""
    m = {x: x.a[1] if pol else x.a[2] for x in subterms(t) if x.k == "ite" and x.a[0] is c}
    return subst(t, m) if m else t


EPS = "eps"      # a positive number below every other
CONSTS = (None, EPS)


def strict(q):
    """linear form of q > 0 as a form that is >= 0: q - 1 over whole numbers, q - EPS otherwise"""
    r = dict(q)
    if EPS in r:
        return r
    n = 1
    for k, v in r.items():
        if k is not None:
            v = Fraction(v)
            n = n * v.denominator // math.gcd(n, v.denominator)
    if all(k is None or integer(k) for k in r):
        r = {k: v * n for k, v in r.items()}
        c = r.get(None, 0)
        r[None] = math.ceil(c) - 1
        return r
    r[EPS] = -1
    return r


class Hyp:
    """linear facts h >= 0 over the integers and the reals"""

    def __init__(self, facts=()):
        self.f = []
        for a, o, b in facts:
            self.add(a, o, b)

    def copy(self):
        h = Hyp()
        h.f = list(self.f)
        return h

    def add(self, a, o, b):
        la, lb = lform(a), lform(b)
        if o == "<=":
            self.f.append(lsub(lb, la))
        elif o == "<":
            self.f.append(strict(lsub(lb, la)))
        elif o == "==":
            self.f.append(lsub(lb, la))
            self.f.append(lsub(la, lb))
        return self

    def from_state(self, st):
        for f, p in st.facts:
            if f.k == "op" and f.a[0] in ("<", "<=", "=="):
                o, a, b = f.a
                if any(x.k in ("str", "enum", "null") for x in (a, b)):
                    continue
                if o == "==":
                    if p:
                        self.add(a, "==", b)
                elif p:
                    self.add(a, o, b)
                else:
                    self.add(b, "<=" if o == "<" else "<", a)
        return self

    def under(self, c, pol):
        """the same facts, with values that depend on a condition replaced by those of one case"""
        h = Hyp()
        for f in self.f:
            if any(isinstance(k, T) and any(x.k == "ite" and x.a[0] is c for x in subterms(k)) for k in f):
                g = {}
                for k, v in f.items():
                    for k2, v2 in (lform(given(k, c, pol)).items() if isinstance(k, T) and k.k != "mono" else ((k, 1),)):
                        g[k2] = g.get(k2, 0) + v * v2
                f = {k: v for k, v in g.items() if v}
            h.f.append(f)
        return h

    def proves(self, g):
        """g >= 0 follows (Fourier-Motzkin on the negation)"""
        neg_g = {k: -v for k, v in g.items()}
        if EPS in neg_g:
            del neg_g[EPS]
        else:
            neg_g = strict(neg_g)
        cons = [neg_g] + list(self.f)
        # relevant atoms only
        rel = {k for k in neg_g if k not in CONSTS}
        for _ in range(4):
            for c in self.f:
                ks = {k for k in c if k not in CONSTS}
                if ks & rel:
                    rel |= ks
            if len(rel) > 14:
                break
        cons = [c for c in cons if all(k in CONSTS or k in rel for k in c)]
        atoms = {k for c in cons for k in c if k not in CONSTS}
        for a in atoms:
            if nonneg(a):
                cons.append({a: Fraction(1)})
        return self._unsat(cons)

    def _unsat(self, cons):
        cons = [dict(c) for c in cons]
        while True:
            for c in cons:
                if all(k in CONSTS for k in c) and (c.get(None, 0), c.get(EPS, 0)) < (0, 0):
                    return True
            atoms = {k for c in cons for k in c if k not in CONSTS}
            if not atoms or len(cons) > 400:
                return False
            best = None
            for a in atoms:
                p = sum(1 for c in cons if c.get(a, 0) > 0)
                n = sum(1 for c in cons if c.get(a, 0) < 0)
                if best is None or p * n < best[0]:
                    best = (p * n, a)
            a = best[1]
            P = [c for c in cons if c.get(a, 0) > 0]
            N = [c for c in cons if c.get(a, 0) < 0]
            R = [c for c in cons if not c.get(a, 0)]
            seen = set()
            for x in P:
                for y in N:
                    r = {}
                    fx, fy = -y[a], x[a]
                    for k, v in x.items():
                        r[k] = r.get(k, 0) + v * fx
                    for k, v in y.items():
                        r[k] = r.get(k, 0) + v * fy
                    r = {k: v for k, v in r.items() if v}
                    key = frozenset(r.items())
                    if key not in seen:
                        seen.add(key)
                        R.append(r)
            cons = R

    def decides(self, c):
        """truth of a condition over integers: True | False | None"""
        if c is TRUE or c is FALSE:
            return c is TRUE
        if c.k == "un" and c.a[0] == "!":
            r = self.decides(c.a[1])
            return None if r is None else not r
        if c.k != "op":
            return None
        o, a, b = c.a
        if o in ("&&", "||"):
            x, y = self.decides(a), self.decides(b)
            w = o == "||"
            return w if x is w or y is w else (None if x is None or y is None else not w)
        if any(z.k in ("str", "enum", "null", "flt") for z in (a, b)):
            return None
        if o == "<":
            return True if self.lt(a, b) else False if self.le(b, a) else None
        if o == "<=":
            return True if self.le(a, b) else False if self.lt(b, a) else None
        if o == "==":
            return True if self.eq(a, b) else False if self.ne(a, b) else None
        return None

    def ite(self, c, a, b):
        r = self.decides(c)
        return a if r is True else b if r is False else ite(c, a, b)

    def le(self, a, b):
        return self.proves(lsub(lform(b), lform(a)))

    def lt(self, a, b):
        return self.proves(strict(lsub(lform(b), lform(a))))

    def eq(self, a, b):
        if a is b:
            return True
        d = lsub(lform(a), lform(b))
        if not d:
            return True
        return self.proves(d) and self.proves({k: -v for k, v in d.items()})

    def ne(self, a, b):
        return self.lt(a, b) or self.lt(b, a)


def comps(k):
    return list(k.a) if k.k == "tup" else [k]


class Unknown(Exception):
    pass


def solve(idx, k, rngs, H, conds=None):
    """bound variables such that idx == k: substitution | False (no match) | None (unknown);
    undecided equalities go to conds when given"""
    m = {}
    ci, ck = comps(idx), comps(k)
    if len(ci) != len(ck):
        return None
    bvs = {r.a[0] for r in rngs}
    unk = False
    for a, b in zip(ci, ck):
        a = subst(a, m) if m else a
        la = lform(a)
        here = [x for x in la if x in bvs and x not in m]
        if len(here) == 1 and la[here[0]] == 1:
            x = here[0]
            # x = b - (a - x)
            rest = op("-", b, _minus(a, x))
            m[x] = simp(rest)
        elif not here:
            if any(x is not None and any(y in bvs for y in subterms(x)) for x in la):
                if H.ne(a, b):
                    return False
                unk = True
                continue
            if H.eq(a, b):
                continue
            if H.ne(a, b):
                return False
            if conds is not None:
                conds.append(op("==", simp(a), simp(b)))
            else:
                unk = True
        else:
            unk = True
    if unk:
        return None
    return m


def _minus(a, x):
    """a - x for a linear in x with coefficient 1"""
    l = lform(a)
    l.pop(x, None)
    return from_l(l)


def from_l(l):
    t = None
    c = l.get(None, 0)
    for k, v in sorted(((k, v) for k, v in l.items() if k is not None), key=lambda kv: kv[0].id):
        kt = k
        if k.k == "mono":
            kt = None
            for x, e in k.a[0]:
                for _ in range(e):
                    kt = x if kt is None else op("*", kt, x)
        if v == 1:
            t = kt if t is None else op("+", t, kt)
        elif v == -1 and t is not None:
            t = op("-", t, kt)
        else:
            y = op("*", INT(int(v)) if v.denominator == 1 else mk("flt", repr(float(v))), kt)
            t = y if t is None else op("+", t, y)
    if c or t is None:
        ct = INT(int(c)) if Fraction(c).denominator == 1 else mk("flt", repr(float(c)))
        t = ct if t is None else op("+", t, ct)
    return t


def simp(t):
    """canonical form of an index term"""
    if t.k == "tup":
        return mk("tup", *[simp(x) for x in t.a])
    if t.k in ("op",) and t.a[0] in ("+", "-", "*"):
        try:
            return from_l(lform(t))
        except Exception:
            return t
    return t


def split_by(t, S):
    """t = A*S + B as (B, A) by the factors of t"""
    A, B = INT(0), INT(0)
    def walk(t, s):
        nonlocal A, B
        if t.k == "op" and t.a[0] in "+-":
            walk(t.a[1], s)
            walk(t.a[2], s if t.a[0] == "+" else -s)
            return
        fs = absint.factors(t)
        for i, f in enumerate(fs):
            if f is S or simp(f) is simp(S):
                r = INT(1)
                for x in fs[:i] + fs[i + 1:]:
                    r = x if r is INT(1) else op("*", r, x)
                A = op("+" if s > 0 else "-", A, r) if A is not INT(0) or s < 0 else r
                return
        B = op("+" if s > 0 else "-", B, t) if B is not INT(0) or s < 0 else t
    walk(t, 1)
    return B, A


def split_affine(t, S):
    """candidates (B, A) with t = A*S + B for a linear stride S"""
    l = lform(S)
    at = [x for x in l if x is not None and l[x] == 1 and x.k != "mono"]
    if not at or any(v.denominator != 1 for v in map(Fraction, l.values())):
        return []
    out = []
    for s in at[:2]:
        rest = {(() if k is None else k.a[0] if k.k == "mono" else ((k, 1),)): v for k, v in l.items() if k is not s}    # S - s
        A, B = {}, {}
        bad = False
        for k, v in poly(t).m.items():
            e = dict(k).get(s, 0)
            r = tuple(x for x in k if x[0] is not s)
            if e == 0:
                B[r] = B.get(r, 0) + v
            elif e == 1:     # s = S - rest
                A[r] = A.get(r, 0) + v
                for k2, v2 in rest.items():
                    p = (Poly({r: v}) * Poly({k2: Fraction(v2)})).m
                    for k3, v3 in p.items():
                        B[k3] = B.get(k3, 0) - v3
            else:
                bad = True
        if bad:
            continue

        def term(m):
            return from_l({(None if k == () else k[0][0] if len(k) == 1 and k[0][1] == 1 else mk("mono", k)): v for k, v in m.items() if v})
        B, A = term(B), term(A)
        out += [(B, A), (op("+", B, S), op("-", A, INT(1))), (op("-", B, S), op("+", A, INT(1)))]
    return out


def alts(t, upper):
    """bounds implied by a minimum / maximum"""
    if t.k == "ite" and t.a[0].k == "op" and t.a[0].a[0] in ("<", "<="):
        c, x, y = t.a
        if {c.a[1], c.a[2]} == {x, y} and (x is c.a[1]) == upper:
            return alts(x, upper) + alts(y, upper)
    return [t]


def in_rng(B, S, rngs, H):
    """0 <= B < S for all values of the bound variables"""
    if not any(isinstance(r, T) for r in rngs):
        return H.le(INT(0), B) and H.lt(B, S)
    h = H.copy()
    for r in rngs:
        for lo in alts(r.a[1], False):
            h.add(lo, "<=", r.a[0])
        for hi in alts(r.a[2], True):
            h.add(r.a[0], "<", hi)
    return h.le(INT(0), B) and h.lt(B, S)


def solve_flat(idx, k, rngs, H, conds=None):
    """position idx of a column major array against (row, column) k with stride S"""
    r, c, S = k.a
    B, A = split_by(idx, S)
    if not in_rng(B, S, rngs, H) and S.k == "op":
        for X, Y in split_affine(idx, S):
            if in_rng(X, S, rngs, H):
                B, A = X, Y
                break
    bvs = {x.a[0] for x in rngs}
    if A is INT(0) and B in bvs and not in_rng(B, S, rngs, H):
        return {B: op("+", op("*", S, c), r)}
    if not in_rng(B, S, rngs, H) or not in_rng(r, S, (), H):
        return None
    return solve(mk("tup", B, A), mk("tup", r, c), rngs, H, conds)


def below(x, hi, H):
    """x < hi, also for x = S*c + r against a product hi = S*n"""
    if H.lt(x, hi):
        return True
    fs = absint.factors(hi)
    for i, S in enumerate(fs):
        if len(fs) < 2:
            break
        n = INT(1)
        for y in fs[:i] + fs[i + 1:]:
            n = y if n is INT(1) else op("*", n, y)
        B, A = split_by(x, S)
        if A is not INT(0) and H.lt(B, S) and H.lt(A, n):
            return True
    return False


def stride_less(x, hi, H, S):
    """x < hi as a condition on columns, for x = S*c + r and hi = S*n"""
    if S is None:
        return op("<", x, hi)
    same = {y: S for y in subterms(hi) if y is not S and y.k in ("nrows", "ncols", "size", "init") and H.eq(y, S)}
    if same:
        hi = subst(hi, same)
    B, A = split_by(x, S)
    C, D = split_by(hi, S)
    if A is INT(0) and D is INT(0) or not H.eq(C, INT(0)) or not (H.le(INT(0), B) and H.lt(B, S)):
        return op("<", x, hi)
    return op("<", simp(A), simp(D))


def content(v, k, H, depth=0):
    """element k of container value v as a term (fully looked through where decidable)"""
    k = simp(k)
    if k.k == "tup" and len(k.a) == 2:
        k = unflat(v, k, H)
    if depth > 60:
        return mk("elem", v, k)
    d = depth + 1
    vk = v.k
    if vk == "upd":
        r = solve_flat(v.a[1], k, (), H) if k.k == "flat" else solve(v.a[1], k, (), H)
        if r is False:
            return content(v.a[0], k, H, d)
        if r is not None:
            return norm(v.a[2], H, d)
        if k.k != "flat" and len(comps(v.a[1])) == len(comps(k)):
            conds = TRUE
            for a, b in zip(comps(v.a[1]), comps(k)):
                conds = op("&&", conds, op("==", simp(a), simp(b)))
            return ite(conds, norm(v.a[2], H, d), content(v.a[0], k, H, d))
        return mk("elem", v, k)
    if vk == "fill":
        segs = v.a[1]
        out = None
        i = len(segs) - 1
        guards = []      # (cond, value)
        while i >= 0:
            rngs, cond, idx, val = segs[i].a
            if H.f:
                idx = simp(norm(idx, H, d))
                rngs = tuple(mk("rng", r.a[0], norm(r.a[1], H, d), norm(r.a[2], H, d)) for r in rngs)
            eqs = []
            if any(H.le(r.a[2], r.a[1]) for r in rngs):
                i -= 1
                continue
            stride = None
            if k.k == "flat":
                m = solve_flat(idx, k, rngs, H, eqs)
                stride = k.a[2]
            else:
                if idx.k != "tup" and k.k == "tup" and len(k.a) == 2:
                    idx = mk("tup", idx, INT(0))
                if idx.k == "tup" and k.k == "tup" and len(idx.a) == 2 and idx.a[0].k == "op" and idx.a[1] is INT(0):
                    u = unflat(v, idx, H)
                    if u is idx:
                        nr = norm(dimq("nrows", v), H, d)
                        u = next((mk("tup", B, A) for B, A in split_affine(idx.a[0], nr) if in_rng(B, nr, rngs, H)), idx) if nr.k == "op" else idx
                    if u is not idx and in_rng(u.a[0], norm(dimq("nrows", v), H, d), rngs, H):
                        idx = u
                m = solve(idx, k, rngs, H, eqs)
                if idx.k == "tup" and k.k == "tup" and len(idx.a) == 2 and idx.a[1] is INT(0) and rngs and idx.a[0] in {r.a[0] for r in rngs}:
                    nr = norm(dimq("nrows", v), H, d)
                    if not in_rng(idx.a[0], nr, rngs, H):
                        eqs = []
                        m = {idx.a[0]: op("+", op("*", nr, k.a[1]), k.a[0])}
                        stride = nr
                elif idx.k == "tup" and k.k == "tup" and len(idx.a) == 2 and len(rngs) == 1 and not contains(idx.a[1], rngs[0].a[0]) and lform(idx.a[0]).get(rngs[0].a[0]) == 1:
                    # a flat position
                    nr = norm(dimq("nrows", v), H, d)
                    if not in_rng(idx.a[0], nr, rngs, H):
                        eqs = []
                        m = {rngs[0].a[0]: simp(op("-", op("+", op("*", nr, op("-", k.a[1], idx.a[1])), k.a[0]), _minus(idx.a[0], rngs[0].a[0])))}
                        stride = nr
            if m is False:
                i -= 1
                continue
            if m is None:
                return mk("elem", v, k)
            outr = False
            free = [r for r in rngs if r.a[0] not in m]
            if free:
                return mk("elem", v, k)
            need = TRUE
            for e in eqs:
                need = op("&&", need, e)
            for r in rngs:
                x = m[r.a[0]]
                lo, hi = subst(r.a[1], m), subst(r.a[2], m)
                if H.lt(x, lo) or H.le(hi, x):
                    outr = True
                    break
                c = stride_less(x, lo, H, stride)
                if H.decides(c) is not False:
                    need = op("&&", need, neg(c))
                c = stride_less(x, hi, H, stride)
                if not below(x, hi, H) and H.decides(c) is not True:
                    need = op("&&", need, c)
            if outr:
                i -= 1
                continue
            c = op("&&", need, norm(subst(cond, m), H, d))
            val = norm(subst(val, m), H, d)
            if c is FALSE:
                i -= 1
                continue
            if c is TRUE:
                out = val
                break
            guards.append((c, val))
            i -= 1
        if out is None:
            out = content(v.a[0], k, H, d)
        for c, val in reversed(guards):
            out = ite(c, val, out)
        return out
    if vk == "ite":
        c = norm(v.a[0], H, d)
        r = H.decides(c)
        if r is not None:
            return content(v.a[1] if r else v.a[2], k, H, d)
        if k.k in ("tup", "flat"):
            return ite(c, content(v.a[1], given(k, v.a[0], True), H.under(v.a[0], True), d), content(v.a[2], given(k, v.a[0], False), H.under(v.a[0], False), d))
        return ite(c, content(v.a[1], k, H, d), content(v.a[2], k, H, d))
    if vk == "obj":
        q = v.a[0]
        if q == "Rodop::vec":
            if len(v.a) == 2:
                return INT(0)
            if len(v.a) == 3:
                return norm(v.a[2], H, d)
        if q == "std::vector" and len(v.a) == 3 and (v.a[1] in UNSIGNED or v.a[1].k in ("int", "op", "size", "nrows", "ncols")):
            return norm(v.a[2], H, d)
        if q == "Rodop::mat":
            if len(v.a) == 3:
                return INT(0)
            if len(v.a) == 4:
                return norm(v.a[3], H, d)
        return mk("elem", v, k)
    if vk == "init":
        return mk("init", absint.E(v.a[0], k))
    if vk == "elem":
        w = content(v.a[0], v.a[1], H, d)
        if w is not v:
            return content(w, k, H, d)
    if vk in ("grow", "growm"):
        return content(v.a[0], k, H, d)
    if vk == "adopt":
        if v.a[1] == "Rodop::vec" or v.a[0].k != "init" and not rawarr(v.a[0]) or v.a[0].k == "init" and v.a[0].a[0].k != "D":
            return content(v.a[0], k, H, d)
        if v.a[0].k == "init" and v.a[0].a[0].a[0].k != "newarr":
            return content(v.a[0], k, H, d)
        return mk("elem", v, k)
    if vk == "snap":
        if v.a[0].k == "ite":
            c = v.a[0]
            o1, o2 = (tuple(mk(x.k, *[given(y, c.a[0], p) if isinstance(y, T) else y for y in x.a]) for x in v.a[1]) for p in (True, False))
            return content(ite(c.a[0], mk("snap", c.a[1], o1), mk("snap", c.a[2], o2)), k, H, d)
        if v.a[0].k == "adopt" and v.a[0].a[1] == "Rodop::mat" and rawarr(v.a[0].a[0]) and k.k == "tup":
            S = next((o.a[1] for o in v.a[1] if o.a[0] == "Rodop::mat::nrows"), None)
            if S is not None:
                return content(v.a[0].a[0], mk("flat", k.a[0], k.a[1], norm(S, H, d)), H, d)
        for o in v.a[1]:
            if isinstance(o.a[0], T):
                if H.eq(o.a[0], k) if k.k != "tup" else o.a[0] is k:
                    return norm(o.a[1], H, d)
        return content(v.a[0], k, H, d)
    if vk == "call" and "::" in v.a[0]:
        c, n = v.a[0].rsplit("::", 1)
        if c == "Rodop::vec":
            if n == "head":
                return content(v.a[1], k, H, d)
            if n == "tail":
                return content(v.a[1], op("+", op("-", norm(dimq("size", v.a[1]), H), v.a[2]), k), H, d)
            if n in ("operator+", "operator-", "operator*") and len(v.a) == 3:
                b = v.a[2]
                bb = content(b, k, H, d) if isvec(b) else norm(b, H, d)
                return op(n[8:], content(v.a[1], k, H, d), bb)
            if n == "operator*" and len(v.a) == 3:
                return op("*", content(v.a[1], k, H, d), norm(v.a[2], H, d))
        if c == "Rodop::mat" and n == "getRow":
            return content(v.a[1], mk("tup", v.a[2], k), H, d)
        if c == "Rodop::mat" and n == "getCol":
            return content(v.a[1], mk("tup", k, v.a[2]), H, d)
        if c == "Rodop::mat" and n == "submat" and len(v.a) == 6 and k.k == "tup":
            return content(v.a[1], mk("tup", op("+", v.a[2], k.a[0]), op("+", v.a[4], k.a[1])), H, d)
        if c == "Rodop::mat" and n == "transpose" and k.k == "tup":
            return content(v.a[1], mk("tup", k.a[1], k.a[0]), H, d)
    if vk == "mut" and v.a[0] == "Rodop::mat::addRow" and k.k == "tup":
        pos = v.a[3] if len(v.a) > 3 else INT(-1)
        if pos is INT(-1):
            n = norm(dimq("nrows", v.a[1]), H)
            if H.eq(k.a[0], n):
                return content(v.a[2], k.a[1], H, d)
            if H.lt(k.a[0], n):
                return content(v.a[1], k, H, d)
    if vk == "mut" and v.a[0] == "Rodop::vec::push_back" or vk == "push":
        old, x = (v.a[1], v.a[2]) if vk == "mut" else (v.a[0], v.a[1])
        n = norm(dimq("size", old), H)
        if H.eq(k, n):
            return norm(x, H, d)
        if H.lt(k, n):
            return content(old, k, H, d)
    if vk == "mut" and v.a[0] == "Rodop::vec::fromStdVector":
        return content(v.a[2], k, H, d)
    if vk in ("mut",) and v.a[0] == "Rodop::vec::resize":
        old = v.a[1]
        n = norm(dimq("size", old), H)
        if n is INT(0) or H.le(n, k):
            return norm(v.a[3], H, d) if len(v.a) > 3 else INT(0)
        if H.lt(k, n):
            return content(old, k, H, d)
    return mk("elem", v, k)


def rawarr(v):
    """the value of a freshly allocated array"""
    while v.k in ("upd", "fill", "ite", "snap"):
        v = v.a[1] if v.k == "ite" else v.a[0]
    return v.k == "init" and v.a[0].k == "D" and v.a[0].a[0].k == "newarr"


def unflat(v, k, H):
    """(row, column) of a flat position written as (position, 0)"""
    X, Y = k.a
    if X.k != "op":
        return k
    nr = dimq("nrows", v)
    for S in {nr} | {f for s, t in absint.addends(X) for f in absint.factors(t)}:
        if S is nr or (S.k in ("nrows", "ncols", "init", "size", "op") and H.eq(S, nr)):
            B, A = split_by(X, S)
            if A is not INT(0):
                return mk("tup", simp(B), simp(op("+", Y, A)))
    return k


def isvec(t):
    return (t.k in ("fill", "upd") or t.k == "obj" and t.a[0] == "Rodop::vec"
            or t.k == "call" and t.a[0].rsplit("::", 1)[-1] in ("head", "tail", "getRow", "getCol", "getLowerBounds", "getUpperBounds")
            or t.k == "call" and (t.a[0].startswith("Rodop::vec::operator") or t.a[0] in VECFNS) or t.k == "mut" and t.a[0].startswith("Rodop::vec::") or t in VECS)


VECS = set()
VECFNS = set()


def vector_functions(prog):
    """functions whose every overload returns a vector"""
    for q, fs in prog.byq.items():
        if all(f.rt.replace("const ", "").rstrip("& ") in ("Rodop::vec", "vec") for f in fs):
            VECFNS.add(q)


def norm(t, H, depth=0, memo=None):
    """look through element reads and sizes everywhere in a term"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if depth > 60 or not any(isinstance(x, (T, tuple)) for x in t.a):
        return t
    if t.k == "elem":
        r = content(t.a[0], norm(t.a[1], H, depth + 1), H, depth + 1)
    elif t.k in ("size", "nrows", "ncols"):
        r = dimq(t.k, t.a[0])
        if r is not t:
            r = norm(r, H, depth + 1, memo)
        elif t.a[0].k == "ite":
            r = t
    elif t.k in ("fill", "upd", "snap", "init", "L", "F", "E", "D", "lv"):
        r = t
    else:
        a = tuple(norm(x, H, depth + 1, memo) if isinstance(x, T) else x for x in t.a)
        if t.k == "ite":
            r = H.ite(*a)
        elif a == t.a:
            r = t
        elif t.k == "op":
            r = op(*a)
        elif t.k == "ite":
            r = H.ite(*a)
        else:
            r = mk(t.k, *a)
    memo[t] = r
    return r
