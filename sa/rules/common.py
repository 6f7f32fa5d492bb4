"""Shared rule machinery: obligations, decision tables, algebraic normal forms, run helpers."""
import itertools
from fractions import Fraction
from rodsa.facts import AnalysisError
from rodsa.prog import walk
from rodsa import absint
from rodsa.absint import (T, mk, INT, TRUE, FALSE, NULL, F, E, THIS, Hooks, Interp, State, op, neg, ite, holds, show,
                          subterms, contains, subst, alts, is_const, add_fact, implies, lin, bound)

NS = "Rodop::"


class Ctx:
    def __init__(self, prog, pid, tier):
        self.prog = prog
        self.pid = pid
        self.tier = tier
        self.obs = {}          # (rule, key) -> dict
        self.order = []
        self.analysed = set()
        self.callsites = 0
        self.runs = 0
        self.notes = []
        from .content import vector_functions
        vector_functions(prog)

    def ob(self, rule, key, where, ok, msg=""):
        """one obligation; several visits of the same (rule,key) are one obligation that must hold each time"""
        k = (rule, key)
        o = self.obs.get(k)
        if o is None:
            o = {"rule": rule, "key": key, "where": where, "ok": True, "msg": ""}
            self.obs[k] = o
            self.order.append(k)
        if not ok and o["ok"]:
            o["ok"] = False
            o["where"] = where
            o["msg"] = msg
        return ok

    def floor(self, rule, n=1):
        c = sum(1 for k in self.order if k[0] == rule)
        if c < n:
            raise AnalysisError("rule %s: %d instances found, at least %d expected (vanished anchor)" % (rule, c, n))

    def note_run(self, I):
        self.analysed |= I.analysed
        self.callsites += I.callsites
        self.runs += 1

    def bad(self):
        return [self.obs[k] for k in self.order if not self.obs[k]["ok"]]


def no_print(f):
    n = f.n.lower()
    return not (n.startswith("print") or n.startswith("log") or "logger" in (f.cls or "").lower() or n in ("tostring",))


def inline_classes(*classes, also=(), stop=()):
    cs = set(classes)

    def pol(I, f, c):
        if f.q in stop or f.n in stop:
            return False
        return (f.cls in cs or f.q in also) and no_print(f)
    return pol


def run(ctx, f, hooks=None, inline=None, this_class=None, setup=None, **kw):
    I = Interp(ctx.prog, inline=inline, hooks=hooks, **kw)
    st, rv = I.run(f, this_class=this_class, setup=setup)
    ctx.note_run(I)
    return I, st, rv


def fld(cls, name, base=None):
    return F(base if base is not None else THIS, cls + "::" + name)


def init(loc):
    return mk("init", loc)


def has_tag(st, name):
    return st.has(name)


# ------------------------------------------------------------------ decision tables
def norm_atom(t):
    """(atom, polarity)"""
    pol = True
    while t.k == "un" and t.a[0] == "!":
        t = t.a[1]
        pol = not pol
    if t.k == "op" and t.a[0] == "<=":        # a<=b  ==  !(b<a)
        return norm_lt(t.a[2], t.a[1], not pol)
    if t.k == "op" and t.a[0] == "<":
        return norm_lt(t.a[1], t.a[2], pol)
    return t, pol


def norm_lt(a, b, pol):
    return mk("op", "<", a, b), pol


def atoms_of(t, out=None):
    """atomic conditions a boolean/ite term branches on"""
    if out is None:
        out = []
    if t.k == "un" and t.a[0] == "!":
        return atoms_of(t.a[1], out)
    if t.k == "op" and t.a[0] in ("&&", "||"):
        atoms_of(t.a[1], out)
        atoms_of(t.a[2], out)
        return out
    if t.k == "ite":
        cond_atoms(t.a[0], out)
        atoms_of(t.a[1], out)
        atoms_of(t.a[2], out)
        return out
    return out


def cond_atoms(c, out):
    if c.k == "un" and c.a[0] == "!":
        return cond_atoms(c.a[1], out)
    if c.k == "op" and c.a[0] in ("&&", "||"):
        cond_atoms(c.a[1], out)
        cond_atoms(c.a[2], out)
        return out
    if c.k == "ite":
        cond_atoms(c.a[0], out)
        cond_atoms(c.a[1], out)
        cond_atoms(c.a[2], out)
        return out
    if c.k == "int":
        return out
    a, _ = norm_atom(c)
    if a not in out:
        out.append(a)
    return out


def eval_cond(c, env):
    if c.k == "int":
        return c.a[0] != 0
    if c.k == "un" and c.a[0] == "!":
        return not eval_cond(c.a[1], env)
    if c.k == "op" and c.a[0] == "&&":
        return eval_cond(c.a[1], env) and eval_cond(c.a[2], env)
    if c.k == "op" and c.a[0] == "||":
        return eval_cond(c.a[1], env) or eval_cond(c.a[2], env)
    if c.k == "ite":
        return eval_cond(c.a[1], env) if eval_cond(c.a[0], env) else eval_cond(c.a[2], env)
    a, p = norm_atom(c)
    if a not in env:
        raise KeyError(a)
    return env[a] == p


def pick(t, env):
    """leaf of an ite tree under an assignment of its atoms"""
    while t.k == "ite":
        t = t.a[1] if eval_cond(t.a[0], env) else t.a[2]
    return t


def consistent(env):
    """drop assignments that violate order axioms for pairs over the same operands, or equality of distinct constants"""
    eqs = {}
    for a, v in env.items():
        if a.k == "op" and a.a[0] == "<":
            r = mk("op", "<", a.a[2], a.a[1])
            if v and env.get(r):
                return False
            e = op("==", a.a[1], a.a[2])
            if v and env.get(e):
                return False
        if a.k == "op" and a.a[0] == "==" and v and is_const(a.a[2]):
            if eqs.setdefault(a.a[1], a.a[2]) is not a.a[2]:
                return False
    return zone_ok(env)


def zone_ok(env):
    """feasibility of the order atoms (difference constraints over the reals, strict edges)"""
    edges = []
    for a, v in env.items():
        if a.k != "op":
            continue
        if a.a[0] == "<":
            x, y = a.a[1], a.a[2]
            bx, cx = lin(x)
            by, cy = lin(y)
            if v:
                edges.append((by, bx, cy - cx, True))    # x - y < c
            else:
                edges.append((bx, by, cx - cy, False))   # y - x <= c
        elif a.a[0] == "==" and v:
            x, y = a.a[1], a.a[2]
            if x.k in ("str", "enum") or y.k in ("str", "enum"):
                continue
            bx, cx = lin(x)
            by, cy = lin(y)
            edges.append((by, bx, cy - cx, False))
            edges.append((bx, by, cx - cy, False))
    nodes = {n for e in edges for n in e[:2]}
    if None in nodes:
        # constants: None is the zero node
        pass
    dist = {n: (0.0, 0) for n in nodes}
    for r in range(len(nodes) + 1):
        ch = False
        for (u, v, c, s) in edges:
            d = (dist[u][0] + c, dist[u][1] - (1 if s else 0))
            if d < dist[v]:
                dist[v] = d
                ch = True
        if not ch:
            return True
    return False


def table(term, cond=False, atoms=None, maxatoms=12):
    at = list(atoms or [])
    (cond_atoms if cond else atoms_of)(term, at)
    if len(at) > maxatoms:
        raise AnalysisError("decision table with %d atoms" % len(at))
    return at


def same_cond(c1, c2, assume=()):
    """boolean terms equivalent over their atoms (order axioms respected); assume: [(term,pol)]"""
    at = []
    cond_atoms(c1, at)
    cond_atoms(c2, at)
    for t, p in assume:
        cond_atoms(t, at)
    if len(at) > 14:
        raise AnalysisError("decision table with %d atoms" % len(at))
    for vals in itertools.product((False, True), repeat=len(at)):
        env = dict(zip(at, vals))
        if not consistent(env):
            continue
        if any(eval_cond(t, env) != p for t, p in assume):
            continue
        if eval_cond(c1, env) != eval_cond(c2, env):
            return env
    return None


def same_tree(t1, t2, assume=(), leaf_eq=None):
    """ite trees select equal leaves under every consistent assignment; returns a differing row or None"""
    leaf_eq = leaf_eq or alg_eq
    at = []
    atoms_of(t1, at)
    atoms_of(t2, at)
    for t, p in assume:
        cond_atoms(t, at)
    if len(at) > 14:
        raise AnalysisError("decision table with %d atoms" % len(at))
    for vals in itertools.product((False, True), repeat=len(at)):
        env = dict(zip(at, vals))
        if not consistent(env):
            continue
        if any(eval_cond(t, env) != p for t, p in assume):
            continue
        a, b = pick(t1, env), pick(t2, env)
        if a is not b and not leaf_eq(a, b):
            # leaves equal because of an equality atom?
            return env, a, b
    return None


def show_env(env):
    return ", ".join("%s%s" % ("" if v else "not ", show(a)) for a, v in env.items())


# ------------------------------------------------------------------ algebra
def snapc(c):
    """coefficients that stem from rounded decimal constants compare with ten significant digits"""
    if c.denominator > 10 ** 6:
        return Fraction(float("%.10g" % float(c)))
    return c


class Poly:
    """Laurent polynomial over atoms with rational coefficients: {((atom,exp),...): coef}"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v != 0}

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()})

    def __mul__(self, o):
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                d = dict(k1)
                for a, e in k2:
                    d[a] = d.get(a, 0) + e
                k = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))
                r[k] = r.get(k, 0) + v1 * v2
        return Poly(r)

    def key(self):
        return tuple(sorted(((k, snapc(v)) for k, v in self.m.items()), key=lambda kv: tuple((a.id, e) for a, e in kv[0])))

    def single(self):
        if len(self.m) == 1:
            return next(iter(self.m.items()))
        return None

    def __eq__(self, o):
        return self.m == o.m


ONE = {(): Fraction(1)}
_inv = {}
FABS = {"std::fabs", "std::abs", "fabs", "abs"}
FUN1 = {"sqrt", "exp", "log", "erf", "pow", "fabs", "cos", "sin"}


def canon_fun(q):
    n = q.split("::")[-1]
    if n in ("sqrtf", "sqrtl"):
        return "sqrt"
    if n == "abs":
        return "fabs"
    return n


def _const(t):
    if t.k == "int":
        return Fraction(t.a[0])
    if t.k == "flt":
        try:
            return Fraction(float(t.a[0])).limit_denominator(10 ** 12) if abs(float(t.a[0])) > 1e-6 else Fraction(float(t.a[0]))
        except (ValueError, OverflowError):
            return None
    return None


def poly(t, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    c = _const(t)
    if c is not None:
        r = Poly({(): c})
    elif t.k == "poly":
        r = Poly({k: v for k, v in t.a[0]})
    elif t.k == "op" and t.a[0] in "+-":
        a, b = poly(t.a[1], memo), poly(t.a[2], memo)
        r = a + (b if t.a[0] == "+" else b.scale(-1))
    elif t.k == "op" and t.a[0] == "*":
        r = poly(t.a[1], memo) * poly(t.a[2], memo)
    elif t.k == "op" and t.a[0] == "/":
        r = poly(t.a[1], memo) * pinv(poly(t.a[2], memo))
    elif t.k == "un" and t.a[0] == "-":
        r = poly(t.a[1], memo).scale(-1)
    elif t.k == "un" and t.a[0] == "+":
        r = poly(t.a[1], memo)
    elif t.k == "call" and canon_fun(t.a[0]) in FUN1 and ("::" not in t.a[0] or t.a[0].startswith("std::")):
        fn = canon_fun(t.a[0])
        args = [poly(x, memo) for x in t.a[1:]]
        if fn == "pow" and len(args) == 2 and t.a[2].k == "int" and 0 <= t.a[2].a[0] <= 4:
            r = Poly(dict(ONE))
            for _ in range(t.a[2].a[0]):
                r = r * args[0]
        elif fn == "sqrt" and len(args) == 1 and set(args[0].m) == {()} and args[0].m[()] > 0:
            r = Poly({(): Fraction(float(args[0].m[()]) ** 0.5).limit_denominator(10 ** 12)})
        elif fn == "fabs" and len(args) == 1:
            k = args[0].key()
            if k and k[0][1] < 0:
                k = args[0].scale(-1).key()
            r = atom(mk("fun", fn, mk("poly", k)))
        else:
            r = atom(mk("fun", fn, *[mk("poly", a.key()) for a in args]))
    else:
        # rebuild children canonically
        r = atom(canon_term(t, memo))
    memo[t] = r
    return r


def atom(t):
    return Poly({((t, 1),): Fraction(1)})


def pinv(p):
    s = p.single()
    if s is not None:
        k, v = s
        return Poly({tuple((a, -e) for a, e in k): 1 / v})
    if not p.m:
        return atom(mk("div0"))
    # make the leading coefficient 1 so that (a-b) and 2(a-b) agree
    lead = p.key()[0][1]
    q = p.scale(1 / lead)
    return Poly({((mk("poly", q.key()), -1),): 1 / lead})


def canon_term(t, memo):
    if t.k in ("op", "ite", "un", "call", "elem", "fld", "E"):
        a = tuple((canon_leaf(x, memo) if isinstance(x, T) else x) for x in t.a)
        if a != t.a:
            return mk(t.k, *a)
    return t


def canon_leaf(t, memo):
    if t.k in ("op",) and t.a[0] in ("+", "-", "*", "/"):
        p = poly(t, memo)
        return mk("poly", p.key())
    return canon_term(t, memo)


def alg_eq(a, b):
    if a is b:
        return True
    try:
        pa, pb = poly(a), poly(b)
    except RecursionError:
        return False
    if pa == pb:
        return True
    # multiply out 1/poly atoms
    d = pa + pb.scale(-1)
    for _ in range(6):
        den = None
        for k in d.m:
            for at, e in k:
                if e < 0 and at.k == "poly":
                    den = at
                    break
            if den:
                break
        if den is None:
            break
        dp = Poly({k: v for k, v in den.a[0]})
        r = Poly({})
        worst = min(e for k in d.m for at, e in k if at is den)
        for k, v in d.m.items():
            e = dict(k).get(den, 0)
            rest = Poly({tuple((x, y) for x, y in k if x is not den): v})
            for _i in range(e - worst):
                rest = rest * dp
            r = r + rest
        d = r
    if not d.m:
        return True
    big = max([abs(v) for v in pa.m.values()] + [abs(v) for v in pb.m.values()] + [Fraction(0)])
    return big > 0 and all(abs(v) < big / 10 ** 10 and v.denominator > 10 ** 6 for v in d.m.values())


def calls_in(t, qn):
    return [x for x in subterms(t) if x.k == "call" and (x.a[0] == qn or x.a[0].split("::")[-1] == qn)]


# ------------------------------------------------------------------ facts about events
def done(name, loc):
    return mk("done", name, loc)


def set_done(st, name, loc):
    st.facts.add((done(name, loc), True))


def kill(st, pred):
    """forget every fact whose term satisfies pred (also inside forall / conditional facts)"""
    def hit(t):
        return any(pred(x) for x in subterms(t))
    st.facts = {f for f in st.facts if not hit(f[0])}
    if st.cf:
        cf = {}
        for k, v in st.cf.items():
            w = frozenset(f for f in v if not hit(f[0]))
            if w:
                cf[k] = w
        st.cf = cf


def kill_done(st, *names):
    kill(st, lambda x: x.k == "done" and x.a[0] in names)


def under(I, st, *conds):
    """st refined by conditions; None if contradictory"""
    s = st
    for c, p in conds:
        if s is None:
            return None
        s = I.assume(s, c, p)
    return s


def has_done(st, name, loc=None):
    for (f, p) in st.facts:
        if p and f.k == "done" and f.a[0] == name and (loc is None or f.a[1] is loc):
            return True
    return False


def forall_done(st, name, container):
    """some fact: for every index of container, done(name, container[i]).
    Returns (True, None) or (True, condition) when guarded by an implication."""
    sz = None
    for (f, p) in st.facts:
        if not p or f.k != "forall":
            continue
        lo, hi, body, bp = f.a
        if lo is not INT(0) or not bp:
            continue
        if hi.k != "size":
            continue
        b, cond = body, None
        if b.k == "imp":
            cond = (b.a[0], b.a[1])
            b = b.a[2]
        if b.k == "done" and b.a[0] == name and b.a[1].k == "E" and b.a[1].a[0] is container:
            yield cond


def root_field(loc):
    """(base, field chain) of a location"""
    ch = []
    while loc.k in ("F", "E"):
        ch.append(loc.a[1] if loc.k == "F" else "[]")
        loc = loc.a[0]
    return loc, list(reversed(ch))


def in_field(loc, fq):
    while loc is not None and loc.k in ("F", "E"):
        if loc.k == "F" and loc.a[1] == fq:
            return True
        loc = loc.a[0]
    return False


def field_in_term(t, fq):
    """does the value depend on (some version of) field fq"""
    for x in subterms(t):
        if x.k == "F" and x.a[1] == fq:
            return True
        if x.k == "fld" and x.a[1] == fq:
            return True
    return False


# ------------------------------------------------------------------ ranges and folds
def envs(at, assume=(), limit=14):
    if len(at) > limit:
        raise AnalysisError("decision table with %d atoms" % len(at))
    for vals in itertools.product((False, True), repeat=len(at)):
        env = dict(zip(at, vals))
        if not consistent(env):
            continue
        if any(eval_cond(t, env) != p for t, p in assume):
            continue
        yield env


def leaf_le(a, b, env):
    """a <= b under the truth values of the atoms"""
    if a is b or alg_eq(a, b):
        return True
    if a.k in ("int", "flt") and b.k in ("int", "flt"):
        return float(a.a[0]) <= float(b.a[0])
    for at, v in env.items():
        if at.k == "op" and at.a[0] == "<":
            if v and alg_eq(at.a[1], a) and alg_eq(at.a[2], b):
                return True
            if not v and alg_eq(at.a[1], b) and alg_eq(at.a[2], a):
                return True
        if at.k == "op" and at.a[0] == "==" and v and {at.a[1], at.a[2]} == {a, b}:
            return True
    return False


def in_range(term, lo, hi, assume=(), lohi=True):
    """every value the term can take lies in [lo, hi] (either may be None); lohi: lo <= hi may be assumed.
    Returns None or a text describing the failing row"""
    at = []
    atoms_of(term, at)
    for t, p in assume:
        cond_atoms(t, at)
    for env in envs(at, assume):
        v = pick(term, env)
        if v.k == "ite":
            return "nested condition"
        for b, le in ((lo, lambda: leaf_le(lo, v, env)), (hi, lambda: leaf_le(v, hi, env))):
            if b is None:
                continue
            if le():
                continue
            if lohi and lo is not None and hi is not None and (v is lo or v is hi or alg_eq(v, lo) or alg_eq(v, hi)):
                continue
            return "value %s when %s" % (show(v)[:200], show_env(env)[:300])
    return None


class Fold:
    """how a location evolves in a counted loop: value lv at the head, next value per iteration"""

    def __init__(self, I, lv):
        self.lv = lv
        self.lid = lv.a[0]
        self.loc = lv.a[1]
        self.info = I.loops.get(self.lid)
        self.ok = self.info is not None and "range" in self.info
        if self.ok:
            self.i, self.lo, self.hi = self.info["range"]
            self.init, self.next = self.info["mod"].get(self.loc, (None, None))
            self.ok = self.next is not None
            self.start = self.info.get("start", {}).get(self.loc, self.init)

    def other(self, loc):
        return self.info["mod"].get(loc)


def find_lvs(t, lid=None):
    return [x for x in subterms(t) if x.k == "lv" and (lid is None or x.a[0] is lid)]


def is_huge(t):
    return t.k == "call" and t.a[0].startswith("std::numeric_limits") and t.a[0].endswith(("::max", "::infinity")) or \
        t.k == "flt" and float(t.a[0]) >= 1e14 or t.k == "int" and t.a[0] >= 10 ** 14


def is_minus_huge(t):
    if t.k == "un" and t.a[0] == "-":
        return is_huge(t.a[1])
    return t.k == "call" and t.a[0].startswith("std::numeric_limits") and t.a[0].endswith("::lowest") or \
        t.k == "flt" and float(t.a[0]) <= -1e14 or t.k == "int" and t.a[0] <= -10 ** 14


def update_cond(nxt, lv, new_ok):
    """condition under which nxt differs from lv, provided every other leaf satisfies new_ok; else None"""
    if nxt is lv:
        return FALSE
    if nxt.k == "ite":
        a, b = update_cond(nxt.a[1], lv, new_ok), update_cond(nxt.a[2], lv, new_ok)
        if a is None or b is None:
            return None
        return ite(nxt.a[0], a, b)
    return TRUE if new_ok(nxt) else None


def flag_update_cond(nxt, lv):
    """sticky flag: condition under which it becomes true"""
    if nxt is lv:
        return FALSE
    if nxt is TRUE:
        return TRUE
    if nxt.k == "ite":
        a, b = flag_update_cond(nxt.a[1], lv), flag_update_cond(nxt.a[2], lv)
        return None if a is None or b is None else ite(nxt.a[0], a, b)
    if nxt.k == "op" and nxt.a[0] == "||":
        for x, y in ((nxt.a[1], nxt.a[2]), (nxt.a[2], nxt.a[1])):
            if x is lv:
                return y
    return None


# ------------------------------------------------------------------ equality of guarded values, evaluated row by row
class Need(Exception):
    def __init__(self, a):
        self.a = a


CMP = ("<", "<=", "==")


def pterm(t):
    """canonical form of an arithmetic leaf"""
    c = _const(t)
    if c is not None:
        return t
    p = poly(t)
    s = p.single()
    if not p.m:
        return INT(0)
    if s is not None and len(s[0]) == 1 and s[0][0][1] == 1 and s[1] == 1:
        return s[0][0][0]
    if s is not None and s[0] == ():
        return mk("flt", repr(float(s[1]))) if s[1].denominator != 1 else INT(int(s[1]))
    return mk("poly", p.key())


def ev_bool(c, env, cls=None):
    if c.k == "int":
        return c.a[0] != 0
    if c.k == "un" and c.a[0] == "!":
        return not ev_bool(c.a[1], env, cls)
    if c.k == "op" and c.a[0] == "&&":
        return ev_bool(c.a[1], env, cls) and ev_bool(c.a[2], env, cls)
    if c.k == "op" and c.a[0] == "||":
        return ev_bool(c.a[1], env, cls) or ev_bool(c.a[2], env, cls)
    if c.k == "ite":
        return ev_bool(c.a[1] if ev_bool(c.a[0], env, cls) else c.a[2], env, cls)
    if c.k == "op" and c.a[0] in CMP:
        a, b = ev_val(c.a[1], env, cls), ev_val(c.a[2], env, cls)
        if cls is not None:
            z = cls(mk("op", c.a[0], a, b))
            if z is not None:
                return ev_bool(z, env, cls)
        a, b = pterm(a), pterm(b)
        if a is b:
            return c.a[0] != "<"
        ca, cb = _const(a), _const(b)
        if ca is not None and cb is not None:
            return {"<": ca < cb, "<=": ca <= cb, "==": ca == cb}[c.a[0]]
        if c.a[0] == "<":
            at, pol = mk("op", "<", a, b), True
        elif c.a[0] == "<=":
            at, pol = mk("op", "<", b, a), False
        else:
            if b.id < a.id and not is_const(b):
                a, b = b, a
            at, pol = mk("op", "==", a, b), True
        if at in env:
            return env[at] == pol
        if at.a[0] == "<" and env.get(mk("op", "<", at.a[2], at.a[1])):
            return not pol
        raise Need(at)
    if c in env:
        return env[c]
    raise Need(c)


def ev_val(t, env, cls=None):
    if t.k == "ite":
        return ev_val(t.a[1] if ev_bool(t.a[0], env, cls) else t.a[2], env, cls)
    if t.k == "op":
        if t.a[0] in ("&&", "||") or t.a[0] in CMP:
            return INT(1) if ev_bool(t, env, cls) else INT(0)
        return op(t.a[0], ev_val(t.a[1], env, cls), ev_val(t.a[2], env, cls))
    if t.k == "un":
        if t.a[0] == "!":
            return INT(1) if ev_bool(t, env, cls) else INT(0)
        x = ev_val(t.a[1], env, cls)
        return neg(x) if t.a[0] == "!" else mk("un", t.a[0], x)
    if t.k in ("call", "init", "E", "elem", "fld"):
        a = tuple(ev_val(x, env, cls) if isinstance(x, T) and any(y.k == "ite" for y in subterms(x)) else x for x in t.a)
        return mk(t.k, *a) if a != t.a else t
    return t


def rows(terms, assume=(), limit=6000, cls=None):
    """every consistent row of the joint decision table: yields (env, values)"""
    stack = [{}]
    n = 0
    while stack:
        env = stack.pop()
        n += 1
        if n > limit:
            raise AnalysisError("decision table too large")
        try:
            if any(ev_bool(t, env, cls) != p for t, p in assume):
                continue
            vals = [ev_val(t, env, cls) for t in terms]
        except Need as e:
            for v in (True, False):
                x = dict(env)
                x[e.a] = v
                if consistent(x):
                    stack.append(x)
            continue
        yield env, vals


def same_rows(got, spec, assume=(), leaf_eq=None, cls=None):
    leaf_eq = leaf_eq or alg_eq
    for env, (a, b) in rows([got, spec], assume, cls=cls):
        if a is b or leaf_eq(a, b):
            continue
        if any(v and at.k == "op" and at.a[0] == "==" and {pterm(a), pterm(b)} == {at.a[1], at.a[2]} for at, v in env.items()):
            continue
        x, y = pterm(a), pterm(b)
        if not any(env.get(c) is not False and zone_ok({**env, c: True}) for c in (mk("op", "<", x, y), mk("op", "<", y, x))):
            continue        # neither can be smaller
        return env, a, b
    return None


# ------------------------------------------------------------------ order of events
TRACE = mk("L", 0, -7, "#trace")


class Trace(Hooks):
    """the sequence of calls with one of the names, as the value of a ghost variable: ev(before, name, object, arguments)"""

    def __init__(self, *names):
        self.names = names
        self.got = []

    def on_call(self, I, st, c):
        if c.n not in self.names and c.q not in self.names:
            return
        vs = [I.load(st, a) if isinstance(a, T) and a.k in ("F", "L", "D", "E") else a for a in c.args]
        if not I.quiet:
            self.got.append((c.n, c.obj, vs, I.where(c.node), st.copy()))
        old = st.store.get(TRACE) or mk("none")
        I.write(st, TRACE, mk("ev", old, c.n, c.obj, *vs), hook=False)
