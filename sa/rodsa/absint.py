"""Interprocedural forward dataflow over resolved ASTs.

Domain: store (location -> value term, gated at joins), a must-set of facts (term, polarity), a may-set of
labels.  Terms are hash-consed expressions over entry values; a join of two different values is a gated
ite/phi term, a loop makes the locations it modifies opaque loop values ('lv').  Nothing is executed and no
path is handed to a solver: it is a fixpoint over joins.
"""
import sys
from .facts import AnalysisError

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("k", "a", "sz", "id")

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        sz = 1
        for x in a:
            if isinstance(x, T):
                sz += x.sz
        t.sz = sz
        t.id = len(_tab)
        _tab[key] = t
    return t


def INT(n):
    return mk("int", int(n))


TRUE = INT(1)
FALSE = INT(0)
NULL = mk("null")
VOID = mk("void")


def is_const(t):
    return t.k in ("int", "str", "flt", "enum", "null")


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 7:
        return "..."
    k, a = t.k, t.a
    s = lambda x: show(x, d + 1)
    if k == "int" or k == "flt":
        return str(a[0])
    if k == "str":
        return repr(a[0])
    if k == "null":
        return "null"
    if k == "enum":
        return a[0].split("::")[-1]
    if k == "init":
        return s(a[0])
    if k == "L":
        return a[2]
    if k == "F":
        f = a[1].split("::")[-1]
        b = s(a[0])
        return f if b == "this" else b + "." + f
    if k == "E":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if k == "D":
        return "*" + s(a[0]) if a[0].k != "this" else "this"
    if k == "G":
        return a[0].split("::")[-1]
    if k == "V":
        return s(a[0])
    if k == "op":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if k == "un":
        return "%s%s" % (a[0], s(a[1]))
    if k == "ite":
        return "(%s ? %s : %s)" % tuple(map(s, a))
    if k == "call":
        return "%s(%s)" % (a[0].split("::")[-1], ", ".join(map(s, a[1:])))
    if k == "fld":
        return "%s.%s" % (s(a[0]), a[1].split("::")[-1])
    if k == "elem":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if k == "addr":
        return "&" + s(a[0])
    if k == "bv":
        return "i" + (str(a[0].a[2]) if isinstance(a[0], T) and a[0].k == "loopid" else "")
    if k == "fill":
        return "%s with {%s}" % (s(a[0]), "; ".join("[%s]:=%s%s for %s" % (s(g.a[2]), s(g.a[3]), "" if g.a[1] is TRUE else " if " + s(g.a[1]),
               ", ".join("%s<=%s<%s" % (s(r.a[1]), s(r.a[0]), s(r.a[2])) for r in g.a[0])) for g in a[1]))
    if k == "upd":
        return "%s{[%s]:=%s}" % tuple(map(s, a))
    if k == "tup":
        return ",".join(map(s, a))
    if k == "lv":
        return "loop(%s)" % s(a[1])
    return "%s(%s)" % (k, ", ".join(map(s, a)))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            for y in x:
                if y.__class__ is T or y.__class__ is tuple:
                    st.append(y)
            continue
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if y.__class__ is T or y.__class__ is tuple:
                st.append(y)


def contains(t, sub):
    return any(x is sub for x in subterms(t))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    def sb(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(sb(y) for y in x)
        return x
    a = tuple(sb(x) for x in t.a)
    if a == t.a:
        r = t
    elif t.k == "op":
        r = op(a[0], a[1], a[2])
    elif t.k == "ite":
        r = ite(*a)
    elif t.k == "fld":
        v = a[0]
        while v.k == "snap":
            o = [o for o in v.a[1] if o.a[0] == a[1]]
            if o:
                break
            v = v.a[0]
        r = o[0].a[1] if v.k == "snap" else mk("init", F(v.a[0], a[1])) if v.k == "init" else mk("fld", v, a[1])
    else:
        r = mk(t.k, *a)
    memo[t] = r
    return r


BOOLOPS = {"==", "<", "<=", "&&", "||"}


def is_bool(t):
    return (t.k == "op" and t.a[0] in BOOLOPS) or (t.k == "un" and t.a[0] == "!")


def is_prop(t):
    """0 or 1"""
    return is_bool(t) or t.k == "exists" or t.k == "ite" and all(x in (TRUE, FALSE) or is_prop(x) for x in t.a[1:])


def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.k == "un" and t.a[0] == "!":
        return t.a[1]
    return mk("un", "!", t)


def lin(t):
    """(base or None, const) with t = base + const"""
    if t.k == "int":
        return None, t.a[0]
    if t.k == "op" and t.a[0] == "+" and t.a[2].k == "int":
        return t.a[1], t.a[2].a[0]
    return t, 0


def mklin(b, c):
    if b is None:
        return INT(c)
    if c == 0:
        return b
    return mk("op", "+", b, INT(c))


def base_of(l):
    while l.k in ("F", "E"):
        l = l.a[0]
    return l


def is_local(l):
    return base_of(l).k == "L"


def apart(l, m):
    """a local variable is none of the objects that existed when the function was called, and no other variable"""
    l, m = base_of(l), base_of(m)
    return m.k == "L" and l is not m or m.k == "D" and m.a[0].k in ("this", "p")


def op(o, a, b):
    if o == ">":
        return op("<", b, a)
    if o == ">=":
        return op("<=", b, a)
    if o == "!=":
        return neg(op("==", a, b))
    if o == "-" and b.k == "int":
        return op("+", a, INT(-b.a[0]))
    if o == "+":
        if a.k == "int" and b.k != "int":
            a, b = b, a
        if b.k == "int" and a.k != "str" and a.k != "iter":
            ba, ca = lin(a)
            return mklin(ba, ca + b.a[0])
        if a.k == "iter":
            return mk("iter", a.a[0], op("+", a.a[1], b))
        if b.k == "iter":
            return mk("iter", b.a[0], op("+", b.a[1], a))
        if a.k not in ("str",) and b.k not in ("str",):
            ba, ca = lin(a)
            bb, cb = lin(b)
            if (ca or cb) and ba is not None and bb is not None:
                return mklin(op("+", ba, bb), ca + cb)
            # do not commute (string concatenation is '+', too)
            return mk("op", "+", a, b)
        return mk("op", "+", a, b)
    if o == "-":
        if a is b:
            return INT(0)
        if a.k == "iter" and b.k == "iter" and a.a[0] is b.a[0]:
            return op("-", a.a[1], b.a[1])
        if a.k == "iter" and b.k != "iter":
            return mk("iter", a.a[0], op("-", a.a[1], b))
    if o == "*":
        if a.k == "int" and b.k == "int":
            return INT(a.a[0] * b.a[0])
        if b.k == "int":
            a, b = b, a
        elif a.k != "int" and b < a:
            a, b = b, a
        return mk("op", "*", a, b)
    if o == "==":
        if a is b and a.k != "nan":
            return TRUE
        if a.k == "iter" and b.k == "iter" and a.a[0] is b.a[0]:
            return op("==", a.a[1], b.a[1])
        if is_const(a) and is_const(b) and a.k == b.k:
            return FALSE
        for x, y in ((a, b), (b, a)):
            if y is TRUE and is_bool(x):
                return x
            if y is FALSE and is_bool(x):
                return neg(x)
            if y.k == "int" and y.a[0] == 0 and x.k == "call" and x.a[0].endswith("::compare") and len(x.a) == 3:
                return op("==", x.a[1], x.a[2])
            if y.k == "int" and y.a[0] == 0 and x.k == "call" and x.a[0] in ("strcmp", "std::strcmp") and len(x.a) == 3:
                return op("==", x.a[1], x.a[2])
            if y.k == "null" and x.k == "addr":
                return FALSE
            if x.k == "addr" and y.k == "addr" and is_local(x.a[0]) and apart(x.a[0], y.a[0]):
                return FALSE
            if y.k == "str" and y.a[0] == "" and x.k != "str":
                return op("==", mk("size", x), INT(0))
            if y is INT(0) and x.k == "size" and x.a[0].k == "str":
                return TRUE if x.a[0].a[0] == "" else FALSE
            # the number of indices with a property is zero
            if y is INT(0) and x.k == "agg" and x.a[0] == "sum" and is_prop(x.a[3]):
                return neg(mk("exists", x.a[1], x.a[2], x.a[3]))
            # a search that fails ends at the end
            if x.k == "ite" and y is x.a[2] and x.a[1].k == "first":
                return neg(x.a[0])
            # ite(c, k1, k2) == k
            if x.k == "ite" and is_const(y) and (is_const(x.a[1]) or is_const(x.a[2])):
                return ite(x.a[0], op("==", x.a[1], y), op("==", x.a[2], y))
        if b < a:
            a, b = b, a
        if is_const(a) and not is_const(b):
            a, b = b, a
        return mk("op", "==", a, b)
    if o in ("<", "<="):
        if a is b:
            return FALSE if o == "<" else TRUE
        if a.k in ("int", "flt") and b.k in ("int", "flt"):
            try:
                x, y = float(a.a[0]), float(b.a[0])
                return TRUE if (x < y if o == "<" else x <= y) else FALSE
            except ValueError:
                pass
        if a.k == "iter" and b.k == "iter" and a.a[0] is b.a[0]:
            return op(o, a.a[1], b.a[1])
        if a.k == "int" and b.k == "agg" and b.a[0] == "sum" and is_prop(b.a[3]) and a.a[0] == (0 if o == "<" else 1):
            return mk("exists", *b.a[1:])
        if b.k == "int" and a.k == "agg" and a.a[0] == "sum" and is_prop(a.a[3]) and b.a[0] == (1 if o == "<" else 0):
            return neg(mk("exists", *a.a[1:]))
        if o == "<" and b is FALSE and a.k in ("size", "nrows", "ncols"):
            return FALSE
        ba, ca = lin(a)
        bb, cb = lin(b)
        if ba is bb and ba is not None:
            return TRUE if (ca < cb if o == "<" else ca <= cb) else FALSE
        return mk("op", o, a, b)
    if o == "&&":
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        return mk("op", "&&", a, b)
    if o == "||":
        if a is TRUE or b is TRUE:
            return TRUE
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        return mk("op", "||", a, b)
    if o == "/" and a.k == "int" and b.k == "int" and b.a[0] != 0:
        return INT(int(a.a[0] / b.a[0]))
    return mk("op", o, a, b)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.k == "un" and c.a[0] == "!":
        return ite(c.a[1], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    # collapse nested same condition
    if a.k == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.k == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if 1 + a.sz + b.sz + c.sz > 6000:
        return mk("big", "ite", mk("leaves", tuple(sorted(leaves(a) | leaves(b)))))
    return mk("ite", c, a, b)


def phi(a, b):
    if a is b:
        return a
    s = set()
    for x in (a, b):
        if x.k == "phi":
            s |= set(x.a)
        else:
            s.add(x)
    r = sorted(s)
    if sum(x.sz for x in r) > 6000:
        l = set()
        for x in r:
            l |= leaves(x)
        return mk("big", "phi", mk("leaves", tuple(sorted(l))))
    return mk("phi", *r)


def leaves(t):
    return {x for x in subterms(t) if x.k in ("init", "str", "enum", "int", "flt")}


def alts(t):
    """The possible values of a joined term (ite branches / phi members), conditions dropped."""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "ite":
            st += [x.a[1], x.a[2]]
        elif x.k == "phi":
            st += list(x.a)
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------- locations
def F(b, q):
    return mk("F", b, q)


def E(b, i):
    return mk("E", b, i)


THIS = mk("D", mk("this"))


def parent(loc):
    return loc.a[0] if loc.k in ("F", "E") else None


def root(loc):
    while loc.k in ("F", "E"):
        loc = loc.a[0]
    return loc


class State:
    __slots__ = ("store", "kids", "facts", "cf", "may", "path", "refs", "dead")

    def __init__(self):
        self.store = {}
        self.kids = {}
        self.facts = set()
        self.cf = {}
        self.may = frozenset()
        self.path = ()
        self.refs = {}
        self.dead = False

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.kids = {k: v for k, v in self.kids.items()}
        s.facts = set(self.facts)
        s.cf = dict(self.cf)
        s.may = self.may
        s.path = self.path
        s.refs = dict(self.refs)
        s.dead = self.dead
        return s

    def become(self, o):
        self.store, self.kids, self.facts, self.cf, self.may, self.path, self.refs, self.dead = (
            o.store, o.kids, o.facts, o.cf, o.may, o.path, o.refs, o.dead)

    # tags: labels that hold on every path to this point
    def tag(self, name):
        self.facts.add((mk("tag", name), True))
        self.may = self.may | {name}

    def untag(self, name):
        t = mk("tag", name)
        self.facts.discard((t, True))
        if self.cf:
            self.cf = {k: frozenset(f for f in v if f[0] is not t) for k, v in self.cf.items()}

    def clear_may(self, name):
        self.may = self.may - {name}

    def has(self, name):
        return (mk("tag", name), True) in self.facts

    def tags(self):
        return {f[0].a[0] for f in self.facts if f[0].k == "tag"}


def add_fact(st, t, pol):
    """returns False if infeasible"""
    work = [(t, pol)]
    while work:
        t, pol = work.pop()
        if t.k == "un" and t.a[0] == "!":
            work.append((t.a[1], not pol))
            continue
        if t.k == "int":
            if (t.a[0] != 0) != pol:
                return False
            continue
        if t.k in ("null",):
            if pol:
                return False
            continue
        if t.k in ("addr", "str"):
            if not pol:
                return False
            continue
        if (t, pol) in st.facts:
            continue
        if (t, not pol) in st.facts:
            return False
        if t.k == "op" and t.a[0] == "&&":
            if pol:
                work += [(t.a[1], True), (t.a[2], True)]
            else:
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if holds(st, x, True):
                        work.append((y, False))
        elif t.k == "op" and t.a[0] == "||":
            if not pol:
                work += [(t.a[1], False), (t.a[2], False)]
            else:
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if holds(st, x, False):
                        work.append((y, True))
        elif t.k == "ite":
            c, a, b = t.a
            if holds(st, a, not pol):
                work += [(c, False), (b, pol)]
            elif holds(st, b, not pol):
                work += [(c, True), (a, pol)]
        elif t.k == "op" and t.a[0] == "==" and pol and is_const(t.a[2]):
            # distinct constants
            for (f, p) in list(st.facts):
                if p and f.k == "op" and f.a[0] == "==" and f.a[1] is t.a[1] and is_const(f.a[2]) and f.a[2] is not t.a[2]:
                    return False
        if t.k == "op" and t.a[0] in ("<", "<=", "=="):
            if implies(st, t, not pol):
                return False
        st.facts.add((t, pol))
        rel = st.cf.get((t, pol))
        if rel:
            work += [(f, p) for f, p in rel]
    return True


def holds(st, t, pol):
    if t.k == "int":
        return (t.a[0] != 0) == pol
    if t.k == "un" and t.a[0] == "!":
        return holds(st, t.a[1], not pol)
    if (t, pol) in st.facts:
        return True
    if t.k == "op":
        o = t.a[0]
        if o == "&&":
            return (holds(st, t.a[1], True) and holds(st, t.a[2], True)) if pol else (holds(st, t.a[1], False) or holds(st, t.a[2], False))
        if o == "||":
            return (holds(st, t.a[1], True) or holds(st, t.a[2], True)) if pol else (holds(st, t.a[1], False) and holds(st, t.a[2], False))
        if o in ("<", "<=", "=="):
            return implies(st, t, pol)
    if t.k == "ite":
        if holds(st, t.a[0], True):
            return holds(st, t.a[1], pol)
        if holds(st, t.a[0], False):
            return holds(st, t.a[2], pol)
        return holds(st, t.a[1], pol) and holds(st, t.a[2], pol)
    return False


NONNEG = {"size", "nonneg"}
UNSIGNED = set()   # terms known to be of unsigned type
INTT = set()       # terms known to be of a signed integer type


def implies(st, t, pol):
    """zone-domain query over the comparison facts"""
    o, a, b = t.a
    if (t, pol) in st.facts:
        return True
    if o == "==":
        if pol:
            return bound(st, a, b) <= (0, 0) and bound(st, b, a) <= (0, 0)
        # a != b if a<b or b<a
        if bound(st, a, b) < (0, 0) or bound(st, b, a) < (0, 0):
            return True
        if (op("<", a, b), True) in st.facts or (op("<", b, a), True) in st.facts:
            return True
        ca = constval(st, a)
        cb = constval(st, b)
        return ca is not None and cb is not None and ca is not cb and ca.k == cb.k
    # strictness handled with integers (c=-1); also kept for reals by remembering strict facts
    if not pol:
        # not (a<b) == b<=a
        o2 = "<=" if o == "<" else "<"
        return implies_rel(st, o2, b, a)
    return implies_rel(st, o, a, b)


def constval(st, t):
    if is_const(t):
        return t
    for (f, p) in st.facts:
        if p and f.k == "op" and f.a[0] == "==" and f.a[1] is t and is_const(f.a[2]):
            return f.a[2]
    return None


def integral(t):
    """term known to be a whole number"""
    if t is None or t in UNSIGNED or t in INTT or t.k in ("int", "size", "nrows", "ncols", "nonneg", "bv", "first"):
        return True
    if t.k == "op" and t.a[0] in ("+", "-", "*"):
        return integral(t.a[1]) and integral(t.a[2])
    if t.k == "un" and t.a[0] in ("int", "-", "+"):
        return t.a[0] == "int" or integral(t.a[1])
    if t.k == "ite":
        return integral(t.a[1]) and integral(t.a[2])
    if t.k == "flt":
        return False
    return False


def implies_rel(st, o, a, b):
    w = bound(st, a, b)
    return w < (0, 0) if o == "<" else w <= (0, 0)


def bound(st, a, b):
    """smallest known c with a - b <= c (inf if none), as (c, e): e < 0 marks a strict bound; between whole numbers a
    strict bound is a bound by c - 1"""
    INF = (float("inf"), 0)
    ba, ca = lin(a)
    bb, cb = lin(b)
    edges = {}

    def add(x, y, c, less=False):   # x - y <= c  (less: x - y < c)
        w = (c, 0)
        if less:
            w = (c - 1, 0) if isinstance(c, int) and integral(x) and integral(y) else (c, -1)
        edges.setdefault(y, []).append((x, w))
    Z = None
    for (f, p) in st.facts:
        if f.k != "op":
            continue
        o = f.a[0]
        if o not in ("<", "<=", "=="):
            continue
        x, y = f.a[1], f.a[2]
        bx, cx = lin(x)
        by, cy = lin(y)
        if o == "==":
            if p:
                add(bx, by, cy - cx)
                add(by, bx, cx - cy)
            elif by is None and cy == cx and (bx.k in NONNEG or bx in UNSIGNED):
                add(Z, bx, -1)   # x != 0 and x >= 0  =>  0 - x <= -1
            continue
        if o == "<":
            if p:
                add(bx, by, cy - cx, True)
            else:
                add(by, bx, cx - cy)
        else:
            if p:
                add(bx, by, cy - cx)
            else:
                add(by, bx, cx - cy, True)
    for x in list(edges.keys()) + [bb, ba]:
        if x is not None and (x.k in NONNEG or x in UNSIGNED):
            add(Z, x, 0)
    # Bellman-Ford from bb: dist[x] = min c, x - bb <= c
    dist = {bb: (0, 0)}
    for _ in range(24):
        ch = False
        for y in list(dist):
            dy = dist[y]
            for (x, c) in edges.get(y, ()):
                nd = (dy[0] + c[0], dy[1] + c[1])
                if nd < dist.get(x, INF):
                    if nd[0] < -1000000 or nd[1] < -1000:
                        continue
                    dist[x] = nd
                    ch = True
        if not ch:
            break
    d = dist.get(ba, INF)
    return (d[0] + ca - cb, d[1])


# ---------------------------------------------------------------- std models
SIZEQ = {"size", "length", "getSize", "numel"}
CONTAINER_PREFIX = ("std::?", "std::vector", "std::basic_string", "std::array", "std::map", "std::unordered_map", "std::initializer_list", "std::deque", "std::set", "std::list")
PASS = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof"}


SIZEOF = {}
SAMESIZE = {"copyVector", "fill", "fillRandom", "fillRandomLHS", "fillWithIntegersAscendingOrder", "set", "setRow", "setCol", "sort",
            "shuffleRows", "eye", "addEpsilonToDiagonal", "swapRows", "generateRandomPositiveDefinite", "generateRandomSymmetric",
            "generateRandomCorrelationMatrix"}


def strip_cast(e):
    while e.get("k") == "Cast" and e.get("e") is not None:
        e = e["e"]
    return e


def dimq(kind, v):
    """dimension (size / nrows / ncols) of a container value; element writes do not change it"""
    k = v.k
    if k in ("upd", "fill"):
        return dimq(kind, v.a[0])
    if k == "snap":
        for o in v.a[1]:
            if not isinstance(o.a[0], T) and VALF.get(o.a[0]) == kind:
                return o.a[1]
        if v.a[0].k != "init" or all(isinstance(o.a[0], T) or o.a[0] in VALF for o in v.a[1]):
            return dimq(kind, v.a[0])
    if k == "lapack" and isinstance(v.a[1], int) and (v.a[0], v.a[1]) in (("dpotrf_", 2), ("dgetrf_", 2), ("dgetri_", 1), ("dgetrs_", 6)):
        return dimq(kind, v.a[2 + v.a[1]])
    if k in ("lv", "obj") and (kind, v) in SIZEOF:
        return SIZEOF[(kind, v)]
    if k == "push" and kind == "size":
        return op("+", dimq(kind, v.a[0]), INT(1))
    if k == "ite":
        return ite(v.a[0], dimq(kind, v.a[1]), dimq(kind, v.a[2]))
    if k == "obj":
        q = v.a[0]
        if len(v.a) == 1 and (is_container(q) or q in VECLIKE):
            return INT(0)
        if q == "Rodop::vec" and kind == "size" and (v.a[1].k not in ("initlist", "init") or v.a[1] in UNSIGNED):
            return v.a[1]
        if q == "Rodop::mat" and len(v.a) in (3, 4):
            return v.a[1] if kind == "nrows" else v.a[2] if kind == "ncols" else mk("size", v)
        if q.startswith("std::vector") and len(v.a) in (2, 3) and kind == "size" and (v.a[1].k in ("int", "size", "nrows", "ncols") or len(v.a) == 3 and (v.a[1] in UNSIGNED or v.a[1].k == "op")):
            return v.a[1]
    if k == "list" and kind == "size":
        return INT(len(v.a))
    if k == "grow":
        return v.a[1] if kind == "size" else mk(kind, v)
    if k == "growm":
        return v.a[1] if kind == "nrows" else v.a[2] if kind == "ncols" else mk(kind, v)
    if k == "mut":
        c, n = v.a[0].rsplit("::", 1) if "::" in v.a[0] else ("", v.a[0])
        if c in VECLIKE:
            if n in SAMESIZE:
                return dimq(kind, v.a[1])
            if n == "addRow":
                d = dimq(kind, v.a[1])
                return op("+", d, INT(1)) if kind == "nrows" else d
            if n == "addColumn":
                d = dimq(kind, v.a[1])
                return op("+", d, INT(1)) if kind == "ncols" else d
            if n == "push_back" and kind == "size":
                return op("+", dimq(kind, v.a[1]), INT(1))
            if n == "resize":
                if c == "Rodop::vec" and kind == "size":
                    return v.a[2]
                if c == "Rodop::mat" and kind in ("nrows", "ncols"):
                    return v.a[2] if kind == "nrows" else v.a[3]
            if n == "reset":
                return INT(0)
            if n == "fromStdVector" and kind == "size":
                return dimq("size", v.a[2])
    if k == "call" and "::" in v.a[0]:
        c, n = v.a[0].rsplit("::", 1)
        if c == "Rodop::vec" and kind == "size":
            if n in ("head", "tail"):
                return v.a[2]
            if n in ("operator+", "operator-", "operator*", "normalizeVector", "denormalizeVector", "unitVector"):
                return dimq(kind, v.a[1])
        if c == "Rodop::mat":
            if n == "getRow" and kind == "size":
                return dimq("ncols", v.a[1])
            if n == "getCol" and kind == "size":
                return dimq("nrows", v.a[1])
            if n == "submat" and len(v.a) == 6:
                if kind == "nrows":
                    return op("+", op("-", v.a[3], v.a[2]), INT(1))
                if kind == "ncols":
                    return op("+", op("-", v.a[5], v.a[4]), INT(1))
            if n in ("normalizeMatrix", "operator+", "operator-") and kind in ("nrows", "ncols"):
                return dimq(kind, v.a[1])
            if n in ("solveCholesky", "solveLU") and kind == "size" and len(v.a) == 3:
                return dimq(kind, v.a[2])
            if n == "matVecProduct" and kind == "size":
                return dimq("nrows", v.a[1])
            if n.startswith("computeCorrelationMatrix") and kind in ("nrows", "ncols"):
                return dimq("nrows", v.a[1])
            if n == "cholesky" and kind in ("nrows", "ncols"):
                return dimq(kind, v.a[1])
            if n == "transpose" and kind in ("nrows", "ncols"):
                return dimq("ncols" if kind == "nrows" else "nrows", v.a[1])
    return mk(kind, v)


def mksize(v):
    return dimq("size", v)


VECLIKE = ("Rodop::vec", "Rodop::mat")
VALF = {"Rodop::vec::data": "data", "Rodop::mat::matrix": "data", "Rodop::vec::size": "size", "Rodop::mat::nrows": "nrows", "Rodop::mat::ncols": "ncols"}
MATVALS = set()    # values known to be matrices


def is_container(q):
    return q.startswith(CONTAINER_PREFIX)


def boolnode(e):
    while e.get("k") == "Cast":
        e = e["e"]
    return e.get("t") in ("bool", "const bool") and e.get("k") != "Lit"


CTORS = {}
NOCTOR = {"Rodop::vec", "Rodop::mat"}


class Hooks:
    def on_call(self, I, st, c):
        pass

    def on_store(self, I, st, loc, val, node):
        pass

    def on_throw(self, I, st, node, typ):
        pass

    def on_new(self, I, st, node, val):
        pass

    def on_delete(self, I, st, node, loc, val):
        pass

    def on_load(self, I, st, loc, node):
        pass

    def on_branch(self, I, st, cond, node):
        pass

    def on_deref(self, I, st, loc, node):
        pass

    def on_enter(self, I, st, f, frame):
        pass

    def on_exit(self, I, st, f, frame):
        pass

    def on_loop(self, I, node, info, head, back, ex, out):
        pass


class Call:
    """a call event"""
    __slots__ = ("node", "q", "fid", "n", "obj", "args", "locs", "inlined", "ret", "virt", "loc_types")

    def __init__(self, node, q, fid, obj, args, locs):
        self.node = node; self.q = q; self.fid = fid; self.n = q.split("::")[-1]; self.obj = obj
        self.args = args; self.locs = locs; self.inlined = False; self.ret = None


def states(x):
    """flat list of live states of an outcome field (None, state, list)"""
    if x is None:
        return []
    if isinstance(x, list):
        return [y for y in x if y is not None and not y.dead]
    return [] if x.dead else [x]


def path_cond(p):
    """conjunction of the decisions of a path; None when it is not purely boolean"""
    c = TRUE
    for x, pol in p:
        if pol not in (True, False) or x.k in ("in", "exc", "dispatch"):
            return None
        c = op("&&", c, x if pol else neg(x))
    return c


def cover(ca, cb):
    """ca || cb, TRUE when the two conditions cover everything"""
    at = []
    bool_atoms(ca, at)
    bool_atoms(cb, at)
    if len(at) <= 6:
        for m in range(1 << len(at)):
            env = {x: bool(m >> i & 1) for i, x in enumerate(at)}
            if not bool_eval(ca, env) and not bool_eval(cb, env):
                break
        else:
            return TRUE
    return op("||", ca, cb)


def bool_atoms(t, out):
    if t.k == "op" and t.a[0] in ("&&", "||"):
        bool_atoms(t.a[1], out)
        bool_atoms(t.a[2], out)
    elif t.k == "un" and t.a[0] == "!":
        bool_atoms(t.a[1], out)
    elif t.k == "ite":
        for x in t.a:
            bool_atoms(x, out)
    elif t is TRUE or t is FALSE:
        pass
    elif t not in out:
        out.append(t)


def bool_eval(t, env):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.k == "op" and t.a[0] == "&&":
        return bool_eval(t.a[1], env) and bool_eval(t.a[2], env)
    if t.k == "op" and t.a[0] == "||":
        return bool_eval(t.a[1], env) or bool_eval(t.a[2], env)
    if t.k == "un" and t.a[0] == "!":
        return not bool_eval(t.a[1], env)
    if t.k == "ite":
        return bool_eval(t.a[1], env) if bool_eval(t.a[0], env) else bool_eval(t.a[2], env)
    return env[t]


class Out:
    """outcomes of a statement; brk/cont/ret keep their states apart and are merged along the decision tree when read"""
    __slots__ = ("n", "I", "_b", "_c", "_r")

    def __init__(self, n=None, brk=None, cont=None, ret=None):
        self.n = n; self._b = states(brk); self._c = states(cont); self._r = states(ret)

    def _get(self, L):
        if len(L) > 1:
            L[:] = states(JOIN[0].join(list(L)))
        return L[0] if L else None

    brk = property(lambda s: s._get(s._b), lambda s, v: setattr(s, "_b", states(v)))
    cont = property(lambda s: s._get(s._c), lambda s, v: setattr(s, "_c", states(v)))
    ret = property(lambda s: s._get(s._r), lambda s, v: setattr(s, "_r", states(v)))


JOIN = [None]


_known = None


# algorithms that write through their iterators: argument index of the destination (None: the range itself)
MUTALG = {"std::" + n: None for n in ("shuffle", "random_shuffle", "reverse", "rotate", "unique", "remove", "remove_if", "partial_sort", "nth_element", "sort", "stable_sort",
          "iota", "generate", "generate_n", "replace", "replace_if", "swap_ranges", "partition", "stable_partition", "iter_swap", "fill", "fill_n",
          "next_permutation", "prev_permutation", "partial_sort_copy")}
MUTALG.update({"std::copy": 2, "std::copy_n": 2, "std::copy_if": 2, "std::copy_backward": 2, "std::move": 2, "std::transform": None, "std::partial_sum": 2, "std::adjacent_difference": 2,
               "std::reverse_copy": 2, "std::replace_copy": 2})


def known_fns():
    """functions of the tree the rules were written for: anything else is a helper and is always looked into"""
    global _known
    if _known is None:
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_fns.txt")) as f:
            _known = {x.strip() for x in f if x.strip()}
    return _known


class Interp:
    def __init__(self, prog, inline=None, hooks=None, max_depth=10, veclike=True, throws=False, budget=400000, vals=False):
        self.prog = prog
        self.vals = vals           # vec/mat seen as values: data pointer = iterator over the object, size fields = dimensions
        self.inline = inline or (lambda I, f, call: False)
        self.hooks = hooks or Hooks()
        self.max_depth = max_depth
        self.veclike = veclike     # model vec/mat element access as primitive
        self.model_throws = throws
        self.quiet = 0
        self.stack = []
        self.frames = []
        self.throws = [[]]
        self.omp = []
        JOIN[0] = self
        self.loops = {}
        self.loopstack = []
        self.budget = budget
        self.steps = 0
        self.analysed = set()
        self.callsites = 0
        self._wcache = {}
        self.this_class = {}
        self.reports = []
        self.cls_of_loc = {}

    # -------- reporting
    def where(self, node=None):
        f = self.stack[-1][0] if self.stack else None
        l = node.get("l") if node else None
        return "%s (%s)" % (f.where(l), f.q) if f else "?"

    def chain(self):
        return " > ".join(f.q.split("::")[-1] for f, _ in self.stack)

    # -------- memory
    def init_val(self, loc):
        if loc.k == "G":
            g = self.prog.globals.get(loc.a[0])
            if g and g.get("const") and g.get("init"):
                e = g["init"]
                sg = False
                while e["k"] in ("Cast", "Un", "InitList"):
                    if e["k"] == "Un":
                        if e["op"] not in ("-", "+"):
                            break
                        sg ^= e["op"] == "-"
                    if e["k"] == "InitList":
                        if len(e["a"]) != 1:
                            break
                        e = e["a"][0]
                    else:
                        e = e["e"]
                if e["k"] == "Lit" and e["lk"] != "str":
                    v = self.lit(e)
                    return (INT(-v.a[0]) if v.k == "int" else mk("un", "-", v)) if sg else v
        return mk("init", loc)

    def raw(self, st, loc):
        """value of loc ignoring overrides of its sub-locations"""
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc.k == "F":
            return self.fldval(self.raw(st, loc.a[0]), loc.a[1])
        if loc.k == "E":
            return self.elemval(self.raw(st, loc.a[0]), loc.a[1])
        if loc.k == "V":
            return loc.a[0]
        if loc.k == "D" and loc.a[0].k == "addr":
            return self.raw(st, loc.a[0].a[0])
        return self.init_val(loc)

    def load(self, st, loc):
        if self.vals and loc.k == "F" and loc.a[1] in VALF and loc not in st.store and VALF[loc.a[1]] != "data":
            v = dimq(VALF[loc.a[1]], self.load(st, loc.a[0]))
            UNSIGNED.add(v)
            return v
        v = self.raw(st, loc)
        kids = st.kids.get(loc)
        if kids:
            ov = []
            for c in kids:
                if c in st.store or c in st.kids:
                    x = self.load(st, c)
                    if c.k == "F" and x is self.fldval(v, c.a[1]):
                        continue
                    ov.append((c.a[1], x))
            if ov:
                ov.sort(key=lambda x: (str(x[0]) if not isinstance(x[0], T) else x[0].id).__str__())
                sv = mk("snap", v, tuple(mk("ov", k, x) for k, x in ov))
                if sv.sz > 20000:
                    sv = mk("bigsnap", v)
                return sv
        return v

    def cur_val(self, st, loc):
        if self.vals and loc.k == "F" and loc.a[1] in VALF and VALF[loc.a[1]] != "data":
            return self.load(st, loc)
        return self.raw(st, loc)

    def fldval(self, v, f):
        if v.k == "init":
            return self.init_val(F(v.a[0], f))
        if v.k == "elem" and v.a[0].k == "init" and self.vals:
            return self.init_val(F(mk("E", v.a[0].a[0], v.a[1]), f))
        if v.k == "snap":
            for o in v.a[1]:
                if o.a[0] == f:
                    return o.a[1]
            return self.fldval(v.a[0], f)
        if v.k == "ite":
            return ite(v.a[0], self.fldval(v.a[1], f), self.fldval(v.a[2], f))
        if v.k in ("upd", "fill"):
            return self.fldval(v.a[0], f)
        if v.k == "obj":
            r = self.objfield(v, f)
            if r is not None:
                return r
        if (v.k == "call" and v.a[0] == "std::make_pair" or v.k == "obj" and v.a[0].startswith("std::pair") and len(v.a) == 3) and f.endswith(("::first", "::second")):
            return v.a[1 if f.endswith("::first") else 2]
        return mk("fld", v, f)

    def setfld(self, v, f, val):
        """object v with field f replaced"""
        if self.fldval(v, f) is val:
            return v
        ov = {}
        if v.k == "snap":
            ov = {o.a[0]: o.a[1] for o in v.a[1]}
            v = v.a[0]
        ov[f] = val
        return mk("snap", v, tuple(mk("ov", k, ov[k]) for k in sorted(ov, key=str)))

    def objfield(self, v, f):
        """field f of a freshly constructed object"""
        cls = v.a[0]
        c = self.prog.classes.get(cls)
        if c is None:
            return None
        if self.vals and not (cls.startswith("std::") or cls in NOCTOR):
            r = self.ctorfield(cls, v.a[1:], f)
            if r is not None:
                return r
        for fd in self.prog.fields(cls):
            if fd["q"] == f:
                # is f set by a constructor?
                if len(v.a) > 1:
                    return None
                ctors = [m for m in self.prog.funcs.values() if m.cls == cls and m.kind == "ctor" and len(m.p) == 0]
                for m in ctors:
                    for i in m.inits:
                        if i.get("field") == f and i.get("w"):
                            return None
                    if m.body and m.body.get("b"):
                        return None
                e = fd.get("init")
                if e and e.get("k") == "InitList" and len(e["a"]) == 1:
                    e = e["a"][0]
                if e and e.get("k") == "Lit":
                    return self.lit(e)
                if e and e.get("k") == "Ref" and e.get("d") == "enum":
                    return mk("enum", e["q"])
                if e is None and fd.get("rec"):
                    return mk("obj", fd["rec"])
                if e and e.get("k") == "Ctor" and not e["a"]:
                    return mk("obj", e["q"])
                return None
        return None

    def ctorfield(self, cls, args, f):
        """field f as set by the constructor with these arguments"""
        cs = [m for m in self.prog.funcs.values() if m.cls == cls and m.kind == "ctor" and len(m.p) == len(args)
              and not (len(m.p) == 1 and cls in m.p[0]["t"])]
        if len(cs) != 1:
            return None
        m = cs[0]
        key = (id(self.prog), m.id)
        st = CTORS.get(key)
        if st is None:
            if key in CTORS:
                return None     # under construction
            CTORS[key] = None
            u, n = set(UNSIGNED), set(INTT)
            I = Interp(self.prog, inline=lambda I, g, c: g.cls == cls, vals=True)
            try:
                s2, _ = I.run(m, this_class=cls)
                CTORS[key] = st = (I, s2)
            finally:
                UNSIGNED.clear(); UNSIGNED.update(u)
                INTT.clear(); INTT.update(n)
        I, s2 = st
        if s2.dead:
            return None
        r = I.load(s2, F(THIS, f))
        if any(x is THIS for x in subterms(r)) or r.sz > 200 or any(x.k in ("L", "lv", "fr", "site", "loopid") for x in subterms(r)):
            return None
        mp = {}
        for p, a in zip(m.p, args):
            mp[mk("init", mk("D", mk("p", p["n"])))] = a
            mp[mk("init", mk("P", p["n"]))] = a
        r = subst(r, mp)
        if any(x.k in ("p", "P") for x in subterms(r)) and not any(x.k in ("p", "P") for a in args for x in subterms(a)):
            return None
        return r

    def elemval(self, v, i):
        if v.k == "init":
            return self.init_val(E(v.a[0], i))
        x = v
        while x.k == "upd":
            if x.a[1] is i:
                return x.a[2]
            if is_const(x.a[1]) and is_const(i):
                x = x.a[0]
                continue
            break
        if x is not v:
            return self.elemval(x, i)
        if v.k == "ite":
            return ite(v.a[0], self.elemval(v.a[1], i), self.elemval(v.a[2], i))
        if v.k == "list" and i.k == "int" and 0 <= i.a[0] < len(v.a):
            return v.a[i.a[0]]
        return mk("elem", v, i)

    def vecelem(self, v, i):
        """element of a vector value, looking through rows, columns and scaling"""
        if v.k == "call" and len(v.a) == 3:
            if v.a[0] == "Rodop::mat::getRow":
                return self.elemval(v.a[1], mk("tup", v.a[2], i))
            if v.a[0] == "Rodop::mat::getCol":
                return self.elemval(v.a[1], mk("tup", i, v.a[2]))
            if v.a[0] == "Rodop::vec::operator*":
                return op("*", self.vecelem(v.a[1], i), v.a[2])
        return self.elemval(v, i)

    def drop_kids(self, st, loc):
        ks = st.kids.pop(loc, None)
        if ks:
            for c in ks:
                st.store.pop(c, None)
                self.drop_kids(st, c)

    def link(self, st, loc):
        while loc.k in ("F", "E"):
            p = loc.a[0]
            s = st.kids.get(p)
            if s is None:
                st.kids[p] = frozenset((loc,))
            elif loc not in s:
                st.kids[p] = s | {loc}
            else:
                break
            loc = p

    def write(self, st, loc, val, node=None, hook=True):
        loc = self.canon(st, loc)
        if hook:
            self.hooks.on_store(self, st, loc, val, node)
        if loc.k == "E":
            # functional update of the container value
            b = loc.a[0]
            cur = self.load(st, b)
            self.drop_kids(st, b)
            nv = mk("upd", cur, loc.a[1], val)
            if nv.sz > 20000:
                nv = mk("big", "upd", mk("leaves", tuple(sorted(leaves(nv)))))
            st.store[b] = nv
            self.link(st, b)
            return
        if self.vals and loc.k == "F" and VALF.get(loc.a[1]) == "data" and self.adopt(st, loc, val):
            return
        if self.vals and loc.k == "F" and loc.a[0].k == "E":
            # member of a container's element: functional update of the element
            e = loc.a[0]
            self.write(st, e, self.setfld(self.load(st, e), loc.a[1], val), node, hook=False)
            return
        self.drop_kids(st, loc)
        st.store[loc] = val
        self.link(st, loc)

    def adopt(self, st, loc, p):
        """the data pointer of a vector / matrix is set: its elements become those of the array; dimensions stay"""
        base, cls = loc.a[0], loc.a[1].rsplit("::", 1)[0]
        if p.k == "newarr":
            v = mk("adopt", self.load(st, mk("D", p)), cls)
        elif p.k == "null":
            v = mk("adopt", NULL, cls)
        elif p.k == "iter" and p.a[1] is INT(0):
            v = mk("adopt", self.load(st, p.a[0]), cls)
        elif p.k == "init" and p.a[0].k == "F" and p.a[0].a[1] == loc.a[1]:
            v = mk("adopt", mk("init", p.a[0].a[0]), cls)
        else:
            return False
        old = self.load(st, base)
        dims = [(f, dimq(k, old)) for f, k in VALF.items() if f.startswith(cls + "::") and k != "data"]
        self.drop_kids(st, base)
        st.store[base] = v
        self.link(st, base)
        for f, d in dims:
            fl = F(base, f)
            st.store[fl] = d
            self.link(st, fl)
        return True

    def canon(self, st, loc):
        if loc.k == "D" and loc.a[0].k == "addr":
            return self.canon(st, loc.a[0].a[0])
        if loc.k in ("F", "E"):
            b = self.canon(st, loc.a[0])
            if b is not loc.a[0]:
                return mk(loc.k, b, loc.a[1])
        return loc

    # -------- merge
    def join(self, L):
        """merge states along the decision tree their paths form"""
        L = states(L)
        if len(L) < 2:
            return L[0] if L else None
        n = min(len(x.path) for x in L)
        k = 0
        while k < n and all(x.path[k] == L[0].path[k] for x in L):
            k += 1
        if k < n and all(x.path[k][0] is L[0].path[k][0] for x in L):
            a = self.join([x for x in L if x.path[k][1] == L[0].path[k][1]])
            b = self.join([x for x in L if x.path[k][1] != L[0].path[k][1]])
            return self.merge(a, b)
        if len(L) > 2:
            # states sharing a decision first
            groups = []
            for x in L:
                for g in groups:
                    if len(x.path) > k and len(g[0].path) > k and g[0].path[k][0] is x.path[k][0]:
                        g.append(x)
                        break
                else:
                    groups.append([x])
            if 1 < len(groups) < len(L):
                L = [self.join(g) for g in groups]
        r = L[0]
        for x in L[1:]:
            r = self.merge(r, x)
        return r

    def merge(self, a, b):
        if a is None or a.dead:
            return b if (b is not None and not b.dead) else None
        if b is None or b.dead:
            return a
        n = 0
        pa, pb = a.path, b.path
        while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
            n += 1
        gate = None
        if n < len(pa) and n < len(pb) and pa[n][0] is pb[n][0]:
            gate = pa[n][0] if pa[n][1] else None
            if gate is None:
                gate = pa[n][0]
                a, b = b, a
        elif n < len(pa) and n == len(pb):
            gate = None
        s = State()
        s.path = pa[:n]
        if n < len(pa) and n < len(pb):
            ca, cb = path_cond(a.path[n:]), path_cond(b.path[n:])
            if ca is not None and cb is not None:
                if gate is None:
                    gate = ca
                    if cb.sz < ca.sz:
                        gate = cb
                        a, b = b, a
                u = cover(ca, cb)
                if u is not TRUE:
                    s.path = s.path + ((u, True),)
        keys = set(a.store) | set(b.store)
        for loc in keys:
            va = a.store.get(loc)
            vb = b.store.get(loc)
            if va is vb:
                s.store[loc] = va
                continue
            if va is None:
                va = self.cur_val(a, loc)
            if vb is None:
                vb = self.cur_val(b, loc)
            s.store[loc] = va if va is vb else (ite(gate, va, vb) if gate is not None else phi(va, vb))
        for loc in s.store:
            self.link(s, loc)
        s.facts = a.facts & b.facts
        s.refs = dict(a.refs)
        for k, v in b.refs.items():
            s.refs.setdefault(k, v)
        s.may = a.may | b.may
        # conditional facts
        cf = {}
        for k, v in a.cf.items():
            w = b.cf.get(k)
            if w is v:
                cf[k] = v
            elif w:
                x = v & w
                if x:
                    cf[k] = x
            if (k[0], not k[1]) in b.facts:
                cf[k] = cf.get(k, frozenset()) | v
        for k, v in b.cf.items():
            if (k[0], not k[1]) in a.facts:
                cf[k] = cf.get(k, frozenset()) | v
        if gate is not None:
            da = frozenset(f for f in a.facts - b.facts if f[0] is not gate)
            db = frozenset(f for f in b.facts - a.facts if f[0] is not gate)
            if da:
                cf[(gate, True)] = cf.get((gate, True), frozenset()) | da
            if db:
                cf[(gate, False)] = cf.get((gate, False), frozenset()) | db
        s.cf = cf
        return s

    def assume(self, st, cond, pol):
        """new state or None"""
        s = st.copy()
        while cond.k == "un" and cond.a[0] == "!":
            cond, pol = cond.a[1], not pol
        s.path = s.path + ((cond, pol),)
        if not add_fact(s, cond, pol):
            return None
        return s

    # -------- literals
    def lit(self, e):
        lk = e["lk"]
        if lk in ("int", "bool", "char", "zero"):
            return INT(int(e["v"]))
        if lk == "str":
            return mk("str", e["v"])
        if lk == "null":
            return NULL
        v = e["v"]
        try:
            fv = float(v)
            if fv == int(fv) and abs(fv) < 1e15:
                return INT(int(fv))
            return mk("flt", repr(fv))
        except (ValueError, OverflowError):
            return mk("flt", v)

    def cur(self):
        return self.frames[-1]

    def varloc(self, st, n):
        d = n["d"]
        if d in ("var", "param"):
            # captured variables: search frames inner to outer
            fr = self.cur()
            for f in reversed(fr["chain"]):
                l = mk("L", f, n["id"], n["n"])
                if l in st.refs:
                    return st.refs[l]
                if l in fr["locals"]:
                    return l
                pl = fr["known"].get(n["id"])
                if pl is not None:
                    return st.refs.get(pl, pl)
            l = mk("L", fr["chain"][-1], n["id"], n["n"])
            return st.refs.get(l, l)
        if d in ("global", "sfield", "slocal"):
            return mk("G", n["q"])
        if d == "func":
            return mk("G", "fn:" + n["f"])
        return mk("G", "?" + n.get("q", n["n"]))

    # -------- lvalues
    def lval(self, st, e):
        k = e["k"]
        if k == "Ref":
            if e["d"] == "enum":
                return mk("V", mk("enum", e["q"]))
            return self.varloc(st, e)
        if k == "Mem":
            if e.get("f"):
                return mk("V", mk("memfn", e["f"]))
            b = e["b"]
            if b is None:
                return F(self.cur()["this"], e["q"])
            if b["k"] == "This":
                return F(self.cur()["this"], e["q"])
            if e.get("arrow"):
                base = self.deref(st, self.ev(st, b), b)
                self.hooks.on_deref(self, st, base, e)
            else:
                base = self.lval(st, b)
            return F(base, e["q"])
        if k == "Index":
            base = self.ev(st, e["b"]) if not self._is_arr(e["b"]) else None
            i = self.ev(st, e["i"])
            if base is None:
                bl = self.lval(st, e["b"])
            elif base.k == "iter":
                bl, i = base.a[0], (i if base.a[1] is INT(0) else op("+", base.a[1], i))
            else:
                bl = self.deref(st, base, e["b"])
            loc = self.celem(st, bl, i)
            self.hooks.on_deref(self, st, loc, e)
            return loc
        if k == "Un" and e["op"] == "*":
            v = self.ev(st, e["e"])
            loc = self.deref(st, v, e["e"])
            self.hooks.on_deref(self, st, loc, e)
            return loc
        if k == "Un" and e["op"] in ("++", "--"):
            self.ev(st, e)
            return self.lval(st, e["e"])
        if k == "This":
            return mk("V", mk("addr", self.cur()["this"]))
        if k == "Assign":
            self.ev(st, e)
            return self.lval(st, e["a"])
        if k == "Call":
            r = self.call(st, e, want_loc=True)
            return r if r.k in ("F", "E", "L", "D", "G", "V") else mk("V", r)
        if k == "Cond":
            v = self.ev(st, e)
            return mk("V", v)
        if k in ("Cast",):
            return self.lval(st, e["e"])
        if k == "Bin" and e["op"] == ",":
            self.ev(st, e["a"])
            return self.lval(st, e["b"])
        return mk("V", self.ev(st, e))

    def _is_arr(self, e):
        t = e.get("t", "")
        return t.endswith("]")

    def deref(self, st, v, node=None):
        if v.k == "addr":
            return v.a[0]
        if v.k == "iter":
            return self.celem(st, v.a[0], v.a[1])
        if v.k == "op" and v.a[0] == "+" and v.a[1].k != "str":
            # pointer + offset
            p, off = v.a[1], v.a[2]
            return E(self.deref(st, p), off)
        if v.k == "obj" and v.a[0].startswith("std::unique_ptr") and len(v.a) > 1:
            return self.deref(st, v.a[1])
        return mk("D", v)

    def celem(self, st, loc, i):
        """element i of the container at loc; flat indices into a matrix are split into row and column"""
        if i.k == "ite" and i.a[1].k == "first":
            i = i.a[1]
        if self.vals and i.k != "tup" and self.is_mat(st, loc):
            return E(loc, split_flat(i, dimq("nrows", self.load(st, loc))))
        return E(loc, i)

    def is_mat(self, st, loc):
        return loc is THIS and self.this_class.get("this") == "Rodop::mat" or self.is_matval(self.load(st, loc))

    def is_matval(self, v):
        while v.k in ("upd", "fill", "snap", "ite"):
            v = v.a[1] if v.k == "ite" else v.a[0]
        if v.k == "adopt":
            return v.a[1] == "Rodop::mat"
        if v.k == "mut":
            return v.a[0].startswith("Rodop::mat::")
        if v.k == "obj":
            return v.a[0] == "Rodop::mat"
        return v in MATVALS

    def ptr_elem(self, st, v, i):
        """location of p[i]"""
        if v.k == "iter":
            return self.celem(st, v.a[0], op("+", v.a[1], i) if v.a[1] is not INT(0) else i)
        return E(self.deref(st, v), i)

    def ptr_base(self, st, v):
        """(container location, offset)"""
        if v.k == "iter":
            return v.a[0], v.a[1]
        if v.k == "op" and v.a[0] == "+" and v.a[1].k in ("init", "new", "op", "call", "newarr"):
            b, o = self.ptr_base(st, v.a[1])
            return b, op("+", o, v.a[2])
        return self.deref(st, v), INT(0)

    def ptr_base2(self, st, v):
        loc, off = self.ptr_base(st, v)
        return self.canon(st, loc), off

    def range_write(self, st, v, n, valf, node):
        """p[0..n) := valf(bv)"""
        loc, off = self.ptr_base(st, v)
        bv = mk("bv", mk("callid", self.cur()["chain"][-1], id(node), node["l"]))
        UNSIGNED.add(bv)
        old = self.load(st, loc)
        idx = op("+", off, bv) if off is not INT(0) else bv
        if self.vals and self.is_mat(st, loc):
            sp = flat_range(off, n, dimq("nrows", old), bv, node, self)
            if sp is None:
                self.write(st, loc, mk("mut", "range", old, off, n), node)
                return
            rngs, idx, lin_ = sp
            seg = mk("seg", rngs, TRUE, idx, valf(lin_))
        else:
            seg = mk("seg", (mk("rng", bv, INT(0), n),), TRUE, idx, valf(bv))
        self.write(st, loc, mk("fill", old, (seg,)), node)

    def addr(self, loc):
        if loc.k == "D":
            return loc.a[0]
        return mk("addr", loc)

    # -------- expressions
    def ev(self, st, e):
        if e is None:
            return VOID
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError("analysis budget exceeded in %s" % self.chain())
        k = e["k"]
        if k == "Lit":
            return self.lit(e)
        if k == "Ref":
            if e["d"] == "enum":
                return mk("enum", e["q"])
            if e["d"] == "func":
                return mk("fnref", e["f"])
            loc = self.varloc(st, e)
            self.hooks.on_load(self, st, loc, e)
            if e.get("t", "").endswith("]") and loc.k != "V":
                return mk("addr", loc)
            v = self.load(st, loc)
            if e.get("t", "") in UNS:
                UNSIGNED.add(v)
            elif e.get("t", "") in SINTS:
                INTT.add(v)
            return v
        if k == "Mem":
            if e.get("f"):
                return mk("memfn", e["f"])
            loc = self.canon(st, self.lval(st, e))
            if self.vals and e["q"] in VALF:
                kind = VALF[e["q"]]
                if kind == "data":
                    return mk("iter", loc.a[0], INT(0))
                v = dimq(kind, self.load(st, loc.a[0]))
                UNSIGNED.add(v)
                return v
            self.hooks.on_load(self, st, loc, e)
            v = self.load(st, loc)
            if e.get("t", "") in UNS:
                UNSIGNED.add(v)
            elif e.get("t", "") in SINTS:
                INTT.add(v)
            return v
        if k == "This":
            return self.addr(self.cur()["this"])
        if k in ("DefArg", "DefInit"):
            return self.ev(st, e["e"])
        if k == "Call":
            r = self.call(st, e, want_loc=False)
            if e.get("t", "") in UNS:
                UNSIGNED.add(r)
            elif e.get("t", "") in SINTS:
                INTT.add(r)
            return r
        if k == "Ctor":
            return self.ctor(st, e)
        if k == "Bin":
            return self.binop(st, e)
        if k == "Assign":
            return self.assign(st, e)
        if k == "Un":
            o = e["op"]
            if o == "!":
                return neg(self.ev(st, e["e"]))
            if o == "&":
                return self.addr(self.canon(st, self.lval(st, e["e"])))
            if o == "*":
                return self.load(st, self.canon(st, self.lval(st, e)))
            if o in ("++", "--"):
                loc = self.canon(st, self.lval(st, e["e"]))
                old = self.load(st, loc)
                new = op("+" if o == "++" else "-", old, INT(1))
                if e["e"].get("t") in UNS:
                    UNSIGNED.add(old)
                    if o == "++":
                        UNSIGNED.add(new)
                elif e["e"].get("t") in SINTS:
                    INTT.update((old, new))
                self.write(st, loc, new, e)
                return old if e.get("post") else new
            v = self.ev(st, e["e"])
            if o == "-" and v.k == "int":
                return INT(-v.a[0])
            if o == "+":
                return v
            return mk("un", o, v)
        if k == "Cond":
            c = self.ev(st, e["c"])
            self.hooks.on_branch(self, st, c, e)
            s1 = self.assume(st, c, True)
            s2 = self.assume(st, c, False)
            v1 = self.ev(s1, e["a"]) if s1 else None
            v2 = self.ev(s2, e["b"]) if s2 else None
            if s1 is not None and s1.dead:
                s1 = None
            if s2 is not None and s2.dead:
                s2 = None
            m = self.merge(s1, s2)
            if m is None:
                st.dead = True
                return VOID
            st.become(m)
            if s1 is None:
                return v2
            if s2 is None:
                return v1
            return ite(c, v1, v2)
        if k == "Index":
            loc = self.canon(st, self.lval(st, e))
            self.hooks.on_load(self, st, loc, e)
            return self.load(st, loc)
        if k == "Cast":
            v = self.ev(st, e["e"])
            ck = e.get("ck")
            t = e.get("t", "")
            if ck in ("FloatingToIntegral",):
                return mk("un", "int", v)
            if ck in ("IntegralCast",):
                return v
            if e.get("exp") and t in UNS and e["e"].get("t") not in UNS and v.k != "int":
                return v
            return v
        if k == "New":
            v = self.ev(st, e["sz"]) if e.get("sz") else None
            iv = self.ev(st, e["init"]) if e.get("init") else VOID
            if e.get("arr"):
                r = mk("newarr", mk("site", id(e), self.cur()["chain"][-1]), v if v is not None else VOID)
                if self.vals:
                    l = mk("D", r)
                    if l in st.store:
                        self.write(st, l, mk("init", l), e, hook=False)
            else:
                r = mk("new", mk("site", id(e), self.cur()["chain"][-1]), iv)
                st.store[mk("D", r)] = iv
            self.hooks.on_new(self, st, e, r)
            return r
        if k == "Delete":
            loc = None
            if e["e"]["k"] in ("Ref", "Mem"):
                loc = self.canon(st, self.lval(st, e["e"]))
            v = self.ev(st, e["e"])
            self.hooks.on_delete(self, st, e, loc, v)
            return VOID
        if k == "Throw":
            if e.get("e"):
                self.ev(st, e["e"])
            self.do_throw(st, e, e.get("xt", "rethrow"))
            return VOID
        if k == "Lambda":
            return mk("lam", LAMS.add(e, self.cur()))
        if k == "InitList":
            return mk("list", *[self.ev(st, x) for x in e["a"]])
        if k == "Sizeof":
            return mk("sizeof", id(e))
        if k == "Other":
            return mk("other", e.get("cls", "?"), *[self.ev(st, x) for x in e.get("a", []) if x])
        raise AnalysisError("unknown expression kind " + k)

    def binop(self, st, e):
        o = e["op"]
        if o in ("&&", "||"):
            a = self.ev(st, e["a"])
            s1 = self.assume(st, a, o == "&&")
            if s1 is None:
                return FALSE if o == "&&" else TRUE
            b = self.ev(s1, e["b"])
            # effects of the right operand
            s0 = self.assume(st, a, o != "&&")
            if s1.dead:
                s1 = None
            m = self.merge(s1, s0)
            if m is None:
                st.dead = True
                return VOID
            p = st.path
            st.become(m)
            return op(o, a, b)
        if o == ",":
            self.ev(st, e["a"])
            return self.ev(st, e["b"])
        a = self.ev(st, e["a"])
        b = self.ev(st, e["b"])
        if o in ("==", "!=") and (boolnode(e["a"]) or boolnode(e["b"])):
            for x, y in ((a, b), (b, a)):
                if x.k == "int" and y.k != "int":
                    return y if bool(x.a[0]) == (o == "==") else neg(y)
        return self.cmpnorm(o, a, b, e["a"].get("t"), e["b"].get("t"))

    def cmpnorm(self, o, a, b, ta, tb):
        if ta in UNS or tb in UNS:
            for x, t in ((a, ta), (b, tb)):
                if t in UNS:
                    UNSIGNED.add(x)
                elif t in SINTS:
                    INTT.add(x)
            z = INT(0)
            one = INT(1)
            if b is z:
                if o == "<=":
                    return op("==", a, z)
                if o == ">":
                    return neg(op("==", a, z))
            if a is z:
                if o == ">=":
                    return op("==", b, z)
                if o == "<":
                    return neg(op("==", b, z))
            if b is one:
                if o == "<":
                    return op("==", a, z)
                if o == ">=":
                    return neg(op("==", a, z))
        return op(o, a, b)

    def assign(self, st, e):
        o = e["op"]
        if o == "=":
            v = self.ev(st, e["b"])
            loc = self.canon(st, self.lval(st, e["a"]))
        else:
            loc = self.canon(st, self.lval(st, e["a"]))
            self.hooks.on_load(self, st, loc, e["a"])
            old = self.load(st, loc)
            r = self.ev(st, e["b"])
            v = op(o[:-1], old, r)
        if st.dead:
            return VOID
        self.write(st, loc, v, e)
        return v

    def do_throw(self, st, node, typ):
        self.hooks.on_throw(self, st, node, typ)
        s = st.copy()
        self.throws[-1].append((s, typ, node, [f for f, _ in self.stack]))
        st.dead = True

    # -------- construction
    def ctor(self, st, e):
        q = e["q"]
        args = []
        locs = []
        for i, a in enumerate(e["a"]):
            if a is not None and a["k"] == "DefArg":
                continue
            pm = e["pm"][i] if i < len(e.get("pm", "")) else "v"
            if pm in "m" and a["k"] in ("Ref", "Mem", "Index") or (a["k"] == "Lambda"):
                l = self.canon(st, self.lval(st, a))
                locs.append(l)
                if self.vals and l.k == "F" and l.a[1] in VALF:
                    args.append(mk("iter", l.a[0], INT(0)) if VALF[l.a[1]] == "data" else dimq(VALF[l.a[1]], self.load(st, l.a[0])))
                    continue
                args.append(self.load(st, l) if l.k != "V" else l.a[0])
            else:
                args.append(self.ev(st, a))
                locs.append(None)
        if st.dead:
            return VOID
        c = Call(e, q + "::" + q.split("::")[-1], e["f"], None, args, locs)
        self.callsites += 1
        self.hooks.on_call(self, st, c)
        if q.startswith("std::basic_string") and len(args) == 1:
            if q == "std::basic_string":
                return args[0]
        if q == "std::basic_string" and not args:
            return mk("str", "")
        if q.startswith("std::basic_string") and len(args) >= 1 and args[0].k == "str" and len(args) == 1:
            return args[0]
        if q == "std::shared_ptr" or q == "std::function":
            if len(args) == 1:
                return args[0]
        if q == "std::vector" and self.vals and len(args) >= 2 and all(a.k in ("iter", "init", "op") for a in args[:2]):
            r = self.from_range(st, q, args, e)
            if r is not None:
                return r
        g = self.prog.funcs.get(e["f"])
        if self.vals and g is not None and args and q not in NOCTOR and g.kind == "ctor" and self.overloaded(g) and self.can_inline(g, c):
            # which constructor this is cannot be told from the arguments later
            tmp = mk("L", self.cur()["chain"][-1], -id(e), "#object")
            self.drop_kids(st, tmp)
            st.store[tmp] = mk("obj", q)
            self.run_body(st, g, tmp, args, locs, mk("fr", self.cur()["chain"][-1], id(e)), e)
            if st.dead:
                return VOID
            r = self.load(st, tmp)
            self.drop_kids(st, tmp)
            st.store.pop(tmp, None)
            return r
        r = mk("obj", q, *args)
        if q == "std::vector" and 1 <= len(args) <= 2 and e["a"] and e["a"][0] is not None and strip_cast(e["a"][0]).get("t", "").replace("const ", "") in (
                "int", "unsigned int", "unsigned long", "long", "size_t"):
            SIZEOF[("size", r)] = args[0]
        return r

    def overloaded(self, g):
        """there are constructors with as many parameters that are not copies"""
        cs = [m for m in self.prog.funcs.values() if m.cls == g.cls and m.kind == "ctor" and len(m.p) == len(g.p) and not (len(m.p) == 1 and g.cls in m.p[0]["t"])]
        return g in cs and len(cs) > 1

    def from_range(self, st, q, args, e):
        """vector made of the elements between two pointers or iterators"""
        bx, ox = self.ptr_base2(st, args[0]) if args[0].k == "iter" or e["a"][0].get("t", "").endswith("*") else (None, None)
        by, oy = self.ptr_base2(st, args[1]) if bx is not None else (None, None)
        if bx is None or bx is not by:
            return None
        n = op("-", oy, ox)
        bv = mk("bv", mk("callid", self.cur()["chain"][-1], id(e), e["l"]))
        UNSIGNED.add(bv)
        base = mk("obj", q, n, INT(0))
        SIZEOF[("size", base)] = n
        return mk("fill", base, (mk("seg", (mk("rng", bv, INT(0), n),), TRUE, bv, self.load(st, self.ptr_elem(st, args[0], bv))),))

    # -------- calls
    def call(self, st, e, want_loc=False):
        q = e["q"]
        fid = e["f"]
        n = q.split("::")[-1]
        self.callsites += 1
        obj = None
        o = e.get("o")
        # receiver
        if o is not None:
            if e.get("arrow") and o["k"] != "This" and not e.get("op"):
                pv = self.ev(st, o)
                obj = self.canon(st, self.deref(st, pv, o))
                self.hooks.on_deref(self, st, obj, e)
            elif o["k"] == "This":
                obj = self.cur()["this"]
            else:
                obj = self.canon(st, self.lval(st, o))
        if st.dead:
            return VOID
        pm = e.get("pm", "")
        args, locs = [], []
        for i, a in enumerate(e["a"]):
            m = pm[i] if i < len(pm) else "v"
            if m in "rm" and a is not None and a["k"] in ("Ref", "Mem", "Index", "Call", "Un", "Assign") and not self._ptr_param(a, e, i):
                l = self.canon(st, self.lval(st, a))
                if st.dead:
                    return VOID
                if m == "r":
                    self.hooks.on_load(self, st, l, a)
                locs.append(l)
                if self.vals and m == "r" and l.k == "F" and l.a[1] in VALF and VALF[l.a[1]] != "data":
                    args.append(dimq(VALF[l.a[1]], self.load(st, l.a[0])))
                else:
                    args.append(self.load(st, l) if l.k != "V" else l.a[0])
            else:
                v = self.ev(st, a)
                if st.dead:
                    return VOID
                args.append(v)
                locs.append(v.a[0] if v.k == "addr" else None)
        # indirect call through lambda / function value
        if not fid and not q.startswith("std::?::"):
            fv = self.ev(st, e["fe"]) if e.get("fe") else VOID
            c = Call(e, "(indirect)", "", obj, [fv] + args, [None] + locs)
            c.n = "(indirect)"
            self.hooks.on_call(self, st, c)
            if fv.k == "fnref" and fv.a[0] in self.prog.funcs:
                f = self.prog.funcs[fv.a[0]]
                if self.can_inline(f, c):
                    return self.do_inline(st, f, None, args, locs, e, want_loc)
            return self.opaque(st, c, want_loc)
        c = Call(e, q, fid, obj, args, locs)
        # lambda invocation
        if n == "operator()" and obj is not None:
            lv = self.load(st, obj) if obj.k != "V" else obj.a[0]
            if lv.k == "lam":
                return self.call_lambda(st, lv, args, locs, e)
        r = self.hooks.on_call(self, st, c)
        if st.dead:
            return VOID
        if isinstance(r, T):
            return r
        if e.get("noret"):
            st.dead = True
            return VOID
        # inline?
        f = self.resolve(st, e, fid, obj)
        if f is not None and len(f) > 0:
            cand = [x for x in f if self.can_inline(x, c)]
            if len(cand) == len(f):
                c.inlined = True
                if len(cand) == 1:
                    return self.do_inline(st, cand[0], obj, args, locs, e, want_loc)
                outs = []
                for x in cand:
                    s = st.copy()
                    s.path = s.path + ((mk("dispatch", id(e)), x.id),)
                    v = self.do_inline(s, x, obj, args, locs, e, want_loc)
                    if not s.dead:
                        outs.append((s, v))
                if not outs:
                    st.dead = True
                    return VOID
                m, v = outs[0]
                for s2, v2 in outs[1:]:
                    m = self.merge(m, s2)
                    v = phi(v, v2)
                st.become(m)
                return v
        m = self.std_model(st, c, want_loc)
        if m is not None:
            return m
        return self.opaque(st, c, want_loc)

    def _ptr_param(self, a, e, i):
        t = a.get("t", "")
        if (e.get("q") in ("std::swap", "std::exchange")) and a["k"] in ("Ref", "Mem", "Index"):
            return False
        return t.endswith("*") or t.endswith("]") or (a["k"] == "Un" and a["op"] == "&") or (a["k"] == "Call" and not a.get("rr"))

    def exact_class(self, st, obj, e):
        """dynamic class of the receiver if exactly known"""
        if obj is None:
            return None
        if obj.k == "D" and obj.a[0].k == "this":
            return self.this_class.get("this")
        o = e.get("o")
        if obj.k == "L" or obj.k == "G":
            return self.cls_of_loc.get(obj)
        if obj.k == "F":
            fq = obj.a[1]
            cq = "::".join(fq.split("::")[:-1])
            for fd in self.prog.classes.get(cq, {}).get("fields", []):
                if fd["q"] == fq:
                    return fd.get("rec") if not fd.get("ptr") else None
        return None

    def resolve(self, st, e, fid, obj):
        if not e.get("repo"):
            return None
        if e.get("virt") and not e.get("nonvirt"):
            ec = self.exact_class(st, obj, e)
            tg = self.prog.virtual_targets(fid)
            if ec:
                # most derived override along ec's bases
                for b in self.prog.bases_of(ec):
                    for t in tg:
                        if self.prog.funcs[t].cls == b:
                            return [self.prog.funcs[t]]
            return [self.prog.funcs[t] for t in sorted(tg)]
        f = self.prog.funcs.get(fid)
        if f is None:
            return None
        # internal-linkage duplicates: prefer the one in the caller's file
        if self.stack:
            alt = [x for x in self.prog.byq.get(f.q, []) if x.id.split("@")[0] == fid and x.file == self.stack[-1][0].file]
            if len(alt) == 1:
                f = alt[0]
        return [f]

    def can_inline(self, f, c):
        if len(self.stack) >= self.max_depth:
            return False
        if any(x is f for x, _ in self.stack):
            return False
        return f.q not in known_fns() or bool(self.inline(self, f, c))

    def do_inline(self, st, f, obj, args, locs, e, want_loc):
        fr = mk("fr", self.cur()["chain"][-1] if self.frames else 0, id(e))
        thisloc = obj
        rv = self.run_body(st, f, thisloc, args, locs, fr, e)
        if st.dead:
            return VOID
        if rv is not None and rv.k == "refloc":
            return rv.a[0] if want_loc else self.load(st, rv.a[0])
        return rv if rv is not None else VOID

    def run_body(self, st, f, thisloc, args, locs, fr, callnode):
        """execute f in st (in place); returns value term"""
        self.analysed.add(f.id)
        self.stack.append((f, callnode))
        frame = {"f": f, "this": thisloc if thisloc is not None else THIS, "chain": [fr], "locals": set(), "known": {},
                 "retref": f.rt.endswith("&")}
        self.frames.append(frame)
        for i, p in enumerate(f.p):
            loc = mk("L", fr, p["id"], p["n"])
            frame["locals"].add(loc)
            frame["known"][p["id"]] = loc
            st.refs.pop(loc, None)
            t = p["t"]
            v = args[i] if i < len(args) else (self.ev(st, p["def"]) if p.get("def") else mk("init", loc))
            l = locs[i] if locs and i < len(locs) else None
            if t.endswith("&") and l is not None and l.k != "V" and not (t.endswith("&&")):
                st.refs[loc] = l
            else:
                self.drop_kids(st, loc)
                st.store[loc] = v
            if t in UNS:
                UNSIGNED.add(v)
            elif t in SINTS:
                INTT.add(v)
        self.hooks.on_enter(self, st, f, fr)
        if f.kind == "ctor":
            for i in f.inits:
                if i.get("field"):
                    v = self.ev(st, i["e"])
                    self.write(st, F(frame["this"], i["field"]), v, {"l": i.get("l", f.l), "k": "CtorInit"})
        out = self.ex(st, f.body)
        res = self.join(states(out.n) + out._r)
        rl = mk("L", fr, 0, "#ret")
        rv = VOID
        if res is None:
            st.dead = True
        else:
            st.become(res)
            if rl in st.refs:
                rv = mk("refloc", st.refs.pop(rl))
                st.store.pop(rl, None)
            else:
                rv = st.store.pop(rl, VOID)
                ks = st.kids.pop(rl, None)
            if f.rt in UNS:
                UNSIGNED.add(rv)
            elif f.rt in SINTS:
                INTT.add(rv)
            self.hooks.on_exit(self, st, f, fr)
        self.frames.pop()
        self.stack.pop()
        return rv

    def call_lambda(self, st, lv, args, locs, e):
        node, encl = LAMS.get(lv.a[0])
        fr = mk("fr", encl["chain"][-1], ("lam", id(node), id(e)).__str__())
        frame = {"f": encl["f"], "this": encl["this"], "chain": encl["chain"] + [fr], "locals": set(encl["locals"]), "known": dict(encl["known"]), "retref": False}
        self.frames.append(frame)
        for i, p in enumerate(node["p"]):
            loc = mk("L", fr, p["id"], p["n"])
            frame["locals"].add(loc)
            frame["known"][p["id"]] = loc
            st.refs.pop(loc, None)
            l = locs[i] if i < len(locs) else None
            if p["t"].endswith("&") and l is not None and l.k != "V":
                st.refs[loc] = l
            else:
                self.drop_kids(st, loc)
                st.store[loc] = args[i] if i < len(args) else VOID
        out = self.ex(st, node["body"])
        res = self.join(states(out.n) + out._r)
        rl = mk("L", fr, 0, "#ret")
        rv = VOID
        if res is None:
            st.dead = True
        else:
            st.become(res)
            rv = st.store.pop(rl, VOID)
        self.frames.pop()
        return rv

    # -------- library models
    def std_model(self, st, c, want_loc):
        q, n, e = c.q, c.n, c.node
        obj = c.obj
        if q in PASS:
            return (c.locs[0] if (want_loc and c.locs[0] is not None) else c.args[0])
        if obj is not None:
            cls = q.rsplit("::", 1)[0]
            vl = self.veclike and cls in VECLIKE
            if is_container(cls) or vl:
                if vl and n in ("getNRows", "getNCols"):
                    return dimq("nrows" if n == "getNRows" else "ncols", self.load(st, obj))
                if vl and n == "isEmpty" and cls == "Rodop::mat":
                    v = self.load(st, obj)
                    return op("||", op("==", dimq("nrows", v), INT(0)), op("==", dimq("ncols", v), INT(0)))
                if vl and n == "set" and len(c.args) == 2:
                    self.write(st, E(obj, c.args[0]), c.args[1], e)
                    return VOID
                if n in SIZEQ and not c.args:
                    return mksize(self.load(st, obj))
                if n in ("empty", "isEmpty") and not c.args:
                    return op("==", mksize(self.load(st, obj)), INT(0))
                if n in ("operator[]", "at", "operator()") and len(c.args) >= 1:
                    i = c.args[0] if len(c.args) == 1 else mk("tup", *c.args)
                    loc = E(obj, i)
                    self.hooks.on_deref(self, st, loc, e)
                    return loc if want_loc else self.load(st, loc)
                if n in ("front",):
                    loc = E(obj, INT(0))
                    return loc if want_loc else self.load(st, loc)
                if n in ("back",):
                    loc = E(obj, op("-", mksize(self.load(st, obj)), INT(1)))
                    return loc if want_loc else self.load(st, loc)
                if n in ("begin", "cbegin"):
                    return mk("iter", obj, INT(0))
                if n in ("end", "cend"):
                    return mk("iter", obj, mksize(self.load(st, obj)))
                if vl and n == "get" and len(c.args) == 1:
                    loc = E(obj, c.args[0])
                    return loc if want_loc else self.load(st, loc)
                if n in ("push_back", "emplace_back", "push_front") and len(c.args) == 1:
                    old = self.load(st, obj)
                    self.write(st, obj, mk("push", old, c.args[0]), e)
                    return VOID
                if n == "insert" and self.vals and cls == "std::vector" and len(c.args) == 3 and all(x.k == "iter" for x in c.args[1:]):
                    old = self.load(st, obj)
                    n0 = mksize(old)
                    at_, b0, b1 = c.args
                    while at_.k == "obj" and len(at_.a) == 2:
                        at_ = at_.a[1]
                    if at_.k == "iter" and at_.a[0] is obj and at_.a[1] is n0 and b0.a[0] is b1.a[0] and b0.a[0] is not obj:
                        cnt = op("-", b1.a[1], b0.a[1])
                        bv = mk("bv", mk("callid", self.cur()["chain"][-1], id(e), e["l"]))
                        UNSIGNED.add(bv)
                        v = self.load(st, self.ptr_elem(st, b0, bv))
                        self.write(st, obj, mk("fill", mk("grow", old, op("+", n0, cnt)), (mk("seg", (mk("rng", bv, INT(0), cnt),), TRUE, op("+", n0, bv), v),)), e)
                        return VOID
                if n in ("reserve", "shrink_to_fit") and cls in ("std::vector", "std::basic_string"):
                    return VOID
                if n == "assign" and self.vals and cls == "std::vector" and len(c.args) == 2:
                    r = self.from_range(st, cls, c.args, e)
                    if r is None and c.args[0].k != "iter" and not e["a"][0].get("t", "").endswith("*"):
                        r = mk("obj", cls, *c.args)
                        SIZEOF[("size", r)] = c.args[0]
                    if r is not None:
                        self.write(st, obj, r, e)
                        return VOID
                if n == "clear":
                    self.write(st, obj, mk("obj", cls), e)
                    return VOID
                if n == "operator==" and len(c.args) == 1:
                    return op("==", self.load(st, obj), c.args[0])
                if n == "operator+=":
                    self.write(st, obj, op("+", self.load(st, obj), c.args[0]), e)
                    return obj if want_loc else self.load(st, obj)
                if n in ("c_str", "data", "str"):
                    if "basic_string" in cls:
                        return self.load(st, obj)
            if n == "operator=" and len(c.args) == 1:
                self.write(st, obj, c.args[0], e)
                return obj if want_loc else c.args[0]
            if cls in ("std::unique_ptr", "std::shared_ptr"):
                if n in ("operator->", "get"):
                    return self.load(st, obj)
                if n == "operator*":
                    loc = self.deref(st, self.load(st, obj))
                    return loc if want_loc else self.load(st, loc)
                if n == "operator bool" or n == "operator conv":
                    return neg(op("==", self.load(st, obj), NULL))
                if n == "reset" and len(c.args) == 1:
                    self.write(st, obj, c.args[0], e)
                    return VOID
            if cls.startswith("std::uniform_") and n == "operator()":
                d = self.load(st, obj)
                return mk("call", "random", *([d] if d.k != "obj" else list(d.a[1:])))
            if self.vals and cls.startswith("std::vector") and n == "data":
                return mk("iter", obj, INT(0))
            iv = self.load(st, obj)
            if iv.k == "iter":
                if n == "operator*" or n == "operator->":
                    loc = self.celem(st, iv.a[0], iv.a[1])
                    if n == "operator->":
                        return mk("addr", loc)
                    return loc if want_loc else self.load(st, loc)
                if n in ("operator++", "operator--"):
                    nv = mk("iter", iv.a[0], op("+" if n == "operator++" else "-", iv.a[1], INT(1)))
                    self.write(st, obj, nv, e)
                    return obj if want_loc else nv
                if n in ("operator!=", "operator==", "operator<") and c.args:
                    return op(n[8:], iv, c.args[0])
                if n in ("operator+", "operator-") and c.args:
                    return op(n[8:], iv, c.args[0])
            if n in ("operator<<", "operator>>") and len(c.args) >= 1:
                if n == "operator<<":
                    self.write(st, obj, mk("put", iv, self.text_arg(e, c.args[0])), e, hook=False)
                else:
                    self.write(st, obj, mk("got", iv), e, hook=False)
                    if c.locs[0] is not None:
                        self.write(st, c.locs[0], mk("in", iv), e)
                return obj if want_loc else self.load(st, obj)
        else:
            if n in ("begin", "cbegin") and len(c.args) == 1 and c.locs[0] is not None:
                return mk("iter", c.locs[0], INT(0))
            if n in ("end", "cend") and len(c.args) == 1 and c.locs[0] is not None:
                return mk("iter", c.locs[0], mksize(c.args[0]))
            if n in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator+") and len(c.args) == 2 and not e.get("repo"):
                return op(n[8:], c.args[0], c.args[1])
            if n == "operator<<" and len(c.args) == 2:
                l = c.locs[0]
                if l is not None:
                    self.write(st, l, mk("put", self.load(st, l), self.text_arg(e, c.args[1])), e, hook=False)
                    return l if want_loc else self.load(st, l)
            if n in ("operator>>", "getline") and len(c.args) >= 2:
                l = c.locs[0]
                iv = c.args[0]
                if l is not None:
                    d = (c.args[2],) if len(c.args) > 2 and c.args[2] is not INT(10) else ()     # separator
                    self.write(st, l, mk("got", iv, *d), e, hook=False)
                    if c.locs[1] is not None:
                        self.write(st, c.locs[1], mk("in", iv, *d), e)
                    return l if want_loc else self.load(st, l)
            if q in ("std::max", "std::min", "fmax", "fmin", "std::fmax", "std::fmin") and len(c.args) == 2:
                a, b = c.args
                return ite(op("<", a, b), b, a) if n in ("max", "fmax") else ite(op("<", b, a), b, a)
            if q in ("std::next", "std::prev") and 1 <= len(c.args) <= 2 and c.args[0].k == "iter":
                return op("+" if n == "next" else "-", c.args[0], c.args[1] if len(c.args) > 1 else INT(1))
            if q == "std::clamp" and len(c.args) == 3:
                v, lo, hi = c.args
                return ite(op("<", v, lo), lo, ite(op("<", hi, v), hi, v))
            if q in ("std::swap",) and len(c.args) == 2 and c.locs[0] is not None and c.locs[1] is not None:
                a, b = c.args
                self.write(st, c.locs[0], b, e)
                self.write(st, c.locs[1], a, e)
                return VOID
            if self.vals:
                r = self.ptr_model(st, c)
                if r is not None:
                    return r
            if q in MUTALG and any(x.k == "iter" for x in c.args):
                r = self.mutating(st, c)
                if r is not None:
                    return r
            if q in ("std::any_of", "std::all_of", "std::none_of", "std::for_each", "std::find_if", "std::count_if") and len(c.args) == 3:
                return self.algo(st, c)
            if self.vals and q == "std::find" and len(c.args) == 3 and c.args[0].k == "iter" and c.args[1].k == "iter" and c.args[0].a[0] is c.args[1].a[0]:
                it, end, what = c.args
                bv = mk("bv", id(e))
                UNSIGNED.add(bv)
                return self.found(it.a[0], it.a[1], end.a[1], op("==", self.load(st, self.celem(st, it.a[0], bv)), what), bv)
        return None

    def text_arg(self, e, v):
        """operand of <<; a character is a text of length one"""
        a = e.get("a") or [{}]
        if v.k == "int" and a[-1].get("t") == "char" and 0 < v.a[0] < 256:
            return mk("str", chr(v.a[0]))
        return v

    def ptr_ok(self, x):
        return x.k in ("iter", "addr", "init", "newarr", "new", "str", "op", "call")

    def ptr_model(self, st, c):
        """std algorithms and BLAS level 1 over pointers / iterators"""
        q, a, node = c.q, c.args, c.node

        def ln(x, y):
            if x.k == "iter" and y.k == "iter" and x.a[0] is y.a[0]:
                return distance(x.a[1], y.a[1])
            bx, ox = self.ptr_base(st, x)
            by, oy = self.ptr_base(st, y)
            return distance(ox, oy) if bx is by else None
        one = INT(1)
        if q == "std::fill" and len(a) == 3:
            n = ln(a[0], a[1])
            if n is not None:
                self.range_write(st, a[0], n, lambda b: a[2], node)
                return VOID
        if q == "std::fill_n" and len(a) == 3:
            self.range_write(st, a[0], a[1], lambda b: a[2], node)
            return VOID
        if q == "std::copy" and len(a) == 3:
            n = ln(a[0], a[1])
            if n is not None:
                pre = st.copy()
                self.range_write(st, a[2], n, lambda b: self.load(pre, self.ptr_elem(pre, a[0], b)), node)
                return op("+", a[2], n)
        if q in ("std::copy_n",) and len(a) == 3:
            pre = st.copy()
            self.range_write(st, a[2], a[1], lambda b: self.load(pre, self.ptr_elem(pre, a[0], b)), node)
            return op("+", a[2], a[1])
        if q == "cblas_dcopy" and len(a) == 5 and a[2] is one and a[4] is one:
            pre = st.copy()
            self.range_write(st, a[3], a[0], lambda b: self.load(pre, self.ptr_elem(pre, a[1], b)), node)
            return VOID
        if q == "cblas_daxpy" and len(a) == 6 and a[3] is one and a[5] is one:
            pre = st.copy()
            self.range_write(st, a[4], a[0], lambda b: op("+", op("*", a[1], self.load(pre, self.ptr_elem(pre, a[2], b))), self.load(pre, self.ptr_elem(pre, a[4], b))), node)
            return VOID
        if q == "cblas_dscal" and len(a) == 4 and a[3] is one:
            pre = st.copy()
            self.range_write(st, a[2], a[0], lambda b: op("*", a[1], self.load(pre, self.ptr_elem(pre, a[2], b))), node)
            return VOID
        if q == "cblas_ddot" and len(a) == 5 and a[2] is one and a[4] is one:
            return agg("sum", INT(0), a[0], lambda b: op("*", self.load(st, self.ptr_elem(st, a[1], b)), self.load(st, self.ptr_elem(st, a[3], b))))
        if q == "cblas_dgemv" and len(a) == 12 and ename(a[0]) == "CblasColMajor" and ename(a[1]) in ("CblasNoTrans", "CblasTrans") and a[8] is one and a[11] is one:
            pre = st.copy()
            _o, tr, m, n, al, A, lda, x, _i, be, y, _j = a
            nt = ename(tr) == "CblasNoTrans"
            me = lambda i, j: self.load(pre, self.ptr_elem(pre, A, op("+", i, op("*", lda, j))))

            def f(b):
                s = agg("sum", INT(0), n if nt else m, lambda j: op("*", me(b, j) if nt else me(j, b), self.load(pre, self.ptr_elem(pre, x, j))))
                s = scaled(al, s)
                return s if iszero(be) else op("+", s, scaled(be, self.load(pre, self.ptr_elem(pre, y, b))))
            self.range_write(st, y, m if nt else n, f, node)
            return VOID
        if q == "cblas_dgemm" and len(a) == 14 and ename(a[0]) == "CblasColMajor" and all(ename(t) in ("CblasNoTrans", "CblasTrans") for t in a[1:3]):
            pre = st.copy()
            _o, ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc = a

            def el(p, i, j, ld, t):
                if ename(t) == "CblasTrans":
                    i, j = j, i
                return self.load(pre, self.ptr_elem(pre, p, op("+", i, op("*", ld, j))))

            def f(i, j):
                s = scaled(al, agg("sum", INT(0), k, lambda l: op("*", el(A, i, l, lda, ta), el(B, l, j, ldb, tb))))
                return s if iszero(be) else op("+", s, scaled(be, self.load(pre, self.ptr_elem(pre, C, op("+", i, op("*", ldc, j))))))
            loc, off = self.ptr_base(st, C)
            b1 = mk("bv", mk("callid", self.cur()["chain"][-1], id(node), node["l"]))
            b2 = mk("bv", mk("callid", *b1.a[0].a, 2))
            UNSIGNED.update((b1, b2))
            old = self.load(st, loc)
            if self.is_mat(st, loc) and off is INT(0):
                if not same_dim(dimq("nrows", old), ldc):
                    return None
                idx = mk("tup", b1, b2)
            else:
                idx = op("+", off, op("+", b1, op("*", ldc, b2)))
            seg = mk("seg", (mk("rng", b2, INT(0), n), mk("rng", b1, INT(0), m)), TRUE, idx, f(b1, b2))
            self.write(st, loc, mk("fill", old, (seg,)), node)
            return VOID
        if q == "cblas_dtrsv" and len(a) == 9 and a[8] is one:
            loc, off = self.ptr_base(st, a[7])
            M, mo = self.ptr_base(st, a[5])
            self.write(st, loc, mk("mut", "cblas_dtrsv", self.load(st, loc), off, *a[:5], self.load(st, M), mo, a[6]), node)
            return VOID
        if q in LAPACK and all(self.ptr_ok(x) for x in a):
            vals = []
            for x in (a[i] for i in LAPACK[q][1]):
                if x.k == "str":
                    vals.append(x)
                    continue
                loc, off = self.ptr_base(st, x)
                vals.append(self.load(st, loc))
                if off is not INT(0):
                    vals.append(off)
            for i in LAPACK[q][0]:
                loc, off = self.ptr_base(st, a[i])
                self.write(st, loc, mk("lapack", q, i, *vals), node)
            return VOID
        if q in ("std::inner_product",) and len(a) == 4:
            n = ln(a[0], a[1])
            if n is not None:
                return op("+", a[3], agg("sum", INT(0), n, lambda b: op("*", self.load(st, self.ptr_elem(st, a[0], b)), self.load(st, self.ptr_elem(st, a[2], b)))))
        if q == "std::accumulate" and len(a) == 4 and self.vals and self.callable(a[3]):
            n = ln(a[0], a[1])
            if n is None:
                return None
            bv, acc = mk("bv", id(node)), mk("sym", "accumulated")
            UNSIGNED.add(bv)
            s = st.copy()
            add_fact(s, op("<", bv, n), True)
            loc = self.ptr_elem(s, a[0], bv)
            try:
                r = self.apply(s, a[3], [acc, self.load(s, loc)], [None, loc], node)
            except NotModelled:
                return None
            if s.dead or r is None or any(s.store.get(y) is not v for y, v in st.store.items()):
                return None
            for kind, d in (("sum", delta(r, acc)), ("prod", factor(r, acc)), ("max", extremum(r, acc, True)), ("min", extremum(r, acc, False))):
                if d is None or contains(d, acc):
                    continue
                body = quant("agg", INT(0), n, d, bv, kind)
                if kind in ("sum", "prod"):
                    return op("+" if kind == "sum" else "*", a[2], body)
                return mk("call", kind + "imum", a[2], body)
            return None
        if q == "std::equal" and len(a) in (3, 4, 5) and self.vals:
            n = ln(a[0], a[1])
            rest = a[3:]
            fn = rest[-1] if rest and self.callable(rest[-1]) else None
            rest = rest[:-1] if fn is not None else rest
            m = ln(a[2], rest[0]) if len(rest) == 1 else None
            if n is None or len(rest) > 1 or len(rest) == 1 and m is None:
                return None
            bv = mk("bv", id(node))
            UNSIGNED.add(bv)
            s = st.copy()
            add_fact(s, op("<", bv, n), True)
            locs = [self.ptr_elem(s, x, bv) for x in (a[0], a[2])]
            xs = [self.load(s, y) for y in locs]
            try:
                r = op("==", *xs) if fn is None else self.apply(s, fn, xs, locs, node)
            except NotModelled:
                return None
            if s.dead or r is None:
                return None
            same = neg(quant("exists", INT(0), n, neg(r), bv))
            return same if m is None else op("&&", op("==", n, m), same)
        if q == "std::accumulate" and len(a) == 3:
            n = ln(a[0], a[1])
            if n is not None:
                return op("+", a[2], agg("sum", INT(0), n, lambda b: self.load(st, self.ptr_elem(st, a[0], b))))
        if q in ("std::min_element", "std::max_element") and len(a) == 2:
            n = ln(a[0], a[1])
            if n is not None:
                loc, off = self.ptr_base(st, a[0])
                return mk("iter", loc, mk("call", q[5:8] + "index", self.load(st, loc), off, op("+", off, n)))
        if q == "std::distance" and len(a) == 2:
            return ln(a[0], a[1])
        if q == "std::sort" and len(a) in (2, 3):
            n = ln(a[0], a[1])
            if n is not None:
                loc, off = self.ptr_base(st, a[0])
                self.write(st, loc, mk("mut", "std::sort", self.load(st, loc), off, op("+", off, n), *a[2:]), node)
                return VOID
        if q == "std::transform" and self.vals and len(a) in (4, 5) and self.callable(a[-1]):
            n = ln(a[0], a[1])
            if n is None:
                return None
            src = (a[0],) if len(a) == 4 else (a[0], a[2])
            dst = a[-2]
            pre = st.copy()

            def f(b):
                s = pre.copy()
                locs = [self.ptr_elem(s, x, b) for x in src]
                add_fact(s, op("<", b, n), True)
                r = self.apply(s, a[-1], [self.load(s, y) for y in locs], locs, node)
                if r is None:
                    raise NotModelled()
                if s.dead or any(s.store.get(y) is not v for y, v in pre.store.items() if root(y).k != "L" or y in pre.store):
                    raise NotModelled()
                return r
            try:
                self.range_write(st, dst, n, f, node)
            except NotModelled:
                return None
            return op("+", dst, n) if dst.k != "iter" else mk("iter", dst.a[0], op("+", dst.a[1], n))
        if q in ("memcpy", "std::memcpy"):
            return None
        return None

    def callable(self, fn):
        return fn.k == "lam" or fn.k == "obj" and isinstance(fn.a[0], str) and functor(fn.a[0]) is not None

    def apply(self, st, fn, args, locs, node):
        """value of a lambda or of a function object of the library for these arguments"""
        if fn.k == "lam":
            return self.call_lambda(st, fn, args, locs, node)
        o = functor(fn.a[0])
        if o in ("-1", "!"):
            return (neg(args[0]) if o == "!" else mk("un", "-", args[0])) if len(args) == 1 else None
        if len(args) != 2:
            return None
        x, y = args
        if o in (">", ">="):
            return op("<" if o == ">" else "<=", y, x)
        if o == "!=":
            return neg(op("==", x, y))
        return op(o, x, y)

    def mutating(self, st, c):
        """library algorithm that rearranges or overwrites a range"""
        a, q = c.args, c.q
        if self.vals and q == "std::iota" and len(a) == 3 and a[0].k == "iter" and a[1].k == "iter" and a[0].a[0] is a[1].a[0]:
            self.range_write(st, a[0], op("-", a[1].a[1], a[0].a[1]), lambda b: op("+", a[2], b), c.node)
            return VOID
        dest = MUTALG[q]
        its = [x for i, x in enumerate(a) if x.k == "iter" and (dest is None or i == dest)]
        args = [x.a[1] if x.k == "iter" else self.lambda_body(st, x, c.node) if x.k == "lam" else x for x in a]
        pre = st.copy()
        res = None
        for loc in dict.fromkeys(x.a[0] for x in its):
            extra = [self.load(pre, y) for y in dict.fromkeys(x.a[0] for x in a if x.k == "iter") if y is not loc]
            new = mk("mut", q, self.load(pre, loc), *args, *extra)
            self.write(st, loc, new, c.node)
            res = mk("iter", loc, mk("call", q, self.load(pre, loc), *args))
        return VOID if q in ("std::shuffle", "std::reverse", "std::sort", "std::stable_sort", "std::iota", "std::generate") or res is None else res

    def lambda_body(self, st, fn, node):
        """value of a lambda for symbolic arguments"""
        n = LAMS.get(fn.a[0])[0]["p"]
        v = self.call_lambda(st.copy(), fn, [mk("lamarg", i) for i in range(len(n))], [], node)
        return mk("lamfn", v)

    def algo(self, st, c):
        it, end, fn = c.args
        if it.k != "iter" or fn.k != "lam":
            return None
        bv = mk("bv", id(c.node))
        UNSIGNED.add(bv)
        loc = E(it.a[0], bv)
        lo, hi = it.a[1], (end.a[1] if end.k == "iter" else mksize(VOID))
        s = st.copy()
        add_fact(s, op("<=", lo, bv), True)
        add_fact(s, op("<", bv, hi), True)
        n = c.n
        if n == "for_each":
            if self.vals and lo is INT(0) and hi is mksize(self.load(st, it.a[0])):
                r = self.each(st, it.a[0], fn, c.node)
                if r is not None:
                    return r
            pre = set(st.store)
            r = self.call_lambda(s, fn, [self.load(s, loc)], [loc], c.node)
            if not s.dead:
                for l in set(s.store) | pre:
                    if s.store.get(l) is not st.store.get(l) and root(l).k != "L" or (l in st.store and s.store.get(l) is not st.store.get(l)):
                        self.write(st, l, mk("mut", "for_each", self.load(st, l), self.load(s, l)), c.node, hook=False)
                base = set(st.facts)
                for f in s.facts - base:
                    if contains(f[0], bv):
                        st.facts.add((mk("forall", lo, hi, subst(f[0], {bv: mk("bv", 0)}), f[1]), True))
            return VOID
        r = self.call_lambda(s, fn, [self.load(s, loc)], [loc], c.node)
        body = subst(r, {bv: mk("bv", 0)})
        if self.vals and n == "any_of":
            return quant("exists", lo, hi, r, bv)
        if self.vals and n == "none_of":
            return neg(quant("exists", lo, hi, r, bv))
        if self.vals and n == "all_of":
            return neg(quant("exists", lo, hi, neg(r), bv))
        if self.vals and n == "count_if":
            return quant("agg", lo, hi, ite(r, INT(1), INT(0)), bv, "sum")
        if n == "any_of":
            return mk("exists", lo, hi, body)
        if n == "none_of":
            return neg(mk("exists", lo, hi, body))
        if n == "all_of":
            return neg(mk("exists", lo, hi, neg(body)))
        if n == "find_if" and self.vals:
            return self.found(it.a[0], lo, hi, r, bv)
        return mk("call", c.q, it, body)

    def each(self, st, cl, fn, node):
        """std::for_each over a whole container: the loop with the lambda's body"""
        lam, encl = LAMS.get(fn.a[0])
        if len(lam["p"]) != 1:
            return None
        p = lam["p"][0]
        key = (id(lam), id(node))
        s = EACH.get(key)
        if s is None:
            body = as_continue(lam["body"])
            s = EACH[key] = {"k": "RangeFor", "l": node["l"], "v": p, "b": body, "lam": lam, "call": node} if body is not None else {}
        if not s:
            return None
        fr = mk("fr", encl["chain"][-1], ("lam", id(lam), id(node)).__str__())
        self.frames.append({"f": encl["f"], "this": encl["this"], "chain": encl["chain"] + [fr], "locals": set(encl["locals"]), "known": dict(encl["known"]), "retref": False})
        il = mk("L", fr, -id(s) - 1, "#i")
        st.store[il] = INT(0)
        self.frames[-1]["locals"].add(il)
        out = self.loop(st, s, None, None, s["b"], False, rng=(cl, il, p))
        self.frames.pop()
        res = self.join(states(out.n))
        if res is None:
            st.dead = True
        else:
            st.become(res)
        return VOID

    def found(self, loc, lo, hi, cond, bv):
        """iterator to the first element with the condition, or to the end"""
        ex = quant("exists", lo, hi, cond, bv)
        if ex.k == "int":
            return mk("iter", loc, hi if ex is FALSE else lo)
        if ex.k == "op":
            return mk("iter", loc, lo)
        return mk("iter", loc, ite(ex, quant("first", lo, hi, cond, bv), hi))

    # -------- opaque calls
    def writes_of(self, fid):
        """fields of `this` possibly written by repo method fid (transitively through own-object calls); None = unknown"""
        if fid in self._wcache:
            return self._wcache[fid]
        self._wcache[fid] = frozenset()
        f = self.prog.funcs.get(fid)
        if f is None:
            self._wcache[fid] = None
            return None
        out = set()
        from .prog import walk

        def rootfield(x):
            """field of this an lvalue is rooted in"""
            last = None
            while x is not None:
                k = x["k"]
                if k == "Mem":
                    last = x["q"]
                    if x["b"] is None or x["b"]["k"] == "This":
                        return last
                    x = x["b"]
                elif k == "Index":
                    x = x["b"]
                elif k == "Call" and x.get("o") is not None:
                    x = x["o"]
                elif k in ("Cast", "Un"):
                    x = x["e"]
                elif k == "Assign":
                    x = x["a"]
                else:
                    return None
            return None
        for nd in walk(f.raw["body"]):
            k = nd.get("k")
            if k == "Assign":
                r = rootfield(nd["a"])
                if r:
                    out.add(r)
            elif k == "Un" and nd["op"] in ("++", "--", "&"):
                r = rootfield(nd["e"])
                if r:
                    out.add(r)
            elif k == "Decl":
                for v in nd["v"]:
                    if v["t"].endswith("&") and not v["t"].startswith("const") and v.get("init"):
                        r = rootfield(v["init"])
                        if r:
                            out.add(r)
            elif k == "RangeFor":
                if nd["v"]["t"].endswith("&") and not nd["v"]["t"].startswith("const"):
                    r = rootfield(nd["r"])
                    if r:
                        out.add(r)
            elif k in ("Call", "Ctor"):
                o = nd.get("o")
                if o is not None and not nd.get("mc") and not nd.get("st"):
                    if o["k"] == "This":
                        if nd.get("f") in self.prog.funcs or nd.get("virt"):
                            for t in (self.prog.virtual_targets(nd["f"]) if nd.get("virt") else [nd["f"]]):
                                w = self.writes_of(t)
                                if w is None:
                                    out.add("*")
                                else:
                                    out |= w
                        else:
                            out.add("*")
                    else:
                        if not (nd.get("op") in ("[]", "()") or nd["q"].endswith(("::at", "::begin", "::end", "::front", "::back"))):
                            r = rootfield(o)
                            if r:
                                out.add(r)
                pm = nd.get("pm", "")
                for i, a in enumerate(nd.get("a", [])):
                    if i < len(pm) and pm[i] == "m" and a is not None:
                        r = rootfield(a)
                        if r:
                            out.add(r)
        r = frozenset(out)
        self._wcache[fid] = r
        return r

    def opaque(self, st, c, want_loc):
        e, q, n = c.node, c.q, c.n
        obj = c.obj
        av = tuple(c.args)
        if self.model_throws and not e.get("nothrow"):
            s = st.copy()
            self.throws[-1].append((s, "?", e, [f for f, _ in self.stack]))
        ov = self.load(st, obj) if obj is not None else None
        if ov is not None and ov.sz > 4000:
            ov = mk("bigval", obj)
        parts = [q]
        if ov is not None:
            parts.append(ov)
        parts += [a if a.sz < 4000 else mk("bigarg", i) for i, a in enumerate(av)]
        res = mk("call", *parts)
        # effects on the receiver
        if obj is not None and not e.get("mc") and not e.get("st") and q not in ("",):
            cls = q.rsplit("::", 1)[0]
            if self.veclike and cls in VECLIKE:
                nv = mk("mut", q, ov, *parts[2:])
                bv = mk("bv", mk("callid", self.cur()["chain"][-1], id(e), e["l"]))
                UNSIGNED.add(bv)
                sg = None
                if n == "setCol" and len(av) == 2:
                    sg = (dimq("nrows", ov), mk("tup", bv, av[1]), (self.vecelem if self.vals else self.elemval)(av[0], bv))
                elif n == "setRow" and len(av) == 2:
                    sg = (dimq("ncols", ov), mk("tup", av[1], bv), (self.vecelem if self.vals else self.elemval)(av[0], bv))
                elif n == "copyVector" and len(av) >= 1:
                    pos = av[1] if len(av) > 1 else INT(0)
                    sg = (mksize(av[0]), op("+", bv, pos), self.elemval(av[0], bv))
                elif n == "fill" and cls == "Rodop::vec" and len(av) == 1:
                    sg = (mksize(ov), bv, av[0])
                if sg is not None:
                    nv = mk("fill", ov, (mk("seg", (mk("rng", bv, INT(0), sg[0]),), TRUE, sg[1], sg[2]),))
                self.write(st, obj, nv, e, hook=True)
            elif e.get("repo") and e.get("f") in self.prog.funcs and not e.get("virt"):
                w = self.writes_of(e["f"])
                if w is None or "*" in w:
                    self.write(st, obj, mk("mut", q, ov, *parts[2:]), e, hook=False)
                else:
                    for fq in sorted(w):
                        l = F(obj, fq)
                        self.write(st, l, mk("mut", q, self.load(st, l), *parts[2:]), e, hook=False)
            elif e.get("repo") and e.get("virt"):
                tg = self.prog.virtual_targets(e["f"])
                w = set()
                for t in tg:
                    x = self.writes_of(t)
                    w |= x if x is not None else {"*"}
                if "*" in w or not tg:
                    self.write(st, obj, mk("mut", q, ov, *parts[2:]), e, hook=False)
                else:
                    for fq in sorted(w):
                        l = F(obj, fq)
                        self.write(st, l, mk("mut", q, self.load(st, l), *parts[2:]), e, hook=False)
            else:
                self.write(st, obj, mk("mut", q, ov, *parts[2:]), e, hook=False)
        pm = e.get("pm", "")
        for i, l in enumerate(c.locs):
            j = i if not (c.n == "(indirect)") else i - 1
            if l is not None and l.k != "V" and 0 <= j < len(pm) and pm[j] == "m":
                self.write(st, l, mk("out", q, i, *parts[1:]), e, hook=True)
        # lambdas passed to unknown functions: run once for effects
        if e.get("rr") and want_loc:
            if obj is not None and n in ("operator<<", "operator=", "operator+=", "operator-=", "operator*=", "append", "operator++"):
                return obj
            return mk("D", res)
        if e.get("rr") == "m" and e.get("t", "").endswith("*"):
            return res
        return res

    # -------- statements
    def ex(self, st, s):
        if s is None:
            return Out(n=st)
        k = s["k"]
        m = getattr(self, "ex_" + k, None)
        if m is None:
            raise AnalysisError("unknown statement kind " + k)
        return m(st, s)

    def ex_Block(self, st, s):
        o = Out(n=st)
        for b in s["b"]:
            if o.n is None or o.n.dead:
                o.n = None
                break
            r = self.ex(o.n, b)
            o.n = r.n
            o._b = o._b + r._b
            o._c = o._c + r._c
            o._r = o._r + r._r
        if o.n is not None and o.n.dead:
            o.n = None
        return o

    def ex_Expr(self, st, s):
        self.ev(st, s["e"])
        return Out(n=None if st.dead else st)

    def ex_Null(self, st, s):
        return Out(n=st)

    def ex_Decl(self, st, s):
        for v in s["v"]:
            self.decl(st, v)
            if st.dead:
                return Out()
        return Out(n=st)

    def decl(self, st, v):
        fr = self.cur()
        if v.get("static"):
            loc = mk("G", fr["f"].q + "::" + v["n"])
            if self.vals and v["t"].startswith("const ") and v.get("init") is not None:
                st.store[loc] = self.ev(st, v["init"])    # initialised once, never changed
            return
        loc = mk("L", fr["chain"][-1], v["id"], v["n"])
        fr["locals"].add(loc)
        fr["known"][v["id"]] = loc
        st.refs.pop(loc, None)
        self.drop_kids(st, loc)
        t = v["t"]
        base = t.replace("const ", "").rstrip("&* ")
        if base in self.prog.classes and not t.endswith(("*", "&")):
            self.cls_of_loc[loc] = base
        e = v.get("init")
        if t.endswith("&"):
            if e is not None:
                l = self.canon(st, self.lval(st, e))
                if l.k != "V":
                    st.refs[loc] = l
                else:
                    st.store[loc] = l.a[0]
            return
        if e is None:
            st.store[loc] = mk("uninit", loc)
            return
        val = self.ev(st, e)
        if st.dead:
            return
        if t in UNS:
            UNSIGNED.add(val)
        elif t in SINTS:
            INTT.add(val)
        st.store[loc] = val
        if e.get("k") != "Ctor" or e.get("a"):
            self.hooks.on_store(self, st, loc, val, {"l": v["l"], "k": "Decl", "e": e})

    def branch(self, st, c, node):
        self.hooks.on_branch(self, st, c, node)
        return self.assume(st, c, True), self.assume(st, c, False)

    def ex_If(self, st, s):
        if s.get("init"):
            self.ex(st, s["init"])
        if s.get("cv"):
            self.decl(st, s["cv"])
        c = self.ev(st, s["c"])
        if st.dead:
            return Out()
        a, b = self.branch(st, c, s)
        oa = self.ex(a, s["a"]) if a is not None else Out()
        ob = (self.ex(b, s["b"]) if s.get("b") else Out(n=b)) if b is not None else Out()
        return Out(self.merge(oa.n, ob.n), oa._b + ob._b, oa._c + ob._c, oa._r + ob._r)

    def ex_Return(self, st, s):
        if s.get("e"):
            fr = self.cur()
            rl = mk("L", fr["chain"][-1], 0, "#ret")
            if fr["retref"]:
                l = self.canon(st, self.lval(st, s["e"]))
                if st.dead:
                    return Out()
                if l.k != "V":
                    st.refs[rl] = l
                else:
                    st.store[rl] = l.a[0]
            else:
                v = self.ev(st, s["e"])
                if st.dead:
                    return Out()
                st.store[rl] = v
        return Out(ret=st)

    def ex_Break(self, st, s):
        return Out(brk=st)

    def ex_Continue(self, st, s):
        return Out(cont=st)

    def ex_Label(self, st, s):
        return self.ex(st, s["b"])

    def ex_Goto(self, st, s):
        raise AnalysisError("goto not supported in %s" % self.chain())

    def ex_OtherStmt(self, st, s):
        return Out(n=st)

    def ex_OMP(self, st, s):
        self.omp.append(s)
        try:
            return self.ex(st, s.get("b"))
        finally:
            self.omp.pop()

    def ex_Switch(self, st, s):
        v = self.ev(st, s["c"])
        if st.dead:
            return Out()
        body = s["b"]
        stm = body["b"] if body["k"] == "Block" else [body]
        cases = []

        def collect(x):
            if x["k"] == "Case":
                cases.append(x)
                collect(x["b"]) if x["b"] else None
            elif x["k"] == "Default":
                collect(x["b"]) if x["b"] else None
        for x in stm:
            collect(x)
        conds = {}
        for cse in cases:
            conds[id(cse)] = op("==", v, self.ev(st, cse["c"]))
        alln = st
        for cse in cases:
            if alln is not None:
                alln = self.assume(alln, conds[id(cse)], False)
        o = Out()
        cur = None
        hasdef = False
        for x in stm:
            while x is not None and x["k"] in ("Case", "Default"):
                if x["k"] == "Case":
                    ent = self.assume(st, conds[id(x)], True)
                else:
                    ent = alln.copy() if alln is not None else None
                    hasdef = True
                cur = self.merge(cur, ent)
                x = x["b"]
            if cur is None or x is None:
                continue
            r = self.ex(cur, x)
            cur = r.n
            o._b = o._b + r._b
            o._c = o._c + r._c
            o._r = o._r + r._r
        n = self.join(states(cur) + o._b + ([] if hasdef else states(alln)))
        return Out(n=n, cont=o._c, ret=o._r)

    ex_Case = ex_Default = lambda self, st, s: self.ex(st, s["b"])

    def ex_Try(self, st, s):
        entry = st.copy()
        self.throws.append([])
        o = self.ex(st, s["b"])
        th = self.throws.pop()
        pending = list(th)
        res = Out(o.n, o._b, o._c, o._r)
        for h in s["h"]:
            caught, rest = [], []
            for x in pending:
                m = self.exc_match(x[1], h["t"])
                if m:
                    caught.append(x)
                if not m or m == "maybe":
                    rest.append(x)
            pending = rest
            hs = None
            for x in caught:
                x0 = x[0].copy()
                x0.path = entry.path + ((mk("exc", id(s)), x[1]),)
                hs = self.merge(hs, x0)
            if hs is None:
                continue
            if h.get("v"):
                fr = self.cur()
                loc = mk("L", fr["chain"][-1], h["v"]["id"], h["v"]["n"])
                fr["locals"].add(loc)
                fr["known"][h["v"]["id"]] = loc
                hs.store[loc] = mk("exc", h["t"])
            self.caught = getattr(self, "caught", [])
            r = self.ex(hs, h["b"])
            res.n = self.merge(res.n, r.n)
            res._b = res._b + r._b
            res._c = res._c + r._c
            res._r = res._r + r._r
        self.throws[-1].extend(pending)
        return res

    def exc_match(self, t, h):
        if h == "...":
            return True
        if t == "?" or t == "rethrow":
            return "maybe" if h != "std::exception" else "maybe"
        if t == h:
            return True
        if h == "std::exception":
            return t.startswith("std::")
        if h == "std::runtime_error":
            return t in ("std::runtime_error", "std::range_error", "std::overflow_error", "std::underflow_error", "std::system_error")
        if h == "std::logic_error":
            return t in ("std::logic_error", "std::invalid_argument", "std::out_of_range", "std::domain_error", "std::length_error")
        return self.prog.is_a(t, h) if t in self.prog.classes else False

    # -------- loops
    def ex_For(self, st, s):
        if s.get("init"):
            o = self.ex(st, s["init"])
            if o.n is None:
                return Out()
            st = o.n
        c, b = s.get("c"), s["b"]
        if c is None or is_true(c):
            c, b = leading_exit(c, b)
        return self.loop(st, s, c, s.get("inc"), b, False)

    def ex_While(self, st, s):
        c, b = s["c"], s["b"]
        if is_true(c) and not s.get("cv"):
            c, b = leading_exit(c, b)
        return self.loop(st, s, c, None, b, False)

    def ex_Do(self, st, s):
        c, b = s["c"], s["b"]
        if is_true(c):
            c, b = leading_exit(c, b)
            return self.loop(st, s, c, None, b, b is s["b"])
        return self.loop(st, s, c, None, b, True)

    def ex_RangeFor(self, st, s):
        r = s["r"]
        cl = self.canon(st, self.lval(st, r))
        if st.dead:
            return Out()
        if cl.k == "V":
            tmp = mk("L", self.cur()["chain"][-1], -id(s), "#range")
            st.store[tmp] = cl.a[0]
            cl = tmp
        tab = self.load(st, cl)
        if self.vals and tab.k == "list" and len(tab.a) <= 32 and not exits_in(s["b"]):
            return self.unrolled(st, s, cl, len(tab.a))
        il = mk("L", self.cur()["chain"][-1], -id(s) - 1, "#i")
        st.store[il] = INT(0)
        return self.loop(st, s, None, None, s["b"], False, rng=(cl, il, s["v"]))

    def unrolled(self, st, s, cl, n):
        """loop over a table that is written out in the source"""
        fr, var = self.cur(), s["v"]
        loc = mk("L", fr["chain"][-1], var["id"], var["n"])
        fr["locals"].add(loc)
        fr["known"][var["id"]] = loc
        for k in range(n):
            el = E(cl, INT(k))
            if var["t"].endswith("&"):
                st.refs[loc] = el
            else:
                st.refs.pop(loc, None)
                self.drop_kids(st, loc)
                st.store[loc] = self.load(st, el)
            o = self.ex(st, s["b"])
            st = self.join(states(o.n) + o._c)
            if st is None:
                return Out()
        return Out(n=st)

    def loop(self, st, s, cond, inc, body, post, rng=None):
        lid = mk("loopid", self.cur()["chain"][-1], id(s), s["l"])
        S0 = st
        mod = {}
        c0 = cond
        cond, flags, tests = (cond, [], []) if rng or post or cond is None else self.loop_condition(st, cond)
        for loc, pol in flags:
            t = self.raw(st, loc)
            if t is not pol:
                # the flag may already be down: nothing to do in that case
                s1, s0 = self.assume(st, t, pol is TRUE), self.assume(st, t, pol is FALSE)
                if s0 is not None:
                    s0.store[loc] = neg(pol)
                if s1 is None:
                    return Out(n=s0)
                s1.store[loc] = pol
                o = self.loop(s1, s, c0, inc, body, post, rng)
                if s0 is not None:
                    o.n = self.join(states(o.n) + [s0])
                return o

        def head(S0, mod):
            H = S0.copy()
            H.path = S0.path + ((mk("in", lid), True),)
            for loc, lv in mod.items():
                if lv is not None:
                    self.drop_kids(H, loc)
                    H.store[loc] = lv
                    self.link(H, loc)
            return H

        def one(H):
            """run one iteration from H: returns (back state, exit state, Out)"""
            if rng:
                cl, il, var = rng
                i = H.store[il]
                UNSIGNED.add(i)
                c = op("<", i, mksize(self.load(H, cl)))
            elif cond is not None and not post:
                if s.get("cv"):
                    self.decl(H, s["cv"])
                c = self.ev(H, cond)
                if H.dead:
                    return None, None, Out()
            else:
                c = TRUE
            if not post:
                self.hooks.on_branch(self, H, c, s)
                info["guard"] = c
            B = self.assume(H, c, True)
            X = self.assume(H, c, False) if not post else None
            if B is None:
                return None, X, Out()
            if rng:
                cl, il, var = rng
                fr = self.cur()
                loc = mk("L", fr["chain"][-1], var["id"], var["n"])
                fr["locals"].add(loc)
                fr["known"][var["id"]] = loc
                el = E(cl, H.store[il])
                if var["t"].endswith("&"):
                    B.refs[loc] = el
                else:
                    B.refs.pop(loc, None)
                    self.drop_kids(B, loc)
                    B.store[loc] = self.load(B, el)
            brk = []
            for e in tests:
                c1 = self.ev(B, e)
                b1 = self.assume(B, c1, False)
                if b1 is not None:
                    brk.append(b1)
                B = self.assume(B, c1, True)
                if B is None:
                    break
            if B is None:
                return None, X, Out(None, self.join(brk))
            o = self.ex(B, body)
            nx = self.join(states(o.n) + o._c)
            if brk:
                o = Out(o.n, self.join(states(o.brk) + brk), None, o.ret)
            if nx is not None:
                if rng:
                    il = rng[1]
                    nx.store[il] = op("+", H.store[il], INT(1))
                elif inc is not None:
                    self.ev(nx, inc)
                    if nx.dead:
                        nx = None
                for loc, val in flags:
                    if nx is None:
                        break
                    c1 = self.raw(nx, loc)
                    self.hooks.on_branch(self, nx, c1, s)
                    b1 = self.assume(nx, c1, val is FALSE)
                    nx = self.assume(nx, c1, val is TRUE)
                    if nx is not None:
                        nx.store[loc] = val
                    if b1 is not None:
                        b1.store[loc] = neg(val)
                        o = Out(o.n, self.join(states(o.brk) + [b1]), None, o.ret)
                if post and nx is not None:
                    c2 = self.ev(nx, cond)
                    info["guard"] = c2
                    self.hooks.on_branch(self, nx, c2, s)
                    X2 = self.assume(nx, c2, False)
                    nx2 = self.assume(nx, c2, True)
                    o2 = Out(o.n, o.brk, None, o.ret)
                    return nx2, X2, o2
            return nx, X, Out(None, o.brk, None, o.ret)

        self.quiet += 1
        nthrow = len(self.throws[-1])
        self.loopstack.append(lid)
        info = {"node": s, "mod": {}, "fn": self.stack[-1][0] if self.stack else None}
        back = None
        try:
            for rnd in range(6):
                H = head(S0, mod)
                Hf = set(H.facts)
                back, X, o = one(H)
                del self.throws[-1][nthrow:]
                ch = False
                if back is not None:
                    H0 = head(S0, mod)
                    for loc in set(back.store) | set(S0.store):
                        if loc in mod:
                            continue
                        if loc.k == "L" and loc.a[2] in ("#ret",):
                            continue
                        if loc not in S0.store and root(loc).k == "L" and root(loc) not in S0.store and not self._preexist(S0, root(loc)):
                            continue   # local to the body
                        vb = back.store.get(loc)
                        if vb is None:
                            vb = self.raw(back, loc)
                        vh = H0.store.get(loc)
                        if vh is None:
                            vh = self.raw(H0, loc)
                        if vb is not vh:
                            if vb.k == "iter" and vh.k == "iter" and vb.a[0] is vh.a[0]:
                                mod[loc] = mk("iter", vb.a[0], mk("lv", lid, loc))
                                UNSIGNED.add(mk("lv", lid, loc))
                            else:
                                lv = mk("lv", lid, loc)
                                if self.is_matval(vh):
                                    MATVALS.add(lv)
                                if vh in UNSIGNED or vh.k == "int" and vh.a[0] >= 0 and vb in UNSIGNED:
                                    UNSIGNED.add(lv)
                                if self.vals and vb is op("-", vh, INT(1)) and vh.k != "int" and (vh in UNSIGNED or vh in INTT):
                                    UNSIGNED.add(lv)
                                    lv = mk("op", "-", vh, lv)
                                    (UNSIGNED if vh in UNSIGNED else INTT).add(lv)
                                mod[loc] = lv
                            ch = True
                    # facts (tags) that do not survive an iteration
                    lost = {f for f in S0.facts if f not in back.facts}
                    if lost:
                        S0 = S0.copy()
                        S0.facts -= lost
                        S0.cf = {}
                        ch = True
                    if not (back.may <= S0.may):
                        S0 = S0.copy()
                        S0.may = S0.may | back.may
                        ch = True
                if not ch:
                    break
        finally:
            self.quiet -= 1
            self.loopstack.pop()
        # final, reporting pass
        self.loopstack.append(lid)
        mod = dict(mod)
        if back is not None:
            for loc, lv in mod.items():
                if lv.k == "lv":
                    for kd in ("size", "nrows", "ncols"):
                        SIZEOF.pop((kd, lv), None)
                    for kd in ("size", "nrows", "ncols"):
                        bs = dimq(kd, self.load(back, loc))
                        if bs.k == kd and bs.a[0] is lv:
                            SIZEOF[(kd, lv)] = dimq(kd, self.load(st, loc))
        if back is not None:
            for loc, lv in list(mod.items()):
                i0 = self.raw(st, loc)
                nxv = self.raw(back, loc)
                if lv.k == "lv" and all(x in (TRUE, FALSE) or x.k not in ("int", "flt", "str", "enum", "addr") for x in alts(i0)):
                    al = alts(nxv)
                    if all(x is lv or x is TRUE for x in al):
                        mod[loc] = op("||", i0, lv) if i0 is not FALSE else lv
                    elif all(x is lv or x is FALSE for x in al):
                        mod[loc] = op("&&", i0, lv) if i0 is not TRUE else lv
        H = head(S0, mod)
        # relations that hold initially and are re-established by every iteration
        if back is not None:
            for loc, lv in mod.items():
                if lv.k != "lv":
                    continue
                i0, nxv = self.raw(st, loc), self.raw(back, loc)
                if nxv.k == "int" or nxv is lv or nxv.sz > 60:
                    continue
                n = 0
                for (f, p) in back.facts:
                    if f.k == "op" and f.a[0] in ("<", "<=", "==") and (f.a[1] is nxv or f.a[2] is nxv):
                        other = f.a[2] if f.a[1] is nxv else f.a[1]
                        if any(y.k == "lv" and y.a[0] is lid for y in subterms(other)):
                            continue
                        g0 = op(f.a[0], i0, other) if f.a[1] is nxv else op(f.a[0], other, i0)
                        if g0 is (TRUE if p else FALSE) or holds(S0, g0, p):
                            g = op(f.a[0], lv, other) if f.a[1] is nxv else op(f.a[0], other, lv)
                            add_fact(H, g, p)
                            n += 1
                            if n > 8:
                                break
        # induction lower bound: lv >= init when it only ever grows
        if back is not None:
            for loc, lv in mod.items():
                i0 = st.store.get(loc)
                if i0 is None:
                    i0 = self.raw(st, loc)
                nxv = self.raw(back, loc)
                l2, n2, a0 = counter(lv, i0, nxv)
                info["mod"][loc] = (i0, nxv)
                info.setdefault("start", {})[loc] = self.load(st, loc)
                if a0 is not None and monotone(n2, l2):
                    add_fact(H, op("<=", a0, l2), True)
        self.loops[lid] = info
        Hc = H.copy()
        back, X, o = one(H)
        self.loopstack.pop()
        for loc in list(info["mod"]):
            if back is not None:
                info["mod"][loc] = (info["mod"][loc][0], self.raw(back, loc))
        info["lid"] = lid
        info["hv"] = dict(mod)
        lv_out = []
        for grp in (list(o._b), list(o._r)):
            c3 = FALSE
            for s2 in grp:
                c2 = TRUE
                pre = len(Hc.path)
                for cnd, pl in s2.path[pre:]:
                    if cnd.k in ("in", "exc", "dispatch") or cnd is info.get("guard"):
                        continue
                    c2 = op("&&", c2, cnd if pl is True else neg(cnd))
                c3 = op("||", c3, c2)
            if grp:
                lv_out.append(c3)
        info["exits"] = (info.get("guard", TRUE), lv_out)
        self.hooks.on_loop(self, s, info, Hc, back, X, o)
        # generalise facts that hold at the end of every iteration
        exit_states = [X] if X is not None else []
        if o.brk is not None:
            exit_states.append(o.brk)
        gen = []
        if back is not None and o.brk is None:
            idx = None
            for loc, lv in mod.items():
                l2 = lv.a[1] if lv.k == "iter" else lv
                nv = self.raw(back, loc)
                n2 = nv.a[1] if nv.k == "iter" else nv
                if n2 is op("+", l2, INT(1)):
                    i0, _ = info["mod"].get(loc, (None, None))
                    a0 = i0.a[1] if (i0 is not None and i0.k == "iter") else i0
                    if a0 is not None:
                        idx = (l2, a0)
                        for f in back.facts - Hc.facts:
                            if contains(f[0], l2) and f[0].k != "forall":
                                # only if all other loop values are absent
                                if any(y.k == "lv" and y.a[0] is lid and y is not l2 for y in subterms(f[0])):
                                    continue
                                gen.append((l2, a0, f))
                        for (ck, cp), fs in back.cf.items():
                            for f in fs:
                                if contains(f[0], l2) and f[0].k in ("done",):
                                    gen.append((l2, a0, (mk("imp", ck, cp, f[0]), True)))
            # upper limit from the loop condition
        if X is not None and gen:
            # hi: from X facts not (lv < hi)
            his = {}
            for (f, p) in X.facts:
                if f.k == "op" and f.a[0] == "<" and not p:
                    his.setdefault(f.a[1], f.a[2])
                if f.k == "op" and f.a[0] == "==" and p:
                    # i != n as loop condition
                    for u, w in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                        if u.k == "lv":
                            his.setdefault(u, w)
                if f.k == "op" and f.a[0] == "<=" and not p:
                    his.setdefault(f.a[1], op("+", f.a[2], INT(1)))
            bv = mk("bv", 0)
            for l2, a0, f in gen:
                hi = his.get(l2)
                if hi is None or contains(hi, l2):
                    continue
                X.facts.add((mk("forall", a0, hi, subst(f[0], {l2: bv}), f[1]), True))
        if X is not None and back is not None and o.brk is None:
            self.fills(st, X, back, mod, info, lid)
        elif X is not None and back is not None:
            self.range_of(X, back, mod, info)
        ret = o.ret
        self.search_gate(st, info, mod, X, o, lv_out)
        n = None
        for x in exit_states:
            n = self.merge(n, x)
        if n is not None and info.get("gate") is None:
            # drop loop-entry marker from path
            n.path = st.path
        return Out(n=n, ret=ret)

    def loop_condition(self, st, cond):
        """a counted loop with further conditions: the loop condition, flags that hold at the start (tested at the end
        of an iteration), and conditions tested at the start of an iteration"""
        cs, todo = [], [cond]
        while todo:
            c = todo.pop(0)
            while c["k"] == "Paren":
                c = c["e"]
            if c["k"] == "Bin" and c["op"] == "&&":
                todo = [c["a"], c["b"]] + todo
            else:
                cs.append(c)
        rel = [c for c in cs if c["k"] == "Bin" and c["op"] in ("<", "<=", ">", ">=", "!=")]
        if len(cs) == 1 and not rel:
            main = {"k": "Lit", "lk": "bool", "v": "1", "l": cond.get("l"), "t": "bool"}
        elif len(cs) < 2 or not rel:
            return cond, [], []
        else:
            main = rel[0]
        flags, tests = [], []
        if self.vals and rel and main["op"] == "<":
            # i < a && i < b: below the smaller one
            same = [c for c in rel if c["op"] == "<" and bare(c["a"])["k"] == "Ref" and bare(c["a"]).get("id") == bare(main["a"]).get("id") and pure(c["b"])]
            if len(same) == 2 and bare(main["a"])["k"] == "Ref":
                x, y = same[0]["b"], same[1]["b"]
                less = {"k": "Bin", "op": "<", "a": x, "b": y, "t": "bool", "l": main.get("l")}
                main = dict(main, b={"k": "Cond", "c": less, "a": x, "b": y, "t": x.get("t"), "l": main.get("l")})
                cs = [c for c in cs if c not in same]
        for c in cs:
            if c is main:
                continue
            pol, e = TRUE, c
            while e["k"] in ("Un", "Cast") and (e["k"] == "Cast" or e["op"] == "!"):
                if e["k"] == "Un":
                    pol = neg(pol)
                e = e["e"]
            if e["k"] == "Ref" and e["d"] not in ("enum", "func") and e.get("t") == "bool":
                loc = self.varloc(st, e)
                v = self.raw(st, loc) if loc.k == "L" else None
                if v is pol or v is not None and v is not neg(pol) and v.k not in ("lv", "init", "P", "undef") and v.k in ("op", "un", "exists", "ite"):
                    flags.append((loc, pol))
                    continue
            if not rel or not pure(c):
                return cond, [], []
            tests.append(c)
        return main, flags, tests

    def range_of(self, X, back, mod, info):
        if "range" not in info:
            self.fills(None, X, back, mod, info, info["lid"], only_range=True)

    def search_gate(self, st, info, mod, X, o, lv_out):
        """a counted loop that does nothing but look for the first index satisfying a condition: the early exit is
        taken exactly when such an index exists"""
        if "range" not in info or X is None or (o.ret is None) == (o.brk is None) or len(lv_out) != 1:
            return
        i, lo, hi = info["range"]
        m = {}
        for loc, lv in mod.items():
            l2 = lv.a[1] if lv.k == "iter" else lv.a[2] if lv.k == "op" and lv.a[0] == "-" else lv
            if l2 is i or l2.k == "size" and l2.a[0] is lv:
                continue
            off = info.get("step", {}).get(l2)
            if off is None:
                return
            m[l2] = off
        m.update(info.get("down", {}))
        cond = subst(lv_out[0], m)
        lid = info["lid"]
        if any(y.k == "lv" and y.a[0] is lid and y is not i for y in subterms(cond)):
            return
        g = quant("exists", lo, hi, cond, i)
        if g.k == "int":
            return
        s2 = o.ret if o.ret is not None else o.brk
        s2.path = st.path + ((g, True),)
        X.path = st.path + ((g, False),)
        info["gate"] = g
        add_fact(s2, g, True)
        add_fact(X, g, False)
        if o.brk is not None:
            info["gate"] = None
            if self.vals:
                at = quant("first", lo, hi, cond, i)
                if lo is INT(0) and i not in {y for x in info.get("down", {}) for y in subterms(x)} and (hi in UNSIGNED or hi.k in ("size", "nrows", "ncols")):
                    for loc, lv in mod.items():
                        if lv is i and self.raw(X, loc) is lv:
                            X.store[loc] = hi
                for loc, v in list(s2.store.items()):
                    if isinstance(v, T) and any(y is i for y in subterms(v)):
                        s2.store[loc] = subst(v, {i: at})
        else:
            fr = self.cur()
            rl = mk("L", fr["chain"][-1], 0, "#ret")
            v = s2.store.get(rl)
            if v is not None and any(y is i for y in subterms(v)):
                s2.store[rl] = subst(v, {i: quant("first", lo, hi, cond, i)})

    def fills(self, st, X, back, mod, info, lid, only_range=False):
        """containers written element by element: value after the loop as base + segments over the index range"""
        his = {}
        for (f, p) in X.facts:
            if f.k == "op" and f.a[0] == "<" and not p:
                his.setdefault(f.a[1], []).append(f.a[2])
                b, c = lin(f.a[1])
                if b is not None and b.k == "lv" and b is not f.a[1]:
                    his.setdefault(b, []).append(op("-", f.a[2], INT(c)))
            elif f.k == "op" and f.a[0] == "==" and p:
                for u, w in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if u.k == "lv":
                        his.setdefault(u, []).append(w)
            elif f.k == "op" and f.a[0] == "<=" and not p:
                his.setdefault(f.a[2], []).append(op("+", f.a[1], INT(0))) if False else his.setdefault(f.a[1], []).append(op("+", f.a[2], INT(1)))
        for (f, p) in X.facts:
            # counting down: lv < a as 0 < a - lv, a - lv != 0
            if f.k == "op" and (f.a[0] in ("<", "<=") and not p and f.a[1].k == "int" or f.a[0] == "==" and p and INT(0) in f.a[1:]):
                d = f.a[2] if f.a[1].k == "int" else f.a[1]
                b, c = lin(d)
                if b is not None and b.k == "op" and b.a[0] == "-" and b.a[2].k == "lv":
                    c0 = (f.a[1] if f.a[1].k == "int" else f.a[2]).a[0]
                    # c0 < b + c fails first when lv = b' + c - c0
                    his.setdefault(b.a[2], []).append(op("+", b.a[1], INT(c - c0 + (1 if f.a[0] == "<=" else 0))))
        ctr, down = [], {}
        for loc, lv in mod.items():
            l2, n2, a0 = counter(lv, info["mod"].get(loc, (None, None))[0], self.raw(back, loc))
            if l2.k == "lv" and n2 is op("+", l2, INT(1)) and a0 is not None:
                ctr.append((l2, a0))
                if lv.k == "op":
                    down[l2] = lv.a[1]
            elif self.vals and lv.k == "lv" and mk("size", lv) in his and dimq("size", self.load(back, loc)) is op("+", mk("size", lv), INT(1)):
                ctr.append((mk("size", lv), dimq("size", self.load(st, loc)) if st is not None else mk("size", info["mod"][loc][0])))
        main = None
        for l2, a0 in ctr:
            for hi in his.get(l2, []):
                if not any(y.k == "lv" and y.a[0] is lid for y in subterms(hi)):
                    main = (l2, a0, hi)
                    break
            if main:
                break
        if main is None:
            return
        l2, a0, hi = main
        bv = mk("bv", lid)
        UNSIGNED.add(bv)
        # other counters in step with the main one
        m = {}
        for u, b in ctr:
            m[u] = bv if u is l2 else op("+", b, op("-", bv, a0))
        # positions that advance by a fixed number
        strided = {}
        for loc, lv in mod.items():
            i0 = info["mod"].get(loc, (None, None))[0]
            u, n2, b = counter(lv, i0, self.raw(back, loc))
            if self.vals and lv.k in ("lv", "iter") and u.k == "lv" and u not in m and b is not None and n2 is not u and (lv.k == "iter" or b in INTT or b in UNSIGNED or b.k == "int"):
                d = delta(n2, u)
                if d is not None and not any(y.k == "lv" and y.a[0] is lid for y in subterms(d)) and (d.k == "int" or d in UNSIGNED or d in INTT or d.k in ("size", "nrows", "ncols")):
                    strided[u] = (b, d)
                    m[u] = op("+", b, op("*", d, op("-", bv, a0) if a0 is not INT(0) else bv))
        if l2 in down and a0 is INT(0):
            # the indices in increasing order
            top = down[l2]
            (b1, c1), (b2, c2) = lin(top), lin(hi)
            if b1 is b2:
                m[l2] = op("-", op("-", hi, INT(1)), bv)
                m[mk("op", "-", top, l2)] = op("+", bv, INT(1 + c1 - c2))
                info["down"] = {mk("op", "-", top, l2): op("+", l2, INT(1 + c1 - c2))}
        info["range"] = (l2, a0, hi)
        info["step"] = {u: op("+", b, op("-", l2, a0)) if a0 is not INT(0) or b is not INT(0) else l2 for u, b in ctr if u is not l2}
        for u in strided:
            info["step"][u] = subst(m[u], {bv: l2})
        if only_range:
            return
        if self.vals:
            self.close_scalars(st, X, back, mod, info, lid, m, bv)
        if a0 is INT(0) and (hi in UNSIGNED or hi.k in ("size", "nrows", "ncols") or hi.k == "int" and hi.a[0] >= 0):
            # counters have reached the end
            for loc, lv in mod.items():
                if lv.k == "lv" and lv in m and lv not in down and self.raw(X, loc) is lv:
                    X.store[loc] = subst(m[lv], {bv: hi})
        for loc, lv in mod.items():
            if lv.k != "lv":
                continue
            bval = self.load(back, loc)
            S0v = self.load(st, loc)
            if self.vals and bval.k == "push" and bval.a[0] is lv:
                val = subst(bval.a[1], m)
                if not any(y.k == "lv" and y.a[0] is lid for y in subterms(val)):
                    n0 = dimq("size", S0v)
                    cnt = op("-", hi, a0)
                    ix = op("-", bv, a0)
                    g = mk("grow", S0v, op("+", n0, cnt))
                    self.drop_kids(X, loc)
                    X.store[loc] = mk("fill", g, (mk("seg", (mk("rng", bv, a0, hi),), TRUE, op("+", n0, ix), val),))
                continue
            if self.vals and bval.k == "mut" and bval.a[0] == "Rodop::mat::addRow" and bval.a[1] is lv and bval.a[3:] in ((), (INT(-1),)):
                row = subst(bval.a[2], m)
                if not any(y.k == "lv" and y.a[0] is lid for y in subterms(row)):
                    bv2 = mk("bv", mk("rowof", lid))
                    UNSIGNED.add(bv2)
                    n0 = dimq("nrows", S0v)
                    nc = dimq("ncols", S0v)
                    g = mk("growm", S0v, op("+", n0, op("-", hi, a0)), dimq("size", row) if nc is INT(0) else nc)
                    self.drop_kids(X, loc)
                    ix = op("-", bv, a0)
                    X.store[loc] = mk("fill", g, (mk("seg", (mk("rng", bv, a0, hi), mk("rng", bv2, INT(0), g.a[2])), TRUE,
                                                     mk("tup", op("+", n0, ix) if n0 is not INT(0) else ix, bv2), self.vecelem(row, bv2)),))
                continue
            segs = segments(bval, lv)
            if not segs:
                continue
            out, ok = [], True
            rowwise = all(sg[2].k == "tup" and subst(sg[2].a[0], m) is bv for sg in segs)
            for sg in segs:
                vars_, cond, idx, val = sg
                m2 = dict(m)
                iv = subst(idx, m2)
                if rowwise:
                    for x in list(subterms(val)) + list(subterms(cond)):
                        if x.k == "call" and x.a[0].endswith("mat::getRow") and x.a[1] is lv and subst(x.a[2], m) is bv:
                            m2[x] = mk("call", x.a[0], S0v, bv)
                        elif x.k == "elem" and x.a[0] is lv and x.a[1].k == "tup" and subst(x.a[1].a[0], m) is bv:
                            m2[x] = self.elemval(S0v, subst(x.a[1], m))
                selfref = [x for x in list(subterms(val)) + list(subterms(cond)) if x.k == "elem" and x.a[0] is lv and subst(x.a[1], m2) is iv]
                if selfref and not moves_with(iv, bv):
                    # the same element is updated in every iteration: accumulation
                    e = selfref[0]
                    d = delta(val, e)
                    if len(segs) != 1 or d is None or contains(iv, bv) or any(contains(cond, x) for x in selfref):
                        ok = False
                        break
                    d = subst(ite(cond, d, INT(0)), m2)
                    if any(y.k == "lv" and y.a[0] is lid for y in subterms(d)) or any(contains(y, bv) for r in vars_ for y in (subst(r.a[1], m2), subst(r.a[2], m2))):
                        ok = False
                        break
                    vs = tuple(mk("rng", r.a[0], subst(r.a[1], m2), subst(r.a[2], m2)) for r in vars_)
                    i0 = self.elemval(S0v, iv)
                    g = quant("agg", a0, hi, d, bv, "sum")
                    out.append(mk("seg", vs, TRUE, iv, g if i0.k in ("int", "flt") and float(i0.a[0]) == 0 else op("+", i0, g)))
                    continue
                for x in selfref:
                    m2[x] = self.elemval(S0v, iv)
                vv, cc = subst(val, m2), subst(cond, m2)
                rest = [y for t in (iv, vv, cc) for y in subterms(t) if y.k == "lv" and y.a[0] is lid]
                if rest:
                    ok = False
                    break
                vs = tuple(mk("rng", r.a[0], subst(r.a[1], m2), subst(r.a[2], m2)) for r in vars_)
                out.append(mk("seg", (mk("rng", bv, a0, hi),) + vs, cc, iv, vv))
            if ok:
                self.drop_kids(X, loc)
                X.store[loc] = mk("fill", S0v, tuple(out))

    def close_scalars(self, st, X, back, mod, info, lid, m, bv):
        """accumulations (sum, product, running maximum / minimum) as closed terms over the index range"""
        l2, a0, hi = info["range"]
        mi = {k: subst(v, {bv: l2}) for k, v in m.items() if k is not l2}
        for loc, lv in mod.items():
            if lv.k == "op" and lv.a[0] in ("&&", "||") and lv.a[2].k == "lv" and lv.a[2].a[0] is lid and lv.a[1] is self.raw(st, loc):
                v = self.sticky(self.raw(back, loc), lv, l2, lv.a[1], a0, hi, lid, mi)
                if v is not None:
                    X.store[loc] = v
                continue
            if lv.k != "lv" or lv is l2 or lv in m:
                continue
            nx = self.raw(back, loc)
            v = self.arg_extremum(X, nx, lv, l2, self.raw(st, loc), a0, hi, lid)
            if v is None:
                v = self.sticky(nx, lv, l2, self.raw(st, loc), a0, hi, lid, mi)
            if v is not None:
                X.store[loc] = v
                continue
            for kind, d in (("sum", delta(nx, lv)), ("prod", factor(nx, lv)), ("max", extremum(nx, lv, True)), ("min", extremum(nx, lv, False))):
                if d is None:
                    continue
                d = subst(d, mi)
                if any(y.k == "lv" and y.a[0] is lid and y is not l2 for y in subterms(d)):
                    continue
                i0 = self.raw(st, loc)
                a1 = a0
                if kind in ("max", "min") and subst(d, {l2: op("-", a0, INT(1))}) is i0:
                    a1 = op("-", a0, INT(1))       # the element before the range
                body = quant("agg", a1, hi, d, l2, kind)
                v = op("+", i0, body) if kind == "sum" else op("*", i0, body) if kind == "prod" else mk("call", kind + "imum", i0, body) if a1 is a0 else body
                if kind == "sum" and i0.k in ("int", "flt") and float(i0.a[0]) == 0:
                    v = body
                if kind == "prod" and i0.k in ("int", "flt") and float(i0.a[0]) == 1:
                    v = body
                self.drop_kids(X, loc)
                X.store[loc] = v
                break

    def sticky(self, nx, lv, i, i0, a0, hi, lid, mi):
        """set to a constant in some iteration: flag = c ? constant : flag"""
        if nx.k == "op" and nx.a[0] in ("&&", "||") and lv in nx.a[1:]:
            c = nx.a[2] if nx.a[1] is lv else nx.a[1]
            nx = ite(neg(c), FALSE, lv) if nx.a[0] == "&&" else ite(c, TRUE, lv)
        if nx.k != "ite" or lv not in nx.a[1:]:
            return None
        c, val = (nx.a[0], nx.a[1]) if nx.a[2] is lv else (neg(nx.a[0]), nx.a[2])
        if val.k not in ("int", "flt", "str", "enum", "null") or val is i0:
            return None
        c = subst(subst(c, mi), {lv: i0})         # as long as nothing has been found
        if any(y.k == "lv" and y.a[0] is lid and y is not i for y in subterms(c)):
            return None
        return ite(quant("exists", a0, hi, c, i), val, i0)

    def arg_extremum(self, X, nx, lv, i, i0, a0, hi, lid):
        """position of the first largest / smallest element: best = x[i] < x[best] ? i : best"""
        if nx.k != "ite" or {nx.a[1], nx.a[2]} != {lv, i} or i0 is not a0 and i0 is not op("-", a0, INT(1)):
            return None
        c = nx.a[0] if nx.a[1] is i else neg(nx.a[0])
        if c.k != "op" or c.a[0] != "<":
            return None
        for x, w in ((c.a[1], "min"), (c.a[2], "max")):
            y = c.a[2] if w == "min" else c.a[1]
            if x is subst(y, {lv: i}) and x.k == "init" and x.a[0].k == "E" and x.a[0].a[1] is i:
                if not any(z.k == "lv" and z.a[0] is lid for z in subterms(x.a[0].a[0])):
                    return mk("call", w + "index", self.load(X, x.a[0].a[0]), i0, hi)
        return None

    def _preexist(self, S0, loc):
        return loc in S0.store or loc in S0.kids or any(k is loc for k in S0.refs)

    # -------- entry
    def run(self, f, this_class=None, setup=None):
        st = State()
        fr = mk("fr", 0, f.id)
        self.this_class["this"] = this_class
        self.frames = []
        base = {"f": f, "this": THIS, "chain": [mk("fr", 0, 0)], "locals": set(), "known": {}, "retref": False}
        self.frames.append(base)
        args = []
        for p in f.p:
            loc = mk("P", p["n"])
            v = mk("init", loc)
            if p["t"] in UNS:
                UNSIGNED.add(v)
            else:       # a parameter of another function with this name may be unsigned
                for x in (loc, mk("D", mk("p", p["n"]))):
                    for S in (UNSIGNED, INTT):
                        for u in [u for u in S if contains(u, x)]:
                            S.discard(u)
                if p["t"] in SINTS:
                    INTT.add(v)
            args.append(v)
        locs = [(mk("D", mk("p", p["n"])) if p["t"].endswith("&") else None) for p in f.p]
        args = [mk("init", l) if l is not None else a for a, l in zip(args, locs)]
        for p, a in zip(f.p, args):
            if "Rodop::mat" in p["t"]:
                MATVALS.add(a)
        if setup:
            setup(self, st)
        rv = self.run_body(st, f, THIS, args, locs, fr, {"l": f.l})
        self.frames = []
        return st, rv


def counter(lv, i0, nv):
    """(loop value, its next value, its first value) of something that counts in a loop"""
    if lv.k == "iter":
        return lv.a[1], nv.a[1] if nv.k == "iter" else nv, i0.a[1] if i0 is not None and i0.k == "iter" else None
    if lv.k == "op" and lv.a[0] == "-":
        return lv.a[2], op("+", lv.a[2], INT(1)) if nv is op("-", lv, INT(1)) else mk("?"), INT(0)
    return lv, nv, i0


def is_true(e):
    e = bare(e)
    return e["k"] == "Lit" and e.get("lk") in ("bool", "int") and str(e.get("v")) in ("1", "true")


def leading_exit(c, b):
    """an endless loop that starts with if (x) break; is a loop while x does not hold"""
    if b["k"] == "Block" and b["b"]:
        f = b["b"][0]
        if f["k"] == "If" and not f.get("b") and not f.get("init") and not f.get("cv"):
            t = f["a"]
            while t["k"] == "Block" and len(t["b"]) == 1:
                t = t["b"][0]
            if t["k"] == "Break":
                if "_rest" not in b:
                    b["_rest"] = (negated(f["c"]), dict(b, b=b["b"][1:]))
                return b["_rest"]
    return c, b


def negated(e):
    e = bare(e)
    inv = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
    if e["k"] == "Bin" and e["op"] in inv and not any(str(x.get("t")) in ("double", "float") for x in (e["a"], e["b"])):
        return dict(e, op=inv[e["op"]])
    if e["k"] == "Un" and e["op"] == "!":
        return e["e"]
    return {"k": "Un", "op": "!", "e": e, "t": "bool", "l": e.get("l")}


class NotModelled(Exception):
    pass


READS = {"fabs", "abs", "sqrt", "pow", "exp", "log", "min", "max", "isnan", "isinf", "isfinite", "floor", "ceil", "round", "operator()", "operator[]", "at", "front", "back",
         "begin", "end", "cbegin", "cend", "isdigit", "isspace", "isalpha", "tolower", "toupper", "operator==", "operator!=", "operator<", "c_str", "data"}


def bare(e):
    while e["k"] in ("Paren", "Cast"):
        e = e["e"]
    return e


def pure(e):
    """the expression changes nothing"""
    if isinstance(e, dict):
        if e.get("k") in ("Assign", "New", "Delete", "Throw", "Lambda") or e.get("k") == "Un" and e.get("op") in ("++", "--"):
            return False
        if e.get("k") == "Call" and not e.get("mc") and (e.get("q") or "").split("::")[-1] not in READS:
            return False
        return all(pure(x) for x in e.values())
    if isinstance(e, list):
        return all(pure(x) for x in e)
    return True


def exits_in(b):
    """a statement that ends its loop or function"""
    from .prog import walk
    return any(x.get("k") in ("Return", "Break", "Goto", "OMP", "Try") for x in walk(b))


def quant(kind, lo, hi, body, var, sub=None):
    """bind var in body; bound variables are numbered from the innermost quantifier outwards"""
    n = 0
    for x in subterms(body):
        if x.k in ("exists", "agg", "first") or x.k == "forall":
            n = max(n, x.sz)
    n = depth_of(body) + 1
    b = mk("bv", n)
    UNSIGNED.add(b)
    sh = lo if kind in ("exists", "first") and lo.k == "int" and lo.a[0] > 0 else INT(0)     # indices from 0
    if sh is not INT(0) and kind == "exists" and any(x.k == "exists" and (contains(x.a[0], var) or contains(x.a[1], var)) for x in subterms(body)):
        sh = INT(0)
    if sh is not INT(0):
        if body.k == "int":
            return body if body is FALSE else op("<", lo, hi)
        lo, hi = INT(0), op("-", hi, sh)
    body = subst(body, {var: op("+", b, sh)})
    if kind == "agg":
        return mk("agg", sub, lo, hi, body)
    if body.k == "int":
        return body if body is FALSE else op("<", lo, hi)
    return op("+", mk(kind, lo, hi, body), sh) if kind == "first" else mk(kind, lo, hi, body)


_dep = {}


def depth_of(t):
    """nesting depth of quantifiers in a term"""
    r = _dep.get(t)
    if r is None:
        r = 0
        for x in t.a:
            if isinstance(x, T):
                r = max(r, depth_of(x))
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        r = max(r, depth_of(y))
        if t.k in ("exists", "agg", "first"):
            r += 1
        _dep[t] = r
    return r


def agg(kind, lo, hi, f):
    b = mk("bv", "tmp")
    return quant("agg", lo, hi, f(b), b, kind)


FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "negate": "-1", "less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=",
            "equal_to": "==", "not_equal_to": "!=", "logical_and": "&&", "logical_or": "||", "logical_not": "!"}


def functor(q):
    """operator of a function object of the library"""
    return FUNCTORS.get(q[5:].split("<")[0]) if q.startswith("std::") else None


def delta(nx, lv):
    """nx - lv when nx = lv + something free of lv"""
    if nx is lv:
        return INT(0)
    if nx.k == "ite":
        if contains(nx.a[0], lv):
            return None
        a, b = delta(nx.a[1], lv), delta(nx.a[2], lv)
        return None if a is None or b is None else ite(nx.a[0], a, b)
    if nx.k == "op" and nx.a[0] in "+-":
        x, y = nx.a[1], nx.a[2]
        if not contains(y, lv):
            d = delta(x, lv)
            if d is None:
                return None
            if d is INT(0):
                return y if nx.a[0] == "+" else mk("un", "-", y)
            return op(nx.a[0], d, y)
        if nx.a[0] == "+" and not contains(x, lv):
            d = delta(y, lv)
            return None if d is None else (x if d is INT(0) else op("+", d, x))
    return None


def factor(nx, lv):
    if nx is lv:
        return INT(1)
    if nx.k == "ite":
        if contains(nx.a[0], lv):
            return None
        a, b = factor(nx.a[1], lv), factor(nx.a[2], lv)
        return None if a is None or b is None else ite(nx.a[0], a, b)
    if nx.k == "op" and nx.a[0] == "*":
        for x, y in ((nx.a[1], nx.a[2]), (nx.a[2], nx.a[1])):
            if not contains(y, lv):
                d = factor(x, lv)
                if d is not None:
                    return y if d is INT(1) else op("*", d, y)
    return None


def extremum(nx, lv, mx):
    """t when nx = max(lv, t) (min)"""
    if nx.k == "ite" and nx.a[0].k == "op" and nx.a[0].a[0] in ("<", "<="):
        a, b = nx.a[0].a[1], nx.a[0].a[2]
        x, y = nx.a[1], nx.a[2]
        # a<b ? x : y
        if lv in (a, b) and lv in (x, y):
            t = b if a is lv else a
            if contains(t, lv):
                return None
            if {x, y} != {lv, t}:
                return None
            bigger = x is b        # a<b selects b -> max
            return t if bigger == mx else None
    return None


EACH = {}


def as_continue(b, top=True):
    """body of a lambda as the body of a loop; None when it leaves from within a loop of its own"""
    if isinstance(b, list):
        out = [as_continue(x, top) for x in b]
        return None if any(y is None and x is not None for x, y in zip(b, out)) else out
    if not isinstance(b, dict):
        return b
    k = b.get("k")
    if k == "Lambda":
        return b
    if k == "Return":
        return {"k": "Continue", "l": b["l"]} if top and b.get("e") is None else None
    if k in ("For", "While", "Do", "RangeFor", "Switch"):
        return b if not any(x.get("k") == "Return" for x in walk_ast(b)) else None
    out = {}
    for n, x in b.items():
        y = as_continue(x, top) if isinstance(x, (dict, list)) else x
        if y is None and x is not None:
            return None
        out[n] = y
    return out


def walk_ast(b):
    if isinstance(b, dict):
        yield b
        for x in b.values():
            yield from walk_ast(x)
    elif isinstance(b, list):
        for x in b:
            yield from walk_ast(x)


def distance(x, y):
    """y - x, common addends left out"""
    d = op("-", y, x)
    if d.k != "op" or d.a[0] != "-":
        return d
    ys = addends(y)
    for a in addends(x):
        if a not in ys:
            return d
        ys.remove(a)
    if not ys or ys[0][0] < 0:
        return d if ys else INT(0)
    r = ys[0][1]
    for sg, z in ys[1:]:
        r = op("+" if sg > 0 else "-", r, z)
    if d in UNSIGNED or d in INTT:
        UNSIGNED.add(r)
    return r


def addends(t, sign=1):
    if t.k == "op" and t.a[0] == "+":
        return addends(t.a[1], sign) + addends(t.a[2], sign)
    if t.k == "op" and t.a[0] == "-":
        return addends(t.a[1], sign) + addends(t.a[2], -sign)
    if t.k == "op" and t.a[0] == "*":
        # distribute over sums
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.k == "op" and x.a[0] in "+-":
                return [(s, op("*", z, y)) for s, z in addends(x, sign)]
    return [(sign, t)]


def factors(t):
    if t.k == "op" and t.a[0] == "*":
        return factors(t.a[1]) + factors(t.a[2])
    return [t]


def moves_with(idx, bv):
    """different values of bv give different positions"""
    for c in (idx.a if idx.k == "tup" else (idx,)):
        k = 0
        for s, t in addends(c):
            fs = factors(t)
            if bv in fs:
                fs.remove(bv)
                if any(contains(f, bv) for f in fs) or not all(f.k == "int" and f.a[0] or f.k in ("nrows", "ncols", "size", "init") for f in fs):
                    k = 2
                    break
                k += 1
            elif contains(t, bv):
                k = 2
                break
        if k == 1:
            return True
    return False


def split_flat(i, nr):
    """column major position i = A*nr + B -> (row B, column A)"""
    A, B = [], []
    for s, t in addends(i):
        fs = factors(t)
        if nr in fs:
            fs.remove(nr)
            r = INT(1)
            for x in fs:
                r = x if r is INT(1) else op("*", r, x)
            A.append((s, r))
        else:
            B.append((s, t))

    def total(l):
        r = None
        for s, t in l:
            if r is None:
                r = t if s > 0 else mk("un", "-", t) if t.k != "int" else INT(-t.a[0])
            else:
                r = op("+" if s > 0 else "-", r, t)
        return INT(0) if r is None else r
    return mk("tup", total(B), total(A))


# output positions, input positions
LAPACK = {"dpotrf_": ((2, 4), range(4)), "dgetrf_": ((2, 4, 5), range(4)), "dgetri_": ((1, 4, 6), range(4)), "dgetrs_": ((6, 8), range(8))}


def ename(t):
    return t.a[0].rsplit("::", 1)[-1] if t.k == "enum" else None


def iszero(t):
    return t is INT(0) or t.k == "flt" and float(t.a[0]) == 0


def scaled(c, t):
    return t if c is INT(1) or c.k == "flt" and float(c.a[0]) == 1 else op("*", c, t)


def same_dim(a, b):
    return a is b


def flat_range(off, n, nr, bv, node, I):
    """flat range [off, off+n) of a matrix as row/column ranges: whole columns, or part of one column"""
    st, en = split_flat(off, nr), split_flat(op("+", off, n), nr)
    if st.a[0] is INT(0) and en.a[0] is INT(0):
        b2 = mk("bv", mk("callid", *bv.a[0].a, 2))
        UNSIGNED.add(b2)
        cols = op("-", en.a[1], st.a[1])
        c = op("+", st.a[1], bv) if st.a[1] is not INT(0) else bv
        if cols is INT(1):
            return (mk("rng", b2, INT(0), nr),), mk("tup", b2, st.a[1]), b2
        return (mk("rng", bv, INT(0), cols), mk("rng", b2, INT(0), nr)), mk("tup", b2, c), op("+", op("*", bv, nr), b2)
    ln = split_flat(n, nr)
    if ln.a[1] is INT(0):
        return (mk("rng", bv, INT(0), n),), mk("tup", op("+", st.a[0], bv) if st.a[0] is not INT(0) else bv, st.a[1]), bv
    return None


def segments(t, lv):
    """element writes turning lv into t: [(extra ranges, condition, index, value)] in order, or None"""
    if t is lv:
        return []
    if t.k == "upd":
        b = segments(t.a[0], lv)
        return None if b is None else b + [((), TRUE, t.a[1], t.a[2])]
    if t.k == "fill":
        b = segments(t.a[0], lv)
        return None if b is None else b + [(s.a[0], s.a[1], s.a[2], s.a[3]) for s in t.a[1]]
    if t.k == "ite":
        a, b = segments(t.a[1], lv), segments(t.a[2], lv)
        if a is None or b is None:
            return None
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        return (a[:n] + [(v, op("&&", t.a[0], c), i, x) for v, c, i, x in a[n:]]
                + [(v, op("&&", neg(t.a[0]), c), i, x) for v, c, i, x in b[n:]])
    return None


def monotone(n, l):
    if n is l:
        return True
    if n.k == "op" and n.a[0] == "+" and n.a[1] is l and n.a[2].k == "int" and n.a[2].a[0] >= 0:
        return True
    if n.k == "ite":
        return monotone(n.a[1], l) and monotone(n.a[2], l)
    if n.k == "phi":
        return all(monotone(x, l) for x in n.a)
    return False


SINTS = {"int", "long", "const int", "short", "long long", "bool"}
UNS = {"unsigned int", "unsigned long", "size_t", "unsigned char", "unsigned short", "unsigned long long", "const unsigned int"}


class _Lams:
    def __init__(self):
        self.l = []
        self.ix = {}

    def add(self, node, frame):
        k = (id(node), frame["chain"][-1])
        if k in self.ix:
            i = self.ix[k]
            self.l[i] = (node, frame)
            return i
        self.l.append((node, frame))
        self.ix[k] = len(self.l) - 1
        return len(self.l) - 1

    def get(self, i):
        return self.l[i]


LAMS = _Lams()
