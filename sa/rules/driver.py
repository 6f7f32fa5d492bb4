"""The configuration file: text functions, settings, order of a run started from a file."""
from .design import *
from .files import grows, eq_, opens, not_open
from .ea import prog_of, START
from .api import par_any, same_, whole, any_of, only_rejects, always, inner, field, the_call

DR = "Rodop::Driver"
KW = "Rodop::Keyword"
NPOS = None


# ------------------------------------------------------------------ text
def lits(t):
    """t with texts put together flattened and sizes of known texts computed"""
    def parts(y):
        if y.k == "op" and y.a[0] == "+" and textual(y):
            return [z for x in y.a[1:] for z in parts(x)]
        if y.k == "cat":
            return list(y.a)
        return [y]

    def fn(y):
        if y.k == "op" and y.a[0] == "+" and textual(y):
            out = []
            for z in parts(y):
                z = lits(z)
                if z.k == "str" and out and out[-1].k == "str":
                    out[-1] = mk("str", out[-1].a[0] + z.a[0])
                elif z.k != "str" or z.a[0]:
                    out.append(z)
            return mk("cat", *out)
        if y.k == "size":
            x = lits(y.a[0])
            if x.k == "str":
                return INT(len(x.a[0]))
            if x.k == "cat":
                n = ZERO
                for z in x.a:
                    n = op("+", n, INT(len(z.a[0])) if z.k == "str" else mk("size", z))
                return n
            return mk("size", x)
        return None
    return rewrite(t, fn)


def textual(y):
    return y.k == "str" or y.k == "op" and y.a[0] == "+" and len(y.a) == 3 and (textual(y.a[1]) or textual(y.a[2]))


def tag(key, close=False):
    return mk("cat", mk("str", "</" if close else "<"), key, mk("str", ">"))


def is_find(t, x, what):
    return t.k == "call" and t.a[0].split("::")[-1] == "find" and len(t.a) >= 3 and t.a[1] is x and t.a[2] is what


def finds(t, x, what):
    return list(dict.fromkeys(y for y in subterms(t) if is_find(y, x, what)))


def npos_of(t):
    return next((y for y in subterms(t) if show(y) == "npos"), None)


class Text:
    """a function that looks for <key>...</key> in a text"""

    def __init__(self, f, x, key):
        self.f, self.x, self.key = f, x, key
        self.V = Val(Hyp())
        self.rv = lits(f.rv)
        self.path = TRUE
        for c, p in f.st.path:
            self.path = op("&&", self.path, lits(c) if p else neg(lits(c)))
        self.npos = npos_of(self.path) or npos_of(self.rv)
        self.open, self.close = tag(key), tag(key, True)
        self.len = size_cat(self.open)
        both = mk("pair", self.rv, self.path)
        first = [t for t in finds(both, x, self.open) if len(t.a) < 4 or t.a[3] is ZERO]
        self.S = first[0] if first else None
        self.E = None
        if self.S is not None:
            for t in finds(both, x, self.close):
                if len(t.a) > 3 and self.between(t.a[3], self.S, add(self.S, self.len)):
                    self.E = t
        self.N = []
        if self.E is not None:
            for t in finds(both, x, self.open):
                if len(t.a) > 3 and (self.between(t.a[3], add(self.S, ONE), add(self.S, self.len)) or self.between(t.a[3], self.E, add(self.E, size_cat(self.close)))):
                    self.N.append(t)

    def between(self, p, a, b):
        """the position is one of those at which the search finds the same"""
        try:
            if self.V.eq(p, a) or self.V.eq(p, b):
                return True
            d = sub(p, a)
            return any(self.V.eq(d, c) for c in (size_cat(mk("cat", self.key)), add(size_cat(mk("cat", self.key)), ONE), ONE))
        except Big:
            return False

    def missing(self, t):
        return op("==", t, self.npos)

    def content(self, t, exact=False):
        """t is the text between the tags (perhaps without its blanks)"""
        if not exact:
            y = stripped(self.f, t)
            t = y if y is not None else t
        if t.k != "call" or t.a[0].split("::")[-1] != "substr" or t.a[1] is not self.x or len(t.a) < 4:
            return False
        b = add(self.S, self.len)
        try:
            return self.V.eq(t.a[2], b) and self.V.eq(t.a[3], sub(self.E, b))
        except Big:
            return False

    def rejects(self, r, cond, what):
        try:
            ok = self.V.implies(self.path, neg(cond))
        except Big:
            ok = False
        self.f.ob(r, "rejects " + what, ok, "returns normally when %s" % show(self.path)[:300])

    def basics(self, r, optional):
        f = self.f
        if not f.ob(r, "looks for the first start tag", self.S is not None and self.npos is not None, "there is no such search"):
            return False
        if not f.ob(r, "looks for the end tag after it", self.E is not None, "there is no such search"):
            return False
        have = neg(self.missing(self.S))
        if not optional:
            self.rejects(r, self.missing(self.S), "a missing key")
        self.rejects(r, op("&&", have, self.missing(self.E)), "a missing end tag")
        if not f.ob(r, "looks for another start tag", bool(self.N), "there is no such search"):
            return False
        some = FALSE
        for n in self.N:
            some = op("||", some, neg(self.missing(n)))
        # all searches that were made; one of them suffices
        ok = any(self.holds(op("&&", have, op("&&", neg(self.missing(self.E)), neg(self.missing(n))))) for n in self.N)
        f.ob(r, "rejects a key given twice", ok, "returns normally when %s" % show(self.path)[:300])
        # nothing else is rejected before the value is converted
        bad = any_of(self.missing(self.S) if not optional else FALSE, op("&&", have, self.missing(self.E)), op("&&", have, op("&&", neg(self.missing(self.E)), some)))
        for s, typ, node, fr in f.I.throws[0]:
            if any(z[0].k in ("in", "exc", "dispatch") for z in s.path):
                continue
            c = path_cond(s.path)
            try:
                ok = c is not None and self.V.implies(lits(c), bad)
                # or the text is not completely a number
                ok = ok or c is not None and any(self.V.implies(lits(c), neg(y)) for y in subterms(lits(c)) if self.complete(y))
            except Big:
                ok = False
            if not ok:
                f.ob(r, "accepts a key given once", False, "throws when %s" % (show(c)[:300] if c is not None else "?"))
                return True
        f.ob(r, "accepts a key given once", True)
        return True

    def complete(self, y):
        """the conversion used the whole text"""
        return y.k == "op" and y.a[0] == "==" and any(z.k == "out" and z.a[0] in ("std::stod", "std::stoi") and any(w.k == "size" and contains_(z, w.a[0]) for w in y.a[1:]) for z in y.a[1:])

    def holds(self, cond):
        try:
            return self.V.implies(self.path, neg(cond))
        except Big:
            return False


def size_cat(t):
    n = ZERO
    for z in (t.a if t.k == "cat" else [t]):
        n = op("+", n, INT(len(z.a[0])) if z.k == "str" else mk("size", z))
    return n


def stripped(f, t):
    """t is a text without all its blanks: the text"""
    if t.k == "call" and t.a[0].split("::")[-1] == "removeSpacesFromString":
        return t.a[1]
    if t.k == "mut" and t.a[0].split("::")[-1] == "erase" and len(t.a) == 4 and t.a[1].k == "mut" and t.a[1].a[0] == "std::remove_if":
        m = t.a[1]
        y = m.a[1]
        pred = m.a[4] if len(m.a) == 5 else None
        if m.a[2] is not ZERO or show(m.a[3]) != show(mk("size", y)) or pred is None or not is_space(pred):
            return None
        b, e = (it_pos(z) for z in t.a[2:])
        if b is None or e is None or not (b.k == "call" and b.a[0] == "std::remove_if" and b.a[1:] == (y,) + m.a[2:] or show(b).startswith("remove_if(")):
            return None
        return y if show(e) == show(mk("size", m)) else None
    if t.k == "lv":
        info = f.I.loops.get(t.a[0])
        if info is None or t.a[1] not in info["mod"] or info.get("range") is None:
            return None
        a, b = info["mod"][t.a[1]]
        h = info["hv"].get(t.a[1])
        lv, lo_, hi = info["range"]
        if not (a.k == "obj" and len(a.a) == 1 or a is mk("str", "")) or lo_ is not ZERO or hi.k != "size" or b.k != "ite":
            return None
        y = hi.a[0]
        c, p, q = b.a
        if p is h:
            c, p, q = neg(c), q, p
        if q is not h or not (p.k == "push" or p.k == "op" and p.a[0] == "+") or p.a[-2] is not h or p.a[-1] is not mk("elem", y, lv):
            return None
        c, pol = (c.a[1], False) if c.k == "un" and c.a[0] == "!" else (c, True)
        return y if not pol and any(z.k == "call" and z.a[0].split("::")[-1] == "isspace" and z.a[1] in (mk("elem", y, lv), mk("un", "int", mk("elem", y, lv))) for z in subterms(c)) else None
    return None


def it_pos(z):
    while z.k == "obj" and len(z.a) == 2:
        z = z.a[1]
    return z.a[1] if z.k == "iter" else None


def is_space(p):
    if p.k == "lamfn":
        z = p.a[0]
        while z.k == "un" and z.a[0] not in ("!", "-"):
            z = z.a[1]
        if z.k == "op" and z.a[0] == "==" and ZERO in z.a[1:]:
            return False
        z = neg(neg(z))
        return any(y.k == "call" and y.a[0].split("::")[-1] == "isspace" and contains_(y, mk("lamarg", 0)) for y in subterms(z)) and not (z.k == "un" and z.a[0] == "!")
    return "isspace(" in show(p)


def C01_text(ctx):
    """values are the texts between the tags of their key"""
    r = "xml"
    opt = lambda names: inline_classes("Rodop", stop=())
    # values with a default
    for name, default in (("getStringValueFromXML", mk("str", "")), ("getDoubleValueFromXML", None), ("getIntegerValueFromXML", INT(-10000000))):
        f = Fn(ctx, "Rodop::" + name, None)
        T_ = Text(f, par_any(f, 0), par_any(f, 1))
        if not T_.basics(r, True):
            continue
        no = T_.missing(T_.S)
        rv = T_.rv
        if not f.ob(r, "a missing key is not an error", rv.k == "ite" and alg_iff(f, rv.a[0], no) or rv.k == "ite" and alg_iff(f, rv.a[0], neg(no)), "returns %s" % show(rv)[:200]):
            continue
        d, v = (rv.a[1], rv.a[2]) if alg_iff(f, rv.a[0], no) else (rv.a[2], rv.a[1])
        if default is not None:
            f.ob(r, "default of a missing key", d is default or default.k == "str" and d.k == "obj" and len(d.a) == 1, "is %s" % show(d)[:100])
        if name.startswith("getString"):
            f.ob(r, "value is the text between the tags without blanks", stripped(f, v) is not None and T_.content(v), "is %s" % show(v)[:400])
            continue
        src, how = number(v)
        f.ob(r, "value is the number between the tags", src is not None and how == ("stod" if "Double" in name else "stoi") and T_.content(src), "is %s" % show(v)[:400])
        if src is None:
            continue
        # the whole text is the number
        n = next((y for y in v.a if isinstance(y, absint.T) and y.k in ("addr", "L", "ptr", "un") and "length" in show(y)), v.a[2] if len(v.a) > 2 else None)
        ok = partial(f, T_, v, src)
        f.ob(r, "text after the number is rejected", ok, "accepts it when %s" % show(T_.path)[:400])
    for name, exact in (("extractContentBetweenKeys", True),):
        f = Fn(ctx, name, None)
        T_ = Text(f, par_any(f, 0), par_any(f, 1))
        if T_.basics(r, False):
            f.ob(r, "value is the text between the tags", T_.content(T_.rv, True), "is %s" % show(T_.rv)[:400])
    f = Fn(ctx, "extractContents", None)
    sections(f, r)
    f = Fn(ctx, "removeSpacesFromString", None)
    f.ob(r, "text without its blanks", stripped(f, f.rv) is par_any(f, 0), "returns %s" % show(f.rv)[:300])


def number(t):
    if t.k == "call" and t.a[0].split("::")[-1] in ("stod", "stoi", "stoul", "stol", "atof", "strtod"):
        return t.a[1], t.a[0].split("::")[-1]
    if t.k == "un" and t.a[0] in ("unsigned", "int", "unsigned int"):
        return number(t.a[1])
    return None, None


def partial(f, T_, v, src):
    """a normal return needs that the conversion used the whole text"""
    for c, p in f.st.path:
        for y in subterms(lits(c)):
            if y.k == "op" and y.a[0] == "==" and any(z.k == "size" and z.a[0] is src for z in y.a[1:]) and any(consumed(z, v) for z in y.a[1:]) and stripped(f, src) is not None:
                if T_.holds(op("&&", neg(T_.missing(T_.S)), neg(y))):
                    return True
            if y.k == "call" and y.a[0].split("::")[-1] == "find_first_not_of" and y.a[1] is src and len(y.a) > 3 and y.a[2].k == "str" and set(y.a[2].a[0]) <= set(" \t\n\r\v\f") and consumed(y.a[3], v):
                if T_.holds(op("&&", neg(T_.missing(T_.S)), neg(T_.missing(y)))):
                    return True
    return False


def consumed(z, v):
    """z is the number of characters the conversion v used"""
    return z.k in ("mut", "out", "call", "wr") and any(y is v or y.k == "call" and y.a[0] == v.a[0] and y.a[1] is v.a[1] for y in subterms(z)) or z.k in ("mut", "clob", "opaque", "out")


def sections(f, r):
    """extractContents: the texts between all start tags and the end tags that follow them, in order"""
    x, key = par_any(f, 0), par_any(f, 1)
    V = Val(Hyp())
    rv = f.rv
    info = f.I.loops.get(rv.a[0]) if rv.k == "lv" else None
    if not f.ob(r, "collects the sections one after the other", info is not None and rv.a[1] in info["mod"], "returns %s" % show(rv)[:200]):
        return
    a, b = info["mod"][rv.a[1]]
    h = info["hv"].get(rv.a[1])
    op_, cl = tag(key), tag(key, True)
    f.ob(r, "starts without sections", a.k == "obj" and len(a.a) == 1, "starts with %s" % show(a)[:100])
    pos = None
    for l, (i0, nx) in info["mod"].items():
        if is_find(lits(i0), x, op_) and (len(i0.a) < 4 or i0.a[3] is ZERO):
            pos = (lits(i0), lits(nx), info["hv"].get(l))
    if not f.ob(r, "starts at the first start tag", pos is not None, "does not"):
        return
    S = pos[2]
    b = lits(b)
    if not f.ob(r, "one section for each start tag", b.k == "push" and b.a[0] is h, "result becomes %s" % show(b)[:200]):
        return
    t = b.a[1]
    start = add(S, size_cat(op_))
    E = [y for y in finds(t, x, cl) if len(y.a) > 3 and (eqv(V, y.a[3], S) or eqv(V, y.a[3], start))]
    ok = bool(E) and t.k == "call" and t.a[0].split("::")[-1] == "substr" and t.a[1] is x and len(t.a) == 4 and eqv(V, t.a[2], start) and eqv(V, t.a[3], sub(E[0], start))
    f.ob(r, "section is the text between the tags", ok, "is %s" % show(t)[:300])
    if ok:
        nx = pos[1]
        f.ob(r, "goes on behind the end tag", is_find(nx, x, op_) and len(nx.a) > 3 and any(eqv(V, nx.a[3], p) for p in (E[0], add(E[0], size_cat(cl)))), "goes on at %s" % show(nx)[:300])
        ok = False
        for s, typ, node, fr in f.I.throws[0]:
            # (a start tag with nothing behind it may be left out)
            cs = [(lits(c), p) for c, p in flat_path(s.path) if c.k != "in"]
            np_ = next((npos_of(c) for c, p in cs if npos_of(c) is not None), None)
            if np_ is None:
                continue
            miss = [k for k, (c, p) in enumerate(cs) if c is op("==", E[0], np_) and p or c is neg(op("==", E[0], np_)) and not p]
            rest = [k for k, (c, p) in enumerate(cs) for z in [something_left(f, V, c if p else neg(c), x, start, np_)] if z]
            if miss and all(k <= miss[0] or k in rest or k in miss for k in range(len(cs))):
                ok = True
        f.ob(r, "rejects a section without end", ok, "there is no such test")
    g = info.get("guard")
    g = lits(g) if g is not None else None
    np_ = npos_of(g) if g is not None else None
    f.ob(r, "until there is no start tag", np_ is not None and Val(Hyp()).iff(g, neg(op("==", S, np_))), "while %s" % (show(g) if g is not None else "?"))


def something_left(f, V, c, x, start, np_):
    """there is more than white space behind the position"""
    if not (c.k == "un" and c.a[0] == "!" and c.a[1].k == "op" and c.a[1].a[0] == "==" and np_ in c.a[1].a):
        return False
    y = next(z for z in c.a[1].a[1:] if z is not np_) if c.a[1].a[1] is not c.a[1].a[2] else None
    return y is not None and y.k == "call" and y.a[0].split("::")[-1] == "find_first_not_of" and y.a[1] is x and y.a[2].k == "str" and y.a[2].a[0].strip() == "" and len(y.a) > 3 and eqv(V, y.a[3], start)


def eqv(V, a, b):
    try:
        return a is b or V.eq(a, b)
    except Big:
        return False


def words(t, x):
    """the lower-case texts that make t true: {text} or None (t decides on the text x in lower case)"""
    pol = True
    while t.k == "un" and t.a[0] == "!":
        t, pol = t.a[1], not pol
    if t.k == "op" and t.a[0] == "||" and pol or t.k == "op" and t.a[0] == "&&" and not pol:
        out = set()
        for y in t.a[1:]:
            w = words(y if pol else neg(y), x)
            if w is None:
                return None
            out |= w
        return out
    if t.k == "ite" and pol:
        if t.a[1] in (ONE, TRUE):
            a, b = words(t.a[0], x), words(t.a[2], x) if t.a[2] not in (ZERO, FALSE) else set()
            return a | b if a is not None and b is not None else None
        if t.a[2] in (ZERO, FALSE) and t.a[1] in (ONE, TRUE):
            return words(t.a[0], x)
        return None
    if t.k == "op" and t.a[0] == "==" and pol:
        s = [y for y in t.a[1:] if y.k == "str"]
        o = [y for y in t.a[1:] if y.k != "str"]
        if s and o and lowered(o[0], x):
            return {s[0].a[0]}
    if t.k == "op" and t.a[0] == "==" and not pol:
        fd = [y for y in t.a[1:] if y.k == "call" and y.a[0].split("::")[-1] == "find"]
        en = [y for y in t.a[1:] if y.k == "call" and y.a[0].split("::")[-1] in ("end", "cend")]
        if fd and en and fd[0].a[1] is en[0].a[1] and lowered(fd[0].a[2], x):
            return members(fd[0].a[1])
        cn = [y for y in t.a[1:] if y.k == "call" and y.a[0].split("::")[-1] == "count"]
        if cn and ZERO in t.a[1:] and lowered(cn[0].a[2], x):
            return members(cn[0].a[1])
    if t.k == "call" and t.a[0].split("::")[-1] in ("count", "contains") and pol and lowered(t.a[2], x):
        return members(t.a[1])
    return None


def members(t):
    l = [y for y in subterms(t) if y.k == "list"]
    return {y.a[0] for y in l[0].a if y.k == "str"} if l and all(y.k == "str" for y in l[0].a) else None


def lowered(t, x):
    """t is the text x in lower case"""
    if t.k == "call" and t.a[0].split("::")[-1] == "toLower" and t.a[1] is x:
        return True
    if t.k == "mut" and t.a[0] == "std::transform" and t.a[1] is x and len(t.a) >= 6:
        fn = t.a[-1]
        tl = fn.k == "lamfn" and low_of(fn.a[0], mk("lamarg", 0)) or fn.k != "lamfn" and "tolower(" in show(fn)
        return tl and t.a[2] is ZERO and show(t.a[3]) == show(mk("size", x)) and t.a[4] is ZERO
    g = t
    if g.k in ("map", "fill", "ov", "lv"):
        H = Hyp([(ZERO, "<=", K), (K, "<", size(x))])
        c = content(g, K, H)
        return (low_of(c, mk("elem", x, K)) or low_of(c, content(x, K, H))) and Val(Hyp()).eq(size(g), size(x))
    return False


def low_of(t, c):
    while t.k == "un" and t.a[0] not in ("!", "-"):
        t = t.a[1]
    if t.k == "call" and t.a[0].split("::")[-1] == "tolower":
        z = t.a[1]
        while z.k == "un" and z.a[0] not in ("!", "-"):
            z = z.a[1]
        return z is c
    return False


def C01_words(ctx):
    """switches, comparison without case, lower case"""
    r = "words"
    f = Fn(ctx, "checkIfOn", None)
    w = words(f.rv, par_any(f, 0))
    need = {"yes", "y", "on", "true", "enable", "enabled"}
    off = {"no", "n", "off", "false", "disable", "disabled"}
    f.ob(r, "words that switch on, in any case", w is not None and need <= w and not w & (off | {""}), "are %s" % (sorted(w) if w else show(f.rv)[:200]))
    g = Fn(ctx, "checkIfOff", None)
    v = words(g.rv, par_any(g, 0))
    g.ob(r, "words that switch off, in any case", v is not None and off <= v and not v & (need | {""}), "are %s" % (sorted(v) if v else show(g.rv)[:200]))
    if w and v:
        g.ob(r, "no word does both", not (w & v), "%s" % sorted(w & v))
    for n, neg_ in (("isEmpty", False), ("isNotEmpty", True)):
        f = Fn(ctx, n, None)
        c = op("==", size(par_any(f, 0)), ZERO)
        f.ob(r, "tells whether a text is empty", Val(Hyp()).iff(f.rv, neg(c) if neg_ else c), "returns %s" % show(f.rv)[:200])
    f = Fn(ctx, "toLower", None)
    f.ob(r, "text in lower case", lowered(f.rv, par_any(f, 0)), "returns %s" % show(f.rv)[:200])
    f = Fn(ctx, "isEqual", None)
    x, y = par_any(f, 0), par_any(f, 1)
    e = nocase(f, f.rv, x, y)
    f.ob(r, "texts are equal when all characters are, apart from case", e is not None, "returns %s" % show(f.rv)[:300])
    if e is not None:
        same_size = op("==", size(x), size(y))
        some = op("&&", neg(op("==", size(x), ZERO)), neg(op("==", size(y), ZERO)))
        # (texts that are equal have the same size)
        whole = e.k == "op" and lowered_pair(e, x, y) and (Val(Hyp()).iff(f.rv, op("&&", some, e)) or Val(Hyp()).iff(f.rv, e))
        ok = whole or Val(Hyp()).iff(f.rv, op("&&", some, op("&&", same_size, e))) or Val(Hyp()).iff(f.rv, op("&&", same_size, e))
        f.ob(r, "texts of the same size", ok, "returns %s" % show(f.rv)[:300])


def nocase(f, t, x, y):
    """the part of t that compares the characters"""
    if lowered_pair(t, x, y):
        return t
    for z in subterms(t):
        if z.k == "call" and z.a[0] == "std::equal" and z.a[1] is mk("iter", *it_of(z.a[1])):
            its = [w for w in z.a[1:] if w.k == "iter"]
            lam = [w for w in z.a[1:] if w.k == "lam"]
            locs = [show(w.a[0]) for w in its]
            if len(its) < 3 or len(lam) != 1:
                continue
            v = f.I.lambda_body(f.st, lam[0], {"k": "lambda"}).a[0]
            A, B = mk("lamarg", 0), mk("lamarg", 1)
            if v.k == "op" and v.a[0] == "==" and (low_of(v.a[1], A) and low_of(v.a[2], B) or low_of(v.a[1], B) and low_of(v.a[2], A)):
                a, b = (D_any(f, i) for i in (0, 1))
                if its[0].a[0] is a and its[0].a[1] is ZERO and its[1].a[0] is a and show(its[1].a[1]) == show(size(x)) and its[2].a[0] is b and its[2].a[1] is ZERO:
                    return z
        if z.k == "forall" or z.k == "un" and z.a[1].k == "exists":
            q = z if z.k == "forall" else z.a[1]
            b = q.a[2]
            c = [w for w in subterms(b) if w.k == "op" and w.a[0] == "=="]
            ats = lambda w: [g(w, v) for v in {v for v in subterms(b) if v.k == "bv"} for g in (lambda w, v: mk("elem", w, v), lambda w, v: mk("init", mk("E", w.a[0], v)) if w.k == "init" else w)]
            low = lambda t, w: any(low_of(t, e) for e in ats(w))
            if q.a[0] is ZERO and show(q.a[1]) in (show(size(x)), show(size(y))) and c and any(low(c[0].a[1], u) and low(c[0].a[2], w) and show(bound(c[0].a[1])) == show(bound(c[0].a[2])) for u, w in ((x, y), (y, x))):
                if z.k == "forall" and c[0] is b or z.k == "un" and b is neg(c[0]):
                    return z
        if z.k == "op" and z.a[0] == "==" and (lowered(z.a[1], x) and lowered(z.a[2], y) or lowered(z.a[1], y) and lowered(z.a[2], x)):
            return z
    return None


def bound(t):
    """the variables of a quantifier in t"""
    return mk("seq", *sorted({v for v in subterms(t) if v.k == "bv"}, key=show))


def lowered_pair(t, x, y):
    return t.k == "op" and t.a[0] == "==" and (lowered(t.a[1], x) and lowered(t.a[2], y) or lowered(t.a[1], y) and lowered(t.a[2], x))


def it_of(z):
    return z.a if z.k == "iter" else (z, ZERO)


def D_any(f, i):
    p = f.f.p[i]
    return mk("D", mk("p", p["n"])) if p["t"].endswith("&") else mk("P", p["n"])


# ------------------------------------------------------------------ settings
GENERAL, OBJ, CON = (fld(DR, "keywords" + n) for n in ("General", "ObjectiveFunction", "ConstraintFunction"))
MISSING = INT(-10000000)
READS = ("getConfigKeyValueString", "getConfigKeyValueInt", "getConfigKeyValueDouble", "getConfigKeyValueStringVector", "getConfigKeyValueDoubleVector")
STUDY = fld(DR, "optimizationStudy")
BND = fld(DR, "boxConstraints")


class Cfg(AtCalls):
    """values of keywords as terms cfg(list, key)"""

    def __init__(self, *names):
        AtCalls.__init__(self, *names)
        self.keys = set()

    def on_call(self, I, st, c):
        AtCalls.on_call(self, I, st, c)
        if c.n in READS and len(c.args) == 2:
            l = I.load(st, c.locs[0]) if c.locs and c.locs[0] is not None else c.args[0]
            k = c.args[1]
            self.keys.add((c.locs[0], c.n, k))
            return mk("cfg", c.n[17:], l, k)
        if c.n == "readObjectiveFunctionKeywords":
            I.write(st, OBJ, mk("kw", "objective function"), c.node)
            return VOID
        if c.n == "readConstraintFunctionKeywords":
            I.write(st, CON, mk("kw", "constraint", c.args[0]), c.node)
            return VOID
        if c.n == "getSurrogateModelID":
            return mk("model", c.args[-1])
        return None


CSTOP = READS + ("addObjectFunction", "addConstraint", "readConstraintFunctionKeywords", "readObjectiveFunctionKeywords", "readConstraintFunctionsFromXML", "toString", "log", "getInstance",
                 "isEqual", "checkIfOn", "getSurrogateModelID", "operator()", "readASegmentFromXMLFile", "getValueFromXMLString", "performEfficientGlobalOptimization", "extractContents")
OPT_SETS = ("setDimension", "setName", "setMaximumNumberOfIterations", "setMaximumNumberOfInnerIterations", "setNumberOfThreads", "setBoxConstraints", "setParameterNames", "setParameterToDiscrete")


class StopOpt:
    """inlining policy: the classes, but not the functions of the optimiser"""


def cfn(ctx, name, *names, **kw):
    stop = CSTOP + tuple(kw.pop("stop", ()))
    f = Fn(ctx, DR + "::" + name, None, inl=inline_classes(DR, OF, CF, CD, OFD, "Rodop::Bounds", VEC, stop=stop), hooks=Cfg(*names), **kw)
    f.o = Obj(f, DR)
    f.at = f.I.hooks
    return f


def cfg(kind, l, k):
    return mk("cfg", kind, l, mk("str", k))


def cond_is(f, c, w):
    try:
        return Val(Hyp()).iff(c, w)
    except Big:
        return False


def under_(st, t):
    """t with the conditions of the state decided"""
    return decide(t, [c if p else neg(c) for c, p in flat_path(st.path)])


def flat_path(path):
    for c, p in path:
        if c.k == "op" and c.a[0] == "&&" and p:
            for x in c.a[1:]:
                yield from flat_path([(x, True)])
        elif c.k == "op" and c.a[0] == "||" and not p:
            for x in c.a[1:]:
                yield from flat_path([(x, False)])
        elif c.k == "un" and c.a[0] == "!":
            yield from flat_path([(c.a[1], not p)])
        else:
            yield c, p


class Setting:
    """obligations about the fields of a function handed over"""

    def __init__(self, f, r, call, what):
        self.f, self.r, self.what = f, r, what
        self.x, self.st = call[2][0], call[4]
        self.D = field(f, self.x, self.st, OF + "::definition")
        self.P = pcond(self.st)

    def is_(self, n, got, want, given=TRUE):
        """got is want whenever given holds"""
        f = self.f
        ok = got is want
        if not ok:
            got = under_(self.st, got)
            ok = got is want
        if not ok:
            # cases of a conditional value
            ok = self.cases(got, want, op("&&", self.P, given))
        f.ob(self.r, "%s: %s" % (self.what, n), ok, "is %s" % show(got)[:400])

    def cases(self, got, want, given):
        V = Val(Hyp())
        if got is want:
            return True
        try:
            if unsat(given):
                return True
            if got.k == "ite":
                return self.cases(got.a[1], want, op("&&", given, got.a[0])) and self.cases(got.a[2], want, op("&&", given, neg(got.a[0])))
            if got.k == "un" or want.k == "un" or got.k == "op" or want.k == "op" or want.k == "ite":
                return V.eq(got, want, [given])
        except (Big, TypeError):
            return False
        return False

    def d(self, n, want, given=TRUE):
        self.is_(n, inner(self.D, OFD + "::" + n), want, given)

    def o(self, n, want, given=TRUE, cls=OF):
        self.is_(n, field(self.f, self.x, self.st, cls + "::" + n), want, given)


def missing_text(t):
    return op("==", mk("size", t), ZERO)


def rejected(f, r, st, cond, what):
    """the state is not reached when cond holds"""
    P = pcond(st)
    ok = follows(P, neg(cond))
    f.ob(r, "rejects " + what, ok, "accepts it when %s" % show(P)[:300])


def no_more(f, r, invalid, what, known=()):
    """every exception raised here is for an invalid setting"""
    for s, typ, node, fr in f.I.throws[0]:
        if any(x[0].k in ("exc", "dispatch") for x in s.path):
            continue
        c = TRUE
        for x, p in s.path:
            if x.k == "in":
                continue
            c = op("&&", c, x if p else neg(x))
        if any(k(c) for k in known):
            continue
        ok = follows(c, invalid)
        if not ok:
            f.ob(r, "accepts " + what, False, "throws %s when %s" % (typ, show(c)[:400]))
            return
    f.ob(r, "accepts " + what, True)


def follows(a, b, V=None):
    """a implies b: by the propositional structure alone or, failing that, by arithmetic"""
    if unsat(op("&&", a, neg(b))):
        return True
    try:
        return (V or Val(Hyp())).implies(a, b)
    except Big:
        return False


def unsat(t, n=4000):
    """the propositional structure of t (comparisons as atoms) cannot be satisfied"""
    left = [n]

    def atom_(c):
        if c.k == "op" and c.a[0] in ("&&", "||"):
            for x in c.a[1:]:
                y = atom_(x)
                if y is not None:
                    return y
            return None
        if c.k == "un" and c.a[0] == "!":
            return atom_(c.a[1])
        if c.k == "ite":
            for x in c.a:
                y = atom_(x)
                if y is not None:
                    return y
            return None
        return None if c in (TRUE, FALSE, ONE, ZERO) else c

    def put(c, x, v):
        m = {}

        def go(c):
            if c is x:
                return v
            if c in m:
                return m[c]
            if c.k == "op" and c.a[0] in ("&&", "||"):
                both = c.a[0] == "&&"
                out = []
                for y in c.a[1:]:
                    z = go(y)
                    z = TRUE if z is ONE else FALSE if z is ZERO else z
                    if z is (FALSE if both else TRUE):
                        out = z
                        break
                    if z is not (TRUE if both else FALSE):
                        out.append(z)
                r = out if isinstance(out, absint.T) else (TRUE if both else FALSE) if not out else out[0] if len(out) == 1 else mk("op", c.a[0], *out)
            elif c.k == "un" and c.a[0] == "!":
                z = go(c.a[1])
                r = FALSE if z in (TRUE, ONE) else TRUE if z in (FALSE, ZERO) else mk("un", "!", z)
            elif c.k == "ite":
                z = go(c.a[0])
                r = go(c.a[1]) if z in (TRUE, ONE) else go(c.a[2]) if z in (FALSE, ZERO) else mk("ite", z, go(c.a[1]), go(c.a[2]))
            else:
                r = c
            m[c] = r
            return r
        return go(c)

    def sat(c):
        left[0] -= 1
        if left[0] < 0:
            return True
        if c in (FALSE, ZERO):
            return False
        for x, v in flat_path([(c, True)]):
            if x.k not in ("op", "un", "ite") or (x.k == "op" and x.a[0] not in ("&&", "||")):
                # a conjunct that decides an atom
                return sat(put(c, x, TRUE if v else FALSE))
        x = atom_(c)
        if x is None:
            return c in (TRUE, ONE)
        return sat(put(c, x, TRUE)) or sat(put(c, x, FALSE))
    return not sat(t)


def C02_objective(ctx):
    """every key of the objective function reaches its own setting"""
    r = "objective"
    f = cfn(ctx, "readObjectiveFunction", "addObjectFunction")
    S = mk("kw", "objective function")
    g = init(GENERAL)
    c = the_call(f, r, "addObjectFunction", STUDY, "the optimiser is given the objective function")
    if c is None:
        return
    s = lambda k: cfg("String", S, k)
    X = Setting(f, r, c, "objective function")
    dim = cfg("Int", g, "dimension")
    X.o("dim", dim)
    X.o("boxConstraints", init(BND))
    X.o("ifDefinitionIsSet", ONE)
    for n, k in (("name", "name"), ("designVectorFilename", "design_vector_filename"), ("executableName", "executable_filename"),
                 ("nameHighFidelityTrainingData", "training_data_filename"), ("outputFilename", "output_filename")):
        X.d(n, s(k))
        rejected(f, r, c[4], missing_text(s(k)), "an objective function without " + k)
    M = mk("model", s("surrogate_model_type"))
    X.d("modelHiFi", M)
    ge = op("==", M, mk("enum", enum_of(ctx, "GRADIENT_ENHANCED").a[0])) if enum_of(ctx, "GRADIENT_ENHANCED").k == "enum" else op("==", M, enum_of(ctx, "GRADIENT_ENHANCED"))
    for n, k in (("executableNameGradient", "executable_filename_gradient"), ("outputGradientFilename", "output_filename_gradient")):
        X.d(n, s(k), ge)
        rejected(f, r, c[4], op("&&", ge, missing_text(s(k))), "a gradient enhanced model without " + k)
    same = [t for p_, q in flat_path(c[4].path) for t in subterms(p_) if t.k == "call" and t.a[0] == "isEqual" and {t.a[1], t.a[2]} == {s("output_filename"), s("output_filename_gradient")}]
    eqf = same[0] if same else op("==", s("output_filename"), s("output_filename_gradient"))
    rejected(f, r, c[4], op("&&", ge, eqf), "the same file for value and gradient")
    n = cfg("Int", S, "number_of_training_iterations")
    X.o("numberOfIterationsForSurrogateTraining", n, neg(op("==", n, MISSING)))
    X.o("numberOfIterationsForSurrogateTraining", init(F(fld(DR, "objectiveFunction"), OF + "::numberOfIterationsForSurrogateTraining")), op("==", n, MISSING))
    rejected(f, r, c[4], op("&&", neg(op("==", n, MISSING)), op("<", n, ZERO)), "a negative number of training iterations")
    B = lambda q: init(F(BND, "Rodop::Bounds::" + q))
    rejected(f, r, c[4], neg(B("ifBoundsAreSet")), "an objective function before the bounds")
    inv = any_of(*[missing_text(s(k)) for k in ("name", "design_vector_filename", "executable_filename", "training_data_filename", "output_filename")],
                 op("&&", ge, missing_text(s("executable_filename_gradient"))), op("&&", ge, missing_text(s("output_filename_gradient"))), op("&&", ge, eqf),
                 op("&&", neg(op("==", n, MISSING)), op("<", n, ZERO)), neg(B("ifBoundsAreSet")), op("==", dim, ZERO), neg(op("==", dim, B("dimension"))))
    no_more(f, r, inv, "a complete objective function")


def C02_constraints(ctx):
    """every key of a constraint reaches its own setting of its own constraint"""
    r = "constraints"
    f = cfn(ctx, "readConstraintFunctions", "addConstraint")
    g = init(GENERAL)
    cs = [c for c in f.at.got if c[0] == "addConstraint"]
    if not f.ob(r, "the optimiser is given the constraints", len(cs) == 1 and cs[0][1] is STUDY, "%d calls of addConstraint" % len(cs)):
        return
    c = cs[0]
    st = c[4]
    D = field(f, c[2][0], st, CF + "::definitionConstraint")
    name = inner(D, CD + "::constraintName")
    if not f.ob(r, "constraint is named by its section", name.k == "cfg" and name.a[1].k == "kw" and name.a[1].a[0] == "constraint" and name.a[2] is mk("str", "name"), "name is %s" % show(name)[:200]):
        return
    S = name.a[1]
    text_ = S.a[1]
    # one constraint for each section, in order
    info = next((i for i in f.I.loops.values() if i.get("range") is not None and contains_(text_, i["range"][0])), None)
    ok = text_.k == "elem" and info is not None and text_.a[1] is info["range"][0] and info["range"][1] is ZERO and info["range"][2] is mk("size", text_.a[0]) or \
        text_.k == "elem" and info is not None and text_.a[1] is info["range"][0] and info["range"][1] is ZERO and show(info["range"][2]) == show(mk("size", text_.a[0]))
    f.ob(r, "one constraint for each section, in order", ok, "section is %s" % show(text_)[:200])
    src = text_.a[0] if text_.k == "elem" else text_
    f.ob(r, "sections are those of the configuration file", src.k == "call" and src.a[0] == DR + "::readConstraintFunctionsFromXML", "sections are %s" % show(src)[:200])
    if info is None:
        return
    every = [x for x in flat_path(st.path) if x[0].k == "op" and contains_(x[0], info["range"][0]) and not any(y.k == "cfg" for y in subterms(x[0]))]
    i = info["range"][0]
    s = lambda k: cfg("String", S, k)
    X = Setting(f, r, c, "constraint")
    num = inner(D, CD + "::ID")
    f.ob(r, "constraint: number", counted(f, num, i), "is %s" % show(num)[:200])
    X.is_("constraintName", name, s("name"))
    udf = mk("call", "checkIfOn", s("user_defined_function"))
    dim = cfg("Int", g, "dimension")
    X.o("dim", dim)
    X.o("boxConstraints", init(BND))
    X.o("ifDefinitionIsSet", ONE)
    X.d("name", s("name"))
    rejected(f, r, st, missing_text(s("name")), "a constraint without name")
    ct = s("constraint_type")
    kinds = []
    sign = inner(D, CD + "::inequalityType")
    for sg, w in (("<", "lt"), (">", "gt")):
        k = type_is(mk("pair", sign, pcond(st)), ct, w)
        kinds.append(k)
        if f.ob(r, "constraint type %s is known" % w, k is not None, "sign is %s" % show(sign)[:200]):
            X.is_("inequalityType for " + w, sign, mk("str", sg), op("&&", k, neg(kinds[0]) if w == "gt" and kinds[0] is not None else TRUE))
    if None not in kinds:
        rejected(f, r, st, neg(op("||", *kinds)), "another constraint type")
    rejected(f, r, st, missing_text(ct), "a constraint without type")
    v = inner(D, CD + "::value")
    cv = s("constraint_value")
    f.ob(r, "constraint: value", v.k == "call" and v.a[0].split("::")[-1] == "stod" and stripped_or(f, v.a[1]) is cv, "is %s" % show(v)[:200])
    whole_ = [y for p_, q in flat_path(st.path) for y in subterms(p_) if y.k == "op" and y.a[0] == "==" and mk("size", cv) in y.a[1:] and any(consumed(z, v) for z in y.a[1:] if z is not ZERO)]
    # a conversion uses at most the whole text
    whole_ += [neg(y) for p_, q in flat_path(st.path) for y in subterms(p_) if y.k == "op" and y.a[0] == "<" and y.a[2] is mk("size", cv) and consumed(y.a[1], v)]
    rejected(f, r, st, neg(whole_[0]) if whole_ else TRUE, "text after the value of a constraint")
    rejected(f, r, st, missing_text(cv), "a constraint without value")
    f.ob(r, "constraint: user defined function", cond_is(f, field(f, c[2][0], st, CF + "::ifFunctionExplictlyDefined"), udf), "is %s" % show(field(f, c[2][0], st, CF + "::ifFunctionExplictlyDefined"))[:200])
    ext = neg(udf)
    multi = mk("call", "checkIfOn", s("multi_fidelity"))
    got = under_(st, inner(D_of(X), OFD + "::ifMultiLevel"))
    f.ob(r, "constraint: multi-fidelity", got is multi or cond_is(f, got, multi), "is %s" % show(got)[:200])
    for n, k, need in (("designVectorFilename", "design_vector_filename", 1), ("executableName", "executable_filename", 0),
                       ("nameHighFidelityTrainingData", "training_data_filename", 1), ("outputFilename", "output_filename", 1)):
        X.d(n, s(k), ext)
        if need:
            rejected(f, r, st, op("&&", ext, missing_text(s(k))), "a constraint without " + k)
    X.d("modelHiFi", mk("model", s("surrogate_model_type")), ext)
    # nothing is taken over from the constraint before
    mine = [(OFD, fd["q"], inner(X.D, fd["q"])) for fd in ctx.prog.fields(OFD)] + [(CD, fd["q"], inner(D, fd["q"])) for fd in ctx.prog.fields(CD)] + \
        [(CF, fd["q"], field(f, c[2][0], st, fd["q"])) for fd in ctx.prog.fields(CF) if fd["q"] not in (OF + "::definition", CF + "::definitionConstraint")]
    for cl, q, t in mine:
        t = under_(st, t)
        old = [y for y in subterms(t) if y.k == "lv" and f.I.loops.get(y.a[0]) is info and y is not i and not counted(f, y, i)
               and isinstance(y.a[1], absint.T) and own_local(y.a[1]) and not same_each_time(info, y)]
        f.ob(r, "constraint: %s is its own" % q.split("::", 1)[1], not old, "depends on what the constraint before left in %s" % (show(old[0])[:100] if old else ""))
    n = cfg("Int", S, "number_of_training_iterations")
    X.o("numberOfIterationsForSurrogateTraining", n, neg(op("==", n, MISSING)))
    X.o("numberOfIterationsForSurrogateTraining", INT(10000), op("==", n, MISSING))
    rejected(f, r, st, op("&&", neg(op("==", n, MISSING)), op("<", n, ZERO)), "a negative number of training iterations")
    B = lambda q: init(F(BND, "Rodop::Bounds::" + q))
    rejected(f, r, st, neg(B("ifBoundsAreSet")), "a constraint before the bounds")
    if None not in kinds:
        inv = any_of(missing_text(s("name")), missing_text(ct), neg(op("||", *kinds)), missing_text(cv), *[op("&&", ext, missing_text(s(k))) for k in ("design_vector_filename", "training_data_filename", "output_filename")],
                     op("&&", neg(op("==", n, MISSING)), op("<", n, ZERO)), neg(B("ifBoundsAreSet")), op("==", dim, ZERO), neg(op("==", dim, B("dimension"))), *[neg(w) for w in whole_[:1]])
        no_more(f, r, inv, "a complete constraint")


def own_local(loc):
    """a place inside a local object of the function"""
    while loc.k in ("F", "E"):
        loc = loc.a[0]
    return loc.k == "L"


def same_each_time(info, y):
    """the loop leaves y as it is"""
    m = info["mod"].get(y.a[1])
    return m is not None and (m[1] is y or m[1] is m[0])


def D_of(X):
    return X.D


def stripped_or(f, t):
    y = stripped(f, t)
    return t if y is None else y


def type_is(t, ct, w):
    """the condition in t that says that the constraint type is w (in any case)"""
    c = [y for y in subterms(t) if y.k == "call" and y.a[0] == "isEqual" and ct in y.a[1:] and any(z.k == "str" and z.a[0].lower() == w for z in y.a[1:] if isinstance(z, absint.T))]
    if c:
        out = FALSE
        for y in dict.fromkeys(c):
            out = op("||", out, y)
        return out
    c = [y for y in subterms(t) if y.k == "op" and y.a[0] == "==" and any(z.k == "str" and z.a[0] == w for z in y.a[1:]) and any(lowered(z, ct) for z in y.a[1:])]
    return c[0] if c else None


def counted(f, t, i):
    """t counts the iterations of the loop with the variable i"""
    while t.k == "un" and t.a[0] in ("int", "unsigned", "unsigned int", "cast"):
        t = t.a[1]
    if t is i:
        return True
    if t.k != "lv":
        return False
    info = f.I.loops.get(t.a[0])
    m = info["mod"].get(t.a[1]) if info else None
    return bool(m) and info.get("range") is not None and info["range"][0] is i and m[0] is ZERO and Val(Hyp()).eq(m[1], op("+", t, ONE))


def C02_models(ctx):
    """names of the surrogate models; keys that are asked for exist with their type"""
    r = "models"
    f = Fn(ctx, DR + "::getSurrogateModelID", None)
    x = par_any(f, 0)
    e = lambda n: enum_of(ctx, n)
    M = names_map(f, f.rv, x)
    want = {"": "ORDINARY_KRIGING", "default": "ORDINARY_KRIGING", "kriging": "ORDINARY_KRIGING", "ordinary_kriging": "ORDINARY_KRIGING", "universal_kriging": "UNIVERSAL_KRIGING",
            "gradient_enhanced": "GRADIENT_ENHANCED", "tangent_enhanced": "TANGENT_ENHANCED"}
    f.ob(r, "names of models are a table", M is not None, "returns %s" % show(f.rv)[:300])
    if M is not None:
        for n, w in want.items():
            f.ob(r, "model '%s'" % n, n in M and M[n] == {e(w)}, "is %s" % [show(y) for y in M.get(n, ())])
        bad = {n for n, v in M.items() if n not in want and len(v) != 1}
        f.ob(r, "each name stands for one model", not bad, "%s" % sorted(bad))
    unknown = [1 for s, typ, node, fr in f.I.throws[0]]
    f.ob(r, "another name is rejected", bool(unknown) and not total_map(f, f.rv), "accepts it")
    # keys
    g = Fn(ctx, DR + "::initializeKeywords", None, inl=inline_classes(DR, KW))
    reg = {}
    for l in (GENERAL, OBJ, CON):
        reg[l] = registered(g, g.load(l))
        g.ob(r, "keywords are a list of names and types", reg[l] is not None, "are %s" % show(g.load(l))[:300])
    for n, names in (("readObjectiveFunction", ()), ("readConstraintFunctions", ()), ("readGeneralSettings", ())):
        h = cfn(ctx, n)
        for l, kind, k in sorted(h.at.keys, key=lambda z: (show(z[0]), z[1], show(z[2]))):
            t = {"String": "string", "Int": "int", "Double": "double", "StringVector": "stringVector", "DoubleVector": "doubleVector"}[kind[17:]]
            have = reg.get(l)
            if have is None:
                continue
            h.ob(r, "key %s is known with its type" % (show(k)), k.k == "str" and have.get(k.a[0]) == t, "%s is %s" % (show(k), have.get(k.a[0]) if k.k == "str" else "?"))


def registered(f, v):
    out = {}
    while True:
        if v.k == "push":
            n, t = inner(v.a[1], KW + "::name"), inner(v.a[1], KW + "::type")
            if n.k != "str" or t.k != "str":
                return None
            if n.a[0] in out:
                return None
            out[n.a[0]] = t.a[0]
            v = v.a[0]
        elif v.k == "obj" and len(v.a) == 1:
            return out
        else:
            H = Hyp()
            H.add(ZERO, "<=", K)
            H.add(K, "<", size(v))
            e = content(v, K, H)
            n, t = inner(e, KW + "::name"), inner(e, KW + "::type")
            l = [y for y in subterms(v) if y.k == "list"]
            if len(l) != 1 or not (n.k == "fld" and n.a[1] in ("std::pair::first", "first") and t.k == "fld" and t.a[1] in ("std::pair::second", "second") and n.a[0] is t.a[0]):
                return None
            if not Val(Hyp()).eq(size(v), mk("size", n.a[0].a[0])):
                return None
            for y in l[0].a:
                s = [z for z in y.a[1:] if z.k == "str"]
                if len(s) != 2 or s[0].a[0] in out:
                    return None
                out[s[0].a[0]] = s[1].a[0]
            return out


def names_map(f, t, x, out=None):
    """{name in lower case: results} of a table of names"""
    out = {} if out is None else out

    def put(n, v):
        out.setdefault(n.lower(), set()).add(v)
    if t.k == "ite":
        c, a, b = t.a
        pol = True
        while c.k == "un" and c.a[0] == "!":
            c, pol = c.a[1], not pol
        if not pol:
            a, b = b, a
        ns = named(c, x)
        if ns is None:
            return None
        if names_of_value(a) is None:
            return None
        for n in ns:
            if n.lower() not in out:
                put(n, a)
        return names_map(f, b, x, out)
    if t.k == "fld" and t.a[1].endswith("second"):
        e = t.a[0]
        l = [y for y in subterms(e) if y.k == "list"]
        nm_ = [y for y in subterms(e) if y.k == "call" and y.a[0] == "isEqual" and y.a[1] is x or y.k == "op" and y.a[0] == "==" and x in y.a[1:]]
        if not l or not (nm_ or contains_(e, x)):
            return None
        for y in l[0].a:
            s = [z for z in y.a[1:] if z.k == "str"]
            v = [z for z in y.a[1:] if z.k != "str"]
            if len(s) != 1 or len(v) != 1:
                return None
            put(s[0].a[0], v[0])
        return out
    if names_of_value(t) is not None:
        return out          # what is left: reached only for names already seen
    return None


def names_of_value(t):
    return t if t.k in ("enum", "int") else None


def named(c, x):
    """names for which the condition holds"""
    if c.k == "op" and c.a[0] == "||":
        l = [named(y, x) for y in c.a[1:]]
        return None if any(y is None for y in l) else [z for y in l for z in y]
    if c.k == "op" and c.a[0] == "==" and ZERO in c.a[1:] and mk("size", x) in c.a[1:]:
        return [""]
    if c.k == "call" and c.a[0] == "isEqual" and x in c.a[1:] or c.k == "op" and c.a[0] == "==" and any(y is x or lowered(y, x) for y in c.a[1:]):
        s = [y for y in c.a[1:] if y.k == "str"]
        return [s[0].a[0]] if s else None
    return None


def total_map(f, t):
    """no path condition: any name is accepted"""
    c = TRUE
    for x, p in f.st.path:
        c = op("&&", c, x if p else neg(x))
    return c in (TRUE, ONE)


def C02_general(ctx):
    """every general setting reaches its own setting of the optimiser"""
    r = "general-settings"
    f = cfn(ctx, "readGeneralSettings", *OPT_SETS)
    l = f.load(GENERAL)
    ks = {k for k in f.at.keys if k[0] is GENERAL}
    opt_ = f.load(fld(DR, "isOptimization"))
    t0 = [y for y in subterms(mk("pair", opt_, mk("tup", *[c for c, p in f.st.path]))) if y.k == "cfg" and y.a[2] is mk("str", "type")]
    if not f.ob(r, "asks for the type of the study", bool(t0), "does not"):
        return
    L = t0[0].a[1]
    ty = t0[0]
    f.ob(r, "keywords are read from the section of the general settings", section_of(f, L, GENERAL, "general_settings"), "keywords are %s" % show(L)[:300])
    rejects(f, r, missing_text(ty), "a missing type")
    isopt = [y for y in subterms(opt_) if y.k == "call" and y.a[0] == "isEqual" and ty in y.a[1:] and any(z.k == "str" and z.a[0].lower() == "optimization" for z in y.a[1:] if isinstance(z, absint.T))]
    o = isopt[0] if isopt else FALSE
    was = init(fld(DR, "isOptimization"))
    f.ob(r, "type optimization is an optimisation", bool(isopt) and cond_is(f, opt_, op("||", o, was)) or bool(isopt) and cond_is(f, opt_, o), "is %s" % show(opt_)[:200])
    s = lambda kind, k: cfg(kind, L, k)
    end = TRUE
    for c, p in f.st.path:
        end = op("&&", end, c if p else neg(c))
    name = s("String", "name")
    for fn, val, when_, what in (("setDimension", s("Int", "dimension"), TRUE, "dimension"),
                                 ("setMaximumNumberOfIterations", s("Int", "number_of_function_evaluations"), TRUE, "number of function evaluations"),
                                 ("setMaximumNumberOfInnerIterations", s("Int", "max_number_of_inner_iterations"), neg(op("==", s("Int", "max_number_of_inner_iterations"), MISSING)), "number of inner iterations"),
                                 ("setNumberOfThreads", s("Int", "number_of_threads"), neg(op("==", s("Int", "number_of_threads"), MISSING)), "number of threads"),
                                 ("setName", name, neg(missing_text(name)), "name")):
        cs = [c for c in f.at.got if c[0] == fn and c[1] is STUDY]
        good = FALSE
        bad = [c for c in f.at.got if c[0] == fn and c[1] is not STUDY]
        for c in cs:
            v = c[2][0]
            while v.k == "un" and v.a[0] in ("int", "unsigned", "unsigned int"):
                v = v.a[1]
            P = pcond(c[4])
            if v is val:
                good = op("||", good, P)
            elif v.k == "ite" and val in v.a[1:]:
                good = op("||", good, op("&&", P, v.a[0] if v.a[1] is val else neg(v.a[0])))
            elif fn == "setName" and v.k == "str" and v.a[0]:
                try:
                    if not Val(Hyp()).implies(P, missing_text(name)):
                        bad.append(c)
                except Big:
                    bad.append(c)
            else:
                bad.append(c)
        ok = not bad and follows(op("&&", end, op("&&", o, when_)), good)
        f.ob(r, "%s of the study" % what, ok, "set to %s" % [show(c[2][0])[:60] + " when " + show(pcond(c[4]))[:100] for c in cs + bad])
    for what, k in (("dimension", "dimension"), ("number of function evaluations", "number_of_function_evaluations")):
        x = s("Int", k)
        rejects(f, r, op("&&", o, op("&&", neg(missing_text(ty)), op("<=", x, ZERO))) if k == "dimension" else
                op("&&", op("&&", o, neg(missing_text(ty))), op("&&", op("<", ZERO, s("Int", "dimension")), op("<=", x, ZERO))), "a %s that is not positive" % what)
    for what, k in (("number of inner iterations", "max_number_of_inner_iterations"), ("number of threads", "number_of_threads")):
        x = s("Int", k)
        ok = follows(end, neg(op("&&", o, op("&&", neg(op("==", x, MISSING)), op("<", x, ZERO)))))
        f.ob(r, "rejects a negative " + what, ok, "accepts it")
    # complete settings are not refused
    A = op("&&", o, neg(missing_text(ty)))
    for k in ("dimension", "number_of_function_evaluations", "max_number_of_inner_iterations", "number_of_threads"):
        A = op("&&", A, op("<=", ONE, s("Int", k)))
    bad = []
    for st, typ, node, fr in f.I.throws[0]:
        p = absint.path_cond(st.path)
        if p is None:
            continue
        try:
            if not Val(Hyp()).implies(op("&&", A, p), FALSE):
                bad.append(show(p)[:200])
        except Big:
            bad.append(show(p)[:200])
    f.ob(r, "accepts complete settings", not bad, "throws when " + "; ".join(bad)[:400])


def section_of(f, L, base, name):
    """the keywords were all read from the section of the configuration file"""
    return any(y.k == "call" and y.a[0] == DR + "::readASegmentFromXMLFile" and mk("str", name) in y.a for y in subterms(L)) or \
        any(y.k == "call" and y.a[0].endswith("readASegmentFromXMLFile") and any(z is mk("str", name) for z in y.a) for i in f.I.loops.values() for a, b in i["mod"].values() for y in subterms(mk("pair", a, b)))


# ------------------------------------------------------------------ sections, keywords and the order of a run
class Events(Cfg):
    """the sequence of calls of qualified functions; values of keywords as in Cfg"""

    def __init__(self, *names):
        Cfg.__init__(self)
        self.events = names

    def on_call(self, I, st, c):
        if c.q in self.events:
            vs = [I.load(st, a) if isinstance(a, absint.T) and a.k in ("F", "L", "D", "E") else a for a in c.args]
            if not I.quiet:
                self.got.append((c.n, c.obj, vs, I.where(c.node), st.copy()))
            I.write(st, TRACE, mk("ev", st.store.get(TRACE) or mk("none"), c.n, c.obj, *vs), hook=False)
            return None
        return Cfg.on_call(self, I, st, c)


def efn_(ctx, q, names, stop=(), cls=DR, **kw):
    h = Events(*names)
    f = Fn(ctx, q, kw.pop("types", None), inl=inline_classes(*([cls] if cls else []), DR, OF, CF, CD, OFD, "Rodop::Bounds", KW, VEC, stop=tuple(x for x in CSTOP if x not in ("readConstraintFunctionKeywords", "readObjectiveFunctionKeywords", "readConstraintFunctionsFromXML", "readASegmentFromXMLFile")) + tuple(stop)),
           hooks=h, setup=START, **kw)
    f.h = h
    f.prog_ = prog_of(f.I, f.st.store.get(TRACE))
    return f


def walk(xs, conds=(), loops=()):
    """(event, conditions of branches, loops) in the order of the sequence"""
    for x in xs:
        if x[0] == "ev":
            yield x, conds, loops
        elif x[0] == "if":
            yield from walk(x[2], conds + (x[1],), loops)
            yield from walk(x[3], conds + (neg(x[1]),), loops)
        elif x[0] == "loop":
            yield from walk(x[3], conds, loops + (x,))
        else:
            yield (x, conds, loops)


def whole_file(f, t, name):
    """t is the text of the file with the given name"""
    y = t
    if y.k == "put" and y.a[0].k == "obj" and y.a[0].a[0].endswith("stringstream") and len(y.a[0].a) == 1 and y.a[1].k == "call" and y.a[1].a[0].split("::")[-1] == "rdbuf":
        s = y.a[1].a[1]
    elif y.k == "call" and y.a[0] == "std::basic_ostringstream::str" and len(y.a) == 2:
        return whole_file(f, y.a[1], name)
    elif y.k == "obj" and y.a[0].startswith("std::basic_string") and len(y.a) >= 2:
        s = y.a[1]
        if s.k == "obj" and "istreambuf_iterator" in s.a[0] and len(s.a) > 1:
            s = s.a[1]
        if not y.a[-1].k == "obj" or "istreambuf_iterator" not in y.a[-1].a[0]:
            return False
    else:
        # put together line by line
        return y.k == "lv" and any(opens(f, z, name) for i in f.I.loops.values() for a, b in i["mod"].values() for z in subterms(mk("pair", a, b)) if z.k in ("mut", "obj"))
    while s.k == "mut" and s.a[0].split("::")[-1] in ("is_open", "good", "operator!", "fail", "operator bool", "open"):
        if s.a[0].endswith("::open"):
            return len(s.a) >= 3 and s.a[2] is name
        s = s.a[1]
    return s.k == "obj" and len(s.a) >= 2 and s.a[1] is name


def each_keyword(f, r, l, text_of, what):
    """every keyword of the list reads its value, once, from the text"""
    ev = [x for x in walk(f.prog_) if x[0][0] == "ev" and x[0][1] == "getValueFromXMLString"]
    if not f.ob(r, what + ": keywords are read", len(ev) == 1, "%d kinds of reads" % len(ev)):
        return None
    e, conds, loops = ev[0]
    o = e[2]
    n = size(f.load(l))
    ok = len(loops) == 1 and not conds and loops[0][2] is not None and o.k == "E" and o.a[0] is l
    if ok:
        i, lo, hi = loops[0][2]
        ok = o.a[1] is i and lo is ZERO and Val(Hyp()).eq(hi, n)
    f.ob(r, what + ": every keyword is read", ok, "reads %s for %s%s" % (show(o), [show(z)[:60] for z in loops[0][2]] if loops and loops[0][2] else "?", " if %s" % [show(c)[:100] for c in conds] if conds else ""))
    ok = text_of(e[3])
    f.ob(r, what + ": read from its section", ok, "reads from %s" % show(e[3])[:300])
    return e


def C03_sections(ctx):
    """sections of the file and the keywords that are read from them"""
    r = "sections"
    f = Fn(ctx, DR + "::readASegmentFromXMLFile", None, inl=inline_classes(DR, stop=("log", "getInstance")))
    name = init(fld(DR, "configFilename"))
    k = par_any(f, 0)

    def seg(g, v, fn, key):
        while v.k == "ite":
            v = v.a[1] if v.a[1].k == "call" else v.a[2]
        return v.k == "call" and v.a[0].split("::")[-1] == fn and len(v.a) == 3 and v.a[2] is key and whole_file(g, v.a[1], name)
    f.ob(r, "a section is what stands between its tags in the configuration file", seg(f, f.rv, "extractContentBetweenKeys", k), "is %s" % show(f.rv)[:400])
    not_open(f, r, name)
    f = Fn(ctx, DR + "::readConstraintFunctionsFromXML", None, inl=inline_classes(DR, stop=("log", "getInstance")))
    f.ob(r, "constraints are all sections of the configuration file with their tags", seg(f, f.rv, "extractContents", mk("str", "constraint_function")), "is %s" % show(f.rv)[:400])
    not_open(f, r, name)
    GV = KW + "::getValueFromXMLString"
    sec = lambda n: lambda t: t.k == "call" and t.a[0].split("::")[-1] == "extractContentBetweenKeys" and len(t.a) == 3 and t.a[2] is mk("str", n)
    f = efn_(ctx, DR + "::readObjectiveFunctionKeywords", (GV,))
    each_keyword(f, r, OBJ, sec("objective_function"), "objective function")
    f = efn_(ctx, DR + "::readGeneralSettings", (GV,))
    each_keyword(f, r, GENERAL, sec("general_settings"), "general settings")
    f = efn_(ctx, DR + "::readConstraintFunctionKeywords", (GV,))
    p = par_any(f, 0)
    each_keyword(f, r, CON, lambda t: t is p or t is f.par(0), "constraint")
    # nothing is left of the constraint before
    f = Fn(ctx, DR + "::readConstraintFunctionKeywords", None, inl=inline_classes(DR, KW, stop=("log", "getInstance", "getValueFromXMLString")))
    v = f.load(CON)
    left = init(CON) in set(subterms(v)) or any(init(CON) in set(subterms(mk("pair", a, b))) for i in f.I.loops.values() for l, (a, b) in i["mod"].items() if l is CON)
    f.ob(r, "constraint: keywords start without values", not left, "keywords of the constraint before are used again")
    rejects(f, r, missing_text(par_any(f, 0)), "an empty section of a constraint")


def C03_keywords(ctx):
    """a keyword takes the value of its own tag with the reader of its type"""
    r = "keywords"
    V = lambda n: fld(KW, n)
    f = Fn(ctx, KW + "::getValueFromXMLString", None, inl=inline_classes(KW, stop=("log", "getInstance")))
    x, nm = par_any(f, 0), init(V("name"))
    ty = init(V("type"))
    isty = lambda n: next((y for s in [f.st.path] + [s.path for s, *_ in f.I.throws[0]] for c, p in flat_path(s) for y in atoms(c) if y.k == "op" and y.a[0] == "==" and ty in y.a[1:] and mk("str", n) in y.a[1:]), op("==", ty, mk("str", n)))
    READ = {"string": ("valueString", "getStringValueFromXML"), "stringVector": ("valueStringVector", "getStringVectorValuesFromXML"), "double": ("valueDouble", "getDoubleValueFromXML"),
            "doubleVector": ("valueDoubleVector", "getDoubleVectorValuesFromXML"), "int": ("valueInt", "getIntegerValueFromXML")}
    types = {n: isty(n) for n in READ}
    one = lambda n: [types[n]] + [neg(types[m]) for m in READ if m != n]
    for n, (field_, reader) in READ.items():
        for m, (fl, _) in READ.items():
            v = decide(f.load(V(fl)), one(n))
            old = init(V(fl))
            if m != n:
                f.ob(r, "a %s keyword keeps its other values" % n, v is old, "%s becomes %s" % (fl, show(v)[:200]))
                continue
            calls = [y for y in subterms(v) if y.k == "call" and y.a[0].split("::")[-1] == reader]
            good = len(calls) == 1 and calls[0].a[1:] == (x, nm)
            f.ob(r, "a %s keyword reads the text of its own tag" % n, good, "%s becomes %s" % (fl, show(v)[:300]))
            if not good:
                continue
            c = calls[0]
            there = neg(op("==", c, MISSING)) if n == "int" else neg(missing_text(c)) if n != "double" else None
            set_ = decide(f.load(V("isValueSet")), one(n))
            if there is not None:
                f.ob(r, "a %s keyword has the value that was read" % n, cases(v, c, there) and cases(v, old, neg(there)), "%s becomes %s" % (fl, show(v)[:300]))
                f.ob(r, "a %s keyword is set if there is a value" % n, cond_is(f, set_, there), "isValueSet is %s" % show(set_)[:200])
            else:
                f.ob(r, "a double keyword has the value that was read", v is c or v.k == "ite" and c in v.a[1:] and old in v.a[1:], "becomes %s" % show(v)[:300])
    rejects(f, r, missing_text(nm), "a keyword without name")
    rej = [decide_all(s.path, [neg(types[n]) for n in READ]) for s, *_ in f.I.throws[0]]
    f.ob(r, "a keyword of another type is rejected", any(c in (TRUE, ONE) or c is neg(missing_text(nm)) for c in rej), "is accepted")
    known = any_of(*types.values())
    no_more(f, r, any_of(missing_text(nm), neg(known)), "keywords of the known types")
    for n, (field_, reader) in READ.items():
        g = {"string": "getStringValue", "stringVector": "getStringValueVector", "double": "getDoubleValue", "doubleVector": "getDoubleValueVector", "int": "getIntValue"}[n]
        h = Fn(ctx, KW + "::" + g, None, inl=inline_classes(KW, stop=("log", "getInstance")))
        h.ob(r, "%s gives the value" % g, h.rv is init(V(field_)), "returns %s" % show(h.rv)[:200])
        t = next((y for s in [h.st.path] for c, p in flat_path(s) for y in atoms(c) if y.k == "op" and y.a[0] == "==" and ty in y.a[1:]), None)
        h.ob(r, "%s needs a keyword of its type" % g, t is not None and mk("str", n) in t.a[1:] and follows(conj(h.st.path), t), "returns when %s" % show(conj(h.st.path))[:200])
        no_more(h, r, neg(op("==", ty, mk("str", n))) if t is None else neg(t), "%s of a keyword of its type" % g)
    h = Fn(ctx, KW + "::setType", None, inl=inline_classes(KW))
    p = par_any(h, 0)
    h.ob(r, "setType stores the type", same_(h, h.load(V("type")), p), "stores %s" % show(h.load(V("type")))[:200])
    ok = {y.a[0] for c, q in flat_path(h.st.path) for a in atoms(c) for y in a.a[1:] if a.k == "op" and a.a[0] == "==" and isinstance(y, absint.T) and y.k == "str"}
    h.ob(r, "setType accepts the types", set(READ) <= ok, "accepts %s" % sorted(ok))
    valid = any_of(*[op("==", p, mk("str", n)) for n in sorted(set(READ) | {"intVector"})])
    h.ob(r, "setType rejects other types", follows(norm_eq(conj(h.st.path)), norm_eq(valid)), "accepts when %s" % show(conj(h.st.path))[:300])
    no_more2 = [c for c in (conj(s.path) for s, *_ in h.I.throws[0]) if not follows(norm_eq(c), norm_eq(neg(any_of(*[op("==", p, mk("str", n)) for n in READ]))))]
    h.ob(r, "setType accepts the types it knows", not no_more2, "throws when %s" % [show(c)[:200] for c in no_more2])
    h = Fn(ctx, KW + "::setName", None, inl=inline_classes(KW))
    h.ob(r, "setName stores the name", same_(h, h.load(V("name")), par_any(h, 0)), "stores %s" % show(h.load(V("name")))[:200])
    h = Fn(ctx, KW + "::getName", None, inl=inline_classes(KW))
    h.ob(r, "getName gives the name", h.rv is init(V("name")), "returns %s" % show(h.rv)[:200])


def norm_eq(t):
    """equalities with the known text on the right"""
    return rewrite(t, lambda y: mk("op", "==", norm_eq(y.a[2]), y.a[1]) if y.k == "op" and y.a[0] == "==" and y.a[1].k == "str" and y.a[2].k != "str" else None)


def conj(path):
    c = TRUE
    for x, p in path:
        c = op("&&", c, x if p else neg(x))
    return c


def decide_all(path, conds):
    return decide(conj(path), conds)


def atoms(c):
    """comparisons a condition is made of"""
    if c.k == "op" and c.a[0] in ("&&", "||"):
        for x in c.a[1:]:
            yield from atoms(x)
    elif c.k == "un" and c.a[0] == "!":
        yield from atoms(c.a[1])
    elif c.k == "ite":
        for x in c.a:
            yield from atoms(x)
    else:
        yield c


def cases(got, want, given):
    """got is want whenever given holds"""
    if got is want or unsat(given):
        return True
    if got.k == "ite":
        return cases(got.a[1], want, op("&&", given, got.a[0])) and cases(got.a[2], want, op("&&", given, neg(got.a[0])))
    try:
        return Val(Hyp()).eq(got, want, [given])
    except (Big, TypeError):
        return False


def C03_values(ctx):
    """the value of a key in a list of keywords is that of the keyword with this name"""
    r = "values"
    for kind, fl, none, types in (("Int", "valueInt", MISSING, None), ("String", "valueString", mk("str", ""), ("vector<Keyword>&", "string&"))):
        try:
            f = Fn(ctx, DR + "::getConfigKeyValue" + kind, list(types) if types else None, inl=inline_classes(DR, KW, stop=("log", "getInstance")))
        except Exception:
            f = None
        if f is None:
            fs = [g for g in ctx.prog.byq.get(DR + "::getConfigKeyValue" + kind, []) if len(g.params) == 2]
            if not fs:
                ctx.obl(r, "getConfigKeyValue%s" % kind, False, "", "", "there is no such function")
                continue
            f = Fn(ctx, fs[0].q, None, f=fs[0], inl=inline_classes(DR, KW, stop=("log", "getInstance")))
        l, k = par_any(f, 0), par_any(f, 1)
        v = f.rv
        what = "%s value" % kind.lower()
        ok = v.k == "ite"
        c = v.a[0] if ok else TRUE
        of = lambda i, q: init(F(E(l.a[0], i), KW + "::" + q)) if l.k == "init" else inner(mk("elem", l, i), KW + "::" + q)
        names = lambda i: of(i, "name")
        if ok:
            H = Hyp()
            # (a keyword of another type is an error)
            conds = [lambda i: op("==", k, names(i)), lambda i: op("==", names(i), k)]
            conds += [lambda i, w=w: op("&&", w(i), op("==", of(i, "type"), mk("str", kind.lower()))) for w in conds]
            hit = next((w for w in conds if cond_is(f, c, exists(size(l), w))), None)
            f.ob(r, what + ": there if a keyword has this name", hit is not None, "there if %s" % show(c)[:300])
            hit = hit or conds[0]
            e = exists(size(l), hit)
            got = v.a[1]
            loc = got.a[0] if got.k == "init" else got
            j = loc.a[0].a[1] if loc.k in ("F", "fld") and loc.a[0].k in ("E", "elem") else None
            f.ob(r, what + ": the value of a keyword", j is not None and got is of(j, fl), "is %s" % show(got)[:300])
            f.ob(r, what + ": of the keyword with this name", j is not None and first_is(f, j, l, hit, e), "is that of %s" % (show(j)[:300] if j is not None else "?"))
            f.ob(r, what + ": otherwise missing", v.a[2] is none, "is %s" % show(v.a[2])[:100])
        else:
            f.ob(r, what + ": there if a keyword has this name", False, "is %s" % show(v)[:300])


def first_is(f, j, l, cond, ex):
    """j is the first position of the list with the condition (or any, found by a loop left there)"""
    b = mk("bv", ("tmp", "first"))
    try:
        if Val(Hyp()).eq(j, absint.quant("first", ZERO, size(l), cond(b), b), [ex]):
            return True
    except (Big, TypeError):
        pass
    return j.k == "lv" and loop_range(f, j) is not None and loop_range(f, j)[1] is ZERO


def loop_range(f, j):
    i = f.I.loops.get(j.a[0])
    return i.get("range") if i else None


API_ = tuple("Rodop::Optimizer::" + n for n in OPT_SETS + ("addObjectFunction", "addConstraint", "performEfficientGlobalOptimization"))
PARS = fld(DR, "designParameters")
PAR = "Rodop::Parameter"


def reading(ctx):
    """readConfigurationFile with the optimiser's functions as events"""
    return efn_(ctx, DR + "::readConfigurationFile", API_, stop=("getValueFromXMLString",))


def C03_run(ctx):
    """what is read before a run, and when it runs"""
    r = "run"
    B = lambda n: fld(DR, n)
    f = reading(ctx)
    isopt = f.load(B("isOptimization"))
    ev = list(walk(f.prog_))
    n = {}
    for k, (e, c, l) in enumerate(ev):
        if e[0] != "ev":
            f.ob(r, "calls of the optimiser are a sequence", False, "%s" % (e,))
            return
        n.setdefault(e[1], []).append((k, e, c, l))
        if e[2] is not STUDY:
            f.ob(r, "settings are made in the study that is run", False, "%s of %s" % (e[1], show(e[2])))
    NEED = (("setDimension", 0, "the dimension is set"), ("addObjectFunction", 0, "the objective function is added"), ("addConstraint", 1, "the constraints are added"),
            ("setBoxConstraints", 0, "the bounds are set"), ("setMaximumNumberOfIterations", 0, "the number of evaluations is set"),
            ("setParameterNames", 0, "the names of the parameters are set"), ("setParameterToDiscrete", 1, "the discrete parameters are set"))
    on = isopt
    for name, loop, what in NEED:
        xs = n.get(name, [])
        good = FALSE
        for k, e, c, l in xs:
            if len(l) == loop:
                p = TRUE
                for z in c:
                    # the condition on a single parameter, or that there are names, is judged with the parameters
                    if name in ("setParameterToDiscrete", "setParameterNames") and not cond_is(f, z, on) and z is not c[0]:
                        continue
                    p = op("&&", p, z)
                good = op("||", good, p)
        f.ob(r, what, bool(xs) and (cond_is(f, good, on) or follows(op("&&", conj(f.st.path), on), good)), "when %s" % show(good)[:300] if xs else "is not")
    f.ob(r, "a configuration can be read", not unsat(conj(f.st.path)) and FALSE not in [c if p else neg(c) for c, p in f.st.path], "every one is rejected")
    first = {m: min(k for k, *_ in xs) for m, xs in n.items()}
    f.ob(r, "the dimension is set before it is used", all(first.get("setDimension", 0) <= first[m] for m in first), "order is %s" % sorted(first, key=first.get))
    f.ob(r, "nothing is run while the file is read", "performEfficientGlobalOptimization" not in n, "it is")
    f.ob(r, "the file is read afterwards", yes_(f, f.load(B("isConfigurationFileRead"))), "is %s" % show(f.load(B("isConfigurationFileRead"))))
    rejects(f, r, neg(init(B("isConfigFileSet"))), "reading without a file")
    f = Fn(ctx, DR + "::setConfigFileName", None, inl=inline_classes(DR, stop=("log", "getInstance")))
    p = par_any(f, 0)
    f.ob(r, "name of the file is stored", same_(f, f.load(B("configFilename")), p) and yes_(f, f.load(B("isConfigFileSet"))), "stores %s" % show(f.load(B("configFilename")))[:200])
    rejects(f, r, missing_text(p), "an empty file name")
    f = efn_(ctx, DR + "::run", API_)
    ev = list(walk(f.prog_))
    ok = len(ev) == 1 and ev[0][0][0] == "ev" and ev[0][0][1] == "performEfficientGlobalOptimization" and ev[0][0][2] is STUDY and not ev[0][2]
    f.ob(r, "a run optimises once", ok and follows(conj(f.st.path), any_of(*[conj_(c) for e, c, l in ev])), "calls %s" % [show(mk("tup", *e[2:])) for e, c, l in ev if e[0] == "ev"])
    rejects(f, r, neg(init(B("isOptimization"))), "a run that is not an optimisation")
    rejects(f, r, op("&&", init(B("isOptimization")), neg(init(B("isConfigurationFileRead")))), "a run before the file is read")
    no_more(f, r, op("||", neg(init(B("isOptimization"))), neg(init(B("isConfigurationFileRead")))), "an optimisation whose file was read")
    # nothing else says that it is an optimisation or that the file was read
    f = Fn(ctx, DR + "::initializeKeywords", None, inl=inline_classes(DR, KW, stop=("log", "getInstance")))
    for b in ("isOptimization", "isConfigurationFileRead", "isConfigFileSet"):
        f.ob(r, "%s is not changed by the list of keywords" % b, f.load(B(b)) is init(B(b)), "becomes %s" % show(f.load(B(b)))[:100])


def conj_(cs):
    c = TRUE
    for x in cs:
        c = op("&&", c, x)
    return c


def C03_main(ctx):
    """the program: configuration file of the command line, read before it is run; errors are reported"""
    r = "main"
    names = tuple(DR + "::" + x for x in ("setConfigFileName", "readConfigurationFile", "run", "runOptimization"))
    h = Events(*names)
    fs = ctx.prog.byq.get("main", [])
    f = Fn(ctx, "main", None, f=fs[0] if len(fs) == 1 else None, hooks=h, setup=START)
    got = [(g[0], g[2]) for g in h.got]
    order = [g[0] for g in h.got]
    f.ob(r, "file name, reading and running in this order", [x if x != "runOptimization" else "run" for x in order] == ["setConfigFileName", "readConfigurationFile", "run"], "order is %s" % order)
    a = next((g[1][0] for g in got if g[0] == "setConfigFileName"), None)
    one = a is not None and (a.k in ("elem", "deref", "init") and a not in (None,)) and any(y is ONE for y in subterms(a) if isinstance(y, absint.T)) or a is not None and "argv[1]" in show(a)
    f.ob(r, "the file is the first argument", one, "is %s" % (show(a)[:200] if a is not None else "?"))
    st = next((g[4] for g in h.got if g[0] == "run"), None)
    if st is not None:
        argc = init(mk("P", "argc")) if False else None
        bad = [c for c, p in st.path if any(y.k == "int" for y in subterms(c)) and "argc" in show(c)]
        ok = True
        for c, p in st.path:
            if "argc" in show(c):
                z = [y for y in subterms(c) if y.k == "init" and "argc" in show(y)]
                two = absint.subst(c, {z[0]: INT(2)}) if z else c
                two = fold(two)
                ok = ok and (two in (TRUE, ONE)) == p
        f.ob(r, "two words on the command line are enough", ok, "runs when %s" % show(conj(st.path))[:200])
    vals = {y for y in leaves(f.rv)}
    f.ob(r, "an error and a good end have different exit codes", ZERO in vals and any(y.k == "int" and y.a[0] != 0 for y in vals) and all(y.k == "int" for y in vals), "returns %s" % show(f.rv)[:200])


def leaves(t):
    if t.k in ("ite", "phi"):
        for x in (t.a[1:] if t.k == "ite" else t.a):
            if isinstance(x, absint.T):
                yield from leaves(x)
    else:
        yield t


def fold(t):
    return rewrite(t, lambda y: op(y.a[0], y.a[1], y.a[2]) if y.k == "op" and len(y.a) == 3 and y.a[1].k == "int" and y.a[2].k == "int" else None)


# ------------------------------------------------------------------ parameters
def pf(ctx, w, n):
    """field n of a parameter"""
    if w.k == "ite":
        a, b = pf(ctx, w.a[1], n), pf(ctx, w.a[2], n)
        return a if a is b else mk("ite", w.a[0], a, b)
    if w.k == "list" or w.k == "obj" and len(w.a) > 2:
        fs = [x["n"] if isinstance(x, dict) else x for x in ctx.prog.classes[PAR]["fields"]]
        a = w.a if w.k == "list" else w.a[1:]
        return a[fs.index(n)] if fs.index(n) < len(a) else mk("fld", w, PAR + "::" + n)
    return inner(w, PAR + "::" + n)


def pick(t):
    """elements of lists of known texts"""
    def fn(y):
        if y.k in ("elem", "size"):
            x = pick(y.a[0])
            if y.k == "size":
                if x.k == "obj" and len(x.a) == 2 and x.a[1].k == "list":
                    return INT(len(x.a[1].a))
                if x.k == "push":
                    return pick(op("+", mk("size", x.a[0]), ONE))
                if x.k == "ite":
                    return mk("ite", x.a[0], pick(mk("size", x.a[1])), pick(mk("size", x.a[2])))
                return mk("size", x)
            j = y.a[1]
            if j.k == "int":
                if x.k == "obj" and len(x.a) == 2 and x.a[1].k == "list":
                    return x.a[1].a[j.a[0]] if j.a[0] < len(x.a[1].a) else None
                if x.k == "push":
                    n = pick(mk("size", x.a[0]))
                    if n.k == "int":
                        return x.a[1] if n.a[0] == j.a[0] else pick(mk("elem", x.a[0], j))
                if x.k == "ite":
                    return mk("ite", x.a[0], pick(mk("elem", x.a[1], j)), pick(mk("elem", x.a[2], j)))
            return mk("elem", x, j)
        return None
    return lits_fold(rewrite(t, fn))


def lits_fold(t):
    return rewrite(t, lambda y: op(y.a[0], lits_fold(y.a[1]), lits_fold(y.a[2])) if y.k == "op" and len(y.a) == 3 and y.a[0] in ("<", "<=", "==", "+") else None)


def thrown(f, i):
    """the conditions under which the loop with the variable i rejects its element; inner loops over lists of known texts are unrolled"""
    out = []
    for s, typ, node, fr in f.I.throws[0]:
        if any(x[0].k in ("exc", "dispatch") for x in s.path):
            continue
        c = conj([x for x in s.path if x[0].k != "in"])
        lvs = [y for y in dict.fromkeys(subterms(c)) if y.k == "lv" and y is not i and loop_range(f, y) is not None and loop_range(f, y)[0] is y]
        if not lvs:
            out += [d for d in split(c) if not unsat(d)]
            continue
        if len(lvs) > 1:
            continue
        for j in range(5):
            out += [d for d in split(absint.subst(c, {lvs[0]: INT(j)})) if not unsat(d)]
    return out


def split(c, n=4):
    """the cases of a condition without conditional values in comparisons"""
    c = pick(c)
    i = next((y.a[0] for a in atoms(c) for y in subterms(a) if y.k == "ite"), None)
    if i is None or n == 0:
        return [c]
    side = lambda v: rewrite(c, lambda y: side_of(y, i, v))

    def side_of(y, i, v):
        if y.k == "ite" and y.a[0] is i:
            return rewrite(y.a[1] if v else y.a[2], lambda z: side_of(z, i, v))
        return None
    return [op("&&", i if v else neg(i), d) for v in (True, False) for d in split(side(v), n - 1)]


def C04_parameters(ctx):
    """parameters of the configuration file"""
    r = "parameters"
    f = Fn(ctx, DR + "::readOptimizationParameters", None, inl=inline_classes(DR, PAR, stop=CSTOP))
    was, now = init(PARS), f.load(PARS)
    sec = next((y for y in subterms(now) if y.k == "call" and y.a[0].split("::")[-1] == "readASegmentFromXMLFile" and mk("str", "optimization_parameters") in y.a), None)
    if not f.ob(r, "parameters stand in their section of the file", sec is not None, "parameters are %s" % show(now)[:300]):
        return
    now = decide(now, [neg(missing_text(sec))])
    ps = next((y for y in subterms(now) if y.k == "call" and y.a[0].split("::")[-1] == "extractContents" and y.a[1:] == (sec, mk("str", "parameter"))), None)
    if not f.ob(r, "one parameter for each tag", ps is not None, "parameters are %s" % show(now)[:300]):
        return
    f.eq(r, "as many parameters as tags", size(now), op("+", size(was), size(ps)))
    H = f.H.copy().add(ZERO, "<=", K).add(K, "<", size(ps))
    w = decide(content(now, op("+", size(was), K), H), [op("<", K, size(ps))])
    p = mk("elem", ps, K)
    get = lambda kind, k: next((y for y in subterms(w) if y.k == "call" and y.a[0].split("::")[-1] == "get%sValueFromXML" % kind and y.a[1:] == (p, mk("str", k))), None)
    # the element the loop works on, as an instance of p
    lv = next((info["range"][0] for info in f.I.loops.values() if info.get("range") and info["range"][1] is ZERO and show(info["range"][2]) == show(size(ps)) and PARS in info["mod"]), None)
    if not f.ob(r, "parameters are read one after the other", lv is not None, "there is no such loop"):
        return
    rej = FALSE
    T_ = thrown(f, lv)
    T_ = [absint.subst(c, {lv: K}) for c in T_]
    for c in T_:
        rej = op("||", rej, c)
    text_ = lambda k: next((y for t in [w] + T_ for y in subterms(t) if y.k == "call" and y.a[0].split("::")[-1] == "getStringValueFromXML" and y.a[1:] == (p, mk("str", k))), None)
    name, ty = text_("name"), text_("type")
    lb, ub, inc = (get("Double", k) for k in ("lower_bound", "upper_bound", "increment"))
    if not f.ob(r, "name, type, bounds and increment are read from the parameter", None not in (name, ty, lb, ub, inc), "parameter is %s" % show(w)[:500]):
        return
    f.ob(r, "name of a parameter", pf(ctx, w, "name") is name, "is %s" % show(pf(ctx, w, "name"))[:200])
    t = pf(ctx, w, "type")
    f.ob(r, "type of a parameter", lowered(t, ty), "is %s" % show(t)[:200])
    f.ob(r, "lower bound of a parameter", pf(ctx, w, "lb") is lb, "is %s" % show(pf(ctx, w, "lb"))[:200])
    f.ob(r, "upper bound of a parameter", pf(ctx, w, "ub") is ub, "is %s" % show(pf(ctx, w, "ub"))[:200])
    both = mk("tup", w, *T_)
    kinds = {k: type_is(both, ty, k) for k in ("continuous", "discrete", "real", "int")}
    if not f.ob(r, "types of parameters are known", None not in kinds.values(), "types are %s" % [k for k, v in kinds.items() if v is not None]):
        return
    disc = op("||", kinds["discrete"], kinds["int"])
    excl = lambda k: [kinds[k]] + [neg(kinds[m]) for m in kinds if m != k]
    v = pf(ctx, w, "increment")
    for k in ("discrete", "int"):
        f.ob(r, "increment of a %s parameter" % k, decide(v, excl(k)) is inc, "is %s" % show(decide(v, excl(k)))[:200])
    inguard = op("<", K, size(ps))
    there = neg(missing_text(sec))
    base = op("&&", there, inguard)
    distinct = TRUE
    ks = list(kinds)
    for a in range(4):
        for b in range(a):
            distinct = op("&&", distinct, neg(op("&&", kinds[ks[a]], kinds[ks[b]])))
    base = op("&&", base, distinct)
    INV = [("a parameter without name", missing_text(name)), ("a parameter without type", missing_text(ty)), ("another type of parameter", neg(any_of(*kinds.values()))),
           ("a lower bound above the upper bound", op("<", ub, lb)),
           ("an increment that is not positive", op("&&", disc, op("<=", inc, ZERO))), ("an increment larger than the interval", op("&&", disc, op("<", op("-", ub, lb), inc)))]
    for k, g in (("lower_bound", TRUE), ("upper_bound", TRUE), ("increment", disc)):
        x = text_(k)
        INV.append(("a parameter without " + k, op("&&", g, missing_text(x)) if x is not None else None))
    allinv = any_of(*[c for _, c in INV if c is not None])
    for what, c in INV:
        f.ob(r, "rejects " + what, c is not None and follows(op("&&", base, c), rej), "accepts it; rejects when %s" % show(rej)[:300])
    for c in T_:
        if not follows(op("&&", distinct, c), allinv):
            f.ob(r, "accepts a complete parameter", False, "throws when %s" % show(c)[:500])
            break
    else:
        f.ob(r, "accepts a complete parameter", True)


def params(ctx, t, H=None):
    """t with the elements of the list of parameters and their fields resolved"""
    def fn(y):
        if H is not None and y.k == "elem" and y.a[0].k in ("fill", "grow", "push", "ite"):
            z = content(y.a[0], y.a[1], H)
            return params(ctx, z, H) if z is not y else None
        if y.k == "fld" and y.a[1].startswith(PAR + "::"):
            return pf(ctx, params(ctx, y.a[0], H), y.a[1].split("::")[-1])
        return None
    return rewrite(t, fn)


def C04_study(ctx):
    """parameters reach the bounds, names and steps of the study"""
    r = "study"
    f = reading(ctx)
    isopt = f.load(fld(DR, "isOptimization"))
    pars = decide(f.load(PARS), [isopt])
    B = "Rodop::Bounds::"
    n = size(pars)

    def entry(i, H, q):
        return pf(ctx, content(pars, i, H), q)

    def same(a, b, H, given):
        a, b = decide(params(ctx, a, H), [isopt]), decide(params(ctx, b, H), [isopt])
        try:
            return a is b or Val(H).eq(a, b, given)
        except Big:
            return False
    for name in ("setBoxConstraints", "addObjectFunction"):
        g = [x for x in f.h.got if x[0] == name and x[1] is STUDY]
        if not f.ob(r, "%s: once" % name, len(g) == 1, "%d times" % len(g)):
            continue
        x, st = g[0][2][0], g[0][4]
        b = x if name == "setBoxConstraints" else field(f, x, st, OF + "::boxConstraints")
        for q, k in (("lowerBounds", "lb"), ("upperBounds", "ub")):
            v = decide(inner(b, B + q) if b.k in ("snap", "init") else field(f, b, st, B + q), [isopt])
            H = f.H.copy().add(ZERO, "<=", K).add(K, "<", n)
            try:
                e = content(v, K, H)
                ok = same(e, entry(K, H, k), H, [op("<=", ZERO, K), op("<", K, n)])
            except Big:
                ok, e = False, v
            f.ob(r, "%s: %s bounds are those of the parameters" % (name, "lower" if k == "lb" else "upper"), ok, "bound is %s" % show(e)[:600])
            f.eq(r, "%s: as many %s bounds as parameters" % (name, "lower" if k == "lb" else "upper"), size(v), n)
    def at_(i, q):
        H = f.H.copy().add(ZERO, "<=", i).add(i, "<", n)
        return H, entry(i, H, q)
    g = [x for x in walk(f.prog_) if x[0][0] == "ev" and x[0][1] == "setParameterNames"]
    if f.ob(r, "setParameterNames: once", len(g) == 1, "%d times" % len(g)):
        v = decide(g[0][0][3], [isopt])
        extra = [c for c in g[0][1] if not cond_is(f, c, isopt)]
        f.ob(r, "names of the parameters are set unless there are none", all(cond_is(f, c, neg(missing_text(g[0][0][3]))) for c in extra), "set when %s" % [show(c)[:200] for c in extra])
        info = f.I.loops.get(v.a[0]) if v.k == "lv" else None
        if info is not None and v.a[1] in info["mod"] and info.get("range") is not None:
            i, lo, hi = info["range"]
            a, b = info["mod"][v.a[1]]
            h = info["hv"].get(v.a[1])
            H, w = at_(i, "name")
            b = params(ctx, b, H)
            while b.k == "ite":
                # a name that is not there is left out
                out = b.a[0] if b.a[1] is h else neg(b.a[0])
                if h not in b.a[1:] or not all(unsat(d) for d in split(op("&&", out, neg(missing_text(decide(params(ctx, w, H), [isopt])))), 6)):
                    break
                b = b.a[1] if b.a[2] is h else b.a[2]
            ok = a.k == "obj" and len(a.a) == 1 and lo is ZERO and Val(Hyp()).eq(decide(hi, [isopt]), n) and b.k == "push" and b.a[0] is h and same(b.a[1], w, H, [op("<=", ZERO, i), op("<", i, hi)])
            f.ob(r, "names are those of the parameters, in order", ok, "adds %s for %s" % (show(b)[:300], [show(z)[:60] for z in (i, lo, hi)]))
        else:
            H, w = at_(K, "name")
            f.ob(r, "names are those of the parameters, in order", same(content(v, K, H), w, H, [op("<=", ZERO, K), op("<", K, n)]) and Val(Hyp()).eq(size(v), n), "are %s" % show(v)[:300])
    g = [x for x in walk(f.prog_) if x[0][0] == "ev" and x[0][1] == "setParameterToDiscrete"]
    if f.ob(r, "setParameterToDiscrete: one call for a parameter", len(g) == 1 and len(g[0][2]) == 1 and g[0][2][0][2] is not None, "%d calls" % len(g)):
        e, conds, loops = g[0]
        i, lo, hi = loops[0][2]
        given = [op("<=", ZERO, i), op("<", i, hi)]
        calls = [x for x in f.h.got if x[0] == "setParameterToDiscrete"]
        # the end, or a number that was found to be equal to it before, in the case of an optimisation
        ends = [decide(hi, [isopt])]
        for c, p in calls[0][4].facts if len(calls) == 1 else ():
            c = decide(c, [isopt])
            if p is True and c.k == "op" and c.a[0] == "==" and ends[0] in c.a[1:]:
                ends.append(c.a[2] if c.a[1] is ends[0] else c.a[1])
        f.ob(r, "all parameters are looked at", lo is ZERO and any(Val(Hyp()).eq(e_, n) for e_ in ends), "%s to %s" % (show(lo), show(hi)[:200]))
        idx = e[3]
        while idx.k == "un" and idx.a[0] in ("int", "unsigned", "unsigned int"):
            idx = idx.a[1]
        f.ob(r, "number of a discrete parameter", idx is i, "is %s" % show(e[3])[:100])
        H, w = at_(i, "increment")
        f.ob(r, "step of a discrete parameter is its increment", same(e[4], w, H, given), "is %s" % show(e[4])[:300])
        c = TRUE
        for z in conds:
            if not cond_is(f, z, isopt):
                c = op("&&", c, z)
        H, w = at_(i, "type")
        want = op("||", op("==", w, mk("str", "discrete")), op("==", w, mk("str", "int")))
        f.ob(r, "parameters of type discrete and int are discrete", same_cond(ctx, decide(params(ctx, c, H), [isopt]), decide(params(ctx, want, H), [isopt])), "are when %s" % show(c)[:400])


def same_cond(ctx, a, b):
    if a is b or follows(a, b) and follows(b, a):
        return True
    # conditional values in comparisons
    for x in split(op("&&", a, neg(b)), 5) + split(op("&&", b, neg(a)), 5):
        if not unsat(x):
            return False
    return True


# ------------------------------------------------------------------ lists
def section_text(x, key, t):
    """t is the text between the first start tag of the key and its end tag"""
    op_, cl = tag(key), tag(key, True)
    if t.k == "call" and t.a[0].split("::")[-1] == "extractContentBetweenKeys":
        return t.a[1] is x and t.a[2] is key
    if t.k != "call" or t.a[0].split("::")[-1] != "substr" or t.a[1] is not x or len(t.a) < 4:
        return False
    V = Val(Hyp())
    for a in finds(t, x, op_):
        if len(a.a) > 3 and a.a[3] is not ZERO:
            continue
        b = add(a, size_cat(op_))
        for e in finds(t, x, cl):
            if (len(e.a) < 4 or e.a[3] is ZERO or eqv(V, e.a[3], a) or eqv(V, e.a[3], b)) and eqv(V, t.a[2], b) and eqv(V, t.a[3], sub(e, b)):
                return True
    return False


ITEM, END = mk("str", "<item>"), mk("str", "</item>")


def C01_lists(ctx):
    """lists are the texts (numbers) of all items between the tags, in order"""
    r = "lists"
    for name, num in (("getStringVectorValuesFromXML", False), ("getDoubleVectorValuesFromXML", True)):
        f = Fn(ctx, "Rodop::" + name, None)
        x, key = par_any(f, 0), par_any(f, 1)
        rejects(f, r, missing_text(x), "an empty text")
        rejects(f, r, missing_text(key), "an empty key")
        found = None
        for lid, info in f.I.loops.items():
            for l, (a, b) in info["mod"].items():
                h = info["hv"].get(l)
                ps = [y for y in subterms(b) if y.k == "push" and y.a[0] is h]
                if h is not None and len(ps) == 1 and a.k == "obj":
                    found = (info, l, a, lits(b), h, lits(ps[0]))
        if not f.ob(r, "collects the items one after the other", found is not None, "no loop adds one item"):
            continue
        info, l, a, b, h, push = found
        f.ob(r, "starts without items", len(a.a) == 1, "starts with %s" % show(a)[:100])
        V = Val(Hyp())
        # the list that is given back
        out = [y for y in subterms(f.rv) if y.k == "lv" and y.a[1] is l]
        rv = f.rv
        some = [z for z in leaves_of(rv)]
        f.ob(r, "gives the list of the items back", bool(out) and all(z in out or z.k == "obj" and len(z.a) == 1 for z in some), "returns %s" % show(rv)[:200])
        if out and not any(y.k == "phi" for y in subterms(rv)):
            w = lits(given_when(rv, out))
            np_ = npos_of(w)
            for t, what in ((tag(key), "start"), (tag(key, True), "end")):
                c = [y for y in finds(w, x, t)]
                try:
                    ok = np_ is not None and any(V.implies(w, neg(op("==", y, np_))) for y in c)
                except Big:
                    ok = False
                f.ob(r, "the list is empty without the %s tag" % what, ok, "is read when %s" % show(w)[:200])
        v = push.a[1]
        if num:
            src, how = number(v)
            if not f.ob(r, "an item is the number of its text", src is not None and how == "stod", "is %s" % show(v)[:200]):
                continue
            y = stripped(f, src)
            v = src if y is None else y
        else:
            y = stripped(f, v)
            if not f.ob(r, "an item is its text without blanks", y is not None, "is %s" % show(v)[:200]):
                continue
            v = y
        if v.k != "call" or v.a[0].split("::")[-1] != "substr":
            f.ob(r, "an item is a part of the text", False, "is %s" % show(v)[:200])
            continue
        mods = {k: (lits(i0), lits(nx), info["hv"].get(k)) for k, (i0, nx) in info["mod"].items()}
        tok = next(((k, m) for k, m in mods.items() if m[1].k == "got" and m[1].a[0] is m[2]), None)
        if tok is not None and v.a[1].k == "in":
            # the text is cut at every '<'; an item is what follows '>'
            s0 = strip_(tok[1][0])
            ok = s0.k == "obj" and "stringstream" in str(s0.a[0]) and len(s0.a) > 1 and section_text(x, key, s0.a[1])
            f.ob(r, "items of the text between the tags of the key", ok, "reads %s" % show(s0)[:300])
            it = mk("in", tok[1][2], INT(ord("<")))
            f.ob(r, "the text is cut at each tag", v.a[1] is it, "is cut by %s" % show(v.a[1])[:100])
            g = [y for y in subterms(v) if y.k == "call" and y.a[0].split("::")[-1] == "find" and y.a[1] is it and y.a[2] in (INT(ord(">")), mk("str", ">")) and (len(y.a) < 4 or y.a[3] is ZERO)]
            ok = bool(g) and eqv(V, v.a[2], add(g[0], ONE)) and (len(v.a) < 4 or npos_of(v.a[3]) is v.a[3])
            f.ob(r, "an item is the text behind its tag", ok, "is %s" % show(v)[:300])
            if g:
                cond = pushed_when(b, h)
                np_ = npos_of(cond) or npos_of(g[0])
                nothing = op("==", size(it), ZERO)
                ok = np_ is None and cond is TRUE
                if np_ is not None:
                    miss = op("==", g[0], np_)
                    try:
                        ok = V.implies(op("&&", neg(miss), neg(nothing)), cond) and V.implies(cond, neg(miss))
                    except Big:
                        ok = False
                f.ob(r, "no item is left out", ok, "an item is added when %s" % show(cond)[:300])
            continue
        S = v.a[1]
        f.ob(r, "items of the text between the tags of the key", section_text(x, key, S), "reads %s" % show(S)[:300])
        # position of the item's tag: searched in the loop, or found at its end
        cand = []
        for k, (i0, nx, hv) in mods.items():
            if hv is None or k is l:
                continue
            if is_find(i0, S, ITEM) and is_find(nx, S, ITEM) and (len(i0.a) < 4 or i0.a[3] is ZERO) and len(nx.a) > 3:
                cand.append((hv, nx.a[3]))
            elif i0 is ZERO:
                for p in finds(mk("pair", v, nx), S, ITEM):
                    if len(p.a) > 3 and p.a[3] is hv:
                        cand.append((p, nx))
        if not f.ob(r, "looks for the tag of the next item from the start on", bool(cand), "there is no such search"):
            continue
        good = False
        for P, nx in cand:
            s0 = add(P, INT(6))
            for E in finds(mk("pair", v, nx), S, END):
                if len(E.a) > 3 and any(eqv(V, E.a[3], z) for z in (P, s0)) and eqv(V, v.a[2], s0) and len(v.a) > 3 and eqv(V, v.a[3], sub(E, s0)):
                    good = (P, E, nx)
        if not f.ob(r, "an item is the text between its tags", bool(good), "is %s" % show(v)[:400]):
            continue
        P, E, nx = good
        f.ob(r, "goes on behind the item", any(eqv(V, nx, z) for z in (E, add(E, INT(7)), add(E, ONE))), "goes on at %s" % show(nx)[:300])
        g = lits(info["guard"]) if info.get("guard") is not None else None
        np_ = npos_of(g) if g is not None else None
        try:
            ok = np_ is not None and (V.iff(g, neg(op("==", P, np_))) or V.iff(g, op("&&", neg(op("==", P, np_)), neg(op("==", E, np_)))))
        except Big:
            ok = False
        f.ob(r, "until there is no item left", ok, "while %s" % (show(g)[:200] if g is not None else "?"))
        cond = pushed_when(b, h)
        try:
            ok = cond is TRUE or np_ is not None and V.implies(neg(op("==", E, np_)), cond)
        except Big:
            ok = False
        f.ob(r, "no item is left out", ok, "an item is added when %s" % show(cond)[:300])


def strip_(v):
    while v.k == "mut":
        v = v.a[1]
    return v


def leaves_of(t):
    if t.k == "phi":
        return [z for y in t.a if isinstance(y, absint.T) for z in leaves_of(y)]
    return leaves_of(t.a[1]) + leaves_of(t.a[2]) if t.k == "ite" else [t]


def given_when(t, out):
    """the condition under which t is one of the values"""
    if t.k == "ite":
        return op("||", op("&&", t.a[0], given_when(t.a[1], out)), op("&&", neg(t.a[0]), given_when(t.a[2], out)))
    return TRUE if t in out else FALSE


def pushed_when(b, h):
    """the condition under which the loop adds an item"""
    if b.k == "ite":
        return op("||", op("&&", b.a[0], pushed_when(b.a[1], h)), op("&&", neg(b.a[0]), pushed_when(b.a[2], h)))
    return FALSE if b is h else TRUE
