"""Files: vectors, matrices, designs and populations written to and read from text files."""
from .sur import *
from . import text
from .ea import EAP, EAI, POP, ALL, efn

DES = "Rodop::Design"
OF = "Rodop::ObjectiveFunction"


def target(v):
    """(constructor arguments) of the stream, following everything put into it"""
    return None


def root(I, v):
    while True:
        if v.k in ("put", "got"):
            v = v.a[0]
        elif v.k == "mut":
            if v.a[0].endswith("::open"):
                return v
            v = v.a[1]
        elif v.k == "ite":
            v = v.a[1]
        elif v.k == "lv":
            info = I.loops.get(v.a[0])
            if info is None or v.a[1] not in info["mod"]:
                return v
            v = info["mod"][v.a[1]][0]
        else:
            return v


def opens(f, v, name, app=None):
    """the stream v belongs to the file of the given name"""
    r = root(f.I, v)
    a = r.a[2:] if r.k == "mut" else r.a[1:] if r.k == "obj" else ()
    if not a or a[0] is not name:
        return False
    return app is None or app == any("app" in show(x) for x in a[1:])


def written(f, rule, name, app=False, n=1):
    """items of the file the function writes"""
    ss = text.streams(f.I, f.st)
    f.ob(rule, "writes one file", len(ss) == n, "writes %d streams" % len(ss))
    if len(ss) != n:
        return None, None
    l, v = ss[0]
    f.ob(rule, "writes the given file", opens(f, v, name, app), "writes %s" % show(root(f.I, v))[:100])
    return text.items(f.I, v), v


def not_open(f, rule, name):
    """a file that cannot be opened is an error"""
    ok = False
    for s, typ, node, fr in f.I.throws[0]:
        for c, pol in s.path:
            if is_open_test(c, pol, name):
                ok = True
    # and a normal return needs an open file
    nr_ = any(is_open_test(c, not p, name) for c, p in f.st.path) or any(is_open_test(c, not p, name) for c, p in f.st.facts) or not f.I.throws[0] and False
    f.ob(rule, "a file that cannot be opened is an error", ok and nr_, "there is no such test")


def is_open_test(c, pol, name):
    """the condition (with polarity) says that the file could not be opened"""
    while c.k == "un" and c.a[0] == "!":
        c, pol = c.a[1], not pol
    if c.k == "call" and any(x is name for x in subterms(c)):
        n = c.a[0].split("::")[-1]
        if n in ("is_open", "good", "operator conv"):
            return not pol
        if n in ("operator!", "fail"):
            return pol
    return False


def lines_of(f, rule, xs, sep=",", what="file"):
    try:
        L = text.row(xs, sep, f.V)
    except text.Bad as e:
        f.ob(rule, "format of the " + what, False, "%s: %s" % (e, text.shown(xs)[:300]))
        return None
    f.ob(rule, "format of the " + what, True)
    return L


def entries(f, cols, n, elem):
    """the columns are elem(0) ... elem(n-1)"""
    cols = [c for c in cols if c[0] != "open"]
    if len(cols) == 2 and cols[0][0] == "each" and cols[1][0] == "val":
        rng = cols[0][1]
        return rng[1] is ZERO and eq_(f, op("+", rng[2], ONE), n) and ent(f, rng, cols[0][2], elem) and eq_(f, cols[1][1], elem(sub(n, ONE)))
    if len(cols) == 2 and cols[1][0] == "each" and cols[0][0] == "val":
        rng = cols[1][1]
        return rng[1] is ONE and eq_(f, rng[2], n) and ent(f, rng, cols[1][2], elem) and eq_(f, cols[0][1], elem(ZERO))
    if len(cols) != 1 or cols[0][0] != "each" or len(cols[0]) > 3:
        return False
    rng = cols[0][1]
    return rng[1] is ZERO and eq_(f, rng[2], n) and ent(f, rng, cols[0][2], elem)


def ent(f, rng, t, elem):
    lv, lo_, hi = rng
    class St:
        facts = [x for x in (f.st.facts if not isinstance(f.st.facts, dict) else f.st.facts.items()) if not contains_(x[0], lv)]
    H = Hyp().from_state(St)
    H.add(lo_, "<=", lv)
    H.add(lv, "<", hi)
    V = Val(H)
    try:
        return V.eq(t, elem(lv))
    except Big:
        return False


def eq_(f, a, b):
    try:
        return a is b or f.V.eq(a, b)
    except Big:
        return False


def rows_(f, L, n, cols, elem):
    """one block of n lines, line i has the entries elem(i, j)"""
    if len(L) != 1 or len(L[0]) != 1 or L[0][0][0] != "lines":
        return False
    _, rng, sub_ = L[0][0]
    return rng[1] is ZERO and eq_(f, rng[2], n) and len(sub_) == 1 and sub_[0][-1] != ("open",) and entries(f, sub_[0], cols, lambda k: elem(rng[0], k))


# ------------------------------------------------------------------ reading
def grows(I, v):
    """v is a container filled by a loop that appends exactly one element per iteration: (loop, element) or None"""
    if v.k != "lv":
        return None
    info = I.loops.get(v.a[0])
    if info is None or v.a[1] not in info["mod"]:
        return None
    a, b = info["mod"][v.a[1]]
    if a.k != "obj" or len(a.a) != 1 or b.k != "push" or b.a[0] is not info["hv"].get(v.a[1]):
        return None
    return info, b.a[1]


COMMA = INT(ord(","))


def one_line_per(I, info, sep=()):
    """the loop reads one line of a file (or one cell of a line) per iteration: (stream before the loop, line) or None"""
    for l, (a, b) in info["mod"].items():
        h = info["hv"].get(l)
        if h is not None and b.k == "got" and b.a[0] is h and b.a[1:] == sep:
            return a, mk("in", h, *sep), l
    return None


def tokens(I, v, line):
    """position of the token of the line that v was read from"""
    if v.k != "in" or v.a[1:] != (COMMA,):
        return None
    n, t = 0, v.a[0]
    while t.k == "got":
        if t.a[1:] != (COMMA,):
            return None
        n += 1
        t = t.a[0]
    if t.k == "obj" and "stringstream" in str(t.a[0]) and len(t.a) > 1 and t.a[1] is line:
        return n
    return None


def number(t):
    if t.k == "call" and t.a[0].split("::")[-1] in ("stod", "stoi", "stoul", "stol", "atof", "strtod"):
        return t.a[1], t.a[0].split("::")[-1]
    if t.k == "un" and t.a[0] in ("unsigned", "int", "unsigned int"):
        return number(t.a[1])
    return None, None


def guarded(I, info, l):
    """the loop goes on as long as a line was read"""
    g = info.get("guard")
    return g


def F01_matrices(ctx):
    """matrices and vectors in CSV files"""
    r = "csv-files"
    f = Fn(ctx, MAT + "::saveAsCSV", ["basic_string<char>&", "int", "vector<basic_string<char>>&"])
    nr_, nc_ = dimq("nrows", ME), dimq("ncols", ME)
    hd = f.par(2)
    xs, v = written(f, r, f.par(0))
    if xs is not None:
        f.ob(r, "precision", bool(text.precision(xs)) and all(p is f.par(1) for p in text.precision(xs)), "precisions %s" % [show(p) for p in text.precision(xs)])
        L = lines_of(f, r, xs)
        if L is not None:
            head = L[0][0] if L and len(L[0]) == 1 and L[0][0][0] == "if" else None
            ok = head is not None
            if ok:
                c, a, b = head[1:]
                if b:
                    c, a, b = neg(c), b, a
                ok = not b and len(a) == 1 and f.V.iff(c, neg(op("==", size(hd), ZERO))) and entries(f, a[0], size(hd), lambda k: at(hd, k))
                if not ok and len(a) == 1:
                    ok = f.V.iff(c, neg(op("==", size(hd), ZERO))) and entries(f, a[0], nc_, lambda k: at(hd, k))
            f.ob(r, "header", ok, "first line is %s" % (head,))
            f.ob(r, "rows and columns", rows_(f, L[1 if head else 0:], nr_, nc_, lambda i, j: el(ME, i, j)), "lines are %s" % (L,))
    not_open(f, r, f.par(0))
    must(f, r, op("||", op("==", size(hd), ZERO), op("==", size(hd), nc_)), "a header of another size")
    # reading
    f = Fn(ctx, MAT + "::readFromCSV", ["basic_string<char>&", "bool"])
    me = f.load(THIS)
    D = dimq("nrows", me)
    D = D.a[0] if D.k == "size" else None
    gr = grows(f.I, D) if D is not None else None
    f.ob(r, "one row per line", gr is not None, "rows are %s" % show(dimq("nrows", me))[:200])
    if gr is not None:
        info, row_ = gr
        ln = one_line_per(f.I, info)
        f.ob(r, "lines of the file", ln is not None and opens(f, ln[0], f.par(0)), "reads %s" % (show(ln[0])[:100] if ln else "?"))
        g2 = grows(f.I, row_)
        f.ob(r, "one element per cell", g2 is not None, "row is %s" % show(row_)[:100])
        if ln is not None and g2 is not None:
            cell, how = number(g2[1])
            c2 = one_line_per(f.I, g2[0], (COMMA,))
            ok = how == "stod" and c2 is not None and cell is c2[1] and c2[0].k == "obj" and "stringstream" in str(c2[0].a[0]) and c2[0].a[1] is ln[1]
            f.ob(r, "cells of the line", ok, "element is %s" % show(g2[1])[:200])
            base = ln[0]
            h = f.par(1)
            first = strip_open(base)
            ok = first.k == "ite" and (first.a[0] is h and first.a[1].k == "got" and strip_open(first.a[1].a[0]) is strip_open(first.a[2]) or
                                       first.a[0] is neg(h) and first.a[2].k == "got" and strip_open(first.a[2].a[0]) is strip_open(first.a[1]))
            f.ob(r, "the first line is skipped exactly when there is a header", ok, "starts with %s" % show(base)[:200])
        nc2 = dimq("ncols", me)
        f.eq(r, "number of columns", nc2, size(mk("elem", D, ZERO)))
        f.elems(r, "elements", me, mk("elem", mk("elem", D, I_), J_), mk("tup", I_, J_), [(ZERO, "<=", I_), (I_, "<", size(D)), (ZERO, "<=", J_), (J_, "<", nc2)])
        bad = False
        for s, typ, node, fr in f.I.throws[0]:
            for c, pol in s.path:
                if c.k == "op" and c.a[0] == "==" and not pol and any(x is nc2 for x in c.a) and any(x.k == "size" and x.a[0].k == "elem" and x.a[0].a[0] is D for x in c.a[1:]):
                    bad = True
        f.ob(r, "rejects rows of different lengths", bad, "there is no such test")
        must(f, r, neg(op("==", size(D), ZERO)), "a file without data")
    not_open(f, r, f.par(0))
    # vectors
    f = Fn(ctx, VEC + "::appendToCSV", ["basic_string<char>&", "int"])
    xs, v = written(f, r, f.par(0), True)
    if xs is not None:
        f.ob(r, "precision", bool(text.precision(xs)) and all(p is f.par(1) for p in text.precision(xs)), "precisions %s" % [show(p) for p in text.precision(xs)])
        L = lines_of(f, r, xs)
        if L is not None:
            f.ob(r, "one line with all elements", len(L) == 1 and L[0][-1] != ("open",) and entries(f, L[0], N, lambda k: at(ME, k)), "lines are %s" % (L,))
    not_open(f, r, f.par(0))
    cnt = None
    for s, typ, node, fr in f.I.throws[0]:
        for c, pol in s.path:
            if c.k == "op" and c.a[0] == "==" and not pol and any(x is N for x in c.a) and any(x.k == "lv" for x in c.a[1:]):
                lv_ = [x for x in c.a if isinstance(x, absint.T) and x.k == "lv"][0]
                info = f.I.loops.get(lv_.a[0])
                m = info["mod"].get(lv_.a[1]) if info else None
                if m and m[0] is ZERO and m[1] is op("+", info["hv"][lv_.a[1]], ONE):
                    src = one_line_per(f.I, info, (COMMA,))
                    cnt = src is not None and any(x is f.par(0) for x in subterms(src[0]))
    f.ob(r, "rejects a file with another number of columns", bool(cnt), "there is no such test")
    f = Fn(ctx, VEC + "::saveToCSV", ["basic_string<char>&"])
    xs, v = written(f, r, f.par(0))
    if xs is not None:
        try:
            L = text.row(xs, "\n", f.V)
        except text.Bad as e:
            L = []
        ok = len(L) == 1 and L[0] and (L[0][0][0] == "each" and entries(f, L[0], N, lambda k: at(ME, k)) or L[0][0][0] == "lines" and rows_(f, L, N, ONE, lambda i, j: at(ME, i)))
        if not ok and len(L) == 1 and L[0][0][0] == "lines":
            rng, sb = L[0][0][1:]
            ok = rng[1] is ZERO and eq_(f, rng[2], N) and len(sb) == 1 and len(sb[0]) == 1 and sb[0][0][0] == "val" and ent(f, rng, sb[0][0][1], lambda k: at(ME, k))
        f.ob(r, "one element per line", bool(ok), "writes %s" % text.shown(xs)[:300])
        exact(f, r, xs)
    not_open(f, r, f.par(0))
    f = Fn(ctx, VEC + "::readFromCSV", ["basic_string<char>&"])
    me = f.load(THIS)
    D = dimq("size", me)
    D = norm(D, f.H)
    D = D.a[0] if D.k == "size" else None
    gr = grows(f.I, D) if D is not None else None
    f.ob(r, "one element per line", gr is not None, "size is %s" % show(dimq("size", me))[:200])
    if gr is not None:
        info, e_ = gr
        ln = one_line_per(f.I, info)
        f.ob(r, "lines of the file", ln is not None and opens(f, ln[0], f.par(0)), "reads %s" % (show(ln[0])[:100] if ln else "?"))
        ok = ln is not None and (e_.k == "in" and e_.a[0].k == "obj" and e_.a[0].a[1] is ln[1] or number(e_)[0] is ln[1])
        f.ob(r, "element is the number of the line", ok, "element is %s" % show(e_)[:100])
        f.elems(r, "elements", me, mk("elem", D, K), K, [(ZERO, "<=", K), (K, "<", size(D))])
    not_open(f, r, f.par(0))


def strip_open(v):
    while v.k == "mut":
        v = v.a[1]
    return v


def must(f, r, cond, what):
    """a normal return needs cond"""
    c = TRUE
    for x, p in f.st.path:
        c = op("&&", c, x if p else neg(x))
    try:
        ok = Val(Hyp()).implies(c, cond)
    except Big:
        ok = False
    f.ob(r, "rejects " + what, ok, "returns normally when %s" % show(c)[:300])


def exact(f, r, xs):
    """numbers are written with all their digits"""
    ps = text.precision(xs)
    ok = bool(ps) and all(big_enough(p) for p in ps) and not any(x[0] == "manip" and x[1] == "fixed" for x in flat_items(xs))
    f.ob(r, "numbers are written with all their digits", ok, "precisions %s" % [show(p) for p in ps])


def flat_items(xs):
    for x in xs:
        yield x
        if x[0] == "loop":
            yield from flat_items(x[2])
        if x[0] == "if":
            yield from flat_items(x[2])
            yield from flat_items(x[3])


def big_enough(p):
    if p.k == "int":
        return 17 <= p.a[0] < 100
    return "max_digits10" in show(p)


def failed(c, pol, stream):
    """the condition says that reading failed"""
    if not isinstance(c, absint.T):
        return False
    while c.k == "un" and c.a[0] == "!":
        c, pol = c.a[1], not pol
    if c is stream:
        return not pol
    if c.k == "call" and any(x is stream for x in c.a[1:]):
        n = c.a[0].split("::")[-1]
        if n in ("operator!", "fail", "bad"):
            return pol
        return not pol
    return False


# ------------------------------------------------------------------ designs
def digits(p, n):
    return p.k == "int" and n <= p.a[0] < 100 or "max_digits10" in show(p)


def precise(f, r, xs, n):
    ps = text.precision(xs)
    f.ob(r, "numbers are written with at least %d digits" % n, bool(ps) and all(digits(p, n) for p in ps) and not any(x[0] == "manip" and x[1] == "fixed" for x in flat_items(xs)), "precisions %s" % [show(p) for p in ps])


def F02_designs(ctx):
    """design parameters and designs written to files"""
    r = "design-files"
    S = ["basic_string<char>&"]
    inl_ = inline_classes(DES, VEC, stop=("log", "getInstance"))
    f = Fn(ctx, DES + "::saveDesignVector", S, inl=inl_)
    dp = init(fld(DES, "designParameters"))
    xs, v = written(f, r, f.par(0), False)
    if xs is not None:
        precise(f, r, xs, 10)
        L = lines_of(f, r, xs, "\t")
        if L is not None:
            ok = len(L) == 1 and rows_(f, L, size(dp), ONE, lambda i, j: at(dp, i))
            if not ok and len(L) == 1 and L[0][0][0] == "lines":
                rng, sb = L[0][0][1:]
                ok = rng[1] is ZERO and eq_(f, rng[2], size(dp)) and len(sb) == 1 and len(sb[0]) == 1 and sb[0][0][0] == "val" and ent(f, rng, sb[0][0][1], lambda k: at(dp, k))
            f.ob(r, "one parameter per line, in order", bool(ok), "writes %s" % text.shown(xs)[:300])
    not_open(f, r, f.par(0))
    rejects(f, r, op("==", size(f.par(0)), ZERO), "an empty file name")
    f = Fn(ctx, DES + "::saveDesignVectorAsCSVFile", S, inl=inl_)
    xs, v = written(f, r, f.par(0), False)
    if xs is not None:
        precise(f, r, xs, 10)
        L = lines_of(f, r, xs)
        if L is not None:
            f.ob(r, "one line with all parameters, in order", len(L) == 1 and entries(f, L[0], size(dp), lambda k: at(dp, k)), "writes %s" % text.shown(xs)[:300])
    not_open(f, r, f.par(0))
    rejects(f, r, op("==", size(f.par(0)), ZERO), "an empty file name")
    f = Fn(ctx, DES + "::saveToAFile", ["basic_string<char>"], inl=inl_)
    name = f.par(0)
    cv, m, fe = init(fld(DES, "constraintTrueValues")), init(fld(DES, "numberOfConstraints")), init(fld(DES, "isDesignFeasible"))
    xs, v = written(f, r, name, False)
    if xs is not None:
        for cons in (True, False):
            for ok_ in (True, False):
                def fix(ys):
                    out = []
                    for y in ys:
                        if y[0] == "if":
                            c = decide(y[1], [neg(op("==", m, ZERO)) if cons else op("==", m, ZERO), fe if ok_ else neg(fe)])
                            t = c in (TRUE, ONE) or Val().iff(c, TRUE)
                            e = c in (FALSE, ZERO)
                            out += fix(y[2]) if t else fix(y[3]) if e else [y]
                        elif y[0] == "val":
                            out += text.item(decide(y[1], [neg(op("==", m, ZERO)) if cons else op("==", m, ZERO), fe if ok_ else neg(fe)]))
                        else:
                            out.append(y)
                    return out
                ys = fix(xs)
                what = "%s constraints, %sfeasible" % ("with" if cons else "without", "" if ok_ else "not ")
                L = lines_of(f, r, ys, "\t", "design (%s)" % what)
                if L is None:
                    continue
                vals = [x for x in L if not (len(x) == 1 and x[0][0] == "lit")]
                good = len(vals) == (4 if cons else 3) and vals[0] == [("val", init(fld(DES, "tag")))] and block(f, vals[1], dp) and vals[2] == [("val", init(fld(DES, "trueValue")))] and (not cons or block(f, vals[3], cv))
                f.ob(r, "tag, parameters, objective value%s in order (%s)" % (", constraint values" if cons else "", what), good, "writes %s" % text.shown(ys)[:300])
                lits = "\n".join(x[0][1] for x in L if len(x) == 1 and x[0][0] == "lit")
                f.ob(r, "feasibility (%s)" % what, ("YES" in lits) == ok_ and ("NO" in lits) != ok_, "writes %s" % lits[:200])
    not_open(f, r, name)
    rejects(f, r, op("==", size(name), ZERO), "an empty file name")


def block(f, ln, v):
    if len(ln) != 1 or ln[0][0] != "lines":
        return False
    rng, sb = ln[0][1:]
    return rng[1] is ZERO and eq_(f, rng[2], size(v)) and len(sb) == 1 and len(sb[0]) == 1 and sb[0][0][0] == "val" and ent(f, rng, sb[0][0][1], lambda k: at(v, k))


# ------------------------------------------------------------------ populations
def G06_population(ctx):
    """populations written to and read from files"""
    r = "population-file"
    S = ["basic_string<char>&"]
    f = efn(ctx, EAP, "writeToCSV", S)
    p0 = init(fld(EAP, "population"))
    d = init(fld(EAP, "dimension"))
    FIELDS = ("id", "objectiveFunctionValue", "fitness", "reproductionProbability", "deathProbability")
    g = lambda i, n: f.I.fldval(mk("elem", p0, i), EAI + "::" + n)
    xs, v = written(f, r, f.par(0), False)
    if xs is not None:
        precise(f, r, xs, 9)
        L = lines_of(f, r, xs)
        if L is not None:
            heads = [x for x in L if not (len(x) == 1 and x[0][0] == "lines")]
            body = [x for x in L if len(x) == 1 and x[0][0] == "lines"]
            ok = len(heads) == 1 and L[0] is heads[0] and all(c[0] == "lit" for c in heads[0][:5]) and len(heads[0]) == 6 and heads[0][5][0] == "each" and \
                heads[0][5][1][1] is ZERO and eq_(f, heads[0][5][1][2], d)
            f.ob(r, "header", ok, "first line is %s" % (heads[:1],))
            ok = len(body) == 1 and len(L) == 2
            if ok:
                rng, sb = body[0][0][1:]
                ok = rng[1] is ZERO and eq_(f, rng[2], size(p0)) and len(sb) == 1 and len(sb[0]) == 6
                f.ob(r, "one line per individual", ok, "lines are %s" % (body,))
                if ok:
                    for c, n in zip(sb[0], FIELDS):
                        f.ob(r, "column %s" % n, c[0] == "val" and ent(f, rng, c[1], lambda i: g(i, n)), "column is %s" % show(c[1])[:100] if c[0] == "val" else str(c))
                    c = sb[0][5]
                    G = g(rng[0], "genes")
                    f.ob(r, "genes", c[0] == "each" and entries(f, [c[:3]], size(G), lambda k: at(G, k)), "columns are %s" % (c,))
            else:
                f.ob(r, "one line per individual", False, "lines are %s" % (L,))
    not_open(f, r, f.par(0))
    rejects(f, r, op("==", size(f.par(0)), ZERO), "an empty file name")
    # reading
    f = efn(ctx, EAP, "readFromCSV", S, hooks=AtCalls("getline"))
    p1 = f.load(fld(EAP, "population"))
    d = init(fld(EAP, "dimension"))
    info = f.I.loops.get(p1.a[0]) if p1.k == "lv" else None
    if info is None:
        f.ob(r, "one individual per line", False, "population is %s" % show(p1)[:200])
        return
    a, b = info["mod"][p1.a[1]]
    f.ob(r, "the previous population is dropped", size_zero(f, a), "starts with %s" % show(a)[:100])
    h = info["hv"].get(p1.a[1])
    ok = b.k == "push" and b.a[0] is h
    f.ob(r, "one individual per line", ok, "adds %s" % show(b)[:200])
    ln = one_line_per(f.I, info)
    f.ob(r, "lines of the file", ln is not None and opens(f, ln[0], f.par(0)), "reads %s" % (show(ln[0])[:100] if ln else "?"))
    if ln is not None:
        s = strip_open(ln[0])
        f.ob(r, "the header is skipped", s.k == "got" and strip_open(s.a[0]).k == "obj", "starts with %s" % show(s)[:100])
    if ok and ln is not None:
        ind = b.a[1]
        for k, n in enumerate(FIELDS):
            x = f.I.fldval(ind, EAI + "::" + n)
            c, how = number(x)
            f.ob(r, "%s is cell %d" % (n, k + 1), c is not None and tokens(f.I, c, ln[1]) == k and (how == "stod" or n == "id"), "is %s" % show(x)[:200])
        G = f.I.fldval(ind, EAI + "::genes")
        ok, msg = genes_of(f, G, ln[1], d)
        f.ob(r, "genes are the cells from the sixth on, in order", ok, msg)
        for k in range(5):
            f.ob(r, "a missing cell %d is an error" % (k + 1), missing(f, lambda t: tokens(f.I, t, ln[1]) == k), "a line that ends before it is accepted")
        f.ob(r, "a missing gene is an error", missing(f, lambda t: t.k == "in" and t.a[1:] == (COMMA,) and t.a[0].k == "lv" and five(f, t.a[0], ln[1])), "a line that ends before it is accepted")
    not_open(f, r, f.par(0))
    rejects(f, r, op("==", size(f.par(0)), ZERO), "an empty file name")


def five(f, h, line):
    """h is the stream of the line after the first five cells, before a loop"""
    info = f.I.loops.get(h.a[0])
    return info is not None and h.a[1] in info["mod"] and tokens(f.I, mk("in", info["mod"][h.a[1]][0], COMMA), line) == 5


def missing(f, cell):
    """it is an error when the cell cannot be read"""
    for s, typ, node, fr in f.I.throws[0]:
        for c, pol in s.path:
            for d, p in disjuncts(c, pol):
                if d.k == "op" and d.a[0] == "==" and ZERO in d.a and p:
                    z = [y.a[0] for y in d.a[1:] if y.k == "size" and y.a[0].k == "in" and cell(y.a[0])]
                    if z and any(n == "getline" and a[0] is z[0].a[0] and empty(a[1]) for n, o, a, w, s2 in f.I.hooks.got if len(a) > 1):
                        return True
                for y in subterms(d):
                    if y.k == "got" and cell(mk("in", *y.a)) and failed(d, p, y):
                        return True
    return False


def disjuncts(c, pol):
    """conditions each of which is enough"""
    if c.k == "un" and c.a[0] == "!":
        return disjuncts(c.a[1], not pol)
    if c.k == "op" and c.a[0] == ("||" if pol else "&&"):
        return [y for x in c.a[1:] for y in disjuncts(x, pol)]
    if c.k == "ite" and c.a[1] in (TRUE, ONE, FALSE, ZERO):
        t = c.a[1] in (TRUE, ONE)
        if t == pol:
            return disjuncts(c.a[0], True) + disjuncts(c.a[2], pol)
    if c.k == "ite" and c.a[2] in (TRUE, ONE, FALSE, ZERO) and (c.a[2] in (TRUE, ONE)) == pol:
        return disjuncts(c.a[0], False) + disjuncts(c.a[1], pol)
    return [(c, pol)]


def empty(t):
    return t.k == "str" and t.a[0] == "" or t.k == "obj" and len(t.a) == 1


def size_zero(f, t):
    return empty(t) or f.V.eq(size(t), ZERO)


def genes_of(f, G, line, d):
    """the genes are the d cells of the line that follow the first five"""
    for x in subterms(G):
        info = f.I.loops.get(x.a[0]) if x.k == "lv" else None
        if info is None or not info.get("range") or x.a[1] not in info["mod"]:
            continue
        rng = info["range"]
        a, b = info["mod"][x.a[1]]
        h = info["hv"].get(x.a[1])
        val = None
        if b.k == "push" and b.a[0] is h and empty(a):
            val = b.a[1]
        elif b.k == "upd" and b.a[0] is h and b.a[1] is rng[0]:
            val = b.a[2]
        if val is None:
            continue
        c, how = number(val)
        if how != "stod" or c.k != "in" or c.a[1:] != (COMMA,) or not five(f, c.a[0], line):
            return False, "a gene is %s" % show(val)[:200]
        l, (s0, s1) = [(l, m) for l, m in info["mod"].items() if info["hv"].get(l) is c.a[0]][0]
        if not (s1.k == "got" and s1.a[0] is c.a[0]):
            return False, "more than one cell is read for a gene"
        if not (rng[1] is ZERO and eq_(f, rng[2], d)):
            return False, "reads %s genes" % show(rng[2])
        H = Hyp(f.H.facts) if hasattr(f.H, "facts") else Hyp()
        H.add(ZERO, "<=", K)
        H.add(K, "<", d)
        H.add(size(x), "==", d)
        V = Val(H)
        try:
            ok = V.eq(at(G, K), at(x, K)) and (V.eq(size(G), d) or V.eq(size(G), size(x)))
        except Big:
            ok = False
        return ok, "genes are %s" % show(G)[:200]
    return False, "genes are %s" % show(G)[:200]
