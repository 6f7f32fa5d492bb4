"""Optimisation results: best-so-far selection, history rows, improvement, search boxes, candidates, discrete parameters."""
from .common import *
from .content import Hyp, content, norm, lform, simp
from .opt import OPT, OBJF, CONF, HIST, GOD, DES, DBO, EGO, inl_opt

LAST = None


def is_init_field(t, fq):
    return t.k == "init" and t.a[0].k == "F" and t.a[0].a[1] == fq


def fold_select(ctx, rule, key, I, rv_lv, N, sel, val, where, what):
    """rv_lv: loop value (index or value).  Proves: after the loop it designates an element i in [0,N) with sel(i) and
    minimal val(i) among the selected ones.  sel(i): predicate given atom evaluation; val(i): term"""
    f = Fold(I, rv_lv)
    if not f.ok:
        return ctx.ob(rule, key, where, False, "%s is not maintained by a complete pass over the rows" % what)
    H = Hyp()
    i = f.i
    ok = f.lo is INT(0) and (norm(f.hi, H) is N or H.eq(norm(f.hi, H), N))
    ctx.ob(rule, key + ": every row is considered", where, ok, "%s is selected from rows %s..%s instead of all %s rows" % (what, show(f.lo), show(f.hi), show(N)))
    V = val(i)
    nx = norm(f.next, H)
    isidx = None

    def new_ok(t):
        return t is i or alg_eq(t, V)
    C = update_cond(nx, rv_lv, new_ok)
    if C is None:
        return ctx.ob(rule, key, where, False, "%s can become something else than the row under test (%s)" % (what, show(nx)[:200]))
    C = norm(C, H)
    # loop values the condition compares with
    best = None
    flag = None
    for l in find_lvs(C, f.lid):
        if l is i:
            continue
        g = Fold(I, l)
        if not g.ok:
            continue
        gx = norm(g.next, H)
        cu = update_cond(gx, l, lambda t: alg_eq(t, V))
        if cu is not None and cu is not FALSE and (is_huge(g.init)):
            best = l
            e = same_cond(norm(cu, H), C)
            ctx.ob(rule, key + ": best value and selected row change together", where, e is None,
                   "the best value and the selected row are updated under different conditions")
            continue
        fc = flag_update_cond(gx, l)
        if fc is not None and g.init is FALSE:
            flag = l
            e = same_cond(norm(fc, H), C)
            ctx.ob(rule, key + ": found flag set exactly when a row is selected", where, e is None,
                   "the found flag and the selected row are updated under different conditions")
    if best is None and alg_eq(norm(rv_lv, H), rv_lv) and C is not None:
        # value at the currently selected index
        for x in subterms(C):
            if x is val(rv_lv):
                best = x
    if best is None:
        return ctx.ob(rule, key, where, False, "%s is not compared with the best value so far" % what)
    s = sel(i)
    less = op("<", V, best)
    leq = op("<=", V, best)
    specs = []
    for l in (less, leq):
        specs.append(op("&&", s, l))
        if flag is not None:
            specs.append(op("&&", s, op("||", neg(flag), l)))
    ok = any(same_cond(C, sp) is None for sp in specs)
    ctx.ob(rule, key + ": selects the smallest value among the admissible rows", where, ok,
           "%s changes when: %s" % (what, show(C)[:300]))
    return ok


def split01(C, x):
    """replace conditions that only test x against constants by a canonical atom (x is 0 or 1)"""
    canon = op("<", INT(0), x)

    def conv(t):
        if t.k == "un" and t.a[0] == "!":
            return neg(conv(t.a[1]))
        if t.k == "op" and t.a[0] in ("&&", "||"):
            return op(t.a[0], conv(t.a[1]), conv(t.a[2]))
        if t.k == "ite":
            return ite(conv(t.a[0]), conv(t.a[1]), conv(t.a[2]))
        if contains(t, x) and t.k in ("op", "init", "elem", "call"):
            z = [subst(t, {x: INT(v)}) for v in (0, 1)]
            z = [num(y) for y in z]
            if None not in z:
                if z == [False, True]:
                    return canon
                if z == [True, False]:
                    return neg(canon)
                return TRUE if z[0] else FALSE
        return t
    return conv(C)


def num(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.k == "int":
        return t.a[0] != 0
    if t.k == "op" and t.a[0] in ("<", "<=", "==") and all(y.k in ("int", "flt") for y in t.a[1:]):
        a, b = float(t.a[1].a[0]), float(t.a[2].a[0])
        return a < b if t.a[0] == "<" else a <= b if t.a[0] == "<=" else a == b
    if t.k == "call" and canon_fun(t.a[0]) == "fabs" and t.a[1].k in ("int", "flt"):
        return None
    return None


def O03_best(ctx):
    f = ctx.prog.fn(GOD + "::setGlobalOptimalDesignFromHistoryFile")
    stop = ("generateXml", "generateXmlVector")
    I, st, rv = run(ctx, f, None, inline_classes(GOD, DES, stop=stop), GOD)
    w = f.where()
    HM = mk("init", mk("D", mk("p", f.p[0]["n"])))
    if not f.p[0]["t"].endswith("&"):
        HM = mk("init", mk("P", f.p[0]["n"]))
    dim = init(fld(DES, "dimension"))
    dim2 = init(fld(GOD, "dimension"))
    NR, NCOL = mk("nrows", HM), mk("ncols", HM)
    flds = {x["q"].split("::")[-1]: x["q"] for c in (GOD, DES) for x in ctx.prog.fields(c)}
    dimf = init(F(THIS, flds["dimension"]))
    nc = init(F(THIS, flds["numberOfConstraints"]))
    H = Hyp().from_state(st)
    for x in (dimf, nc):
        absint.UNSIGNED.add(x)
    H.add(NCOL, "==", op("+", op("+", dimf, nc), INT(3)))

    def value(name):
        return I.load(st, F(THIS, flds[name]))

    def cell(r, c):
        return content(HM, mk("tup", r, c), H)
    tv = norm(value("trueValue"), H)
    rule = "best-of-history"
    if not (tv.k == "init" and tv.a[0].k == "E" and tv.a[0].a[0] is HM.a[0] and tv.a[0].a[1].k == "tup"):
        ctx.ob(rule, "objective of the reported optimum is a cell of the history", w, False,
               "the reported objective value is %s" % show(tv)[:200])
        return
    idx, col = tv.a[0].a[1].a
    ctx.ob(rule, "objective of the reported optimum is the objective column of the selected row", w, H.eq(col, dimf),
           "objective taken from column %s" % show(col))
    k = mk("sym", "k")
    absint.UNSIGNED.add(k)
    Hk = H.copy().add(k, "<", dimf)
    dp = content(value("designParameters"), k, Hk)
    ctx.ob(rule, "parameters of the reported optimum are the parameter columns of the selected row", w,
           same_cell(dp, HM, idx, k, Hk), "parameter k of the reported optimum is %s" % show(dp)[:200])
    ctx.ob(rule, "number of parameters of the reported optimum", w, H.eq(norm(dimq_(value("designParameters")), H), dimf),
           "the reported optimum has %s parameters" % show(dimq_(value("designParameters"))))
    Hc = H.copy().add(k, "<", nc)
    ct = content(value("constraintTrueValues"), k, Hc)
    ctx.ob(rule, "constraint values of the reported optimum are the constraint columns of the selected row", w,
           same_cell(ct, HM, idx, op("+", op("+", dimf, INT(1)), k), Hc), "constraint k of the reported optimum is %s" % show(ct)[:200])
    iv = norm(value("improvementValue"), H)
    ctx.ob(rule, "improvement of the reported optimum is the improvement column of the selected row", w,
           same_cell(iv, HM, idx, op("-", NCOL, INT(2)), H), "improvement of the reported optimum is %s" % show(iv)[:200])
    nv = value("designParametersNormalized")
    lbub = [mk("call", "Rodop::Bounds::" + n, I.load(st, F(THIS, flds["boxConstraints"]))) for n in ("getLowerBounds", "getUpperBounds")]
    ok = nv.k == "call" and nv.a[0] == "Rodop::vec::normalizeVector" and len(nv.a) == 4 and nv.a[2] is lbub[0] and nv.a[3] is lbub[1] \
        and same_cell(content(nv.a[1], k, Hk), HM, idx, k, Hk)
    ctx.ob(rule, "normalised parameters use the box constraints", w, ok,
           "normalised parameters of the optimum are %s" % show(nv)[:200])
    # the selected row
    fl = I.load(st, F(THIS, flds["isDesignFeasible"]))
    found = norm(fl, H)
    last = op("+", NCOL, INT(-1))

    def obj(i):
        return content(HM, mk("tup", i, dimf), H)

    def feas(i):
        return content(HM, mk("tup", i, last), H)
    at = found
    lv = None
    fallback = None
    if idx.k == "ite":
        lv, fallback = (idx.a[1], idx.a[2])
        ctx.ob(rule, "fallback row only when no feasible row exists", w, same_cond(idx.a[0], found) is None,
               "the row selection distinguishes '%s' while feasibility is reported as '%s'" % (show(idx.a[0])[:120], show(found)[:120]))
    else:
        lv = idx
    if lv.k != "lv":
        ctx.ob(rule, "selected row is found by searching the history", w, False, "the selected row is %s" % show(lv)[:200])
        return
    fo = Fold(I, lv)
    if fo.ok:
        # feasibility column holds 0 or 1
        i = fo.i
        for nm in list(fo.info["mod"]):
            a, b = fo.info["mod"][nm]
            fo.info["mod"][nm] = (a, deep_conv(norm(b, H), feas(i)))
        fo = Fold(I, lv)
        if found.k == "lv":
            g = Fold(I, found)
            c = flag_update_cond(norm(g.next, H), found) if g.ok else None
            c2 = update_cond(norm(fo.next, H), lv, lambda t: t is i)
            ctx.ob(rule, "reported as feasible exactly when a feasible row was selected", w,
                   c is not None and c2 is not None and g.init is FALSE and same_cond(c, c2) is None,
                   "the feasibility of the reported optimum is not the existence of a feasible row")
        else:
            ctx.ob(rule, "reported as feasible exactly when a feasible row was selected", w, False,
                   "the feasibility of the reported optimum is %s" % show(found)[:200])
    fold_select(ctx, rule, "feasible minimum", I, lv, NR, lambda i: op("<", INT(0), feas(i)), obj, w, "the reported optimum")
    if fallback is not None:
        okf = fallback.k == "call" and fallback.a[0].endswith("vec::findMinIndex") and fallback.a[1].k == "call" \
            and fallback.a[1].a[0].endswith("mat::getCol") and fallback.a[1].a[1] is HM and H.eq(fallback.a[1].a[2], dimf)
        if not okf and fallback.k == "lv":
            okf = fold_select(ctx, rule, "fallback minimum", I, fallback, NR, lambda i: TRUE, obj, w, "the fallback row")
        ctx.ob(rule, "without a feasible row the smallest objective is reported", w, okf, "fallback row is %s" % show(fallback)[:200])
    else:
        ctx.ob(rule, "without a feasible row the smallest objective is reported", w, False, "no fallback row is selected when no row is feasible")
    ctx.ob(rule, "recorded row number", w, norm(value("ID"), H) is idx, "the reported design number is %s" % show(value("ID"))[:120])
    O03_xml(ctx, flds)


def dimq_(v):
    return absint.mksize(v)


def deep_conv(t, x):
    if t.k == "ite":
        return ite(split01(t.a[0], x), deep_conv(t.a[1], x), deep_conv(t.a[2], x))
    if t.k == "op" and t.a[0] in ("&&", "||") or t.k == "un":
        return split01(t, x)
    return t


def same_cell(t, M, r, c, H):
    return t.k == "init" and t.a[0].k == "E" and t.a[0].a[0] is M.a[0] and t.a[0].a[1].k == "tup" and \
        t.a[0].a[1].a[0] is r and H.eq(t.a[0].a[1].a[1], c)


def O03_xml(ctx, flds):
    f = ctx.prog.fn(GOD + "::generateXmlString")
    w = f.where()
    calls = []
    rule = "optimum-xml"

    class Hk(Hooks):
        def on_call(self, I, st, c):
            if c.n in ("generateXml", "generateXmlVector") and c.args and not I.quiet:
                calls.append((c, st.copy()))
                return mk("xml", *c.args)
    I, st, rv = run(ctx, f, Hk(), inline_classes(GOD, stop=("generateXml", "generateXmlVector")), GOD)
    feasf = init(F(THIS, flds["isDesignFeasible"]))
    want = {"ObjectiveFunction": init(F(THIS, flds["trueValue"])), "DesignParameters": init(F(THIS, flds["designParameters"])),
            "ConstraintValues": init(F(THIS, flds["constraintTrueValues"])), "DesignID": init(F(THIS, flds["ID"]))}
    szc = mk("size", want["ConstraintValues"])

    def present(name, val, assume):
        """element is part of the text on every path compatible with assume"""
        bad = []

        def go(t, s):
            # text contains the element on all branches
            if t.k == "xml":
                return t.a[0] is mk("str", name) and val_ok(t.a[1], val, s)
            if t.k == "ite":
                r = True
                for b, p in ((t.a[1], True), (t.a[2], False)):
                    s2 = s.copy()
                    if add_fact(s2, t.a[0], p):
                        r = r and go(b, s2)
                return r
            if t.k == "op" and t.a[0] == "+":
                return go(t.a[1], s) or go(t.a[2], s)
            if t.k in ("put", "call", "obj", "fld"):
                return any(go(x, s) for x in t.a if isinstance(x, T))
            return False
        s0 = State()
        for a, p in assume:
            if not add_fact(s0, a, p):
                return True
        return go(rv, s0)

    def val_ok(t, v, s):
        while t.k == "ite":
            if holds(s, t.a[0], True):
                t = t.a[1]
            elif holds(s, t.a[0], False):
                t = t.a[2]
            else:
                return False
        return t is v
    for nm in ("ObjectiveFunction", "DesignParameters"):
        ctx.ob(rule, "element " + nm, w, present(nm, want[nm], ()), "the XML text does not always contain %s with the design's value" % nm)
    ctx.ob(rule, "element ConstraintValues", w, present("ConstraintValues", want["ConstraintValues"], [(op("==", szc, INT(0)), False)]),
           "the XML text lacks the constraint values of a constrained problem")
    for p, v in ((True, "YES"), (False, "NO")):
        ctx.ob(rule, "element Feasibility is %s when %s" % (v, "feasible" if p else "infeasible"), w, present("Feasibility", mk("str", v), [(feasf, p)]),
               "the XML text does not report Feasibility %s for %s design" % (v, "a feasible" if p else "an infeasible"))
    # the element text carries the value
    for g in ctx.prog.byq.get(GOD + "::generateXml", []) + ctx.prog.byq.get(GOD + "::generateXmlVector", []):
        I2, st2, rv2 = run(ctx, g, None, None, GOD)
        pv = mk("init", mk("D", mk("p", g.p[1]["n"]))) if g.p[1]["t"].endswith("&") else mk("init", mk("P", g.p[1]["n"]))
        t0 = mk("init", mk("D", mk("p", g.p[0]["n"]))) if g.p[0]["t"].endswith("&") else mk("init", mk("P", g.p[0]["n"]))
        puts = []
        for x in subterms(rv2):
            if x.k == "put":
                puts.append(x.a[1])
        for lid, inf in I2.loops.items():
            for loc, (a, b) in inf["mod"].items():
                for x in subterms(b):
                    if x.k == "put":
                        puts.append(x.a[1])
        okv = any(contains(x, pv) or any(y.k == "init" and y.a[0].k == "E" and pv.a[0] is y.a[0].a[0] for y in subterms(x)) for x in puts)
        okn = any(contains(x, t0) for x in puts)
        ctx.ob(rule, "element text of %s(%s)" % (g.n, g.p[1]["t"]), g.where(), okv and okn, "the element does not contain its name and value")
        if g.n == "generateXmlVector":
            cover = [inf["range"] for inf in I2.loops.values() if "range" in inf]
            ctx.ob(rule, "every component of a vector element is written", g.where(),
                   any(lo is INT(0) and norm(hi, Hyp()) is mk("size", pv) for _, lo, hi in cover), "not every component is written")
    g = ctx.prog.fn(GOD + "::saveToXMLFile")

    class Hs(Hooks):
        def on_call(self, I, st, c):
            if c.n == "generateXmlString":
                return mk("sym", "xmltext")
    I3, st3, rv3 = run(ctx, g, Hs(), None, GOD)
    xf = init(F(THIS, flds["xmlFileName"]))
    streams = [v for l, v in st3.store.items() if any(x.k == "put" for x in subterms(v))]
    ok = any(any(x.k == "put" and contains(x.a[1], mk("sym", "xmltext")) for x in subterms(v)) and contains(v, xf) for v in streams)
    ctx.ob(rule, "the text is written to the configured file", g.where(), ok, "saveToXMLFile does not write the text to the configured file")
    okopen = any(f.k == "call" and f.a[0].endswith("is_open") and p for f, p in st3.facts) or \
        any(f.k == "call" and ("fail" in f.a[0] or "operator!" in f.a[0]) and not p for f, p in st3.facts) or \
        any(f.k in ("obj", "call") and "stream" in str(f.a[0]) and p for f, p in st3.facts)
    ctx.ob(rule, "a file that cannot be opened is an error", g.where(), okopen, "saveToXMLFile can return normally although the file was not opened")


def sym(name):
    s = mk("sym", name)
    absint.UNSIGNED.add(s)
    return s


def pval(f, i):
    p = f.p[i]
    return mk("init", mk("D", mk("p", p["n"]))) if p["t"].endswith("&") else mk("init", mk("P", p["n"]))


def ploc(f, i):
    p = f.p[i]
    return mk("D", mk("p", p["n"])) if p["t"].endswith("&") else mk("P", p["n"])


def truth_table01(ctx, rule, key, w, t, cond, msg):
    """numeric flag t is 1 (positive) exactly when cond"""
    e = same_cond(flag_cond(t), cond)
    return ctx.ob(rule, key, w, e is None, msg + ": " + show(t)[:200])


def flag_cond(t):
    """condition under which a numeric 0/1 value is positive"""
    if t.k in ("int", "flt"):
        return TRUE if float(t.a[0]) > 0 else FALSE
    if t.k == "ite":
        return ite(t.a[0], flag_cond(t.a[1]), flag_cond(t.a[2]))
    return t


def O04_history(ctx):
    rule = "history-row"
    f = ctx.prog.fn(HIST + "::updateOptimizationHistory")
    w = f.where()
    cap = {}

    class Hk(Hooks):
        def on_call(self, I, st, c):
            if c.n == "saveAsCSV" and not I.quiet:
                cap["save"] = (st.copy(), I.load(st, c.obj), c)
    I, st, rv = run(ctx, f, Hk(), inline_classes(HIST, DES), HIST)
    D = pval(f, 0)
    dimf = init(fld(HIST, "dimension"))
    nc = mk("size", init(fld(HIST, "constraintNames")))
    absint.UNSIGNED.add(dimf)
    dataf = fld(HIST, "data")
    newdata = I.load(st, dataf)
    H = Hyp().from_state(st)

    def dfield(n):
        return init(F(D.a[0], DES + "::" + n))
    old = init(dataf)
    nr = mk("nrows", old)

    def cell(c, extra=()):
        h = H.copy()
        for a in extra:
            h.add(*a)
        return content(newdata, mk("tup", nr, c), h), h
    k = sym("k")
    add = newdata.k == "mut" and newdata.a[0].endswith("::addRow")
    ctx.ob(rule, "the record is appended below the existing rows", w,
           H.eq(norm(absint.dimq("nrows", newdata), H), op("+", nr, INT(1))) and
           content(newdata, mk("tup", k, sym("c")), H.copy().add(k, "<", nr)) is init(E(dataf, mk("tup", k, sym("c")))),
           "the history after the update is not the old history with one row appended: %s" % show(newdata)[:200])
    rowlen = None
    if add:
        rowlen = norm(absint.mksize(newdata.a[2]), H)
        ctx.ob(rule, "row length", w, H.eq(rowlen, op("+", op("+", dimf, nc), INT(3))), "a history row has %s entries" % show(rowlen))
    v, h = cell(k, [(k, "<", dimf)])
    ctx.ob(rule, "parameter columns", w, v is init(E(dfield("designParameters").a[0], k)), "column k holds %s instead of parameter k" % show(v)[:200])
    v, h = cell(dimf)
    ctx.ob(rule, "objective column", w, v is dfield("trueValue"), "the objective column holds %s" % show(v)[:200])
    v, h = cell(op("+", op("+", dimf, k), INT(1)), [(k, "<", nc)])
    ctx.ob(rule, "constraint columns", w, v is init(E(dfield("constraintTrueValues").a[0], k)), "constraint column k holds %s" % show(v)[:200])
    v, h = cell(op("+", op("+", dimf, nc), INT(1)))
    ctx.ob(rule, "improvement column", w, v is dfield("improvementValue"), "the improvement column holds %s" % show(v)[:200])
    v, h = cell(op("+", op("+", dimf, nc), INT(2)))
    truth_table01(ctx, rule, "feasibility column", w, v, dfield("isDesignFeasible"), "the feasibility column is not the design's feasibility")
    sv = cap.get("save")
    ctx.ob(rule, "history file rewritten with the new row", w, sv is not None and sv[1] is newdata and
           sv[2].args[0] is init(fld(HIST, "filename")), "the history file is not rewritten with the row just added")
    if sv:
        header_ok(ctx, rule, w)
        pr = sv[2].args[1] if len(sv[2].args) > 1 else INT(6)
        ctx.ob(rule, "at least six digits are stored", w, pr.k == "int" and pr.a[0] >= 6, "the history file is written with precision %s" % show(pr))
    O04_initial(ctx)
    O04_feas(ctx)
    O04_initial_best(ctx)


def header_ok(ctx, rule, w):
    """column titles: parameters, Objective, constraints, Improvement, Feasibility"""
    from .sur import Fn, AtCalls, decide, size, add, K, INT, ONE, ZERO
    at_ = AtCalls("saveAsCSV")
    f = Fn(ctx, HIST + "::updateOptimizationHistory", None, inl=inline_classes(HIST, DES, stop=("log", "getInstance")), hooks=at_)
    hd = at_.got[-1][2][2] if at_.got and len(at_.got[-1][2]) > 2 else None
    if not ctx.ob(rule, "history file has a header", w, hd is not None, "the history is saved without a header"):
        return
    d, pn, cn = (init(fld(HIST, x)) for x in ("dimension", "parameterNames", "constraintNames"))
    none, m = op("==", size(pn), ZERO), size(cn)

    def title(what, named, i, want, fact=()):
        h = Hyp()
        if named:
            h.add(size(pn), "==", d)
        for a, hi in fact:
            h.add(ZERO, "<=", a).add(a, "<", hi)
        v = decide(hd, [neg(none) if named else none])
        v = content(subst(v, {size(pn): d}) if named else v, i, h)
        ctx.ob(rule, "header names the columns in order", w, norm(v, h) is norm(want, h) or alg_eq(v, want), "the title of the %s is %s%s" % (what, show(v)[:200], "" if named else " if the parameters have no names"))
    for named in (True, False):
        title("parameter columns", named, K, mk("elem", pn, K) if named else op("+", mk("str", "x"), mk("call", "std::to_string", op("+", K, ONE))), [(K, d)])
        title("objective column", named, d, mk("str", "Objective"))
        title("constraint columns", named, add(add(d, ONE), K), mk("elem", cn, K), [(K, m)])
        title("improvement column", named, add(add(d, ONE), m), mk("str", "Improvement"))
        title("feasibility column", named, add(add(d, INT(2)), m), mk("str", "Feasibility"))
        h = Hyp()
        if named:
            h.add(size(pn), "==", d)
        n = size(decide(hd, [neg(none) if named else none]))
        ctx.ob(rule, "number of column titles", w, h.eq(norm(n, h), add(add(d, m), INT(3))), "there are %s titles" % show(n)[:200])


def O04_initial(ctx):
    """rows made from the initial training data"""
    rule = "history-initial"
    f = ctx.prog.fn(OPT + "::setOptimizationHistoryData")
    w = f.where()
    cap = {}
    rows = []

    class Hk(Hooks):
        def on_call(self, I, st, c):
            if I.quiet:
                return
            if c.q == HIST + "::setData":
                cap["data"] = (c.args[0], st.copy())
            if c.q == MAT0 + "::getRow" and c.obj is not None and c.args[0] is not INT(-1):
                rows.append((c.args[0], absint.dimq("nrows", I.load(st, c.obj)), st.copy(), I.where(c.node)))
            if c.n == "saveOptimizationHistoryFile" and "data" in cap:
                cap["saved"] = True
            if c.n == "calculateInitialImprovementValue" and "data" in cap:
                cap["impr"] = True
    stop = ("setOptimizationHistoryDataFeasibilityValues", "findTheGlobalOptimalDesign", "checkConstraintFeasibility")

    class Hk2(Hk):
        def on_call(self, I, st, c):
            r = Hk.on_call(self, I, st, c)
            if c.n == "setOptimizationHistoryDataFeasibilityValues":
                if not I.quiet:
                    cap["feas"] = True
                return VOID0
            return r
    I, st, rv = run(ctx, f, Hk2(), inline_classes(OPT, stop=stop), OPT)
    if "data" not in cap:
        ctx.ob(rule, "history set from the training data", w, False, "the initial history is never set")
        return
    M, s = cap["data"]
    dimf = init(fld(OPT, "dimension"))
    ncf = init(fld(OPT, "numberOfConstraints"))
    for x in (dimf, ncf):
        absint.UNSIGNED.add(x)
    TD = None
    for x in subterms(M):
        if x.k == "call" and x.a[0].endswith("::getTrainingData") and field_in_term(x, OPT + "::objFun"):
            TD = x
    if TD is None:
        ctx.ob(rule, "initial rows come from the objective's training data", w, False, "the objective's training data is not read")
        return
    H = Hyp()
    N = mk("nrows", TD)
    for r_, n_, s_, w_ in rows:
        h_ = Hyp().from_state(s_)
        r_, n_ = norm(r_, h_), norm(n_, h_)
        ctx.ob(rule, "rows of the samples exist", w_, h_.le(INT(0), r_) and h_.lt(r_, n_), "row %s of %s rows is asked for" % (show(r_)[:80], show(n_)[:120]))
    i, k = sym("i"), sym("k")
    nrow = norm(absint.dimq("nrows", M), H)
    ncol = norm(absint.dimq("ncols", M), H)
    ctx.ob(rule, "one row per training sample", w, H.eq(nrow, N), "the initial history has %s rows" % show(nrow))
    ctx.ob(rule, "columns of the initial history", w, H.eq(ncol, op("+", op("+", dimf, ncf), INT(3))), "the initial history has %s columns" % show(ncol))
    h = H.copy().add(i, "<", N).add(k, "<=", dimf)
    # the sample's own columns: constraint columns lie behind them
    for cid in {x for x in subterms(M) if x.k == "call" and x.a[0].endswith("::getID")}:
        absint.UNSIGNED.add(cid)
    v = content(M, mk("tup", i, k), h)
    good = mk("elem", TD, mk("tup", i, k))
    vs = set(alts(v))
    ctx.ob(rule, "parameters and objective copied from the training data", w, vs == {good}, "entry (i,k) is %s" % show(v)[:300])
    # constraint segments
    segs = []

    def searched(fr, data, row):
        """the sample's parameters are looked up in the parameter columns of all rows of the data"""
        m, x = fr.a[1], fr.a[2]
        j = sym("j")
        Hd = H.copy().add(INT(0), "<=", j).add(j, "<", mk("nrows", data)).add(INT(0), "<=", k).add(k, "<", dimf)
        hx = H.copy().add(INT(0), "<=", k).add(k, "<", dimf).add(INT(0), "<=", row).add(row, "<", N)
        ok = H.eq(norm(absint.dimq("nrows", m), H), mk("nrows", data)) and H.eq(norm(absint.dimq("ncols", m), H), dimf) and \
            set(alts(content(m, mk("tup", j, k), Hd))) == {mk("elem", data, mk("tup", j, k))} and \
            H.eq(norm(absint.dimq("size", x), H), dimf) and set(alts(content(x, k, hx))) == {mk("elem", TD, mk("tup", row, k))}
        tol = eval_small(fr.a[3]) if len(fr.a) > 3 else 0.0
        return ok and tol is not None and 0 < tol <= 1e-4

    def collect(t):
        if t.k == "ite":
            collect(t.a[1])
            collect(t.a[2])
        elif t.k in ("fill", "upd"):
            if t.k == "fill":
                segs.extend(t.a[1])
            collect(t.a[0])
    collect(M)
    cs = []
    for sg in segs:
        c = comps(sg.a[2])
        if len(c) == 2 and any(x.k == "call" and x.a[0].endswith("::getID") for x in subterms(c[1])):
            cs.append(sg)
    CFE = fld(OPT, "constraintFunctions")
    seen = {"found": False, "user": False, ">": False, "<": False}
    allcol = True
    for sg in set(cs):
        rngs, cond, idx, val = sg.a
        crow, ccol = idx.a
        cb = [r.a[0] for r in rngs if H.eq(norm(r.a[2], H), mk("size", init(CFE)))]
        rb = [r.a[0] for r in rngs if r.a[1] is INT(0) and H.eq(norm(r.a[2], H), N)]
        if not cb or not rb:
            allcol = False
            continue
        cid = [x for x in subterms(ccol) if x.k == "call" and x.a[0].endswith("::getID")][0]
        if not H.eq(norm(ccol, H), op("+", op("+", dimf, cid), INT(1))) or not contains(cid, cb[0]) or crow is not rb[0]:
            allcol = False
        val = norm(val, H)
        if any(x.k == "call" and x.a[0].endswith("::callUserDefinedFunction") for x in subterms(val)):
            cc = [x for x in subterms(val) if x.k == "call" and x.a[0].endswith("::callUserDefinedFunction")][0]
            xk = content(cc.a[2], k, H.copy().add(k, "<", dimf).add(rb[0], "<", N))
            xs = set(alts(xk))
            seen["user"] = xs == {mk("elem", TD, mk("tup", rb[0], k))} and contains(cc.a[1], cb[0])
        elif val.k == "elem":
            fr = [x for x in subterms(val.a[1]) if x.k == "call" and x.a[0].endswith("::findRowIndex")]
            okv = val.a[0].k == "call" and val.a[0].a[0].endswith("::getTrainingData") and val.a[1].k == "tup" and fr and \
                val.a[1].a[0] is fr[0] and H.eq(val.a[1].a[1], dimf) and contains(val.a[0], cb[0])
            neg1 = fr and implies_nonneg(cond, fr[0]) and reachable_with(cond, fr[0], 0) and reachable_with(cond, fr[0], 1)
            seen["found"] = bool(okv and neg1) and searched(fr[0], val.a[0], rb[0])
        elif is_huge(val) or is_minus_huge(val):
            for tp in (">", "<"):
                if any(y is mk("str", tp) for y in subterms(cond)) and cond_type(cond, tp) and (is_minus_huge(val) if tp == ">" else is_huge(val)):
                    seen[tp] = True
    ctx.ob(rule, "constraint values stored in the column of their constraint", w, bool(cs) and allcol, "a constraint value is stored outside column dimension+1+ID")
    ctx.ob(rule, "constraint value looked up in the constraint's own data", w, seen["found"], "the value of a data-driven constraint is not taken from the matching row of its own data")
    ctx.ob(rule, "user-defined constraint evaluated at the sample", w, seen["user"], "a user-defined constraint is not evaluated at the sample's parameters")
    ctx.ob(rule, "unmatched sample counts as violating a '>' constraint", w, seen[">"], "a sample without constraint value is not marked as violating a '>' constraint")
    ctx.ob(rule, "unmatched sample counts as violating a '<' constraint", w, seen["<"], "a sample without constraint value is not marked as violating a '<' constraint")
    ctx.ob(rule, "feasibility column computed before the history is set", w, cap.get("feas", False), "the feasibility column is not computed")
    ctx.ob(rule, "history saved", w, cap.get("saved", False), "the initial history is not saved")
    ctx.ob(rule, "initial best value taken from the history", w, cap.get("impr", False), "the initial best value is not computed")


MAT0 = "Rodop::mat"
from .content import comps
from rodsa.absint import VOID as VOID0


def eval_small(t):
    from .opt5 import eval_num
    try:
        return float(eval_num(t))
    except Exception:
        return None


def implies_nonneg(cond, x):
    s = State()
    if not add_fact(s, cond, True):
        return True
    return holds(s, op("<=", INT(0), x), True) or holds(s, op("==", x, INT(-1)), False)


def reachable_with(cond, x, v):
    """the condition can hold when x has the value v"""
    c = absint.rebuild(subst(cond, {x: INT(v)})) if hasattr(absint, "rebuild") else subst(cond, {x: INT(v)})
    return num(c) is not False and add_fact(State(), c, True) is not False


def cond_type(cond, tp):
    s = State()
    add_fact(s, cond, True)
    for f, p in s.facts:
        if f.k == "op" and f.a[0] == "==" and p and f.a[2] is mk("str", tp):
            return True
    # '<' as the only other type
    other = "<" if tp == ">" else ">"
    for f, p in s.facts:
        if f.k == "op" and f.a[0] == "==" and not p and f.a[2] is mk("str", other):
            return True
    return False


def O04_feas(ctx):
    """feasibility column of the initial rows"""
    rule = "history-feasibility"
    f = ctx.prog.fn(OPT + "::setOptimizationHistoryDataFeasibilityValues")
    w = f.where()
    seen = []

    def hk(I, st, c):
        if c.n == "checkConstraintFeasibility":
            return mk("feas", c.args[0])
        if c.n == "checkIfBoxConstraintsAreSatisfied":
            return mk("inbox", c.args[0])

    class Hk(Hooks):
        def on_call(self, I, st, c):
            return hk(I, st, c)
    I, st, rv = run(ctx, f, Hk(), inline_classes(OPT), OPT)
    out = I.load(st, ploc(f, 0))
    HM = pval(f, 0)
    H = Hyp()
    i, k = sym("i"), sym("k")
    NR, NCOL = mk("nrows", HM), mk("ncols", HM)
    dimf, ncf = init(fld(OPT, "dimension")), init(fld(OPT, "numberOfConstraints"))
    for x in (dimf, ncf):
        absint.UNSIGNED.add(x)
    v = content(out, mk("tup", i, op("+", NCOL, INT(-1))), H.copy().add(i, "<", NR))
    at = []
    atoms_of(v, at)
    fe = {x for x in subterms(v) if x.k == "feas"}
    ib = {x for x in subterms(v) if x.k == "inbox"}
    unc = op("==", ncf, INT(0))
    cond = flag_cond(v)
    h = H.copy().add(i, "<", NR).add(NCOL, "==", op("+", op("+", dimf, ncf), INT(3)))
    okfe = all(same_cell(content(x.a[0], k, h.copy().add(k, "<", ncf)), HM, i, op("+", op("+", dimf, INT(1)), k), h) for x in fe) and fe
    okib = all(same_cell(content(x.a[0], k, h.copy().add(k, "<", dimf)), HM, i, k, h) for x in ib) and ib
    ctx.ob(rule, "feasibility decided on the row's own constraint values", w, bool(okfe), "the constraint values tested are not those of the row: %s" % show(v)[:200])
    ctx.ob(rule, "box constraints tested on the row's own parameters", w, bool(okib), "the parameters tested against the box are not those of the row")
    if fe and ib:
        fe0, ib0 = sorted(fe)[0], sorted(ib)[0]
        spec = op("||", unc, op("&&", fe0, ib0))
        e = same_cond(cond, spec)
        ctx.ob(rule, "row feasible exactly when all constraints and the box hold", w, e is None and len(fe) == 1 and len(ib) == 1,
               "feasibility of an initial row is wrong when %s" % (show_env(e) if e else ""))
    # other columns untouched
    c = sym("c")
    u = content(out, mk("tup", i, c), H.copy().add(i, "<", NR).add(c, "<", op("+", NCOL, INT(-1))))
    ctx.ob(rule, "the other columns are left alone", w, set(alts(u)) == {init(E(HM.a[0], mk("tup", i, c)))}, "the feasibility pass changes other columns: %s" % show(u)[:200])
    # box test itself
    g = ctx.prog.fn(OPT + "::checkIfBoxConstraintsAreSatisfied")
    box_test(ctx, rule, g)


def box_test(ctx, rule, g):
    from .sur import Fn, exists, at, size
    from .bounds import iff_
    f = Fn(ctx, OPT + "::checkIfBoxConstraintsAreSatisfied", None, inl=inline_classes(OPT, stop=("log", "getInstance")))
    d, lb, ub = (init(fld(OPT, n)) for n in ("dimension", "lowerBounds", "upperBounds"))
    absint.UNSIGNED.add(d)
    x = f.par(0)
    outside = exists(d, lambda i: op("||", op("<", at(x, i), at(lb, i)), op("<", at(ub, i), at(x, i))))
    ctx.ob(rule, "box test compares every component with its own bounds", g.where(), iff_(f, f.rv, neg(outside), [(size(x), d), (size(lb), d)]),
           "the box test does not compare every component with its lower and upper bound: %s" % show(f.rv)[:300])


def O04_initial_best(ctx):
    rule = "history-initial-best"
    f = ctx.prog.fn(HIST + "::calculateInitialImprovementValue")
    w = f.where()
    I, st, rv = run(ctx, f, None, inline_classes(HIST), HIST)
    H = Hyp()
    data = init(fld(HIST, "data"))
    dimf = init(fld(HIST, "dimension"))
    NR, NCOL = mk("nrows", data), mk("ncols", data)
    t = norm(rv, H)
    if t.k != "ite":
        ctx.ob(rule, "best feasible value or the sentinel", w, False, "the initial best value is %s" % show(t)[:200])
        return
    cond, a, b = t.a
    if a.k != "lv":
        cond, a, b = neg(cond), b, a
    if a.k != "lv":
        ctx.ob(rule, "best feasible value or the sentinel", w, False, "the initial best value is %s" % show(t)[:200])
        return
    ctx.ob(rule, "sentinel when nothing is feasible", w, is_minus_huge(b), "without a feasible sample the value is %s" % show(b))
    obj = lambda i: content(data, mk("tup", i, dimf), H)
    fe = lambda i: content(data, mk("tup", i, op("+", NCOL, INT(-1))), H)
    fo = Fold(I, a)
    if fo.ok:
        i = fo.i
        for nm in list(fo.info["mod"]):
            x, y = fo.info["mod"][nm]
            fo.info["mod"][nm] = (x, deep_conv(norm(y, H), fe(i)))
    fold_select(ctx, rule, "initial best value", I, a, NR, lambda i: op("<", INT(0), fe(i)), obj, w, "the initial best value")
    g = Fold(I, cond) if cond.k == "lv" else None
    ok = False
    if g is not None and g.ok:
        fo = Fold(I, a)
        c1 = flag_update_cond(norm(g.next, H), cond)
        c2 = update_cond(norm(fo.next, H), a, lambda t: True)
        ok = c1 is not None and c2 is not None and g.init is FALSE and same_cond(c1, c2) is None
    ctx.ob(rule, "best value used exactly when a feasible sample exists", w, ok, "the sentinel and the best value are confused")
