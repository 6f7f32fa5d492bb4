"""The C++ interface: what the optimiser is given, the order of a run, the design of experiments."""
from .design import *
from .files import grows, ent, eq_, big_enough

AP = "Rodop::RobustDesignOptimizer"
OP = "Rodop::Optimizer"
BO = "Rodop::Bounds"
RUN = ("performEfficientGlobalOptimization",)
STOP = ("setBoxConstraints", "addObjectFunction", "addConstraint", "setMaximumNumberOfIterations", "parseExpression", "saveAsCSV", "fillRandom", "fillRandomLHS", "chdir") + RUN


def afn(ctx, name, *names, **kw):
    stop = STOP + tuple(kw.pop("stop", ()))
    at_ = AtCalls(*names)
    f = Fn(ctx, AP + "::" + name, None, inl=inline_classes(AP, OF, CF, CD, BO, VEC, MAT, OP, OFD, stop=stop), hooks=at_, **kw)
    f.o = Obj(f, AP)
    f.at = at_
    return f


def field(f, x, st, q):
    """field q of the object x passed to a call"""
    y = x
    while y.k == "snap":
        for o in y.a[1]:
            if o.a[0] == q:
                return o.a[1]
        y = y.a[0]
    if y.k in ("L", "F", "D", "E", "P"):
        return f.I.load(st, F(y, q))
    return mk("fld", y, q)


def inner(x, q):
    y = x
    while y.k == "snap":
        for o in y.a[1]:
            if o.a[0] == q:
                return o.a[1]
        y = y.a[0]
    return mk("init", F(y.a[0], q)) if y.k == "init" else mk("fld", y, q)


def the_call(f, r, name, obj, what):
    """the one call of name on every path that is not rejected"""
    g = [c for c in f.at.got if c[0] == name]
    ok = len(g) == 1 and (obj is None or g[0][1] is obj) and always(f, g[0][4])
    f.ob(r, what, ok, "%d calls of %s%s" % (len(g), name, "" if len(g) != 1 else " on %s when %s" % (show(g[0][1]) if g[0][1] is not None else "", show(pcond(g[0][4]))[:200])))
    return g[0] if ok else None


def always(f, st):
    """the state's path is taken whenever the function returns"""
    c = pcond(st)
    end = TRUE
    for t, p in f.st.path:
        end = op("&&", end, t if p else neg(t))
    if c in (TRUE, ONE):
        return True
    try:
        return Val(Hyp()).implies(end, c)
    except Big:
        return False


def only_rejects(f, r, invalid, what):
    """every exception raised here (not in a call, not out of memory) is for an invalid input"""
    H = Hyp()
    for s, typ, node, fr in f.I.throws[0]:
        if any(x[0].k in ("in", "exc", "dispatch") for x in s.path):
            continue
        c = path_cond(s.path)
        if c is not None and c.k == "op" and any(t.k == "call" and t.a[0] == "newarr" or t.k == "newarr" for t in last_atoms(s.path)):
            continue
        try:
            ok = c is not None and Val(H).implies(c, invalid)
        except Big:
            ok = False
        if not ok:
            f.ob(r, "accepts " + what, False, "throws when %s" % (show(c)[:400] if c is not None else "(undecided)"))
            return
    f.ob(r, "accepts " + what, True)


def last_atoms(path):
    c, p = path[-1]
    return [t for t in subterms(c)] if p and c.k == "op" and c.a[0] == "==" else []


def any_of(*cs):
    t = FALSE
    for c in cs:
        t = op("||", t, c)
    return t


def A01_problem(ctx):
    """what the user states is what the optimiser is given"""
    r = "problem"
    OPT = fld(AP, "optimizer")
    oo = lambda f, n: f.load(F(OPT, OP + "::" + n))
    f = afn(ctx, "setDimension")
    f.eq(r, "dimension", f.o.new("dimension"), f.par(0))
    f.eq(r, "dimension of the optimiser", oo(f, "dimension"), f.par(0))
    f.ob(r, "dimension is specified", yes_(f, f.o.new("isDimensionSpecified")), "is %s" % show(f.o.new("isDimensionSpecified")))
    # bounds
    f = afn(ctx, "setBoxConstraints", "setBoxConstraints")
    d = f.o.old("dimension")
    lb, ub = (mk("P", p["n"]) for p in f.f.p[:2])
    c = the_call(f, r, "setBoxConstraints", OPT, "the optimiser is given the bounds")
    val = lambda p, i: init(E(mk("D", init(p)), i))
    for v, p in (("lowerBounds", lb), ("upperBounds", ub)):
        own = f.o.new(v)
        f.eq(r, "number of %s" % v, size(own), d)
        f.elems(r, v, own, val(p, K), K, [(ZERO, "<=", K), (K, "<", d)])
        if c is not None:
            b = field(f, c[2][0], c[4], BO + "::" + v)
            f.eq(r, "number of %s of the optimiser" % v, size(b), d)
            f.elems(r, v + " of the optimiser", b, val(p, K), K, [(ZERO, "<=", K), (K, "<", d)])
    if c is not None:
        f.eq(r, "dimension of the bounds", field(f, c[2][0], c[4], BO + "::dimension"), d)
    rejects(f, r, op("==", d, ZERO), "bounds before the dimension")
    if not crossed_rejected(f, d, val, lb, ub):
        f.ob(r, "crossed bounds are rejected", False, "accepts them")
    else:
        f.ob(r, "crossed bounds are rejected", True)
    only_rejects(f, r, any_of(op("==", d, ZERO), exists(d, lambda i: op("<=", val(ub, i), val(lb, i)))), "bounds that are not crossed")
    f.ob(r, "bounds are specified", yes_(f, f.o.new("areBoxConstraintsSpecified")), "is not set")
    # objective
    f = afn(ctx, "setObjectiveFunction", "addObjectFunction")
    fn, nm, fl = f.par(0), f.par(1), f.par(2)
    c = the_call(f, r, "addObjectFunction", OPT, "the optimiser is given the objective function")
    if c is not None:
        function(f, r, c, "objective function", fn, nm, fl)
    f.ob(r, "objective function is stored", f.o.new("objectiveFunctionPtr") is fn, "is %s" % show(f.o.new("objectiveFunctionPtr")))
    f.ob(r, "training data file is stored", f.o.new("objectiveFunctionTrainingFilename") is fl, "is %s" % show(f.o.new("objectiveFunctionTrainingFilename"))[:100])
    f.ob(r, "objective function is specified", yes_(f, f.o.new("isObjectiveFunctionSpecified")), "is not set")
    only_rejects(f, r, any_of(op("==", size(nm), ZERO), op("==", size(fl), ZERO), op("==", fn, mk("null"))), "a function with name and training data")
    for what, cond in (("a function without name", op("==", size(nm), ZERO)), ("a function without training data", op("==", size(fl), ZERO)), ("a missing function", op("==", fn, mk("null")))):
        rejects(f, r, cond, what)
    # constraints
    f = afn(ctx, "addConstraint", "addConstraint", "parseExpression")
    fn, ex, fl = f.par(0), f.par(1), f.par(2)
    pe = [t for t in subterms(f.at.got[-1][2][0]) if is_call(t, "Rodop::parseExpression")] if f.at.got else []
    c = the_call(f, r, "addConstraint", OPT, "the optimiser is given the constraint")
    PE = mk("call", "Rodop::parseExpression", ex)
    part_ = lambda n: mk("fld", PE, "Rodop::ParsedConstraintExpression::" + n)
    if c is not None:
        function(f, r, c, "constraint", fn, part_("name"), fl)
        cd = field(f, c[2][0], c[4], CF + "::definitionConstraint")
        m = f.o.old("numberOfConstraints")
        for n, w in (("constraintName", part_("name")), ("inequalityType", part_("inequality")), ("value", part_("value")), ("ID", m)):
            x = inner(cd, CD + "::" + n)
            f.ob(r, "constraint: " + n, same_(f, x, w), "is %s" % show(x)[:200])
    m = f.o.old("numberOfConstraints")
    f.eq(r, "number of constraints", f.o.new("numberOfConstraints"), add(m, ONE))
    for v, w in (("constraintFunctionPtr", fn), ("constraintsTrainingDataFilename", fl)):
        z, old = f.o.new(v), f.o.old(v)
        f.eq(r, v + ": one more", size(z), add(size(old), ONE))
        f.elems(r, v + ": new element", z, w, size(old))
        f.elems(r, v + ": earlier elements", z, at(old, K), K, [(ZERO, "<=", K), (K, "<", size(old))])
    sign = part_("inequality")
    only_rejects(f, r, any_of(op("==", size(ex), ZERO), op("==", size(fl), ZERO), op("==", fn, mk("null")), op("==", size(part_("name")), ZERO),
                              op("&&", neg(op("==", sign, mk("str", "<"))), neg(op("==", sign, mk("str", ">"))))), "a constraint with expression and training data")
    for what, cond in (("a constraint without expression", op("==", size(ex), ZERO)), ("a constraint without training data", op("==", size(fl), ZERO)), ("a missing function", op("==", fn, mk("null")))):
        rejects(f, r, cond, what)
    # other settings
    f = afn(ctx, "setMaxNumberOfFunctionEvaluations", "setMaximumNumberOfIterations")
    f.eq(r, "number of evaluations", f.o.new("numberOfFunctionEvaluations"), f.par(0))
    c = the_call(f, r, "setMaximumNumberOfIterations", OPT, "the optimiser is given the number of evaluations")
    if c is not None:
        f.ob(r, "number of evaluations of the optimiser", c[2][0] is f.par(0) or same_(f, c[2][0], f.par(0)), "is %s" % show(c[2][0])[:100])
    f = afn(ctx, "setDoEOn")
    f.eq(r, "number of samples", f.o.new("numberOfSamplesForDoE"), f.par(0))
    f.ob(r, "design of experiments is on", yes_(f, f.o.new("startWithDoE")), "is not")
    f = afn(ctx, "setNameOfTrainingDataFile")
    f.ob(r, "name of the training data", f.o.new("objectiveFunctionTrainingFilename") is f.par(0), "is %s" % show(f.o.new("objectiveFunctionTrainingFilename"))[:100])
    f.ob(r, "name of the study is kept", f.o.new("name") is f.o.old("name"), "becomes %s" % show(f.o.new("name"))[:100])
    rejects(f, r, op("==", size(f.par(0)), ZERO), "an empty file name")
    f = afn(ctx, "setName")
    f.ob(r, "name", f.o.new("name") is f.par(0), "is %s" % show(f.o.new("name"))[:100])
    f.ob(r, "name of the optimiser", oo(f, "name") is f.par(0), "is %s" % show(oo(f, "name"))[:100])
    rejects(f, r, op("==", size(f.par(0)), ZERO), "an empty name")
    f = afn(ctx, "setCurrentWorkingDirectory")
    f.ob(r, "working directory", f.o.new("cwd") is f.par(0), "is %s" % show(f.o.new("cwd"))[:100])
    rejects(f, r, op("==", size(f.par(0)), ZERO), "an empty working directory")
    g = [t for c, p in f.st.path for t in subterms(c) if t.k == "call" and t.a[0].endswith("is_directory") and contains_(t, f.par(0))]
    f.ob(r, "asks whether it is a directory", bool(g), "does not")
    if g:
        rejects(f, r, neg(g[0]), "what is not a directory")
        only_rejects(f, r, any_of(op("==", size(f.par(0)), ZERO), neg(g[0])), "a directory")
    # strategy of the design of experiments
    f = afn(ctx, "setDoEStrategy")
    z, x = f.o.new("DoEType"), par_any(f, 0)
    low = [t for t in subterms(z) if any(isinstance(y, str) and y.split("::")[-1].split("(")[0] == "tolower" or isinstance(y, T) and "tolower" in show(y)[:60] for y in t.a)]
    f.ob(r, "strategy is the given one in lower case", bool(low) and contains_(z, x), "is %s" % show(z)[:200])
    rejects(f, r, op("&&", neg(op("==", z, mk("str", "lhs"))), neg(op("==", z, mk("str", "random")))), "a strategy that does not exist")
    only_rejects(f, r, any_of(op("==", size(x), ZERO), op("&&", neg(op("==", z, mk("str", "lhs"))), neg(op("==", z, mk("str", "random"))))), "the two strategies")
    f = afn(ctx, "RobustDesignOptimizer")
    for n, w in (("dimension", ZERO), ("numberOfFunctionEvaluations", ZERO), ("startWithDoE", ZERO), ("numberOfConstraints", ZERO), ("isDimensionSpecified", ZERO),
                 ("isObjectiveFunctionSpecified", ZERO), ("areBoxConstraintsSpecified", ZERO), ("DoEType", mk("str", "random"))):
        f.ob(r, "initially: " + n, f.o.new(n) is w or (w is ZERO and f.o.new(n) is FALSE), "is %s" % show(f.o.new(n)))
    f.ob(r, "initially: the optimiser logs through the interface", oo(f, "ifAPIisUsed") in (ONE, TRUE), "is %s" % show(oo(f, "ifAPIisUsed")))


def par_any(f, i):
    p = f.f.p[i]
    return init(mk("D", mk("p", p["n"]))) if p["t"].endswith("&") else init(mk("P", p["n"]))


def A01_expression(ctx):
    """a constraint expression is a name, an inequality sign and a number"""
    r = "expression"
    f = Fn(ctx, "Rodop::parseExpression", None)
    x = par_any(f, 0)
    PX = "Rodop::ParsedConstraintExpression"
    s = None
    for n, what, depth in (("name", "the first word", 0), ("inequality", "the second word", 1), ("value", "the third word", 2)):
        v = inner(f.rv, PX + "::" + n)
        d, t = 0, v.a[0] if v.k == "in" else None
        while t is not None and t.k == "got":
            d, t = d + 1, t.a[0]
        f.ob(r, "%s is %s" % (n, what), t is not None and t.k == "obj" and d == depth and whole(f, t.a[1], x), "is %s" % show(v)[:300])
        if n == "value" and t is not None:
            last = mk("got", v.a[0])
            bad = [c for c, q in f.st.path if c.k == "call" and c.a[0].endswith("operator!") and c.a[1] is last and not q or c.k == "call" and c.a[0].endswith(("operator bool", "good")) and c.a[1] is last and q]
            bad += [c for c, q in f.st.path if c.k == "call" and c.a[0].endswith("::fail") and c.a[1] is last and not q]
            f.ob(r, "an expression without a number is rejected", bool(bad), "accepts it")
    i = inner(f.rv, PX + "::inequality")
    rejects(f, r, op("&&", neg(op("==", i, mk("str", "<"))), neg(op("==", i, mk("str", ">")))), "another inequality sign")


def whole(f, t, x):
    """t is the text x, perhaps without blanks at its ends"""
    BLANK = set(" \t\n\r\v\f")
    if t is x:
        return True
    if t.k == "ite":
        e = mk("str", "")
        if t.a[1] is e or t.a[2] is e:
            c, y = (t.a[0], t.a[2]) if t.a[1] is e else (neg(t.a[0]), t.a[1])
            # only a blank text becomes empty
            fs = [z for z in subterms(c) if z.k == "call" and z.a[0].endswith(("find_first_not_of", "find_last_not_of")) and z.a[1] is x and z.a[2].k == "str" and set(z.a[2].a[0]) <= BLANK]
            none = [z for z in subterms(c) if show(z) == "npos"]
            blank = FALSE
            for z in fs:
                blank = op("||", blank, op("==", z, none[0])) if none else blank
            return bool(fs) and bool(none) and Val(Hyp()).implies(c, blank) and whole(f, y, x)
        return whole(f, t.a[1], x) and whole(f, t.a[2], x)
    if t.k == "call" and t.a[0].endswith("substr") and t.a[1] is x:
        b = t.a[2]
        ok = b is ZERO or b.k == "call" and b.a[0].endswith("find_first_not_of") and b.a[1] is x and b.a[2].k == "str" and set(b.a[2].a[0]) <= BLANK and (len(b.a) < 4 or b.a[3] is ZERO)
        if len(t.a) < 4 or t.a[3].k == "const" or show(t.a[3]) == "npos":
            return ok
        e = [y for y in subterms(t.a[3]) if y.k == "call" and y.a[0].endswith("find_last_not_of") and y.a[1] is x and y.a[2].k == "str" and set(y.a[2].a[0]) <= BLANK]
        n = t.a[3]
        return ok and bool(e) and (f.V.eq(n, add(e[0], ONE)) or f.V.eq(n, add(sub(e[0], b), ONE)))
    return False


def A01_interface(ctx):
    """the public interface hands every call over with its arguments"""
    r = "interface"
    API = AP + "API"
    for n in ("setName", "setCurrentWorkingDirectory", "setDoEStrategy", "setBoxConstraints", "setNameOfTrainingDataFile", "setDimension",
              "setObjectiveFunction", "addConstraint", "setDoEOn", "setMaxNumberOfFunctionEvaluations", "run"):
        at_ = AtCalls(n)
        f = Fn(ctx, API + "::" + n, None, hooks=at_)
        g = [c for c in at_.got if c[1] is not None and (c[1].k != "D" or c[1] is not THIS)]
        ps = [(par_any(f, i), mk("D", mk("p", p["n"])), mk("P", p["n"])) for i, p in enumerate(f.f.p)]
        ok = len(g) == 1 and contains_(g[0][1], fld(API, "impl")) and always(f, g[0][4])
        args = g[0][2] if ok else []
        ok = ok and len(args) == len(ps) and all(any(a is y for y in p) for a, p in zip(args, ps))
        f.ob(r, "hands the call over", ok, "calls %s" % ["%s(%s)" % (c[0], ", ".join(show(a)[:40] for a in c[2])) for c in at_.got])
    f = Fn(ctx, "changeDirectory", None)
    c = [t for t in subterms(f.rv) if t.k == "call" and t.a[0].endswith("chdir")]
    f.ob(r, "changes to the given directory", bool(c) and contains_(c[0], par_any(f, 0)) and Val(Hyp()).iff(f.rv, op("==", c[0], ZERO)), "returns %s" % show(f.rv)[:200])


def same_(f, a, b):
    if a is b or show(a) == show(b):
        return True
    try:
        return f.V.eq(a, b)
    except (Big, TypeError, AttributeError):
        return False


def flat_conds(path):
    for c, p in path:
        while c.k == "un" and c.a[0] == "!":
            c, p = c.a[1], not p
        if c.k == "op" and c.a[0] == "&&" and p:
            yield from flat_conds([(c.a[1], True), (c.a[2], True)])
        elif c.k == "op" and c.a[0] == "||" and not p:
            yield from flat_conds([(c.a[1], False), (c.a[2], False)])
        else:
            yield c, p


def depth_bv(q, b):
    """b is the variable bound by the quantifier q"""
    return b.a[0] == absint.depth_of(q.a[2]) + 1


def crossed_rejected(f, d, val, lb, ub, rel="<="):
    """no path accepts bounds with a lower bound that is not below the upper one"""
    bad = exists(d, lambda i: op(rel, val(ub, i), val(lb, i)))
    end = TRUE
    for c, p in f.st.path:
        end = op("&&", end, c if p else neg(c))
    try:
        if Val(Hyp()).implies(end, neg(bad)):
            return True
        # component by component, looking through copies
        for c, p in flat_conds(f.st.path):
            if c.k != "exists" or p or c.a[0] is not ZERO:
                continue
            H = Hyp()
            H.add(ZERO, "<=", K)
            H.add(K, "<", d)
            for x, q in f.st.path:
                if q and x.k == "op" and x.a[0] == "==":
                    H.add(x.a[1], "==", x.a[2])
            bv = [y for y in subterms(c.a[2]) if y.k == "bv" and depth_bv(c, y)]
            body = absint.subst(c.a[2], {bv[0]: K}) if len(bv) == 1 else c.a[2]
            body = rewrite(body, lambda y: content(y.a[0], y.a[1], H) if y.k == "elem" and y.a[0].k in ("fill", "snap", "ite", "upd") else None)
            if Val(H).eq(c.a[1], d) and Val(H).implies(op(rel, val(ub, K), val(lb, K)), body):
                return True
        # or every component is looked at
        for s, typ, node, fr in f.I.throws[0]:
            k = [n for n, (c, p) in enumerate(s.path) if c.k == "in"]
            info = f.I.loops.get(s.path[k[0]][0].a[0]) if len(k) == 1 else None
            if info is None or "range" not in info or s.path[:k[0]] != f.st.path[:k[0]]:
                continue
            i, lo, hi = info["range"]
            c = TRUE
            for x, p in s.path[k[0] + 1:]:
                c = op("&&", c, x if p else neg(x))
            less = op("<", i, d)
            if lo is ZERO and Val(Hyp()).eq(hi, d) and Val(Hyp()).implies(op("&&", less, op(rel, val(ub, i), val(lb, i))), c):
                return True
        return False
    except Big:
        return False


def function(f, r, c, what, fn, nm, fl):
    """the function given to the optimiser"""
    x, st = c[2][0], c[4]
    get = lambda n: field(f, x, st, OF + "::" + n)
    f.ob(r, what + ": function pointer", get("objectiveFunctionPtr") is fn and get("doesObjectiveFunctionPtrExist") in (ONE, TRUE), "is %s" % show(get("objectiveFunctionPtr"))[:100])
    f.eq(r, what + ": dimension", get("dim"), f.o.old("dimension"))
    D = get("definition")
    for n, w in (("name", nm), ("nameHighFidelityTrainingData", fl)):
        y = inner(D, OFD + "::" + n)
        f.ob(r, "%s: %s" % (what, n), same_(f, y, w), "is %s" % show(y)[:200])
    f.ob(r, what + ": is defined", get("ifDefinitionIsSet") in (ONE, TRUE), "is not")


# ------------------------------------------------------------------ order of a run, design of experiments
EVENTS = ("saveAsCSV", "addRow", "(indirect)", "fillRandom", "fillRandomLHS", "performEfficientGlobalOptimization", "changeDirectory", "chdir")
FILES = ("saveAsCSV", "(indirect)", "performEfficientGlobalOptimization")


def flatten(p):
    for x in p:
        if x[0] == "loop":
            yield from flatten(x[3])
        elif x[0] == "if":
            yield from flatten(x[2])
            yield from flatten(x[3])
        else:
            yield x


def branch(f, p, cond, val):
    """the program p when cond is val"""
    out = []
    for x in p:
        if x[0] == "if":
            c = x[1]
            want = cond if val else neg(cond)
            V = Val(Hyp())
            if c is want or V.implies(want, c):
                out += branch(f, x[2], cond, val)
            elif V.implies(want, neg(c)):
                out += branch(f, x[3], cond, val)
            else:
                out.append(("if", c, tuple(branch(f, x[2], cond, val)), tuple(branch(f, x[3], cond, val))))
        else:
            out.append(x)
    return out


def A02_run(ctx):
    """order of a run; samples of the design of experiments"""
    from .ea import prog_of, START, names_of
    r = "run"
    h = Trace(*EVENTS)
    stop = STOP + EVENTS + ("getRow",)
    f = Fn(ctx, AP + "::run", None, inl=inline_classes(AP, BO, VEC, MAT, stop=stop), hooks=h, setup=START)
    f.o = Obj(f, AP)
    o = f.o.old
    n, d, m = o("numberOfSamplesForDoE"), o("dimension"), o("numberOfConstraints")
    on = o("startWithDoE")
    p = prog_of(f.I, f.st.store.get(TRACE))
    # settings
    for what, c in (("no number of evaluations", op("==", o("numberOfFunctionEvaluations"), ZERO)), ("no dimension", neg(o("isDimensionSpecified"))),
                    ("no bounds", neg(o("areBoxConstraintsSpecified"))), ("no objective function", neg(o("isObjectiveFunctionSpecified")))):
        rejects(f, r, c, "a run with " + what)
    rejects(f, r, op("&&", on, op("==", n, ZERO)), "a design of experiments without samples")
    rnd = op("==", o("DoEType"), mk("str", "random"))
    lhs = op("==", o("DoEType"), mk("str", "lhs"))
    cdt = [t for c, q in f.st.path for t in subterms(c) if t.k == "call" and t.a[0] in ("changeDirectory", "chdir") and contains_(t, o("cwd"))]
    only_rejects(f, r, any_of(op("==", o("numberOfFunctionEvaluations"), ZERO), neg(o("isDimensionSpecified")), neg(o("areBoxConstraintsSpecified")), neg(o("isObjectiveFunctionSpecified")),
                              op("&&", on, op("==", n, ZERO)), op("&&", on, op("&&", neg(rnd), neg(lhs))), op("==", o("objectiveFunctionPtr"), mk("null")),
                              op("&&", neg(op("==", m, ZERO)), op("==", size(o("constraintFunctionPtr")), ZERO)),
                              *[neg(t) if t.a[0] == "changeDirectory" else neg(op("==", t, ZERO)) for t in cdt[:1]]), "a complete problem")
    # working directory first
    flat = list(flatten(p))
    cd = [i for i, x in enumerate(flat) if x[1] in ("changeDirectory", "chdir")]
    first = min([i for i, x in enumerate(flat) if x[1] in FILES], default=len(flat))
    arg = flat[cd[0]][3] if cd else None
    f.ob(r, "changes to the working directory before anything is evaluated or written", bool(cd) and cd[0] < first and p[0][0] == "ev" and flat[cd[0]] == p[0] and contains_(arg, o("cwd")), "sequence %s" % " ".join(names_of(p))[:300])
    g = [t for c, q in f.st.path for t in subterms(c) if t.k == "call" and t.a[0] in ("changeDirectory", "chdir") and contains_(t, o("cwd"))]
    f.ob(r, "asks whether the directory was changed", bool(g), "does not")
    if g:
        rejects(f, r, neg(g[0]) if g[0].a[0] == "changeDirectory" else neg(op("==", g[0], ZERO)), "a working directory that cannot be entered")
    # optimisation last, exactly once
    ego = [x for x in flat if x[1] in RUN]
    f.ob(r, "the optimisation is run once, at the end", len(ego) == 1 and p[-1] == ego[0] and ego[0][2] is fld(AP, "optimizer"), "sequence %s" % " ".join(names_of(p))[:400])
    # design of experiments
    off = [x for x in flatten(branch(f, p, on, False)) if x[1] in ("saveAsCSV", "(indirect)")]
    f.ob(r, "no samples are evaluated when it is off", not off, "%d calls" % len(off))
    q = branch(f, p, on, True)
    rejects(f, r, op("&&", on, op("&&", neg(rnd), neg(lhs))), "a strategy that does not exist")
    lb, ub = o("lowerBounds"), o("upperBounds")
    for what, c, name in (("random", rnd, "fillRandom"), ("lhs", lhs, "fillRandomLHS")):
        qq = branch(f, q, c, True)
        if what == "lhs":
            qq = branch(f, qq, rnd, False)
        fl = [x for x in flatten(qq) if x[1].startswith("fillRandom")]
        first = [i for i, x in enumerate(flatten(qq)) if x[1] in ("(indirect)", "saveAsCSV")]
        pos = [i for i, x in enumerate(flatten(qq)) if x[1].startswith("fillRandom")]
        ok = len(fl) == 1 and fl[0][1] == name and fl[0] in qq and pos[0] < min(first, default=-1)
        f.ob(r, "%s samples are drawn once, before they are evaluated" % what, ok, "sequence %s" % " ".join(names_of(qq))[:300])
        if ok:
            f.ob(r, "%s samples: between the bounds" % what, fl[0][3] is lb and fl[0][4] is ub, "from %s to %s" % (show(fl[0][3])[:80], show(fl[0][4])[:80]))
        st = [s for x, ob_, vs, w, s in h.got if x == name]
        if st and fl:
            S = fl[0][2]
            f.eq(r, "%s samples: number" % what, f.I.load(st[0], F(S, MAT + "::nrows")), n)
            f.eq(r, "%s samples: dimension" % what, f.I.load(st[0], F(S, MAT + "::ncols")), d)
    S = (lb, ub)
    loops = [x for x in q if x[0] == "loop"]
    obj = [x for x in loops if count_n(f, x, n) and any(y[1] == "(indirect)" for y in x[3])]
    f.ob(r, "objective function: one evaluation for each sample", len(obj) == 1, "sequence %s" % " ".join(names_of(q))[:300])
    if len(obj) == 1:
        rest = q[q.index(obj[0]) + 1:]
        samples(f, h, r, "objective function", obj[0], rest, o("objectiveFunctionPtr"), o("objectiveFunctionTrainingFilename"), S, n, d)
    some = neg(op("==", m, ZERO))
    q2 = branch(f, q, some, True)
    con = [x for x in q2 if x[0] == "loop" and any(y[0] == "loop" for y in x[3]) and count_n(f, x, m)]
    f.ob(r, "constraints: samples for each of them", len(con) == 1, "sequence %s" % " ".join(names_of(q2))[:300])
    if len(con) == 1:
        body = con[0][3]
        k = con[0][2][0]
        inner_ = [x for x in body if x[0] == "loop" and count_n(f, x, n)]
        f.ob(r, "constraints: one evaluation for each sample", len(inner_) == 1 and len([x for x in flatten(body) if x[1] == "(indirect)"]) == 1, "sequence %s" % " ".join(names_of(body))[:300])
        if len(inner_) == 1:
            samples(f, h, r, "constraint", inner_[0], list(body[body.index(inner_[0]) + 1:]), at(o("constraintFunctionPtr"), k), at(o("constraintsTrainingDataFilename"), k), S, n, d)


def count_n(f, x, n):
    return x[2] is not None and x[2][1] is ZERO and f.V.eq(x[2][2], n)


def samples(f, h, r, what, loop, rest, fn, fname, S, n, d):
    """each sample is evaluated once and becomes, with its value, the next row of the file"""
    from .ea import names_of
    i = loop[2][0]
    body = [x for x in loop[3]]
    ev = [x for x in body if x[0] == "ev"]
    calls = [x for x in ev if x[1] == "(indirect)"]
    rows = [x for x in ev if x[1] == "addRow"]
    seq = " ".join(names_of(body))[:300]
    if not f.ob(r, what + ": one evaluation and one row for each sample", len(calls) == 1 and len(rows) == 1 and len(list(flatten(body))) == len(ev) and ev.index(calls[0]) < ev.index(rows[0]), "sequence %s" % seq):
        return
    c, a = calls[0], rows[0]
    f.ob(r, what + ": function", c[3] is fn or show(c[3]) == show(fn), "calls %s" % show(c[3])[:100])
    # the point
    st = [(vs, s) for x, o_, vs, w, s in h.got if x == "(indirect)" and vs[0] is c[3]]
    x = None
    if st and c[4].k == "iter" and c[4].a[1] is ZERO:
        loc = c[4].a[0]
        x = f.I.load(st[-1][1], loc) if loc.k in ("L", "F", "D", "E") else loc
    elif c[4].k == "call" and c[4].a[0].endswith("getPointer"):
        x = c[4].a[1]
    facts = [(ZERO, "<=", K), (K, "<", d), (ZERO, "<=", i), (i, "<", n)]
    def cells(v):
        H = f.H.copy()
        for t in facts:
            H.add(*t)
        got = content(v, K, H)
        return source_cell(got, S, i)
    f.ob(r, what + ": evaluated at the sample", x is not None and cells(x), "evaluated at %s" % (show(x)[:300] if x is not None else show(c[4])[:200]))
    v = a[3]
    f.ob(r, what + ": row holds the sample", cells(v), "row is %s" % show(v)[:300])
    H = f.H.copy()
    val = content(v, d, H)
    f.ob(r, what + ": row holds the value of the function", is_value(val, fn), "value is %s" % show(val)[:200])
    f.ob(r, what + ": the row is the last one", len(a) < 5 or a[4] == INT(-1), "position %s" % (show(a[4]) if len(a) > 4 else ""))
    sz = size(v)
    f.ob(r, what + ": row has no other entries", f.V.eq(sz, add(d, ONE)), "size %s" % show(sz)[:100])
    # starts empty, is saved
    info = f.I.loops[loop[1]]
    mod = [v_ for l, v_ in info["mod"].items() if l is a[2]]
    st0 = mod[0][0] if mod else None
    f.ob(r, what + ": starts without rows", st0 is not None and st0.k == "obj" and len(st0.a) <= 1 or st0 is not None and f.V.eq(nr(st0), ZERO), "starts with %s" % (show(st0)[:200] if st0 is not None else "?"))
    saves = [(j, y) for j, y in enumerate(ev) if y[1] == "saveAsCSV" and j > ev.index(a)] + [(0, y) for y in rest if y[0] == "ev" and y[1] == "saveAsCSV"]
    good = [y for j, y in saves if y[2] is a[2] and (y[3] is fname or show(y[3]) == show(fname))]
    f.ob(r, what + ": rows are saved to its training data file", bool(good), "sequence %s" % seq)
    f.ob(r, what + ": nothing else is written to a file of samples", all(y[2] is a[2] and (y[3] is fname or show(y[3]) == show(fname)) for y in flatten(list(body)) if y[1] == "saveAsCSV"), "sequence %s" % seq)
    for y in good:
        f.ob(r, what + ": saved without loss of digits", len(y) > 4 and big_enough(y[4]), "precision %s" % (show(y[4]) if len(y) > 4 else "6"))


def source(t, S):
    """t is the matrix of samples: what one of the two ways of drawing them left"""
    while t.k == "snap":
        t = t.a[0]
    if t.k == "ite":
        return source(t.a[1], S) and source(t.a[2], S)
    return t.k == "mut" and t.a[0] in (MAT + "::fillRandom", MAT + "::fillRandomLHS") and t.a[2] is S[0] and t.a[3] is S[1]


def source_cell(t, S, i):
    """t is component K of sample i"""
    if t.k == "ite":
        return source_cell(t.a[1], S, i) and source_cell(t.a[2], S, i)
    if t.k != "elem":
        return False
    b, k = t.a
    if k is K and b.k == "call" and b.a[0] == MAT + "::getRow" and b.a[2] is i:
        return source(b.a[1], S)
    return k is mk("tup", i, K) and source(b, S)


def is_value(t, fn):
    return t.k == "call" and t.a[0] == "(indirect)" and (t.a[1] is fn or show(t.a[1]) == show(fn))
