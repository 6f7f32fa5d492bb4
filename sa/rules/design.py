"""Designs: samples built from them, their sizes, NaN detection; the exchange with an external simulation."""
from .sur import *
from . import text
from .files import written, not_open, lines_of, entries, ent, rows_, eq_, opens, root, exact, must, flat_items, strip_open, failed
from .ea import loop_of
from .lin import short

DES = "Rodop::Design"
DBO = "Rodop::DesignForBayesianOptimization"
OF = "Rodop::ObjectiveFunction"
CF = "Rodop::ConstraintFunction"
CD = "Rodop::ConstraintDefinition"
OFD = "Rodop::ObjectiveFunctionDefinition"
VALUES = ("constraintTrueValues", "constraintTrueValuesLowFidelity", "constraintTangent", "constraintTangentLowFidelity")
MATS = ("constraintGradientsMatrix", "constraintGradientsMatrixLowFi", "constraintDifferentiationDirectionsMatrix", "constraintDifferentiationDirectionsMatrixLowFi")
DUAL = ((ZERO, ONE),)


def dfn(ctx, cls, name, types=(), **kw):
    kw.setdefault("inl", inline_classes(cls, DES, VEC, MAT, OF, stop=("operator()", "log", "getInstance") + tuple(kw.pop("stop", ()))))
    f = Fn(ctx, cls + "::" + name, list(types), **kw)
    f.o = Obj(f, cls)
    return f


def sample(ctx, r, name, types, val, tail):
    f = dfn(ctx, DES, name, types)
    d, dp = f.o.old("dimension"), f.o.old("designParameters")
    cid = f.par(0) if types else None
    get = lambda v: at(v, cid) if types else v
    value = get(f.o.old(val))
    H = [(size(dp), "==", d), (ZERO, "<", d)]
    want = [(d, value)]
    if tail:
        kind, src, fn = tail
        n = d
        if kind == "tangent":
            want.append((add(d, ONE), get(f.o.old(fn))))
            n = add(d, ONE)
        f.eq(r, "size of the sample", size(f.rv), add(n, add(d, ONE)), [op("==", size(dp), d)])
        el_ = ZERO if src is None else el(f.o.old(src), cid, K) if types else at(f.o.old(src), K)
        more = [(nc(f.o.old(src)), "==", d), (ZERO, "<=", cid), (cid, "<", nr(f.o.old(src)))] if types and src else []
        part(f, r, "derivatives", f.rv, add(add(n, ONE), K), el_, H + more + [(ZERO, "<=", K), (K, "<", d)], [op("<", K, d), op("<=", ZERO, K), op("==", size(dp), d)])
    else:
        f.eq(r, "size of the sample", size(f.rv), add(d, ONE), [op("==", size(dp), d)])
    part(f, r, "parameters", f.rv, K, at(dp, K), H + [(ZERO, "<=", K), (K, "<", d)], [op("<", K, d), op("<=", ZERO, K), op("==", size(dp), d)])
    for p, v in want:
        part(f, r, "value at %s" % show(p), f.rv, p, v, H, [op("==", size(dp), d), op("<", ZERO, d)])
    if types:
        m = f.o.old("numberOfConstraints")
        rejects(f, r, op("<=", m, cid), "a constraint that does not exist")
    elif tail and tail[1]:
        rejects(f, r, neg(op("==", size(f.o.old(tail[1])), d)), "derivatives of another dimension")


def part(f, r, key, v, idx, want, facts, assume):
    """element idx of the vector v"""
    f.elems(r, key, v, want, idx, facts, assume)


def D01_samples(ctx):
    """samples contain the design, its value and its derivatives, each at its place"""
    r = "sample"
    U = ["unsignedint"]
    for lf in ("", "LowFi"):
        low = "LowFidelity" if lf else ""
        sample(ctx, r, "constructSampleObjectiveFunction" + lf, [], "trueValue" + low, None)
        sample(ctx, r, "constructSampleObjectiveFunctionWithTangent" + lf, [], "trueValue" + low, ("tangent", "tangentDirection", "tangentValue" + low))
        sample(ctx, r, "constructSampleObjectiveFunctionWithGradient" + lf, [], "trueValue" + low, ("gradient", "gradient" + low, None))
        sample(ctx, r, "constructSampleConstraint" + lf, U, "constraintTrueValues" + low, None)
        sample(ctx, r, "constructSampleConstraintWithTangent" + lf, U, "constraintTrueValues" + low, ("tangent", "constraintDifferentiationDirectionsMatrix" + lf, "constraintTangent" + low))
        sample(ctx, r, "constructSampleConstraintWithGradient" + lf, U, "constraintTrueValues" + low, ("gradient", "constraintGradientsMatrix" + lf, None))
    sample(ctx, r, "constructSampleObjectiveFunctionWithZeroGradient", [], "trueValue", ("gradient", None, None))


def D01_sizes(ctx):
    r = "design"
    f = dfn(ctx, DES, "setDimension", ["unsignedint"])
    d = f.par(0)
    f.eq(r, "dimension", f.o.new("dimension"), d)
    for v in ("designParameters", "gradient", "gradientLowFidelity"):
        f.eq(r, "size of " + v, size(f.o.new(v)), d)
    rejects(f, r, op("==", d, ZERO), "a dimension of zero")
    f = dfn(ctx, DES, "setNumberOfConstraints", ["unsignedint"])
    m, d = f.par(0), f.o.old("dimension")
    f.eq(r, "number of constraints", f.o.new("numberOfConstraints"), m)
    for v in VALUES:
        f.eq(r, "size of " + v, size(f.o.new(v)), m)
    for v in MATS:
        f.eq(r, "rows of " + v, nr(f.o.new(v)), m)
        f.eq(r, "columns of " + v, nc(f.o.new(v)), d)
    rejects(f, r, op("==", d, ZERO), "constraints before the dimension")
    # constructors
    # not-a-number
    f = dfn(ctx, DES, "checkIfHasNan")
    NAN = lambda v: exists(size(v), lambda i: mk("call", "isnan", at(v, i)))
    for what, cond in (("objective value", mk("call", "isnan", f.o.old("trueValue"))), ("gradient", NAN(f.o.old("gradient"))), ("constraint value", NAN(f.o.old("constraintTrueValues")))):
        f.ob(r, "not-a-number in the %s is found" % what, implied(f, cond, f.rv), "returns %s" % show(f.rv)[:200])
    f = dfn(ctx, DES, "reset")
    for v in ("trueValue", "estimatedValue", "trueValueLowFidelity", "tangentValue", "improvementValue"):
        f.ob(r, "reset of " + v, f.o.new(v) is ZERO, "is %s" % show(f.o.new(v)))
    for v in ("designParameters", "constraintTrueValues", "constraintEstimates", "gradient", "tangentDirection"):
        n = f.o.new(v)
        f.eq(r, "%s keeps its size" % v, size(n), size(f.o.old(v)))
        f.elems(r, "reset of " + v, n, ZERO, K, [(ZERO, "<=", K), (K, "<", size(f.o.old(v)))])


def D01_direction(ctx):
    """the random direction of a directional derivative has length one and every orientation"""
    r = "direction"
    f = dfn(ctx, DES, "generateRandomDifferentiationDirection")
    d, v = f.o.old("dimension"), f.o.new("tangentDirection")
    f.eq(r, "size", size(v), d, [op("<", ZERO, d)])
    H = f.H.copy()
    H.add(ZERO, "<=", K)
    H.add(K, "<", d)
    t = decide(content(v, K, H), [op("<", K, d), op("<=", ZERO, K)])
    # a vector with random entries divided by its norm
    rnd = sorted((x for x in subterms(t) if x.k == "call" and x.a[0].split("::")[-1] == "random" and len(x.a) == 3), key=show)
    norms = [x for x in subterms(t) if x.k == "call" and x.a[0].split("::")[-1] == "sqrt" and any(f.V.eq(rewrite(y.a[3], lambda z: None if z.k != "ite" else decide_bv(z, d)), op("*", rnd[0], rnd[0])) and y.a[1] is ZERO and f.V.eq(y.a[2], d)
                                                                                                   for y in subterms(x) if y.k == "agg" and y.a[0] == "sum")] if rnd else []
    f.ob(r, "random in both directions", len(rnd) == 1 and same(f, op("+", rnd[0].a[1], rnd[0].a[2]), ZERO), "entries are %s" % ", ".join(show(x) for x in rnd))
    f.ob(r, "length one", bool(norms) and f.V.eq(t, op("/", rnd[0], norms[0])), "entry is %s" % show(t)[:300])


def decide_bv(t, d):
    """the branch taken by a position of a sum over 0 .. d - 1"""
    c = t.a[0]
    if c.k == "op" and c.a[0] == "<" and c.a[1].k == "bv" and c.a[2] is d:
        return t.a[1]
    return None


def D01_proposed(ctx):
    """designs proposed by the optimiser start with the sizes they are made for and without values"""
    r = "proposed-design"
    zero = lambda f, t: t is ZERO or t.k == "flt" and float(t.a[0]) == 0.0
    for types, dim, vec_, con in (([], None, None, None), (["int", "int"], 0, None, 1), (["int"], 0, None, None), (["vec&", "int"], None, 0, 1), (["vec&"], None, 0, None)):
        g = [x for x in ctx.prog.byq.get(DBO + "::DesignForBayesianOptimization", []) if [short(p["t"]) for p in x.p] == types]
        if len(g) != 1:
            f = None
            ctx.ob(r, "constructor (%s)" % ",".join(types), "src/Design/design_bo.cpp", False, "no such constructor")
            continue
        f = Fn(ctx, g[0].q, types, f=g[0])
        O = lambda n: f.load(F(THIS, DBO + "::" + n))
        for n in ("objectiveFunctionValue", "valueAcquisitionFunction", "sigma"):
            f.ob(r, "%s starts at zero" % n, zero(f, O(n)), "is %s" % show(O(n))[:100])
        if dim is not None:
            f.eq(r, "dimension", uncast(O("dim")), f.par(dim))
            f.eq(r, "size of the design", uncast(size(O("dv"))), f.par(dim))
        if vec_ is not None:
            f.eq(r, "dimension", O("dim"), size(f.par(vec_)))
            f.eq(r, "size of the design", size(O("dv")), size(f.par(vec_)))
            f.elems(r, "parameters of the design", O("dv"), at(f.par(vec_), K), K, [(ZERO, "<=", K), (K, "<", size(f.par(vec_)))])
        if con is not None:
            for n in ("constraintValues", "constraintSigmas"):
                f.eq(r, "size of " + n, uncast(size(O(n))), f.par(con))
    f = Fn(ctx, DBO + "::reset", [])
    O = lambda n: f.load(F(THIS, DBO + "::" + n))
    for n in ("objectiveFunctionValue", "valueAcquisitionFunction", "sigma"):
        f.ob(r, "reset of " + n, zero(f, O(n)), "is %s" % show(O(n))[:100])
    for n in ("dv", "constraintValues", "constraintSigmas", "constraintFeasibilityProbabilities"):
        old = init(F(THIS, DBO + "::" + n))
        f.eq(r, "%s keeps its size" % n, size(O(n)), size(old))
        f.elems(r, "reset of " + n, O(n), ZERO, K, [(ZERO, "<=", K), (K, "<", size(old))])


def uncast(t):
    while t.k == "un" and t.a[0] in ("int", "unsigned", "unsigned int"):
        t = t.a[1]
    return t


def implied(f, cond, t):
    """t is true whenever cond is"""
    if t is cond or t is TRUE or t is ONE:
        return True
    if t.k == "lv":
        info = f.I.loops.get(t.a[0])
        if info is None or t.a[1] not in info["mod"]:
            return False
        a, b = info["mod"][t.a[1]]
        return implied(f, cond, a) and (b is info["hv"].get(t.a[1]) or kept(b, info["hv"].get(t.a[1])))
    if t.k == "ite":
        if implied(f, cond, t.a[0]):
            return implied(f, cond, t.a[1])
        return implied(f, cond, t.a[1]) and implied(f, cond, t.a[2])
    if t.k == "op" and t.a[0] == "||" and any(implied(f, cond, x) for x in t.a[1:]):
        return True
    try:
        return Val(Hyp()).implies(cond, t)
    except Big:
        return False


def kept(b, h):
    """b is true when h is"""
    if b is h or b is ONE or b is TRUE:
        return True
    if b.k == "ite":
        return kept(b.a[1], h) and kept(b.a[2], h)
    if b.k == "op" and b.a[0] == "||":
        return any(kept(x, h) for x in b.a[1:])
    return False


# ------------------------------------------------------------------ exchange with the simulation
EXT = ("writeDesignVariablesToFile", "evaluateObjectiveFunction", "readOutput")
DP, DCV = DES + "::designParameters", DES + "::constraintTrueValues"


def D_(f, i=0):
    return mk("D", mk("p", f.f.p[i]["n"]))


def with_(t, x, v):
    """t for a given value of the string x"""
    def fn(y):
        if y is x:
            return v
        return None
    return rewrite(t, fn)


def folded(t):
    """sizes of literal strings and of strings that contain one"""
    def lit_(y):
        return y.k == "str" and y.a[0] != "" or y.k == "op" and y.a[0] == "+" and any(lit_(z) for z in y.a[1:] if isinstance(z, absint.T))

    def fn(y):
        if y.k == "op" and y.a[0] == "==" and ZERO in y.a[1:]:
            z = [w for w in y.a[1:] if w is not ZERO]
            if len(z) == 1 and z[0].k == "size" and lit_(z[0].a[0]):
                return FALSE
            if len(z) == 1 and z[0].k == "ite":
                return folded(absint.ite(z[0].a[0], op("==", z[0].a[1], ZERO), op("==", z[0].a[2], ZERO)))
        if y.k == "size" and y.a[0].k == "str":
            return INT(len(y.a[0].a[0]))
        return None
    return rewrite(t, fn)


def same(f, a, b):
    try:
        return a is b or f.V.eq(a, b)
    except Big:
        return False


def E01_write(ctx):
    """the design is written, one value per line, with all digits"""
    r = "design-file"
    f = dfn(ctx, OF, "writeDesignVariablesToFile", ["Design&"])
    d = init(fld(OF, "dim"))
    dp = init(F(D_(f), DP))
    mode = init(fld(OF, "evaluationMode"))
    fname = init(F(fld(OF, "definition"), OFD + "::designVectorFilename"))
    xs, v = written(f, r, fname)
    if xs is not None:
        exact(f, r, xs)
        for m in ("primal", "adjoint", "tangent"):
            ys = fix_items(xs, mode, mk("str", m))
            L = lines_of(f, r, ys, "\t", "design file (%s)" % m)
            if L is None:
                continue
            want = [("designParameters", dp)] + ([("tangentDirection", init(F(D_(f), DES + "::tangentDirection")))] if m == "tangent" else [])
            ok = len(L) == len(want)
            for ln, (_, w) in zip(L, want):
                ok = ok and len(ln) == 1 and ln[0][0] == "lines" and ln[0][1][1] is ZERO and any(same(f, ln[0][1][2], x) for x in (d, size(w))) and \
                    len(ln[0][2]) == 1 and len(ln[0][2][0]) == 1 and ln[0][2][0][0][0] == "val" and ent(f, ln[0][1], ln[0][2][0][0][1], lambda k: at(w, k))
            f.ob(r, "%s: one parameter per line, in order" % m, ok, "writes %s" % text.shown(ys)[:300])
        cl = [x for x in subterms(v) if x.k == "mut" and x.a[0].endswith("::close")]
    f.ob(r, "the design is not changed", f.load(F(D_(f), DP)) is dp, "parameters become %s" % show(f.load(F(D_(f), DP)))[:100])
    not_open(f, r, fname)


def fix_items(xs, x, v):
    out = []
    for y in xs:
        if y[0] == "if":
            c = with_(y[1], x, v)
            a, b = fix_items(y[2], x, v), fix_items(y[3], x, v)
            out += a if c in (TRUE, ONE) else b if c in (FALSE, ZERO) else [("if", c, a, b)]
        elif y[0] == "loop":
            out.append(("loop", y[1], fix_items(y[2], x, v)))
        elif y[0] == "val":
            out.append(("val", with_(y[1], x, v)))
        else:
            out.append(y)
    return out


def E01_read(ctx):
    """the values are those of the output file; missing or unreadable values are errors"""
    r = "output-file"
    f = dfn(ctx, OF, "readOutput", ["basic_string<char>&", "unsignedint"])
    fname, n = f.par(0), f.par(1)
    f.eq(r, "number of values", size(f.rv), n)
    t = f.rv
    info = f.I.loops.get(t.a[0]) if t.k == "lv" else None
    if info is None:
        f.ob(r, "values are read one after the other", False, "returns %s" % show(t)[:200])
    else:
        a, b = info["mod"][t.a[1]]
        h = info["hv"].get(t.a[1])
        rng = info.get("range")
        st_ = one_stream(info)
        f.ob(r, "all values are read", rng is not None and rng[1] is ZERO and same(f, rng[2], n), "loop over %s" % (show(rng[2]) if rng else "?"))
        f.ob(r, "values come from the given file", st_ is not None and opens(f, st_[0], fname), "read from %s" % (show(st_[0])[:100] if st_ else "?"))
        ok = False
        if st_ is not None and rng is not None and b.k == "upd":
            ok = b.a[0] is h and b.a[1] is rng[0] and b.a[2] is mk("in", st_[2])
        f.ob(r, "i-th value of the file is the i-th result", ok, "element is %s" % show(b)[:200])
        bad = False
        if st_ is not None:
            for s, typ, node, fr in f.I.throws[0]:
                for c, pol in s.path:
                    if failed(c, pol, mk("got", st_[2])):
                        bad = True
        f.ob(r, "a value that cannot be read is an error", bad, "there is no such test")
    rejects(f, r, op("==", size(fname), ZERO), "an empty file name")
    not_open(f, r, fname)


def one_stream(info):
    for l, (a, b) in info["mod"].items():
        h = info["hv"].get(l)
        if h is not None and b.k == "got" and b.a[0] is h:
            return a, l, h
    return None


def E01_command(ctx):
    """command that runs the simulation"""
    r = "command"
    f = dfn(ctx, OF, "getExecutionCommand", ["basic_string<char>&"])
    e = f.par(0)
    leaves = []

    def go(t, path):
        if t.k == "ite":
            go(t.a[1], path + [(t.a[0], True)])
            go(t.a[2], path + [(t.a[0], False)])
        else:
            leaves.append((t, path))
    go(f.rv, [])
    want = {op("+", mk("str", "python "), e): "python", e: "path", op("+", mk("str", "./"), e): "relative"}
    f.ob(r, "commands", all(t in want for t, p in leaves) and {want[t] for t, p in leaves if t in want} == {"python", "path", "relative"},
         "commands %s" % [show(t)[:60] for t, p in leaves])
    for t, p in leaves:
        k = want.get(t)
        py = [pol for c, pol in p if mentions(c, ".py") and pol]
        if k == "python":
            f.ob(r, "python runs scripts only", bool(py), "used when %s" % [(show(c)[:80], b) for c, b in p])
        elif k:
            f.ob(r, "scripts are not run as programs", not py, "used when %s" % [(show(c)[:80], b) for c, b in p])
            sl = [slash_found(c, b) for c, b in p]
            sl = [x for x in sl if x is not None]
            if sl:
                f.ob(r, "%s program: depends on a slash in its name" % k, sl[-1] == (k == "path"), "used when %s" % [(show(c)[:80], b) for c, b in p])


def mentions(c, s):
    return any(x.k == "str" and x.a[0] == s for x in subterms(c))


def slash_found(c, pol):
    """the condition says that there is (not) a slash in the name, None if it is about something else"""
    while c.k == "un" and c.a[0] == "!":
        c, pol = c.a[1], not pol
    fd = [x for x in subterms(c) if x.k == "call" and x.a[0].split("::")[-1] in ("find", "rfind", "find_first_of", "find_last_of", "contains") and any(y is INT(47) or y.k == "str" and y.a[0] == "/" for y in x.a[1:] if isinstance(y, absint.T))]
    if not fd:
        return None
    if c.k == "op" and c.a[0] == "==" and any("npos" in show(x) for x in c.a[1:]):
        return not pol
    if c is fd[0]:
        return pol
    return None


def E01_run(ctx):
    """a failing simulation is an error"""
    r = "simulation"
    f = dfn(ctx, OF, "evaluateObjectiveFunction")
    mode = init(fld(OF, "evaluationMode"))
    exe = init(F(fld(OF, "definition"), OFD + "::executableName"))
    end = TRUE
    for c, p in f.st.path:
        end = op("&&", end, c if p else neg(c))
    codes = [x for x in subterms(end) if x.k == "call" and (x.a[0].endswith("child::exit_code") or x.a[0].split("::")[-1] == "system")]
    codes = list(dict.fromkeys(codes))
    f.ob(r, "the exit code of the simulation is tested", len(codes) >= 1, "no path depends on an exit code")
    cmd = None
    for c in codes:
        if c.a[0].endswith("exit_code"):
            p = c.a[1]
            f.ob(r, "waits for the simulation", p.k == "mut" and p.a[0].endswith("child::wait"), "exit code of %s" % show(p)[:100])
            while p.k == "mut":
                p = p.a[1]
            cmd = p.a[1] if p.k == "obj" and len(p.a) > 1 else None
        else:
            cmd = c.a[1]
        H = Hyp()
        V = Val(H)
        m = {}
        bad = rewrite(end, lambda y: FALSE if y.k == "op" and y.a[0] == "==" and c in y.a[1:] and ZERO in y.a[1:] else None)
        bad = folded(bad)
        f.ob(r, "a failing simulation is an error", V.implies(op("&&", bad, neg(op("==", size(exe), ZERO))), FALSE), "returns normally when %s" % show(bad)[:300])
        good = folded(rewrite(end, lambda y: TRUE if y.k == "op" and y.a[0] == "==" and c in y.a[1:] and ZERO in y.a[1:] else None))
        good = folded(with_(good, mode, mk("str", "primal")))
        f.ob(r, "a successful simulation is accepted", V.implies(neg(op("==", size(exe), ZERO)), good), "returns normally when %s" % show(good)[:300])
        w = dfn(ctx, OF, "getExecutionCommand", ["basic_string<char>&"])
        want = rewrite(w.rv, lambda y: exe if y is w.par(0) else None)
        if cmd is not None:
            got = decide(cmd, [neg(op("==", size(exe), ZERO))])
            f.ob(r, "runs the command of the executable", got is want, "runs %s" % show(got)[:300])
        break
    rejects(f, r, op("==", size(mode), ZERO), "a missing evaluation mode")


def value_of(f, t, name):
    """t is the first value of the output file"""
    if t.k in ("init", "elem") or t.k == "E":
        pass
    return any(x.k == "call" and x.a[0] == OF + "::readOutput" for x in subterms(t))


def E01_evaluate(ctx):
    """the value of a design is the value of the function at the design"""
    for cls, rule, direct, own in ((OF, "evaluation", None, None), (CF, "constraint-evaluation", None, None)):
        r = rule
        f = Fn(ctx, cls + "::evaluateDesign", ["Design&"], inl=inline_classes(OF, CF, DES, VEC, stop=EXT[1:] + ("log", "getInstance")), hooks=Pointers(*EXT), setup=lambda I, st: I.write(st, TRACE, mk("none"), hook=False))
        dp = init(F(D_(f), DP))
        f.at_call = f.I.hooks.vals
        ptr = init(fld(OF, "doesObjectiveFunctionPtrExist"))
        fp = init(fld(OF, "objectiveFunctionPtr"))
        out = init(F(fld(OF, "definition"), OFD + "::outputFilename"))
        explicit = init(fld(CF, "ifFunctionExplictlyDefined"))
        cid = init(F(fld(CF, "definitionConstraint"), CD + "::ID"))
        base = [neg(explicit)] if cls == CF else []
        if cls == OF:
            val = f.load(F(D_(f), DES + "::trueValue"))
        else:
            vs = f.load(F(D_(f), DCV))
            old = init(F(D_(f), DCV))
            val = f.I.elemval(vs, cid)
            for c in ([explicit], [neg(explicit), ptr], [neg(explicit), neg(ptr)]):
                x = decide(vs, c)
                f.ob(r, "only the value of this constraint is written (%s)" % ", ".join(show(y) for y in c), x.k == "upd" and x.a[0] is old and x.a[1] is cid, "values become %s" % show(x)[:200])
                if x.k == "upd" and c[0] is explicit:
                    val_e = x.a[2]
        V1 = decide(val, base + [ptr])
        V2 = decide(val, base + [neg(ptr)])
        f.ob(r, "function of the user: called with the design", indirect(f, V1, fp, dp), "value is %s" % show(V1)[:200])
        f.ob(r, "simulation: first value of the output file", first_output(V2, out), "value is %s" % show(V2)[:200])
        if cls == CF:
            V3 = decide(val, [explicit])
            f.ob(r, "explicit function: called with the design", indirect(f, V3, init(fld(CF, "functionPtr")), dp), "value is %s" % show(V3)[:200])
        # order
        from .ea import prog_of
        tr = f.st.store.get(TRACE)
        tr = decide(tr, base + [neg(ptr)]) if tr is not None else tr
        xs = prog_of(f.I, tr)
        names = [x[1] for x in xs if x[0] == "ev"]
        f.ob(r, "simulation: design is written, then the simulation runs, then its output is read", names == list(EXT) and all(x[0] == "ev" for x in xs), "order is %s" % names)
        for x in xs:
            if x[0] == "ev" and x[1] == "writeDesignVariablesToFile":
                f.ob(r, "simulation: the evaluated design is written", x[3] is init(D_(f)) or x[3] is D_(f) or show(x[3]) == show(init(D_(f))), "writes %s" % show(x[3])[:100])
            if x[0] == "ev" and x[1] == "readOutput":
                f.ob(r, "simulation: output file is read", x[3] is out, "reads %s" % show(x[3])[:100])
        tr = f.st.store.get(TRACE)
        xs = prog_of(f.I, decide(tr, base + [ptr]))
        f.ob(r, "function of the user: no simulation is run", not [x for x in xs if x[0] != "?"], "calls %s" % [x[1] for x in xs])
        m = f.load(fld(OF, "evaluationMode"))
        f.ob(r, "evaluates the function itself", decide(m, base) is mk("str", "primal"), "mode is %s" % show(m)[:60])
        f.ob(r, "the design is not changed", f.load(F(D_(f), DP)) is dp, "parameters become %s" % show(f.load(F(D_(f), DP)))[:100])
        if cls == OF:
            rejects(f, r, neg(op("==", size(dp), init(fld(OF, "dim")))), "a design of another dimension")
        g = dfn(ctx, OF, "evaluateObjectiveFunctionDirectly", ["vec&"])
        rejects(g, r, op("==", fp, absint.NULL), "a missing function")
    f = dfn(ctx, CF, "validateConstraintID", ["Design&"])
    rejects(f, "constraint-evaluation", op("<=", size(init(F(D_(f), DCV))), cid), "a constraint that the design does not have")
    f = dfn(ctx, CF, "validateDesignParameters", ["Design&"])
    rejects(f, "constraint-evaluation", neg(op("==", size(init(F(D_(f), DP))), init(fld(OF, "dim")))), "a design of another dimension")


class Pointers(Trace):
    """contents of the arrays passed to functions"""

    def __init__(self, *names):
        Trace.__init__(self, *names)
        self.vals = {}

    def on_call(self, I, st, c):
        for a in c.args:
            if isinstance(a, absint.T) and a.k == "iter" and a.a[0].k in ("L", "F"):
                self.vals[a.a[0]] = I.load(st, a.a[0])
        return Trace.on_call(self, I, st, c)


def indirect(f, t, fp, dp):
    """call of the function pointer with the elements of dp (or of a copy)"""
    return t.k == "call" and t.a[0] == "(indirect)" and t.a[1] is fp and len(t.a) == 3 and elements_of(f, t.a[2], dp)


def elements_of(f, p, v):
    if p.k == "call" and p.a[0].endswith("getPointer"):
        return p.a[1] is v
    if p.k == "iter" and p.a[1] is ZERO:
        x = p.a[0]
        x = x if x.k not in ("F", "L", "D") else f.at_call.get(x) or f.load(x)
        return x is v or x.k == "init" and x.a[0] is v
    return False


def first_output(t, out):
    if t.k == "elem":
        b, k = t.a
    elif t.k == "init" and t.a[0].k == "E":
        b, k = t.a[0].a
    else:
        return False
    return k is ZERO and b.k == "call" and b.a[0] == OF + "::readOutput" and b.a[2] is out and b.a[3].k == "int" and b.a[3].a[0] >= 1


# ------------------------------------------------------------------ surrogate of a function
BUILD = ("constructSampleObjectiveFunction", "constructSampleObjectiveFunctionWithTangent", "constructSampleObjectiveFunctionWithGradient", "constructSampleObjectiveFunctionWithZeroGradient",
         "constructSampleConstraint")
MODEL = ("setName", "setDimension", "setBoxConstraints", "setNameOfInputFile", "readData", "normalizeData", "initializeSurrogateModel", "setNumberOfTrainingIterations", "setReadWarmStartFileFlag",
         "train", "addNewSampleToData", "setLinearRegressionOn", "bindSurrogateModel")


def E02_data(ctx):
    """the evaluated design becomes a sample of the function's model"""
    r = "function-data"
    from .ea import prog_of
    ml = init(F(fld(OF, "definition"), OFD + "::ifMultiLevel"))
    for types in (["Design&"], ["Design&", "basic_string<char>"]):
        f = Fn(ctx, OF + "::addDesignToData", types, inl=inline_classes(OF, stop=BUILD + ("log", "getInstance")), hooks=Trace("addNewSampleToData", "addNewLowFidelitySampleToData"), setup=lambda I, st: I.write(st, TRACE, mk("none"), hook=False))
        how = init(mk("P", f.f.p[1]["n"])) if len(types) > 1 else init(fld(OF, "addDataMode"))
        tr = decide(f.st.store.get(TRACE), [neg(ml)])
        ok_ev = lambda x, fn, b: x[0] == "ev" and x[1] == fn and is_call(x[3], DES + "::" + b) and x[3].a[1] is init(D_(f))
        sh_ = lambda xs: [(x[1], show(x[3])[:100]) if x[0] == "ev" else x[:2] for x in xs]
        for m, b in (("primal", BUILD[0]), ("tangent", BUILD[1]), ("adjoint", BUILD[2]), ("adjointWithZeroGradient", BUILD[3])):
            t = with_(tr, how, mk("str", m))
            xs = prog_of(f.I, t)
            f.ob(r, "mode %s: the sample is added once" % m, len(xs) == 1 and ok_ev(xs[0], "addNewSampleToData", b), "adds %s" % sh_(xs))
            ob_ = [x[2] for x in xs if x[0] == "ev"]
            f.ob(r, "mode %s: added to the model of the function" % m, all(contains_(o, init(fld(OF, "surrogate"))) for o in ob_), "added to %s" % [show(o)[:60] for o in ob_])
        tr = decide(f.st.store.get(TRACE), [ml])
        for m, lo in () if len(types) > 1 else (("primalBoth", "constructSampleObjectiveFunctionLowFi"), ("primalHiFiAdjointLowFi", "constructSampleObjectiveFunctionWithGradientLowFi")):
            xs = prog_of(f.I, with_(tr, how, mk("str", m)))
            ok = len(xs) == 2 and any(ok_ev(x, "addNewSampleToData", BUILD[0]) for x in xs) and any(ok_ev(x, "addNewLowFidelitySampleToData", lo) for x in xs)
            f.ob(r, "mode %s: one sample of each fidelity" % m, ok, "adds %s" % sh_(xs))
    for c, w in ((op("==", size(init(F(fld(OF, "definition"), OFD + "::nameHighFidelityTrainingData"))), ZERO), "a missing training file"), (neg(init(fld(OF, "ifInitialized"))), "a function without model"),
                 (op("==", size(how), ZERO), "a missing mode")):
        rejects(f, r, c, w)
    f = Fn(ctx, CF + "::addDesignToData", ["Design&"], inl=inline_classes(OF, CF, stop=BUILD + ("log", "getInstance")), hooks=Trace("addNewSampleToData"), setup=lambda I, st: I.write(st, TRACE, mk("none"), hook=False))
    xs = prog_of(f.I, f.st.store.get(TRACE))
    cid = init(F(fld(CF, "definitionConstraint"), CD + "::ID"))
    ok = len(xs) == 1 and xs[0][0] == "ev" and is_call(xs[0][3], DES + "::constructSampleConstraint") and xs[0][3].a[1] is init(D_(f)) and unint(xs[0][3].a[2]) is cid
    f.ob(r, "the sample of this constraint is added once", ok, "adds %s" % [(x[1], show(x[3])[:100]) if x[0] == "ev" else x[:2] for x in xs])


def unint(t):
    while t.k == "un" and t.a[0] in ("int", "unsigned", "unsigned int"):
        t = t.a[1]
    return t


def E02_model(ctx):
    """the model is set up, read, normalised and initialised in this order with the data of the function"""
    r = "function-model"
    f = Fn(ctx, OF + "::initializeSurrogate", [], inl=inline_classes(OF, stop=MODEL + ("log", "getInstance")), hooks=Trace(*MODEL), setup=lambda I, st: I.write(st, TRACE, mk("none"), hook=False))
    from .ea import prog_of
    xs = prog_of(f.I, f.st.store.get(TRACE))
    names = [x[1] if x[0] == "ev" else "?" for x in xs]
    pos = {n: i for i, n in enumerate(names)}
    de = fld(OF, "definition")
    want = {"setName": init(F(de, OFD + "::name")), "setDimension": init(fld(OF, "dim")), "setBoxConstraints": init(fld(OF, "boxConstraints")),
            "setNameOfInputFile": init(F(de, OFD + "::nameHighFidelityTrainingData")), "setNumberOfTrainingIterations": init(fld(OF, "numberOfIterationsForSurrogateTraining"))}
    for n in ("bindSurrogateModel", "setName", "setDimension", "setBoxConstraints", "setNameOfInputFile", "readData", "normalizeData", "initializeSurrogateModel", "setNumberOfTrainingIterations"):
        f.ob(r, "set-up: " + n, names.count(n) == 1, "calls %s" % names)
        if n in want and n in pos:
            x = xs[pos[n]]
            f.ob(r, "set-up: value of " + n, x[3] is want[n] or same_after(f, x[3], want[n]), "is %s" % show(x[3])[:100])
    for a, b in (("bindSurrogateModel", "setName"), ("bindSurrogateModel", "setDimension"), ("bindSurrogateModel", "setBoxConstraints"), ("bindSurrogateModel", "readData"), ("setDimension", "setBoxConstraints"),
                 ("setDimension", "readData"), ("setNameOfInputFile", "readData"), ("setBoxConstraints", "normalizeData"), ("readData", "normalizeData"), ("normalizeData", "initializeSurrogateModel")):
        if a in pos and b in pos:
            f.ob(r, "set-up: %s before %s" % (a, b), pos[a] < pos[b], "order is %s" % names)
    f.ob(r, "function is initialised", yes_(f, f.load(fld(OF, "ifInitialized"))), "is not")
    for c, w in ((neg(init(fld(OF, "ifParameterBoundsAreSet"))), "missing bounds"), (neg(init(fld(OF, "ifDefinitionIsSet"))), "a missing definition"), (op("==", init(fld(OF, "dim")), ZERO), "a missing dimension")):
        rejects(f, r, c, w)
    f = Fn(ctx, OF + "::bindSurrogateModel", [], inl=inline_classes(OF, stop=("log", "getInstance", "setLinearRegressionOn")), hooks=Trace("setLinearRegressionOn"), setup=lambda I, st: I.write(st, TRACE, mk("none"), hook=False))
    ty = init(F(de, OFD + "::modelHiFi"))
    own = fld(OF, "surrogateModel")
    for n, lin_ in (("ORDINARY_KRIGING", False), ("UNIVERSAL_KRIGING", True)):
        en = enum_of(ctx, n)
        s = fixed_enum(f.load(fld(OF, "surrogate")), ty, en)
        f.ob(r, "%s: the model of this function" % n, is_address(s, own), "model is %s" % show(s)[:100])
        xs = prog_of(f.I, fixed_enum(f.st.store.get(TRACE), ty, en))
        f.ob(r, "%s: linear regression" % n, [x[1] for x in xs] == (["setLinearRegressionOn"] if lin_ else []), "calls %s" % [x[1] for x in xs])
    f.ob(r, "model is bound", yes_(f, f.load(fld(OF, "ifSurrogateModelIsDefined"))), "is not")
    rejects(f, r, neg(init(fld(OF, "ifDefinitionIsSet"))), "a missing definition")
    # training
    for cls in (OF, CF):
        f = Fn(ctx, cls + "::trainSurrogate", [], inl=inline_classes(OF, CF, stop=MODEL + ("log", "getInstance")), hooks=Trace(*MODEL), setup=lambda I, st: I.write(st, TRACE, mk("none"), hook=False))
        warm = init(fld(OF, "ifWarmStart"))
        ex = init(fld(CF, "ifFunctionExplictlyDefined"))
        tr = f.st.store.get(TRACE)
        base = [neg(ex)] if cls == CF else []
        for c, want in ((warm, ["setReadWarmStartFileFlag", "train"]), (neg(warm), ["train"])):
            xs = prog_of(f.I, decide(tr, base + [c]))
            names = [x[1] if x[0] == "ev" else "?" for x in xs]
            if c is not warm:
                names = [n for n, x in zip(names, xs) if not (n == "setReadWarmStartFileFlag" and x[3] in (ZERO, FALSE))]
            f.ob(r, "training %s" % ("with a warm start" if c is warm else "without a warm start"), names == want and all(x[3] in (ONE, TRUE) for x in xs if c is warm and x[1] == "setReadWarmStartFileFlag"), "calls %s" % names)
        if cls == CF:
            xs = prog_of(f.I, decide(tr, [ex]))
            f.ob(r, "explicit constraints are not trained", not xs, "calls %s" % [x[1] for x in xs])
    # estimates
    SI = SM + "::interpolateWithVariance"
    for cls in (OF, CF):
        ex = init(fld(CF, "ifFunctionExplictlyDefined"))
        base = [neg(ex)] if cls == CF else []
        f = Fn(ctx, cls + "::interpolateWithVariance", ["vec"], inl=inline_classes(OF, CF))
        x = init(mk("P", f.f.p[0]["n"]))
        a, b = [decide(pairfield(f, f.rv, n), base) for n in ("first", "second")]
        f.ob(r, "estimate of the model", a.k == "out" and a.a[0] == SI and a.a[1] == 1 and a.a[3] is x, "is %s" % show(a)[:200])
        ok = b.k == "call" and b.a[0].split("::")[-1] == "sqrt" and b.a[1].k == "out" and b.a[1].a[0] == SI and b.a[1].a[1] == 2 and b.a[1].a[3] is x
        f.ob(r, "standard deviation is the root of the variance", ok, "is %s" % show(b)[:200])
        if cls == CF:
            a, b = [decide(pairfield(f, f.rv, n), [ex]) for n in ("first", "second")]
            f.at_call = {}
            f.ob(r, "explicit constraint: exact value", a.k == "call" and a.a[0] == "(indirect)" and a.a[1] is init(fld(CF, "functionPtr")) and elements_of(f, a.a[2], x), "is %s" % show(a)[:200])
            f.ob(r, "explicit constraint: no uncertainty", b.k == "num" or b.k == "float" or show(b) in ("1e-13", "0"), "is %s" % show(b)[:100])
        f = Fn(ctx, cls + "::interpolate", ["vec"], inl=inline_classes(OF, CF))
        x = init(mk("P", f.f.p[0]["n"]))
        t = decide(f.rv, base)
        f.ob(r, "estimate", is_call(t, SM + "::interpolate") and t.a[-1] is x and contains_(t.a[1], init(fld(OF, "surrogate"))), "is %s" % show(t)[:200])
        if cls == CF:
            t = decide(f.rv, [ex])
            f.at_call = {}
            f.ob(r, "explicit constraint: value", t.k == "call" and t.a[0] == "(indirect)" and t.a[1] is init(fld(CF, "functionPtr")) and elements_of(f, t.a[2], x), "is %s" % show(t)[:200])


def same_after(f, a, b):
    """the same value, seen through calls that do not change it"""
    return show(a) == show(b)


def pairfield(f, p, n):
    if p.k == "snap":
        for x in p.a[1]:
            if x.a[0] == "std::pair::" + n:
                return x.a[1]
    if p.k == "ite":
        return absint.ite(p.a[0], pairfield(f, p.a[1], n), pairfield(f, p.a[2], n))
    if p.k == "obj" and len(p.a) == 3 and p.a[0].startswith("std::pair"):
        return p.a[1 if n == "first" else 2]
    if p.k in ("list", "tup") and len(p.a) == 2:
        return p.a[0 if n == "first" else 1]
    if p.k == "call" and p.a[0] in ("std::make_pair",) and len(p.a) == 3:
        return p.a[1 if n == "first" else 2]
    return f.I.fldval(p, "std::pair::" + n) if hasattr(f.I, "fldval") else mk("?")


def fixed_enum(t, x, en):
    """t when the enumeration x has the value en"""
    def fn(y):
        if y.k == "op" and y.a[0] == "==" and x in y.a[1:]:
            z = [w for w in y.a[1:] if w is not x][0]
            return TRUE if z is en else FALSE if z.k in ("enum", "int") else None
        return None
    return rewrite(t, fn)


def is_address(t, loc):
    return t.k in ("addr", "un", "ptr") and contains_(t, loc) or t is loc or show(t) == "&" + show(loc)


def E02_settings(ctx):
    """settings of the functions are stored"""
    r = "function-settings"
    de = fld(OF, "definition")

    def stores(cls, n, types, loc, v=None, sets=()):
        f = dfn(ctx, cls, n, types)
        w = f.par(0) if v is None else v
        got = f.load(loc)
        f.ob(r, "stores the value", got is w or got is init(mk("P", f.f.p[0]["n"])) if f.f.p else got is w, "stores %s" % show(got)[:100])
        for s in sets:
            f.ob(r, "is set", yes_(f, f.load(s)), "is not")
        return f
    S = ["basic_string<char>"]
    stores(OF, "setDimension", ["unsignedint"], fld(OF, "dim"))
    stores(OF, "setNumberOfTrainingIterationsForSurrogateModel", ["unsignedint"], fld(OF, "numberOfIterationsForSurrogateTraining"))
    f = stores(OF, "setFileNameReadInput", S, F(de, OFD + "::outputFilename"))
    rejects(f, r, op("==", size(f.par(0)), ZERO), "an empty name")
    stores(OF, "setFileNameDesignVector", S, F(de, OFD + "::designVectorFilename"))
    stores(OF, "setFileNameTrainingData", S, F(de, OFD + "::nameHighFidelityTrainingData"))
    stores(OF, "setExecutableName", S, F(de, OFD + "::executableName"))
    stores(OF, "setExecutablePath", S, F(de, OFD + "::path"))
    stores(OF, "setSigmaFactor", ["double"], fld(OF, "sigmaFactor"))
    stores(OF, "setFeasibleMinimum", ["double"], fld(OF, "sampleMinimum"))
    stores(OF, "setParametersByDefinition", ["ObjectiveFunctionDefinition"], de, sets=[fld(OF, "ifDefinitionIsSet")])
    f = stores(OF, "setFunctionPtr", ["ObjectiveFunctionPtr"], fld(OF, "objectiveFunctionPtr"), sets=[fld(OF, "doesObjectiveFunctionPtrExist")])
    rejects(f, r, op("==", f.par(0), absint.NULL), "a missing function")
    f = stores(OF, "setParameterBounds", ["Bounds"], fld(OF, "boxConstraints"), sets=[fld(OF, "ifParameterBoundsAreSet")])
    d = init(fld(OF, "dim"))
    b = init(mk("P", f.f.p[0]["n"]))
    for n, loc in (("getFileNameDesignVector", F(de, OFD + "::designVectorFilename")), ("getFileNameTrainingData", F(de, OFD + "::nameHighFidelityTrainingData")), ("getName", F(de, OFD + "::name")),
                   ("getSurrogateModelType", F(de, OFD + "::modelHiFi"))):
        f = dfn(ctx, OF, n)
        f.ob(r, "returns the value", f.rv is init(loc), "returns %s" % show(f.rv)[:100])
    for n, loc in (("setEvaluationMode", "evaluationMode"), ("setDataAddMode", "addDataMode")):
        f = dfn(ctx, OF, n, ["basic_string<char>&"])
        x = f.par(0)
        f.ob(r, "stores the value", f.load(fld(OF, loc)) is x, "stores %s" % show(f.load(fld(OF, loc)))[:100])
        c = FALSE
        for st, typ, node, fr in f.I.throws[0]:
            p = absint.path_cond(st.path)
            c = op("||", c, p) if p is not None else c
        for m in ("primal", "adjoint", "tangent", "", "another mode"):
            bad = m not in ("primal", "adjoint", "tangent")
            t = listed(with_(c, x, mk("str", m)))
            f.ob(r, "%s '%s'" % ("rejects" if bad else "accepts", m), t is (TRUE if bad else FALSE), "throws when %s" % show(t)[:200])
    f = dfn(ctx, OFD, "checkIfDefinitionIsOk")
    want = init(fld(OFD, "ifDefined"))
    for n in ("name", "designVectorFilename", "outputFilename", "nameHighFidelityTrainingData"):
        want = op("&&", want, neg(op("==", size(init(fld(OFD, n))), ZERO)))
    f.ob(r, "a definition is complete exactly when its names are set", boolean(f, rewrite(flat_ite(f.rv), blank_), want), "returns %s" % show(f.rv)[:300])
    dc = fld(CF, "definitionConstraint")
    stores(CF, "setID", ["int"], F(dc, CD + "::ID"))
    stores(CF, "setInequalityTargetValue", ["double"], F(dc, CD + "::value"))
    stores(CF, "setConstraintDefinition", ["ConstraintDefinition"], dc)
    for n, loc in (("getID", "ID"), ("getInequalityTargetValue", "value"), ("getInequalityType", "inequalityType")):
        f = dfn(ctx, CF, n)
        f.ob(r, "returns the value", f.rv is init(F(dc, CD + "::" + loc)), "returns %s" % show(f.rv)[:100])
    f = dfn(ctx, CF, "isUserDefinedFunction")
    f.ob(r, "returns the value", f.rv is init(fld(CF, "ifFunctionExplictlyDefined")), "returns %s" % show(f.rv)[:100])


def blank_(y):
    """comparison with the empty string"""
    if y.k == "op" and y.a[0] == "==":
        for a, b in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
            if b.k == "str" and b.a[0] == "":
                return op("==", size(a), ZERO)
    return None


def flat_ite(t):
    """nested alternatives as a formula"""
    if t.k == "ite":
        a, b = flat_ite(t.a[1]), flat_ite(t.a[2])
        return op("||", op("&&", t.a[0], a), op("&&", neg(t.a[0]), b))
    return boolterm(t)


def listed(t):
    """membership of a literal in a list of literals"""
    def entries_of(x):
        for y in subterms(x):
            if y.k == "list" and y.a and all(z.k == "str" for z in y.a):
                return y.a
        return None

    def eqs(y):
        if y.k == "op" and y.a[0] == "==" and all(z.k == "str" for z in y.a[1:]):
            return TRUE if y.a[1] is y.a[2] else FALSE
        if y.k == "size" and y.a[0].k == "str":
            return INT(len(y.a[0].a[0]))
        return None

    def fn(y):
        if y.k in ("exists", "all"):
            ls = entries_of(y)
            if ls is None:
                return None
            vs = []
            for z in ls:
                b = rewrite(y.a[-1], lambda w: z if w.k == "elem" and w.a[1].k == "bv" else None)
                vs.append(rewrite(b, eqs))
            return (TRUE if any(v is TRUE for v in vs) else FALSE if all(v is FALSE for v in vs) else None) if y.k == "exists" else (
                TRUE if all(v is TRUE for v in vs) else FALSE if any(v is FALSE for v in vs) else None)
        if y.k == "call" and y.a[0].split("::")[-1] in ("count", "contains") and len(y.a) == 3 and y.a[2].k == "str":
            ls = entries_of(y.a[1])
            return None if ls is None else ONE if y.a[2] in ls else ZERO
        return eqs(y)
    def truth(y):
        """the value of a formula without unknowns"""
        if y.k == "un" and y.a[0] == "!":
            v = truth(y.a[1])
            return v if v is None else not v
        if y.k == "op" and y.a[0] in ("&&", "||"):
            a, b = truth(y.a[1]), truth(y.a[2])
            if y.a[0] == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if y.k == "op" and y.a[0] in ("==", "<", "<=") and all(z.k == "int" for z in y.a[1:]):
            a, b = y.a[1].a[0], y.a[2].a[0]
            return a == b if y.a[0] == "==" else a < b if y.a[0] == "<" else a <= b
        return bool(y.a[0]) if y.k == "int" else None
    t = rewrite(rewrite(t, fn), eqs)
    v = truth(t)
    return t if v is None else TRUE if v else FALSE


# ------------------------------------------------------------------ constraints
def strpart(t):
    """(string, position, length or None, spaces removed) of a part of a string"""
    sp = False
    while t.k == "mut":
        n = t.a[0].split("::")[-1]
        if n == "erase" and any(x.k in ("call", "mut") and x.a[0] == "std::remove_if" and any("isspace" in show(y) for y in x.a[1:] if isinstance(y, absint.T)) for x in subterms(t)):
            sp = True
            t = t.a[1]
        elif n == "remove_if":
            t = t.a[1]
        elif n == "assign" and len(t.a) == 5:
            return t.a[2], t.a[3], t.a[4], sp
        elif n == "assign" and len(t.a) == 4:
            return t.a[2], t.a[3], None, sp
        else:
            return None
    if t.k == "call" and t.a[0].endswith("::substr"):
        ln = t.a[3] if len(t.a) > 3 and "npos" not in show(t.a[3]) else None
        return t.a[1], t.a[2], ln, sp
    return None


def K01_constraints(ctx):
    """constraint definitions and feasibility"""
    r = "constraint"
    f = dfn(ctx, CD, "setDefinition", ["basic_string<char>&"], inl=inline_classes(CD))
    d = f.par(0)
    npos = [x for x in subterms(f.load(fld(CD, "value"))) if x.k == "init" and "npos" in show(x)]
    find = lambda c: [x for x in subterms(f.load(fld(CD, "inequalityType"))) if x.k == "call" and x.a[0].endswith("::find") and x.a[1] is d and (x.a[2].k == "str" and x.a[2].a[0] == c or x.a[2] is INT(ord(c)))]
    gt, lt = find(">"), find("<")
    f.ob(r, "the relation is the first < or >", bool(gt) and bool(lt), "looks for %s" % show(f.load(fld(CD, "inequalityType")))[:200])
    if gt and lt:
        gt, lt = gt[0], lt[0]
        npos = npos[0] if npos else None
        for c, want in (([neg(op("==", gt, npos))], gt), ([op("==", gt, npos), neg(op("==", lt, npos))], lt)):
            w = "relation " + (">" if want is gt else "<")
            p = strpart(decide(f.load(fld(CD, "inequalityType")), c))
            f.ob(r, w + ": type", p is not None and p[0] is d and p[1] is want and p[2] is ONE, "type is %s" % show(decide(f.load(fld(CD, "inequalityType")), c))[:200])
            t = decide(f.load(fld(CD, "constraintName")), c)
            p = strpart(t)
            f.ob(r, w + ": name is the text before the relation without spaces", p is not None and p[0] is d and p[1] is ZERO and p[2] is want and p[3], "name is %s" % show(t)[:300])
            t = decide(f.load(fld(CD, "value")), c)
            a = t.a[1] if t.k == "call" and t.a[0].split("::")[-1] in ("stod", "strtod", "atof") else None
            p = strpart(a) if a is not None else None
            ok = p is not None and p[0] is d and f.V.eq(p[1], add(want, ONE)) and rest(f, p[2], d, want)
            f.ob(r, w + ": value is the number after the relation", ok, "value is %s" % show(t)[:300])
        rejects(f, r, op("&&", op("==", gt, npos), op("==", lt, npos)), "a constraint without relation")
    rejects(f, r, op("==", size(d), ZERO), "an empty constraint")
    # feasibility
    f = dfn(ctx, CF, "checkFeasibility", ["double"])
    dc = fld(CF, "definitionConstraint")
    ty, val, v = init(F(dc, CD + "::inequalityType")), init(F(dc, CD + "::value")), f.par(0)
    for c, want in (("<", op("<", v, val)), (">", op("<", val, v))):
        t = with_(f.rv, ty, mk("str", c))
        f.ob(r, "feasible exactly when the value is %s the limit" % c, boolean(f, t, want), "returns %s" % show(t)[:200])
    f = dfn(ctx, CF, "setInequalityType", ["basic_string<char>&"])
    f.ob(r, "stores the relation", f.load(F(dc, CD + "::inequalityType")) is f.par(0), "stores %s" % show(f.load(F(dc, CD + "::inequalityType")))[:100])
    rejects(f, r, op("&&", neg(op("==", f.par(0), mk("str", "<"))), neg(op("==", f.par(0), mk("str", ">")))), "another relation")
    f = dfn(ctx, CF, "setUseExplicitFunctionOn")
    p = f.load(fld(CF, "functionPtr"))
    cid = init(F(dc, CD + "::ID"))
    ok = p.k in ("elem", "init") and contains_(p, fld(CF, "functionVector")) and contains_(p, cid)
    f.ob(r, "explicit function with the number of the constraint", ok, "function is %s" % show(p)[:100])
    f.ob(r, "explicit function is used", yes_(f, f.load(fld(CF, "ifFunctionExplictlyDefined"))), "is not")


def rest(f, n, d, place):
    """the length covers everything after the relation"""
    if n is None:
        return True
    # length of the text minus at most the number of characters in front
    t = sub(n, sub(sub(size(d), place), ONE))
    if same(f, t, ZERO):
        return True
    # the name without spaces is not longer than the text in front of the relation
    sz = [x for x in subterms(n) if x.k == "size" and x.a[0] is not d]
    m = {}
    for x in sz:
        p = strpart(x.a[0])
        if p is not None and p[0] is d and p[2] is not None:
            m[x] = p[2]
    t = sub(rewrite(n, lambda y: m.get(y)), sub(sub(size(d), place), ONE))
    return same(f, t, ZERO)


def boolean(f, t, want):
    t = absint.ite(t.a[0], boolterm(t.a[1]), boolterm(t.a[2])) if t.k == "ite" else t
    try:
        return t is want or f.V.iff(t, want) or t.k == "ite" and t.a[1] in (ONE, TRUE) and t.a[2] in (ZERO, FALSE) and f.V.iff(t.a[0], want)
    except Big:
        return False


def boolterm(t):
    return TRUE if t is ONE else FALSE if t is ZERO else t
