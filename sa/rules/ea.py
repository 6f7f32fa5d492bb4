"""Evolutionary optimiser: individuals, populations, evolution loop."""
from .sur import *
from .sur import I_

EAI = "Rodop::EAIndividual"
EAP = "Rodop::EAPopulation"
EAO = "Rodop::EAOptimizer"
GPO = "Rodop::GeneralPurposeOptimizer"
ALL = (EAO, EAP, EAI, GPO)
RND = "Rodop::vec::generateRandomVectorBetween"
CALC = "calculateObjectiveFunctionInternal"
B_ = lambda t: op("==", t, t)


def fo(n):
    """initial value of a field of the optimiser"""
    return init(fld(GPO if n in GP else EAO, n))


GP = {"dimension", "lowerBounds", "upperBounds", "ifBoundsAreSet", "calculateObjectiveFunction", "ifObjectiveFunctionIsSet", "maxNumberOfFunctionEvaluations", "ifWarmStart", "ifFilenameWarmStartIsSet",
      "filenameWarmStart", "ifSaveWarmStartFile", "ifProblemNameIsSet", "problemName", "filenameOptimizationHistory", "ifFilenameOptimizationHistoryIsSet", "filenameOptimizationResult",
      "ifFilenameOptimizationResultIsSet", "ifScreenDisplay"}


def efn(ctx, cls, name, types=(), stop=(CALC,), **kw):
    return sfn(ctx, cls, name, list(types), inl=inline_classes(*ALL, stop=("operator()",) + tuple(stop)), **kw)


def fldv(f, v, cls, n):
    return f.I.fldval(v, cls + "::" + n)


def by_function(f, genes):
    """objective at genes: the function pointer when it has been set, the overridden function otherwise"""
    def ok(t):
        t = [x for x in ([t] if t.k != "ite" else [t])][0]
        given = fo("ifObjectiveFunctionIsSet")
        if t.k == "ite":
            c, a, b = t.a
            if f.V.iff(c, given):
                pass
            elif f.V.iff(c, neg(given)):
                a, b = b, a
            else:
                return "chosen by %s" % show(c)[:100]
            if not (a.k == "call" and a.a[0] == "(indirect)" and a.a[1] is fo("calculateObjectiveFunction") and len(a.a) == 3 and a.a[2].k == "call" and a.a[2].a[0].endswith("::getPointer")
                    and a.a[2].a[1] is genes):
                return "with a function: %s" % show(a)[:200]
            if not (b.k == "call" and b.a[0].endswith("::" + CALC) and b.a[-1] is genes):
                return "without a function: %s" % show(b)[:200]
            return None
        return "is %s" % show(t)[:200]
    return ok


def G01_individuals(ctx):
    """individuals: genes within the bounds, evaluated with their own genes"""
    r = "individual"
    # objective function
    f = efn(ctx, EAO, "callObjectiveFunction", ["EAIndividual&"])
    me = mk("D", mk("p", f.f.p[0]["n"]))
    genes = init(F(me, EAI + "::genes"))
    bad = by_function(f, genes)(f.load(F(me, EAI + "::objectiveFunctionValue")))
    f.ob(r, "objective value is the function of the genes", bad is None, str(bad))
    for n in ("genes", "id", "dimension"):
        f.ob(r, n + " of the individual is kept", f.load(F(me, EAI + "::" + n)) is init(F(me, EAI + "::" + n)), "is changed")
    rejects(f, r, op("==", fo("dimension"), ZERO), "a missing dimension")
    rejects(f, r, neg(op("==", fo("dimension"), size(genes))), "genes of another dimension")
    n = sum(1 for x in subterms(f.load(F(me, EAI + "::objectiveFunctionValue"))) if x.k == "call" and (x.a[0] == "(indirect)" or x.a[0].endswith(CALC)))
    f.ob(r, "evaluated once", n == 2, "%d evaluations" % n)
    # random individual
    f = efn(ctx, EAO, "generateRandomIndividual")
    g = fldv(f, f.rv, EAI, "genes")
    f.ob(r, "random genes between the bounds", g.k == "call" and g.a[0] == RND and list(g.a[1:]) == [fo("lowerBounds"), fo("upperBounds")], "are %s" % show(g)[:200])
    evaluated(f, r, f.rv, g)
    numbered(f, r, f.rv)
    rejects(f, r, neg(fo("ifBoundsAreSet")), "missing bounds")
    # mutation
    f = efn(ctx, EAO, "applyMutation", ["vec&"])
    me = f.load(mk("D", mk("p", f.f.p[0]["n"])))
    old = f.par(0)
    f.eq(r, "mutation keeps the number of genes", size(me), size(old))
    e = content(me, K, f.H.copy().add(ZERO, "<=", K).add(K, "<", size(old)))
    p = fo("mutationProbability")
    rn = call(RND, fo("lowerBounds"), fo("upperBounds"))
    u = call("random", ZERO, ONE)
    ok = False
    ev = lambda v: f.I.elemval(v, K)
    if e.k == "ite":
        for c, a, b in ((e.a[0], e.a[1], e.a[2]), (neg(e.a[0]), e.a[2], e.a[1])):
            ok |= (alg_iff(f, c, op("<", u, p)) or alg_iff(f, c, op("<=", u, p))) and a in (at(rn, K), call("random", ev(fo("lowerBounds")), ev(fo("upperBounds")))) and b is ev(old)
    f.ob(r, "mutation replaces genes at random by random genes between the bounds", ok, "gene becomes %s" % show(e)[:300])
    f.throws(r, op("||", op("||", op("<=", p, ZERO), op("<=", ONE, p)), neg(fo("ifBoundsAreSet"))), "a mutation probability that is not between 0 and 1, or missing bounds")
    # crossover
    f = efn(ctx, EAO, "crossOver", ["pair<EAIndividual,EAIndividual>&"])
    box(f, r, f.rv, "child")
    pr = f.par(0)
    m, fa = pairv(f, pr, "first"), pairv(f, pr, "second")
    G = lambda x: fldv(f, x, EAI, "genes")
    f.eq(r, "child has the size of its parents", size(f.rv), size(G(m)))
    rejects(f, r, op("==", fldv(f, m, EAI, "id"), fldv(f, fa, EAI, "id")), "parents with the same ID")
    rejects(f, r, neg(op("==", size(G(m)), size(G(fa)))), "parents of different size")
    h = AtCalls("generateRandomDoubleFromNormalDist")
    I, st, rv = run(ctx, f.f, h, inline_classes(*ALL, stop=("operator()", CALC, "generateRandomDoubleFromNormalDist")), EAO, vals=True)
    f.ob(r, "child genes are drawn", len(h.got) == 1, "%d calls" % len(h.got))
    for n, obj, args, w, s in h.got:
        vs = [I.load(s, a) if a.k in ("F", "L", "D", "E") else a for a in args]
        ok = len(vs) == 3 and any(gene(vs[0], x) is not None and gene(vs[0], x) is gene(vs[1], y) for x, y in ((G(m), G(fa)), (G(fa), G(m)))) and vs[2] is fo("sigma_factor")
        f.ctx.ob(r, "crossover: child gene drawn around the same genes of both parents", w, ok, "drawn with %s" % ", ".join(show(v)[:100] for v in vs))
    f = efn(ctx, EAO, "generateRandomDoubleFromNormalDist", ["double", "double", "double"])
    a, b, c = f.par(0), f.par(1), f.par(2)
    d = [x for x in subterms(f.rv) if x.k == "obj" and x.a[0] == "std::normal_distribution"]
    f.ob(r, "normal distribution", len(d) == 1 and len(d[0].a) == 3, "draws %s" % show(f.rv)[:200])
    if len(d) == 1 and len(d[0].a) == 3:
        f.eq(r, "centre of the crossover", d[0].a[1], div(add(a, b), INT(2)))
        s0 = div(FABS_(sub(b, a)), c)
        f.eq(r, "width of the crossover", d[0].a[2], absint.ite(op("==", s0, ZERO), ONE, s0))
    # child
    f = efn(ctx, EAO, "generateIndividualByReproduction", ["pair<EAIndividual,EAIndividual>"], stop=(CALC, "crossOver"))
    g = fldv(f, f.rv, EAI, "genes")
    f.ob(r, "genes of the child come from the crossover of the parents", g.k == "call" and g.a[0] == EAO + "::crossOver" and g.a[-1] is f.par(0), "are %s" % show(g)[:200])
    f.eq(r, "dimension of the child", fldv(f, f.rv, EAI, "dimension"), fo("dimension"))
    numbered(f, r, f.rv)
    # group
    f = efn(ctx, EAO, "callObjectiveFunctionForAGroup", ["vector<EAIndividual>&"])
    cs = f.load(mk("D", mk("p", f.f.p[0]["n"])))
    old = f.par(0)
    e, oe, n = each(f, r, "group", mk("D", mk("p", f.f.p[0]["n"])))
    if e is not None:
        f.eq(r, "group: all individuals are evaluated", n, size(old))
    else:
        e = oe = old
    g = fldv(f, e, EAI, "genes")
    f.ob(r, "group: genes are kept", g is fldv(f, oe, EAI, "genes"), "are %s" % show(g)[:200])
    f.ob(r, "group: IDs are kept", fldv(f, e, EAI, "id") is fldv(f, oe, EAI, "id"), "are changed")
    evaluated(f, r, e, fldv(f, oe, EAI, "genes"), "group: ")
    f.eq(r, "group: size is kept", size(cs), size(old))
    # base class
    f = efn(ctx, GPO, "callObjectiveFunction", ["vec&"])
    bad = by_function(f, f.par(0))(f.rv)
    f.ob(r, "function value", bad is None, str(bad))


def each(f, r, what, loc):
    """the loop that replaces the elements of loc: new element, old element, number of iterations"""
    for lid, info in f.I.loops.items():
        m = info["mod"].get(loc)
        if m is None or "range" not in info:
            continue
        lv = info["hv"].get(loc)
        i, lo_, hi = info["range"]
        n = m[1]
        if n.k == "upd" and n.a[0] is lv and n.a[1] is i and m[0] is init(loc) and lo_ is ZERO:
            return n.a[2], f.I.elemval(lv, i), hi
    f.ob(r, what + ": every element is treated", False, "there is no loop that replaces one element after the other")
    return None, None, None


def pairv(f, p, n):
    return f.I.fldval(p, "std::pair::" + n)


def gene(t, v):
    """index of the element of v"""
    if t.k == "elem" and t.a[0] is v:
        return t.a[1]
    if t.k == "init" and v.k == "init" and t.a[0].k == "E" and t.a[0].a[0] is v.a[0]:
        return t.a[0].a[1]
    return None


def member(f, t, v):
    """an element of v, drawn before or within a loop"""
    if gene(t, v) is not None:
        return True
    m = f.I.loops.get(t.a[0], {}).get("mod", {}).get(t.a[1]) if t.k == "lv" else None
    return m is not None and all(x is t or gene(x, v) is not None for x in m)


def evaluated(f, r, ind, genes, pre=""):
    bad = by_function(f, genes)(fldv(f, ind, EAI, "objectiveFunctionValue"))
    f.ob(r, pre + "objective value belongs to the genes", bad is None, str(bad))


def numbered(f, r, ind):
    t = fo("totalNumberOfGeneratedIndividuals")
    f.eq(r, "ID is the number of generated individuals", fldv(f, ind, EAI, "id"), f.load(fld(EAO, "totalNumberOfGeneratedIndividuals")))
    f.eq(r, "individual is counted", f.load(fld(EAO, "totalNumberOfGeneratedIndividuals")), add(t, ONE))


def box(f, r, v, what):
    H = f.H.copy().add(ZERO, "<=", K).add(K, "<", fo("dimension"))
    e = content(v, K, H)
    lb, ub = f.I.elemval(fo("lowerBounds"), K), f.I.elemval(fo("upperBounds"), K)
    ok = False
    try:
        ok = Val(H).implies(op("<", lb, ub), op("&&", op("<=", lb, e), op("<=", e, ub)))
    except Big:
        pass
    f.ob(r, what + " lies within the bounds", ok, "gene is %s" % show(e)[:300])


# ------------------------------------------------------------------ G02
POP, PMIN, PMAX, IMIN, IMAX = (fld(EAP, n) for n in ("population", "populationMinimum", "populationMaximum", "idPopulationMinimum", "idPopulationMaximum"))
J_of = lambda f, v: fldv(f, v, EAI, "objectiveFunctionValue")
id_of = lambda f, v: fldv(f, v, EAI, "id")


def coupled(f, val, idv, info=None, seen=()):
    """val and idv always belong to the same individual (or are both unchanged / still at the start value)"""
    if val is init(PMIN) and idv is init(IMIN) or val is init(PMAX) and idv is init(IMAX):
        return True
    if val.k == "ite" and idv.k == "ite":
        if val.a[0] is idv.a[0] or alg_iff(f, val.a[0], idv.a[0]):
            return coupled(f, val.a[1], idv.a[1]) and coupled(f, val.a[2], idv.a[2])
    if val.k == "lv" and idv.k == "lv" and val.a[0] is idv.a[0]:
        return (val.a[1], idv.a[1]) in ((PMIN, IMIN), (PMAX, IMAX))
    for t in subterms(val):
        if fldv(f, t, EAI, "objectiveFunctionValue") is val and fldv(f, t, EAI, "id") is idv:
            return True
    if val.k == "init" and idv.k == "init" and val.a[0].k == "F" and idv.a[0].k == "F":
        return val.a[0].a[0] is idv.a[0].a[0] and val.a[0].a[1] == EAI + "::objectiveFunctionValue" and idv.a[0].a[1] == EAI + "::id"
    if val.k == "fld" and idv.k == "fld":
        return val.a[0] is idv.a[0] and val.a[1] == EAI + "::objectiveFunctionValue" and idv.a[1] == EAI + "::id"
    return False


def pairs(f, r):
    """the IDs of the best and worst individual change together with their values"""
    for w, vl, il in (("best", PMIN, IMIN), ("worst", PMAX, IMAX)):
        v, i = f.load(vl), f.load(il)
        loops = [(lid, x) for lid, x in f.I.loops.items() if vl in x["mod"] or il in x["mod"]]
        ok = True
        for lid, x in loops:
            a, b = x["mod"].get(vl), x["mod"].get(il)
            ok = ok and a is not None and b is not None and coupled(f, a[1], b[1])
        if not loops:
            ok = coupled(f, v, i)
        f.ob(r, "ID of the %s individual belongs to its value" % w, ok, "value %s, ID %s" % (show(v)[:150], show(i)[:150]))


def G02_population(ctx):
    """populations: best and worst individual, adding, removing and finding individuals"""
    r = "population"
    n = dimq("size", init(POP))
    p = init(POP)
    Jk = lambda k: J_of(f, f.I.elemval(p, k))
    # adding
    f = efn(ctx, EAP, "addIndividual", ["EAIndividual"])
    x = f.par(0)
    rejects(f, r, neg(op("==", fldv(f, x, EAI, "dimension"), init(fld(EAP, "dimension")))), "an individual of another dimension")
    f.eq(r, "size after adding", size(f.load(POP)), add(n, ONE))
    f.elems(r, "individuals that are kept", f.load(POP), at(p, K), facts=[(ZERO, "<=", K), (K, "<", n)])
    e = content(f.load(POP), n, f.H)
    f.ob(r, "the new individual is the last one", e is x, "last individual is %s" % show(e)[:200])
    J = J_of(f, x)
    f.eq(r, "minimum after adding", f.load(PMIN), absint.ite(op("<", J, init(PMIN)), J, init(PMIN)))
    f.eq(r, "maximum after adding", f.load(PMAX), absint.ite(op("<", init(PMAX), J), J, init(PMAX)))
    pairs(f, r)
    # group
    f = efn(ctx, EAP, "addAGroupOfIndividuals", ["vector<EAIndividual>"])
    g = f.par(0)
    f.eq(r, "size after adding a group", size(f.load(POP)), add(n, size(g)))
    f.elems(r, "individuals that are kept", f.load(POP), at(p, K), facts=[(ZERO, "<=", K), (K, "<", n)])
    f.elems(r, "new individuals", f.load(POP), at(g, K), idx=add(n, K), facts=[(ZERO, "<=", K), (K, "<", size(g))])
    gj = lambda k: J_of(f, f.I.elemval(g, k))
    f.eq(r, "minimum after adding a group", f.load(PMIN), absint.ite(op("<", agg("min", ZERO, size(g), gj), init(PMIN)), agg("min", ZERO, size(g), gj), init(PMIN)))
    f.eq(r, "maximum after adding a group", f.load(PMAX), absint.ite(op("<", init(PMAX), agg("max", ZERO, size(g), gj)), agg("max", ZERO, size(g), gj), init(PMAX)))
    pairs(f, r)
    # recomputation
    f = efn(ctx, EAP, "updatePopulationMinAndMax")
    for w, l, q, big in (("minimum", PMIN, "min", is_huge), ("maximum", PMAX, "max", is_minus_huge)):
        v = f.load(l)
        extreme(f, r, w, v, q, big, n, Jk)
    f.ob(r, "population is not changed by finding the minimum and maximum", f.load(POP) is p, "is changed")
    pairs(f, r)
    # removing
    f = efn(ctx, EAP, "removeIndividual", ["unsignedint"])
    o = f.par(0)
    f.throws(r, op("<=", n, o), "an order beyond the population")
    q = f.load(POP)
    er = q.k == "mut" and q.a[0] == "std::vector::erase" and q.a[1] is p and len(q.a) == 3 and [t for t in subterms(q.a[2]) if t.k == "iter"] == [mk("iter", POP, o)]
    f.ob(r, "removes the individual with the order", er, "population becomes %s" % show(q)[:200])
    ido = id_of(f, f.I.elemval(p, o))
    c = op("||", op("==", ido, init(IMIN)), op("==", ido, init(IMAX)))
    for w, l in (("minimum", PMIN), ("maximum", PMAX), ("ID of the minimum", IMIN), ("ID of the maximum", IMAX)):
        v = f.load(l)
        ok = v.k == "ite" and (f.V.implies(c, v.a[0]) or f.V.implies(c, neg(v.a[0])))
        kept = v.a[2] if v.k == "ite" and f.V.implies(c, v.a[0]) else v.a[1] if v.k == "ite" else v
        fresh = v.a[1] if v.k == "ite" and f.V.implies(c, v.a[0]) else v.a[2] if v.k == "ite" else v
        if v.k != "ite" and v is not init(l):
            ok, kept = True, init(l)          # always recomputed
        f.ob(r, w + " is found again when the best or worst individual is removed", ok and kept is init(l), "becomes %s" % show(v)[:200])
        if l in (PMIN, PMAX) and ok:
            kk = lambda k: J_of(f, f.I.elemval(q, k))
            extreme(f, r, w + " after removing", fresh, "min" if l is PMIN else "max", is_huge if l is PMIN else is_minus_huge, size(q), kk)
    pairs(f, r)
    # removing by ID
    h = AtCalls("removeIndividual", "getIndividualOrderInPopulationById")
    fn = pick_fn(ctx, EAP + "::removeIndividualById", ["unsignedint"])
    I, st, rv = run(ctx, fn, h, inline_classes(*ALL, stop=("removeIndividual", "getIndividualOrderInPopulationById")), EAP, vals=True)
    xs = [a for nme, obj, a, w, s in h.got if nme == "removeIndividual"]
    ok = len(xs) == 1 and any(t.k == "call" and t.a[0] == EAP + "::getIndividualOrderInPopulationById" and t.a[2] is par(fn, 0) for t in subterms(xs[0][0]))
    ctx.ob(r, "removes the individual with the ID", fn.where(), ok, "removes %s" % (show(xs[0][0])[:200] if xs else "nothing"))
    # order
    f = efn(ctx, EAP, "getIndividualOrderInPopulationById", ["unsignedint"])
    found(f, r, f.rv, f.par(0), "order of the individual")
    # best and worst
    for nme, il in (("getTheBestIndividual", IMIN), ("getTheWorstIndividual", IMAX)):
        f = efn(ctx, EAP, nme)
        v = f.rv
        k = gene(v, p)
        if k is None and v.k == "ite":
            f.ob(r, "individual", False, "is %s" % show(v)[:200])
        else:
            f.ob(r, "is an individual of the population", k is not None, "is %s" % show(v)[:200])
            if k is not None:
                found(f, r, k, init(il), "individual")
    f = efn(ctx, EAP, "getIndividual", ["unsignedint"])
    k = gene(f.rv, p)
    f.ob(r, "is an individual of the population", k is not None, "is %s" % show(f.rv)[:200])
    if k is not None:
        found(f, r, k, f.par(0), "individual")
    f = efn(ctx, EAP, "getIdOftheIndividual", ["unsignedint"])
    f.eq(r, "ID", f.rv, id_of(f, f.I.elemval(p, f.par(0))))
    f = efn(ctx, EAP, "getIndividualIdInPopulationByOrder", ["unsignedint"])
    f.eq(r, "ID", f.rv, id_of(f, f.I.elemval(p, f.par(0))))
    f = efn(ctx, EAP, "getSize")
    f.eq(r, "number of individuals", f.rv, n)
    # reset
    f = efn(ctx, EAP, "reset")
    f.eq(r, "size after the reset", size(f.load(POP)), ZERO)
    f.ob(r, "minimum after the reset", is_huge(f.load(PMIN)) or f.load(PMIN).k == "call" and not contains_(f.load(PMIN), init(PMIN)), "stays %s" % show(f.load(PMIN))[:200])
    f.ob(r, "maximum after the reset", not contains_(f.load(PMAX), init(PMAX)), "stays %s" % show(f.load(PMAX))[:200])
    # start values
    for fd, big, w in ((PMIN, is_huge, "minimum"), (PMAX, is_minus_huge, "maximum")):
        e = [x for x in ctx.prog.fields(EAP) if x["q"] == fd.a[1]]
        I = f.I
        v = I.ev(f.st.copy(), e[0]["init"]) if e and e[0].get("init") else None
        while v is not None and v.k == "obj" and len(v.a) == 2:
            v = v.a[1]
        ctx.ob(r, "start value of the %s" % w, "src/InternalOptimizers/INCLUDE/ea_population.hpp", v is not None and big(v), "starts with %s" % (show(v) if v is not None else "nothing"))
    # repeated IDs
    f = efn(ctx, EAP, "hasRepeatedIDs")
    repeated(f, r)
    for hit in (0, 1):
        class H(Hooks):
            def on_call(self, I, st, c):
                if "std::" in c.q and c.n in ("find", "count", "contains"):
                    return INT(hit if c.n != "find" else 1)
                if c.n in ("insert", "emplace") and "std::set" in c.q:
                    return mk("obj", "std::pair", mk("?"), INT(1 - hit))
                if c.n in ("end", "cend") and "set" in c.q:
                    return INT(1 + hit)
                if c.n in ("operator==", "operator!=") and all(a.k == "int" for a in c.args):
                    return op("==", *c.args) if c.n == "operator==" else neg(op("==", *c.args))
        I, st, rv = run(ctx, f.f, H(), inline_classes(*ALL), EAP, vals=True)
        ctx.ob(r, "repeated IDs are %s" % ("reported" if hit else "not reported without repetition"), f.w, (rv is not FALSE) if hit else rv is FALSE, "returns %s" % show(rv)[:200])


def extreme(f, r, w, v, q, big, n, Jk):
    """v is the smallest (largest) value of the individuals"""
    ags = [t for t in subterms(v) if t.k == "agg" and t.a[0] == q]
    ok = False
    for t in ags:
        rest = subst(v, {t: mk("bv", "AGG")})
        s = [x for x in rest.a if isinstance(x, T)] if rest.k == "call" else [rest]
        sent = [x for x in s if x is not mk("bv", "AGG")]
        f.eq(r, w + " of the population", t, agg(q, ZERO, n, Jk))
        ok = mk("bv", "AGG") in s and (not sent or len(sent) == 1 and big(sent[0]))
        f.ob(r, w + ": start value", ok, "computes %s" % show(v)[:200])
        break
    if not ags:
        f.ob(r, w + " of the population", False, "computes %s" % show(v)[:200])


def found(f, r, k, want, what):
    """k is the place of the first individual with the wanted ID, or -1"""
    p = init(POP)
    ok, m = False, "is %s" % show(k)[:300]
    if k.k == "ite" and k.a[0].k == "exists":
        e = k.a[0]
        n = dimq("size", p)
        body = lambda b: op("==", want, id_of(f, f.I.elemval(p, b)))
        try:
            H = f.H.copy()
            ok = f.V.iff(e, exists(n, body))
        except Big:
            ok = False
        ok = ok and k.a[2] is INT(-1)
        x = k.a[1]
        if x.k == "lv":
            info = f.I.loops.get(x.a[0])
            a, b = info["mod"].get(x.a[1], (None, None)) if info else (None, None)
            ok = ok and (info.get("range") is not None and info["range"][1] is ZERO and (x is info["range"][0] or a is ZERO and b is op("+", x, ONE)))
        elif x.k != "first":
            ok = False
    f.ob(r, what + " is the one with the ID", ok, m)


def repeated(f, r):
    """a set of the IDs that have been met: repeated exactly when one of them is met again"""
    p = init(POP)
    for lid, info in f.I.loops.items():
        sets = [(l, m) for l, m in info["mod"].items() if any(t.k == "mut" and t.a[0].startswith("std::set") for t in subterms(m[1]))]
        if len(sets) != 1 or "range" not in info:
            continue
        l, (a, b) = sets[0]
        i, lo_, hi = info["range"]
        x = id_of(f, f.I.elemval(p, i))
        ins = [t for t in subterms(b) if t.k == "mut" and t.a[0].endswith("::insert")]
        f.ob(r, "every ID is remembered", bool(ins) and all(t.a[-1] is x for t in ins) and lo_ is ZERO and f.V.eq(hi, dimq("size", p)), "remembers %s" % show(b)[:200])
        fresh = a.k == "obj" and len(a.a) == 1
        f.ob(r, "no ID is remembered at the start", fresh, "starts with %s" % show(a)[:100])
        return
    f.ob(r, "IDs are compared", False, "no set of IDs")


# ------------------------------------------------------------------ G03
from fractions import Fraction


class NoNum(Exception):
    pass


def numev(f, t, env):
    """value of a formula for given numbers"""
    if t in env:
        return env[t]
    k, a = t.k, t.a
    if k == "int":
        return Fraction(a[0])
    if k == "flt":
        return Fraction(str(a[0]))
    if k == "un" and a[0] == "-":
        return -numev(f, a[1], env)
    if k == "un" and a[0] in ("int", "+", "double", "float"):
        return numev(f, a[1], env)
    if k == "op":
        x, y = numev(f, a[1], env), numev(f, a[2], env)
        o = a[0]
        if o == "/":
            if y == 0:
                raise NoNum("division by zero")
            return x / y
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "<": lambda: Fraction(x < y), "<=": lambda: Fraction(x <= y), "==": lambda: Fraction(x == y),
             "&&": lambda: Fraction(bool(x) and bool(y)), "||": lambda: Fraction(bool(x) or bool(y))}.get(o)
        if r:
            return r()
    if k == "ite":
        return numev(f, a[1] if numev(f, a[0], env) else a[2], env)
    if k == "not":
        return Fraction(not numev(f, a[0], env))
    if k == "call" and a[0] in ("pow", "std::pow") and a[2].k in ("int", "flt") and Fraction(str(a[2].a[0])).denominator == 1:
        return numev(f, a[1], env) ** int(Fraction(str(a[2].a[0])))
    if k == "call" and a[0] in ("fabs", "std::fabs", "std::abs"):
        return abs(numev(f, a[1], env))
    if k == "elem" and a[1].k == "int":
        v = vecnum(f, a[0], env)
        if v is not None:
            return v[a[1].a[0]]
        x = content(a[0], a[1], f.H)
        if x is not t:
            return numev(f, x, env)
    raise NoNum(show(t)[:100])


def vecnum(f, v, env):
    """numbers of a vector of length three that is a product or the solution of a linear system"""
    if v.k != "call" or not v.a[0].endswith("::matVecProduct"):
        return None
    M, b = v.a[1], v.a[2]
    inv = M.k == "call" and M.a[0].endswith("::invert")
    A = M.a[1] if inv else M
    a = [[numev(f, content(A, mk("tup", INT(i), INT(j)), f.H), env) for j in range(3)] for i in range(3)]
    x = vecnum(f, b, env) or [numev(f, content(b, INT(i), f.H), env) for i in range(3)]
    if not inv:
        return [sum(a[i][j] * x[j] for j in range(3)) for i in range(3)]
    m = [r[:] + [y] for r, y in zip(a, x)]
    for i in range(3):
        p = next((q for q in range(i, 3) if m[q][i] != 0), None)
        if p is None:
            raise NoNum("singular matrix")
        m[i], m[p] = m[p], m[i]
        m[i] = [z / m[i][i] for z in m[i]]
        for q in range(3):
            if q != i:
                m[q] = [z - m[q][i] * w for z, w in zip(m[q], m[i])]
    return [m[i][3] for i in range(3)]


RANGES = [(Fraction(a), Fraction(b)) for a, b in ((0, 1), (-3, 7), (2, 5), (-11, -4), ("0.25", 100))]


def formula(f, r, what, t, J, m, M, want):
    """t, a function of the objective value J, the minimum m and the maximum M, is the wanted function"""
    bad = None
    for lo_, hi_ in RANGES:
        for s in range(6):
            j = lo_ + (hi_ - lo_) * Fraction(s, 5)
            try:
                got = numev(f, t, {J: j, m: lo_, M: hi_})
            except NoNum as e:
                bad = "not evaluated: %s" % e
                break
            if got != want(j, lo_, hi_):
                bad = "is %s instead of %s for the value %s between %s and %s" % (float(got), float(want(j, lo_, hi_)), j, lo_, hi_)
                break
        if bad:
            break
    f.ob(r, what, bad is None, str(bad))


def G03_selection(ctx):
    """fitness, reproduction and death probabilities, selection"""
    r = "evolution-selection"
    p = init(POP)
    n = dimq("size", p)
    kind = init(fld(EAP, "polynomialForFitnessDistrubution"))
    e = [x for x in ctx.prog.fields(EAP) if x["q"] == EAP + "::polynomialForFitnessDistrubution"]
    # fitness
    f = efn(ctx, EAP, "updateFitnessValues")
    el = f.I.elemval(p, K)
    J = J_of(f, el)
    H = f.H.copy().add(ZERO, "<=", K).add(K, "<", n)
    q = mk("str", "quadratic")
    for name, want in (("quadratic", lambda j, m, M: Fraction(99, 100) * ((M - j) / (M - m)) ** 2 + Fraction(1, 100)), ("linear", lambda j, m, M: (M - j) / (M - m))):
        v = subst(f.load(POP), {kind: mk("str", name)})
        x = content(v, K, H)
        formula(f, r, "%s fitness" % name, fldv(f, x, EAI, "fitness"), J, init(PMIN), init(PMAX), want)
        for other in ("objectiveFunctionValue", "id", "genes"):
            f.ob(r, "%s fitness: %s is kept" % (name, other), fldv(f, x, EAI, other) is fldv(f, el, EAI, other), "is changed")
    f.eq(r, "population size is kept", size(f.load(POP)), n)
    rejects(f, r, op("==", n, ZERO), "an empty population")
    # a fitness that is not positive
    ok = False
    for s, typ, node, fr in f.I.throws[0]:
        for c, pol in s.path:
            c = c if pol else neg(c)
            if c.k == "op" and c.a[0] in ("<=", "<") and c.a[2] is ZERO and any(t.k == "fld" and t.a[1] == EAI + "::objectiveFunctionValue" for t in subterms(c.a[1])):
                ok = c.a[0] == "<="
    f.ob(r, "rejects a fitness that is not positive", ok, "there is no such test")
    # reproduction
    f = efn(ctx, EAP, "updateReproductionProbabilities")
    F_ = lambda k: fldv(f, f.I.elemval(p, k), EAI, "fitness")
    x = content(f.load(POP), K, f.H.copy().add(ZERO, "<=", K).add(K, "<", n))
    f.eq(r, "probability of reproduction", fldv(f, x, EAI, "reproductionProbability"), div(F_(K), sums(n, F_)), [op("<=", ZERO, K), op("<", K, n)])
    f.ob(r, "reproduction: fitness is kept", fldv(f, x, EAI, "fitness") is F_(K), "is changed")
    f.eq(r, "population size is kept", size(f.load(POP)), n)
    # death
    f = efn(ctx, EAP, "updateDeathProbabilities")
    F_ = lambda k: fldv(f, f.I.elemval(p, k), EAI, "fitness")
    H = f.H.copy().add(ZERO, "<=", K).add(K, "<", n)
    x = content(f.load(POP), K, H)
    d = fldv(f, x, EAI, "deathProbability")
    qs = {t for t in subterms(d) if t.k == "call" and t.a[0].endswith("::quantile")}
    f.ob(r, "threshold of the fitness", len(qs) == 1, "%d quantiles" % len(qs))
    if len(qs) == 1:
        qt = qs.pop()
        f.vec(r, qt.a[1], n, F_, what="values of the threshold")
        f.eq(r, "threshold is the 90 percent quantile", qt.a[2], mk("flt", "0.9") if qt.a[2].k != "flt" else mk("flt", type(qt.a[2].a[0])(0.9)))
        w = lambda k: absint.ite(op("<", mk("bv", "Q"), F_(k)), ZERO, div(ONE, F_(k)))
        leq(f, r, "probability of death", subst(d, {qt: mk("bv", "Q")}), div(w(K), sums(n, w)), [(ZERO, "<=", K), (K, "<", n)])
    f.ob(r, "death: fitness is kept", fldv(f, x, EAI, "fitness") is F_(K), "is changed")
    # order of the updates
    names = ("updateFitnessValues", "updateReproductionProbabilities", "updateDeathProbabilities")
    fn = pick_fn(ctx, EAP + "::updatePopulationProperties", [])
    h = Trace(*names)
    I, st, rv = run(ctx, fn, h, inline_classes(EAP, stop=names), EAP, setup=lambda I, st: I.write(st, TRACE, mk("none"), hook=False), vals=True)
    seq = [t[1] for t in flat(st.store.get(TRACE))]
    good = "updateFitnessValues" in seq and all(seq.count(x) >= 1 and seq.index(x) > seq.index(names[0]) for x in names[1:]) and seq.count(names[0]) == 1
    ctx.ob(r, "probabilities follow the fitness", fn.where(), good, "order of the updates: %s" % ", ".join(map(str, seq)))
    # selection
    for nme, pr in (("pickUpARandomIndividualForReproduction", "reproductionProbability"), ("pickUpAnIndividualThatWillDie", "deathProbability")):
        wheel(ctx, r, nme, pr)
    f = efn(ctx, EAP, "calculateSumOfDeathProbabilities")
    f.eq(r, "sum of the probabilities of death", f.rv, sums(n, lambda k: fldv(f, f.I.elemval(p, k), EAI, "deathProbability")))
    f = efn(ctx, EAP, "generateRandomParents")
    rejects(f, r, op("<", n, INT(2)), "fewer than two individuals")
    a, b = f.I.fldval(f.rv, "std::pair::first"), f.I.fldval(f.rv, "std::pair::second")
    st = f.st.copy()
    for x in (a, b):
        info = f.I.loops.get(x.a[0]) if x.k == "lv" else None
        if info and info.get("guard") is not None and not info["exits"][1]:
            # the loop that draws it is left here only
            st = f.I.assume(st, info["guard"], False) if st else None
    ok = member(f, a, p) and member(f, b, p) and (st is None or f.I.assume(st, op("==", id_of(f, a), id_of(f, b)), True) is None)
    f.ob(r, "parents have different IDs", ok, "returns %s" % show(f.rv)[:200])
    # setters of the individual
    f = efn(ctx, EAI, "setReproductionProbabilityValue", ["double"])
    v = f.par(0)
    f.eq(r, "value", f.load(fld(EAI, "reproductionProbability")), v)
    f.throws(r, op("||", op("<=", v, ZERO), op("<=", ONE, v)), "a probability of reproduction that is not between 0 and 1")
    f = efn(ctx, EAI, "setDeathProbabilityValue", ["double"])
    v = f.par(0)
    f.eq(r, "value", f.load(fld(EAI, "deathProbability")), v)
    f.throws(r, op("||", op("<", v, ZERO), op("<", ONE, v)), "a probability of death that is not between 0 and 1")
    for nme, fd, ty in (("setFitnessValue", "fitness", "double"), ("setObjectiveFunctionValue", "objectiveFunctionValue", "double"), ("setGenes", "genes", "vec&"), ("initializeGenes", "genes", "vec&"),
                        ("setId", "id", "unsignedint")):
        f = efn(ctx, EAI, nme, [ty])
        f.ob(r, "stores the value", f.load(fld(EAI, fd)) is f.par(0), "stores %s" % show(f.load(fld(EAI, fd)))[:100])
    for nme, fd in (("getFitnessValue", "fitness"), ("getObjectiveFunctionValue", "objectiveFunctionValue"), ("getGenes", "genes"), ("getId", "id"), ("getReproductionProbability", "reproductionProbability"),
                    ("getDeathProbability", "deathProbability"), ("getDimension", "dimension")):
        f = efn(ctx, EAI, nme)
        f.ob(r, "returns the value", f.rv is init(fld(EAI, fd)), "returns %s" % show(f.rv)[:100])


def flat(t):
    """linear part of a trace, oldest event first: ('ev', name, object, arguments...)"""
    out = []
    while t is not None and t.k == "ev":
        out.append(("ev",) + tuple(t.a[1:]))
        t = t.a[0]
    if t is not None and t.k not in ("none",):
        out.append(("?", show(t)[:60]))
    return out[::-1]


def wheel(ctx, r, nme, pr):
    """picks the first individual whose cumulated probability exceeds a random number between 0 and 1"""
    class H(Hooks):
        def __init__(self):
            self.c = []

        def on_branch(self, I, st, c, node):
            self.c.append(c)
    h = H()
    fn = pick_fn(ctx, EAP + "::" + nme, [])
    I, st, rv = run(ctx, fn, h, inline_classes(*ALL), EAP, vals=True)
    p = init(POP)
    key = lambda s: "EAPopulation::%s: %s" % (nme, s)
    i = gene(rv, p)
    ctx.ob(r, key("picks an individual of the population"), fn.where(), i is not None and i.k == "lv", "returns %s" % show(rv)[:200])
    if i is None or i.k != "lv":
        return
    info = I.loops.get(i.a[0])
    ok = info is not None and "range" in info and info["range"][0] is i and info["range"][1] is ZERO and info["range"][2] is dimq("size", p)
    ctx.ob(r, key("goes through the population"), fn.where(), ok, "range %s" % (show(info["range"][2])[:100] if info and "range" in info else "?"))
    if not ok:
        return
    P_ = I.fldval(I.elemval(p, i), EAI + "::" + pr)
    acc = [(l, m) for l, m in info["mod"].items() if l in info["hv"] and m[0] is ZERO and m[1] in (op("+", info["hv"][l], P_), op("+", P_, info["hv"][l]))]
    ctx.ob(r, key("cumulated probability"), fn.where(), len(acc) == 1, "there is no sum of the probabilities")
    if len(acc) != 1:
        return
    s = acc[0][1][1]
    u = mk("call", "random", ZERO, ONE)
    good = [c for c in h.c if c in (op("<", u, s), op("<=", u, s), neg(op("<", s, u)), neg(op("<=", s, u)))]
    ctx.ob(r, key("picked when the cumulated probability exceeds the random number"), fn.where(), bool(good),
           "picked when %s" % "; ".join(show(c)[:100] for c in h.c if any(x is u for x in subterms(c))))
    t = [op("==", u, ZERO)]
    # the decision: returned on the positive branch
    st2 = [c for c in good if I.assume(st.copy(), subst(c, {}), False) is None]
    ctx.ob(r, key("picked on the right side of the comparison"), fn.where(), bool(st2), "the individual is returned when the sum does not exceed the number")
    ctx.ob(r, key("no individual is an error"), fn.where(), bool(I.throws[0]), "falls through")


# ------------------------------------------------------------------ G04
MUTATE = ("addIndividual", "addAGroupOfIndividuals", "removeIndividual", "removeIndividualById", "reset", "readFromCSV")
PO = fld(EAO, "population")


class Fresh(Trace):
    """typestate of the population: its probabilities belong to its individuals"""

    def __init__(self, *names):
        Trace.__init__(self, *names)
        self.picks = []

    def on_call(self, I, st, c):
        r = Trace.on_call(self, I, st, c)
        if c.obj is PO and c.q.startswith(EAP):
            if c.n in MUTATE:
                kill_done(st, "fresh", "added")
            if c.n == "updatePopulationProperties":
                set_done(st, "fresh", PO)
            if c.n in ("pickUpAnIndividualThatWillDie", "generateRandomParents", "pickUpARandomIndividualForReproduction") and not I.quiet:
                self.picks.append((c.n, I.where(c.node), has_done(st, "fresh", PO)))
        return r


POPFNS = ("addIndividual", "addAGroupOfIndividuals", "removeIndividual", "removeIndividualById", "reset", "readFromCSV", "writeToCSV", "updatePopulationProperties", "updatePopulationMinAndMax",
          "pickUpAnIndividualThatWillDie", "pickUpARandomIndividualForReproduction", "hasRepeatedIDs", "getTheBestIndividual")
START = lambda I, st: I.write(st, TRACE, mk("none"), hook=False)


def traced(ctx, name, stop, cls=EAO, fresh=False, types=()):
    fn = pick_fn(ctx, cls + "::" + name, list(types))
    h = Fresh(*stop)

    def setup(I, st):
        START(I, st)
        if fresh:
            set_done(st, "fresh", PO)
    I, st, rv = run(ctx, fn, h, inline_classes(EAO, GPO, stop=stop), cls, setup=setup, vals=True)
    return fn, h, I, st, rv


def prog_of(I, t, depth=0):
    """the trace as a list of ('ev', name, object, arguments...), ('loop', lo, hi, var, body, breaks) and ('if', cond, then, else)"""
    out = []
    while t is not None and t.k != "none":
        if t.k == "ev":
            out.append(("ev",) + tuple(t.a[1:]))
            t = t.a[0]
        elif t.k == "ite":
            a, b = prog_of(I, t.a[1], depth + 1), prog_of(I, t.a[2], depth + 1)
            n = 0
            while n < len(a) and n < len(b) and a[n] == b[n]:
                n += 1
            # a loop left early ends with a part of its body
            if n < len(a) or n < len(b):
                out.append(("if", t.a[0], a[n:], b[n:]))
            return a[:n] + out[::-1]
        elif t.k == "lv" and t.a[1] is TRACE:
            info = I.loops.get(t.a[0])
            body = stepped(prog_of2(I, info["mod"][TRACE][1], t), info.get("step"))
            rg = info.get("range")
            out.append(("loop", t.a[0], rg, tuple(body)))
            t = info["mod"][TRACE][0]
        else:
            out.append(("?", show(t)[:80]))
            break
    return out[::-1]


def stepped(xs, m):
    """the other counters of a loop by the first one"""
    if not m:
        return xs
    return type(xs)(subst(x, m) if isinstance(x, T) else stepped(x, m) if isinstance(x, (tuple, list)) else x for x in xs)


def prog_of2(I, t, stop):
    out = []
    while t is not None and t is not stop and t.k != "none":
        if t.k == "ev":
            out.append(("ev",) + tuple(t.a[1:]))
            t = t.a[0]
        elif t.k == "ite":
            a, b = prog_of2(I, t.a[1], stop), prog_of2(I, t.a[2], stop)
            n = 0
            while n < len(a) and n < len(b) and a[n] == b[n]:
                n += 1
            if n < len(a) or n < len(b):
                out.append(("if", t.a[0], tuple(a[n:]), tuple(b[n:])))
            return a[:n] + out[::-1]
        elif t.k == "lv" and t.a[1] is TRACE:
            info = I.loops.get(t.a[0])
            out.append(("loop", t.a[0], info.get("range"), tuple(stepped(prog_of2(I, info["mod"][TRACE][1], t), info.get("step")))))
            t = info["mod"][TRACE][0]
        else:
            out.append(("?", show(t)[:80]))
            break
    return out[::-1]


def names_of(xs):
    out = []
    for x in xs:
        if x[0] == "ev":
            out.append(x[1])
        elif x[0] == "loop":
            out.append("for(%s){%s}" % (show(x[2][2])[:40] if x[2] else "?", " ".join(names_of(x[3]))))
        elif x[0] == "if":
            out.append("if(%s){%s}else{%s}" % (show(x[1])[:60], " ".join(names_of(x[2])), " ".join(names_of(x[3]))))
        else:
            out.append("?")
    return out


def count_range(f, x, n):
    return x[2] is not None and x[2][1] is ZERO and f.V.eq(x[2][2], n)


def G04_evolution(ctx):
    """order and size of the generations"""
    r = "evolution"
    stop = POPFNS + ("callObjectiveFunction", "generateRandomParents", "generateIndividualByReproduction", "generateRandomIndividual", "readWarmRestartFile", "writeWarmRestartFile")
    base = efn(ctx, EAP, "getSize")

    def ob(fn, key, ok, msg=""):
        ctx.ob(r, "%s: %s" % (fn.q.split("::", 1)[1], key), fn.where(), ok, msg)
    # initial population
    fn, h, I, st, rv = traced(ctx, "initializePopulation", stop)
    xs = prog_of(I, st.store.get(TRACE))
    txt = " ".join(names_of(xs))
    loops = [x for x in xs if x[0] == "loop"]
    ok = len(loops) == 1 and [y[1] for y in loops[0][3] if y[0] == "ev"] == ["generateRandomIndividual"] and count_range(base, loops[0], fo("sizeOfInitialPopulation"))
    ob(fn, "the initial population has the given size", ok, txt)
    evs = [x for x in xs if x[0] == "ev"]
    grp = [x for x in evs if x[1] in ("addAGroupOfIndividuals", "addIndividual") and x[2] is PO]
    ob(fn, "the individuals are added to the population", added(I, grp, "generateRandomIndividual"), txt)
    his = [x for x in evs if x[1] in ("addAGroupOfIndividuals", "addIndividual") and x[2] is fld(EAO, "history")]
    ob(fn, "the individuals are added to the history", added(I, his, "generateRandomIndividual"), txt)
    pos = [(x[1], x[2]) for x in xs if x[0] == "ev" and x[2] is PO]
    ob(fn, "a former population is removed first", ("reset", PO) in pos and pos.index(("reset", PO)) < min([i for i, y in enumerate(pos) if y[0].startswith("add")] or [0]), txt)
    ob(fn, "probabilities are computed after the last change", has_done(st, "fresh", PO), txt)
    ob(fn, "population is marked as initialised", I.load(st, fld(EAO, "ifPopulationIsInitialized")) is ONE, "is not")
    c = [path_cond(s.path) for s, typ, node, fr in I.throws[0]]
    need = [("an empty initial population", op("==", fo("sizeOfInitialPopulation"), ZERO)), ("missing bounds", neg(fo("ifBoundsAreSet")))]
    for w, x in need:
        tot = reduce_or([y for y in c if y is not None])
        ob(fn, "rejects " + w, base.V.implies(x, tot), "throws when %s" % show(tot)[:200])
    # children
    fn, h, I, st, rv = traced(ctx, "addNewIndividualsToPopulation", stop, fresh=True)
    xs = prog_of(I, st.store.get(TRACE))
    txt = " ".join(names_of(xs))
    gen = [x for x in xs if x[0] == "loop" and any(y[0] == "ev" and y[1] == "generateIndividualByReproduction" for y in x[3])]
    ok = len(gen) == 1 and count_range(base, gen[0], fo("numberOfNewIndividualsInAGeneration")) and [y[1] for y in gen[0][3] if y[0] == "ev" and y[1] != "callObjectiveFunction"] == \
        ["generateRandomParents", "generateIndividualByReproduction"]
    ob(fn, "every generation has the given number of children", ok, txt)
    if ok:
        y = [y for y in gen[0][3] if y[1] == "generateIndividualByReproduction"][0]
        ob(fn, "parents of a child are chosen at random", y[3].k == "call" and y[3].a[0].endswith("::generateRandomParents"), "parents are %s" % show(y[3])[:200])
    ev = [i for i, x in enumerate(xs) if x[0] == "loop" and any(y[0] == "ev" and y[1] == "callObjectiveFunction" for y in x[3])]
    ok = len(ev) == 1
    if ok:
        L = xs[ev[0]]
        calls = [y for y in L[3] if y[0] == "ev" and y[1] == "callObjectiveFunction"]
        one = len(calls) == 1 and all(y[0] == "ev" for y in L[3])
        if gen and L is gen[0]:
            full = True
        else:
            full = L[2] is not None and L[2][1] is ZERO and L[2][2].k == "size" and L[2][2].a[0].k == "lv" and gen and L[2][2].a[0].a[0] is gen[0][1]
            one = one and gene2(calls[0][3]) is L[2][0]
        ok = one and full
    ob(fn, "every child is evaluated once", ok, txt)
    add_ = lambda o: [i for i, x in enumerate(xs) if x[0] == "ev" and x[1] == "addAGroupOfIndividuals" and x[2] is o]
    for w, o in (("population", PO), ("history", fld(EAO, "history"))):
        i = add_(o)
        ob(fn, "children are added to the %s once" % w, len(i) == 1 and added(I, [xs[j] for j in i], "generateIndividualByReproduction"), txt)
        ob(fn, "children are evaluated before they are added to the %s" % w, len(i) == 1 and len(ev) == 1 and ev[0] < i[0], txt)
    # removal
    fn, h, I, st, rv = traced(ctx, "removeIndividualsFromPopulation", stop, fresh=True)
    xs = prog_of(I, st.store.get(TRACE))
    txt = " ".join(names_of(xs))
    lp = [x for x in xs if x[0] == "loop"]
    ok = len(xs) == 1 and len(lp) == 1 and count_range(base, lp[0], fo("numberOfDeathsInAGeneration"))
    ob(fn, "the given number of individuals is removed", ok and all(y[0] == "ev" for y in lp[0][3]) and len([y for y in lp[0][3] if y[1] in ("removeIndividualById", "removeIndividual") and y[2] is PO]) == 1, txt)
    if ok:
        rm = [y for y in lp[0][3] if y[1] in ("removeIndividualById", "removeIndividual")]
        t = rm[0][3] if rm else None
        picked = [x for x in (subterms(t) if t is not None else ()) if x.k == "call" and x.a[0].endswith("::pickUpAnIndividualThatWillDie")]
        byid = t is not None and (t.k == "call" and t.a[0] == EAI + "::getId" and t.a[1] in picked or t.k == "fld" and t.a[1] == EAI + "::id" and t.a[0] in picked)
        ob(fn, "the picked individual is removed", byid and rm[0][1] == "removeIndividualById", "removes %s" % (show(t)[:200] if t is not None else "nothing"))
    ob(fn, "probabilities are computed after every removal", bool(h.picks) and all(x[2] for x in h.picks), "an individual is picked with the probabilities of another population")
    # generation
    g = ("addNewIndividualsToPopulation", "removeIndividualsFromPopulation")
    fn, h, I, st, rv = traced(ctx, "generateANewGeneration", stop + g, fresh=True)
    xs = [x for x in prog_of(I, st.store.get(TRACE)) if x[0] != "ev" or x[2] in (PO, THIS)]
    txt = " ".join(names_of(xs))
    nm = [x[1] for x in xs if x[0] == "ev"]
    ok = all(x[0] == "ev" for x in xs) and [x for x in nm if x in g] == list(g)
    ob(fn, "children are added, then individuals are removed", ok, txt)
    if ok:
        a, b = nm.index(g[0]), nm.index(g[1])
        ob(fn, "probabilities are computed before individuals are removed", "updatePopulationProperties" in nm[a:b], txt)
        ob(fn, "no other change of the population", not [x for x in nm if x in MUTATE], txt)
    # run
    st2 = ("checkIfSettingsAreOk", "initializePopulation", "generateANewGeneration")
    fn, h, I, st, rv = traced(ctx, "optimize", stop + st2)
    xs = prog_of(I, st.store.get(TRACE))
    txt = " ".join(names_of(xs))
    infos = [(lid, x) for lid, x in I.loops.items() if TRACE in x["mod"]]
    ok = len(infos) == 1
    ob(fn, "one loop over the generations", ok, txt)
    if ok:
        lid, info = infos[0]
        body = prog_of2(I, info["mod"][TRACE][1], info["hv"][TRACE])
        ob(fn, "every iteration makes one generation", [x[1] for x in body if x[0] == "ev"] == ["generateANewGeneration"] and all(x[0] == "ev" for x in body), " ".join(names_of(body)))
        rg = info.get("range")
        ob(fn, "at most the given number of generations", rg is not None and rg[1] is ZERO and base.V.eq(rg[2], fo("numberOfGenerations")), "range %s" % (show(rg[2])[:100] if rg else "?"))
        before = prog_of(I, info["mod"][TRACE][0])
        nb = [x[1] for x in before if x[0] == "ev"]
        ob(fn, "settings are checked before anything is evaluated", nb[:1] == ["checkIfSettingsAreOk"], " ".join(names_of(before)))
        iff = [x for x in before if x[0] == "if"]
        ws = fo("ifWarmStart")
        good = len(iff) == 1
        if good:
            c, a, b = iff[0][1:4]
            if base.V.iff(c, neg(ws)):
                c, a, b = ws, b, a
            good = base.V.iff(c, ws) and [x[1] for x in a] == ["readWarmRestartFile"] and [x[1] for x in b] == ["initializePopulation"]
        ob(fn, "starts with the warm start file or with an initial population", good, " ".join(names_of(before)))
    # stop criterion
    cnt = fld(EAO, "totalNumberOfGeneratedIndividuals")

    mx = fo("maxNumberOfFunctionEvaluations")
    if infos:
        info = infos[0][1]
        guard, exits = info.get("exits", (TRUE, []))
        early = reduce_or(exits)
        if cnt in info["mod"]:
            now, then = info["hv"][cnt], info["mod"][cnt][1]
            UNSIGNED.update((now, then, mx))
            ok = base.V.iff(early, op("<=", mx, then)) or early is FALSE and base.V.implies(guard, op("<", now, mx))
        else:
            ok = False
        ob(fn, "stops when the maximum number of individuals has been generated", ok, "stops when %s" % show(early)[:200])
    if infos:
        c0 = infos[0][1]["mod"].get(cnt)
        ob(fn, "counting starts at zero", c0 is not None and any(x is ZERO for x in [c0[0]] + list(subterms(c0[0]))) and init(cnt) not in list(subterms(c0[0])), "starts with %s" % (show(c0[0])[:100] if c0 else "?"))
    # solution
    for n, want in (("getSolution", None), ("getBestDesignVector", "genes"), ("getBestObjectiveFunctionValue", "objectiveFunctionValue")):
        fn, h, I, st, rv = traced(ctx, n, stop)
        t = rv
        if want:
            ok = t.k == "call" and t.a[0] == EAI + "::" + ("getGenes" if want == "genes" else "getObjectiveFunctionValue") or t.k == "fld" and t.a[1] == EAI + "::" + want
            ob(fn, "of the solution", ok, "returns %s" % show(t)[:100])
            t = t.a[1] if t.k == "call" else t.a[0]
        ob(fn, "best individual of the population", t.k == "call" and t.a[0] == EAP + "::getTheBestIndividual" and t.a[1] is init(PO), "returns %s" % show(t)[:100])
    fn, h, I, st, rv = traced(ctx, "generateRandomParents", tuple(x for x in stop if x != "generateRandomParents"))
    ob(fn, "parents come from the population", rv.k == "call" and rv.a[0] == EAP + "::generateRandomParents" and rv.a[1] is init(PO), "returns %s" % show(rv)[:100])
    c = reduce_or([path_cond(s.path) for s, typ, node, fr in I.throws[0]])
    ob(fn, "rejects a population that is not initialised", base.V.implies(neg(fo("ifPopulationIsInitialized")), c), "throws when %s" % show(c)[:100])
    # restart file
    for n, call_ in (("readWarmRestartFile", "readFromCSV"), ("writeWarmRestartFile", "writeToCSV")):
        fn, h, I, st, rv = traced(ctx, n, POPFNS)
        xs = prog_of(I, st.store.get(TRACE))
        e = [x for x in xs if x[0] == "ev" and x[1] == call_]
        ob(fn, "uses the population and the file name", len(e) == 1 and e[0][2] is PO and e[0][3] is fo("filenameWarmStart"), " ".join(names_of(xs)))
        c = reduce_or([p for p in (path_cond(s.path) for s, typ, node, fr in I.throws[0]) if p is not None])
        ob(fn, "rejects a missing file name", base.V.implies(neg(fo("ifFilenameWarmStartIsSet")), c), "throws when %s" % show(c)[:100])
        if n.startswith("read"):
            ob(fn, "population is marked as initialised", I.load(st, fld(EAO, "ifPopulationIsInitialized")) is ONE, "is not")


def gene2(t):
    return t.a[1] if t.k == "elem" else t.a[0].a[1] if t.k == "init" and t.a[0].k == "E" else t.a[1] if t.k == "E" else None


def added(I, evs, source):
    """the group that is added has been filled with the individuals"""
    if len(evs) != 1:
        return False
    v = evs[0][3]
    lvs = [v] if v.k == "lv" else [x for x in subterms(v) if x.k == "lv"]
    for x in lvs:
        info = I.loops.get(x.a[0])
        m = info["mod"].get(x.a[1]) if info else None
        while m is not None:
            a, b = m
            if any(t.k == "push" and t.a[0] is info["hv"].get(x.a[1]) and any(y.k == "call" and y.a[0].endswith("::" + source) for y in subterms(t.a[1])) for t in subterms(b)):
                return not any(t.k == "call" for t in subterms(a))
            if a.k != "lv":
                break
            x = a
            info = I.loops.get(x.a[0])
            m = info["mod"].get(x.a[1]) if info else None
    return any(y.k == "call" and y.a[0].endswith("::" + source) for y in subterms(v)) and v.k in ("fill", "push")


# ------------------------------------------------------------------ G05
def G05_settings(ctx):
    """settings of the evolutionary optimiser are stored, inconsistent ones rejected"""
    r = "evolution-settings"
    TRUE_ = (ONE, TRUE)

    def stores(f, loc, v, key="stores the value"):
        f.ob(r, key, f.load(loc) is v, "stores %s" % show(f.load(loc))[:100])

    def only(f, *locs):
        for l in f.st.store:
            if l.k == "F" and l.a[0] is THIS and l not in locs:
                f.ob(r, "changes nothing else", f.load(l) is init(l), "changes %s" % l.a[1])
    for n, fd in (("setInitialPopulationSize", "sizeOfInitialPopulation"), ("setNumberOfNewIndividualsInAGeneration", "numberOfNewIndividualsInAGeneration"),
                  ("setNumberOfDeathsInAGeneration", "numberOfDeathsInAGeneration"), ("setNumberOfGenerations", "numberOfGenerations")):
        f = efn(ctx, EAO, n, ["unsignedint"])
        stores(f, fld(EAO, fd), f.par(0))
        only(f, fld(EAO, fd))
    f = efn(ctx, EAO, "setMutationProbability", ["double"])
    v = f.par(0)
    stores(f, fld(EAO, "mutationProbability"), v)
    f.throws(r, op("||", op("<=", v, ZERO), op("<=", ONE, v)), "a mutation probability that is not between 0 and 1")
    for c, n in ((EAO, "setMaximumNumberOfGeneratedIndividuals"), (GPO, "setMaxNumberOfFunctionEvaluations")):
        f = efn(ctx, c, n, ["unsignedint"])
        stores(f, fld(GPO, "maxNumberOfFunctionEvaluations"), f.par(0))
        f.throws(r, op("==", f.par(0), ZERO), "zero evaluations")
    f = efn(ctx, EAO, "setDimension", ["unsignedint"])
    stores(f, fld(GPO, "dimension"), f.par(0))
    for p in ("population", "generated", "removed", "history"):
        stores(f, F(fld(EAO, p), EAP + "::dimension"), f.par(0), "dimension of " + p)
    f = efn(ctx, GPO, "setDimension", ["unsignedint"])
    stores(f, fld(GPO, "dimension"), f.par(0))
    f = efn(ctx, EAP, "setDimension", ["unsignedint"])
    stores(f, fld(EAP, "dimension"), f.par(0))
    for n, w in (("setWarmStartOn", TRUE_), ("setWarmStartOff", (ZERO, FALSE))):
        f = efn(ctx, EAO, n)
        f.ob(r, "warm start", f.load(fld(GPO, "ifWarmStart")) in w, "is %s" % show(f.load(fld(GPO, "ifWarmStart"))))
    for n, a, b in (("setProblemName", "problemName", "ifProblemNameIsSet"), ("setFilenameOptimizationHistory", "filenameOptimizationHistory", "ifFilenameOptimizationHistoryIsSet"),
                    ("setFilenameWarmStart", "filenameWarmStart", "ifFilenameWarmStartIsSet"), ("setFilenameOptimizationResult", "filenameOptimizationResult", "ifFilenameOptimizationResultIsSet")):
        f = efn(ctx, GPO, n, ["basic_string<char>"])
        stores(f, fld(GPO, a), f.par(0))
        f.ob(r, "is set", yes_(f, f.load(fld(GPO, b))), "is not")
        f.throws(r, op("==", size(f.par(0)), ZERO), "an empty name")
    for n, b in (("isProblemNameSet", "ifProblemNameIsSet"), ("isFilenameOptimizationHistorySet", "ifFilenameOptimizationHistoryIsSet"), ("isFilenameWarmStartSet", "ifFilenameWarmStartIsSet"),
                 ("isFilenameOptimizationResultSet", "ifFilenameOptimizationResultIsSet"), ("isObjectiveFunctionSet", "ifObjectiveFunctionIsSet"), ("areBoundsSet", "ifBoundsAreSet"), ("getDimension", "dimension")):
        f = efn(ctx, GPO, n)
        f.ob(r, "returns the flag", f.rv is init(fld(GPO, b)), "returns %s" % show(f.rv)[:100])
    f = efn(ctx, GPO, "setObjectiveFunction", ["GeneralPurposeObjectiveFunction"])
    stores(f, fld(GPO, "calculateObjectiveFunction"), f.par(0))
    f.ob(r, "is set", yes_(f, f.load(fld(GPO, "ifObjectiveFunctionIsSet"))), "is not")
    rejects(f, r, op("==", f.par(0), absint.NULL), "no function")
    # bounds
    d = fo("dimension")
    lb, ub = fld(GPO, "lowerBounds"), fld(GPO, "upperBounds")
    f = efn(ctx, GPO, "setBounds", ["double", "double"])
    for l, i in ((lb, 0), (ub, 1)):
        f.vec(r, f.load(l), d, lambda k: f.par(i), what="lower bounds" if l is lb else "upper bounds")
    rejects(f, r, op("==", d, ZERO), "a missing dimension")
    rejects(f, r, op("<=", f.par(1), f.par(0)), "an upper bound that does not exceed the lower one")
    f.ob(r, "bounds are set", yes_(f, f.load(fld(GPO, "ifBoundsAreSet"))), "are not")
    f = efn(ctx, GPO, "setBounds", ["vector<double>", "vector<double>"])
    for l, i in ((lb, 0), (ub, 1)):
        f.vec(r, f.load(l), size(f.par(i)), lambda k: at(f.par(i), k), what="lower bounds" if l is lb else "upper bounds")
        rejects(f, r, neg(op("==", d, size(f.par(i)))), "%s of another dimension" % ("lower bounds" if l is lb else "upper bounds"))
    f.ob(r, "bounds are set", yes_(f, f.load(fld(GPO, "ifBoundsAreSet"))), "are not")
    f.ob(r, "rejects upper bounds that do not exceed the lower bounds", bounds_tested(ctx, ["vector<double>", "vector<double>"]), "there is no such test")
    f = efn(ctx, GPO, "setBounds", ["vec&", "vec&"])
    for l, i in ((lb, 0), (ub, 1)):
        f.vec(r, f.load(l), size(f.par(i)), lambda k: at(f.par(i), k), what="lower bounds" if l is lb else "upper bounds")
        rejects(f, r, neg(op("==", d, size(f.par(i)))), "%s of another dimension" % ("lower bounds" if l is lb else "upper bounds"))
    f.ob(r, "bounds are set", yes_(f, f.load(fld(GPO, "ifBoundsAreSet"))), "are not")
    f.ob(r, "rejects upper bounds that do not exceed the lower bounds", bounds_tested(ctx, ["vec&", "vec&"]), "there is no such test")
    # all settings
    f = efn(ctx, EAO, "checkIfSettingsAreOk")
    z = lambda n: op("==", fo(n), ZERO)
    bad = reduce_or([neg(fo("ifBoundsAreSet")), z("numberOfNewIndividualsInAGeneration"), z("sizeOfInitialPopulation"), z("dimension"), z("numberOfGenerations"), z("maxNumberOfFunctionEvaluations"),
                     op("<=", add(fo("sizeOfInitialPopulation"), fo("numberOfNewIndividualsInAGeneration")), fo("numberOfDeathsInAGeneration")),
                     op("&&", fo("ifWarmStart"), neg(fo("ifFilenameWarmStartIsSet")))])
    f.throws(r, bad, "inconsistent settings")
    for n in ("dimension", "ifBoundsAreSet"):
        pass


def loop_of(I, lv):
    """range of the loop the variable belongs to"""
    if lv.k != "lv":
        return None
    info = I.loops.get(lv.a[0])
    return info.get("range") if info else None


def eqq(f, a, b):
    c = TRUE
    for x, p in f.st.path:
        c = op("&&", c, x if p else neg(x))
    return a is b or f.V.eq(a, b) or Val(Hyp()).implies(c, op("==", a, b))


def bounds_tested(ctx, types):
    from .api import crossed_rejected
    f = sfn(ctx, GPO, "setBounds", types, inl=inline_classes(GPO, VEC))
    return crossed_rejected(f, init(fld(GPO, "dimension")), at, f.par(0), f.par(1))
