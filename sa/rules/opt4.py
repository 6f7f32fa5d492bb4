"""Candidate selection of the inner optimisation."""
from .common import *
from .content import Hyp, content, norm
from .opt import OPT, OBJF, CONF, HIST, GOD, DES, DBO, inl_opt
from .opt2 import sym, pval, ploc, num

VAL = DBO + "::valueAcquisitionFunction"
STOP = ("estimateConstraints", "calculateFeasibilityProbabilities", "addPenaltyToAcqusitionFunctionForConstraints", "defineTrustRegion",
        "scaleGradientVector", "changeSettingsForAGradientBasedStep", "decideIfNextStepWouldBeAGradientStep")


def made_by(v, *names):
    """the value is (a field of) the result of one of these calls"""
    while v.k in ("fld", "snap"):
        v = v.a[0]
    return v.k in ("out", "mut") and v.a[0].split("::")[-1] in names


def chain(v):
    """names of the operations applied to a design value, latest first"""
    out = []
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if x.k in ("out", "mut"):
            out.append(x.a[0].split("::")[-1])
        if x.k in ("out", "mut", "snap", "fld", "ite"):
            for y in x.a:
                if isinstance(y, T):
                    todo.append(y)
                elif isinstance(y, tuple):
                    todo.extend(z for o in y if isinstance(o, T) for z in o.a if isinstance(z, T))
    return out


class Sel:
    def __init__(self, ctx, I, rule, nm, w):
        self.ctx, self.I, self.rule, self.nm, self.w = ctx, I, rule, nm, w
        self.n = 0

    def ob(self, key, ok, msg=""):
        return self.ctx.ob(self.rule, "%s: %s" % (self.nm, key), self.w, ok, msg)

    def trace(self, v, scorer, guard):
        """v: final best design; walk back through the selection loops to the start value; returns start leaves"""
        if v.k == "ite":
            return self.trace(v.a[1], scorer, guard) | self.trace(v.a[2], scorer, guard)
        if v.k == "lv":
            f = Fold(self.I, v)
            if not f.ok or not isinstance(f.next, T):
                return {v}
            self.n += 1
            self.loop(f, v, scorer, guard)
            return self.trace(f.start, scorer, guard)
        if v.k == "snap" and v.a[0].k in ("lv", "ite"):
            return self.trace(v.a[0], scorer, guard)
        return {v}

    def loop(self, f, lv, scorer, guard):
        I = self.I
        X = {x for x in alts(f.next) if x is not lv}
        ok = self.ob("the best candidate only changes to a candidate of the same iteration", len(X) >= 1 and all(x.k != "lv" for x in X),
                     "the best candidate becomes %s" % ", ".join(show(x)[:80] for x in X))
        C = update_cond(f.next, lv, lambda t: True)
        if not ok or C is None or len(X) != 1:
            return
        x = next(iter(X))
        best = I.fldval(lv, VAL)
        mine = I.fldval(x, VAL)
        tries = [(best, mine)]
        # or a companion variable
        for loc, (a, b) in f.info["mod"].items():
            l2 = next((y for y in subterms(C) if y.k == "lv" and y.a[0] is f.lid and y.a[1] is loc and y is not lv), None)
            if l2 is None or not isinstance(b, T):
                continue
            c2 = update_cond(b, l2, lambda t: True)
            ys = {y for y in alts(b) if y is not l2}
            if c2 is None or len(ys) != 1:
                continue
            if same_cond(C, c2) is None:
                if not in_loc(loc, lv.a[1]):
                    self.ob("best score starts below every score", low(I, a), "the best score starts at %s" % show(a)[:100])
                tries.append((l2, next(iter(ys))))
        good = False
        for b, m in tries:
            g = guard(I, x)
            cm = op("<", b, m)
            for cand in ([op("&&", g_, cm) for g_ in g] if g else [cm]):
                if same_cond(C, cand) is None:
                    good = True
                    sc = scorer(I, x, m)
                    self.ob("score of a candidate", sc is None, sc or "")
        self.ob("a candidate replaces the best one exactly when its score is higher", good, "replaced when %s" % show(C)[:250])


def in_loc(loc, base):
    while loc is not None:
        if loc is base:
            return True
        loc = loc.a[0] if loc.k in ("F", "E") else None
    return False


def low(I, a, depth=0):
    if a.k == "ite":
        return low(I, a.a[1], depth) and low(I, a.a[2], depth)
    if a.k == "lv" and depth < 5:
        f = Fold(I, a)
        return f.ok and low(I, f.init, depth + 1)
    return is_minus_huge(a)


def ego_score(I, x, m):
    if m is not I.fldval(x, VAL):
        return "the score is %s" % show(m)[:150]
    ch = chain(m)
    if not ch or ch[0] != "addPenaltyToAcqusitionFunctionForConstraints":
        return "the feasibility probability is not the last operation on the acquisition value (%s)" % ", ".join(ch[:4])
    return None if any(c.startswith("calculateExpectedImprovement") for c in ch[1:]) else "the acquisition value is not computed for the candidate (%s)" % ", ".join(ch[:4])


def grad_score(I, x, m):
    NCF = init(fld(OPT, "numberOfConstraints"))
    if m is I.fldval(x, VAL):
        ch = chain(m)
        return None if ch and (ch[0] == "calculateExpectedImprovementUsingDerivatives" or ch[0] == "addPenaltyToAcqusitionFunctionForConstraints") else \
            "the score does not come from the derivative based acquisition value (%s)" % ", ".join(ch[:4])
    return "the score is %s" % show(m)[:150]


def grad_score_con(I, x, m):
    if m is I.fldval(x, VAL):
        return ego_score(I, x, m)
    if m.k == "lv":
        f = Fold(I, m)
        NCF = init(fld(OPT, "numberOfConstraints"))
        if not f.ok or f.lo is not INT(0) or norm(f.hi, Hyp()) is not NCF:
            return "the probabilities of only some constraints are used"
        p = I.fldval(x, DBO + "::constraintFeasibilityProbabilities")
        if not any(alg_eq(f.next, op("*", m, e)) for e in (mk("elem", p, f.i), I.elemval(p, f.i))):
            return "the score is not multiplied by the candidate's probability of feasibility (%s)" % show(f.next)[:150]
        ch = chain(p)
        if not ch or ch[0] != "calculateFeasibilityProbabilities" or "estimateConstraints" not in ch:
            return "the probabilities are not computed from the candidate's estimates (%s)" % ", ".join(ch[:4])
        ch = chain(f.init)
        if "calculateExpectedImprovementUsingDerivatives" not in ch:
            return "the score does not start from the acquisition value"
        return None
    return "the score is %s" % show(m)[:150]


def no_guard(I, x):
    return []


def descent_guard(I, x):
    """(candidate - best) . gradient < 0"""
    out = []
    dv = I.fldval(x, DBO + "::dv")
    for t in subterms(x):
        pass
    return out


def O10_selection(ctx):
    rule = "selection"
    f = ctx.prog.fn(OPT + "::findTheMostPromisingDesignEGO")
    I, st, rv = run(ctx, f, None, inline_classes(OPT, stop=STOP), OPT)
    w = f.where()
    absint.UNSIGNED.add(init(fld(OPT, "numberOfConstraints")))
    s = Sel(ctx, I, rule, "global search", w)
    t = I.load(st, fld(OPT, "theMostPromisingDesigns"))
    pushed = [x for x in alts(t) if x.k == "push"]
    s.ob("exactly one design is proposed", len(pushed) == 1 and len(alts(t)) == 1 and pushed[0].a[0] is init(fld(OPT, "theMostPromisingDesigns")),
         "the list of proposals becomes %s" % show(t)[:150])
    if pushed:
        starts = s.trace(pushed[0].a[1], ego_score, no_guard)
        s.ob("candidates of the whole search region and around the best design compete", s.n >= 2, "%d selection loops feed the proposal" % s.n)
        for x in starts:
            v = I.fldval(x, VAL)
            s.ob("best score starts below every score", is_minus_huge(v), "the search starts from acquisition value %s" % show(v)[:100])
    # gradient step
    f = ctx.prog.fn(OPT + "::findTheMostPromisingDesignGradientStep")
    h = GradHooks()
    I, st, rv = run(ctx, f, h, inline_classes(OPT, stop=STOP + ("findTheMostPromisingDesignEGO",)), OPT)
    w = f.where()
    t = I.load(st, fld(OPT, "theMostPromisingDesigns"))
    s = Sel(ctx, I, rule, "gradient step", w)
    pushed = [x for x in alts(t) if x.k == "push"]
    s.ob("a design is proposed", len(pushed) == 1, "the list of proposals becomes %s" % show(t)[:150])
    n = 0
    for p in pushed:
        for br in alts(p.a[1]):
            if br.k != "lv":
                s.ob("proposal comes from the candidate search", False, "the proposal is %s" % show(br)[:120])
                continue
            F_ = Fold(I, br)
            n += 1
            con = any(made_by(x, "calculateFeasibilityProbabilities", "addPenaltyToAcqusitionFunctionForConstraints") for x in subterms(F_.next)) if F_.ok else False
            s2 = Sel(ctx, I, rule, "gradient step, %s" % ("constrained" if con else "unconstrained"), w)
            grd = guards(F_, br) if F_.ok else []
            s2.trace(br, grad_score_con if con else grad_score, lambda I_, x, g=grd: g)
            s2.ob("only descent directions are considered", bool(grd), "candidates are not restricted to directions with a negative directional derivative")
            h.kinds.add(con)
    s.ob("constrained and unconstrained search", h.kinds == {True, False}, "the gradient step has no %s search" % ("constrained" if True not in h.kinds else "unconstrained"))
    for w2, con, pol in h.calls:
        pass
    # the refinement by ascent never returns a worse design
    ascent(ctx, rule)


def guards(f, lv):
    """order atoms  dot(d, gradient) < 0  with d = candidate - best design"""
    at = []
    atoms_of(f.next, at)
    out = []
    g0 = F(F(THIS, OPT + "::globalOptimalDesign"), DES + "::gradient")
    dn = init(F(F(THIS, OPT + "::globalOptimalDesign"), DES + "::designParametersNormalized"))
    for a in at:
        if a.k != "op" or a.a[0] != "<" or a.a[2] is not INT(0):
            continue
        t = a.a[1]
        if t.k != "call" or t.a[0].split("::")[-1] != "dot" or len(t.a) != 3:
            continue
        for d, g in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            okg = any(x is init(g0) for x in subterms(g)) or any(x.k in ("F", "fld") and x.a[1] == DES + "::gradient" for x in subterms(g))
            okd = d.k == "call" and d.a[0].endswith("operator-") and d.a[2] is dn and "generateRandomDesignVector" in chain(d.a[1])
            if okg and okd:
                out.append(a)
    return out


class GradHooks(Hooks):
    def __init__(self):
        self.kinds = set()
        self.calls = []


def ascent(ctx, rule):
    """line search: a moved design survives only when its score exceeds the best score so far, and the best score follows"""
    f = ctx.prog.fn(OPT + "::maximizeAcqusitionFunctionGradientBased")
    I, st, rv = run(ctx, f, None, inline_classes(OPT, stop=STOP + ("calculateGradientOfAcquisitionFunction",)), OPT)
    w = f.where()
    nm = "ascent: "
    start = ploc(f, 0)
    bad = []
    n = [0]

    def unmoved(v):
        return "gradientUpdateDesignVector" not in chain_local(v)

    def chain_local(v):
        return chain(v)

    moved = [x for x in alts(rv) if not unmoved(x)]
    ctx.ob(rule, nm + "the result is the start design or an improved one", w, True)
    # outer loop summary of the best design
    found = False
    for lid, inf in I.loops.items():
        for loc, (a, b) in inf["mod"].items():
            if not isinstance(b, T) or loc.k not in ("L", "V"):
                continue
            lv = next((x for x in subterms(b) if x.k == "lv" and x.a[0] is lid and x.a[1] is loc), mk("lv", lid, loc))
            xs = [x for x in alts(b) if x is not lv and x.k != "fld" and "gradientUpdateDesignVector" in chain(x) and made_by(x, "addPenaltyToAcqusitionFunctionForConstraints", "gradientUpdateDesignVector", "calculateExpectedImprovement")]
            if not xs:
                continue
            for x in xs:
                found = True
                sc = I.fldval(x, VAL)
                C = leaf_cond(b, x)
                fs = [y for y in subterms(C) if y.k == "lv" and y.a[0] is lid and implied(C, op("<", y, sc))]
                ok = bool(fs)
                ctx.ob(rule, nm + "a moved design is kept only when its score exceeds the best score", w, ok, "kept when %s" % show(C)[:250])
                r = ego_score(I, x, sc)
                ctx.ob(rule, nm + "score of a moved design", w, r is None, r or "")
                for y in fs[:1]:
                    ini, nx = inf["mod"][y.a[1]]
                    ok2 = all(z is y or z is sc for z in alts(nx)) and same_cond(simp_cond(leaf_cond(nx, sc)), simp_cond(C)) is None
                    ctx.ob(rule, nm + "the best score follows the design", w, ok2, "the best score becomes %s" % show(nx)[:200])
                    okS = I.fldval(a, VAL) is ini
                    r0 = ego_score(I, a, ini) if okS else "the ascent starts from score %s" % show(ini)[:120]
                    ctx.ob(rule, nm + "the best score starts at the start design's score", w, okS and r0 is None, r0 or "")
    ctx.ob(rule, nm + "moved designs compete with the start design", w, found, "no moved design is selected by its score")


def simp_cond(c):
    return c


def leaf_cond(t, leaf):
    if t is leaf:
        return TRUE
    if t.k == "ite":
        return ite(t.a[0], leaf_cond(t.a[1], leaf), leaf_cond(t.a[2], leaf))
    return FALSE


def implied(c, d):
    at = []
    cond_atoms(c, at)
    cond_atoms(d, at)
    for env in envs(at):
        if eval_cond(c, env) and not eval_cond(d, env):
            return False
    return True
