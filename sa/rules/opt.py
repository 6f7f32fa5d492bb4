"""Optimisation loop: order of one iteration, budget, best-so-far selection, history rows, improvement, search boxes."""
from .common import *

OPT = "Rodop::Optimizer"
OBJF = "Rodop::ObjectiveFunction"
CONF = "Rodop::ConstraintFunction"
HIST = "Rodop::OptimizationHistory"
GOD = "Rodop::GlobalOptimalDesign"
DES = "Rodop::Design"
DBO = "Rodop::DesignForBayesianOptimization"
EGO = OPT + "::performEfficientGlobalOptimization"
CF = fld(OPT, "constraintFunctions")
OBJ = fld(OPT, "objFun")
NC0 = op("==", init(fld(OPT, "numberOfConstraints")), INT(0))
inl_opt = inline_classes(OPT)


class EgoHooks(Hooks):
    """typestate of the design travelling through one iteration of the optimisation loop"""

    def __init__(self, ctx, part):
        self.ctx = ctx
        self.part = part
        self.rec_loops = {}
        self.main = set()

    def nan(self, loc):
        return mk("done", "isnan", loc)

    def on_store(self, I, st, loc, val, node):
        if loc.k == "F" and loc.a[1] == DES + "::designParameters":
            d = loc.a[0]
            kill(st, lambda x: x.k == "done" and x.a[0] in ("obj", "con", "isnan", "feas", "impr", "rec_obj", "rec_con", "rec_hist", "best", "saved"))
            set_done(st, "proposed", d)
        if loc.k == "F" and loc.a[1] == DES + "::isDesignFeasible" and not I.quiet:
            pass
        if loc.k == "F" and loc.a[1] == DES + "::isDesignFeasible":
            kill_done(st, "impr")
            set_done(st, "feas", loc.a[0])
        if loc.k == "F" and loc.a[1] == DES + "::improvementValue":
            set_done(st, "impr", loc.a[0])

    def con_ok(self, I, st, name):
        """every constraint handled, whenever there are constraints"""
        s = under(I, st, (NC0, False))
        if s is None:
            return True
        for cond in forall_done(s, name, CF):
            if cond is None:
                return True
            if name == "rec_con" and cond[1] is False and cond[0].k == "call" and cond[0].a[0].endswith("::isUserDefinedFunction"):
                return True
        return False

    def checks(self, I, st, c, what, d, rule):
        if I.quiet:
            return
        w = I.where(c.node)
        k = what
        self.ctx.ob(rule, k + ": objective evaluated first", w, has_done(st, "obj", d),
                    "%s is reached without the objective having been evaluated for this design on every path" % what)
        self.ctx.ob(rule, k + ": every constraint evaluated first", w, self.con_ok(I, st, "con"),
                    "%s is reached on a path where some constraint of this design has not been evaluated" % what)
        self.ctx.ob(rule, k + ": NaN check passed first", w, (self.nan(d), False) in st.facts,
                    "%s is reached on a path where the design has not passed the NaN check since its last evaluation" % what)

    def on_call(self, I, st, c):
        q = c.q
        if c.n == "evaluateDesign" and c.node.get("repo") and c.obj is not None and c.locs:
            d = c.locs[0]
            isobj = in_field(c.obj, OPT + "::objFun")
            iscon = in_field(c.obj, OPT + "::constraintFunctions")
            kill(st, lambda x: x.k == "done" and x.a[0] == "isnan")
            if isobj:
                if not I.quiet and self.part == "order":
                    self.ctx.ob("loop-order", "objective evaluation of a freshly proposed design", I.where(c.node), has_done(st, "proposed", d),
                                "the objective is evaluated for a design whose parameters were not proposed in this iteration")
                    self.ctx.ob("loop-order", "one objective evaluation per proposal", I.where(c.node), not has_done(st, "obj", d),
                                "the same proposal may be evaluated twice")
                if I.loopstack:
                    self.main.add(I.loopstack[-1])
                set_done(st, "obj", d)
                st.tag("n_eval_2" if st.has("n_eval") else "n_eval")
            if iscon:
                kill_done(st, "feas", "impr")
                set_done(st, "con", c.obj)
        elif q == DES + "::checkIfHasNan" and c.obj is not None:
            return self.nan(c.obj)
        elif c.n == "checkConstraintFeasibility":
            pass
        elif c.n == "addDesignToData" and c.node.get("repo") and c.locs:
            d = c.locs[0]
            if in_field(c.obj, OPT + "::objFun"):
                if self.part == "order":
                    self.checks(I, st, c, "adding the design to the objective's training data", d, "loop-order")
                if not I.quiet and self.part == "order":
                    self.ctx.ob("loop-order", "one training sample per proposal", I.where(c.node), not has_done(st, "rec_obj", d),
                                "the same proposal may be added twice to the training data")
                set_done(st, "rec_obj", d)
            elif in_field(c.obj, OPT + "::constraintFunctions"):
                if self.part == "order":
                    self.checks(I, st, c, "adding the design to a constraint's training data", d, "loop-order")
                set_done(st, "rec_con", c.obj)
        elif q == HIST + "::updateOptimizationHistory" and c.args:
            d = c.locs[0]
            if d is None:
                # by value: the argument term is a snapshot; take the design the loop works on
                d = self.dloc(c)
            if self.part == "order":
                self.checks(I, st, c, "writing the history row", d, "loop-order")
                if not I.quiet:
                    s = under(I, st, (NC0, False))
                    self.ctx.ob("loop-order", "writing the history row: feasibility decided first", I.where(c.node),
                                s is None or has_done(s, "feas", d),
                                "the history row is written on a path where the design's feasibility has not been decided after its constraints were evaluated")
                    self.ctx.ob("loop-order", "writing the history row: improvement computed first", I.where(c.node), has_done(st, "impr", d),
                                "the history row is written on a path where the improvement value is not computed from the final feasibility")
                    self.ctx.ob("loop-order", "one history row per proposal", I.where(c.node), not has_done(st, "rec_hist"),
                                "the same proposal may be written twice to the history")
            if d is not None:
                set_done(st, "rec_hist", d)
        elif q == GOD + "::setGlobalOptimalDesignFromHistoryFile":
            a = c.args[0]
            fresh = any(x.k in ("F",) and x.a[1].startswith(HIST) or (x.k == "call" and x.a[0] == HIST + "::getData") for x in subterms(a))
            if self.part == "order" and not I.quiet:
                self.ctx.ob("loop-order", "best design searched in the recorded history", I.where(c.node), fresh,
                            "the global optimum is not searched in the optimisation history")
            kill_done(st, "saved")
            if fresh and (has_done(st, "rec_hist") or not self.inloop(I)):
                set_done(st, "best", c.obj)
        elif q == GOD + "::saveToXMLFile":
            if has_done(st, "best", c.obj):
                set_done(st, "saved", c.obj)

    def inloop(self, I):
        return bool(I.loopstack)

    def dloc(self, c):
        a = c.node["a"][0]
        while a is not None and a["k"] in ("Ctor", "Cast") and (a.get("a") or a.get("e")):
            a = a["a"][0] if a["k"] == "Ctor" else a["e"]
        if a["k"] in ("Mem", "Ref"):
            return self.cur_I.canon(self.cur_st, self.cur_I.lval(self.cur_st, a))
        return None

    def on_loop(self, I, node, info, head, back, ex, out):
        # the optimisation loop: the one whose iterations evaluate the objective
        ends = [("next iteration", back), ("end of the run", ex), ("end of the run", out.brk), ("return", out.ret)]
        if I.quiet or info["lid"] not in self.main:
            return
        self.rec_loops[info["lid"]] = info
        w = "%s (%s)" % (info["fn"].where(node["l"]), info["fn"].q)
        if self.part == "order":
            for name, s in ends:
                if s is None:
                    continue
                if ex is s and not node["k"] == "Do":
                    continue       # loop test at the top: state before the iteration
                for nm, txt in (("rec_obj", "objective training data"), ("rec_hist", "history")):
                    self.ctx.ob("loop-order", "every evaluated design reaches the " + txt, w, has_done(s, nm),
                                "an iteration can finish (%s) without its evaluated design having been added to the %s" % (name, txt))
                self.ctx.ob("loop-order", "every evaluated design reaches the constraints' training data", w, self.con_ok(I, s, "rec_con"),
                            "an iteration can finish (%s) with a data-driven constraint whose training data did not receive the design" % name)
                self.ctx.ob("loop-order", "global optimum refreshed after every iteration", w, has_done(s, "best"),
                            "an iteration can finish (%s) without the global optimum having been searched again" % name)
                self.ctx.ob("loop-order", "global optimum saved to XML after every iteration", w, has_done(s, "saved"),
                            "an iteration can finish (%s) without globalOptimalDesign having been written" % name)
        if self.part == "budget":
            self.budget(I, node, info, head, back, ex, out, w)

    def budget(self, I, node, info, head, back, ex, out, w):
        MAXF = init(fld(OPT, "maxNumberOfSamples"))
        # the iteration counter: a location whose value grows by exactly one in every iteration
        ctr = []
        for loc, lv in info["hv"].items():
            if lv.k != "lv" or back is None:
                continue
            i0, nx = info["mod"].get(loc, (None, None))
            if nx is op("+", lv, INT(1)) and i0 is not None and (i0.k == "int" and i0.a[0] in (0, 1) or i0.k == "init"):
                ctr.append((loc, lv, i0))
        self.ctx.ob("budget", "exactly one objective evaluation per iteration", w,
                    all(s is None or (s.has("n_eval") and "n_eval_2" not in s.may) for s in (back, out.brk, out.ret)) and (ex is None or node["k"] != "Do" or ex.has("n_eval")),
                    "an iteration of the optimisation loop can make no or more than one objective evaluation")
        ok_more, ok_less = False, False
        why = "no location counts the iterations one by one against the configured maximum"
        for loc, lv, i0 in ctr:
            nxt = op("+", lv, INT(1))
            base = i0 if i0.k == "int" else INT(0)   # member counter starts at its in-class initial value
            if i0.k == "init":
                b = self.member_init(I, i0)
                if b is None:
                    continue
                base = b
            off = base.a[0]
            # evaluations made before this iteration: lv - off; after it: lv + 1 - off
            # may start another iteration only while fewer than max evaluations were made
            if back is not None:
                if node["k"] == "Do" or ex is None:
                    more = self.lt(back, nxt, MAXF, off)
                else:
                    s = under(I, head, (info["guard"], True))
                    more = s is None or self.lt(s, lv, MAXF, off)
            else:
                more = True
            less = True
            for s in (out.brk, out.ret):
                if s is not None:
                    less = less and self.ge(s, nxt, MAXF, off)
            if ex is not None:
                if node["k"] == "Do":
                    less = less and self.ge(ex, nxt, MAXF, off)
                else:
                    less = less and self.ge(ex, lv, MAXF, off)
            if more:
                ok_more = True
            if less:
                ok_less = True
        self.ctx.ob("budget", "no iteration starts once the maximum number of evaluations is reached", w, ok_more,
                    "another iteration can start although the configured maximum number of objective evaluations has been made")
        self.ctx.ob("budget", "the loop ends only when the maximum number of evaluations is reached", w, ok_less,
                    "the loop can end before the configured number of objective evaluations has been made")

    def lt(self, st, a, b, off):
        return holds(st, op("<", a, op("+", b, INT(off))), True)

    def ge(self, st, a, b, off):
        return holds(st, op("<", a, op("+", b, INT(off))), False)

    def member_init(self, I, i0):
        loc = i0.a[0]
        if loc.k == "F" and loc.a[0] is THIS:
            for fd in I.prog.fields(OPT):
                if fd["q"] == loc.a[1]:
                    e = fd.get("init")
                    while e and e.get("k") in ("Cast", "InitList"):
                        e = e["e"] if e["k"] == "Cast" else (e["a"][0] if e["a"] else None)
                    if e and e.get("k") == "Lit":
                        v = I.lit(e)
                        return v if v.k == "int" else None
        return None


class EgoHooks2(EgoHooks):
    def on_call(self, I, st, c):
        self.cur_I, self.cur_st = I, st
        return super().on_call(I, st, c)


def ego(ctx, part):
    f = ctx.prog.fn(EGO)
    h = EgoHooks2(ctx, part)
    I, st, rv = run(ctx, f, h, inl_opt, OPT)
    if not h.rec_loops:
        ctx.ob("loop", "optimisation loop", f.where(), False, "no loop evaluates the objective function")
    return I, st, h


def O01_order(ctx):
    ego(ctx, "order")
    nan_check(ctx)


def nan_check(ctx):
    """checkIfHasNan answers true whenever the objective value, the gradient or a constraint value is NaN"""
    f = ctx.prog.fn(DES + "::checkIfHasNan")
    I, st, rv = run(ctx, f, None, inline_classes(DES), DES)
    w = f.where()

    def atom_for(fname):
        loc = fld(DES, fname)
        at = []
        cond_atoms(rv, at)
        return [a for a in at if contains(a, loc) or contains(a, init(loc))]
    for fname in ("trueValue", "constraintTrueValues"):
        at = []
        cond_atoms(rv, at)
        mine = [a for a in atom_for(fname)]
        ok = False
        for a in mine:
            good = True
            n = min(len(at), 12)
            sel = [a] + [x for x in at if x is not a][:n - 1]
            for vals in itertools.product((False, True), repeat=len(sel) - 1):
                env = {a: True}
                env.update(zip(sel[1:], vals))
                try:
                    if not eval_cond(rv, env):
                        good = False
                        break
                except KeyError:
                    good = False
                    break
            isnan = a.k == "call" and (a.a[0].split("::")[-1] in ("isnan", "has_nan", "__builtin_isnan"))
            ok = ok or (good and isnan)
        ctx.ob("nan-check", "checkIfHasNan detects NaN in " + fname, w, ok,
               "checkIfHasNan can answer false although %s holds a NaN" % fname)


def O02_budget(ctx):
    ego(ctx, "budget")
    # the run refuses a zero budget
    f = ctx.prog.fn(EGO)

    class H(Hooks):
        def on_call(self, I, st, c):
            if c.n == "evaluateDesign" and not I.quiet and in_field(c.obj, OPT + "::objFun"):
                z = op("==", init(fld(OPT, "maxNumberOfSamples")), INT(0))
                ctx.ob("budget", "a zero budget is refused before the first evaluation", I.where(c.node), holds(st, z, False),
                       "the objective can be evaluated although the maximum number of evaluations is zero")
    run(ctx, f, H(), inl_opt, OPT)
