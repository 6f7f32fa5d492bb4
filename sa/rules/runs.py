"""A run whose pieces are in place is not refused: no guard throws in a valid state."""
from .common import *
from .lin import J_, Fn, par, size, VEC, MAT, pick_fn
from .sur import rewrite, nr, nc
from .value import Val
from .content import content, Hyp
from rodsa import absint
from rodsa.absint import path_cond
from rodsa.prog import walk

N = "Rodop::"
OPT, HIST, GOD, DES, DBO = N + "Optimizer", N + "OptimizationHistory", N + "GlobalOptimalDesign", N + "Design", N + "DesignForBayesianOptimization"
OBJF, CONF, CDEF = N + "ObjectiveFunction", N + "ConstraintFunction", N + "ConstraintDefinition"
SUR, DATA, KRI, LINM, TEST, HYP = N + "SurrogateModel", N + "SurrogateModelData", N + "KrigingModel", N + "LinearModel", N + "SurrogateModelTester", N + "KrigingHyperParameterOptimizer"
EAI, EAP, EAO, GPO = N + "EAIndividual", N + "EAPopulation", N + "EAOptimizer", N + "GeneralPurposeOptimizer"
CFB, EXP, GAU = N + "CorrelationFunctionBase", N + "ExponentialCorrelationFunction", N + "GaussianCorrelationFunction"
ONE, ZERO, NULL_ = INT(1), INT(0), mk("null")
# tests of a part that is in place
TESTS = {"areBoundsSet": True, "is_open": True, "checkBoxConstraints": True, "checkBounds": True, "checkIfHasNan": False, "has_nan": False,
         "has_inf": False, "has_zeros": False, "operator>": True, "checkIfBoundsAreSet": True, "empty": False}


class V:
    """terms of a valid state"""

    def __init__(self, f, g):
        self.f, self.g = f, g

    def __call__(self, name):
        """value of a field of the object"""
        cls = self.g.cls
        q = owner(self.f.ctx.prog, cls, name)
        t = init(F(THIS, q))
        return t

    def p(self, i):
        return self.f.par(i)

    def pf(self, i, cls, name):
        p = self.g.p[i]
        b = mk("D", mk("p", p["n"])) if p["t"].endswith("&") else mk("P", p["n"])
        return init(F(b, owner(self.f.ctx.prog, cls, name)))


def owner(prog, cls, name):
    todo = [cls]
    while todo:
        c = todo.pop(0)
        d = prog.classes.get(c)
        if not d:
            continue
        for x in d["fields"]:
            if (x["n"] if isinstance(x, dict) else x).split("::")[-1] == name:
                return c + "::" + name
        todo += [b["q"] if isinstance(b, dict) else b for b in d.get("bases", ())]
    raise absint.AnalysisError("no field %s in %s" % (name, cls))


def ge(a, b):
    return op("<=", b if not isinstance(b, int) else INT(b), a)


def there(p):
    """a pointer that is set"""
    return op("&&", neg(eq(p, NULL_)), p)


def lt(a, b):
    return op("<", a, b if not isinstance(b, int) else INT(b))


def eq(a, b):
    return op("==", a, b)


# flags that a completed set-up has raised
FLAGS = ("ifBoxConstraintsSet", "ifObjectFunctionIsSpecied", "ifSurrogatesAreInitialized", "ifDefinitionIsSet", "ifParameterBoundsAreSet", "ifInitialized",
         "ifDataIsRead", "ifNormalized", "ifCorrelationFunctionIsInitialized", "ifHasTestData", "ifTestDataHasFunctionValues", "ifSurrogateModelSpecified",
         "ifbindSurrogateModelisDone", "ifBoundsAreSet", "ifPopulationIsInitialized", "ifFilenameWarmStartIsSet", "ifInputSampleMatrixIsSet",
         "ifBoundsAreSet", "ifObjectiveFunctionIsSet", "ifProblemNameIsSet")
# numbers that are at least one
COUNTS = ("dimension", "dim", "numberOfSamples", "maxNumberOfSamples", "sizeOfInitialPopulation", "numberOfGenerations", "maxNumberOfFunctionEvaluations",
          "numberOfDoESamples", "numberOfNewIndividualsInAGeneration", "numberOfDeathsInAGeneration", "numberOfThreads")
# collections that may be empty
OPTIONAL = ("constraintFunctions", "constraintNames", "parameterNames", "constraintTrueValues", "constraintTrueValuesLowFidelity", "warningQueue")


def field_name(t):
    if t.k == "init" and t.a[0].k == "F":
        return t.a[0].a[1].split("::")[-1]
    return None


def natural(v, p, optional):
    """what holds of the quantities of the condition in a valid state"""
    out = []
    for t in set(subterms(p)):
        n = field_name(t)
        if n in FLAGS:
            out.append(t)
        elif n in COUNTS:
            out.append(ge(t, 1))
        elif t.k in ("nrows", "ncols"):
            out.append(ge(t, 1))
        elif t.k == "size" and field_name(t.a[0]) not in optional:
            out.append(ge(t, 1))
        elif t.k == "call" and t.a[0].split("::")[-1] in ("getSize", "getNRows", "getNCols", "getNumberOfSamples"):
            out.append(ge(t, 1))
        elif t.k == "call" and t.a[0].split("::")[-1] == "getDimension":
            out.append(eq(t, D(v)))
    return sorted(out, key=show)


def width(x):
    """x is the width of a box"""
    e = content(x, J_, Hyp())
    xs = sorted({t for t in subterms(e) if t.k == "elem"}, key=show)
    return len(xs) == 2 and any(Val(Hyp()).eq(e, op("-", a, b)) for a, b in (xs, xs[::-1]))


def tested(t):
    def fn(x):
        if x.k == "call":
            n = x.a[0].split("::")[-1]
            if n == "has_zeros" and not width(x.a[1]):
                return None
            if n in TESTS:
                return INT(1 if TESTS[n] else 0)
        return None
    return rewrite(t, fn)


def small(f):
    """a check: throws, and does little else"""
    n = 0
    for x in walk(f.raw.get("body") or {}):
        n += 1
        if x.get("k") in ("For", "While", "Do", "RangeFor"):
            return False
    return n < 120


def guards(cls, prog):
    cs, todo = set(), [cls]
    while todo:
        c = todo.pop()
        if c in cs or c not in prog.classes:
            continue
        cs.add(c)
        todo += prog.classes[c].get("bases", ())

    def pol(I, f, c):
        return f.cls in cs and no_print(f) and small(f) and any(x.get("k") == "Throw" for x in walk(f.raw.get("body") or {}))
    return pol


def valid(ctx, q, facts=None, types=None, wide=None, optional=OPTIONAL):
    """no exception of the function itself in a valid state"""
    g = pick_fn(ctx, q, types) if types is not None else ctx.prog.fn(q)
    cls = g.cls
    f = Fn(ctx, q, types, f=g, inl=guards(cls, ctx.prog))
    v = V(f, g)
    A = TRUE
    for c in (facts(v) if facts else ()):
        A = op("&&", A, c)
    nm = q.split("::", 1)[-1] + ("(%s)" % ",".join(types) if types else "")
    n = und = 0
    bad = []
    for st, typ, node, fr in f.I.throws[0]:
        p = path_cond(st.path)
        if p is None:
            und += 1
            continue
        p = tested(p)
        B = A
        for t in sorted({t for t in subterms(p) if t.k == "ncols"}, key=show) if wide else ():
            B = op("&&", B, ge(t, wide(v)))
        for c in natural(v, p, optional):
            B = op("&&", B, c)
        n += 1
        try:
            ok = Val(Hyp()).implies(op("&&", B, p), FALSE)
        except Exception:
            ok = False
        if not ok:
            bad.append("throws in a valid state when %s (%s)" % (show(p)[:250], f.I.where(node)))
    ctx.ob("valid-state", "%s does not refuse valid input" % nm, f.w, not bad, "; ".join(bad)[:600])
    return n, und


def D(v):
    """the dimension of the object"""
    return v("dim") if v.g.cls in (OBJF, CONF, DBO, CFB, EXP, GAU) else v("dimension")


def psize(i=0):
    """the vector handed in has one entry for each dimension"""
    return lambda v: [eq(size(v.p(i)), D(v))]


def acq(v):
    return [eq(size(v("lowerBoundsForAcqusitionFunctionMaximization")), D(v)), eq(size(v("upperBoundsForAcqusitionFunctionMaximization")), D(v))]


def box(v):
    return [eq(size(v("lowerBounds")), D(v)), eq(size(v("upperBounds")), D(v))]


def best(v):
    g = F(F(THIS, OPT + "::globalOptimalDesign"), DES + "::designParametersNormalized")
    return [eq(size(init(g)), D(v))]


def sample(vecname=None, rows=None):
    def fn(v):
        out = [lt(v.p(0), v("numberOfConstraints"))]
        for n in (vecname, rows):
            if n:
                x = v(n)
                out.append(eq(mk("nrows", x) if n is rows else size(x), v("numberOfConstraints")))
        return out
    return fn


# function, further facts of a valid state, parameter types (overloads), least width of the data
OPTIMIZER = [
    ("GlobalOptimalDesign::setBoxConstraints", None),
    ("Optimizer::initializeBoundsForAcquisitionFunctionMaximization", None),
    ("Optimizer::initializeSurrogates", None),
    ("Optimizer::checkIfSettingsAreOK", None),
    ("Optimizer::findTheGlobalOptimalDesign", None),
    ("Optimizer::defineTrustRegion", lambda v: best(v) + box(v) + acq(v) + [op("<", ZERO, v("factorForGradientStepWindow")), op("<=", v("factorForGradientStepWindow"), ONE)]),
    ("Optimizer::searchCompleteDesignSpace", acq),
    ("Optimizer::findTheMostPromisingDesignEGO", lambda v: best(v) + box(v) + acq(v)),
    ("Optimizer::calculateGradientOfAcquisitionFunction", None),
    ("Optimizer::checkIfBoxConstraintsAreSatisfied", lambda v: [eq(size(v.p(0)), D(v))] + box(v)),
    ("Optimizer::setOptimizationHistoryDataFeasibilityValues", None),
    ("Optimizer::initializeOptimizationHistory", None),
    ("Optimizer::setOptimizationHistoryData", None, None, lambda v: op("+", D(v), ONE)),
    ("Optimizer::abortIfCurrentDesignHasANaN", None),
    ("Optimizer::normalCdf", lambda v: [op("<=", ZERO, v.p(2))]),
    ("Optimizer::checkConstraintFeasibility", lambda v: [eq(size(v.p(0)), size(v("constraintFunctions")))]),
    ("Optimizer::performEfficientGlobalOptimization", None),
    ("Optimizer::setNumberOfThreads", lambda v: [ge(v.p(0), 1)]),
    ("Optimizer::setHowOftenTrainModels", lambda v: [ge(v.p(0), 1)]),
    ("OptimizationHistory::setData", lambda v: [eq(mk("ncols", v.p(0)), op("+", op("+", D(v), size(v("constraintNames"))), INT(3)))]),
    ("OptimizationHistory::setParameterNames", psize()),
    ("OptimizationHistory::setHeader", lambda v: [eq(size(v("parameterNames")), D(v))]),
    ("OptimizationHistory::saveOptimizationHistoryFile", None),
    ("OptimizationHistory::updateOptimizationHistory", lambda v: [eq(size(v.pf(0, DES, "designParameters")), D(v))]),
    ("OptimizationHistory::calculateInitialImprovementValue", None),
    ("OptimizationHistory::calculateCrowdingFactor", None),
    ("GlobalOptimalDesign::validateInputs", None),
    ("GlobalOptimalDesign::saveToXMLFile", None),
]
DESIGN = [
    ("Design::setDimension", lambda v: [ge(v.p(0), 1)]),
    ("Design::setNumberOfConstraints", None),
    ("Design::constructSampleObjectiveFunctionWithTangent", lambda v: [eq(size(v("tangentDirection")), D(v))]),
    ("Design::constructSampleObjectiveFunctionWithTangentLowFi", lambda v: [eq(size(v("tangentDirection")), D(v))]),
    ("Design::constructSampleObjectiveFunctionWithGradient", lambda v: [eq(size(v("gradient")), D(v))]),
    ("Design::constructSampleObjectiveFunctionWithZeroGradient", lambda v: [eq(size(v("gradient")), D(v))]),
    ("Design::constructSampleObjectiveFunctionWithGradientLowFi", lambda v: [eq(size(v("gradientLowFidelity")), D(v))]),
    ("Design::constructSampleConstraint", sample("constraintTrueValues")),
    ("Design::constructSampleConstraintLowFi", sample("constraintTrueValuesLowFidelity")),
    ("Design::constructSampleConstraintWithGradient", sample("constraintTrueValues")),
    ("Design::constructSampleConstraintWithGradientLowFi", sample("constraintTrueValuesLowFidelity")),
    ("Design::saveToAFile", None),
    ("Design::saveDesignVectorAsCSVFile", None),
    ("Design::saveDesignVector", None),
    ("DesignForBayesianOptimization::generateRandomDesignVectorAroundASample", psize()),
]
FUNCTIONS = [
    ("ObjectiveFunction::bindSurrogateModel", None),
    ("ObjectiveFunction::setFileNameReadInput", None),
    ("ObjectiveFunction::setParameterBounds", None),
    ("ObjectiveFunction::initializeSurrogate", None),
    ("ObjectiveFunction::addDesignToData", None, ["Design&", "string"]),
    ("ObjectiveFunction::writeDesignVariablesToFile", None),
    ("ObjectiveFunction::checkEvaluationModeForPrimalExecution", lambda v: [eq(v("evaluationMode"), mk("str", "primal"))]),
    ("ObjectiveFunction::setFunctionPtr", lambda v: [there(v.p(0))]),
]
MODELS = [
    ("KrigingModel::setNameOfInputFile", None),
    ("KrigingModel::setNameOfHyperParametersFile", None),
    ("KrigingModel::readData", None),
    ("KrigingModel::setBoxConstraints", None),
    ("KrigingModel::addNewSampleToData", lambda v: [eq(size(v.p(0)), op("+", D(v), ONE))]),
    ("KrigingModel::checkIfDataIsRead", None),
    ("KrigingModel::initializeSurrogateModel", None),
    ("KrigingModel::updateAuxilliaryFields", None),
    ("KrigingModel::setHyperParameters", lambda v: [eq(size(v.p(0)), v("numberOfHyperParameters"))]),
    ("KrigingModel::setEpsilon", lambda v: [op("<=", ZERO, v.p(0))]),
    ("KrigingModel::resizeDataObjects", None),
    ("KrigingModel::calculateLikelihoodFunction", None),
    ("KrigingModel::train", None),
    ("KrigingHyperParameterOptimizer::initializeKrigingModelObject", None),
    ("LinearModel::initializeSurrogateModel", None),
    ("LinearModel::train", None),
    ("LinearModel::interpolateAll", lambda v: [eq(mk("ncols", v.p(0)), D(v))]),
    ("SurrogateModel::calculateOutSampleError", None),
    ("SurrogateModel::saveTestResults", None),
    ("SurrogateModel::saveTestResultsWithVariance", None),
    ("SurrogateModel::calculateValidationError", None),
    ("SurrogateModelData::checkDimensionAndNumberOfSamples", None),
    ("SurrogateModelData::assignSampleInputMatrix", None),
    ("SurrogateModelData::assignGradientMatrix", None, None, lambda v: op("+", op("*", INT(2), D(v)), ONE)),
    ("SurrogateModelData::normalizeSampleInputMatrix", lambda v: [eq(nr(v("X")), v("numberOfSamples")), eq(nc(v("X")), D(v))]),
    ("SurrogateModelData::normalizeSampleInputMatrixTest", None),
    ("SurrogateModelData::setValidationRatio", lambda v: [op("<=", ZERO, v.p(0)), op("<=", v.p(0), ONE)]),
    ("SurrogateModelTester::setRatioValidationSamples", lambda v: [op("<=", ZERO, v.p(0)), op("<=", v.p(0), ONE)]),
    ("SurrogateModelTester::checkIfSurrogateModelIsSpecified", None),
    ("SurrogateModelTester::checkBoxConstraints", None),
    ("CorrelationFunctionBase::setInputSampleMatrix", None),
    ("CorrelationFunctionBase::setDimension", lambda v: [ge(v.p(0), 1)]),
    ("CorrelationFunctionBase::setEpsilon", lambda v: [op("<=", ZERO, v.p(0)), op("<", v.p(0), ONE)]),
    ("ExponentialCorrelationFunction::setTheta", psize()),
    ("ExponentialCorrelationFunction::setGamma", psize()),
    ("ExponentialCorrelationFunction::setHyperParameters", lambda v: [eq(size(v.p(0)), op("*", INT(2), D(v)))]),
    ("ExponentialCorrelationFunction::getHyperParameters", None),
    ("ExponentialCorrelationFunction::initialize", None),
    ("ExponentialCorrelationFunction::computeCorrelationMatrix", None),
    ("ExponentialCorrelationFunction::computeCorrelationVector", None),
    ("GaussianCorrelationFunction::initialize", None),
    ("GaussianCorrelationFunction::setHyperParameters", psize()),
    ("GaussianCorrelationFunction::computeCorrelationMatrix", None),
    ("GaussianCorrelationFunction::computeCorrelationVector", None),
]
EVOLUTION = [
    ("EAIndividual::setDeathProbabilityValue", lambda v: [op("<=", ZERO, v.p(0)), op("<=", v.p(0), ONE)]),
    ("EAIndividual::setReproductionProbabilityValue", lambda v: [op("<", ZERO, v.p(0)), op("<", v.p(0), ONE)]),
    ("EAIndividual::initializeGenes", psize()),
    ("EAIndividual::initializeRandom", None),
    ("EAOptimizer::setMutationProbability", lambda v: [op("<", ZERO, v.p(0)), op("<", v.p(0), ONE)]),
    ("EAOptimizer::generateRandomParents", None),
    ("EAOptimizer::applyMutation", lambda v: [op("<", ZERO, v("mutationProbability")), op("<", v("mutationProbability"), ONE)]),
    ("EAOptimizer::generateIndividualByReproduction", None),
    ("EAOptimizer::checkIfSettingsAreOk", lambda v: [op("<", v("numberOfDeathsInAGeneration"), op("+", v("sizeOfInitialPopulation"), v("numberOfNewIndividualsInAGeneration")))]),
    ("EAPopulation::addIndividual", None),
    ("EAPopulation::removeIndividual", lambda v: [op("<", v.p(0), size(v("population")))], ["int"]),
    ("EAPopulation::writeTableAsCSV", None),
    ("EAPopulation::writeToCSV", None),
    ("EAPopulation::updateFitnessValues", None),
    ("EAPopulation::updatePopulationProperties", None),
    ("EAPopulation::generateRandomParents", lambda v: [op("<=", INT(2), size(v("population")))]),
    ("GeneralPurposeOptimizer::setMaxNumberOfFunctionEvaluations", lambda v: [ge(v.p(0), 1)]),
    ("GeneralPurposeOptimizer::setBounds", lambda v: [op("<", v.p(0), v.p(1))], ["double", "double"]),
    ("GeneralPurposeOptimizer::setBounds", lambda v: [eq(size(v.p(0)), D(v)), eq(size(v.p(1)), D(v))], ["vec&", "vec&"]),
    ("GeneralPurposeOptimizer::setBounds", lambda v: [eq(size(v.p(0)), D(v)), eq(size(v.p(1)), D(v))], ["vector<double>", "vector<double>"]),
    ("Bounds::setBounds", lambda v: [op("<", v.p(0), v.p(1))], ["double", "double"]),
    ("Bounds::setBounds", lambda v: [eq(size(v.p(0)), size(v.p(1)))], ["vec", "vec"]),
    ("Bounds::setBounds", lambda v: [eq(size(v.p(0)), size(v.p(1)))], ["vector<double>", "vector<double>"]),
    ("Bounds::checkBounds", None),
    ("Bounds::isPointWithinBounds", psize()),
    ("Bounds::generateVectorWithinBounds", None),
    ("Bounds::generateStdVectorWithinBounds", None),
]


def table(ctx, entries):
    for e in entries:
        valid(ctx, N + e[0], *e[1:])


def R01_optimizer(ctx):
    table(ctx, OPTIMIZER + DESIGN)


class Thrown(absint.Hooks):
    def __init__(self, prog):
        self.got = []
        self.handlers = {id(x) for g in prog.funcs.values() if g.cls in (OBJF, CONF) for t in walk(g.body) if t.get("k") == "Try" for h in t["h"] for x in walk(h["b"])}

    def on_throw(self, I, st, node, typ):
        # what a handler throws again began with an exception of the guarded block
        if not I.quiet and id(node) not in self.handlers:
            self.got.append((st.copy(), node))


def evaluations(ctx):
    """an evaluation in a valid state is not refused"""
    for cls in (OBJF, CONF):
        h = Thrown(ctx.prog)
        f = Fn(ctx, cls + "::evaluateDesign", ["Design&"], inl=inline_classes(OBJF, CONF, stop=("readOutput", "evaluateObjectiveFunction", "log")), hooks=h)
        v = V(f, f.f)
        d = f.f.p[0]["n"]
        field = lambda c, n: init(F(mk("D", mk("p", d)), owner(ctx.prog, c, n)))
        own = lambda c, n: init(F(THIS, owner(ctx.prog, c, n)))
        A = op("&&", eq(size(field(DES, "designParameters")), D(v)), there(own(OBJF, "objectiveFunctionPtr")))
        if cls == CONF:
            dc = F(THIS, owner(ctx.prog, CONF, "definitionConstraint"))
            A = op("&&", A, op("&&", there(own(CONF, "functionPtr")), op("<", init(F(dc, CDEF + "::ID")), size(field(DES, "constraintTrueValues")))))
        bad = []
        for st, node in h.got:
            p = path_cond(st.path)
            if p is None:
                continue
            p = tested(p)
            B = A
            for t in sorted(set(subterms(p)), key=show):
                if t.k == "size" and t.a[0].k == "call" and t.a[0].a[0].endswith("::readOutput"):
                    # as many values as asked for
                    B = op("&&", B, eq(t, t.a[0].a[-1]))
                elif t.k == "call" and t.a[0] in ("std::system", "system"):
                    B = op("&&", B, eq(t, ZERO))
            p = rewrite(p, modes)
            try:
                ok = Val(Hyp()).implies(op("&&", B, p), FALSE)
            except Exception:
                ok = False
            if not ok:
                bad.append("throws in a valid state when %s (%s)" % (show(p)[:250], f.I.where(node)))
        ctx.ob("valid-state", "%s does not refuse a design" % cls.split("::")[-1], f.w, not bad, "; ".join(bad)[:600])


def modes(x):
    """a mode that is one of the listed ones"""
    if x.k == "quant" or x.k in ("exists", "all"):
        ss = {y.a[0] for y in subterms(x) if y.k == "str"}
        for y in subterms(x):
            if y.k == "list" and any(z.k == "str" and z.a[0] == "primal" for z in y.a):
                return ONE if "primal" in ss else None
    return None


def R01_functions(ctx):
    table(ctx, FUNCTIONS)
    evaluations(ctx)


def R01_models(ctx):
    table(ctx, MODELS)


def R01_evolution(ctx):
    table(ctx, EVOLUTION)
