import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population
from pymoo.core.individual import Individual
from pymoo.core.problem import Problem
from pymoo.core.variable import Real, Integer, Binary, Choice


def admissible(var, v):
    if isinstance(var, Binary):
        return isinstance(v, (bool, np.bool_))
    if isinstance(var, Choice):
        return any(type(v) in (type(o), np.str_, np.int64, np.float64) and v == o for o in var.options)
    if isinstance(var, Integer):
        return isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)) and var.bounds[0] <= v <= var.bounds[1]
    return isinstance(v, (float, np.floating)) and var.bounds[0] <= v <= var.bounds[1]


def variables(c, n=None):
    out = {}
    for i in range(n or c.int(1, 6)):
        kind = c.pick("real", "int", "bin", "choice", "choice")
        if kind == "real":
            lo = c.pick(0.0, -2.5, 10.0)
            v = Real(bounds=(lo, lo + c.pick(1.0, 0.5, 7.0)))
        elif kind == "int":
            lo = c.pick(0, -5, 3)
            v = Integer(bounds=(lo, lo + c.pick(0, 1, 2, 9)))
        elif kind == "bin":
            v = Binary()
        else:
            v = Choice(options=c.pick(["a", "b", "c"], [1, 2, 5], ["x"], ["1", "22"], [0.5, 2.5, 7.5], ["a", 1, 2.5], [1, 2.5], [True, "no"], [None, "a"]))
        out["v%d" % i if c.chance(0.7) else "name_%d" % (99 - i)] = v
    return out


def check_dicts(c, vars, pop, label):
    for ind in pop:
        c.ensures(isinstance(ind.X, dict) and set(ind.X) == set(vars), "values are stored under the variables' own names", X=ind.X)
        for k, var in vars.items():
            c.ensures(admissible(var, ind.X[k]), label, variable=k, kind=type(var).__name__, value=repr(ind.X[k]),
                      options=getattr(var, "options", None), bounds=getattr(var, "bounds", None))


@contract("C08", n=600, target="pymoo.core.mixed.MixedVariableSampling")
def mixed_sampling(c):
    from pymoo.core.mixed import MixedVariableSampling
    vars = variables(c)
    P = Problem(vars=vars)
    n = c.int(1, 8)
    pop = MixedVariableSampling()(P, n, random_state=c.gen())
    c.eq(len(pop), n, "requested number of samples")
    check_dicts(c, vars, pop, "sampled values are admissible")


@contract("C08", n=500, target="pymoo.core.mixed.MixedVariableMating")
def mixed_mating(c):
    from pymoo.core.mixed import MixedVariableSampling, MixedVariableMating, MixedVariableDuplicateElimination
    vars = variables(c)
    P = Problem(vars=vars)
    r = c.gen()
    pop = MixedVariableSampling()(P, c.int(2, 8), random_state=r)
    for i, ind in enumerate(pop):
        ind.F, ind.G, ind.H = np.array([float(i)]), np.zeros(0), np.zeros(0)
    before = [dict(i.X) for i in pop]
    n = c.int(1, 7)
    mating = MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination() if c.chance(0.5) else None, n_max_iterations=3)
    off = mating(P, pop, n, random_state=r)
    c.ensures(len(off) <= n, "at most the requested offspring")
    check_dicts(c, vars, off, "offspring values are admissible")
    c.ensures(all(b == dict(i.X) for b, i in zip(before, pop)), "parents keep their values")


@contract("C08", n=400, target="pymoo.core.variable.Variable.sample")
def variable_samples(c):
    v = list(variables(c, 1).values())[0]
    n = c.int(1, 6)
    vals = v.sample(n, random_state=c.gen())
    c.eq(len(vals), n, "requested number of values")
    for x in vals:
        c.ensures(admissible(v, x), "sampled value is admissible", kind=type(v).__name__, value=repr(x), options=getattr(v, "options", None))
    c.ensures(admissible(v, v.sample(random_state=c.gen())), "a single sampled value is admissible")


def int_box(c, d):
    xl = c.rng.integers(-6, 4, d)
    xu = xl + c.rng.integers(0, 8, d)
    return xl.astype(float), xu.astype(float)


@contract("C08", n=800, target="pymoo.operators.sampling.rnd.IntegerRandomSampling")
def integer_operators(c):
    from pymoo.operators.sampling.rnd import IntegerRandomSampling
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover import ux, hux, pntx, expx, binx
    from pymoo.operators.mutation.pm import PM
    n, d = c.int(1, 8), c.int(2, 5)
    xl, xu = int_box(c, d)
    prob = mk.Shell(n_var=d, xl=xl.astype(int) if c.chance(0.5) else xl, xu=xu.astype(int) if c.chance(0.5) else xu, vtype=int)
    r = c.gen()
    X = IntegerRandomSampling()(prob, n, random_state=r).get("X")
    c.note(xl=xl, xu=xu)

    def ok(Y):
        Y = np.asarray(Y)
        return Y.dtype.kind in "iu" and bool(np.all(Y >= xl) and np.all(Y <= xu))
    c.ensures(ok(X), "integer sampling: whole numbers within the bounds", X=X)
    c.eq(X.shape, (n, d), "integer sampling: shape")
    if xu.max() > xl.max() and n >= 8:
        pass
    # real-coded operators with rounding
    parents = [[Individual(X=X[r.integers(n)].copy()) for _ in range(2)] for _ in range(c.int(1, 4))]
    cross = c.pick(SBX(vtype=float, repair=RoundingRepair(), prob=1.0, prob_var=1.0), ux.UX(), hux.HalfUniformCrossover(), pntx.TwoPointCrossover(), binx.BX())
    off = cross(prob, parents, random_state=r)
    c.ensures(ok(off.get("X")), "integer crossover: whole numbers within the bounds", op=type(cross).__name__, X=off.get("X"))
    mut = PM(vtype=float, repair=RoundingRepair(), prob=1.0, prob_var=1.0, eta=c.pick(1, 3.0, 20))
    off = mut(prob, off, random_state=r)
    c.ensures(ok(off.get("X")), "integer mutation: whole numbers within the bounds", X=off.get("X"))


@contract("C08", n=300, target="pymoo.operators.sampling.rnd.IntegerRandomSampling")
def integer_bounds_are_reachable(c):
    from pymoo.operators.sampling.rnd import IntegerRandomSampling
    lo = c.int(-4, 4)
    hi = lo + c.int(0, 3)
    prob = mk.Shell(n_var=1, xl=np.array([lo]), xu=np.array([hi]), vtype=int)
    X = IntegerRandomSampling()(prob, 200, random_state=c.gen()).get("X")
    c.eq(sorted(set(X[:, 0].tolist())), list(range(lo, hi + 1)), "every integer between the bounds is drawn, both bounds included")
    v = Integer(bounds=(lo, hi))
    c.eq(sorted(set(np.asarray(v.sample(200, random_state=c.gen())).tolist())), list(range(lo, hi + 1)), "an integer variable draws every value, both bounds included")


@contract("C08", n=600, target="pymoo.operators.repair.rounding.RoundingRepair")
def rounding(c):
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.repair.vtype import TypeRepair
    n, d = c.int(1, 5), c.int(1, 4)
    X = c.rng.normal(0, 5, (n, d)) if c.chance(0.7) else c.rng.integers(-9, 9, (n, d)) / c.pick(1.0, 4.0, 2.0)
    with c.frame(X=X):
        Y = RoundingRepair()._do(None, X)
    c.ensures(Y.dtype.kind == "i", "whole numbers")
    c.ensures(np.all(np.abs(Y - X) <= 0.5), "nearest whole number", X=X, Y=Y)
    pop = Population.new(X=X)
    RoundingRepair()(mk.Shell(n_var=d), pop)
    c.eq(pop.get("X"), Y, "repairing a population rounds each of its solutions")


@contract("C08", n=800, target="pymoo.operators.mutation.bitflip.BitflipMutation")
def binary_operators(c):
    from pymoo.operators.sampling.rnd import BinaryRandomSampling
    from pymoo.operators.mutation.bitflip import BFM
    from pymoo.operators.crossover import ux, hux, pntx, expx, binx
    n, d = c.int(1, 8), c.int(3, 7)
    prob = mk.Shell(n_var=d, vtype=bool)
    r = c.gen()
    X = BinaryRandomSampling()(prob, n, random_state=r).get("X")
    c.ensures(X.dtype == bool and X.shape == (n, d), "binary sampling gives truth values")
    seed = c.int(0, 2 ** 31)
    pv = c.pick(None, 0.0, 0.3, 1.0)
    mut = BFM(prob=1.0, prob_var=pv)
    Y = mut._do(prob, X.copy(), random_state=np.random.default_rng(seed))
    drawn = np.random.default_rng(seed).random((n, d)) < (pv if pv is not None else min(0.5, 1 / d))
    c.eq(Y, np.where(drawn, ~X, X), "a gene flips exactly where it is drawn to flip")
    c.ensures(np.asarray(Y).dtype == bool, "mutation keeps truth values")
    pop = mut(prob, Population.new(X=X), random_state=r)
    c.ensures(pop.get("X").dtype == bool, "mutated population keeps truth values")
    parents = [[Individual(X=X[r.integers(n)].copy()) for _ in range(2)] for _ in range(3)]
    for op in (ux.UX(), hux.HalfUniformCrossover(), pntx.TwoPointCrossover(), pntx.SinglePointCrossover(), expx.ExponentialCrossover(), binx.BX()):
        c.ensures(op(prob, parents, random_state=r).get("X").dtype == bool, "crossover keeps truth values", op=type(op).__name__)


@contract("C08", n=300, target="pymoo.operators.mutation.rm.ChoiceRandomMutation")
def choice_mutation(c):
    from pymoo.operators.mutation.rm import ChoiceRandomMutation
    vars = {k: Choice(options=c.pick(["a", "b", "c"], [1, 2, 5], ["a", 1, 2.5], ["x", None])) for k in "pqr"[:c.int(1, 3)]}
    P = Problem(vars=vars)
    n = c.int(1, 6)
    X = np.array([[v.options[c.rng.integers(len(v.options))] for v in vars.values()] for _ in range(n)], dtype=object)
    Y = ChoiceRandomMutation(prob=1.0, prob_var=c.pick(1.0, None, 0.5))(P, Population.new(X=X), random_state=c.gen()).get("X")
    for row in Y:
        for v, x in zip(vars.values(), row):
            c.ensures(admissible(v, x), "mutated choice is one of the listed options", value=repr(x), options=v.options)


@contract("C08", n=12, target="pymoo.core.mixed.MixedVariableGA")
def whole_runs(c):
    from pymoo.core.mixed import MixedVariableGA
    from pymoo.core.problem import ElementwiseProblem
    from pymoo.optimize import minimize
    vars = variables(c, c.int(2, 5))
    seen = []

    class P(ElementwiseProblem):
        def __init__(self):
            super().__init__(vars=vars, n_obj=1)

        def _evaluate(self, X, out, *a, **k):
            seen.append(dict(X))
            out["F"] = sum(hash(str(v)) % 97 for v in X.values())
    minimize(P(), MixedVariableGA(pop_size=8), ("n_gen", 4), seed=c.int(0, 999), verbose=False)
    c.ensures(len(seen) > 0, "the run evaluates")
    check_dicts(c, vars, [Individual(X=s) for s in seen], "every value sent to evaluation is admissible")


@contract("C08", n=16, target="pymoo.algorithms.soo.nonconvex.ga")
def integer_and_binary_runs(c):
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.operators.sampling.rnd import IntegerRandomSampling, BinaryRandomSampling
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.pntx import TwoPointCrossover
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.bitflip import BFM
    d = c.int(3, 6)
    seen = []
    if c.chance(0.5):
        xl, xu = int_box(c, d)
        alg = GA(pop_size=10, sampling=IntegerRandomSampling(), crossover=SBX(prob=1.0, vtype=float, repair=RoundingRepair()), mutation=PM(prob=1.0, vtype=float, repair=RoundingRepair()))

        class P(Problem):
            def _evaluate(self, X, out, *a, **k):
                seen.append(X.copy())
                out["F"] = X.sum(axis=1)
        lab.solve(P(n_var=d, n_obj=1, xl=xl, xu=xu, vtype=int), alg, 4, seed=c.int(0, 999))
        X = np.concatenate(seen)
        c.ensures(X.dtype.kind == "i" and np.all(X >= xl) and np.all(X <= xu), "integer run evaluates whole numbers within the bounds", X=X)
    else:
        alg = GA(pop_size=10, sampling=BinaryRandomSampling(), crossover=TwoPointCrossover(), mutation=BFM())

        class Q(Problem):
            def _evaluate(self, X, out, *a, **k):
                seen.append(X.copy())
                out["F"] = X.sum(axis=1)
        lab.solve(Q(n_var=d, n_obj=1, xl=0, xu=1, vtype=bool), alg, 4, seed=c.int(0, 999))
        X = np.concatenate(seen)
        c.ensures(X.dtype == bool, "binary run evaluates truth values")
