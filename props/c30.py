"""C30: calls leave the caller's data unchanged."""
import copy, types
import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from props.c15 import survival, MULTI

ASSUMPTIONS = ["objects are compared by their reachable attributes (functions and classes by identity)"]


def state(v, memo=None, depth=0):
    """Everything reachable from an object, as comparable data."""
    memo = {} if memo is None else memo
    if isinstance(v, np.random.Generator):
        return ("rng", str(v.bit_generator.state))
    if isinstance(v, np.ndarray) and v.dtype != object:
        return ("arr", v.shape, v.dtype.str, v.tobytes())
    if v is None or isinstance(v, (int, float, str, bool, bytes, complex, np.generic)):
        return ("val", repr(v))
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)):
        return ("id", id(v))
    if isinstance(v, types.MethodType):
        return ("meth", v.__func__.__qualname__, state(v.__self__, memo, depth + 1))
    if id(v) in memo:
        return ("seen", memo[id(v)])
    memo[id(v)] = len(memo)
    if depth > 25:
        return ("deep",)
    out = [type(v).__qualname__]
    if isinstance(v, np.ndarray):
        out.append(tuple(state(e, memo, depth + 1) for e in v.ravel()))
        out.append(v.shape)
    elif isinstance(v, (list, tuple)):
        out.append(tuple(state(e, memo, depth + 1) for e in v))
    elif isinstance(v, dict):
        out.append(tuple((repr(k), state(e, memo, depth + 1)) for k, e in v.items()))
    elif isinstance(v, (set, frozenset)):
        out.append(tuple(sorted(repr(e) for e in v)))
    d = getattr(v, "__dict__", None)
    if d is not None:
        out.append(tuple((k, state(e, memo, depth + 1)) for k, e in sorted(d.items()) if k != "log"))
    return tuple(out)


@contract("C30", n=110, thorough=1200, target="pymoo.optimize.minimize")
def convenience(c):
    from pymoo.termination import get_termination
    from pymoo.optimize import minimize
    names = lab.MOO + lab.SOO
    name = names[c.idx % len(names)]
    P = lab.problem(c, name)
    alg = lab.make(name, c, P)
    k = c.int(2, 6)
    how = c.pick("n_gen", "n_eval", "tuple", "object", "default")
    term = dict(n_gen=lambda: get_termination("n_gen", k), n_eval=lambda: get_termination("n_eval", 15 * k), tuple=lambda: ("n_gen", k),
                object=lambda: get_termination("n_gen", k), default=lambda: get_termination("n_gen", k))[how]()
    if how == "object" and name != "rvea":
        from pymoo.termination.robust import RobustTermination
        from pymoo.termination.ftol import MultiObjectiveSpaceTermination, SingleObjectiveSpaceTermination
        from pymoo.core.termination import TerminateIfAny
        term = TerminateIfAny(term, RobustTermination((MultiObjectiveSpaceTermination if P.n_obj > 1 else SingleObjectiveSpaceTermination)(), period=3))
    if how == "default" and name not in ("mopsocd", "cmopso"):
        alg.termination, term = term, None
    if how == "default" and term is not None:
        c.note(given=True)
    seed = c.int(0, 9999)
    c.note(termination=how, k=k, seed=seed)
    before = state(alg), state(term), state(P)
    r1 = minimize(P, alg, term, seed=seed, verbose=False)
    log1 = P.rows().copy()
    P.log.clear()
    c.ensures(state(alg) == before[0], "the algorithm passed in is as it was")
    c.ensures(state(term) == before[1], "the termination passed in is as it was")
    c.ensures(state(P) == before[2], "the problem passed in is as it was")
    r2 = minimize(P, alg, term, seed=seed, verbose=False)
    c.eq(P.rows(), log1, "a second use evaluates the same solutions")
    for kk in "XFG":
        u, v = getattr(r1, kk), getattr(r2, kk)
        c.ensures((u is None) == (v is None), "same kind of result")
        if u is not None:
            c.eq(v, u, "a second use has the same outcome: " + kk)
    c.ensures(r1.algorithm is not alg and r2.algorithm is not alg, "works on a copy")


def layout(c, A):
    """The same values with another memory layout."""
    k = c.pick("C", "F", "strided", "rev", "slice")
    if A.ndim != 2 or k == "C":
        return A.copy()
    if k == "F":
        return np.asfortranarray(A)
    if k == "strided":
        B = np.full((len(A) * 2, A.shape[1] * 2), 7.5).astype(A.dtype)
        B[::2, ::2] = A
        return B[::2, ::2]
    if k == "rev":
        return A[::-1].copy()[::-1]
    B = np.full((len(A) + 2, A.shape[1] + 1), 7.5).astype(A.dtype)
    B[1:-1, 1:] = A
    return B[1:-1, 1:]


def helpers(c, n, m):
    """name -> (function, arrays it is given); the arrays must be the same afterwards."""
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated
    from pymoo.util.dominator import Dominator
    from pymoo.util import misc, normalization as N
    from pymoo.core.individual import calc_cv, constr_to_cv
    from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
    from pymoo.decomposition.weighted_sum import WeightedSum
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.aasf import AASF
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.perp_dist import PerpendicularDistance
    from pymoo.mcdm.pseudo_weights import PseudoWeights
    from pymoo.mcdm.high_tradeoff import HighTradeoffPoints
    from pymoo.core.decision_making import NeighborFinder
    from pymoo.indicators.gd import GD
    from pymoo.indicators.igd import IGD
    from pymoo.indicators.gd_plus import GDPlus
    from pymoo.indicators.igd_plus import IGDPlus
    from pymoo.indicators.epsilon import Epsilon, EpsilonMultiplicative
    from pymoo.indicators.spacing import SpacingIndicator
    from pymoo.indicators.hv import Hypervolume
    from pymoo.util.reference_direction import scale_reference_directions, map_onto_unit_simplex
    from pymoo.algorithms.moo.nsga3 import associate_to_niches, get_extreme_points_c, get_nadir_point, HyperplaneNormalization
    from pymoo.util.clearing import EpsilonClearing
    r = c.rng
    F, R, X = c.points(n, m), c.points(c.int(1, 6), m), r.random((n, m))
    W = r.random((c.pick(1, n), m)) + .1
    ideal, nadir = np.minimum(F.min(axis=0), R.min(axis=0)), np.maximum(F.max(axis=0), R.max(axis=0)) + .5
    G, H = r.normal(0, 1, (n, 2)), r.normal(0, 1, (n, 1))
    V = r.random((n, m)) + 1e-3
    V = V / V.sum(axis=1, keepdims=True)
    T = {}
    for meth in ("fast_non_dominated_sort", "efficient_non_dominated_sort", "tree_based_non_dominated_sort", "dominance_degree_non_dominated_sort", "fast_best_order_sort"):
        T["sort " + meth] = (lambda F, meth=meth: NonDominatedSorting(method=meth).do(F, return_rank=True, n_stop_if_ranked=c.int(1, n)), dict(F=F))
    T["sort with tolerance"] = (lambda F: NonDominatedSorting(epsilon=.1).do(F, return_rank=True), dict(F=F))
    T["sort given dominator"] = (lambda F: NonDominatedSorting(dominator=Dominator()).do(F), dict(F=F))
    T["non dominated"] = (lambda F: find_non_dominated(F), dict(F=F))
    T["non dominated 2"] = (lambda F, R: find_non_dominated(F, R), dict(F=F, R=R))
    T["domination matrix"] = (lambda F, R: Dominator().calc_domination_matrix(F, R, epsilon=.1), dict(F=F, R=R))
    for k in ("cd", "pcd", "ce", "mnn", "2nn"):
        T["crowding " + k] = (lambda F, k=k: get_crowding_function(k).do(F, n_remove=c.int(0, n - 1)), dict(F=F))
    for D in (WeightedSum(), Tchebicheff(), ASF(), AASF(rho=.1), PBI(), PerpendicularDistance()):
        T["decomposition " + type(D).__name__] = (lambda F, W, ideal, nadir, D=D: D.do(F, W, ideal_point=ideal, nadir_point=nadir), dict(F=F, W=W, ideal=ideal, nadir=nadir))
        T["decomposition default " + type(D).__name__] = (lambda F, W, D=D: D.do(F, W), dict(F=F, W=W))
    for K in (GD, IGD, GDPlus, IGDPlus, Epsilon, EpsilonMultiplicative):    # ratios are defined for positive values
        T["indicator " + K.__name__] = (lambda F, R, K=K, z=c.chance(.5) and K is not EpsilonMultiplicative: K(R, zero_to_one=z)(F), dict(F=np.abs(F) + .1, R=np.abs(R) + .1))
    if n > 1:
        T["indicator spacing"] = (lambda F: SpacingIndicator()(F), dict(F=F))
    T["indicator hv"] = (lambda F, ref: Hypervolume(ref_point=ref, nds=c.chance(.5))(F), dict(F=F, ref=nadir))
    T["indicator hv norm"] = (lambda F, R, ideal, nadir: Hypervolume(pf=R, norm_ref_point=c.chance(.5), ideal=ideal, nadir=nadir)(F), dict(F=F, R=R, ideal=ideal, nadir=nadir))
    T["cv"] = (lambda G, H: calc_cv(G=G, H=H), dict(G=G, H=H))
    T["normalize"] = (lambda X, lo, hi: (N.normalize(X, lo, hi), N.denormalize(X, lo, hi), N.normalize(X)), dict(X=F, lo=ideal, hi=np.where(r.random(m) < .3, ideal, nadir)))
    T["standardize"] = (lambda X: N.standardize(X), dict(X=F))
    T["simple normalization"] = (lambda X, lo, hi: N.SimpleZeroToOneNormalization(lo, hi).forward(X), dict(X=F, lo=ideal, hi=np.where(r.random(m) < .3, ideal, nadir)))
    T["normalization object"] = (lambda X, lo, hi: (lambda o: (o.forward(X), o.backward(X)))(N.ZeroToOneNormalization(lo, hi)), dict(X=F, lo=ideal, hi=np.where(r.random(m) < .3, ideal, nadir)))
    if n > 1 and (np.ptp(F, axis=0) > 0).all():
        T["pseudo weights"] = (lambda F, w: PseudoWeights(w).do(F, return_pseudo_weights=True), dict(F=F, w=W[0]))
        T["pseudo weights bounds"] = (lambda F, w, lo, hi: PseudoWeights(w, ideal=lo, nadir=hi).do(F), dict(F=F, w=W[0], lo=ideal, hi=nadir))
        T["high trade-off"] = (lambda F: HighTradeoffPoints().do(F), dict(F=F))
        T["neighbors"] = (lambda F: [NeighborFinder(F, consider_2d=b).find(0) for b in (True, False)], dict(F=F))
    T["scale directions"] = (lambda V: scale_reference_directions(V, .5), dict(V=V))
    T["simplex"] = (lambda X: (map_onto_unit_simplex(X, "sum"), map_onto_unit_simplex(X, "kraemer")), dict(X=X))
    T["niches"] = (lambda F, V, lo, hi: associate_to_niches(F, V, lo, hi), dict(F=F, V=V, lo=ideal, hi=nadir))
    T["extreme points"] = (lambda F, E, lo: (get_extreme_points_c(F, lo), get_extreme_points_c(F, lo, E)), dict(F=F, E=R, lo=ideal))
    T["nadir"] = (lambda E, lo, a, b, w: get_nadir_point(E, lo, w, a, b), dict(E=r.random((m, m)) + ideal, lo=ideal, a=F.max(axis=0), b=F.max(axis=0), w=F.max(axis=0)))
    T["hyperplane"] = (lambda F: HyperplaneNormalization(m).update(F), dict(F=F))
    T["distances"] = (lambda A, B: (misc.cdist(A, B), misc.vectorized_cdist(A, B), misc.vectorized_cdist(A, B, func_dist=misc.func_manhatten_distance) if hasattr(misc, "func_manhatten_distance") else None), dict(A=F, B=R))
    T["parameter-less"] = (lambda F, CV: misc.parameter_less(F, CV), dict(F=F, CV=r.random((n, 1)) * (r.random((n, 1)) < .5)))
    T["unique"] = (lambda F: (misc.unique_rows(F), misc.find_duplicates(F)), dict(F=F))
    T["shapes"] = (lambda F: (misc.at_least_2d_array(F), misc.to_1d_array_if_possible(F), misc.at_least_2d_array(F[0])), dict(F=F))
    T["nan"] = (lambda F: misc.replace_nan_by(F, 0.0), dict(F=np.where(r.random(F.shape) < .2, np.nan, F)))
    T["mask"] = (lambda X, M: misc.crossover_mask(X, M), dict(X=r.random((2, n, m)), M=r.random((n, m)) < .5))
    return T


@contract("C30", n=4000, target="numerical helpers of pymoo.util, pymoo.indicators, pymoo.decomposition, pymoo.mcdm, pymoo.core")
def arguments(c):
    n, m = c.int(1, 9), c.int(2, 4)
    T = helpers(c, n, m)
    name = c.pick(sorted(T))
    fn, A = T[name]
    A = {k: layout(c, np.asarray(v)) for k, v in A.items()}
    plain = {k: v.copy() for k, v in A.items()}
    c.note(function=name, **{k: v.copy() for k, v in A.items()})
    with c.frame("arguments unchanged by " + name, **A):
        fn(**A)


@contract("C30", n=500, target="pymoo.core.problem.Problem.evaluate, pymoo.problems")
def test_problems(c):
    from pymoo.problems import get_problem
    name = c.pick("zdt1", "zdt4", "zdt5", "zdt6", "dtlz1", "dtlz2", "dtlz7", "wfg1", "wfg4", "wfg9", "bnh", "osy", "tnk", "welded_beam", "kursawe", "dascmop1", "mw1", "g1", "g5", "ackley", "rastrigin",
                  "rosenbrock", "griewank", "sphere", "himmelblau", "schwefel", "zakharov", "pressure_vessel", "cantilevered_beam", "truss2d", "carside", "ctp1", "df1", "convex_dtlz2", "c1dtlz1")
    try:
        P = get_problem(name, 1) if name.startswith("dascmop") else (get_problem(name, n_var=6, n_obj=3) if name.startswith("wfg") else get_problem(name))
    except Exception:
        c.requires(False)
    xl, xu = P.bounds()
    lo, hi = xl.copy(), xu.copy()
    n = c.int(1, 6)
    X = xl + c.rng.random((n, P.n_var)) * (xu - xl)
    if c.chance(.3):
        X[c.rng.random(X.shape) < .3] = 0
        X = np.clip(X, xl, xu)
    if name == "zdt5":
        X = (X > .5) * 1.0
    X = X[0].copy() if n == 1 and c.chance(.5) else layout(c, X)
    c.note(problem=name, X=X)
    with c.frame("arguments unchanged", X=X):
        a = P.evaluate(X, return_as_dictionary=True)
        b = P.evaluate(X, return_as_dictionary=True)
    for k in a:
        c.eq(b[k], a[k], "evaluating again gives the same values: " + k)
    c.eq((P.xl, P.xu), (lo, hi), "bounds of the problem unchanged")


@contract("C30", n=1500, target="pymoo.core.survival.Survival.do, pymoo.core.selection.Selection.do, pymoo.util.optimum.filter_optimum")
def members(c):
    from pymoo.util.optimum import filter_optimum
    from pymoo.operators.selection.tournament import TournamentSelection
    from pymoo.operators.selection.rnd import RandomSelection
    from pymoo.algorithms.moo.nsga2 import binary_tournament
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival, comp_by_cv_and_fitness
    from pymoo.core.duplicate import DefaultDuplicateElimination
    kind = c.pick("survival", "survival", "optimum", "tournament", "random", "fitness", "duplicates", "merge")
    m = 1 if kind in ("fitness", "tournament") else c.pick(2, 2, 3)
    name = c.pick(MULTI)
    if name == "rnsga2":
        m = 2 if m != 1 else 1
    n = c.int(1, 12)
    g = c.int(0, 2)
    pop = mk.population(c, n, m=m, g=g, eq=c.chance(.2))
    P = mk.shell(pop, m)
    before = O.data(list(pop))
    orig = list(pop)
    c.note(kind=kind, survival=name, F=pop.get("F"), G=pop.get("G"))
    r = c.gen()
    if kind == "survival":
        survival(name, c, m).do(P, pop, n_survive=c.int(1, n), random_state=r)
    elif kind == "fitness":
        FitnessSurvival().do(P, pop, n_survive=c.int(1, n), random_state=r)
    elif kind == "optimum":
        filter_optimum(pop, least_infeasible=c.chance(.5))
    elif kind == "tournament":
        TournamentSelection(comp_by_cv_and_fitness).do(P, pop, c.int(1, 5), 2, random_state=r)
    elif kind == "random":
        RandomSelection().do(P, pop, c.int(1, 5), 2, random_state=r)
    elif kind == "duplicates":
        DefaultDuplicateElimination().do(pop)
    else:
        from pymoo.core.population import Population
        Population.merge(pop, pop[:c.int(0, n)])
    c.ensures(O.same_data(before, O.data(orig)), "variables, objectives and constraint values of every solution are unchanged")
    c.ensures(len(pop) == n and all(a is b for a, b in zip(pop, orig)), "the population passed in keeps its members")
