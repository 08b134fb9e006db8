import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population
from pymoo.core.individual import Individual

IN = "every point lies within the bounds"
SAME = "points already within the bounds are unchanged"


def within(X, xl, xu):
    X = np.asarray(X, float)
    return not np.any(np.isnan(X)) and bool(np.all(X >= xl) and np.all(X <= xu))


def arbitrary(c, n, xl, xu):
    """Points inside, on, slightly outside and far outside the box."""
    d = len(xl)
    w = np.where(xu > xl, xu - xl, 1.0)
    X = c.inside(n, xl, xu)
    far = c.pick(0.1, 1.0, 3.0, 50.0)
    k = c.rng.random((n, d)) < c.pick(0.0, 0.3, 0.8)
    X = np.where(k, X + c.rng.normal(0, far, (n, d)) * w, X)
    return X


@contract("C07", n=1500, target="pymoo.operators.repair")
def bounds_repairs(c):
    from pymoo.operators.repair import bounds_repair as br, bounce_back as bb, to_bound as tb
    from pymoo.operators.crossover import dex
    n, d = c.int(1, 6), c.int(1, 4)
    xl, xu = c.bounds(d)
    X = arbitrary(c, n, xl, xu)
    P = c.inside(n, xl, xu)
    orig = X.copy()
    inside = (X >= xl) & (X <= xu)
    r = c.gen()
    prob = mk.Shell(n_var=d, xl=xl, xu=xu)
    name = c.pick("clamp", "periodic", "random_init", "bounce_back", "to_bounds", "cls_bb", "cls_tb", "de0", "de1", "de2", "de3", "1d", "es", "pop")
    c.note(repair=name, X=orig, parents=P, xl=xl, xu=xu)
    with c.frame("bounds and parents unchanged", xl=xl, xu=xu, P=P):
        if name == "clamp":
            Y = br.repair_clamp(X, xl, xu)
        elif name == "periodic":
            Y = br.repair_periodic(X, xl, xu)
        elif name == "random_init":
            Y = br.repair_random_init(X, P, xl, xu, random_state=r)
        elif name == "bounce_back":
            Y = bb.bounce_back(X, xl, xu)
        elif name == "to_bounds":
            Y = tb.set_to_bounds_if_outside(X, xl, xu)
        elif name == "1d":
            X, orig, inside = X[0], orig[0], inside[0]
            Y = tb.set_to_bounds_if_outside(X, xl, xu)
            c.eq(np.shape(Y), (d,), "a single point stays a single point")
        elif name == "cls_bb":
            Y = bb.BounceBackOutOfBoundsRepair()._do(prob, X)
        elif name == "cls_tb":
            Y = tb.ToBoundOutOfBoundsRepair()._do(prob, X)
        elif name == "es":
            from pymoo.algorithms.soo.nonconvex.es import es_mut_repair
            Y = es_mut_repair(X, P, np.abs(c.rng.normal(0, 1, X.shape)), xl, xu, c.int(1, 4), random_state=r)
        elif name == "pop":
            cls = c.pick(bb.BounceBackOutOfBoundsRepair, tb.ToBoundOutOfBoundsRepair)
            pop = Population.new(X=X)
            Y = cls().do(prob, pop).get("X")
        else:
            f = [dex.bounce_back, dex.midway, dex.to_bounds, dex.rand_init][int(name[2])]
            Y = f(X, P, xl, xu, random_state=r)
    c.ensures(within(Y, xl, xu), IN, result=Y)
    c.eq(np.asarray(Y)[inside], orig[inside], SAME)
    if name in ("clamp", "to_bounds", "cls_tb", "1d", "de2"):
        c.eq(Y, np.clip(orig, xl, xu), "clipping sets a value to the bound it violates")


@contract("C07", n=600, target="pymoo.operators.repair.inverse_penalty")
def inverse_penalty_repair(c):
    from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
    n, d = c.int(1, 4), c.int(1, 4)
    xl, xu = c.bounds(d, degenerate=False)
    X = arbitrary(c, n, xl, xu)
    w = xu - xl
    P = xl + w * (0.05 + 0.9 * c.rng.random((n, d)))
    orig = X.copy()
    prob = mk.Shell(n_var=d, xl=xl, xu=xu)
    c.note(X=orig, parents=P, xl=xl, xu=xu)
    Y = InversePenaltyOutOfBoundsRepair()._do(prob, X, P=P)
    c.ensures(within(Y, xl, xu), IN, result=Y)
    rows = np.all((orig >= xl) & (orig <= xu), axis=1)
    c.eq(Y[rows], orig[rows], SAME)


@contract("C07", n=400, target="pymoo.operators.repair.bounds_repair.is_out_of_bounds")
def in_and_out_of_bounds(c):
    from pymoo.operators.repair.bounds_repair import is_in_bounds, is_out_of_bounds
    n, d = c.int(1, 6), c.int(1, 4)
    xl, xu = c.bounds(d)
    X = arbitrary(c, n, xl, xu)
    inn = [i for i in range(n) if within(X[i], xl, xu)]
    c.eq(is_in_bounds(X, xl, xu), inn, "exactly the rows inside the bounds")
    c.eq(is_out_of_bounds(X, xl, xu), [i for i in range(n) if i not in inn], "exactly the rows outside the bounds")


@contract("C07", n=400, target="pymoo.operators.sampling")
def samplings(c):
    from pymoo.operators.sampling.rnd import FloatRandomSampling, random
    from pymoo.operators.sampling.lhs import LHS, sampling_lhs
    n, d = c.int(1, 9), c.int(1, 5)
    xl, xu = c.bounds(d)
    prob = mk.Shell(n_var=d, xl=xl, xu=xu)
    r = c.gen()
    name = c.pick("float", "lhs", "fn", "lhsfn")
    c.note(sampling=name, xl=xl, xu=xu)
    if name == "float":
        X = FloatRandomSampling()(prob, n, random_state=r).get("X")
    elif name == "lhs":
        X = LHS(smooth=c.chance(0.5), iterations=c.int(1, 4))(prob, n, random_state=r).get("X")
    elif name == "fn":
        X = random(prob, n, random_state=r)
    else:
        X = sampling_lhs(n, d, xl, xu, random_state=r, n_iter=3)
    c.ensures(within(X, xl, xu), IN, result=X)
    c.eq(X.shape, (n, d), "one value per variable and sample")


def matings(c, n_parents, n, xl, xu):
    """Parents in bounds, often equal, nearly equal, or on the bounds."""
    d = len(xl)
    X = np.array([c.inside(n, xl, xu) for _ in range(n_parents)])
    if n_parents > 1 and c.chance(0.3):
        k = c.rng.random((n, d)) < 0.5
        X[1][k] = X[0][k]
    if n_parents > 1 and c.chance(0.2):
        X[1] = np.clip(X[0] + c.pick(1e-15, 1e-13, 1e-8) * (xu - xl), xl, xu)
    return X


def pops(X):
    return [[Individual(X=X[j, i].copy()) for j in range(len(X))] for i in range(X.shape[1])]


@contract("C07", n=1200, target="pymoo.operators.crossover")
def crossovers(c):
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.crossover.dex import DEX, DEM
    from pymoo.operators.crossover import ux, hux, pntx, expx, binx
    n, d = c.int(1, 6), c.int(2, 5)
    xl, xu = c.bounds(d)
    prob = mk.Shell(n_var=d, xl=xl, xu=xu)
    r = c.gen()
    op = c.pick([
        lambda: SBX(prob_var=c.pick(0.5, 1.0, 0.9), eta=c.pick(1.0, 3, 15, 30), prob_exch=c.pick(1.0, 0.3), prob_bin=c.pick(0.0, 0.5, 1.0), n_offsprings=c.pick(1, 2), prob=c.pick(1.0, 0.5)),
        lambda: SBX(prob_var=1.0, eta=c.pick(1, 2.0, 15), prob=1.0),
        lambda: PCX(eta=c.pick(0.1, 1.0), zeta=c.pick(0.1, 2.0), prob=1.0),
        lambda: DEX(F=None, CR=c.pick(0.0, 0.5, 1.0), variant=c.pick("bin", "exp"), n_diffs=c.pick(1, 2), n_iter=c.pick(1, 3)),
        lambda: DEM(F=c.pick(None, 0.8, (0.5, 2.0)), gamma=c.pick(None, 1e-4), de_repair=c.pick("bounce-back", "midway", "rand-init", "to-bounds"), n_diffs=c.pick(1, 2)),
        lambda: ux.UX(), lambda: hux.HalfUniformCrossover(), lambda: pntx.TwoPointCrossover(), lambda: pntx.SinglePointCrossover(), lambda: expx.ExponentialCrossover(), lambda: binx.BX(n_offsprings=c.pick(1, 2)),
    ])()
    X = matings(c, op.n_parents, n, xl, xu)
    c.note(crossover=type(op).__name__, X=X, xl=xl, xu=xu)
    P = pops(X)
    if isinstance(op, DEM):
        P = Population.create(*[i for m in P for i in m]).reshape(n, op.n_parents)
    off = op(prob, P, random_state=r).get("X")
    c.ensures(within(off, xl, xu), IN, result=off)


@contract("C07", n=1200, target="pymoo.operators.mutation")
def mutations(c):
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.gauss import GM
    n, d = c.int(1, 6), c.int(1, 5)
    xl, xu = c.bounds(d)
    prob = mk.Shell(n_var=d, xl=xl, xu=xu)
    r = c.gen()
    op = c.pick([
        lambda: PM(prob=c.pick(1.0, 0.5), eta=c.pick(1, 3.0, 20, 100), at_least_once=c.chance(0.5), prob_var=c.pick(None, 0.9, 1.0)),
        lambda: GM(sigma=c.pick(0.1, 1.0, 5.0), prob=1.0, prob_var=c.pick(None, 1.0))])()
    X = c.inside(n, xl, xu)
    c.note(mutation=type(op).__name__, X=X, xl=xl, xu=xu)
    Y = op(prob, Population.new(X=X), random_state=r).get("X")
    c.ensures(within(Y, xl, xu), IN, result=Y)


ALGS = lab.MOO + lab.SOO
SKIP = {"gde32nn", "age2"}


@contract("C07", n=len(ALGS), target="pymoo.algorithms", thorough=len(ALGS) * 12)
def whole_runs(c):
    name = ALGS[c.idx % len(ALGS)]
    P = lab.problem(c, name, kind=c.pick("edge", "smooth", "flat"))
    xl, xu = P.bounds()
    alg = lab.make(name, c, P)
    lab.solve(P, alg, n_gen=c.pick(3, 5), seed=c.int(0, 10 ** 6))
    R = P.rows()
    c.ensures(len(R) > 0, "the run evaluates")
    bad = [r for r in R if not within(r, xl, xu)]
    c.ensures(not bad, "every solution sent to evaluation lies within the bounds", outside=bad[:3])
