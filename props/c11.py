import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab


@contract("C11", n=900, target="pymoo.operators.sampling.lhs.sampling_lhs")
def latin_hypercube(c):
    from pymoo.operators.sampling.lhs import sampling_lhs, sampling_lhs_unit, criterion_maxmin, criterion_corr, LHS
    n, d = c.int(2, 14), c.int(1, 4)
    xl, xu = c.bounds(d, degenerate=False)
    if c.chance(0.5):
        xl, xu = np.zeros(d), np.ones(d)
    smooth = c.chance(0.5)
    crit = c.pick(criterion_maxmin, criterion_corr if d > 1 else criterion_maxmin, None)
    it = c.int(1, 5)
    c.note(n=n, d=d, xl=xl, xu=xu, smooth=smooth, criterion=getattr(crit, "__name__", None), n_iter=it)
    seed = c.int(0, 10 ** 6)
    if c.chance(0.6):
        X = sampling_lhs(n, d, xl, xu, smooth=smooth, criterion=crit, n_iter=it, random_state=np.random.default_rng(seed))
    else:
        X = LHS(smooth=smooth, iterations=it, criterion=crit)(mk.Shell(n_var=d, xl=xl, xu=xu), n, random_state=np.random.default_rng(seed)).get("X")
    c.eq(X.shape, (n, d), "requested number of points with one value per variable")
    U = (X - xl) / (xu - xl) * n
    for j in range(d):
        # every value lies in (or on the border of) its own stratum
        u = np.sort(U[:, j])
        k = np.arange(n)
        c.ensures(np.all(u >= k - 1e-9) and np.all(u <= k + 1 + 1e-9), "exactly one point in every stratum of every variable", variable=j, strata=u)
        if not smooth:
            c.eq(u, k + 0.5, "without jitter every point is the centre of its stratum", rtol=1e-9, atol=1e-9)
    if crit is not None:
        r = np.random.default_rng(seed)
        scores = []
        for _ in range(max(it, 1)):
            scores.append(crit(sampling_lhs_unit(n, d, smooth=smooth, random_state=r)))
        got = crit((X - xl) / (xu - xl))
        c.ensures(got >= scores[0] - 1e-7 * (1 + abs(scores[0])), "improvement never worsens the criterion", got=got, first=scores[0])
        c.eq(got, max(scores), "the best design generated is returned", rtol=1e-6, atol=1e-9)


@contract("C11", n=400, target="pymoo.operators.sampling.lhs.sampling_lhs_unit")
def unit_design(c):
    from pymoo.operators.sampling.lhs import sampling_lhs_unit
    n, d = c.int(1, 20), c.int(1, 5)
    smooth = c.chance(0.5)
    X = sampling_lhs_unit(n, d, smooth=smooth, random_state=c.gen())
    c.eq(X.shape, (n, d), "requested number of points")
    strata = np.ceil(X * n - (0 if smooth else 0.25)).astype(int)
    c.ensures(all(sorted(strata[:, j].tolist()) == list(range(1, n + 1)) for j in range(d)), "exactly one point per stratum and variable", X=X)


@contract("C11", n=300, target="pymoo.operators.sampling.lhs.criterion_maxmin")
def criteria(c):
    from pymoo.operators.sampling.lhs import criterion_maxmin, criterion_corr
    n, d = c.int(2, 9), c.int(2, 4)
    X = c.rng.random((n + 1, d))
    with c.frame(X=X):
        a = criterion_maxmin(X)
        b = criterion_corr(X)
    c.eq(a, min(np.sqrt(((X[i] - X[j]) ** 2).sum()) for i in range(n + 1) for j in range(i)), "smallest pairwise distance", rtol=1e-9)
    R = np.corrcoef(X.T)
    c.eq(b, -sum(R[i, j] ** 2 for i in range(d) for j in range(i)), "negated sum of squared pairwise correlations", rtol=1e-7, atol=1e-9)


@contract("C11", n=500, target="pymoo.core.sampling.Sampling.do")
def sizes(c):
    from pymoo.operators.sampling.rnd import FloatRandomSampling, BinaryRandomSampling, IntegerRandomSampling, PermutationRandomSampling, random
    from pymoo.operators.sampling.lhs import LHS
    n, d = c.int(1, 12), c.int(1, 6)
    xl = np.arange(d) * 1.0
    S = c.pick(FloatRandomSampling(), BinaryRandomSampling(), IntegerRandomSampling(), PermutationRandomSampling(), LHS(iterations=2))
    P = mk.Shell(n_var=d, xl=xl.astype(int), xu=xl.astype(int) + 3)
    pop = S(P, n, random_state=c.gen())
    c.eq(len(pop), n, "requested number of points", sampling=type(S).__name__)
    c.eq(np.shape(pop.get("X")), (n, d), "one value per variable", sampling=type(S).__name__)
    c.ensures(all(len(i.evaluated) == 0 for i in pop), "sampled solutions are not evaluated")
    c.ensures(len(set(O.ids(pop))) == n, "sampled solutions are distinct objects")
    c.eq(np.shape(random(P, n, random_state=c.gen())), (n, d), "requested number of points")
    Q = mk.Shell(n_var=d)
    c.eq(np.shape(FloatRandomSampling()(Q, n, random_state=c.gen()).get("X")), (n, d), "no bounds: requested number of points")
