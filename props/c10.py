import math
import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population
from pymoo.core.individual import Individual


def matings(c, k, n, d, kind=None):
    kind = kind or c.pick("real", "int", "bool", "close")
    if kind == "real":
        X = c.rng.random((k, n, d))
    elif kind == "int":
        X = c.rng.integers(0, 3, (k, n, d)).astype(float)
    elif kind == "bool":
        X = c.rng.random((k, n, d)) < 0.5
    else:
        X = c.rng.random((k, n, d))
        m = c.rng.random((n, d)) < 0.6
        X[-1][m] = X[0][m]
    return X


def exchange(c, prob=1.0):
    from pymoo.operators.crossover import ux, hux, pntx, expx, binx
    name = c.pick("ux", "hux", "1p", "2p", "kp", "exp", "bin2", "bin1")
    op = {"ux": lambda: ux.UX(prob=prob), "hux": lambda: hux.HalfUniformCrossover(prob=prob), "1p": lambda: pntx.SinglePointCrossover(prob=prob),
          "2p": lambda: pntx.TwoPointCrossover(prob=prob), "kp": lambda: pntx.PointCrossover(n_points=c.int(1, 4), prob=prob),
          "exp": lambda: expx.ExponentialCrossover(prob_exp=c.pick(0.0, 0.5, 0.9, 1.0), prob=prob),
          "bin2": lambda: binx.BX(bias=c.pick(0.0, 0.5, 1.0), prob=prob), "bin1": lambda: binx.BX(n_offsprings=1, prob=prob)}[name]()
    return name, op


@contract("C10", n=1500, target="pymoo.util.misc.crossover_mask")
def exchange_crossovers(c):
    name, op = exchange(c)
    n, d = c.int(1, 6), c.int(2, 7)
    X = matings(c, 2, n, d)
    c.note(op=name, X=X)
    with c.frame("parent values unchanged", X=X):
        Q = op._do(mk.Shell(n_var=d), X, random_state=c.gen())
    c.eq(np.shape(Q), (op.n_offsprings, n, d), "declared number of offspring in a matching layout")
    for i in range(n):
        a, b = X[0, i], X[1, i]
        for q in Q[:, i]:
            c.ensures(np.all((q == a) | (q == b)), "every gene comes from one of the mating's own parents at its position", mating=i)
        if op.n_offsprings == 2:
            c.ensures(np.all(((Q[0, i] == a) & (Q[1, i] == b)) | ((Q[0, i] == b) & (Q[1, i] == a))), "two offspring are complementary", mating=i)
        sw = (Q[0, i] != a)
        df = np.flatnonzero(a != b)
        if name == "hux":
            c.eq(sw.sum(), math.ceil(len(df) / 2), "half-uniform exchanges half of the differing genes", mating=i)
        if name in ("1p", "2p", "kp"):
            # segments: the exchange pattern along the differing genes changes at most n_points times
            pat = sw[df]
            ch = int(np.sum(pat[1:] != pat[:-1]))
            c.ensures(ch <= op.n_points, "at most the given number of crossover points", pattern=pat)
        if name == "bin1" and len(df) == d:
            c.ensures(np.any(Q[0, i] == a), "binomial: at least one gene from the first parent")
        if name in ("exp",) and len(df) == d:
            k = int(sw.sum())
            c.ensures(k >= 1, "exponential: at least one gene is exchanged")
            runs = sum(1 for j in range(d) if sw[j] and not sw[j - 1])
            c.ensures(k == d or runs == 1, "exponential: exchanged genes are one cyclic run", pattern=sw)


@contract("C10", n=800, target="pymoo.util.misc.crossover_mask")
def mask_crossover(c):
    from pymoo.util.misc import crossover_mask, row_at_least_once_true
    n, d = c.int(1, 6), c.int(1, 6)
    X = matings(c, 2, n, d)
    M = c.rng.random((n, d)) < c.real()
    with c.frame(X=X, M=M):
        Q = crossover_mask(X, M)
    c.eq(Q, np.array([np.where(M, X[1], X[0]), np.where(M, X[0], X[1])]), "genes are exchanged exactly where the mask says")
    R = row_at_least_once_true(M.copy(), random_state=c.gen())
    c.ensures(np.all(R | ~M) and np.all(R.any(axis=1)), "marked genes stay marked and every row has one")
    k = M.any(axis=1)
    c.eq(R[k], M[k], "rows that had a marked gene are unchanged")
    c.eq(R[~k].sum(axis=1), np.ones((~k).sum()), "an empty row gets exactly one")


@contract("C10", n=600, target="pymoo.operators.crossover.binx.mut_binomial")
def masks(c):
    from pymoo.operators.crossover.binx import mut_binomial
    from pymoo.operators.crossover.expx import mut_exp
    n, d = c.int(1, 6), c.int(1, 6)
    p = c.pick(0.0, 1.0, 0.5)
    alo = c.chance(0.5)
    for f in (mut_binomial, mut_exp):
        M = f(n, d, p if c.chance(0.5) else np.full(n, p), at_least_once=alo, random_state=c.gen())
        c.ensures(M.shape == (n, d) and M.dtype == bool, "one mark per gene")
        if p == 1.0:
            c.ensures(np.all(M), "probability one marks every gene", f=f.__name__)
        if p == 0.0:
            c.eq(M.sum(axis=1), np.full(n, 1 if alo else 0), "probability zero marks at most the forced gene", f=f.__name__)


@contract("C10", n=1200, target="pymoo.core.crossover.Crossover.do")
def crossover_frame(c):
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.crossover.nox import NoCrossover
    prob = c.pick(0.0, 0.5, 1.0)
    n, d = c.int(1, 6), c.int(2, 6)
    xl, xu = np.zeros(d), np.ones(d)
    real = c.chance(0.4)
    if real:
        op = c.pick(SBX(prob=prob, n_offsprings=c.pick(1, 2)), PCX(prob=prob), SBX(prob=prob, prob_var=1.0))
    else:
        name, op = exchange(c, prob)
    k = op.n_parents
    X = matings(c, k, n, d, "real" if real else None)
    pop = mk.population(c, n * k + 2, X=np.concatenate([X.reshape(-1, d), X[0][[0, 0]]]), m=2)
    I = np.arange(n * k).reshape(k, n).T
    before, ids = O.data(pop), O.ids(pop)
    prob_shell = mk.Shell(n_var=d, xl=xl, xu=xu)
    c.note(op=type(op).__name__, prob=prob)
    if c.chance(0.5):
        off = op(prob_shell, pop, I, random_state=c.gen())
    else:
        off = op(prob_shell, [pop[i] for i in I], random_state=c.gen())
    c.eq(len(off), op.n_offsprings * n, "declared number of offspring per mating")
    c.ensures(O.same_data(before, O.data(pop)) and O.ids(pop) == ids, "parents and their values are untouched")
    c.ensures(not (set(O.ids(off)) & set(ids)), "offspring are new solutions")
    c.ensures(all(len(o.evaluated) == 0 for o in off), "offspring are not evaluated")
    Q = off.get("X").reshape(op.n_offsprings, n, d)
    if prob == 0.0:
        for i in range(n):
            for q in Q[:, i]:
                c.ensures(any(np.array_equal(q, X[j, i]) for j in range(k)), "a mating that is not drawn passes its parents through", mating=i)
            if op.n_offsprings == k:
                c.eq(Q[:, i], X[:, i], "a mating that is not drawn passes each parent through once", mating=i)
    if not real:
        for i in range(n):
            for q in Q[:, i]:
                c.ensures(np.all(np.any(q[None] == X[:, i], axis=0)), "every gene comes from one of the mating's own parents", mating=i)
    for o in off:
        o.X[...] = 0 if o.X.dtype != bool else True
    c.ensures(O.same_data(before, O.data(pop)), "offspring do not share storage with their parents")


@contract("C10", n=400, target="pymoo.core.crossover.Crossover.do")
def crossover_draws(c):
    """Exactly the matings drawn by the operator probability are recombined."""
    from pymoo.core.crossover import Crossover

    class Marker(Crossover):
        def _do(self, problem, X, *a, random_state=None, **k):
            return np.full((self.n_offsprings, X.shape[1], X.shape[2]), -7.0)
    k, m = c.int(1, 3), c.int(1, 3)
    n, d = c.int(1, 7), c.int(1, 4)
    p = c.pick(0.0, 0.3, 0.9, 1.0)
    X = c.rng.random((k, n, d))
    seed = c.int(0, 10 ** 6)
    drawn = np.random.default_rng(seed).random(n) < p
    off = Marker(k, m, prob=p).do(mk.Shell(n_var=d), [[Individual(X=X[j, i].copy()) for j in range(k)] for i in range(n)], random_state=np.random.default_rng(seed))
    Q = off.get("X").reshape(m, n, d)
    for i in range(n):
        if drawn[i]:
            c.ensures(np.all(Q[:, i] == -7.0), "drawn matings are recombined", mating=i)
        else:
            c.ensures(all(any(np.array_equal(q, X[j, i]) for j in range(k)) for q in Q[:, i]), "other matings pass through", mating=i)
            if m >= k:
                c.ensures(all(any(np.array_equal(q, X[j, i]) for q in Q[:, i]) for j in range(k)), "every parent passes through", mating=i)
            if m <= k:
                c.eq(len({tuple(q) for q in Q[:, i]}), m, "passed-through offspring come from distinct parents", mating=i)


@contract("C10", n=900, target="pymoo.core.mutation.Mutation.do")
def mutation_frame(c):
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.gauss import GM
    from pymoo.operators.mutation.bitflip import BFM
    from pymoo.core.mutation import Mutation
    n, d = c.int(1, 7), c.int(1, 5)
    prob = c.pick(0.0, 0.4, 1.0)
    pv = c.pick(0.0, 0.5, 1.0)
    op, kind = c.pick((PM(prob=prob, prob_var=pv), "real"), (GM(prob=prob, prob_var=pv), "real"), (BFM(prob=prob, prob_var=pv), "bool"))
    X = c.rng.random((n, d)) if kind == "real" else c.rng.random((n, d)) < 0.5
    pop = Population.new(X=X)
    shell = mk.Shell(n_var=d, xl=np.zeros(d), xu=np.ones(d))
    with c.frame("mutation operator leaves the array it was given unchanged", X=X):
        op._do(shell, X, random_state=c.gen())
    out = op.do(shell, pop, inplace=False, random_state=c.gen())
    c.eq(pop.get("X"), X, "out-of-place mutation leaves the individuals unchanged")
    c.eq(len(out), n, "one mutant per individual")
    c.ensures(not (set(O.ids(out)) & set(O.ids(pop))), "out-of-place mutation returns new individuals")
    if prob == 0.0 or pv == 0.0:
        c.eq(out.get("X"), X, "nothing is mutated with probability zero", op=type(op).__name__)

    class Marker(Mutation):
        def _do(self, problem, X, *a, random_state=None, **k):
            return np.full(X.shape, -7.0)
    seed = c.int(0, 10 ** 6)
    drawn = np.random.default_rng(seed).random(n) <= prob
    pop = Population.new(X=np.asarray(X, float))
    res = Marker(prob=prob).do(shell, pop, random_state=np.random.default_rng(seed))
    c.ensures(res is pop, "in-place mutation returns the population given")
    Y = res.get("X")
    c.ensures(np.all(Y[drawn] == -7.0), "drawn individuals are mutated")
    c.eq(Y[~drawn], np.asarray(X, float)[~drawn], "individuals not drawn pass through unchanged")


@contract("C10", n=300, target="pymoo.operators.mutation.pm.mut_pm")
def mutation_is_genewise(c):
    """A gene not drawn to mutate keeps its value."""
    from pymoo.operators.mutation.pm import mut_pm
    from pymoo.operators.mutation.gauss import mut_gauss
    n, d = c.int(1, 6), c.int(1, 5)
    X = c.rng.random((n, d))
    seed = c.int(0, 10 ** 6)
    p = c.pick(0.0, 0.3, 1.0)
    for f in ("pm", "gauss"):
        drawn = np.random.default_rng(seed).random((n, d)) < p
        r = np.random.default_rng(seed)
        with c.frame(X=X):
            Y = (mut_pm(X, np.zeros(d), np.ones(d), np.full(n, 5.0), np.full(n, p), False, random_state=r) if f == "pm" else
                 mut_gauss(X, np.zeros(d), np.ones(d), np.full(n, 0.3), np.full(n, p), random_state=r))
        c.eq(Y[~drawn], X[~drawn], "genes not drawn keep their value", f=f)


@contract("C10", n=300, target="pymoo.operators.crossover.nox.NoCrossover")
def no_crossover(c):
    from pymoo.operators.crossover.nox import NoCrossover
    from pymoo.operators.mutation.nom import NoMutation
    k, n, d = c.int(1, 3), c.int(1, 5), 2
    m = c.int(1, 4)
    P = [[Individual(X=c.rng.random(d)) for _ in range(k)] for _ in range(n)]
    op = NoCrossover(n_parents=k, n_offsprings=m)
    off = op(mk.Shell(n_var=d), P, random_state=c.gen())
    c.eq(len(off), m * n, "declared number of offspring per mating")
    for i in range(n):
        g = off[i * m:(i + 1) * m]
        c.ensures(all(any(o is p for p in P[i]) for o in g), "parents pass through", mating=i)
    pop = Population.new(X=c.rng.random((3, 2)))
    c.ensures(NoMutation()(mk.Shell(n_var=2), pop, random_state=c.gen()) is pop, "no mutation returns the population")
