"""C27: a seed determines a run completely."""
import contextlib, random, copy
import numpy as np
from vp.rt import contract
from vp import mk, lab
from props.c15 import survival, MULTI

ASSUMPTIONS = ["wall-clock limits and user code are outside of the property"]


class Unseeded(Exception):
    pass


class Poison:
    """Stands for a generator nobody seeded: drawing from it would make the run depend on more than the seed."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unseeded("drew %s from a generator without a seed" % k)


@contextlib.contextmanager
def guarded(c, seed=None, watch=True):
    """Global random state is watched, and nothing is drawn from a generator nobody seeded."""
    if seed is not None:
        np.random.seed(seed)
        random.seed(seed)
    a, b = np.random.get_state(), random.getstate()
    real = np.random.default_rng

    def checked(s=None):
        return Poison() if s is None else real(s)
    np.random.default_rng = checked
    try:
        yield
    finally:
        np.random.default_rng = real
    x = np.random.get_state()
    c.ensures(not watch or a[0] == x[0] and np.array_equal(a[1], x[1]) and a[2:] == x[2:] and b == random.getstate(), "global random state is neither read nor changed")


def log_of(P, res):
    return P.rows(), [None if v is None else np.asarray(v, float) for v in (res.X, res.F)]


@contract("C27", n=170, thorough=1600, target="pymoo.optimize.minimize, pymoo.core.algorithm.Algorithm")
def runs(c):
    names = [n for n in lab.MOO + lab.SOO]
    name = names[c.idx % len(names)]
    P = lab.problem(c, name)
    alg = lab.make(name, c, P)
    n_gen, seed = c.int(2, 7), c.int(0, 99999)
    c.note(seed=seed, n_gen=n_gen)
    if c.chance(.3) and name not in ("mopsocd", "cmopso"):
        from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive
        alg.archive = (MultiObjectiveArchive if P.n_obj > 1 else SingleObjectiveArchive)(max_size=4)
    watch = name != "cmaes"             # the external package cma seeds the global generator
    with guarded(c, 1, watch):
        r1 = lab.solve(P, copy.deepcopy(alg), n_gen=n_gen, seed=seed)
    A, B = log_of(P, r1)
    P.log.clear()
    how = c.pick("again", "steps", "asktell")
    c.note(how=how)
    a = copy.deepcopy(alg)
    with guarded(c, 999, watch):
        if how == "again":
            r2 = lab.solve(P, a, n_gen=n_gen, seed=seed)
        else:
            from pymoo.termination import get_termination
            a.setup(P, termination=("n_gen", n_gen), seed=seed, verbose=False)
            while a.has_next():
                np_state, st = np.random.get_state(), random.getstate()
                np.random.random(3), random.random()                    # another user of global randomness
                np.random.set_state(np_state), random.setstate(st)
                if how == "steps":
                    a.next()
                else:
                    inf = a.ask()
                    if inf is None:
                        a.tell()
                    else:
                        a.evaluator.eval(P, inf, algorithm=a)
                        a.tell(infills=inf)
            r2 = a.result()
    A2, B2 = log_of(P, r2)
    c.eq(A2.shape, A.shape, "as many solutions are evaluated")
    c.eq(A2, A, "identical evaluated solutions in identical order")
    for u, v, k in zip(B, B2, "XF"):
        c.ensures((u is None) == (v is None), "result of the same kind")
        if u is not None:
            c.eq(v, u, "identical result " + k)
    if r1.archive is not None:
        c.eq([tuple(np.asarray(i.X, float)) for i in r2.archive], [tuple(np.asarray(i.X, float)) for i in r1.archive], "identical archive")


def ops():
    from pymoo.operators.crossover import ux, hux, pntx, expx, binx, sbx, pcx, spx, dex, ox, erx, nox
    from pymoo.operators.mutation import bitflip, gauss, inversion, pm, rm, nom
    X = dict(ux=ux.UX, hux=hux.HUX, p1=lambda: pntx.PointCrossover(n_points=1), p2=lambda: pntx.PointCrossover(n_points=2), ex=expx.ExponentialCrossover, bx=binx.BX, sbx=sbx.SBX,
             dex=dex.DEX, ox=ox.OrderCrossover, erx=erx.EdgeRecombinationCrossover, nox=nox.NoCrossover, pcx=pcx.PCX, spx=spx.SPX)
    M = dict(bit=bitflip.BitflipMutation, gauss=gauss.GaussianMutation, inv=inversion.InversionMutation, pm=pm.PM, rm=rm.ChoiceRandomMutation, nom=nom.NoMutation)
    return X, M


@contract("C27", n=1500, target="pymoo.operators")
def operators(c):
    from pymoo.operators.sampling import rnd, lhs
    from pymoo.core.population import Population
    X, M = ops()
    d = c.int(2, 6)
    P = mk.Shell(d, 1, 0, xl=np.zeros(d), xu=np.full(d, 5.0))
    kind = c.pick("crossover", "mutation", "sampling", "selection", "survival", "repair", "duplicates")
    g = c.int(0, 10 ** 6)
    if kind == "crossover":
        name = c.pick(list(X))
        op = X[name]()
        n = c.int(1, 6)
        k = op.n_parents
        c.requires(name != "nox")
        Z = np.array([[c.rng.permutation(d) for _ in range(k)] for _ in range(n)]) if name in ("ox", "erx") else c.rng.random((n, k, d)) * 5
        if name in ("bx",):
            Z = Z > 2
        f = lambda r: op.do(P, Population.new(X=Z.reshape(-1, d)), np.arange(n * k).reshape(n, k), random_state=r).get("X")
    elif kind == "mutation":
        name = c.pick(list(M))
        op = M[name]()
        n = c.int(1, 6)
        Z = np.array([c.rng.permutation(d) for _ in range(n)]) if name == "inv" else c.rng.random((n, d)) * 5
        if name == "bit":
            Z = Z > 2
        if name == "rm":
            from pymoo.core.variable import Choice
            P.vars = {i: Choice(options=["a", "b", "c"]) for i in range(d)}
            Z = np.array([["a"] * d] * n, dtype=object)
        f = lambda r: op.do(P, Population.new(X=Z.copy()), random_state=r).get("X")
    elif kind == "sampling":
        name = c.pick("float", "int", "bin", "perm", "lhs", "lhsc")
        op = dict(float=rnd.FloatRandomSampling, int=rnd.IntegerRandomSampling, bin=rnd.BinaryRandomSampling, perm=rnd.PermutationRandomSampling,
                  lhs=lhs.LatinHypercubeSampling, lhsc=lambda: lhs.LatinHypercubeSampling(smooth=False, iterations=3))[name]()
        n = c.int(1, 9)
        f = lambda r: op.do(P, n, random_state=r).get("X")
    elif kind == "selection":
        from pymoo.operators.selection.rnd import RandomSelection
        from pymoo.operators.selection.tournament import TournamentSelection
        from pymoo.algorithms.soo.nonconvex.ga import comp_by_cv_and_fitness
        from pymoo.operators.selection.des import DES
        name = c.pick("random", "tournament", "des")
        pop = mk.population(c, c.int(5, 9), m=1, g=c.pick(0, 1), style="grid2")
        op = dict(random=RandomSelection, tournament=lambda: TournamentSelection(comp_by_cv_and_fitness), des=lambda: DES("rand"))[name]()
        n = len(pop) if name == "des" else 5
        f = lambda r: op.do(P, pop, n, 3, to_pop=False, random_state=r)
    elif kind == "survival":
        name = c.pick(MULTI)
        m = 2
        pop0 = mk.population(c, c.int(3, 10), m=m, g=c.pick(0, 1), style=c.pick("grid", "dup", "front", "uniform"))
        k = c.int(1, len(pop0))
        PP = mk.Shell(2, m, 1)
        S = survival(name, c, m)

        def f(r):
            pop = copy.deepcopy(pop0)
            ids = {id(i): j for j, i in enumerate(pop)}
            return [ids[id(i)] for i in copy.deepcopy(S).do(PP, pop, n_survive=k, random_state=r)]
    elif kind == "repair":
        from pymoo.operators.repair.bounds_repair import repair_random_init
        name = "random"
        Z, Y = c.rng.normal(0, 6, (4, d)), c.rng.random((4, d)) * 5
        f = lambda r: repair_random_init(Z.copy(), Y, *P.bounds(), random_state=r)
    else:
        from pymoo.util.misc import random_permutations
        name = "random permutations"
        f = lambda r: random_permutations(3, d, random_state=r)
    c.note(kind=kind, name=name, seed=g)
    with guarded(c, 5):
        a = f(np.random.default_rng(g))
    with guarded(c, 6):
        b = f(np.random.default_rng(g))
    c.eq(np.asarray(b), np.asarray(a), "equal generators give equal outputs")


@contract("C27", n=120, target="pymoo.util.default_random_state")
def plumbing(c):
    """The decorator hands over exactly the generator given and seeds its own one as announced."""
    from pymoo.util import default_random_state
    s = c.int(0, 999)

    @default_random_state
    def f(x, random_state=None):
        return x, random_state

    @default_random_state(seed=7)
    def g(random_state=None):
        return random_state

    @default_random_state(11)
    def h(random_state=None):
        return random_state
    r = c.gen()
    with guarded(c, 3):
        c.ensures(f(1, random_state=r) == (1, r) and g(random_state=r) is r and h(random_state=r) is r, "the given generator is used")
        for q, e in ((g(), 7), (h(), 11), (f(1, seed=s)[1], s), (g(seed=s), s)):
            c.eq(q.random(4), np.random.default_rng(e).random(4), "the announced seed is used")
