"""Whole runs of the real algorithms under run-time contracts: small recording problems, every algorithm of /repo."""
import copy
import numpy as np
from vp import mk

MOO = ["nsga2", "rnsga2", "nsga3", "unsga3", "rnsga3", "nsde", "gde3", "gde3mnn", "gde3pcd", "gde32nn", "nsder", "moead", "pmoead", "ctaea", "sms", "spea2",
       "rvea", "age", "age2", "mopsocd", "cmopso", "omni", "dnsga2", "kgb"]
SOO = ["ga", "de", "pso", "eppso", "es", "sres", "isres", "brkga", "cmaes", "nelder", "pattern", "niche", "g3pcx", "direct", "nrbo", "random"]
NO_CONSTR = {"direct", "moead", "pmoead", "cmaes", "mopsocd", "omni", "rnsga2", "kgb", "dnsga2", "cmopso", "g3pcx"}
NEED_CONSTR = {"sres", "isres"}


class LabProblem(mk.Recorder):
    """Smooth objectives on bounds that differ per variable; constraints cut part of the space."""

    def __init__(self, c_seed, n_var, n_obj, g, h, xl, xu, kind):
        r = np.random.default_rng(c_seed)
        A = r.random((max(n_obj, 1), n_var))
        W = r.random(n_var) + 0.1
        t = r.random((max(g, 1), n_var))
        span = xu - xl
        span = np.where(span > 0, span, 1.0)

        def unit(X):
            return (np.asarray(X, float) - xl) / span

        def F(X):
            U = unit(X)
            cols = []
            for j in range(n_obj):
                v = (((U - A[j]) ** 2) * W).sum(axis=1)
                if kind == "flat":
                    v = np.round(v * 3)
                elif kind == "scaled":
                    v = v * 10.0 ** (j * 2)
                elif kind == "edge":
                    v = (U * W).sum(axis=1) * (1 if j % 2 == 0 else -1)
                elif kind == "const" and j > 0:
                    v = v * 0 + 1.0
                cols.append(v)
            return np.column_stack(cols)

        def G(X):
            U = unit(X)
            if kind == "infeasible":
                return np.column_stack([1.0 + U @ t[j] for j in range(g)])
            return np.column_stack([(U @ t[j]) - 0.6 * t[j].sum() for j in range(g)])

        def H(X):
            U = unit(X)
            return np.column_stack([(U[:, 0] - 0.5) * (j + 1) for j in range(h)])
        super().__init__(n_var, n_obj, g, h, xl=xl, xu=xu, F=F, G=G, H=H)


def problem(c, name, constr=None, kind=None, n_var=None, n_obj=None, box=None):
    moo = name in MOO
    m = n_obj or (c.pick(2, 2, 3) if moo else 1)
    if name in ("moead", "pmoead", "nsga3", "unsga3", "ctaea", "rvea", "nsder") and n_obj is None:
        m = c.pick(2, 3)
    if name == "rnsga3" or name == "rnsga2":
        m = 2
    n = n_var or c.int(2, 5)
    if constr is None:
        constr = name in NEED_CONSTR or (name not in NO_CONSTR and c.chance(0.5))
    g, h = (c.int(1, 2), 0) if constr else (0, 0)
    if constr and c.chance(0.15):
        h = 1
    if box is None:
        box = c.pick("unit", "shift", "mixed", "neg")
    xl, xu = np.zeros(n), np.ones(n)
    if box == "shift":
        xl, xu = np.full(n, 10.0), np.full(n, 10.5)
    elif box == "mixed":
        xl, xu = -np.arange(1, n + 1) * 2.0, np.arange(1, n + 1) * 0.5
    elif box == "neg":
        xl, xu = np.full(n, -3.0), np.full(n, -1.0)
    kind = kind or c.pick("smooth", "smooth", "edge", "flat", "scaled")
    P = LabProblem(c.int(0, 10 ** 6), n, m, g, h, xl, xu, kind)
    P.lab = dict(n_var=n, n_obj=m, g=g, h=h, xl=xl, xu=xu, kind=kind)
    c.note(algorithm=name, problem=P.lab)
    return P


def ref_dirs(m, k=None):
    from pymoo.util.ref_dirs import get_reference_directions
    return get_reference_directions("das-dennis", m, n_partitions=k or {1: 1, 2: 7, 3: 3}[m])


def make(name, c, P=None, **kw):
    """A small instance of the algorithm; P is needed for algorithms built around the number of objectives."""
    m = P.n_obj if P is not None else getattr(c, "last_m", 2)
    S = kw.pop("pop_size", None) or c.pick(8, 10, 12)
    if name == "nsga2":
        from pymoo.algorithms.moo.nsga2 import NSGA2
        return NSGA2(pop_size=S, **kw)
    if name == "rnsga2":
        from pymoo.algorithms.moo.rnsga2 import RNSGA2
        return RNSGA2(ref_points=np.array([[0.3, 0.4], [0.8, 0.2]]), pop_size=S, epsilon=c.pick(0.01, 0.3), normalization=c.pick("front", "ever", "no"),
                      extreme_points_as_reference_points=c.chance(0.5), **kw)
    if name == "nsga3":
        from pymoo.algorithms.moo.nsga3 import NSGA3
        return NSGA3(ref_dirs=ref_dirs(m), pop_size=c.pick(None, S), **kw)
    if name == "unsga3":
        from pymoo.algorithms.moo.unsga3 import UNSGA3
        return UNSGA3(ref_dirs=ref_dirs(m), pop_size=c.pick(None, S), **kw)
    if name == "rnsga3":
        from pymoo.algorithms.moo.rnsga3 import RNSGA3
        return RNSGA3(ref_points=np.array([[0.3, 0.4], [0.8, 0.5]]), pop_per_ref_point=6, mu=0.1, **kw)
    if name == "nsde":
        from pymoo.algorithms.moo.nsde import NSDE
        return NSDE(pop_size=S, variant=c.pick("DE/rand/1/bin", "DE/rand/2/exp", "DE/ranked/1/bin"), CR=0.7, F=c.pick(None, (0.2, 0.9), 0.8), de_repair=c.pick("bounce-back", "midway", "rand-init", "to-bounds"), **kw)
    if name.startswith("gde3"):
        from pymoo.algorithms.moo import gde3
        cls = {"gde3": gde3.GDE3, "gde3mnn": gde3.GDE3MNN, "gde3pcd": gde3.GDE3PCD, "gde32nn": gde3.GDE32NN}[name]
        return cls(pop_size=S, **kw)
    if name == "nsder":
        from pymoo.algorithms.moo.nsder import NSDER
        return NSDER(ref_dirs=ref_dirs(m), pop_size=S, **kw)
    if name == "moead":
        from pymoo.algorithms.moo.moead import MOEAD
        return MOEAD(ref_dirs(m), n_neighbors=c.pick(3, 5), prob_neighbor_mating=c.pick(0.0, 0.7, 1.0), **kw)
    if name == "pmoead":
        from pymoo.algorithms.moo.moead import ParallelMOEAD
        return ParallelMOEAD(ref_dirs(m), n_neighbors=4, prob_neighbor_mating=0.7, **kw)
    if name == "ctaea":
        from pymoo.algorithms.moo.ctaea import CTAEA
        return CTAEA(ref_dirs=ref_dirs(m), **kw)
    if name == "sms":
        from pymoo.algorithms.moo.sms import SMSEMOA
        return SMSEMOA(pop_size=S, n_offsprings=c.pick(None, 1, 4), **kw)
    if name == "spea2":
        from pymoo.algorithms.moo.spea2 import SPEA2
        return SPEA2(pop_size=S, **kw)
    if name == "rvea":
        from pymoo.algorithms.moo.rvea import RVEA
        return RVEA(ref_dirs=ref_dirs(m), **kw)
    if name == "age":
        from pymoo.algorithms.moo.age import AGEMOEA
        return AGEMOEA(pop_size=S, **kw)
    if name == "age2":
        from pymoo.algorithms.moo.age2 import AGEMOEA2
        return AGEMOEA2(pop_size=S, **kw)
    if name == "mopsocd":
        from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
        return MOPSO_CD(pop_size=S, **kw)
    if name == "cmopso":
        from pymoo.algorithms.moo.cmopso import CMOPSO
        return CMOPSO(pop_size=S, **kw)
    if name == "omni":
        from pymoo.algorithms.moo.omni import OmniOptimizer
        return OmniOptimizer(pop_size=S, **kw)
    if name == "dnsga2":
        from pymoo.algorithms.moo.dnsga2 import DNSGA2
        return DNSGA2(pop_size=S, version=c.pick("A", "B"), **kw)
    if name == "kgb":
        from pymoo.algorithms.moo.kgb import KGB
        return KGB(pop_size=S, **kw)
    if name == "ga":
        from pymoo.algorithms.soo.nonconvex.ga import GA
        return GA(pop_size=S, n_offsprings=c.pick(None, None, 3), **kw)
    if name == "de":
        from pymoo.algorithms.soo.nonconvex.de import DE
        return DE(pop_size=S, variant=c.pick("DE/rand/1/bin", "DE/best/1/exp", "DE/rand/2/bin", "DE/target-to-best/1/bin"), CR=0.5, jitter=c.chance(0.3), **kw)
    if name == "pso":
        from pymoo.algorithms.soo.nonconvex.pso import PSO
        return PSO(pop_size=S, adaptive=c.chance(0.7), pertube_best=c.chance(0.7), **kw)
    if name == "eppso":
        from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO
        return EPPSO(pop_size=S, **kw)
    if name == "es":
        from pymoo.algorithms.soo.nonconvex.es import ES
        return ES(n_offsprings=2 * S, pop_size=S // 2, rule=1.0 / 7.0, **kw)
    if name == "sres":
        from pymoo.algorithms.soo.nonconvex.sres import SRES
        return SRES(n_offsprings=2 * S, rule=1.0 / 7.0, gamma=0.85, alpha=0.2, **kw)
    if name == "isres":
        from pymoo.algorithms.soo.nonconvex.isres import ISRES
        return ISRES(n_offsprings=2 * S, rule=1.0 / 7.0, gamma=0.85, alpha=0.2, **kw)
    if name == "brkga":
        from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
        return BRKGA(n_elites=4, n_offsprings=S, n_mutants=3, bias=0.7, **kw)
    if name == "cmaes":
        from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
        return CMAES(sigma=c.pick(0.1, 0.5), restarts=c.pick(0, 1), **kw)
    if name == "nelder":
        from pymoo.algorithms.soo.nonconvex.nelder import NelderMead
        return NelderMead(**kw)
    if name == "pattern":
        from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
        return PatternSearch(**kw)
    if name == "niche":
        from pymoo.algorithms.soo.nonconvex.ga_niching import NicheGA
        return NicheGA(pop_size=S, **kw)
    if name == "g3pcx":
        from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
        return G3PCX(pop_size=S, **kw)
    if name == "direct":
        from pymoo.algorithms.soo.nonconvex.direct import DIRECT
        return DIRECT(**kw)
    if name == "nrbo":
        from pymoo.algorithms.soo.nonconvex.nrbo import NRBO
        return NRBO(pop_size=S, **kw)
    if name == "random":
        from pymoo.algorithms.soo.nonconvex.random_search import RandomSearch
        return RandomSearch(n_points_per_iteration=S, **kw)
    raise KeyError(name)


def solve(P, alg, n_gen=4, seed=1, callback=None, **kw):
    from pymoo.optimize import minimize
    if callback is not None:
        kw["callback"] = callback
    return minimize(P, alg, ("n_gen", n_gen), seed=seed, verbose=False, **kw)
