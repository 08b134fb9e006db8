"""C11: sampling plans."""
import numpy as np
from vp.prove import proof
from pymoo.core.problem import Problem
from pymoo.operators.sampling import lhs, rnd

P = "pymoo.operators.sampling."


def strata(v, X, n, m, value=lambda i, j, x: x):
    """every stratum ((s/n, (s+1)/n]) of every variable holds exactly one point"""
    inside = lambda i, j, s: v.And(v.lt(s, v.mul(value(i, j, v.at(X, i, j)), n)), v.le(v.mul(value(i, j, v.at(X, i, j)), n), v.add(s, 1)))
    v.each((n, m), lambda i, j: v.exists(n, lambda s: inside(i, j, s)), "every point lies in a stratum")
    v.each((m, n), lambda j, s: v.exists(n, lambda i: inside(i, j, s)), "every stratum holds a point")
    v.each((m, n, n, n), lambda j, s, a, b: v.implies(v.And(inside(a, j, s), inside(b, j, s)), v.eq(a, b)), "no stratum holds two points")


@proof("C11", P + "lhs.sampling_lhs_unit")
def unit(v):
    n, m = v.dim("n"), v.dim("m")
    R = v.call(lhs.sampling_lhs_unit, n, m, smooth=v.flag("smooth"), random_state=v.rng())
    v.same_shape(R, (n, m), "requested number of points with one value per variable")
    strata(v, R, n, m)


@proof("C11", [P + "rnd.FloatRandomSampling._do", P + "rnd.BinaryRandomSampling._do", P + "rnd.IntegerRandomSampling._do", P + "rnd.PermutationRandomSampling._do", P + "rnd.random"])
def sizes(v):
    n, m = v.dim("n"), v.dim("m")
    which = v.pick("sampling", "float", "unbounded", "binary", "integer", "permutation", "random")
    if which in ("float", "integer", "random"):
        lo, up = v.bounds(m, kind="i")
        p = v.obj(Problem, n_var=m, xl=lo, xu=up)
    else:
        p = v.obj(Problem, n_var=m, xl=None, xu=None)
    f = dict(float=rnd.FloatRandomSampling()._do, unbounded=rnd.FloatRandomSampling()._do, binary=rnd.BinaryRandomSampling()._do,
             integer=rnd.IntegerRandomSampling()._do, permutation=rnd.PermutationRandomSampling()._do, random=rnd.random)[which]
    R = v.call(f, p, n, random_state=v.rng())
    v.same_shape(R, (n, m), "requested number of points with one value per variable")


def plans(v, log):
    """contract of sampling_lhs_unit: some stratified plan (its own proof is above)"""
    def contract(v, n_samples, n_var, smooth=True, random_state=None):
        X = v.some_array((n_samples, n_var), fact=lambda i, j, x: v.And(v.le(0.0, x), v.le(x, 1.0)))
        log.append(X)
        return X
    return contract


@proof("C11", P + "lhs.sampling_lhs", native=False)
def improvement(v):
    n, m = v.dim("n"), v.dim("m")
    crit = v.function("crit", 1)
    criterion = lambda X: crit(v.at(X, 0, 0))
    log = []
    v.use(lhs.sampling_lhs_unit, plans(v, log))
    v.use(criterion, lambda v, X: crit(v.at(X, 0, 0)))
    R = v.call(lhs.sampling_lhs, n, m, xl=0, xu=1, smooth=v.flag("smooth"), criterion=criterion, n_iter=v.dim("n_iter", lo=0), random_state=v.rng())
    v.same_shape(R, (n, m), "requested number of points with one value per variable")
    v.ensures(v.le(crit(v.at(log[0], 0, 0)), crit(v.at(R, 0, 0))), "improvement never worsens the criterion of the first plan")


@proof("C11", [P + "lhs.LatinHypercubeSampling._do", P + "lhs.sampling_lhs", P + "lhs.sampling_lhs_unit"], native=False)
def design(v):
    n, m = v.dim("n"), v.dim("m")
    lo, up = v.bounds(m, strict=True)
    crit = v.function("crit", 1)
    criterion = lambda X: crit(v.at(X, 0, 0))
    v.use(criterion, lambda v, X: crit(v.at(X, 0, 0)))
    o = lhs.LHS(smooth=v.flag("smooth"), iterations=v.dim("n_iter", lo=0), criterion=criterion if v.flag("improve") else None)
    R = v.call(o._do, v.obj(Problem, n_var=m, xl=lo, xu=up), n, random_state=v.rng())
    v.same_shape(R, (n, m), "requested number of points with one value per variable")
    strata(v, R, n, m, lambda i, j, x: v.div(v.sub(x, v.at(lo, j)), v.sub(v.at(up, j), v.at(lo, j))))
