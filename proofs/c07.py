"""C07: bounds."""
import numpy as np
from vp.prove import proof
from pymoo.operators.repair import bounds_repair as BR, to_bound as TB, bounce_back as BB, inverse_penalty as IP
from pymoo.operators.crossover import sbx
from pymoo.operators.mutation import pm, gauss
from pymoo.operators.sampling import rnd, lhs
from pymoo.core.problem import Problem


def inside(v, x, xl, xu):
    return v.And(v.le(xl, x), v.le(x, xu))


def rows_inside(v, R, xl, xu, n, m, label="every value lies within its bounds"):
    v.each((n, m), lambda i, j: inside(v, v.at(R, i, j), v.at(xl, j), v.at(xu, j)), label)


def kept(v, R, old, xl, xu, n, m):
    v.each((n, m), lambda i, j: v.implies(inside(v, v.at(old, i, j), v.at(xl, j), v.at(xu, j)), v.eq(v.at(R, i, j), v.at(old, i, j))), "a value within its bounds is kept")


def arrays(v):
    n, m = v.dim("n"), v.dim("m")
    xl, xu = v.bounds(m)
    return n, m, xl, xu, v.array("X", (n, m))


@proof("C07", "pymoo.operators.repair.bounds_repair.repair_clamp")
def clamp(v):
    n, m, xl, xu, X = arrays(v)
    old = v.old(X)
    R = v.call(BR.repair_clamp, X, xl, xu)
    v.same_shape(R, (n, m), "shape")
    rows_inside(v, R, xl, xu, n, m)
    v.each((n, m), lambda i, j: v.eq(v.at(R, i, j), v.min(v.max(v.at(old, i, j), v.at(xl, j)), v.at(xu, j))), "nearest value within the bounds")
    v.unchanged("xl", "xu")


@proof("C07", "pymoo.operators.repair.to_bound.set_to_bounds_if_outside")
def to_bound(v):
    n, m, xl, xu, X = arrays(v)
    old = v.old(X)
    R = v.call(TB.set_to_bounds_if_outside, X, xl, xu)
    v.same_shape(R, (n, m), "shape")
    rows_inside(v, R, xl, xu, n, m)
    kept(v, R, old, xl, xu, n, m)
    v.unchanged("xl", "xu")


@proof("C07", "pymoo.operators.repair.to_bound.set_to_bounds_if_outside")
def to_bound_one_vector(v):
    m = v.dim("m")
    xl, xu = v.bounds(m)
    X = v.array("X", (m,))
    old = v.old(X)
    R = v.call(TB.set_to_bounds_if_outside, X, xl, xu)
    v.same_shape(R, (m,), "shape")
    v.each((m,), lambda j: inside(v, v.at(R, j), v.at(xl, j), v.at(xu, j)), "every value lies within its bounds")
    v.each((m,), lambda j: v.implies(inside(v, v.at(old, j), v.at(xl, j), v.at(xu, j)), v.eq(v.at(R, j), v.at(old, j))), "a value within its bounds is kept")


@proof("C07", "pymoo.operators.repair.to_bound.set_to_bounds_if_outside")
def to_bound_without_bounds(v):
    n, m = v.dim("n"), v.dim("m")
    X = v.array("X", (n, m))
    old = v.old(X)
    R = v.call(TB.set_to_bounds_if_outside, X, None, None)
    v.same(R, old, "without bounds nothing changes")


@proof("C07", "pymoo.operators.repair.bounce_back.bounce_back")
def bounce(v):
    n, m, xl, xu, X = arrays(v)
    old = v.old(X)
    R = v.call(BB.bounce_back, X, xl, xu)
    v.same_shape(R, (n, m), "shape")
    rows_inside(v, R, xl, xu, n, m)
    kept(v, R, old, xl, xu, n, m)
    v.unchanged("xl", "xu")


@proof("C07", "pymoo.operators.repair.bounds_repair.repair_periodic")
def periodic(v):
    n, m, xl, xu, X = arrays(v)
    old = v.old(X)
    R = v.call(BR.repair_periodic, X, xl, xu)
    v.same_shape(R, (n, m), "shape")
    rows_inside(v, R, xl, xu, n, m)
    kept(v, R, old, xl, xu, n, m)
    v.unchanged("xl", "xu")


@proof("C07", "pymoo.operators.repair.bounds_repair.repair_random_init")
def random_init(v):
    n, m, xl, xu, X = arrays(v)
    P = v.within("P", (n, m), xl, xu)
    old = v.old(X)
    R = v.call(BR.repair_random_init, X, P, xl, xu, random_state=v.rng())
    v.same_shape(R, (n, m), "shape")
    rows_inside(v, R, xl, xu, n, m)
    kept(v, R, old, xl, xu, n, m)
    v.unchanged("xl", "xu", "P")


@proof("C07", ["pymoo.operators.repair.bounds_repair.is_out_of_bounds", "pymoo.operators.repair.bounds_repair.is_in_bounds"])
def membership(v):
    n, m, xl, xu, X = arrays(v)
    row = lambda i: v.forall(m, lambda j: inside(v, v.at(X, i, j), v.at(xl, j), v.at(xu, j)))
    I, O = v.call(BR.is_in_bounds, X, xl, xu), v.call(BR.is_out_of_bounds, X, xl, xu)
    k, l = v.shape(I)[0], v.shape(O)[0]
    v.each((k,), lambda a: row(v.at(I, a)), "every reported row is within the bounds")
    v.each((l,), lambda a: v.Not(row(v.at(O, a))), "every reported row leaves the bounds")
    v.each((n,), lambda i: v.iff(v.exists(k, lambda a: v.eq(v.at(I, a), i)), row(i)), "reported exactly when within the bounds")
    v.each((n,), lambda i: v.iff(v.exists(l, lambda a: v.eq(v.at(O, a), i)), v.Not(row(i))), "reported exactly when out of the bounds")
    v.unchanged()


@proof("C07", "pymoo.operators.repair.inverse_penalty.inverse_penality")
def inverse(v):
    m = v.dim("m")
    xl, xu = v.bounds(m)
    x, p = v.array("x", (m,)), v.within("p", (m,), xl, xu)
    R = v.call(IP.inverse_penality, x, p, xl, xu, random_state=v.rng())
    v.same_shape(R, (m,), "shape")
    v.each((m,), lambda j: inside(v, v.at(R, j), v.at(xl, j), v.at(xu, j)), "every value lies within its bounds")
    v.unchanged()


@proof("C07", "pymoo.operators.crossover.sbx.cross_sbx")
def sbx_children(v):
    k, m = v.dim("k"), v.dim("m")
    xl, xu = v.bounds(m)
    X = v.within("X", (2, k, m), xl, xu)
    eta, pb = v.array("eta", (k, 1), where=lambda e: v.lt(0, e)), v.array("prob_bin", (k, 1))
    pv = v.scalar("prob_var")
    Q = v.call(sbx.cross_sbx, X, xl, xu, eta, pv, pb, random_state=v.rng())
    v.same_shape(Q, (2, k, m), "shape")
    v.each((2, k, m), lambda a, i, j: inside(v, v.at(Q, a, i, j), v.at(xl, j), v.at(xu, j)), "every value lies within its bounds")
    v.unchanged()


@proof("C07", "pymoo.operators.mutation.pm.mut_pm")
def polynomial_mutation(v):
    n, m = v.dim("n"), v.dim("m")
    xl, xu = v.bounds(m)
    X = v.within("X", (n, m), xl, xu)
    eta, prob = v.array("eta", (n,), where=lambda e: v.lt(0, e)), v.array("prob", (n,))
    R = v.call(pm.mut_pm, X, xl, xu, eta, prob, v.flag("at_least_once"), random_state=v.rng())
    v.same_shape(R, (n, m), "shape")
    rows_inside(v, R, xl, xu, n, m)
    v.unchanged()


@proof("C07", "pymoo.operators.mutation.gauss.mut_gauss")
def gaussian_mutation(v):
    n, m = v.dim("n"), v.dim("m")
    xl, xu = v.bounds(m)
    X = v.within("X", (n, m), xl, xu)
    s, prob = v.array("sigma", (n,), where=lambda e: v.lt(0, e)), v.array("prob", (n,))
    R = v.call(gauss.mut_gauss, X, xl, xu, s, prob, random_state=v.rng())
    v.same_shape(R, (n, m), "shape")
    rows_inside(v, R, xl, xu, n, m)
    v.unchanged()


def problem(v, m, xl, xu):
    return v.obj(Problem, n_var=m, xl=xl, xu=xu, n_obj=1)


@proof("C07", ["pymoo.operators.sampling.rnd.FloatRandomSampling._do", "pymoo.operators.sampling.rnd.random"])
def uniform_sampling(v):
    n, m = v.dim("n"), v.dim("m")
    xl, xu = v.bounds(m)
    P = problem(v, m, xl, xu)
    for X in (v.call(rnd.FloatRandomSampling()._do, P, n, random_state=v.rng()), v.call(rnd.random, P, n, random_state=v.rng())):
        v.same_shape(X, (n, m), "one row per sample")
        rows_inside(v, X, xl, xu, n, m)
    v.unchanged()


@proof("C07", "pymoo.operators.sampling.rnd.IntegerRandomSampling._do")
def integer_sampling(v):
    n, m = v.dim("n"), v.dim("m")
    xl, xu = v.bounds(m, kind="i")
    X = v.call(rnd.IntegerRandomSampling()._do, problem(v, m, xl, xu), n, random_state=v.rng())
    v.same_shape(X, (n, m), "one row per sample")
    rows_inside(v, X, xl, xu, n, m)
    v.unchanged()


@proof("C07", ["pymoo.operators.sampling.lhs.LatinHypercubeSampling._do", "pymoo.operators.sampling.lhs.sampling_lhs", "pymoo.operators.sampling.lhs.sampling_lhs_unit"])
def lhs_sampling(v):
    n, m = v.dim("n"), v.dim("m")
    xl, xu = v.bounds(m)
    S = lhs.LHS(smooth=v.flag("smooth"), criterion=v.pick("criterion", lhs.criterion_maxmin, None))
    X = v.call(S._do, problem(v, m, xl, xu), n, random_state=v.rng())
    v.same_shape(X, (n, m), "one row per sample")
    rows_inside(v, X, xl, xu, n, m)
    v.unchanged()
