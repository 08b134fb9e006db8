"""C10: gene-wise exchange."""
import numpy as np
from vp.prove import proof
from pymoo.core.problem import Problem
from pymoo.operators.crossover import ux, hux, pntx, expx, binx
from pymoo.util import misc


def exchanged(v, R, X, k, m, n=2):
    a, b = (lambda i, j: v.at(X, 0, i, j)), (lambda i, j: v.at(X, 1, i, j))
    v.same_shape(R, (n, k, m), "declared number of offspring per mating")
    if n == 1:
        v.each((k, m), lambda i, j: v.Or(v.eq(v.at(R, 0, i, j), a(i, j)), v.eq(v.at(R, 0, i, j), b(i, j))), "every gene comes from a parent of the mating, at its position")
    else:
        kept = lambda i, j: v.And(v.eq(v.at(R, 0, i, j), a(i, j)), v.eq(v.at(R, 1, i, j), b(i, j)))
        swapped = lambda i, j: v.And(v.eq(v.at(R, 0, i, j), b(i, j)), v.eq(v.at(R, 1, i, j), a(i, j)))
        v.each((k, m), lambda i, j: v.Or(kept(i, j), swapped(i, j)), "genes come from the mating's parents, at their position, complementary in the two offspring")


def parents(v, kind="f"):
    k, m = v.dim("k"), v.dim("m")
    return k, m, v.array("X", (2, k, m), kind)


@proof("C10", "pymoo.util.misc.crossover_mask")
def mask(v):
    k, m, X = parents(v)
    M = v.array("M", (k, m), "b")
    R = v.call(misc.crossover_mask, X, M)
    v.same_shape(R, (2, k, m), "shape")
    v.each((k, m), lambda i, j: v.And(v.eq(v.at(R, 0, i, j), v.ite(v.at(M, i, j), v.at(X, 1, i, j), v.at(X, 0, i, j))), v.eq(v.at(R, 1, i, j), v.ite(v.at(M, i, j), v.at(X, 0, i, j), v.at(X, 1, i, j)))), "exchanged exactly where the mask says")
    v.unchanged()


@proof("C10", "pymoo.util.misc.row_at_least_once_true")
def at_least_one(v):
    k, m = v.dim("k"), v.dim("m")
    M = v.array("M", (k, m), "b")
    old = v.old(M)
    R = v.call(misc.row_at_least_once_true, M, random_state=v.rng())
    v.same_shape(R, (k, m), "shape")
    v.each((k,), lambda i: v.exists(m, lambda j: v.at(R, i, j)), "every row has a true entry")
    v.each((k, m), lambda i, j: v.implies(v.at(old, i, j), v.at(R, i, j)), "true entries stay")
    v.each((k, m), lambda i, j: v.implies(v.exists(m, lambda l: v.at(old, i, l)), v.iff(v.at(old, i, j), v.at(R, i, j))), "rows with a true entry stay as they are")


@proof("C10", "pymoo.operators.crossover.ux.UniformCrossover._do")
def uniform(v):
    k, m, X = parents(v)
    exchanged(v, v.call(ux.UX()._do, v.obj(Problem, n_var=m), X, random_state=v.rng()), X, k, m)
    v.unchanged()


@proof("C10", "pymoo.operators.crossover.hux.HalfUniformCrossover._do")
def half_uniform(v):
    k, m, X = parents(v)
    exchanged(v, v.call(hux.HUX()._do, v.obj(Problem, n_var=m), X, random_state=v.rng()), X, k, m)
    v.unchanged()


@proof("C10", "pymoo.operators.crossover.binx.BinomialCrossover._do")
def binomial(v):
    k, m, X = parents(v)
    n = v.pick("n_offsprings", 2, 1)
    C = binx.BX(bias=v.scalar("bias", lo=0, hi=1), n_offsprings=n)
    exchanged(v, v.call(C._do, v.obj(Problem, n_var=m), X, random_state=v.rng()), X, k, m, n)
    v.unchanged()


@proof("C10", ["pymoo.operators.crossover.expx.ExponentialCrossover._do", "pymoo.operators.crossover.expx.mut_exp"])
def exponential(v):
    k, m, X = parents(v)
    C = expx.ExponentialCrossover(prob_exp=v.scalar("prob_exp", lo=0, hi=1))
    exchanged(v, v.call(C._do, v.obj(Problem, n_var=m), X, random_state=v.rng()), X, k, m)
    v.unchanged()


@proof("C10", "pymoo.operators.crossover.pntx.PointCrossover._do")
def points(v):
    k, m = v.dim("k"), v.dim("m", lo=4)
    X = v.array("X", (2, k, m))
    C = v.pick("points", pntx.SinglePointCrossover(), pntx.TwoPointCrossover())
    exchanged(v, v.call(C._do, v.obj(Problem, n_var=m), X, random_state=v.rng()), X, k, m)
    v.unchanged()
