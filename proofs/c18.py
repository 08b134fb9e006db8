"""C18: reference-direction niching."""
import numpy as np
from vp.prove import proof
from pymoo.algorithms.moo import nsga3
from pymoo.functions.standard.calc_perpendicular_distance import calc_perpendicular_distance

P = "pymoo.algorithms.moo.nsga3."


@proof("C18", P + "calc_niche_count")
def niche_count(v):
    n, k = v.dim("n"), v.dim("k")
    I = v.indices("I", (n,), k)
    R = v.call(nsga3.calc_niche_count, k, I)
    v.same_shape(R, (k,), "one count per niche")
    v.each((k,), lambda j: v.eq(v.at(R, j), v.total(n, lambda i: v.ite(v.eq(v.at(I, i), j), 1, 0), "i")), "number of members associated with the niche")
    v.unchanged()


@proof("C18", P + "associate_to_niches")
def associate(v):
    # which direction is the closest does not depend on how the distance is measured
    v.use(calc_perpendicular_distance, lambda v, N, W: v.some_array((v.shape(N)[0], v.shape(W)[0])))
    n, m, k = v.dim("n"), v.dim("m"), v.dim("k")
    F, W = v.array("F", (n, m)), v.array("W", (k, m))
    v.assume_each((k,), lambda j: v.exists(m, lambda l: v.lt(0, v.at(W, j, l))))
    ideal, nadir = v.bounds(m, strict=True, names=("ideal", "nadir"))
    I, d, D = v.call(nsga3.associate_to_niches, F, W, ideal, nadir)
    v.same_shape(I, (n,), "one niche per point")
    v.same_shape(d, (n,), "one distance per point")
    v.same_shape(D, (n, k), "distance of every point to every direction")
    v.each((n,), lambda i: v.And(v.le(0, v.at(I, i)), v.lt(v.at(I, i), k)), "niche is a direction")
    v.each((n, k), lambda i, j: v.le(v.at(d, i), v.at(D, i, j)), "associated with the closest direction")
    v.each((n,), lambda i: v.eq(v.at(d, i), v.at(D, i, v.at(I, i))), "distance to its direction")
    v.unchanged()


@proof("C18", "pymoo.functions.standard.calc_perpendicular_distance.calc_perpendicular_distance")
def perpendicular(v):
    n, m, k = v.dim("n"), v.dim("m"), v.dim("k")
    F, W = v.array("F", (n, m)), v.array("W", (k, m))
    norm = lambda j: v.sqrt(v.total(m, lambda l: v.mul(v.at(W, j, l), v.at(W, j, l))))
    v.assume_each((k,), lambda j: v.lt(0, norm(j)))
    D = v.call(calc_perpendicular_distance, F, W)
    v.same_shape(D, (n, k), "distance of every point to every direction")

    def want(i, j):
        t = v.div(v.total(m, lambda l: v.mul(v.at(F, i, l), v.at(W, j, l))), norm(j))
        off = lambda l: v.sub(v.div(v.mul(t, v.at(W, j, l)), norm(j)), v.at(F, i, l))
        return v.eq(v.at(D, i, j), v.sqrt(v.total(m, lambda l: v.mul(off(l), off(l)))))
    v.each((n, k), want, "distance from the point to its projection on the direction")
    v.unchanged()


@proof("C18", P + "get_extreme_points_c")
def extreme_points(v):
    n, m = v.dim("n"), v.dim("m")
    F, ideal = v.array("F", (n, m)), v.array("ideal", (m,))
    old = v.array("old", (v.dim("k"), m)) if v.flag("old_points") else None
    R = v.call(nsga3.get_extreme_points_c, F, ideal, extreme_points=old)
    v.same_shape(R, (m, m), "one extreme point per objective")
    k = 0 if old is None else v.shape(old)[0]
    gap = lambda x, l: v.ite(v.lt(v.sub(x(l), v.at(ideal, l)), 1e-3), 0.0, lambda: v.sub(x(l), v.at(ideal, l)))
    asf = lambda x, j: v.most(m, lambda l: v.mul(gap(x, l), v.ite(v.eq(l, j), 1.0, 1e6)))
    row = lambda q: (lambda l: v.at(F, q, l)) if old is None else (lambda l: v.ite(v.lt(q, k), lambda: v.at(old, q, l), lambda: v.at(F, v.sub(q, k), l)))
    v.each((m, v.add(k, n)), lambda j, q: v.le(asf(lambda l: v.at(R, j, l), j), asf(row(q), j)), "no point, nor an extreme point of earlier, has a smaller achievement value than the extreme point")
    same = lambda j, A, i: v.forall(m, lambda l: v.eq(v.at(R, j, l), v.at(A, i, l)))
    v.each((m,), lambda j: v.Or(v.exists(n, lambda i: same(j, F, i)), False if old is None else v.exists(k, lambda i: same(j, old, i))), "extreme points are points of the set")
    v.unchanged()
