"""C17: crowding metrics."""
import numpy as np
from vp.prove import proof
from pymoo.operators.survival.rank_and_crowding import metrics as M

P = "pymoo.operators.survival.rank_and_crowding.metrics."


def objectives(v, n, m):
    """points that differ in an objective if not all of them have the same value there"""
    F = v.array("F", (n, m))
    flat = lambda j: v.forall(n, lambda i: v.eq(v.at(F, i, j), v.at(F, 0, j)))
    if v.native:
        G = np.array(F)
        for j in range(m):
            if not flat(j):
                v.requires(len(set(G[:, j])) == n)
        return F, flat, None, None
    flat = v.named("flat", (m,), flat)
    v.assume_each((m, n, n), lambda j, i, k: v.implies(v.And(v.Not(flat(j)), v.ne(i, k)), v.ne(v.at(F, i, j), v.at(F, k, j))))
    return F, flat


def neighbours(v, F, n, m):
    """the next smaller and the next larger value, where there is one"""
    if v.native:
        G = np.array(F)
        return (lambda i, j: max(x for x in G[:, j] if x < G[i, j])), (lambda i, j: min(x for x in G[:, j] if x > G[i, j]))
    down, up = v.uf("down", 2), v.uf("up", 2)
    left = lambda a, b, j: v.lt(v.at(F, a, j), v.at(F, b, j))
    v.assume_each((n, m, n), lambda i, j, k: v.implies(left(k, i, j), v.And(
        v.le(0, down(i, j)), v.lt(down(i, j), n), left(down(i, j), i, j), v.le(v.at(F, k, j), v.at(F, down(i, j), j)))))
    v.assume_each((n, m, n), lambda i, j, k: v.implies(left(i, k, j), v.And(
        v.le(0, up(i, j)), v.lt(up(i, j), n), left(i, up(i, j), j), v.le(v.at(F, up(i, j), j), v.at(F, k, j)))))
    return (lambda i, j: v.at(F, down(i, j), j)), (lambda i, j: v.at(F, up(i, j), j))


@proof("C17", P + "calc_crowding_distance")
def crowding_distance(v):
    n, m = v.dim("n"), v.dim("m")
    F, flat = objectives(v, n, m)[:2]
    before, after = neighbours(v, F, n, m)
    d = v.call(M.calc_crowding_distance, F)
    v.same_shape(d, (n,), "one value per point")
    low, high = (lambda j: v.least(n, lambda i: v.at(F, i, j))), (lambda j: v.most(n, lambda i: v.at(F, i, j)))
    extreme = lambda i, j: v.And(v.Not(flat(j)), v.Or(v.eq(v.at(F, i, j), low(j)), v.eq(v.at(F, i, j), high(j))))
    gap = lambda i, j: v.ite(v.Or(flat(j), extreme(i, j)), 0.0, lambda: v.add(*[v.div(x, v.sub(high(j), low(j))) for x in (v.sub(v.at(F, i, j), before(i, j)), v.sub(after(i, j), v.at(F, i, j)))]))
    v.each((n, m), lambda i, j: v.implies(extreme(i, j), v.eq(v.at(d, i), float("inf"))), "infinite at the extremes")
    v.each((n,), lambda i: v.implies(v.eq(v.at(d, i), float("inf")), v.exists(m, lambda j: extreme(i, j))), "infinite only at the extremes")
    v.each((n,), lambda i: v.Or(v.exists(m, lambda j: extreme(i, j)), v.eq(v.at(d, i), v.div(v.total(m, lambda j: gap(i, j)), m))), "average gap between the neighbours")
    v.unchanged()


@proof("C17", P + "calc_crowding_entropy")
def crowding_entropy(v):
    n, m = v.dim("n", 3), v.dim("m")
    F, flat = objectives(v, n, m)[:2]
    d = v.call(M.calc_crowding_entropy, F)
    v.same_shape(d, (n,), "one value per point")
    low, high = (lambda j: v.least(n, lambda i: v.at(F, i, j))), (lambda j: v.most(n, lambda i: v.at(F, i, j)))
    extreme = lambda i, j: v.And(v.Not(flat(j)), v.Or(v.eq(v.at(F, i, j), low(j)), v.eq(v.at(F, i, j), high(j))))
    v.each((n, m), lambda i, j: v.implies(extreme(i, j), v.eq(v.at(d, i), float("inf"))), "infinite at the extremes")
    v.each((n,), lambda i: v.implies(v.eq(v.at(d, i), float("inf")), v.exists(m, lambda j: extreme(i, j))), "infinite only at the extremes")
    v.unchanged()


class Metric:
    """any function of points"""

    def __init__(self, v):
        self.v = v

    def __call__(self, F, **kw):
        v = self.v
        self.F, self.kw = F, kw
        self.values = np.arange(1.0, len(F) + 1) if v.native else v.some_array((v.shape(F)[0],))
        return self.values


@proof("C17", [P + "CrowdingDiversity.do", P + "FunctionalDiversity._do", P + "FunctionalDiversity.__init__"])
def per_point(v):
    n, m = v.dim("n"), v.dim("m")
    F = v.array("F", (n, m))
    f, once, k = Metric(v), v.flag("repeated_points_out"), v.scalar("n_remove", "i", 0, 1000)
    d = v.call(v.call(M.FunctionalDiversity, f, filter_out_duplicates=once).do, F, n_remove=k)
    v.same_shape(d, (n,), "one value per point")
    if v.holds(v.le(n, 2)):
        v.each((n,), lambda i: v.eq(v.at(d, i), float("inf")), "two points are extreme")
    else:
        far = lambda i, j: v.sqrt(v.total(m, lambda l: v.mul(v.sub(v.at(F, i, l), v.at(F, j, l)), v.sub(v.at(F, i, l), v.at(F, j, l)))))
        again = lambda i: v.exists(n, lambda j: v.And(v.lt(j, i), v.le(far(i, j), 1e-32))) if once else False
        given = v.shape(f.F)[0]
        v.same(f.kw["n_remove"], k, "how many are to be removed is passed on")
        v.each((n,), lambda i: v.implies(again(i), v.eq(v.at(d, i), 0)), "repeated points get zero")
        v.each((n,), lambda i: v.Or(again(i), v.exists(given, lambda p: v.And(
            v.forall(m, lambda j: v.eq(v.at(f.F, p, j), v.at(F, i, j))), v.eq(v.at(d, i), v.at(f.values, p))))), "the others get the value of the metric")
    v.unchanged()
