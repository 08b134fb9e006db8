"""C29: decision making."""
import numpy as np
from vp.prove import proof
from pymoo.core import decision_making as D
from pymoo.mcdm.pseudo_weights import PseudoWeights
from scipy.spatial import cKDTree


@proof("C29", ["pymoo.mcdm.pseudo_weights.PseudoWeights.__init__", "pymoo.mcdm.pseudo_weights.PseudoWeights._do"])
def pseudo_weights(v):
    n, m = v.dim("n"), v.dim("m")
    F, w = v.array("F", (n, m)), v.array("w", (m,))
    kw = {}
    if v.flag("given"):
        lo, hi = v.bounds(m, strict=True, names=("ideal", "nadir"))
        v.assume_each((n, m), lambda i, j: v.And(v.le(v.at(lo, j), v.at(F, i, j)), v.le(v.at(F, i, j), v.at(hi, j))))
        kw = dict(ideal=lo, nadir=hi)
        low, high = (lambda j: v.at(lo, j)), (lambda j: v.at(hi, j))
    else:
        low, high = (lambda j: v.least(n, lambda i: v.at(F, i, j))), (lambda j: v.most(n, lambda i: v.at(F, i, j)))
        v.assume_each((m,), lambda j: v.lt(low(j), high(j)))
    far = lambda i, j: v.div(v.sub(high(j), v.at(F, i, j)), v.sub(high(j), low(j)))
    all_far = lambda i: v.total(m, lambda j: far(i, j))
    v.assume_each((n,), lambda i: v.lt(0, all_far(i)))
    k, W = v.call(v.call(PseudoWeights, w, **kw)._do, F, return_pseudo_weights=True)
    v.same_shape(W, (n, m), "one weight per objective")
    v.each((n, m), lambda i, j: v.eq(v.at(W, i, j), v.div(far(i, j), all_far(i))), "share of the distance to the worst value")
    v.each((n, m), lambda i, j: v.le(0, v.at(W, i, j)), "non-negative")
    v.each((n,), lambda i: v.eq(v.total(m, lambda j: v.at(W, i, j)), 1), "sum to one")
    off = lambda i: v.total(m, lambda j: v.abs(v.sub(v.at(W, i, j), v.at(w, j))))
    v.ensures(v.And(v.le(0, k), v.lt(k, n)), "a solution")
    v.each((n,), lambda i: v.le(off(k), off(i)), "none is closer to the wanted weights")
    v.same(v.call(v.call(PseudoWeights, w, **kw)._do, F), k, "same choice without returning the weights")
    v.unchanged()


@proof("C29", ["pymoo.core.decision_making.NeighborFinder.__init__", "pymoo.core.decision_making.NeighborFinder.find"])
def along_the_front(v):
    n = v.dim("n")
    N = v.array("N", (n, 2))
    v.assume_each((n, n), lambda i, j: v.implies(v.ne(i, j), v.ne(v.at(N, i, 0), v.at(N, j, 0))))
    f = v.call(D.NeighborFinder, N)
    i = v.indices("i", (1,), n)
    i = v.at(i, 0)
    J = v.call(f.find, i)
    left = lambda a, b: v.lt(v.at(N, a, 0), v.at(N, b, 0))
    between = lambda a, c, b: v.And(left(a, c), left(c, b))
    for j in J:
        v.ensures(v.And(v.le(0, j), v.lt(j, n)), "a solution")
        if v.holds(left(j, i)):
            v.each((n,), lambda c: v.Not(between(j, c, i)), "the next one before it")
        else:
            v.lemma(left(i, j), "another solution")
            v.each((n,), lambda c: v.Not(between(i, c, j)), "the next one behind it")
    v.each((n,), lambda j: v.implies(left(j, i), v.Or(*[left(x, i) for x in J])), "one neighbour before")
    v.each((n,), lambda j: v.implies(left(i, j), v.Or(*[left(i, x) for x in J])), "one neighbour behind")
    v.ensures(v.And(*[v.ne(x, y) for p, x in enumerate(J) for y in J[:p]]), "each once")
    v.unchanged()


def distances(v, N, x):
    """of all rows to x"""
    n, m = v.shape(N)
    far = lambda j: v.sqrt(v.total(m, lambda d: v.mul(v.sub(v.at(N, j, d), v.at(x, d)), v.sub(v.at(N, j, d), v.at(x, d)))))
    if v.native:
        return far
    A = v.some_array((n,), "f", lambda j, t: v.eq(t, far(j)))
    return lambda j: v.at(A, j)


class Rows:
    def __init__(self, rows):
        self.rows = rows

    def tolist(self):
        return self.rows


class Tree:
    """what scipy's cKDTree is documented to return for one point"""

    def __init__(self, v, N, x, far):
        self.v, self.N, self.x, self.dist = v, N, x, far

    def far(self, X):
        v, N = self.v, self.N
        v.ensures(v.eq(v.len(X), 1), "one point")
        x = X[0]
        v.each((v.shape(N)[1],), lambda d: v.eq(v.at(x, d), v.at(self.x, d)), "the point asked for")
        return self.dist

    def listed(self, wanted):
        """a list of solutions without repetition"""
        v, n = self.v, self.v.shape(self.N)[0]
        place, k = v.uf("place_%s" % wanted, 1), v.any("i")
        v.given(v.le(0, k))
        L = v.sequence(k, v.uf("item_%s" % wanted, 1, inverse=place))
        v.assume_each((k,), lambda p: v.And(v.le(0, v.item(L, p)), v.lt(v.item(L, p), n), v.eq(place(v.item(L, p)), p)))
        return L, k, lambda j: v.And(v.le(0, place(j)), v.lt(place(j), k), v.eq(v.item(L, place(j)), j))

    def query_ball_point(self, X, r):
        v, n, far = self.v, self.v.shape(self.N)[0], self.far(X)
        L, k, listed = self.listed("ball")
        v.assume_each((k,), lambda p: v.le(far(v.item(L, p)), r))
        v.assume_each((n,), lambda j: v.implies(v.le(far(j), r), listed(j)))
        v.given(v.eq(k, v.total(n, lambda j: v.ite(v.le(far(j), r), 1, 0), "i")))
        return Rows([L])

    def query(self, X, k):
        v, n, far = self.v, self.v.shape(self.N)[0], self.far(X)
        v.ensures(v.And(v.le(1, k), v.le(k, n)), "no more than there are")
        L, n_found, listed = self.listed("nearest")
        v.given(v.eq(n_found, k))
        v.assume_each((k, n), lambda p, j: v.Or(listed(j), v.le(far(v.item(L, p)), far(j))))
        return None, Rows([L])


@proof("C29", ["pymoo.core.decision_making.NeighborFinder.__init__", "pymoo.core.decision_making.NeighborFinder.find"])
def neighbourhood(v):
    n, m = v.dim("n", 2), v.dim("m", 2)
    N = v.array("N", (n, m))
    mode = v.pick("mode", "radius", "at_least", "auto", "number")
    eps, least, kw = v.scalar("eps", lo=0), 0, {}
    if mode == "number":
        k = v.dim("k")
        v.requires(v.lt(k, n))
        kw = dict(epsilon=None, n_neighbors=k)
    else:
        kw = dict(epsilon=eps)
        if mode == "at_least":
            least = v.dim("least")
            kw["n_min_neigbors"] = least
        if mode == "auto":
            least, kw["n_min_neigbors"] = v.mul(2, m), "auto"
        least = v.min(least, v.sub(n, 1))
    i = v.at(v.indices("i", (1,), n), 0)
    far = distances(v, N, v.row(N, i))
    v.use(D.cKDTree, lambda v, data: Tree(v, data, v.row(N, i), far))
    f = v.call(D.NeighborFinder, N, consider_2d=False, **kw)
    R = v.call(f.find, i)
    r = v.len(R)
    found = lambda j: v.exists(r, lambda p: v.eq(v.item(R, p), j))
    v.each((r,), lambda p: v.And(v.le(0, v.item(R, p)), v.lt(v.item(R, p), n)), "solutions")
    v.each((r, r), lambda p, q: v.implies(v.lt(p, q), v.ne(v.item(R, p), v.item(R, q))), "each once")
    inside = lambda j: v.le(far(j), eps)
    if mode != "number" and v.holds(v.le(least, v.total(n, lambda j: v.ite(inside(j), 1, 0), "i"))):
        v.each((r,), lambda p: inside(v.item(R, p)), "only those within the distance")
        v.each((n,), lambda j: v.implies(inside(j), found(j)), "all within the distance")
    else:
        v.ensures(v.eq(r, v.add(k if mode == "number" else least, 1)), "itself and as many as stated")
        v.each((r, n), lambda p, j: v.Or(found(j), v.le(far(v.item(R, p)), far(j))), "the nearest ones")
    v.unchanged()


@proof("C29", "pymoo.core.decision_making.find_outliers_upper_tail")
def upper_tail(v):
    n = v.dim("n")
    mu = v.array("mu", (n,))
    mean = v.div(v.total(n, lambda i: v.at(mu, i)), n)
    sigma = v.sqrt(v.div(v.total(n, lambda i: v.mul(v.sub(v.at(mu, i), mean), v.sub(v.at(mu, i), mean))), n))
    v.requires(v.lt(1e-9 if v.native else 0, sigma))
    above = lambda i: v.div(v.sub(v.at(mu, i), mean), sigma)
    S = v.call(D.find_outliers_upper_tail, mu)
    outlier = lambda i: v.le(2, above(i))
    if S is None:
        v.each((n,), lambda i: v.le(above(i), 1), "nothing stands out")
    else:
        k = v.shape(S)[0]
        v.ensures(v.le(1, k), "something stands out")
        v.each((k,), lambda p: v.And(v.le(0, v.at(S, p)), v.lt(v.at(S, p), n)), "solutions")
        if v.holds(v.exists(n, outlier)):
            v.each((k,), lambda p: outlier(v.at(S, p)), "only outliers")
            v.each((n,), lambda i: v.implies(outlier(i), v.exists(k, lambda p: v.eq(v.at(S, p), i))), "all outliers")
        else:
            v.ensures(v.eq(k, 1), "one")
            v.ensures(v.lt(1, above(v.at(S, 0))), "more than a standard deviation above the mean")
            v.each((n,), lambda i: v.le(v.at(mu, i), v.at(mu, v.at(S, 0))), "the largest")
    v.unchanged()
