"""C23: reference directions."""
import sys
import numpy as np
from vp.prove import proof
from pymoo.util import reference_direction as RD
from pymoo.util.ref_dirs import misc

P = "pymoo.util.reference_direction."


def directions(v, name, n, m):
    W = v.array(name, (n, m))
    v.assume_each((n, m), lambda i, j: v.le(0, v.at(W, i, j)))
    v.assume_each((n,), lambda i: v.eq(v.total(m, lambda j: v.at(W, i, j)), 1))
    return W


def on_simplex(v, R, n, m):
    v.same_shape(R, (n, m), "one direction per row")
    v.each((n, m), lambda i, j: v.le(0, v.at(R, i, j)), "no negative component")
    v.each((n,), lambda i: v.eq(v.total(m, lambda j: v.at(R, i, j)), 1), "components sum to one")


@proof("C23", P + "scale_reference_directions")
def scaling(v):
    n, m = v.dim("n"), v.dim("m")
    W = directions(v, "W", n, m)
    s = v.scalar("scaling")
    v.requires(v.le(0, s)); v.requires(v.le(s, 1))
    R = v.call(RD.scale_reference_directions, W, s)
    on_simplex(v, R, n, m)
    v.each((n, m), lambda i, j: v.eq(v.sub(v.at(R, i, j), v.div(1, m)), v.mul(s, v.sub(v.at(W, i, j), v.div(1, m)))), "moved toward the centre by the factor")
    v.unchanged()


@proof("C23", P + "map_onto_unit_simplex")
def by_sum(v):
    n, m = v.dim("n"), v.dim("m")
    X = v.array("X", (n, m))
    v.assume_each((n, m), lambda i, j: v.le(0, v.at(X, i, j)))
    v.assume_each((n,), lambda i: v.lt(0, v.total(m, lambda j: v.at(X, i, j))))
    R = v.call(RD.map_onto_unit_simplex, X, "sum")
    on_simplex(v, R, n, m)
    v.unchanged()


@proof("C23", P + "map_onto_unit_simplex")
def kraemer(v):
    n, m = v.dim("n"), v.dim("m", 2)
    X = v.array("X", (n, m))
    v.assume_each((n, m), lambda i, j: v.And(v.le(0, v.at(X, i, j)), v.lt(v.at(X, i, j), 1)))
    R = v.call(RD.map_onto_unit_simplex, X, "kraemer")
    on_simplex(v, R, n, m)
    v.unchanged()


@proof("C23", "pymoo.util.ref_dirs.misc.project_onto_sum_equals_one_plane")
def onto_plane(v):
    n, m = v.dim("n"), v.dim("m")
    X = v.array("X", (n, m))
    R = v.call(misc.project_onto_sum_equals_one_plane, X)
    v.same_shape(R, (n, m), "shape")
    v.each((n,), lambda i: v.eq(v.total(m, lambda j: v.at(R, i, j)), 1), "components sum to one")
    v.each((n, m), lambda i, j: v.eq(v.sub(v.at(R, i, j), v.at(X, i, j)), v.sub(v.at(R, i, 0), v.at(X, i, 0))), "moved along the normal")
    v.unchanged()


@proof("C23", "pymoo.util.ref_dirs.misc.project_onto_sum_equals_zero_plane")
def onto_zero_plane(v):
    n, m = v.dim("n"), v.dim("m")
    X = v.array("X", (n, m))
    R = v.call(misc.project_onto_sum_equals_zero_plane, X)
    v.same_shape(R, (n, m), "shape")
    v.each((n,), lambda i: v.eq(v.total(m, lambda j: v.at(R, i, j)), 0), "components sum to zero")
    v.unchanged()


@proof("C23", P + "das_dennis_recursion", native=False)
def recursion(v):
    """one level of the recursion: a call with the first `depth` components set and `beta` partitions left appends, for the last
    component, one direction with all that is left; otherwise it makes one call for every number of partitions 0..beta the component
    can take, in increasing order, leaving the rest.  By induction over the components the directions are all compositions of
    n_partitions into n_dim parts, each once."""
    p, beta, m, depth = v.dim("n_partitions"), v.dim("beta", 0), v.dim("m", 1), v.dim("depth", 0)
    v.requires(v.le(beta, p)); v.requires(v.lt(depth, m))
    row = v.array("ref_dir", (m,))
    old = v.old(row)
    seen = []

    def inner(v, ref_dirs, ref_dir, n_partitions, left, d):
        v.ensures(v.And(v.eq(n_partitions, p), v.eq(d, v.add(depth, 1)), v.lt(d, m), v.le(0, left), v.le(left, beta)), "the next component of the same direction")
        v.ensures(ref_dir is not row, "the callee owns the direction it appends")
        v.each((depth,), lambda j: v.eq(v.at(ref_dir, j), v.at(old, j)), "components set before are kept")
        v.ensures(v.eq(v.mul(v.at(ref_dir, depth), p), v.sub(beta, left)), "the component is a multiple of one over the partitions and the rest is left")
        v.append(ref_dirs, left)
    v.use(RD.das_dennis_recursion, inner, recursive=True)
    v.call(RD.das_dennis_recursion, seen, row, p, beta, depth)
    k = v.len(seen)
    if v.holds(v.eq(depth, v.sub(m, 1))):
        v.ensures(v.eq(k, 1), "one direction")
        R = v.call(np.concatenate, seen, axis=0)
        v.same_shape(R, (1, m), "a row")
        v.each((depth,), lambda j: v.eq(v.at(R, 0, j), v.at(old, j)), "components set before are kept")
        v.ensures(v.eq(v.mul(v.at(R, 0, depth), p), beta), "everything left goes to the last component")
    else:
        v.ensures(v.eq(k, v.add(beta, 1)), "one call for every value of the component")
        R = v.call(np.array, seen)
        v.each((k,), lambda i: v.eq(v.at(R, i), v.sub(beta, i)), "each value once, in increasing order")


@proof("C23", P + "das_dennis", native=False)
def uniform(v):
    p, m = v.dim("n_partitions", 0), v.dim("m")
    K = v.dim("K")
    W = directions(v, "W", K, m)

    def rec(v, ref_dirs, ref_dir, n_partitions, beta, depth):
        v.same_shape(ref_dir, (m,), "one component per dimension")
        v.ensures(v.And(v.eq(n_partitions, p), v.eq(beta, p), v.eq(depth, 0)), "all partitions are to be distributed, from the first component on")
        v.ensures(len(ref_dirs) == 0, "into an empty list")
        ref_dirs.append(W)
    v.use(RD.das_dennis_recursion, rec)
    R = v.call(RD.das_dennis, p, m)
    if v.holds(v.eq(p, 0)):
        on_simplex(v, R, 1, m)
        v.each((m,), lambda j: v.eq(v.at(R, 0, j), v.div(1, m)), "the centre")
    else:
        v.same(R, W, "the directions of the recursion")


class Given(RD.ReferenceDirectionFactory):
    """a construction of these directions"""

    def __init__(self, *args, given=None, **kwargs):
        super().__init__(*args, **kwargs)
        self.given = given

    def _do(self, random_state=None):
        return self.given


@proof("C23", P + "ReferenceDirectionFactory.do")
def factory(v):
    n, m = v.dim("n"), 3
    if v.flag("one_dimension"):
        R = v.call(v.call(Given, 1).do)
        v.same(R, np.array([[1.0]]), "one direction")
        return
    W = directions(v, "W", n, m)
    s = v.scalar("scaling", lo=0, hi=1) if v.flag("scaled") else None
    f = v.call(Given, m, scaling=s, lexsort=v.flag("lexsort"), given=(W, None) if v.flag("tuple") else W)
    R = v.call(f.do, random_state=v.rng())
    on_simplex(v, R, n, m)
    t = 1 if s is None else s
    moved = lambda i, j: v.add(v.mul(t, v.at(W, i, j)), v.div(v.sub(1, t), m))
    v.each((n,), lambda i: v.exists(n, lambda k: v.And(*[v.eq(v.at(R, k, j), moved(i, j)) for j in range(m)])), "every direction is returned")
    v.unchanged()


@proof("C23", P + "UniformReferenceDirectionFactory.__init__", native=False)
def number(v):
    """the number of points of a partition is given (its value is the binomial coefficient, checked at run time)"""
    m, want = v.dim("m"), v.dim("n_points")
    count = v.function("points", 2)
    v.use(RD.get_number_of_uniform_points, lambda v, p, d: count(p, d))
    closest = v.dim("closest", 0)
    v.use(RD.get_partition_closest_to_points, lambda v, k, d: closest)
    f = v.call(RD.UniformReferenceDirectionFactory, m, n_points=want, raises=Exception)
    met = v.eq(count(closest, m), want)
    if getattr(f, "cls", None) is not None:
        v.ensures(v.Not(met), "refused only when the number cannot be met")
    else:
        v.ensures(v.eq(count(f.n_partitions, m), want), "exactly the requested number")
