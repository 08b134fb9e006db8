"""C13: duplicate elimination."""
import numpy as np
from vp.prove import proof
from pymoo.core import duplicate as DU
from pymoo.util.misc import find_duplicates

D = "pymoo.core.duplicate."


def dist(v, A, i, B, j, m):
    return v.sqrt(v.total(m, lambda l: (lambda t: v.mul(t, t))(v.sub(v.at(A, i, l), v.at(B, j, l)))))


def field(v, pop, key):
    return v.arr(pop.get(key) if v.native else v.call(v.getattr(pop, "get"), key))


@proof("C13", "pymoo.util.misc.find_duplicates")
def duplicates(v):
    n, m = v.dim("n"), v.dim("m")
    X = v.array("X", (n, m))
    eps = v.scalar("epsilon", lo=0)
    R = v.call(find_duplicates, X, epsilon=eps)
    v.same_shape(R, (n,), "one mark per row")
    v.each((n,), lambda i: v.iff(v.at(R, i), v.exists(n, lambda j: v.And(v.lt(j, i), v.le(dist(v, X, i, X, j, m), eps)))), "marked exactly when an earlier row is within the tolerance")
    v.unchanged()


@proof("C13", [D + "DefaultDuplicateElimination." + f for f in ("_do", "calc_dist")])
def default(v):
    n, m = v.dim("n"), v.dim("m")
    pop = v.population("pop", n, X=(m,))
    X = field(v, pop, "X")
    eps = v.scalar("epsilon", lo=0)
    e = v.call(DU.DefaultDuplicateElimination, epsilon=eps)
    mask = v.call(np.full, n, False)
    if v.flag("other"):
        k = v.dim("k")
        other = v.population("other", k, X=(m,))
        Y = field(v, other, "X")
        R = v.call(e._do, pop, other, mask)
        want = lambda i: v.exists(k, lambda j: v.le(dist(v, X, i, Y, j, m), eps))
    else:
        R = v.call(e._do, pop, None, mask)
        want = lambda i: v.exists(n, lambda j: v.And(v.lt(j, i), v.le(dist(v, X, i, X, j, m), eps)))
    v.same_shape(R, (n,), "one mark per solution")
    v.each((n,), lambda i: v.iff(v.at(R, i), want(i)), "marked exactly when within the tolerance of an earlier or another solution")
    v.unchanged()


def compared(v):
    """an arbitrary comparison of two solutions"""
    if v.native:
        return lambda a, b: float(abs(a.get("X")[0] - b.get("X")[0]) // .5), lambda x, y: float(abs(x - y) // .5)
    f = v.function("compare", 2)
    return (lambda a, b: f(v.at(v.call(v.getattr(a, "get"), "X"), 0), v.at(v.call(v.getattr(b, "get"), "X"), 0))), f


@proof("C13", D + "ElementwiseDuplicateElimination._do")
def elementwise(v):
    n = v.dim("n")
    pop = v.population("pop", n, X=(1,))
    X = field(v, pop, "X")
    eps = v.scalar("epsilon", lo=0)
    cmp, f = compared(v)
    e = v.call(DU.ElementwiseDuplicateElimination, cmp, epsilon=eps)
    mask = v.call(np.full, n, False)
    if v.flag("other"):
        k = v.dim("k")
        other = v.population("other", k, X=(1,))
        Y = field(v, other, "X")
        R = v.call(e._do, pop, other, mask)
        want = lambda i: v.exists(k, lambda j: v.le(f(v.at(X, i, 0), v.at(Y, j, 0)), eps))
    else:
        R = v.call(e._do, pop, None, mask)
        want = lambda i: v.exists(n, lambda j: v.And(v.lt(j, i), v.le(f(v.at(X, j, 0), v.at(X, i, 0)), eps)))
    v.each((n,), lambda i: v.iff(v.at(R, i), want(i)), "marked exactly when the comparison says it equals an earlier or another solution")


class Marks(DU.DuplicateElimination):
    """an elimination marking these"""

    def __init__(self, masks):
        super().__init__()
        self.masks = masks
        self.seen = []

    def _do(self, pop, other, is_duplicate):
        self.seen.append((pop, other))
        return self.masks(len(self.seen) - 1, pop)


@proof("C13", D + "DuplicateElimination.do")
def elimination(v):
    """what is left is what was not marked, in the same order, each time against the solutions still kept"""
    n = v.dim("n")
    pop = v.population("pop", n, X=(1,))
    v.individuals(pop)
    mark = v.array("mark", (n,), "b")
    e = v.call(Marks, lambda k, p: mark)
    if v.flag("indices"):
        R, keep, drop = v.call(e.do, pop, return_indices=True)
        k, d = v.len(keep), v.len(drop)
        keep, drop = v.call(np.array, keep), v.call(np.array, drop)
        v.each((n,), lambda i: v.implies(v.Not(v.at(mark, i)), v.exists(k, lambda a: v.eq(v.at(keep, a), i))), "kept when not marked")
        v.each((n,), lambda i: v.implies(v.at(mark, i), v.exists(d, lambda a: v.eq(v.at(drop, a), i))), "dropped when marked")
        v.each((k,), lambda a: v.Not(v.at(mark, v.at(keep, a))), "nothing marked is kept")
        v.each((d,), lambda a: v.at(mark, v.at(drop, a)), "nothing unmarked is dropped")
    else:
        R = v.call(e.do, pop)
    A, B = v.individuals(pop), v.individuals(R)
    r = v.shape(B)[0]
    v.each((r,), lambda a: v.exists(n, lambda i: v.And(v.Not(v.at(mark, i)), v.eq(v.at(A, i), v.at(B, a)))), "nothing marked is returned")
    v.each((n,), lambda i: v.implies(v.Not(v.at(mark, i)), v.exists(r, lambda a: v.eq(v.at(A, i), v.at(B, a)))), "everything not marked is returned")
    v.each((r, r), lambda a, b: v.implies(v.lt(a, b), v.lt(v.at(B, a), v.at(B, b))), "in the same order, each once")


@proof("C13", D + "DuplicateElimination.do")
def elimination_of_others(v):
    """against itself and other populations: left is what was marked by no round"""
    n = v.dim("n")
    pop = v.population("pop", n, a=((), "b"), b=((), "b"), c=((), "b"))
    itself = v.flag("to_itself")
    keys = (["a"] if itself else []) + ["b", "c"]
    marks = [field(v, pop, k) for k in keys]
    o1, o2 = v.population("first", v.dim("n1")), v.population("second", v.dim("n2"))
    nothing = v.population("none", 0)
    e = v.call(Marks, lambda k, p: field(v, p, keys[k]))
    R = v.call(e.do, pop, o1, nothing, o2, to_itself=itself)
    A, B = v.individuals(pop), v.individuals(R)
    r = v.shape(B)[0]
    any_ = lambda i: v.Or(*[v.at(m, i) for m in marks])
    v.each((r,), lambda a: v.exists(n, lambda i: v.And(v.Not(any_(i)), v.eq(v.at(A, i), v.at(B, a)))), "nothing marked is returned")
    v.each((n,), lambda i: v.implies(v.Not(any_(i)), v.exists(r, lambda a: v.eq(v.at(A, i), v.at(B, a)))), "everything not marked is returned")
    v.each((r, r), lambda a, b: v.implies(v.lt(a, b), v.lt(v.at(B, a), v.at(B, b))), "in the same order, each once")
    asked = ([None] if itself else []) + [o1, o2]
    v.ensures(len(e.seen) <= len(asked) and all(x[1] is y for x, y in zip(e.seen, asked)), "compared with itself, then with every other that is not empty")
