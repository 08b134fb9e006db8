"""C21: performance indicators."""
import numpy as np
from vp.prove import proof
from pymoo.indicators.gd import GD
from pymoo.indicators.gd_plus import GDPlus
from pymoo.indicators.igd import IGD
from pymoo.indicators.igd_plus import IGDPlus
from pymoo.indicators.epsilon import Epsilon, EpsilonMultiplicative
from pymoo.util.misc import vectorized_cdist
from pymoo.indicators import distance_indicator as DI

P = "pymoo.indicators."


def distance(v, m, plus, a, z, s):
    """from solution a to reference point z, every objective divided by s"""
    def t(j):
        d = v.sub(a(j), z(j))
        d = v.max(d, 0.0) if plus else d
        d = v.div(d, s(j))
        return v.mul(d, d)
    return v.sqrt(v.total(m, t))


def contract(cls, module, plus, inverted, mode):
    def fn(v):
        n, k, m = v.dim("n", lo=2), v.dim("k", lo=2), v.dim("m")
        F, R = v.array("F", (n, m)), v.array("R", (k, m))
        kw, s, shift = {}, (lambda j: 1), (lambda x, j: x)
        if mode != "plain":
            lo, up = v.bounds(m, strict=True, names=("ideal", "nadir"))
            width = lambda j: v.sub(v.at(up, j), v.at(lo, j))
            kw = dict(ideal=lo, nadir=up)
            if mode == "norm_by_dist":
                kw["norm_by_dist"], s = True, width
            else:
                kw["zero_to_one"] = True
                shift = lambda x, j: v.div(v.sub(x, v.at(lo, j)), width(j))
        o = v.call(cls, R, **kw)
        r = v.call(o.do, F)
        a = lambda i: (lambda j: shift(v.at(F, i, j), j))
        z = lambda i: (lambda j: shift(v.at(R, i, j), j))
        if inverted:
            want = v.div(v.total(k, lambda l: v.least(n, lambda i: distance(v, m, plus, a(i), z(l), s))), k)
        else:
            want = v.div(v.total(n, lambda i: v.least(k, lambda l: distance(v, m, plus, a(i), z(l), s))), n)
        v.ensures(v.eq(r, want), "mean of the smallest distances")
        v.ensures(v.le(0, r), "not negative")
        v.unchanged()
    fn.__name__ = cls.__name__.lower() + "_" + mode
    proof("C21", [P + module + "." + cls.__name__, P + "distance_indicator.DistanceIndicator._do"])(fn)


for cls, module, plus, inverted in ((GD, "gd", False, False), (GDPlus, "gd_plus", True, False), (IGD, "igd", False, True), (IGDPlus, "igd_plus", True, True)):
    for mode in ("plain", "norm_by_dist", "zero_to_one"):
        contract(cls, module, plus, inverted, mode)


def one_point(cls, module, mult):
    def fn(v):
        n, k, m = v.dim("n", lo=2), v.dim("k", lo=2), v.dim("m")
        pos = (lambda x: v.lt(0, x)) if mult else None
        F, R = v.array("F", (n, m), where=pos), v.array("R", (k, m), where=pos)
        r = v.call(v.call(cls, R).do, F)
        f = (lambda i, l, j: v.div(v.at(F, i, j), v.at(R, l, j))) if mult else (lambda i, l, j: v.sub(v.at(F, i, j), v.at(R, l, j)))
        v.ensures(v.eq(r, v.most(k, lambda l: v.least(n, lambda i: v.most(m, lambda j: f(i, l, j))))), "smallest shift or factor that covers the reference set")
        v.unchanged()
    fn.__name__ = cls.__name__.lower()
    proof("C21", [P + "epsilon." + cls.__name__])(fn)


one_point(Epsilon, "epsilon", False)
one_point(EpsilonMultiplicative, "epsilon", True)


@proof("C21", "pymoo.util.misc.vectorized_cdist")
def pairwise(v):
    n, k, m = v.dim("n", lo=2), v.dim("k", lo=2), v.dim("m")
    A, B = v.array("A", (n, m)), v.array("B", (k, m))
    D = v.call(vectorized_cdist, A, B, func_dist=DI.modified_distance, norm=1.0)
    v.same_shape(D, (n, k), "one distance per pair")
    # the first argument holds the reference points
    v.each((n, k), lambda i, l: v.eq(v.at(D, i, l), distance(v, m, True, lambda j: v.at(B, l, j), lambda j: v.at(A, i, j), lambda j: 1)), "distance of the pair")
    v.unchanged()


@proof("C21", "pymoo.indicators.distance_indicator.derive_ideal_and_nadir_from_pf")
def bounds_of_front(v):
    n, m = v.dim("n"), v.dim("m")
    F = v.array("F", (n, m))
    a, b = v.call(DI.derive_ideal_and_nadir_from_pf, F)
    v.each((m,), lambda j: v.And(v.forall(n, lambda i: v.le(v.at(a, j), v.at(F, i, j))), v.exists(n, lambda i: v.eq(v.at(a, j), v.at(F, i, j)))), "ideal point")
    v.each((m,), lambda j: v.And(v.forall(n, lambda i: v.le(v.at(F, i, j), v.at(b, j))), v.exists(n, lambda i: v.eq(v.at(b, j), v.at(F, i, j)))), "nadir point")
    v.unchanged()
