"""C20: scalarising functions."""
import numpy as np
from vp.prove import proof
from pymoo.decomposition.weighted_sum import WeightedSum
from pymoo.decomposition.tchebicheff import Tchebicheff
from pymoo.decomposition.asf import ASF
from pymoo.decomposition.aasf import AASF
from pymoo.decomposition.pbi import PBI
from pymoo.decomposition.perp_dist import PerpendicularDistance
from pymoo.decomposition.util import calc_distance_to_weights
from pymoo.functions.standard.decomposition import calc_distance_to_weights as standard

D = "pymoo.core.decomposition.Decomposition.do"


def greatest(v, R, m, f):
    """R is the largest of f(0), ..., f(m-1)"""
    return v.And(v.forall(m, lambda j: v.le(f(j), R)), v.exists(m, lambda j: v.eq(f(j), R)))


def inputs(v, form, positive=False):
    n, k, m = v.dim("n"), v.dim("k"), v.dim("m")
    pos = (lambda x: v.lt(0, x)) if positive else None
    if form == "one_to_one":
        F, W = v.array("F", (n, m)), v.array("W", (n, m), where=pos)
    elif form == "one_to_many":
        F, W = v.array("F", (m,)), v.array("W", (k, m), where=pos)
    elif form == "many_to_one":
        F, W = v.array("F", (n, m)), v.array("W", (m,), where=pos)
    else:
        F, W = v.array("F", (n, m)), v.array("W", (k, m), where=pos)
    return n, k, m, F, W


def positions(v, form, n, k, m, F, W, R, check, label):
    """check(value, f, w) at every position of the result: f and w are the point and weight vector it belongs to"""
    f = lambda i: (lambda j: v.at(F, i, j))
    w = lambda i: (lambda j: v.at(W, i, j))
    if form == "one_to_one":
        v.same_shape(R, (n,), "one value per pair")
        v.each((n,), lambda i: check(v.at(R, i), f(i), w(i)), label)
    elif form == "one_to_many":
        v.same_shape(R, (k,), "one value per weight vector")
        v.each((k,), lambda i: check(v.at(R, i), lambda j: v.at(F, j), w(i)), label)
    elif form == "many_to_one":
        v.same_shape(R, (n,), "one value per point")
        v.each((n,), lambda i: check(v.at(R, i), f(i), lambda j: v.at(W, j)), label)
    else:
        v.same_shape(R, (n, k), "one value per point and weight vector")
        v.each((n, k), lambda i, l: check(v.at(R, i, l), f(i), w(l)), label)


def make(cls, target, name, check, positive=False, obj=None):
    for form in ("one_to_one", "one_to_many", "many_to_one", "many_to_many"):
        def fn(v, form=form):
            n, k, m, F, W = inputs(v, form, positive)
            o = obj(v) if obj else cls()
            kw = {}
            z = lambda j: 0
            if v.flag("ideal_given"):
                kw["ideal_point"] = v.array("ideal", (m,))
                z = lambda j: v.sub(v.at(kw["ideal_point"], j), o.eps)
            else:
                z = lambda j: v.sub(0, o.eps)
            if v.flag("utopian_given"):
                kw["utopian_point"] = v.array("utopian", (m,))
                z = lambda j: v.at(kw["utopian_point"], j)
            # the form is recognised from the arguments unless the shapes leave it open
            t = form if v.flag("form_given") else "auto"
            if t == "auto":
                v.requires(v.lt(1, n))
                v.requires(v.lt(1, k))
                v.requires(v.lt(1, m))
                if form == "many_to_many":
                    v.requires(v.Not(v.eq(n, k)))
            R = v.call(o.do, F, W, _type=t, **kw)
            positions(v, form, n, k, m, F, W, R, lambda r, f, w: check(v, o, m, r, f, w, z), "value of the formula")
            v.unchanged()
        fn.__name__ = name + "_" + form
        proof("C20", [target, D])(fn)


make(WeightedSum, "pymoo.decomposition.weighted_sum.WeightedSum._do", "weighted_sum",
     lambda v, o, m, r, f, w, z: v.eq(r, v.total(m, lambda j: v.mul(f(j), w(j)))))
make(Tchebicheff, "pymoo.decomposition.tchebicheff.Tchebicheff._do", "tchebicheff",
     lambda v, o, m, r, f, w, z: greatest(v, r, m, lambda j: v.mul(v.abs(v.sub(f(j), z(j))), w(j))))
W0 = 1e-10
make(ASF, "pymoo.decomposition.asf.ASF._do", "asf",
     lambda v, o, m, r, f, w, z: greatest(v, r, m, lambda j: v.div(v.sub(f(j), z(j)), v.ite(v.eq(w(j), 0), W0, lambda: w(j)))))


def aasf(v, o, m, r, f, w, z):
    S = v.total(m, lambda j: v.div(v.sub(f(j), z(j)), v.max(w(j), 1e-12)))
    return greatest(v, v.sub(r, v.mul(o.rho, S)), m, lambda j: v.div(v.sub(f(j), z(j)), v.ite(v.eq(w(j), 0), W0, lambda: w(j))))


make(AASF, "pymoo.decomposition.aasf.AASF._do", "aasf", aasf, positive=True, obj=lambda v: AASF(rho=v.scalar("rho", lo=0)))


def along_and_away(v, m, g, w):
    """distance along and perpendicular to the weight vector"""
    l = v.sqrt(v.total(m, lambda j: v.mul(w(j), w(j))))
    d1 = v.div(v.total(m, lambda j: v.mul(g(j), w(j))), l)
    e = lambda j: v.sub(g(j), v.div(v.mul(d1, w(j)), l))
    return d1, v.sqrt(v.total(m, lambda j: v.mul(e(j), e(j))))


def pbi(v, o, m, r, f, w, z):
    d1, d2 = along_and_away(v, m, lambda j: v.sub(f(j), z(j)), w)
    return v.eq(r, v.add(d1, v.mul(o.theta, d2)))


make(PBI, "pymoo.decomposition.pbi.PBI._do", "pbi", pbi, positive=True, obj=lambda v: PBI(theta=v.scalar("theta", lo=0)))
make(PerpendicularDistance, "pymoo.decomposition.perp_dist.PerpendicularDistance._do", "perpendicular",
     lambda v, o, m, r, f, w, z: v.eq(r, along_and_away(v, m, lambda j: v.sub(f(j), z(j)), w)[1]), positive=True)


def distances(v, fn):
    n, m = v.dim("n"), v.dim("m")
    F, W = v.array("F", (n, m)), v.array("W", (n, m), where=lambda x: v.lt(0, x))
    z = lambda j: 0
    kw = {}
    if v.flag("utopian_given"):
        kw["utopian_point"] = v.array("utopian", (m,))
        z = lambda j: v.at(kw["utopian_point"], j)
    d1, d2 = v.call(fn, F, W, **kw)
    v.same_shape(d1, (n,), "one distance per pair")
    v.same_shape(d2, (n,), "one distance per pair")
    want = lambda i: along_and_away(v, m, lambda j: v.sub(v.at(F, i, j), z(j)), lambda j: v.at(W, i, j))
    v.each((n,), lambda i: v.eq(v.at(d1, i), want(i)[0]), "distance along the weight vector")
    v.each((n,), lambda i: v.eq(v.at(d2, i), want(i)[1]), "distance perpendicular to the weight vector")
    v.each((n,), lambda i: v.le(0, v.at(d2, i)), "the perpendicular distance is not negative")
    v.unchanged()


@proof("C20", "pymoo.decomposition.util.calc_distance_to_weights")
def distances_util(v):
    distances(v, calc_distance_to_weights)


@proof("C20", "pymoo.functions.standard.decomposition.calc_distance_to_weights")
def distances_standard(v):
    distances(v, standard)


# better in every objective is never worse in the scalarised value (weights not negative)
def monotone(cls, target, name, obj=None):
    def fn(v):
        n, m = v.dim("n", lo=2), v.dim("m", lo=2)
        F, w = v.array("F", (n, m)), v.array("w", (m,), where=lambda x: v.le(0, x))
        a, b = v.scalar("a", "i", lo=0), v.scalar("b", "i", lo=0)
        v.requires(v.And(v.lt(a, n), v.lt(b, n)))
        v.requires(v.forall(m, lambda j: v.le(v.at(F, a, j), v.at(F, b, j))))
        v.requires(v.forall(m, lambda j: v.le(0, v.at(F, a, j))))
        R = v.call((obj(v) if obj else cls()).do, F, w, _type="many_to_one")
        v.ensures(v.le(v.at(R, a), v.at(R, b)), "a point no worse in any objective has no worse value")
    fn.__name__ = name + "_monotone"
    proof("C20", [target, D])(fn)


monotone(WeightedSum, "pymoo.decomposition.weighted_sum.WeightedSum._do", "weighted_sum")
monotone(Tchebicheff, "pymoo.decomposition.tchebicheff.Tchebicheff._do", "tchebicheff")
monotone(ASF, "pymoo.decomposition.asf.ASF._do", "asf")
monotone(AASF, "pymoo.decomposition.aasf.AASF._do", "aasf", obj=lambda v: AASF(rho=v.scalar("rho", lo=0)))
