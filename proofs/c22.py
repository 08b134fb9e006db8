"""C22: normalisation and denormalisation."""
import numpy as np
from vp.prove import proof
from pymoo.util import normalization as N

P = "pymoo.util.normalization."


def points(v, m, name="X"):
    """one point or a set of points"""
    if v.flag("one_point"):
        return v.array(name, (m,)), (m,)
    n = v.dim("n")
    return v.array(name, (n, m)), (n, m)


def some_bounds(v, m):
    """bounds of which any may be missing, the lower one not above the upper one"""
    lo, up = v.array("xl", (m,), may_be_nan=True), v.array("xu", (m,), may_be_nan=True)
    nl, nu = (lambda j: v.isnan(v.at(lo, j))), (lambda j: v.isnan(v.at(up, j)))
    v.assume_each((m,), lambda j: v.Or(nl(j), nu(j), v.le(v.at(lo, j), v.at(up, j))))
    return lo, up, nl, nu


@proof("C22", [P + "ZeroToOneNormalization.__init__", P + "ZeroToOneNormalization.forward"])
def forward(v):
    m = v.dim("m")
    lo, up, nl, nu = some_bounds(v, m)
    X, sh = points(v, m)
    o = v.call(N.ZeroToOneNormalization, lo, up)
    R = v.call(o.forward, X)
    v.same_shape(R, sh, "shape")

    def want(*ix):
        j, x, r = ix[-1], v.at(X, *ix), v.at(R, *ix)
        l, u = v.at(lo, j), v.at(up, j)
        both, flat = v.And(v.Not(nl(j)), v.Not(nu(j))), v.And(v.Not(nl(j)), v.Not(nu(j)), v.eq(l, u))
        return (v.implies(v.And(both, v.lt(l, u)), v.eq(v.mul(r, v.sub(u, l)), v.sub(x, l))),
                v.implies(v.And(v.Or(flat, v.And(v.Not(nl(j)), nu(j)))), v.eq(r, v.sub(x, l))),
                v.implies(v.And(nl(j), v.Not(nu(j))), v.eq(r, v.sub(1.0, v.sub(u, x)))),
                v.implies(v.And(nl(j), nu(j)), v.eq(r, x)))
    v.each(sh, want, "normalised value of every component")
    v.unchanged()


@proof("C22", [P + "ZeroToOneNormalization.forward", P + "ZeroToOneNormalization.backward"])
def there_and_back(v):
    m = v.dim("m")
    lo, up, nl, nu = some_bounds(v, m)
    X, sh = points(v, m)
    o = v.call(N.ZeroToOneNormalization, lo, up)
    R = v.call(o.backward, v.call(o.forward, X))
    v.same(R, X, "denormalising a normalised value gives it back")
    v.unchanged()


@proof("C22", [P + "ZeroToOneNormalization.forward", P + "ZeroToOneNormalization.backward"])
def back_and_there(v):
    m = v.dim("m")
    lo, up, nl, nu = some_bounds(v, m)
    X, sh = points(v, m)
    o = v.call(N.ZeroToOneNormalization, lo, up)
    R = v.call(o.forward, v.call(o.backward, X))
    v.same(R, X, "normalising a denormalised value gives it back")
    v.unchanged()


@proof("C22", P + "ZeroToOneNormalization.__init__")
def bounds_to_zero_and_one(v):
    m = v.dim("m")
    lo, up = v.bounds(m, strict=True)
    o = v.call(N.ZeroToOneNormalization, lo, up)
    v.same(v.call(o.forward, lo), np.zeros(1) if v.native and m == 1 else v.call(np.zeros, m), "lower bound becomes 0")
    v.same(v.call(o.forward, up), v.call(np.ones, m), "upper bound becomes 1")
    v.unchanged()


@proof("C22", [P + "ZeroToOneNormalization.__init__", P + "NoNormalization"])
def one_bound_or_none(v):
    m = v.dim("m")
    which = v.pick("given", "lower", "upper", "none", "off")
    b = v.array("b", (m,))
    X, sh = points(v, m)
    o = (v.call(N.NoNormalization) if which == "off" else
         v.call(N.ZeroToOneNormalization, b if which == "lower" else None, b if which == "upper" else None))
    R = v.call(o.forward, X)
    v.same_shape(R, sh, "shape")
    if which == "lower":
        v.each(sh, lambda *ix: v.eq(v.at(R, *ix), v.sub(v.at(X, *ix), v.at(b, ix[-1]))), "distance from the lower bound")
    elif which == "upper":
        v.each(sh, lambda *ix: v.eq(v.sub(1.0, v.at(R, *ix)), v.sub(v.at(b, ix[-1]), v.at(X, *ix))), "distance to the upper bound below one")
    else:
        v.same(R, X, "left as it is")
    v.same(v.call(o.backward, R), X, "inverse")
    v.unchanged()


@proof("C22", [P + "SimpleZeroToOneNormalization.__init__", P + "SimpleZeroToOneNormalization.forward", P + "SimpleZeroToOneNormalization.backward"])
def simple(v):
    m, n = v.dim("m"), v.dim("n")
    lo, up = v.bounds(m, strict=True)
    X = v.array("X", (n, m))
    o = v.call(N.SimpleZeroToOneNormalization, lo, up)
    R = v.call(o.forward, X)
    v.same_shape(R, (n, m), "shape")
    v.each((n, m), lambda i, j: v.eq(v.mul(v.at(R, i, j), v.sub(v.at(up, j), v.at(lo, j))), v.sub(v.at(X, i, j), v.at(lo, j))), "normalised value")
    v.same(v.call(o.backward, R), X, "inverse")
    v.unchanged()


@proof("C22", [P + "SimpleZeroToOneNormalization.forward"])
def simple_estimated(v):
    m, n = v.dim("m"), v.dim("n")
    X = v.array("X", (n, m))
    o = v.call(N.SimpleZeroToOneNormalization)
    R = v.call(o.forward, X)
    v.same_shape(R, (n, m), "shape")
    col = lambda j: (lambda i: v.at(X, i, j))
    v.each((m,), lambda j: v.eq(v.at(o.xl, j), v.least(n, col(j))), "estimated lower bound")
    v.each((m,), lambda j: v.eq(v.at(o.xu, j), v.most(n, col(j))), "estimated upper bound")
    v.each((n, m), lambda i, j: v.implies(v.lt(v.at(o.xl, j), v.at(o.xu, j)), v.eq(v.mul(v.at(R, i, j), v.sub(v.at(o.xu, j), v.at(o.xl, j))), v.sub(v.at(X, i, j), v.at(o.xl, j)))), "normalised value")
    v.each((n, m), lambda i, j: v.implies(v.eq(v.at(o.xl, j), v.at(o.xu, j)), v.eq(v.at(R, i, j), 0.0)), "no error where the range is empty")
    v.unchanged()


@proof("C22", P + "normalize")
def normalize(v):
    m, n = v.dim("m"), v.dim("n")
    X = v.array("X", (n, m))
    mode = v.pick("bounds", "arrays", "numbers", "estimated")
    col = lambda j: (lambda i: v.at(X, i, j))
    if mode == "arrays":
        a, b = v.bounds(m)
        lo, up = (lambda j: v.at(a, j)), (lambda j: v.at(b, j))
        R, l, u = v.call(N.normalize, X, a, b, return_bounds=True)
    elif mode == "numbers":
        R, l, u = v.call(N.normalize, X, 2.0, 7, return_bounds=True)
        lo, up = (lambda j: 2.0), (lambda j: 7.0)
    else:
        R, l, u = v.call(N.normalize, X, return_bounds=True)
        lo, up = (lambda j: v.least(n, col(j))), (lambda j: v.most(n, col(j)))
    v.same_shape(R, (n, m), "shape")
    v.each((n, m), lambda i, j: (v.implies(v.lt(lo(j), up(j)), v.eq(v.mul(v.at(R, i, j), v.sub(up(j), lo(j))), v.sub(v.at(X, i, j), lo(j)))),
                                 v.implies(v.eq(lo(j), up(j)), v.eq(v.at(R, i, j), v.sub(v.at(X, i, j), lo(j))))), "normalised value")
    v.each((m,), lambda j: v.eq(v.at(l, j), lo(j)), "bounds used")
    v.each((m,), lambda j: v.implies(v.lt(lo(j), up(j)), v.eq(v.at(u, j), up(j))), "bounds used")
    if mode == "estimated":
        v.each((n, m), lambda i, j: v.And(v.le(0.0, v.at(R, i, j)), v.le(v.at(R, i, j), 1.0)), "within 0 and 1")
    v.same(v.call(N.denormalize, R, l, u), X, "denormalize is the inverse")
    v.unchanged()


@proof("C22", [P + "standardize", P + "destandardize"])
def standardize(v):
    m, n = v.dim("m"), v.dim("n", lo=2)
    X = v.array("X", (n, m))
    R, mean, std = v.call(N.standardize, X, return_bounds=True)
    v.same_shape(R, (n, m), "shape")
    mu = lambda j: v.div(v.total(n, lambda i: v.at(X, i, j)), n)

    def dev(j):
        c = mu(j)
        def t(i):
            d = v.sub(v.at(X, i, j), c)
            return v.mul(d, d)
        return v.sqrt(v.div(v.total(n, t), n))
    v.each((m,), lambda j: v.eq(v.at(mean, j), mu(j)), "mean")
    v.each((m,), lambda j: v.eq(v.at(std, j), dev(j)), "standard deviation")
    v.each((n, m), lambda i, j: v.implies(v.lt(0.0, v.at(std, j)), v.eq(v.mul(v.at(R, i, j), v.at(std, j)), v.sub(v.at(X, i, j), v.at(mean, j)))), "distance from the mean in standard deviations")
    B = v.call(N.destandardize, R, mean, std)
    v.same_shape(B, (n, m), "shape")
    v.each((n, m), lambda i, j: v.implies(v.lt(0.0, v.at(std, j)), v.eq(v.at(B, i, j), v.at(X, i, j))), "destandardize is the inverse")
    v.unchanged()


@proof("C22", [P + "PreNormalization.__init__"])
def pre_normalization(v):
    m, n = v.dim("m"), v.dim("n")
    lo, up = v.bounds(m, strict=True)
    X = v.array("X", (n, m))
    on = v.flag("zero_to_one")
    o = v.call(N.PreNormalization, zero_to_one=on, ideal=lo, nadir=up)
    R = v.call(o.normalization.forward, X)
    v.same_shape(R, (n, m), "shape")
    v.each((n, m), lambda i, j: v.eq(v.at(R, i, j), v.div(v.sub(v.at(X, i, j), v.at(lo, j)), v.sub(v.at(up, j), v.at(lo, j))) if on else v.at(X, i, j)), "normalised exactly when asked to")
    v.each((m,), lambda j: (v.eq(v.at(o.ideal, j), 0.0 if on else v.at(lo, j)), v.eq(v.at(o.nadir, j), 1.0 if on else v.at(up, j))), "the bounds become 0 and 1")
    v.unchanged()


@proof("C22", P + "find_ideal")
def ideal(v):
    m, n = v.dim("m"), v.dim("n")
    F = v.array("F", (n, m))
    cur = v.array("current", (m,)) if v.flag("known") else None
    R = v.call(N.find_ideal, F, cur)
    v.same_shape(R, (m,), "shape")
    v.each((m,), lambda j: (lambda b: v.eq(v.at(R, j), b if cur is None else v.min(b, v.at(cur, j))))(v.least(n, lambda i: v.at(F, i, j))), "best value per objective, never worse than before")
    v.unchanged()
