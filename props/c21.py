import numpy as np
from vp.rt import contract
from vp import oracle as O


def unit(Z, lo, hi):
    s = np.where(hi == lo, np.nan, hi - lo)
    with np.errstate(all="ignore"):
        N = (Z - lo) / s
    k = hi == lo
    N[..., k] = (Z - lo)[..., k]
    return N


def euclid(a, z):
    return float(np.sqrt(sum((x - y) ** 2 for x, y in zip(a, z))))


def plus(a, z):
    return float(np.sqrt(sum(max(x - y, 0.0) ** 2 for x, y in zip(a, z))))


def definition(name, F, R):
    if name == "gd":
        return np.mean([min(euclid(a, z) for z in R) for a in F])
    if name == "igd":
        return np.mean([min(euclid(a, z) for a in F) for z in R])
    if name == "gd+":
        return np.mean([min(plus(a, z) for z in R) for a in F])
    if name == "igd+":
        return np.mean([min(plus(a, z) for a in F) for z in R])
    if name == "eps":
        return max(min(max(x - y for x, y in zip(a, z)) for a in F) for z in R)
    if name == "epsm":
        return max(min(max(x / y for x, y in zip(a, z)) for a in F) for z in R)
    if name == "spacing":
        d = [min(sum(abs(x - y) for x, y in zip(F[i], F[j])) for j in range(len(F)) if j != i) for i in range(len(F))]
        return np.sqrt(np.mean([(v - np.mean(d)) ** 2 for v in d]))


def cls(name):
    if name == "gd":
        from pymoo.indicators.gd import GD as K
    elif name == "igd":
        from pymoo.indicators.igd import IGD as K
    elif name == "gd+":
        from pymoo.indicators.gd_plus import GDPlus as K
    elif name == "igd+":
        from pymoo.indicators.igd_plus import IGDPlus as K
    elif name == "eps":
        from pymoo.indicators.epsilon import Epsilon as K
    elif name == "epsm":
        from pymoo.indicators.epsilon import EpsilonMultiplicative as K
    elif name == "spacing":
        from pymoo.indicators.spacing import SpacingIndicator as K
    return K


@contract("C21", n=3500, target="pymoo.indicators.distance_indicator.DistanceIndicator, pymoo.indicators")
def values(c):
    name = c.pick("gd", "igd", "gd+", "igd+", "eps", "epsm", "spacing")
    m = c.pick(2, 2, 3, 4)
    F, R = c.points(c.int(2 if name == "spacing" else 1, 8), m), c.points(c.int(1, 8), m)
    if name == "epsm":
        F, R = np.abs(F) + 0.1, np.abs(R) + 0.1
    if c.chance(0.2) and len(R) >= 1:
        F = np.vstack([F, R[c.rng.integers(0, len(R), c.int(1, 3))]])
    kw, A, B = {}, F, R
    z21 = c.chance(0.4) and name != "epsm"
    lo, hi = R.min(axis=0), R.max(axis=0)
    if name not in ("eps", "epsm") and c.chance(0.4):
        lo, hi = lo - c.real(), hi + c.real()
        kw = dict(ideal=lo, nadir=hi)
    if z21:
        kw["zero_to_one"] = True
        A, B = unit(F, lo, hi), unit(R, lo, hi)
    elif name in ("gd", "igd", "gd+", "igd+") and c.chance(0.3) and np.all(hi > lo):
        kw["norm_by_dist"] = True
        A, B = F / (hi - lo), R / (hi - lo)
    c.note(indicator=name, F=F, reference=R, **kw)
    with c.frame(F=F, reference=R, **{k: v for k, v in kw.items() if isinstance(v, np.ndarray)}):
        I = cls(name)(R, **kw)
        got = I.do(F)
    want = definition(name, A, B)
    s = max(1.0, np.abs(A).max(), np.abs(B).max())
    c.ensures(np.ndim(got) == 0, "a single number")
    c.eq(got, want, "the indicator equals its definition", rtol=1e-9, atol=1e-10 * s)
    p, q = c.rng.permutation(len(F)), c.rng.permutation(len(R))
    c.eq(cls(name)(R[q], **kw).do(F[p]), got, "the order of points does not matter", rtol=1e-9, atol=1e-10 * s)
    if len(F) == 1 and c.chance(0.5):
        c.eq(I.do(F[0]), got, "a single vector is a set of one", rtol=1e-12, atol=0)
    if not kw:
        if name == "gd":
            c.ensures((got == 0) == all(any(np.array_equal(a, z) for z in R) for a in F), "zero exactly when every point lies on the reference")
        if name == "igd":
            c.ensures((got == 0) == all(any(np.array_equal(a, z) for a in F) for z in R), "zero exactly when every reference point is attained")
        if name == "igd+":
            c.ensures((got == 0) == all(any(np.all(a <= z) for a in F) for z in R), "zero exactly when every reference point is weakly dominated")
        if name == "gd+":
            c.ensures((got == 0) == all(any(np.all(a <= z) for z in R) for a in F), "zero exactly when every point weakly dominates a reference point")
    c.eq(I.do(F), got, "the same call gives the same value")


def hv2d(F, r):
    P = sorted({tuple(p) for p in F if np.all(p < r)})
    tot, y = 0.0, r[1]
    for a, b in P:
        if b < y:
            tot += (r[0] - a) * (y - b)
            y = b
    return tot


def hvnd(F, r):
    """inclusion by sweeping the last objective"""
    F = np.asarray([p for p in F if np.all(p < r)])
    if len(F) == 0:
        return 0.0
    if F.shape[1] == 2:
        return hv2d(F, r)
    F = F[np.argsort(F[:, -1], kind="stable")]
    tot = 0.0
    for i in range(len(F)):
        z1 = F[i + 1, -1] if i + 1 < len(F) else r[-1]
        if z1 > F[i, -1]:
            tot += (z1 - F[i, -1]) * hvnd(F[:i + 1, :-1], r[:-1])
    return tot


@contract("C21", n=1500, target="pymoo.indicators.hv.Hypervolume")
def hypervolume(c):
    from pymoo.indicators.hv import Hypervolume, HV
    m = c.pick(2, 2, 3, 4)
    F = c.points(c.int(1, 8), m, c.pick("uniform", "grid", "grid2", "dup", "front", "const", "line", "neg"))
    kw = {}
    pf = c.points(c.int(2, 5), m, c.pick("uniform", "grid", "front")) if c.chance(0.4) else None
    r = F.min(axis=0) + c.rng.random(m) * c.pick(1.0, 3.0, 6.0)
    A, ra = F, r
    if pf is not None:
        kw["pf"] = pf
        if c.chance(0.5):
            r = ra = pf.max(axis=0)
        else:
            kw["ref_point"] = r
        if c.chance(0.5) and np.all(pf.max(axis=0) > pf.min(axis=0)):
            lo, hi = pf.min(axis=0), pf.max(axis=0)
            if c.chance(0.4):
                lo, hi = lo - 0.5, hi + 0.25
                kw.update(ideal=lo, nadir=hi)
            kw["zero_to_one"] = True
            A = unit(F, lo, hi)
            ra = unit(r, lo, hi)
            if "ref_point" in kw and c.chance(0.3):
                kw["norm_ref_point"] = False
                ra = r
    else:
        kw["ref_point"] = r
    c.note(F=F, used_ref=ra, **kw)
    with c.frame(F=F, **{k: v for k, v in kw.items() if isinstance(v, np.ndarray)}):
        I = c.pick(Hypervolume, HV)(**kw)
        got = float(I.do(F))
    want = hvnd(A, np.asarray(ra, float))
    tol = 1e-9 * max(1.0, float(np.prod(np.maximum(1.0, np.abs(ra) + np.abs(A).max()))))
    c.eq(got, want, "hypervolume equals the dominated volume", rtol=1e-9, atol=tol)
    c.eq(float(I.do(F[c.rng.permutation(len(F))])), got, "the order of points does not matter", rtol=1e-9, atol=tol)
    extra = c.points(1, m, "neg")[0] if c.chance(0.5) else F[c.int(0, len(F) - 1)] + c.rng.integers(-1, 2, m) * 0.5
    more = float(I.do(np.vstack([F, extra])))
    c.ensures(more >= got - tol, "adding a point never decreases the hypervolume", extra=extra, before=got, after=more)
    worse = F[c.int(0, len(F) - 1)] + np.abs(c.rng.integers(0, 2, m)) * 0.5
    c.eq(float(I.do(np.vstack([F, worse]))), got, "a dominated point changes nothing", rtol=1e-9, atol=tol, extra=worse)
    if "zero_to_one" not in kw:
        beyond = F.min(axis=0).copy()
        beyond[c.int(0, m - 1)] = np.max(ra) + 1.0 + abs(np.max(ra))
        beyond = np.maximum(beyond, np.where(beyond > ra, beyond, beyond))
        c.eq(float(I.do(np.vstack([F, beyond]))), got, "a point beyond the reference point changes nothing", rtol=1e-9, atol=tol, extra=beyond)


@contract("C21", n=300, target="pymoo.indicators.kktpm.KKTPM, pymoo.indicators.migd.MIGD, pymoo.indicators.rmetric.RMetric")
def empty_and_other(c):
    from pymoo.core.indicator import Indicator
    m = c.pick(2, 3)
    R = c.points(3, m, "uniform")
    name = c.pick("gd", "igd", "gd+", "igd+", "eps")
    c.eq(cls(name)(R).do(np.zeros((0, m))), 0.0, "an empty set gives the default value")
    from pymoo.indicators.migd import MIGD
    M = MIGD(reevaluate=False)
    vals = []

    class P:
        n_constr, time = 0, 0.0

        def pareto_front(self):
            return R

    class A:
        problem = P()
    from vp import mk
    for t in range(c.int(1, 4)):
        A.pop = mk.population(c, c.int(1, 5), m=m, style="uniform")
        M.update(A)
        vals.append(definition("igd", A.pop.get("F"), R))
    c.eq(M.value(), np.mean(vals), "the mean over time steps", rtol=1e-9)
