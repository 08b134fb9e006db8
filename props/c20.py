import numpy as np
from vp.rt import contract


def weight(c, k, m):
    if c.chance(0.3):
        W = np.eye(m)[c.rng.integers(0, m, k)]
    else:
        W = c.rng.random((k, m)) + 1e-3
        if c.chance(0.3):
            W[c.rng.random((k, m)) < 0.3] = 0.0
            W[W.sum(axis=1) == 0] = 1.0
        if c.chance(0.5):
            W = W / W.sum(axis=1, keepdims=True)
    return W


def formula(name, f, w, z, par):
    d = [float(a) - float(b) for a, b in zip(f, z)]
    if name == "ws":
        return sum(float(a) * float(b) for a, b in zip(f, w))
    if name == "tcheb":
        return max(abs(x) * b for x, b in zip(d, w))
    if name == "asf":
        return max(x / (b if b != 0 else par["weight_0"]) for x, b in zip(d, w))
    if name == "aasf":
        return formula("asf", f, w, z, par) + par["rho"] * sum(x / min(max(b, 1e-12), np.inf) for x, b in zip(d, w))
    L = np.sqrt(sum(b * b for b in w))
    d1 = sum(x * b for x, b in zip(d, w)) / L
    d2 = np.sqrt(max(0.0, sum((x - d1 * b / L) ** 2 for x, b in zip(d, w))))
    if name == "pbi":
        return d1 + par["theta"] * d2
    return d2 if name == "perp" else d1


def make(name, c, eps):
    if name == "ws":
        from pymoo.decomposition.weighted_sum import WeightedSum
        return WeightedSum(eps=eps), {}
    if name == "tcheb":
        from pymoo.decomposition.tchebicheff import Tchebicheff
        return Tchebicheff(eps=eps), {}
    if name == "asf":
        from pymoo.decomposition.asf import ASF
        return ASF(eps=eps), dict(weight_0=c.pick(1e-10, 1e-4))
    if name == "aasf":
        from pymoo.decomposition.aasf import AASF
        if c.chance(0.5):
            rho = c.pick(0.0, 1e-3, 0.5)
            return AASF(eps=eps, rho=rho), dict(rho=rho, weight_0=1e-10)
        beta = c.pick(5.0, 20.0, 30.0)
        return AASF(eps=eps, beta=beta), dict(rho=1 / (1 - np.tan(beta / 360 * 2 * np.pi)) - 1, weight_0=1e-10)
    if name == "pbi":
        from pymoo.decomposition.pbi import PBI
        t = c.pick(0.0, 1.0, 5.0)
        return PBI(theta=t, eps=eps), dict(theta=t)
    from pymoo.decomposition.perp_dist import PerpendicularDistance
    return PerpendicularDistance(eps=eps), {}


@contract("C20", n=4000, target="pymoo.core.decomposition.Decomposition.do, pymoo.decomposition")
def scalarisations(c):
    name = c.pick("ws", "tcheb", "asf", "aasf", "pbi", "perp")
    m = c.pick(2, 2, 3, 4)
    n, k = c.int(1, 6), c.int(1, 6)
    F, W = c.points(n, m), weight(c, k, m)
    eps = c.pick(0.0, 0.0, 0.1)
    D, par = make(name, c, eps)
    kw, z = {}, np.zeros(m) - D.eps
    if c.chance(0.7):
        kw["ideal_point"] = F.min(axis=0) - c.pick(0.0, 0.5)
        z = kw["ideal_point"] - D.eps
    if c.chance(0.3):
        kw["utopian_point"] = F.min(axis=0) - 0.3
        z = kw["utopian_point"]
    if c.chance(0.3):
        kw["nadir_point"] = F.max(axis=0) + 1.0
    if "weight_0" in par and name == "asf":
        kw["weight_0"] = par["weight_0"]
    typ = c.pick("auto", "one_to_one", "one_to_many", "many_to_one", "many_to_many")
    if typ == "one_to_one":
        k = n
        W = weight(c, k, m)
    elif typ == "one_to_many":
        n, F = 1, F[:1]
    elif typ == "many_to_one":
        k, W = 1, W[:1]
    a, b = F, W
    if typ in ("auto", "one_to_many") and n == 1 and c.chance(0.5):
        a = F[0]
    if typ in ("auto", "many_to_one") and k == 1 and c.chance(0.5):
        b = W[0]
    c.note(scalarisation=name, F=F, weights=W, type=typ, par=par, **{x: y for x, y in kw.items()})
    with c.frame(F=F, weights=W, **{x: y for x, y in kw.items() if isinstance(y, np.ndarray)}):
        got = np.asarray(D.do(a, b, _type=typ, **kw))
    full = np.array([[formula(name, f, w, z, par) for w in W] for f in F], dtype=float)
    if typ == "one_to_one":
        want = np.array([full[i, i] for i in range(n)])
    elif typ == "one_to_many":
        want = full[0]
    elif typ == "many_to_one":
        want = full[:, 0]
    elif typ == "many_to_many":
        want = full
    else:
        if n == 1 and k > 1:
            want = full[0]
        elif n > 1 and k == 1:
            want = full[:, 0]
        elif n == k and n > 1:
            want = np.array([full[i, i] for i in range(n)])
        else:
            want = full
    s = 1e-8 * (1 + np.abs(full).max())
    c.eq(got, want, "values equal the published formula at every position", rtol=1e-7, atol=s if name in ("pbi", "perp") else 1e-12 * (1 + np.abs(full).max()))
    again = np.asarray(D.do(a, b, _type=typ, **kw))
    c.eq(again, got, "the same call gives the same values")


@contract("C20", n=1200, target="pymoo.functions.standard.decomposition, pymoo.functions.compiled.decomposition")
def distances_to_weights(c):
    from pymoo.functions import load_function
    m, n = c.int(2, 4), c.int(1, 7)
    F, W = c.points(n, m), weight(c, n, m)
    u = F.min(axis=0) - 0.1 if c.chance(0.6) else None
    z = np.zeros(m) if u is None else u
    d1 = [formula("d1", f, w, z, {}) for f, w in zip(F, W)]
    d2 = [formula("perp", f, w, z, {}) for f, w in zip(F, W)]
    c.note(F=F, weights=W, utopian=u)
    s = 1e-8 * (1 + np.abs(F - z).max())
    for kind in ("python", "cython"):
        with c.frame(F=F, weights=W):
            a, b = load_function("calc_distance_to_weights", kind)(F, W, u)
        c.eq(a, d1, "distance along the weight vector (%s)" % kind, rtol=1e-9, atol=1e-12 * (1 + np.abs(F).max()))
        c.eq(b, d2, "distance perpendicular to the weight vector (%s)" % kind, rtol=1e-7, atol=s)
