"""C22: normalisation and denormalisation are inverse and map the bounds to zero and one."""
import numpy as np
from vp.rt import contract

ASSUMPTIONS = ["inverse laws are compared up to floating-point rounding relative to the size of the bounds"]


def some_bounds(c, d):
    """Per component: both, lower only, upper only, none, or equal bounds."""
    r = c.rng
    lo = np.round(r.normal(0, 3, d), 2)
    hi = lo + r.choice([0.5, 1.0, 7.0], d)
    if c.chance(.2):
        # ranges that are small next to the offset, exactly representable
        lo, hi = np.round(lo) * 1024.0, np.round(lo) * 1024.0 + r.choice([2.0 ** -7, 2.0 ** -10], d)
    elif c.chance(.1):
        lo, hi = np.zeros(d), r.choice([2.0 ** -30, 2.0 ** -36, 2.0 ** -50], d)
    kind = r.integers(0, 5, d) if c.chance(.7) else np.full(d, c.int(0, 4))
    xl = np.where(np.isin(kind, (0, 1, 4)), lo, np.nan)
    xu = np.where(np.isin(kind, (0, 2)), hi, np.where(kind == 4, lo, np.nan))
    return xl, xu, kind


def points_of(c, d):
    r = c.rng
    n = c.pick(0, 1, 1, 4) if c.chance(.4) else c.int(1, 6)
    X = np.round(r.normal(0, 4, (n, d)) * 1024) / 1024
    return X if c.chance(.8) else r.normal(0, 4, d)


@contract("C22", n=4000, target="pymoo.util.normalization.ZeroToOneNormalization")
def zero_to_one(c):
    from pymoo.util.normalization import ZeroToOneNormalization
    d = c.int(1, 5)
    xl, xu, kind = some_bounds(c, d)
    X = points_of(c, d)
    a, b = xl, xu
    if c.chance(.15):
        a = None
        kind = np.where(np.isnan(xu), 3, 2)
    elif c.chance(.15):
        b = None
        kind = np.where(np.isnan(xl), 3, 1)
    elif c.chance(.1):
        a = b = None
        kind = np.full(d, 3)
    c.note(xl=a, xu=b, X=X)
    frames = dict(X=X)
    if a is not None:
        frames["xl"] = a
    if b is not None:
        frames["xu"] = b
    with c.frame("inputs are not modified", **frames):
        N = ZeroToOneNormalization(a, b).forward(X)
        back = ZeroToOneNormalization(a, b).backward(N)
        fwd = ZeroToOneNormalization(a, b).forward(ZeroToOneNormalization(a, b).backward(X))
    lo, hi = np.nan_to_num(xl), np.nan_to_num(xu)
    want = np.where(kind == 0, (X - lo) / np.where(kind == 0, hi - lo, 1.0),
                    np.where((kind == 1) | (kind == 4), X - lo, np.where(kind == 2, 1.0 - (hi - X), X)))
    c.eq(N, want, "normalised value of every component", rtol=1e-12, atol=1e-12)
    c.eq(back, X, "denormalising restores the value", rtol=1e-9, atol=1e-9)
    c.eq(fwd, X, "normalising a denormalised value restores it", rtol=1e-8, atol=1e-8 + 1e-12 * np.nanmax(np.abs(np.append(lo, 0)) / np.where(kind == 0, hi - lo, 1.0).min(initial=1.0)))
    c.ensures(np.all(np.isfinite(np.asarray(N, float))), "no division error", N=N)


@contract("C22", n=2500, target="pymoo.util.normalization.normalize, denormalize")
def normalise_function(c):
    from pymoo.util.normalization import normalize, denormalize
    d, n = c.int(1, 4), c.int(1, 7)
    X = c.points(n, d)
    kw, lo, hi = {}, X.min(axis=0), X.max(axis=0)
    if c.chance(.5):
        kw["xl"] = c.pick(lo - 0.5, lo, lo + 0.0)
        if c.chance(.3):
            kw["xl"] = float(lo.min()) - c.pick(0, 1)
            if c.chance(.3):
                kw["xl"] = int(np.floor(kw["xl"]))
        lo = np.broadcast_to(np.asarray(kw["xl"], float), (d,))
    if c.chance(.5):
        kw["xu"] = c.pick(hi + 0.5, hi + 0.0)
        if c.chance(.3):
            kw["xu"] = float(hi.max()) + c.pick(0, 1)
            if c.chance(.3):
                kw["xu"] = int(np.ceil(kw["xu"]))
        hi = np.broadcast_to(np.asarray(kw["xu"], float), (d,))
    c.note(X=X, **kw)
    with c.frame("inputs are not modified", X=X, **{"bound_" + k: v for k, v in kw.items() if isinstance(v, np.ndarray)}):
        N, xl, xu = normalize(X, return_bounds=True, **kw)
        M = normalize(X, **kw)
        Y = denormalize(N, lo, hi)
        Z = normalize(np.vstack([lo, hi]), xl=lo, xu=hi)
    c.eq(M, N, "same values with and without the bounds returned")
    wide = hi > lo
    want = np.where(wide, (X - lo) / np.where(wide, hi - lo, 1), X - lo)
    c.eq(N, want, "normalised with given or estimated bounds", rtol=1e-12, atol=1e-12)
    c.eq(Y, X, "denormalising restores the value", rtol=1e-9, atol=1e-9 * (1 + np.abs(X).max()))
    c.eq(Z[0], np.zeros(d), "the lower bound maps to zero")
    c.eq(Z[1], np.where(wide, 1.0, 0.0), "the upper bound maps to one")
    c.eq(xl, lo, "bounds used: componentwise minimum unless given")
    c.eq(np.where(wide, xu, hi), hi, "bounds used: componentwise maximum unless given")


@contract("C22", n=1200, target="pymoo.util.normalization.SimpleZeroToOneNormalization")
def simple(c):
    from pymoo.util.normalization import SimpleZeroToOneNormalization, NoNormalization
    d, n = c.int(1, 4), c.int(1, 7)
    X = c.points(n, d)
    lo, hi = X.min(axis=0), X.max(axis=0)
    kw = {}
    if c.chance(.4):
        kw["xl"] = lo = lo - c.pick(0.0, 0.5)
    if c.chance(.4):
        kw["xu"] = hi = hi + c.pick(0.0, 0.5)
    c.note(X=X, **kw)
    S = SimpleZeroToOneNormalization(**kw)
    with c.frame("inputs are not modified", X=X, **{"bound_" + k: v for k, v in kw.items()}):
        N = S.forward(X)
        B = S.backward(N)
        Z = S.forward(np.vstack([lo, hi]))
    wide = hi > lo
    c.ensures(np.all(np.isfinite(N)), "no division error", N=N)
    c.eq(B, X, "denormalising restores the value", rtol=1e-9, atol=1e-9 * (1 + np.abs(X).max()))
    c.eq(Z, np.vstack([np.zeros(d), np.where(wide, 1.0, 0.0)]), "bounds map to zero and one", rtol=1e-12)
    c.eq(NoNormalization().backward(NoNormalization().forward(X)), X, "identity normaliser")


@contract("C22", n=800, target="pymoo.util.normalization.standardize, destandardize")
def standard(c):
    from pymoo.util.normalization import standardize, destandardize
    d, n = c.int(1, 4), c.int(2, 7)
    X = c.points(n, d, c.pick("uniform", "neg", "scaled"))
    c.requires(np.all(X.std(axis=0) > 1e-9))
    c.note(X=X)
    with c.frame("inputs are not modified", X=X):
        V, mean, std = standardize(X, return_bounds=True)
        W = standardize(X)
    c.eq(V, W, "same values with and without the statistics returned")
    c.eq(V, (X - X.mean(axis=0)) / X.std(axis=0), "standard score", rtol=1e-9, atol=1e-12)
    c.eq(destandardize(V, mean, std), X, "destandardising restores the value", rtol=1e-9, atol=1e-9 * (1 + np.abs(X).max()))


@contract("C22", n=1200, target="pymoo.util.normalization.PreNormalization, ObjectiveSpaceNormalization, find_ideal")
def ideal_points(c):
    from pymoo.util.normalization import PreNormalization, ObjectiveSpaceNormalization, find_ideal
    from pymoo.core.population import Population
    m = c.int(1, 4)
    O = ObjectiveSpaceNormalization()
    seen, feas_seen = [], []
    for _ in range(c.int(1, 4)):
        n = c.int(1, 6)
        F = c.points(n, m)
        CV = c.rng.integers(0, 2, n).astype(float)
        pop = Population.new(F=F, G=CV[:, None], H=np.zeros((n, 0)))
        O.update(pop)
        seen.append(F)
        if (CV <= 0).any():
            feas_seen.append(F[CV <= 0])
        c.eq(O.ideal(only_feas=False), np.vstack(seen).min(axis=0), "ideal over all solutions seen")
        if feas_seen:
            c.eq(O.ideal(), np.vstack(feas_seen).min(axis=0), "ideal over the feasible solutions seen")
        else:
            c.ensures(O.ideal() is None, "no ideal without feasible solutions")
    F, cur = seen[-1], c.points(1, m)[0]
    with c.frame("inputs are not modified", F=F, cur=cur):
        c.eq(find_ideal(F), F.min(axis=0), "componentwise minimum")
        c.eq(find_ideal(F, cur), np.minimum(F.min(axis=0), cur), "componentwise minimum with the current one")
    lo, hi = F.min(axis=0) - 1, F.max(axis=0) + 1
    P = PreNormalization(zero_to_one=True, ideal=lo, nadir=hi)
    c.eq(P.normalization.forward(F), (F - lo) / (hi - lo), "pre-normalisation by ideal and nadir", rtol=1e-12, atol=1e-12)
    c.eq(P.ideal, np.zeros(m), "normalised ideal"), c.eq(P.nadir, np.ones(m), "normalised nadir")
