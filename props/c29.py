"""C29: decision-making and outlier tools follow their definitions."""
import numpy as np
from vp.rt import contract
from vp import oracle as O
from pymoo.mcdm.pseudo_weights import PseudoWeights
from pymoo.mcdm.high_tradeoff import HighTradeoffPoints
from pymoo.core.decision_making import NeighborFinder, find_outliers_upper_tail

ASSUMPTIONS = ["ball queries are compared away from the exact radius (1e-9)"]


def front(c, n, m):
    F = c.points(n, m, c.pick("uniform", "front", "neg", "scaled", "grid"))
    return F[O.fronts(F)[0]] if c.chance(.7) else F


@contract("C29", n=800, target="pymoo.mcdm.pseudo_weights.PseudoWeights")
def pseudo_weights(c):
    m = c.int(2, 4)
    F = front(c, c.int(2, 12), m)
    F = np.unique(F, axis=0)
    c.requires(len(F) > 1 and (np.ptp(F, axis=0) > 0).all())
    given = c.chance(.4)
    lo, hi = F.min(axis=0), F.max(axis=0)
    kw = {}
    if given:
        lo, hi = lo - c.rng.random(m), hi + c.rng.random(m)
        kw = dict(ideal=lo, nadir=hi)
    zero = c.chance(.2) and given
    D = (hi - F) / (hi - lo)
    c.requires((D.sum(axis=1) > 1e-9).all())
    W = D / D.sum(axis=1, keepdims=True)
    w = c.rng.random(m) + 1e-3
    w = w / w.sum()
    if c.chance(.2):
        w = np.eye(m)[c.int(0, m - 1)]
    c.note(F=F, w=w, given=given)
    with c.frame(F=F, w=w, lo=lo, hi=hi):
        i, P = PseudoWeights(w, zero_to_one=zero, **kw).do(F, return_pseudo_weights=True)
        k = PseudoWeights(w, zero_to_one=zero, **kw)(F)
    c.eq(P, W, "pseudo weights are the normalised distances to the worst values", rtol=1e-9, atol=1e-12)
    c.ensures((P >= 0).all() or (F > hi).any(), "non-negative")
    c.eq(P.sum(axis=1), np.ones(len(F)), "sum to one", rtol=1e-9)
    d = np.abs(W - w).sum(axis=1)
    c.ensures(d[i] <= d.min() + 1e-9, "the solution closest to the wanted weights", got=int(i), distances=d)
    c.eq(k, i, "same choice without returning the weights")


def outliers(mu):
    I = [i for i, v in enumerate(mu) if np.isfinite(v)]
    if not I:
        return [], []
    v = np.array([mu[i] for i in I])
    s = v.std()
    if s == 0 or not np.isfinite(s):
        return [], I
    z = (v - v.mean()) / s
    amb = [I[k] for k in range(len(I)) if abs(z[k] - 2) < 1e-9 or abs(z.max() - 1) < 1e-9]
    S = [I[k] for k in range(len(I)) if z[k] >= 2]
    if not S and z.max() > 1:
        S = [I[int(np.argmax(v))]]
    return S, amb


@contract("C29", n=800, target="pymoo.core.decision_making.find_outliers_upper_tail")
def upper_tail(c):
    n = c.int(0, 20)
    mu = c.pick(c.rng.normal(0, 1, n), c.rng.exponential(1, n), c.rng.integers(0, 3, n).astype(float), np.full(n, 2.0))
    mu = mu.copy()
    for v in (np.nan, np.inf, -np.inf):
        if c.chance(.2):
            mu[c.rng.random(n) < .2] = v
    c.note(mu=mu)
    want, amb = outliers(mu)
    c.requires(not amb)
    with c.frame(mu=mu):
        got = find_outliers_upper_tail(mu)
    c.eq([] if got is None else [int(i) for i in got], want, "exactly the outliers of the upper tail")


@contract("C29", n=800, target="pymoo.core.decision_making.NeighborFinder")
def neighbors(c):
    m = c.int(2, 4)
    N = c.points(c.int(2, 15), m, c.pick("uniform", "grid", "front", "line"))
    n = len(N)
    eps = c.pick(0.125, 0.5, 1.0, c.real(0.05, 2))
    mode = c.pick("eps", "k", "auto", "min")
    kw = dict(consider_2d=False)
    least = 0
    if mode == "k":
        k = c.int(1, n - 1)
        kw.update(epsilon=None, n_neighbors=k)
    else:
        kw.update(epsilon=eps)
        if mode == "auto":
            least = min(2 * m, n - 1)
            kw.update(n_min_neigbors="auto")
        if mode == "min":
            least = c.int(1, 6)
            kw.update(n_min_neigbors=least)
            least = min(least, n - 1)
    c.note(N=N, mode=mode, kw=kw)
    with c.frame(N=N):
        nf = NeighborFinder(N, **kw)
        for i in range(n):
            got = sorted(int(j) for j in nf.find(i))
            d = np.sqrt(((N - N[i]) ** 2).sum(axis=1))
            c.ensures(len(set(got)) == len(got) and set(got) <= set(range(n)), "distinct indices")
            if mode == "k":
                c.eq(len(got), k + 1, "as many as asked for and the point itself")
                inside = None
            else:
                if (abs(d - eps) < 1e-9).any():
                    continue
                inside = [j for j in range(n) if d[j] <= eps]
            if mode != "k" and len(inside) >= least:
                c.eq(got, inside, "exactly the points within the distance", i=i)
            else:
                kk = k if mode == "k" else least
                c.eq(len(got), kk + 1, "topped up to the stated minimum", i=i)
                rest = [j for j in range(n) if j not in got]
                c.ensures(not rest or d[got].max() <= d[rest].min() + 1e-12, "the nearest ones", i=i)


@contract("C29", n=300, target="pymoo.core.decision_making.NeighborFinder (two objectives)")
def neighbors_2d(c):
    n = c.int(1, 12)
    N = c.rng.permutation(n).astype(float)
    N = np.column_stack([N, -N])
    nf = NeighborFinder(N)
    for i in range(n):
        want = [j for j in range(n) if abs(N[j, 0] - N[i, 0]) == 1]
        c.eq(sorted(int(j) for j in nf.find(i)), want, "the neighbours along the front")


@contract("C29", n=600, target="pymoo.mcdm.high_tradeoff.HighTradeoffPoints")
def tradeoff(c):
    m = c.int(2, 3)
    F = front(c, c.int(2, 25), m)
    F = np.unique(F, axis=0)
    n = len(F)
    c.requires(n > 1)
    zero = c.chance(.5) and (np.ptp(F, axis=0) > 0).all()
    kw = dict(zero_to_one=True, ideal=F.min(axis=0), nadir=F.max(axis=0)) if zero else {}
    N = (F - F.min(axis=0)) / np.ptp(F, axis=0) if zero else F
    eps = c.pick(0.125, None, 0.3, 0.6)
    if eps is not None:
        kw["epsilon"] = eps
    eps = 0.125 if eps is None else eps
    least = min(2 * m, n - 1)
    mu = []
    for i in range(n):
        d = np.sqrt(((N - N[i]) ** 2).sum(axis=1))
        c.requires(not (abs(d - eps) < 1e-9).any())
        J = [j for j in range(n) if d[j] <= eps]
        if len(J) < least:
            o = np.sort(d)
            c.requires(len(o) <= least + 1 or o[least + 1] - o[least] > 1e-12)
            J = list(np.argsort(d, kind="stable")[:least + 1])
        t = []
        for j in J:
            diff = N[j] - N[i]
            s, g = np.maximum(diff, 0).sum(), np.maximum(-diff, 0).sum()
            t.append(s / g if g > 0 else (np.inf if s > 0 else np.nan))
        mu.append(np.nanmin(t) if not np.isnan(t).all() else np.nan)
    want, amb = outliers(np.array(mu))
    c.requires(not amb)
    c.note(F=F, eps=eps, mu=mu)
    with c.frame(F=F):
        got = HighTradeoffPoints(**kw).do(F)
    c.eq([] if got is None else [int(i) for i in got], want, "exactly the outliers of the worst trade-off")
