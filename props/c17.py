import itertools
import numpy as np
from vp.rt import contract
from vp import oracle as O
INF = float("inf")


def scale(F):
    n = F.max(axis=0) - F.min(axis=0)
    return np.where(n == 0, 1.0, n)


def cd_by_definition(F):
    """generic columns: average over objectives of the normalised gap between the two neighbours."""
    n, m = F.shape
    out = np.zeros(n)
    for j in range(m):
        lo, hi = F[:, j].min(), F[:, j].max()
        if lo == hi:
            continue
        for i in range(n):
            if np.sum(F[:, j] < F[i, j]) == 0 or np.sum(F[:, j] > F[i, j]) == 0:
                out[i] = INF
            else:
                a = max(v for v in F[:, j] if v < F[i, j])
                b = min(v for v in F[:, j] if v > F[i, j])
                out[i] += (b - a) / (hi - lo)
    return out / m


def nn_by_definition(F, k):
    n, m = F.shape
    Z = (F - F.min(axis=0)) / scale(F)
    out = np.zeros(n)
    for i in range(n):
        d = sorted(sum((Z[i, a] - Z[j, a]) ** 2 for a in range(m)) for j in range(n) if j != i)
        out[i] = np.prod(d[:k])
    for j in range(m):
        out[F[:, j].argmin()] = INF
        out[F[:, j].argmax()] = INF
    return out


def ce_by_definition(F):
    n, m = F.shape
    out = np.zeros(n)
    for j in range(m):
        lo, hi = F[:, j].min(), F[:, j].max()
        if lo == hi:
            continue
        for i in range(n):
            below, above = [v for v in F[:, j] if v < F[i, j]], [v for v in F[:, j] if v > F[i, j]]
            if not below or not above:
                out[i] = INF
            else:
                dl, du = F[i, j] - max(below), min(above) - F[i, j]
                p, q = dl / (dl + du), du / (dl + du)
                out[i] += (dl + du) * -(p * np.log2(p) + q * np.log2(q)) / (hi - lo)
    return out


def generic(F):
    return all(len(np.unique(F[:, j])) == len(F) for j in range(F.shape[1]))


def get(name):
    from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
    return get_crowding_function(name)


NAMES = ["cd", "pcd", "ce", "mnn", "2nn"]


@contract("C17", n=1500, target="pymoo.operators.survival.rank_and_crowding.metrics.calc_crowding_distance")
def crowding_distance(c):
    n, m = c.int(1, 12), c.int(1, 4)
    F = c.points(n, m)
    c.note(F=F)
    with c.frame(F=F):
        d = get("cd").do(F)
    c.eq(len(d), n, "one value per point")
    if n <= 2:
        c.ensures(np.all(np.isinf(d) & (d > 0)), "at most two points are all extreme")
        return
    cols = [j for j in range(m) if F[:, j].max() > F[:, j].min()]
    for j in cols:
        lo, hi = F[:, j].min(), F[:, j].max()
        c.ensures(any(d[i] == INF for i in range(n) if F[i, j] == lo) and any(d[i] == INF for i in range(n) if F[i, j] == hi),
                  "an extreme point of every objective is infinite", crowding=d, objective=j)
    if not cols:
        c.ensures(np.all(d == 0), "constant objectives contribute nothing", crowding=d)
    if generic(F[:, cols]) and cols:
        c.eq(d, cd_by_definition(F), "crowding distance is the average normalised gap of the neighbours", rtol=1e-9, atol=1e-12)
    else:
        c.ensures(~np.isnan(d) & (d >= 0), "values are non-negative numbers", crowding=d)
        # sorted order with ties: each objective contributes a gap between some arrangement's neighbours
        up = cd_upper(F)
        c.ensures(np.all(d <= up + 1e-9), "no value exceeds the gap to strictly different neighbours", crowding=d, upper=up)


def cd_upper(F):
    n, m = F.shape
    out = np.zeros(n)
    for j in range(m):
        lo, hi = F[:, j].min(), F[:, j].max()
        if lo == hi:
            continue
        for i in range(n):
            below, above = [v for v in F[:, j] if v < F[i, j]], [v for v in F[:, j] if v > F[i, j]]
            out[i] += INF if not below or not above else (min(above) - max(below)) / (hi - lo)
    return out / m


@contract("C17", n=1200, target="pymoo.operators.survival.rank_and_crowding.metrics.FunctionalDiversity")
def neighbour_metrics(c):
    n, m = c.int(1, 12), c.int(2, 4)
    name = c.pick("mnn", "2nn", "ce", "pcd")
    F = c.points(n, m)
    c.note(metric=name, F=F)
    with c.frame(F=F):
        d = get(name).do(F, n_remove=c.pick(0, 0, 1, c.int(0, n)) if name == "ce" else 0)
    c.eq(len(d), n, "one value per point")
    if n <= 2 or (name in ("mnn", "2nn") and n <= m):
        c.ensures(np.all(np.isinf(d) & (d > 0)), "too few points are all infinite")
        return
    c.ensures(~np.isnan(d) & (d >= 0), "values are non-negative numbers", crowding=d)
    seen, uniq = set(), []
    for i in range(n):
        k = tuple(F[i])
        if k in seen:
            c.eq(d[i], 0.0, "a repeated point gets zero", i=i, crowding=d)
        else:
            seen.add(k)
            uniq.append(i)
    U, du = F[uniq], d[uniq]
    if len(U) > m and len(U) > 2 and generic(U):
        want = {"mnn": lambda: nn_by_definition(U, m), "2nn": lambda: nn_by_definition(U, 2), "ce": lambda: ce_by_definition(U),
                "pcd": lambda: cd_by_definition(U)}[name]()
        c.eq(du, want, "the metric equals its definition", rtol=1e-7, atol=1e-10, unique=U)


def pruned(F, name, n_remove):
    """Recompute from scratch after every removal; None when a tie makes the choice ambiguous."""
    n, m = F.shape
    k = m if name != "2nn" else 2
    lo, hi = F.min(axis=0), F.max(axis=0)
    Z = (F - lo) / scale(F)
    ext = {F[:, j].argmin() for j in range(m)} | {F[:, j].argmax() for j in range(m)}
    H = list(range(n))
    d = np.full(n, INF)
    n_remove = min(max(n_remove, 0), n - m)

    def values(H):
        out = {}
        for i in H:
            if i in ext:
                out[i] = INF
            elif name == "pcd":
                t = 0.0
                for j in range(m):
                    b = [Z[x, j] for x in H if Z[x, j] < Z[i, j]]
                    a = [Z[x, j] for x in H if Z[x, j] > Z[i, j]]
                    t += min(a) - max(b)
                out[i] = t / m
            else:
                q = sorted(sum((Z[i, a] - Z[x, a]) ** 2 for a in range(m)) for x in H if x != i)
                out[i] = np.prod((q + [INF] * k)[:k])
        return out
    v = values(H)
    d[H] = [v[i] for i in H]
    for _ in range(max(n_remove - 1, 0)):
        s = sorted(v.values())
        if len(s) > 1 and s[1] - s[0] <= 1e-9 * max(1.0, abs(s[0])):
            return None
        x = min(v, key=v.get)
        H.remove(x)
        v = values(H)
        d[H] = [v[i] for i in H]
    return d


@contract("C17", n=600, target="pymoo.functions.standard.pruning_cd.calc_pcd, pymoo.functions.standard.mnn.calc_mnn")
def pruning_recomputes(c):
    from pymoo.functions import load_function
    name = c.pick("pcd", "mnn", "2nn")
    n, m = c.int(4, 11), c.int(2, 3)
    F = c.points(n, m, c.pick("uniform", "front", "scaled"))
    c.requires(generic(F) and n > m)
    k = c.int(1, n - m)
    want = pruned(F, name, k)
    c.requires(want is not None)
    c.note(metric=name, F=F, n_remove=k)
    for kind in ("python", "cython"):
        d = load_function("calc_" + name, kind)(F.copy(), n_remove=np.intc(k))
        c.eq(d, want, "values after repeatedly removing the most crowded point (%s)" % kind, rtol=1e-7, atol=1e-10)


@contract("C17", n=1000, target="pymoo.functions.compiled")
def compiled_agrees(c):
    from pymoo.functions import load_function
    name = c.pick("calc_pcd", "calc_mnn", "calc_2nn")
    n, m = c.int(3, 12), c.int(2, 4)
    F = c.points(n, m)
    F = np.array(list(dict.fromkeys(map(tuple, F.tolist()))), dtype=float)
    n = len(F)
    c.requires(n > 2)
    k = c.pick(0, 1, 1)
    c.note(metric=name, F=F, n_remove=k)
    a = load_function(name, "python")(F.copy(), n_remove=np.intc(k))
    b = load_function(name, "cython")(F.copy(), n_remove=np.intc(k))
    c.eq(a, b, "compiled and interpreted code agree", rtol=1e-7, atol=1e-10)


@contract("C17", n=800, target="pymoo.operators.survival.rank_and_crowding.metrics.get_crowding_function")
def permutation_invariance(c):
    name = c.pick(NAMES)
    n, m = c.int(3, 12), c.int(2, 4)
    F = c.points(n, m, c.pick("uniform", "front", "scaled", "neg"))
    c.requires(generic(F))
    k = c.int(0, n)
    if k > 1 and name in ("pcd", "mnn", "2nn"):
        c.requires(n > m and pruned(F, name, k) is not None)
    d = get(name).do(F, n_remove=k)
    p = c.rng.permutation(n)
    c.note(metric=name, F=F, n_remove=k, permutation=p)
    c.eq(get(name).do(F[p], n_remove=k), d[p], "values follow the points", rtol=1e-7, atol=1e-10)
    q = c.rng.permutation(m)
    c.eq(get(name).do(F[:, q], n_remove=k), d, "values do not depend on the order of objectives", rtol=1e-7, atol=1e-10)
