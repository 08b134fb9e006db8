"""Definitions used by postconditions, written from the property statements (plain loops, no /repo code)."""
import numpy as np


def dominates(a, b, eps=0.0):
    return bool(not np.any(a > b + eps) and np.any(a + eps < b))


def relation(a, b, cva=None, cvb=None, eps=0.0):
    if cva is not None and cvb is not None and cva != cvb:
        return 1 if cva < cvb else -1
    better = any(x + eps < y for x, y in zip(a, b))
    worse = any(x > y + eps for x, y in zip(a, b))
    return 1 if better and not worse else (-1 if worse and not better else 0)


def fronts(F, dom=dominates):
    left, out = list(range(len(F))), []
    while left:
        f = [i for i in left if not any(dom(F[j], F[i]) for j in left)]
        out.append(f)
        left = [i for i in left if i not in f]
    return out


def ranks(F):
    r = np.zeros(len(F), int)
    for k, f in enumerate(fronts(F)):
        r[f] = k
    return r


def nondominated(F, other=None):
    O = F if other is None else other
    return [i for i in range(len(F)) if not any(dominates(o, F[i]) for o in O)]


def cv(G, H, eps_ieq=0.0, eps_eq=1e-4, scale_ieq=None, scale_eq=None, pow_ieq=None, pow_eq=None):
    t = 0.0
    for vals, eps, scale, p, absolute in ((G, eps_ieq, scale_ieq, pow_ieq, False), (H, eps_eq, scale_eq, pow_eq, True)):
        vals = [] if vals is None else vals
        for i, v in enumerate(vals):
            v = abs(v) if absolute else v
            e = max(0.0, v - eps)
            if scale is not None:
                e = e / (scale[i] if np.ndim(scale) else scale)
            if p is not None:
                e = e ** p
            t += e
    return t


def is_permutation(x, ref):
    return sorted(np.asarray(x).tolist()) == sorted(np.asarray(ref).tolist())


def ids(pop):
    return [id(i) for i in pop]


def data(pop):
    return [(np.copy(i.X) if isinstance(i.X, np.ndarray) else (dict(i.X) if isinstance(i.X, dict) else i.X),
             np.copy(i.F), np.copy(i.G), np.copy(i.H)) for i in pop]


def same_data(a, b):
    def eq(x, y):
        if isinstance(x, dict):
            return x == y
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype == object:
            return list(x.ravel()) == list(y.ravel())
        return np.array_equal(x, y, equal_nan=x.dtype.kind == "f" and y.dtype.kind == "f")
    return len(a) == len(b) and all(all(eq(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))
