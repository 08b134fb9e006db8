import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population


def expected(X, refs, equal, to_itself=True):
    """Positions kept: dropped iff equal to an earlier one of the set or to any member of a reference set."""
    keep = []
    for i in range(len(X)):
        dup = to_itself and any(equal(X[i], X[j]) for j in range(i))
        dup = dup or any(equal(X[i], y) for R in refs for y in R)
        if not dup:
            keep.append(i)
    return keep


def points(c, n, d, kind):
    if kind == "grid":
        return c.rng.integers(0, 3, (n, d)).astype(float)
    if kind == "grid5":
        return c.rng.integers(0, 5, (n, d)).astype(float) / 4
    if kind == "nan":
        X = c.rng.integers(0, 3, (n, d)).astype(float)
        X[c.rng.random((n, d)) < 0.1] = np.nan
        return X
    return c.points(n, d, c.pick("uniform", "dup", "grid2", "line"))


@contract("C13", n=2500, target="pymoo.core.duplicate.DuplicateElimination.do")
def duplicates(c):
    from pymoo.core.duplicate import DefaultDuplicateElimination, ElementwiseDuplicateElimination, HashDuplicateElimination
    kind = c.pick("default", "default", "element_bool", "element_dist", "hash", "func")
    style = c.pick("grid", "grid5", "nan" if kind == "default" else "grid", "other")
    n, d = c.int(0, 9), c.int(1, 3)
    eps = c.pick(1e-16, 1e-16, 0.0, 0.25, 1.0) if kind in ("default", "element_dist", "func") else 1e-16
    X = points(c, n, d, style)
    refs = [points(c, c.int(0, 5), d, style) for _ in range(c.int(0, 3))]
    to_itself = c.chance(0.8)
    c.note(kind=kind, X=X, refs=refs, eps=eps, to_itself=to_itself)

    def dist(a, b):
        # (squares and a sum: exact for the small grids used with tolerances)
        return float(np.sqrt(((np.asarray(a) - np.asarray(b)) ** 2).sum()))
    if kind == "default":
        e, eq = DefaultDuplicateElimination(epsilon=eps), lambda a, b: dist(a, b) <= eps
    elif kind == "func":
        e, eq = DefaultDuplicateElimination(func=lambda p: p.get("X")[:, :1], epsilon=eps), lambda a, b: dist(a[:1], b[:1]) <= eps
    elif kind == "element_bool":
        e, eq = ElementwiseDuplicateElimination(cmp_func=lambda a, b: bool(np.all(a.X == b.X))), lambda a, b: bool(np.all(a == b))
    elif kind == "element_dist":
        e, eq = ElementwiseDuplicateElimination(cmp_func=lambda a, b: dist(a.X, b.X), epsilon=eps), lambda a, b: dist(a, b) <= eps
    else:
        e, eq = HashDuplicateElimination(func=lambda a: tuple(a.X.tolist())), lambda a, b: tuple(a.tolist()) == tuple(b.tolist())
    pop = Population.new(X=X) if n else Population.empty()
    same = n > 1 and c.chance(0.15)
    if same:                                      # the same solution object listed twice
        i, j = sorted(c.rng.choice(n, 2, replace=False))
        pop[int(j)] = pop[int(i)]
        X = pop.get("X").astype(float)
    R = [Population.new(X=r) if len(r) else Population.empty() for r in refs]
    data, orig = O.data(pop), list(pop)
    want = expected(X, refs, eq, to_itself)
    if same and style == "nan":
        return
    out, keep, drop = e.do(pop, *R, return_indices=True, to_itself=to_itself)
    c.ensures(len(out) == len(want) and all(o is orig[i] for o, i in zip(out, want)), "exactly the first of each group without a counterpart is kept, in order",
              kept=[[k for k, p in enumerate(orig) if p is o] for o in out], expected=want)
    c.eq(list(keep), want, "kept positions are reported")
    c.eq(list(drop), [i for i in range(n) if i not in want], "dropped positions are reported")
    c.ensures(O.same_data(data, O.data(pop)) and all(a is b for a, b in zip(pop, orig)), "solutions are unchanged")
    out2 = e.do(pop, *R, to_itself=to_itself)
    c.ensures(len(out2) == len(out) and all(a is b for a, b in zip(out, out2)), "the same solutions with and without positions")


@contract("C13", n=500, target="pymoo.core.mixed.MixedVariableDuplicateElimination")
def mixed_duplicates(c):
    from pymoo.core.mixed import MixedVariableDuplicateElimination
    n = c.int(0, 8)

    def draw():
        return {"b": bool(c.int(0, 1)), "i": c.int(0, 1), "c": c.pick("x", "y"), "r": c.pick(0.5, 0.25)}
    X, Y = [draw() for _ in range(n)], [draw() for _ in range(c.int(0, 3))]
    mkp = lambda xs: Population.new(X=xs) if xs else Population.empty()
    pop, ref = mkp(X), mkp(Y)
    orig = list(pop)
    c.note(X=X, refs=Y)
    out = MixedVariableDuplicateElimination().do(pop, ref)
    want = expected(X, [Y], lambda a, b: a == b)
    c.ensures(len(out) == len(want) and all(o is orig[i] for o, i in zip(out, want)), "exactly the first of each group of equal dictionaries is kept", expected=want)


@contract("C13", n=200, target="pymoo.core.duplicate.NoDuplicateElimination")
def no_elimination(c):
    from pymoo.core.duplicate import NoDuplicateElimination
    pop = mk.population(c, c.int(1, 6))
    c.ensures(NoDuplicateElimination().do(pop, pop) is pop, "nothing is removed when switched off")
