import numpy as np
from vp.rt import contract
from vp import oracle as O
from pymoo.functions import load_function
from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated, rank_from_fronts
from pymoo.util.nds.fast_non_dominated_sort import fast_non_dominated_sort
from pymoo.util.dominator import Dominator


def norm(fr):
    return [sorted(int(i) for i in f) for f in fr]


KERNELS = [("fast_non_dominated_sort", {}), ("fast_non_dominated_sort", {"native_biobj_sorting": True}),
           ("efficient_non_dominated_sort", {"strategy": "sequential"}), ("efficient_non_dominated_sort", {"strategy": "binary"}),
           ("tree_based_non_dominated_sort", {}), ("dominance_degree_non_dominated_sort", {"strategy": "efficient"}),
           ("dominance_degree_non_dominated_sort", {"strategy": "fast"}), ("fast_best_order_sort", {})]


def sizes(c):
    return c.pick(c.int(1, 5), c.int(1, 12), c.int(8, 30)), c.pick(1, 2, 2, 3, 3, 4, 5)


@contract("C02", n=900)
def kernels_partition_into_fronts(c):
    n, m = sizes(c)
    F = c.points(n, m)
    want = O.fronts(F)
    c.note(F=F)
    for name, kw in KERNELS:
        for mode in ("python", "cython"):
            if mode == "cython" and (kw.get("native_biobj_sorting") or name == "tree_based_non_dominated_sort"):
                continue
            if mode == "python" and name == "fast_best_order_sort":
                continue
            try:
                f = load_function(name, mode)
            except ImportError:
                continue
            with c.frame(label="%s(%s) leaves the points unchanged" % (name, mode), F=F):
                got = f(F, **kw)
            c.eq(norm(got), want, "%s %s %s returns the exact fronts" % (mode, name, kw or ""), strategy=name)
    got = fast_non_dominated_sort(F)
    c.eq(norm(got), want, "fast_non_dominated_sort (util) returns the exact fronts")


@contract("C02", n=900, target="pymoo.util.nds.non_dominated_sorting.NonDominatedSorting.do")
def front_end(c):
    n, m = sizes(c)
    F = c.points(n, m)
    if c.chance(0.2):
        F = np.round(F * 3).astype(int)
    want = O.fronts(F)
    c.note(F=F)
    dom = c.pick(None, None, Dominator())
    nds = NonDominatedSorting(dominator=dom)
    with c.frame(F=F):
        fr, rank = nds.do(F, return_rank=True)
        c.eq(norm(fr), want, "fronts are exact")
        c.eq(rank, [next(k for k, f in enumerate(want) if i in f) for i in range(n)], "ranks name the front")
        c.eq(sorted(int(i) for i in nds.do(F, only_non_dominated_front=True)), want[0], "only the first front on request")
        k = c.int(1, n + 2)
        fr, rank = nds.do(F, n_stop_if_ranked=k, return_rank=True)
    c.eq(norm(fr), want[:len(fr)], "early stop returns a prefix of the fronts", k=k)
    c.ensures(sum(len(f) for f in fr) >= min(k, n), "early stop ranks at least the requested number", k=k)
    for i in range(n):
        inside = [q for q, f in enumerate(fr) if i in f]
        if inside:
            c.eq(rank[i], inside[0], "rank of a ranked point names its front")
        else:
            c.ensures(rank[i] >= len(fr), "an unranked point is not given the rank of a returned front")
    q = c.int(1, n)
    fr = nds.do(F, n_fronts=q)
    c.eq(norm(fr), want[:len(fr)], "limiting the fronts returns a prefix", q=q)
    c.ensures(len(fr) >= min(q, len(want)), "limiting the fronts returns at least that many")
    fr = nds.do(F)
    c.eq(sorted(i for f in fr for i in f), list(range(n)), "every point in exactly one front")


@contract("C02", n=900, target="pymoo.util.nds.non_dominated_sorting.find_non_dominated")
def only_non_dominated(c):
    n, m = sizes(c)
    k = c.int(1, 8)
    P = c.points(n + k, m)
    F, R = P[:n].copy(), P[n:].copy()
    c.note(F=F, other=R)
    with c.frame(F=F, other=R):
        a, b = find_non_dominated(F), find_non_dominated(F, R)
    c.eq(sorted(int(i) for i in a), O.nondominated(F), "non-dominated set")
    c.eq(sorted(int(i) for i in b), O.nondominated(F, R), "set not dominated by the other set")
    for mode in ("python", "cython"):
        try:
            f = load_function("find_non_dominated", mode)
        except ImportError:
            continue
        c.eq(sorted(int(i) for i in f(F)), O.nondominated(F), "kernel find_non_dominated (%s)" % mode)
        eps = c.pick(0.0, 0.5, 1.0, 1e-3)
        want = [i for i in range(n) if not any(i != j and O.dominates(F[j], F[i], eps) for j in range(n))]
        c.eq(sorted(int(i) for i in f(F, eps)), want, "kernel find_non_dominated with tolerance (%s)" % mode, eps=eps)
    c.eq(len(find_non_dominated(np.zeros((0, m)))), 0, "empty set")


@contract("C02", n=500)
def empty_single_and_permuted(c):
    n, m = c.int(1, 12), c.int(1, 4)
    F = c.points(n, m)
    nds = NonDominatedSorting()
    c.eq(len(nds.do(np.zeros((0, m)))), 0, "no points, no fronts")
    c.eq(norm(nds.do(F[:1])), [[0]], "single point")
    perm = c.rng.permutation(n)
    _, r1 = nds.do(F, return_rank=True)
    _, r2 = nds.do(F[perm], return_rank=True)
    c.eq(r2, r1[perm], "ranks follow the points when reordered", F=F, perm=perm)


@contract("C02", n=250)
def compiled_extra_kernels(c):
    try:
        from pymoo.functions.compiled import non_dominated_sorting as cn
    except ImportError:
        c.ensures(True, "no compiled module")
        return
    n, m = c.int(1, 12), c.int(1, 4)
    F = c.points(n, m)
    c.note(F=F)
    want = O.fronts(F)
    k = c.int(1, n)
    fr = cn.fast_non_dominated_sort(F, 0.0, k)
    c.eq(norm(fr), want[:len(fr)], "compiled early stop returns a prefix")
    c.ensures(sum(len(f) for f in fr) >= k, "compiled early stop ranks enough")
    q = c.int(1, len(want))
    fr = cn.fast_non_dominated_sort(F, 0.0, 2 ** 31 - 1, q)
    c.eq(norm(fr), want[:q], "compiled front limit")
