"""C23: reference directions lie on the unit simplex in the promised number."""
import math
import numpy as np
from vp.rt import contract

ASSUMPTIONS = ["sums are compared with one up to 1e-9 (floating point)"]


def on_simplex(c, R, m, label="", n=None):
    R = np.asarray(R)
    c.ensures(R.ndim == 2 and R.shape[1] == m, label + "one component per dimension", shape=R.shape)
    c.ensures(np.all(np.isfinite(R)), label + "finite", R=R)
    c.ensures(np.all(R >= -1e-12), label + "non-negative components", R=R)
    c.eq(R.sum(axis=1), np.ones(len(R)), label + "components sum to one", rtol=1e-9, atol=1e-9)
    if n is not None:
        c.eq(len(R), n, label + "number of directions")


def distinct(R):
    return len(np.unique(np.round(R, 9), axis=0)) == len(R)


def pick_size(c):
    m = c.int(1, 6)
    p = c.int(0, {1: 9, 2: 20, 3: 12, 4: 7, 5: 5, 6: 4}[m])
    return m, p


@contract("C23", n=900, target="pymoo.util.reference_direction.UniformReferenceDirectionFactory, das_dennis")
def uniform(c):
    from pymoo.util.reference_direction import UniformReferenceDirectionFactory, das_dennis, get_number_of_uniform_points
    from pymoo.util.ref_dirs import get_reference_directions
    m, p = pick_size(c)
    c.note(n_dim=m, n_partitions=p)
    k = math.comb(m + p - 1, p)
    c.eq(get_number_of_uniform_points(p, m), k, "binomial number of points")
    R = das_dennis(p, m)
    on_simplex(c, R, m, "construction: ", k)
    c.ensures(distinct(R), "distinct directions", R=R)
    if p > 0:
        c.eq(R * p, np.round(R * p), "components are multiples of one over the partitions", rtol=0, atol=1e-9)
    else:
        c.eq(R, np.full((1, m), 1 / m), "the centre without partitions")
    s = c.pick(None, None, 1.0, 0.5, 0.0, c.real())
    kw = {} if s is None else dict(scaling=s)
    D = c.pick(UniformReferenceDirectionFactory(m, n_partitions=p, **kw).do, lambda: get_reference_directions("das-dennis", m, n_partitions=p, **kw),
               lambda: get_reference_directions("uniform", m, n_partitions=p, **kw))()
    on_simplex(c, D, m, "factory: ", k if m > 1 else 1)
    if s is not None and m > 1:
        want = R * s + (1 - s) / m
        c.eq(np.unique(np.round(D, 9), axis=0), np.unique(np.round(want, 9), axis=0), "scaled toward the centre", atol=1e-8)
    else:
        c.eq(np.unique(np.round(D, 9), axis=0), np.unique(np.round(R, 9), axis=0), "the uniform directions", atol=1e-8)


@contract("C23", n=500, target="pymoo.util.reference_direction.UniformReferenceDirectionFactory, pymoo.util.ref_dirs.incremental")
def number_of_points(c):
    from pymoo.util.reference_direction import UniformReferenceDirectionFactory, get_partition_closest_to_points
    from pymoo.util.ref_dirs.incremental import IncrementalReferenceDirectionFactory
    m = c.int(2, 5)
    n = c.int(1, 60)
    if c.chance(.4):
        n = math.comb(m + (q := c.int(0, 5)) - 1, q)
    cls = c.pick(UniformReferenceDirectionFactory, IncrementalReferenceDirectionFactory)
    c.note(n_dim=m, n_points=n, factory=cls.__name__)
    p = get_partition_closest_to_points(n, m)
    c.ensures(math.comb(m + p - 1, p) <= n < math.comb(m + p, p + 1), "largest number of partitions not exceeding the points", p=p)
    try:
        R = cls(m, n_points=n).do()
    except Exception as e:
        c.ensures("can not be created uniformly" in str(e), "refused with an explanation", error=repr(e))
        if cls is UniformReferenceDirectionFactory:
            c.ensures(math.comb(m + p - 1, p) != n, "refused only if impossible")
        return
    on_simplex(c, R, m, n=n)
    c.ensures(distinct(R), "distinct directions", R=R)


@contract("C23", n=200, target="pymoo.util.ref_dirs.das_dennis.DasDennis, pymoo.util.ref_dirs.incremental")
def stepwise(c):
    from pymoo.util.ref_dirs.das_dennis import DasDennis
    from pymoo.util.ref_dirs.incremental import IncrementalReferenceDirectionFactory
    m, p = c.int(2, 5), c.int(0, 5)
    s = c.pick(None, 0.5)
    c.note(n_dim=m, n_partitions=p, scaling=s)
    D = DasDennis(p, m, scaling=s)
    k = math.comb(m + p - 1, p)
    c.eq(D.number_of_points(), k, "announced number")
    parts, rounds = [], 0
    while D.has_next() and rounds < 300:
        a = c.pick(None, 1, 3, 7)
        x = D.next(a)
        if a is not None:
            c.ensures(len(x) <= a, "not more than asked for")
        parts += [r for r in x]
        rounds += 1
    R = np.array(parts)
    c.ensures(not D.has_next(), "exhausted")
    on_simplex(c, R, m, "step by step: ", k)
    c.ensures(distinct(R), "step by step: distinct", R=R)
    if m > 1:
        R = IncrementalReferenceDirectionFactory(m, n_partitions=p).do()
        on_simplex(c, R, m, "incremental: ")
        c.ensures(distinct(R), "incremental: distinct", R=R)


@contract("C23", n=400, target="pymoo.util.reference_direction.MultiLayerReferenceDirectionFactory")
def layers(c):
    from pymoo.util.reference_direction import MultiLayerReferenceDirectionFactory, UniformReferenceDirectionFactory
    from pymoo.util.ref_dirs import get_reference_directions
    m = c.int(2, 4)
    L = [UniformReferenceDirectionFactory(m, n_partitions=c.int(0, 4), scaling=c.pick(None, 1.0, 0.5, 0.0)).do() for _ in range(c.int(1, 4))]
    f = MultiLayerReferenceDirectionFactory(*L[:1])
    for e in L[1:]:
        f.add_layer(e)
    R = c.pick(f.do, f, lambda: get_reference_directions("multi-layer", *L))()
    on_simplex(c, R, m)
    allp = np.vstack(L)
    c.ensures(distinct(R), "no duplicates across layers", R=R)
    c.eq(len(R), len(np.unique(np.round(allp, 9), axis=0)), "every layer's directions are kept once")
    for r in allp:
        c.ensures(np.any(np.all(np.abs(R - r) < 1e-9, axis=1)), "direction of a layer is present", r=r)


@contract("C23", n=800, target="pymoo.util.reference_direction.map_onto_unit_simplex, sample_on_unit_simplex, scale_reference_directions, select_points_with_maximum_distance")
def pieces(c):
    from pymoo.util.reference_direction import (map_onto_unit_simplex, sample_on_unit_simplex, scale_reference_directions, select_points_with_maximum_distance)
    n, m = c.int(1, 20), c.int(1, 5)
    U = c.rng.random((n, m))
    if c.chance(.3):
        U[c.rng.integers(n)] = c.pick(1e-9, 1.0 - 1e-12, 0.5)
    meth = c.pick("sum", "kraemer")
    V = U.copy()
    with c.frame("points passed in are not modified", U=U):
        R = map_onto_unit_simplex(U, meth)
    c.note(U=V, method=meth)
    on_simplex(c, R, m, "mapped: ", n)
    R2 = sample_on_unit_simplex(n, m, unit_simplex_mapping=meth, random_state=c.gen())
    on_simplex(c, R2, m, "sampled: ", n)
    s = c.pick(0.0, 1.0, 0.5, c.real())
    with c.frame("directions passed in are not modified", R=R):
        S = scale_reference_directions(R, s)
    on_simplex(c, S, m, "scaled: ", n)
    k = c.int(1, n)
    sel = None if c.chance(.5) else [int(i) for i in c.rng.choice(n, c.int(0, k), replace=False)]
    given = list(sel or [])
    X = c.rng.random((n, m))
    c.note(X=X, n_select=k, selected=given)
    I = select_points_with_maximum_distance(X, k, selected=sel, random_state=c.gen())
    c.eq(len(I), max(k, len(given)), "requested number selected", I=I)
    c.ensures(len(set(I)) == len(I), "distinct indices", I=I)
    c.ensures(all(0 <= i < n for i in I), "indices of points", I=I)
    c.eq(list(I)[:len(given)], given, "the given ones are kept")
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
    for j in range(max(1, len(given)), len(I)):
        prev = list(I[:j])
        rest = [i for i in range(n) if i not in prev]
        d = D[:, prev].min(axis=1)
        c.ensures(d[I[j]] >= d[rest].max() - 1e-12, "farthest remaining point is chosen", step=j)


@contract("C23", n=40, thorough=300, target="pymoo.util.ref_dirs: energy, reduction, construction, sample-and-map")
def optimised(c):
    from pymoo.util.ref_dirs import RieszEnergyReferenceDirectionFactory, ReductionBasedReferenceDirectionFactory
    from pymoo.util.ref_dirs.construction import ConstructionBasedReferenceDirectionFactory
    from pymoo.util.ref_dirs.sample_and_map import RandomSamplingAndMap
    m, n = c.int(2, 4), c.int(4, 14)
    kind = c.pick("reduction", "energy", "energy2", "construction", "map")
    seed = c.int(1, 10 ** 6)
    c.note(kind=kind, n_dim=m, n_points=n, seed=seed)
    if kind == "reduction":
        f = ReductionBasedReferenceDirectionFactory(m, n, n_sample_points=c.pick(300, 1000), kmeans=c.chance(.7), kmeans_max_iter=50)
        if c.chance(.3):
            f.n_points = n = c.int(1, 4)
    elif kind == "energy":
        f = RieszEnergyReferenceDirectionFactory(m, n, n_max_iter=15, X=None, sampling="construction")
    elif kind == "energy2":
        from pymoo.util.reference_direction import sample_on_unit_simplex
        f = RieszEnergyReferenceDirectionFactory(m, n, n_max_iter=30, X=sample_on_unit_simplex(n, m, random_state=c.gen()), freeze_edges=c.chance(.5))
    elif kind == "construction":
        f = ConstructionBasedReferenceDirectionFactory(m, n, n_samples=30, gradient_descent=c.chance(.4))
    else:
        c.requires(n > m)
        f = RandomSamplingAndMap(m, n)
    R = f.do(random_state=np.random.default_rng(seed))
    on_simplex(c, R, m, kind + ": ", n)
    c.eq(f.do(random_state=np.random.default_rng(seed)) if kind in ("reduction", "construction", "map") else R, R, "determined by the generator")
