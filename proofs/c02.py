"""C02: non-dominated sorting."""
import numpy as np
import moocore
from vp.prove import proof
from proofs.c01 import dominates
from pymoo.util.nds import non_dominated_sorting as N

R = "pymoo.util.nds.non_dominated_sorting."


class Ranking:
    """what moocore.pareto_rank returns (external, compiled: its definition is assumed): the length of the longest chain of dominating points"""

    def __init__(self, v, F, n, m):
        self.v = v
        better = self.better = lambda j, i: dominates(v, v.row(F, j), v.row(F, i), m)
        if v.native:
            r = np.full(n, -1)
            k = 0
            while (r < 0).any():
                left = [i for i in range(n) if r[i] < 0]
                r[[i for i in left if not any(better(j, i) for j in left)]] = k
                k += 1
            self.rank = lambda i: int(r[int(i)])
            return
        rank, parent = self.rank, _ = v.uf("pareto", 1), v.uf("chain", 1)
        inside = lambda i: v.And(v.le(0, i), v.lt(i, n))
        v.every(lambda i: v.implies(inside(i), v.And(v.le(0, rank(i)), v.lt(rank(i), n), v.implies(v.lt(0, rank(i)), v.And(
            inside(parent(i)), v.eq(rank(parent(i)), v.sub(rank(i), 1)), better(parent(i), i))))), lambda i: rank(i))
        v.assume_each((n, n), lambda j, i: v.implies(better(j, i), v.lt(rank(j), rank(i))))
        v.use(moocore.pareto_rank, lambda v, A: v.some((n,), "i", rank))


@proof("C02", R + "NonDominatedSorting.do")
def fronts(v):
    n, m = v.dim("n"), v.dim("m")
    F = v.array("F", (n, m))
    want = v.dim("want") if v.flag("stop_if_ranked") else None
    most = v.dim("most") if v.flag("n_fronts") else None
    g = Ranking(v, F, n, m)

    def inv(L):
        fr = L["fronts"]
        size, at = v.parts(fr)
        return {
            "one front per rank": v.eq(v.len(fr), L.k),
            "members have the rank": v.forall(L.k, lambda k: v.forall(size(k), lambda p: v.And(v.le(0, at(k, p)), v.lt(at(k, p), n), v.eq(g.rank(at(k, p)), k)))),
            "each once": v.forall(L.k, lambda k: v.forall(size(k), lambda p: v.forall(size(k), lambda q: v.implies(v.lt(p, q), v.lt(at(k, p), at(k, q)))))),
            "all of the rank": v.forall(n, lambda j: v.implies(v.lt(g.rank(j), L.k), v.exists(size(g.rank(j)), lambda p: v.eq(at(g.rank(j), p), j)))),
            "the number of points": v.eq(L["n_ranked"], v.total(L.k, size, "i")),
            **({} if most is None else {"not more fronts than asked for": v.le(L.k, most)}),
        }
    v.invariant(N.NonDominatedSorting.do, inv, modifies={"fronts": v.some_arrays("i")}, at="ranks")
    r = v.call(v.call(N.NonDominatedSorting).do, F, n_stop_if_ranked=want, n_fronts=most)
    K = v.len(r)
    size, at = v.parts(r)
    v.each((K,), lambda k: v.forall(size(k), lambda p: v.And(v.le(0, at(k, p)), v.lt(at(k, p), n))), "members are points")
    v.each((K,), lambda k: v.forall(size(k), lambda p: v.forall(size(k), lambda q: v.implies(v.lt(p, q), v.ne(at(k, p), at(k, q))))), "each once in a front")
    in_front = lambda k, j: v.exists(size(k), lambda p: v.eq(at(k, p), j))
    v.each((K, n), lambda k, j: v.iff(in_front(k, j), v.eq(g.rank(j), k)), "fronts are ranks")
    # the definition of the property: what is left at front k are the points in no earlier front
    left = lambda k, j: v.forall(k, lambda t: v.Not(in_front(t, j)))
    v.each((K, n), lambda k, j: v.iff(left(k, j), v.le(k, g.rank(j))), "what is left at a front")
    0 and v.each((K, n), lambda k, i: v.iff(in_front(k, i), v.And(v.le(k, g.rank(i)), v.forall(n, lambda j: v.Not(v.And(v.le(k, g.rank(j)), g.better(j, i)))))), "a front is what nothing left dominates")
    enough = [v.le(want, v.total(K, size, "i"))] if want is not None else []
    enough += [v.eq(K, most)] if most is not None else []
    v.each((n,), lambda j: v.Or(v.lt(g.rank(j), K), *enough), "complete, or enough points, or enough fronts")
    v.unchanged()


@proof("C02", R + "NonDominatedSorting.do")
def first_front(v):
    n, m = v.dim("n"), v.dim("m")
    F = v.array("F", (n, m))
    g = Ranking(v, F, n, m)

    def inv(L):
        size, at = v.parts(L["fronts"])
        return {
            "one front per rank": v.eq(v.len(L["fronts"]), L.k),
            "first front": v.implies(v.lt(0, L.k), v.And(v.forall(size(0), lambda p: v.And(v.le(0, at(0, p)), v.lt(at(0, p), n), v.eq(g.rank(at(0, p)), 0))),
                                                         v.forall(size(0), lambda p: v.forall(size(0), lambda q: v.implies(v.lt(p, q), v.lt(at(0, p), at(0, q))))),
                                                         v.forall(n, lambda j: v.implies(v.eq(g.rank(j), 0), v.exists(size(0), lambda p: v.eq(at(0, p), j)))))),
        }
    v.invariant(N.NonDominatedSorting.do, inv, modifies={"fronts": v.some_arrays("i")}, at="ranks")
    r = v.call(v.call(N.NonDominatedSorting).do, F, only_non_dominated_front=True)
    k = v.shape(r)[0]
    within = lambda i: v.exists(k, lambda p: v.eq(v.at(r, p), i))
    v.each((k,), lambda p: v.And(v.le(0, v.at(r, p)), v.lt(v.at(r, p), n)), "members are points")
    v.each((k, k), lambda p, q: v.implies(v.lt(p, q), v.lt(v.at(r, p), v.at(r, q))), "each once")
    v.lemma(v.eq(v.least(n, g.rank, "i"), 0), "some point is not dominated")
    v.ensures(v.le(1, k), "some point is not dominated")
    v.each((n,), lambda i: [v.iff(within(i), v.eq(g.rank(i), 0)), v.implies(within(i), v.forall(n, lambda j: v.Not(g.better(j, i)))),
                              v.implies(v.forall(n, lambda j: v.Not(g.better(j, i))), v.And(v.eq(g.rank(i), 0), within(i)))], "exactly the points nothing dominates")
    v.unchanged()


def first_front_contract(v):
    """what first_front proves"""
    def do(v, self, F, only_non_dominated_front=False, **kw):
        if not only_non_dominated_front or kw:
            raise v.sym.Unsupported("other call of the sorting than the contract is about")
        n, m = v.shape(F)
        F = v.old(v.arr(F))
        I, place = v.some_array((v.any("i"),), "i"), v.uf("place_in_front", 1)
        k = v.shape(I)[0]
        free = lambda i: v.forall(n, lambda j: v.Not(dominates(v, v.row(F, j), v.row(F, i), m)))
        v.given(v.And(v.le(0, k), v.le(k, n), v.implies(v.le(1, n), v.le(1, k))))
        v.assume_each((k,), lambda p: v.And(v.le(0, v.at(I, p)), v.lt(v.at(I, p), n), free(v.at(I, p)), v.eq(place(v.at(I, p)), p)))
        v.assume_each((k, k), lambda p, q: v.implies(v.lt(p, q), v.lt(v.at(I, p), v.at(I, q))))
        v.assume_each((n,), lambda i: v.implies(free(i), v.And(v.le(0, place(i)), v.lt(place(i), k), v.eq(v.at(I, place(i)), i))))
        return I
    v.use(N.NonDominatedSorting.do, do)


@proof("C02", R + "rank_from_fronts")
def ranks(v):
    n, K = v.dim("n"), v.dim("K")
    if v.native:
        r = np.random.default_rng(n * 100 + K)
        fr = [f for f in np.array_split(r.permutation(n), K)]
    else:
        length, front = v.uf("size", 1), v.uf("front", 2)
        v.every(lambda k: v.le(0, length(k)), length)
        v.every(lambda k, p: v.implies(v.And(v.le(0, p), v.lt(p, length(k))), v.And(v.le(0, front(k, p)), v.lt(front(k, p), n))), front)
        fr = v.sequence(K, lambda k: v.some((length(k),), "i", lambda p: front(k, p)))
        # a point is in one front
        v.assume_each((K, K), lambda k, l: v.implies(v.lt(k, l), v.forall(length(k), lambda p: v.forall(length(l), lambda q: v.ne(front(k, p), front(l, q))))))

    def inv(L):
        R = L["rank"]
        return {"ranks of the fronts so far": v.forall(L.k, lambda k: v.forall(length(k), lambda p: v.eq(v.at(R, front(k, p)), k)))}
    v.invariant(N.rank_from_fronts, inv, modifies={"rank": None})
    R_ = v.call(N.rank_from_fronts, fr, n)
    size, at = v.parts(fr)
    v.same_shape(R_, (n,), "one per point")
    v.each((K,), lambda k: v.forall(size(k), lambda p: v.eq(v.at(R_, at(k, p)), k)), "the rank is the number of the front")


@proof("C02", R + "find_non_dominated")
def alone(v):
    n, m = v.dim("n"), v.dim("m")
    F = v.array("F", (n, m))
    free = lambda i: v.forall(n, lambda j: v.Not(dominates(v, v.row(F, j), v.row(F, i), m)))
    # moocore (external, compiled): its definition is assumed; with keep_weakly=False it would drop duplicates

    def is_nondominated(v, A, keep_weakly=False, **kw):
        b = v.uf("kept", 1, "b")
        if not keep_weakly:
            v.given(v.forall(n, lambda i: v.implies(b(i), free(i))))
        else:
            v.given(v.forall(n, lambda i: v.iff(b(i), free(i))))
        return v.some((n,), "b", b)
    v.use(moocore.is_nondominated, is_nondominated)
    r = v.call(N.find_non_dominated, F)
    k = v.shape(r)[0]
    v.each((k,), lambda p: v.And(v.le(0, v.at(r, p)), v.lt(v.at(r, p), n)), "members are points")
    v.each((n,), lambda i: [v.implies(free(i), v.exists(k, lambda p: v.eq(v.at(r, p), i)))], "all that nothing dominates")
    v.each((k,), lambda p: free(v.at(r, p)), "only what nothing dominates")
    v.unchanged()


@proof("C02", R + "find_non_dominated")
def relative(v):
    n, m, q = v.dim("n"), v.dim("m"), v.dim("q")
    F, G = v.array("F", (n, m)), v.array("G", (q, m))
    free = lambda i: v.forall(q, lambda j: v.Not(dominates(v, v.row(G, j), v.row(F, i), m)))
    r = v.call(N.find_non_dominated, F, G)
    k = v.shape(r)[0]
    v.each((k,), lambda p: v.And(v.le(0, v.at(r, p)), v.lt(v.at(r, p), n)), "members are points")
    v.each((n,), lambda i: v.implies(free(i), v.exists(k, lambda p: v.eq(v.at(r, p), i))), "all that nothing dominates")
    v.each((k,), lambda p: free(v.at(r, p)), "only what nothing dominates")
    v.unchanged()
