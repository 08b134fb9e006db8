"""C16: better fronts first, then diversity."""
import numpy as np
from vp.prove import proof, code
from proofs.c13 import field
from proofs.c19 import Problem
from pymoo.operators.survival.rank_and_crowding import classes as RC
from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
from pymoo.util import randomized_argsort as RA

R = "pymoo.operators.survival.rank_and_crowding.classes."


class Fronts:
    """what a non-dominated sorting returns (C01): the fronts of a ranking, enough to fill the survivors"""

    def __init__(self, v, n, want, F=None):
        if v.native:
            self.fronts = [np.asarray(f) for f in NonDominatedSorting().do(F, n_stop_if_ranked=want)]
            r = np.full(n, len(self.fronts))
            for k, f in enumerate(self.fronts):
                r[f] = k
            self.rank, self.count, self.size = (lambda j: int(r[int(j)])), len(self.fronts), (lambda k: len(self.fronts[int(k)]))
            return
        self.count = v.dim("fronts", 1)
        self.size, self.rank = v.uf("size", 1), v.uf("rank_of", 1)
        place, cum = v.uf("place", 1), v.uf("before", 1)
        member = v.uf("front", 2, inverse=lambda k, j: place(j))
        K = self.count
        v.assume_each((K,), lambda k: v.And(v.le(1, self.size(k)), v.eq(cum(v.add(k, 1)), v.add(cum(k), self.size(k))), v.le(0, cum(k))))
        v.requires(v.eq(cum(0), 0))
        v.requires(v.le(want, cum(K)))
        v.every(lambda k, p: v.implies(v.And(v.le(0, k), v.lt(k, K), v.le(0, p), v.lt(p, self.size(k))), v.And(
            v.le(0, member(k, p)), v.lt(member(k, p), n), v.eq(self.rank(member(k, p)), k), v.eq(place(member(k, p)), p))), lambda k, p: member(k, p))
        v.every(lambda j: v.implies(v.And(v.le(0, j), v.lt(j, n)), v.And(v.le(0, self.rank(j)), v.implies(v.lt(self.rank(j), K), v.And(
            v.le(0, place(j)), v.lt(place(j), self.size(self.rank(j))), v.eq(member(self.rank(j), place(j)), j))))), lambda j: self.rank(j))
        self.cum, self.member = cum, member
        self.fronts = v.sequence(K, lambda k: v.some(( self.size(k),), "i", lambda p: member(k, p)))

    def do(self, F, n_stop_if_ranked=None, **kwargs):
        return self.fronts


class Crowding:
    """any crowding values"""

    def __init__(self, v):
        self.v, self.last = v, None

    def do(self, F, n_remove=0):
        if self.v.native:
            return np.random.default_rng(len(F)).integers(0, 3, len(F)).astype(float)
        self.last = self.v.some_array((F.shape[0],))
        return self.last


@proof("C16", R + "RankAndCrowding._do")
def rank_and_crowding(v):
    n, want = v.dim("n"), v.dim("want")
    v.requires(v.le(want, n))
    pop = v.population("pop", n, F=(2,), rank=((), "i"), crowding=())
    P = v.individuals(pop)
    nds = Fronts(v, n, want, field(v, pop, "F"))
    s = v.call(RC.RankAndCrowding, nds=nds)
    v.setattr(s, "crowding_func", Crowding(v))
    rank = nds.rank

    def inv(L):
        S = L["survivors"]
        m, at = v.len(S), lambda i: v.at(S, i)
        R, C = field(v, pop, "rank"), field(v, pop, "crowding")
        kept = lambda j: v.exists(m, lambda i: v.eq(at(i), j))
        C1 = s.crowding_func.last
        # (of the iteration just done)
        now = {} if C1 is None else {"crowding values are stored": v.forall(v.shape(C1)[0], lambda p: v.eq(v.at(C, nds.member(v.sub(L.k, 1), p)), v.at(C1, p)))}
        return {
            **now,
            "the number of survivors": v.eq(m, v.min(nds.cum(L.k), want)),
            "survivors are members of the fronts so far": v.forall(m, lambda i: v.And(v.le(0, at(i)), v.lt(at(i), n), v.lt(rank(at(i)), L.k))),
            "each once": v.forall(m, lambda a: v.forall(m, lambda b: v.implies(v.lt(a, b), v.ne(at(a), at(b))))),
            "all members of the fronts so far, unless full": v.Or(v.eq(m, want), v.forall(n, lambda j: v.implies(v.lt(rank(j), L.k), kept(j)))),
            "members of better fronts": v.forall(m, lambda i: v.forall(n, lambda j: v.implies(v.lt(rank(j), rank(at(i))), kept(j)))),
            "less crowded ones of the same front": v.forall(m, lambda i: v.forall(n, lambda j: v.implies(v.eq(rank(j), rank(at(i))), v.Or(kept(j), v.le(v.at(C, j), v.at(C, at(i))))))),
            "ranks": v.forall(n, lambda j: v.implies(v.lt(rank(j), L.k), v.eq(v.at(R, j), rank(j)))),
        }
    v.invariant(RC.RankAndCrowding._do, inv, modifies={"survivors": v.some_list("i"), "@rank": None, "@crowding": None, "self.crowding_func.last": lambda: None}, at="survivors")
    r = v.call(s._do, Problem(), pop, n_survive=want, random_state=v.rng())
    Q, R, C = v.individuals(r), field(v, pop, "rank"), field(v, pop, "crowding")
    v.same_shape(Q, (want,), "as many as asked for")
    kept = lambda j: v.exists(want, lambda i: v.eq(v.at(Q, i), v.at(P, j)))
    where = lambda i, f: v.forall(n, lambda j: v.implies(v.eq(v.at(P, j), v.at(Q, i)), f(j)))
    v.each((want,), lambda i: v.exists(n, lambda j: v.eq(v.at(Q, i), v.at(P, j))), "members of the population")
    v.each((want, want), lambda a, b: v.implies(v.lt(a, b), v.ne(v.at(Q, a), v.at(Q, b))), "each once")
    v.each((n, n), lambda i, j: v.implies(v.And(kept(i), v.lt(rank(j), rank(i))), kept(j)), "better fronts first")
    v.each((n, n), lambda i, j: v.implies(v.And(kept(i), v.eq(rank(j), rank(i)), v.lt(v.at(C, i), v.at(C, j))), kept(j)), "then the largest crowding values")
    v.each((n,), lambda i: v.implies(kept(i), v.eq(v.at(R, i), rank(i))), "the rank stored is the number of the front")
    v.unchanged()
