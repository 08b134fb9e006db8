"""C25: archives hold the best solutions seen and stay bounded."""
import numpy as np
from vp.prove import proof, code
from proofs.c01 import dominates
from proofs.c02 import first_front_contract
from proofs.c13 import field
from pymoo.util import archive as A
from pymoo.core.duplicate import DefaultDuplicateElimination

R = "pymoo.util.archive."


class Unique:
    """what a duplicate elimination does (C13): a selection; what is dropped equals something kept"""

    def __init__(self, v, same):
        self.v, self.same = v, same

    def do(self, pop):
        v = self.v
        if v.native:
            return DefaultDuplicateElimination(epsilon=1e-32).do(pop)
        Q = v.individuals(pop)
        n = v.shape(Q)[0]
        keep = v.some_array((n,), "b")
        twin = v.uf("twin", 1)
        v.assume_each((n,), lambda i: v.And(v.le(0, twin(i)), v.lt(twin(i), n), v.at(keep, twin(i)), self.same(v.at(Q, i), v.at(Q, twin(i)))))
        v.assume_each((n, n), lambda i, j: v.implies(v.And(v.lt(i, j), v.at(keep, i), v.at(keep, j)), v.Not(self.same(v.at(Q, i), v.at(Q, j)))))
        return pop[keep]


class Truncate:
    """any choice of the given number of members"""

    @code
    def __call__(self, sols, k, random_state=None):
        return sols[random_state.permutation(len(sols))[:k]]


def best(v, cls):
    multi = cls is A.MultiObjectiveArchive
    m = v.dim("m", 2) if multi else 1
    n = v.dim("n")
    pop = v.population("pop", n, F=(m,), CV=(1,))
    P, F, CV = v.individuals(pop), field(v, pop, "F"), field(v, pop, "CV")
    first_front_contract(v)
    r = v.call(v.call(cls)._find_opt, pop)
    Q = v.individuals(r)
    k = v.shape(Q)[0]
    feas = lambda i: v.le(v.at(CV, i, 0), 0)
    better = lambda i, j: v.Or(v.And(feas(i), v.Not(feas(j))), v.And(feas(i), feas(j), dominates(v, v.row(F, i), v.row(F, j), m)),
                               v.And(v.Not(feas(i)), v.Not(feas(j)), v.lt(v.at(CV, i, 0), v.at(CV, j, 0))))
    found = lambda j: v.exists(k, lambda p: v.eq(v.at(Q, p), v.at(P, j)))
    v.ensures(v.le(1, k), "there is a best one")
    v.each((k,), lambda p: v.exists(n, lambda j: v.eq(v.at(Q, p), v.at(P, j))), "members of the population")
    v.each((k, k), lambda p, q: v.implies(v.lt(p, q), v.ne(v.at(Q, p), v.at(Q, q))), "each once")
    v.each((n, n), lambda j, i: v.implies(found(j), v.Not(better(i, j))), "nothing is better")
    v.each((n,), lambda j: v.implies(v.forall(n, lambda i: v.Not(better(i, j))), found(j)), "all that nothing is better than")
    v.unchanged()


def best_contract(v, cls, n, better, free):
    """what best proves (for the n solutions it is called with)"""
    def find(v, self, sols):
        I, place = v.some_array((v.any("i"),), "i"), v.uf("place_of_best", 1)
        k = v.shape(I)[0]
        v.given(v.And(v.le(1, k), v.le(k, n), v.eq(v.len(sols), n)))
        v.assume_each((k,), lambda p: v.And(v.le(0, v.at(I, p)), v.lt(v.at(I, p), n), v.eq(place(v.at(I, p)), p)))
        v.assume_each((k,), lambda p: free(v.at(I, p)))
        v.assume_each((n,), lambda j: v.implies(free(j), v.And(v.le(0, place(j)), v.lt(place(j), k), v.eq(v.at(I, place(j)), j))))
        return sols[I]
    v.use(cls._find_opt, find)


@proof("C25", [R + "SingleObjectiveArchive._find_opt", R + "Archive.__new__", R + "SingleObjectiveArchive.__new__"])
def best_single(v):
    best(v, A.SingleObjectiveArchive)


@proof("C25", [R + "MultiObjectiveArchive._find_opt", R + "Archive.__new__", R + "MultiObjectiveArchive.__new__"])
def best_multi(v):
    best(v, A.MultiObjectiveArchive)


def step(v, cls):
    """one addition: what the archive holds afterwards is the best of what it held and what was added"""
    multi = cls is A.MultiObjectiveArchive
    m = v.dim("m", 2) if multi else 1
    held, new = v.dim("held", 0), v.dim("new")
    a = v.population("held", held, X=(1,), F=(m,), CV=(1,))
    b = v.population("new", new, X=(1,), F=(m,), CV=(1,))
    Pa, Pb = v.individuals(a), v.individuals(b)
    n = v.add(held, new)
    pick = lambda x, y: lambda i, *j: v.ite(v.lt(i, held), lambda: v.at(x, i, *j), lambda: v.at(y, v.sub(i, held), *j))
    P, F, CV, X = pick(Pa, Pb), pick(field(v, a, "F"), field(v, b, "F")), pick(field(v, a, "CV"), field(v, b, "CV")), pick(field(v, a, "X"), field(v, b, "X"))
    limit = v.dim("limit") if v.flag("limited") else None
    cut = v.dim("cut") if limit is not None and v.flag("cut_down") else None
    if v.native:
        same = lambda x, y: np.array_equal(byref[int(x)].X, byref[int(y)].X)
        byref = {int(r): i for q, pop in ((Pa, a), (Pb, b)) for r, i in zip(q, pop)}
    else:
        same = v.uf("equal", 2, "b")
        v.every(lambda x, y: v.And(same(x, x), v.eq(same(x, y), same(y, x))), same)
        # equal solutions have equal values
        v.assume_each((n, n), lambda i, j: v.implies(same(P(i), P(j)), v.And(v.eq(CV(i, 0), CV(j, 0)), v.forall(m, lambda k: v.eq(F(i, k), F(j, k))))))
    feas = lambda i: v.le(CV(i, 0), 0)
    better = lambda i, j: v.Or(v.And(feas(i), v.Not(feas(j))),
                               v.And(feas(i), feas(j), v.forall(m, lambda d: v.le(F(i, d), F(j, d))), v.exists(m, lambda d: v.lt(F(i, d), F(j, d)))),
                               v.And(v.Not(feas(i)), v.Not(feas(j)), v.lt(CV(i, 0), CV(j, 0))))
    free = v.named("free", (n,), lambda j: v.forall(n, lambda i: v.Not(better(i, j))))
    best_contract(v, cls, n, better, free)
    kw = dict(truncate_size=cut) if multi else {}
    H = v.call(cls, individuals=a, max_size=limit, truncation=Truncate(), duplicate_elimination=Unique(v, same), **kw)
    r = v.call(H.add, b, random_state=v.rng())
    Q = v.individuals(r)
    k = v.shape(Q)[0]
    kept = lambda j: v.exists(k, lambda p: v.eq(v.at(Q, p), P(j)))
    if limit is not None:
        v.ensures(v.le(k, limit), "never more than the maximum size")
    v.ensures(v.le(1, k), "not empty")
    v.each((k,), lambda p: v.exists(n, lambda j: v.eq(v.at(Q, p), P(j))), "members were held or added")
    v.each((k, k), lambda p, q: v.implies(v.lt(p, q), v.Not(same(v.at(Q, p), v.at(Q, q)))), "no duplicates")
    v.each((n,), lambda j: v.implies(kept(j), free(j)), "nothing held or added is better")
    full = False if limit is None else v.le(limit if cut is None else v.min(limit, cut), k)
    v.each((n,), lambda j: v.implies(free(j), v.Or(full, v.exists(k, lambda p: same(v.at(Q, p), P(j))))), "the best ones are held, unless there are too many")
    v.same(v.individuals(H), Pa, "the archive added to is as it was")
    v.unchanged()


@proof("C25", R + "Archive.add")
def step_single(v):
    step(v, A.SingleObjectiveArchive)


@proof("C25", R + "Archive.add")
def step_multi(v):
    step(v, A.MultiObjectiveArchive)
