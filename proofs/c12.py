"""C12: mating selection."""
from pymoo.util.dominator import Dominator
from vp.prove import proof
from proofs.c01 import dominates
from pymoo.algorithms.moo import nsga2, nsga3, unsga3, sms, spea2
from pymoo.algorithms.soo.nonconvex import ga, ga_niching
from pymoo.operators.selection import tournament, rnd
from pymoo.util import misc

A = "pymoo.algorithms."
T = "pymoo.operators.selection.tournament."


class Alg:
    pass


def relation(v, a, b):
    """Dominator.get_relation, as proved by C01"""
    m = v.shape(a)[0]
    r = v.any("i")
    v.given(v.And(v.Or(v.eq(r, 0), v.eq(r, 1), v.eq(r, -1)), v.iff(v.eq(r, 1), dominates(v, a, b, m)), v.iff(v.eq(r, -1), dominates(v, b, a, m))))
    return r


def contest(v, f, better, m=1, algorithm=False, **fields):
    """`better(i, j)`: a formula under which i has to win against j"""
    n, k = v.dim("n"), v.dim("k")
    pop = v.population("pop", n, F=(m,), CV=(1,), **fields)
    P = v.indices("P", (k, 2), n)
    get = {key: v.arr(pop.get(key) if v.native else v.call(v.getattr(pop, "get"), key)) for key in ["F", "CV"] + list(fields)}
    S = v.call(f, pop, P, algorithm=algorithm, random_state=v.rng()) if algorithm else v.call(f, pop, P, random_state=v.rng())
    v.same_shape(S, (k, 1), "one winner per tournament")
    v.each((k,), lambda i: v.Or(v.eq(v.at(S, i, 0), v.at(P, i, 0)), v.eq(v.at(S, i, 0), v.at(P, i, 1))), "the winner is a contestant")
    cv = lambda i: v.at(get["CV"], i, 0)

    def rule(i, w, l):
        w, l, s = v.at(P, i, w), v.at(P, i, l), v.at(S, i, 0)
        some = v.Or(v.lt(0, cv(w)), v.lt(0, cv(l)))
        val = lambda key, *ix: (lambda q: v.at(get[key], q, *ix))
        return (v.implies(v.And(some, v.lt(cv(w), cv(l))), v.eq(s, w)),
                v.implies(v.And(v.Not(some), better(val, w, l)), v.eq(s, w)))
    v.each((k,), lambda i: rule(i, 0, 1) + rule(i, 1, 0), "the better contestant wins")
    for key, A_ in get.items():
        v.same(pop.get(key) if v.native else v.call(v.getattr(pop, "get"), key), A_, "contestants are unchanged")


@proof("C12", [A + "soo.nonconvex.ga.comp_by_cv_and_fitness", T + "compare"])
def fitness(v):
    contest(v, ga.comp_by_cv_and_fitness, lambda val, w, l: v.lt(val("F", 0)(w), val("F", 0)(l)))


@proof("C12", A + "moo.nsga3.comp_by_cv_then_random")
def violation(v):
    contest(v, nsga3.comp_by_cv_then_random, lambda val, w, l: False, m=2)


@proof("C12", A + "moo.nsga2.binary_tournament")
def rank_and_crowding(v):
    a = v.obj(Alg, tournament_type="comp_by_rank_and_crowding", random_state=v.rng())
    contest(v, nsga2.binary_tournament, lambda val, w, l: v.Or(v.lt(val("rank")(w), val("rank")(l)), v.And(v.eq(val("rank")(w), val("rank")(l)), v.lt(val("crowding")(l), val("crowding")(w)))),
            m=v.dim("m"), algorithm=a, rank=((), "i"), crowding=((), "f"))


@proof("C12", A + "moo.nsga2.binary_tournament")
def dominance_and_crowding(v):
    v.use(Dominator.get_relation, relation)
    m = v.dim("m")
    a = v.obj(Alg, tournament_type="comp_by_dom_and_crowding", random_state=v.rng())

    def better(val, w, l):
        at = lambda q, j: val("F", j)(q)
        dom = lambda x, y: v.And(v.forall(m, lambda j: v.le(at(x, j), at(y, j))), v.exists(m, lambda j: v.lt(at(x, j), at(y, j))))
        return v.Or(dom(w, l), v.And(v.Not(dom(l, w)), v.lt(val("crowding")(l), val("crowding")(w))))
    contest(v, nsga2.binary_tournament, better, m=m, algorithm=a, rank=((), "i"), crowding=((), "f"))


@proof("C12", A + "moo.sms.cv_and_dom_tournament")
def dominance(v):
    v.use(Dominator.get_relation, relation)
    m = v.dim("m")

    def better(val, w, l):
        at = lambda q, j: val("F", j)(q)
        return v.And(v.forall(m, lambda j: v.le(at(w, j), at(l, j))), v.exists(m, lambda j: v.lt(at(w, j), at(l, j))))
    contest(v, sms.cv_and_dom_tournament, better, m=m)


@proof("C12", A + "moo.unsga3.comp_by_rank_and_ref_line_dist")
def niche(v):
    def better(val, w, l):
        r, d, q = val("rank"), val("dist_to_niche"), val("niche")
        return v.And(v.eq(q(w), q(l)), v.Or(v.lt(r(w), r(l)), v.And(v.eq(r(w), r(l)), v.lt(d(w), d(l)))))
    contest(v, unsga3.comp_by_rank_and_ref_line_dist, better, m=2, rank=((), "i"), dist_to_niche=((), "f"), niche=((), "i"))


@proof("C12", A + "moo.spea2.spea_binary_tournament")
def strength(v):
    a = v.obj(Alg, random_state=v.rng())
    contest(v, spea2.spea_binary_tournament, lambda val, w, l: v.lt(val("SPEA_F")(w), val("SPEA_F")(l)), m=2, algorithm=a, SPEA_F=((), "f"))


@proof("C12", A + "soo.nonconvex.ga_niching.comp_by_cv_and_clearing_fitness")
def clearing(v):
    def better(val, w, l):
        t, r = val("iter"), val("rank")
        return v.Or(v.lt(t(w), t(l)), v.And(v.eq(t(w), t(l)), v.lt(r(w), r(l))))
    contest(v, ga_niching.comp_by_cv_and_clearing_fitness, better, rank=((), "i"), iter=((), "i"))


@proof("C12", T + "compare")
def compare(v):
    a, b, x, y = v.scalar("a", "i"), v.scalar("b", "i"), v.scalar("x"), v.scalar("y")
    method = v.pick("method", "larger_is_better", "smaller_is_better", "other")
    rnd_ = v.flag("return_random_if_equal")
    r = v.call(tournament.compare, a, x, b, y, method=method, return_random_if_equal=rnd_, random_state=v.rng(), raises=ValueError)
    if method == "other":
        v.ensures(getattr(r, "cls", None) is ValueError, "an unknown method is refused")
        return
    first, second = (v.lt(y, x), v.lt(x, y)) if method[0] == "l" else (v.lt(x, y), v.lt(y, x))
    if r is None:
        v.ensures(v.And(not rnd_, v.eq(x, y)), "no winner only of a tie")
        return
    v.ensures(v.And(v.Or(v.eq(r, a), v.eq(r, b)), v.implies(first, v.eq(r, a)), v.implies(second, v.eq(r, b)), v.implies(v.eq(x, y), rnd_)), "the better value wins, a tie is broken at random")


@proof("C12", ["pymoo.operators.selection.rnd.RandomSelection._do", "pymoo.util.misc.random_permutations"])
def random_selection(v):
    n, k, p = v.dim("n"), v.dim("k"), v.dim("p", hi=4)
    pop = v.population("pop", n, F=(1,))
    I = v.call(rnd.RandomSelection()._do, None, pop, k, p, random_state=v.rng())
    v.same_shape(I, (k, p), "the requested number of parents for every mating")
    v.each((k, p), lambda i, j: v.And(v.le(0, v.at(I, i, j)), v.lt(v.at(I, i, j), n)), "parents are members of the population")


@proof("C12", T + "TournamentSelection._do")
def tournament_selection(v):
    n, k, p, q = v.dim("n"), v.dim("k"), v.dim("p", hi=3), v.dim("q", lo=2, hi=3)
    pop = v.population("pop", n, F=(1,), CV=(1,))

    def comp(pop, P, random_state=None, **kw):
        v.same_shape(P, (k * p, q) if v.native else (v.mul(k, p), q), "one tournament per parent with the given pressure")
        return P[:, :1]
    S = v.call(tournament.TournamentSelection(func_comp=comp, pressure=q)._do, None, pop, k, p, random_state=v.rng())
    v.same_shape(S, (k, p), "the requested number of parents for every mating")
    v.each((k, p), lambda i, j: v.And(v.le(0, v.at(S, i, j)), v.lt(v.at(S, i, j), n)), "winners are members of the population")
