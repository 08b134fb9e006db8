import math
import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population


def even(counts, total, n):
    return all(c in (total // n, -(-total // n)) for c in counts)


@contract("C12", n=800, target="pymoo.operators.selection.rnd.RandomSelection")
def random_selection(c):
    from pymoo.operators.selection.rnd import RandomSelection
    N, k, p = c.int(1, 8), c.int(1, 9), c.int(1, 4)
    pop = mk.population(c, N)
    I = RandomSelection()._do(None, pop, k, p, random_state=c.gen())
    c.eq(np.shape(I), (k, p), "the requested number of parents for every mating")
    c.ensures(np.asarray(I).dtype.kind in "iu" and np.all((I >= 0) & (I < N)), "parents are members of the population")
    cnt = np.bincount(np.asarray(I).ravel(), minlength=N)
    c.ensures(even(cnt, k * p, N), "members are used evenly", counts=cnt)
    r = c.int(0, 10 ** 6)
    P = RandomSelection()(mk.Shell(), pop, k, p, random_state=np.random.default_rng(r))
    c.eq(P.shape, (k, p), "matings hold solutions")
    ids = set(O.ids(pop))
    c.ensures(all(id(x) in ids for x in P.ravel()), "parents are the population's own members")
    J = RandomSelection()(mk.Shell(), pop, k, p, to_pop=False, random_state=np.random.default_rng(r))
    c.ensures(all(pop[int(j)] is x for j, x in zip(np.asarray(J).ravel(), P.ravel())), "indices and solutions agree")


@contract("C12", n=1000, target="pymoo.operators.selection.tournament.TournamentSelection")
def tournament_pool(c):
    from pymoo.operators.selection.tournament import TournamentSelection
    N, k, p, q = c.int(2, 8), c.int(1, 8), c.int(1, 3), c.int(2, 3)
    pop = mk.population(c, N)
    seen = []

    def comp(pop, P, random_state=None, **kw):
        seen.append(P.copy())
        return P[np.arange(len(P)), random_state.integers(0, P.shape[1], len(P))][:, None]
    S = TournamentSelection(func_comp=comp, pressure=q)._do(None, pop, k, p, random_state=c.gen())
    P = seen[0]
    c.eq(P.shape, (k * p, q), "one tournament per parent with the given pressure")
    c.eq(np.shape(S), (k, p), "the requested number of parents for every mating")
    c.ensures(all(s in row for s, row in zip(np.ravel(S), P)), "the winner is one of the contestants")
    c.ensures(even(np.bincount(P.ravel(), minlength=N), P.size, N), "contestants are drawn evenly", counts=np.bincount(P.ravel(), minlength=N))


def contest(c, comp, pop, label, better, **attrs):
    """`better(i, j)` is True when i must win, False when j must win, None when either may."""
    N = len(pop)
    P = np.array([[c.int(0, N - 1), c.int(0, N - 1)] for _ in range(c.int(1, 6))])
    data = O.data(pop)
    alg = attrs.pop("algorithm", None)
    kw = dict(algorithm=alg) if alg is not None else {}
    S = np.asarray(comp(pop, P, random_state=c.gen(), **kw))
    c.eq(S.shape, (len(P), 1), "one winner per tournament")
    for (i, j), s in zip(P, S[:, 0]):
        c.ensures(s in (i, j), "the winner is one of the two contestants", pair=(i, j), winner=s)
        w = better(int(i), int(j))
        if w is True:
            c.ensures(s == i, label, pair=(i, j), winner=s)
        elif w is False:
            c.ensures(s == j, label, pair=(i, j), winner=s)
    c.ensures(O.same_data(data, O.data(pop)), "contestants are unchanged")


def cvs(pop):
    return [O.cv(i.G, i.H) for i in pop]


def by_cv(cv, i, j):
    if cv[i] > 0 or cv[j] > 0:
        if cv[i] < cv[j]:
            return True
        if cv[j] < cv[i]:
            return False
        return None
    return "feasible"


def mirror(v):
    return None if v is None else not v


def lex(*vals):
    for a, b in vals:
        if a < b:
            return True
        if a > b:
            return False
    return None


@contract("C12", n=1500, target="pymoo.algorithms")
def tournaments(c):
    N = c.int(2, 7)
    which = c.pick("ga", "nsga2_rank", "nsga2_dom", "nsga3", "unsga3", "rnsga", "ctaea_skip", "spea2", "sms", "niche", "age")
    m = 1 if which in ("ga", "niche") else c.pick(2, 3)
    pop = mk.population(c, N, m=m, g=c.pick(0, 1, 2), style=c.pick("grid", "grid2", "uniform", "dup"), eq=c.chance(.2))
    F, cv = pop.get("F"), cvs(pop)
    rank, crowd = c.rng.integers(0, 3, N), c.pick(c.rng.integers(0, 3, N).astype(float), np.where(c.rng.random(N) < 0.4, np.inf, c.rng.random(N)))
    for i, ind in enumerate(pop):
        ind.set("rank", int(rank[i]))
        ind.set("crowding", float(crowd[i]))
    c.note(comparator=which, F=F, cv=cv, rank=rank, crowding=crowd)

    class Alg:
        tournament_type = "comp_by_rank_and_crowding"
        random_state = c.gen()
    if which == "ga":
        from pymoo.algorithms.soo.nonconvex.ga import comp_by_cv_and_fitness as f

        def better(i, j):
            b = by_cv(cv, i, j)
            return lex((F[i, 0], F[j, 0])) if b == "feasible" else b
        contest(c, f, pop, "smaller violation, then smaller objective wins", better)
    elif which in ("nsga2_rank", "nsga2_dom", "age"):
        from pymoo.algorithms.moo.nsga2 import binary_tournament as f
        a = Alg()
        if which == "nsga2_dom":
            a.tournament_type = "comp_by_dom_and_crowding"

        def better(i, j):
            b = by_cv(cv, i, j)
            if b != "feasible":
                return b
            if which == "nsga2_dom":
                d = O.relation(F[i], F[j])
                return True if d == 1 else False if d == -1 else lex((-crowd[i], -crowd[j]))
            return lex((rank[i], rank[j]), (-crowd[i], -crowd[j]))
        contest(c, f, pop, "smaller violation, then better rank or dominating, then larger crowding wins", better, algorithm=a)
    elif which == "nsga3":
        from pymoo.algorithms.moo.nsga3 import comp_by_cv_then_random as f
        contest(c, f, pop, "smaller violation wins", lambda i, j: None if by_cv(cv, i, j) == "feasible" else by_cv(cv, i, j))
    elif which == "unsga3":
        from pymoo.algorithms.moo.unsga3 import comp_by_rank_and_ref_line_dist as f
        niche, dist = c.rng.integers(0, 2, N), c.rng.integers(0, 3, N) / 2.0
        for i, ind in enumerate(pop):
            ind.set("niche", int(niche[i]))
            ind.set("dist_to_niche", float(dist[i]))

        def better(i, j):
            b = by_cv(cv, i, j)
            if b != "feasible":
                return b
            return lex((rank[i], rank[j]), (dist[i], dist[j])) if niche[i] == niche[j] else None
        contest(c, f, pop, "smaller violation, then within a niche rank, then distance wins", better)
    elif which == "rnsga":
        from pymoo.algorithms.moo.rnsga2 import RNSGA2
        from pymoo.algorithms.moo.nsga2 import binary_tournament as f
        a = Alg()
        contest(c, f, pop, "smaller violation, then rank, then crowding wins",
                lambda i, j: by_cv(cv, i, j) if by_cv(cv, i, j) != "feasible" else lex((rank[i], rank[j]), (-crowd[i], -crowd[j])), algorithm=a)
    elif which == "spea2":
        from pymoo.algorithms.moo.spea2 import spea_binary_tournament as f
        fit = c.rng.integers(0, 3, N) / 2.0
        for i, ind in enumerate(pop):
            ind.set("SPEA_F", float(fit[i]))

        def better(i, j):
            b = by_cv(cv, i, j)
            return lex((fit[i], fit[j])) if b == "feasible" else b
        contest(c, f, pop, "smaller violation, then smaller strength fitness wins", better, algorithm=Alg())
    elif which == "sms":
        from pymoo.algorithms.moo.sms import cv_and_dom_tournament as f

        def better(i, j):
            b = by_cv(cv, i, j)
            if b != "feasible":
                return b
            d = O.relation(F[i], F[j])
            return True if d == 1 else False if d == -1 else None
        contest(c, f, pop, "smaller violation, then dominating wins", better)
    elif which == "niche":
        from pymoo.algorithms.soo.nonconvex.ga_niching import comp_by_cv_and_clearing_fitness as f

        it = c.rng.integers(0, 3, N)
        for i, ind in enumerate(pop):
            ind.set("iter", int(it[i]))

        def better(i, j):
            b = by_cv(cv, i, j)
            return lex((it[i], it[j]), (rank[i], rank[j])) if b == "feasible" else b
        contest(c, f, pop, "smaller violation, then earlier round, then better rank wins", better)


@contract("C12", n=500, target="pymoo.operators.selection.tournament.compare")
def compare_function(c):
    from pymoo.operators.selection.tournament import compare
    a, b = c.int(0, 3), c.int(0, 3)
    m = c.pick("larger_is_better", "smaller_is_better")
    s = 1 if m.startswith("s") else -1
    rnd = c.chance(0.5)
    r = compare("A", a, "B", b, m, return_random_if_equal=rnd, random_state=c.gen())
    if s * a < s * b:
        c.eq(r, "A", "the better value wins")
    elif s * b < s * a:
        c.eq(r, "B", "the better value wins")
    else:
        c.ensures(r in ("A", "B") if rnd else r is None, "a tie is broken at random or reported")
    c.ensures(c.fails(lambda: compare(1, 1, 2, 2, "other")), "an unknown method is refused")


@contract("C12", n=500, target="pymoo.operators.selection.des.DES")
def de_selection(c):
    from pymoo.operators.selection.des import DES
    N = c.int(6, 12)
    variant = c.pick("ranked", "best", "current-to-best", "current-to-rand", "rand")
    k = {"current-to-best": 5, "current-to-rand": 5}.get(variant, c.pick(4, 6) if variant == "ranked" else c.pick(3, 5))
    pop = mk.population(c, N)
    for i, ind in enumerate(pop):
        ind.set("rank", c.int(0, 2))
    c.note(variant=variant, N=N)
    P = DES(variant)._do(None, pop, N, k, random_state=c.gen())
    c.eq(P.shape, (N, k), "the requested number of parents for every mating")
    c.ensures(np.all((P >= 0) & (P < N)), "parents are members of the population")
    if variant in ("rand", "ranked"):
        c.eq(P[:, 0], np.arange(N), "every member is a target once")
        c.ensures(all(len(set(r)) == k for r in P.tolist()), "the parents of a mating are distinct", P=P)


@contract("C12", n=400, target="pymoo.operators.selection.rnd.fast_fill_random")
def fill_random(c):
    from pymoo.operators.selection.rnd import fast_fill_random
    N = c.int(5, 12)
    n, k = c.int(1, N), c.int(1, 3)
    P = np.full((n, k), -1)
    itself = np.arange(n)[:, None]
    fast_fill_random(P, N, columns=range(k), Xp=itself if c.chance(0.6) else None, n_max_attempts=1000, random_state=c.gen())
    c.ensures(np.all((P >= 0) & (P < N)), "filled with members of the population", P=P)
    c.ensures(all(len(set(r)) == k for r in P.tolist()), "distinct within a mating", P=P)


@contract("C12", n=300, target="pymoo.algorithms.soo.nonconvex.brkga.EliteBiasedSelection")
def elite_selection(c):
    from pymoo.algorithms.soo.nonconvex.brkga import EliteBiasedSelection
    N = c.int(2, 9)
    pop = mk.population(c, N, m=1)
    t = np.array(["elite" if i == 0 or c.chance(0.4) else "non_elite" for i in range(N)])
    pop.set("type", t)
    k = c.int(1, 8)
    P = EliteBiasedSelection()._do(None, pop, k, 2, random_state=c.gen())
    c.eq(P.shape, (k, 2), "two parents per mating")
    c.ensures(np.all(t[P[:, 0]] == "elite"), "the first parent is an elite")
    c.ensures(np.all(t[P[:, 1]] == ("non_elite" if np.any(t == "non_elite") else "elite")), "the second parent is not an elite when there is one")
