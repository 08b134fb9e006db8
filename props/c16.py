import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from props.c15 import survival

FRONT_ORDER = ["cd", "pcd", "ce", "mnn", "2nn", "constr_cd", "hv", "nsga3", "rnsga2", "rnsga3", "age", "age2", "spea2", "spea2n"]
STORED_RANK = {"cd", "pcd", "ce", "mnn", "2nn", "constr_cd", "hv", "nsga3", "rnsga2", "rnsga3", "age", "age2"}


def draw(c, m, N=None, g=0):
    N = N or c.int(1, 14)
    style = c.pick("uniform", "grid", "grid2", "dup", "front", "const", "line", "dups_front", "neg")
    return mk.population(c, N, m=m, g=g, style=style)


@contract("C16", n=1500, target="pymoo.core.survival.Survival.do")
def fronts_first(c):
    name = c.pick(FRONT_ORDER)
    m = 2 if name == "rnsga2" else c.pick(2, 2, 3)
    pop = draw(c, m, g=c.pick(0, 0, 1))
    orig = [i for i in pop]
    N = len(orig)
    n = c.int(1, N)
    g = len(orig[0].G)
    P = mk.shell(pop if len(pop) else orig, m)
    F = pop.get("F").copy()
    cv = np.array([O.cv(i.G, i.H) for i in orig])
    c.note(survival=name, F=F, cv=cv, n_survive=n)
    out = survival(name, c, m).do(P, pop, n_survive=n, random_state=c.gen())
    pos = {id(o): i for i, o in enumerate(orig)}
    kept = [pos[id(o)] for o in out]
    feas = [i for i in range(N) if cv[i] <= 0]
    r = np.full(N, -1)
    if feas:
        r[feas] = O.ranks(F[feas])
    kf = [k for k in kept if cv[k] <= 0]
    df = [i for i in feas if i not in set(kept)]
    if name.startswith("spea2"):
        nd = [i for i in feas if r[i] == 0]
        if len(nd) <= n:
            c.ensures(set(nd) <= set(kept), "every non-dominated member is kept when they fit", kept=kept, nd=nd)
        else:
            c.ensures(set(kf) <= set(nd), "truncation only among the non-dominated members", kept=kept, nd=nd)
        if len(nd) <= n:
            f = {i: orig[i].get("SPEA_F") for i in feas}
            R = {i: spea_raw(F[feas], feas.index(i)) for i in feas}
            for i in feas:
                if not (name == "spea2n" and r[i] == 0):
                    c.ensures(R[i] <= f[i] < R[i] + 1, "fitness is the raw fitness plus a density below one", i=i, fitness=f[i], raw=R[i])
            c.ensures(all(R[i] <= R[j] for i in kf if r[i] > 0 for j in df), "dominated members are taken by smallest fitness", kept=kept)
    else:
        if kf and df:
            c.ensures(max(r[k] for k in kf) <= min(r[d] for d in df), "a better front is kept before a worse one", rank=r, kept=kept)
    c.ensures(not any(O.dominates(F[d], F[k]) for d in df for k in kf), "no kept member is dominated by a dropped one", kept=kept)
    if name in STORED_RANK:
        for k in kf:
            c.ensures(orig[k].get("rank") == r[k], "the stored rank is the true front number", stored=orig[k].get("rank"), true=r[k], i=k)


def spea_raw(F, i):
    S = [sum(O.dominates(F[a], F[b]) for b in range(len(F))) for a in range(len(F))]
    return sum(S[a] for a in range(len(F)) if O.dominates(F[a], F[i]))


@contract("C16", n=900, target="pymoo.operators.survival.rank_and_crowding.classes.RankAndCrowding._do")
def crowding_split(c):
    from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
    name = c.pick("cd", "cd", "pcd", "ce", "mnn", "2nn")
    m = c.pick(2, 3)
    pop = draw(c, m, N=c.int(3, 16))
    orig = [i for i in pop]
    F = pop.get("F").copy()
    n = c.int(1, len(orig))
    c.note(metric=name, F=F, n_survive=n)
    out = survival(name, c, m).do(mk.Shell(2, m, 0), pop, n_survive=n, random_state=c.gen())
    pos = {id(o): i for i, o in enumerate(orig)}
    kept = {pos[id(o)] for o in out}
    tot = 0
    for f in O.fronts(F):
        take = [i for i in f if i in kept]
        if len(take) == len(f):
            metric = get_crowding_function(name).do(F[f], n_remove=0)
            same_order = True
        elif take:
            metric = get_crowding_function(name).do(F[f], n_remove=len(f) - len(take))
            stored = [orig[i].get("crowding") for i in f]
            drop = [i for i in f if i not in kept]
            c.ensures(all(orig[a].get("crowding") >= orig[b].get("crowding") for a in take for b in drop),
                      "the members with the largest crowding values are kept", front=f, kept=take, crowding=stored)
        else:
            continue
        if sorted(map(tuple, F[f].tolist())) == sorted(set(map(tuple, F[f].tolist()))):
            # the order of the front is not prescribed: compare the values as a multiset
            c.eq(sorted(float(orig[i].get("crowding")) for i in f), sorted(float(v) for v in metric), "stored crowding is the metric of the whole front",
                 rtol=1e-9, atol=1e-12) if generic(F[f]) else None
        tot += 1
    c.ensures(tot >= 1, "some front contributes")


def generic(F):
    return all(len(np.unique(F[:, j])) == len(F) for j in range(F.shape[1]))


@contract("C16", n=350, target="pymoo.algorithms.moo.sms.LeastHypervolumeContributionSurvival._do")
def hypervolume_split(c):
    from moocore import hypervolume
    m = 2
    N = c.int(2, 10)
    pop = mk.population(c, N, m=m, style=c.pick("front", "uniform", "grid", "front"))
    orig = [i for i in pop]
    F = pop.get("F").copy()
    n = c.int(1, N)
    c.note(F=F, n_survive=n)
    given = c.chance(0.5)
    lo, hi = F.min(axis=0), F.max(axis=0)
    kw = dict(ideal=lo - c.real(0, 1), nadir=hi + c.real(0.1, 1)) if given else {}
    a, b = (kw["ideal"], kw["nadir"]) if given else (lo, hi)
    c.requires(np.all(b > a))
    out = survival("hv", c, m).do(mk.Shell(2, m, 0), pop, n_survive=n, random_state=c.gen(), **kw)
    pos = {id(o): i for i, o in enumerate(orig)}
    kept = [pos[id(o)] for o in out]
    Z = (F - a) / (b - a)
    ref = np.full(m, 11.0)

    def hv(rows):
        return hypervolume(Z[rows], ref=ref) if len(rows) else 0.0
    left = n
    for f in O.fronts(F):
        f = list(f)
        if len(f) <= left:
            c.ensures(set(f) <= set(kept), "complete fronts are kept")
            left -= len(f)
            continue
        while len(f) > left:
            tot = hv(f)
            con = [tot - hv([x for x in f if x != i]) for i in f]
            lo_ = min(con)
            cand = [i for i, v in zip(f, con) if v <= lo_ + 1e-9]
            if len(cand) > 1:      # a tie (or a difference within rounding): any of them may go
                if len({tuple(F[i]) for i in cand}) == 1 or True:
                    c.requires(False)
            f.remove(cand[0])
        c.eq(sorted(f), sorted(i for i in kept if i in set(f) or i in set(_front_of(F, f))), "the least contributor is dropped repeatedly")
        break


def _front_of(F, f):
    r = O.ranks(F)
    return [i for i in range(len(F)) if r[i] == r[f[0]]] if f else []


@contract("C16", n=300, target="pymoo.algorithms.moo.spea2.SPEA2Survival._do")
def spea2_truncation(c):
    """Truncation of the non-dominated members: lexicographically smallest distance vector goes first."""
    from pymoo.algorithms.moo.spea2 import SPEA2Survival
    N = c.int(3, 9)
    pop = mk.population(c, N, m=2, style="front")
    orig = [i for i in pop]
    F = pop.get("F").copy()
    c.requires(len(O.nondominated(F)) == N)
    n = c.int(1, N - 1)
    out = SPEA2Survival(normalize=False).do(mk.Shell(2, 2, 0), pop, n_survive=n, random_state=c.gen())
    D = np.sqrt(((F[:, None] - F[None]) ** 2).sum(-1))
    S = list(range(N))
    while len(S) > n:
        vec = {i: tuple(sorted(round(D[i, j], 9) for j in S if j != i)) for i in S}
        lo = min(vec.values())
        cand = [i for i in S if vec[i] == lo]
        c.requires(len(cand) == 1)
        S.remove(cand[0])
    pos = {id(o): i for i, o in enumerate(orig)}
    c.eq(sorted(pos[id(o)] for o in out), S, "the member with the smallest distances to the others is removed first", F=F, n=n)
