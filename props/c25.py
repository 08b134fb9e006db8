"""C25: archives stay bounded and hold exactly the best solutions seen."""
import numpy as np
from vp.rt import contract
from vp import mk, oracle

ASSUMPTIONS = ["equal solutions are those with equal variables up to the archive's tolerance 1e-32"]


def batch(c, m, pool, constr):
    n = c.int(1, 6)
    d = 2
    if pool and c.chance(.4):
        k = [pool[c.int(0, len(pool) - 1)] for _ in range(n)]
        X = np.array([p[0] for p in k])
        if c.chance(.5):
            X = X + 0.0
        F = np.array([p[1] for p in k])
        G = np.array([p[2] for p in k])
    else:
        X = c.rng.integers(0, 50, (n, d)).astype(float)
        X[:, 0] += 50.0 * (len(pool) + np.arange(n))      # one objective vector per decision vector
        F = c.rng.integers(0, 5, (n, m)).astype(float) if c.chance(.6) else c.points(n, m)
        G = c.rng.integers(-1, 3, (n, 1)).astype(float) if constr else -np.ones((n, 1))
        if c.chance(.3):
            G[:] = -1
    for i in range(n):
        pool.append((X[i].copy(), F[i].copy(), G[i].copy()))
    return mk.population(c, n, X=X, F=F, G=G)


def expected(allp, m):
    """Sols of the whole history that an unbounded archive has to hold (as (x, f) values)."""
    feas = [p for p in allp if p[2].max() <= 0]
    if feas:
        F = np.array([p[1] for p in feas])
        if m == 1:
            keep = [p for p in feas if p[1][0] == F.min()]
        else:
            keep = [feas[i] for i in range(len(feas)) if not any(np.all(g <= F[i]) and np.any(g < F[i]) for g in F)]
    else:
        cv = [max(0, p[2][0]) for p in allp]
        keep = [p for p, v in zip(allp, cv) if v == min(cv)]
    return {tuple(p[0]): p for p in keep}


@contract("C25", n=3000, target="pymoo.util.archive.Archive.add, SingleObjectiveArchive, MultiObjectiveArchive")
def histories(c):
    from pymoo.util.archive import SingleObjectiveArchive, MultiObjectiveArchive, SurvivalTruncation, default_archive
    m = c.pick(1, 2, 2, 3)
    bounded = c.chance(.6)
    ms = c.int(1, 6) if bounded else None
    ts = c.pick(None, c.int(1, 8)) if bounded else c.pick(None, 5)
    kind = "single" if m == 1 else "multi"
    kw = dict(max_size=ms)
    trunc = c.pick("random", "survival", "default")
    P = mk.Shell(2, m, 1)
    if m > 1:
        kw["truncate_size"] = ts
        if trunc == "survival":
            from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
            kw["truncation"] = SurvivalTruncation(RankAndCrowding(), problem=P)
    if trunc == "default" and m > 1 and (bounded or m == 3):
        A = default_archive(P, **kw)
    else:
        A = (SingleObjectiveArchive if m == 1 else MultiObjectiveArchive)(**kw)
    constr = c.chance(.5)
    pool, hist, members = [], [], {}
    c.note(kind=kind, max_size=ms, truncate_size=ts, truncation=trunc)
    truncated = False
    for step in range(c.int(1, 8)):
        b = batch(c, m, pool, constr)
        for ind in b:
            members[id(ind)] = ind
            hist.append((np.array(ind.X), np.array(ind.F), np.array(ind.G)))
        before = [id(i) for i in A]
        vals = [(tuple(i.X), tuple(i.F)) for i in A] + [(tuple(i.X), tuple(i.F), tuple(i.G)) for i in b]
        B = A.add(b, random_state=c.gen())
        c.eq([id(i) for i in A], before, "the archive added to is not altered", step=step)
        c.eq([(tuple(i.X), tuple(i.F)) for i in A] + [(tuple(i.X), tuple(i.F), tuple(i.G)) for i in b], vals, "no solution is altered", step=step)
        c.ensures(type(B) is type(A), "kind of archive is kept")
        c.ensures((B.max_size, B.truncate_size) == (A.max_size, A.truncate_size), "limits are kept")
        if bounded:
            c.ensures(len(B) <= ms, "never exceeds its maximum size", size=len(B), step=step)
        c.ensures(len(B) >= 1, "not empty after an addition")
        c.ensures(all(id(i) in members for i in B), "every member was added by the caller")
        xs = [tuple(i.X) for i in B]
        c.eq(len(set(xs)), len(xs), "no duplicates", X=xs)
        F = np.array([i.F for i in B])
        fe = np.array([np.max(i.G) <= 0 for i in B])
        anyfeas = any(p[2].max() <= 0 for p in hist)
        c.ensures(fe.all() if anyfeas else True, "only feasible members once one was seen", step=step)
        if anyfeas:
            for i in range(len(F)):
                c.ensures(not any(np.all(F[j] <= F[i]) and np.any(F[j] < F[i]) for j in range(len(F))), "mutually non-dominated", F=F)
        if not truncated:
            want = expected(hist, m)
            if ms is None or len(want) <= ms:
                c.eq(sorted(set(xs)), sorted(want), "holds exactly the best seen", step=step, history=hist)
            else:
                truncated = True
                c.eq(len(B), B.truncate_size, "truncated to the stated size", step=step)
                c.ensures(set(xs) <= set(want), "only best ones are kept by the truncation")
        if m == 1 and anyfeas:
            c.eq(F.min(), min(p[1][0] for p in hist if p[2].max() <= 0), "single objective: holds the best seen")
        A = B


@contract("C25", n=300, target="pymoo.util.archive.VoidArchive, RandomTruncation, SurvivalTruncation, Archive.__array_finalize__")
def parts(c):
    from pymoo.util.archive import VoidArchive, RandomTruncation, SurvivalTruncation, MultiObjectiveArchive
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
    n = c.int(1, 8)
    pop = mk.population(c, n, m=2, g=0)
    V = VoidArchive()
    c.ensures(V.add(pop) is V and len(V) == 0, "the void archive stays empty")
    k = c.int(1, n)
    g = c.int(0, 999)
    for T in (RandomTruncation(), SurvivalTruncation(RankAndCrowding())):
        r = T(pop, k, random_state=np.random.default_rng(g))
        ids = [id(i) for i in r]
        c.ensures(len(ids) == k and len(set(ids)) == k and set(ids) <= {id(i) for i in pop}, "truncation returns that many distinct members")
        r2 = T(pop, k, random_state=np.random.default_rng(g))
        c.eq([id(i) for i in r2], ids, "truncation is determined by the generator")
    A = MultiObjectiveArchive(max_size=c.int(2, 9), truncate_size=c.pick(None, 2)).add(pop, random_state=c.gen())
    B = A[: c.int(0, len(A))]
    c.ensures(B.max_size == A.max_size and B.truncate_size == A.truncate_size, "slicing keeps the limits")
