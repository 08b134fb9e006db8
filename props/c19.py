import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population
from pymoo.core.individual import Individual


def key(ind):
    return (O.cv(ind.G, ind.H), float(ind.F[0]))


def better(new, old):
    a, b = O.cv(new.G, new.H), O.cv(old.G, old.H)
    if a > 0 and b > 0:
        return a < b
    if b > 0:
        return True
    return a <= 0 and new.F[0] < old.F[0]


def pair(c, n, g):
    e = c.chance(.25)
    pop = mk.population(c, n, m=1, g=g, style=c.pick("uniform", "grid", "grid2"), eq=e)
    off = mk.population(c, n, m=1, g=g, style=c.pick("uniform", "grid", "grid2"), eq=e)
    if c.chance(0.4):
        k = np.flatnonzero(c.rng.random(n) < 0.4)
        X = off.get("X")
        X[k] = pop.get("X")[k]
        off.set("X", X)
    if g and c.chance(0.3):          # equal violations
        for a, b in zip(pop, off):
            if c.chance(0.5):
                b.G, b.H = a.G.copy(), a.H.copy()
    return pop, off


@contract("C19", n=1500, target="pymoo.core.replacement.ImprovementReplacement.do")
def improvement_replacement(c):
    from pymoo.core.replacement import ImprovementReplacement
    n, g = c.int(1, 9), c.pick(0, 0, 1, 2)
    pop, off = pair(c, n, g)
    P = mk.shell(pop, 1)
    mem, new = list(pop), list(off)
    before = O.data(mem + new)
    dup = [any(np.array_equal(o.X, m.X) for m in mem) or any(np.array_equal(o.X, p.X) for p in new[:i]) for i, o in enumerate(new)]
    c.note(cv_old=[key(o) for o in mem], cv_new=[key(o) for o in new], duplicate=dup)
    how = c.pick("copy", "inplace", "indices")
    R = ImprovementReplacement()
    if how == "indices":
        I = np.asarray(R.do(P, pop, off, return_indices=True))
        c.ensures([a is b for a, b in zip(pop, mem)], "asking for positions leaves the population alone")
        res = [new[i] if I[i] else mem[i] for i in range(n)]
    else:
        out = R.do(P, pop, off, inplace=how == "inplace")
        res = list(out)
        if how == "inplace":
            c.ensures(out is pop, "the population itself is updated in place")
        else:
            c.ensures([a is b for a, b in zip(pop, mem)], "the old population is unchanged")
    c.eq(len(res), n, "size is kept")
    for i in range(n):
        c.ensures(res[i] is mem[i] or res[i] is new[i], "a position holds the old or the new member", i=i)
        if res[i] is new[i]:
            c.ensures(better(new[i], mem[i]), "a member is substituted only by a strictly better solution", i=i)
        elif not dup[i]:
            c.ensures(not better(new[i], mem[i]), "a strictly better solution that is no duplicate replaces the member", i=i)
    c.ensures(O.same_data(before, O.data(mem + new)), "variables and values of the solutions are unchanged")


@contract("C19", n=1200, target="pymoo.core.replacement.is_better")
def is_better_contract(c):
    from pymoo.core.replacement import is_better
    g = c.pick(0, 1, 2)
    pop, off = pair(c, 1, g)
    a, b = off[0], pop[0]
    eps = c.pick(0.0, 0.0, 0.5)
    got = bool(is_better(a, b, eps=eps))
    va, vb = O.cv(a.G, a.H), O.cv(b.G, b.H)
    want = (vb - va > eps) if (va > 0 and vb > 0) else (True if va <= 0 < vb else (False if vb <= 0 < va else b.F[0] - a.F[0] > eps))
    c.note(new=key(a), old=key(b), eps=eps)
    c.eq(got, want, "better means smaller violation, or feasible and smaller objective (beyond the margin)")
    c.ensures(not (got and is_better(b, a, eps=eps)), "never better in both directions")


@contract("C19", n=1000, target="pymoo.algorithms.moo.moead.MOEAD._replace")
def moead_replace(c):
    from pymoo.algorithms.moo.moead import MOEAD
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.weighted_sum import WeightedSum
    m = c.pick(2, 3)
    R = lab.ref_dirs(m, c.int(1, {2: 7, 3: 3}[m]))
    n = len(R)
    dec = c.pick(Tchebicheff(), PBI(), WeightedSum())
    A = MOEAD(R, n_neighbors=c.int(1, n), decomposition=dec)
    A.setup(mk.Shell(2, m, 0), ("n_gen", 5), seed=1)
    pop = mk.population(c, n, m=m, style=c.pick("uniform", "grid", "dup", "neg", "front"))
    off = mk.population(c, 1, m=m, style=c.pick("uniform", "grid", "neg"))[0]
    if c.chance(0.2):
        off.F = pop[c.int(0, n - 1)].F.copy()
    A.pop = pop
    A.ideal = np.vstack([pop.get("F"), off.F]).min(axis=0)
    k = c.int(0, n - 1)
    mem = list(pop)
    N = [int(v) for v in A.neighbors[k]]
    c.note(F=pop.get("F"), off=off.F, neighbours=N, weights=R, decomposition=type(dec).__name__)
    c.ensures(k in N and len(set(N)) == len(N) == min(A.n_neighbors, n), "the neighbourhood contains the subproblem itself and distinct others")
    A._replace(k, off)
    for i in range(n):
        old, new = value(dec, mem[i].F, R[i], A.ideal), value(dec, off.F, R[i], A.ideal)
        c.ensures(A.pop[i] is mem[i] or A.pop[i] is off, "a position holds the old member or the offspring", i=i)
        if i not in N:
            c.ensures(A.pop[i] is mem[i], "members outside the neighbourhood stay untouched", i=i)
        elif A.pop[i] is off and mem[i] is not off:
            c.ensures(new < old + 1e-12 * (1 + abs(old)), "a neighbour is replaced only by a smaller scalarised value", i=i, old=old, new=new)
        else:
            c.ensures(new >= old - 1e-12 * (1 + abs(old)), "a smaller scalarised value replaces the neighbour", i=i, old=old, new=new)


def value(dec, f, w, z):
    n = type(dec).__name__
    if n == "WeightedSum":
        return float(sum(a * b for a, b in zip(f, w)))
    if n == "Tchebicheff":
        return float(max(abs(a - u) * b for a, b, u in zip(f, w, z)))
    d1 = sum((a - u) * b for a, b, u in zip(f, w, z)) / np.sqrt(sum(b * b for b in w))
    p = np.array([a - u for a, u in zip(f, z)]) - d1 * w / np.sqrt(float(w @ w))
    return float(d1 + dec.theta * np.sqrt(float(p @ p)))


ELITIST = ["ga", "de", "pso", "eppso", "es", "nelder", "pattern", "niche", "g3pcx", "direct", "nrbo", "random", "brkga", "cmaes", "isres", "sres"]


@contract("C19", n=110, thorough=900, target="pymoo.algorithms.soo (whole runs)")
def best_never_worse(c):
    name = c.pick(ELITIST)
    P = lab.problem(c, name)
    hist, pb = [], []

    def cb(a):
        hist.append(min(key(o) for o in a.opt) if len(a.opt) else None)
        if name in ("pso", "eppso", "de", "nrbo"):
            pb.append([key(o) for o in a.pop])
    lab.solve(P, lab.make(name, c, P), n_gen=c.int(3, 6), seed=c.int(0, 10 ** 6), callback=cb)
    c.note(best=hist)
    c.ensures(len(hist) >= 1, "callbacks ran")
    prev = None
    for h in hist:
        if prev is not None:
            c.ensures(h is not None, "an optimum stays available")
            a, b = prev, h
            ok = (a[0] <= 0 and b[0] <= 0 and b[1] <= a[1]) or (a[0] > 0 and b[0] <= a[0])
            c.ensures(ok, "the best solution reported never gets worse")
        prev = h if h is not None else prev
    for x, y in zip(pb, pb[1:]):
        if len(x) == len(y):
            for a, b in zip(x, y):
                c.ensures((a[0] <= 0 and b[0] <= 0 and b[1] <= a[1]) or (a[0] > 0 and b[0] <= a[0]), "personal bests and replaced members never get worse", before=a, after=b)


@contract("C19", n=40, thorough=400, target="pymoo.algorithms.moo.moead (whole runs)")
def moead_runs(c):
    name = c.pick("moead", "pmoead")
    P = lab.problem(c, name, constr=False)
    from vp import lab as L
    A = L.make(name, c, P)
    state = {}

    def cb(a):
        F = a.pop.get("F").copy()
        if state:
            dec = a.decomposition
            for i in range(len(F)):
                old, new = value(dec, state["F"][i], a.ref_dirs[i], a.ideal), value(dec, F[i], a.ref_dirs[i], a.ideal)
                if not np.array_equal(F[i], state["F"][i]):
                    c.ensures(new <= old + 1e-9 * (1 + abs(old)) or state["z"] is not None and np.any(a.ideal < state["z"]), "no member's scalarised value increases by replacement", i=i, old=old, new=new)
        state.update(F=F, z=a.ideal.copy())
        c.eq(a.ideal, np.minimum.reduce(np.concatenate(allF(P))), "the ideal point is the best value evaluated")
    lab.solve(P, A, n_gen=c.int(3, 6), seed=c.int(0, 10 ** 6), callback=cb)
    c.ensures("F" in state, "callbacks ran")


def allF(P):
    return [P.values(X)[0] for X in P.log]
