import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab


def perp(z, w):
    w = np.asarray(w, float)
    u = w / np.sqrt(float(w @ w))
    return float(np.sqrt(max(0.0, float(((z - (z @ u) * u) ** 2).sum()))))


def dirs(c, m):
    if c.chance(0.7):
        return lab.ref_dirs(m, c.int(1, {2: 7, 3: 4}[m]))
    R = c.rng.random((c.int(1, 8), m)) + 0.01
    return R / (R.sum(axis=1, keepdims=True) if c.chance(0.5) else 1.0)


@contract("C18", n=1500, target="pymoo.algorithms.moo.nsga3.associate_to_niches")
def association(c):
    from pymoo.algorithms.moo.nsga3 import associate_to_niches
    from pymoo.functions import load_function
    m = c.pick(2, 3)
    R, F = dirs(c, m), c.points(c.int(1, 12), m)
    ideal = F.min(axis=0) - c.pick(0.0, 0.0, 1.0)
    nadir = np.maximum(F.max(axis=0), ideal + c.pick(0.0, 0.1))
    eps = c.pick(0.0, 0.0, 0.05)
    c.note(F=F, ref_dirs=R, ideal=ideal, nadir=nadir, utopian_epsilon=eps)
    with c.frame(F=F, ref_dirs=R, ideal=ideal, nadir=nadir):
        niche, dist, mat = associate_to_niches(F, R, ideal, nadir, eps)
    u = ideal - eps
    den = nadir - u
    c.requires(np.all(den > 1e-9))
    Z = (F - u) / den
    D = np.array([[perp(z, w) for w in R] for z in Z])
    s = 1e-9 * (1 + np.abs(Z).max())
    c.eq(mat, D, "distances are perpendicular distances in normalised space", rtol=1e-7, atol=s + 2e-8 * np.abs(Z).max())
    c.ensures(all(D[i, niche[i]] <= D[i].min() + 1e-7 * (1 + np.abs(Z).max()) for i in range(len(F))), "each solution is associated with a closest direction", niche=niche, distances=D)
    c.eq(dist, [mat[i, niche[i]] for i in range(len(F))], "the stored distance belongs to the associated direction")
    a = load_function("calc_perpendicular_distance", "python")(Z, R)
    b = np.asarray(load_function("calc_perpendicular_distance", "cython")(np.ascontiguousarray(Z), np.ascontiguousarray(R)))
    c.eq(a, b, "compiled and interpreted distances agree", rtol=1e-7, atol=s + 2e-8 * np.abs(Z).max())


@contract("C18", n=600, target="pymoo.algorithms.moo.nsga3.calc_niche_count")
def counts(c):
    from pymoo.algorithms.moo.nsga3 import calc_niche_count
    k = c.int(1, 9)
    niche = c.rng.integers(0, k, c.int(0, 12))
    got = calc_niche_count(k, niche)
    c.eq(got, [int(np.sum(niche == i)) for i in range(k)], "niche counts are the numbers of associated solutions", niche=niche, n=k)


@contract("C18", n=1500, target="pymoo.algorithms.moo.nsga3.niching")
def filling(c):
    from pymoo.algorithms.moo.nsga3 import niching
    n = c.int(1, 12)
    k = c.int(1, 6)
    pop = mk.population(c, n)
    niche = c.rng.integers(0, k, n)
    dist = c.pick(c.rng.random(n), c.rng.integers(0, 3, n).astype(float))
    count0 = c.rng.integers(0, 4, k)
    n_rem = c.int(0, n)
    count = count0.copy()
    c.note(niche=niche, dist=dist, count=count0, n_remaining=n_rem)
    S = [int(s) for s in niching(pop, n_rem, count, niche.copy(), dist.copy(), random_state=c.gen())]
    c.eq(len(S), n_rem, "exactly the requested number is selected")
    c.ensures(len(set(S)) == len(S) and all(0 <= s < n for s in S), "selected members are distinct members of the front", selected=S)
    cur, left = count0.copy(), set(range(n))
    for s in S:
        have = [int(niche[i]) for i in left]
        c.ensures(cur[niche[s]] == min(cur[h] for h in have), "the direction has the fewest already selected", step=s, selected=S, count=cur)
        if cur[niche[s]] == 0:
            c.ensures(dist[s] <= min(dist[i] for i in left if niche[i] == niche[s]), "an empty direction takes its closest member", step=s, selected=S)
        cur[niche[s]] += 1
        left.discard(s)


@contract("C18", n=700, target="pymoo.algorithms.moo.nsga3.HyperplaneNormalization.update")
def ideal_and_nadir(c):
    from pymoo.algorithms.moo.nsga3 import HyperplaneNormalization
    m = c.pick(2, 3)
    N = HyperplaneNormalization(m)
    seen = []
    for t in range(c.int(1, 4)):
        F = c.points(c.int(1, 10), m)
        if t and c.chance(0.5):
            F = np.vstack([F, seen[-1]])
        seen.append(F.copy())
        use = c.chance(0.7)
        with c.frame(F=F):
            if use:
                N.update(F, nds=np.array(O.nondominated(F)))
            else:
                N.update(F)
        c.note(history=seen)
        allF = np.vstack(seen)
        c.eq(N.ideal_point, allF.min(axis=0), "the ideal point is the best value ever seen per objective")
        c.eq(N.worst_point, allF.max(axis=0), "the worst point is the worst value ever seen per objective")
        c.ensures(np.all(N.nadir_point >= N.ideal_point), "the nadir is never below the ideal", nadir=N.nadir_point, ideal=N.ideal_point)
        k = F.max(axis=0) > N.ideal_point
        c.ensures(np.all(N.nadir_point[k] > N.ideal_point[k]), "the nadir exceeds the ideal wherever the population does", nadir=N.nadir_point, ideal=N.ideal_point)
        c.ensures(np.all(N.nadir_point <= N.worst_point), "the nadir never exceeds the worst value seen", nadir=N.nadir_point, worst=N.worst_point)


@contract("C18", n=700, target="pymoo.algorithms.moo.nsga3.ReferenceDirectionSurvival._do, pymoo.algorithms.moo.rnsga3.AspirationPointSurvival._do")
def whole_survival(c):
    from pymoo.algorithms.moo.nsga3 import ReferenceDirectionSurvival
    from pymoo.algorithms.moo.rnsga3 import AspirationPointSurvival
    m = c.pick(2, 3)
    R = lab.ref_dirs(m, c.int(2, {2: 7, 3: 4}[m]))
    asp = c.chance(0.3)
    S = AspirationPointSurvival(c.rng.random((2, m)) + 0.1, R, mu=0.1) if asp else ReferenceDirectionSurvival(R)
    P = mk.Shell(2, m, 0)
    seen = [S.ref_points] if asp else []
    for t in range(c.int(1, 3)):
        pop = mk.population(c, c.int(2, 14), m=m, style=c.pick("uniform", "grid", "grid2", "dup", "front", "line", "dups_front", "neg", "const"))
        orig = list(pop)
        F = pop.get("F").copy()
        n = c.int(1, len(pop))
        seen.append(F)
        out = S.do(P, pop, n_survive=n, random_state=c.gen())
        c.note(F=F, n_survive=n, aspiration=asp, generation=t)
        ideal, nadir = (S.ideal_point, S.nadir_point) if asp else (S.norm.ideal_point, S.norm.nadir_point)
        c.eq(ideal, np.vstack(seen).min(axis=0), "the ideal point is the best value ever seen per objective")
        w = F.max(axis=0) > ideal
        c.ensures(np.all(nadir[w] > ideal[w]), "the nadir exceeds the ideal wherever the population does", nadir=nadir, ideal=ideal)
        den = nadir - ideal
        if np.any(den < 1e-9) or asp:
            continue
        rk = O.ranks(F)
        pos = {id(o): i for i, o in enumerate(orig)}
        kept = [pos[id(o)] for o in out]
        Z = (F - ideal) / den
        D = np.array([[perp(z, v) for v in R] for z in Z])
        tol = 1e-7 * (1 + np.abs(Z).max())
        for k in kept:
            c.ensures(D[k, orig[k].get("niche")] <= D[k].min() + tol, "each survivor is associated with a closest direction", i=k)
            c.eq(orig[k].get("dist_to_niche"), D[k, orig[k].get("niche")], "the stored distance is the distance to that direction", rtol=1e-6, atol=tol)
        if len(kept) < len(orig):
            last = max(rk[k] for k in kept)
            cand = [i for i in range(len(F)) if rk[i] == last]
            if not all(i in set(kept) for i in cand):
                niche = {i: int(orig[i].get("niche")) for i in range(len(F)) if rk[i] <= last}
                cnt = [sum(1 for i in niche if rk[i] < last and niche[i] == j) for j in range(len(R))]
                for s in [k for k in kept if rk[k] == last]:
                    left = [i for i in cand if i not in set(kept[:kept.index(s)])]
                    c.ensures(cnt[niche[s]] == min(cnt[niche[i]] for i in left), "the last front is filled from the directions with the fewest selected", kept=kept, niche=niche)
                    if cnt[niche[s]] == 0:
                        c.ensures(orig[s].get("dist_to_niche") <= min(orig[i].get("dist_to_niche") for i in left if niche[i] == niche[s]), "an empty direction takes its closest member", kept=kept)
                    cnt[niche[s]] += 1


@contract("C18", n=500, target="pymoo.algorithms.moo.rvea.APDSurvival._do")
def reference_vectors(c):
    from pymoo.algorithms.moo.rvea import APDSurvival
    m = c.pick(2, 3)
    R = lab.ref_dirs(m, c.int(1, {2: 7, 3: 4}[m]))
    S = APDSurvival(R, alpha=2.0)
    P = mk.Shell(2, m, 0)
    seen = []
    for t in range(1, c.int(2, 3)):
        F = c.points(c.int(2, 12), m)
        if c.chance(0.4):
            k = c.rng.integers(0, len(R), len(F))
            F = R[k] * c.rng.integers(1, 5, (len(F), 1)) + 0.0
            F = np.vstack([F, np.zeros((1, m))])
        pop = mk.population(c, len(F), m=m, F=F)
        orig = list(pop)
        seen.append(F.copy())
        gen, mx = c.int(1, 5), 5
        out = S.do(P, pop, n_survive=len(F), n_gen=gen, n_max_gen=mx, random_state=c.gen())
        ideal = np.vstack(seen).min(axis=0)
        c.note(F=F, ref_dirs=R, n_gen=gen)
        c.eq(S.ideal, ideal, "the ideal point is the best value ever seen per objective")
        T = F - ideal
        L = np.sqrt((T ** 2).sum(axis=1))
        U = T / np.maximum(L, 1e-64)[:, None]
        ang = np.array([[angle(u, v) for v in S.V] for u in U])
        groups = {}
        for i in range(len(F)):
            near = [j for j in range(len(R)) if ang[i, j] <= ang[i].min() + 1e-7]
            groups.setdefault(int(S_niche(S, i)), []).append(i)
            c.ensures(int(S_niche(S, i)) in near, "each solution is associated with the vector of the smallest angle", i=i)
        M = m if m > 2 else 1.0
        pos = {id(o): i for i, o in enumerate(orig)}
        kept = [pos[id(o)] for o in out]
        c.eq(len(kept), len(groups), "one survivor per non-empty vector")
        for j, mem in groups.items():
            apd = {i: max(L[i], 1e-64) * (1 + M * (gen / mx) ** 2.0 * ang[i, j] / S.gamma[j]) for i in mem}
            k = [i for i in kept if i in mem]
            c.ensures(len(k) == 1 and apd[k[0]] <= min(apd.values()) * (1 + 1e-5 * (1 + 1 / S.gamma[j])) + 1e-12,
                      "each vector keeps the member with the smallest angle-penalised distance", vector=j, penalised=apd, kept=k)


def S_niche(S, i):
    return next(k for k, mem in enumerate(S.niches) if i in mem)


def angle(u, v):
    c_ = float(u @ v)
    return float(np.arctan2(np.sqrt(max(0.0, float(((u - c_ * v) ** 2).sum()))), c_)) if float(u @ u) > 0 else np.pi / 2
