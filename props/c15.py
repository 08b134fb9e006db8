import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population

MULTI = ["cd", "pcd", "ce", "mnn", "2nn", "constr_cd", "spea2", "spea2n", "hv", "nsga3", "rnsga2", "rnsga3", "age", "age2", "omni"]


def survival(name, c, m):
    """-> survival object of the real code."""
    if name in ("cd", "pcd", "ce", "mnn", "2nn"):
        from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
        return RankAndCrowding(crowding_func=name)
    if name == "constr_cd":
        from pymoo.operators.survival.rank_and_crowding import ConstrRankAndCrowding
        return ConstrRankAndCrowding()
    if name.startswith("spea2"):
        from pymoo.algorithms.moo.spea2 import SPEA2Survival
        return SPEA2Survival(normalize=name == "spea2n")
    if name == "hv":
        from pymoo.algorithms.moo.sms import LeastHypervolumeContributionSurvival
        return LeastHypervolumeContributionSurvival()
    if name == "nsga3":
        from pymoo.algorithms.moo.nsga3 import ReferenceDirectionSurvival
        return ReferenceDirectionSurvival(lab.ref_dirs(m))
    if name == "rnsga2":
        from pymoo.algorithms.moo.rnsga2 import RankAndModifiedCrowdingSurvival
        return RankAndModifiedCrowdingSurvival(c.rng.random((2, m)), c.pick(0.01, 0.3), None, c.pick("front", "ever", "no"), c.chance(0.5))
    if name == "rnsga3":
        from pymoo.algorithms.moo.rnsga3 import AspirationPointSurvival
        return AspirationPointSurvival(c.rng.random((2, m)) + 0.1, lab.ref_dirs(m, 3), mu=0.1)
    if name == "age":
        from pymoo.algorithms.moo.age import AGEMOEASurvival
        return AGEMOEASurvival()
    if name == "age2":
        from pymoo.algorithms.moo.age2 import AGEMOEA2Survival
        return AGEMOEA2Survival()
    if name == "omni":
        from pymoo.algorithms.moo.omni import OmniOptimizerSurvival
        return OmniOptimizerSurvival()
    raise KeyError(name)


def style_for(name, c):
    return c.pick("uniform", "grid", "grid2", "dup", "front", "const", "line", "dups_front", "neg")


def check_common(c, pop, orig, data, out, n, name):
    N = len(orig)
    c.eq(len(out), min(n, N), "exactly the requested number of survivors (or everything)")
    pos = {id(o): i for i, o in enumerate(orig)}
    c.ensures(all(id(o) in pos for o in out), "every survivor is a member of the input")
    kept = [pos[id(o)] for o in out]
    c.ensures(len(set(kept)) == len(kept), "survivors are distinct members", kept=kept)
    c.ensures(O.same_data(data, O.data(orig)), "variables and values of the members are unchanged")
    return kept


def check_feasible(c, orig, kept, name):
    cv = [O.cv(i.G, i.H) for i in orig]
    drop = [i for i in range(len(orig)) if i not in set(kept)]
    if any(cv[k] > 0 for k in kept):
        c.ensures(all(cv[d] > 0 for d in drop), "no infeasible survives while a feasible one is dropped", cv=cv, kept=kept)
        bad = [k for k in kept if cv[k] > 0]
        if name == "constr_cd":
            C = np.column_stack([np.maximum(np.array([i.G for i in orig]), 0), np.abs(np.array([i.H for i in orig]))])
            c.ensures(not any(O.dominates(C[d], C[k]) for d in drop for k in bad), "no violation-dominated member is taken before its dominator")
        else:
            c.ensures(all(cv[k] <= cv[d] for k in bad for d in drop), "the smallest violations are taken first", cv=cv, kept=kept)
        if name != "constr_cd":
            seq = [cv[k] for k in kept]
            c.ensures(all(a <= b for a, b in zip(seq, seq[1:])) if name not in ("ga",) else True, "infeasible ones follow in order of violation", cv=seq)


@contract("C15", n=2600, target="pymoo.core.survival.Survival.do")
def multi_objective_survivals(c):
    name = c.pick(MULTI)
    m = c.pick(2, 2, 3) if name not in ("rnsga2",) else 2
    N = c.int(1, 14)
    g = c.pick(0, 1, 2)
    pop = mk.population(c, N, m=m, g=g, style=style_for(name, c), feas=c.pick(None, None, "mixed", "grid"), eq=c.chance(.2))
    n = c.int(1, N) if c.chance(0.85) else N + 2
    P = mk.shell(pop, m)
    orig, data = list(pop), O.data(pop)
    c.note(survival=name, F=pop.get("F"), G=pop.get("G"), n_survive=n)
    S = survival(name, c, m)
    if c.chance(0.15):                           # survivals with memory: an earlier generation went before
        S.do(P, mk.population(c, c.int(3, 8), m=m, g=g, eq=len(pop[0].H) > 0), n_survive=3, random_state=c.gen())
    out = S.do(P, pop, n_survive=n, random_state=c.gen())
    kept = check_common(c, pop, orig, data, out, n, name)
    check_feasible(c, orig, kept, name)
    c.ensures(len(pop) == N and all(a is b for a, b in zip(pop, orig)), "the input set itself is unchanged")


@contract("C15", n=700, target="pymoo.core.survival.Survival.do")
def survivor_indices(c):
    name = c.pick("cd", "spea2", "nsga3", "ga", "constr_cd")
    m = 1 if name == "ga" else 2
    N, g = c.int(1, 9), c.pick(0, 1)
    pop = mk.population(c, N, m=m, g=g, style=c.pick("grid", "uniform", "dup"), eq=c.chance(.2))
    n = c.int(1, N)
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival
    P = mk.shell(pop, m)
    r = c.int(0, 10 ** 6)
    mkS = (lambda: FitnessSurvival()) if name == "ga" else (lambda: survival(name, c, m))
    I = mkS().do(P, pop, n_survive=n, return_indices=True, random_state=np.random.default_rng(r))
    out = mkS().do(P, pop, n_survive=n, random_state=np.random.default_rng(r))
    c.ensures(len(I) == len(out) and all(pop[int(i)] is o for i, o in zip(I, out)), "indices name the survivors", survival=name)


@contract("C15", n=900, target="pymoo.algorithms.soo.nonconvex.ga.FitnessSurvival")
def fitness_survival(c):
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival
    N, g = c.int(1, 10), c.pick(0, 1, 2)
    pop = mk.population(c, N, m=1, g=g, style=c.pick("grid", "uniform", "dup", "neg"), eq=c.chance(.2))
    n = c.int(1, N + 1)
    orig, data = list(pop), O.data(pop)
    c.note(F=pop.get("F"), G=pop.get("G"), n=n)
    out = FitnessSurvival().do(mk.shell(pop, 1), pop, n_survive=n, random_state=c.gen())
    kept = check_common(c, pop, orig, data, out, n, "ga")
    check_feasible(c, orig, kept, "ga")
    key = [(O.cv(i.G, i.H), i.F[0]) for i in orig]
    seq = [key[k] for k in kept]
    c.ensures(all(a <= b for a, b in zip(seq, seq[1:])), "ordered by violation, then objective", keys=seq)
    c.ensures(all(key[k] <= key[d] for k in kept for d in range(N) if d not in kept), "the best by violation then objective are kept")
    r = [i.get("rank") for i in orig]
    c.eq(sorted(r), list(range(N)), "ranks are the positions in that order")
    c.ensures(all(key[i] <= key[j] for i in range(N) for j in range(N) if r[i] < r[j]), "a smaller rank is never worse")


@contract("C15", n=400, target="pymoo.algorithms.soo.nonconvex")
def other_survivals(c):
    which = c.pick("niche", "sres", "elite", "mnn", "rvea", "ctaea")
    N, g = c.int(2, 10), c.pick(0, 1)
    m = 2 if which in ("rvea", "ctaea") else 1
    pop = mk.population(c, N, m=m, g=g, style=c.pick("grid", "uniform", "dup"), eq=c.chance(.2))
    orig, data = list(pop), O.data(pop)
    P = mk.shell(pop, m, xl=np.zeros(2), xu=np.ones(2))
    n = c.int(1, N)
    c.note(which=which, F=pop.get("F"), G=pop.get("G"), n=n)
    if which == "niche":
        from pymoo.algorithms.soo.nonconvex.ga_niching import EpsilonClearingSurvival
        out = EpsilonClearingSurvival(c.pick(0.05, 0.3, 2.0), n_max_each_iter=c.pick(None, 2), norm_by_dim=c.chance(0.5)).do(P, pop, n_survive=n, random_state=c.gen())
        check_common(c, pop, orig, data, out, n, which)
        best = min(range(N), key=lambda i: (O.cv(orig[i].G, orig[i].H), orig[i].F[0]))
        c.ensures(any((O.cv(o.G, o.H), o.F[0]) == (O.cv(orig[best].G, orig[best].H), orig[best].F[0]) for o in out), "the best survives")
    elif which == "sres":
        from pymoo.algorithms.soo.nonconvex.sres import StochasticRankingSurvival
        out = StochasticRankingSurvival(c.pick(0.0, 0.45, 1.0)).do(P, pop, n_survive=n, random_state=c.gen())
        check_common(c, pop, orig, data, out, n, which)
    elif which == "elite":
        from pymoo.algorithms.soo.nonconvex.brkga import EliteSurvival
        k = c.int(1, N)
        out = EliteSurvival(k).do(P, pop, n_survive=N, random_state=c.gen())
        check_common(c, pop, orig, data, out, N, which)
        t = [o.get("type") for o in out]
        c.eq(t.count("elite"), k, "the requested number of elites")
        key = [(O.cv(i.G, i.H), i.F[0]) for i in out]
        c.ensures(all(a <= b for a, s in zip(key, t) for b, u in zip(key, t) if s == "elite" and u != "elite"), "elites are the best")
    elif which == "rvea":
        from pymoo.algorithms.moo.rvea import APDSurvival
        R = lab.ref_dirs(2)
        S = APDSurvival(R)
        out = S.do(P, pop, n_survive=n, n_gen=1, n_max_gen=5, random_state=c.gen())
        pos = {id(o) for o in orig}
        c.ensures(all(id(o) in pos for o in out) and len({id(o) for o in out}) == len(out), "survivors are distinct members")
        c.ensures(O.same_data(data, O.data(orig)), "variables and values of the members are unchanged")
        feas = [o for o in out if O.cv(o.G, o.H) == 0]
        c.ensures(len(feas) <= len(R), "at most one feasible survivor per vector")
    elif which == "ctaea":
        from pymoo.algorithms.moo.ctaea import CADASurvival
        R = lab.ref_dirs(2, c.int(1, 6))
        k = len(R) if c.chance(0.8) else c.int(1, len(R))
        if N < k:
            return
        ca, da = CADASurvival(R).do(P, pop, Population() if c.chance(0.5) else mk.population(c, 4, m=2, g=g, eq=len(pop[0].H) > 0), n_survive=k, random_state=c.gen())
        c.eq(len(ca), k, "the convergence archive has the requested size")
        c.eq(len(da), k, "the diversity archive has the requested size")
        pos = {id(o) for o in orig}
        c.ensures(all(id(o) in pos for o in ca) and len({id(o) for o in ca}) == len(ca), "survivors are distinct members")
        c.ensures(len({id(o) for o in da}) == len(da), "the diversity archive has distinct members")
        c.ensures(O.same_data(data, O.data(orig)), "variables and values of the members are unchanged")
        cv = [O.cv(o.G, o.H) for o in orig]
        kept = {id(o) for o in ca}
        if any(O.cv(o.G, o.H) > 0 for o in ca):
            c.ensures(all(v > 0 or id(o) in kept for v, o in zip(cv, orig)), "no infeasible survives while a feasible one is dropped")


@contract("C15", n=500, target="pymoo.core.survival.split_by_feasibility")
def split(c):
    from pymoo.core.survival import split_by_feasibility
    N, g = c.int(0, 9), c.pick(0, 1, 2)
    pop = mk.population(c, max(N, 1), m=1, g=g)
    N = len(pop)
    a, b = c.chance(0.5), c.chance(0.5)
    f, i, pf, pi = split_by_feasibility(pop, sort_infeas_by_cv=a, sort_feas_by_obj=b, return_pop=True)
    cv = [O.cv(x.G, x.H) for x in pop]
    c.eq(sorted(np.asarray(f, int).tolist()), [k for k in range(N) if cv[k] <= 0], "exactly the feasible positions")
    c.eq(sorted(np.asarray(i, int).tolist()), [k for k in range(N) if cv[k] > 0], "exactly the infeasible positions")
    if a:
        s = [cv[k] for k in i]
        c.ensures(all(x <= y for x, y in zip(s, s[1:])), "infeasible sorted by violation")
    if b:
        s = [pop[int(k)].F[0] for k in f]
        c.ensures(all(x <= y for x, y in zip(s, s[1:])), "feasible sorted by objective")
    c.ensures(all(p is pop[int(k)] for p, k in zip(pf, f)) and all(p is pop[int(k)] for p, k in zip(pi, i)), "solutions match the positions")


@contract("C15", n=40, thorough=1200, target="pymoo.algorithms")
def survivors_in_runs(c):
    name = c.pick("nsga2", "nsga3", "spea2", "sms", "age", "age2", "ga", "unsga3", "rnsga2", "omni", "ctaea")
    P = lab.problem(c, name)
    alg = lab.make(name, c, P)
    alg.setup(P, termination=("n_gen", 5), seed=c.int(0, 10 ** 6), verbose=False)
    seen = {}
    while alg.has_next():
        off = alg.ask()
        if off is None:
            break
        alg.evaluator.eval(P, off)
        before = list(alg.pop) if alg.pop is not None else []
        pool = {id(i) for i in before} | {id(i) for i in off}
        snap = {id(i): (i.X.copy(), i.F.copy()) for i in before + list(off)}
        cvs = [O.cv(i.G, i.H, eps_eq=1e-4) for i in before + list(off)]
        alg.tell(infills=off)
        ids = [id(i) for i in alg.pop]
        c.ensures(len(set(ids)) == len(ids) and set(ids) <= pool, "the new population consists of distinct members of the merged one")
        c.eq(len(ids), min(alg.pop_size, len(pool)), "the population keeps its size")
        c.ensures(all(np.array_equal(snap[id(i)][0], i.X) and np.array_equal(snap[id(i)][1], i.F) for i in alg.pop), "values unchanged")
        if any(O.cv(i.G, i.H) > 0 for i in alg.pop):
            c.ensures(all(v > 0 or id(i) in set(ids) for v, i in zip(cvs, before + list(off))), "no infeasible survives while a feasible one is dropped")
