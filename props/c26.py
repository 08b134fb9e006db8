"""C26: the reported result is the true optimum of what was evaluated."""
import numpy as np
from vp.rt import contract
from vp import mk, lab

ASSUMPTIONS = ["NicheGA reports one solution per niche and Omni-optimizer its first front under loose dominance (stated exceptions)",
               "reports are judged against the population or archive the algorithm selects its optimum from"]


def dominated(f, F):
    return bool(np.any(np.all(F <= f, axis=1) & np.any(F < f, axis=1)))


def optimum_ok(c, opt, pop, least, label=""):
    feas = np.array([i.CV[0] <= 0 for i in pop])
    F = np.array([i.F for i in pop])
    m = F.shape[1]
    ids = [id(i) for i in pop]
    if not feas.any() and not least:
        c.ensures(opt is None, label + "nothing is reported without a feasible solution")
        return
    c.ensures(opt is not None and len(opt) >= 1, label + "something is reported")
    got = [ids.index(id(i)) for i in opt if id(i) in ids]
    c.eq(len(got), len(opt), label + "only candidates are reported")
    if not feas.any():
        c.eq(len(got), 1, label + "a single least infeasible solution")
        c.eq(pop[got[0]].CV[0], min(i.CV[0] for i in pop), label + "least infeasible")
    elif m == 1:
        c.eq(len(got), 1, label + "a single optimum")
        c.ensures(feas[got[0]], label + "feasible")
        c.eq(F[got[0], 0], F[feas, 0].min(), label + "best feasible objective")
    else:
        want = [i for i in range(len(pop)) if feas[i] and not dominated(F[i], F[feas])]
        c.eq(sorted(got), want, label + "exactly the non-dominated feasible ones")


@contract("C26", n=3000, target="pymoo.util.optimum.filter_optimum")
def filtering(c):
    from pymoo.util.optimum import filter_optimum
    from pymoo.core.population import Population
    m = c.pick(1, 1, 2, 3)
    n = c.int(1, 9)
    pop = mk.population(c, n, m=m, g=c.pick(0, 1, 2), eq=c.chance(.2))
    F, X, G = pop.get("F").copy(), pop.get("X").copy(), pop.get("G").copy()
    least = c.chance(.5)
    c.note(F=F, G=G, least=least)
    opt = filter_optimum(pop, least_infeasible=least)
    optimum_ok(c, opt, pop, least)
    c.ensures(opt is None or isinstance(opt, Population), "a population is returned")
    c.eq(pop.get("F"), F, "frame: F"), c.eq(pop.get("X"), X, "frame: X"), c.eq(pop.get("G"), G, "frame: G")
    c.ensures(filter_optimum(None) is None and filter_optimum(Population.empty()) is None, "nothing for no candidates")


@contract("C26", n=1500, target="pymoo.core.algorithm.Algorithm.result")
def reporting(c):
    from pymoo.core.algorithm import Algorithm
    m = c.pick(1, 1, 2, 3)
    n = c.int(0, 6)
    g = c.pick(0, 1, 2)
    A = Algorithm(return_least_infeasible=c.chance(.5))
    A.start_time = 0.0
    A.pop = mk.population(c, max(n, 1), m=m, g=g, eq=c.chance(.2))
    A.problem = mk.shell(A.pop, m)
    A.opt = A.pop[:n] if n else c.pick(None, A.pop[:0])
    res = A.result()
    feas = [] if n == 0 else [i for i in A.opt if i.CV[0] <= 0]
    c.note(n=n, m=m, least=A.return_least_infeasible, CV=None if n == 0 else A.opt.get("CV"))
    c.ensures(res.pop is A.pop and res.problem is A.problem, "population and problem are reported")
    if not feas and not (A.return_least_infeasible and n):
        c.ensures(res.opt is None and res.X is None and res.F is None and res.CV is None and res.G is None and res.H is None, "nothing reported as solution")
        c.ensures(res.success is False, "reported as not successful")
        return
    c.ensures(res.success == bool(feas), "success exactly with a feasible solution")
    if not feas:
        c.eq(len(res.opt), 1, "a single least infeasible solution")
        c.eq(res.opt[0].CV[0], min(i.CV[0] for i in A.opt), "least infeasible")
    for k in ("X", "F", "CV", "G", "H"):
        v = getattr(res, k)
        w = res.opt.get(k)
        if m == 1 and len(res.opt) == 1:
            w = w[0]
        c.eq(v, w, "reported %s belongs to the reported solutions" % k)


@contract("C26", n=130, thorough=1500, target="pymoo.core.algorithm.Algorithm._set_optimum and overrides, pymoo.optimize.minimize")
def runs(c):
    names = lab.MOO + lab.SOO
    name = names[c.idx % len(names)]
    P = lab.problem(c, name, kind=c.pick("smooth", "flat", "edge", "infeasible", "scaled"))
    if P.lab["g"] == 0 and P.lab["kind"] == "infeasible":
        P = lab.problem(c, name, kind="smooth", constr=False)
    alg = lab.make(name, c, P)
    least = c.chance(.4)
    alg.return_least_infeasible = least
    bad = []

    def cb(a):
        if a.opt is None:
            bad.append(a.n_gen)
    seed = c.int(1, 9999)
    res = lab.solve(P, alg, n_gen=c.int(1, 7), seed=seed, callback=cb)
    c.note(seed=seed, least=least, algorithm=name)
    c.ensures(not bad, "an optimum is known after every iteration", gens=bad)
    rows = {tuple(np.asarray(r, float)) for r in P.rows()}
    if res.opt is None:
        c.ensures(res.X is None and res.F is None, "nothing reported")
        c.ensures(not any(i.CV[0] <= 0 for i in res.pop), "nothing reported only without feasible candidates")
        return
    for k in ("X", "F", "CV", "G", "H"):
        w = res.opt.get(k)
        if P.n_obj == 1 and len(res.opt) == 1:
            w = w[0]
        c.eq(getattr(res, k), w, "reported %s belongs to the reported solutions" % k)
    X = np.atleast_2d(np.asarray(res.opt.get("X"), float))
    c.ensures(all(tuple(x) in rows for x in X), "reported variables were evaluated")
    Fv, Gv, Hv = P.values(X)
    c.eq(res.opt.get("F"), Fv, "reported objectives are those of the variables", rtol=1e-12, atol=1e-12)
    if P.n_ieq_constr:
        c.eq(res.opt.get("G"), Gv, "reported constraint values are those of the variables", rtol=1e-12, atol=1e-12)
    feas = np.array([i.CV[0] <= 0 for i in res.opt])
    cand = list(res.pop) + list(res.opt)
    cf = [i for i in cand if i.CV[0] <= 0]
    if cf:
        c.ensures(feas.all(), "no infeasible solution is reported when a feasible one exists", feas=feas)
        Fc = np.array([i.F for i in cf])
        if P.n_obj == 1:
            c.eq(res.opt.get("F").min(), Fc.min(), "best feasible objective of the candidates")
            c.ensures(np.all(res.opt.get("F") == Fc.min()) or name in ("niche",), "every reported one is best", F=res.opt.get("F"))
        else:
            for f in res.opt.get("F") if name != "omni" else []:      # omni: loose dominance (see property)
                c.ensures(not dominated(f, Fc), "no reported solution is dominated by a candidate", f=f, F=Fc)
    else:
        c.ensures(least, "infeasible solutions only on request")
        c.eq(res.opt.get("CV").min(), min(i.CV[0] for i in cand), "least infeasible")
