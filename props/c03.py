import numpy as np
from vp.rt import contract
from vp import oracle as O, mk
from pymoo.core.individual import Individual, calc_cv, constr_to_cv
from pymoo.core.population import Population, calc_cv as pop_calc_cv


def values(c, k):
    return np.array([float(c.pick(0.0, 1e-4, -1e-4, 2e-4, 0.5, 1.0, -1.0, -3.0, 7.25, 1e-12, 5e-5, c.real(-2, 2))) for _ in range(k)])


def config(c, g, h):
    cfg = Individual.default_config()
    kw = {}
    for key, n in (("ieq", g), ("eq", h)):
        eps = c.pick(None, 0.0, 0.5, 1e-3)
        scale = c.pick(None, None, 2.0, "vec")
        p = c.pick(None, None, 2, 1)
        if eps is not None:
            cfg["cv_" + key]["eps"] = eps
        if scale is not None:
            cfg["cv_" + key]["scale"] = scale if scale != "vec" else c.rng.choice([0.5, 1.0, 4.0], n)
        if p is not None:
            cfg["cv_" + key]["pow"] = p
        kw["eps_" + key] = cfg["cv_" + key]["eps"]
        kw["scale_" + key] = cfg["cv_" + key]["scale"]
        kw["pow_" + key] = cfg["cv_" + key]["pow"]
    return cfg, kw


TOL = dict(rtol=1e-12, atol=1e-14)


@contract("C03", n=2500, target="pymoo.core.individual.calc_cv")
def aggregate(c):
    g, h = c.int(0, 4), c.int(0, 3)
    G, H = values(c, g), values(c, h)
    c.note(G=G, H=H)
    with c.frame(G=G, H=H):
        v = float(calc_cv(G=G, H=H))
    c.eq(v, O.cv(G, H), "default aggregate equals the definition", **TOL)
    c.ensures(v >= 0, "never negative")
    met = all(x <= 0 for x in G) and all(abs(x) <= 1e-4 for x in H)
    c.eq(v == 0, met, "zero exactly when every constraint is met")
    cfg, kw = config(c, g, h)
    w = float(calc_cv(G=G, H=H, config=cfg))
    c.eq(w, O.cv(G, H, **kw), "aggregate follows tolerance, scale and exponent", config=kw, **TOL)
    if g:
        k = c.int(0, g - 1)
        G2 = G.copy()
        G2[k] += c.pick(0.0, 0.3, 2.0)
        c.ensures(float(calc_cv(G=G2, H=H)) >= v, "monotone in every inequality constraint")
    if h:
        k = c.int(0, h - 1)
        H2 = H.copy()
        H2[k] *= c.pick(1.0, 1.5, -3.0)
        c.ensures(float(calc_cv(G=G, H=H2)) >= v, "monotone in the magnitude of every equality constraint")
    n = c.int(1, 4)
    GG, HH = np.array([values(c, g) for _ in range(n)]).reshape(n, g), np.array([values(c, h) for _ in range(n)]).reshape(n, h)
    with c.frame(GG=GG, HH=HH):
        V = calc_cv(G=GG, H=HH, config=cfg)
    c.eq(V, [O.cv(a, b, **kw) for a, b in zip(GG, HH)], "row-wise aggregate", **TOL)
    if c.chance(0.3):
        c.eq(float(calc_cv(G=None, H=H)), O.cv([], H), "missing inequality part", **TOL)
        c.eq(float(calc_cv(G=G, H=None)), O.cv(G, []), "missing equality part", **TOL)


@contract("C03", n=1500, target="pymoo.core.individual.constr_to_cv")
def single_kind(c):
    k = c.int(0, 4)
    v = values(c, k)
    eps, scale, p = c.pick(0.0, 0.5, 1e-4), c.pick(None, 2.0, 0.25), c.pick(None, 2, 3)
    with c.frame(v=v):
        got = constr_to_cv(v, eps=eps, scale=scale, pow=p, func=np.sum)
    c.eq(float(got), O.cv(v, [], eps_ieq=eps, scale_ieq=scale, pow_ieq=p), "aggregate of one kind", v=v, eps=eps, scale=scale, pow=p, **TOL)


@contract("C03", n=1500, target="pymoo.core.individual.Individual.CV")
def solution_population_agree_and_follow(c):
    g, h, n = c.int(0, 3), c.int(0, 3), c.int(1, 5)
    G = np.array([values(c, g) for _ in range(n)]).reshape(n, g)
    H = np.array([values(c, h) for _ in range(n)]).reshape(n, h)
    pop = Population.new(X=c.rng.random((n, 2)), F=c.points(n, 2), G=G, H=H)
    for step in range(c.int(1, 3)):
        c.note(G=G, H=H, step=step)
        want = np.array([O.cv(a, b) for a, b in zip(G, H)])
        order = c.pick("pop", "ind", "feas")
        if order == "pop":
            c.eq(pop.get("CV"), want[:, None], "population-wide violation", **TOL)
        elif order == "feas":
            c.eq(pop.get("FEAS"), want[:, None] <= 0, "population-wide feasibility")
        for i, ind in enumerate(pop):
            c.eq(ind.CV, [want[i]], "solution violation", **TOL)
            c.eq(ind.cv, want[i], "scalar violation", **TOL)
            c.eq(ind.FEAS, [want[i] <= 0], "solution feasibility")
            c.eq(bool(ind.feas), bool(want[i] <= 0), "scalar feasibility")
        c.eq(np.ravel(pop_calc_cv(pop)), want, "aggregation function over the population", **TOL)
        c.eq(pop.get("CV"), want[:, None], "population-wide violation", **TOL)
        # reassign, then everything must follow
        if c.chance(0.5):
            G = np.array([values(c, g) for _ in range(n)]).reshape(n, g)
            if c.chance(0.5):
                pop.set("G", G)
            else:
                for i, ind in enumerate(pop):
                    ind.G = G[i]
        else:
            H = np.array([values(c, h) for _ in range(n)]).reshape(n, h)
            pop.set("H", H)
    c.eq(pop.get("CV"), np.array([O.cv(a, b) for a, b in zip(G, H)])[:, None], "violation follows the latest values", **TOL)


@contract("C03", n=400)
def feasibility_tolerance(c):
    eps = c.pick(0.0, 0.5, 1.0)
    cfg = Individual.default_config()
    cfg["cv_eps"] = eps
    v = float(c.pick(0.0, 0.25, 0.5, 0.75, 1.0, 2.0))
    ind = Individual(config=cfg, X=np.zeros(2), F=np.zeros(1), G=np.array([v, -1.0]), H=np.zeros(0))
    c.eq(bool(ind.FEAS[0]), v <= eps, "feasible exactly when the violation is within the tolerance", v=v, eps=eps)
    cfg["cache"] = False
    ind.G = np.array([v + 1, -1.0])
    c.eq(ind.CV, [v + 1], "uncached violation follows")


@contract("C03", n=150)
def evaluated_solutions(c):
    """Through evaluation: re-evaluating after the constraints changed updates the violation."""
    from pymoo.core.evaluator import Evaluator
    g, h = c.int(0, 2), c.int(0, 2)
    shift = [0.0]
    P = mk.Recorder(2, 1, g, h, F=lambda X: X.sum(axis=1, keepdims=True), G=lambda X: X[:, :1].repeat(g, 1) - 0.5 + shift[0],
                    H=lambda X: X[:, 1:2].repeat(h, 1) - 0.5 + shift[0])
    X = c.rng.integers(0, 3, (4, 2)) / 2.0
    pop = Population.new(X=X)
    ev = Evaluator()
    for s in (0.0, float(c.pick(1.0, -1.0, 0.25))):
        shift[0] = s
        ev.eval(P, pop, skip_already_evaluated=False)
        _, G, H = P.values(X)
        c.eq(pop.get("CV")[:, 0], [O.cv(a, b) for a, b in zip(G, H)], "violation of the values last evaluated", **TOL)
        c.eq(pop.get("FEAS")[:, 0], [O.cv(a, b) <= 0 for a, b in zip(G, H)], "feasibility of the values last evaluated")
