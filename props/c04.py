import numpy as np
from vp.rt import contract
from vp import oracle as O, mk
from pymoo.core.evaluator import Evaluator
from pymoo.core.population import Population
from pymoo.core.individual import Individual


def problem(c, elementwise=None):
    g, h = c.int(0, 2), c.int(0, 1)
    m = c.int(1, 3)
    return mk.Recorder(3, m, g, h, F=lambda X: np.column_stack([(X * (j + 1)).sum(axis=1) + j for j in range(m)]),
                       G=lambda X: X[:, :g] - 0.5, H=lambda X: X[:, :h] * 2)


@contract("C04", n=1500, target="pymoo.core.evaluator.Evaluator.eval")
def evaluates_exactly_what_is_missing(c):
    P = problem(c)
    n = c.int(0, 7)
    X = c.rng.random((n, 3))
    if n > 1 and c.chance(0.3):
        X[0] = X[-1]
    pop = Population.new(X=X) if n else Population()
    marks = []
    for i, ind in enumerate(pop):
        kind = c.pick("none", "all", "partF", "partFG", "none")
        ind.evaluated = {"none": set(), "all": {"F", "G", "H"}, "partF": {"F"}, "partFG": {"F", "G"}}[kind]
        ind.F, ind.G, ind.H = np.full(P.n_obj, 100.0 + i), np.full(P.n_ieq_constr, 200.0 + i), np.full(P.n_eq_constr, 300.0 + i)
        marks.append(kind)
    wanted = c.pick(["F", "G", "H"], ["F", "G", "H"], ["F"], ["F", "G"])
    skip = c.pick(None, None, True, False)
    ctor_skip = c.pick(True, True, False)
    count = c.pick(True, True, False)
    calls = []
    ev = Evaluator(skip_already_evaluated=ctor_skip, evaluate_values_of=c.pick(None, wanted), callback=(lambda p: calls.append(p)) if c.chance(0.5) else None)
    start = c.pick(0, 7)
    ev.n_eval = start
    use_default = c.chance(0.3)
    names = list(ev.evaluate_values_of) if use_default else wanted
    eff = ctor_skip if skip is None else skip
    need = [i for i in range(n) if not eff or not all(v in pop[i].evaluated for v in names)]
    before = O.data(pop)
    ids = O.ids(pop)
    c.note(marks=marks, names=names, skip=eff, count=count, need=need)
    ret = ev.eval(P, pop, skip_already_evaluated=skip, evaluate_values_of=None if use_default else wanted, count_evals=count)
    c.eq(P.rows(), X[need] if need else np.zeros((0, 3)), "exactly the solutions lacking a value are sent, in order")
    c.eq(ev.n_eval, start + (len(need) if count else 0), "the counter rises by the number of solutions sent")
    c.ensures(ret is pop or O.ids(ret) == ids, "returns the same solutions")
    c.ensures(O.ids(pop) == ids, "population keeps its members")
    if n:
        F, G, H = P.values(X)
        for i in range(n):
            if i in need:
                c.eq(pop[i].F, F[i], "objectives of its own variables", i=i)
                if "G" in names:
                    c.eq(pop[i].G, G[i], "constraints of its own variables", i=i)
                if "H" in names:
                    c.eq(pop[i].H, H[i], "equality constraints of its own variables", i=i)
                c.ensures(all(v in pop[i].evaluated for v in names), "values are marked as evaluated", i=i)
            else:
                c.ensures(O.same_data([before[i]], O.data([pop[i]])), "already evaluated solution untouched", i=i)
            c.eq(pop[i].X, X[i], "variables untouched")
    if calls:
        c.ensures(calls[0] is pop or O.ids(calls[0]) == ids, "callback sees the population")
    # second call: nothing left to do
    k = len(P.rows())
    b = ev.n_eval
    ev.eval(P, pop, skip_already_evaluated=True, evaluate_values_of=names)
    c.eq(len(P.rows()), k, "a repeated call evaluates nothing")
    c.eq(ev.n_eval, b, "a repeated call counts nothing")


@contract("C04", n=400, target="pymoo.core.evaluator.Evaluator.eval")
def single_solution_and_history(c):
    P = problem(c)
    ev = Evaluator()
    total, sent = 0, []
    inds = [Individual(X=c.rng.random(3)) for _ in range(5)]
    done = set()
    for _ in range(c.int(1, 8)):
        if c.chance(0.5):
            k = c.int(0, 4)
            r = ev.eval(P, inds[k])
            c.ensures(r is inds[k], "a single solution is returned as itself")
            new = [k] if k not in done else []
        else:
            ks = sorted(set(c.rng.integers(0, 5, c.int(1, 4)).tolist()))
            ev.eval(P, Population(individuals=[inds[k] for k in ks]))
            new = [k for k in ks if k not in done]
        if c.chance(0.2):
            z = c.int(0, 4)
            inds[z].evaluated = set()
            done |= set(new)
            total += len(new)
            done.discard(z)
            sent += new
            continue
        done |= set(new)
        total += len(new)
        sent += new
    c.eq(ev.n_eval, total, "the counter equals the number of solutions sent over any history")
    c.eq(P.rows(), np.array([inds[k].X for k in sent]).reshape(-1, 3), "the problem saw exactly these, in this order")
    for k in done:
        F, G, H = P.values(inds[k].X[None])
        c.eq(inds[k].F, F[0], "every solution holds its own objectives")


RUNS = ["ga", "nsga2", "de", "pso", "nsga3", "moead", "ctaea", "sms", "es", "nelder", "pattern", "rvea", "spea2", "cmopso", "isres", "age", "unsga3", "gde3", "brkga"]


@contract("C04", n=24, target="pymoo.core.algorithm.Algorithm")
def run_counts(c):
    from vp import lab
    name = RUNS[c.idx % len(RUNS)]
    P = lab.problem(c, name)
    alg = lab.make(name, c, P)
    res = lab.solve(P, alg, n_gen=4, seed=c.int(0, 10 ** 6))
    c.note(algorithm=name)
    c.eq(res.algorithm.evaluator.n_eval, len(P.rows()), "evaluations reported by a run equal the solutions the problem saw")
    c.ensures(len(P.rows()) > 0, "the run evaluates")
    for ind in res.algorithm.pop:
        F, G, H = P.values(np.asarray(ind.X, float)[None])
        c.eq(ind.F, F[0], "members hold the objectives of their own variables", rtol=1e-9, atol=1e-12)
        c.eq(ind.G, G[0], "members hold the constraints of their own variables", rtol=1e-9, atol=1e-12)
        c.ensures(any(np.array_equal(np.asarray(ind.X, float), r) for r in P.rows()), "members were evaluated")
