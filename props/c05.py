import numpy as np
from multiprocessing.pool import ThreadPool
from vp.rt import contract
from vp import oracle as O, mk
from pymoo.core.problem import Problem, ElementwiseProblem
from pymoo.problems.functional import FunctionalProblem
from pymoo.parallelization.starmap import StarmapParallelization


def f(x, j):
    return float((x * (j + 1)).sum() - j * x[0] * x[-1])


def build(c, m, g, h, kind, runner=None, style="array", extra=False):
    def one(x):
        return [f(x, j) for j in range(m)], [f(x, j) - 1 for j in range(g)], [f(x, j) ** 2 - 1 for j in range(h)]

    def put(out, key, cols, batch):
        if batch:
            A = np.array(cols).reshape(len(cols), -1)
            if style == "list":
                out[key] = [A[:, j] for j in range(A.shape[1])]
            elif style == "flat" and A.shape[1] == 1:
                out[key] = A[:, 0]
            else:
                out[key] = A
        else:
            out[key] = cols[0] if (style == "flat" and len(cols) == 1) else (list(cols) if style == "list" else np.array(cols))

    if kind == "vec":
        class P(Problem):
            def _evaluate(self, X, out, *a, **k):
                vals = [one(np.asarray(x, float)) for x in X]
                put(out, "F", [v[0] for v in vals], True)
                if g:
                    put(out, "G", [v[1] for v in vals], True)
                if h:
                    put(out, "H", [v[2] for v in vals], True)
                if extra:
                    out["extra"] = np.array([x.sum() for x in X])
        return P(n_var=3, n_obj=m, n_ieq_constr=g, n_eq_constr=h, xl=-1.0, xu=2.0)
    if kind == "elem":
        class P(ElementwiseProblem):
            def _evaluate(self, x, out, *a, **k):
                v = one(np.asarray(x, float))
                put(out, "F", v[0], False)
                if g:
                    put(out, "G", v[1], False)
                if h:
                    put(out, "H", v[2], False)
                if extra:
                    out["extra"] = x.sum()
        kw = dict(elementwise_runner=runner) if runner is not None else {}
        return P(n_var=3, n_obj=m, n_ieq_constr=g, n_eq_constr=h, xl=-1.0, xu=2.0, **kw)
    objs = [lambda x, j=j: f(x, j) for j in range(m)]
    kw = dict(elementwise_runner=runner) if runner is not None else {}
    return FunctionalProblem(3, objs if m > 1 or c.chance(0.5) else objs[0], constr_ieq=[lambda x, j=j: f(x, j) - 1 for j in range(g)],
                             constr_eq=[lambda x, j=j: f(x, j) ** 2 - 1 for j in range(h)], xl=-1.0, xu=2.0, **kw)


TOL = dict(rtol=1e-12, atol=1e-12)


class Shuffled:
    """A parallel runner that computes in another order but returns in input order."""

    def __init__(self, seed):
        self.seed = seed

    def __call__(self, fn, X):
        order = np.random.default_rng(self.seed).permutation(len(X))
        out = [None] * len(X)
        for i in order:
            out[i] = fn(X[i])
        return out


@contract("C05", n=1200, target="pymoo.core.problem.Problem.evaluate")
def batch_equals_each_alone(c):
    m, g, h = c.int(1, 3), c.int(0, 3), c.int(0, 2)
    n = c.pick(1, 1, 2, 3, c.int(1, 6))
    kind = c.pick("vec", "elem", "func")
    style = c.pick("array", "list", "flat")
    pool = None
    runner = c.pick(None, None, "shuffled", "pool") if kind != "vec" else None
    if runner == "shuffled":
        runner = Shuffled(c.int(0, 99))
    elif runner == "pool":
        pool = ThreadPool(3)
        runner = StarmapParallelization(pool.starmap)
    extra = c.chance(0.2) and kind != "func"
    P = build(c, m, g, h, kind, runner, style, extra)
    X = c.rng.random((n, 3)) * 3 - 1
    if c.chance(0.2):
        X = np.round(X).astype(int)
    c.note(m=m, g=g, h=h, n=n, kind=kind, style=style, X=X)
    wantF = np.array([[f(x.astype(float), j) for j in range(m)] for x in X])
    wantG = np.array([[f(x.astype(float), j) - 1 for j in range(g)] for x in X]).reshape(n, g)
    wantH = np.array([[f(x.astype(float), j) ** 2 - 1 for j in range(h)] for x in X]).reshape(n, h)
    W = dict(F=wantF, G=wantG, H=wantH)
    with c.frame(X=X):
        out = P.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)
    for k in "FGH":
        c.eq(out[k], W[k], "one row per solution with the declared columns (%s)" % k, **TOL)
    if extra:
        c.eq(out["extra"], X.sum(axis=1), "additional outputs per solution", **TOL)
    names = c.pick(["F"], ["F", "G"], ["F", "H"], ["G"], ["H", "F"], ["G", "F", "H"])
    with c.frame(X=X):
        r = P.evaluate(X, return_values_of=names)
    r = (r,) if len(names) == 1 else r
    for k, v in zip(names, r):
        c.eq(v, W[k], "the selected values in the selected order", names=names, **TOL)
    d = P.evaluate(X)
    dn = ["F"] + (["G"] if g else []) + (["H"] if h else [])
    d = (d,) if len(dn) == 1 else d
    c.eq(len(d), len(dn), "default selection covers the declared quantities")
    for k, v in zip(dn, d):
        c.eq(v, W[k], "default selection", **TOL)
    for i in range(n):
        o = P.evaluate(X[i], return_values_of=["F", "G", "H"], return_as_dictionary=True)
        for k in "FGH":
            c.eq(o[k], W[k][i], "a single solution gives the same values without the batch axis (%s)" % k, i=i, **TOL)
        o = P.evaluate(X[[i]], return_values_of=["F", "G", "H"], return_as_dictionary=True)
        for k in "FGH":
            c.eq(o[k], W[k][[i]], "a batch of one keeps the batch axis (%s)" % k, **TOL)
    perm = c.rng.permutation(n)
    c.eq(P.evaluate(X[perm], return_values_of=["F"]), wantF[perm], "rows follow the input order", **TOL)
    if pool is not None:
        pool.close()
        pool.join()


@contract("C05", n=400, target="pymoo.core.problem.Problem._format_dict")
def wrong_shapes_are_rejected(c):
    m, g, h = c.int(1, 3), c.int(0, 2), c.int(0, 2)
    n = c.int(1, 4)
    key = c.pick("F", "G", "H")
    declared = dict(F=m, G=g, H=h)[key]
    wrong = c.pick(declared + 1, declared + 2, declared - 1 if declared > 1 else declared + 1)
    rows = n
    if c.chance(0.3):
        wrong, rows = declared if declared else 1, n + c.int(1, 2)
    c.requires(rows * wrong != n * declared)
    how = c.pick("vec", "elem") if rows == n else "vec"
    base = Problem if how == "vec" else ElementwiseProblem

    class P(base):
        def _evaluate(self, X, out, *a, **k):
            sizes = dict(F=m, G=g, H=h)
            for q in "FGH":
                if sizes[q] or q == key:
                    w = wrong if q == key else sizes[q]
                    out[q] = np.ones((rows if q == key else len(X), w)) if how == "vec" else np.ones(w)
    P = P(n_var=2, n_obj=m, n_ieq_constr=g, n_eq_constr=h, xl=0, xu=1)
    c.note(key=key, declared=declared, wrong=wrong, rows=rows, n=n, how=how)
    c.ensures(c.fails(lambda: P.evaluate(c.rng.random((n, 2)), return_values_of=["F", "G", "H"], return_as_dictionary=True)), "a wrong shape is an error")
    c.ensures(c.fails(lambda: Problem(n_var=2).evaluate(np.zeros((2, 3)))), "a wrong number of variables is an error")


@contract("C05", n=300)
def replaced_nan_and_callback(c):
    n = c.int(1, 4)
    seen = []

    class P(Problem):
        def _evaluate(self, X, out, *a, **k):
            F = X.sum(axis=1, keepdims=True)
            F[X[:, 0] > 0.5] = np.nan
            out["F"] = F
    P = P(n_var=2, n_obj=1, xl=0, xu=1, replace_nan_values_by=7.0, callback=lambda X, out: seen.append((X.copy(), out["F"].copy())))
    X = c.rng.random((n, 2))
    F = P.evaluate(X)
    c.eq(F[:, 0], np.where(X[:, 0] > 0.5, 7.0, X.sum(axis=1)), "not-a-number results are replaced as requested", **TOL)
    c.eq(seen[0][0], X, "callback sees the variables")
    c.eq(seen[0][1], F, "callback sees the values")


LIB = ["zdt1", "zdt2", "zdt3", "zdt4", "zdt6", "zdt5", "dtlz1", "dtlz2", "dtlz3", "dtlz4", "dtlz5", "dtlz6", "dtlz7", "bnh", "osy", "tnk", "srn", "truss2d",
       "welded_beam", "kursawe", "ackley", "rastrigin", "rosenbrock", "sphere", "griewank", "schwefel", "zakharov", "himmelblau", "g1", "g2", "g3", "g4", "g5", "g6",
       "g7", "g8", "g9", "g10", "g11", "g13", "g24", "cantilevered_beam", "pressure_vessel", "knp", "mw1", "mw2", "mw3", "mw5", "mw7", "mw9", "mw11", "mw13", "mw14",
       "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4", "dascmop1", "dascmop7", "ctp1", "ctp5", "modact", "dc1dtlz1", "dc2dtlz1", "dc3dtlz1", "convex_dtlz2",
       "sympart", "sympart_rotated", "mmf1", "omnitest", "df1", "df5", "carside", "clutch", "dtlz1^-1", "sdtlz2", "wfg1", "wfg2", "wfg4", "wfg5", "wfg7", "wfg9"]


@contract("C05", n=len(LIB) * 2)
def library_problems(c):
    from pymoo.problems import get_problem
    name = LIB[c.idx % len(LIB)]
    try:
        P = get_problem(name, 1) if name.startswith("dascmop") else (get_problem(name, n_var=10, n_obj=3) if name.startswith("wfg") else get_problem(name))
    except Exception:
        c.ensures(True, "problem not offered offline")
        return
    n = c.pick(1, 2, 5)
    xl, xu = (np.zeros(P.n_var), np.ones(P.n_var)) if P.xl is None else (P.xl, P.xu)
    X = xl + c.rng.random((n, P.n_var)) * (xu - xl)
    if P.vtype is bool:
        X = c.rng.random((n, P.n_var)) < 0.5
    elif P.vtype is int:
        X = np.round(X).astype(int)
    c.note(problem=name, X=X)
    with c.frame(X=X):
        out = P.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)
    c.eq(out["F"].shape, (n, P.n_obj), "declared objectives")
    c.eq(out["G"].shape, (n, P.n_ieq_constr), "declared inequality constraints")
    c.eq(out["H"].shape, (n, P.n_eq_constr), "declared equality constraints")
    for i in range(n):
        o = P.evaluate(X[i], return_values_of=["F", "G", "H"], return_as_dictionary=True)
        for k in "FGH":
            c.eq(o[k], out[k][i], "row equals evaluating the solution alone (%s)" % k, rtol=1e-9, atol=1e-9)
