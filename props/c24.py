"""C24: termination stops exactly when its criterion is met."""
import time
import numpy as np
from vp.rt import contract
from vp import mk, lab

ASSUMPTIONS = ["wall-clock time is read from a substituted clock"]


class Fake:
    """What termination criteria read from an algorithm."""

    def __init__(self, problem=None, opt=None, n_gen=1, n_eval=0):
        self.problem, self.opt, self.n_iter = problem, opt, n_gen
        self.evaluator = type("E", (), {})()
        self.evaluator.n_eval = n_eval
        self.start_time = 0.0

    @property
    def n_gen(self):
        return self.n_iter


def same(c, t, done, label="", **info):
    c.ensures(t.perc >= 0.0, label + "progress is not negative", perc=t.perc, **info)
    c.ensures((t.perc >= 1.0) == bool(done), label + "progress reaches one exactly when fulfilled", perc=t.perc, fulfilled=done, **info)
    c.ensures(t.has_terminated() == bool(done) and t.do_continue() == (not done), label + "terminated exactly when fulfilled", **info)


@contract("C24", n=3000, target="pymoo.termination.max_gen, max_eval, max_time, collection; pymoo.core.termination")
def limits(c):
    from pymoo.termination.max_gen import MaximumGenerationTermination
    from pymoo.termination.max_eval import MaximumFunctionCallTermination
    from pymoo.termination.collection import TerminationCollection
    from pymoo.core.termination import TerminateIfAny, TerminateIfAll, NoTermination
    g = c.pick(None, c.int(1, 9), float("inf"))
    e = c.pick(None, c.int(1, 90), float("inf"))
    G, E, N = MaximumGenerationTermination(g), MaximumFunctionCallTermination(e), NoTermination()
    mk2 = lambda: (MaximumGenerationTermination(g), MaximumFunctionCallTermination(e))
    A, B, L = TerminateIfAny(*mk2()), TerminateIfAll(*mk2()), TerminationCollection(*mk2())
    a = Fake()
    c.note(n_gen=g, n_eval=e)
    force = c.int(1, 12) if c.chance(.3) else None
    for k in range(1, c.int(2, 12)):
        a.n_iter, a.evaluator.n_eval = k, a.evaluator.n_eval + c.int(0, 30)
        for t in (G, E, N, A, B, L):
            t.update(a)
        dg = g is not None and k >= g
        de = e is not None and a.evaluator.n_eval >= e
        info = dict(gen=k, evals=a.evaluator.n_eval)
        same(c, G, dg, "generations: ", **info)
        same(c, E, de, "evaluations: ", **info)
        same(c, N, False, "no limit: ", **info)
        same(c, A, dg or de, "any: ", **info)
        same(c, L, dg or de, "collection: ", **info)
        same(c, B, dg and de, "all: ", **info)
        if force == k:
            for t in (G, E, N, A, B, L):
                t.terminate()
                t.update(a)
                same(c, t, True, "forced stop: ")
            return


@contract("C24", n=300, target="pymoo.termination.max_time.TimeBasedTermination, pymoo.util.misc.time_to_int")
def clock(c):
    from pymoo.termination import max_time as M
    secs = c.int(1, 4000)
    txt = "%02d:%02d:%02d" % (secs // 3600, secs // 60 % 60, secs % 60)
    t = M.TimeBasedTermination(c.pick(secs, float(secs), txt))
    a = Fake()
    a.start_time = 1000.0
    real = M.time
    try:
        for k in range(5):
            el = c.pick(0.0, secs - 1e-3, float(secs), secs + 0.5, c.real(0, 2 * secs))
            M.time = type("T", (), dict(time=staticmethod(lambda: 1000.0 + el)))
            t.update(a)
            same(c, t, el >= secs, elapsed=el, limit=secs)
    finally:
        M.time = real


def opt_pop(c, m, n, feas):
    F = np.round(c.rng.normal(0, 2, (n, m)), 1)
    G = np.where(feas, -1.0, c.rng.integers(1, 5, n))[:, None]
    return mk.population(c, n, F=F, G=G.astype(float), d=2)


@contract("C24", n=2500, target="pymoo.termination.fmin, cv.UntilFeasibleTermination, indicator")
def thresholds(c):
    from pymoo.termination.fmin import MinimumFunctionValueTermination
    from pymoo.termination.cv import UntilFeasibleTermination
    from pymoo.termination.indicator import IndicatorTermination
    kind = c.pick("fmin", "feasible", "indicator")
    P = mk.Shell(2, 1, 1)
    c.note(kind=kind)
    if kind == "fmin":
        fmin = c.pick(0.0, 0.0, -1.0, 1.0, 0.5, float(c.int(-3, 3)))
        t = MinimumFunctionValueTermination(fmin)
        for _ in range(c.int(1, 6)):
            n = c.int(1, 3)
            feas = np.full(n, c.chance(.7))
            pop = opt_pop(c, 1, n, feas)
            if c.chance(.3):
                pop[0].F = np.array([fmin])
            t.update(Fake(P, pop))
            f = pop.get("F").min()
            same(c, t, feas.any() and f <= fmin, fmin=fmin, f=f, feas=feas)
    elif kind == "feasible":
        t = UntilFeasibleTermination()
        for _ in range(c.int(1, 6)):
            n = c.int(1, 3)
            cv = c.rng.choice([0.0, 1e-17, 1.0, 3.0, 1e5], n) if c.chance(.6) else c.rng.random(n) + .1
            pop = mk.population(c, n, F=np.zeros((n, 1)), G=cv[:, None], d=2)
            t.update(Fake(P, pop))
            same(c, t, cv.min() <= 0, cv=cv)
    else:
        goal = c.pick("minimize", "maximize")
        thr = float(c.int(-2, 2))
        vals = []

        class I:
            def do(self, F, **kw):
                return vals[-1]
        t = IndicatorTermination(I(), thr, goal)
        for _ in range(c.int(1, 6)):
            vals.append(float(np.round(c.rng.normal(0, 2), 1)) if c.chance(.8) else thr)
            t.update(Fake(P, opt_pop(c, 2, 1, np.array([True]))))
            same(c, t, vals[-1] <= thr if goal == "minimize" else vals[-1] >= thr, goal=goal, threshold=thr, values=list(vals))


@contract("C24", n=2500, target="pymoo.termination.delta, ftol, xtol, cv, robust, default")
def tolerances(c):
    """The measured change between consecutive observations decides; the robust wrapper needs it over the whole period."""
    from pymoo.termination.ftol import SingleObjectiveSpaceTermination, MultiObjectiveSpaceTermination
    from pymoo.termination.xtol import DesignSpaceTermination
    from pymoo.termination.cv import ConstraintViolationTermination
    from pymoo.termination.robust import RobustTermination
    kind = c.pick("f1", "fm", "x", "cv")
    tol = c.pick(0.0, 0.1, 0.5, 1.0)
    skip = c.pick(0, 0, 1, 3)
    period = c.int(1, 5)
    of = c.chance(.6)
    twf = c.chance(.5)
    P = mk.Shell(2, 2 if kind == "fm" else 1, 1, xl=np.zeros(2), xu=np.full(2, 4.0))

    def new():
        if kind == "f1":
            return SingleObjectiveSpaceTermination(tol, only_feas=of, n_skip=skip)
        if kind == "fm":
            return MultiObjectiveSpaceTermination(tol, only_feas=of, n_skip=skip)
        if kind == "x":
            return DesignSpaceTermination(tol, n_skip=skip)
        return ConstraintViolationTermination(tol, terminate_when_feasible=twf, n_skip=skip)
    t, r = new(), RobustTermination(new(), period)
    c.note(kind=kind, tol=tol, n_skip=skip, period=period, only_feas=of, when_feasible=twf)
    prev, perc, counter, hist = None, 0.0, 0, []
    walk = np.zeros(2)
    for k in range(c.int(2, 14)):
        n = 1 if kind == "f1" else c.int(1, 3)
        feas = np.full(n, c.chance(.75))
        if k and c.chance(.6):
            pass
        else:
            base = opt_pop(c, 2 if kind == "fm" else 1, n, feas)
            base.set("X", np.round(c.rng.random((n, 2)) * 4, 1))
        if c.chance(.3):
            base = mk.population(c, len(base), X=base.get("X") * 1.0, F=base.get("F") + c.pick(0, .05, -.1, -tol, -1e-17), G=base.get("G"))
        pop = base
        f, cv, X, ok = pop.get("F"), pop.get("CV")[:, 0], pop.get("X"), pop.get("CV")[:, 0] <= 0
        # independent statement of the measured change
        early = None
        if kind == "f1":
            g = f[ok, 0] if of else f[:, 0]
            cur = g.min() if len(g) else np.inf
            d = None if prev is None else (np.inf if np.isinf(cur) or np.isinf(prev) else max(0.0, prev - cur))
        elif kind == "fm":
            cur = f[ok] if of else f
            if prev is not None:
                if not len(cur) or not len(prev):
                    d = np.inf
                else:
                    lo, hi = cur.min(0), cur.max(0)
                    w = np.where(hi - lo < 1e-32, 1.0, hi - lo)
                    nz = lambda Z: (Z - lo) / w
                    D = np.sqrt(((nz(cur)[:, None] - nz(prev)[None]) ** 2).sum(-1))
                    d = max(np.abs((lo - prev.min(0)) / w).max(), np.abs((hi - prev.max(0)) / w).max(), D.min(axis=1).mean())
        elif kind == "x":
            cur = X / 4.0
            if prev is not None:
                D = np.sqrt(((prev[:, None] - cur[None]) ** 2).sum(-1))
                d = D.min(axis=0).mean()
        else:
            cur = cv.min()
            d = None if prev is None else max(0.0, prev - cur)
            if ok.any():
                early = 1.0 if twf else 0.0
        if early is not None:
            perc = early
        elif prev is None:
            perc, prev, counter = 0.0, cur, counter + 1
        elif counter > 0 and counter % (skip + 1) != 0:
            prev, counter = cur, counter + 1
        else:
            c.requires(kind in ('f1', 'cv') or not (abs(d - tol) < 1e-9 and d != tol))
            if d <= tol:
                perc = 1.0
            else:
                perc, prev, counter = min(1 / (1 + d - tol), np.nextafter(1.0, 0.0)), cur, counter + 1
        hist = (hist + [perc])[-period:]
        a = Fake(P, pop)
        with c.frame("observed solutions are not changed", F=f, X=X):
            t.update(a)
            r.update(a)
        same(c, t, perc >= 1.0, "single check: ", step=k)
        same(c, r, min(hist) >= 1.0, "over the period: ", step=k, history=list(hist))
        c.ensures(t.perc <= 1.0 and r.perc <= 1.0, "progress at most one")


@contract("C24", n=400, target="pymoo.termination.default")
def defaults(c):
    from pymoo.termination.default import DefaultSingleObjectiveTermination, DefaultMultiObjectiveTermination
    from pymoo.termination import get_termination
    moo = c.chance(.5)
    g, e, period = c.int(2, 12), c.int(20, 200), c.int(2, 6)
    kw = dict(n_max_gen=g, n_max_evals=e, period=period)
    cls = DefaultMultiObjectiveTermination if moo else DefaultSingleObjectiveTermination
    t = cls(**kw) if c.chance(.6) else get_termination("moo" if moo else "soo", **kw)
    P = mk.Shell(2, 2 if moo else 1, 1, xl=np.zeros(2), xu=np.ones(2))
    a = Fake(P)
    still = 0
    pop = None
    for k in range(1, 20):
        if pop is None or c.chance(.25):
            pop = opt_pop(c, 2 if moo else 1, 3 if moo else 1, np.full(3 if moo else 1, True))
            pop.set("X", c.rng.random((len(pop), 2)))
        a.opt, a.n_iter, a.evaluator.n_eval = pop, k, a.evaluator.n_eval + c.int(1, 30)
        t.update(a)
        parts = [q.perc >= 1 for q in t.criteria]
        same(c, t, any(parts), "any part fulfilled: ", parts=parts)
        if k >= g or a.evaluator.n_eval >= e:
            c.ensures(t.has_terminated(), "hard limits end the run")
        if t.has_terminated():
            break


@contract("C24", n=60, thorough=600, target="pymoo.core.algorithm.Algorithm.run")
def runs(c):
    name = c.pick("nsga2", "ga", "de", "pso", "es", "random", "nelder", "pattern", "cmaes", "moead", "spea2")
    P = lab.problem(c, name, kind="smooth")
    kind = c.pick("n_gen", "n_eval", "force", "n_iter")
    seed = c.int(1, 9999)
    alg = lab.make(name, c, P)
    seen = []

    def cb(a):
        seen.append((a.n_gen, a.evaluator.n_eval))
        if kind == "force" and len(seen) == 3:
            a.termination.terminate()
    from pymoo.optimize import minimize
    k = c.int(1, 6)
    e = c.int(5, 80)
    term = {"n_gen": ("n_gen", k), "n_iter": ("n_iter", k), "n_eval": ("n_eval", e), "force": ("n_gen", 500)}[kind]
    c.note(kind=kind, limit=term)
    res = minimize(P, alg, term, seed=seed, callback=cb)
    if kind in ("n_gen", "n_iter"):
        c.eq([s[0] for s in seen], list(range(1, k + 1)), "exactly that many generations")
    elif kind == "n_eval":
        c.ensures(seen[-1][1] >= e and all(s[1] < e for s in seen[:-1]), "stops after the first iteration reaching the limit", seen=seen)
        c.eq(seen[-1][1], len(P.rows()), "count equals the evaluations seen")
    else:
        c.ensures(len(seen) <= 4, "a forced stop ends the run", seen=seen)
