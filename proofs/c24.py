"""C24: termination."""
import numpy as np
from vp.prove import proof
from pymoo.core.termination import Termination, NoTermination, TerminateIfAny, TerminateIfAll
from pymoo.termination.collection import TerminationCollection
from pymoo.termination.cv import ConstraintViolationTermination, UntilFeasibleTermination
from pymoo.termination.default import DefaultTermination
from pymoo.termination.delta import DeltaToleranceTermination
from pymoo.termination.fmin import MinimumFunctionValueTermination
from pymoo.termination.ftol import SingleObjectiveSpaceTermination
from pymoo.termination.indicator import IndicatorTermination
from pymoo.termination.max_eval import MaximumFunctionCallTermination
from pymoo.termination.max_gen import MaximumGenerationTermination
from pymoo.termination.max_time import TimeBasedTermination
from pymoo.termination.robust import RobustTermination

T = "pymoo.termination."


class Some:
    """an object with just these attributes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Part(Termination):
    """any criterion: its progress is whatever it is"""

    def __init__(self, p):
        super().__init__()
        self.p = p

    def _update(self, algorithm):
        return self.p


def stops(v, t, iff, label="stops exactly when the criterion is met"):
    v.ensures(v.iff(v.call(t.has_terminated), iff), label)
    v.ensures(v.iff(v.call(t.do_continue), v.Not(iff)), "continues otherwise")


@proof("C24", ["pymoo.core.termination.Termination." + f for f in ("update", "has_terminated", "do_continue", "terminate")])
def forced(v):
    p = v.scalar("progress", lo=0)
    t = v.call(Part, p)
    stops(v, t, False, "a new criterion is not met")
    if v.flag("forced"):
        v.call(t.terminate)
        v.ensures(v.eq(v.call(t.update, None), 1), "progress is complete when forced")
        stops(v, t, True, "a forced stop ends the run")
    else:
        v.ensures(v.eq(v.call(t.update, None), p), "progress of the criterion")
        stops(v, t, v.le(1, p))


@proof("C24", "pymoo.core.termination.NoTermination._update")
def none(v):
    t = v.call(NoTermination)
    v.ensures(v.eq(v.call(t.update, Some(n_gen=v.dim("n_gen"))), 0), "no progress")
    stops(v, t, False, "never stops")


@proof("C24", T + "max_gen.MaximumGenerationTermination._update")
def generations(v):
    n = v.dim("n_gen", lo=0)
    limit = v.dim("limit", lo=1) if v.flag("limited") else None
    t = v.call(MaximumGenerationTermination, limit)
    p = v.call(t.update, Some(n_gen=n))
    stops(v, t, False if limit is None else v.le(limit, n), "stops exactly from the generation limit on")
    v.ensures(v.And(v.le(0, p), v.eq(t.perc, p)), "progress is never negative")


@proof("C24", T + "max_eval.MaximumFunctionCallTermination._update")
def evaluations(v):
    n = v.dim("n_eval", lo=0)
    limit = v.dim("limit", lo=1) if v.flag("limited") else None
    t = v.call(MaximumFunctionCallTermination, limit)
    p = v.call(t.update, Some(evaluator=Some(n_eval=n)))
    stops(v, t, False if limit is None else v.le(limit, n), "stops exactly from the evaluation limit on")
    v.ensures(v.le(0, p), "progress is never negative")


@proof("C24", ["pymoo.core.termination.TerminateIfAny._update", "pymoo.core.termination.TerminateIfAll._update", T + "collection.TerminationCollection._update"])
def combined(v):
    ps = [v.scalar("p%d" % i, lo=0) for i in range(3)]
    cls = v.pick("cls", "any", "all", "collection")
    t = v.call({"any": TerminateIfAny, "all": TerminateIfAll, "collection": TerminationCollection}[cls], *[Part(p) for p in ps])
    p = v.call(t.update, None)
    parts = [v.le(1, q) for q in ps]
    stops(v, t, v.And(*parts) if cls == "all" else v.Or(*parts), "stops exactly when any (all) of its parts do")
    v.ensures(v.le(0, p), "progress is never negative")


@proof("C24", T + "default.DefaultTermination._update")
def default(v):
    x, cv, f = (v.scalar(q, lo=0) for q in ("x", "cv", "f"))
    g, e, n, k = v.dim("n_max_gen", lo=1), v.dim("n_max_evals", lo=1), v.dim("n_gen", lo=0), v.dim("n_eval", lo=0)
    t = v.call(DefaultTermination, Part(x), Part(cv), Part(f), n_max_gen=g, n_max_evals=e)
    v.call(t.update, Some(n_gen=n, evaluator=Some(n_eval=k)))
    stops(v, t, v.Or(v.le(1, x), v.le(1, cv), v.le(1, f), v.le(g, n), v.le(e, k)), "stops exactly when a part or a limit is met")


class Delta(DeltaToleranceTermination):
    """any measured change"""

    def __init__(self, tol, n_skip, d):
        super().__init__(tol, n_skip=n_skip)
        self.d = d

    def _delta(self, prev, current):
        return self.d

    def _data(self, algorithm):
        return algorithm


@proof("C24", T + "delta.DeltaToleranceTermination._update")
def tolerance(v):
    tol, d = v.scalar("tol", lo=0), v.scalar("delta", lo=0)
    skip, counter = v.dim("n_skip", lo=0), v.dim("counter", lo=0)
    before = v.scalar("before", lo=0)
    t = v.call(Delta, tol, skip, d)
    first = v.flag("first")
    if not first:
        t.data, t.counter, t.perc = "before", counter, before
    p = v.call(t.update, "now")
    looks = v.Or(v.eq(counter, 0), v.eq(v.mod(counter, v.add(skip, 1)), 0))
    if first:
        stops(v, t, False, "one observation is not enough")
        v.ensures(t.data == "now", "remembers the first observation")
        return
    stops(v, t, v.ite(looks, lambda: v.le(d, tol), lambda: v.le(1, before)), "stops exactly when the change is within the tolerance")
    v.ensures(v.le(0, p), "progress is never negative")
    v.ensures(v.implies(v.lt(p, 1), v.And(t.data == "now", v.eq(t.counter, v.add(counter, 1)))), "goes on with the latest observation")


@proof("C24", T + "robust.RobustTermination._update")
def robust(v):
    period = v.pick("period", 1, 2, 3, 4)
    t = v.call(RobustTermination, Part(None), period=period)
    seen = []
    for k in range(6):
        seen.append(v.scalar("p%d" % k, lo=0))
        t.termination.p = seen[-1]
        v.call(t.update, None)
    stops(v, t, v.And(*[v.le(1, q) for q in seen[-period:]]), "stops exactly when met over the whole period")


@proof("C24", T + "indicator.IndicatorTermination._update")
def indicator(v):
    goal = v.pick("goal", "minimize", "maximize")
    thr = v.scalar("threshold")
    n = v.dim("n")
    opt = v.population("opt", n, F=(v.dim("m"),))
    x = [v.scalar("i%d" % k) for k in range(3)]
    cur = []

    class I:
        def do(self, F):
            return cur[-1]
    t = v.call(IndicatorTermination, I(), thr, goal)
    for q in x:
        cur.append(q)
        p = v.call(t.update, Some(opt=opt))
    stops(v, t, v.le(x[-1], thr) if goal == "minimize" else v.le(thr, x[-1]), "stops exactly when the threshold is reached")
    v.ensures(v.le(0, p), "progress is never negative")


def solutions(v, m=1):
    n = v.dim("n")
    pop = v.population("opt", n, F=(m,), CV=(1,))
    get = lambda key: v.arr(pop.get(key) if v.native else v.call(v.getattr(pop, "get"), key))
    return n, pop, get("F"), get("CV")


@proof("C24", T + "fmin.MinimumFunctionValueTermination._update")
def value(v):
    n, pop, F, CV = solutions(v)
    fmin = v.scalar("fmin")
    # the reported solutions are all feasible, or none is
    all_ = v.forall(n, lambda i: v.le(v.at(CV, i, 0), 0))
    none_ = v.forall(n, lambda i: v.lt(0, v.at(CV, i, 0)))
    v.requires(v.Or(all_, none_))
    t = v.call(MinimumFunctionValueTermination, fmin)
    p = v.call(t.update, Some(opt=pop))
    stops(v, t, v.And(all_, v.exists(n, lambda i: v.le(v.at(F, i, 0), fmin))), "stops exactly when a feasible solution reaches the value")
    v.ensures(v.le(0, p), "progress is never negative")


@proof("C24", T + "cv.UntilFeasibleTermination._update")
def feasible(v):
    n, pop, F, CV = solutions(v)
    v.assume_each((n,), lambda i: v.le(0, v.at(CV, i, 0)))
    t = v.call(UntilFeasibleTermination)
    if v.flag("later"):
        t.initial_cv = v.scalar("initial")
        v.requires(v.lt(0, t.initial_cv))
    p = v.call(t.update, Some(opt=pop))
    stops(v, t, v.exists(n, lambda i: v.le(v.at(CV, i, 0), 0)), "stops exactly when a solution is feasible")
    v.ensures(v.le(0, p), "progress is never negative")


@proof("C24", T + "cv.ConstraintViolationTermination._update")
def violation(v):
    n, pop, F, CV = solutions(v)
    v.assume_each((n,), lambda i: v.le(0, v.at(CV, i, 0)))
    tol, when, con = v.scalar("tol", lo=0), v.flag("terminate_when_feasible"), v.flag("constrained")
    t = v.call(ConstraintViolationTermination, tol=tol, terminate_when_feasible=when)
    before = None
    if v.flag("later"):
        before = t.data = v.scalar("before", lo=0)
        t.counter = 1
    p = v.call(t.update, Some(opt=pop, problem=Some(has_constraints=lambda: con)))
    some = v.exists(n, lambda i: v.le(v.at(CV, i, 0), 0))
    better = False if before is None else v.exists(n, lambda i: v.lt(v.at(CV, i, 0), v.sub(before, tol)))
    stops(v, t, v.And(con, v.ite(some, when, v.And(before is not None, v.Not(better)))), "stops exactly when feasible or no longer improving")
    v.ensures(v.le(0, p), "progress is never negative")


@proof("C24", T + "ftol.SingleObjectiveSpaceTermination._update")
def single_objective(v):
    n, pop, F, CV = solutions(v)
    only = v.flag("only_feas")
    v.requires(v.Or(v.Not(only), v.exists(n, lambda i: v.le(v.at(CV, i, 0), 0))))
    tol, before = v.scalar("tol", lo=0), v.scalar("before")
    t = v.call(SingleObjectiveSpaceTermination, tol=tol, only_feas=only)
    t.data, t.counter = before, 1
    p = v.call(t.update, Some(opt=pop))
    ok = lambda i: v.Or(not only, v.le(v.at(CV, i, 0), 0))
    stops(v, t, v.Not(v.exists(n, lambda i: v.And(ok(i), v.lt(v.at(F, i, 0), v.sub(before, tol))))), "stops exactly when the best value improved by at most the tolerance")
    v.ensures(v.le(0, p), "progress is never negative")
