"""C28: problem wrappers preserve the meaning of the wrapped problem."""
import copy
import numpy as np
from vp.rt import contract
from vp import oracle as O, mk
from props.c03 import config
from pymoo.core.problem import Problem, ElementwiseProblem
from pymoo.constraints.as_penalty import ConstraintsAsPenalty
from pymoo.constraints.as_obj import ConstraintsAsObjective
from pymoo.constraints.from_bounds import ConstraintsFromBounds
from pymoo.problems.zero_to_one import ZeroToOne
from pymoo.problems.multi_to_single import MultiToSingleObjective
from pymoo.problems.static import StaticProblem

TOL = dict(rtol=1e-9, atol=1e-9)


class Vec(Problem):
    def __init__(self, A, B, C, **kw):
        self.A, self.B, self.C = A, B, C
        super().__init__(**kw)

    def _evaluate(self, X, out, *a, **k):
        out["F"] = X @ self.A + 1
        if self.n_ieq_constr:
            out["G"] = X @ self.B - .5
        if self.n_eq_constr:
            out["H"] = X @ self.C


class Ele(ElementwiseProblem):
    def __init__(self, A, B, C, **kw):
        self.A, self.B, self.C = A, B, C
        super().__init__(**kw)

    def _evaluate(self, x, out, *a, **k):
        out["F"] = x @ self.A + 1
        if self.n_ieq_constr:
            out["G"] = x @ self.B - .5
        if self.n_eq_constr:
            out["H"] = x @ self.C


def make(c, bounded=None):
    d, m, g, h = c.int(1, 4), c.int(1, 3), c.int(0, 3), c.int(0, 2)
    A, B, C = c.rng.normal(0, 2, (d, m)).round(2), c.rng.normal(0, 2, (d, g)).round(2), c.rng.normal(0, 2, (d, h)).round(2)
    xl, xu = c.bounds(d)
    kind = c.pick("vec", "ele")
    P = (Vec if kind == "vec" else Ele)(A, B, C, n_var=d, n_obj=m, n_ieq_constr=g, n_eq_constr=h, xl=xl, xu=xu)
    n = c.int(1, 5)
    X = c.inside(n, xl, xu)
    if c.chance(.4):
        X = X + c.rng.normal(0, 1, X.shape)
    if h and c.chance(.3):
        X[0] = 0                                     # an equality constraint met exactly
    c.note(kind=kind, n_obj=m, g=g, h=h, X=X)
    return P, X, X @ A + 1, X @ B - .5, X @ C


def ev(c, P, X, **kw):
    """Evaluates the whole matrix or its single rows."""
    if len(X) == 1 and c.chance(.5):
        out = P.evaluate(X[0], return_values_of=["F", "G", "H"], return_as_dictionary=True, **kw)
        return {k: np.asarray(v)[None] for k, v in out.items()}
    return P.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True, **kw)


class Untouched:
    """The wrapped problem evaluates and declares afterwards exactly what it did before."""

    def __init__(self, c, P, X):
        self.c, self.P, self.X = c, P, X

    def state(self):
        P = self.P
        out = P.evaluate(self.X, return_values_of=["F", "G", "H"])
        return [P.n_var, P.n_obj, P.n_ieq_constr, P.n_eq_constr, P.xl.copy(), P.xu.copy(), *[o.copy() for o in out]], type(P), sorted(P.__dict__)

    def __enter__(self):
        self.before = self.state()
        return self

    def __exit__(self, et, e, tb):
        if et is None:
            after = self.state()
            self.c.ensures(after[1:] == self.before[1:], "original problem keeps its class and attributes")
            for u, v in zip(self.before[0], after[0]):
                self.c.eq(v, u, "original problem is unchanged")


def declared(c, W, out, n):
    c.eq(np.shape(out["F"]), (n, W.n_obj), "declares the number of objectives it returns")
    out = dict(dict(G=np.zeros((n, 0)), H=np.zeros((n, 0))), **out)          # left out when there are none
    c.eq(np.shape(out["G"]), (n, W.n_ieq_constr), "declares the number of inequality constraints it returns")
    c.eq(np.shape(out["H"]), (n, W.n_eq_constr), "declares the number of equality constraints it returns")
    c.eq(W.n_constr, W.n_ieq_constr + W.n_eq_constr, "total number of constraints")
    c.ensures(W.has_constraints() == (W.n_constr > 0), "knows whether it has constraints")


@contract("C28", n=500, target="pymoo.constraints.as_penalty.ConstraintsAsPenalty")
def penalty(c):
    P, X, F, G, H = make(c)
    p = c.pick(0.0, 0.1, 1.0, 1e3, c.real(0, 10))
    with Untouched(c, P, X):
        W = ConstraintsAsPenalty(P, penalty=p)
        with c.frame(X=X):
            out = ev(c, W, X)
        cv = np.array([O.cv(g, h) for g, h in zip(G, H)])
        c.eq(out["F"], F + p * cv[:, None], "objective plus penalty times violation", **TOL)
        c.eq((W.n_ieq_constr, W.n_eq_constr, W.n_obj), (0, 0, P.n_obj), "no constraints are left")
        declared(c, W, out, len(X))
        c.eq(np.reshape(W.evaluate(X), (len(X), -1)), F + p * cv[:, None], "default values requested", **TOL)
        c.eq((W.xl, W.xu), (P.xl, P.xu), "same bounds")


@contract("C28", n=500, target="pymoo.constraints.as_obj.ConstraintsAsObjective")
def objective(c):
    P, X, F, G, H = make(c)
    app = c.chance(.6)
    cfg, kw = config(c, P.n_ieq_constr, P.n_eq_constr) if c.chance(.5) else (None, {})
    with Untouched(c, P, X):
        W = ConstraintsAsObjective(P, config=cfg, append=app)
        with c.frame(X=X):
            out = ev(c, W, X)
        cv = np.array([O.cv(g, h, **kw) for g, h in zip(G, H)])
        c.eq(out["F"], np.column_stack([cv, F]) if app else cv[:, None], "violation is added to or substitutes the objectives", append=app, **TOL)
        c.eq((W.n_ieq_constr, W.n_eq_constr, W.n_obj), (0, 0, P.n_obj + 1 if app else 1), "counts")
        declared(c, W, out, len(X))


@contract("C28", n=500, target="pymoo.constraints.from_bounds.ConstraintsFromBounds")
def bounds(c):
    P, X, F, G, H = make(c)
    rem = c.chance(.5)
    with Untouched(c, P, X):
        W = ConstraintsFromBounds(P, remove_bonds=rem)
        with c.frame(X=X):
            out = ev(c, W, X)
        c.eq(out["F"], F, "same objectives", **TOL)
        c.eq(out["H"], H, "same equality constraints", **TOL)
        c.eq(out["G"], np.column_stack([G, P.xl - X, X - P.xu]), "how far every bound is violated", **TOL)
        c.ensures(not rem or (W.xl is None and W.xu is None and not W.has_bounds()), "bounds are removed on request")
        if not rem:
            c.eq((W.xl, W.xu), (P.xl, P.xu), "same bounds")
        declared(c, W, out, len(X))


@contract("C28", n=600, target="pymoo.problems.zero_to_one.ZeroToOne")
def unit(c):
    P, X, F, G, H = make(c)
    Z = c.rng.random(X.shape)
    Z[c.rng.random(Z.shape) < .2] = 0
    Z[c.rng.random(Z.shape) < .2] = 1
    with Untouched(c, P, X):
        W = ZeroToOne(P)
        with c.frame(Z=Z):
            out = ev(c, W, Z)
        real = P.xl + Z * (P.xu - P.xl)
        free = P.xu > P.xl
        got = W.denormalize(Z)
        c.eq(got[:, free], real[:, free], "denormalised point", **TOL)
        c.requires(free.all())
        for k, M, b in (("F", P.A, 1), ("G", P.B, -.5), ("H", P.C, 0)):
            c.eq(out[k], real @ M + b, "evaluates the original at the denormalised point: " + k, rtol=1e-9, atol=1e-6)
        c.eq((W.xl, W.xu), (np.zeros(P.n_var), np.ones(P.n_var)), "unit bounds")
        c.eq(W.normalize(real), Z, "normalising inverts denormalising", rtol=1e-6, atol=1e-6)
        declared(c, W, out, len(X))


@contract("C28", n=500, target="pymoo.problems.multi_to_single.MultiToSingleObjective")
def single(c):
    from pymoo.decomposition.weighted_sum import WeightedSum
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.tchebicheff import Tchebicheff
    P, X, F, G, H = make(c)
    m = P.n_obj
    w = c.rng.random(m) + .05
    k = c.pick("ws", "asf", "tch", "no weights")
    ideal = c.rng.normal(0, 1, m)
    U = ideal
    if k == "ws":
        dec, kw, want = WeightedSum(), dict(weights=w), (F * w).sum(axis=1)
    elif k == "no weights":
        dec, kw, want = WeightedSum(), None, None
    elif k == "asf":
        dec, kw, want = ASF(), dict(weights=w, ideal_point=ideal), ((F - U) / w).max(axis=1)
    else:
        dec, kw, want = Tchebicheff(), dict(weights=w, ideal_point=ideal, utopian_eps=0.0), (np.abs(F - U) * w).max(axis=1)
    c.note(decomposition=k, weights=w, ideal=ideal)
    if want is None:
        c.requires(m == 1)
        want, kw = F[:, 0], dict(weights=np.ones(1))
    with Untouched(c, P, X):
        W = MultiToSingleObjective(P, dec, kwargs=kw)
        with c.frame(X=X, w=w, ideal=ideal):
            out = ev(c, W, X)
        c.eq(out["F"], want[:, None], "scalarisation of the original objectives", **TOL)
        c.eq(out["G"], G, "same inequality constraints", **TOL)
        c.eq(out["H"], H, "same equality constraints", **TOL)
        c.eq(W.n_obj, 1, "one objective")
        c.eq((W.xl, W.xu), (P.xl, P.xu), "same bounds")
        declared(c, W, out, len(X))


@contract("C28", n=300, target="pymoo.problems.static.StaticProblem")
def static(c):
    P, X, F, G, H = make(c)
    n = len(X)
    vals = dict(F=c.rng.normal(0, 1, (n, P.n_obj)))
    if P.n_ieq_constr:
        vals["G"] = c.rng.normal(0, 1, (n, P.n_ieq_constr))
    if P.n_eq_constr:
        vals["H"] = c.rng.normal(0, 1, (n, P.n_eq_constr))
    if c.chance(.3):
        vals["extra"] = np.arange(n)
    P2 = Vec(P.A, P.B, P.C, n_var=P.n_var, n_obj=P.n_obj, n_ieq_constr=P.n_ieq_constr, n_eq_constr=P.n_eq_constr, xl=P.xl, xu=P.xu)
    with Untouched(c, P2, X):
        W = StaticProblem(P2, **vals)
        with c.frame(X=X, **vals):
            out = W.evaluate(X, return_values_of=["F", "G", "H", *[k for k in vals if k == "extra"]], return_as_dictionary=True)
        for k, v in vals.items():
            c.eq(out[k], v, "the fixed values are returned")
        declared(c, W, out, n)


@contract("C28", n=300, target="pymoo.core.meta.Meta")
def chain(c):
    """Wrappers can be combined: unit variables, then a penalty."""
    P, X, F, G, H = make(c)
    c.requires((P.xu > P.xl).all())
    p = c.real(0, 5)
    Z = c.rng.random(X.shape)
    with Untouched(c, P, X):
        inner = ConstraintsAsPenalty(P, penalty=p)
        W = ZeroToOne(inner)
        out = ev(c, W, Z)
        real = P.xl + Z * (P.xu - P.xl)
        cv = np.array([O.cv(g, h) for g, h in zip(real @ P.B - .5, real @ P.C)])
        c.eq(W.denormalize(Z), real, "denormalised point", **TOL)
        c.eq(out["F"], real @ P.A + 1 + p * cv[:, None], "values of the combined wrappers", rtol=1e-6, atol=1e-6)
        c.eq((W.n_ieq_constr, W.n_eq_constr, W.n_obj), (0, 0, P.n_obj), "counts of the combined wrappers")
        c.ensures(isinstance(W, ZeroToOne) and isinstance(W, Problem) and isinstance(W, type(P)), "remains a problem of its kind")
