"""Generators of solutions, populations and problems for run-time contracts."""
import numpy as np
from pymoo.core.population import Population
from pymoo.core.individual import Individual
from pymoo.core.problem import Problem, ElementwiseProblem

EVAL = {"F", "G", "H"}


class Shell(Problem):
    """A problem object carrying only the declarations (operators and survivals read nothing else)."""

    def __init__(self, n_var=2, n_obj=1, g=0, h=0, xl=None, xu=None, **kw):
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=g, n_eq_constr=h, xl=xl, xu=xu, **kw)

    def _evaluate(self, X, out, *a, **k):
        raise AssertionError("not to be evaluated")


def constraint_values(c, n, g, style=None):
    """Inequality values with many exactly at, below and above zero; equal violations occur."""
    r = c.rng
    style = style or c.pick("mixed", "all_feas", "all_infeas", "grid", "one_feas", "one_infeas")
    if g == 0:
        return np.zeros((n, 0))
    if style == "mixed":
        return r.normal(0, 1, (n, g))
    if style == "all_feas":
        return -r.integers(0, 3, (n, g)).astype(float)
    if style == "all_infeas":
        G = r.integers(-1, 2, (n, g)).astype(float)
        G[np.arange(n), r.integers(0, g, n)] = r.integers(1, 4, n)
        return G
    if style == "grid":
        return r.integers(-1, 3, (n, g)).astype(float)
    G = -r.random((n, g))
    k = r.integers(n)
    if style == "one_feas":
        G = np.abs(G) + 0.1
        G[k] = -1.0
    else:
        G[k] = 1.0
    return G


def population(c, n, m=2, d=2, g=0, X=None, F=None, G=None, H=None, xl=None, xu=None, style=None, evaluated=True, feas=None, eq=False):
    """An evaluated population whose rows are distinguishable by identity."""
    if X is None:
        X = c.rng.random((n, d)) if xl is None else c.inside(n, xl, xu)
    if F is None:
        F = c.points(n, m, style)
    if G is None:
        G = constraint_values(c, n, g, feas)
    if H is None:
        H = np.zeros((n, 0))
        if eq and g:                  # the same requirements as equality constraints (default tolerance 1e-4)
            s = np.where(c.rng.random(G.shape) < .5, -1.0, 1.0)
            H, G = s * np.where(G > 0, G + 1e-4, 1e-4 * c.rng.random(G.shape)), np.zeros((n, 0))
    pop = Population.new(X=X, F=F, G=G, H=H)
    if evaluated:
        for ind in pop:
            ind.evaluated = set(EVAL)
    return pop


def shell(pop, m, **kw):
    """The declarations matching the constraint values of a population."""
    g, h = (len(pop[0].G), len(pop[0].H)) if len(pop) else (0, 0)
    return Shell(kw.pop("n_var", 2), m, g, h, **kw)


class Recorder(Problem):
    """Vectorised test problem that records every row it is asked for."""

    def __init__(self, n_var=2, n_obj=1, g=0, h=0, xl=0.0, xu=1.0, F=None, G=None, H=None, **kw):
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=g, n_eq_constr=h, xl=xl, xu=xu, **kw)
        self.fF, self.fG, self.fH = F, G, H
        self.log = []

    def rows(self):
        return np.concatenate(self.log) if self.log else np.zeros((0, self.n_var))

    def values(self, X):
        X = np.asarray(X, float)
        return (self.fF(X), self.fG(X) if self.n_ieq_constr else np.zeros((len(X), 0)),
                self.fH(X) if self.n_eq_constr else np.zeros((len(X), 0)))

    def _evaluate(self, X, out, *a, **k):
        X = np.asarray(X, float)
        self.log.append(X.copy())
        out["F"] = self.fF(X)
        if self.n_ieq_constr:
            out["G"] = self.fG(X)
        if self.n_eq_constr:
            out["H"] = self.fH(X)

    def __deepcopy__(self, memo):
        return self
