"""C03: constraint violation."""
import numpy as np
from vp.prove import proof
from pymoo.core import individual as I


def viol(v, c, n, eps, scale=None, pw=None):
    def t(k):
        x = v.max(v.sub(v.at(c, k), eps), 0.0)
        if scale is not None:
            x = v.div(x, scale if not hasattr(scale, "shape") else v.at(scale, k))
        return v.mul(x, x) if pw == 2 else x
    return v.total(n, t)


@proof("C03", "pymoo.core.individual.constr_to_cv")
def one_kind(v):
    n = v.dim("n")
    c = v.array("c", (n,))
    eps = v.scalar("eps", lo=0)
    r = v.call(I.constr_to_cv, c, eps=eps, func=np.sum)
    v.ensures(v.eq(r, viol(v, c, n, eps)), "sum of the excesses over the tolerance")
    v.ensures(v.le(0, r), "never negative")
    v.ensures(v.iff(v.eq(r, 0), v.forall(n, lambda k: v.le(v.at(c, k), eps))), "zero exactly when every constraint is met within tolerance")
    v.ensures(v.forall(n, lambda k: v.le(v.sub(v.at(c, k), eps), r)), "at least the excess of every single constraint")
    v.unchanged()


@proof("C03", "pymoo.core.individual.constr_to_cv")
def one_kind_with_scale_and_power(v):
    n = v.dim("n")
    c = v.array("c", (n,))
    eps = v.scalar("eps", lo=0)
    scale = v.array("scale", (n,), where=lambda x: v.lt(0, x))
    r = v.call(I.constr_to_cv, c, eps=eps, scale=scale, pow=2, func=np.sum)
    v.ensures(v.eq(r, viol(v, c, n, eps, scale, 2)), "sum of the scaled excesses raised to the power")
    v.ensures(v.le(0, r), "never negative")
    v.unchanged()


@proof("C03", "pymoo.core.individual.constr_to_cv")
def mean_of_one_kind(v):
    n = v.dim("n")
    c = v.array("c", (n,))
    eps = v.scalar("eps", lo=0)
    r = v.call(I.constr_to_cv, c, eps=eps)
    v.ensures(v.eq(r, v.div(viol(v, c, n, eps), n)), "default aggregate is the mean")


@proof("C03", "pymoo.core.individual.constr_to_cv")
def no_constraints(v):
    v.ensures(v.eq(v.call(I.constr_to_cv, None), 0), "none: zero")
    v.ensures(v.eq(v.call(I.constr_to_cv, np.array([])), 0), "empty: zero")
    v.ensures(v.eq(v.call(I.calc_cv), 0), "no constraints at all: zero")


def both(v, G, H, i, g, h):
    at = (lambda A, k: v.at(A, k)) if i is None else (lambda A, k: v.at(A, i, k))
    return v.add(v.total(g, lambda k: v.max(at(G, k), 0.0)), v.total(h, lambda k: v.max(v.sub(v.abs(at(H, k)), 1e-4), 0.0)))


@proof("C03", "pymoo.core.individual.calc_cv")
def aggregate(v):
    g, h = v.dim("g"), v.dim("h")
    G, H = v.array("G", (g,)), v.array("H", (h,))
    r = v.call(I.calc_cv, G=G, H=H)
    v.ensures(v.eq(r, both(v, G, H, None, g, h)), "sum of inequality excesses and of equality magnitudes beyond 1e-4")
    v.ensures(v.le(0, r), "never negative")
    met = v.And(v.forall(g, lambda k: v.le(v.at(G, k), 0)), v.forall(h, lambda k: v.le(v.abs(v.at(H, k)), 1e-4)))
    v.ensures(v.iff(v.eq(r, 0), met), "zero exactly when every constraint is met")
    v.unchanged()


@proof("C03", "pymoo.core.individual.calc_cv")
def aggregate_of_a_batch(v):
    n, g, h = v.dim("n"), v.dim("g"), v.dim("h")
    G, H = v.array("G", (n, g)), v.array("H", (n, h))
    r = v.call(I.calc_cv, G=G, H=H)
    v.same_shape(r, (n,), "one value per solution")
    v.each((n,), lambda i: v.eq(v.at(r, i), both(v, G, H, i, g, h)), "each solution's own aggregate")
    v.unchanged()


@proof("C03", "pymoo.core.individual.calc_cv")
def missing_kinds(v):
    g, h = v.dim("g"), v.dim("h")
    G, H = v.array("G", (g,)), v.array("H", (h,))
    v.ensures(v.eq(v.call(I.calc_cv, G=G), v.total(g, lambda k: v.max(v.at(G, k), 0.0))), "inequality constraints only")
    v.ensures(v.eq(v.call(I.calc_cv, H=H), v.total(h, lambda k: v.max(v.sub(v.abs(v.at(H, k)), 1e-4), 0.0))), "equality constraints only")


@proof("C03", ["pymoo.core.individual.Individual.CV", "pymoo.core.individual.Individual.FEAS"])
def individual(v):
    g, h = v.dim("g"), v.dim("h")
    G, H = v.array("G", (g,)), v.array("H", (h,))
    ind = v.call(I.Individual)
    v.setattr(ind, "G", G)
    v.setattr(ind, "H", H)
    cv, feas = v.getattr(ind, "CV"), v.getattr(ind, "FEAS")
    v.same_shape(cv, (1,), "one value")
    v.ensures(v.eq(v.at(cv, 0), both(v, G, H, None, g, h)), "violation of the current constraint values")
    met = v.And(v.forall(g, lambda k: v.le(v.at(G, k), 0)), v.forall(h, lambda k: v.le(v.abs(v.at(H, k)), 1e-4)))
    v.ensures(v.iff(v.at(feas, 0), met), "feasible exactly when every constraint is met")


@proof("C03", ["pymoo.core.individual.Individual.CV", "pymoo.core.individual.Individual.G", "pymoo.core.individual.Individual.H"])
def never_stale(v):
    g, h = v.dim("g"), v.dim("h")
    G, H, G2, H2 = v.array("G", (g,)), v.array("H", (h,)), v.array("G2", (g,)), v.array("H2", (h,))
    ind = v.call(I.Individual)
    v.setattr(ind, "G", G)
    v.setattr(ind, "H", H)
    v.getattr(ind, "CV")
    v.setattr(ind, "G", G2)
    v.ensures(v.eq(v.at(v.getattr(ind, "CV"), 0), both(v, G2, H, None, g, h)), "new inequality values are taken into account")
    v.setattr(ind, "H", H2)
    v.ensures(v.eq(v.at(v.getattr(ind, "CV"), 0), both(v, G2, H2, None, g, h)), "new equality values are taken into account")


@proof("C03", "pymoo.core.individual.Individual.FEAS")
def feasibility_tolerance(v):
    cv, eps = v.array("cv", (1,)), v.scalar("eps", lo=0)
    ind = v.call(I.Individual)
    ind.config = dict(I.default_config(), cv_eps=eps)
    v.setattr(ind, "CV", cv)
    v.ensures(v.iff(v.at(v.getattr(ind, "FEAS"), 0), v.le(v.at(cv, 0), eps)), "feasible exactly up to the tolerance")
