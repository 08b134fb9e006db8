"""C28: problem wrappers."""
import numpy as np
from vp.prove import proof
from proofs.c03 import both
from pymoo.constraints.as_penalty import ConstraintsAsPenalty
from pymoo.constraints.as_obj import ConstraintsAsObjective
from pymoo.constraints.from_bounds import ConstraintsFromBounds
from pymoo.decomposition.weighted_sum import WeightedSum
from pymoo.problems.multi_to_single import MultiToSingleObjective
from pymoo.problems.zero_to_one import ZeroToOne
from pymoo.problems.static import StaticProblem
from pymoo.util.normalization import denormalize


class Inner:
    """a problem returning these values, remembering what it was asked for"""

    def __init__(self, **out):
        self.out = out
        self.asked = []
        self.xl = self.xu = None

    def do(self, X, return_values_of, *args, **kwargs):
        self.asked.append((X, list(return_values_of), args, kwargs))
        return dict(self.out)

    def bounds(self):
        return self.xl, self.xu


def problem(v, m=None):
    n, d, m = v.dim("n"), v.dim("d"), v.dim("m") if m is None else m
    g = v.dim("g") if v.flag("inequalities") else 0
    h = v.dim("h") if v.flag("equalities") else 0
    X, F, G, H = v.array("X", (n, d)), v.array("F", (n, m)), v.array("G", (n, g)), v.array("H", (n, h))
    p = Inner(F=F, G=G, H=H)
    cv = lambda i: both(v, G, H, i, g, h)
    return n, m, X, F, p, cv, (G, H)


def handed_on(v, p, X):
    v.ensures(len(p.asked) == 1, "the wrapped problem is evaluated once")
    v.same(p.asked[0][0], X, "at the same points")
    v.ensures("k" in p.asked[0][3] and p.asked[0][3]["k"] == 7, "arguments are handed on")


def kept(v, out, F, G, H):
    v.same(out["__F__"], F, "original objectives are kept")
    v.same(out["__G__"], G, "original inequality constraints are kept")
    v.same(out["__H__"], H, "original equality constraints are kept")
    v.ensures("G" not in out and "H" not in out, "no constraints are left")


@proof("C28", "pymoo.constraints.as_penalty.ConstraintsAsPenalty.do")
def penalty(v):
    n, m, X, F, p, cv, (G, H) = problem(v)
    c = v.scalar("penalty")
    w = v.obj(ConstraintsAsPenalty, __object__=p, penalty=c)
    wanted = ["F"] if v.flag("objectives_only") else ["F", "G", "H"]
    out = v.call(w.do, X, wanted, k=7)
    handed_on(v, p, X)
    v.same_shape(out["F"], (n, m), "one value per solution and objective")
    v.each((n, m), lambda i, j: v.eq(v.at(out["F"], i, j), v.add(v.at(F, i, j), v.mul(c, cv(i)))), "objective plus penalty times violation")
    kept(v, out, F, G, H)
    v.unchanged()


@proof("C28", "pymoo.constraints.as_obj.ConstraintsAsObjective.do")
def objective(v):
    n, m, X, F, p, cv, (G, H) = problem(v)
    append = v.flag("append")
    w = v.obj(ConstraintsAsObjective, __object__=p, config=None, append=append)
    wanted = ["F"] if v.flag("objectives_only") else ["F", "G", "H"]
    out = v.call(w.do, X, wanted, k=7)
    handed_on(v, p, X)
    v.same_shape(out["F"], (n, v.add(m, 1) if append else 1), "the violation is an objective")
    v.each((n,), lambda i: v.eq(v.at(out["F"], i, 0), cv(i)), "exactly the violation")
    if append:
        v.each((n, m), lambda i, j: v.eq(v.at(out["F"], i, v.add(j, 1)), v.at(F, i, j)), "original objectives follow")
    kept(v, out, F, G, H)
    v.unchanged()


@proof("C28", "pymoo.constraints.from_bounds.ConstraintsFromBounds.do")
def from_bounds(v):
    n, d, g = v.dim("n"), v.dim("d"), v.dim("g") if v.flag("inequalities") else 0
    X, F, G = v.array("X", (n, d)), v.array("F", (n, 1)), v.array("G", (n, g))
    p = Inner(F=F, G=G)
    p.xl, p.xu = v.bounds(d)
    w = v.obj(ConstraintsFromBounds, __object__=p, n_var=d)
    out = v.call(w.do, X, ["F", "G"], k=7)
    handed_on(v, p, X)
    R = out["G"]
    v.same_shape(R, (n, v.add(g, v.mul(2, d))), "two constraints more per variable")
    v.each((n, g), lambda i, j: v.eq(v.at(R, i, j), v.at(G, i, j)), "original constraints come first")
    v.each((n, d), lambda i, j: v.eq(v.at(R, i, v.add(g, j)), v.sub(v.at(p.xl, j), v.at(X, i, j))), "distance below the lower bound")
    v.each((n, d), lambda i, j: v.eq(v.at(R, i, v.add(v.add(g, d), j)), v.sub(v.at(X, i, j), v.at(p.xu, j))), "distance above the upper bound")
    v.same(out["F"], F, "objectives are unchanged")
    v.unchanged()


@proof("C28", "pymoo.problems.multi_to_single.MultiToSingleObjective.do")
def single(v):
    n, d, m = v.dim("n"), v.dim("d"), v.dim("m")
    X, F, W = v.array("X", (n, d)), v.array("F", (n, m)), v.array("W", (m,))
    p = Inner(F=F, G=v.array("G", (n, 1)))
    w = v.obj(MultiToSingleObjective, __object__=p, decomposition=WeightedSum(), kwargs=dict(weights=W, _type="many_to_one"))
    out = v.call(w.do, X, ["F"], k=7)
    handed_on(v, p, X)
    v.same_shape(out["F"], (n, 1), "one objective")
    v.each((n,), lambda i: v.eq(v.at(out["F"], i, 0), v.total(m, lambda j: v.mul(v.at(F, i, j), v.at(W, j)))), "scalarised value of the solution")
    v.same(out["__F__"], F, "original objectives are kept")
    v.same(out["G"], p.out["G"], "constraints are unchanged")
    v.unchanged()


@proof("C28", ["pymoo.problems.zero_to_one.ZeroToOne." + f for f in ("do", "denormalize", "normalize")])
def unit(v):
    n, d = v.dim("n"), v.dim("d")
    X = v.array("X", (n, d))
    p = Inner(F=v.array("F", (n, 1)))
    p.xl, p.xu = v.bounds(d, strict=True)
    w = v.obj(ZeroToOne, __object__=p)
    out = v.call(w.do, X, ["F"], k=7)
    v.ensures(len(p.asked) == 1, "the wrapped problem is evaluated once")
    Z = p.asked[0][0]
    v.same_shape(Z, (n, d), "as many points")
    v.each((n, d), lambda i, j: v.eq(v.at(Z, i, j), v.add(v.at(p.xl, j), v.mul(v.at(X, i, j), v.sub(v.at(p.xu, j), v.at(p.xl, j))))), "at the denormalised points")
    v.same(out["F"], p.out["F"], "values are unchanged")
    v.same(out["__X__"], X, "normalised points are kept")
    back = v.call(w.normalize, Z)
    v.each((n, d), lambda i, j: v.eq(v.at(back, i, j), v.at(X, i, j)), "normalising gives the points back")
    v.unchanged()


@proof("C28", ["pymoo.core.meta.Meta.__init__"] + ["pymoo.constraints." + f + ".__init__" for f in ("as_penalty.ConstraintsAsPenalty", "as_obj.ConstraintsAsObjective", "from_bounds.ConstraintsFromBounds")]
       + ["pymoo.problems.multi_to_single.MultiToSingleObjective.__init__", "pymoo.problems.zero_to_one.ZeroToOne.__init__"])
def declared(v):
    d, m, g, h = v.dim("d"), v.dim("m"), v.dim("g", lo=0), v.dim("h", lo=0)
    p = Inner()
    p.n_var, p.n_obj, p.n_ieq_constr, p.n_eq_constr = d, m, g, h
    p.xl, p.xu = v.bounds(d)
    kind = v.pick("kind", "penalty", "objective", "only", "bounds", "no_bounds", "single", "unit")
    make = dict(penalty=lambda: v.call(ConstraintsAsPenalty, p, penalty=2.0), objective=lambda: v.call(ConstraintsAsObjective, p), only=lambda: v.call(ConstraintsAsObjective, p, append=False),
                bounds=lambda: v.call(ConstraintsFromBounds, p), no_bounds=lambda: v.call(ConstraintsFromBounds, p, remove_bonds=True),
                single=lambda: v.call(MultiToSingleObjective, p, WeightedSum()), unit=lambda: v.call(ZeroToOne, p))
    w = make[kind]()
    want = dict(penalty=(m, 0, 0), objective=(v.add(m, 1), 0, 0), only=(1, 0, 0), bounds=(m, v.add(g, v.mul(2, d)), h), no_bounds=(m, v.add(g, v.mul(2, d)), h), single=(1, g, h), unit=(m, g, h))[kind]
    v.ensures(v.And(v.eq(w.n_obj, want[0]), v.eq(w.n_ieq_constr, want[1]), v.eq(w.n_eq_constr, want[2])), "declares the number of objectives and constraints it returns")
    v.ensures(v.eq(w.n_var, d), "number of variables is unchanged")
    if kind == "no_bounds":
        v.ensures(w.xl is None and w.xu is None, "bounds are removed")
    elif kind == "unit":
        v.each((d,), lambda j: v.And(v.eq(v.at(w.xl, j), 0), v.eq(v.at(w.xu, j), 1)), "variables lie between zero and one")
    else:
        v.same(w.xl, p.xl, "lower bounds are unchanged")
        v.same(w.xu, p.xu, "upper bounds are unchanged")
    v.ensures(v.And(v.eq(p.n_obj, m), v.eq(p.n_ieq_constr, g), v.eq(p.n_eq_constr, h), v.eq(p.n_var, d)), "the wrapped problem is unchanged")
    v.unchanged()
