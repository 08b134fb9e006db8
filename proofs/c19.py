"""C19: replacement."""
import numpy as np
from vp.prove import proof
from proofs.c13 import field, dist
from pymoo.algorithms.moo.moead import MOEAD
from pymoo.core import replacement as RE
from pymoo.util import misc

R = "pymoo.core.replacement."


class Problem:
    def __init__(self, constr=True):
        self.constr = constr

    def has_constraints(self):
        return self.constr


def improves(v, f1, c1, f2, c2, eps=0):
    """the second is strictly better"""
    feas1, feas2 = v.le(c1, 0), v.le(c2, 0)
    return v.Or(v.And(v.Not(feas1), v.Not(feas2), v.lt(eps, v.sub(c1, c2))), v.And(v.Not(feas1), feas2),
                v.And(feas1, feas2, v.lt(eps, v.sub(f1, f2))))


@proof("C19", R + "is_better")
def better(v):
    pop = v.population("pop", 2, F=(1,), CV=(1,))
    F, CV = field(v, pop, "F"), field(v, pop, "CV")
    eps = v.scalar("eps", lo=0)
    r = v.call(RE.is_better, pop[1] if v.native else pop.member(1), pop[0] if v.native else pop.member(0), eps=eps)
    v.ensures(v.iff(r, improves(v, v.at(F, 0, 0), v.at(CV, 0, 0), v.at(F, 1, 0), v.at(CV, 1, 0), eps)), "better exactly by violation, then by objective")


@proof("C19", R + "ImprovementReplacement._do")
def improvement(v):
    n, m = v.dim("n"), v.dim("m")
    pop, off = v.population("pop", n, X=(m,), F=(1,), CV=(1,)), v.population("off", n, X=(m,), F=(1,), CV=(1,))
    constr = v.flag("constraints")
    if not constr:
        for p in (pop, off):
            v.assume_each((n,), (lambda A: lambda i: v.eq(v.at(A, i, 0), 0))(field(v, p, "CV")))
    r = v.call(v.call(RE.ImprovementReplacement)._do, Problem(constr), pop, off)
    f = {k: (field(v, pop, k), field(v, off, k)) for k in ("X", "F", "CV")}
    X, Y = f["X"]
    imp = lambda i: improves(v, v.at(f["F"][0], i, 0), v.at(f["CV"][0], i, 0), v.at(f["F"][1], i, 0), v.at(f["CV"][1], i, 0))
    v.same_shape(r, (n,), "one decision per pair")
    v.each((n,), lambda i: v.implies(v.at(r, i), imp(i)), "replaced only by a strictly better solution")
    fresh = lambda i: v.And(v.forall(n, lambda j: v.lt(0, dist(v, Y, i, X, j, m))), v.forall(n, lambda j: v.implies(v.lt(j, i), v.lt(0, dist(v, Y, i, Y, j, m)))))
    v.each((n,), lambda i: v.implies(v.And(imp(i), fresh(i)), v.at(r, i)), "a strictly better solution which is new replaces")
    v.unchanged()


class Decided(RE.ReplacementSurvival):
    """any decision"""

    def __init__(self, r):
        super().__init__()
        self.r = r

    def _do(self, problem, pop, off, **kwargs):
        return self.r


@proof("C19", R + "ReplacementSurvival.do")
def replaced(v):
    n = v.dim("n")
    pop, off = v.population("pop", n, F=(1,)), v.population("off", n, F=(1,))
    F, G = v.old(field(v, pop, "F")), v.old(field(v, off, "F"))
    A, B = v.individuals(pop), v.individuals(off)
    r = v.array("r", (n,), "b")
    s = v.call(Decided, r)
    if v.flag("indices"):
        v.same(v.call(s.do, Problem(), pop, off, return_indices=True), r, "the decision itself")
        C = v.individuals(pop)
        v.each((n,), lambda i: v.eq(v.at(C, i), v.at(A, i)), "nothing is replaced")
        return
    inplace = v.flag("inplace")
    N = v.call(s.do, Problem(), pop, off, inplace=inplace)
    if inplace:
        C = v.individuals(pop)
        v.each((n,), lambda i: v.eq(v.at(C, i), v.ite(v.at(r, i), v.at(B, i), v.at(A, i))), "replaced where decided, in place")
    H, P = field(v, N, "F"), field(v, pop, "F")
    v.each((n,), lambda i: v.eq(v.at(H, i, 0), v.ite(v.at(r, i), v.at(G, i, 0), v.at(F, i, 0))), "replaced where decided, kept elsewhere")
    if not inplace:
        v.same(P, F, "the population handed in is unchanged")
    v.unchanged()


@proof("C19", [R + "parameter_less", R + "hierarchical_sort"])
def hierarchical(v):
    n = v.dim("n")
    f = v.array("f", (n,))
    if v.flag("violation"):
        cv = v.array("cv", (n,))
        v.assume_each((n,), lambda i: v.le(0, v.at(cv, i)))
        I = v.call(RE.hierarchical_sort, f, cv)
        le = lambda a, b: v.Or(v.lt(v.at(cv, a), v.at(cv, b)), v.And(v.eq(v.at(cv, a), v.at(cv, b)), v.implies(v.eq(v.at(cv, a), 0), v.le(v.at(f, a), v.at(f, b)))))
    else:
        I = v.call(RE.hierarchical_sort, f)
        le = lambda a, b: v.le(v.at(f, a), v.at(f, b))
    v.same_shape(I, (n,), "one place per solution")
    v.each((n,), lambda k: v.And(v.le(0, v.at(I, k)), v.lt(v.at(I, k), n)), "a solution")
    v.each((n, n), lambda a, b: v.implies(v.lt(a, b), v.And(v.ne(v.at(I, a), v.at(I, b)), le(v.at(I, a), v.at(I, b)))), "each once, the better first")
    v.unchanged()


@proof("C19", "pymoo.algorithms.moo.moead.MOEAD._replace")
def neighbourhood(v):
    n, m, d, t = v.dim("n"), v.dim("m"), v.dim("d"), v.dim("t")
    pop, one = v.population("pop", n, F=(m,)), v.population("off", 1, F=(m,))
    F, G = v.old(field(v, pop, "F")), v.old(field(v, one, "F"))
    A, o = v.individuals(pop), v.at(v.individuals(one), 0)
    W, ideal = v.array("W", (n, m)), v.array("ideal", (m,))
    N = v.indices("N", (n, t), n)
    v.assume_each((n, t, t), lambda i, a, b: v.Or(v.eq(a, b), v.ne(v.at(N, i, a), v.at(N, i, b))))
    k = v.dim("k", 0)
    v.requires(v.lt(k, n))
    val = scalarisation(v)
    alg = v.obj(MOEAD, pop=pop, neighbors=N, ref_dirs=W, ideal=ideal, decomposition=Decomposition(val))
    v.call(alg._replace, k, one[0] if v.native else one.member(0))
    C = v.individuals(alg.pop)
    old = lambda i: val(v.at(F, i, 0), v.at(W, i, 0), v.at(ideal, 0))
    new = lambda i: val(v.at(G, 0, 0), v.at(W, i, 0), v.at(ideal, 0))
    near = lambda i: v.exists(t, lambda a: v.eq(v.at(N, k, a), i))
    v.each((n,), lambda i: v.eq(v.at(C, i), v.ite(v.And(near(i), v.lt(new(i), old(i))), o, v.at(A, i))), "a neighbour is replaced exactly when its scalarised value decreases, others stay")


def scalarisation(v):
    """any scalarisation (of the first components)"""
    if v.native:
        return lambda f, w, z: float(f) * abs(float(w)) - float(z)
    return v.function("scalarised", 3)


class Decomposition:
    def __init__(self, val):
        self.val = val

    def do(self, F, weights, ideal_point=None, **kwargs):
        return rows(self.val, F, weights, ideal_point)


def rows(val, F, W, z):
    from vp import sym
    if isinstance(F, np.ndarray):
        return np.array([val(F[i if len(F) > 1 else 0, 0], W[i, 0], z[0]) for i in range(len(W))])
    f, w, zz = F.fn, W.fn, z.fn
    one = not sym.is_expr(F.shape[0]) and F.shape[0] == 1
    return sym.Arr((W.shape[0],), "f", lambda ix: val(f((0 if one else ix[0], 0)), w((ix[0], 0)), zz((0,))))
