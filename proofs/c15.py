"""C15: survival keeps the right number of members, feasible ones first."""
import numpy as np
from vp.prove import proof, code
from proofs.c13 import field
from proofs.c19 import Problem
from pymoo.core import survival as S
from pymoo.core.survival import Survival
from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival

R = "pymoo.core.survival."


@proof("C15", R + "split_by_feasibility")
def split(v):
    n = v.dim("n")
    pop = v.population("pop", n, F=(1,), CV=(1,))
    F, CV = field(v, pop, "F"), field(v, pop, "CV")
    by_cv, by_obj = v.flag("by_cv"), v.flag("by_obj")
    A, B = v.call(S.split_by_feasibility, pop, sort_infeas_by_cv=by_cv, sort_feas_by_obj=by_obj)
    a, b = v.shape(A)[0], v.shape(B)[0]
    v.ensures(v.eq(v.add(a, b), n), "everything is in one of the parts")
    v.each((a,), lambda k: v.And(v.le(0, v.at(A, k)), v.lt(v.at(A, k), n), v.le(v.at(CV, v.at(A, k), 0), 0)), "feasible")
    v.each((b,), lambda k: v.And(v.le(0, v.at(B, k)), v.lt(v.at(B, k), n), v.lt(0, v.at(CV, v.at(B, k), 0))), "infeasible")
    v.each((a, a), lambda k, l: v.implies(v.lt(k, l), v.ne(v.at(A, k), v.at(A, l))), "feasible ones once")
    v.each((b, b), lambda k, l: v.implies(v.lt(k, l), v.ne(v.at(B, k), v.at(B, l))), "infeasible ones once")
    if by_cv:
        v.each((b, b), lambda k, l: v.implies(v.lt(k, l), v.le(v.at(CV, v.at(B, k), 0), v.at(CV, v.at(B, l), 0))), "infeasible by violation")
    if by_obj:
        v.each((a, a), lambda k, l: v.implies(v.lt(k, l), v.le(v.at(F, v.at(A, k), 0), v.at(F, v.at(A, l), 0))), "feasible by objective")
    v.unchanged()


class Anything(Survival):
    """any choice of the given number of members"""

    @code
    def _do(self, problem, pop, *args, n_survive=None, random_state=None, **kwargs):
        return pop[random_state.permutation(len(pop))[:n_survive]]


@proof("C15", R + "Survival.do")
def survivors(v):
    n, want = v.dim("n"), v.dim("want")
    pop = v.population("pop", n, F=(1,), CV=(1,))
    P, CV = v.individuals(pop), field(v, pop, "CV")
    constr = v.flag("constraints")
    if not constr:
        v.assume_each((n,), lambda i: v.eq(v.at(CV, i, 0), 0))
    s = v.call(Anything, filter_infeasible=v.flag("split"))
    r = v.call(s.do, Problem(constr), pop, n_survive=want, random_state=v.rng())
    C = v.individuals(r)
    k = v.shape(C)[0]
    v.ensures(v.eq(k, v.ite(v.le(want, n), want, n)), "as many as asked for, or all")
    v.each((k,), lambda i: v.exists(n, lambda j: v.eq(v.at(C, i), v.at(P, j))), "members of the population")
    v.each((k, k), lambda i, j: v.implies(v.lt(i, j), v.ne(v.at(C, i), v.at(C, j))), "each once")
    if s.filter_infeasible:
        D = field(v, r, "CV")
        kept = lambda j: v.exists(k, lambda i: v.eq(v.at(C, i), v.at(P, j)))
        v.each((k, n), lambda i, j: v.implies(v.lt(v.at(CV, j, 0), v.at(D, i, 0)), v.Or(kept(j), v.eq(v.at(D, i, 0), 0))), "nobody with less violation is dropped for an infeasible one")
    v.unchanged()


@proof("C15", "pymoo.algorithms.soo.nonconvex.ga.FitnessSurvival._do")
def fitness(v):
    n, want = v.dim("n"), v.dim("want")
    v.requires(v.le(want, n))
    pop = v.population("pop", n, F=(1,), CV=(1,))
    P, F, CV = v.individuals(pop), field(v, pop, "F"), field(v, pop, "CV")
    r = v.call(v.call(FitnessSurvival)._do, Problem(), pop, n_survive=want)
    C, G, D = v.individuals(r), field(v, r, "F"), field(v, r, "CV")
    before = lambda f, c, g, d: v.Or(v.lt(c, d), v.And(v.eq(c, d), v.le(f, g)))
    v.same_shape(C, (want,), "as many as asked for")
    v.each((want,), lambda i: v.exists(n, lambda j: v.eq(v.at(C, i), v.at(P, j))), "members of the population")
    v.each((want, want), lambda i, j: v.implies(v.lt(i, j), v.ne(v.at(C, i), v.at(C, j))), "each once")
    v.each((want, want), lambda i, j: v.implies(v.lt(i, j), before(v.at(G, i, 0), v.at(D, i, 0), v.at(G, j, 0), v.at(D, j, 0))), "the best first")
    v.each((want, n), lambda i, j: v.Or(v.exists(want, lambda k: v.eq(v.at(C, k), v.at(P, j))), before(v.at(G, i, 0), v.at(D, i, 0), v.at(F, j, 0), v.at(CV, j, 0))), "nobody better is dropped")
    v.unchanged()
