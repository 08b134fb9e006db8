"""C26: the reported result is the optimum."""
from vp.prove import proof
from proofs.c01 import dominates
from proofs.c02 import first_front_contract
from proofs.c13 import field
from pymoo.util import optimum as O
from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting

R = "pymoo.util.optimum."


def candidates(v, m):
    n = v.dim("n")
    pop = v.population("pop", n, F=(m,), CV=(1,))
    P, F, CV = v.individuals(pop), field(v, pop, "F"), field(v, pop, "CV")
    feas = lambda i: v.le(v.at(CV, i, 0), 0)
    return n, pop, P, F, CV, feas


def none_or(v, r, n, feas, anyway):
    """nothing is reported only when there is nothing feasible"""
    if r is None:
        v.ensures(v.And(not anyway, v.forall(n, lambda i: v.Not(feas(i)))), "nothing is reported only when nothing is feasible")
        return False
    return True


@proof("C26", R + "filter_optimum")
def one_objective(v):
    n, pop, P, F, CV, feas = candidates(v, 1)
    anyway = v.flag("least_infeasible")
    r = v.call(O.filter_optimum, pop, least_infeasible=anyway)
    if not none_or(v, r, n, feas, anyway):
        return
    Q = v.individuals(r)
    v.same_shape(Q, (1,), "one solution")
    is_ = lambda j: v.eq(v.at(Q, 0), v.at(P, j))
    some = v.exists(n, feas)
    v.ensures(v.exists(n, is_), "a member of the candidates")
    v.each((n, n), lambda j, i: v.implies(v.And(is_(j), feas(i)), v.And(feas(j), v.le(v.at(F, j, 0), v.at(F, i, 0)))), "the best feasible one")
    v.each((n, n), lambda j, i: v.implies(is_(j), v.Or(feas(j), v.le(v.at(CV, j, 0), v.at(CV, i, 0)))), "a least infeasible one if nothing is feasible")
    v.each((n,), lambda j: v.implies(v.And(is_(j), v.Not(feas(j))), anyway), "infeasible ones only on request")
    v.unchanged()


@proof("C26", R + "filter_optimum")
def several_objectives(v):
    m = v.dim("m", 2)
    n, pop, P, F, CV, feas = candidates(v, m)
    anyway = v.flag("least_infeasible")
    first_front_contract(v)
    r = v.call(O.filter_optimum, pop, least_infeasible=anyway)
    if not none_or(v, r, n, feas, anyway):
        return
    Q = v.individuals(r)
    k = v.shape(Q)[0]
    reported = lambda j: v.exists(k, lambda p: v.eq(v.at(Q, p), v.at(P, j)))
    better = lambda i, j: dominates(v, v.row(F, i), v.row(F, j), m)
    v.ensures(v.le(1, k), "something is reported")
    v.each((k,), lambda p: v.exists(n, lambda j: v.eq(v.at(Q, p), v.at(P, j))), "members of the candidates")
    v.each((k, k), lambda p, q: v.implies(v.lt(p, q), v.ne(v.at(Q, p), v.at(Q, q))), "each once")
    v.each((n, n), lambda j, i: v.implies(v.And(reported(j), feas(i)), v.And(feas(j), v.Not(better(i, j)))), "no feasible candidate is better")
    v.each((n,), lambda j: v.implies(v.And(feas(j), v.forall(n, lambda i: v.implies(feas(i), v.Not(better(i, j))))), reported(j)), "all non-dominated feasible ones")
    v.each((n, n), lambda j, i: v.implies(reported(j), v.Or(feas(j), v.le(v.at(CV, j, 0), v.at(CV, i, 0)))), "a least infeasible one if nothing is feasible")
    v.each((n,), lambda j: v.implies(v.And(reported(j), v.Not(feas(j))), anyway), "infeasible ones only on request")
    v.unchanged()
