"""C01: dominance."""
from vp.prove import proof
from pymoo.util import dominator as D
from pymoo.core.individual import Individual


def dominates(v, a, b, m, eps=0):
    return v.And(v.forall(m, lambda j: v.le(v.at(a, j), v.add(v.at(b, j), eps))), v.exists(m, lambda j: v.lt(v.add(v.at(a, j), eps), v.at(b, j))))


def outcome(v, r, ab, ba):
    v.ensures(v.Or(v.eq(r, 0), v.eq(r, 1), v.eq(r, -1)), "outcome is one of three")
    v.ensures(v.iff(v.eq(r, 1), ab), "1 exactly when the first dominates")
    v.ensures(v.iff(v.eq(r, -1), ba), "-1 exactly when the second dominates")


@proof("C01", "pymoo.util.dominator.Dominator.get_relation")
def relation(v):
    m = v.dim("m")
    a, b = v.array("a", (m,)), v.array("b", (m,))
    r = v.call(D.Dominator.get_relation, a, b)
    outcome(v, r, dominates(v, a, b, m), dominates(v, b, a, m))
    v.unchanged()


@proof("C01", "pymoo.util.dominator.Dominator.get_relation")
def relation_with_violation(v):
    m = v.dim("m")
    a, b = v.array("a", (m,)), v.array("b", (m,))
    ca, cb = v.scalar("ca", lo=0), v.scalar("cb", lo=0)
    r = v.call(D.Dominator.get_relation, a, b, ca, cb)
    eq = v.eq(ca, cb)
    outcome(v, r, v.Or(v.lt(ca, cb), v.And(eq, dominates(v, a, b, m))), v.Or(v.lt(cb, ca), v.And(eq, dominates(v, b, a, m))))
    v.unchanged()


def relation_contract(v, a, b, ca=None, cb=None):
    """what relation_with_violation proves"""
    m = v.shape(a)[0]
    r = v.any("i")
    ab, ba = v.Or(v.lt(ca, cb), v.And(v.eq(ca, cb), dominates(v, a, b, m))), v.Or(v.lt(cb, ca), v.And(v.eq(ca, cb), dominates(v, b, a, m)))
    v.given(v.And(v.Or(v.eq(r, 0), v.eq(r, 1), v.eq(r, -1)), v.iff(v.eq(r, 1), ab), v.iff(v.eq(r, -1), ba)))
    return r


@proof("C01", "pymoo.util.dominator.Dominator.get_relation")
def relation_is_antisymmetric(v):
    m = v.dim("m")
    a, b = v.array("a", (m,)), v.array("b", (m,))
    r = v.call(D.Dominator.get_relation, a, b)
    s = v.call(D.Dominator.get_relation, b, a)
    v.ensures(v.eq(r, v.sub(0, s)), "swapping the arguments negates the outcome")
    v.ensures(v.eq(v.call(D.Dominator.get_relation, a, a), 0), "no solution dominates itself")


@proof("C01", "pymoo.util.dominator.get_relation")
def relation_of_individuals(v):
    m = v.dim("m")
    a, b = v.array("a", (m,)), v.array("b", (m,))
    ca, cb = v.array("ca", (1,)), v.array("cb", (1,))
    A, B = v.obj(Individual, _F=a, _CV=ca, config=dict(cache=True), data={}), v.obj(Individual, _F=b, _CV=cb, config=dict(cache=True), data={})
    r = v.call(D.get_relation, A, B)
    x, y = v.at(ca, 0), v.at(cb, 0)
    outcome(v, r, v.Or(v.lt(x, y), v.And(v.eq(x, y), dominates(v, a, b, m))), v.Or(v.lt(y, x), v.And(v.eq(x, y), dominates(v, b, a, m))))


@proof("C01", "pymoo.util.dominator.Dominator.calc_domination_matrix")
def matrix(v):
    n, m, p = v.dim("n"), v.dim("m"), v.dim("p")
    eps = v.scalar("eps", lo=0)
    F, H = v.array("F", (n, m)), v.array("H", (p, m))
    M = v.call(D.Dominator.calc_domination_matrix, F, H, eps)
    v.same_shape(M, (n, p), "one entry per pair")
    v.each((n, p), lambda i, j: v.iff(v.eq(v.at(M, i, j), 1), dominates(v, v.row(F, i), v.row(H, j), m, eps)), "1 exactly where the first dominates beyond the tolerance")
    v.each((n, p), lambda i, j: v.iff(v.eq(v.at(M, i, j), -1), dominates(v, v.row(H, j), v.row(F, i), m, eps)), "-1 exactly where the second dominates beyond the tolerance")
    v.each((n, p), lambda i, j: v.Or(v.eq(v.at(M, i, j), 0), v.eq(v.at(M, i, j), 1), v.eq(v.at(M, i, j), -1)), "entries are -1, 0 or 1")
    v.unchanged()


@proof("C01", "pymoo.util.dominator.Dominator.calc_domination_matrix")
def matrix_of_one_set(v):
    n, m = v.dim("n"), v.dim("m")
    F = v.array("F", (n, m))
    M = v.call(D.Dominator.calc_domination_matrix, F)
    v.same_shape(M, (n, n), "one entry per pair")
    v.each((n, n), lambda i, j: v.iff(v.eq(v.at(M, i, j), 1), dominates(v, v.row(F, i), v.row(F, j), m)), "1 exactly where the first dominates")
    v.each((n, n), lambda i, j: v.eq(v.at(M, i, j), v.sub(0, v.at(M, j, i))), "antisymmetric")
    v.each((n,), lambda i: v.eq(v.at(M, i, i), 0), "zero diagonal")
    v.unchanged()


@proof("C01", "pymoo.util.dominator.Dominator.calc_domination_matrix_loop")
def matrix_by_loop(v):
    n, m, q = v.dim("n"), v.dim("m"), v.dim("q")
    F, G = v.array("F", (n, m)), v.array("G", (n, q))
    v.use(D.Dominator.get_relation, relation_contract)
    M = v.call(D.Dominator.calc_domination_matrix_loop, F, G)
    cv = lambda i: v.total(q, lambda k: v.max(v.at(G, i, k), 0.0))
    better = lambda i, j: v.Or(v.lt(cv(i), cv(j)), v.And(v.eq(cv(i), cv(j)), dominates(v, v.row(F, i), v.row(F, j), m)))
    v.same_shape(M, (n, n), "one entry per pair")
    v.each((n, n), lambda i, j: v.iff(v.eq(v.at(M, i, j), 1), better(i, j)), "1 exactly where the first dominates")
    v.each((n, n), lambda i, j: v.iff(v.eq(v.at(M, i, j), -1), better(j, i)), "-1 exactly where the second dominates")
    v.unchanged()
