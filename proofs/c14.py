"""C14: offspring generation."""
import numpy as np
from vp.prove import proof
from proofs.c13 import field
from pymoo.core import infill as IN
from pymoo.core.duplicate import DefaultDuplicateElimination
from pymoo.core.population import Population

R = "pymoo.core.infill."


class Making(IN.InfillCriterion):
    """any way of making offspring: any number of any solutions"""

    def _do(self, problem, pop, n_offsprings, random_state=None, **kwargs):
        v = self.v
        v.ensures(v.And(v.le(1, n_offsprings), v.le(n_offsprings, self.wanted)), "asked for what is missing")
        self.tries = v.add(self.tries, 1)
        if v.native:
            return Population.new(X=np.random.default_rng(int(self.tries)).integers(0, 4, (n_offsprings + int(self.tries) % 3, 1)).astype(float))
        n = v.any("i")
        v.given(v.le(0, n))
        return self.pool[v.some_array((n,), "i")]


class Repaired:
    """what a repair does: solutions in the same places that have passed it"""

    def __init__(self, v, passed, pool):
        self.v, self.passed, self.pool = v, passed, pool

    def __call__(self, problem, off, random_state=None, **kwargs):
        v = self.v
        if v.native:
            for i in off:
                i.data["passed"] = True
            return off
        out = self.pool[v.some_array((v.len(off),), "i")]
        Q = v.individuals(out)
        v.assume_each((v.len(off),), lambda i: self.passed(v.at(Q, i)))
        return out


class Different:
    """what a duplicate elimination does (C13): a selection of solutions, none of which equals another of them or one of the others"""

    def __init__(self, v, equal):
        self.v, self.equal = v, equal

    def do(self, pop, *others):
        v = self.v
        if v.native:
            return DefaultDuplicateElimination().do(pop, *others)
        Q = v.individuals(pop)
        n = v.shape(Q)[0]
        keep = v.some_array((n,), "b")
        v.assume_each((n, n), lambda i, j: v.implies(v.And(v.lt(i, j), v.at(keep, i), v.at(keep, j)), v.Not(self.equal(v.at(Q, i), v.at(Q, j)))))
        for o in others:
            O = v.individuals(o)
            v.assume_each((n, v.shape(O)[0]), lambda i, j, O=O: v.implies(v.at(keep, i), v.Not(self.equal(v.at(Q, i), v.at(O, j)))))
        return pop[keep]


@proof("C14", R + "InfillCriterion.do")
def infill(v):
    n, want = v.dim("n"), v.dim("want", 0)
    pop = v.population("pop", n, X=(1,))
    most = v.dim("most")
    if v.native:
        equal, passed, pool = (lambda a, b: bool(v.who(a).X[0] == v.who(b).X[0])), (lambda a: v.who(a).data.get("passed", False)), None
    else:
        equal, passed = v.uf("equal", 2, "b"), v.uf("passed", 1, "b")
        v.every(lambda x, y: v.eq(equal(x, y), equal(y, x)), equal)
        pool = v.population("pool", v.dim("pool_size"), X=(1,))
    distinct, mended = v.flag("eliminate"), True
    g = v.call(Making, n_max_iterations=most, **(dict(eliminate_duplicates=Different(v, equal)) if distinct else {}),
               **(dict(repair=Repaired(v, passed, pool)) if mended else {}))
    for k, x in dict(v=v, wanted=want, tries=0, pool=pool).items():
        v.setattr(g, k, x)
    P = v.individuals(pop)

    def good(Q):
        k = v.shape(Q)[0]
        at = lambda i: v.at(Q, i)
        return {
            "not more than asked for": v.le(k, want),
            **({"no two are equal": v.forall(k, lambda i: v.forall(k, lambda j: v.implies(v.lt(i, j), v.Not(equal(at(i), at(j)))))),
                "none is in the population": v.forall(k, lambda i: v.forall(n, lambda j: v.Not(equal(at(i), v.at(P, j)))))} if distinct else {}),
            **({"all have passed the repair": v.forall(k, lambda i: passed(at(i)))} if mended else {}),
        }

    def inv(L):
        return {**good(v.individuals(L["off"])), "tries": v.And(v.eq(L["n_infills"], L["self"].tries), v.le(0, g.tries), v.lt(g.tries, most))}
    v.invariant(IN.InfillCriterion.do, inv, modifies={"off": lambda: v.population_of(v.some_list("i")()), "self.tries": None}, decreases=lambda L: v.sub(most, L["n_infills"]))
    r = v.call(g.do, None, pop, want, random_state=v.rng())
    for label, f in good(v.individuals(r)).items():
        v.ensures(f, label)
    v.ensures(v.Or(v.eq(v.len(r), want), v.eq(g.tries, most)), "as many as asked for, unless the attempts run out")
    v.ensures(v.le(g.tries, most), "not more attempts than allowed")
    v.same(v.individuals(pop), P, "the population is as it was")
    v.unchanged()
