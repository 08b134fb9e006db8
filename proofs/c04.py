"""C04: evaluation."""
import numpy as np
from vp.prove import proof
from proofs.c13 import field
from pymoo.core import evaluator as EV
from pymoo.core.evaluator import Evaluator

R = "pymoo.core.evaluator.Evaluator."
E = "evaluated:"


class Sees:
    """a problem that remembers what it was given; any values"""

    def __init__(self, v, f, g):
        self.v, self.f, self.g, self.calls, self.X, self.keys = v, f, g, 0, None, None

    def evaluate(self, X, return_values_of=None, return_as_dictionary=True, **kw):
        v = self.v
        self.calls += 1
        self.X, self.keys = v.old(X), return_values_of
        n = v.shape(X)[0]
        if v.native:
            return {k: np.array([[getattr(self, k.lower())(float(x[0]), float(x[1]))] for x in X]) for k in return_values_of}
        return {k: v.some((n, 1), "f", lambda i, j, k=k: getattr(self, k.lower())(v.at(self.X, i, 0), v.at(self.X, i, 1))) for k in return_values_of}


class Watched(Evaluator):
    """remembers which solutions go to the problem"""

    def _eval(self, problem, pop, evaluate_values_of, **kwargs):
        self.sent.append(pop)
        super()._eval(problem, pop, evaluate_values_of, **kwargs)


@proof("C04", [R + "eval", R + "_eval"])
def evaluation(v):
    n = v.dim("n")
    pop = v.population("pop", n, X=(2,), F=(1,), G=(1,), **{E + "F": ((), "b"), E + "G": ((), "b")})
    P, X, F, G = v.individuals(pop), field(v, pop, "X"), v.old(field(v, pop, "F")), v.old(field(v, pop, "G"))
    f, g = ((lambda x, y: x + 10 * y), (lambda x, y: x - y)) if v.native else (v.function("objective", 2), v.function("constraint", 2))
    done = [v.marks(pop, "F"), v.marks(pop, "G")]
    keys = ["F", "G"] if v.flag("both") else ["F"]
    skip, count = v.flag("skip"), v.flag("count")
    need = lambda i: v.Or(*([True] if not skip else [v.Not(d(i)) for d, k in zip(done, "FG") if k in keys]))
    before = v.dim("n_eval", 0)
    e = v.call(Watched, skip_already_evaluated=skip, evaluate_values_of=keys)
    v.setattr(e, "n_eval", before)
    v.setattr(e, "sent", [])
    p = Sees(v, f, g)
    r = v.call(e.eval, p, pop, count_evals=count)
    v.same(v.individuals(r), P, "the same solutions are returned")
    F1, G1 = field(v, pop, "F"), field(v, pop, "G")
    val = lambda h, i: h(v.at(X, i, 0), v.at(X, i, 1))
    v.each((n,), lambda i: v.eq(v.at(F1, i, 0), v.ite(need(i), val(f, i), v.at(F, i, 0))), "values of the own variables; others keep theirs")
    v.each((n,), lambda i: v.eq(v.at(G1, i, 0), v.ite(v.And("G" in keys, need(i)), val(g, i), v.at(G, i, 0))), "constraints of the own variables; others keep theirs")
    v.each((n,), lambda i: v.marks(pop, "F")(i), "marked as evaluated")
    v.ensures(len(e.sent) <= 1 and p.calls == len(e.sent), "the problem is called at most once")
    told = 0
    if e.sent:
        Q = v.individuals(e.sent[0])
        told = v.shape(Q)[0]
        v.each((told,), lambda k: v.exists(n, lambda i: v.And(v.eq(v.at(Q, k), v.at(P, i)), need(i))), "only those that lack a value")
        v.each((n,), lambda i: v.implies(need(i), v.exists(told, lambda k: v.eq(v.at(Q, k), v.at(P, i)))), "all that lack a value")
        v.each((told, told), lambda k, l: v.implies(v.lt(k, l), v.lt(v.at(Q, k), v.at(Q, l))), "in order, each once")
        v.ensures(v.eq(v.shape(p.X)[0], told), "the problem sees as many")
    else:
        v.each((n,), lambda i: v.Not(need(i)), "all that lack a value")
    v.ensures(v.eq(e.n_eval, v.add(before, told if count else 0)), "the counter grows by the number of solutions evaluated")
    v.unchanged()
