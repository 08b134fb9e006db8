import numpy as np
from vp.rt import contract
from vp import oracle as O, mk
from pymoo.util.dominator import Dominator, get_relation
from pymoo.core.individual import Individual


@contract("C01", n=3000, target="pymoo.util.dominator.Dominator.get_relation")
def relation_matches_definition(c):
    m = c.int(1, 6)
    P = c.points(2, m)
    a, b = P[0], P[1]
    if c.chance(0.5):
        b = a.copy()
        k = c.rng.random(m) < 0.5
        b[k] += c.rng.choice([-1, 0, 1], k.sum()) * c.pick(1.0, 1e-9, 1e6)
    cva, cvb = (None, None) if c.chance(0.3) else (float(c.pick(0, 0, 0.5, 1, 2)), float(c.pick(0, 0, 0.5, 1, 2, 1e-12)))
    if c.chance(0.1):
        cva = None
    c.note(a=a, b=b, cva=cva, cvb=cvb)
    with c.frame(a=a, b=b):
        r = Dominator.get_relation(a, b, cva, cvb)
        s = Dominator.get_relation(b, a, cvb, cva)
    c.eq(r, O.relation(a, b, cva, cvb), "relation equals the definition")
    c.eq(r, -s, "relation is antisymmetric")
    c.eq(Dominator.get_relation(list(a), list(b), cva, cvb), r, "relation of sequences equals relation of arrays")
    c.eq(Dominator.get_relation(a, a, cva, cva), 0, "a solution does not dominate itself")


@contract("C01", n=1500, target="pymoo.util.dominator.Dominator.calc_domination_matrix")
def matrix_matches_pairs(c):
    n, m, k = c.int(1, 7), c.int(1, 5), c.int(1, 7)
    two = c.chance(0.6)
    P = c.points(n + k, m)
    F, _F = P[:n].copy(), P[n:].copy()
    if two and c.chance(0.3):
        j = c.int(0, k - 1)
        _F[j] = F[c.int(0, n - 1)]
    eps = c.pick(0.0, 0.0, 1.0, 0.25, 1e-6)
    c.note(F=F, _F=_F if two else None, eps=eps)
    with c.frame(F=F, other=_F):
        if two:
            M = Dominator.calc_domination_matrix(F, _F, epsilon=eps) if eps else Dominator.calc_domination_matrix(F, _F)
        else:
            M = Dominator.calc_domination_matrix(F, epsilon=eps)
    other = _F if two else F
    c.eq(np.asarray(M).astype(int), np.array([[O.relation(a, b, eps=eps) for b in other] for a in F]), "matrix holds the relation of every pair")


@contract("C01", n=600, target="pymoo.util.dominator.Dominator.calc_domination_matrix_loop")
def matrix_loop_matches_pairs(c):
    n, m, g = c.int(1, 6), c.int(1, 4), c.int(1, 3)
    F, G = c.points(n, m), mk.constraint_values(c, n, g)
    c.note(F=F, G=G)
    with c.frame(F=F, G=G):
        M = Dominator.calc_domination_matrix_loop(F, G)
    CV = [sum(max(0.0, x) for x in row) for row in G]
    tie = [[abs(CV[i] - CV[j]) < 1e-9 and CV[i] != CV[j] for j in range(n)] for i in range(n)]
    want = np.array([[O.relation(F[i], F[j], CV[i], CV[j]) for j in range(n)] for i in range(n)])
    c.eq(np.where(tie, 0, M).astype(int), np.where(tie, 0, want), "matrix holds the constrained relation of every pair")


@contract("C01", n=1200, target="pymoo.util.dominator.get_relation")
def relation_of_solutions(c):
    m, g = c.int(1, 4), c.int(0, 3)
    pop = mk.population(c, 2, m, 2, g)
    a, b = pop
    ca, cb = O.cv(a.G, []), O.cv(b.G, [])
    c.requires(ca == cb or abs(ca - cb) > 1e-9)
    r = get_relation(a, b)
    c.note(Fa=a.F, Fb=b.F, Ga=a.G, Gb=b.G)
    c.eq(r, O.relation(a.F, b.F, ca, cb), "solutions are compared by violation, then objective dominance")
    if ca == 0 and cb > 0:
        c.eq(r, 1, "feasible beats infeasible")
    c.eq(get_relation(b, a), -r, "antisymmetric")


@contract("C01", n=600, target="pymoo.functions.compiled.non_dominated_sorting.get_relation")
def compiled_relation(c):
    try:
        from pymoo.functions.compiled import non_dominated_sorting as nds
    except ImportError:
        c.ensures(True, "no compiled module")
        return
    n, m = c.int(2, 6), c.int(1, 5)
    F = c.points(n, m)
    c.note(F=F)
    for i in range(n):
        for j in range(n):
            c.eq(nds.get_relation(F, i, j), O.relation(F[i], F[j]), "compiled relation equals the definition", i=i, j=j)


@contract("C01", n=400, target="pymoo.algorithms.moo.gde3.GDE3._advance")
def gde3_pairwise(c):
    """One generation step keeps exactly the pairwise winners before truncation."""
    from pymoo.algorithms.moo.gde3 import GDE3
    from pymoo.core.survival import Survival
    n, m, g = c.int(1, 6), c.int(1, 3), c.int(0, 2)
    pop, off = mk.population(c, n, m, 2, g), mk.population(c, n, m, 2, g)
    for k in range(n):
        if c.chance(0.2):
            off[k].F = pop[k].F.copy()

    class Keep(Survival):
        def _do(self, problem, pop, *args, n_survive=None, **kwargs):
            self.seen = pop
            return pop

    keep = Keep(filter_infeasible=False)
    alg = GDE3(pop_size=max(n, 4))
    alg.survival, alg.pop, alg.problem, alg.random_state, alg.n_offsprings = keep, pop, mk.Shell(2, m, g), c.gen(), n
    alg._advance(infills=off)
    want = []
    for p, o in zip(pop, off):
        cp, co = O.cv(p.G, []), O.cv(o.G, [])
        c.requires(cp == co or abs(cp - co) > 1e-9)
        r = O.relation(p.F, o.F, cp, co)
        want += [p, o] if r == 0 else ([p] if r == 1 else [o])
    c.eq(sorted(O.ids(keep.seen)), sorted(O.ids(want)), "a parent is replaced exactly by a dominating offspring, both stay when incomparable",
         F=pop.get("F"), offF=off.get("F"), G=pop.get("G"), offG=off.get("G"))
