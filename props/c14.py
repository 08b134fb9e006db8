import math
import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population
from pymoo.core.repair import Repair


class Marker(Repair):
    """Rounds to a grid and remembers what it returned."""

    def __init__(self, grid):
        super().__init__()
        self.grid, self.out, self.calls = grid, [], 0

    def _do(self, problem, X, **kwargs):
        self.calls += 1
        X = np.round(np.asarray(X, float) * self.grid) / self.grid
        self.out += [tuple(x) for x in X]
        return X


class Counter:
    def __init__(self, fn):
        self.fn, self.n, self.asked = fn, 0, []


def uniq(c, off, pop, label):
    seen = [tuple(np.ravel(i.X)) for i in off]
    c.ensures(len(set(seen)) == len(seen), "no two returned solutions are equal", off=seen)
    old = {tuple(np.ravel(i.X)) for i in pop}
    c.ensures(not (set(seen) & old), "no returned solution equals a member of the population", off=seen)


@contract("C14", n=900, target="pymoo.core.infill.InfillCriterion.do")
def infill_loop(c):
    from pymoo.core.infill import InfillCriterion
    from pymoo.core.duplicate import DefaultDuplicateElimination
    d, grid = c.int(1, 2), c.pick(1, 2, 4, 100)
    n_off, n_max = c.int(1, 9), c.pick(1, 2, 5, 60)
    over = c.pick(0, 0, 1, 3)
    asked = []
    dedup = c.chance(0.75)
    rep = Marker(grid) if c.chance(0.8) else None

    class Gen(InfillCriterion):
        def _do(self, problem, pop, n_offsprings, random_state=None, **kw):
            asked.append(n_offsprings)
            X = random_state.random((n_offsprings + over, d))
            if rep is None:
                X = np.round(X * grid) / grid
            return Population.new(X=X)
    pop = Population.new(X=np.round(c.rng.random((c.int(1, 5), d)) * grid) / grid)
    data = O.data(pop)
    gen = Gen(repair=rep, eliminate_duplicates=DefaultDuplicateElimination() if dedup else None, n_max_iterations=n_max)
    kw = {} if c.chance(0.5) else dict(n_max_iterations=c.pick(1, 3, 50))
    limit = kw.get("n_max_iterations", n_max)
    c.note(d=d, grid=grid, n_off=n_off, limit=limit, over=over, dedup=dedup, pop=pop.get("X"))
    off = gen(mk.Shell(n_var=d), pop, n_off, random_state=c.gen(), **kw)
    c.ensures(len(off) <= n_off, "at most the requested number", got=len(off))
    c.ensures(len(asked) <= limit, "not more attempts than allowed", asked=asked)
    c.ensures(len(off) == n_off or len(asked) == limit, "the requested number unless attempts run out", got=len(off), asked=asked)
    c.ensures(all(a >= 1 for a in asked), "every attempt asks for the missing number", asked=asked)
    if dedup:
        uniq(c, off, pop, "")
    else:
        c.eq(len(off), n_off, "without elimination the requested number")
        c.eq(len(asked), 1, "without elimination one attempt suffices")
    if rep is not None:
        ok = set(rep.out)
        c.ensures(all(tuple(i.X) in ok for i in off), "every returned solution passed the repair", off=off.get("X") if len(off) else [])
    c.ensures(all(len(i.evaluated) == 0 for i in off), "returned solutions are not evaluated")
    c.ensures(O.same_data(data, O.data(pop)), "the population is unchanged")


@contract("C14", n=500, target="pymoo.core.mating.Mating")
def mating(c):
    from pymoo.core.mating import Mating
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.operators.selection.rnd import RandomSelection
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.ux import UX
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.bitflip import BitflipMutation
    from pymoo.operators.mutation.nom import NoMutation
    d = c.int(1, 4)
    kind = c.pick("sbx", "ux", "binary", "pcx")
    N, n_off = c.int(3, 8), c.int(1, 11)
    xl, xu = np.zeros(d), np.ones(d)
    rep = Marker(c.pick(1, 3, 10)) if kind != "binary" and c.chance(0.6) else None
    if kind == "binary":
        X = c.rng.random((N, d)) < 0.5
        cross, mut = UX(), c.pick(BitflipMutation(), NoMutation())
    else:
        X = c.inside(N, xl, xu)
        cross = {"sbx": c.pick(SBX(), SBX(n_offsprings=1)), "ux": UX(), "pcx": PCX()}[kind]
        mut = c.pick(PM(), NoMutation())
    dedup = c.chance(0.7)
    m = Mating(RandomSelection(), cross, mut, repair=rep, eliminate_duplicates=DefaultDuplicateElimination() if dedup else None,
               n_max_iterations=c.pick(1, 4, 30))
    pop = mk.population(c, N, X=X)
    data = O.data(pop)
    c.note(kind=kind, N=N, n_off=n_off, d=d, dedup=dedup)
    off = m.do(mk.Shell(n_var=d, xl=xl, xu=xu), pop, n_off, random_state=c.gen())
    c.ensures(len(off) <= n_off, "at most the requested number", got=len(off))
    if dedup:
        uniq(c, off, pop, "")
    else:
        c.eq(len(off), n_off, "without elimination the requested number")
    if rep is not None:
        ok = set(rep.out)
        c.ensures(all(tuple(i.X) in ok for i in off), "every returned solution passed the repair")
    c.ensures(all(len(i.evaluated) == 0 for i in off), "returned solutions are not evaluated")
    c.ensures(O.same_data(data, O.data(pop)), "the parents are unchanged")
    c.ensures(not ({id(i) for i in off} & {id(i) for i in pop}), "returned solutions are new")


@contract("C14", n=250, target="pymoo.core.mixed.MixedVariableMating")
def mixed_mating(c):
    from pymoo.core.mixed import MixedVariableMating, MixedVariableSampling, MixedVariableDuplicateElimination
    from pymoo.core.variable import Real, Integer, Choice, Binary
    from pymoo.core.problem import Problem
    vars = {"b": Binary(), "i": Integer(bounds=(0, 2)), "c": Choice(options=["x", "y", "z"])}
    if c.chance(0.4):
        vars["r"] = Real(bounds=(-1, 1))
    P = Problem(vars=vars, n_obj=1)
    N, n_off = c.int(2, 7), c.int(1, 9)
    pop = MixedVariableSampling()(P, N, random_state=c.gen())
    data = O.data(pop)
    dedup = c.chance(0.8)
    m = MixedVariableMating(eliminate_duplicates=c.pick(MixedVariableDuplicateElimination(), True) if dedup else False, n_max_iterations=c.pick(1, 5, 40))
    off = m.do(P, pop, n_off, random_state=c.gen())
    c.ensures(len(off) <= n_off and (dedup or len(off) == n_off), "the requested number, fewer only for duplicates", got=len(off))
    xs = [i.X for i in off]
    if dedup:
        c.ensures(all(xs[i] != xs[j] for i in range(len(xs)) for j in range(i)), "no two returned solutions are equal")
        c.ensures(all(x != p.X for x in xs for p in pop), "no returned solution equals a member of the population")
    c.ensures(all(set(x) == set(vars) for x in xs), "every variable is set")
    c.ensures(O.same_data(data, O.data(pop)), "the parents are unchanged")


@contract("C14", n=500, target="pymoo.core.initialization.Initialization")
def initialization(c):
    from pymoo.core.initialization import Initialization
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.operators.sampling.rnd import FloatRandomSampling
    from pymoo.operators.sampling.lhs import LHS
    d, n = c.int(1, 3), c.int(1, 9)
    xl, xu = c.bounds(d, degenerate=False)
    P = mk.Shell(n_var=d, xl=xl, xu=xu)
    rep = c.pick(None, Marker(1), Marker(4))
    kind = c.pick("float", "lhs", "array", "pop")
    dedup = c.chance(0.6)
    X = c.inside(n, xl, xu)
    evaluated = []
    if kind == "array":
        S = X if c.chance(0.8) else X[0]
    elif kind == "pop":
        S = Population.new(X=X)
        evaluated = [i for i in S if c.chance(0.3)]
        for i in evaluated:
            i.F, i.evaluated = np.array([1.0]), set(mk.EVAL)
    else:
        S = FloatRandomSampling() if kind == "float" else LHS(iterations=2)
    before = {id(i): i.X.copy() for i in evaluated}
    X0 = X.copy()
    pop = Initialization(S, repair=rep, eliminate_duplicates=DefaultDuplicateElimination() if dedup else None).do(P, n, random_state=c.gen())
    want = 1 if kind == "array" and S.ndim == 1 else n
    c.note(kind=kind, n=n, d=d, dedup=dedup)
    c.ensures(len(pop) <= want, "at most the requested number", got=len(pop))
    if not dedup:
        c.eq(len(pop), want, "the requested number")
    else:
        seen = [tuple(i.X) for i in pop]
        c.ensures(len(set(seen)) == len(seen), "no two returned solutions are equal")
    if rep is not None:
        ok = set(rep.out)
        c.ensures(all(tuple(i.X) in ok for i in pop if id(i) not in before), "every new solution passed the repair")
    c.ensures(all(np.array_equal(i.X, before[id(i)]) for i in pop if id(i) in before), "evaluated solutions are not repaired")
    c.ensures(all(len(i.evaluated) == 0 for i in pop if id(i) not in before), "new solutions are not evaluated")
    if kind == "array":
        c.eq(X, X0, "the given array is unchanged")


@contract("C14", n=90, thorough=2500, target="pymoo.algorithms.base.genetic")
def offspring_in_runs(c):
    name = c.pick("nsga2", "nsga3", "unsga3", "ga", "age", "age2", "spea2", "sms", "rnsga3", "ctaea", "rvea")
    P = lab.problem(c, name, box="unit")
    n_off = c.pick(None, 1, 3, 7)
    kw = {} if name == "sms" or n_off is None else dict(n_offsprings=n_off)
    if name in ("rvea", "ctaea", "ga"):
        kw = {}
    alg = lab.make(name, c, P, **kw)
    alg.setup(P, termination=("n_gen", 5), seed=c.int(0, 10 ** 6), verbose=False)
    off = alg.ask()
    first = True
    for _ in range(4):
        if off is None:
            break
        if not first:
            size = alg.n_offsprings
            c.ensures(len(off) == size, "exactly the requested number of offspring", got=len(off), want=size)
            uniq(c, off, alg.pop, "")
        else:
            c.ensures(len(off) <= alg.pop_size, "at most the requested number initially", got=len(off))
        c.ensures(all(len(i.evaluated) == 0 for i in off), "offspring are not evaluated")
        alg.evaluator.eval(P, off)
        alg.tell(infills=off)
        first = False
        if not alg.has_next():
            break
        off = alg.ask()
