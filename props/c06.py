import numpy as np
from vp.rt import contract
from vp import oracle as O, mk
from pymoo.core.individual import Individual
from pymoo.core.population import Population, merge


def fresh(c, n):
    pop = Population.new(X=c.rng.random((n, 2)), F=c.points(n, 2), G=c.rng.normal(0, 1, (n, 1)), H=np.zeros((n, 0)))
    for i, ind in enumerate(pop):
        ind.set("tag", 1000 + i)
    return pop


@contract("C06", n=800, target="pymoo.core.population.Population.new")
def create_and_read_back(c):
    n = c.int(1, 7)
    X, F = c.rng.random((n, c.int(1, 4))), c.points(n, c.int(1, 3))
    vals = c.rng.integers(0, 9, n)
    objs = [dict(a=i) for i in range(n)]
    with c.frame(X=X, F=F, vals=vals):
        pop = Population.new("X", X, F=F, vals=vals, objs=objs)
    c.eq(len(pop), n, "one solution per row")
    c.eq(pop.get("X"), X, "variables read back row by row")
    c.eq(pop.get("F"), F, "objectives read back row by row")
    a, b = pop.get("vals", "X")
    c.eq(a, vals, "several attributes in the requested order")
    c.eq(b, X, "several attributes in the requested order")
    c.ensures(all(p is q for p, q in zip(pop.get("objs", to_numpy=False), objs)), "objects read back by identity")
    c.ensures(len(set(O.ids(pop))) == n, "distinct solutions")
    old = X.copy()
    for ind in pop:
        ind.X[...] = -5.0
    c.eq(X, old, "the arrays passed in are not shared with the solutions")
    for ind in pop:
        c.ensures(len(ind.evaluated) == 0, "new solutions are not evaluated")
    if n > 1:
        c.ensures(c.fails(lambda: Population.new(X=X, F=F[:-1])), "different sizes are rejected")
        c.ensures(c.fails(lambda: pop.set("F", F[:-1])), "a wrong number of values is rejected")
    c.eq(len(Population.new()), 0, "empty population")
    c.eq(len(Population()), 0, "empty population")
    c.eq(len(Population.empty(n)), n, "n empty solutions")


@contract("C06", n=1200, target="pymoo.core.population.Population.set")
def set_only_what_is_asked(c):
    n = c.int(1, 7)
    pop = fresh(c, n)
    before = O.data(pop)
    tags = pop.get("tag")
    k = np.sort(c.rng.permutation(n)[:c.int(0, n)])
    how = c.pick("idx", "mask", "slice")
    if how == "mask":
        m = np.zeros(n, bool)
        m[k] = True
        sub = pop[m]
    elif how == "slice":
        a = c.int(0, n)
        b = c.int(a, n)
        k = np.arange(a, b)
        sub = pop[a:b]
    else:
        k = c.rng.permutation(n)[:len(k)]
        sub = pop[k]
    c.ensures(O.ids(sub) == [id(pop[i]) for i in k], "slicing keeps identity and order", how=how)
    c.requires(len(k) > 0)
    key = c.pick("F", "X", "attr1", "scalar", "G", "str", "iterated")
    if key == "F":
        V = c.rng.random((len(k), 3))
        sub.set("F", V)
    elif key == "X":
        V = c.rng.random((len(k), 2))
        sub.set(X=V)
    elif key == "G":
        V = c.rng.random((len(k), 2))
        sub.set("G", V)
    elif key == "attr1":
        V = c.rng.integers(0, 9, len(k))
        sub.set("attr1", V)
    elif key == "iterated":
        V = [[i, i + 1] for i in range(len(k))]
        sub.set("attr1", V)
        key = "attr1"
    elif key == "str":
        sub.set("attr1", "text")
        V = ["text"] * len(k)
        key = "attr1"
    else:
        V = np.full(len(k), 4.5)
        sub.set("attr1", 4.5)
        key = "attr1"
    c.note(key=key, k=k, how=how)
    for j, i in enumerate(k):
        c.eq(pop[i].get(key), V[j], "the value is set on its own solution")
    c.eq(pop.get("tag"), tags, "other attributes unchanged")
    after = O.data(pop)
    pos = "XFGH".index(key) if key in "XFGH" else None
    for i in range(n):
        for q in range(4):
            if not (q == pos and i in k):
                c.ensures(np.array_equal(before[i][q], after[i][q]), "nothing else changes", i=i, q=q)
        if i not in k and pos is None:
            c.ensures(pop[i].get("attr1") is None, "only the addressed solutions get the attribute")


@contract("C06", n=800, target="pymoo.core.population.merge")
def merging(c):
    na, nb, nc = c.int(0, 4), c.int(0, 4), c.int(0, 3)
    a, b, d = [fresh(c, k) if k else Population() for k in (na, nb, nc)]
    ids = O.ids(a) + O.ids(b)
    da = O.data(a) + O.data(b)
    m = Population.merge(a, b)
    c.eq(O.ids(m), ids, "first argument's solutions followed by the second's")
    c.ensures(O.same_data(O.data(m), da), "values stay with their solutions")
    c.eq(O.ids(Population.merge(a, b, d)), ids + O.ids(d), "further arguments are appended in order")
    c.ensures(isinstance(m, Population), "a merge is a population")
    c.eq((len(a), len(b)), (na, nb), "arguments unchanged")
    if na:
        c.eq(O.ids(Population.merge(a, b[0] if nb else a[0])), O.ids(a) + [id(b[0] if nb else a[0])], "a single solution is appended")
        c.eq(O.ids(Population.merge(None, a)), O.ids(a), "nothing merged with a population")
        c.eq(O.ids(Population.merge(a, None)), O.ids(a), "a population merged with nothing")
        X = c.rng.random((2, 2))
        mm = Population.merge(a, X)
        c.eq(mm.get("X"), np.vstack([a.get("X"), X]), "an array is appended as new solutions")
    if na:
        inds = list(a)
        p = Population.create(*inds)
        c.eq(O.ids(p), O.ids(a), "creating from solutions keeps them in order")
        c.eq(O.ids(Population(individuals=inds)), O.ids(a), "creating from solutions keeps them in order")
        c.eq(O.ids(Population.create(a[0])), [id(a[0])], "a single solution becomes a population of one")


@contract("C06", n=800, target="pymoo.core.individual.Individual.copy")
def copies_are_independent(c):
    ind = fresh(c, 1)[0]
    ind.evaluated = {"F", "G"}
    ind.set("vec", np.arange(3.0))
    ind.set("nested", {"a": [1, 2]})
    _ = ind.CV
    before = O.data([ind])
    cp = ind.copy()
    c.ensures(cp is not ind, "a copy is another object")
    c.ensures(O.same_data(O.data([cp]), before), "a copy carries equal values")
    c.eq(cp.get("tag"), ind.get("tag"), "a copy carries the attributes")
    c.eq(cp.evaluated, ind.evaluated, "a copy carries the evaluation marks")
    c.eq(cp.CV, ind.CV, "a copy carries the violation")
    for what in c.rng.permutation(6)[:3]:
        if what == 0:
            cp.X[0] = 77.0
        elif what == 1:
            cp.F = cp.F + 5
        elif what == 2:
            cp.set("tag", "changed")
        elif what == 3:
            cp.get("vec")[0] = -1.0
            cp.get("nested")["a"].append(3)
        elif what == 4:
            cp.evaluated.add("H")
        else:
            cp.G = np.array([9.0])
            c.eq(cp.CV, [9.0], "the copy's own violation follows")
    c.ensures(O.same_data(O.data([ind]), before), "changing the copy's values leaves the original unchanged")
    c.ensures(ind.get("tag") == 1000 and ind.get("vec")[0] == 0 and ind.get("nested") == {"a": [1, 2]} and ind.evaluated == {"F", "G"},
              "changing the copy's attributes leaves the original unchanged")
    c.eq(ind.CV, [max(0.0, ind.G[0])], "the original's violation is unchanged", rtol=1e-12)


@contract("C06", n=300, target="pymoo.core.individual.Individual.reset")
def reset_forgets(c):
    ind = fresh(c, 1)[0]
    ind.G = np.array([1.0])
    ind.evaluated = {"F", "G", "H"}
    _ = ind.CV
    keep = c.chance(0.5)
    ind.reset(data=not keep)
    c.eq((len(ind.F), len(ind.G), len(ind.H), len(ind.X)), (0, 0, 0, 0), "values are forgotten")
    c.eq(len(ind.evaluated), 0, "no longer evaluated")
    c.eq(ind.CV, [0.0], "violation is forgotten")
    c.eq(ind.get("tag"), 1000 if keep else None, "further attributes are kept exactly on request")


@contract("C06", n=600, target="pymoo.core.individual.Individual.set")
def individual_attributes(c):
    ind = Individual(X=c.rng.random(3), foo=5, F=np.array([1.0, 2.0]))
    c.eq(ind.get("foo"), 5, "attributes given at creation")
    c.eq(ind.F, [1.0, 2.0], "values given at creation")
    ind.set("bar", "b").set("G", np.array([0.5]))
    c.eq(ind.get("bar", "foo"), ("b", 5), "attributes in the requested order")
    c.eq(ind.get("G"), [0.5], "set value is read back")
    c.eq(ind.G, [0.5], "set value is the property")
    c.ensures(ind.get("nothing") is None, "an unknown attribute reads as none")
    ind.duplicate("bar", "baz")
    c.eq(ind.get("baz"), "b", "duplicated attribute")
    ind.set_by_dict(u=1, F=np.array([3.0]))
    c.eq((ind.get("u"), float(ind.f)), (1, 3.0), "several at once")
    c.ensures(ind.has("bar") and ind.has("X") and not ind.has("nothing"), "presence is reported")
    other = Individual()
    c.ensures(other.get("bar") is None and len(other.X) == 0, "other solutions are not affected")


@contract("C06", n=400, target="pymoo.core.population.Population")
def history_against_model(c):
    """Random interleavings of set, merge, slice, copy against a plain model."""
    n = c.int(1, 5)
    pop = fresh(c, n)
    model = {id(i): dict(F=np.copy(i.F), tag=i.get("tag")) for i in pop}
    keep = list(pop)
    for _ in range(c.int(1, 8)):
        op = c.pick("set", "merge", "slice", "copy", "tag", "assign")
        if op == "set" and len(pop):
            V = c.rng.random((len(pop), 2))
            pop.set("F", V)
            for i, v in zip(pop, V):
                model[id(i)]["F"] = v.copy()
            V[...] = -1
        elif op == "tag" and len(pop):
            k = c.int(0, len(pop) - 1)
            t = c.int(0, 99)
            pop[k].set("tag", t)
            model[id(pop[k])]["tag"] = t
        elif op == "merge":
            q = fresh(c, c.int(1, 2))
            keep += list(q)
            for i in q:
                model[id(i)] = dict(F=np.copy(i.F), tag=i.get("tag"))
            want = O.ids(pop) + O.ids(q)
            pop = Population.merge(pop, q)
            c.eq(O.ids(pop), want, "merge order")
        elif op == "slice" and len(pop) > 1:
            idx = c.rng.permutation(len(pop))[:c.int(1, len(pop))]
            want = [id(pop[i]) for i in idx]
            pop = pop[idx]
            c.eq(O.ids(pop), want, "slice order")
        elif op == "copy" and len(pop):
            k = c.int(0, len(pop) - 1)
            cp = pop[k].copy()
            cp.F[...] = 1e9
            cp.set("tag", "copy")
        elif op == "assign" and len(pop) > 1:
            i, j = c.rng.integers(0, len(pop), 2)
            pop = pop.copy()
            pop[i] = pop[j]
        if len(pop):
            ids = {}
            for i in pop:
                ids[id(i)] = i
            for i in ids.values():
                c.eq(i.F, model[id(i)]["F"], "values stay with their solutions over any history")
                c.eq(i.get("tag"), model[id(i)]["tag"], "attributes stay with their solutions over any history")
