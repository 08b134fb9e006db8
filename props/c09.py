import numpy as np
from vp.rt import contract
from vp import oracle as O, mk, lab
from pymoo.core.population import Population
from pymoo.core.individual import Individual


def perms(c, n, d):
    return np.array([c.rng.permutation(d) for _ in range(n)])


def ispermrows(Y, d):
    return all(sorted(r.tolist()) == list(range(d)) for r in np.asarray(Y))


@contract("C09", n=300, target="pymoo.operators.sampling.rnd.PermutationRandomSampling")
def sampling(c):
    from pymoo.operators.sampling.rnd import PermutationRandomSampling
    n, d = c.int(1, 7), c.int(1, 9)
    X = PermutationRandomSampling()(mk.Shell(n_var=d), n, random_state=c.gen()).get("X")
    c.eq(X.shape, (n, d), "requested number of permutations")
    c.ensures(ispermrows(X, d), "every sample is a permutation", X=X)


def order_crossover(receiver, donor, s, e, shift):
    n = len(receiver)
    keep = set(donor[s:e + 1].tolist())
    rest = [v for v in ([receiver[(s + k) % n] for k in range(n)] if shift else receiver.tolist()) if v not in keep]
    return np.array(rest[:s] + donor[s:e + 1].tolist() + rest[s:])


@contract("C09", n=1500, target="pymoo.operators.crossover.ox.ox")
def ox(c):
    from pymoo.operators.crossover.ox import ox as fn, random_sequence
    d = c.int(2, 10)
    a, b = perms(c, 2, d)
    s, e = sorted(c.rng.choice(d, 2, replace=False).tolist())
    shift = c.chance(0.5)
    c.note(receiver=a, donor=b, seq=(s, e), shift=shift)
    with c.frame(a=a, b=b):
        y = fn(a, b, seq=(s, e), shift=shift)
    c.ensures(ispermrows([y], d), "the child is a permutation", y=y)
    c.eq(y[s:e + 1], b[s:e + 1], "the donated slice stays in place")
    c.eq(y, order_crossover(a, b, s, e, shift), "the remaining elements keep the receiver's order")
    q = random_sequence(d, random_state=c.gen())
    c.ensures(0 <= q[0] < q[1] < d, "a random slice is ordered and inside", seq=q)


@contract("C09", n=500, target="pymoo.operators.crossover.ox.OrderCrossover")
def ox_operator(c):
    from pymoo.operators.crossover.ox import OrderCrossover
    from pymoo.operators.crossover.erx import ERX
    d, m = c.int(3, 9), c.int(1, 5)
    A, B = perms(c, m, d), perms(c, m, d)
    if c.chance(0.2):
        B[0] = A[0]
    P = [[Individual(X=A[i].copy()), Individual(X=B[i].copy())] for i in range(m)]
    op = c.pick(OrderCrossover(shift=c.chance(0.5), prob=1.0), ERX(prob=1.0), OrderCrossover(), ERX())
    off = op(mk.Shell(n_var=d), P, random_state=c.gen())
    c.eq(len(off), op.n_offsprings * m, "declared number of offspring per mating")
    c.ensures(ispermrows(off.get("X"), d), "offspring are permutations", X=off.get("X"))
    c.eq([p[0].X for p in P], A, "parents unchanged")
    c.eq([p[1].X for p in P], B, "parents unchanged")


@contract("C09", n=700, target="pymoo.operators.crossover.erx.erx")
def erx(c):
    from pymoo.operators.crossover.erx import erx as fn, calc_adjency_matrix
    d = c.int(3, 9)
    names = c.rng.permutation(50)[:d]
    a, b = names[c.rng.permutation(d)], names[c.rng.permutation(d)]
    c.note(a=a, b=b)
    with c.frame(a=a, b=b):
        y = fn(a, b, random_state=c.gen())
    c.eq(sorted(int(v) for v in y), sorted(names.tolist()), "every element is visited exactly once")
    adj = {int(v): set() for v in names}
    for p in (a, b):
        for k in range(d):
            adj[int(p[k])] |= {int(p[k - 1]), int(p[(k + 1) % d])}
    H = calc_adjency_matrix(b, H=calc_adjency_matrix(a))
    c.ensures({int(k): {int(v) for v in vs} for k, vs in H.items()} == adj, "neighbours are those of either parent")
    left = {k: set(v) for k, v in adj.items()}
    for i in range(d - 1):
        cur, nxt = int(y[i]), int(y[i + 1])
        nb = set(left[cur])
        for e in nb:
            left[e].discard(cur)
        del left[cur]
        if nb:
            c.ensures(nxt in nb, "an unvisited neighbour is followed while there is one", y=y)
            c.eq(len(left[nxt]), min(len(left[e]) for e in nb), "the neighbour with the fewest unvisited neighbours is followed")


@contract("C09", n=900, target="pymoo.operators.mutation.inversion.InversionMutation")
def inversion(c):
    from pymoo.operators.mutation.inversion import inversion_mutation, InversionMutation
    d, n = c.int(2, 9), c.int(1, 5)
    X = perms(c, n, d)
    s, e = sorted(c.rng.choice(d, 2, replace=False).tolist())
    y = X[0].copy()
    z = inversion_mutation(y, (s, e), inplace=False)
    c.eq(y, X[0], "out-of-place inversion leaves its argument unchanged")
    c.eq(z, np.concatenate([X[0][:s], X[0][s:e + 1][::-1], X[0][e + 1:]]), "exactly one contiguous segment is reversed")
    inversion_mutation(y, (s, e), inplace=True)
    c.eq(y, z, "in-place inversion gives the same result")
    prob = c.pick(1.0, 0.0, 0.5)
    op = InversionMutation(prob=prob)
    c.note(X=X, prob=prob)
    Y = op(mk.Shell(n_var=d), Population.new(X=X), random_state=c.gen()).get("X")
    c.ensures(ispermrows(Y, d), "mutants are permutations", Y=Y)
    for x, v in zip(X, Y):
        if prob == 0.0:
            c.eq(v, x, "not drawn: unchanged")
        else:
            df = np.flatnonzero(x != v)
            if len(df):
                a, b = df[0], df[-1]
                c.eq(v[a:b + 1], x[a:b + 1][::-1], "the change is the reversal of one segment")


@contract("C09", n=10, target="pymoo.algorithms.soo.nonconvex.ga")
def whole_runs(c):
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.operators.sampling.rnd import PermutationRandomSampling
    from pymoo.operators.crossover.ox import OrderCrossover
    from pymoo.operators.crossover.erx import ERX
    from pymoo.operators.mutation.inversion import InversionMutation
    from pymoo.core.problem import Problem
    d = c.int(4, 8)
    W = c.rng.random((d, d))
    seen = []

    class P(Problem):
        def _evaluate(self, X, out, *a, **k):
            seen.append(X.copy())
            out["F"] = np.array([W[x, np.roll(x, 1)].sum() for x in X])
    alg = GA(pop_size=10, sampling=PermutationRandomSampling(), crossover=c.pick(OrderCrossover(), ERX()), mutation=InversionMutation())
    lab.solve(P(n_var=d, n_obj=1, xl=0, xu=d - 1, vtype=int), alg, 5, seed=c.int(0, 999))
    c.ensures(ispermrows(np.concatenate(seen), d), "every solution sent to evaluation is a permutation")
