"""C09: permutations."""
import numpy as np
from vp.prove import proof
from pymoo.core.problem import Problem
from pymoo.operators.crossover import ox
from pymoo.operators.mutation import inversion as IV
from pymoo.operators.sampling import rnd


@proof("C09", "pymoo.operators.sampling.rnd.PermutationRandomSampling._do")
def sampling(v):
    n, m = v.dim("n"), v.dim("m")
    R = v.call(rnd.PermutationRandomSampling()._do, v.obj(Problem, n_var=m), n, random_state=v.rng())
    v.same_shape(R, (n, m), "one row per sample")
    v.each((n, m), lambda i, j: v.And(v.le(0, v.at(R, i, j)), v.lt(v.at(R, i, j), m)), "every entry is one of the elements")
    v.each((n, m, m), lambda i, j, l: v.implies(v.eq(v.at(R, i, j), v.at(R, i, l)), v.eq(j, l)), "no element is repeated")


@proof("C09", "pymoo.operators.crossover.ox.random_sequence")
def sequence(v):
    n = v.dim("n", lo=2)
    s, e = v.call(ox.random_sequence, n, random_state=v.rng())
    v.ensures(v.And(v.le(0, s), v.lt(s, e), v.lt(e, n)), "two different positions in order")


def reversed_segment(v, R, y, s, e, n, label="reversed inside the segment, kept outside"):
    v.each((n,), lambda j: v.eq(v.at(R, j), v.ite(v.And(v.le(s, j), v.le(j, e)), lambda: v.at(y, v.sub(v.add(s, e), j)), lambda: v.at(y, j))), label)


@proof("C09", "pymoo.operators.mutation.inversion.inversion_mutation")
def inversion(v):
    n = v.dim("n")
    y = v.array("y", (n,), "i")
    s, e = v.scalar("start", "i", lo=0), v.scalar("end", "i", lo=0)
    v.requires(v.And(v.le(s, e), v.lt(e, n)))
    old = v.old(y)
    R = v.call(IV.inversion_mutation, y, (s, e), inplace=v.flag("inplace"))
    v.same_shape(R, (n,), "same length")
    reversed_segment(v, R, old, s, e, n)


@proof("C09", "pymoo.operators.mutation.inversion.inversion_mutation")
def inversion_of_a_copy(v):
    n = v.dim("n", lo=2)
    y = v.permutations("y", (n,))
    R = v.call(IV.inversion_mutation, y, None, inplace=False, random_state=v.rng())
    v.same_shape(R, (n,), "same length")
    distinct = lambda a, j, l: v.implies(v.eq(v.at(a, j), v.at(a, l)), v.eq(j, l))
    v.each((n,), lambda j: v.exists(n, lambda l: v.eq(v.at(R, j), v.at(y, l))), "every element is one of the original")
    v.each((n, n), lambda j, l: distinct(R, j, l), "no element is repeated")
    v.unchanged()


@proof("C09", "pymoo.operators.mutation.inversion.InversionMutation._do")
def mutation(v):
    n, m = v.dim("n"), v.dim("m", lo=2)
    X = v.permutations("X", (n, m))
    old = v.old(X)
    R = v.call(IV.InversionMutation(prob=v.scalar("prob", lo=0, hi=1))._do, v.obj(Problem, n_var=m), X, random_state=v.rng())
    v.same_shape(R, (n, m), "shape")
    v.each((n, m), lambda i, j: v.exists(m, lambda l: v.eq(v.at(R, i, j), v.at(old, i, l))), "every element is one of the original row")
    v.each((n, m, m), lambda i, j, l: v.implies(v.eq(v.at(R, i, j), v.at(R, i, l)), v.eq(j, l)), "no element is repeated")
