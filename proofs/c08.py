"""C08: admissible values of discrete variables."""
import numpy as np
from vp.prove import proof
from pymoo.core import variable as VR
from pymoo.core.problem import Problem
from pymoo.operators.mutation.bitflip import BitflipMutation
from pymoo.operators.mutation.rm import ChoiceRandomMutation
from pymoo.operators.repair.rounding import RoundingRepair
from pymoo.operators.sampling import rnd


@proof("C08", "pymoo.operators.repair.rounding.RoundingRepair._do")
def rounding(v):
    n, m = v.dim("n"), v.dim("m")
    xl, xu = v.bounds(m, kind="i")
    X = v.within("X", (n, m), xl, xu)
    R = v.call(RoundingRepair()._do, None, X)
    v.same_shape(R, (n, m), "shape")
    v.ensures(v.kind(R) == "i", "whole numbers")
    v.each((n, m), lambda i, j: v.le(v.abs(v.sub(v.at(R, i, j), v.at(X, i, j))), 0.5), "nearest whole number")
    v.each((n, m), lambda i, j: v.And(v.le(v.at(xl, j), v.at(R, i, j)), v.le(v.at(R, i, j), v.at(xu, j))), "stays within whole bounds")
    v.unchanged()


@proof("C08", "pymoo.operators.mutation.bitflip.BitflipMutation._do")
def bitflip(v):
    n, m = v.dim("n"), v.dim("m")
    X = v.array("X", (n, m), "b")
    P = v.obj(Problem, n_var=m)
    M = BitflipMutation(prob_var=v.scalar("prob_var", lo=0, hi=1))
    R = v.call(M._do, P, X, random_state=v.rng())
    v.same_shape(R, (n, m), "shape")
    v.ensures(v.kind(R) == "b", "truth values")
    v.unchanged()


@proof("C08", "pymoo.operators.mutation.bitflip.BitflipMutation._do", native=False)
def bitflip_where_drawn(v):
    n, m = v.dim("n"), v.dim("m")
    X = v.array("X", (n, m), "b")
    P = v.obj(Problem, n_var=m)
    p = v.scalar("prob_var", lo=0, hi=1)
    rng = v.rng()
    R = v.call(BitflipMutation(prob_var=p)._do, P, X, random_state=rng)
    D = v.drawn(rng, 0)
    v.each((n, m), lambda i, j: v.iff(v.at(R, i, j), v.iff(v.lt(v.at(D, i, j), p), v.Not(v.at(X, i, j)))), "a gene flips exactly where it is drawn to flip")


@proof("C08", "pymoo.operators.sampling.rnd.BinaryRandomSampling._do")
def binary_sampling(v):
    n, m = v.dim("n"), v.dim("m")
    R = v.call(rnd.BinaryRandomSampling()._do, v.obj(Problem, n_var=m), n, random_state=v.rng())
    v.same_shape(R, (n, m), "one row per sample")
    v.ensures(v.kind(R) == "b", "truth values")


@proof("C08", "pymoo.operators.sampling.rnd.IntegerRandomSampling._do")
def integer_sampling(v):
    n, m = v.dim("n"), v.dim("m")
    xl, xu = v.bounds(m, kind="i")
    R = v.call(rnd.IntegerRandomSampling()._do, v.obj(Problem, n_var=m, xl=xl, xu=xu), n, random_state=v.rng())
    v.same_shape(R, (n, m), "one row per sample")
    v.ensures(v.kind(R) == "i", "whole numbers")
    v.each((n, m), lambda i, j: v.And(v.le(v.at(xl, j), v.at(R, i, j)), v.le(v.at(R, i, j), v.at(xu, j))), "within the bounds")


def bounds_of(v, kind):
    lo = v.scalar("lo", kind)
    w = v.scalar("w", kind, lo=0)
    return lo, v.add(lo, w)


@proof("C08", ["pymoo.core.variable.Real._sample", "pymoo.core.variable.Variable.sample"])
def real_variable(v):
    n = v.dim("n", lo=0)
    lo, up = bounds_of(v, "f")
    R = v.call(VR.Real(bounds=(lo, up)).sample, n, random_state=v.rng())
    v.same_shape(R, (n,), "as many as asked for")
    v.each((n,), lambda i: v.And(v.le(lo, v.at(R, i)), v.le(v.at(R, i), up)), "within the bounds")
    x = v.call(VR.Real(bounds=(lo, up)).sample, random_state=v.rng())
    v.ensures(v.And(v.le(lo, x), v.le(x, up)), "a single value is within the bounds")


@proof("C08", ["pymoo.core.variable.Integer._sample", "pymoo.core.variable.Variable.sample"])
def integer_variable(v):
    n = v.dim("n", lo=0)
    lo, up = bounds_of(v, "i")
    R = v.call(VR.Integer(bounds=(lo, up)).sample, n, random_state=v.rng())
    v.same_shape(R, (n,), "as many as asked for")
    v.ensures(v.kind(R) == "i", "whole numbers")
    v.each((n,), lambda i: v.And(v.le(lo, v.at(R, i)), v.le(v.at(R, i), up)), "within the bounds")
    x = v.call(VR.Integer(bounds=(lo, up)).sample, random_state=v.rng())
    v.ensures(v.And(v.le(lo, x), v.le(x, up)), "a single value is within the bounds")


@proof("C08", ["pymoo.core.variable.Binary._sample", "pymoo.core.variable.Variable.sample"])
def binary_variable(v):
    n = v.dim("n", lo=0)
    R = v.call(VR.Binary().sample, n, random_state=v.rng())
    v.same_shape(R, (n,), "as many as asked for")
    v.ensures(v.kind(R) == "b", "truth values")


@proof("C08", ["pymoo.core.variable.Choice._sample", "pymoo.core.variable.Variable.sample"])
def choice_variable(v):
    n, k = v.dim("n", lo=0), v.dim("k")
    O = v.array("options", (k,), "i")
    R = v.call(VR.Choice(options=O).sample, n, random_state=v.rng())
    v.same_shape(R, (n,), "as many as asked for")
    v.each((n,), lambda i: v.exists(k, lambda j: v.eq(v.at(R, i), v.at(O, j))), "one of the listed options")
    v.unchanged()


@proof("C08", "pymoo.operators.mutation.rm.ChoiceRandomMutation._do")
def choice_mutation(v):
    n, k = v.dim("n"), v.dim("k")
    O, U = v.array("options", (k,), "i"), v.array("other", (k,), "i")
    X = v.array("X", (n, 2), "i")
    P = v.obj(Problem, n_var=2, vars={"a": VR.Choice(options=O), "b": VR.Choice(options=U)})
    R = v.call(ChoiceRandomMutation()._do, P, X, random_state=v.rng())
    v.same_shape(R, (n, 2), "shape")
    one_of = lambda x, S: v.exists(k, lambda j: v.eq(x, v.at(S, j)))
    v.each((n,), lambda i: v.Or(v.eq(v.at(R, i, 0), v.at(X, i, 0)), one_of(v.at(R, i, 0), O)), "first variable: kept or one of its options")
    v.each((n,), lambda i: v.Or(v.eq(v.at(R, i, 1), v.at(X, i, 1)), one_of(v.at(R, i, 1), U)), "second variable: kept or one of its options")
    v.unchanged()
