"""More assumed numpy contracts (loaded after npm)."""
import numpy as np
from . import sym, npm
from .sym import *
from .sym import z3, _num
from .npm import MODELS as M, to_arr, ew, arith, reduce_axis, sum_, mean_, norm_axis, kindv


def var_(A, axis=None, **kw):
    A = npm.asarray(to_arr(A), "f")
    m = mean_(A, axis)
    if axis is None or A.ndim == 1:
        d = ew(lambda v: (lambda t: mul(t, t))(sub(v, m)), A, kind="f")
    else:
        ax = norm_axis(axis, A.ndim)
        g = m.fn
        f = A.fn
        d = Arr(A.shape, "f", lambda ix: (lambda t: mul(t, t))(sub(f(ix), g(tuple(ix[:ax]) + tuple(ix[ax + 1:])))))
    return mean_(d, axis)


def std_(A, axis=None, **kw):
    return ew(sqrt, var_(A, axis), kind="f")


M[np.var], M[np.std] = var_, std_


# ---- moocore (external, compiled): its documented definitions are assumed
def _pairs(points, ref, dist, over_ref, inner, outer):
    A, R = to_arr(points), to_arr(ref)
    if A.ndim != 2 or R.ndim != 2:
        raise Unsupported("moocore on other than two-dimensional arrays")
    m = A.shape[1]
    d = lambda i, r: dist(m, lambda j: A.fn((i, j)), lambda j: R.fn((r, j)))
    t = lambda r: npm._ext(lambda i: d(i, r), A.shape[0], "f", inner)
    return outer(t, R.shape[0])


def _mean(t, n):
    return div(npm.reduce_sum(t, n), n)


def euclid(m, a, r):
    return sqrt(npm.reduce_sum(lambda j: (lambda x: mul(x, x))(sub(a(j), r(j))), m))


def euclid_plus(m, a, r):
    return sqrt(npm.reduce_sum(lambda j: (lambda x: mul(x, x))(maxv(sub(a(j), r(j)), 0.0)), m))


def _moocore():
    try:
        import moocore
    except ImportError:
        return
    M[moocore.igd] = lambda points, ref, maximise=False: _pairs(points, ref, euclid, True, "min", _mean)
    M[moocore.igd_plus] = lambda points, ref, maximise=False: _pairs(points, ref, euclid_plus, True, "min", _mean)
    most = lambda t, n: npm._ext(t, n, "f", "max")
    M[moocore.epsilon_additive] = lambda points, ref, maximise=False: _pairs(points, ref, lambda m, a, r: most(lambda j: sub(a(j), r(j)), m), True, "min", most)
    M[moocore.epsilon_mult] = lambda points, ref, maximise=False: _pairs(points, ref, lambda m, a, r: most(lambda j: div(a(j), r(j)), m), True, "min", most)


_moocore()
