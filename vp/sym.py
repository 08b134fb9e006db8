"""Symbolic scalars, numpy arrays and path contexts for the contract verifier.

Scalars are Python constants, z3 terms (Int/Real/Bool) or guarded unions GV (for inf/nan/None mixed with numbers).
Arrays are (shape, kind, element function): an array of unbounded symbolic size is a function from indices to scalars.
"""
import math
from .boot import z3mod
z3 = z3mod()
from z3 import (And, Or, Not, If, Implies, Int, Real, Bool, IntVal, RealVal, BoolVal, ForAll, Exists, Function, IntSort,
                RealSort, BoolSort, is_expr, is_true, is_false, simplify, substitute, Solver, unsat, sat, unknown, Lambda,
                ArraySort, ToReal, ToInt, IsInt)

INF, NAN = float("inf"), float("nan")


class Unsupported(Exception):
    """The code uses something outside the verifier's subset: the obligation is undecided."""


class PathEnd(Exception):
    """The current path is infeasible or cut."""


class Raised(Exception):
    """The verified code raises on this path."""
    def __init__(self, cls, msg=None):
        self.cls, self.msg = cls, msg
        super().__init__("%s: %s" % (getattr(cls, "__name__", cls), msg))


class GV:
    """Guarded union of values: [(guard, value)] with exhaustive, exclusive guards."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __eq__(s, o): return eq(s, o)
    def __ne__(s, o): return Not_(eq(s, o))
    def __neg__(s): return neg(s)
    __hash__ = None


def is_sym(x):
    return is_expr(x) or isinstance(x, GV)


def isz(x):
    return is_expr(x)


def is_bool(x):
    return isinstance(x, bool) or (is_expr(x) and z3.is_bool(x))


def is_intlike(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_expr(x) and x.sort() == IntSort())


def pyconst(x):
    """numpy scalars to Python constants, z3 numerals to Python numbers where exact."""
    import numpy as np
    if isinstance(x, np.generic):
        x = x.item()
    return x


def conc(x):
    """z3 numeral -> Python int/bool/Fraction-like float if integral; else unchanged."""
    if is_expr(x):
        if z3.is_int_value(x):
            return x.as_long()
        if is_true(x):
            return True
        if is_false(x):
            return False
    return x


def S(x):
    """simplify + concretise"""
    if is_expr(x):
        return conc(simplify(x))
    return x


def rv(f):
    """exact rational of a python float (decimal literal read as written)"""
    if isinstance(f, bool):
        return RealVal(1 if f else 0)
    if isinstance(f, int):
        return RealVal(f)
    from fractions import Fraction
    fr = Fraction(repr(float(f)))
    return z3.Q(fr.numerator, fr.denominator)


def to_z(x, real=False):
    if is_expr(x):
        if z3.is_bool(x):
            x = If(x, IntVal(1), IntVal(0))
        if real and x.sort() == IntSort():
            return ToReal(x)
        return x
    if isinstance(x, bool):
        return RealVal(int(x)) if real else IntVal(int(x))
    if isinstance(x, int):
        return RealVal(x) if real else IntVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("infinite constant in z3 term")
        return rv(x)
    raise Unsupported("not a number: %r" % (x,))


def to_b(x):
    if is_expr(x):
        if z3.is_bool(x):
            return x
        return x != 0
    if isinstance(x, GV):
        return gv_bool(x)
    return BoolVal(bool(x))


def gv_bool(x):
    return Or(*[And(g, to_b(v)) for g, v in x.alts])


def special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def lift2(f, a, b):
    """apply f over guarded unions"""
    if isinstance(a, GV):
        return mk_gv([(And(g, True), lift2(f, v, b)) for g, v in a.alts])
    if isinstance(b, GV):
        return mk_gv([(g, lift2(f, a, v)) for g, v in b.alts])
    return f(a, b)


def lift1(f, a):
    if isinstance(a, GV):
        return mk_gv([(g, lift1(f, v)) for g, v in a.alts])
    return f(a)


def mk_gv(alts):
    """flatten guards; merge plain numeric alternatives into one If term"""
    flat = []
    for g, v in alts:
        g = S(g)
        if g is False:
            continue
        if isinstance(v, GV):
            for g2, v2 in v.alts:
                gg = S(And(to_b(g), to_b(g2)))
                if gg is not False:
                    flat.append((gg, v2))
        else:
            flat.append((g, v))
    if not flat:
        return 0
    if any(g is True for g, _ in flat):
        return [v for g, v in flat if g is True][0]

    def cls(v):
        if is_bool(v):
            return "b"
        if special(v):
            return repr(v)
        if isinstance(v, (int, float)) or is_expr(v):
            return "n"
        return "id%d" % id(v) if not isinstance(v, (str, type(None))) else repr(v)
    groups = {}
    for g, v in flat:
        groups.setdefault(cls(v), []).append((to_b(g), v))
    out = []
    for c, lst in groups.items():
        if len(lst) == 1:
            out.append(lst[0])
            continue
        gg = Or(*[g for g, _ in lst])
        if c == "n":
            real = any(isinstance(v, float) or (is_expr(v) and v.sort() == RealSort()) for _, v in lst)
            val = to_z(lst[-1][1], real)
            for g, v in reversed(lst[:-1]):
                val = If(g, to_z(v, real), val)
            out.append((gg, val))
        elif c == "b":
            out.append((gg, Or(*[And(g, to_b(v)) for g, v in lst])))
        else:
            out.append((gg, lst[0][1]))
    if len(out) == 1:
        return out[0][1]
    return GV(out)


def ite(c, a, b):
    c = S(c) if is_expr(c) else c
    if isinstance(c, GV):
        c = gv_bool(c)
    if c is True or c is False or isinstance(c, (int,)):
        return a if c else b
    if a is b:
        return a
    if not is_sym(a) and not is_sym(b) and type(a) == type(b) and a == b:
        return a
    if is_bool(a) and is_bool(b):
        return S(If(c, to_b(a), to_b(b)))
    num = lambda v: (isinstance(v, (int, float)) and not special(v)) or is_expr(v)
    if num(a) and num(b):
        real = any(isinstance(v, float) or (is_expr(v) and v.sort() == RealSort()) for v in (a, b))
        return If(c, to_z(a, real), to_z(b, real))
    if isinstance(a, Arr) or isinstance(b, Arr):
        raise Unsupported("conditional array value")
    return mk_gv([(c, a), (Not(c), b)])


# ------------------------------------------------------------------------------------------ arithmetic
def _num(x):
    if is_expr(x) and z3.is_bool(x):
        return If(x, IntVal(1), IntVal(0))
    if isinstance(x, bool):
        return int(x)
    return x


def _bin(a, b, cf, zf):
    a, b = _num(a), _num(b)
    if not is_expr(a) and not is_expr(b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, (list, tuple)):
            return cf(a, b)
        return cf(a, b)
    if special(a) or special(b):
        return None
    real = any((isinstance(v, float)) or (is_expr(v) and v.sort() == RealSort()) for v in (a, b))
    return zf(to_z(a, real), to_z(b, real))


def add(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if special(a) or special(b):
            if is_expr(a):
                return b
            if is_expr(b):
                return a
            return a + b
        if not is_sym(a) and isinstance(a, (int, float)) and a == 0 and is_expr(b):
            return b
        if not is_sym(b) and isinstance(b, (int, float)) and b == 0 and is_expr(a):
            return a
        return _bin(a, b, lambda x, y: x + y, lambda x, y: x + y)
    return lift2(f, a, b)


def neg(a):
    return lift1(lambda x: -_num(x), a)


def sub(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if special(a) or special(b):
            if is_expr(a):
                return -b
            if is_expr(b):
                return a
            return a - b
        if is_expr(a) and is_expr(b) and a.eq(b):
            return 0 if a.sort() == IntSort() else 0.0
        return _bin(a, b, lambda x, y: x - y, lambda x, y: x - y)
    return lift2(f, a, b)


def mul(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if special(a) or special(b):
            if not is_expr(a) and not is_expr(b):
                return a * b
            z, s = (a, b) if is_expr(a) else (b, a)
            if math.isnan(s):
                return NAN
            return mk_gv([(to_z(z, True) > 0, s), (to_z(z, True) < 0, -s), (to_z(z, True) == 0, NAN)])
        for x, y in ((a, b), (b, a)):
            t = ite_const(x)
            if t is not None and is_expr(y):
                c, u, w = t
                g = lambda u: (to_z(0, True) if u == 0 else to_z(y, True) if u == 1 else to_z(u, True) * to_z(y, True)) if (y.sort() == RealSort() or isinstance(u, float)) \
                    else (to_z(0) if u == 0 else y if u == 1 else to_z(u) * y)
                gu, gw = g(u), g(w)
                if gu.sort() != gw.sort():
                    gu, gw = to_z(gu, True), to_z(gw, True)
                return If(c, gu, gw)
        for x, y in ((a, b), (b, a)):
            # (u / y) * y
            if is_expr(x) and is_expr(y) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and x.arg(1).eq(to_z(y, True)) and ctx().nonzero(x.arg(1)):
                return x.arg(0)
        return _bin(a, b, lambda x, y: x * y, lambda x, y: x * y)
    return lift2(f, a, b)


def ite_const(x):
    """(condition, number, number) of a conditional between numerals"""
    if not is_expr(x) or not z3.is_app(x):
        return None
    real = False
    if x.decl().kind() == z3.Z3_OP_TO_REAL:
        x, real = x.arg(0), True
    if not z3.is_app(x) or x.decl().kind() != z3.Z3_OP_ITE:
        return None
    if any(z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE for b in x.children()[1:]):
        x = simplify(x)
        if not z3.is_app(x) or x.decl().kind() != z3.Z3_OP_ITE:
            return None
    out = []
    for v in (x.arg(1), x.arg(2)):
        if z3.is_int_value(v):
            out.append(v.as_long())
        elif z3.is_rational_value(v) and v.denominator_as_long() == 1:
            out.append(v.numerator_as_long())
            real = True
        else:
            return None
    return (x.arg(0),) + tuple(float(v) if real else v for v in out)


def div(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if not is_expr(a) and not is_expr(b):
            if b == 0:
                return NAN if (a == 0 or a != a) else math.copysign(INF, a)
            return a / b
        if special(a) or special(b):
            if _nanv(a) or _nanv(b) or (special(a) and special(b)):
                return NAN
            if special(b):
                return 0.0
            if is_expr(b):
                return mk_gv([(to_z(b, True) >= 0, a), (to_z(b, True) < 0, -a)])
            return a if b > 0 else -a
        ctx().note_div(to_z(b, True))
        if not is_expr(b) and b != 0 and is_expr(a):
            return to_z(a, True) / rv(b)
        return to_z(a, True) / to_z(b, True)
    return lift2(f, a, b)


def floordiv(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if not is_sym(a) and not is_sym(b):
            return a // b
        if is_intlike(a) and is_intlike(b):
            if isinstance(b, int) and b > 0:
                return to_z(a) / to_z(b)
            # Python floor division; for a positive divisor z3's Euclidean division coincides
            if ctx().valid(to_z(b) > 0):
                return to_z(a) / to_z(b)
            raise Unsupported("floor division by a possibly negative integer")
        return ToReal(ToInt(to_z(a, True) / to_z(b, True)))
    return lift2(f, a, b)


def mod(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if not is_sym(a) and not is_sym(b):
            if isinstance(a, str):
                return a % b
            if b == 0:
                return NAN
            return a % b
        if is_intlike(a) and is_intlike(b):
            if (isinstance(b, int) and b > 0) or ctx().valid(to_z(b) > 0):
                return to_z(a) % to_z(b)
            raise Unsupported("modulo by a possibly non-positive integer")
        # real modulo: fresh m with a = b*k + m, 0 <= m < b (b>0)
        return ctx().real_mod(to_z(a, True), to_z(b, True))
    return lift2(f, a, b)


def power(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if not is_sym(a) and not is_sym(b):
            try:
                r = a ** b
            except ZeroDivisionError:
                return INF
            if isinstance(r, complex):
                return NAN
            return r
        if isinstance(b, float) and b == int(b) and abs(b) < 10:
            b = int(b)
        if isinstance(b, int) and 0 <= b <= 4:
            if b == 0:
                return 1.0
            r = to_z(a, True) if not is_intlike(a) else to_z(a)
            out = r
            for _ in range(b - 1):
                out = out * r
            return out
        if isinstance(b, float) and b == 0.5:
            return sqrt(a)
        if isinstance(b, int) and b == -1:
            return div(1, a)
        return ctx().uf_pow(to_z(a, True), to_z(b, True))
    return lift2(f, a, b)


def sqrt(a):
    def f(a):
        a = _num(a)
        if not is_sym(a):
            return math.sqrt(a) if a >= 0 else NAN
        return ctx().uf_sqrt(to_z(a, True))
    return lift1(f, a)


def absv(a):
    def f(a):
        a = _num(a)
        if not is_sym(a):
            return abs(a)
        return If(a >= 0, a, -a)
    return lift1(f, a)


def lt(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if not is_expr(a) and not is_expr(b):
            return bool(a < b)
        if special(a) or special(b):
            if (not is_expr(a) and a != a) or (not is_expr(b) and b != b):
                return False
            if special(a):
                return a < 0
            return b > 0
        real = any((isinstance(v, float)) or (is_expr(v) and v.sort() == RealSort()) for v in (a, b))
        return place_known(S(to_z(a, real) < to_z(b, real)))
    return lift2(f, a, b)


def le(a, b):
    def f(a, b):
        a, b = _num(a), _num(b)
        if not is_expr(a) and not is_expr(b):
            return bool(a <= b)
        if special(a) or special(b):
            if (not is_expr(a) and a != a) or (not is_expr(b) and b != b):
                return False
            if special(a):
                return a < 0
            return b > 0
        real = any((isinstance(v, float)) or (is_expr(v) and v.sort() == RealSort()) for v in (a, b))
        return place_known(S(to_z(a, real) <= to_z(b, real)))
    return lift2(f, a, b)


PLACES = ("SORTPR", "SORTPI", "SORTQR", "SORTQI")


def place_known(e):
    """places in a sorted order lie between zero and the number of elements, the largest is not below the smallest"""
    if is_expr(e) and z3.is_app(e):
        if z3.is_not(e):
            r = place_known(e.arg(0))
            return (not r) if isinstance(r, bool) else e
        k = e.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE):
            x, y = (e.arg(0), e.arg(1)) if k == z3.Z3_OP_LE else (e.arg(1), e.arg(0))
            off = 0
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ADD and y.num_args() == 2 and z3.is_int_value(y.arg(0)):
                off, y = y.arg(0).as_long(), y.arg(1)
            if z3.is_app(y) and y.num_args() == 3 and y.decl().name() in PLACES:
                if z3.is_int_value(x) and x.as_long() <= off:
                    return True
                if x.eq(y.arg(1)) and off <= 0:
                    return False
            if span_of(y, x) and off == 0:
                return True
    return e


def tidy(e):
    """a guard with what is known of its comparisons used, and simplified in its own context"""
    e = to_b(e)
    memo = {}

    def go(x):
        r = memo.get(x.get_id())
        if r is None:
            k = x.decl().kind() if z3.is_app(x) else None
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                ch = [go(y) for y in x.children()]
                r = And(*ch) if k == z3.Z3_OP_AND else Or(*ch) if k == z3.Z3_OP_OR else Not(ch[0])
            else:
                r = place_known(x)
                r = BoolVal(r) if isinstance(r, bool) else r
            memo[x.get_id()] = r
        return r
    e = simplify(go(e))
    return S(by_cases(e))


def by_cases(e, limit=7):
    """the propositional formula written case by case over its atoms"""
    def atoms(x):
        out, st, seen = [], [x], set()
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_app(y) and y.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                st.extend(y.children())
            elif not z3.is_true(y) and not z3.is_false(y):
                out.append(y)
        return sorted(out, key=lambda t: t.sexpr())
    if len(atoms(e)) > limit:
        return e
    memo = {}

    def go(x):
        r = memo.get(x.get_id())
        if r is not None:
            return r[1]
        at = atoms(x)
        if not at:
            r = x
        else:
            a = at[0]
            hi, lo = go(simplify(z3.substitute(x, (a, z3.BoolVal(True))))), go(simplify(z3.substitute(x, (a, z3.BoolVal(False)))))
            r = (hi if hi.eq(lo) else a if z3.is_true(hi) and z3.is_false(lo) else Or(a, lo) if z3.is_true(hi) else And(Not(a), lo) if z3.is_false(hi)
                 else Or(Not(a), hi) if z3.is_true(lo) else And(a, hi) if z3.is_false(lo) else Or(And(a, hi), And(Not(a), lo)))
            r = simplify(r)
        memo[x.get_id()] = (x, r)
        return r
    return go(e)


def case_tree(e, limit=6):
    """the value written case by case over the conditions in it"""
    def conditions(x):
        out, st, seen = {}, [x], set()
        while st:
            y = st.pop()
            if y.get_id() in seen or not z3.is_app(y):
                continue
            seen.add(y.get_id())
            if z3.is_bool(y) and y.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) and not has_ite(y):
                out[y.get_id()] = y
            else:
                st.extend(y.children())
        return sorted(out.values(), key=lambda t: (len(t.sexpr()), t.sexpr()))

    def go(x, left):
        at = conditions(x) if left else []
        if not at:
            return x
        a = at[0]
        hi, lo = (go(simplify(z3.substitute(x, (a, z3.BoolVal(b)))), left - 1) for b in (True, False))
        return hi if hi.eq(lo) else If(a, hi, lo)
    return go(simplify(e), limit)


def has_ite(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x) or x.decl().kind() == z3.Z3_OP_ITE:
            return True
        st.extend(x.children())
    return False


def numeral(t):
    from fractions import Fraction
    return Fraction(t.as_long()) if z3.is_int_value(t) else t.as_fraction() if z3.is_rational_value(t) else None


def span_of(y, x):
    """y is x or more: x a number not above zero and y largest less smallest, or x the smallest and y the largest"""
    if not z3.is_app(y) or not z3.is_app(x):
        return False
    if y.decl().name() in ("MAXR", "MAXI"):
        return x.decl().name() == "MIN" + y.decl().name()[-1] and x.num_args() == y.num_args() and all(p.eq(q) for p, q in zip(x.children(), y.children()))
    k = numeral(x)
    if k is None or k > 0 or y.decl().kind() != z3.Z3_OP_ADD or y.num_args() != 2:
        return False
    for p, q in (y.children(), y.children()[::-1]):
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_MUL and q.num_args() == 2 and numeral(q.arg(0)) == -1 and span_of(p, q.arg(1)):
            return True
    return False


def eq(a, b):
    def f(a, b):
        if not is_expr(a) and not is_expr(b):
            r = a == b
            return bool(r) if not isinstance(r, bool) else r
        if is_bool(a) and is_bool(b):
            return S(to_b(a) == to_b(b))
        if a is None or b is None or isinstance(a, (str, list, tuple, dict)) or isinstance(b, (str, list, tuple, dict)):
            return False
        a, b = _num(a), _num(b)
        if special(a) or special(b):
            return False
        real = any((isinstance(v, float)) or (is_expr(v) and v.sort() == RealSort()) for v in (a, b))
        return S(to_z(a, real) == to_z(b, real))
    return lift2(f, a, b)


def _nanv(x):
    return isinstance(x, float) and math.isnan(x)


def Not_(a):
    a = conc(a)
    if isinstance(a, GV):
        a = gv_bool(a)
    if is_expr(a):
        return S(Not(to_b(a)))
    return not a


def And_(*xs):
    out = []
    for x in xs:
        x = conc(x)
        if isinstance(x, GV):
            x = gv_bool(x)
        if is_expr(x):
            out.append(to_b(x))
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else And(*out)


def Or_(*xs):
    out = []
    for x in xs:
        x = conc(x)
        if isinstance(x, GV):
            x = gv_bool(x)
        if is_expr(x):
            out.append(to_b(x))
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else Or(*out)


def Implies_(a, b):
    return Or_(Not_(a), b)


def minv(a, b):
    """np.minimum (propagates nan)"""
    def f(a, b):
        if _nanv(a) or _nanv(b):
            return NAN
        return ite(le(a, b), a, b)
    return lift2(f, a, b)


def maxv(a, b):
    def f(a, b):
        if _nanv(a) or _nanv(b):
            return NAN
        return ite(le(b, a), a, b)
    return lift2(f, a, b)


# ------------------------------------------------------------------------------------------ context
_CTX = []


def ctx():
    return _CTX[-1]


class Stats:
    def __init__(self):
        self.obl = 0
        self.ok = 0
        self.solver_s = 0.0
        self.by = {}


SHARED = {"rnd", "rndi", "perm", "permi", "val", "at", "chg", "last"}
_SITE = [None]


class Shared:
    def __init__(self):
        self.num, self.count = {}, {}


class Ctx:
    """One path of one symbolic execution."""

    def __init__(self, decisions, stats, feas_ms=1500, prove_ms=8000):
        self.dec = list(decisions)      # list of [choice, n_choices]
        self.pos = 0
        self.pc = []                    # path condition and facts
        self.sels = []                  # selections by masks
        self.nfresh = 0
        self.share = []                 # symbols shared by the paths of a loop body
        self.loops = []                 # loop index constants in scope (fresh symbols become functions of them)
        self.bound = []                 # bound variables in scope
        self.cache = {}
        self.stats = stats
        self.feas_ms, self.prove_ms = feas_ms, prove_ms
        self.failed = []                # (label, result, model)
        self.obls = []
        self.divs = []
        self.covers = 0
        self.inputs = []                # named inputs for replay
        self.notes = set()
        self.sums = []
        self.sub = []                   # sub-exploration stack
        self.ax = {}
        self.free = {}
        from . import absx
        self.ab = absx.Abs()
        self.qcache = {}
        self.lin = Linear()
        self.npv = {}

    # --- facts
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        f = to_b(f)
        f = self._close(f)
        self.pc.append(f)

    def _close(self, f):
        """facts established while a bound variable or loop index is in scope hold for all its values"""
        bs = [b for b in self.bound if _occurs(f, b)]
        if bs:
            rng = [r for b, r in self.bound_ranges.items() if any(b.eq(x) for x in bs)] if hasattr(self, "bound_ranges") else []
            return ForAll(bs, f)
        return f

    def axiom(self, f):
        """a fact that holds whatever path is taken (a definition of a total function)"""
        n = len(self.pc)
        self.assume(f)
        for g in self.pc[n:]:
            self.ax[g.get_id()] = g

    def _number(self, name):
        """number of a generated symbol.  What the program draws before two paths of a loop body part is the same on both: there the
        number depends on the decisions taken so far and the statement, not on the path"""
        if self.share and name in SHARED:
            t = self.share[-1]
            key = (name, _SITE[0], tuple(d[0] for d in self.dec[:self.pos]))
            i = t.count[key] = t.count.get(key, 0) + 1
            if key + (i,) not in t.num:
                self.nfresh += 1
                t.num[key + (i,)] = self.nfresh
            return t.num[key + (i,)]
        self.nfresh += 1
        return self.nfresh

    def fresh(self, name, sort):
        """fresh constant; inside loops/quantifiers a function of the enclosing indices"""
        params = self.loops + self.bound
        nm = "%s!%d" % (name, self._number(name))
        if not params:
            return z3.Const(nm, sort)
        f = Function(nm, *([IntSort()] * len(params)), sort)
        return f(*params)

    def fresh_fn(self, name, n_args, sort):
        params = self.loops + self.bound
        nm = "%s!%d" % (name, self._number(name))
        f = Function(nm, *([IntSort()] * (len(params) + n_args)), sort)
        return lambda *idx: f(*params, *[to_z(i) for i in idx])

    # --- decisions
    def check(self, *extra, ground=False):
        """feasibility: unsat is certain, anything else means possible.  Bounded by a deterministic resource limit"""
        import time
        from . import absx
        t = time.time()
        ab = self.ab
        qf, q = [], []
        for f in list(self.pc) + list(extra):
            g = self.lin.do(ab.do(f))
            (q if self.quantified(g) else qf).append(g)
        r = run_solver(qf, {"mbqi": False, "arith.nl": False}, 400000, z3.SimpleSolver)[0]
        if r != unsat and (q or ab.axioms) and not ground:
            r = run_solver(qf + q + [self.lin.do(a) for a in ab.axioms], {"mbqi": False, "arith.nl": False}, 1200000, z3.SimpleSolver)[0]
            if r == sat:
                r = unknown
        self.stats.solver_s += time.time() - t
        return r

    def quantified(self, g):
        i = g.get_id()
        r = self.qcache.get(i)
        if r is None:
            from . import absx
            r = self.qcache[i] = (absx.has_quant(g), g)
        return r[0]

    def valid(self, f):
        f = S(f) if is_expr(f) else f
        if isinstance(f, bool):
            return f
        return self.check(Not(f)) == unsat

    def decide(self, cond):
        cond = S(cond) if is_expr(cond) else cond
        if isinstance(cond, GV):
            cond = S(gv_bool(cond))
        if not is_expr(cond):
            return bool(cond)
        cond = to_b(cond)
        return self.choose([cond, Not(cond)]) == 0

    def choose(self, conds):
        """fork over guarded alternatives"""
        if self.pos < len(self.dec):
            k = self.dec[self.pos][0]
        else:
            alts = [i for i, c in enumerate(conds) if self.check(c) != unsat]
            if not alts:
                raise PathEnd()
            self.dec.append([alts[0], alts])
            k = alts[0]
        self.pos += 1
        c = conds[k]
        self.pc.append(c)
        return k

    # --- obligations
    def prove(self, goal, label):
        import time
        self.stats.obl += 1
        self.obls.append(label)
        goal = S(goal) if is_expr(goal) else goal
        if isinstance(goal, GV):
            goal = S(gv_bool(goal))
        if isinstance(goal, bool):
            if goal:
                self.stats.ok += 1
                self.stats.by["simplifier"] = self.stats.by.get("simplifier", 0) + 1
                return True
            r = self.check()
            if r == unsat:
                self.stats.ok += 1
                return True
            # (the feasibility check leaves products and quotients open)
            goal = z3.BoolVal(False)
        t = time.time()
        goal = to_b(goal)
        res, model, be = prove_query(self, goal, self.prove_ms)
        self.stats.solver_s += time.time() - t
        if res == unsat:
            self.stats.ok += 1
            self.stats.by[be] = self.stats.by.get(be, 0) + 1
            return True
        self.failed.append((label, "refuted" if res == sat else "unknown", model))
        return False

    def nonzero(self, b):
        key = ("nonzero", b.get_id(), len(self.pc))
        if key not in self.cache:
            self.cache[key] = (b, self.check(b == 0, ground=True) == unsat)
        return self.cache[key][1]

    def note_div(self, b):
        self.divs.append(b)

    # --- uninterpreted mathematics with sound axioms
    def uf_sqrt(self, x):
        f = Function("sqrt", RealSort(), RealSort())
        r = f(x)
        key = ("sqrt", x.get_id())
        if key not in self.cache:
            self.cache[key] = x
            if nonneg(x):
                self.axiom(r >= 0)
                self.axiom(r * r == x)
            else:
                self.axiom(z3.Implies(x >= 0, r >= 0))
                self.axiom(z3.Implies(x >= 0, r * r == x))
        return r

    def uf_pow(self, x, y):
        f = Function("pow", RealSort(), RealSort(), RealSort())
        r = f(x, y)
        key = ("pow", x.get_id(), y.get_id())
        if key not in self.cache:
            self.cache[key] = (x, y)
            self.axiom(z3.Implies(x >= 0, r >= 0))
            self.axiom(z3.Implies(x > 0, r > 0))
            self.axiom(z3.Implies(And(x >= 0, x <= 1, y >= 0), r <= 1))
            self.axiom(z3.Implies(And(x >= 1, y >= 0), r >= 1))
            self.axiom(z3.Implies(y == 0, r == 1))
            self.axiom(z3.Implies(y == 1, r == x))
            self.axiom(z3.Implies(And(x == 0, y > 0), r == 0))
        return r

    def real_mod(self, a, b):
        f = Function("fmodk", RealSort(), RealSort(), IntSort())
        k = f(a, b)
        m = a - b * ToReal(k)
        key = ("mod", a.get_id(), b.get_id())
        if key not in self.cache:
            self.cache[key] = (a, b)
            # stated through the bound fresh product so that linear reasoning suffices
            g = Function("fmod", RealSort(), RealSort(), RealSort())(a, b)
            self.axiom(z3.Implies(b > 0, And(g >= 0, g < b)))
            self.axiom(z3.Implies(And(b > 0, a >= 0, a < b), g == a))
        return Function("fmod", RealSort(), RealSort(), RealSort())(a, b)

    def uf1(self, name, x, facts=()):
        f = Function(name, RealSort(), RealSort())
        r = f(to_z(x, True))
        key = (name, r.get_id())
        if key not in self.cache:
            self.cache[key] = r
            for g in facts:
                self.axiom(g(to_z(x, True), r))
        return r


def _occurs(e, v):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def occurs(e, v):
    return is_expr(e) and _occurs(e, v)


def run_solver(fs, opts, rlimit, mk, ms=60000):
    s = mk()
    s.set("timeout", int(ms))
    s.set("rlimit", int(rlimit))
    for k, v in opts.items():
        s.set(k, v)
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = unknown
    return r, (s.model() if r == sat else None)


PLANS = [("z3 e-matching", {"mbqi": False}, z3.SimpleSolver, 1), ("z3", {}, z3.Solver, 2), ("z3 mbqi", {}, z3.SimpleSolver, 2),
         ("z3 e-matching, arith 2", {"mbqi": False, "arith.solver": 2}, z3.SimpleSolver, 2), ("z3", {"random_seed": 7}, z3.Solver, 4)]


def symbols(e, memo=None):
    """uninterpreted function symbols of an expression"""
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                out.add(x.decl().name())
            st.extend(x.children())
    return frozenset(out)


def heights(e):
    """nesting depth of if-then-else; None under a quantifier's variable"""
    memo = {}

    def h(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_var(x):
            r = None
        elif z3.is_quantifier(x):
            r = 0
        else:
            cs = [h(y) for y in x.children()]
            r = None if any(v is None for v in cs) else max(cs, default=0) + (1 if z3.is_app_of(x, z3.Z3_OP_ITE) else 0)
        memo[k] = r
        return r
    return h(e), memo


def nonneg(e):
    """is the term non-negative for its shape alone"""
    if not is_expr(e):
        return e >= 0
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return e.as_fraction() >= 0 if z3.is_rational_value(e) else e.as_long() >= 0
    k = e.decl().kind() if z3.is_app(e) else None
    ch = e.children()
    if k == z3.Z3_OP_MUL:
        left = []
        for x in ch:
            h = next((i for i, y in enumerate(left) if y.eq(x)), None)
            if h is None:
                left.append(x)
            else:
                del left[h]
        return all(nonneg(x) for x in left)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
        return all(nonneg(x) for x in ch)
    if k == z3.Z3_OP_POWER:
        return z3.is_int_value(ch[1]) and ch[1].as_long() % 2 == 0 or z3.is_rational_value(ch[1]) and ch[1].as_fraction() % 2 == 0
    if k == z3.Z3_OP_ITE:
        c, a, b = ch
        if nonneg(a) and nonneg(b):
            return True
        # the branch taken when the other value is negative
        if z3.is_app_of(c, z3.Z3_OP_GE) and c.children()[0].eq(a) and nonneg(c.children()[1]) and not is_expr(nonneg(c.children()[1])):
            return simplify(a + b).eq(simplify(to_z(0, a.sort() == RealSort()))) or nonneg(b)
        return False
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n == "sqrt":
            return nonneg(ch[0])
        if (n in ("SUM", "SUMI") or n[:3] in ("MIN", "MAX")) and z3.is_quantifier(ch[0]):
            return nonneg(ch[0].body())
    return False


class Linear:
    """replaces products and quotients of non-constants by uninterpreted functions (weaker facts)"""

    def __init__(self):
        self.memo, self.keep, self.depth = {}, [], 0
        R, I = z3.RealSort(), z3.IntSort()
        self.f = {(k, s.name()): Function("nl_%s_%s" % (k, s.name()), s, s, s) for k in ("mul", "div", "mod") for s in (R, I)}

    def do(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r[1]
        if z3.is_quantifier(e):
            # bound variables become named constants first: no dangling indices in nested quantifiers
            self.depth += 1
            vs = [z3.Const("$L%d_%d" % (self.depth, i), e.var_sort(i)) for i in range(e.num_vars())]
            inst = lambda t: z3.substitute_vars(t, *reversed(vs))
            b0 = inst(e.body())
            b = self.do(b0)
            pats = [[inst(t) for t in e.pattern(i).children()] for i in range(e.num_patterns())]
            pats2 = [[self.do(t) for t in q] for q in pats]
            self.depth -= 1
            self.keep.append(b0)
            n = e
            if not b.eq(b0) or any(not x.eq(y) for q, r in zip(pats, pats2) for x, y in zip(q, r)):
                n = z3.ForAll(vs, b, patterns=[z3.MultiPattern(*q) for q in pats2]) if e.is_forall() else (z3.Exists(vs, b) if e.is_exists() else z3.Lambda(vs, b))
        elif z3.is_var(e) or not e.num_args():
            n = e
        else:
            ch = [self.do(x) for x in e.children()]
            kd = e.decl().kind()
            isn = [z3.is_rational_value(x) or z3.is_int_value(x) for x in ch]
            if kd == z3.Z3_OP_MUL and sum(not v for v in isn) > 1:
                n = None
                for x in ch:
                    n = x if n is None else (n * x if z3.is_rational_value(n) or z3.is_int_value(n) else self.f[("mul", x.sort().name())](n, x))
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not isn[1]:
                n = self.f[("mod" if kd == z3.Z3_OP_MOD else "div", ch[0].sort().name())](*ch)
            elif any(not a.eq(b) for a, b in zip(ch, e.children())):
                n = And(*ch) if kd == z3.Z3_OP_AND else Or(*ch) if kd == z3.Z3_OP_OR else (z3.Sum(*ch) if kd == z3.Z3_OP_ADD and len(ch) > 1 else e.decl()(*ch) if len(ch) == e.decl().arity() or kd not in (z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else _rebuild(e, kd, ch))
            else:
                n = e
        self.memo[k] = (e, n)
        return n


def _rebuild(e, kd, ch):
    if kd == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    r = ch[0]
    for x in ch[1:]:
        r = r - x if kd == z3.Z3_OP_SUB else r * x
    return r


def generalise(goal, keep):
    """the goal with deeply nested if-then-else terms replaced by arbitrary values (implies the goal)"""
    H, memo = heights(goal)
    if H is None or H <= keep:
        return None
    lim = H - keep
    new, done = {}, {}

    def go(x):
        k = x.get_id()
        if k in done:
            return done[k]
        if z3.is_quantifier(x) or z3.is_var(x):
            r = x
        elif memo[k] is not None and 1 <= memo[k] <= lim and x.num_args() and not z3.is_bool(x):
            r = new.setdefault(k, z3.Const("gen!%d" % len(new), x.sort()))
        else:
            ch = [go(y) for y in x.children()]
            r = x.decl()(*ch) if ch and any(not a.eq(b) for a, b in zip(ch, x.children())) else x
            if ch and z3.is_app_of(x, z3.Z3_OP_AND):
                r = And(*ch)
            elif ch and z3.is_app_of(x, z3.Z3_OP_OR):
                r = Or(*ch)
        done[k] = r
        return r
    return go(goal)


_SK = [0]


def opened(goal):
    """the goal for arbitrary values of its outermost universally quantified integers"""
    if z3.is_quantifier(goal) and goal.is_forall() and all(goal.var_sort(i) == IntSort() for i in range(goal.num_vars())):
        xs = []
        for i in range(goal.num_vars()):
            _SK[0] += 1
            xs.append(Int("ix!s%d" % _SK[0]))
        return opened(z3.substitute_vars(goal.body(), *reversed(xs)))
    if z3.is_or(goal):
        return z3.Or(*[opened(x) for x in goal.children()])
    if z3.is_implies(goal):
        return z3.Or(z3.Not(goal.arg(0)), opened(goal.arg(1)))
    return goal


def prove_query(c, goal, ms):
    """unsat = proved.  A short portfolio of z3 configurations, each with a deterministic resource limit (ms / 1000 units)"""
    from . import absx
    ab = c.ab
    goal = opened(goal)
    pc = [ab.do(f) for f in c.pc]
    g = ab.do(goal)
    pl = absx.pair_lemmas(g, ab) + absx.growth_lemmas(g, pc, ab)
    fs = pc + pl + absx.sort_lemmas(And(g, *pl), ab) + [ab.do(Not(w)) for w in witnesses(goal, c.sels)] + [Not(g)]
    for keep in (1, 2, 3):
        gg = generalise(g, keep)
        if gg is None:
            break
        sy = symbols(gg)
        r, m = run_solver([f for f in fs[:-1] if symbols(f) <= sy] + [Not(gg)], {"mbqi": False}, 400000, z3.SimpleSolver)
        if r == unsat:
            return unsat, None, "z3 e-matching"
    last, model = unknown, None
    qf = [f for f in fs if not c.quantified(f)]
    r, m = run_solver(qf, {}, 200000, z3.Solver)
    if r == unsat:
        return unsat, None, "z3 (ground)"
    if r == sat and len(qf) == len(fs) and not ab.axioms:
        return sat, m, "z3 (ground)"
    def holds(hyps, e):
        qs = [c.lin.do(f) for f in hyps + [Not(e)]]
        if run_solver(qs, {"mbqi": False}, 300000, z3.SimpleSolver)[0] == unsat:
            return True
        return run_solver(hyps + [Not(e)], {"mbqi": False}, 300000, z3.SimpleSolver)[0] == unsat
    eqs = absx.equal_reductions(g, ab, pc, holds)
    if eqs:
        r, m = run_solver([f for f in fs if not c.quantified(f)] + eqs, {}, 200000, z3.Solver)
        if r == unsat:
            return unsat, None, "z3 (congruence)"
        fs = fs[:-1] + eqs + fs[-1:]
    fs = fs + ab.axioms + int_cases(g)
    lin = [c.lin.do(f) for f in fs]
    r, m = run_solver(lin, {"mbqi": False}, 1500000, z3.SimpleSolver, 8000)
    if r == unsat:
        return unsat, None, "z3 e-matching, linear"
    places = selected(c, g, pl)
    if places:
        r, m = run_solver(lin + places, {"mbqi": False}, 1500000, z3.SimpleSolver, 8000)
        if r == unsat:
            return unsat, None, "z3 e-matching, linear"
        tw = absx.termwise(g, ab)
        if tw:
            pw = selected(c, g, tw)
            r, m = run_solver([c.lin.do(f) for f in pc + tw + [Not(g)] + ab.axioms] + pw, {"mbqi": False}, 3000000, z3.SimpleSolver, 8000)
            if r == unsat:
                return unsat, None, "z3 e-matching, linear"
    plans = [(be, opts, mk, min(1000000, mult * ms * 500)) for be, opts, mk, mult in PLANS] + [(be, opts, mk, mult * ms * 500) for be, opts, mk, mult in PLANS]
    for be, opts, mk, lim in plans:
        r, m = run_solver(fs, opts, lim, mk)
        if r == unsat:
            return unsat, None, be
        if r == sat and "mbqi" not in opts:
            return sat, m, be
        if r == sat:
            last, model = sat, m
    return last, model, "none"


def selected(c, goal, lemmas=(), limit=60):
    """names the places of the goal's integers in the selections made on this path, so that e-matching finds them"""
    ints, st, seen = [], [goal], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.sort() == IntSort() and x.decl().name().startswith("ix!"):
                ints.append(x)
            st.extend(x.children())
    ints.sort(key=lambda t: t.sexpr())
    named = Function("$named", IntSort(), BoolSort())
    out, new = [], []
    one = [s for s in c.sels if s.flat]
    for s in c.sels:
        for t in ints[:3] if s.flat else []:
            new.append((s, s.spot(t)))
        if s.nd == 2 and not s.flat:
            out += [named(s.pos(a, b)) for a in ints[:2] for b in ints[:2] + [z3.IntVal(0)] if not a.eq(b)]
    by = {r.F["P"].name(): r for r in c.ab.keys.values() if r.fam.startswith("SORT")}
    if by and ints:
        apps, seen, st, values = {}, set(), [goal, *lemmas] + [c.ab.do(f) for f in c.pc if not z3.is_quantifier(f)], []
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            r = by.get(x.decl().name())
            if r is not None:
                a = x.children()[:-1]
                apps.setdefault((r.id,) + tuple(t.get_id() for t in a), (r, a))
            elif x.num_args() and x.sort() == IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" not in x.decl().name() and "@" not in x.decl().name():
                values.append(x)
            st.extend(x.children())
        values.sort(key=lambda t: t.sexpr())
        for r, a in sorted(apps.values(), key=lambda t: (t[0].id, str(t[1])))[:12]:
            # of the column sorted, where columns are
            mine = [t for t in values if all(any(y.eq(p) for y in t.children()) for p in a[:-1])]
            out += [named(r.F["Q"](*a, t)) for t in ints[:3] + mine[:6]]
    for depth in range(3):
        out += [named(t) for s, t in new]
        new = [(q, q.spot(t)) for s, t in new for q in one if is_expr(q.shape[0]) and q.shape[0].eq(s.count)]
    return out[:limit]


def int_cases(goal, limit=5):
    """less, equal or greater, for integers the goal compares as reals (keeps z3 from branching without bound)"""
    ts, st, seen = [], [goal], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_TO_REAL and not any(x.arg(0).eq(t) for t in ts):
            ts.append(x.arg(0))
        st.extend(x.children())
    ts.sort(key=lambda t: t.sexpr())
    ts = ts[:limit]
    return [Or(a <= b - 1, a == b, a >= b + 1) for i, a in enumerate(ts) for b in ts[i + 1:]]


INVERSE = {}        # permutation (by name) -> its inverse


def offset(a, b):
    """c where a is b + c with no other mention of b, or None"""
    if a.eq(b):
        return z3.IntVal(0)
    if not z3.is_app(a) or a.sort() != IntSort():
        return None
    c = z3.simplify(a - b)
    st, seen = [c], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(b) or z3.is_quantifier(x):
            return None
        st.extend(x.children())
    return c


def solutions(T, t, b, sels):
    """values of b for which T (a chain of invertible functions of b) may be t"""
    k = offset(T, b)
    if k is not None:
        return [t - k]
    if z3.is_app(T) and T.sort() == IntSort():
        k = z3.simplify(T + b)
        if not _occurs(k, b):
            return [k - t]
        if T.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            T = z3.simplify(T)
            if T.decl().kind() == z3.Z3_OP_MUL and T.num_args() == 2 and z3.is_int_value(T.arg(0)) and T.arg(0).as_long() == -1:
                return solutions(T.arg(1), -t, b, sels)
            if T.decl().kind() == z3.Z3_OP_ADD:
                with_b = [x for x in T.children() if _occurs(x, b)]
                if len(with_b) == 1:
                    rest = [x for x in T.children() if not _occurs(x, b)]
                    return solutions(with_b[0], z3.simplify(t - z3.Sum(rest)), b, sels)
            return []
        if T.decl().kind() == z3.Z3_OP_ITE:
            return solutions(T.arg(1), t, b, sels) + solutions(T.arg(2), t, b, sels)
        n = T.decl().name()
        if T.num_args() == 0:
            return []
        a, u = T.children()[:-1], T.arg(T.num_args() - 1)
        if n in ("SORTPR", "SORTPI"):
            Q = Function("SORTQ" + n[-1], T.decl().domain(0), IntSort(), IntSort(), IntSort())
            return solutions(u, Q(a[0], a[1], t), b, sels)
        if n in INVERSE:
            return solutions(u, INVERSE[n](*a, t), b, sels)
        if n.startswith("sel0!"):
            for s in sels:
                if s.flat and s.sel[0](Int("$k")).decl().eq(T.decl()):
                    return solutions(u, s.spot(t), b, sels)
    return []


def solved(body, b, sels):
    out, st, seen = [], [body], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == IntSort():
            l, r = x.children()
            if not _occurs(r, b):
                out += solutions(l, r, b, sels)
            elif not _occurs(l, b):
                out += solutions(r, l, b, sels)
        st.extend(x.children())
    return out


def witnesses(goal, sels=()):
    """instances of an existential goal at the position a sorting permutation (or its inverse) gives an element of the goal, or its place
    in a selection (each implies the goal)"""
    out = []
    st = [goal]
    while st:
        g = st.pop()
        if z3.is_or(g):
            st.extend(g.children())
        elif z3.is_quantifier(g) and g.is_exists() and g.num_vars() == 1 and g.var_sort(0) == IntSort():
            b = Int("$w")
            body = z3.substitute_vars(g.body(), b)
            out += [substitute(body, (b, t)) for t in solved(body, b, sels)]
            ints, sorts, seen, w = {}, [], set(), [body]
            while w:
                x = w.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.num_args() == 0 and x.sort() == IntSort() and not z3.is_int_value(x) and not x.eq(b) and not x.decl().name().startswith("$"):
                    ints[x.get_id()] = x
                n = x.decl().name()
                if n in ("SORTPR", "SORTPI") or n in INVERSE or n.startswith("sel0!"):
                    k = offset(x.arg(x.num_args() - 1), b)
                    if k is not None:
                        sorts.append((x, k))
                w.extend(x.children())
            ints = list(ints.values())[:6]
            ix = [t for t in ints if t.decl().name().startswith("ix!")]
            places = [s.spot(t) for s in sels if s.flat for t in ix[:2]][:12]
            for x, k in sorts[:4]:
                d = x.decl()
                if d.name().startswith("sel0!"):
                    s = [s for s in sels if s.flat and s.sel[0](Int("$k")).decl().eq(d)]
                    out += [substitute(body, (b, s[0].spot(t) - k)) for t in ints if s]
                    continue
                if d.name() in INVERSE:
                    q = lambda t: INVERSE[d.name()](*x.children()[:-1], t)
                else:
                    Q = Function("SORTQ" + d.name()[-1], d.domain(0), IntSort(), IntSort(), IntSort())
                    q = lambda t: Q(x.arg(0), x.arg(1), t)
                out += [substitute(body, (b, q(t) - k)) for t in ints + places]
    return out[:60]


def contradictory(c):
    """do the assumptions of this path prove everything (bounded effort)"""
    ab = c.ab
    fs = [ab.do(f) for f in c.pc] + ab.axioms
    return any(run_solver(fs, o, 1500000, mk, 3000)[0] == unsat for o, mk in (({"mbqi": False}, z3.SimpleSolver), ({}, z3.Solver)))


def explore(fn, stats, max_paths=4000, **kw):
    """depth-first over all decision sequences; fn(ctx) is re-run for each path"""
    stack = [[]]
    n = 0
    outs = []
    while stack:
        dec = stack.pop()
        c = Ctx(dec, stats, **kw)
        _CTX.append(c)
        try:
            out = ("ok", fn(c))
        except PathEnd:
            out = ("cut", None)
        finally:
            _CTX.pop()
        n += 1
        if n > max_paths:
            raise Unsupported("more than %d paths" % max_paths)
        outs.append((c, out))
        # enqueue untried alternatives introduced on this run
        for i in range(len(c.dec) - 1, len(dec) - 1, -1):
            ch, alts = c.dec[i]
            for a in alts:
                if a > ch:
                    stack.append(c.dec[:i] + [[a, alts]])
    return outs


# ------------------------------------------------------------------------------------------ arrays
class Flat:
    """structured flat index i*m+j"""
    __slots__ = ("i", "j", "m")

    def __init__(self, i, j, m):
        self.i, self.j, self.m = i, j, m

    def z(self):
        return add(mul(flatz(self.i), self.m), flatz(self.j))


def flatz(i):
    return i.z() if isinstance(i, Flat) else i


def dim_eq(a, b):
    """are two dimensions provably equal"""
    if not is_expr(a) and not is_expr(b):
        return a == b
    d = S(to_z(a) == to_z(b))
    if isinstance(d, bool):
        return d
    return ctx().valid(d)


_BORN = [0]


class Arr:
    __array_priority__ = 1000

    def __init__(self, shape, kind, fn, base=None, vmap=None, vinv=None, tag=None):
        self.shape = tuple(conc(S(s)) if is_expr(s) else int(s) for s in shape)
        self.kind = kind
        self._fn = fn
        self.base, self.vmap, self.vinv = base, vmap, vinv
        self.tag = tag
        self.name = None
        _BORN[0] += 1
        self.born = _BORN[0]

    @property
    def fn(self):
        """the current element function as a value (later writes do not affect it)"""
        if self.base is not None:
            bf, vm = self.base.fn, self.vmap
            return lambda idx: bf(vm(idx))
        return self._fn

    def get(self, *idx):
        return self.fn(tuple(idx))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = mul(r, s)
        return S(r)

    def __len__(self):
        n = self.shape[0]
        if is_expr(n):
            raise Unsupported("len() of symbolic array used as python int")
        return n

    def write(self, cond, val):
        """functional update: element idx becomes val(idx) where cond(idx)"""
        if self.base is not None:
            inv = self.vinv

            def bcond(b):
                c, v = inv(b)
                return And_(c, cond(v)) if c is not False else False

            def bval(b):
                c, v = inv(b)
                return val(v)
            self.base.write(bcond, bval)
            return
        old = self._fn
        k = self.kind
        _undo(self)

        def new(idx):
            c = cond(idx)
            c = S(c) if is_expr(c) else c
            if c is True:
                return cast(val(idx), k)
            if c is False:
                return old(idx)
            return ite(c, cast(val(idx), k), old(idx))
        self._fn = new
        self.tag = None
        log_write(self, cond, lambda idx: cast(val(idx), k))

    def overwrite(self, other_fn):
        if self.base is not None:
            self.write(lambda i: True, other_fn)
        else:
            k = self.kind
            _undo(self)
            self._fn = lambda idx: cast(other_fn(idx), k)
            self.tag = None
            log_write(self, lambda idx: True, self._fn)

    def snapshot(self):
        return Arr(self.shape, self.kind, self.fn, tag=self.tag)

    # operators for contracts
    def __getitem__(self, idx):
        from .npm import getitem
        return getitem(self, idx)

    def __iter__(self):
        n = self.shape[0]
        if is_expr(n):
            raise Unsupported("iteration over symbolic array")
        return iter([self[i] for i in range(n)])


_WLOG = []


def log_write(a, cond, val):
    if _WLOG:
        _WLOG[-1].append((a, cond, val))


def _undo(a):
    tr = getattr(ctx(), "trail", None) if _CTX else None
    if tr is not None:
        f, t = a._fn, a.tag

        def u():
            a._fn, a.tag = f, t
        tr.append(u)


def cast(v, kind):
    if kind == "b":
        if isinstance(v, GV):
            return gv_bool(v)
        return to_b(v) if is_expr(v) else bool(v)
    if kind == "i":
        def f(v):
            v = _num(v)
            if is_expr(v):
                if v.sort() == RealSort():
                    return S(If(v >= 0, ToInt(v), -ToInt(-v)))
                return v
            if isinstance(v, float):
                if special(v):
                    return Int("nan_as_int")      # whatever the machine makes of it
                return int(v)
            return v
        return lift1(f, v)
    if kind == "f":
        def g(v):
            v = _num(v)
            if is_expr(v):
                return ToReal(v) if v.sort() == IntSort() else v
            if isinstance(v, int):
                return float(v) if abs(v) < 2 ** 53 else v
            if v is None:
                return NAN
            return v
        return lift1(g, v)
    return v


def kind_of(v):
    if isinstance(v, GV):
        ks = {kind_of(x) for _, x in v.alts}
        if len(ks) == 1:
            return ks.pop()
        if ks <= {"b", "i", "f"}:
            return "f"
        return "o"
    if is_bool(v):
        return "b"
    if is_intlike(v):
        return "i"
    if isinstance(v, float) or (is_expr(v) and v.sort() == RealSort()):
        return "f"
    return "o"


def promote(a, b):
    o = "bifo"
    return a if o.index(a) >= o.index(b) else b
