"""Symbolic interpreter for the Python functions of /repo.

The verified text is the source of the running function objects (inspect.getsource on the imported module of the current
tree); nothing is dropped except docstrings, annotations and decorators that are themselves interpreted as wrapper closures.
Calls to functions of pymoo are interpreted (inlined) or replaced by their contract when one is registered in SUMMARY;
calls to numpy/math go to the assumed contracts in npm.py; everything else with symbolic arguments is Unsupported.
"""
import sys, ast, builtins, copy as _copy, functools, inspect, operator, textwrap, types, math, warnings
import numpy as np
from . import sym, npm
from .sym import *
from .sym import z3, _num


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


SUMMARY = {}        # function -> handler(args, kwargs)
_AST = {}


def fn_ast(f):
    code = f.__code__
    if code not in _AST:
        try:
            src = textwrap.dedent(inspect.getsource(f))
            tree = ast.parse(src)
        except (OSError, SyntaxError, IndentationError) as e:
            raise Unsupported("no source for %s (%s)" % (f.__qualname__, e))
        node = None
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name:
                node = n
                break
        if node is None:
            lam = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda)]
            if code.co_name == "<lambda>" and len(lam) == 1:
                node = lam[0]
            else:
                raise Unsupported("no source for %s" % f.__qualname__)
        _AST[code] = node
    return _AST[code]


class Closure:
    """function defined inside interpreted code"""

    def __init__(self, node, env, glob, defaults, kwdefaults, name):
        self.node, self.env, self.glob, self.defaults, self.kwdefaults = node, env, glob, defaults, kwdefaults
        self.__name__ = name

    def __call__(self, *a, **k):
        return call(self, list(a), k)


class BoundM:
    """bound method on an interpreted instance"""

    def __init__(self, f, obj):
        self.f, self.obj = f, obj

    def __call__(self, *a, **k):
        return call(self, list(a), k)


class SuperP:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SeqView:
    """Python list of symbolic length: element k is fn(k)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn
        sym._BORN[0] += 1
        self.born = sym._BORN[0]

    def grow(self, x):
        """elements added at the end (of a list which is a sequence already)"""
        c = ctx()
        if c.loops or c.share:
            raise Unsupported("symbolic list grown in a symbolic loop")
        if getattr(c, "mut", None) is not None:
            c.mut.append(self)
        m, f = self.n, self.fn
        k, g = length(x), seq_fn(x)
        self.n = S(add(m, k))

        def fn(i):
            old = lt(i, m)
            old = S(old) if is_expr(old) else old
            if old is True or old is False:
                return f(i) if old else g(sub(i, m))
            a, b = f(i), g(S(sub(i, m)))
            if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.kind == b.kind:
                a, b = a.snapshot(), b.snapshot()
                return Arr(tuple(ite(old, p, q) for p, q in zip(a.shape, b.shape)), a.kind, lambda ix: ite(old, a.fn(ix), b.fn(ix)))
            return ite(old, a, b)
        self.fn = fn

    def to_arr(self):
        v = self.fn(Int("$e"))
        if isinstance(v, SeqView):
            v = v.to_arr()
        f = self.fn
        if isinstance(v, Arr):
            return Arr((self.n,) + v.shape, v.kind, lambda ix: npm.to_arr(f(flatz(ix[0]))).fn(tuple(ix[1:])))
        if isinstance(v, (int, float)) or is_sym(v):
            return Arr((self.n,), kind_of(v), lambda ix: f(flatz(ix[0])))
        raise Unsupported("array from a symbolic sequence of %r" % type(v))


def seq_fn(x):
    """position -> element"""
    if isinstance(x, SeqView):
        return x.fn
    if isinstance(x, Arr):
        return lambda i: npm.getitem(x, i)
    xs = list(x)
    return lambda i: get_item(xs, i)


class Moved:
    """in place of the contents of a list that has become a sequence: what still refers to the list itself finds the sequence here"""

    def __init__(self, seq):
        self.seq = seq


def live(x):
    return x[0].seq if type(x) is list and len(x) == 1 and type(x[0]) is Moved else x


STACK = []          # frames of the calls under way


class SSet:
    """set of the values of a symbolic sequence"""

    def __init__(self, seq):
        self.seq = seq

    def const(self):
        v = self.seq.fn(Int("$e")) if isinstance(self.seq, SeqView) else None
        return None if v is None or has_sym(v) or isinstance(v, (Arr, SeqView)) else v


class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Rng:
    """assumed contract of numpy.random.Generator"""

    def __init__(self, name="rng"):
        self.draws = 0
        self.log = []

    def _arr(self, size, sort, kind, fact):
        r = self._arr_(size, sort, kind, fact)
        self.log.append(r)
        return r

    def _arr_(self, size, sort, kind, fact):
        c = ctx()
        self.draws += 1
        if size is None:
            v = c.fresh("rnd", sort)
            c.assume(fact(v))
            return v
        sh = npm.shape_arg(size)
        f = c.fresh_fn("rnd", len(sh), sort)
        ii = [Int("$r%d" % d) for d in range(len(sh))]
        t = f(*ii)
        c.assume(ForAll(ii, fact(t), patterns=[t]))
        return Arr(sh, kind, lambda ix: f(*[flatz(i) for i in ix]))

    def random(self, size=None, **kw):
        return self._arr(size, RealSort(), "f", lambda t: And(t >= 0, t < 1))

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = npm.to_arr(low), npm.to_arr(high)
        if size is None and (isinstance(lo, Arr) or isinstance(hi, Arr)):
            size = npm.bshape(npm.shape_of(lo), npm.shape_of(hi))
        u = self.random(size)
        # u is strictly below one; low + u*(high-low)
        return npm.ew(lambda a, b, t: add(a, mul(t, sub(b, a))), lo, hi, u, kind="f")

    def normal(self, loc=0.0, scale=1.0, size=None):
        lo, sc = npm.to_arr(loc), npm.to_arr(scale)
        if size is None and (isinstance(lo, Arr) or isinstance(sc, Arr)):
            size = npm.bshape(npm.shape_of(lo), npm.shape_of(sc))
        u = self._arr(size, RealSort(), "f", lambda t: BoolVal(True))
        return npm.ew(lambda a, b, t: add(a, mul(t, b)), loc, scale, u, kind="f")

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def integers(self, low, high=None, size=None, endpoint=False, **kw):
        if high is None:
            low, high = 0, low
        lo, hi = npm.to_arr(low), npm.to_arr(high)
        if endpoint:
            hi = npm.ew(lambda v: add(v, 1), hi)
        if isinstance(lo, Arr) or isinstance(hi, Arr):
            sh = npm.bshape(npm.shape_of(lo), npm.shape_of(hi)) if size is None else npm.shape_arg(size)
            c = ctx()
            self.draws += 1
            f = c.fresh_fn("rndi", len(sh), IntSort())
            gl, gh = npm.bget(lo, sh), npm.bget(hi, sh)
            ii = [Int("$r%d" % d) for d in range(len(sh))]
            t = f(*ii)
            rng = And(*[And(i >= 0, i < to_z(n)) for i, n in zip(ii, sh)])
            c.assume(ForAll(ii, z3.Implies(And(rng, to_z(gl(tuple(ii))) < to_z(gh(tuple(ii)))), And(t >= to_z(gl(tuple(ii))), t < to_z(gh(tuple(ii))))), patterns=[t]))
            r = Arr(sh, "i", lambda ix: f(*[flatz(i) for i in ix]))
            self.log.append(r)
            return r
        # (an empty range is an error in numpy; nothing is assumed about its result)
        return self._arr(size, IntSort(), "i", lambda t: z3.Implies(to_z(lo) < to_z(hi), And(t >= to_z(lo), t < to_z(hi))))

    def permutation(self, x):
        c = ctx()
        self.draws += 1
        n = x if not isinstance(npm.to_arr(x), Arr) else npm.to_arr(x).shape[0]
        p, q = c.fresh_fn("perm", 1, IntSort()), c.fresh_fn("permi", 1, IntSort())
        sym.INVERSE[p(Int("$a")).decl().name()] = q(Int("$a")).decl()
        a = Int("$p")
        nz = to_z(n)
        c.assume(ForAll([a], z3.Implies(And(a >= 0, a < nz), And(p(a) >= 0, p(a) < nz, q(p(a)) == a)), patterns=[p(a)]))
        c.assume(ForAll([a], z3.Implies(And(a >= 0, a < nz), And(q(a) >= 0, q(a) < nz, p(q(a)) == a)), patterns=[q(a)]))
        P = Arr((n,), "i", lambda ix: p(flatz(ix[0])))
        P.tag = ("perm",)
        X = npm.to_arr(x)
        return npm.getitem(X, P) if isinstance(X, Arr) else P

    def choice(self, a, size=None, replace=True, p=None, **kw):
        A = npm.to_arr(a)
        n = A.shape[0] if isinstance(A, Arr) else a
        if p is not None:
            raise Unsupported("weighted choice")
        if not replace and size is not None:
            P = self.permutation(n)
            k = npm.shape_arg(size)
            if len(k) != 1:
                raise Unsupported("choice shape")
            I = npm.getitem(P, slice(None, k[0]))
        else:
            I = self.integers(0, n, size=size)
        return npm.getitem(A, I) if isinstance(A, Arr) else I


RNG_METHODS = {"random", "uniform", "normal", "integers", "permutation", "choice", "standard_normal"}


# ------------------------------------------------------------------------------------------ helpers
def has_sym(x, depth=0):
    if isinstance(x, (Arr, GV, SeqView, SRange, SSet, Rng, popm.SPop, popm.SInd, popm.SSetV)) or is_expr(x):
        return True
    if depth > 3:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y, depth + 1) for y in x.values())
    if isinstance(x, (Closure, BoundM)):
        return True
    if is_pymoo_obj(x):
        return any(has_sym(y, depth + 1) for y in x.__dict__.values())
    return False


def is_pymoo_obj(x):
    t = type(x)
    return getattr(t, "__module__", "").startswith(("pymoo", "proofs")) and hasattr(x, "__dict__") and not isinstance(x, (type, types.ModuleType, types.FunctionType)) \
        and not isinstance(x, np.ndarray)


def truth(v):
    v = live(v)
    if isinstance(v, (Arr,)):
        if all(not is_expr(s) and s == 1 for s in v.shape):
            return truth(v.fn(tuple(0 for _ in v.shape)))
        raise Unsupported("truth of an array")
    if isinstance(v, SeqView):
        return ctx().decide(lt(0, v.n))
    if isinstance(v, popm.SInd):
        return True
    if isinstance(v, popm.SPop):
        if is_expr(v.refs.size) or v.refs.size > 1:
            raise Unsupported("truth of a population")
        return v.refs.size == 1
    if is_expr(v):
        return ctx().decide(to_b(v))
    if isinstance(v, GV):
        return ctx().decide(lift1(lambda t: truth_val(t), v))
    return bool(v)


def truth_val(t):
    if is_expr(t):
        return to_b(t)
    return bool(t)


def subst(v, k, t):
    """value v with the loop constant k replaced by t"""
    if isinstance(v, GV):
        return mk_gv([(subst(g, k, t), subst(x, k, t)) for g, x in v.alts])
    if is_expr(v):
        return S(substitute(v, (k, to_z(t))))
    if isinstance(v, Arr):
        f = v.fn
        return Arr(tuple(subst(s, k, t) for s in v.shape), v.kind, lambda ix: subst(f(ix), k, t))
    if isinstance(v, SeqView):
        f = v.fn
        return SeqView(subst(v.n, k, t), lambda i: subst(f(i), k, t))
    if isinstance(v, popm.SPop):
        return popm.SPop(subst(v.refs, k, t))
    if isinstance(v, (popm.SInd, popm.SSetV)):
        return type(v)(subst(v.ref, k, t))
    if isinstance(v, list):
        return [subst(x, k, t) for x in v]
    if isinstance(v, tuple):
        return tuple(subst(x, k, t) for x in v)
    if isinstance(v, dict):
        return {a: subst(x, k, t) for a, x in v.items()}
    return v


def length(x):
    x = live(x)
    if isinstance(x, Arr):
        return x.shape[0]
    if isinstance(x, SeqView):
        return x.n
    if isinstance(x, popm.SPop):
        return x.refs.shape[0]
    if isinstance(x, SSet):
        if x.const() is not None:
            return ite(lt(0, x.seq.n), 1, 0)
        raise Unsupported("size of a symbolic set")
    if isinstance(x, SRange):
        d = sub(x.hi, x.lo)
        if is_expr(d) and ctx().valid(to_z(d) >= 0):
            return S(d)
        return S(maxv(0, d))
    if is_pymoo_obj(x):
        return call_method(x, "__len__", [])
    return len(x)


# ------------------------------------------------------------------------------------------ the evaluator
POISON = object()


class Frame:
    def __init__(self, glob, loc, outer=None, cls=None, fname=""):
        self.glob, self.loc, self.outer, self.cls, self.fname = glob, loc, outer, cls, fname
        self.nonloc = {}

    def lookup(self, name):
        if name in self.nonloc:
            return self.nonloc[name][name]
        if name in self.loc:
            v = self.loc[name]
            if v is POISON:
                raise Unsupported("%s read after the loop that assigns it" % name)
            return v
        e = self.outer
        while e is not None:
            if isinstance(e, dict):
                if name in e:
                    return e[name]
                break
            if name in e.loc:
                return e.loc[name]
            e = e.outer
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Raised(NameError, name)

    def store(self, name, v):
        if name in self.nonloc:
            self.nonloc[name][name] = v
        else:
            self.loc[name] = v


BINOPS = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div, ast.FloorDiv: floordiv, ast.Mod: mod, ast.Pow: power}
NATIVE = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
          ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
          ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
NPOP = {ast.Add: np.add, ast.Sub: np.subtract, ast.Mult: np.multiply, ast.Div: np.divide, ast.FloorDiv: np.floor_divide, ast.Mod: np.mod,
        ast.Pow: np.power, ast.BitAnd: np.logical_and, ast.BitOr: np.logical_or, ast.BitXor: np.logical_xor, ast.MatMult: np.matmul}
CMPN = {ast.Lt: np.less, ast.LtE: np.less_equal, ast.Gt: np.greater, ast.GtE: np.greater_equal, ast.Eq: np.equal, ast.NotEq: np.not_equal}
CMPS = {ast.Lt: lt, ast.LtE: le, ast.Gt: lambda a, b: lt(b, a), ast.GtE: lambda a, b: le(b, a), ast.Eq: eq, ast.NotEq: lambda a, b: Not_(eq(a, b))}
CMPP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}


def is_arrlike(x):
    return isinstance(x, (Arr, np.ndarray))


def binop(op, a, b):
    if is_pymoo_obj(a) or is_pymoo_obj(b):
        raise Unsupported("operator on an object")
    if isinstance(a, SeqView) and is_arrlike(b):
        a = a.to_arr()
    if isinstance(b, SeqView) and is_arrlike(a):
        b = b.to_arr()
    if not has_sym(a) and not has_sym(b):
        with np.errstate(all="ignore"):
            return native(NATIVE[op], a, b)
    if is_arrlike(a) or is_arrlike(b):
        if op not in NPOP:
            raise Unsupported("array operator")
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and not all(npm.kindv(npm.to_arr(x)) == "b" for x in (a, b)):
            raise Unsupported("bit operator on integers")
        return npm.MODELS[NPOP[op]](a, b)
    if op is ast.Add and (isinstance(a, (list, tuple)) or isinstance(b, (list, tuple))):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return a + b
        raise Unsupported("concatenating symbolic sequences")
    if op is ast.Mult and (isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str))):
        s, n = (a, b) if isinstance(a, (list, tuple, str)) else (b, a)
        if is_expr(n) and len(s) == 1:
            return SeqView(maxv(0, n), lambda i: s[0])
        if not is_expr(n):
            return s * n
        raise Unsupported("sequence repetition")
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and is_bool(a) and is_bool(b):
        return {ast.BitAnd: And_, ast.BitOr: Or_, ast.BitXor: lambda x, y: Not_(eq(x, y))}[op](a, b)
    if op not in BINOPS:
        raise Unsupported("operator %s" % op)
    if npscalar(a) or npscalar(b):
        return mark_np(BINOPS[op](a, b))
    if op in (ast.Div, ast.FloorDiv, ast.Mod):
        # Python scalars raise on a zero divisor
        z = eq(b, 0)
        if z is True or (is_expr(z) and not ctx().valid(Not(z)) and ctx().decide(z)):
            raise Raised(ZeroDivisionError)
    return BINOPS[op](a, b)


def npscalar(x):
    """does the scalar come out of numpy (whose division by zero does not raise)"""
    return isinstance(x, np.generic) or (is_expr(x) and x.get_id() in ctx().npv)


def mark_np(x):
    if is_expr(x):
        ctx().npv[x.get_id()] = x
    return x


def native(f, *a):
    try:
        return f(*a)
    except (TypeError, ValueError, ZeroDivisionError, KeyError, IndexError, AttributeError) as e:
        raise Raised(type(e), str(e))


def compare(op, a, b):
    if isinstance(a, popm.SInd) and isinstance(b, popm.SInd) and op in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
        r = eq(a.ref, b.ref)
        return r if op in (ast.Is, ast.Eq) else Not_(r)
    if op in (ast.Is, ast.IsNot):
        r = (a is b) or (isinstance(a, (bool, type(None))) and isinstance(b, (bool, type(None))) and a is b)
        if not r and isinstance(a, GV) and b is None:
            r = Or_(*[g for g, v in a.alts if v is None])
            return r if op is ast.Is else Not_(r)
        return r if op is ast.Is else not r
    if op in (ast.In, ast.NotIn):
        r = contains(b, a)
        return r if op is ast.In else Not_(r)
    if isinstance(a, SeqView) and is_arrlike(b):
        a = a.to_arr()
    if isinstance(b, SeqView) and is_arrlike(a):
        b = b.to_arr()
    if not has_sym(a) and not has_sym(b):
        return native(CMPP[op], a, b)
    if is_arrlike(a) or is_arrlike(b):
        return npm.MODELS[CMPN[op]](a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in (ast.Eq, ast.NotEq):
        r = False
        if len(a) == len(b):
            r = And_(*[compare(ast.Eq, x, y) for x, y in zip(a, b)])
        return r if op is ast.Eq else Not_(r)
    for x in (a, b):
        if not (isinstance(x, (int, float, bool, str, type(None))) or is_sym(x)):
            if op in (ast.Eq, ast.NotEq) and (isinstance(x, (type, str)) or x is None):
                continue
            raise Unsupported("comparison of %r" % type(x))
    if op not in (ast.Eq, ast.NotEq):
        for x in (a, b):
            if x is None or isinstance(x, str):
                raise Raised(TypeError, "comparison")
    return CMPS[op](a, b)


def contains(c, x):
    if isinstance(c, popm.SSetV):
        return popm.ev_contains(c, x)
    if isinstance(c, popm.SPop) and isinstance(x, popm.SInd):
        return npm.bounded_quant(c.refs.shape[0], lambda k: eq(c.refs.fn((k,)), x.ref), False)
    if isinstance(c, (list, tuple, set, frozenset)):
        if not has_sym(x) and not has_sym(c):
            return native(operator.contains, c, x)
        return Or_(*[compare(ast.Eq, x, y) for y in c])
    if isinstance(c, dict):
        return x in c
    if isinstance(c, SSet):
        c = c.seq
    if isinstance(c, str):
        return x in c
    if is_pymoo_obj(c):
        return call_method(c, "__contains__", [x])
    if isinstance(c, SRange):
        return And_(le(c.lo, x), lt(x, c.hi))
    if isinstance(c, range):
        if not is_sym(x):
            return x in c
        return And_(le(c.start, x), lt(x, c.stop))
    if isinstance(c, (Arr, SeqView)):
        a = npm.to_arr(c)
        if a.ndim == 1:
            return npm.bounded_quant(a.shape[0], lambda k: eq(a.fn((k,)), x), False)
    raise Unsupported("membership in %r" % type(c))


def unary(op, v):
    if isinstance(op, ast.Not):
        if isinstance(v, Arr) and v.ndim <= 1 and all(not is_expr(s) and s == 1 for s in v.shape):
            v = v.fn(tuple(0 for _ in v.shape))
        if is_expr(v):
            return Not_(to_b(v))
        return not truth(v)
    if isinstance(op, ast.USub):
        return npm.MODELS[np.negative](v) if isinstance(v, Arr) else (neg(v) if has_sym(v) else -v)
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.Invert):
        if isinstance(v, Arr):
            if v.kind != "b":
                raise Unsupported("~ on integers")
            return npm.MODELS[np.logical_not](v)
        if is_expr(v) and z3.is_bool(v):
            return Not_(v)
        if is_expr(v):
            return -1 - v
        return ~v
    raise Unsupported("unary operator")


class Ev:
    def __init__(self, frame):
        self.f = frame

    # ---- expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n)

    def e_Constant(self, n): return n.value
    def e_Name(self, n): return self.f.lookup(n.id)

    def e_Attribute(self, n): return get_attr(self.ev(n.value), n.attr)

    def e_BinOp(self, n): return binop(type(n.op), self.ev(n.left), self.ev(n.right))
    def e_UnaryOp(self, n): return unary(n.op, self.ev(n.operand))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x)
            if i == len(n.values) - 1:
                return v
            if is_expr(v) and z3.is_bool(v) and pure(n.values[i + 1:]) and not ctx().inforced(v):
                # side-effect free rest: build the formula instead of forking
                rest = [self.ev_guard(y, v if isand else Not_(v)) for y in n.values[i + 1:]]
                if all(is_bool(r) for r in rest):
                    return (And_ if isand else Or_)(v, *rest)
                raise Unsupported("mixed boolean operator")
            t = truth(v)
            if isand and not t:
                return v if not is_expr(v) else False
            if not isand and t:
                return v if not is_expr(v) else True
        return v

    def ev_guard(self, n, g):
        r = self.ev(n)
        if isinstance(r, Arr) and all(not is_expr(s) and s == 1 for s in r.shape):
            r = r.fn(tuple(0 for _ in r.shape))
        return r

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c)
            x = compare(type(op), left, r)
            if res is None:
                res = x
            else:
                res = And_(res, x) if (is_bool(res) and is_bool(x)) else (x if truth(res) else res)
            left = r
        return res

    def e_IfExp(self, n):
        t = self.ev(n.test)
        if truth(t):
            return self.ev(n.body)
        return self.ev(n.orelse)

    def e_Tuple(self, n): return tuple(self.elts(n.elts))
    def e_List(self, n): return list(self.elts(n.elts))
    def e_Set(self, n): return set(self.elts(n.elts))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(iterate(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v))
            else:
                d[self.ev(k)] = self.ev(v)
        return d

    def e_JoinedStr(self, n): return "<formatted>"

    def e_Lambda(self, n):
        return Closure(n, self.f, self.f.glob, [self.ev(d) for d in n.args.defaults], {a.arg: self.ev(d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}, "<lambda>")

    def e_Slice(self, n):
        g = lambda x: None if x is None else self.ev(x)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_Starred(self, n):
        raise Unsupported("starred expression")

    def e_Subscript(self, n):
        return get_item(self.ev(n.value), self.ev(n.slice))

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.f.store(n.target.id, v)
        return v

    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.f
            return SuperP(fr.cls, fr.loc[fr.selfname])
        f = self.ev(n.func)
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value))
            else:
                kw[k.arg] = self.ev(k.value)
        return call(f, args, kw)

    def comp(self, n, elt):
        """list of values, or SeqView over one symbolic generator"""
        def rec(gens, ev):
            if not gens:
                return [elt(ev)]
            g = gens[0]
            it = ev.ev(g.iter)
            if symbolic_iter(it):
                if len(gens) > 1:
                    raise Unsupported("nested symbolic comprehension")
                return ev.sym_comp(g, it, elt)
            out = []
            for x in iterate(it):
                ev.assign(g.target, x)
                if all(truth(ev.ev(c)) for c in g.ifs):
                    r = rec(gens[1:], ev)
                    if isinstance(r, SeqView):
                        raise Unsupported("nested symbolic comprehension")
                    out.extend(r)
            return out
        fr = Frame(self.f.glob, {}, self.f, self.f.cls, self.f.fname)
        if hasattr(self.f, "selfname"):
            fr.selfname = self.f.selfname
            fr.loc[fr.selfname] = self.f.loc.get(fr.selfname)
        return rec(n.generators, Ev(fr))

    def sym_comp(self, g, it, elt):
        c = ctx()
        n, at = iter_parts(it)
        k = c.loop_const()
        base = c.push_scope(k, 0, n)
        conds = []
        try:
            def body():
                self.assign(g.target, at(k))
                cs = [truth_val_(self.ev(x)) for x in g.ifs]
                return And_(*cs) if cs else True, elt(self)
            paths = c.subexplore(body)
        finally:
            facts = c.pop_scope(k, 0, n, base)
        for p in paths:
            if p.exc is not None:
                raise Unsupported("exception inside a symbolic comprehension: %s" % p.exc)
        keep = Or_(*[And_(p.cond(), p.out[0]) for p in paths])
        if len(paths) == 1:
            val = paths[0].out[1]
        else:
            val = None
            for p in paths:
                val = p.out[1] if val is None else ite(p.cond(), p.out[1], val)
        fn = lambda i: subst(val, k, i)
        if keep is True or (is_expr(keep) and c.valid_closed(keep, k, 0, n)):
            return SeqView(n, fn)
        mask = Arr((n,), "b", lambda ix: subst(keep, k, flatz(ix[0])))
        s = npm.sel_of(mask)
        return SeqView(s.count, lambda i: fn(s.at(i)[0]))

    def e_ListComp(self, n):
        return self.comp(n, lambda ev: ev.ev(n.elt))

    def e_GeneratorExp(self, n):
        return self.comp(n, lambda ev: ev.ev(n.elt))

    def e_SetComp(self, n):
        r = self.comp(n, lambda ev: ev.ev(n.elt))
        if isinstance(r, SeqView):
            return SSet(r)
        return set(r)

    def e_DictComp(self, n):
        r = self.comp(n, lambda ev: (ev.ev(n.key), ev.ev(n.value)))
        if isinstance(r, SeqView):
            raise Unsupported("symbolic dict")
        return dict(r)

    # ---- statements
    def run(self, body):
        for s in body:
            sym._SITE[0] = s
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported("statement %s" % type(s).__name__)
            m(s)

    def s_Expr(self, s):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value)

    def s_Pass(self, s): pass

    def s_Return(self, s):
        raise ReturnSig(None if s.value is None else self.ev(s.value))

    def s_Break(self, s): raise BreakSig()
    def s_Continue(self, s): raise ContinueSig()

    def s_Assert(self, s):
        if not truth(self.ev(s.test)):
            raise Raised(AssertionError, "assert")

    def s_Raise(self, s):
        if s.exc is None:
            raise Raised(Exception, "re-raise")
        if isinstance(s.exc, ast.Call):
            e = self.ev(s.exc.func)
        else:
            e = self.ev(s.exc)
        raise Raised(e if isinstance(e, type) else type(e), "raised")

    def s_Import(self, s):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                import importlib
                m = importlib.import_module(a.name)
            self.f.store(a.asname or a.name.split(".")[0], m)

    def s_ImportFrom(self, s):
        import importlib
        m = importlib.import_module(s.module) if not s.level else importlib.import_module("." * s.level + (s.module or ""), self.f.glob.get("__package__"))
        for a in s.names:
            self.f.store(a.asname or a.name, getattr(m, a.name))

    def s_Global(self, s): raise Unsupported("global statement")

    def s_Nonlocal(self, s):
        for nm in s.names:
            e = self.f.outer
            while e is not None and not isinstance(e, dict) and nm not in e.loc:
                e = e.outer
            if e is None or isinstance(e, dict):
                raise Unsupported("nonlocal")
            self.f.nonloc[nm] = e.loc

    def s_FunctionDef(self, s):
        c = Closure(s, self.f, self.f.glob, [self.ev(d) for d in s.args.defaults],
                    {a.arg: self.ev(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, s.name)
        v = c
        for d in reversed(s.decorator_list):
            dec = self.ev(d)
            if isinstance(dec, functools.partial) and dec.func is functools.update_wrapper:
                continue
            if getattr(dec, "__name__", "") == "wraps":
                continue
            v = call(dec, [v], {})
        self.f.store(s.name, v)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.f.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                if isinstance(o, (dict, list)):
                    ctx().save(o)
                    native(operator.delitem, o, self.ev(t.slice))
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.f.lookup(t.id)
            new = self.aug(cur, type(s.op), self.ev(s.value))
            self.f.store(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            set_attr(o, t.attr, self.aug(get_attr(o, t.attr), type(s.op), self.ev(s.value)))
        else:
            o, i = self.ev(t.value), self.ev(t.slice)
            cur = get_item(o, i)
            v = self.ev(s.value)
            if isinstance(cur, Arr) and cur.base is not None:
                self.aug(cur, type(s.op), v)
            else:
                set_item(o, i, binop(type(s.op), cur, v))

    def aug(self, cur, op, v):
        if isinstance(cur, np.ndarray):
            cur2 = npm.to_arr(cur)
            raise Unsupported("in-place operation on a constant array")
        if isinstance(cur, Arr):
            new = binop(op, cur, v)
            if not isinstance(new, Arr) or new.ndim != cur.ndim:
                raise Raised(ValueError, "in-place shape")
            if promote(new.kind, cur.kind) != cur.kind:
                raise Raised(TypeError, "in-place casting")
            f = new.fn
            cur.overwrite(f)
            return cur
        if isinstance(cur, list) and op is ast.Add:
            ctx().save(cur)
            cur.extend(iterate(v))
            return cur
        return binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.f.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(iterate(v))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                parts = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x)
                return
            if len(vs) != len(t.elts):
                raise Raised(ValueError, "unpack")
            for e, x in zip(t.elts, vs):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            set_attr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            set_item(self.ev(t.value), self.ev(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def s_If(self, s):
        if truth(self.ev(s.test)):
            self.run(s.body)
        else:
            self.run(s.orelse)

    def s_While(self, s):
        if id(s) in INVS:
            from .loops import invariant_loop
            return invariant_loop(self, s, INVS[id(s)])
        n = 0
        while True:
            t = self.ev(s.test)
            c = S(to_b(t)) if is_expr(t) else t
            if is_expr(c):
                if not (ctx().valid(c) or ctx().valid(Not(c))):
                    raise Unsupported("while loop with a symbolic condition")
            if not truth(t):
                self.run(s.orelse)
                return
            try:
                self.run(s.body)
            except BreakSig:
                return
            except ContinueSig:
                pass
            n += 1
            if n > 200:
                raise Unsupported("while loop bound")

    def s_For(self, s):
        it = self.ev(s.iter)
        if id(s) in INVS:
            from .loops import invariant_loop
            return invariant_loop(self, s, INVS[id(s)], it)
        if symbolic_iter(it):
            from .loops import symbolic_for
            return symbolic_for(self, s, it)
        for x in iterate(it):
            self.assign(s.target, x)
            try:
                self.run(s.body)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.run(s.orelse)

    def s_With(self, s):
        for i in s.items:
            cm = self.ev(i.context_expr)
            if i.optional_vars is not None or not isinstance(cm, (np.errstate, warnings.catch_warnings)):
                raise Unsupported("with statement")
        self.run(s.body)

    def s_Try(self, s):
        try:
            try:
                self.run(s.body)
                self.run(s.orelse)
            except Raised as r:
                for h in s.handlers:
                    cls = self.ev(h.type) if h.type is not None else Exception
                    if isinstance(r.cls, type) and issubclass(r.cls, cls):
                        if h.name:
                            self.f.store(h.name, r)
                        self.run(h.body)
                        break
                else:
                    raise
        finally:
            if s.finalbody:
                self.run(s.finalbody)


def truth_val_(v):
    if isinstance(v, Arr):
        raise Unsupported("array condition in comprehension")
    if is_expr(v):
        return to_b(v)
    return bool(v)


PURE_CALLS = {"len", "np", "isinstance", "abs", "min", "max", "float", "int"}


def pure(nodes):
    """no assignment or unknown call inside: evaluating all operands is harmless"""
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(x, ast.Call):
                r = x.func
                while isinstance(r, ast.Attribute):
                    r = r.value
                if not (isinstance(r, ast.Name) and r.id in PURE_CALLS):
                    return False
            if isinstance(x, (ast.Subscript,)):
                pass
    return True


# ------------------------------------------------------------------------------------------ iteration
def symbolic_iter(it):
    if isinstance(it, SRange):
        return True
    if isinstance(it, SeqView):
        return is_expr(it.n)
    if isinstance(it, Arr):
        return is_expr(it.shape[0])
    if isinstance(it, popm.SPop):
        return is_expr(it.refs.shape[0])
    if isinstance(it, Zip):
        return any(symbolic_iter(x) for x in it.its)
    if isinstance(it, Enum):
        return symbolic_iter(it.it)
    if is_pymoo_obj(it) and hasattr(it, "sym_iter"):
        return True
    return False


class Zip:
    def __init__(self, its):
        self.its = its


class Enum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start


def iter_parts(it):
    """(length, element function of the 0-based position)"""
    if isinstance(it, SRange):
        lo = it.lo
        return length(it), (lambda k: S(add(lo, k)) if not (not is_expr(lo) and lo == 0) else k)
    if isinstance(it, SeqView):
        return it.n, it.fn
    if isinstance(it, Arr):
        return it.shape[0], (lambda k: npm.getitem(it, k))
    if isinstance(it, popm.SPop):
        return it.refs.shape[0], it.member
    if isinstance(it, Enum):
        n, at = iter_parts(it.it)
        return n, lambda k: (add(it.start, k), at(k))
    if isinstance(it, Zip):
        ps = [iter_parts(x) if symbolic_iter(x) else None for x in it.its]
        if any(p is None for p in ps):
            raise Unsupported("zip of symbolic and concrete")
        n = ps[0][0]
        for m, _ in ps[1:]:
            if not dim_eq(n, m):
                n = minv(n, m)
        return n, lambda k: tuple(at(k) for _, at in ps)
    if is_pymoo_obj(it) and hasattr(it, "sym_iter"):
        return it.sym_iter()
    if isinstance(it, (list, tuple)):
        return len(it), lambda k: it[k]
    raise Unsupported("iteration over %r" % type(it))


def iterate(it):
    if symbolic_iter(it):
        raise Unsupported("symbolic iteration")
    if isinstance(it, Zip):
        return list(zip(*[list(iterate(x)) for x in it.its]))
    if isinstance(it, Enum):
        return [(it.start + i, x) for i, x in enumerate(iterate(it.it))]
    if isinstance(it, SeqView):
        return [it.fn(i) for i in range(it.n)]
    if isinstance(it, Arr):
        return [npm.getitem(it, i) for i in range(it.shape[0])]
    if isinstance(it, popm.SPop):
        return [it.member(i) for i in range(it.refs.shape[0])]
    if is_expr(it) or isinstance(it, GV):
        raise Raised(TypeError, "not iterable")
    return list(it)


# ------------------------------------------------------------------------------------------ attributes, items
def arr_tolist(A):
    f = A.fn
    if A.ndim != 1:
        raise Unsupported("tolist of a matrix")
    if not is_expr(A.shape[0]):
        return [f((i,)) for i in range(A.shape[0])]
    return SeqView(A.shape[0], lambda k: f((k,)))


ARR_METHODS = {"tolist": arr_tolist, 
    "copy": lambda a: npm.copy(a), "sum": npm.sum_, "min": npm.min_, "max": npm.max_, "any": npm.any_, "all": npm.all_, "mean": npm.mean_,
    "argmin": npm.argmin_, "argmax": npm.argmax_, "argsort": npm.argsort_, "reshape": npm.reshape,
    "flatten": lambda a, *x: npm.reshape(npm.copy(a), (-1,)), "ravel": lambda a: npm.reshape(a, (-1,)),
    "astype": lambda a, d, **k: npm.copy(npm.asarray(a, npm.dtype_kind(d))), "dot": npm.matmul,
    "swapaxes": lambda a, i, j: npm.transpose_view(a, npm._swap(a.ndim, i, j)), "transpose": lambda a, *ax: npm.transpose_view(a, (ax[0] if len(ax) == 1 and isinstance(ax[0], tuple) else ax) or None),
    "round": npm.round_, "repeat": npm.repeat, "squeeze": npm.squeeze, "nonzero": lambda a: npm.where(a), "clip": npm.clip,
    "item": lambda a: a.fn(tuple(0 for _ in a.shape)), "prod": npm.prod_, "cumsum": lambda a, *x, **k: npm.MODELS[np.cumsum](a, *x, **k),
    "std": lambda a, *x, **k: npm.MODELS[np.std](a, *x, **k), "var": lambda a, *x, **k: npm.MODELS[np.var](a, *x, **k),
}


def arr_sort(a, axis=-1):
    f = npm.sort_(a, axis).fn
    a.overwrite(f)


def arr_fill(a, v):
    a.overwrite(lambda ix: v)


ARR_METHODS["sort"] = arr_sort
ARR_METHODS["fill"] = arr_fill
DT = {"f": np.dtype(float), "i": np.dtype(int), "b": np.dtype(bool), "o": np.dtype(object)}


class NatM:
    """method of a symbolic value implemented by a model"""

    def __init__(self, f, obj):
        self.f, self.obj = f, obj


def mro_find(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c, c.__dict__[name]
    return None, None


def get_attr(o, name):
    if isinstance(o, Arr):
        if name == "shape":
            return o.shape
        if name == "ndim":
            return o.ndim
        if name == "size":
            return o.size
        if name == "T":
            return npm.transpose_view(o)
        if name == "dtype":
            return DT[o.kind]
        if name in ARR_METHODS:
            return NatM(ARR_METHODS[name], o)
        raise Unsupported("array attribute %s" % name)
    if isinstance(o, popm.SPop):
        return popm.pop_attr(o, name)
    if isinstance(o, popm.SInd):
        return popm.ind_attr(o, name)
    if isinstance(o, popm.SSetV):
        if name == "update":
            return NatM(popm.ev_update, o)
        raise Unsupported("evaluated.%s" % name)
    if isinstance(o, Rng):
        if name in RNG_METHODS:
            return getattr(o, name)
        raise Unsupported("generator method %s" % name)
    if isinstance(o, SuperP):
        made = isinstance(o.obj, type)
        mro = o.obj.__mro__ if made else (o.obj.cls if isinstance(o.obj, popm.SSub) else type(o.obj)).__mro__
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if c is object and name == "__init__":
                return NatM(lambda self, *a, **k: None, o.obj)
            if name in c.__dict__ and c is list:
                ctx().save(o.obj)
                if name == "__init__":
                    return NatM(lambda self, *a, **k: list.__init__(self, *a, **k), o.obj)
                return NatM(lambda self, *a, **k: container_method(name, self, *a, cls=list, **k), o.obj)
            if name in c.__dict__:
                return c.__dict__[name].__func__ if made and name == "__new__" else bind(c.__dict__[name], o.obj, c)
        raise Raised(AttributeError, name)
    if isinstance(o, (SeqView,)):
        if name == "append":
            return NatM(lambda o, x: o.grow([x]), o)
        if name == "extend":
            return NatM(lambda o, x: o.grow(x), o)
        raise Unsupported("attribute of a symbolic sequence")
    if is_expr(o) or isinstance(o, GV):
        if name in ("copy", "astype", "item"):
            return NatM(lambda v, *a: v, o)
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name in ("min", "max", "sum", "any", "all"):
            return NatM(lambda v, *a, **k: v, o)
        raise Raised(AttributeError, name)
    if isinstance(o, (list, dict, set, tuple, str)) and not is_pymoo_obj(o):
        if hasattr(o, name):
            return NatM(functools.partial(container_method, name), o)
        raise Raised(AttributeError, name)
    if is_pymoo_obj(o):
        c, d = mro_find(type(o), name)
        if isinstance(d, property):
            return call(bindfn(d.fget, o, c), [], {})
        if name in o.__dict__:
            return o.__dict__[name]
        if name in ("__class__", "__dict__"):
            return object.__getattribute__(o, name)
        if c is not None:
            return bind(d, o, c)
        c, d = mro_find(type(o), "__getattr__")
        if c is not None and c is not object:
            return call(bindfn(d, o, c), [name], {})
        raise Raised(AttributeError, name)
    try:
        return getattr(o, name)
    except AttributeError as e:
        raise Raised(AttributeError, str(e))


def bindfn(f, o, c):
    b = BoundM(f, o)
    b.cls = c
    return b


def bind(d, o, c):
    if isinstance(d, staticmethod):
        return d.__func__
    if isinstance(d, classmethod):
        return bindfn(d.__func__, type(o), c)
    if isinstance(d, types.FunctionType):
        return bindfn(d, o, c)
    if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)) and isinstance(o, list) and c is list:
        if d.__name__ in ("__len__", "__iter__"):
            return NatM(lambda self, *a: d(self, *a), o)
        return NatM(lambda self, *a, **k: container_method(d.__name__, self, *a, cls=list, **k), o)
    return d


def set_attr(o, name, v):
    if isinstance(o, popm.SInd):
        if name == "evaluated":
            raise Unsupported("replacing the evaluated values")
        popm.ind_set(o, name, v)
        return
    if isinstance(o, popm.SSub):
        if ctx().loops or ctx().share:
            raise Unsupported("attribute set in a symbolic loop")
        o.attrs[name] = v
        return
    if isinstance(o, (Arr, popm.SPop)):
        raise Unsupported("setting an array attribute")
    if is_pymoo_obj(o):
        c, d = mro_find(type(o), name)
        if isinstance(d, property):
            if d.fset is None:
                raise Raised(AttributeError, name)
            call(bindfn(d.fset, o, c), [v], {})
            return
        c, d = mro_find(type(o), "__setattr__")
        if c is not object and c is not None:
            call(bindfn(d, o, c), [name, v], {})
            return
        if name in ("__class__", "__dict__"):
            if ctx().share:
                raise Unsupported("%s assigned in a symbolic loop" % name)
            object.__setattr__(o, name, v)
            return
        ctx().save(o.__dict__)
        o.__dict__[name] = v
        return
    if isinstance(o, (Closure, types.FunctionType)):
        return
    raise Unsupported("setting an attribute of %r" % type(o))


def container_method(name, o, *a, cls=None, **k):
    if name in ("append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "popitem"):
        ctx().save(o)
        if name == "extend" and len(a) == 1:
            if isinstance(a[0], (SeqView, Arr)) and is_expr(length(a[0])):
                if ctx().loops or ctx().share or not isinstance(o, list):
                    raise Unsupported("extending by a symbolic sequence")
                from .loops import rebind
                q = SeqView(len(o), seq_fn(list(o)))
                rebind(ctx(), o, q, None)
                q.grow(a[0])
                return None
            a = [iterate(a[0])]
        if name in ("sort", "remove") and has_sym(o):
            raise Unsupported("list.%s on symbolic values" % name)
    if name in ("index", "count", "join", "format"):
        if name in ("join", "format"):
            return "<formatted>"
        if has_sym(o) or has_sym(a):
            raise Unsupported("list." + name)
    try:
        return getattr(o, name)(*a, **k) if cls is None else getattr(cls, name)(o, *a, **k)
    except (KeyError, IndexError, ValueError, TypeError) as e:
        raise Raised(type(e), str(e))


def get_item(o, i):
    if isinstance(o, popm.SPop):
        return popm.pop_item(o, i)
    if isinstance(o, Arr):
        return mark_np(npm.getitem(o, i))
    if isinstance(o, np.ndarray) and not is_pymoo_obj(o):
        if has_sym(i):
            return npm.getitem(npm.to_arr(o), i)
        return native(operator.getitem, o, i)
    if isinstance(o, SeqView):
        if isinstance(i, slice):
            st, ln, step = npm.slice_norm(i, o.n)
            return SeqView(ln, lambda k: o.fn(add(st, mul(step, k))))
        return o.fn(S(npm.norm_index(i, o.n)))
    if isinstance(o, (list, tuple)):
        if isinstance(i, slice) or not is_sym(i):
            if isinstance(i, (Arr, list)):
                raise Raised(TypeError, "list indices")
            return native(operator.getitem, o, i)
        if not o:
            raise Raised(IndexError, "empty")
        out = o[-1]
        for k in range(len(o) - 2, -1, -1):
            out = ite(eq(i, k), o[k], out)
        return out
    if isinstance(o, dict):
        if has_sym(i):
            raise Unsupported("symbolic key")
        if i not in o:
            raise Raised(KeyError, i)
        return o[i]
    if is_pymoo_obj(o):
        return call_method(o, "__getitem__", [i])
    if isinstance(o, str) and not has_sym(i):
        return o[i]
    if isinstance(o, type):
        return o
    raise Unsupported("indexing %r" % type(o))


def set_item(o, i, v):
    if isinstance(o, popm.SPop):
        popm.pop_setitem(o, i, v)
        return
    if isinstance(o, Arr):
        npm.setitem(o, i, v)
        return
    if isinstance(o, np.ndarray):
        raise Unsupported("writing a constant array")
    if isinstance(o, (list, dict)):
        if has_sym(i):
            raise Unsupported("symbolic position in a list")
        ctx().save(o)
        native(operator.setitem, o, i, v)
        return
    if is_pymoo_obj(o):
        call_method(o, "__setitem__", [i, v])
        return
    raise Unsupported("item assignment to %r" % type(o))


def call_method(o, name, args, kw=None):
    c, d = mro_find(type(o), name)
    if d is None:
        raise Unsupported("%s has no %s" % (type(o).__name__, name))
    return call(bind(d, o, c), args, kw or {})


# ------------------------------------------------------------------------------------------ calls
def bind_args(a, args, kw, defaults, kwdefaults, name):
    loc = {}
    pos = [x.arg for x in a.posonlyargs + a.args]
    kw = dict(kw)
    if len(args) > len(pos) and a.vararg is None:
        raise Raised(TypeError, "%s: too many arguments" % name)
    for p, v in zip(pos, args):
        loc[p] = v
    if a.vararg is not None:
        loc[a.vararg.arg] = tuple(args[len(pos):])
    for i, p in enumerate(pos):
        if p in kw:
            if p in loc:
                raise Raised(TypeError, "%s: multiple values for %s" % (name, p))
            loc[p] = kw.pop(p)
        elif p not in loc:
            j = i - (len(pos) - len(defaults))
            if j < 0:
                raise Raised(TypeError, "%s: missing %s" % (name, p))
            loc[p] = defaults[j]
    for x in a.kwonlyargs:
        if x.arg in kw:
            loc[x.arg] = kw.pop(x.arg)
        elif x.arg in kwdefaults:
            loc[x.arg] = kwdefaults[x.arg]
        else:
            raise Raised(TypeError, "%s: missing %s" % (name, x.arg))
    if a.kwarg is not None:
        loc[a.kwarg.arg] = kw
    elif kw:
        raise Raised(TypeError, "%s: unexpected %s" % (name, list(kw)))
    return loc


INVS = {}           # loops with an invariant of their own: id of the statement -> Invariant


def loops_of(f):
    """the loops of a function in the order of the source"""
    while hasattr(f, "__wrapped__"):
        f = f.__wrapped__
    return sorted((x for x in ast.walk(fn_ast(f)) if isinstance(x, (ast.For, ast.While))), key=lambda x: (x.lineno, x.col_offset))


_depth = [0]
FUNCS = set()       # every function of pymoo interpreted so far


def interp_function(f, args, kw, cls=None):
    node = fn_ast(f)
    FUNCS.add("%s.%s" % (f.__module__, f.__qualname__))
    outer = {}
    if f.__closure__:
        for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
            try:
                outer[nm] = cell.cell_contents
            except ValueError:
                pass
    loc = bind_args(node.args, args, kw, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), f.__name__)
    fr = Frame(f.__globals__, loc, outer, cls if cls is not None else outer.get("__class__"), f.__qualname__)
    pos = node.args.posonlyargs + node.args.args
    if pos:
        fr.selfname = pos[0].arg
    if "__class__" in outer:
        fr.cls = outer["__class__"]
    return run_body(node, fr)


def run_body(node, fr):
    _depth[0] += 1
    if _depth[0] > 60:
        _depth[0] -= 1
        raise Unsupported("recursion depth")
    STACK.append(fr)
    try:
        if isinstance(node, ast.Lambda):
            return Ev(fr).ev(node.body)
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                raise Unsupported("generator function")
        try:
            Ev(fr).run(node.body)
        except ReturnSig as r:
            return r.v
        return None
    finally:
        STACK.pop()
        _depth[0] -= 1


def pymoo_function(f):
    return isinstance(f, types.FunctionType) and (f.__module__ or "").startswith(("pymoo", "proofs."))


def contract_function(f):
    """a stand-in defined by a proof contract"""
    return isinstance(f, types.FunctionType) and (f.__module__ or "").startswith("proofs.") and "super" not in f.__code__.co_names and not hasattr(f, "vp_code")


def call(f, args, kw):
    if isinstance(f, NatM):
        try:
            return mark_np(f.f(f.obj, *args, **kw)) if isinstance(f.obj, Arr) else f.f(f.obj, *args, **kw)
        except TypeError as e:
            if "positional argument" in str(e) or "keyword argument" in str(e):
                raise Unsupported(str(e))
            raise
    if isinstance(f, BoundM):
        g = f.f
        if isinstance(g, Closure):
            return call(g, [f.obj] + list(args), kw)
        h = SUMMARY.get(g)
        if h is not None:
            return h([f.obj] + list(args), kw)
        h = popm.table()[0].get(g)
        if h is not None:
            return h(f.obj, *args, **kw)
        if contract_function(g):
            return g(f.obj, *args, **kw)
        if pymoo_function(g):
            return interp_function(g, [f.obj] + list(args), kw, getattr(f, "cls", None))
        if g is object.__init__:
            return None
        if not has_sym(args) and not has_sym(kw):
            return native(functools.partial(g, f.obj, **kw), *args)
        raise Unsupported("method %r" % (g,))
    if isinstance(f, Closure):
        loc = bind_args(f.node.args, args, kw, f.defaults, f.kwdefaults, f.__name__)
        fr = Frame(f.glob, loc, f.env, f.env.cls, f.__name__)
        if hasattr(f.env, "selfname") and f.env.selfname in f.env.loc:
            fr.selfname = f.env.selfname
        return run_body(f.node, fr)
    if isinstance(f, types.MethodType):
        if isinstance(f.__self__, Rng):
            return f(*args, **kw)
        return call(bindfn(f.__func__, f.__self__, None), args, kw)
    try:
        h = SUMMARY.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(list(args), kw)
    if getattr(f, "__name__", "") == "load_function" and getattr(f, "__module__", "") == "pymoo.functions":
        # the interpreted implementation (the compiled one is compared with it by the run-time contracts)
        name = args[0] if args else kw.get("func_name")
        return sys.modules["pymoo.functions"].get_functions()[name]["python"]
    try:
        h = popm.table()[0].get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    try:
        h = popm.table()[3].get(f)
    except TypeError:
        h = None
    if h is not None and args and isinstance(args[0], (popm.SPop, popm.SInd)):
        return h(args[0])
    if f is _copy.deepcopy and len(args) == 1:
        return b_deepcopy(args[0])
    if isinstance(f, functools.partial):
        return call(f.func, list(f.args) + list(args), {**f.keywords, **kw})
    if contract_function(f):
        return f(*args, **kw)
    if f is np.random.default_rng:
        # whatever it draws
        ctx().hidden = True
        return Rng()
    if pymoo_function(f):
        return interp_function(f, list(args), kw)
    b = BUILTINS.get(f) if isinstance(f, (type, types.BuiltinFunctionType)) else None
    if b is not None:
        return b(*args, **kw)
    try:
        m = npm.MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        if not has_sym(args) and not has_sym(kw):
            with np.errstate(all="ignore"):
                r = native(functools.partial(f, **kw), *args)
            return npm.to_arr(r) if isinstance(r, np.ndarray) else r
        try:
            return mark_np(m(*args, **kw))
        except TypeError as e:
            if "positional argument" in str(e) or "keyword argument" in str(e):
                raise Unsupported("%s: %s" % (getattr(f, "__name__", f), e))
            raise
    if isinstance(f, type):
        if issubclass(f, popm.table()[1]) and f is not popm.table()[1]:
            return call(f.__new__, [f] + list(args), kw)
        if f.__module__.startswith(("pymoo", "proofs")) and not issubclass(f, (BaseException, np.ndarray, dict)) and not (issubclass(f, list) and ctx().share):
            o = f.__new__(f)
            c, init = mro_find(f, "__init__")
            if init is not None and init is not object.__init__:
                call(bindfn(init, o, c), args, kw)
            return o
        if issubclass(f, BaseException):
            return f
    if is_pymoo_obj(f):
        c, d = mro_find(type(f), "__call__")
        if d is not None:
            return call(bind(d, f, c), args, kw)
    if getattr(f, "__module__", None) == "numpy.random" or "numpy.random" in str(getattr(f, "__self__", "")) or "RandomState" in repr(f)[:80]:
        raise Unsupported("draws from the global or an unseeded generator: %r" % (f,))
    if not has_sym(args) and not has_sym(kw):
        try:
            return f(*args, **kw)
        except Exception as e:
            raise Raised(type(e), str(e))
    raise Unsupported("call of %s" % (getattr(f, "__qualname__", None) or getattr(f, "__name__", None) or f))


def b_len(x): return length(x)


def b_range(*a):
    a = [pyconst(x) for x in a]
    if not any(is_expr(x) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if st != 1:
        raise Unsupported("range step")
    return SRange(lo, hi)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if isinstance(x, Arr):
            if c in (np.ndarray, object):
                return True
        elif isinstance(x, popm.SPop):
            if c in (np.ndarray, object, popm.table()[1]) or isinstance(x, popm.SSub) and isinstance(c, type) and issubclass(x.cls, c):
                return True
        elif isinstance(x, popm.SInd):
            if c in (object, popm.table()[2]):
                return True
        elif isinstance(x, SeqView):
            if c in (list, object):
                return True
        elif is_expr(x):
            if z3.is_bool(x):
                if c in (bool, int):
                    return True
            elif x.sort() == IntSort():
                if c in (int,):
                    return True
            elif c in (float,):
                return True
        elif isinstance(x, GV):
            if c is float:
                return True
        elif isinstance(x, Rng):
            if c is np.random.Generator:
                return True
        elif isinstance(x, (Closure, BoundM)):
            if c in (types.FunctionType,):
                return True
        elif isinstance(x, c):
            return True
    return False


def b_abs(x): return npm.np_abs(x)


def b_minmax(which):
    def f(*a, **k):
        if k and set(k) - {"default"}:
            if has_sym(a):
                raise Unsupported("min/max with key")
            return (min if which == "min" else max)(*a, **k)
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (Arr, SeqView)) and is_expr(length(x)):
                return (npm.min_ if which == "min" else npm.max_)(npm.to_arr(x))
            a = iterate(x)
            if not a:
                if "default" in k:
                    return k["default"]
                raise Raised(ValueError, "empty")
        if not has_sym(a):
            return native(min if which == "min" else max, list(a))
        r = a[0]
        for x in a[1:]:
            # Python's min keeps the first of equals; values only
            r = ite(lt(x, r), x, r) if which == "min" else ite(lt(r, x), x, r)
        return r
    return f


def b_sum(x, start=0):
    if isinstance(x, (Arr, SeqView)) and is_expr(length(x)):
        return add(start, npm.sum_(npm.to_arr(x)))
    r = start
    for y in iterate(x):
        r = binop(ast.Add, r, y)
    return r


def b_anyall(which):
    def f(x):
        if isinstance(x, (Arr, SeqView)) and is_expr(length(x)):
            return (npm.any_ if which == "any" else npm.all_)(npm.to_arr(x))
        vs = [truth_val_(v) if not isinstance(v, Arr) else v for v in iterate(x)]
        return (Or_ if which == "any" else And_)(*vs) if vs else (which == "all")
    return f


def b_float(x=0.0):
    if isinstance(x, Arr):
        x = x.fn(tuple(0 for _ in x.shape))
    return cast(x, "f") if is_sym(x) else native(float, x)


def b_int(x=0, *a):
    if isinstance(x, Arr):
        x = x.fn(tuple(0 for _ in x.shape))
    return cast(x, "i") if is_sym(x) else native(int, x, *a)


def b_bool(x=False):
    if is_expr(x):
        return to_b(x)
    return truth(x)


def b_list(x=()):
    if isinstance(x, SeqView):
        return SeqView(x.n, x.fn) if is_expr(x.n) else iterate(x)
    if symbolic_iter(x):
        n, at = iter_parts(x)
        return SeqView(n, at)
    return list(iterate(x))


def b_tuple(x=()):
    return tuple(iterate(x))


def b_sorted(x, **k):
    if has_sym(x):
        raise Unsupported("sorted of symbolic values")
    return sorted(x, **k)


def b_set(x=()):
    if isinstance(x, (SeqView, Arr)) and is_expr(length(x)):
        return SSet(x)
    v = iterate(x)
    if has_sym(v):
        raise Unsupported("set of symbolic values")
    return set(v)


def b_hasattr(o, name):
    try:
        get_attr(o, name)
        return True
    except Raised:
        return False


def b_getattr(o, name, *d):
    try:
        return get_attr(o, name)
    except Raised:
        if d:
            return d[0]
        raise


def b_type(x, *a):
    if a:
        t = type(x, *a)
        t.__module__ = a[0][0].__module__
        return t
    if isinstance(x, Arr):
        return np.ndarray
    if isinstance(x, popm.SPop):
        return x.cls if isinstance(x, popm.SSub) else popm.table()[1]
    if isinstance(x, popm.SInd):
        return popm.table()[2]
    if is_expr(x):
        return bool if z3.is_bool(x) else (int if x.sort() == IntSort() else float)
    return type(x)


def b_round(x, nd=None):
    if not has_sym(x):
        return round(x) if nd is None else round(x, nd)
    if nd is not None:
        raise Unsupported("round to digits")
    return cast(npm.round_(x), "i")


def b_super(cls, obj):
    return SuperP(cls, obj)


def b_map(f, *its):
    if len(its) == 1 and symbolic_iter(its[0]):
        raise Unsupported("map over a symbolic sequence")
    return [call(f, list(x), {}) for x in zip(*[iterate(i) for i in its])]


BUILTINS = {len: b_len, range: b_range, isinstance: b_isinstance, abs: b_abs, min: b_minmax("min"), max: b_minmax("max"), sum: b_sum,
            any: b_anyall("any"), all: b_anyall("all"), float: b_float, int: b_int, bool: b_bool, list: b_list, tuple: b_tuple,
            sorted: b_sorted, set: b_set, hasattr: b_hasattr, getattr: b_getattr, setattr: set_attr, type: b_type, round: b_round,
            zip: lambda *a, **k: Zip(a), enumerate: lambda it, start=0: Enum(it, start), super: b_super, print: lambda *a, **k: None,
            map: b_map, callable: lambda f: isinstance(f, (Closure, BoundM)) or callable(f), str: lambda x="": "<formatted>" if has_sym(x) else str(x),
            dict: lambda *a, **k: dict(*[x if isinstance(x, dict) else iterate(x) for x in a], **k),
            slice: slice, object: object, reversed: lambda x: list(reversed(iterate(x))), pow: lambda a, b: binop(ast.Pow, a, b)}


def b_deepcopy(x, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        if id(x) in memo:
            return memo[id(x)][1]
        if isinstance(x, Arr):
            r = x.snapshot()
        elif isinstance(x, (popm.SPop, popm.SInd)):
            r = popm.deepcopy(x)
        elif is_expr(x) or isinstance(x, GV) or x is None or isinstance(x, (int, float, str, bool, type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType, Closure)):
            return x
        elif isinstance(x, Rng) or isinstance(x, (SeqView, SSet)):
            raise Unsupported("deepcopy of %r" % type(x))
        elif type(x) in (list, set, tuple):
            if type(x) is list:
                r = []
                memo[id(x)] = (x, r)
                r.extend(go(y) for y in x)
                return r
            r = type(x)(go(y) for y in x)
        elif type(x) is dict:
            r = {}
            memo[id(x)] = (x, r)
            r.update((go(k), go(v)) for k, v in x.items())
            return r
        elif is_pymoo_obj(x) and not isinstance(x, (list, dict)):
            for nm in ("__deepcopy__", "__reduce__", "__getstate__", "__setstate__"):
                c, d = mro_find(type(x), nm)
                if c is not None and c is not object:
                    if not has_sym(x):
                        return native(_copy.deepcopy, x)
                    raise Unsupported("deepcopy with %s" % nm)
            r = object.__new__(type(x))
            memo[id(x)] = (x, r)
            for k, v in x.__dict__.items():
                r.__dict__[k] = go(v)
            return r
        elif not has_sym(x):
            r = native(_copy.deepcopy, x)
        else:
            raise Unsupported("deepcopy of %r" % type(x))
        memo[id(x)] = (x, r)
        return r
    return go(x)


# ------------------------------------------------------------------------------------------ context extensions
class SubPath:
    def __init__(self):
        self.branch, self.facts, self.out, self.exc, self.writes, self.state = [], [], None, None, [], None

    def cond(self):
        return And_(*self.branch) if self.branch else True


def _loop_const(self):
    self.nloop = getattr(self, "nloop", 0) + 1
    return Int("$L%d" % self.nloop)


def _push_scope(self, k, lo, n):
    base = len(self.pc)
    self.loops.append(k)
    rng = And(k >= to_z(lo), k < to_z(n))
    self.pc.append(rng)
    return base


def close_over(k, rng, f):
    """for all k (in range): f, as one flat quantifier triggered by the symbol the fact defines"""
    vs, hyp, pats = [k], [] if rng is None else [rng], []
    while True:
        if z3.is_quantifier(f) and f.is_forall():
            cs = [z3.Const(f.var_name(i), f.var_sort(i)) for i in range(f.num_vars())]
            if any(c.eq(v) for c in cs for v in vs) or any(_occ(h, c) for c in cs for h in hyp):
                _pop_scope.n = getattr(_pop_scope, "n", 0) + 1
                cs = [z3.Const("%s_%d" % (f.var_name(i), _pop_scope.n), f.var_sort(i)) for i in range(f.num_vars())]
            pats = [[z3.substitute_vars(t, *reversed(cs)) for t in f.pattern(i).children()] for i in range(f.num_patterns())]
            f = z3.substitute_vars(f.body(), *reversed(cs))
            vs += cs
        elif z3.is_implies(f) and not pats:
            hyp.append(f.arg(0))
            f = f.arg(1)
        else:
            break
    body = z3.Implies(And(*hyp), f) if hyp else f
    ps = []
    for terms in pats:
        if all(any(_occ(t, v) for t in terms) for v in vs):
            ps.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
    if not ps:
        t = defined_term(f, vs)
        if t is not None:
            ps = [t]
    return ForAll(vs, body, patterns=ps) if ps else ForAll(vs, body)


def defined_term(f, vs):
    """an application of a generated symbol with exactly the quantified variables among its arguments"""
    st, seen, best = [f], set(), None
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            nm = x.decl().name()
            if "!" in nm and x.num_args() and all(any(c.eq(v) for c in x.children()) for v in vs):
                n = int(nm.split("!")[1])
                if best is None or n > best[0]:
                    best = (n, x)
            st.extend(x.children())
    return best[1] if best else None


def _pop_scope(self, k, lo, n, base):
    """leave the scope of a generic iteration; facts found inside hold for every iteration in range"""
    self.loops.pop()
    facts = self.pc[base + 1:]
    del self.pc[base:]
    rng = And(k >= to_z(lo), k < to_z(n))
    for f in facts:
        isax = f.get_id() in self.ax
        if _occ(f, k):
            f = close_over(k, None if isax else rng, f)
        elif not isax:
            f = z3.Implies(to_z(n) > to_z(lo), f)
        if isax:
            self.ax[f.get_id()] = f
        self.pc.append(f)
    return facts


def _save(self, o):
    """undo record for a mutable container"""
    tr = getattr(self, "trail", None)
    if tr is not None:
        if isinstance(o, list):
            v = list(o)
            tr.append(lambda: o.__setitem__(slice(None), v))
        elif isinstance(o, dict):
            v = dict(o)
            tr.append(lambda: (o.clear(), o.update(v)))
        elif isinstance(o, set):
            v = set(o)
            tr.append(lambda: (o.clear(), o.update(v)))
        self.mut.append(o)


def _subexplore(self, body, max_paths=64, keep=None):
    """all paths of body from the current state; mutable state is restored after each"""
    odec, opos = self.dec, self.pos
    otrail, omut = getattr(self, "trail", None), getattr(self, "mut", None)
    outer_branch = getattr(self, "branch", None)
    stack, res = [[]], []
    if self.share:
        # inside another path: the same symbols whenever that path is taken again
        t = self.share[-1]
        key = ("sub", sym._SITE[0], tuple(d[0] for d in self.dec[:self.pos]))
        i = t.count[key] = t.count.get(key, 0) + 1
        shared = t.num.setdefault(key + (i,), sym.Shared())
    else:
        shared = sym.Shared()
    while stack:
        dec = stack.pop()
        self.dec, self.pos = list(dec), 0
        shared.count = {}
        self.share.append(shared)
        self.trail, self.mut, self.branch = [], [], []
        sym._WLOG.append([])
        base = len(self.pc)
        p = SubPath()
        try:
            try:
                p.out = body()
            except (ReturnSig, BreakSig, ContinueSig, Raised) as e:
                p.exc = e
            p.branch = list(self.branch)
            p.writes = list(sym._WLOG[-1])
            if keep is not None:
                self.branch = None
                p.state = keep(p)
            dead = False
        except PathEnd:
            dead = True
        finally:
            sym._WLOG.pop()
            self.share.pop()
        for u in reversed(self.trail):
            u()
        new = self.pc[base:]
        del self.pc[base:]
        nb = list(p.branch)
        p.facts = [f for f in new if not any(f is b for b in nb)]
        used = self.dec
        for i in range(len(used) - 1, len(dec) - 1, -1):
            ch, alts = used[i]
            for a in alts:
                if a > ch:
                    stack.append(used[:i] + [[a, alts]])
        if not dead:
            # definitional facts of the path survive, guarded by its branch conditions
            g = And_(*nb) if nb else True
            for f in p.facts:
                free = self.free.pop(f.get_id(), None) is not None
                f2 = f if (g is True or free or f.get_id() in self.ax) else z3.Implies(to_b(g), f)
                self.pc.append(f2)
            res.append(p)
        if len(res) > max_paths:
            raise Unsupported("too many paths in a loop body")
    self.dec, self.pos = odec, opos
    self.trail, self.mut, self.branch = otrail, omut, outer_branch
    return res


def sys_exc():
    import sys
    return sys.exc_info()[0]


def _choose(self, conds):
    if self.pos < len(self.dec):
        k = self.dec[self.pos][0]
    else:
        alts = [i for i, c in enumerate(conds) if self.check(c) != unsat]
        if not alts:
            raise PathEnd()
        self.dec.append([alts[0], alts])
        k = alts[0]
    self.pos += 1
    c = conds[k]
    self.pc.append(c)
    b = getattr(self, "branch", None)
    if b is not None:
        b.append(c)
    return k


def _inforced(self, v):
    return False


def _valid_closed(self, f, k, lo, n):
    return self.valid(ForAll([k], z3.Implies(And(k >= to_z(lo), k < to_z(n)), to_b(f))))


from .sym import _occurs as _occ
Ctx.loop_const, Ctx.push_scope, Ctx.pop_scope, Ctx.save, Ctx.subexplore, Ctx.choose = _loop_const, _push_scope, _pop_scope, _save, _subexplore, _choose
Ctx.inforced, Ctx.valid_closed = _inforced, _valid_closed
from . import popm  # noqa: E402
