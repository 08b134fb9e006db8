"""Proof contracts: registration, the verifier view V of a contract, discharge, replay, reporting."""
import importlib, json, os, random, sys, time, traceback, math, signal
from multiprocessing import get_context
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOFS = {}


class P:
    def __init__(self, pid, name, fn, targets, dims, native, smoke):
        self.pid, self.name, self.fn, self.targets, self.dims, self.native, self.smoke = pid, name, fn, targets, dims, native, smoke


def code(f):
    """a stand-in which is run like the code it stands in for"""
    f.vp_code = True
    return f


def proof(pid, targets, native=True, dims=None):
    if isinstance(targets, str):
        targets = [targets]

    def deco(fn):
        PROOFS.setdefault(pid, []).append(P(pid, fn.__name__, fn, targets, dims, native, None))
        return fn
    return deco


def load(pid):
    p = os.path.join(HERE, "proofs", pid.lower() + ".py")
    if pid not in PROOFS and os.path.exists(p):
        importlib.import_module("proofs." + pid.lower())
    return PROOFS.get(pid, [])


def registered(pid):
    return bool(load(pid))


def summary(pid):
    t = []
    for p in load(pid):
        for x in p.targets:
            if x not in t:
                t.append(x)
    return "%d contracts on %s" % (len(load(pid)), ", ".join(t))


class Skip(Exception):
    """the drawn state does not satisfy the precondition"""


class NativeBreach(Exception):
    def __init__(self, label, detail=None):
        self.label, self.detail = label, detail
        super().__init__(label)


# ------------------------------------------------------------------------------------------ symbolic view
class V:
    """what a contract sees: inputs, calls of the code under contract, obligations"""
    native = False

    def __init__(self, c, fixed=None):
        from . import sym, npm, interp
        self.c, self.sym, self.npm, self.I = c, sym, npm, interp
        self.fixed = fixed or {}
        self.frozen = []
        self.inputs = {}

    # inputs
    def dim(self, name, lo=1, hi=None):
        z = self.sym.z3
        if name in self.fixed:
            self.inputs[name] = ("dim", self.fixed[name])
            if self.fixed[name] < lo or (hi is not None and self.fixed[name] > hi):
                raise self.sym.PathEnd()
            return self.fixed[name]
        n = z.Int(name)
        self.c.assume(n >= lo)
        if hi is not None:
            self.c.assume(n <= hi)
        self.inputs[name] = ("dim", n)
        return n

    def _var(self, name, kind):
        z = self.sym.z3
        return {"f": z.Real, "i": z.Int, "b": z.Bool}[kind](name)

    def scalar(self, name, kind="f", lo=None, hi=None, where=None):
        x = self._var(name, kind)
        if lo is not None:
            self.c.assume(x >= self.sym.to_z(lo, kind == "f"))
        if hi is not None:
            self.c.assume(x <= self.sym.to_z(hi, kind == "f"))
        if where is not None:
            self.requires(where(x))
        self.inputs[name] = ("scalar", x)
        return x

    def array(self, name, shape, kind="f", where=None, may_be_nan=False):
        z, s = self.sym.z3, self.sym
        srt = {"f": z.RealSort(), "i": z.IntSort(), "b": z.BoolSort()}[kind]
        if len(shape) == 0:
            return self.scalar(name, kind)
        f = z.Function(name, *([z.IntSort()] * len(shape)), srt)
        if may_be_nan:
            g = z.Function(name + "_nan", *([z.IntSort()] * len(shape)), z.BoolSort())

            def fn(ix):
                t = [s.to_z(s.flatz(i)) for i in ix]
                return s.mk_gv([(z.Not(g(*t)), f(*t)), (g(*t), s.NAN)])
            A = s.Arr(shape, kind, fn)
            self.inputs[name] = ("array", A.shape, kind, f, g)
        else:
            A = s.Arr(shape, kind, lambda ix: f(*[s.to_z(s.flatz(i)) for i in ix]))
            self.inputs[name] = ("array", A.shape, kind, f, None)
        A.name = name
        if where is not None:
            self.assume_each(shape, lambda *ix: where(A.fn(tuple(ix))) if len(ix) else True)
        self.frozen.append((name, A, A.fn))
        return A

    def flag(self, name):
        """both truth values, as separate cases"""
        b = self.sym.z3.Bool(name)
        r = self.c.decide(b)
        self.inputs[name] = ("flag", r)
        return r

    def pick(self, name, *opts):
        z = self.sym.z3.Int("pick_" + name)
        k = self.c.choose([z == i for i in range(len(opts))])
        self.inputs[name] = ("pick", k)
        return opts[k]

    def bounds(self, m, strict=False, names=("xl", "xu"), kind="f"):
        """lower and upper bounds of m variables"""
        lo, up = self.array(names[0], (m,), kind), self.array(names[1], (m,), kind)
        self.assume_each((m,), lambda j: self.lt(self.at(lo, j), self.at(up, j)) if strict else self.le(self.at(lo, j), self.at(up, j)))
        return lo, up

    def permutations(self, name, shape):
        """an array whose rows are permutations of 0, 1, ..., n-1"""
        z = self.sym.z3
        A = self.array(name, shape, "i")
        f, n, nd = self.inputs[name][3], self.sym.to_z(shape[-1]), len(shape)
        inv = z.Function(name + "_inv", *([z.IntSort()] * nd), z.IntSort())
        ix = [z.Int("$q%d" % d) for d in range(nd)]
        rng = z.And(*[z.And(i >= 0, i < self.sym.to_z(m)) for i, m in zip(ix, shape)])
        a, b = f(*ix), inv(*ix)
        self.c.pc.append(z.ForAll(ix, z.Implies(rng, z.And(a >= 0, a < n, inv(*ix[:-1], a) == ix[-1])), patterns=[a]))
        self.c.pc.append(z.ForAll(ix, z.Implies(rng, z.And(b >= 0, b < n, f(*ix[:-1], b) == ix[-1])), patterns=[b]))
        return A

    def within(self, name, shape, lo, up, kind="f"):
        """an array whose last axis is bounded"""
        A = self.array(name, shape, kind)
        self.assume_each(shape, lambda *ix: self.And(self.le(self.at(lo, ix[-1]), self.at(A, *ix)), self.le(self.at(A, *ix), self.at(up, ix[-1]))))
        return A

    def indices(self, name, shape, n):
        """an array of numbers below n"""
        A = self.array(name, shape, "i")
        self.assume_each(shape, lambda *ix: self.And(self.le(0, self.at(A, *ix)), self.lt(self.at(A, *ix), n)))
        return A

    def rng(self):
        return self.I.Rng()

    def use(self, f, contract, recursive=False):
        """calls of f are checked against this contract instead of its body (the contract is an obligation of its own);
        recursive: the first call is the one under proof, the calls it makes itself are against the contract"""
        first = [recursive]

        def handler(a, kw):
            if first[0]:
                first[0] = False
                return self.I.interp_function(f, a, kw)
            return contract(self, *a, **kw)
        self.I.SUMMARY[f] = handler

    def invariant(self, f, inv, modifies=None, at=0, decreases=None):
        """states the invariant of a loop of f (the at-th, or the first that mentions this name).  modifies: what the loop changes
        besides plain local variables - name (or object.attribute, or @field of the individuals) -> how to make any value of its kind"""
        from . import loops
        import ast
        ls = self.I.loops_of(f)
        if isinstance(at, str):
            ls = [x for x in ls if any(isinstance(y, ast.Name) and y.id == at for y in ast.walk(x))]
        k = 0 if isinstance(at, str) else at
        if k >= len(ls):
            raise self.sym.Unsupported("the loop of %s is not there" % f.__qualname__)
        self.I.INVS[id(ls[k])] = loops.Invariant(self, inv, modifies or {}, decreases)

    def some_list(self, kind="i"):
        """makes lists of any length"""
        z, s = self.sym.z3, self.sym

        def make():
            n = self.c.fresh("len", z.IntSort())
            self.c.assume(n >= 0)
            f = self.c.fresh_fn("item", 1, {"f": z.RealSort(), "i": z.IntSort(), "b": z.BoolSort()}[kind])
            return self.I.SeqView(n, lambda i: f(s.flatz(i)))
        return make

    def some_arrays(self, kind="i"):
        """makes lists of arrays, of any length and lengths"""
        z, s = self.sym.z3, self.sym
        srt = {"f": z.RealSort(), "i": z.IntSort(), "b": z.BoolSort()}[kind]

        def make():
            n = self.c.fresh("len", z.IntSort())
            self.c.assume(n >= 0)
            size, f = self.c.fresh_fn("size", 1, z.IntSort()), self.c.fresh_fn("item", 2, srt)
            i = z.Int("$e0")
            self.c.assume(z.ForAll([i], size(i) >= 0, patterns=[size(i)]))
            return self.I.SeqView(n, lambda k: s.Arr((size(s.to_z(s.flatz(k))),), kind, lambda ix: f(s.to_z(s.flatz(k)), s.to_z(s.flatz(ix[0])))))
        return make

    def parts(self, x):
        """of a list of arrays: their lengths and their elements"""
        if self.I.length(x) == 0 if not self.sym.is_expr(self.I.length(x)) else False:
            return (lambda k: 0), (lambda k, p: 0)
        return (lambda k: self.shape(self.item(x, k))[0]), (lambda k, p: self.at(self.item(x, k), p))

    def item(self, x, k):
        """the k-th thing of a list"""
        return self.I.seq_fn(x)(k)

    def uf(self, name, n_args, kind="i", inverse=None):
        """an arbitrary function of integers (inverse: of the last argument, a hint where to look for witnesses)"""
        z, s = self.sym.z3, self.sym
        f = z.Function(name, *([z.IntSort()] * n_args), {"f": z.RealSort(), "i": z.IntSort(), "b": z.BoolSort()}[kind])
        if inverse is not None:
            s.INVERSE[name] = inverse
        return lambda *a: f(*[s.flatz(x) if s.is_expr(x) else s.to_z(x) for x in a])

    def named(self, name, shape, f):
        """the predicate f of the indices in the shape, under a name of its own"""
        p = self.uf(name, len(shape), "b")
        self.assume_each(shape, lambda *ix: self.iff(p(*ix), f(*ix)))
        return p

    def every(self, fact, term):
        """assumes the fact for all integers (used where the term occurs)"""
        z = self.sym.z3
        import inspect
        ix = [z.Int("$e%d" % d) for d in range(len(inspect.signature(fact).parameters))]
        self.c.assume(z.ForAll(ix, self.sym.to_b(fact(*ix)), patterns=[term(*ix)]))

    def some(self, shape, kind, fn):
        """the array of these values"""
        return self.sym.Arr(shape, kind, lambda ix: fn(*ix))

    def sequence(self, n, fn):
        """a list of n things"""
        return self.I.SeqView(n, fn)

    def any(self, kind="f"):
        """some value, to be constrained by `given`"""
        z = self.sym.z3
        return self.c.fresh("val", {"f": z.RealSort(), "i": z.IntSort(), "b": z.BoolSort()}[kind])

    def function(self, name, n_args):
        """an arbitrary function of real numbers"""
        z, s = self.sym.z3, self.sym
        f = z.Function(name, *([z.RealSort()] * (n_args + 1)))
        return lambda *a: f(*[s.to_z(x, True) for x in a])

    def some_array(self, shape, kind="f", fact=None):
        """an array of which `fact` is known at every position"""
        z, s = self.sym.z3, self.sym
        shape = tuple(self.npm.to_dim(x) for x in shape)
        f = self.c.fresh_fn("val", len(shape), {"f": z.RealSort(), "i": z.IntSort(), "b": z.BoolSort()}[kind])
        A = s.Arr(shape, kind, lambda ix: f(*[s.flatz(i) for i in ix]))
        if fact is not None:
            ix = [z.Int("$a%d" % d) for d in range(len(shape))]
            t = f(*ix)
            self.c.assume(z.ForAll(ix, z.Implies(z.And(*[z.And(i >= 0, i < s.to_z(n)) for i, n in zip(ix, shape)]), s.to_b(fact(*ix, t))), patterns=[t]))
        return A

    def given(self, f):
        """postcondition of a function used by contract"""
        self.c.assume(f)

    def obj(self, cls, **attrs):
        o = cls.__new__(cls)
        o.__dict__.update(attrs)
        return o

    def population(self, name, n, **fields):
        """a population of n individuals; a field is given by the shape of one individual's value, or (shape, kind)"""
        from . import popm
        h = popm.heap()
        R = h.alloc(n)
        lo = R.fn((0,))
        for key, d in fields.items():
            shape, kind = d if len(d) == 2 and isinstance(d[0], tuple) else (d, "f")
            A = self.array(name + "_" + key, (n,) + tuple(shape), kind)
            self.frozen.pop()
            if key not in h.fields:
                h.declare(key, shape, kind)
            g = A.fn
            old = h.fields[key]._fn
            h.fields[key]._fn = lambda ix, g=g, old=old: self.sym.ite(self.sym.And_(self.sym.le(lo, ix[0]), self.sym.lt(ix[0], self.sym.add(lo, n))), g((self.sym.S(self.sym.sub(ix[0], lo)),) + tuple(ix[1:])), old(ix))
            h.segs[key, id(R._fn)] = (g, R._fn)
            h.top[key] = h.fields[key]._fn
            if key == "CV":
                self.assume_each((n,) + tuple(shape), lambda *ix: self.le(0.0, A.fn(tuple(ix))))
        return popm.SPop(R)

    def marks(self, pop, key):
        """which members count as evaluated for this, now"""
        from . import popm
        A = popm.pop_get(pop, "evaluated:" + key).snapshot()
        return lambda i: A.fn((i,))

    def population_of(self, refs):
        """the population of these individuals"""
        from . import popm
        return popm.SPop(refs.to_arr() if isinstance(refs, self.I.SeqView) else refs)

    def individuals(self, P):
        """which individuals: one number per member"""
        from . import popm
        return popm.refs_of(P).snapshot() if not isinstance(P, popm.SInd) else P.ref

    # logic
    def eq(self, a, b): return self.sym.eq(a, b)
    def ne(self, a, b): return self.sym.Not_(self.sym.eq(a, b))
    def le(self, a, b): return self.sym.le(a, b)
    def lt(self, a, b): return self.sym.lt(a, b)
    def And(self, *x): return self.sym.And_(*x)
    def Or(self, *x): return self.sym.Or_(*x)
    def Not(self, x): return self.sym.Not_(x)
    def implies(self, a, b): return self.sym.Implies_(a, b)
    def iff(self, a, b): return self.sym.And_(self.sym.Implies_(a, b), self.sym.Implies_(b, a))
    def ite(self, c, a, b): return self.sym.ite(c, a() if callable(a) else a, b() if callable(b) else b)
    def add(self, a, b): return self.sym.add(a, b)
    def sub(self, a, b): return self.sym.sub(a, b)
    def mul(self, a, b): return self.sym.mul(a, b)
    def div(self, a, b): return self.sym.div(a, b)
    def mod(self, a, b): return self.sym.mod(a, b)
    def max(self, a, b): return self.sym.maxv(a, b)
    def min(self, a, b): return self.sym.minv(a, b)
    def abs(self, a): return self.sym.absv(a)
    def sqrt(self, a): return self.sym.sqrt(a)
    def log2(self, a): return self.npm.log2_(a)
    def isnan(self, a): return self.npm.isnan(a)

    def forall(self, n, f): return self.npm.bounded_quant(n, f, True)
    def exists(self, n, f): return self.npm.bounded_quant(n, f, False)
    def total(self, n, f, kind="f"): return self.npm.reduce_sum(f, n, kind)
    def least(self, n, f, kind="f"): return self.npm._ext(f, n, kind, "min")
    def most(self, n, f, kind="f"): return self.npm._ext(f, n, kind, "max")

    def arr(self, x):
        return self.npm.to_arr(x)

    def shape(self, x):
        x = self.npm.to_arr(x)
        return x.shape if isinstance(x, self.sym.Arr) else ()

    def at(self, x, *ix):
        x = self.npm.to_arr(x)
        return x.fn(tuple(ix)) if isinstance(x, self.sym.Arr) else x

    def kind(self, x):
        x = self.npm.to_arr(x)
        return x.kind if isinstance(x, self.sym.Arr) else self.npm.kindv(x)

    def drawn(self, rng, k):
        """the k-th value(s) drawn from the generator"""
        return rng.log[k]

    def row(self, x, *ix):
        x = self.npm.to_arr(x)
        f = x.fn
        return self.sym.Arr(x.shape[len(ix):], x.kind, lambda j: f(tuple(ix) + tuple(j)))

    def old(self, a):
        return a.snapshot()

    # assumptions and obligations
    def requires(self, f):
        self.c.assume(self.sym.S(f) if self.sym.is_expr(f) else f)

    def assume_each(self, shape, f):
        """f(i, j, ...) for every index in the shape"""
        z, s = self.sym.z3, self.sym
        if all(not s.is_expr(n) for n in shape) and np.prod([int(n) for n in shape]) <= 64:
            for ix in np.ndindex(*[int(n) for n in shape]):
                self.requires(f(*[int(i) for i in ix]))
            return
        ix = [z.Int("$q%d" % d) for d in range(len(shape))]
        self.c.bound.extend(ix)
        try:
            b = f(*ix)
        finally:
            del self.c.bound[len(self.c.bound) - len(ix):]
        b = s.to_b(b)
        rng = z.And(*[z.And(i >= 0, i < s.to_z(n)) for i, n in zip(ix, shape)])
        self.c.pc.append(z.ForAll(ix, z.Implies(rng, b)))

    def ensures(self, cond, label):
        self.c.prove(cond, label)

    def lemma(self, cond, label):
        """an obligation that is used afterwards"""
        self.c.prove(cond, label)
        self.c.assume(cond)

    def each(self, shape, f, label):
        """obligation for every index in the shape: proved for a generic index"""
        z, s = self.sym.z3, self.sym
        ix = []
        extra = []
        for n in shape:
            i = self.c.fresh("ix", z.IntSort())
            ix.append(i)
            extra.append(z.And(i >= 0, i < s.to_z(n)))
        base = len(self.c.pc)
        cache = dict(self.c.cache)
        for e in extra:
            self.c.pc.append(e)
        try:
            if self.c.check(ground=True) == s.unsat:
                # no such index: trivially true
                self.c.stats.obl += 1
                self.c.stats.ok += 1
                self.c.obls.append(label)
                self.c.stats.by["empty range"] = self.c.stats.by.get("empty range", 0) + 1
                return
            g = f(*ix)
            for x in (g if isinstance(g, (list, tuple)) else [g]):
                self.c.prove(x, label)
        finally:
            del self.c.pc[base:]
            self.c.cache = cache

    def same_shape(self, x, shape, label):
        sh = self.shape(x)
        ok = len(sh) == len(shape) and all(self.sym.dim_eq(a, b) for a, b in zip(sh, shape))
        self.c.prove(bool(ok), label)

    def same(self, x, want, label):
        """arrays equal in shape and elements"""
        x, want = self.npm.to_arr(x), self.npm.to_arr(want)
        self.same_shape(x, self.shape(want), label + " (shape)")
        if len(self.shape(x)) == len(self.shape(want)):
            if self.shape(want):
                self.each(want.shape, lambda *ix: self.eq(x.fn(ix), want.fn(ix)), label)
            else:
                self.ensures(self.eq(x, want), label)

    def len(self, x): return self.I.length(x)
    def append(self, lst, x): self.I.call(self.I.get_attr(lst, "append"), [x], {})

    def holds(self, f): return self.c.decide(self.sym.to_b(f)) if self.sym.is_expr(f) else bool(f)

    def call(self, f, *a, raises=None, **kw):
        a = [self.I.live(x) for x in a]
        try:
            r = f(*a) if f in (self.I.set_attr, self.I.get_attr) else self.I.call(f, list(a), kw)
        except self.sym.Raised as e:
            if raises is not None and isinstance(e.cls, type) and issubclass(e.cls, raises):
                return Raise(e.cls)
            r = self.c.check()
            if r == self.sym.unsat:
                raise self.sym.PathEnd()
            self.c.prove(False, "completes without %s" % getattr(e.cls, "__name__", e.cls))
            raise self.sym.PathEnd()
        return r

    def setattr(self, o, name, x): self.call(self.I.set_attr, o, name, x)
    def getattr(self, o, name): return self.call(self.I.get_attr, o, name)

    def unchanged(self, *names):
        """frame: the named inputs hold what they held at the start"""
        for nm, A, f in self.frozen:
            if nm in names or not names:
                if A._fn is f:
                    self.ensures(True, "argument %s is unchanged" % nm)
                else:
                    self.each(A.shape, lambda *ix: self.eq_val(A.fn(ix), f(ix)), "argument %s is unchanged" % nm)

    def eq_val(self, a, b):
        s = self.sym
        if isinstance(a, s.GV) or isinstance(b, s.GV):
            return s.Or_(s.And_(self.isnan(a), self.isnan(b)), s.eq(a, b))
        return s.eq(a, b)


class Raise:
    def __init__(self, cls):
        self.cls = cls


# ------------------------------------------------------------------------------------------ native view
def _tol(a, b):
    return 1e-9 * (1 + abs(a) + abs(b))


class N:
    """the same contract on the real function with concrete inputs"""
    native = True

    def __init__(self, seed, values=None):
        self.r = np.random.default_rng(seed)
        self.values = values or {}
        self.inputs = {}
        self.frozen = []
        self.ids, self.keep = {}, []
        self.seed = seed

    def dim(self, name, lo=1, hi=None):
        v = self.values.get(name)
        if v is None:
            v = int(self.r.integers(lo, max(lo, min(hi if hi is not None else 5, lo + 4)) + 1))
        self.inputs[name] = v
        return v

    def _draw(self, shape, kind, style):
        r = self.r
        if kind == "b":
            return r.random(shape) < .5
        if kind == "i":
            return r.integers(-3, 6, shape)
        if style == 0:
            return r.integers(-2, 4, shape).astype(float)
        if style == 1:
            return np.round(r.normal(0, 2, shape), 2)
        if style == 2:
            return r.random(shape)
        return r.integers(0, 2, shape).astype(float)

    def scalar(self, name, kind="f", lo=None, hi=None, where=None):
        v = self.values.get(name)
        if v is None:
            for _ in range(200):
                if lo is not None and hi is not None and kind != "b":
                    v = float(self.r.uniform(lo, hi)) if kind == "f" else int(self.r.integers(lo, hi + 1))
                    if self.r.random() < .2:
                        v = (float if kind == "f" else int)(self.r.choice([lo, hi]))
                else:
                    v = self._draw((), kind, int(self.r.integers(0, 4)))
                    v = v.item() if hasattr(v, "item") else v
                    if kind != "b":
                        v = lo + abs(v) if lo is not None else (hi - abs(v) if hi is not None else v)
                if where is None or where(v):
                    break
            else:
                raise Skip()
        self.inputs[name] = v
        return v

    def array(self, name, shape, kind="f", where=None, may_be_nan=False):
        if len(shape) == 0:
            return self.scalar(name, kind)
        v = self.values.get(name)
        if v is None:
            st = int(self.r.integers(0, 4))
            v = np.array(self._draw(shape, kind, st))
            if where is not None:
                for ix in np.ndindex(*shape):
                    for _ in range(100):
                        if where(v[ix].item()):
                            break
                        v[ix] = self._draw((), kind, st)
                    else:
                        raise Skip()
            if may_be_nan:
                v[self.r.random(shape) < .3] = np.nan
        else:
            v = np.array(v)
        self.inputs[name] = v.copy()
        self.frozen.append((name, v, v.copy()))
        return v

    def flag(self, name):
        v = self.values.get(name)
        v = bool(self.r.random() < .5) if v is None else v
        self.inputs[name] = v
        return v

    def pick(self, name, *opts):
        k = self.values.get(name)
        k = int(self.r.integers(len(opts))) if k is None else k
        self.inputs[name] = k
        return opts[k]

    def bounds(self, m, strict=False, names=("xl", "xu"), kind="f"):
        if names[0] not in self.values:
            a, b = self._draw((m,), kind, 1), self._draw((m,), kind, 1)
            self.values = dict(self.values, **{names[0]: np.minimum(a, b), names[1]: np.maximum(a, b) + (1 if strict else 0)})
        return self.array(names[0], (m,), kind), self.array(names[1], (m,), kind)

    def permutations(self, name, shape):
        if name not in self.values:
            self.values = dict(self.values, **{name: self.r.permuted(np.broadcast_to(np.arange(shape[-1]), shape), axis=-1)})
        A = self.array(name, shape, "i")
        if not (np.sort(A, axis=-1) == np.arange(shape[-1])).all():
            raise Skip()
        return A

    def within(self, name, shape, lo, up, kind="f"):
        if name not in self.values:
            u = self.r.choice([0, 1, .5, self.r.random()], shape)
            A = lo + u * (up - lo)
            self.values = dict(self.values, **{name: np.round(A).astype(int) if kind == "i" else np.clip(A, lo, up)})
        A = self.array(name, shape, kind)
        self.assume_each(shape, lambda *ix: bool(lo[ix[-1]] <= A[ix] <= up[ix[-1]]))
        return A

    def indices(self, name, shape, n):
        if name not in self.values:
            self.values = dict(self.values, **{name: self.r.integers(0, n, shape)})
        A = self.array(name, shape, "i")
        if A.size and (A.min() < 0 or A.max() >= n):
            raise Skip()
        return A

    def rng(self):
        return np.random.default_rng(self.seed + 17)

    def use(self, f, contract, recursive=False):
        pass

    def invariant(self, f, inv, modifies=None, at=0, decreases=None):
        pass

    def some_list(self, kind="i"):
        pass

    def some_arrays(self, kind="i"):
        pass

    def parts(self, x):
        return (lambda k: len(x[int(k)])), (lambda k, p: int(x[int(k)][int(p)]))

    def item(self, x, k):
        return x[int(k)]

    def obj(self, cls, **attrs):
        o = cls.__new__(cls)
        o.__dict__.update(attrs)
        return o

    def population(self, name, n, **fields):
        from pymoo.core.population import Population
        P = Population.empty(n)
        for key, d in fields.items():
            shape, kind = d if len(d) == 2 and isinstance(d[0], tuple) else (d, "f")
            k = name + "_" + key
            if key == "CV" and k not in self.values:
                self.values = dict(self.values, **{k: self.r.choice([0., 0., 1., 2., .5], (n,) + tuple(shape))})
            A = self.array(k, (n,) + tuple(shape), kind)
            self.frozen.pop()
            for i, ind in enumerate(P):
                if key == "CV":
                    if (A[i] < 0).any():
                        raise Skip()
                    ind.G = np.zeros(0)
                    ind.H = np.zeros(0)
                    ind._CV = np.array(A[i])
                elif key.startswith("evaluated:"):
                    if A[i]:
                        ind.evaluated.add(key.split(":")[1])
                else:
                    ind.set(key, np.array(A[i]) if len(shape) else A[i].item())
        for ind in P:
            self.ids[id(ind)] = len(self.ids)
            self.keep.append(ind)
        return P

    def individuals(self, P):
        from pymoo.core.individual import Individual
        if isinstance(P, Individual):
            return self._number(P)
        return np.array([self._number(i) for i in P], dtype=int)

    def marks(self, pop, key):
        now = [key in i.evaluated for i in pop]
        return lambda i: now[int(i)]

    def _number(self, ind):
        if id(ind) not in self.ids:
            self.ids[id(ind)] = len(self.ids) + 1000
            self.keep.append(ind)
        return self.ids[id(ind)]

    def who(self, number):
        return next(i for i in self.keep if self.ids[id(i)] == int(number))

    @staticmethod
    def _s(x):
        if isinstance(x, np.ndarray):
            return x.item() if x.size == 1 else x
        return x.item() if isinstance(x, np.generic) else x

    def ne(self, a, b): return not self.eq(a, b)
    def eq(self, a, b):
        a, b = self._s(a), self._s(b)
        if isinstance(a, float) or isinstance(b, float):
            if a == b or (a != a and b != b):
                return True
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= _tol(a, b)
        return a == b
    eq_val = eq

    def le(self, a, b):
        a, b = self._s(a), self._s(b)
        return a <= b or (isinstance(a, float) or isinstance(b, float)) and not (math.isinf(a) or math.isinf(b)) and abs(a - b) <= _tol(a, b)

    def lt(self, a, b): return bool(self._s(a) < self._s(b))
    def And(self, *x): return all(bool(v) for v in x)
    def Or(self, *x): return any(bool(v) for v in x)
    def Not(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b):
        x = a if c else b
        return x() if callable(x) else x
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def mod(self, a, b): return a % b

    def div(self, a, b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))

    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def abs(self, a): return abs(a)
    def sqrt(self, a): return math.sqrt(a)
    def log2(self, a): return math.log2(a)
    def isnan(self, a): return a != a
    def forall(self, n, f): return all(f(i) for i in range(n))
    def exists(self, n, f): return any(f(i) for i in range(n))

    def total(self, n, f, kind="f"):
        t = 0
        for i in range(n):
            t = t + f(i)
        return t

    def least(self, n, f, kind="f"): return min(f(i) for i in range(n))
    def most(self, n, f, kind="f"): return max(f(i) for i in range(n))

    def arr(self, x): return np.asarray(x)
    def shape(self, x): return np.shape(x)

    def at(self, x, *ix):
        v = np.asarray(x)
        return self._s(v[tuple(int(i) for i in ix)]) if v.ndim else self._s(v)

    def kind(self, x): return {"u": "i"}.get(np.asarray(x).dtype.kind, np.asarray(x).dtype.kind)

    def row(self, x, *ix): return np.asarray(x)[tuple(int(i) for i in ix)]
    def old(self, a): return np.array(a)

    def requires(self, f):
        if not f:
            raise Skip()

    def assume_each(self, shape, f):
        for ix in np.ndindex(*[int(n) for n in shape]):
            self.requires(f(*[int(i) for i in ix]))

    def ensures(self, cond, label):
        if not cond:
            raise NativeBreach(label)

    def each(self, shape, f, label):
        for ix in np.ndindex(*[int(n) for n in shape]):
            g = f(*[int(i) for i in ix])
            for x in (g if isinstance(g, (list, tuple)) else [g]):
                if not x:
                    raise NativeBreach(label, "position %s" % (ix,))

    lemma = ensures

    def same_shape(self, x, shape, label):
        if tuple(np.shape(x)) != tuple(int(s) for s in shape):
            raise NativeBreach(label, "shape %s instead of %s" % (np.shape(x), tuple(shape)))

    def same(self, x, want, label):
        x, want = np.asarray(x), np.asarray(want)
        self.same_shape(x, want.shape, label + " (shape)")
        if want.ndim:
            self.each(want.shape, lambda *ix: self.eq(x[ix], want[ix]), label)
        else:
            self.ensures(self.eq(x, want), label)

    def len(self, x): return len(x)
    def append(self, lst, x): lst.append(x)
    def holds(self, f): return bool(f)

    def call(self, f, *a, raises=None, **kw):
        try:
            with np.errstate(all="ignore"):
                return f(*a, **kw)
        except Exception as e:
            if raises is not None and isinstance(e, raises):
                return Raise(type(e))
            raise NativeBreach("completes without %s" % type(e).__name__, traceback.format_exc()[-1500:])

    def named(self, name, shape, f): return f

    def setattr(self, o, name, x): self.call(setattr, o, name, x)
    def getattr(self, o, name): return self.call(getattr, o, name)

    def unchanged(self, *names):
        for nm, v, o in self.frozen:
            if nm in names or not names:
                if not np.array_equal(v, o, equal_nan=v.dtype.kind == "f"):
                    raise NativeBreach("argument %s is unchanged" % nm)


def run_native(p, seed, values=None):
    """None: held, 'skip', or a breach dict"""
    n = N(seed, values)
    try:
        p.fn(n)
    except Skip:
        return "skip"
    except NativeBreach as b:
        return dict(contract=p.name, label=b.label, detail=b.detail, inputs={k: v for k, v in n.inputs.items()}, seed=seed)
    return None


# ------------------------------------------------------------------------------------------ discharge
def _symbolic(p, fixed=None, stats=None, prove_ms=10000, stop_first=False):
    from . import sym, interp, loops, npmx  # noqa: F401
    stats = stats or sym.Stats()
    obls, failed, unsupported = [], [], []
    covered = False
    models = []

    def go(c):
        v = V(c, fixed)
        c.view = v
        p.fn(v)
        return None
    stack = [[]]
    npaths = 0
    while stack:
        dec = stack.pop()
        c = sym.Ctx(dec, stats, prove_ms=prove_ms)
        sym._CTX.append(c)
        del sym._WLOG[:]
        interp.SUMMARY.clear()
        interp.INVS.clear()
        try:
            go(c)
            if not covered and c.check() != sym.unsat:
                # the assumptions made along the way must not prove everything
                covered = not sym.contradictory(c)
                if not covered:
                    unsupported.append("contradictory assumptions")
        except sym.PathEnd:
            if c.obls and not covered and not getattr(c, 'loop_end', False) and c.check() != sym.unsat:
                covered = True
        except sym.Unsupported as e:
            unsupported.append(str(e))
            if os.environ.get("VP_TRACE"):
                traceback.print_exc()
        except sym.Raised as e:
            unsupported.append("exception outside a call: %s" % e)
            if os.environ.get("VP_TRACE"):
                traceback.print_exc()
        finally:
            sym._CTX.pop()
        npaths += 1
        obls += c.obls
        for label, res, model in c.failed:
            failed.append((label, res))
            if model is not None:
                models.append((label, model, c.view))
        for i in range(len(c.dec) - 1, len(dec) - 1, -1):
            ch, alts = c.dec[i]
            for a in alts:
                if a > ch:
                    stack.append(c.dec[:i] + [[a, alts]])
        if npaths > 3000:
            unsupported.append("more than 3000 paths")
            break
        if stop_first and (failed or unsupported):
            break
    return dict(stats=stats, obls=obls, failed=failed, unsupported=unsupported, covered=covered, paths=npaths, models=models)


def _value(model, x):
    z = model.eval(x, model_completion=True)
    s = str(z)
    if s in ("True", "False"):
        return s == "True"
    try:
        return z.as_long()
    except Exception:
        pass
    try:
        return float(z.as_fraction())
    except Exception:
        return float(z.approx(12).as_fraction())


def _model_inputs(model, view):
    out = {}
    for nm, d in view.inputs.items():
        if d[0] == "dim":
            out[nm] = d[1] if isinstance(d[1], int) else _value(model, d[1])
            if out[nm] > 6:
                return None
    for nm, d in view.inputs.items():
        if d[0] == "scalar":
            out[nm] = _value(model, d[1])
        elif d[0] in ("flag", "pick"):
            out[nm] = d[1]
        elif d[0] == "array":
            sh = []
            for s in d[1]:
                sh.append(s if isinstance(s, int) else _value(model, s))
            if any(s > 40 or s < 0 for s in sh):
                return None
            dt = {"f": float, "i": int, "b": bool}[d[2]]
            a = np.zeros(sh, dtype=dt)
            for ix in np.ndindex(*sh):
                a[ix] = _value(model, d[3](*ix))
                if d[4] is not None and _value(model, d[4](*ix)):
                    a[ix] = np.nan
            out[nm] = a
    return out


def find_input(p, failed, seed, models=()):
    """a concrete input of the real function that breaks the contract"""
    t0 = time.time()
    for label, model, view in models[:4]:
        try:
            vals = _model_inputs(model, view)
            if vals is not None:
                b = run_native(p, seed, vals)
                if isinstance(b, dict):
                    b["from"] = "verifier's counterexample"
                    return b
        except Exception:
            pass
    for k in range(1500):
        if time.time() - t0 > 20:
            break
        try:
            b = run_native(p, seed * 100003 + k)
        except Exception as e:
            continue
        if isinstance(b, dict):
            b["from"] = "search over concrete inputs"
            return b
    # small dimensions symbolically
    try:
        for d in (2, 1, 3):
            if time.time() - t0 > 45:
                break
            names = p.dims or ["n", "m", "d", "k", "p"]
            r = _symbolic(p, fixed={x: d for x in names}, prove_ms=2000, stop_first=True)
            for label, model, view in r["models"]:
                vals = _model_inputs(model, view)
                if vals is None:
                    continue
                b = run_native(p, seed, vals)
                if isinstance(b, dict):
                    b["from"] = "verifier's counterexample at dimensions %d" % d
                    return b
    except Exception:
        pass
    return None


def _job(a):
    pid, name, seed, tier = a
    from . import boot, sym, interp
    p = next(q for q in load(pid) if q.name == name)
    t0 = time.time()
    out = dict(name=name, targets=p.targets)
    try:
        r = _symbolic(p, prove_ms=20000 if tier == "quick" else 60000)
        st = r["stats"]
        out.update(obl=st.obl, ok=st.ok, by=st.by, solver_s=round(st.solver_s, 3), paths=r["paths"], failed=r["failed"], unsupported=r["unsupported"],
                   covered=r["covered"], labels=sorted(set(r["obls"])), funcs=sorted(interp.FUNCS))
        bad = r["failed"] or r["unsupported"] or not r["covered"]
        models = r["models"]
    except Exception as e:
        out.update(obl=1, ok=0, by={}, solver_s=0, paths=0, failed=[], unsupported=["verifier error: " + traceback.format_exc()[-1200:]], covered=False, labels=[], funcs=[])
        bad, models = True, []
    # cross-check on CPython: the same contract on concrete inputs
    ran = 0
    breach = None
    if p.native:
        for k in range(25 if tier == "quick" else 400):
            try:
                b = run_native(p, seed * 7919 + k)
            except Exception as e:
                b = None
                out.setdefault("native_errors", []).append(traceback.format_exc()[-600:])
            if b is None:
                ran += 1
            elif isinstance(b, dict):
                breach = b
                break
    out["native_ran"] = ran
    if bad and breach is None and p.native:
        breach = find_input(p, out["failed"], seed, models)
    out["breach"] = breach
    out["wall"] = round(time.time() - t0, 2)
    return out


class Result:
    violations = 0


def _work(conn, a):
    try:
        conn.send(_job(a))
    finally:
        conn.close()


def run_proofs(pid, tier, seed):
    """every contract in a process of its own: one that dies or runs out of time is a contract without an answer"""
    from multiprocessing.connection import wait
    ps = load(pid)
    r = Result()
    cx = get_context("fork")
    limit = 500 if tier == "quick" else 1500
    t0 = time.time()
    todo, live, outs = list(ps), {}, {}

    def none(p, why):
        return dict(name=p.name, targets=p.targets, obl=1, ok=0, by={}, solver_s=0, paths=0, failed=[], unsupported=["no answer: " + why],
                    covered=False, labels=[], funcs=[], breach=None, native_ran=0, wall=0)
    while todo or live:
        left = limit - (time.time() - t0)
        while todo and len(live) < 8 and left > 0:
            p = todo.pop(0)
            a, b = cx.Pipe(False)
            q = cx.Process(target=_work, args=(b, (pid, p.name, seed, tier)))
            q.start()
            b.close()
            live[a] = (p, q)
        if left <= 0:
            for p, q in live.values():
                q.kill()
                outs[p.name] = none(p, "out of time")
            for p in todo:
                outs[p.name] = none(p, "out of time")
            break
        for a in wait(list(live), timeout=max(0.1, left)):
            p, q = live.pop(a)
            try:
                outs[p.name] = a.recv()
            except EOFError:
                outs[p.name] = none(p, "the verifier process ended")
            a.close()
            q.join(5)
    r.outs = [outs[p.name] for p in ps]
    r.violations = sum(1 for o in r.outs if bad(o))
    return r


def bad(o):
    return bool(o["failed"] or o["unsupported"] or not o["covered"] or o["breach"] or o["obl"] == 0)


TRUSTED = ["the verification-condition generator of /verif/vp (sym, npm, interp, loops)", "z3 5.3.2",
           "assumed contracts of the numpy, math and random-generator functions used (vp/npm.py, vp/npmx.py, vp/interp.py:Rng)",
           "float64 arithmetic treated as real arithmetic (no rounding, no overflow; NaN and infinities are tracked where constants introduce them)",
           "index-in-range of array reads and absence of aliasing between distinct array arguments"]


def merge(r, cov, assumptions, lines, ev, pid, already):
    tot = sum(max(o["obl"], 1) for o in r.outs)
    ok = sum(o["ok"] for o in r.outs)
    by = {}
    for o in r.outs:
        for k, v in o["by"].items():
            by[k] = by.get(k, 0) + v
    cov["obligations"] = tot
    cov["discharged"] = ok
    cov["checker_cmd"] = "/opt/venv/bin/python /verif/check.py %s" % pid
    cov["trusted_base"] = TRUSTED
    cov["functions_under_contract"] = sorted({t for o in r.outs for t in o["targets"]})
    cov["functions_interpreted"] = sorted({f for o in r.outs for f in o["funcs"]})
    cov["discharged_by"] = by
    cov["solver_s"] = round(sum(o["solver_s"] for o in r.outs), 2)
    cov["proofs"] = [dict(contract=o["name"], targets=o["targets"], obligations=o["obl"], discharged=o["ok"], paths=o["paths"], labels=o["labels"],
                          native_cross_checks=o["native_ran"], wall_s=o["wall"]) for o in r.outs]
    n = 0
    for o in r.outs:
        if not bad(o):
            continue
        path = os.path.join(ev, "replay", "%s-proof-%s.json" % (pid, o["name"]))
        d = dict(property=pid, kind="proof", contract=o["name"], targets=o["targets"], failed_obligations=o["failed"], unsupported=o["unsupported"],
                 covered=o["covered"], breach=o["breach"])
        with open(path, "w") as f:
            json.dump(d, f, indent=1, default=lambda x: x.tolist() if hasattr(x, "tolist") else str(x))
        what = o["breach"]["label"] if o["breach"] else (o["failed"][0][0] if o["failed"] else ("; ".join(o["unsupported"][:2]) or "vacuous"))
        print("  undischarged: contract %s on %s: %s" % (o["name"], ", ".join(o["targets"]), what[:300]))
        n += 1
        if n <= 6:
            lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if o["breach"] else " no-failing-input-found"))


def replay(path):
    d = json.load(open(path))
    p = next(q for q in load(d["property"]) if q.name == d["contract"])
    b = d["breach"]
    if not b:
        return _symbolic(p)["failed"]
    vals = {k: (np.array(v) if isinstance(v, list) else v) for k, v in b["inputs"].items()}
    return run_native(p, b["seed"], vals)
