"""Contract of the solution containers, as callers rely on it.

Individuals are references into a heap of fields (X, F, G, H, CV, rank, ...); a population is an array of references.
`get` reads the field of every member in the order of the members (a new array), `set` writes it, indexing selects members, `merge`
concatenates, `new` allocates individuals.  FEAS, feas and cv are read from the violation as Individual defines them.
The containers themselves are checked against this contract by C06 (and the violation by C03); here their callers are.
"""
from . import sym, npm, interp
from .sym import *
from .sym import z3

DERIVED = {"FEAS": lambda h: _map(h.arr("CV"), lambda v: le(v, 0.0), "b"),
           "feas": lambda h: _first(_map(h.arr("CV"), lambda v: le(v, 0.0), "b")), "cv": lambda h: _first(h.arr("CV")),
           "f": lambda h: _first(h.arr("F")), "x": lambda h: h.arr("X")}
ATTR = {"X", "F", "G", "H", "CV"}


def _map(A, f, kind):
    g = A.fn
    return Arr(A.shape, kind, lambda ix: f(g(ix)))


def _first(A):
    g = A.fn
    return Arr(A.shape[:1], A.kind, lambda ix: g((ix[0], 0)))


class Heap:
    def __init__(self):
        self.fields = {}
        self.next = 0
        self.segs, self.top = {}, {}
        self.size = ctx().fresh("heap", IntSort())

    def declare(self, key, rest, kind="f", fn=None):
        if fn is None:
            srt = {"f": RealSort(), "i": IntSort(), "b": BoolSort()}[kind]
            f = z3.Function("field_" + key, *([IntSort()] * (1 + len(rest))), srt)
            fn = lambda ix: f(*[to_z(flatz(i)) for i in ix])
        self.fields[key] = Arr((self.size,) + tuple(rest), kind, fn)
        return self.fields[key]

    def arr(self, key):
        if key in self.fields:
            return self.fields[key]
        if key in DERIVED:
            return DERIVED[key](self)
        raise Raised(KeyError, key)

    def alloc(self, n):
        base = self.next
        self.next = S(add(base, n))
        return Arr((n,), "i", lambda ix: S(add(base, ix[0])))

    def read(self, ref, key):
        A = self.arr(key)
        f = A.fn
        if A.ndim == 1:
            return f((ref,))
        return Arr(A.shape[1:], A.kind, lambda ix: f((ref,) + tuple(ix)))

    def write(self, ref, key, v):
        v = npm.to_arr(v)
        if key in DERIVED:
            raise Raised(AttributeError, key)
        if key not in self.fields:
            self.declare(key, npm.shape_of(v), npm.kindv(v))
        A = self.fields[key]
        if npm.kindv(v) != A.kind and promote(npm.kindv(v), A.kind) != A.kind:
            if A.kind == "i" and npm.kindv(v) == "f":
                raise Unsupported("field %s changes its type" % key)
        if len(npm.shape_of(v)) != A.ndim - 1 or not all(dim_eq(a, b) for a, b in zip(npm.shape_of(v), A.shape[1:])):
            raise Unsupported("field %s changes its shape" % key)
        g = npm.getter(v)
        A.write(lambda b: npm.eqi(b[0], ref), lambda b: g(tuple(b[1:])))


def heap():
    c = ctx()
    h = getattr(c, "heap_", None)
    if h is None:
        h = c.heap_ = Heap()
    return h


class SInd:
    """an individual"""

    def __init__(self, ref, of=None):
        self.ref, self.of = ref, of


class SPop:
    """a population"""

    def __init__(self, refs):
        self.refs = refs

    def member(self, k):
        return pop_item(self, k)

    def __getitem__(self, k):
        return pop_item(self, k)


class SSub(SPop):
    """a population of a subclass, with attributes of its own"""

    def __init__(self, refs, cls):
        self.refs, self.cls, self.attrs = refs, cls, {}

    def __getattr__(self, name):
        r = None if name.startswith("__") else sub_attr(self, name)
        if r is None:
            raise AttributeError(name)
        return r


def sub_new(cls, individuals=None):
    P = pop_make(individuals)
    return P if cls is table()[1] else SSub(P.refs, cls)


def sub_attr(o, name):
    if name in o.attrs:
        return o.attrs[name]
    if name == "__class__":
        return o.cls
    if name == "__dict__":
        return dict(o.attrs)
    c, d = interp.mro_find(o.cls, name)
    if c is not None and c.__module__.startswith(("pymoo", "proofs")) and c is not table()[1]:
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return interp.bindfn(d.__func__, o.cls, c)
        return interp.bindfn(d, o, c)
    return None


BASE = {"FEAS": "CV", "feas": "CV", "cv": "CV", "f": "F", "x": "X"}


def segment(key, R):
    """the values of a field as declared for these members (position -> value), if nothing has been written since"""
    h = heap()
    if key not in h.fields or h.top.get(key) is not h.fields[key]._fn:
        return None
    if R.base is not None:
        g, m = segment(key, R.base), R.vmap
        return g and (lambda ix: g(tuple(m(tuple(ix[:R.ndim]))) + tuple(ix[R.ndim:])))
    s = h.segs.get((key, id(R._fn)))
    return s and s[0]


class Segments:
    """a heap read at the positions of a population"""

    def __init__(self, R):
        self.R = R

    def arr(self, key):
        A, g = heap().arr(key), segment(key, self.R)
        return Arr(self.R.shape + A.shape[1:], A.kind, lambda ix: g(tuple(ix)))


def select(R, idx):
    """members at positions; a selection of declared members knows their declared values"""
    h = heap()
    keys = [k for k in h.fields if R.ndim == 1 and segment(k, R) is not None]
    if not keys or not (isinstance(idx, (Arr, list, tuple)) and not isinstance(idx, tuple)):
        return npm.getitem(R, idx)
    pos = npm.getitem(npm.arange(R.shape[0]), idx)
    if not isinstance(pos, Arr) or pos.base is not None:
        return npm.getitem(R, idx)
    f, p, nd = R.fn, pos.fn, pos.ndim
    r = Arr(pos.shape, "i", lambda ix: f((p(tuple(ix)),)))
    r.tag = pos.tag
    for k in keys:
        h.segs[k, id(r._fn)] = ((lambda g: lambda ix: g((p(tuple(ix[:nd])),) + tuple(ix[nd:])))(segment(k, R)), r._fn)
    return r


class SSetV:
    """the set of values an individual has been evaluated for"""

    def __init__(self, ref):
        self.ref = ref


def flag_key(e):
    return "evaluated:" + str(e)


def refs_of(x):
    if isinstance(x, SPop):
        return x.refs
    if isinstance(x, SInd):
        r = x.ref
        return Arr((1,), "i", lambda ix: r)
    if isinstance(x, (list, tuple)):
        if all(isinstance(y, SInd) for y in x):
            return npm.list_arr([y.ref for y in x]) if x else Arr((0,), "i", lambda ix: 0)
        if len(x) == 1 and isinstance(x[0], SPop):
            return Arr((1,) + x[0].refs.shape, "i", lambda ix: x[0].refs.fn(tuple(ix[1:])))
    if isinstance(x, interp.SeqView):
        v = x.fn(z3.Int("$e"))
        if isinstance(v, SInd):
            f = x.fn
            return Arr((x.n,), "i", lambda ix: f(flatz(ix[0])).ref)
    raise Unsupported("population of %r" % type(x))


# ------------------------------------------------------------------------------------------ individuals
def ind_read(o, key):
    base = BASE.get(key, key)
    if o.of is not None and (key in BASE or key in heap().fields):
        R, i = o.of
        if segment(base, R) is not None:
            s = Segments(R)
            A = s.arr(base) if key == base else DERIVED[key](s)
            f = A.fn
            return f((i,)) if A.ndim == 1 else Arr(A.shape[1:], A.kind, lambda ix: f((i,) + tuple(ix)))
    return heap().read(o.ref, key)


def ind_get(o, *keys, **kw):
    r = [ind_read(o, k) for k in keys]
    return r[0] if len(keys) == 1 else tuple(r)


def ind_set(o, key, v):
    heap().write(o.ref, key, v)
    return o


def ind_copy(o, *a, **k):
    h = heap()
    r = copies(Arr((1,), "i", lambda ix: o.ref))
    return SInd(r.fn((0,)))


def ind_attr(o, name):
    if name in ATTR or name in DERIVED:
        return ind_read(o, name)
    if name == "get":
        return interp.NatM(ind_get, o)
    if name == "set":
        return interp.NatM(ind_set, o)
    if name == "copy":
        return interp.NatM(ind_copy, o)
    if name == "evaluated":
        return SSetV(o.ref)
    raise Unsupported("individual.%s" % name)


# ------------------------------------------------------------------------------------------ populations
def pop_get(o, *keys, to_numpy=True, **kw):
    out = []
    for k in keys:
        A, R = heap().arr(k), o.refs
        f, g = A.fn, R.fn
        nd = R.ndim
        base = BASE.get(k, k)
        if nd == 1 and segment(base, R) is not None:
            s = Segments(R)
            B = s.arr(base) if k == base else DERIVED[k](s)
        else:
            B = Arr(R.shape + A.shape[1:], A.kind, lambda ix, f=f: f((g(tuple(ix[:nd])),) + tuple(ix[nd:])))
        if not to_numpy:
            if nd != 1:
                raise Unsupported("get from a shaped population")
            B = interp.SeqView(R.shape[0], (lambda B: lambda i: npm.getitem(B, i))(B))
        out.append(B)
    return out[0] if len(keys) == 1 else tuple(out)


def pop_set(o, *args, **kw):
    h = heap()
    if ctx().decide(eq(o.refs.size, 0)) if is_expr(o.refs.size) else o.refs.size == 0:
        return None
    for i in range(0, len(args), 2):
        kw[args[i]] = args[i + 1]
    n = o.refs.shape[0]
    for key, v in kw.items():
        v = npm.to_arr(v)
        if isinstance(v, interp.SeqView):
            v = v.to_arr()
        if isinstance(v, Arr) and v.ndim:
            if not dim_eq(v.shape[0], n):
                if ctx().decide(eq(v.shape[0], n)) is False:
                    raise Raised(Exception, "number of values")
            v = v.snapshot()
            rest, kind = v.shape[1:], v.kind
        else:
            rest, kind = (), npm.kindv(v)
        if key in DERIVED:
            raise Raised(AttributeError, key)
        if key not in h.fields:
            h.declare(key, rest, kind)
        A = h.fields[key]
        if A.ndim != 1 + len(rest) or not all(dim_eq(a, b) for a, b in zip(rest, A.shape[1:])):
            raise Unsupported("field %s changes its shape" % key)
        if kind == "f" and A.kind == "i":
            raise Unsupported("field %s changes its type" % key)
        npm.setitem(A, (o.refs,) + tuple(slice(None) for _ in rest), v)
    return o


def copies(R):
    """new individuals with the values of others"""
    h = heap()
    n = R.shape[0]
    old = h.next
    new = h.alloc(n)
    g = R.fn
    for A in list(h.fields.values()):
        f = A.fn
        A.write(lambda b: And_(le(old, b[0]), lt(b[0], add(old, n))), lambda b, f=f: f((g((S(sub(b[0], old)),)),) + tuple(b[1:])))
    return new


def pop_copy(o, *a, deep=False, **k):
    return SPop(npm.copy(o.refs))


def merge(a, b, *more):
    out = None
    for x in (a, b) + more:
        if x is None:
            continue
        if isinstance(x, (Arr,)):
            x = pop_new("X", x)
        r = refs_of(x)
        if out is None:
            out = x if type(x) is SPop else SPop(r)
        elif not is_expr(r.shape[0]) and r.shape[0] == 0:
            pass
        elif not is_expr(out.refs.shape[0]) and out.refs.shape[0] == 0:
            out = x if type(x) is SPop else SPop(r)
        else:
            out = SPop(npm.concat([out.refs, r]))
    if out is None:
        raise Raised(AssertionError, "merge")
    return out


def pop_new(*args, **kw):
    for i in range(0, len(args), 2):
        kw[args[i]] = args[i + 1]
    n = 0
    for v in kw.values():
        n = interp.length(npm.to_arr(v))
    o = SPop(heap().alloc(n))
    pop_set(o, **kw)
    return o


def pop_empty(size=0):
    return SPop(heap().alloc(size))


def pop_make(individuals=None):
    return SPop(refs_of(individuals if individuals is not None else []))


def collect(o, func, to_numpy=True):
    n = o.refs.shape[0]
    if is_expr(n):
        r = interp.interp_function(_collect, [o, func], {})
        return r.to_arr() if to_numpy and isinstance(r, interp.SeqView) else r
    r = [interp.call(func, [o.member(i)], {}) for i in range(n)]
    return npm.list_arr(r) if to_numpy else r


def pop_apply(o, func):
    """func applied to a generic member; it may only write fields of the member"""
    n = o.refs.shape[0]
    if not is_expr(n):
        for i in range(n):
            interp.call(func, [o.member(i)], {})
        return
    interp.interp_function(_apply, [o, func], {})


def _apply(pop, func):
    for i in range(len(pop)):
        func(pop[i])


def _collect(pop, func):
    return [func(pop[i]) for i in range(len(pop))]


POPM = {"get": pop_get, "set": pop_set, "copy": pop_copy, "collect": collect, "apply": pop_apply,
        "reshape": lambda o, *s: SPop(npm.reshape(o.refs, *s)), "flatten": lambda o: SPop(npm.reshape(npm.copy(o.refs), (-1,))), "view": lambda o, *a: o,
        "has": lambda o, k: k in heap().fields or k in DERIVED, "new": lambda o, *a, **k: pop_new(*a, **k), "ravel": lambda o: SPop(npm.reshape(o.refs, (-1,))),
        "merge": lambda o, *a: merge(*a), "create": lambda o, *a: pop_make(list(a)), "empty": lambda o, n=0: pop_empty(n)}


def pop_attr(o, name):
    if isinstance(o, SSub):
        r = sub_attr(o, name)
        if r is not None or name in o.attrs:
            return r
    if name == "shape":
        return o.refs.shape
    if name == "size":
        return o.refs.size
    if name == "ndim":
        return o.refs.ndim
    if name == "T":
        return SPop(npm.transpose_view(o.refs))
    if name == "dtype":
        return interp.DT["o"]
    if name in POPM:
        return interp.NatM(POPM[name], o)
    raise Unsupported("population.%s" % name)


def pop_item(o, i):
    i = i.refs if isinstance(i, SPop) else i
    r = select(o.refs, i)
    if isinstance(r, Arr):
        return SPop(r)
    return SInd(r, (o.refs, npm.norm_index(npm.pyconst(i), o.refs.shape[0])) if o.refs.ndim == 1 and npm.is_intlike(i) else None)


def pop_setitem(o, i, v):
    if isinstance(v, SInd):
        npm.setitem(o.refs, i, v.ref)
    elif isinstance(v, SPop):
        npm.setitem(o.refs, i, v.refs.snapshot())
    else:
        npm.setitem(o.refs, i, refs_of(v))


def ev_contains(s, e):
    k = flag_key(e)
    h = heap()
    if k not in h.fields:
        h.declare(k, (), "b")
    return h.read(s.ref, k)


def ev_update(s, names):
    h = heap()
    for e in names:
        k = flag_key(e)
        if k not in h.fields:
            h.declare(k, (), "b")
        h.write(s.ref, k, True)


def deepcopy(o):
    if isinstance(o, SInd):
        return ind_copy(o)
    if o.refs.ndim != 1:
        raise Unsupported("deepcopy of a shaped population")
    return SPop(copies(o.refs))


def install():
    """functions and classes of /repo whose calls go to the contract"""
    from pymoo.core.population import Population
    from pymoo.core import population as M
    from pymoo.core.individual import Individual
    import copy as C
    T = {Population: pop_make, M.merge: lambda a, b: merge(a, b)}
    T[Population.__new__] = sub_new
    T[Population.merge.__func__] = lambda cls, *a: merge(*a)
    T[Population.new.__func__] = lambda cls, *a, **k: pop_new(*a, **k)
    T[Population.create.__func__] = lambda cls, *a: pop_make(list(a))
    T[Population.empty.__func__] = lambda cls, size=0: pop_empty(size)
    T[M.pop_from_array_or_individual] = lambda a, pop=None: a if isinstance(a, SPop) else (pop_new("X", npm.to_arr(a)) if not isinstance(a, SInd) else SPop(refs_of(a)))
    return T, Population, Individual, {C.deepcopy: deepcopy, C.copy: lambda o: pop_copy(o) if isinstance(o, SPop) else ind_copy(o)}


_INST = []


def table():
    if not _INST:
        _INST.append(install())
    return _INST[0]
