"""Assumed contracts (models) of the numpy operations used by the verified functions."""
import math
import numpy as np
from . import sym
from .sym import *
from .sym import z3, _num


class AIdx:
    pass


class Sel:
    """positions where a mask holds, in order: the result of nonzero / boolean indexing"""

    def __init__(self, mask):
        c = ctx()
        self.mask = mask.snapshot()
        self.nd = mask.ndim
        self.shape = mask.shape
        self.count = c.fresh("cnt", IntSort())
        self.sel = [c.fresh_fn("sel%d" % d, 1, IntSort()) for d in range(self.nd)]
        self.pos = c.fresh_fn("pos", self.nd, IntSort())
        self.inv = {}
        c.sels.append(self)
        k, k2 = z3.Ints("$k $k2")
        tot = mask.size
        c.axiom(And(self.count >= 0, self.count <= to_z(tot)))
        sk = [s(k) for s in self.sel]
        rng = And(k >= 0, k < self.count)
        body = [And(x >= 0, x < to_z(n)) for x, n in zip(sk, self.shape)]
        m = to_b(self._at(sk))
        c.axiom(ForAll([k], z3.Implies(rng, And(*body, m, self.pos(*sk) == k)), patterns=[sk[0]]))
        sk2 = [s(k2) for s in self.sel]
        if self.nd == 1:
            c.axiom(ForAll([k, k2], z3.Implies(And(k >= 0, k < k2, k2 < self.count), sk[0] < sk2[0]),
                            patterns=[z3.MultiPattern(sk[0], sk2[0])]))
        # every masked position has a place
        ii = [Int("$i%d" % d) for d in range(self.nd)]
        p = self.pos(*ii)
        c.axiom(ForAll(ii, z3.Implies(And(*[And(x >= 0, x < to_z(n)) for x, n in zip(ii, self.shape)], to_b(self._at(ii))),
                                       And(p >= 0, p < self.count, *[s(p) == x for s, x in zip(self.sel, ii)])), patterns=[p]))
        # what a mask leaves is what its complement takes
        cc = [Int("$c%d" % d) for d in range(self.nd)]
        self.probe = to_b(S(to_b(self._at(cc))))
        neg = to_b(S(Not(self.probe)))
        for o in c.sels:
            if o is not self and o.nd == self.nd and o.probe.eq(neg) and all(dim_eq(a, b) for a, b in zip(o.shape, self.shape)):
                c.axiom(self.count + o.count == to_z(tot))
        # emptiness
        c.axiom((self.count > 0) == to_b(Exists(ii, And(*[And(x >= 0, x < to_z(n)) for x, n in zip(ii, self.shape)], to_b(self._at(ii))))))

    @property
    def flat(self):
        """one integer names a position"""
        return self.nd == 1 or self.nd == 2 and not is_expr(self.shape[1]) and self.shape[1] == 1

    def spot(self, t):
        return self.pos(t, *([z3.IntVal(0)] * (self.nd - 1)))

    def _at(self, idx):
        return cast(self.mask.fn(tuple(idx)), "b")

    def place(self, idx):
        """pos(idx) as a tracked term so that sel(pos(idx)) is idx syntactically"""
        t = self.pos(*[flatz(i) for i in idx])
        self.inv[t.get_id()] = (t, tuple(idx))
        return t

    def at(self, k):
        k = flatz(k)
        if is_expr(k) and k.get_id() in self.inv:
            return self.inv[k.get_id()][1]
        return tuple(s(k) for s in self.sel)


_CAN = {}
_CANT = {}


def canon(e):
    """identity of an expression up to the names of bound variables"""
    k = e.get_id()
    r = _CANT.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_quantifier(e):
        t = ("q", 0 if e.is_forall() else (1 if e.is_exists() else 2), tuple(e.var_sort(i).sexpr() for i in range(e.num_vars())), canon(e.body()))
    elif z3.is_var(e):
        t = ("v", z3.get_var_index(e), e.sort().sexpr())
    else:
        ch = tuple(canon(x) for x in e.children())
        t = ("c", e.sexpr()) if not ch else ("a", e.decl().get_id(), ch)
    n = _CAN.setdefault(t, len(_CAN))
    _CANT[k] = (e, n)
    return n


def lam_key(fn, shape):
    """canonical expression of an element function (used to recognise equal masks)"""
    probes = [Int("$q%d" % d) for d in range(len(shape))]
    e = fn(tuple(probes))
    if isinstance(e, GV):
        e = [(g, v) for g, v in e.alts]
        return repr([(canon(S(to_b(g))), canon(v) if is_expr(v) else repr(v)) for g, v in e])
    e = S(e) if is_expr(e) else e
    return ("#%d" % canon(e) if is_expr(e) else repr(e)) + "|" + "|".join(str(S(s)) for s in shape)


def sel_of(mask):
    c = ctx()
    key = ("sel", lam_key(lambda i: cast(mask.fn(i), "b"), mask.shape))
    if key not in c.cache:
        c.cache[key] = Sel(mask)
    return c.cache[key]


# ------------------------------------------------------------------------------------------ conversion
def const_arr(a):
    a = np.asarray(a)
    kind = {"b": "b", "i": "i", "u": "i", "f": "f"}.get(a.dtype.kind, "o")
    if a.ndim == 0:
        return pyconst(a[()])

    def fn(idx):
        idx = tuple(conc(S(flatz(i))) if is_sym(flatz(i)) else flatz(i) for i in idx)
        if all(isinstance(i, int) for i in idx):
            return pyconst(a[idx])
        if a.size and all(pyconst(x) == pyconst(a.flat[0]) for x in a.flat):
            return pyconst(a.flat[0])
        # symbolic index into constant array
        out = None
        for pos in np.ndindex(*a.shape):
            cnd = And_(*[eq(i, p) for i, p in zip(idx, pos)])
            v = pyconst(a[pos])
            out = v if out is None else ite(cnd, v, out)
        return out
    return Arr(a.shape, kind, fn)


def list_arr(lst):
    lst = list(lst)
    if not lst:
        return Arr((0,), "f", lambda idx: 0.0)
    if any(isinstance(x, (Arr, list, tuple, np.ndarray)) for x in lst):
        rows = [to_arr(x) for x in lst]
        sh = rows[0].shape
        kind = rows[0].kind
        for r in rows[1:]:
            kind = promote(kind, r.kind)
        fns = [r.fn for r in rows]

        def fn(idx):
            i = conc(S(flatz(idx[0]))) if is_sym(flatz(idx[0])) else flatz(idx[0])
            if isinstance(i, int):
                return fns[i](idx[1:])
            out = fns[-1](idx[1:])
            for k in range(len(fns) - 2, -1, -1):
                out = ite(eq(i, k), fns[k](idx[1:]), out)
            return out
        return Arr((len(lst),) + sh, kind, fn)
    kind = "b"
    for x in lst:
        kind = promote(kind, kind_of(pyconst(x)))
    vals = [cast(pyconst(x), kind) if kind != "o" else x for x in lst]

    def fn(idx):
        i = conc(S(flatz(idx[0]))) if is_sym(flatz(idx[0])) else flatz(idx[0])
        if isinstance(i, int):
            return vals[i]
        out = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            out = ite(eq(i, k), vals[k], out)
        return out
    return Arr((len(vals),), kind, fn)


def to_arr(x):
    """array, or scalar for 0-d"""
    from .interp import SeqView
    if isinstance(x, Arr):
        return x
    if isinstance(x, np.ndarray):
        return const_arr(x)
    if isinstance(x, np.generic):
        return pyconst(x)
    if isinstance(x, (list, tuple)):
        return list_arr(x)
    if isinstance(x, range):
        return list_arr(list(x))
    if isinstance(x, SeqView):
        return x.to_arr()
    if isinstance(x, (int, float, bool, str)) or x is None or is_sym(x):
        return x
    raise Unsupported("not an array: %r" % (type(x),))


def shape_of(x):
    return x.shape if isinstance(x, Arr) else ()


def getter(x):
    if isinstance(x, Arr):
        return x.fn
    return lambda idx: x


def kindv(x):
    return x.kind if isinstance(x, Arr) else kind_of(x)


def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            v = s[k]
            if not is_expr(v) and v == 1:
                continue
            if not is_expr(cur) and cur == 1:
                cur = v
            elif not dim_eq(cur, v):
                raise Unsupported("cannot broadcast dimensions %s and %s" % (cur, v))
            elif is_expr(cur) and not is_expr(v):
                cur = v
        out.append(cur)
    return tuple(out)


def bget(x, shape):
    """element function of x broadcast to shape"""
    if not isinstance(x, Arr):
        return lambda idx: x
    f, sh = x.fn, x.shape
    off = len(shape) - len(sh)
    ones = [not is_expr(v) and v == 1 and not (not is_expr(shape[off + d]) and shape[off + d] == 1) for d, v in enumerate(sh)]

    def fn(idx):
        return f(tuple(0 if ones[d] else idx[off + d] for d in range(len(sh))))
    return fn


def ew(op, *xs, kind=None):
    xs = [to_arr(x) for x in xs]
    if not any(isinstance(x, Arr) for x in xs):
        return op(*xs)
    sh = bshape(*[shape_of(x) for x in xs])
    gs = [bget(x, sh) for x in xs]
    if kind is None:
        kind = kindv(xs[0])
        for x in xs[1:]:
            kind = promote(kind, kindv(x))
    return Arr(sh, kind, lambda idx: op(*[g(idx) for g in gs]))


def arith(op, a, b):
    a, b = to_arr(a), to_arr(b)
    k = promote(kindv(a), kindv(b))
    if k == "b":
        k = "i"
    return ew(op, a, b, kind=k)


def asarray(x, kind=None):
    x = to_arr(x)
    if not isinstance(x, Arr):
        return x if kind is None else cast(x, kind)
    if kind is None or kind == x.kind:
        return x
    f = x.fn
    return Arr(x.shape, kind, lambda idx: cast(f(idx), kind))


def copy(x):
    x = to_arr(x)
    if not isinstance(x, Arr):
        return x
    r = Arr(x.shape, x.kind, x.fn)
    return r


# ------------------------------------------------------------------------------------------ indexing
def norm_index(i, n):
    """python index -> 0-based"""
    i = conc(S(i)) if is_expr(i) else i
    if isinstance(i, Flat):
        return i
    if isinstance(i, (int, bool)):
        if i < 0:
            return sub(n, -i)
        return i
    if is_expr(i):
        if not is_intlike(i):
            raise Unsupported("non-integer index")
        if ctx().known_nonneg(i):
            return i
        return ite(lt(i, 0), add(i, n), i)
    if isinstance(i, GV):
        return lift1(lambda v: norm_index(v, n), i)
    raise Unsupported("index %r" % (i,))


def _known_nonneg(self, i):
    key = ("nn", i.get_id())
    if key in self.cache:
        return True
    for l in self.loops + self.bound:
        if i.eq(l):
            return True
    if z3.is_const(i) and str(i).startswith("$"):
        return True
    if self.valid(i >= 0):
        if not any(_occ(i, b) for b in self.bound):
            self.cache[key] = i
        return True
    return False


from .sym import _occurs as _occ
Ctx.known_nonneg = _known_nonneg


def slice_norm(sl, n):
    """(start, length, step) with python clamping"""
    step = 1 if sl.step is None else conc(sl.step)
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")

    def clampd(v, lo, hi):
        v = conc(S(v)) if is_expr(v) else v
        if not is_expr(v) and not is_expr(hi) and not is_expr(lo):
            return max(lo, min(v, hi))
        c = ctx()
        if not (not is_expr(v) and not is_expr(lo) and v >= lo) and not c.valid(to_b(le(lo, v))):
            v = maxv(lo, v)
        if not c.valid(to_b(le(v, hi))):
            v = minv(v, hi)
        return v

    def bound(v, default, lo, hi):
        if v is None:
            return default
        v = pyconst(v)
        v = conc(S(v)) if is_expr(v) else v
        if isinstance(v, GV):
            raise Unsupported("guarded slice bound")
        if isinstance(v, int):
            if v < 0:
                v = sub(n, -v)
        elif not ctx().known_nonneg(v):
            v = ite(lt(v, 0), add(v, n), v)
        return clampd(v, lo, hi)
    if step > 0:
        st = bound(sl.start, 0, 0, n)
        en = bound(sl.stop, n, 0, n)
        ln = sub(en, st)
        if step > 1:
            ln = floordiv(add(ln, step - 1), step)
    else:
        st = bound(sl.start, sub(n, 1), -1, sub(n, 1))
        en = bound(sl.stop, -1, -1, sub(n, 1)) if sl.stop is not None else -1
        ln = sub(st, en)
        if step < -1:
            ln = floordiv(add(ln, -step - 1), -step)
    ln = S(ln) if is_expr(ln) else ln
    if is_expr(ln):
        if not ctx().valid(ln >= 0):
            ln = maxv(0, ln)
    else:
        ln = max(0, ln)
    return st, ln, step


def expand_idx(A, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    out = []
    n_used = 0
    for i in idx:
        if isinstance(i, Arr) and i.kind == "b":
            n_used += i.ndim
        elif i is None or i is Ellipsis:
            pass
        else:
            n_used += 1
    for i in idx:
        if i is Ellipsis:
            out.extend([slice(None)] * (A.ndim - n_used))
        else:
            out.append(i)
    if not any(i is Ellipsis for i in idx):
        out.extend([slice(None)] * (A.ndim - n_used))
    return out


def prep_idx(i):
    from .interp import SeqView
    if isinstance(i, (list, np.ndarray, SeqView)):
        i = to_arr(i)
        if isinstance(i, Arr) and not is_expr(i.shape[0]) and i.shape[0] == 0:
            i = Arr(i.shape, "i", i.fn)
        return i
    if isinstance(i, tuple):
        return tuple(prep_idx(x) for x in i)
    if isinstance(i, np.generic):
        return pyconst(i)
    return i


def getitem(A, idx):
    idx = prep_idx(idx)
    idx = expand_idx(A, idx)
    if not any(isinstance(i, Arr) for i in idx):
        return basic(A, idx)
    # one boolean mask between full slices
    q = lone_mask(idx)
    if q is not None:
        m = idx[q]
        s = sel_of(m)
        f = A.fn
        nd = m.ndim
        r = Arr(A.shape[:q] + (s.count,) + A.shape[q + nd:], A.kind, lambda ix: f(tuple(ix[:q]) + tuple(s.at(ix[q])) + tuple(ix[q + 1:])))
        if q == 0:
            r.tag = ("sel", s)
        return r
    idx2 = []
    for i in idx:
        if isinstance(i, Arr) and i.kind == "b":
            s = sel_of(i)
            idx2.extend(nz_arrays(s))
        else:
            idx2.append(i)
    idx = idx2
    advpos = [p for p, i in enumerate(idx) if isinstance(i, Arr) or is_intlike(i)]
    arrs = [idx[p] for p in advpos]
    ash = bshape(*[shape_of(a) for a in arrs])
    ags = [bget(a, ash) for a in arrs]
    contiguous = all(b - a == 1 for a, b in zip(advpos, advpos[1:]))
    # axis bookkeeping
    axes = []
    ax = 0
    for i in idx:
        if i is None:
            axes.append(None)
        else:
            axes.append(ax)
            ax += 1
    res = []       # list of ('adv', d) / ('sl', axis, start, step, len) / ('new',)
    placed = False
    for p, i in enumerate(idx):
        if p in advpos:
            if not placed and contiguous:
                res.extend(("adv", d, ash[d]) for d in range(len(ash)))
                placed = True
        elif i is None:
            res.append(("new", None, 1))
        else:
            st, ln, step = slice_norm(i, A.shape[axes[p]])
            res.append(("sl", (axes[p], st, step), ln))
    if not contiguous:
        res = [("adv", d, ash[d]) for d in range(len(ash))] + res
    shape = tuple(r[2] for r in res)
    f = A.fn
    ndA = A.ndim
    adv_axes = [axes[p] for p in advpos]

    def fn(ix):
        a_ix = [None] * len(ash)
        src = [None] * ndA
        for v, r in zip(ix, res):
            if r[0] == "adv":
                a_ix[r[1]] = v
            elif r[0] == "sl":
                axn, st, step = r[1]
                src[axn] = lin(st, step, v)
        for g, axn in zip(ags, adv_axes):
            src[axn] = nidx(g(tuple(a_ix)), A.shape[axn])
        return f(tuple(src))
    r = Arr(shape, A.kind, fn)
    if len(arrs) == 1 and isinstance(arrs[0], Arr) and arrs[0].tag and arrs[0].tag[0] == "nz":
        r.tag = ("sel", arrs[0].tag[1])
    return r


def nidx(v, n):
    if isinstance(v, GV):
        return lift1(lambda x: nidx(x, n), v)
    if isinstance(v, float) and v == int(v):
        v = int(v)
    if is_expr(v) and v.sort() == RealSort():
        v = ToInt(v)
    if isinstance(v, int) and v < 0:
        return sub(n, -v)
    return v


def lin(st, step, v):
    if isinstance(v, Flat):
        if step == 1 and not is_expr(st) and st == 0:
            return v
        v = v.z()
    if not is_expr(st) and st == 0 and step == 1:
        return v
    return S_int(add(st, mul(step, v)))


def S_int(x):
    return S(x) if is_expr(x) else x


def nz_arrays(s):
    out = []
    for d in range(s.nd):
        a = Arr((s.count,), "i", (lambda d: lambda ix: s.at(ix[0])[d])(d))
        a.tag = ("nz", s, d)
        out.append(a)
    return out


def basic(A, idx):
    """basic indexing: a view (or a scalar)"""
    res = []
    ax = 0
    fixed = {}
    for i in idx:
        if i is None:
            res.append(("new",))
        elif isinstance(i, slice):
            st, ln, step = slice_norm(i, A.shape[ax])
            res.append(("sl", ax, st, ln, step))
            ax += 1
        else:
            i = pyconst(i)
            if isinstance(i, bool) or z3.is_expr(i) and z3.is_bool(i):
                raise Unsupported("boolean scalar index")
            fixed[ax] = norm_index(i, A.shape[ax])
            ax += 1
    if ax != A.ndim:
        raise Raised(IndexError, "too many indices")
    nd = A.ndim
    shape = tuple(1 if r[0] == "new" else r[3] for r in res)

    def vmap(ix):
        src = [None] * nd
        for a, v in fixed.items():
            src[a] = v
        for v, r in zip(ix, res):
            if r[0] == "sl":
                src[r[1]] = lin(r[2], r[4], v)
        return tuple(src)

    def vinv(b):
        conds = []
        for a, v in fixed.items():
            conds.append(eqi(b[a], v))
        ix = []
        for r in res:
            if r[0] == "new":
                ix.append(0)
                continue
            _, a, st, ln, step = r
            full = not is_expr(st) and st == 0 and step == 1 and same(ln, A.shape[a])
            if full:
                ix.append(b[a])
                continue
            d = sub(flatz(b[a]), st)
            if step == 1:
                v = d
            elif step == -1:
                v = neg(d)
            else:
                v = floordiv(d, step)
                conds.append(eq(mod(d, step), 0))
            v = S_int(v)
            conds.append(le(0, v))
            conds.append(lt(v, ln))
            ix.append(v)
        return And_(*conds), tuple(ix)
    if not res:
        return A.fn(vmap(()))
    return Arr(shape, A.kind, None, base=A, vmap=vmap, vinv=vinv)


def same(a, b):
    if is_expr(a) and is_expr(b):
        return a.eq(b) or dim_eq(a, b)
    if is_expr(a) or is_expr(b):
        return dim_eq(a, b)
    return a == b


def eqi(a, b):
    if isinstance(a, Flat) and isinstance(b, Flat):
        if same(a.m, b.m):
            return And_(eqi(a.i, b.i), eqi(a.j, b.j))
    a, b = flatz(a), flatz(b)
    if is_expr(a) and is_expr(b) and a.eq(b):
        return True
    return eq(a, b)


def transpose_view(A, axes=None):
    nd = A.ndim
    axes = axes or tuple(reversed(range(nd)))
    shape = tuple(A.shape[a] for a in axes)

    def vmap(ix):
        src = [None] * nd
        for v, a in zip(ix, axes):
            src[a] = v
        return tuple(src)
    return Arr(shape, A.kind, None, base=A, vmap=vmap, vinv=lambda b: (True, tuple(b[a] for a in axes)))


def setitem(A, idx, v):
    idx = prep_idx(idx)
    idx = expand_idx(A, idx)
    v = to_arr(v)
    if not any(isinstance(i, Arr) for i in idx):
        # view assignment; a plain element assignment is a 0-d view
        res = basic(A, idx)
        if not isinstance(res, Arr):
            fixed = [norm_index(pyconst(i), n) for i, n in zip(idx, A.shape)]
            if isinstance(v, Arr):
                if all(not is_expr(s) and s == 1 for s in v.shape):
                    v = v.fn(tuple(0 for _ in v.shape))
                else:
                    raise Raised(ValueError, "setting an array element with a sequence")
            A.write(lambda b: And_(*[eqi(x, y) for x, y in zip(b, fixed)]), lambda b: v)
            return
        vb = strip(v, res)
        g = bget(vb, bshape(res.shape, shape_of(vb)))
        res.write(lambda b: True, g)
        return
    # one boolean mask between full slices
    q = lone_mask(idx)
    if q is not None:
        _mask_write(A, sel_of(idx[q]), idx[q].ndim, v, q)
        return
    # index arrays coming from nonzero over all leading axes
    tags = [i.tag for i in idx if isinstance(i, Arr)]
    arr_is = [i for i in idx if isinstance(i, Arr)]
    if all(t and t[0] == "nz" for t in tags) and len({id(t[1]) for t in tags}) == 1:
        s = tags[0][1]
        lead = idx[:s.nd]
        if len(tags) == s.nd and all(isinstance(i, Arr) and i.tag[2] == d for d, i in enumerate(lead)) \
                and all(isinstance(i, slice) and i == slice(None) for i in idx[s.nd:]):
            _mask_write(A, s, s.nd, v)
            return
    _fancy_write(A, idx, v)


def strip(v, res):
    """drop leading axes of length one beyond the target's"""
    if isinstance(v, Arr):
        while v.ndim > res.ndim and not is_expr(v.shape[0]) and v.shape[0] == 1:
            f = v.fn
            v = Arr(v.shape[1:], v.kind, (lambda f: lambda ix: f((0,) + tuple(ix)))(f))
    return v


def lone_mask(idx):
    ms = [p for p, i in enumerate(idx) if isinstance(i, Arr) and i.kind == "b"]
    if len(ms) == 1 and all(p == ms[0] or (isinstance(i, slice) and i == slice(None)) for p, i in enumerate(idx)):
        return ms[0]
    return None


def _mask_write(A, s, nd, v, q=0):
    mf = s.mask.fn
    tgt = A.shape[:q] + (s.count,) + A.shape[q + nd:]
    if isinstance(v, Arr):
        sh = v.shape
        # broadcasting of v against (lead, count, rest)
        p = q - (len(tgt) - len(sh))
        if 0 <= p < len(sh) and not (not is_expr(sh[p]) and sh[p] == 1):
            if not dim_eq(sh[p], s.count):
                raise Unsupported("mask assignment with different length")
        g = bget(v, tgt if len(sh) <= len(tgt) else sh)
    else:
        g = lambda ix: v

    def cond(b):
        return cast(mf(tuple(b[q:q + nd])), "b")

    def val(b):
        if not isinstance(v, Arr):
            return v
        return g(tuple(b[:q]) + (s.place(b[q:q + nd]),) + tuple(b[q + nd:]))
    A.write(cond, val)


def _fancy_write(A, idx, v):
    """A[I, ...] = v for general integer index arrays; a later duplicate wins"""
    c = ctx()
    idx2 = []
    for i in idx:
        if isinstance(i, Arr) and i.kind == "b":
            idx2.extend(nz_arrays(sel_of(i)))
        else:
            idx2.append(i)
    idx = idx2
    if any(i is None for i in idx):
        raise Unsupported("newaxis in assignment")
    arr_axes = [a for a, i in enumerate(idx) if isinstance(i, Arr)]
    int_axes = {a: norm_index(i, A.shape[a]) for a, i in enumerate(idx) if is_intlike(i)}
    sl_axes = {a: slice_norm(i, A.shape[a]) for a, i in enumerate(idx) if isinstance(i, slice)}
    ash = bshape(*[idx[a].shape for a in arr_axes])
    if len(ash) != 1:
        raise Unsupported("multi-dimensional index assignment")
    n = ash[0]
    gs = {a: bget(idx[a], ash) for a in arr_axes}
    full = [a for a in sl_axes]
    if isinstance(v, Arr):
        tgt = (n,) + tuple(sl_axes[a][1] for a in full)
        g = bget(v, tgt if v.ndim <= len(tgt) else v.shape)
    else:
        g = lambda ix: v
    if not is_expr(n) and n <= 16:
        for k in range(n):
            def cond(b, k=k):
                cs = [eqi(b[a], nidx(gs[a]((k,)), A.shape[a])) for a in arr_axes] + [eqi(b[a], x) for a, x in int_axes.items()]
                for a, (st, ln, step) in sl_axes.items():
                    if not (not is_expr(st) and st == 0 and step == 1 and same(ln, A.shape[a])):
                        raise Unsupported("partial slice in index assignment")
                return And_(*cs)
            A.write(cond, lambda b, k=k: g((k,) + tuple(b[a] for a in full)))
        return
    for a, (st, ln, step) in sl_axes.items():
        if not (not is_expr(st) and st == 0 and step == 1 and same(ln, A.shape[a])):
            raise Unsupported("partial slice in index assignment")
    last = c.fresh_fn("last", len(arr_axes), IntSort())
    ii = [Int("$w%d" % d) for d in range(len(arr_axes))]
    k = Int("$k")
    L = last(*ii)
    hit = lambda kk: And(kk >= 0, kk < to_z(n), *[to_b(eq(nidx(gs[a]((kk,)), A.shape[a]), x)) for a, x in zip(arr_axes, ii)])
    ex = Exists([k], hit(k))
    c.assume(ForAll(ii, z3.Implies(ex, And(hit(L), ForAll([k], z3.Implies(And(hit(k)), k <= L)))), patterns=[L]))
    c.assume(ForAll(ii, z3.Implies(Not(ex), L == -1), patterns=[L]))
    # every written position is found by its own index
    c.assume(ForAll([k], z3.Implies(And(k >= 0, k < to_z(n)), last(*[to_z(nidx(gs[a]((k,)), A.shape[a])) for a in arr_axes]) >= k)))

    def cond(b):
        return And_(last(*[flatz(b[a]) for a in arr_axes]) >= 0, *[eqi(b[a], x) for a, x in int_axes.items()])

    def val(b):
        return g((last(*[flatz(b[a]) for a in arr_axes]),) + tuple(b[a] for a in full))
    A.write(cond, val)


# ------------------------------------------------------------------------------------------ reductions
def bounded_quant(n, body, forall):
    n = conc(S(n)) if is_expr(n) else n
    if isinstance(n, int) and n <= 8:
        vals = [body(k) for k in range(n)]
        return And_(*vals) if forall else Or_(*vals)
    c = ctx()
    c.nfresh += 1
    k = Int("$b%d" % (len(c.bound)))
    c.bound.append(k)
    try:
        b = body(k)
    finally:
        c.bound.pop()
    if isinstance(b, GV):
        b = gv_bool(b)
    b = conc(S(b)) if is_expr(b) else b
    if not is_expr(b):
        if forall:
            return True if b else S(to_z(n) <= 0)
        return S(to_z(n) > 0) if b else False
    rng = And(k >= 0, k < to_z(n))
    return ForAll([k], z3.Implies(rng, to_b(b))) if forall else Exists([k], And(rng, to_b(b)))


def square(e):
    """x*x with one choice of sign for x"""
    if not (is_expr(e) and z3.is_app_of(e, z3.Z3_OP_MUL)):
        return None
    ch = e.children()
    if len(ch) != 2 or not ch[0].eq(ch[1]):
        return None
    x = ch[0]
    if z3.is_app_of(x, z3.Z3_OP_DIV):
        a, b = x.children()
        if z3.is_app_of(a, z3.Z3_OP_ADD):
            m = simplify(-a)
            x = (m if m.sexpr() < a.sexpr() else a) / b
            return x * x
        return None
    if not z3.is_app_of(x, z3.Z3_OP_ADD):
        return None
    m = simplify(-x)
    x = m if m.sexpr() < x.sexpr() else x
    return x * x


def split_terms(e, k, sign=1):
    """linear splitting of a sum body: [(coefficient independent of k, body)]"""
    e = S(e) if is_expr(e) else e
    if not is_expr(e):
        return [(e, None)]
    if not _occ(e, k):
        return [(e, None)]
    d = e.decl().kind()
    if d == z3.Z3_OP_ADD:
        return [t for ch in e.children() for t in split_terms(ch, k)]
    if d == z3.Z3_OP_SUB:
        ch = e.children()
        return split_terms(ch[0], k) + [(mul(-1, c), b) for x in ch[1:] for c, b in split_terms(x, k)]
    if d == z3.Z3_OP_UMINUS:
        return [(mul(-1, c), b) for c, b in split_terms(e.children()[0], k)]
    if d == z3.Z3_OP_MUL:
        q = square(e)
        if q is not None:
            return [(1, q)]
        ch = e.children()
        free = [x for x in ch if not _occ(x, k)]
        dep = [x for x in ch if _occ(x, k)]
        if len(dep) == 1:
            cf = 1
            for x in free:
                cf = mul(cf, x)
            return [(mul(cf, c), b) for c, b in split_terms(dep[0], k)]
        # distribute one sum factor
        for p, x in enumerate(dep):
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                rest = free + dep[:p] + dep[p + 1:]
                r = rest[0]
                for y in rest[1:]:
                    r = r * y
                out = []
                chs = x.children()
                for q, y in enumerate(chs):
                    sg = -1 if (x.decl().kind() == z3.Z3_OP_SUB and q > 0) else 1
                    out += [(mul(sg, c), b) for c, b in split_terms(y * r, k)]
                return out
        if free:
            r = dep[0]
            for y in dep[1:]:
                r = r * y
            cf = free[0]
            for y in free[1:]:
                cf = cf * y
            return [(cf, r)]
    if d == z3.Z3_OP_DIV:
        a, b = e.children()
        if not _occ(b, k):
            return [(div(c, b), bb) for c, bb in split_terms(a, k)]
    if d == z3.Z3_OP_ITE:
        cnd, a, b = e.children()
        if not _occ(cnd, k):
            return [(ite(cnd, c, 0), bb) for c, bb in split_terms(a, k)] + [(ite(cnd, 0, c), bb) for c, bb in split_terms(b, k)]
    if d == z3.Z3_OP_TO_REAL:
        return [(c if not is_expr(c) else to_z(c, True), None if b is None else to_z(b, True)) for c, b in split_terms(e.children()[0], k)]
    return [(1, e)]


SUMF = Function("SUM", ArraySort(IntSort(), RealSort()), IntSort(), RealSort())
SUMI = Function("SUMI", ArraySort(IntSort(), IntSort()), IntSort(), IntSort())


def sum_term(body, n, real, k):
    c = ctx()
    body = simplify(to_z(body, real))
    v = Int("$s")
    lam = Lambda([v], substitute(body, (k, v)))
    t = (SUMF if real else SUMI)(lam, to_z(n))
    key = ("sum", t.get_id())
    if key not in c.cache:
        c.cache[key] = t
    return t


def in_range_value(b, k, n):
    """alternatives that cannot occur for an index in the range dropped"""
    if not isinstance(b, GV):
        return b
    c = ctx()
    left = [(g, v) for g, v in b.alts if not (special(v) and c.check(k >= 0, k < to_z(n), to_b(g)) == unsat)]
    if len(left) == 1:
        return left[0][1]
    return mk_gv(left)


def unpermuted(b, k, n):
    """the terms in their original order, where they are all the terms of a sequence in sorted order"""
    if not is_expr(b):
        return b
    apps, others, st, seen = [], False, [b], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            others = True
        elif z3.is_app(x):
            if x.num_args() == 3 and x.decl().name() in sym.PLACES and x.arg(2).eq(k) and not _occ(x.arg(0), k) and not _occ(x.arg(1), k) and dim_eq(x.arg(1), n):
                apps.append(x)
            else:
                st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    if others or len(apps) != 1:
        return b
    return z3.substitute(b, (apps[0], k))


def reduce_sum(fn, n, kind="f"):
    n = conc(S(n)) if is_expr(n) else n
    if isinstance(n, int) and n <= 12:
        t = 0 if kind in "bi" else 0.0
        for k in range(n):
            t = add(t, fn(k))
        return t
    c = ctx()
    k = Int("$t%d" % len(c.bound))
    c.bound.append(k)
    try:
        b = fn(k)
    finally:
        c.bound.pop()
    b = in_range_value(b, k, n)
    if isinstance(b, GV):
        return sum_of_specials(fn, n, kind)
    b = _num(b)
    if is_expr(b):
        b = unpermuted(simplify(b), k, n)
    real = kind == "f" or (is_expr(b) and b.sort() == RealSort()) or isinstance(b, float)
    if special(b):
        return b
    tot = 0.0 if real else 0
    acc = []
    for cf, bb in split_terms(b, k):
        if bb is None:
            tot = add(tot, mul(cf, to_z(n, real) if is_expr(n) else n))
        else:
            acc.append((cf, sum_term(bb, n, real, k)))
    if len(acc) > 1:
        # one order, whatever order the terms were written in
        acc.sort(key=lambda t: t[1].sexpr())
    for cf, st in acc:
        tot = add(tot, mul(cf, st) if not (not is_expr(cf) and cf == 1) else st)
    if is_expr(tot) and nonneg(b):
        c.axiom(tot >= 0)
    return tot


def sum_of_specials(fn, n, kind):
    """numbers among which may be infinite ones and nan"""
    def when(test):
        def at(k):
            v = in_range_value(fn(k), k, n)
            gs = [to_b(g) for g, x in v.alts if test(x)] if isinstance(v, GV) else [BoolVal(test(v))]
            return sym.tidy(Or(*gs)) if gs else False
        return bounded_quant(n, at, False)

    def number(k):
        v = in_range_value(fn(k), k, n)
        if not isinstance(v, GV):
            return v
        for g, x in v.alts:
            if not special(x) and not (isinstance(x, (int, float)) or is_expr(x)):
                raise Unsupported("sum of other than numbers")
        r = mk_gv([(sym.tidy(g), 0.0 if special(x) else x) for g, x in v.alts])
        return sym.case_tree(r) if is_expr(r) else r
    up, down, no = (when(lambda x, t=t: special(x) and t(x)) for t in (lambda x: x == INF, lambda x: x == -INF, lambda x: x != x))
    no = Or_(no, And_(up, down))
    return mk_gv([(to_b(no), NAN), (to_b(And_(Not_(no), up)), INF), (to_b(And_(Not_(no), down)), -INF),
                  (to_b(And_(Not_(no), Not_(up), Not_(down))), reduce_sum(number, n, kind))])


def _lam(fn, n, real, whole=False):
    c = ctx()
    k = Int("$m%d" % len(c.bound))
    c.bound.append(k)
    try:
        b = fn(k)
    finally:
        c.bound.pop()
    b = in_range_value(b, k, n)
    if isinstance(b, GV):
        raise Unsupported("extremum of possibly non-finite values")
    b = simplify(to_z(_num(b), real))
    if whole:
        b = unpermuted(b, k, n)
    v = Int("$x")
    return Lambda([v], substitute(b, (k, v))), (lambda i: substitute(b, (k, to_z(i))))


def _ext(fn, n, kind, which):
    n = conc(S(n)) if is_expr(n) else n
    if isinstance(n, int) and n <= 8:
        if n == 0:
            raise Raised(ValueError, "zero-size array to reduction operation")
        r = fn(0)
        for k in range(1, n):
            r = maxv(r, fn(k)) if which == "max" else minv(r, fn(k))
        return r
    c = ctx()
    # guarded infinities: handled for the pattern "finite or one signed infinity"
    real = kind == "f"
    srt = RealSort() if real else IntSort()
    probe = fn(Int("$z"))
    if special(probe):
        return probe
    lam, at = _lam(fn, n, real, whole=True)
    nm = ("MAX" if which == "max" else "MIN") + ("R" if real else "I")
    F = Function(nm, ArraySort(IntSort(), srt), IntSort(), srt)
    W = Function("arg" + nm, ArraySort(IntSort(), srt), IntSort(), IntSort())
    t, w = F(lam, to_z(n)), W(lam, to_z(n))
    key = (nm, t.get_id())
    if key not in c.cache:
        c.cache[key] = t
        if nonneg(lam.body()):
            c.axiom(z3.Implies(to_z(n) > 0, t >= 0))
    return t


def ext_arg(fn, n, kind, which):
    n = conc(S(n)) if is_expr(n) else n
    if isinstance(n, int) and n <= 8:
        best, bi = fn(0), 0
        for k in range(1, n):
            v = fn(k)
            if _nan(best):
                break
            cnd = lt(best, v) if which == "max" else lt(v, best)
            bi = ite(cnd, k, bi)
            best = ite(cnd, v, best)
        return bi
    t = _ext(fn, n, kind, which)
    if not is_expr(t):
        return 0
    return Function("arg" + t.decl().name(), t.arg(0).sort(), IntSort(), IntSort())(t.arg(0), t.arg(1))


def _nan(x):
    return isinstance(x, float) and math.isnan(x)


def norm_axis(axis, nd):
    return axis + nd if axis < 0 else axis


def reduce_axis(A, axis, red, kind, keepdims=False):
    """red(fn, n) over axis; axis None flattens"""
    A = to_arr(A)
    if not isinstance(A, Arr):
        return red(lambda k: A, 1)
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    f = A.fn
    if axis is None:
        if A.ndim == 1:
            r = red(lambda k: f((k,)), A.shape[0])
        else:
            g, shp = f, A.shape

            def nest(pref, d):
                if d == A.ndim - 1:
                    return red(lambda k: f(tuple(pref) + (k,)), shp[d])
                return red(lambda k: nest(tuple(pref) + (k,), d + 1), shp[d])
            r = nest((), 0)
        return r
    axis = norm_axis(conc(axis), A.ndim)
    if A.ndim == 1:
        r = red(lambda k: f((k,)), A.shape[0])
        if keepdims:
            return Arr((1,), kind, lambda ix: r)
        return r
    shp = A.shape[:axis] + A.shape[axis + 1:]
    n = A.shape[axis]

    def fn(ix):
        return red(lambda k: f(tuple(ix[:axis]) + (k,) + tuple(ix[axis:])), n)
    if keepdims:
        sh2 = A.shape[:axis] + (1,) + A.shape[axis + 1:]
        return Arr(sh2, kind, lambda ix: fn(tuple(ix[:axis]) + tuple(ix[axis + 1:])))
    return Arr(shp, kind, fn)


def any_(A, axis=None, **kw):
    return reduce_axis(A, axis, lambda fn, n: bounded_quant(n, lambda k: cast(fn(k), "b"), False), "b", kw.get("keepdims", False))


def all_(A, axis=None, **kw):
    return reduce_axis(A, axis, lambda fn, n: bounded_quant(n, lambda k: cast(fn(k), "b"), True), "b", kw.get("keepdims", False))


def sum_(A, axis=None, **kw):
    A = to_arr(A)
    k = "i" if kindv(A) in "bi" else "f"
    return reduce_axis(A, axis, lambda fn, n: reduce_sum(fn, n, k), k, kw.get("keepdims", False))


def max_(A, axis=None, **kw):
    A = to_arr(A)
    return reduce_axis(A, axis, lambda fn, n: _ext(fn, n, kindv(A), "max"), kindv(A), kw.get("keepdims", False))


def min_(A, axis=None, **kw):
    A = to_arr(A)
    return reduce_axis(A, axis, lambda fn, n: _ext(fn, n, kindv(A), "min"), kindv(A), kw.get("keepdims", False))


def one_axis(A, what):
    """the elements in one row, when only one axis has more than one"""
    big = [d for d, x in enumerate(A.shape) if is_expr(x) or x != 1]
    if len(big) > 1:
        raise Unsupported(what)
    f, d = A.fn, (big or [0])[0]
    return Arr((A.shape[d],), A.kind, lambda ix: f(tuple(ix[0] if e == d else 0 for e in range(A.ndim))))


def argmax_(A, axis=None, **kw):
    A = to_arr(A)
    if axis is None and A.ndim > 1:
        A = one_axis(A, "flat argmax")
    return reduce_axis(A, axis, lambda fn, n: ext_arg(fn, n, kindv(A), "max"), "i")


def argmin_(A, axis=None, **kw):
    A = to_arr(A)
    if axis is None and A.ndim > 1:
        A = one_axis(A, "flat argmin")
    return reduce_axis(A, axis, lambda fn, n: ext_arg(fn, n, kindv(A), "min"), "i")


def mean_(A, axis=None, **kw):
    A = to_arr(A)
    s = sum_(asarray(A, "f"), axis)
    n = A.size if axis is None else A.shape[norm_axis(axis, A.ndim)]
    return ew(lambda v: div(v, n), s, kind="f")


# ------------------------------------------------------------------------------------------ sorting
def sort_perm(fn, n, kind, k):
    """k-th element of a sorting permutation of fn over 0..n-1 (tie order unspecified)"""
    c = ctx()
    n = conc(S(n)) if is_expr(n) else n
    real = kind == "f"
    srt = RealSort() if real else IntSort()
    lam, at = _lam(fn, n, real)
    P = Function("SORTP" + ("R" if real else "I"), ArraySort(IntSort(), srt), IntSort(), IntSort(), IntSort())
    Q = Function("SORTQ" + ("R" if real else "I"), ArraySort(IntSort(), srt), IntSort(), IntSort(), IntSort())
    nz = to_z(n)
    key = ("perm", P(lam, nz, IntVal(0)).get_id())
    if key not in c.cache:
        c.cache[key] = (lam, P(lam, nz, IntVal(0)))
    kz = to_z(flatz(k))
    # the element whose place this is
    if z3.is_app(kz) and kz.decl().eq(Q) and kz.arg(0).eq(lam) and kz.arg(1).eq(nz):
        return kz.arg(2)
    return P(lam, nz, kz)


def place_in_order(f, n, axis, ndim):
    """the values along the axis are a sorting permutation of all positions: sorting them gives its inverse"""
    c = ctx()
    ks = [Int("$as%d" % d) for d in range(ndim)]
    try:
        t = flatz(f(tuple(ks)))
    except Unsupported:
        return None
    k = ks[axis]
    if not is_expr(t) or not z3.is_app(t) or t.num_args() == 0 or not t.arg(t.num_args() - 1).eq(k):
        return None
    nm = t.decl().name()
    if any(_occ(x, k) for x in t.children()[:-1]):
        return None
    if nm in ("SORTPR", "SORTPI"):
        if not z3.simplify(t.arg(1) - to_z(n)).eq(IntVal(0)):
            return None
        Q = Function("SORTQ" + nm[-1], t.decl().domain(0), IntSort(), IntSort(), IntSort())
        return lambda ix: Q(*[z3.substitute(x, *[(a, to_z(flatz(i))) for a, i in zip(ks, ix)]) for x in t.children()])
    return None


def argsort_(A, axis=-1, **kw):
    A = to_arr(A)
    axis = norm_axis(axis, A.ndim)
    if A.kind == "i":
        back = place_in_order(A.fn, A.shape[axis], axis, A.ndim)
        if back is not None:
            return Arr(A.shape, "i", back)
    f, n, kd = A.fn, A.shape[axis], ("f" if A.kind == "f" else "i")
    r = Arr(A.shape, "i", lambda ix: sort_perm(lambda k: f(tuple(ix[:axis]) + (k,) + tuple(ix[axis + 1:])), n, kd, ix[axis]))
    if A.ndim == 1:
        r.tag = ("perm",)
    return r


def sort_(A, axis=-1, **kw):
    A = to_arr(A)
    axis = norm_axis(axis, A.ndim)
    P = argsort_(A, axis)
    f, p = A.fn, P.fn
    return Arr(A.shape, A.kind, lambda ix: f(tuple(ix[:axis]) + (p(ix),) + tuple(ix[axis + 1:])))


def lexsort(keys, axis=-1):
    """a sorting permutation, the last key being the most important one; equal elements keep their order"""
    if isinstance(keys, Arr):
        if is_expr(keys.shape[0]):
            raise Unsupported("lexsort with a symbolic number of keys")
        keys = [getitem(keys, i) for i in range(keys.shape[0])]
    keys = [to_arr(k) for k in keys]
    if axis not in (-1, 0) or not keys or any(not isinstance(k, Arr) or k.ndim != 1 or k.kind not in "fib" for k in keys):
        raise Unsupported("lexsort of other than vectors")
    n, c = keys[0].shape[0], ctx()
    for k in keys[1:]:
        if not dim_eq(k.shape[0], n):
            raise Unsupported("lexsort of different lengths")
    fs = [k.snapshot().fn for k in keys]
    P, Q = c.fresh_fn("lexp", 1, IntSort()), c.fresh_fn("lexq", 1, IntSort())
    a, b = z3.Ints("$la $lb")
    nz = to_z(n)
    inr = lambda x: And(x >= 0, x < nz)
    sym.INVERSE[P(a).decl().name()] = Q(a).decl()
    c.axiom(ForAll([a], z3.Implies(inr(a), And(inr(P(a)), Q(P(a)) == a)), patterns=[P(a)]))
    c.axiom(ForAll([a], z3.Implies(inr(a), And(inr(Q(a)), P(Q(a)) == a)), patterns=[Q(a)]))
    before = P(a) < P(b)
    for f in fs:
        x, y = (flatz(f((P(t),))) for t in (a, b))
        if isinstance(x, GV) or isinstance(y, GV):
            raise Unsupported("lexsort of infinite values")
        x, y = (to_z(cast(t, "i") if is_bool(t) else t) for t in (x, y))
        before = Or(x < y, And(x == y, before))
    c.axiom(ForAll([a, b], z3.Implies(And(a >= 0, a < b, b < nz), before), patterns=[z3.MultiPattern(P(a), P(b))]))
    return Arr((n,), "i", lambda ix: P(flatz(ix[0])))


def unique_(A, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    """the distinct values in increasing order: value q is first found at position first(q), the value at i is number pos(i)"""
    A = to_arr(A)
    if kw or (axis is not None and A.ndim != 1) or not isinstance(A, Arr) or A.kind not in "fi":
        raise Unsupported("np.unique with %s" % (sorted(kw) or axis))
    X = reshape(A, -1) if A.ndim != 1 else A
    X = X.snapshot()
    n, c = X.shape[0], ctx()
    at = lambda i: to_z(X.fn((i,)), A.kind == "f")
    cnt, first, pos = c.fresh("ucnt", IntSort()), c.fresh_fn("ufirst", 1, IntSort()), c.fresh_fn("upos", 1, IntSort())
    q, q2, i = z3.Ints("$uq $ur $ui")
    nz = to_z(n)
    c.axiom(And(cnt >= 0, cnt <= nz, (cnt > 0) == (nz > 0)))
    f, p = first(q), pos(i)
    c.axiom(ForAll([q], z3.Implies(And(q >= 0, q < cnt), And(f >= 0, f < nz, pos(f) == q)), patterns=[f]))
    c.axiom(ForAll([i], z3.Implies(And(i >= 0, i < nz), And(p >= 0, p < cnt, at(first(p)) == at(i), first(p) <= i)), patterns=[p]))
    c.axiom(ForAll([q, q2], z3.Implies(And(q >= 0, q < q2, q2 < cnt), at(first(q)) < at(first(q2))), patterns=[z3.MultiPattern(first(q), first(q2))]))
    out = [Arr((cnt,), A.kind, lambda ix: X.fn((first(flatz(ix[0])),)))]
    if return_index:
        out.append(Arr((cnt,), "i", lambda ix: first(flatz(ix[0]))))
    if return_inverse:
        out.append(reshape(Arr((n,), "i", lambda ix: pos(flatz(ix[0]))), A.shape) if A.ndim != 1 else Arr((n,), "i", lambda ix: pos(flatz(ix[0]))))
    if return_counts:
        out.append(Arr((cnt,), "i", lambda ix: reduce_sum(lambda k: ite(eq(X.fn((k,)), X.fn((first(flatz(ix[0])),))), 1, 0), n, "i")))
    return out[0] if len(out) == 1 else tuple(out)


# ------------------------------------------------------------------------------------------ construction
def shape_arg(s):
    s = pyconst(s) if not isinstance(s, (tuple, list, Arr)) else s
    if isinstance(s, Arr):
        return tuple(s.fn((k,)) for k in range(s.shape[0]))
    if isinstance(s, (tuple, list)):
        return tuple(to_dim(pyconst(x)) for x in s)
    return (to_dim(s),)


def to_dim(x):
    if isinstance(x, float) and x == int(x):
        return int(x)
    if is_expr(x) and x.sort() == RealSort():
        return S(ToInt(x))
    if isinstance(x, GV):
        raise Unsupported("guarded dimension")
    return x


def dtype_kind(d):
    if d is None:
        return None
    if d is float or d in ("float", "f8", "d"):
        return "f"
    if d is int or d in ("int", "i8"):
        return "i"
    if d is bool or d in ("bool",):
        return "b"
    if d is object or d == "object":
        return "o"
    try:
        return {"b": "b", "i": "i", "u": "i", "f": "f"}.get(np.dtype(d).kind, "o")
    except TypeError:
        return "o"


def full(shape, v, dtype=None, **kw):
    shape = shape_arg(shape)
    v = to_arr(v)
    k = dtype_kind(dtype) or kindv(v)
    if isinstance(v, Arr):
        g = bget(v, shape)
        return Arr(shape, k, lambda ix: cast(g(ix), k))
    v = cast(v, k)
    return Arr(shape, k, lambda ix: v)


def zeros(shape, dtype=float, **kw):
    return full(shape, 0, dtype or float)


def ones(shape, dtype=float, **kw):
    return full(shape, 1, dtype or float)


def zeros_like(A, dtype=None, **kw):
    A = to_arr(A)
    return full(A.shape, 0, dtype_kind(dtype) and dtype or {"f": float, "i": int, "b": bool, "o": object}[A.kind])


def ones_like(A, dtype=None, **kw):
    A = to_arr(A)
    return full(A.shape, 1, dtype or {"f": float, "i": int, "b": bool, "o": object}[A.kind])


def full_like(A, v, dtype=None, **kw):
    A = to_arr(A)
    return full(A.shape, v, dtype or {"f": float, "i": int, "b": bool, "o": object}[A.kind])


def arange(*a, dtype=None, **kw):
    a = [pyconst(x) for x in a]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not all(is_intlike(x) for x in (lo, hi, st)):
        raise Unsupported("non-integer arange")
    if st != 1:
        if not is_sym(st) and not is_sym(lo) and not is_sym(hi):
            return list_arr(list(range(lo, hi, st)))
        raise Unsupported("arange step")
    n = sub(hi, lo)
    n = S(n) if is_expr(n) else n
    n = max(0, n) if isinstance(n, int) else (n if ctx().valid(n >= 0) else maxv(0, n))
    k = dtype_kind(dtype) or "i"
    r = Arr((n,), k, lambda ix: cast(add(lo, flatz(ix[0])), k))
    if not is_expr(lo) and lo == 0:
        r.tag = ("perm",)
    return r


def eye(n, m=None, **kw):
    m = n if m is None else m
    return Arr((n, m), "f", lambda ix: ite(eqi(ix[0], ix[1]), 1.0, 0.0))


def repeat(A, reps, axis=None):
    A = to_arr(A)
    reps = pyconst(reps)
    if isinstance(reps, Arr):
        raise Unsupported("array repeats")
    if not isinstance(A, Arr):
        return full(reps, A)
    if axis is None:
        if A.ndim != 1:
            raise Unsupported("flat repeat of a matrix")
        axis = 0
    axis = norm_axis(axis, A.ndim)
    f, n = A.fn, A.shape[axis]
    m = mul(n, reps)
    one = not is_expr(n) and n == 1

    def fn(ix):
        k = ix[axis]
        if one:
            k = 0
        elif isinstance(k, Flat) and same(k.m, reps):
            k = k.i
        else:
            k = floordiv(flatz(k), reps)
        return f(tuple(ix[:axis]) + (k,) + tuple(ix[axis + 1:]))
    return Arr(A.shape[:axis] + (S_int(m),) + A.shape[axis + 1:], A.kind, fn)


def tile(A, reps):
    A = to_arr(A)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    if not isinstance(A, Arr):
        return full(reps, A)
    sh = list(A.shape)
    f = A.fn
    nd0 = A.ndim
    while len(sh) < len(reps):
        sh.insert(0, 1)
    while len(reps) < len(sh):
        reps.insert(0, 1)
    off = len(sh) - nd0

    def fn(ix):
        src = []
        for d in range(off, len(sh)):
            k, n, r = ix[d], sh[d], reps[d]
            if not is_expr(r) and r == 1:
                src.append(k)
            elif not is_expr(n) and n == 1:
                src.append(0)
            elif isinstance(k, Flat) and same(k.m, n):
                src.append(k.j)
            else:
                src.append(mod(flatz(k), n))
        return f(tuple(src))
    return Arr(tuple(S_int(mul(a, b)) for a, b in zip(sh, reps)), A.kind, fn)


def reshape(A, *shape, **kw):
    A = to_arr(A)
    if len(shape) == 1:
        shape = shape[0]
    shape = list(shape_arg(shape))
    if not isinstance(A, Arr):
        if all(not is_expr(s) and s in (1, -1) for s in shape):
            return Arr((1,) * len(shape), kind_of(A), lambda ix: A)
        raise Unsupported("reshape of scalar")
    neg1 = [d for d, s in enumerate(shape) if not is_expr(s) and s == -1]
    if neg1:
        rest = 1
        for d, s in enumerate(shape):
            if d != neg1[0]:
                rest = mul(rest, s)
        shape[neg1[0]] = S_int(A.size) if (not is_expr(rest) and rest == 1) else S_int(floordiv(A.size, rest))
    src = list(A.shape)
    if len(src) == len(shape) and all(same(a, b) for a, b in zip(src, shape)):
        return Arr(shape, A.kind, None, base=A, vmap=lambda ix: ix, vinv=lambda b: (True, b))
    # drop ones on both sides
    s1 = [d for d, s in enumerate(src) if not (not is_expr(s) and s == 1)]
    t1 = [d for d, s in enumerate(shape) if not (not is_expr(s) and s == 1)]
    f = A.fn
    if len(s1) == len(t1) and all(same(src[a], shape[b]) for a, b in zip(s1, t1)):
        def fn(ix):
            out = [0] * len(src)
            for a, b in zip(s1, t1):
                out[a] = ix[b]
            return f(tuple(out))

        def vinv(b):
            out = [0] * len(shape)
            for a, bb in zip(s1, t1):
                out[bb] = b[a]
            return True, tuple(out)

        def vmap(ix):
            out = [0] * len(src)
            for a, b in zip(s1, t1):
                out[a] = ix[b]
            return tuple(out)
        return Arr(shape, A.kind, None, base=A, vmap=vmap, vinv=vinv)
    if A.ndim == 1 and len(shape) == 2:
        m = shape[1]
        return Arr(shape, A.kind, lambda ix: f((Flat(ix[0], ix[1], m),)))
    if A.ndim == 2 and len(shape) == 1:
        m = src[1]

        def fn(ix):
            k = ix[0]
            if isinstance(k, Flat) and same(k.m, m):
                return f((k.i, k.j))
            k = flatz(k)
            return f((floordiv(k, m), mod(k, m)))
        return Arr(shape, A.kind, fn)
    if A.ndim == 2 and len(shape) == 2:
        return reshape(reshape(A, (A.size,)), tuple(shape))
    raise Unsupported("reshape %s -> %s" % (src, shape))


def concat(arrs, axis=0):
    from .interp import SeqView
    if isinstance(arrs, SeqView) and is_expr(arrs.n):
        A = arrs.to_arr()
        if axis != 0:
            raise Unsupported("concatenating a symbolic sequence")
        return reshape(A, (S_int(mul(A.shape[0], A.shape[1])),) + A.shape[2:])
    arrs = [to_arr(a) for a in arrs]
    arrs = [a for a in arrs]
    if not arrs:
        raise Raised(ValueError, "need at least one array to concatenate")
    axis = norm_axis(axis, arrs[0].ndim)
    kind = arrs[0].kind
    for a in arrs[1:]:
        kind = promote(kind, a.kind)
    fns = [a.fn for a in arrs]
    lens = [a.shape[axis] for a in arrs]
    offs = [0]
    for l in lens:
        offs.append(S_int(add(offs[-1], l)))
    rest = arrs[0].shape[:axis] + arrs[0].shape[axis + 1:]
    for a in arrs[1:]:
        r2 = a.shape[:axis] + a.shape[axis + 1:]
        if len(r2) != len(rest) or not all(same(x, y) for x, y in zip(rest, r2)):
            raise Unsupported("concatenate shapes")

    def fn(ix):
        k = flatz(ix[axis])
        out = None
        for p in range(len(fns) - 1, -1, -1):
            if not is_expr(lens[p]) and lens[p] == 0:
                continue
            kk = S_int(sub(k, offs[p]))
            if not is_sym(kk) and (kk < 0 or (not is_expr(lens[p]) and kk >= lens[p])):
                continue
            v = lambda: fns[p](tuple(ix[:axis]) + (kk,) + tuple(ix[axis + 1:]))
            if out is None:
                out = v()
            else:
                cnd = lt(k, offs[p + 1])
                cnd = S(cnd) if is_expr(cnd) else cnd
                out = v() if cnd is True else (out if cnd is False else ite(cnd, v(), out))
        if out is None:
            return 0
        return cast(out, kind)
    sh = arrs[0].shape[:axis] + (offs[-1],) + arrs[0].shape[axis + 1:]
    return Arr(sh, kind, fn)


def column_stack(cols):
    from .interp import SeqView
    if isinstance(cols, SeqView):
        A = to_arr(cols)
        if A.ndim != 2:
            raise Unsupported("column_stack of a symbolic sequence of matrices")
        return transpose_view(A)
    cs = []
    for a in cols:
        a = to_arr(a)
        cs.append(a if a.ndim == 2 else expand(a, 1))
    return concat(cs, 1)


def expand(a, axis):
    if axis == 1:
        return basic(a, [slice(None), None])
    return basic(a, [None] + [slice(None)] * a.ndim)


def vstack(rows):
    from .interp import SeqView
    if isinstance(rows, SeqView):
        A = to_arr(rows)
        if A.ndim == 2:
            return A
        if A.ndim == 3 and not is_expr(A.shape[1]) and A.shape[1] == 1:
            f = A.fn
            return Arr((A.shape[0], A.shape[2]), A.kind, lambda ix: f((ix[0], 0, ix[1])))
        raise Unsupported("vstack of a symbolic sequence of matrices")
    rs = []
    for a in rows:
        a = to_arr(a)
        rs.append(a if a.ndim >= 2 else expand(a, 0))
    return concat(rs, 0)


def stack(arrs, axis=0):
    return list_arr([to_arr(a) for a in arrs]) if axis == 0 else _uns("stack axis")


def _uns(m):
    raise Unsupported(m)


def where(cnd, *ab):
    cnd = to_arr(cnd)
    if not ab:
        if not isinstance(cnd, Arr):
            raise Unsupported("where of scalar")
        m = cnd if cnd.kind == "b" else ew(lambda v: Not_(eq(v, 0)), cnd, kind="b")
        if m.ndim == 1:
            every = m.fn((Int("$every"),))
            if every is True or is_expr(every) and z3.is_true(z3.simplify(to_b(every))):
                return (Arr(m.shape, "i", lambda ix: ix[0]),)
        return tuple(nz_arrays(sel_of(m)))
    a, b = to_arr(ab[0]), to_arr(ab[1])
    k = promote(kindv(a), kindv(b))
    return ew(lambda c, x, y: ite(cast(c, "b"), x, y), cnd, a, b, kind=k)


def triu_indices(n, k=0, m=None):
    m = n if m is None else m
    return where(Arr((S(n) if is_expr(n) else n, S(m) if is_expr(m) else m), "b", lambda ix: le(add(ix[0], k), ix[1])))


def matmul(A, B):
    A, B = to_arr(A), to_arr(B)
    fa, fb = A.fn, B.fn
    if A.ndim == 1 and B.ndim == 1:
        return reduce_sum(lambda k: mul(fa((k,)), fb((k,))), A.shape[0], "f")
    if A.ndim == 2 and B.ndim == 1:
        return Arr((A.shape[0],), "f", lambda ix: reduce_sum(lambda k: mul(fa((ix[0], k)), fb((k,))), A.shape[1]))
    if A.ndim == 1 and B.ndim == 2:
        return Arr((B.shape[1],), "f", lambda ix: reduce_sum(lambda k: mul(fa((k,)), fb((k, ix[0]))), A.shape[0]))
    return Arr((A.shape[0], B.shape[1]), "f", lambda ix: reduce_sum(lambda k: mul(fa((ix[0], k)), fb((k, ix[1]))), A.shape[1]))


def norm(A, ord=None, axis=None, **kw):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    A = to_arr(A)
    return ew(sqrt, sum_(ew(lambda v: mul(v, v), asarray(A, "f")), axis), kind="f")


def clip(A, lo, hi, **kw):
    return ew(lambda v, l, h: (lambda t: t if (h is None or (special(h) and h > 0)) else minv(t, h))(v if (l is None or (special(l) and l < 0)) else maxv(v, l)),
              A, lo, hi, kind=promote(kindv(to_arr(A)), promote(kindv(to_arr(lo)) if lo is not None else "b", kindv(to_arr(hi)) if hi is not None and not special(hi) else "b")))


def take_along_axis(A, I, axis):
    A, I = to_arr(A), to_arr(I)
    axis = norm_axis(axis, A.ndim)
    f, g = A.fn, I.fn
    return Arr(I.shape, A.kind, lambda ix: f(tuple(ix[:axis]) + (g(ix),) + tuple(ix[axis + 1:])))


def fill_diagonal(A, v):
    A.write(lambda b: eqi(b[0], b[1]), lambda b: v)


def column_or_row(x):
    return to_arr(x)


def isnan(x):
    def f(v):
        if isinstance(v, GV):
            return Or_(*[And_(g, f(w)) for g, w in v.alts])
        return isinstance(v, float) and math.isnan(v)
    return ew(f, x, kind="b")


def isinf(x):
    def f(v):
        if isinstance(v, GV):
            return Or_(*[And_(g, f(w)) for g, w in v.alts])
        return isinstance(v, float) and math.isinf(v)
    return ew(f, x, kind="b")


def isfinite(x):
    return ew(lambda v: And_(Not_(isnan(v)), Not_(isinf(v))), x, kind="b")


def round_(v, decimals=0, **kw):
    if decimals != 0:
        raise Unsupported("round to decimals")

    def f(v):
        v = _num(v)
        if not is_expr(v):
            return float(round(v)) if not special(v) else v
        if v.sort() == IntSort():
            return v
        lo = ToInt(v)
        d = v - ToReal(lo)
        half = z3.Q(1, 2)
        r = If(d < half, lo, If(d > half, lo + 1, If(lo % 2 == 0, lo, lo + 1)))
        return ToReal(r)
    return ew(lambda x: lift1(f, x), v)


def floor_(v):
    def f(v):
        v = _num(v)
        if not is_expr(v):
            return float(math.floor(v)) if not special(v) else v
        return v if v.sort() == IntSort() else ToReal(ToInt(v))
    return ew(lambda x: lift1(f, x), v)


def ceil_(v):
    def f(v):
        v = _num(v)
        if not is_expr(v):
            return float(math.ceil(v)) if not special(v) else v
        return v if v.sort() == IntSort() else -ToReal(ToInt(-v))
    return ew(lambda x: lift1(f, x), v)


def sign_(v):
    return ew(lambda x: ite(lt(x, 0), -1.0, ite(lt(0, x), 1.0, 0.0)), v, kind="f")


def uf(name, *facts, conc=None):
    def g(x):
        def f(v):
            v = _num(v)
            if not is_expr(v):
                return conc(v)
            return ctx().uf1(name, v, facts)
        return ew(lambda t: lift1(f, t), x, kind="f")
    return g


def _mc(f):
    def g(v):
        try:
            return float(f(v))
        except Exception:
            return NAN
    return g


exp_ = uf("exp", lambda x, r: r > 0, lambda x, r: z3.Implies(x == 0, r == 1), lambda x, r: z3.Implies(x <= 0, r <= 1),
          lambda x, r: z3.Implies(x >= 0, r >= 1), conc=_mc(np.exp))
log_ = uf("log", lambda x, r: z3.Implies(x >= 1, r >= 0), lambda x, r: z3.Implies(And(x > 0, x <= 1), r <= 0), conc=_mc(np.log))
log2_ = uf("log2", lambda x, r: z3.Implies(x >= 1, r >= 0), lambda x, r: z3.Implies(And(x > 0, x <= 1), r <= 0), conc=_mc(np.log2))
cos_ = uf("cos", lambda x, r: And(r >= -1, r <= 1), conc=_mc(np.cos))
sin_ = uf("sin", lambda x, r: And(r >= -1, r <= 1), conc=_mc(np.sin))
tan_ = uf("tan", conc=_mc(np.tan))
arctan_ = uf("arctan", lambda x, r: z3.And(r > -2, r < 2), conc=_mc(np.arctan))
arccos_ = uf("arccos", lambda x, r: r >= 0, conc=_mc(np.arccos))


def logical(op):
    return lambda a, b, **kw: ew(lambda x, y: op(cast(x, "b"), cast(y, "b")), a, b, kind="b")


def cmpop(op):
    return lambda a, b: ew(op, a, b, kind="b")


def prod_(A, axis=None, **kw):
    def red(fn, n):
        n = sym.conc(S(n)) if is_expr(n) else n
        if not isinstance(n, int):
            raise Unsupported("product over a symbolic length")
        t = 1.0
        for k in range(n):
            t = mul(t, fn(k))
        return t
    return reduce_axis(A, axis, red, "f")


def diff_(A, axis=-1, **kw):
    A = to_arr(A)
    axis = norm_axis(axis, A.ndim)
    f = A.fn
    sh = list(A.shape)
    sh[axis] = sub(sh[axis], 1)
    return Arr(sh, A.kind, lambda ix: sub(f(tuple(ix[:axis]) + (add(ix[axis], 1),) + tuple(ix[axis + 1:])), f(ix)))


def delete_(A, k, axis=None):
    A = to_arr(A)
    if axis is None:
        if A.ndim != 1:
            raise Unsupported("flat delete")
        axis = 0
    if isinstance(k, (Arr, list)):
        raise Unsupported("delete several")
    k = norm_index(k, A.shape[axis])
    f = A.fn
    sh = list(A.shape)
    sh[axis] = sub(sh[axis], 1)
    return Arr(sh, A.kind, lambda ix: f(tuple(ix[:axis]) + (ite(lt(flatz(ix[axis]), k), flatz(ix[axis]), add(flatz(ix[axis]), 1)),) + tuple(ix[axis + 1:])))


def np_copy(A, *a, **kw):
    return copy(A)


def np_array(x, dtype=None, **kw):
    r = copy(x)
    k = dtype_kind(dtype)
    return asarray(r, k) if k else r


def atleast_2d(x):
    x = to_arr(x)
    if not isinstance(x, Arr):
        return Arr((1, 1), kind_of(x), lambda ix: x)
    return x if x.ndim >= 2 else expand(x, 0)


def atleast_1d(x):
    x = to_arr(x)
    if not isinstance(x, Arr):
        return Arr((1,), kind_of(x), lambda ix: x)
    return x


def allclose(*a, **kw):
    raise Unsupported("allclose")


def np_abs(x):
    return ew(absv, x)


def np_round_method(A, decimals=0):
    return round_(A, decimals)


MODELS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


def _reg():
    M = MODELS
    M[np.add] = lambda a, b, **k: arith(add, a, b)
    M[np.subtract] = lambda a, b, **k: arith(sub, a, b)
    M[np.multiply] = lambda a, b, **k: arith(mul, a, b)
    M[np.divide] = M[np.true_divide] = lambda a, b, **k: ew(div, a, b, kind="f")
    M[np.floor_divide] = lambda a, b: arith(floordiv, a, b)
    M[np.mod] = lambda a, b: arith(mod, a, b)
    M[np.power] = lambda a, b, **k: ew(power, a, b, kind="f")
    M[np.square] = lambda a: ew(lambda v: mul(v, v), a)
    M[np.negative] = lambda a: ew(neg, a)
    M[np.abs] = M[np.absolute] = M[np.fabs] = np_abs
    M[np.sqrt] = lambda a, **k: ew(sqrt, a, kind="f")
    M[np.minimum] = M[np.fmin] = lambda a, b, **k: arith(minv, a, b)
    M[np.maximum] = M[np.fmax] = lambda a, b, **k: arith(maxv, a, b)
    M[np.less] = cmpop(lt)
    M[np.less_equal] = cmpop(le)
    M[np.greater] = cmpop(lambda a, b: lt(b, a))
    M[np.greater_equal] = cmpop(lambda a, b: le(b, a))
    M[np.equal] = cmpop(eq)
    M[np.not_equal] = cmpop(lambda a, b: Not_(eq(a, b)))
    M[np.logical_and] = logical(And_)
    M[np.logical_or] = logical(Or_)
    M[np.logical_xor] = logical(lambda a, b: Not_(eq(a, b)))
    M[np.logical_not] = M[np.invert] = lambda a, **k: ew(lambda v: Not_(cast(v, "b")), a, kind="b")
    M[np.bitwise_and] = logical(And_)
    M[np.bitwise_or] = logical(Or_)
    M[np.bitwise_xor] = logical(lambda a, b: Not_(eq(a, b)))
    M[np.isnan], M[np.isinf], M[np.isfinite] = isnan, isinf, isfinite
    M[np.any], M[np.all], M[np.sum] = any_, all_, sum_
    M[np.max] = M[np.amax] = max_
    M[np.min] = M[np.amin] = min_
    M[np.argmax], M[np.argmin], M[np.mean] = argmax_, argmin_, mean_
    M[np.argsort], M[np.sort], M[np.unique] = argsort_, sort_, unique_
    M[np.zeros], M[np.ones], M[np.full], M[np.empty] = zeros, ones, full, zeros
    M[np.zeros_like], M[np.ones_like], M[np.full_like], M[np.empty_like] = zeros_like, ones_like, full_like, zeros_like
    M[np.arange], M[np.eye], M[np.identity] = arange, eye, eye
    M[np.repeat], M[np.tile], M[np.reshape] = repeat, tile, reshape
    M[np.concatenate], M[np.column_stack], M[np.vstack], M[np.stack] = concat, column_stack, vstack, stack
    M[np.hstack] = lambda a: concat([atleast_1d(x) for x in a], 1 if atleast_1d(list(a)[0]).ndim > 1 else 0)
    M[np.append] = lambda a, b, axis=None: concat([atleast_1d(a), atleast_1d(b)], 0 if axis is None else axis)
    M[np.where], M[np.nonzero] = where, lambda a: where(a)
    M[np.dot] = M[np.matmul] = matmul
    M[np.linalg.norm] = norm
    M[np.clip] = clip
    M[np.copy], M[np.array], M[np.asarray] = np_copy, np_array, lambda x, dtype=None, **k: asarray(x, dtype_kind(dtype))
    M[np.atleast_2d], M[np.atleast_1d] = atleast_2d, atleast_1d
    M[np.transpose] = lambda a, axes=None: transpose_view(to_arr(a), axes)
    M[np.swapaxes] = lambda a, i, j: transpose_view(to_arr(a), _swap(to_arr(a).ndim, i, j))
    M[np.round] = M[np.around] = round_
    M[np.rint] = lambda a: round_(a)
    M[np.floor], M[np.ceil], M[np.sign] = floor_, ceil_, sign_
    M[np.exp], M[np.log], M[np.cos], M[np.sin], M[np.tan], M[np.arccos] = exp_, log_, cos_, sin_, tan_, arccos_
    M[np.log2] = log2_
    for t in (np.intc, np.int32, np.int64, np.intp):
        M[t] = lambda x=0: asarray(x, "i")
    for t in (np.float64, np.double):
        M[t] = lambda x=0.0: asarray(x, "f")
    M[np.fill_diagonal] = fill_diagonal
    M[np.triu_indices] = triu_indices
    M[np.lexsort] = lexsort
    M[np.prod] = prod_
    M[np.diff] = diff_
    M[np.delete] = delete_
    M[np.take_along_axis] = take_along_axis
    M[np.expand_dims] = lambda a, axis: expand(to_arr(a), axis)
    M[np.squeeze] = squeeze
    M[np.size] = lambda a, axis=None: to_arr(a).size if axis is None else to_arr(a).shape[axis]
    M[np.shape] = lambda a: shape_of(to_arr(a))
    M[np.outer] = lambda a, b: ew(mul, expand(to_arr(a), 1), expand(to_arr(b), 0))
    M[np.ndim] = lambda a: len(shape_of(to_arr(a)))
    M[np.copyto] = lambda a, b: setitem(a, slice(None), b)
    M[np.isscalar] = lambda a: not isinstance(a, (Arr, list, tuple))
    M[math.sqrt] = sqrt
    from scipy.spatial import distance
    M[distance.cdist] = cdist_
    M[math.floor] = lambda v: cast(floor_(v), "i")
    M[math.ceil] = lambda v: cast(ceil_(v), "i")
    M[math.fabs] = absv
    M[math.exp] = exp_
    M[np.arctan] = arctan_
    M[np.flip] = flip_
    M[np.flipud] = lambda a: flip_(a, 0)
    M[np.fliplr] = lambda a: flip_(a, 1)
    M[math.log] = log_


def flip_(A, axis=None):
    A = to_arr(A)
    ax = list(range(A.ndim)) if axis is None else [norm_axis(axis, A.ndim)]
    for d in ax:
        A = basic(A, [slice(None)] * d + [slice(None, None, -1)])
    return A


def cdist_(A, B, metric="euclidean", **kw):
    """scipy.spatial.distance.cdist"""
    A, B = to_arr(A), to_arr(B)
    fa, fb = A.fn, B.fn
    m = A.shape[1]
    if metric != "euclidean" or kw:
        raise Unsupported("cdist metric %s" % metric)

    def d(ix):
        def t(k):
            x = sub(cast(fa((ix[0], k)), "f"), cast(fb((ix[1], k)), "f"))
            return mul(x, x)
        return sqrt(reduce_sum(t, m))
    return Arr((A.shape[0], B.shape[0]), "f", d)


def squeeze(a, axis=None):
    a = to_arr(a)
    sh = [s for s in a.shape if not (not is_expr(s) and s == 1)]
    if not sh:
        return a.fn(tuple(0 for _ in a.shape))
    return reshape(a, tuple(sh))


def _swap(nd, i, j):
    ax = list(range(nd))
    ax[i], ax[j] = ax[j], ax[i]
    return tuple(ax)


_reg()
