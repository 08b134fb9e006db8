"""Loops over a symbolic number of iterations.

Rule: the body is executed once for a generic iteration k, for every reachable combination of the (finite-valued) variables
carried from one iteration to the next.  Per combination the strongest invariant over the templates
  "no earlier iteration satisfied p"  /  "some earlier iteration satisfied p"   (p a branch condition of the body)
is computed by elimination (Houdini).  Array writes are summarised by "element idx holds the value written by the last iteration
that wrote it"; appended lists become sequences (filtered when the append is conditional).  Everything else is Unsupported.
"""
import ast
from . import sym, npm
from .sym import *
from .sym import z3
from .interp import (ReturnSig, BreakSig, ContinueSig, POISON, SeqView, iter_parts, subst, has_sym, _occ, is_pymoo_obj)

MAX_STATES = 14


def names_stored(nodes):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                if x.id not in out:
                    out.append(x.id)
            elif isinstance(x, (ast.FunctionDef,)):
                out.append(x.name)
    return out


def read_before_write(body, name):
    """conservative: may the body read `name` from an earlier iteration (None: no, and every iteration assigns it)"""
    class Found(Exception):
        pass

    def scan(stmts, defined):
        for s in stmts:
            if isinstance(s, ast.Assign):
                loads(s.value, defined)
                for t in s.targets:
                    loads(t, defined)
                if any(isinstance(t, ast.Name) and t.id == name for t in s.targets) or \
                        any(isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Name) and e.id == name for e in t.elts) for t in s.targets):
                    defined = True
            elif isinstance(s, ast.AugAssign):
                loads(s.value, defined)
                if isinstance(s.target, ast.Name) and s.target.id == name and not defined:
                    raise Found()
                loads(s.target, defined)
            elif isinstance(s, ast.If):
                loads(s.test, defined)
                d1 = scan(s.body, defined)
                d2 = scan(s.orelse, defined)
                defined = d1 and d2
            elif isinstance(s, (ast.For,)):
                loads(s.iter, defined)
                tgt = any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s.target))
                scan(s.body, defined or tgt)
                scan(s.orelse, defined)
            else:
                loads(s, defined)
        return defined

    def loads(n, defined):
        if defined:
            return
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                raise Found()
    try:
        return None if scan(body, False) else False
    except Found:
        return True


def finite(v):
    return v is None or isinstance(v, (bool, int, float, str)) or (isinstance(v, tuple) and all(finite(x) for x in v))


def freeze(v):
    """value that does not change with later writes"""
    if isinstance(v, Arr):
        return Arr(v.shape, v.kind, v.fn, tag=v.tag)
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


class NotCarried(Exception):
    def __init__(self, name):
        self.name = name


class Havoc:
    """a carried variable of which, at the start of an iteration, nothing is known but that it is not below (above) its initial value"""

    def __init__(self, init):
        self.init = init
        self.shape = self.kind = None
        if isinstance(init, Arr) and init.kind in ("f", "i", "b"):
            self.shape, self.kind = init.shape, init.kind
            self.sort = {"f": RealSort(), "i": IntSort(), "b": BoolSort()}[init.kind]
        else:
            self.sort = _sort_of(init)
        self.mono = {"up", "down"} if self.shape is None and self.sort in (IntSort(), RealSort()) and (is_expr(init) or finite(init)) else set()

    @property
    def ok(self):
        return self.sort is not None

    def fits(self, v):
        if self.shape is not None:
            return isinstance(v, Arr) and v.kind == self.kind and v.ndim == len(self.shape) and all(sym.dim_eq(a, b) for a, b in zip(v.shape, self.shape))
        so = _sort_of(v)
        return so is not None and (so == self.sort or (self.sort == RealSort() and so == IntSort()))

    def value(self, c, nm):
        if self.shape is not None:
            f = c.fresh_fn(nm, len(self.shape), self.sort)
            return Arr(self.shape, self.kind, lambda ix: f(*[flatz(i) for i in ix]))
        v = c.fresh(nm, self.sort)
        self.bound(c, v)
        return v

    def bound(self, c, v):
        i = to_z(self.init, self.sort == RealSort()) if self.mono else None
        if "up" in self.mono:
            c.assume(v >= i)
        if "down" in self.mono:
            c.assume(v <= i)


def symbolic_for(ev, s, it):
    c = ctx()
    n, at = iter_parts(it)
    n = S(n) if is_expr(n) else n
    fr = ev.f
    k = c.loop_const()
    body_names = names_stored(s.body)
    tgt_names = names_stored([s.target])
    carried, temps, maybe = [], [], []
    for nm in body_names:
        if nm in tgt_names:
            continue
        rw = read_before_write(s.body, nm)
        if nm in fr.loc and fr.loc[nm] is not POISON and (rw or finite(fr.loc[nm])):
            carried.append(nm)
        elif nm in fr.loc and fr.loc[nm] is not POISON and rw is False and Havoc(fr.loc[nm]).ok:
            # replaced in some iterations
            carried.append(nm)
            maybe.append(nm)
        else:
            temps.append(nm)
    havoc = {}
    written = {}          # id -> (array, havoc function or None)
    mark, cache = len(c.pc), dict(c.cache)
    obls = (c.stats.obl, c.stats.ok, dict(c.stats.by), len(c.obls), len(c.failed))
    for attempt in range(12):
        # obligations met in the body count in the attempt that settles
        c.stats.obl, c.stats.ok, c.stats.by = obls[0], obls[1], dict(obls[2])
        del c.obls[obls[3]:]
        del c.failed[obls[4]:]
        del c.pc[mark:]
        c.cache = dict(cache)
        for _, h in written.values():
            if h.fact is not None:
                c.assume(h.fact)
        try:
            r = _try(ev, s, c, n, at, k, fr, carried, temps, tgt_names, havoc, written)
        except NotCarried as e:
            if e.name not in maybe:
                raise Unsupported("loop-carried variable %s" % e.name)
            carried.remove(e.name)
            maybe.remove(e.name)
            havoc.pop(e.name, None)
            temps.append(e.name)
            r = None
        if r is not None:
            states, trans, inv, lists = r
            break
    else:
        raise Unsupported("loop summary did not settle")
    return _finish(ev, s, c, n, k, at, fr, carried, temps, tgt_names, states, trans, inv, written, lists, havoc)


def _key(vals):
    return tuple((type(v).__name__, repr(v)) for v in vals)


def _try(ev, s, c, n, at, k, fr, carried, temps, tgt, havoc, written):
    pre = dict(fr.loc)
    init = tuple("*" if nm in havoc else pre[nm] for nm in carried)
    for nm, v in zip(carried, init):
        if not finite(v):
            havoc[nm] = Havoc(v)
            if not havoc[nm].ok:
                raise NotCarried(nm)
            return None
    states = {_key(init): init}
    work = [init]
    trans = []
    idxs = {}
    lists = {}
    while work:
        st = work.pop()
        base = c.push_scope(k, 0, n)
        try:
            fr.loc.update(pre)
            for nm in temps + tgt:
                fr.loc[nm] = POISON
            start = {}
            for nm, v in zip(carried, st):
                fr.loc[nm] = havoc[nm].value(c, nm) if nm in havoc else v
                if nm in havoc:
                    start[nm] = fr.loc[nm]
            saved = []
            mark = sym._BORN[0]
            for a, h in written.values():
                saved.append((a, a._fn, a.tag))
                a._fn, a.tag = h, None
            loc0 = dict(fr.loc)
            before = {id(x): (x, list(x)) for x in _lists(fr)}

            def body():
                fr.loc.clear()
                fr.loc.update(loc0)
                ev.assign(s.target, at(k))
                ev.run(s.body)

            def keep(p):
                d = dict(next=tuple(fr.loc.get(nm) for nm in carried))
                d["raw"] = {nm: freeze(fr.loc.get(nm)) for nm in havoc}
                d["kept"] = {nm for nm in havoc if fr.loc.get(nm) is start[nm] or (is_expr(start[nm]) and is_expr(fr.loc.get(nm)) and start[nm].eq(fr.loc[nm]))}
                d["start"] = start
                if isinstance(p.exc, ReturnSig):
                    d["ret"] = freeze(p.exc.v)
                # array writes, evaluated at a generic position
                W = {}
                for a, cond, val in p.writes:
                    W.setdefault(id(a), (a, []))[1].append((cond, val))
                d["W"] = {}
                for i, (a, ws) in W.items():
                    if a.born > mark:
                        continue
                    if any(a is x for x in start.values()):
                        raise Unsupported("array carried by a loop is written and replaced")
                    ix = idxs.setdefault(i, [Int("$I%d_%s" % (d_, k)) for d_ in range(a.ndim)])
                    c.bound.extend(ix)
                    try:
                        wc, wv, evs = False, None, []
                        for cond, val in ws:
                            cc = cond(tuple(ix))
                            cc = S(cc) if is_expr(cc) else cc
                            if cc is False:
                                continue
                            vv = val(tuple(ix))
                            wv = vv if (wv is None or cc is True) else ite(cc, vv, wv)
                            wc = Or_(wc, cc)
                            evs.append(cc)
                    finally:
                        del c.bound[len(c.bound) - len(ix):]
                    d["W"][i] = (a, wc, wv, evs)
                # lists appended to
                d["L"] = {}
                for o in c.mut:
                    if isinstance(o, list) and id(o) in before:
                        old = before[id(o)][1]
                        if o[:len(old)] != old and not all(x is y for x, y in zip(o, old)):
                            raise Unsupported("list changed in a symbolic loop other than by append")
                        if len(o) < len(old):
                            raise Unsupported("list shortened in a symbolic loop")
                        d["L"][id(o)] = (o, [freeze(x) for x in o[len(old):]])
                    elif isinstance(o, list):
                        pass
                    elif isinstance(o, dict) and _dict_known(o, loc0):
                        raise Unsupported("object or dictionary changed in a symbolic loop")
                    elif isinstance(o, set):
                        raise Unsupported("set changed in a symbolic loop")
                return d
            paths = c.subexplore(body, keep=keep)
        finally:
            for a, f, t in saved:
                a._fn, a.tag = f, t
            fr.loc.clear()
            fr.loc.update(pre)
            c.pop_scope(k, 0, n, base)
        new_arrays = False
        for p in paths:
            for i, (a, wc, wv, _) in p.state["W"].items():
                if i not in written:
                    written[i] = (a, _havoc_fn(c, a, k))
                    new_arrays = True
        if new_arrays:
            return None
        for p in paths:
            kind = "next"
            if isinstance(p.exc, ReturnSig):
                kind = "return"
            elif isinstance(p.exc, BreakSig):
                kind = "break"
            elif isinstance(p.exc, Raised):
                kind = "raise"
            nxt = p.state["next"]
            if kind in ("next", "break"):
                vals = []
                for nm, v, old in zip(carried, nxt, st):
                    if nm in havoc:
                        if not havoc[nm].fits(v):
                            so = _sort_of(v)
                            if so != RealSort() or havoc[nm].sort != IntSort() or havoc[nm].shape is not None:
                                raise NotCarried(nm)
                            havoc[nm].sort = so
                            return None
                        h = havoc[nm]
                        if nm not in p.state["kept"]:
                            for q in sorted(h.mono):
                                i0, v1 = to_z(h.init, h.sort == RealSort()), to_z(v, h.sort == RealSort())
                                if c.check(to_b(p.cond()), k >= 0, k < to_z(n), v1 < i0 if q == "up" else v1 > i0) != unsat:
                                    h.mono.discard(q)
                                    return None
                        vals.append("*")
                        continue
                    if not finite(v):
                        havoc[nm] = Havoc(pre[nm])
                        if not havoc[nm].ok or not havoc[nm].fits(v):
                            so = _sort_of(v)
                            if so != RealSort() or havoc[nm].sort != IntSort():
                                raise NotCarried(nm)
                            havoc[nm].sort = so
                        return None
                    vals.append(v)
                nxt = tuple(vals)
                if kind == "next" and _key(nxt) not in states:
                    states[_key(nxt)] = nxt
                    work.append(nxt)
                    if len(states) > MAX_STATES:
                        # widen the numeric variables that keep changing
                        for j, nm in enumerate(carried):
                            vs = {repr(x[j]) for x in states.values()}
                            if len(vs) > 4:
                                srt = RealSort() if any(isinstance(x[j], float) for x in states.values()) else IntSort()
                                havoc[nm] = Havoc(pre[nm])
                                havoc[nm].sort = srt
                        if not havoc:
                            raise Unsupported("too many loop states")
                        return None
            trans.append((_key(st), p, kind, _key(nxt) if kind == "next" else None, nxt))
    # what an array holds at iteration k, where no earlier iteration wrote it
    for i, (a, h) in written.items():
        if getattr(h, "diag", None) is not None or (getattr(h, "read", None) and h.read[0] and not h.closed):
            wc = Or_(*[And_(p.cond(), p.state["W"][i][1]) for _, p, kd, _, _ in trans if i in p.state["W"]])
            ix = idxs[i]
            d = h.diag
            if d is None and not h.nodiag:
                # iteration k writes position k only: what it finds there is what was there before the loop
                rng = And(*[And(x >= 0, x < to_z(m)) for x, m in zip(ix, a.shape)])
                for d in range(a.ndim):
                    if c.check(k >= 0, k < to_z(n), rng, to_b(wc), ix[d] != k) == unsat:
                        h.diag, h.old = d, a.fn
                        h.read[0] = False
                        return None
                d = None
            elif d is not None:
                rng = And(*[And(x >= 0, x < to_z(m)) for x, m in zip(ix, a.shape)])
                if c.check(k >= 0, k < to_z(n), rng, to_b(wc), ix[d] != k) != unsat:
                    h.diag, h.nodiag = None, True
                    return None
                if not h.read[0] or h.closed:
                    continue
            h.diag, keepd = None, h.diag
            hk = h(tuple(ix))
            h.diag = keepd
            if is_expr(wc) and _mentions(wc, h.decl):
                raise Unsupported("where an array is written depends on its contents")
            j = Int("$j_%s" % k)
            old = a.fn(tuple(ix))
            if isinstance(old, GV) or special(old):
                raise Unsupported("array with infinite entries read in a loop")
            none = ForAll([j], z3.Implies(And(j >= 0, j < k), Not(to_b(subst(wc, k, j)))))
            rng = And(*[And(x >= 0, x < to_z(m)) for x, m in zip(ix, a.shape)])
            for d in range(a.ndim):
                if c.check(k >= 0, k < to_z(n), rng, to_b(wc), ix[d] != k) == unsat:
                    none = ix[d] >= k
                    break
            f = ForAll([k] + ix, z3.Implies(And(k >= 0, k < to_z(n), rng, none), hk == to_z(old, a.kind == "f") if a.kind != "b" else hk == to_b(old)), patterns=[hk])
            h.fact = f
            h.closed = True
            return None
    # invariants by elimination
    atoms = []
    for _, p, _, _, _ in trans:
        for b in p.branch:
            b = S(b)
            if is_expr(b) and _occ(b, k) and not any(b.eq(x) for x in atoms):
                atoms.append(b)
    init_key = _key(init)
    cand = {sk: {("N", a) for a in range(len(atoms))} | ({("E", a) for a in range(len(atoms))} if sk != init_key else set()) for sk in states}
    memo = {}

    def implied(p, a):
        key = (id(p), a)
        if key not in memo:
            g = atoms[a]
            if any(S(b).eq(g) for b in p.branch):
                memo[key] = True
            else:
                memo[key] = c.check(*[to_b(b) for b in p.branch], k >= 0, k < to_z(n), Not(to_b(g))) == unsat
        return memo[key]

    def refuted(p, a):
        key = (id(p), ~a - 1000)
        if key not in memo:
            g = Not(atoms[a])
            memo[key] = c.check(*[to_b(b) for b in p.branch], k >= 0, k < to_z(n), to_b(atoms[a])) == unsat
        return memo[key]
    changed = True
    while changed and atoms:
        changed = False
        for sk, p, kind, nk, _ in trans:
            if kind != "next":
                continue
            for t in list(cand[nk]):
                kd, a = t
                ok = (t in cand[sk] and refuted(p, a)) if kd == "N" else (t in cand[sk] or implied(p, a))
                if not ok:
                    cand[nk].discard(t)
                    changed = True

    def inv(sk, bound):
        out = []
        j = Int("$j_%s" % k)
        for kd, a in sorted(cand[sk]):
            f = substitute(to_b(atoms[a]), (k, j))
            rng = And(j >= 0, j < to_z(bound))
            out.append(ForAll([j], z3.Implies(rng, Not(f))) if kd == "N" else Exists([j], And(rng, f)))
        return out
    return states, trans, inv, lists


def _mentions(e, decl):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(decl):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def _sort_of(v):
    if isinstance(v, GV) or isinstance(v, Arr):
        return None
    if is_expr(v):
        return v.sort()
    if isinstance(v, bool):
        return BoolSort()
    if isinstance(v, int):
        return IntSort()
    if isinstance(v, float) and not special(v):
        return RealSort()
    return None


def _havoc_fn(c, a, k):
    srt = {"f": RealSort(), "i": IntSort(), "b": BoolSort()}.get(a.kind)
    if srt is None:
        raise Unsupported("object array written in a symbolic loop")
    c.nfresh += 1
    params = c.loops + [k]
    d = Function("hv!%d" % c.nfresh, *([IntSort()] * (len(params) + a.ndim)), srt)

    def h(ix):
        if h.diag is not None and is_expr(ix[h.diag]) and ix[h.diag].eq(k):
            return h.old(ix)
        h.read[0] = True
        return d(*params, *[to_z(flatz(i)) for i in ix])
    h.read, h.closed, h.decl, h.fact, h.diag, h.nodiag, h.old = [False], False, d, None, None, False, None
    return h


def _lists(fr):
    out = []
    for v in fr.loc.values():
        if isinstance(v, list):
            out.append(v)
        elif is_pymoo_obj(v):
            out.extend(x for x in v.__dict__.values() if isinstance(x, list))
    e = fr.outer
    while e is not None and not isinstance(e, dict):
        out.extend(v for v in e.loc.values() if isinstance(v, list))
        e = e.outer
    return out


def _dict_known(o, loc0):
    for v in loc0.values():
        if v is o or (is_pymoo_obj(v) and v.__dict__ is o):
            return True
        if is_pymoo_obj(v):
            for w in v.__dict__.values():
                if w is o or (is_pymoo_obj(w) and w.__dict__ is o):
                    return True
    return False


def _finish(ev, s, c, n, k, at, fr, carried, temps, tgt, states, trans, inv, written, lists, havoc):
    abrupt = [t for t in trans if t[2] in ("return", "break", "raise")]
    nexts = [t for t in trans if t[2] == "next"]
    # visible effects
    arrays = {}
    for i, (a, h) in written.items():
        arrays[i] = a
    if arrays and len(states) > 1:
        for sk, p, kind, _, _ in nexts:
            pass
        raise Unsupported("array writes in a loop with several states")
    grown = {}
    for _, p, kind, _, _ in trans:
        for i, (o, app) in p.state["L"].items():
            grown.setdefault(i, o)
    if grown and (len(states) > 1 or any(t[2] in ("break", "return") and t[1].state["L"] for t in abrupt)):
        raise Unsupported("appending in a loop with several states")
    # outcomes
    alts, guards = [], []
    for sk, st in states.items():
        alts.append(("exit", sk, st, None))
        guards.append(And(BoolVal(True), to_z(n) >= 0 if is_expr(n) else BoolVal(True), *inv(sk, n)))
    for t in abrupt:
        sk, p, kind, _, nxt = t
        kc = c.fresh("at", IntSort())
        g = [kc >= 0, kc < to_z(n)] + [to_b(subst(b, k, kc)) for b in p.branch] + inv(sk, kc)
        alts.append((kind, sk, nxt, (p, kc)))
        guards.append(And(*g))
    if len(guards) > 1 and c.share and c.branch is not None:
        # one of the outcomes occurs, whichever this path is about
        f = z3.Implies(And(*[to_b(b) for b in c.branch]), Or(*guards)) if c.branch else Or(*guards)
        c.pc.append(f)
        c.free[f.get_id()] = f
    i = c.choose(guards) if len(guards) > 1 else 0
    if len(guards) == 1:
        c.pc.append(guards[0])
    kind, sk, st, extra = alts[i]
    # the iterations that ran to their end, then the one that left the loop
    m = n if extra is None else extra[1]
    if arrays:
        _array_effects(c, m, k, nexts, arrays, at)
        if extra is not None:
            _last_writes(extra[0], extra[1], k, arrays)
    for i, o in grown.items():
        _grow(c, m, k, fr, nexts, i, o)
    if kind == "return":
        p, kc = extra
        raise ReturnSig(subst(p.state["ret"], k, kc))
    if kind == "raise":
        raise extra[0].exc
    last = {}
    if havoc and kind == "break":
        last = {nm: subst(v, k, extra[1]) for nm, v in extra[0].state["raw"].items()}
    elif havoc and len(states) == 1:
        # the values come from the last iteration that changed any of them
        chg = [p for _, p, kd, _, _ in nexts if len(p.state["kept"]) < len(havoc)]
        if len(chg) <= 6:
            kc = c.fresh("chg", IntSort())
            g = [to_b(True)] + [And(kc >= 0, kc < to_z(n), to_b(subst(p.cond(), k, kc))) for p in chg]
            i = c.choose(g) if len(g) > 1 else 0
            if i == 0:
                last = {nm: fr.loc[nm] for nm in havoc}
            else:
                last = {nm: subst(v, k, kc) for nm, v in chg[i - 1].state["raw"].items()}
    for nm, v in zip(carried, st):
        if nm in last:
            fr.loc[nm] = last[nm]
            if havoc[nm].shape is None:
                if is_expr(last[nm]):
                    havoc[nm].bound(c, last[nm])
        elif nm in havoc:
            fr.loc[nm] = havoc[nm].value(c, nm)
        else:
            fr.loc[nm] = v
    for nm in temps + tgt:
        fr.loc[nm] = POISON
    if kind == "exit":
        ev.run(s.orelse)


def _array_effects(c, n, k, nexts, arrays, at):
    elem = at(k)
    lo = S(sub(elem, k)) if is_intlike(elem) and is_expr(elem) else 0
    if is_expr(lo) and _occ(lo, k):
        lo = 0
    for i, a in arrays.items():
        parts = [(p.cond(),) + p.state["W"][i][1:] for _, p, _, _, _ in nexts if i in p.state["W"]]
        parts = [x for x in parts if x[1] is not False]
        if not parts:
            continue
        ix = [Int("$I%d_%s" % (d, k)) for d in range(a.ndim)]
        wc, wv, events = False, None, []
        for b, w, v, evs in parts:
            g = And_(b, w)
            wv = v if wv is None else ite(g, v, wv)
            wc = Or_(wc, g)
            events += [And_(b, e) for e in evs]
        old, kind = a._fn, a.kind
        # position determines the iteration?
        rng = [k >= 0, k < to_z(n)] + [And(x >= 0, x < to_z(m)) for x, m in zip(ix, a.shape)]
        dets = {}
        for e in events:
            hit = None
            for off in ([lo, 0] if is_expr(lo) or lo != 0 else [0]):
                for d in range(a.ndim):
                    if c.check(*rng, to_b(e), ix[d] != k + to_z(off)) == unsat:
                        hit = (d, off)
                        break
                if hit:
                    break
            dets.setdefault(hit, []).append(e)
        if None in dets:
            last = c.fresh_fn("last", a.ndim, IntSort())
            L = last(*ix)
            hit = lambda kk: And(kk >= 0, kk < to_z(n), to_b(subst(wc, k, kk)))
            c.assume(ForAll(ix + [k], z3.Implies(hit(k), And(hit(L), k <= L))))
            picks = [(lambda idx: last(*[to_z(flatz(x)) for x in idx]), wc)]
        else:
            picks = []
            for (d, off), es in dets.items():
                picks.append(((lambda idx, d=d, off=off: S(sub(flatz(idx[d]), off)) if is_expr(off) or off != 0 else flatz(idx[d])), Or_(*es)))

        def hits(idx, picks=picks, ix=ix):
            """per group of writes: (iteration, did it write this position)"""
            out = []
            for pick, cond in picks:
                kk = pick(idx)
                sub_ = [(k, to_z(kk))] + [(x, to_z(flatz(y))) for x, y in zip(ix, idx)]
                h = And_(le(0, kk), lt(kk, n), msub(cond, sub_))
                out.append((kk, S(h) if is_expr(h) else h))
            return out

        def fn(idx, wc=wc, wv=wv, hits=hits, old=old, ix=ix, kind=kind):
            hs = [h for h in hits(idx) if h[1] is not False]
            out = None
            for q, (kk, w) in enumerate(hs):
                # this group's write is the last one
                g = And_(w, *[Or_(Not_(w2), lt(k2, kk) if q2 < q else le(k2, kk)) for q2, (k2, w2) in enumerate(hs) if q2 != q])
                g = S(g) if is_expr(g) else g
                if g is False:
                    continue
                v = cast(msub(wv, [(k, to_z(kk))] + [(x, to_z(flatz(y))) for x, y in zip(ix, idx)]), kind)
                if g is True:
                    return v
                if out is None:
                    out = old(idx)
                out = ite(g, v, out)
            return old(idx) if out is None else out
        sym._undo(a)
        a._fn, a.tag = fn, None
        for q in range(len(picks)):
            sym.log_write(a, lambda idx, q=q, hits=hits: hits(idx)[q][1], lambda idx, fn=fn: fn(idx))


def _last_writes(p, kc, k, arrays):
    for i, (a, wc, wv, _) in p.state["W"].items():
        if i not in arrays or wc is False:
            continue
        ix = [Int("$I%d_%s" % (d, k)) for d in range(a.ndim)]
        old, kind = a._fn, a.kind

        def cond(idx, wc=wc, ix=ix):
            return msub(wc, [(k, to_z(kc))] + [(x, to_z(flatz(y))) for x, y in zip(ix, idx)])

        def fn(idx, cond=cond, wv=wv, ix=ix, old=old, kind=kind):
            g = cond(idx)
            v = cast(msub(wv, [(k, to_z(kc))] + [(x, to_z(flatz(y))) for x, y in zip(ix, idx)]), kind)
            return v if g is True else ite(g, v, old(idx))
        sym._undo(a)
        a._fn, a.tag = fn, None
        sym.log_write(a, cond, lambda idx, fn=fn: fn(idx))


def msub(v, pairs):
    if isinstance(v, GV):
        return mk_gv([(msub(g, pairs), msub(x, pairs)) for g, x in v.alts])
    if is_expr(v):
        # simultaneous substitution of distinct constants
        return S(substitute(v, *pairs))
    return v


def _grow(c, n, k, fr, nexts, i, o):
    prefix = list(o)
    counts = {len(p.state["L"][i][1]) if i in p.state["L"] else 0 for _, p, _, _, _ in nexts}
    if not counts <= {0, 1}:
        raise Unsupported("several appends per iteration")
    apps = [(p.cond(), p.state["L"][i][1][0]) for _, p, _, _, _ in nexts if i in p.state["L"] and p.state["L"][i][1]]
    if len(apps) == 1:
        val = apps[0][1]
    else:
        val = None
        for b, v in apps:
            val = v if val is None else ite(b, v, val)
    fn = lambda j: subst(val, k, j)
    if counts == {1}:
        cnt, at = n, fn
    else:
        keep = Or_(*[b for b, _ in apps])
        mask = Arr((n,), "b", lambda ix: subst(keep, k, flatz(ix[0])))
        sl = npm.sel_of(mask)
        cnt, at = sl.count, (lambda j: fn(sl.at(j)[0]))
    if prefix:
        m = len(prefix)
        total = add(cnt, m)

        def at2(j, at=at):
            out = at(sub(j, m))
            for q in range(m - 1, -1, -1):
                out = ite(eq(j, q), prefix[q], out)
            return out
        seq = SeqView(total, at2)
    else:
        seq = SeqView(cnt, at)
    rebind(c, o, seq, fr)


def rebind(c, o, seq, fr):
    """the list o is the sequence from now on, wherever it is known"""
    from . import interp
    hit = False
    chain, e = [], fr
    while e is not None and not isinstance(e, dict):
        chain.append(e)
        e = e.outer
    for e in chain + [f for f in interp.STACK if f not in chain]:
        for nm, v in list(e.loc.items()):
            if v is o:
                e.loc[nm] = seq
                hit = True
            elif is_pymoo_obj(v):
                for q, w in list(v.__dict__.items()):
                    if w is o:
                        c.save(v.__dict__)
                        v.__dict__[q] = seq
                        hit = True
    if not hit:
        raise Unsupported("appended list is not a local variable")
    o[:] = [interp.Moved(seq)]


# ---------------------------------------------------------------------------------------- loops with a stated invariant
class Invariant:
    def __init__(self, view, inv, modifies, decreases):
        self.view, self.inv, self.modifies, self.decreases = view, inv, modifies, decreases


class State:
    """the variables at the head of a loop, as the invariant sees them"""

    def __init__(self, view, fr, k, pre):
        self.view, self.fr, self.k, self.pre = view, fr, k, pre

    def get(self, name):
        from . import interp
        if name not in self.fr.loc or self.fr.loc[name] is POISON:
            raise Unsupported("the invariant mentions %s, which is not there" % name)
        x = interp.live(self.fr.loc[name])
        if isinstance(x, (list, tuple)):
            return npm.to_arr(list(x)) if x else Arr((0,), "i", lambda ix: 0)
        if isinstance(x, SeqView):
            return SeqView(x.n, x.fn)
        return x.snapshot() if isinstance(x, Arr) else x

    __getitem__ = get


def invariant_loop(ev, s, sp, it=None):
    """Hoare's rule: the invariant holds at the start; from any state in which it holds, an iteration leads to one in which it holds
    again; after the loop it holds (a break or return goes on from the state it happens in)."""
    from . import interp, popm
    c, v, fr = ctx(), sp.view, ev.f
    if c.loops or c.share or c.bound:
        raise Unsupported("stated invariant inside a symbolic loop")
    n, at = iter_parts(it) if it is not None and interp.symbolic_iter(it) else (None, None)
    if it is not None and at is None:
        xs = list(interp.iterate(it))
        n = len(xs)
        at = lambda k: interp.get_item(xs, k)
    pre = dict(fr.loc)
    for q, f in _parts(sp.inv(State(v, fr, 0, pre))):
        v.c.prove(to_b(f), "before the loop of %s: %s" % (fr.fname, q))
    # any state
    allowed = []
    stored = [x for x in names_stored(s.body) + (names_stored([s.target]) if it is not None else []) if x not in sp.modifies]
    for nm in stored:
        if nm in fr.loc and fr.loc[nm] is not POISON and Havoc(fr.loc[nm]).ok and nm not in (names_stored([s.target]) if it is not None else []):
            h = Havoc(fr.loc[nm])
            h.mono = set()
            fr.loc[nm] = h.value(c, nm)
        else:
            fr.loc[nm] = POISON
    h = popm.heap()
    for nm, mk in sp.modifies.items():
        if nm.startswith("@"):
            key = nm[1:]
            if key not in h.fields:
                raise Unsupported("field %s is not there" % key)
            A = h.fields[key]
            f = c.fresh_fn("hv_" + key, A.ndim, {"f": RealSort(), "i": IntSort(), "b": BoolSort()}[A.kind])
            A._fn, A.tag = (lambda f: lambda ix: f(*[flatz(i) for i in ix]))(f), None
            allowed.append(A)
            continue
        o = fr.loc
        path = nm.split(".")
        for q in path[:-1]:
            o = (o[q] if o is fr.loc else o.__dict__[q])
        o = o if o is fr.loc else o.__dict__
        if path[-1] not in o:
            raise Unsupported("the loop does not change %s" % nm)
        x = interp.live(o[path[-1]])
        if mk is None and isinstance(x, Arr):
            if x.base is not None or x.kind not in ("f", "i", "b"):
                raise Unsupported("view changed by a loop with a stated invariant")
            f = c.fresh_fn("hv_" + path[-1], x.ndim, {"f": RealSort(), "i": IntSort(), "b": BoolSort()}[x.kind])
            x._fn, x.tag = (lambda f: lambda ix: f(*[flatz(i) for i in ix]))(f), None
            allowed.append(x)
        elif mk is None:
            hv = Havoc(x)
            if not hv.ok:
                raise Unsupported("what is %s" % nm)
            hv.mono = set()
            o[path[-1]] = hv.value(c, path[-1])
        else:
            new = mk()
            if isinstance(x, list) and isinstance(new, SeqView):
                rebind(c, x, new, fr)
            o[path[-1]] = new
            allowed.append(new)
    k = c.fresh("it", IntSort())
    c.assume(k >= 0)
    if n is not None:
        c.assume(k <= to_z(n))
    st = State(v, fr, k, pre)
    for _, f in _parts(sp.inv(st)):
        c.assume(f)
    if it is not None:
        more = c.decide(S(k < to_z(n)))
    else:
        t = ev.ev(s.test)
        more = c.decide(t) if is_expr(t) or isinstance(t, GV) else interp.truth(t)
    if not more:
        if it is not None:
            c.assume(eq(k, n))
        ev.run(s.orelse)
        return
    m0 = sp.decreases(st) if sp.decreases is not None else None
    if m0 is not None:
        v.c.prove(to_b(le(0, m0)), "the measure of the loop is not negative")
    mark, known = sym._BORN[0], {id(x): x for x in _lists(fr)}
    fields, nxt = set(h.fields), h.next
    track = getattr(c, "mut", None)
    c.mut = []
    c.trail = getattr(c, "trail", None) or []
    sym._WLOG.append([])
    loc0 = dict(fr.loc)
    objs = _objects(fr)
    attrs = {i: dict(o.__dict__) for i, o in objs.items()}
    try:
        if it is not None:
            ev.assign(s.target, at(k))
        try:
            ev.run(s.body)
        except ContinueSig:
            pass
    except BreakSig:
        sym._WLOG.pop()
        c.mut = track
        return
    except (ReturnSig, Raised):
        sym._WLOG.pop()
        c.mut = track
        raise
    log = sym._WLOG.pop()
    for a, _, _ in log:
        if a.born <= mark and not any(a is x for x in allowed):
            raise Unsupported("the loop changes an array that its invariant does not speak of" + (" %r" % (a.shape,) if a.tag is None else ""))
    for o in c.mut:
        if isinstance(o, SeqView) and o.born <= mark and not any(o is x for x in allowed):
            raise Unsupported("the loop changes a list that its invariant does not speak of")
        if isinstance(o, list) and id(o) in known:
            raise Unsupported("the loop changes a list that its invariant does not speak of")
    for i, o in objs.items():
        for q, w in o.__dict__.items():
            if (q not in attrs[i] or attrs[i][q] is not w) and not any(nm.endswith("." + q) for nm in sp.modifies):
                raise Unsupported("the loop changes an attribute that its invariant does not speak of")
    if set(h.fields) != fields or (is_expr(h.next) or is_expr(nxt) or h.next != nxt) and not (is_expr(h.next) and is_expr(nxt) and h.next.eq(nxt)):
        raise Unsupported("individuals or fields created in a loop with a stated invariant")
    c.mut = track
    for q, f in _parts(sp.inv(State(v, fr, S(k + 1), pre))):
        v.c.prove(to_b(f), "after an iteration of the loop of %s: %s" % (fr.fname, q))
    if m0 is not None:
        v.c.prove(to_b(lt(sp.decreases(State(v, fr, S(k + 1), pre)), m0)), "the measure of the loop decreases")
    c.loop_end = True
    raise PathEnd()


def _parts(f):
    return f.items() if isinstance(f, dict) else [("its invariant", f)]


def _objects(fr):
    out, work = {}, list(fr.loc.values())
    while work:
        x = work.pop()
        if is_pymoo_obj(x) and id(x) not in out:
            out[id(x)] = x
            work.extend(x.__dict__.values())
        elif isinstance(x, (list, tuple)):
            work.extend(x)
    return out
