"""From terms with lambdas to first-order logic.

npm writes reductions as SUM(lambda, n), MINR(lambda, n), SORTPR(lambda, n, k) ....  Before a query each such application is
replaced by an application of a function symbol of its own whose parameters are the lambda-independent subterms, and that
symbol is given its defining facts for all parameter values.
"""
from .boot import z3mod
z3 = z3mod()
from z3 import (And, Or, Not, If, Implies, Int, Real, IntVal, RealVal, ForAll, Function, IntSort, RealSort, BoolSort, substitute, simplify)

KINDS = {"SUM", "SUMI", "MINR", "MINI", "MAXR", "MAXI", "argMINR", "argMINI", "argMAXR", "argMAXI", "SORTPR", "SORTPI", "SORTQR", "SORTQI", "PROD"}
_ctr = [0]


def is_lam(x):
    return z3.is_quantifier(x) and x.is_lambda()


class Abs:
    def __init__(self):
        self.cache = {}
        self.keys = {}          # (fname family, key) -> record
        self.axioms = []
        self.keep = []
        self.qf = {}

    # ---- rewriting
    def do(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        r = self._do(e)
        self.keep.append(e)
        self.cache[i] = r
        return r

    def _do(self, e):
        if z3.is_quantifier(e):
            if e.is_lambda():
                return e
            return self._quant(e)
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        nm = e.decl().name()
        if nm in KINDS and is_lam(e.arg(0)):
            return self._red(nm, e)
        ch = e.children()
        new = [self.do(c) for c in ch]
        if all(a.get_id() == b.get_id() for a, b in zip(ch, new)):
            return e
        return rebuild(e, new)

    def _quant(self, e):
        n = e.num_vars()
        _ctr[0] += 1
        cs = [z3.Const("%s" % e.var_name(j) if e.var_name(j).startswith("$") else "$%s" % e.var_name(j), e.var_sort(j)) for j in range(n)]
        # distinct names per nesting level
        cs = [z3.Const("$Q%d_%d" % (self.depth(e), j), e.var_sort(j)) for j in range(n)]
        body = z3.substitute_vars(e.body(), *reversed(cs))
        nb = self.do(body)
        pats = []
        for p in range(e.num_patterns()):
            pt = z3.substitute_vars(e.pattern(p), *reversed(cs)) if False else e.pattern(p)
            terms = [self.do(z3.substitute_vars(t, *reversed(cs))) for t in pt.children()]
            ok = all(any(occurs(t, c) for t in terms) for c in cs) and not any(z3.is_quantifier(t) for t in terms)
            if ok:
                pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
        if nb.get_id() == body.get_id():
            return e
        f = ForAll if e.is_forall() else z3.Exists
        return f(cs, nb, patterns=pats) if pats else f(cs, nb)

    def depth(self, e):
        """a number larger than that of every quantifier inside"""
        d = self.qf.get(e.get_id())
        if d is None:
            d = 0
            st, seen = [e.body()], set()
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    d = max(d, self.depth(x) + 1)
                else:
                    st.extend(x.children())
            self.qf[e.get_id()] = d
            self.keep.append(e)
        return d

    def ordered(self, x, s):
        """arguments in an order (squares with a sign) that does not depend on how the term was written"""
        ch = x.children()
        kd = x.decl().kind()
        if kd == z3.Z3_OP_MUL and len(ch) == 2 and ch[0].eq(ch[1]) and z3.is_app(ch[0]):
            # (a - b)^2 is (b - a)^2
            q = ch[0]
            quot = q.decl().kind() == z3.Z3_OP_DIV and z3.is_app(q.arg(0))
            u = q.arg(0) if quot else q
            if u.decl().kind() == z3.Z3_OP_ADD:
                ts = sorted(((coef(t)[0] < 0, self.shape(coef(t)[1], s)) for t in u.children()), key=lambda t: t[1])
                if ts[0][0] and all(ts[0][1] != t[1] for t in ts[1:]):
                    ng = z3.Sum(*[scaled(-coef(t)[0], coef(t)[1]) for t in u.children()])
                    if quot:
                        ng = ng / q.arg(1)
                    self.keep.append(ng)
                    return [ng, ng]
            return ch
        if kd in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR):
            if kd == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
                return ch
            return sorted(ch, key=lambda t: self.shape(t, s))
        return ch

    def shape(self, e, s):
        """the term with everything independent of s left out"""
        if not occurs(e, s):
            return e.sexpr() if z3.is_int_value(e) or z3.is_rational_value(e) else "~"
        if z3.is_quantifier(e) or not e.num_args():
            return "|" if z3.is_quantifier(e) else e.decl().name()
        c, b = coef(e)
        if c != 1:
            return self.shape(b, s) + " * " + str(c)
        return "%s(%s)" % (e.decl().name(), ",".join(self.shape(a, s) for a in e.children()))

    def _red(self, nm, e):
        lam, rest = e.arg(0), [self.do(x) for x in e.children()[1:]]
        # (distinct from the variable of any reduction around this one)
        s = z3.Const("$S%d" % self.depth(lam), lam.var_sort(0))
        body = self.do(z3.substitute_vars(lam.body(), s))
        params, memo = [], {}

        def gen(x):
            """body with maximal s-free numeric subterms replaced by placeholders"""
            if x.get_id() in memo:
                return memo[x.get_id()]
            r = x
            if not occurs(x, s):
                if z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_algebraic_value(x):
                    r = x
                elif x.sort() in (IntSort(), RealSort()):
                    ph = z3.Const("$P%d" % len(params), x.sort())
                    params.append(x)
                    r = ph
                elif z3.is_app(x) and x.num_args():
                    r = rebuild(x, [gen(c) for c in x.children()])
            elif z3.is_app(x) and x.num_args():
                r = rebuild(x, [gen(c) for c in self.ordered(x, s)])
            elif z3.is_quantifier(x):
                r = gen_q(x)
            memo[x.get_id()] = r
            self.keep.append(x)
            return r

        def gen_q(x):
            # free constants inside a quantified subterm stay as they are unless they are integer constants
            r = x
            for c in free_ints(x):
                if c.eq(s) or c.decl().name().startswith("$P") or c.decl().name().startswith("$Q"):
                    continue
                k = c.get_id()
                if k not in memo:
                    memo[k] = z3.Const("$P%d" % len(params), c.sort())
                    params.append(c)
                    self.keep.append(c)
                r = substitute(r, (c, memo[k]))
            return r
        s0 = z3.Const("$S", lam.var_sort(0))
        g = substitute(gen(body), (s, s0))
        s = s0
        fam = nm[3:] if nm.startswith("arg") else ("SORT" + nm[-1] if nm.startswith("SORT") else nm)
        key = (fam, g.get_id())
        rec = self.keys.get(key)
        if rec is None:
            rec = self.keys[key] = Rec(self, fam, g, s, [p.sort() for p in params])
            self.keep.append(g)
            for r2 in list(self.keys.values()):
                if r2 is not rec and r2.g.eq(rec.g) and r2.fam[-1] == fam[-1] and fam.startswith("SORT") != r2.fam.startswith("SORT") and {fam[:3], r2.fam[:3]} & {"MIN", "MAX"}:
                    self.axioms.append(ends(*((rec, r2) if fam.startswith("SORT") else (r2, rec))))
                if r2 is not rec and r2.fam == fam and r2.sorts == rec.sorts and not fam.startswith("SORT"):
                    self.axioms.append(cross(r2, rec))
        return rec.app(nm, params, rest)


def coef(t):
    """numeric factor and the rest"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and (z3.is_rational_value(t.arg(0)) or z3.is_int_value(t.arg(0))):
        return t.arg(0).as_fraction() if z3.is_rational_value(t.arg(0)) else t.arg(0).as_long(), t.arg(1)
    return 1, t


def scaled(c, t):
    return t if c == 1 else (RealVal(str(c)) if t.sort() == RealSort() else IntVal(int(c))) * t


class Rec:
    def __init__(self, ab, fam, g, s, sorts):
        self.fam, self.g, self.s, self.sorts = fam, g, s, sorts
        _ctr[0] += 1
        self.id = len(ab.keys)
        self.phs = [z3.Const("$P%d" % i, so) for i, so in enumerate(sorts)]
        ar = sorts + [IntSort()]
        rng = g.sort() if not z3.is_bool(g) else IntSort()
        if fam.startswith("SORT"):
            self.F = {"P": Function("sortp@%d" % self.id, *ar, IntSort(), IntSort()), "Q": Function("sortq@%d" % self.id, *ar, IntSort(), IntSort())}
        elif fam[:3] in ("MIN", "MAX"):
            self.F = {"v": Function("%s@%d" % (fam, self.id), *ar, rng), "w": Function("arg%s@%d" % (fam, self.id), *ar, IntSort())}
        else:
            self.F = {"v": Function("%s@%d" % (fam, self.id), *ar, rng)}
        n = Int("$N")
        P = self.phs
        k = Int("$K")
        at = self.at_sym
        inr = lambda i: And(i >= 0, i < n)
        q = P + [n]
        if fam in ("SUM", "SUMI"):
            t = self.F["v"](*P, n)
            zero = RealVal(0) if t.sort() == RealSort() else IntVal(0)
            w = [Function("sw%d@%d" % (j, self.id), *ar, IntSort())(*P, n) for j in range(3)]
            ab.axioms.append(ForAll(q, And(Implies(n <= 0, t == zero),
                                           Or(And(inr(w[0]), at(w[0]) != zero), t == zero),
                                           Or(And(inr(w[1]), at(w[1]) < zero), And(t >= zero, ForAll([k], Implies(inr(k), at(k) <= t)))),
                                           Or(And(inr(w[2]), at(w[2]) > zero), t <= zero)), patterns=[t]))
        elif fam[:3] in ("MIN", "MAX"):
            t, w = self.F["v"](*P, n), self.F["w"](*P, n)
            c = (lambda x: x <= t) if fam.startswith("MAX") else (lambda x: x >= t)
            for pt in (t, w):
                ab.axioms.append(ForAll(q, And(Implies(n > 0, And(inr(w), at(w) == t)), ForAll([k], Implies(inr(k), c(at(k)))),
                                               ForAll([k], Implies(And(k >= 0, k < w, n > 0), at(k) != t))), patterns=[pt]))
        elif fam.startswith("SORT"):
            a, b = Int("$A"), Int("$B")
            p = lambda i: self.F["P"](*P, n, i)
            qf = lambda i: self.F["Q"](*P, n, i)
            ab.axioms.append(ForAll(q + [a], Implies(inr(a), And(inr(p(a)), qf(p(a)) == a)), patterns=[p(a)]))
            ab.axioms.append(ForAll(q + [a], Implies(inr(a), And(inr(qf(a)), p(qf(a)) == a)), patterns=[qf(a)]))
            ab.axioms.append(ForAll(q + [a, b], Implies(And(a >= 0, a <= b, b < n), at(p(a)) <= at(p(b))), patterns=[z3.MultiPattern(p(a), p(b))]))
        elif fam == "PROD":
            t = self.F["v"](*P, n)
            one = RealVal(1)
            w = [Function("pw%d@%d" % (j, self.id), *ar, IntSort())(*P, n) for j in range(3)]
            ab.axioms.append(ForAll(q, And(Implies(n <= 0, t == one),
                                           Or(And(inr(w[0]), at(w[0]) < 0), t >= 0),
                                           Or(And(inr(w[1]), at(w[1]) <= 0), t > 0),
                                           Or(And(inr(w[2]), Or(at(w[2]) < 0, at(w[2]) > 1)), t <= 1)), patterns=[t]))

    def at_sym(self, i):
        return substitute(self.g, (self.s, i))

    def at(self, params, i):
        return substitute(self.g, (self.s, i), *[(p, x) for p, x in zip(self.phs, params)])

    def app(self, nm, params, rest):
        if self.fam.startswith("SORT"):
            return self.F[nm[4]](*params, *rest)
        return self.F["w" if nm.startswith("arg") else "v"](*params, *rest)


def ends(srt, ext):
    """the first in a sorted order has the smallest value, the last has the largest"""
    n = Int("$N")
    P = srt.phs
    x = ext.F["v"](*P, n)
    p = srt.F["P"](*P, n, IntVal(0) if ext.fam.startswith("MIN") else n - 1)
    return ForAll(P + [n], Implies(n > 0, And(p >= 0, p < n, srt.at_sym(p) == x)), patterns=[x])


def cross(a, b):
    """same range, same parameters: termwise equal (ordered) implies equal (ordered)"""
    n = Int("$N")
    P = a.phs
    x, y = a.F["v"](*P, n), b.F["v"](*P, n)
    ws = [Function("cw%d@%d@%d" % (j, a.id, b.id), *a.sorts, IntSort(), IntSort())(*P, n) for j in range(3)]
    inr = lambda w: And(w >= 0, w < n)
    fs = [Or(And(inr(ws[0]), a.at_sym(ws[0]) != b.at_sym(ws[0])), x == y)]
    if a.fam.startswith("SUM"):
        fs.append(Or(And(inr(ws[1]), a.at_sym(ws[1]) > b.at_sym(ws[1])), x <= y))
        fs.append(Or(And(inr(ws[2]), a.at_sym(ws[2]) < b.at_sym(ws[2])), x >= y))
    return ForAll(P + [n], And(*fs), patterns=[z3.MultiPattern(x, y)])


def rebuild(e, new):
    d = e.decl()
    k = d.kind()
    if k == z3.Z3_OP_AND:
        return And(*new)
    if k == z3.Z3_OP_OR:
        return Or(*new)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*new) if len(new) != 2 else new[0] + new[1]
    if k == z3.Z3_OP_MUL:
        return z3.Product(*new) if len(new) != 2 else new[0] * new[1]
    return d(*new)


def occurs(e, v):
    i = v.get_id()
    seen, st = set(), [e]
    while st:
        x = st.pop()
        h = x.get_id()
        if h == i:
            return True
        if h in seen:
            continue
        seen.add(h)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def free_ints(e):
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == IntSort():
                out[x.get_id()] = x
            st.extend(x.children())
    return list(out.values())


def has_quant(e, memo={}):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def apps_of(e, ab):
    """reduction applications outside quantifiers: [(record, params, n, term)]"""
    by = {}
    for r in ab.keys.values():
        for kd, f in r.F.items():
            if kd == "v":
                by[f.name()] = r
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            r = by.get(x.decl().name())
            if r is not None:
                ch = x.children()
                out[x.get_id()] = (r, ch[:-1], ch[-1], x)
            st.extend(x.children())
    return list(out.values())


def equal_reductions(goal, ab, hyps, query, limit=6):
    """equalities between reductions over the same range whose terms are equal, established from the inside out: at an arbitrary
    position, with what is known of the reductions occurring in the terms"""
    memo, ctr = {}, [0]

    def pairs(e, hyps, depth):
        aps = sorted(apps_of(e, ab), key=lambda t: t[0].id)[:limit]
        out = []
        for i, a in enumerate(aps):
            for b in aps[i + 1:]:
                if a[0] is not b[0] and a[0].fam == b[0].fam and a[2].eq(b[2]) and not a[3].eq(b[3]) and not a[0].fam.startswith("SORT"):
                    if same(a, b, hyps, depth):
                        out.append(a[3] == b[3])
        return out

    def same(a, b, hyps, depth):
        key = (a[3].get_id(), b[3].get_id())
        if key not in memo:
            ctr[0] += 1
            w = Int("$cg%d" % ctr[0])
            ga, gb = a[0].at(a[1], w), b[0].at(b[1], w)
            ab.keep += [ga, gb]
            h = hyps + [w >= 0, w < a[2]]
            if depth < 4:
                h = h + pairs(ga == gb, h, depth + 1)
            memo[key] = query(h, ga == gb)
        return memo[key]
    return pairs(goal, hyps, 0)


def points(rec, limit=2):
    """terms the summation index is compared with for equality"""
    out, seen, st = [], set(), [rec.g]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_EQ and any(c.eq(rec.s) for c in x.children()):
                o = [c for c in x.children() if not c.eq(rec.s)]
                if o and not occurs(o[0], rec.s) and not any(o[0].eq(t) for t in out):
                    out.append(o[0])
            st.extend(x.children())
    return out[:limit]


def sort_lemmas(goal, ab, limit=4):
    """the first and the last element of what is sorted lie between its smallest and largest"""
    by = {r.F["P"].name(): r for r in ab.keys.values() if r.fam.startswith("SORT")}
    apps, seen, st = {}, set(), [goal] if by else []
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            r = by.get(x.decl().name())
            if r is not None:
                key = (r.id,) + tuple(c.get_id() for c in x.children()[:-1])
                apps.setdefault(key, (r, x.children()[:-2], x.arg(x.num_args() - 2)))
            st.extend(x.children())
    out = []
    for r, params, n in list(apps.values())[:limit]:
        at = lambda i: r.at(params, i)
        P = lambda i: r.F["P"](*params, n, i)
        for k in (IntVal(0), n - 1):
            out.append(Implies(n > 0, And(at(P(IntVal(0))) <= at(k), at(k) <= at(P(n - 1)))))
        for k in (IntVal(0), n - 1):
            out.append(Implies(n > 0, And(P(k) >= 0, P(k) < n)))
    return out


def stepped(rec):
    """the terms change at some position: what a sequence looks like after it has grown"""
    seen, st = set(), [rec.g]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and occurs(x.arg(0), rec.s) and z3.is_app(x.arg(0)) and any(
                y.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) for y in [x.arg(0)] + x.arg(0).children() if z3.is_app(y)):
            return True
        st.extend(x.children())
    return False


def growth_lemmas(goal, pc, ab, limit=4):
    """the sum over a sequence that has grown by an element is the sum over what it was before, plus that element"""
    sums = [a for a in apps_of(goal, ab) if a[0].fam in ("SUM", "SUMI") and not z3.is_int_value(a[2]) and stepped(a[0])]
    if not sums:
        return []
    known = {}
    for f in pc:
        if not z3.is_quantifier(f):
            for a in apps_of(f, ab):
                if a[0].fam in ("SUM", "SUMI"):
                    known[a[3].get_id()] = a
    out, k = [], 0
    for a in sums[:limit]:
        m = simplify(a[2] - 1)
        t = a[0].F["v"](*a[1], m)
        out.append(Implies(a[2] >= 1, a[3] == t + a[0].at(a[1], m)))
        for b in list(known.values())[-limit:]:
            if b[0].fam == a[0].fam and not b[3].eq(t):
                k += 1
                w = Int("$gw%d" % k)
                out.append(Or(m != b[2], And(w >= 0, w < m, a[0].at(a[1], w) != b[0].at(b[1], w)), t == b[3]))
    return out


def termwise(goal, ab, limit=4):
    """two sums over the same range with the same terms are equal"""
    sums = sorted((a for a in apps_of(goal, ab) if a[0].fam in ("SUM", "SUMI")), key=lambda t: t[0].id)[:limit]
    out = []
    for x, a in enumerate(sums):
        for b in sums[x + 1:]:
            if a[0].fam == b[0].fam and a[2].eq(b[2]) and not a[3].eq(b[3]):
                w = Int("$pw%d" % (len(out) + 1))
                out.append(Or(And(w >= 0, w < a[2], a[0].at(a[1], w) != b[0].at(b[1], w)), a[3] == b[3]))
    return out


def pair_lemmas(goal, ab, limit=8):
    """two sums (extrema) over the same range whose terms are pairwise ordered (equal) are ordered (equal)"""
    out = []
    aps = apps_of(goal, ab)
    aps.sort(key=lambda t: t[0].id)
    sums = [a for a in aps if a[0].fam in ("SUM", "SUMI", "PROD")][:limit]
    k = 0
    for a in sums:
        # a sum that is not zero has a term that is not zero
        if a[0].fam != "PROD":
            k += 1
            w = Int("$pw%d" % k)
            out.append(Or(And(w >= 0, w < a[2], a[0].at(a[1], w) != 0), a[3] == 0))
        for b in sums:
            if a[3].eq(b[3]) or a[3].sort() != b[3].sort() or not a[2].eq(b[2]) or a[0].fam != b[0].fam:
                continue
            k += 1
            w = Int("$pw%d" % k)
            n = a[2]
            fa, fb = a[0].at(a[1], w), b[0].at(b[1], w)
            if a[0].fam == "PROD":
                out.append(Or(And(w >= 0, w < n, fa != fb), a[3] == b[3]))
            else:
                out.append(Or(And(w >= 0, w < n, fa > fb), a[3] <= b[3]))
    for a in sums:
        if a[0].fam == "PROD":
            continue
        # all terms but one are zero
        for t in points(a[0]):
            k += 1
            w = Int("$pw%d" % k)
            zero = IntVal(0) if a[3].sort() == IntSort() else RealVal(0)
            t = substitute(t, *[(p, x) for p, x in zip(a[0].phs, a[1])])
            out.append(Or(And(w >= 0, w < a[2], w != t, a[0].at(a[1], w) != 0), a[3] == If(And(t >= 0, t < a[2]), a[0].at(a[1], t), zero)))
        # the terms of one are the next terms of the other
        for b in sums:
            if b[0].fam == a[0].fam and a[2].eq(b[2]) and not a[3].eq(b[3]):
                k += 1
                w = Int("$pw%d" % k)
                f = lambda i: a[0].at(a[1], i)
                out.append(Or(a[2] < 0, And(w >= 0, w < a[2], b[0].at(b[1], w) != f(w + 1)), b[3] - a[3] == f(a[2]) - f(IntVal(0))))
    ext = [a for a in aps if a[0].fam[:3] in ("MIN", "MAX")][:limit]
    for x, a in enumerate(ext):
        for b in ext[x + 1:]:
            if a[0].fam == b[0].fam and a[2].eq(b[2]):
                k += 1
                w = Int("$pw%d" % k)
                out.append(Or(And(w >= 0, w < a[2], a[0].at(a[1], w) != b[0].at(b[1], w)), a[3] == b[3]))
    return out
