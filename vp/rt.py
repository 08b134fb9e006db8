"""Run-time side of the contracts: the real functions of /repo are executed on generated states and every
postcondition of their contract is evaluated on the outcome.  It serves three purposes: the CPython cross-check of
the verifier, the search for (and replay of) a failing input when an obligation is not discharged, and the bounded
stand-in for functions outside the verifier's reach."""
import contextlib, io, json, os, sys, time, traceback, zlib, warnings, multiprocessing as mp
import numpy as np

CONTRACTS = {}          # pid -> list of Contract


class Breach(Exception):
    def __init__(self, label, info=None):
        self.label, self.info = label, info or {}
        super().__init__(label)


class Skip(Exception):
    """The drawn state does not satisfy the precondition."""


class Contract:
    def __init__(self, pid, name, fn, n, target, thorough):
        self.pid, self.name, self.fn, self.n, self.target, self.thorough = pid, name, fn, n, target, thorough


def contract(pid, n=200, target=None, thorough=None, name=None):
    def deco(fn):
        pids = pid if isinstance(pid, (list, tuple)) else [pid]
        for p in pids:
            CONTRACTS.setdefault(p, []).append(Contract(p, name or fn.__name__, fn, n, target, thorough))
        return fn
    return deco


def show(v, depth=0):
    if isinstance(v, np.ndarray):
        return {"array": v.tolist() if v.dtype != object else [str(e) for e in v.ravel()[:50]], "shape": list(v.shape)}
    if isinstance(v, (np.generic,)):
        return v.item()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if isinstance(v, dict) and depth < 4:
        return {str(k): show(e, depth + 1) for k, e in v.items()}
    if isinstance(v, (list, tuple)) and depth < 4:
        return [show(e, depth + 1) for e in list(v)[:200]]
    return repr(v)[:400]


class Case:
    """One generated state: all random choices come from `rng`, so a case is identified by (contract, seed, index)."""
    symbolic = False

    def __init__(self, pid, name, seed, idx, tier):
        self.key = [pid, name, seed, idx]
        self.rng = np.random.default_rng([seed, idx, zlib.crc32(name.encode())])
        self.idx, self.tier = idx, tier
        self.n_checked = 0
        self.notes = {}
        self.labels = {}

    # ------------------------------------------------------------- choices
    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def pick(self, *opts):
        if len(opts) == 1 and isinstance(opts[0], (list, tuple)):
            opts = opts[0]
        return opts[int(self.rng.integers(len(opts)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def real(self, lo=0.0, hi=1.0):
        return float(lo + (hi - lo) * self.rng.random())

    def gen(self):
        return np.random.default_rng(int(self.rng.integers(2 ** 31)))

    def points(self, n, m, style=None):
        """Point sets with plenty of ties, duplicates, dominated chains and degenerate columns."""
        r = self.rng
        style = style or self.pick("uniform", "grid", "grid2", "dup", "front", "const", "scaled", "neg", "dups_front", "line", "close")
        if style == "uniform":
            P = r.random((n, m))
        elif style == "grid":
            P = r.integers(0, 4, (n, m)).astype(float)
        elif style == "grid2":
            P = r.integers(0, 2, (n, m)).astype(float)
        elif style == "dup":
            P = r.random((n, m))
            if n > 1:
                k = r.integers(0, n, n)
                P = P[np.where(r.random(n) < 0.4, k, np.arange(n))]
        elif style in ("front", "dups_front"):
            P = r.random((n, m)) + 1e-3
            P = P / P.sum(axis=1, keepdims=True)
            if style == "dups_front" and n > 1:
                P = P[r.integers(0, max(1, n // 2), n)]
        elif style == "const":
            P = r.random((n, m))
            P[:, r.integers(0, m)] = r.integers(-2, 3)
        elif style == "scaled":
            P = r.random((n, m)) * 10.0 ** r.integers(-3, 5, m)
        elif style == "close":           # differences far below any plausible tolerance, at an offset
            P = r.integers(0, 4, (n, m)) * 10.0 ** -r.integers(7, 12) + r.integers(0, 3, m)
        elif style == "neg":
            P = r.normal(0, 2, (n, m))
        elif style == "line":
            t = r.integers(0, 6, n).astype(float)
            P = np.column_stack([t if j % 2 == 0 else (5 - t if r.random() < .7 else t) for j in range(m)])
        return np.ascontiguousarray(P, dtype=float)

    def bounds(self, n, degenerate=True):
        r = self.rng
        xl = np.round(r.normal(0, 3, n), 2)
        w = r.choice([0.5, 1.0, 2.0, 10.0, 1000.0, 1e-3], n)
        xu = xl + w
        if degenerate and self.chance(0.25):
            k = r.random(n) < 0.4
            xu[k] = xl[k]
        if self.chance(0.3):
            xl, xu = np.zeros(n), np.ones(n)
        if self.chance(0.15):
            xl, xu = xl - 1e3, xu - 1e3
        return xl.astype(float), xu.astype(float)

    def inside(self, n, xl, xu):
        """Points inside the bounds, often exactly on them, with repeated rows."""
        r = self.rng
        d = len(xl)
        U = r.random((n, d))
        k = r.random((n, d))
        p = self.pick(0.0, 0.1, 0.5)
        U = np.where(k < p / 2, 0.0, np.where(k < p, 1.0, U))
        if n > 1 and self.chance(0.3):
            U = U[r.integers(0, n, n)]
        X = xl + U * (xu - xl)
        return np.clip(X, xl, xu)

    def note(self, **kw):
        self.notes.update(kw)

    # ---------------------------------------------------------- obligations
    def requires(self, cond):
        if not cond:
            raise Skip()

    def ensures(self, cond, label, **info):
        self.n_checked += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        ok = bool(np.all(cond))
        if not ok:
            raise Breach(label, dict(self.notes, **info))

    def eq(self, got, want, label, rtol=0.0, atol=0.0, **info):
        self.n_checked += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        try:
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape
        except ValueError:          # ragged nesting
            g = w = None
            ok = _plain(got) == _plain(want)
        if ok and g is not None:
            if g.dtype == object or w.dtype == object or g.dtype.kind in "US" or w.dtype.kind in "US":
                ok = all(a == b or a is b for a, b in zip(g.ravel(), w.ravel()))
            elif rtol == 0 and atol == 0:
                ok = bool(np.all((g == w) | (_nan(g) & _nan(w))))
            else:
                with np.errstate(all="ignore"):
                    ok = bool(np.all(np.isclose(g.astype(float), w.astype(float), rtol=rtol, atol=atol, equal_nan=True)))
        if not ok:
            raise Breach(label, dict(self.notes, got=got, expected=want, **info))

    def frame(self, label="arguments unchanged", **arrays):
        return _Frame(self, label, arrays)

    def fails(self, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        return False


def _plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [_plain(e) for e in v]
    return v.item() if isinstance(v, np.generic) else v


def _nan(a):
    return np.isnan(a) if a.dtype.kind in "fc" else np.zeros(a.shape, bool)


class _Frame:
    def __init__(self, case, label, arrays):
        self.case, self.label, self.arrays = case, label, arrays

    def __enter__(self):
        self.old = {k: _snap(v) for k, v in self.arrays.items()}
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            for k, v in self.arrays.items():
                self.case.ensures(_same(self.old[k], _snap(v)), "%s: %s" % (self.label, k), before=self.old[k], after=v)


def _snap(v):
    if isinstance(v, np.ndarray):
        return ("a", v.shape, v.dtype.kind, v.copy())
    if isinstance(v, (list, tuple)):
        return ("l", [_snap(e) for e in v])
    if isinstance(v, dict):
        return ("d", {k: _snap(e) for k, e in v.items()})
    return ("o", v)


def _same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "a":
        if a[1] != b[1] or a[2] != b[2]:
            return False
        x, y = a[3], b[3]
        if x.dtype == object:
            return all(p is q or bool(np.all(p == q)) for p, q in zip(x.ravel(), y.ravel()))
        return bool(np.all((x == y) | (_nan(x) & _nan(y))))
    if a[0] == "l":
        return len(a[1]) == len(b[1]) and all(_same(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "d":
        return list(a[1]) == list(b[1]) and all(_same(a[1][k], b[1][k]) for k in a[1])
    return a[1] is b[1] or a[1] == b[1]


def run_case(con, seed, idx, tier):
    """-> (case, None | failure dict)"""
    case = Case(con.pid, con.name, seed, idx, tier)
    np.random.seed((seed * 7919 + idx) % (2 ** 31))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                con.fn(case)
        return case, None
    except Skip:
        return case, None
    except Breach as e:
        return case, dict(label=e.label, info=show(e.info))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/pymoo/" in f.filename for f in tb)
        return case, dict(label="completes without %s" % type(e).__name__, info=show(dict(case.notes, error=repr(e), trace="".join(
            traceback.format_exception(e))[-2500:])), harness=not inrepo)


_JOBS = None
_KNOWN = None


def _work(j):
    con, seed, lo, hi, tier, deadline = _JOBS[j]
    out = dict(name=con.name, evals=0, checked=0, labels={}, fail=None, cut=False, known=[])
    for idx in range(lo, hi):
        if time.time() > deadline and idx > lo:
            out["cut"] = True
            break
        case, f = run_case(con, seed, idx, tier)
        out["evals"] += 1
        out["checked"] += case.n_checked
        for k, v in case.labels.items():
            out["labels"][k] = out["labels"].get(k, 0) + v
        if f is not None:
            f.update(contract=con.name, property=con.pid, seed=seed, index=idx, tier=tier)
            if _KNOWN is not None and _KNOWN(f):
                if not any(k["label"] == f["label"] for k in out["known"]):
                    out["known"].append(f)
                continue
            out["fail"] = f
            break
    return out


def run_contracts(pid, tier, seed, budget, workers=8, only=None, scale=1.0, known=None):
    """All run-time contracts of a property, spread over forked workers; one result entry per contract."""
    global _JOBS, _KNOWN
    _KNOWN = known
    cons = [c for c in CONTRACTS.get(pid, []) if only is None or c.name in only]
    deadline = time.time() + budget
    jobs = []
    for c in cons:
        n = int((c.thorough or c.n * 20) if tier == "thorough" else c.n * scale) or 1
        k = min(n, 8 if n >= 16 else (n if n <= 8 else 4))
        edges = [i * n // k for i in range(k + 1)]
        for a, b in zip(edges, edges[1:]):
            if b > a:
                jobs.append((c, seed, a, b, tier, deadline))
    jobs.sort(key=lambda j: -(j[3] - j[2]) * 0 - (1 if j[0].n < 16 else 0))
    _JOBS = jobs
    res = {}
    if not jobs:
        return res
    ctx = mp.get_context("fork")
    with ctx.Pool(min(workers, len(jobs))) as pool:
        for o in pool.imap_unordered(_work, range(len(jobs)), chunksize=1):
            r = res.setdefault(o["name"], dict(evals=0, checked=0, labels={}, fails=[], cut=False))
            r["evals"] += o["evals"]
            r["checked"] += o["checked"]
            r["cut"] |= o["cut"]
            for k, v in o["labels"].items():
                r["labels"][k] = r["labels"].get(k, 0) + v
            r["fails"] += o["known"]
            if o["fail"]:
                r["fails"].append(o["fail"])
    return res


def replay(path):
    d = json.load(open(path))
    con = next(c for c in CONTRACTS[d["property"]] if c.name == d["contract"])
    return run_case(con, d["seed"], d["index"], d["tier"])
