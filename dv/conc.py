"""Concrete engine: the same contracts on the real code with real numbers.

Run by the interpreter the repository uses (/opt/venv/bin/python).  It replays
counterexamples and is the bounded stand-in for what the verifier cannot
reach; nothing it does counts as proved."""
import importlib
import json
import math
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dv import api                                            # noqa: E402

import numpy as np                                            # noqa: E402
import scipy.integrate                                        # noqa: E402
import scipy.optimize                                         # noqa: E402
import scipy.interpolate                                      # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")
sys.path.insert(0, api.repo_root())
sys.dont_write_bytecode = True

_real_ivp = scipy.integrate.solve_ivp
_real_root = scipy.optimize.root_scalar
CUR = None


class Skip(Exception):
    pass


class Missing(Exception):
    pass


class Fail(Exception):
    pass


class Call:
    pass


class FlowSol:
    """The flow of fun through chosen states (any state is the solution of
    some start value)."""

    def __init__(self, fun, t0, y0, t1):
        self.fun = fun
        self.anchors = [(float(t0), np.array(y0, float))]
        self.span = abs(float(t1) - float(t0)) or 1.0
        self.n = len(y0)
        self.t_min, self.t_max = t0, t1

    def one(self, t):
        ta, ya = min(self.anchors, key=lambda a: abs(a[0] - t))
        y = ya.copy()
        if t == ta:
            return y
        n = max(4, int(abs(t - ta) / self.span * 30))
        h = (t - ta) / n
        for k in range(n):
            s = ta + k * h
            f = lambda t, y: np.asarray(self.fun(t, y), float).reshape(-1)
            k1 = f(s, y)
            k2 = f(s + h / 2, y + h / 2 * k1)
            k3 = f(s + h / 2, y + h / 2 * k2)
            k4 = f(s + h, y + h * k3)
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return y

    def __call__(self, t):
        t = np.asarray(t)
        if t.ndim == 0:
            return self.one(float(t))
        if t.ndim != 1:
            raise ValueError("`t` must be a float or a 1-D array.")
        return np.array([self.one(float(v)) for v in t]).T.reshape(self.n, len(t))


_SIG = ["fun", "t_span", "y0", "method", "t_eval", "dense_output", "events", "vectorized", "args"]


def fake_ivp(*a, **k):
    e = CUR
    kw = dict(zip(_SIG, a))
    kw.update(k)
    c = Call()
    fun, extra = kw["fun"], kw.get("args")
    c.fun = (lambda t, y: fun(t, y, *extra)) if extra else fun
    c.t0, c.t1 = kw["t_span"][0], kw["t_span"][1]
    c.y0 = [np.float64(v) for v in np.asarray(kw["y0"])]
    c.n = len(c.y0)
    ev = kw.get("events")
    c.no_events = ev is None
    c.events = [] if ev is None else [ev] if callable(ev) else list(ev)
    c.events_obj = ev
    c.kw = kw
    c.dense = bool(kw.get("dense_output", False))
    if e is None:
        return _real_ivp(*a, **k)
    e.calls.append(c)
    pol = e.ivp_policy
    out = pol(c) if callable(pol) else pol
    c.outcome = out
    if out == "real":
        r = _real_ivp(*a, **k)
        c.sol = r.sol
        c.result = r
        return r
    sol = FlowSol(c.fun, c.t0, c.y0, c.t1)
    c.sol = sol
    ne = len(c.events)
    tev = [np.array([]) for _ in range(ne)]
    yev = [np.array([]) for _ in range(ne)]
    R = scipy.optimize.OptimizeResult
    if out == "fail":
        tm = c.t0 + (c.t1 - c.t0) * e.rng.random()      # where it got stuck
        return R(t=np.array([c.t0, tm]), y=np.array([c.y0, sol(tm)]).T, sol=sol if c.dense else None,
                 t_events=None if c.no_events else tev, y_events=None if c.no_events else yev, nfev=1, njev=0, nlu=0,
                 status=-1, message=e.ivp_message or "Required step size is less than spacing between numbers.",
                 success=False)
    te = c.t1
    status, msg = 0, "The solver successfully reached the end of the integration interval."
    if out != "end":
        te = c.t0 + (c.t1 - c.t0) * e.rng.random()
        c.te = te
        status, msg = 1, "A termination event occurred."
    ye = sol(te)
    if out != "end":
        for i in out[2] if len(out) > 2 else ():
            tp = c.t0 + (te - c.t0) * e.rng.random()
            tev[i], yev[i] = np.array([tp]), np.array([sol(tp)])
        tev[out[1]] = np.array([te])
        yev[out[1]] = np.array([ye])
    c.t_end = te
    return R(t=np.array([c.t0, te]), y=np.array([c.y0, ye]).T, sol=sol if c.dense else None,
             t_events=None if c.no_events else tev, y_events=None if c.no_events else yev, nfev=1, njev=0, nlu=0,
             status=status, message=msg, success=True)


def fake_root(f, *a, **k):
    e = CUR
    if e is not None and e.root_policy != "conv":
        e.roots.append(dict(f=f, bracket=k.get("bracket"), root=np.nan))
        return scipy.optimize.RootResults(e.rng.uniform(0.5, 1.5), 1, 1, 1, 1) if False else \
            scipy.optimize.OptimizeResult(root=e.rng.uniform(0.5, 1.5), converged=False, flag="convergence error",
                                          iterations=1, function_calls=1)
    r = _real_root(f, *a, **k)
    if e is not None:
        e.roots.append(dict(f=f, bracket=k.get("bracket"), root=r.root))
    return r


scipy.integrate.solve_ivp = fake_ivp
scipy.optimize.root_scalar = fake_root


class CFn:
    """A smooth function with known derivatives."""

    def __init__(self, base, k):
        self.base, self.k = base, k

    def __call__(self, x):
        return self.base.ev(x, self.k)


class Base:
    def __init__(self, e, name, order, positive):
        self.name = name
        r = e.rng
        anchors = {}
        for k in range(order + 1):
            nm = ("" if k == 0 else "d" if k == 1 else f"d{k}") + name
            for x, v in e.given.get("anchors", {}).get(nm, []):
                anchors.setdefault(x, {})[k] = v
        self.krogh = None
        if anchors:
            xs, ys = [], []
            for x in sorted(anchors):
                d = anchors[x]
                for k in range(max(d) + 1):
                    xs.append(x)
                    ys.append(d.get(k, 1.0 if k == 0 else 0.0))
            self.krogh = scipy.interpolate.KroghInterpolator(np.array(xs), np.array(ys))
            self.kind = "anchored"
            return
        self.kind = r.choice(["poly", "sin", "exp", "pow", "lin", "const"] if not positive else ["sin", "exp", "pow", "lin", "const"])
        u = r.uniform
        if self.kind == "poly":
            self.p = [u(-2, 2) for _ in range(r.randint(1, 5))]
        elif self.kind == "lin":
            self.p = [u(1, 3), u(-0.05, 1) if positive else u(-1, 1)]
        elif self.kind == "const":
            self.p = [u(0.5, 5) if positive else u(-3, 3)]
        elif self.kind == "sin":
            b = u(-1, 1)
            self.p = [abs(b) + u(0.3, 3) if positive else u(-2, 2), b, u(0.3, 2), u(0, 6)]
        elif self.kind == "exp":
            self.p = [u(0.3, 3), u(-0.4, 0.4)]
        else:
            self.p = [u(0.3, 3), u(0.2, 2), u(-0.5, 1.5)]

    def ev(self, x, k):
        scalar = not isinstance(x, np.ndarray) and np.ndim(x) == 0
        X = np.asarray(x, float)
        p = self.p if self.krogh is None else None
        if self.krogh is not None:
            v = self.krogh.derivative(X.reshape(-1), k).reshape(X.shape) if k else self.krogh(X.reshape(-1)).reshape(X.shape)
        elif self.kind in ("poly", "lin", "const"):
            c = np.polynomial.polynomial.polyder(p, k) if k else p
            v = np.polynomial.polynomial.polyval(X, c)
        elif self.kind == "sin":
            a, b, w, ph = p
            v = b * w**k * np.sin(w * X + ph + k * math.pi / 2) + (a if k == 0 else 0)
        elif self.kind == "exp":
            v = p[0] * p[1]**k * np.exp(p[1] * X)
        else:
            c = p[0]
            for i in range(k):
                c *= p[2] - i
            v = c * (np.abs(X) + p[1])**(p[2] - k) * np.sign(X + 1e-300)**k
        v = np.array(v, float)
        return float(v) if scalar else v


class ConcE:
    mode = "conc"
    symbolic = False
    np = np

    def exact_splines(self):
        pass

    def __init__(self, contract, rng, given=None):
        self.contract = contract
        self.rng = rng
        self.given = given or {}
        self.used = {"choices": {}, "reals": {}}
        self.choices = self.used["choices"]
        self.names = {}
        self.calls = []
        self.roots = []
        self.ivp_policy = "end"
        self.ivp_message = None
        self.root_policy = "conv"
        self.fails = []
        self.checks = 0
        self.tmp = None
        self.real_files = None

    def uniq(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return n if k == 0 else f"{n}#{k}"

    def mod(self, name):
        import importlib
        try:
            return importlib.import_module(name)
        except ModuleNotFoundError:
            raise Missing(name)

    def get(self, obj, name):
        if not hasattr(obj, name):
            raise Missing(name)
        return getattr(obj, name)

    def choice(self, name, options):
        options = list(options)
        name = self.uniq(name)
        i = self.given.get("choices", {}).get(name)
        if i is None or not 0 <= i < len(options):
            i = self.rng.randrange(len(options))
        self.used["choices"][name] = i
        return options[i]

    def draw(self, lo, hi, gt, lt, span, special):
        r = self.rng
        a = lo if lo is not None else gt
        b = hi if hi is not None else lt
        if special and r.random() < 0.3:
            return float(r.choice(special))
        edge = r.random()
        if edge < 0.08 and lo is not None:
            return float(lo)
        if edge > 0.92 and hi is not None:
            return float(hi)
        if span is not None:
            a, b = span
        elif a is not None and b is None:
            b = a + 10 if a >= 0 else a + 10
        elif b is not None and a is None:
            a = b - 10
        elif a is None:
            a, b = -3, 3
        a, b = float(a), float(b)
        if a >= 0 and b / max(a, 1e-9) > 1e3 and r.random() < 0.6:
            v = math.exp(r.uniform(math.log(max(a, b * 1e-6)), math.log(b)))
        else:
            v = r.uniform(a, b)
        if r.random() < 0.1:
            v = float(f"{v:.2g}")
        ok = (lo is None or v >= lo) and (hi is None or v <= hi) and (gt is None or v > gt) and (lt is None or v < lt)
        return v if ok else (a + b) / 2 if a < b else a

    def check_bounds(self, v, lo, hi, gt, lt):
        v = np.asarray(v)
        for b, bad in ((lo, lambda b: v < b), (hi, lambda b: v > b), (gt, lambda b: ~(v > b)), (lt, lambda b: ~(v < b))):
            if b is not None and np.any(bad(b)):
                raise Skip("bounds")

    def real(self, name, lo=None, hi=None, gt=None, lt=None, span=None, special=()):
        name = self.uniq(name)
        g = self.given.get("reals", {})
        v = g.get(name)
        if v is None:
            v = self.draw(lo, hi, gt, lt, span, special)
        elif isinstance(v, list):
            v = v[0]
        v = float(v)
        self.check_bounds(v, lo, hi, gt, lt)
        self.used["reals"][name] = v
        return v

    def _arr(self, name, shape, kw):
        name = self.uniq(name)
        g = self.given.get("reals", {}).get(name)
        n = int(np.prod(shape)) if shape else 1
        if g is not None:
            vals = list(g) if isinstance(g, list) else [g]
            fixed = isinstance(g, list)
            while len(vals) < n:
                vals.append(self.draw(kw.get("lo"), kw.get("hi"), kw.get("gt"), kw.get("lt"), kw.get("span"), kw.get("special", ())))
            if not fixed:
                self.rng.shuffle(vals) if n > 1 and name in ("never",) else None
        else:
            vals = [self.draw(kw.get("lo"), kw.get("hi"), kw.get("gt"), kw.get("lt"), kw.get("span"), kw.get("special", ()))
                    for _ in range(n)]
        a = np.array(vals[:n], float)
        self.check_bounds(a, kw.get("lo"), kw.get("hi"), kw.get("gt"), kw.get("lt"))
        self.used["reals"][name] = [float(v) for v in a]
        return a.reshape(shape)

    def point(self, name, shapes=("scalar", "0d", "1d"), **kw):
        sh = self.choice(name + ".shape", shapes) if len(shapes) > 1 else shapes[0]
        if sh == "scalar":
            return self.real(name, **kw)
        if sh == "0d":
            return self._arr(name, (), kw)
        n = self.given.get("reals", {}).get(name)
        n = len(n) if isinstance(n, list) else self.rng.choice([1, 2, 3, 4, 5])
        if sh == "1d":
            return self._arr(name, (n,), kw)
        k = 2 if n % 2 == 0 else 1
        return self._arr(name, (n // k, k), kw)

    def const_point(self, name, value, shapes=("scalar", "0d", "1d")):
        sh = self.choice(name + ".shape", shapes) if len(shapes) > 1 else shapes[0]
        return float(value) if sh == "scalar" else np.full({"0d": (), "1d": (3,), "2d": (2, 2)}[sh], float(value))

    def table(self, name, span=(0, 3), values=None):
        n = self.choice(name + ".form", ["any length", 2, 3])
        if n == "any length":
            n = 2 + int(abs(self.real(name + "_n", span=(0, 12))))
        xs = [span[0] + self.rng.random() * 0.1]
        for i in range(1, n):
            xs.append(xs[-1] + self.rng.uniform(0.1, 1) * (span[1] - span[0]) / n)
        values = values or {}
        ys = [self.real(f"{name}_y{i}", **values) for i in range(n)]
        self.used["reals"][name + "_xs"] = list(xs)
        k = self.choice(name + ".entry", list(range(n)))
        a, b, x0 = xs[k], ys[k], xs[0]
        if self.choice(name + ".as", ["lists", "arrays"]) == "arrays":
            xs, ys = np.array(xs), np.array(ys)
        return xs, ys, a, b, x0

    def like(self, x, name, **kw):
        if isinstance(x, np.ndarray):
            return self._arr(name, x.shape, kw)
        return self.real(name, **kw)

    def elem(self, x):
        return x

    def spread(self, x, nd, like=None):
        return np.full({0: (), 1: (3,), 2: (2, 3)}[nd], x) if like is None else np.full(np.shape(like), x)

    def item(self, x):
        return float(np.asarray(x).reshape(-1)[0])

    def vec(self, *xs):
        return np.array(xs, float)

    def ivec(self, *xs):
        return np.array([int(x) for x in xs])

    def whole(self, name, lo=None, hi=None, gt=None, lt=None, span=None, special=()):
        v = self.real(name, lo, hi, gt, lt, span, special)
        for w in (math.ceil(v), math.floor(v)):
            try:
                self.check_bounds(w, lo, hi, gt, lt)
                return w
            except Skip:
                pass
        raise Skip("no integer")

    def inexact(self, v):
        return float(v)

    def fn(self, name, order=2, positive=True):
        b = Base(self, name, order, positive)
        self.used.setdefault("functions", {})[name] = [b.kind, getattr(b, "p", None)]
        return [CFn(b, k) for k in range(order + 1)]

    def own_derivative(self, name):
        """A function of the caller that is its own derivative and stores what it returned."""
        a = self.rng.uniform(0.3, 3)
        for x, v in self.given.get("anchors", {}).get(name, [])[:1]:
            a = v / np.exp(x)
        self.used.setdefault("functions", {})[name] = ["exp, stored", a]
        seen = {}

        def f(x):
            k = (np.shape(x), np.asarray(x, float).tobytes())
            if k not in seen:
                seen[k] = a * np.exp(np.asarray(x, float)) if np.ndim(x) or isinstance(x, np.ndarray) else a * math.exp(x)
            return seen[k]
        return f

    def requires(self, c):
        if not np.all(c):
            raise Skip("requires")

    def ivp(self, outcome="end", message=None):
        self.ivp_policy = outcome
        self.ivp_message = message

    def root(self, policy):
        self.root_policy = policy

    def state(self, call, x, *bounds):
        k = self.calls.index(call)
        X = np.asarray(x, float)
        out = []
        for i in range(call.n):
            b = dict(bounds[i] or {}) if i < len(bounds) else {}
            anch = self.given.get("anchors", {}).get(f"S{k}_{i}")
            if anch and X.ndim == 0:
                v = np.array(min(anch, key=lambda a: abs(a[0] - float(X)))[1])
                self.check_bounds(v, b.get("lo"), b.get("hi"), b.get("gt"), b.get("lt"))
                self.used["reals"][self.uniq(f"state{k}_{i}")] = float(v)
            else:
                v = self._arr(f"state{k}_{i}", X.shape, b) if X.ndim else np.array(self.real(f"state{k}_{i}", **b))
            out.append(v)
        if isinstance(call.sol, FlowSol):
            # a location repeated in a query has one state
            seen = {}
            for j, t in enumerate(X.reshape(-1)):
                if float(t) in seen or float(t) == float(call.t0):
                    raise Skip("repeated location")
                seen[float(t)] = 1
                call.sol.anchors.append((float(t), np.array([np.reshape(v, -1)[j] for v in out])))
        return [v if X.ndim else float(v) for v in out]

    # ---- calculus
    def D(self, f, x, order=1):
        if order == 2:
            return self.D(lambda v: self.D(f, v), x)
        x = np.asarray(x, float)
        h = 2e-4 * np.maximum(np.abs(x), 0.05)

        def c(h):
            return (np.asarray(f(x + h), float) - np.asarray(f(x - h), float)) / (2 * h)

        def rich(h):
            return (4 * c(h / 2) - c(h)) / 3
        d1, d2 = rich(h), rich(h / 4)
        s = np.abs(d1) + np.abs(np.asarray(f(x), float)) / np.maximum(np.abs(x), 0.05) * 1e-4 + 1e-12
        if not np.all(np.abs(d1 - d2) <= 1e-5 * s):
            raise Skip("not smooth here")
        return float(d2) if d2.ndim == 0 else d2

    def ln_mono(self, a, b):
        pass

    # ---- checks
    def _fail(self, name, msg):
        self.fails.append((name, msg))

    def true(self, name, c, note=None):
        self.checks += 1
        if not np.all(c):
            self._fail(name, note or "false")
            return False
        return True

    ensure = true

    def fail(self, name, note=None):
        self.checks += 1
        self._fail(name, note or "")

    def same_shape(self, name, a, b):
        return self.true(name, np.shape(a) == np.shape(b), f"shapes {np.shape(a)} and {np.shape(b)}")

    def eq(self, name, a, b, tol=1e-7, shape=True, abstol=0.0, scale=None):
        self.checks += 1
        tol = 1e-7 if tol is None else tol
        abstol = abstol or 0.0
        if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))) or not _numeric(a) or not _numeric(b):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if len(a) != len(b):
                    self._fail(name, f"{a!r} and {b!r}")
                    return False
                return all([self.eq(f"{name}[{k}]", x, y, tol) for k, (x, y) in enumerate(zip(a, b))])
            try:
                ok = bool(a is b or a == b)
            except Exception:
                ok = False
            if not ok:
                self._fail(name, f"{a!r} and {b!r}")
            return ok
        A, B = np.asarray(a, float), np.asarray(b, float)
        if shape and A.shape != B.shape:
            self._fail(name, f"shapes {A.shape} and {B.shape}")
            return False
        s = np.abs(A) + np.abs(B) if scale is None else scale
        with np.errstate(all="ignore"):
            ok = (np.abs(A - B) <= tol * s + abstol + 1e-290) | (A == B) | (np.isnan(A) & np.isnan(B))
        if not np.all(ok):
            self._fail(name, f"{A!r} and {B!r}")
            return False
        return True

    def close(self, name, a, b, tol):
        return self.true(name, np.abs(np.asarray(a) - np.asarray(b)) <= tol * (1 + 1e-9) + 1e-13, f"{a!r} and {b!r}")

    def le(self, name, a, b, tol=1e-9):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return self.true(name, a <= b + tol * (np.abs(a) + np.abs(b)), f"{a!r} and {b!r}")

    def lt(self, name, a, b):
        return self.true(name, np.asarray(a) < np.asarray(b), f"{a!r} and {b!r}")

    def ne(self, name, a, b):
        return self.true(name, np.asarray(a) != np.asarray(b), f"{a!r} and {b!r}")

    def same(self, name, a, b):
        return self.true(name, a is b)

    def finite(self, name, a):
        return self.true(name, np.isfinite(np.asarray(a, float)), f"{a!r}")

    def raises(self, name, exc, thunk):
        self.checks += 1
        try:
            thunk()
        except exc:
            return True
        except (Skip, Missing):
            raise
        except Exception as ex:
            self._fail(name, f"raised {type(ex).__name__}: {ex}")
            return False
        self._fail(name, f"no {exc.__name__} raised")
        return False

    def attempt(self, thunk):
        try:
            return thunk(), None
        except ValueError as ex:
            return None, ex

    def snapshot(self, *objs):
        out = []
        for o in objs:
            if isinstance(o, np.ndarray):
                out.append(("arr", o.copy()))
            elif isinstance(o, (list, tuple)):
                out.append(("seq", list(o)))
            else:
                out.append(("other", None))
        return out

    def unchanged(self, name, shot, *objs):
        for k, (s, o) in enumerate(zip(shot, objs)):
            if s[0] == "arr":
                self.true(name, s[1].shape == o.shape and bool(np.all((s[1] == o) | (np.isnan(s[1]) & np.isnan(o)))),
                          f"{s[1]!r} became {o!r}")
            elif s[0] == "seq":
                self.true(name, len(s[1]) == len(o) and all(a is b for a, b in zip(s[1], o)), "sequence changed")

    def where(self, c, a, b):
        return np.where(c, a, b)

    def file(self, name, lines):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="dvfile")
        p = os.path.join(self.tmp, name)
        with open(p, "w") as f:
            f.write("".join(lines))
        return p

    def brief(self, v):
        return float(f"{v:.4f}") or (1e-4 if v > 0 else 0.0)

    def numeral(self, v):
        return repr(float(v))

    def row(self, vals, width=0):
        return " ".join(self.numeral(v) if not isinstance(v, str) else v for v in vals).rjust(max(width - 1, 0)) + "\n"

    def block(self, name, make, some=False):
        there = some or self.choice(name + " rows", ["none", "some"]) == "some"
        n = self.rng.randint(1, 4) if there else 0
        return Rows([make(j) for j in range(n)])

    def rows(self, name, make, brief=False):
        """Any number of alike rows as pieces, the outer ones by themselves."""
        k = self.choice(name, ["none", "many"] if brief else ["none", "one", "two", "many"])
        a = [make(0)] if k != "none" else []
        b = [self.block(name, make, some=True)] if k == "many" else []
        return a + b + ([make(1)] if k in ("two", "many") else [])

    def turned(self, pieces):
        """Pieces in reverse order."""
        return [self.mirror(p) if hasattr(p, "sample") else p for p in pieces[::-1]]

    def lines(self, pieces, f):
        """Lines of the rows of the pieces."""
        return self.texts(*[p.lines(f) if hasattr(p, "sample") else f(p) for p in pieces])

    def mirror(self, b):
        return Rows(b.recs[::-1])

    def texts(self, *pieces):
        out = []
        for p in pieces:
            out += p if isinstance(p, list) else [p]
        return out

    def along(self, *pieces):
        k = 0
        for p in pieces:
            for r in p.recs if isinstance(p, Rows) else [p]:
                yield k, r
                k += 1

    def total(self, *pieces):
        return sum(p.n if isinstance(p, Rows) else 1 for p in pieces)

    def at(self, a, pos):
        return a[pos]

    def count(self, a):
        return len(a)

    def case_file(self, case, lines):
        import importlib.resources as res
        import pathlib
        self.file("unused", [])
        root = pathlib.Path(self.tmp) / "ibl"
        d = root / "data" / "stanford_olympics" / "1968"
        d.mkdir(parents=True, exist_ok=True)
        (d / f"case {case}.txt").write_text("".join(lines), encoding="utf8")
        self.served_count = 0
        mod = importlib.import_module("ibl.reference._stanford_1968")
        if self.real_files is None:
            self.real_files = (res.files, mod, getattr(mod, "files", None))

        def files(pkg):
            self.served_count += 1
            return root
        res.files = files
        if self.real_files[2] is not None:
            mod.files = files

    def served(self):
        self.requires(self.served_count > 0)

    def cleanup(self):
        if self.real_files is not None:
            import importlib.resources as res
            res.files, mod, f = self.real_files
            if f is not None:
                mod.files = f
            self.real_files = None
        if self.tmp:
            import shutil
            shutil.rmtree(self.tmp, ignore_errors=True)

    def note(self, s):
        pass


class Rows:
    def __init__(self, recs):
        self.recs = recs
        self.n = len(recs)

    def lines(self, f):
        return [f(r) for r in self.recs]

    def sample(self):
        return list(self.recs)


def _numeric(a):
    if isinstance(a, (int, float, np.number, np.ndarray)):
        return not isinstance(a, np.ndarray) or a.dtype.kind in "fiub"
    if isinstance(a, (list, tuple)):
        return len(a) > 0 and all(isinstance(v, (int, float, np.number)) for v in a)
    return False


def load(prop):
    path = api.contract_path(prop)
    ns = {"__name__": "contracts." + prop, "__file__": path, "np": np, "inf": float("inf"), "contract": api.contract}
    api.CONTRACTS.clear()
    common = os.path.join(os.path.dirname(path), "common.py")
    if os.path.exists(common):
        exec(compile(open(common).read(), common, "exec"), ns)
    exec(compile(open(path).read(), path, "exec"), ns)
    return list(api.CONTRACTS)


def from_repo(ex):
    root = os.path.realpath(api.repo_root()) + os.sep
    fs = traceback.extract_tb(ex.__traceback__)
    return any(os.path.realpath(f.filename).startswith(root) for f in fs)


class Timeout(BaseException):
    """One bounded run took too long."""


def _alarm(*a):
    raise Timeout()


TRIAL_SECS = 10


def trial(c, seed, given=None):
    """-> dict(status ok/skip/missing/fail/error, ...)"""
    global CUR
    e = ConcE(c, random.Random(seed), given)
    CUR = e
    st, msg = "ok", None
    np.random.seed(seed % 2**31)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TRIAL_SECS)
    try:
        c.fn(e)
    except Timeout:
        st, msg = "skip", "took too long"
    except Skip as ex:
        st, msg = "skip", str(ex)
    except Missing as ex:
        st, msg = "missing", str(ex)
    except OverflowError as ex:          # machine arithmetic is outside the claim
        st, msg = "skip", str(ex)
    except Exception as ex:
        w = traceback.extract_tb(ex.__traceback__)[-1]
        m = f"{type(ex).__name__}: {ex} @ {os.path.basename(w.filename)}:{w.lineno}"
        if from_repo(ex):
            e.fails.append(("no unexpected exception", m))
        else:
            st, msg = "error", m
    finally:
        signal.alarm(0)
        CUR = None
        e.cleanup()
    if e.fails and st != "missing":
        st = "fail"
    return dict(status=st, msg=msg, fails=e.fails[:5], used=e.used, checks=e.checks)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--time", type=float, default=20)
    ap.add_argument("--trials", type=int, default=60)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--requests", default=None, help="JSON list of replays")
    a = ap.parse_args()
    cs = load(a.prop)
    by = {c.name: c for c in cs}
    if a.requests:
        out = []
        start = time.time()
        for rq in json.load(open(a.requests)):
            hit, kept = None, 0
            t0 = time.time()
            for k in range(60):
                g = dict(rq["given"])
                pick = random.Random(k)
                if k >= 12:
                    g.pop("anchors", None)
                if k >= 20:                      # some of the model's values, the others random
                    few = 0.7 if k < 28 else 0.35
                    g["reals"] = {n: v for n, v in g.get("reals", {}).items() if pick.random() < few}
                if k >= 45:
                    g["reals"] = {}
                if k >= 53:
                    g["choices"] = {}
                r = trial(by[rq["contract"]], a.seed * 7919 + k, g)
                if r["status"] == "fail":
                    hit = dict(used=r["used"], fails=r["fails"], seed=a.seed * 7919 + k, given=g)
                    break
                kept += r["status"] == "ok" and k < 20
                if time.time() - t0 > 15 or time.time() - start > 200:
                    break
            out.append(hit or dict(kept=kept))
        print(json.dumps(out))
        return
    if a.replay:
        rp = json.load(open(a.replay))
        c = by[rp["contract"]]
        r = trial(c, rp.get("seed", 1), rp.get("given"))
        print(f"contract {c.name}: {r['status']}")
        for n, m in r["fails"]:
            print(f"  {n}: {m}")
        print("inputs: " + json.dumps(r["used"]))
        sys.exit(1 if r["status"] == "fail" else 0)
    res = {c.name: dict(trials=0, skipped=0, checks=0, errors=[], fails=[], missing=None, sample=None, distinct=0) for c in cs}
    t0 = time.time()
    seen = {c.name: set() for c in cs}
    todo = [c for c in cs if c.conc and (a.only is None or c.name in a.only.split(","))]
    k = 0
    while todo and time.time() - t0 < a.time:
        for c in list(todo):
            R = res[c.name]
            s = a.seed * 1000003 + k
            tt = time.time()
            r = trial(c, s)
            if r["status"] in ("skip", "missing"):
                R["skipped"] += 1
            else:
                R["trials"] += 1
                R["checks"] += r["checks"]
            key = json.dumps(r["used"], sort_keys=True, default=str)
            if r["status"] == "ok" and key not in seen[c.name]:
                seen[c.name].add(key)
                R["distinct"] += 1
                if R["sample"] is None:
                    R["sample"] = r["used"]
            if r["status"] == "missing":
                R["missing"] = r["msg"]
                todo.remove(c)
                continue
            if r["status"] == "error" and len(R["errors"]) < 3:
                R["errors"].append(r["msg"])
            if r["status"] == "fail":
                if len(R["fails"]) < 3:
                    R["fails"].append(dict(seed=s, used=r["used"], fails=r["fails"]))
                if len(R["fails"]) >= 3:
                    todo.remove(c)
                    continue
            n = c.trials or a.trials
            if c.trials and a.trials > 60:
                n = c.trials * (a.trials // 60)
            if R["trials"] >= n or R["skipped"] > 20 * n:
                todo.remove(c)
            if time.time() - t0 > a.time:
                break
        k += 1
    print(json.dumps(dict(results=res, secs=time.time() - t0)))


if __name__ == "__main__":
    main()
