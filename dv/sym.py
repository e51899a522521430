"""Symbolic values and the path-exploring run time.

The real code is executed by CPython itself; numbers and arrays that flow
through it are the proxies below.  Every truth test of a symbolic condition is
answered by the path oracle, and all feasible answers are explored by running
the code again, so the set of paths covers every input.
"""
from fractions import Fraction
import random
import time
import mpmath

from . import ival, terms as tm
from .terms import T, num, ZERO, ONE, Norm, is_const, const_of, padd, pscale
from .smt import PathSmt, Stats, closed_value, pclosed


class Unsupported(BaseException):
    """The code left what the verifier models (never a verdict)."""


class PathAbort(BaseException):
    """This path is infeasible or excluded by a precondition."""


class Budget(BaseException):
    pass


RT = None     # current Run


def set_rt(r):
    global RT
    RT = r


_kfrac = {}


def frac_of_float(x):
    r = _kfrac.get(x)
    if r is None:
        r = Fraction(repr(float(x)))
        if r and len(str(abs(r.numerator)).strip("0")) > 15:
            # a rounded constant expression: the number it stands for
            for q in (Fraction("%.15g" % x), r.limit_denominator(10**4)):
                n = str(abs(q.numerator)).strip("0")
                if abs(q - r) <= abs(r) * Fraction(1, 10**15) and (len(n) <= 12 or q.denominator <= 10**4):
                    r = q
                    break
        _kfrac[x] = r
    return r


# --------------------------------------------------------------------- run

class Run:
    def __init__(self, script, deadline=None, strict=False):
        self.script = list(script)
        self.trail = []          # (chosen, number of options)
        self.smt = PathSmt()
        self.lits = []
        self.lit_terms = []
        self.fresh = {}
        self.ranges = {}
        self.rules = {}          # UF derivative rules
        self.obls = []
        self.assumed = []
        self.strict = strict
        self.deadline = deadline
        self.state = {}
        self.inputs = {}
        self._norm = None
        self._norm_n = -1
        self.uf_eval = {}
        self.labels = []
        self.fns = set()
        self.loop_inv = {}

    def rule(self, f, args, i):
        if f not in self.rules:
            raise Unsupported(f"derivative of {f}")
        return self.rules[f](args, i)

    # -- naming
    def name(self, base):
        k = self.fresh.get(base, 0)
        self.fresh[base] = k + 1
        return base if k == 0 else f"{base}#{k}"

    def norm(self):
        if self._norm is None or self._norm_n != self.smt.n:
            self._norm = Norm(self.smt.sign)
            self._norm_n = self.smt.n
        return self._norm

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")

    # -- choices
    def choose(self, n, label=""):
        self.tick()
        i = len(self.trail)
        v = self.script[i] if i < len(self.script) else 0
        self.trail.append((v, n))
        return v

    # -- path condition
    def nf(self, t):
        try:
            return self.norm().nf(t)
        except tm.Limit as ex:
            raise Unsupported(f"term too large: {ex}")

    def add_lit(self, op, t):
        p = self.nf(t)
        self.lits.append((op, t))
        self.smt.assert_lit((op, p))

    def assume(self, b):
        """Add a condition without branching."""
        b = tobool(b)
        if b is True or b is False:
            if not b:
                raise PathAbort()
            return
        if not isinstance(b, SBool):
            raise Unsupported("assume of a non-boolean")
        k = b.k
        if k == "cmp":
            c = const_cmp(b)
            if c is None:
                self.add_lit(b.op, b.t)
                if self.smt.check() == "unsat":
                    raise PathAbort()
            elif not c:
                raise PathAbort()
        elif k == "and":
            for x in b.xs:
                self.assume(x)
        elif k == "bvar":
            self.smt.assert_lit(("b", b.name, b.pol))
        else:
            if not self.decide(b):
                raise PathAbort()

    def decide(self, b):
        self.tick()
        if b is True or b is False:
            return b
        if b.k == "and":
            return all(self.decide(x) for x in b.xs)
        if b.k == "or":
            return any(self.decide(x) for x in b.xs)
        if b.k == "bvar":
            key = ("bvar", b.name)
            if key in self.state:
                return self.state[key] == b.pol
            v = self.choose(2, b.name) == 0
            self.state[key] = v
            self.smt.assert_lit(("b", b.name, v))
            return v == b.pol
        c = const_cmp(b)
        if c is not None:
            return c
        op, t = b.op, b.t
        p = self.nf(t)
        if is_const(p):
            return cmp0(op, const_of(p))
        cv = closed_cmp(op, p)
        if cv is not None:
            return cv
        nop, nt = neg_cmp(op, t)
        np_ = self.nf(nt)
        s1 = self.smt.check((op, p))
        if s1 == "unsat":
            return False
        s2 = self.smt.check((nop, np_))
        if s2 == "unsat":
            return True
        if op in ("==", "!=") and self.norm().is_zero(p):
            return op == "=="
        if op in ("==", "!=") and any("@iter" in n for n in tm.free_vars(t)):
            # two values a search arrives at from an arbitrary iteration
            self.assumed.append("iterates of a search never coincide exactly")
            self.lits.append(("!=", t))
            self.smt.assert_lit(("!=", p))
            return op == "!="
        v = self.choose(2, show_cmp(op, t)) == 0
        if v:
            self.lits.append((op, t))
            self.smt.assert_lit((op, p))
        else:
            self.lits.append((nop, nt))
            self.smt.assert_lit((nop, np_))
        return v

    # -- definedness
    def need(self, kind, t, what):
        """A condition the mathematics needs (non zero divisor etc.)."""
        if of_another(t):
            return
        if t.op == "num":
            v = t.args[0]
            ok = {"nonzero": v != 0, "pos": v > 0, "nonneg": v >= 0}[kind]
            if ok:
                return
            raise Unsupported(f"{what}: undefined for constant {v}")
        p = self.nf(t)
        if is_const(p):
            return self.need(kind, num(const_of(p)), what) if p or kind == "nonneg" else \
                self._undef(kind, t, what)
        key = (kind, tm.freeze(p))
        done = self.state.setdefault("need", {})
        if done.get(key) == "ok":
            return
        s = self.norm().sign(p)
        if s == 1 or (s == -1 and kind == "nonzero"):
            done[key] = "ok"
            self.state["defined"] = self.state.get("defined", 0) + 1
            return
        lit = {"nonzero": ("==", p), "pos": ("<=", p), "nonneg": ("<", p)}[kind]
        if self.smt.check(lit, timeout=1500) == "unsat":
            done[key] = "ok"
            self.state["defined"] = self.state.get("defined", 0) + 1
            return
        if self.strict:
            self.obls.append(Obl("defined: " + what, "definedness",
                                 *self.prove(Cmp_need(kind, t))))
        else:
            self.assumed.append(f"{what}: {kind} {tm.show(t)[:120]}")
        # continue under the assumption that it is defined
        good = {"nonzero": ("!=", t), "pos": ("<", tm.neg(t)), "nonneg": ("<=", tm.neg(t))}[kind]
        self.add_lit(*good)
        if self.smt.check() == "unsat":
            raise PathAbort()
        done[key] = "ok"

    def _undef(self, kind, t, what):
        raise Unsupported(f"{what}: undefined {kind}")

    # -- proving
    def prove(self, b, timeout=8000):
        """-> (status, backend, seconds, model, text);  status proved / refuted
        / unknown.  The goal is b under the current path condition."""
        t0 = time.time()
        b = tobool(b)
        if b is True:
            return ("proved", "eval", 0.0, None)
        if b is False:
            m = self.any_model([])
            if m is None:
                r = self.smt.check(timeout=5000)
                if r == "unsat":
                    return ("proved", "z3 (path infeasible)", time.time() - t0, None)
                if r == "unknown":
                    r = self.smt.cvc5(timeout=10)
                    if r == "unsat":
                        return ("proved", "cvc5 (path infeasible)", time.time() - t0, None)
                    if r == "unknown":
                        return ("unknown", "path not shown feasible", time.time() - t0, None)
            return ("refuted", "eval", time.time() - t0, m)
        if b.k == "and":
            res = None
            for x in b.xs:
                r = self.prove(x, timeout)
                if r[0] != "proved":
                    return r
                res = r
            return res or ("proved", "eval", 0.0, None)
        if b.k == "or":
            # prove by case distinction
            lits = []
            for x in b.xs:
                n = x.negate()
                if n.k != "cmp":
                    return ("unknown", "or", time.time() - t0, None)
                lits.append((n.op, self.nf(n.t)))
            r = self.smt.check(*lits, timeout=timeout)
            if r == "unsat":
                return ("proved", "z3", time.time() - t0, None)
            if ival.impossible([(n.op, n.t) for n in (x.negate() for x in b.xs)], self.lits, self.norm()):
                return ("proved", "interval subdivision", time.time() - t0, None)
            return ("unknown", "z3", time.time() - t0, None)
        if b.k == "bvar":
            r = self.smt.check(("b", b.name, not b.pol), timeout=timeout)
            if r == "unsat":
                return ("proved", "z3", time.time() - t0, None)
            return ("unknown", "z3", time.time() - t0, None)
        c = const_cmp(b)
        if c is not None:
            return self.prove(c)
        op, t = b.op, b.t
        try:
            p = self.nf(t)
            if is_const(p):
                r = self.prove(cmp0(op, const_of(p)))
                return (r[0], "normaliser" if r[1] == "eval" else r[1]) + r[2:]
            cv = closed_cmp(op, p)
            if cv is not None:
                r = self.prove(cv)
                return (r[0], "constant evaluation (40 digits)") + r[2:]
            if op in ("==", "<="):
                Stats.nf_calls += 1
                z = self.norm().is_zero(p)
                Stats.nf_time += time.time() - t0
                if z:
                    return ("proved", "normaliser", time.time() - t0, None)
        except tm.Limit:
            return ("unknown", "normaliser limit", time.time() - t0, None)
        nop, nt = neg_cmp(op, t)
        nlit = (nop, self.nf(nt))
        # cheap numeric refutation first for equalities
        if op == "==":
            m = self.refute(b, [])
            if m is not None:
                return ("refuted", "numeric", time.time() - t0, m)
        r = self.smt.check(nlit, timeout=timeout)
        if r == "unsat":
            return ("proved", "z3", time.time() - t0, None)
        if r != "unsat" and op != "==":
            m = self.refute(b, [nlit])
            if m is not None:
                return ("refuted", "z3+numeric", time.time() - t0, m)
        if op != "==" and ival.impossible([(nop, nt)], self.lits, self.norm()):
            return ("proved", "interval subdivision", time.time() - t0, None)
        if r == "unknown":
            if self.smt.cvc5(nlit, timeout=max(2, timeout // 1000)) == "unsat":
                return ("proved", "cvc5", time.time() - t0, None)
        return ("unknown", "z3 " + r, time.time() - t0, None)

    def all_vars(self, extra=()):
        vs = set()
        for _, t in self.lits:
            tm.free_vars(t, vs)
        for t in extra:
            tm.free_vars(t, vs)
        return vs | set(self.inputs)

    def any_model(self, lits, k=1):
        rng = random.Random(11)
        for env, apps in self.smt.models(lits, self.ranges, k, rng, sorted(self.all_vars())):
            e = self.numenv(env, apps)
            return self.describe(e)
        return None

    def numenv(self, env, apps):
        e = tm.Rnd(3, env=env)
        vals = {}

        def uf(f, args):
            fn = self.uf_eval.get(f)
            if fn is not None:
                return fn(*args)
            key = (f, tuple(mpmath.nstr(a, 18) for a in args))
            return vals.get(key)
        e.uf = uf
        # values z3 gave to applications, innermost first
        for a, v in sorted(apps.items()):
            k = tm._atoms[a]
            try:
                args = [tm.pnum(tm.thaw(i), e) for i in k[2:]]
            except tm.Undefined:
                continue
            vals[(k[1], tuple(mpmath.nstr(x, 18) for x in args))] = v
        return e

    def describe(self, e, extra=()):
        """Values of the inputs, and of the user functions and solutions where
        the path or the goal mentions them."""
        d = {}
        for n in sorted(self.inputs):
            try:
                d[n] = float(e.var(n))
            except Exception:
                pass
        anchors, rigid = {}, False
        seen = set()
        stack = [t for _, t in self.lits] + list(extra)
        goal = set()
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            for a in t.args:
                if isinstance(a, T):
                    stack.append(a)
            if t.op == "app" and len(t.args) == 2 and (t.args[0] in self.fns or t.args[0].startswith("S")):
                try:
                    anchors.setdefault(t.args[0], []).append(
                        [float(tm.tnum(t.args[1], e)), float(tm.tnum(t, e))])
                except Exception:
                    pass
        stack = list(extra)
        seen = set()
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            for a in t.args:
                if isinstance(a, T):
                    stack.append(a)
            if t.op == "app" and t.args[0].startswith(("Int", "P_", "P")):
                rigid = True
        d["_anchors"] = anchors
        d["_rigid"] = rigid
        return d

    def holds(self, e, op, t, margin=0):
        v = tm.tnum(t, e)
        if op == "<":
            return v < -margin
        if op == "<=":
            return v <= margin
        if op == "==":
            return abs(v) <= mpmath.mpf(10) ** -25 + margin
        return v != 0

    def refute(self, b, lits, tries=6):
        """Look for a genuine numeric counterexample of the comparison b."""
        rng = random.Random(5)
        op, t = b.op, b.t
        nop, nt = neg_cmp(op, t)
        seen = 0
        for env, apps in self.smt.models(lits, self.ranges, tries, rng, sorted(self.all_vars([t]))):
            e = self.numenv(env, apps)
            try:
                ok = True
                for o, x in self.lits:
                    if o == "==":
                        v = tm.tnum(x, e)
                        if abs(v) > mpmath.mpf(10) ** -20:
                            ok = False
                            break
                    elif not self.holds(e, o, x):
                        ok = False
                        break
                if not ok:
                    continue
                v = tm.tnum(t, e)
                mag = self.magnitude(t, e)
                eps = mag * mpmath.mpf(10) ** -10
                bad = {"==": abs(v) > eps, "<=": v > eps, "<": v >= 0 and (v > eps or op == "<"),
                       "!=": abs(v) < mpmath.mpf(10) ** -30}[op]
                if bad:
                    d = self.describe(e, [t])
                    d["_difference"] = float(v)
                    return d
            except (tm.Undefined, OverflowError, ZeroDivisionError, ValueError):
                continue
        return None

    @staticmethod
    def magnitude(t, e):
        if t.op == "add":
            return Run.magnitude(t.args[0], e) + Run.magnitude(t.args[1], e)
        return abs(tm.tnum(t, e))


class Obl:
    def __init__(self, name, kind, status, backend, secs, model):
        self.name = name
        self.kind = kind
        self.status = status
        self.backend = backend
        self.secs = secs
        self.model = model


def Cmp_need(kind, t):
    return {"nonzero": lambda: SBool.cmp("!=", t), "pos": lambda: SBool.cmp("<", tm.neg(t)),
            "nonneg": lambda: SBool.cmp("<=", tm.neg(t))}[kind]()


def cmp0(op, v):
    return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[op]


def closed_cmp(op, p):
    """Truth of p op 0 for a polynomial without variables, when it is clear."""
    if not pclosed(p):
        return None
    v = closed_value(tm.freeze(p))
    if v is None or abs(v) < mpmath.mpf(10) ** -25:
        return None
    return {"<": v < 0, "<=": v < 0, "==": False, "!=": True}[op]


def neg_cmp(op, t):
    if op == "<":
        return "<=", tm.neg(t)
    if op == "<=":
        return "<", tm.neg(t)
    return ("!=" if op == "==" else "=="), t


def const_cmp(b):
    if b.t.op == "num":
        return cmp0(b.op, b.t.args[0])
    return None


def show_cmp(op, t):
    return f"{tm.show(t)[:200]} {op} 0"


# ------------------------------------------------------------------ booleans

class SBool:
    __slots__ = ("k", "op", "t", "xs", "name", "pol")
    ndim = 0
    shape = ()
    size = 1

    @staticmethod
    def cmp(op, t):
        b = SBool()
        b.k = "cmp"
        b.op = op
        b.t = t
        return b

    @staticmethod
    def bvar(name, pol=True):
        b = SBool()
        b.k = "bvar"
        b.name = name
        b.pol = pol
        return b

    @staticmethod
    def const(v):
        """numpy's True / False"""
        b = SBool()
        b.k = "and" if v else "or"
        b.xs = []
        return b

    @staticmethod
    def conj(xs):
        return SBool._nary("and", xs)

    @staticmethod
    def disj(xs):
        return SBool._nary("or", xs)

    @staticmethod
    def _nary(k, xs):
        out = []
        for x in xs:
            x = tobool(x)
            if x is True or x is False:
                if (k == "and") != x:
                    return x
                continue
            if x.k == k:
                out += x.xs
            else:
                out.append(x)
        if not out:
            return k == "and"
        if len(out) == 1:
            return out[0]
        b = SBool()
        b.k = k
        b.xs = out
        return b

    def negate(self):
        if self.k == "cmp":
            return SBool.cmp(*neg_cmp(self.op, self.t))
        if self.k == "bvar":
            return SBool.bvar(self.name, not self.pol)
        f = SBool.disj if self.k == "and" else SBool.conj
        return f([x.negate() if isinstance(x, SBool) else (not x) for x in self.xs])

    def __bool__(self):
        return RT.decide(self)

    def __and__(self, o):
        if isinstance(o, (GArr, VArr)):
            return NotImplemented
        return SBool.conj([self, o])
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (GArr, VArr)):
            return NotImplemented
        return SBool.disj([self, o])
    __ror__ = __or__

    def __invert__(self):
        return self.negate()

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def any(self, *a):
        return self

    def all(self, *a):
        return self

    def item(self):
        return self

    def __repr__(self):
        if self.k == "cmp":
            return show_cmp(self.op, self.t)
        return f"SBool({self.k})"


def tobool(x):
    if isinstance(x, SBool):
        if x.k in ("and", "or") and not x.xs:
            return x.k == "and"
        return x
    if isinstance(x, bool):
        return x
    if isinstance(x, GArr) and x.tag.ndim == 0:
        return tobool(x.cell.v)
    if isinstance(x, SReal):
        return x != 0
    import numpy as _np
    if isinstance(x, _np.bool_):
        return bool(x)
    return bool(x)


# ------------------------------------------------------------------- reals

class SReal(float):
    """A real number known to the verifier as a term (or inf / nan)."""
    __slots__ = ("t", "sp")
    isnp = False

    def __new__(cls, t=None, sp=None):
        o = float.__new__(cls, float("nan"))
        o.t = t
        o.sp = sp
        return o

    # conversions that would lose the term
    def _const(self):
        if self.sp:
            return float(self.sp)
        if self.t.op == "num":
            return float(self.t.args[0])
        p = RT.nf(self.t) if RT else None
        if p is not None and is_const(p):
            return float(const_of(p))
        raise Unsupported(f"concrete value of symbolic {tm.show(self.t)[:60]} needed")

    def __float__(self):
        return self._const()

    def __int__(self):
        return int(self._const())

    def __index__(self):
        v = self._const()
        if v != int(v):
            raise TypeError("not an integer")
        return int(v)

    def __trunc__(self):
        return int(self._const())

    def __round__(self, n=None):
        return lift(round(self._const(), n) if n is not None else round(self._const()))

    def __hash__(self):
        return hash(self._const())

    def __bool__(self):
        if self.sp:
            return True
        return bool(self != 0)

    def __format__(self, spec):
        return str(self)

    def __str__(self):
        if self.sp:
            return self.sp
        if self.t.op == "num":
            return repr(float(self.t.args[0]))
        if RT is None:
            return "?"
        return "⟨" + tm.pshow(RT.nf(self.t)) + "⟩"
    __repr__ = __str__

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return self._const() == int(self._const())

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


class SNp(SReal):
    """numpy scalar flavour (result of an array operation)."""
    __slots__ = ()
    isnp = True
    ndim = 0
    shape = ()
    size = 1

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def item(self):
        return SReal(self.t, self.sp)

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def tolist(self):
        return SReal(self.t, self.sp)

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        if isinstance(i, (bool, SBool)):
            return GArr(Tag.new(1, "sub"), self if bool(i) else fresh_real("other_elem"))
        raise IndexError("invalid index to scalar variable.")

    def min(self):
        return self

    max = min
    sum = min
    mean = min


INF = None


class SAbs(SNp):
    """|inner|; the sign of inner is decided when the value itself is needed."""
    __slots__ = ("inner", "val")

    def __new__(cls, inner):
        o = float.__new__(cls, float("nan"))
        o.inner = inner
        o.val = None
        o.sp = None
        return o

    def open(self):
        return self.val is None

    @property
    def t(self):
        if self.val is None:
            neg = bool(compare("<", self.inner, 0))
            self.val = (_neg(self.inner) if neg else self.inner).t
        return self.val



def lift(x):
    """Any scalar -> SReal."""
    if isinstance(x, SReal):
        return x
    if isinstance(x, bool):
        return SReal(num(int(x)))
    if isinstance(x, int):
        return SReal(num(x))
    if isinstance(x, float):
        if x != x:
            return SReal(None, "nan")
        if x in (float("inf"), float("-inf")):
            return SReal(None, "inf" if x > 0 else "-inf")
        return SReal(num(frac_of_float(x)))
    if isinstance(x, Fraction):
        return SReal(num(x))
    if isinstance(x, SBool):
        return SReal(ONE if bool(x) else ZERO)
    if isinstance(x, GArr) and x.tag.ndim == 0:
        return lift(x.cell.v)
    import numpy as _np
    if isinstance(x, _np.floating):
        return lift(float(x))
    if isinstance(x, _np.integer):
        return lift(int(x))
    raise Unsupported(f"not a number: {type(x).__name__}")


def is_scalar(x):
    import numpy as _np
    return isinstance(x, (int, float, SBool, Fraction, _np.number))


def fresh_real(base, lo=None, hi=None, cls=SReal):
    n = RT.name(base)
    if lo is not None or hi is not None:
        RT.ranges[n] = (lo, hi)
    return cls(tm.var(n))


def bool_key(b):
    if b is True or b is False:
        return b
    if b.k == "cmp":
        return b.op, b.t
    if b.k == "bvar":
        return b.name, b.pol
    return b.k, tuple(bool_key(x) for x in b.xs)


def other_name(kind, tag, e):
    """Name of the truth of e at some / all other elements: one per condition and shape."""
    known = RT.state.setdefault("others", {})
    key = kind, id(tag), bool_key(e)
    if key not in known:
        known[key] = RT.name(kind), tag
    return known[key][0]


def _sgn_of(x):
    """sign of an SReal as -1,0,1 (branches)."""
    if x.sp:
        return {"inf": 1, "-inf": -1}.get(x.sp, 0)
    if bool(SBool.cmp("<", tm.neg(x.t))):
        return 1
    if bool(SBool.cmp("<", x.t)):
        return -1
    return 0


def arith(op, a, b):
    a, b = lift(a), lift(b)
    cls = SNp if (a.isnp or b.isnp) else SReal
    if a.sp or b.sp:
        return special(op, a, b, cls)
    x, y = a.t, b.t
    if op == "add":
        r = tm.add(x, y)
    elif op == "sub":
        r = tm.sub(x, y)
    elif op == "mul":
        r = tm.mul(x, y)
    elif op == "div":
        if y.op == "num" and y.args[0] == 0:
            if cls is SReal:
                raise ZeroDivisionError("float division by zero")
            return special0(a, cls)
        RT_need("nonzero", y, "divisor")
        r = tm.div(x, y)
    elif op == "pow":
        r = power(x, y)
    elif op in ("floordiv", "mod"):
        if x.op == "num" and y.op == "num":
            v = x.args[0] // y.args[0] if op == "floordiv" else x.args[0] % y.args[0]
            return cls(num(v))
        raise Unsupported(op)
    else:
        raise AssertionError(op)
    return cls(r)


def special0(a, cls):
    s = _sgn_of(a)
    return cls(None, {1: "inf", -1: "-inf", 0: "nan"}[s])


def RT_need(kind, t, what):
    if RT is not None:
        RT.need(kind, t, what)
    elif t.op == "num":
        v = t.args[0]
        if not {"nonzero": v != 0, "pos": v > 0, "nonneg": v >= 0}[kind]:
            raise Unsupported(what)
    else:
        raise Unsupported(what)


def power(x, y):
    if y.op == "num":
        e = y.args[0]
        if e.denominator == 1:
            if e < 0:
                RT_need("nonzero", x, "base of a negative power")
            return tm.power(x, y)
        RT_need("nonneg" if e > 0 else "pos", x, "base of a fractional power")
        return tm.power(x, y)
    if x.op == "num" and x.args[0] > 0 or x.op == "const":
        return tm.power(x, y)
    if RT is not None:
        p = RT.nf(y)
        if is_const(p):
            return power(x, num(const_of(p)))
    RT_need("pos", x, "base of a symbolic power")
    return tm.power(x, y)


def special(op, a, b, cls):
    sa, sb = a.sp, b.sp

    def mk(s):
        return cls(None, s)
    if "nan" in (sa, sb):
        return mk("nan")
    flip = {"inf": "-inf", "-inf": "inf"}
    if op == "sub":
        return special("add", a, cls(None, flip[sb]) if sb else cls(tm.neg(b.t)), cls)
    if op == "add":
        if sa and sb:
            return mk(sa if sa == sb else "nan")
        return mk(sa or sb)
    if op == "mul":
        s = _sgn_of(a) * _sgn_of(b)
        return mk({1: "inf", -1: "-inf", 0: "nan"}[s])
    if op == "div":
        if sa and sb:
            return mk("nan")
        if sb:
            return cls(ZERO)
        s = _sgn_of(b)
        if s == 0:
            if cls is SReal:
                raise ZeroDivisionError("float division by zero")
            raise Unsupported("inf/0")
        return mk(sa if s > 0 else flip[sa])
    if op == "pow":
        if sa == "inf" and not sb:
            s = _sgn_of(b)
            return mk("inf") if s > 0 else cls(ZERO) if s < 0 else cls(ONE)
        if sa == "-inf" and b.t is not None and b.t.op == "num" and b.t.args[0].denominator == 1:
            n = int(b.t.args[0])
            return mk("inf" if n % 2 == 0 else "-inf") if n > 0 else cls(ZERO)
    raise Unsupported(f"{op} with infinity")


def compare(op, a, b):
    """op in < <= == != > >=  -> bool or SBool"""
    if op == ">":
        return compare("<", b, a)
    if op == ">=":
        return compare("<=", b, a)
    a, b = lift(a), lift(b)
    if op in ("<", "<=") and not a.sp and not b.sp:
        # |x| against a number without deciding the sign of x
        if isinstance(a, SAbs) and a.open() and not (isinstance(b, SAbs) and b.open()):
            return SBool.conj([compare(op, a.inner, b), compare(op, _neg(a.inner), b)])
        if isinstance(b, SAbs) and b.open() and not (isinstance(a, SAbs) and a.open()):
            return SBool.disj([compare(op, a, b.inner), compare(op, a, _neg(b.inner))])
    if a.sp or b.sp:
        if "nan" in (a.sp, b.sp):
            return op == "!="
        v = {"inf": 1, "-inf": -1}
        x, y = v.get(a.sp, 0), v.get(b.sp, 0)
        if op == "==":
            return x == y
        if op == "!=":
            return x != y
        return x < y if op == "<" else x <= y
    d = tm.sub(a.t, b.t)
    if d.op == "num":
        return cmp0(op, d.args[0])
    return SBool.cmp(op, d)


def _bin(op):
    def f(self, o):
        if isinstance(o, (GArr, VArr)) or not is_scalar(o):
            return NotImplemented
        return arith(op, self, o)

    def r(self, o):
        if isinstance(o, (GArr, VArr)) or not is_scalar(o):
            return NotImplemented
        return arith(op, o, self)
    return f, r


for _n, _o in [("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"),
               ("pow", "pow"), ("floordiv", "floordiv"), ("mod", "mod")]:
    _f, _r = _bin(_o)
    setattr(SReal, f"__{_n}__", _f)
    setattr(SReal, f"__r{_n}__", _r)


def _neg(self):
    if self.sp:
        return type(self)(None, {"inf": "-inf", "-inf": "inf", "nan": "nan"}[self.sp])
    return type(self)(tm.neg(self.t))


def absval(x):
    x = lift(x)
    if x.sp:
        return type(x)(None, "nan" if x.sp == "nan" else "inf")
    if isinstance(x, SAbs):
        return x
    if x.t.op == "num" or RT is None:
        return _neg(x) if bool(compare("<", x, 0)) else x
    s = RT.norm().sign(RT.nf(x.t))
    if s is not None and s != 0:
        return x if s > 0 else _neg(x)
    return SAbs(x)


SReal.__neg__ = _neg
SReal.__pos__ = lambda self: self
SReal.__abs__ = absval


def _cmp(op):
    def f(self, o):
        if isinstance(o, (GArr, VArr)):
            return NotImplemented
        if not is_scalar(o):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        r = compare(op, self, o)
        if isinstance(r, bool) and (self.isnp or getattr(o, "isnp", False)):
            return SBool.const(r)
        return r
    return f


for _n, _o in [("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")]:
    setattr(SReal, f"__{_n}__", _cmp(_o))
# __eq__ removed __hash__: restore
SReal.__hash__ = lambda self: hash(self._const())


# ------------------------------------------------------------------- arrays

class Tag:
    """Identity of an array shape (0-d, or n-d with unknown extents)."""
    def __init__(self, ndim, name, n=None, least=1):
        self.ndim = ndim
        self.name = name
        self._n = n
        self.least = least
        self.subs = {}

    @staticmethod
    def new(ndim, base):
        return Tag(ndim, RT.name("shape_" + base) if RT else base)

    @property
    def dims(self):
        if self.ndim == 0:
            return ()
        if self._n is None:
            self._n = []
            for i in range(self.ndim):
                v = fresh_real(f"n_{self.name}_{i}")
                RT.add_lit("<=", tm.sub(ONE, v.t) if self.least else tm.neg(v.t))
                self._n.append(v)
        return Dims(self._n, self)


def mask_key(b):
    if not isinstance(b, SBool):
        return b
    return (b.k, b.op, b.t.id) if b.k == "cmp" else (b.k, b.name, b.pol) if b.k == "bvar" else \
        (b.k, tuple(mask_key(x) for x in b.xs))


def selected(tag, mask):
    """The shape of the elements a mask selects (one shape for one mask), and whether it selects this element."""
    hit = bool(tobool(mask))
    k = mask_key(mask)
    if k not in tag.subs:
        tag.subs[k] = Tag(1, RT.name("shape_sub"), least=int(hit))
    return tag.subs[k], hit


def of_another(t):
    """Whether a value belongs to an element other than the one looked at (a masked selection): what must hold for
    it is asked where the selection holds for the element looked at, which is any element."""
    return any(v.startswith("other_elem") for v in tm.free_vars(t))


class Dims(tuple):
    """The extents of a tag."""
    def __new__(cls, n, tag):
        r = tuple.__new__(cls, n)
        r.tag = tag
        return r


TAG0 = Tag(0, "0d")


class Cell:
    __slots__ = ("v", "owner")

    def __init__(self, v):
        self.v = v


class GArr:
    """Array of unknown extent represented by its element at a generic index.

    All operations the verifier accepts are elementwise, so that what holds of
    the generic element holds of every element."""
    __array_priority__ = 1000
    __array_ufunc__ = None
    uniform = False

    def __init__(self, tag, v, cell=None):
        self.tag = tag
        if cell is None:
            cell = Cell(v if isinstance(v, (SBool, bool)) else npval(v))
        self.cell = cell

    # -- attributes
    @property
    def ndim(self):
        return self.tag.ndim

    @property
    def shape(self):
        return self.tag.dims

    @property
    def size(self):
        if self.tag.ndim == 0:
            return 1
        r = lift(1)
        for d in self.tag.dims:
            r = r * d
        return r

    @property
    def dtype(self):
        return "bool" if isinstance(self.cell.v, (SBool, bool)) else "float64"

    def copy(self, *_a, **_k):
        return GArr(self.tag, self.cell.v)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t=None, **k):
        if t in (int, bool):
            raise Unsupported("astype")
        return self.copy()

    def item(self):
        if self.tag.ndim:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return SReal(self.cell.v.t, self.cell.v.sp)

    def __float__(self):
        raise Unsupported("float() of an array by native code")

    def __len__(self):
        if self.tag.ndim == 0:
            raise TypeError("len() of unsized object")
        raise Unsupported("len of a symbolic array")

    def __iter__(self):
        if self.tag.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        raise Unsupported("iteration over a symbolic array")

    def __bool__(self):
        if self.tag.ndim == 0:
            return bool(tobool(self.cell.v))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def any(self, *a, **k):
        e = tobool(self.cell.v)
        if self.tag.ndim == 0 or self.uniform:
            return e
        if bool(e):
            return True
        return bool(SBool.bvar(other_name("other_any", self.tag, e)))

    def all(self, *a, **k):
        e = tobool(self.cell.v)
        if self.tag.ndim == 0 or self.uniform:
            return e
        if not bool(e):
            return False
        return bool(SBool.bvar(other_name("other_all", self.tag, e)))

    def min(self, *a, **k):
        if self.tag.ndim == 0:
            return self.cell.v
        m = fresh_real("amin", cls=SNp)
        RT.assume(m <= self.cell.v)
        return m

    def max(self, *a, **k):
        if self.tag.ndim == 0:
            return self.cell.v
        m = fresh_real("amax", cls=SNp)
        RT.assume(m >= self.cell.v)
        return m

    def flatten(self):
        if self.tag.ndim == 1:
            return self.copy()
        raise Unsupported("flatten")
    ravel = flatten

    def _same(self, o):
        return o.tag is self.tag

    def __getitem__(self, i):
        if i == () if isinstance(i, tuple) else i is Ellipsis:
            return GArr(self.tag, None, cell=self.cell) if self.tag.ndim or i is Ellipsis else out(TAG0, self.cell.v)
        if isinstance(i, GArr) and isinstance(i.cell.v, (SBool, bool)):
            if self.tag.ndim and i.tag is not self.tag:
                raise Unsupported("mask of another shape")
            tag, hit = selected(self.tag, i.cell.v)
            return GArr(tag, self.cell.v if hit else fresh_real("other_elem"))
        if isinstance(i, (bool, SBool)) and self.tag.ndim == 0:
            tag = Tag(1, RT.name("shape_sub"), least=int(bool(i)))
            return GArr(tag, self.cell.v if bool(i) else fresh_real("other_elem"))
        if isinstance(i, int) and self.tag.ndim == 1 and isinstance(self.cell.v, SReal) \
                and self.cell.v.t is not None and self.cell.v.t.op == "var":
            n = self.cell.v.t.args[0] + f"[{i}]"
            return SNp(tm.var(n))
        if isinstance(i, slice) and i == slice(None):
            return self
        raise Unsupported(f"index {i!r} into a symbolic array")

    def __setitem__(self, i, v):
        if isinstance(i, GArr) and isinstance(i.cell.v, (SBool, bool)):
            if self.tag.ndim and i.tag is not self.tag:
                raise Unsupported("mask of another shape")
            tag, c = selected(self.tag, i.cell.v)
            if isinstance(v, GArr) and v.tag.ndim and v.tag is not tag and not v.uniform:
                raise Unsupported("array of another shape for the selected elements")
        elif isinstance(i, (SBool, bool)) and self.tag.ndim == 0:
            c = bool(i)
        elif (isinstance(i, slice) and i == slice(None)) or i is Ellipsis or (isinstance(i, tuple) and i == () and self.tag.ndim == 0):
            c = True
        else:
            raise Unsupported(f"assignment to index {i!r} of a symbolic array")
        if c:
            self.cell.v = npval(v.cell.v) if isinstance(v, GArr) else npval(lift(v))

    def __repr__(self):
        return f"GArr{self.tag.ndim}({self.cell.v!r})"

    __hash__ = None


def npval(v):
    v = lift(v)
    return v if v.isnp else SNp(v.t, v.sp)


def out(tag, v):
    """Result of an elementwise operation."""
    if tag.ndim == 0:
        if isinstance(v, bool):
            return SBool.const(v)
        if isinstance(v, SBool):
            return v
        return npval(v)
    return GArr(tag, v)


class VArr:
    """Array with a known leading extent; entries are scalars or GArr."""
    __array_priority__ = 1001
    __array_ufunc__ = None
    ints = False        # of integers: what is stored loses its fraction

    def __init__(self, cells, tag=TAG0):
        self.cells = cells      # list of Cell (scalar entries) / Cell shared with GArr
        self.tag = tag          # shape of each entry

    @staticmethod
    def of(vals):
        vals = list(vals)
        tag = TAG0
        for v in vals:
            if isinstance(v, GArr) and v.tag.ndim:
                if tag is TAG0:
                    tag = v.tag
                elif tag is not v.tag:
                    raise Unsupported("ragged array")
        cells = []
        for v in vals:
            if isinstance(v, GArr):
                if v.tag is not tag and v.tag.ndim == 0 and tag.ndim:
                    raise Unsupported("ragged array")
                cells.append(Cell(v.cell.v))
            elif isinstance(v, (SBool, bool)):
                cells.append(Cell(v))
            elif isinstance(v, VArr):
                raise Unsupported("nested array")
            else:
                if tag.ndim:
                    raise Unsupported("ragged array")
                cells.append(Cell(npval(lift(v))))
        return VArr(cells, tag)

    def reshape(self, *a, **k):
        a = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        n = len(self.cells)
        a = [x.__index__() if isinstance(x, SReal) else x for x in a]
        if k or self.tag.ndim or len(a) not in (1, 2) or any(type(x) is not int for x in a) or a.count(-1) > 1:
            raise Unsupported("reshape")
        if -1 in a:
            m = 1
            for x in a:
                m *= x if x != -1 else 1
            if m == 0 or n % m:
                raise ValueError("cannot reshape array")
            a[a.index(-1)] = n // m
        if len(a) == 1:
            if a[0] != n:
                raise ValueError("cannot reshape array")
            return VArr(self.cells).integers(self.ints)
        if a[0] * a[1] != n:
            raise ValueError("cannot reshape array")
        return Rows([VArr(self.cells[q * a[1]:(q + 1) * a[1]]) for q in range(a[0])], a[1])

    @property
    def ndim(self):
        return 1 + self.tag.ndim

    @property
    def shape(self):
        return (len(self.cells),) + tuple(self.tag.dims)

    @property
    def size(self):
        r = len(self.cells)
        for d in self.tag.dims:
            r = d * r
        return r

    @property
    def dtype(self):
        return "int64" if self.ints else "float64"

    def __len__(self):
        return len(self.cells)

    def entry(self, c):
        if self.tag.ndim == 0:
            return c.v if isinstance(c.v, (SBool, bool)) else npval(c.v)
        return GArr(self.tag, None, cell=c)

    def __iter__(self):
        for c in list(self.cells):
            yield self.entry(c)

    def copy(self, *_a, **_k):
        return VArr([Cell(c.v) for c in self.cells], self.tag).integers(self.ints)

    __copy__ = copy

    def integers(self, yes=True):
        if yes:
            self.ints = True
        return self

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *_a, **_k):
        r = self.copy()
        r.ints = False
        return r

    def tolist(self):
        if self.tag.ndim:
            raise Unsupported("tolist")
        return [SReal(c.v.t, c.v.sp) for c in self.cells]

    def flatten(self):
        if self.tag.ndim == 0:
            return self.copy()
        raise Unsupported("flatten")
    ravel = flatten

    def __bool__(self):
        if self.size == 1:
            return bool(tobool(self.cells[0].v))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def any(self, *a, **k):
        return any(bool(tobool_entry(x)) for x in self)

    def all(self, *a, **k):
        return all(bool(tobool_entry(x)) for x in self)

    def _fold(self, less):
        it = [self.entry(c) for c in self.cells]
        if not it:
            raise ValueError("zero-size array to reduction operation")
        m = it[0]
        for x in it[1:]:
            if bool(x < m) if less else bool(x > m):
                m = x
        return m

    def min(self, *a, **k):
        return self._fold(True)

    def max(self, *a, **k):
        return self._fold(False)

    def sum(self, *a, **k):
        r = npval(lift(0))
        for x in self:
            r = r + x
        return r

    def mean(self, *a, **k):
        return self.sum() / len(self.cells)

    def __getitem__(self, i):
        if isinstance(i, SReal):
            i = i.__index__()
        if isinstance(i, int) and not isinstance(i, bool):
            return self.entry(self.cells[i])
        if isinstance(i, slice):
            return VArr(self.cells[i], self.tag).integers(self.ints)
        if i is Ellipsis:
            return VArr(self.cells, self.tag).integers(self.ints)
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], int) and \
                (i[1] is Ellipsis or i[1] == slice(None)) and self.tag.ndim:
            return self.entry(self.cells[i[0]])
        if isinstance(i, VArr) and i.ints:
            i = [lift(k).__index__() for k in i]
        if isinstance(i, VArr) and self.tag.ndim == 0:
            return VArr([Cell(c.v) for c, m in zip(self.cells, i.cells) if bool(tobool(m.v))]).integers(self.ints)
        if isinstance(i, list) and self.tag.ndim == 0 and all(isinstance(k, int) for k in i):
            return VArr([Cell(self.cells[k].v) for k in i])
        raise Unsupported(f"index {i!r}")

    def __setitem__(self, i, v):
        if isinstance(i, SReal):
            i = i.__index__()
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], int) and \
                (i[1] is Ellipsis or i[1] == slice(None)) and self.tag.ndim:
            i = i[0]
        if isinstance(i, int) and not isinstance(i, bool):
            c = self.cells[i]
            self._set(c, v)
            return
        if isinstance(i, slice) or i is Ellipsis:
            cs = self.cells[i] if isinstance(i, slice) else self.cells
            if isinstance(v, (VArr, list, tuple)):
                vs = list(v)
                if len(vs) != len(cs):
                    raise ValueError("could not broadcast input array")
            else:
                vs = [v] * len(cs)
            for c, x in zip(cs, vs):
                self._set(c, x)
            return
        if isinstance(i, VArr) and i.ints:
            vs = list(v) if isinstance(v, (VArr, list, tuple)) else [v] * len(i.cells)
            if len(vs) != len(i.cells):
                raise ValueError("shape mismatch")
            for k, x in zip(i, vs):
                self._set(self.cells[lift(k).__index__()], x)
            return
        if isinstance(i, VArr):
            if len(i.cells) != len(self.cells):
                raise IndexError("boolean index did not match indexed array")
            hit = [c for c, m in zip(self.cells, i.cells) if bool(tobool(m.v))]
            if isinstance(v, (VArr, list, tuple)) and self.tag.ndim == 0:
                vs = list(v)
                if len(vs) not in (1, len(hit)):
                    raise ValueError("NumPy boolean array indexing assignment cannot assign")
                vs = vs * len(hit) if len(vs) == 1 else vs
            else:
                vs = [v] * len(hit)
            for c, x in zip(hit, vs):
                self._set(c, x)
            return
        raise Unsupported(f"assignment to index {i!r}")

    def _set(self, c, v):
        if isinstance(v, (SBool, bool)) and isinstance(c.v, (SBool, bool)):
            c.v = v
        elif isinstance(v, GArr):
            if v.tag.ndim and v.tag is not self.tag:
                if self.tag.ndim == 0:
                    raise ValueError("setting an array element with a sequence.")
                raise Unsupported("shape mismatch")
            v = v.cell.v
            c.v = npval(truncated(lift(v))) if self.ints else npval(v)
        else:
            c.v = npval(truncated(lift(v))) if self.ints and not type(v) is int else npval(lift(v))

    def __repr__(self):
        return "VArr[" + ", ".join(repr(c.v) for c in self.cells) + "]"

    __hash__ = None


def truncated(v):
    """What an array of integers keeps of v."""
    if v.t is not None and is_const(RT.nf(v.t)):
        return lift(int(const_of(RT.nf(v.t))))
    r = fresh_real("truncated", cls=SNp)
    RT.assume(r - v < 1)
    RT.assume(v - r < 1)
    return r


class Rows:
    """Two-dimensional array kept as rows of equal length."""
    __array_priority__ = 1002
    __array_ufunc__ = None

    def __init__(self, rows, width=None):
        self.rows = list(rows)
        if width is not None:
            self.width = width
        if not self.rows and width is None or len({len(r.cells) for r in self.rows}) > 1 or any(r.tag.ndim for r in self.rows):
            raise Unsupported("ragged array")

    ndim = 2
    dtype = "float64"

    @property
    def shape(self):
        return (len(self.rows), len(self.rows[0].cells) if self.rows else self.width)

    @property
    def size(self):
        return self.shape[0] * self.shape[1]

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(list(self.rows))

    def copy(self, *_a, **_k):
        return Rows([r.copy() for r in self.rows], self.shape[1])

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *_a, **_k):
        return self.copy()

    @property
    def T(self):
        if not self.shape[1]:
            raise Unsupported("transpose")
        return Rows([VArr([r.cells[k] for r in self.rows]) for k in range(self.shape[1])], len(self.rows))

    def reshape(self, *a, **k):
        a = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        n, m = self.shape
        if k or len(a) != 2 or a[1] not in (m, -1) or a[0] not in (n, -1) or a == (-1, -1):
            raise Unsupported("reshape")
        return self

    def tolist(self):
        return [list(r) for r in self.rows]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a two-dimensional array")

    def _split(self, i):
        if i is Ellipsis:
            return slice(None), slice(None)
        if isinstance(i, tuple):
            if len(i) == 2:
                return i[0], slice(None) if i[1] is Ellipsis else i[1]
            raise Unsupported(f"index {i!r}")
        return i, slice(None)

    def __getitem__(self, i):
        i, j = self._split(i)
        if isinstance(i, SReal):
            i = i.__index__()
        if isinstance(i, int) and not isinstance(i, bool):
            r = self.rows[i]
            return r if isinstance(j, slice) and j == slice(None) else r[j]
        if isinstance(i, slice):
            rs = self.rows[i]
            if isinstance(j, slice):
                return Rows([r[j] for r in rs], len(range(self.shape[1])[j]))
            return VArr([r.cells[j] for r in rs])
        raise Unsupported(f"index {i!r}")

    def __setitem__(self, i, v):
        i, j = self._split(i)
        if isinstance(i, int) and not isinstance(i, bool):
            self.rows[i][j] = v
            return
        if isinstance(i, slice) and type(j) is int:
            rs = self.rows[i]
            vs = [v] * len(rs) if is_scalar(v) else list(v)
            if len(vs) != len(rs):
                raise ValueError("could not broadcast input array")
            for r, x in zip(rs, vs):
                r[j] = x
            return
        raise Unsupported(f"assignment to index {i!r}")

    __hash__ = None


def tobool_entry(x):
    if isinstance(x, GArr):
        return x.any()
    return tobool(x)


def elementwise(f, *args):
    """Apply scalar function f to broadcast arguments."""
    args = [a.settle() if type(a).__name__ == "MArr" else a for a in args]
    two = [a for a in args if isinstance(a, Rows)]
    if two:
        n, m = two[0].shape
        for a in args:
            if isinstance(a, Rows) and a.shape != (n, m) or isinstance(a, VArr) and len(a.cells) != m or \
                    isinstance(a, GArr) and a.tag.ndim or type(a).__name__ in ("BArr", "Table"):
                raise Unsupported("broadcasting")
        return Rows([elementwise(f, *[a.rows[k] if isinstance(a, Rows) else a for a in args]) for k in range(n)], m)
    two = [a for a in args if type(a).__name__ == "Table"]
    if two:
        m = len(two[0].cols)
        for a in args:
            if type(a) is type(two[0]) and len(a.cols) != m or isinstance(a, VArr) and len(a.cells) != m or \
                    isinstance(a, GArr) and a.tag.ndim or type(a).__name__ == "BArr":
                raise Unsupported("broadcasting")
        return type(two[0])([elementwise(f, *[a.cols[k] if type(a) is type(two[0]) else a.entry(a.cells[k])
                                              if isinstance(a, VArr) else a for a in args]) for k in range(m)])
    bs = [a for a in args if getattr(a, "parts", None) is not None and type(a).__name__ == "BArr"]
    if bs:
        for b in bs[1:]:
            if len(b.parts) != len(bs[0].parts) or any(
                    (p is None) != (q is None) or p is not None and not p.same(q)
                    for (p, _), (q, _) in zip(b.parts, bs[0].parts)):
                raise Unsupported("arrays whose blocks are not aligned")
        if any(isinstance(a, (VArr, Rows)) or isinstance(a, GArr) and a.tag.ndim for a in args):
            raise Unsupported("broadcasting")
        parts = []
        for k, (p, _) in enumerate(bs[0].parts):
            v = f(*[a.entry(a.parts[k][1]) if any(a is b for b in bs) else a.cell.v if isinstance(a, GArr) else a for a in args])
            parts.append((p, Cell(v if isinstance(v, (SBool, bool)) else npval(lift(v)))))
        return type(bs[0])(parts)
    vs = [a for a in args if isinstance(a, VArr)]
    if vs:
        n = len(vs[0].cells)
        for v in vs:
            if len(v.cells) != n:
                if 1 in (len(v.cells), n):
                    raise Unsupported("broadcasting")
                raise ValueError("operands could not be broadcast together")
        outv = []
        for k in range(n):
            outv.append(elementwise(f, *[a.entry(a.cells[k]) if isinstance(a, VArr) else a for a in args]))
        return VArr.of(outv)
    gs = [a for a in args if isinstance(a, GArr)]
    tag = TAG0
    for g in gs:
        if g.tag.ndim:
            if tag.ndim and tag is not g.tag:
                raise Unsupported("arrays of different shapes")
            tag = g.tag
    ev = [a.cell.v if isinstance(a, GArr) else a for a in args]
    return out(tag, f(*ev)) if gs else f(*ev)


def _abin(op, fn):
    def f(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return kept(elementwise(lambda a, b: fn(op, a, b), self, o), self, o)

    def r(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return kept(elementwise(lambda a, b: fn(op, b, a), self, o), self, o)

    def kept(res, a, b):
        """Integers stay integers."""
        if op in ("add", "sub", "mul", "floordiv", "mod") and isinstance(res, VArr) and all(
                isinstance(x, VArr) and x.ints or type(x) is int for x in (a, b)):
            res.ints = True
        elif op == "pow" and all(isinstance(x, VArr) and x.ints or type(x) is int for x in (a, b)):
            if type(b) is not int:
                raise Unsupported("power of integers")
            if b < 0:
                raise ValueError("Integers to negative integer powers are not allowed.")
            res.ints = True
        return res
    return f, r


def coerce(o):
    if type(o).__name__ == "MArr":
        o.settle()
    if isinstance(o, (GArr, VArr, Rows)) or type(o).__name__ in ("BArr", "Table"):
        return o
    if isinstance(o, (list, tuple)):
        return VArr.of(o)
    if is_scalar(o):
        return o
    return NotImplemented


def _inplace(op):
    def f(self, o):
        if isinstance(self, VArr) and self.ints and not (type(o) is int or isinstance(o, VArr) and o.ints):
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        r = elementwise(lambda a, b: arith(op, a, b), self, coerce(o))
        if type(self).__name__ == "BArr":
            for (_, c), (_, x) in zip(self.parts, r.parts):
                c.v = x.v
        elif isinstance(self, GArr):
            if isinstance(r, GArr):
                if r.tag is not self.tag and r.tag.ndim:
                    raise ValueError("non-broadcastable output operand")
                self.cell.v = r.cell.v
            else:
                self.cell.v = npval(r)
        else:
            for c, x in zip(self.cells, r.cells):
                c.v = x.v
        return self
    return f


def _barith(op, a, b):
    a, b = tobool(a), tobool(b)
    return SBool.conj([a, b]) if op == "and" else SBool.disj([a, b])


def _acmp(f):
    def g(self, o):
        r = f(self, o)
        # every (finite) element compares alike with an infinite number
        if isinstance(r, GArr) and isinstance(self, GArr) and is_scalar(o) and lift(o).sp in ("inf", "-inf") \
                and not lift(self.cell.v).sp:
            r.uniform = True
        return r
    return g


def operators(_C):
    for _n, _o in [("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"),
                   ("pow", "pow"), ("floordiv", "floordiv"), ("mod", "mod")]:
        _f, _r = _abin(_o, arith)
        setattr(_C, f"__{_n}__", _f)
        setattr(_C, f"__r{_n}__", _r)
        setattr(_C, f"__i{_n}__", _inplace(_o))
    for _n, _o in [("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")]:
        _f, _ = _abin(_o, compare)
        setattr(_C, f"__{_n}__", _acmp(_f))
    for _n, _o in [("and", "and"), ("or", "or")]:
        _f, _ = _abin(_o, _barith)
        setattr(_C, f"__{_n}__", _f)
        setattr(_C, f"__r{_n}__", _f)
    _C.__invert__ = lambda self: elementwise(lambda a: tobool(a).negate() if isinstance(tobool(a), SBool) else not a, self)
    same = lambda r, self: r.integers() if isinstance(self, VArr) and self.ints else r
    _C.__neg__ = lambda self: same(elementwise(lambda a: _neg(lift(a)), self), self)
    _C.__pos__ = lambda self: self
    _C.__abs__ = lambda self: same(elementwise(absval, self), self)
    _C.__hash__ = None


operators(GArr)
operators(VArr)
operators(Rows)


def refuses(cls, like, extra=()):
    """Attributes the real thing has and its proxy does not are outside the verifier."""
    names = {n for t in like for n in dir(t) if not n.startswith("__")} | set(extra)

    def missing(self, n):
        if n in names:
            raise Unsupported(f"{n} of {cls.__name__}")
        raise AttributeError(f"{cls.__name__!r} object has no attribute {n!r}", name=n, obj=self)
    if "__getattr__" not in cls.__dict__:
        cls.__getattr__ = missing
    for t in cls.__mro__[1:]:      # float's own methods would see a placeholder
        if t is float:
            for n in ("hex", "as_integer_ratio", "is_integer", "imag", "fromhex"):
                if all(n not in b.__dict__ for b in cls.__mro__ if b is not float):
                    def g(self, n=n):
                        raise Unsupported(f"{n} of a number")
                    setattr(cls, n, property(g))


import numpy as _np
refuses(GArr, [_np.ndarray])
refuses(VArr, [_np.ndarray])
refuses(SReal, [])
refuses(SNp, [_np.float64])
refuses(SBool, [_np.bool_])
