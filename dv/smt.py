"""SMT back end (z3, second opinion by cvc5) over normalised terms."""
from fractions import Fraction
import random
import subprocess
import time
import mpmath
import z3

from . import terms as tm
from .terms import Norm, ethaw, thaw, is_const, const_of


def rat(fr):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def enclose(x, digits=25):
    """Rational enclosure of an mpf (relative 1e-25)."""
    e = mpmath.mpf(10) ** (-digits)
    lo = x - abs(x) * e - mpmath.mpf(10) ** (-digits - 5)
    hi = x + abs(x) * e + mpmath.mpf(10) ** (-digits - 5)

    def fr(v):
        m = mpmath.mpf(v)
        sgn, man, ex, _ = m._mpf_
        f = Fraction(int(man)) * (Fraction(2) ** int(ex))
        return -f if sgn else f
    return fr(lo), fr(hi)


class Stats:
    z3_calls = 0
    z3_time = 0.0
    cvc5_calls = 0
    cvc5_time = 0.0
    nf_calls = 0
    nf_time = 0.0

    @classmethod
    def reset(cls):
        cls.z3_calls = cls.cvc5_calls = cls.nf_calls = 0
        cls.z3_time = cls.cvc5_time = cls.nf_time = 0.0

    @classmethod
    def dump(cls):
        return {k: getattr(cls, k) for k in ("z3_calls", "z3_time", "cvc5_calls", "cvc5_time", "nf_calls", "nf_time")}


_closed = {}


def approx(x):
    """A close rational number."""
    x = mpmath.mpf(x)
    return Fraction(mpmath.nstr(x, 22))


def closed_value(pid):
    """Numeric value of a frozen polynomial without variables, else None."""
    if pid not in _closed:
        _closed[pid] = None
        if pclosed(thaw(pid)):
            try:
                _closed[pid] = tm.pnum(thaw(pid), tm.Rnd(0))
            except tm.Undefined:
                pass
    return _closed[pid]


def pclosed(p):
    for m in p:
        for a, e in m:
            if not isinstance(e, Fraction):
                return False
            k = tm._atoms[a]
            if k[0] in ("prime", "const"):
                continue
            if k[0] in ("ln", "poly"):
                if not pclosed(thaw(k[1])):
                    return False
            else:
                return False
    return True


class Translator:
    """Polynomials over atoms to z3, with the axioms of the atoms used."""

    def __init__(self, hints=None):
        self.ax = []          # axioms not yet taken
        self.exprs = {}
        self.pows = {}        # atom -> {e: z3 var}
        self.lns = {}
        self.apps = {}        # fname -> list of (args z3, var)
        self.inv = {}
        self.bounds = {}      # atom id -> set of constants worth comparing with
        self.vars = {}

    def take(self):
        a, self.ax = self.ax, []
        return a

    def atom(self, a):
        x = self.exprs.get(a)
        if x is not None:
            return x
        k = tm._atoms[a]
        if k[0] == "var":
            x = z3.Real(k[1])
            self.vars[k[1]] = x
        elif k[0] == "prime":
            x = z3.RealVal(k[1])
        elif k[0] == "const":
            x = z3.Real("const_" + k[1])
            lo, hi = enclose(+(mpmath.e if k[1] == "e" else mpmath.pi))
            self.ax += [x > rat(lo), x < rat(hi)]
        elif k[0] == "poly":
            x = self.poly(thaw(k[1]))
        elif k[0] == "ln":
            x = self.ln(a, k)
        else:
            args = [self.poly(thaw(i)) for i in k[2:]]
            x = z3.Real(f"app_{a}")
            for args2, y in self.apps.setdefault((k[1], len(args)), []):
                if args:
                    self.ax.append(z3.Implies(z3.And([p == q for p, q in zip(args, args2)]), x == y))
            self.apps[(k[1], len(args))].append((args, x))
        self.exprs[a] = x
        return x

    def ln(self, a, k):
        p = thaw(k[1])
        x = z3.Real(f"ln_{a}")
        if is_const(p):
            c = const_of(p)
            lo, hi = enclose(mpmath.log(mpmath.mpf(c.numerator) / c.denominator))
            self.ax += [x > rat(lo), x < rat(hi)]
            return x
        v = closed_value(k[1])
        if v is not None and v > 0:
            lo, hi = enclose(mpmath.log(v))
            self.ax += [x > rat(lo), x < rat(hi)]
        A = self.poly(p)
        self.ax += [z3.Implies(A > 1, x > 0), z3.Implies(z3.And(A > 0, A < 1), x < 0),
                    z3.Implies(A == 1, x == 0), z3.Implies(A > 0, x <= A - 1)]
        for A2, y in self.lns.values():
            self.ax += [z3.Implies(z3.And(A > 0, A < A2), x < y),
                        z3.Implies(z3.And(A2 > 0, A2 < A), y < x),
                        z3.Implies(A == A2, x == y)]
        self.lns[a] = (A, x)
        for c in self.consts_for(p):
            if c > 0:
                self.ln_const(A, x, c)
        return x

    def ln_const(self, A, x, c):
        lo, hi = enclose(mpmath.log(mpmath.mpf(c.numerator) / c.denominator))
        cc = rat(c)
        self.ax += [z3.Implies(z3.And(A > 0, A <= cc), x <= rat(hi)),
                    z3.Implies(A >= cc, x >= rat(lo))]

    @staticmethod
    def affine(p):
        """p = k0 + k1*M with one non-constant monomial -> (M, k0, k1); k0, k1
        are exact where rational and close otherwise (they only select which
        instances of monotonicity axioms are worth adding)."""
        M, k0, k1 = None, Fraction(0), Fraction(0)
        for m, c in p.items():
            cl = tuple(x for x in m if pclosed({(x,): 1}))
            op = tuple(x for x in m if x not in cl)
            v = c
            if cl:
                try:
                    v = approx(tm.pnum({cl: c}, tm.Rnd(0)))
                except tm.Undefined:
                    return None
            if not op:
                k0 += v
            elif M is None or M == op:
                M = op
                k1 += v
            else:
                return None
        if M is None or k1 == 0:
            return None
        return M, k0, k1

    def consts_for(self, p):
        """Positive constants p is worth comparing with, from bounds of M."""
        a = self.affine(p)
        if a is None:
            return ()
        M, k0, k1 = a
        vals = set()
        for c in self.bounds.get(M, ()):
            v = k0 + k1 * c
            if v > 0:
                vals.add(v)
        return vals

    def note_bound(self, p):
        """p is a literal; if p = k0 + k1*M remember -k0/k1 for M."""
        a = self.affine(p)
        if a is not None:
            self.add_bound(a[0], -a[1] / a[2])

    def add_bound(self, M, new, depth=0):
        s = self.bounds.setdefault(M, set())
        if new in s or len(s) > 8 or depth > 4:
            return
        s.add(new)
        for at, (A, x) in list(self.lns.items()):
            q = thaw(tm._atoms[at][1])
            f = self.affine(q)
            if f and f[0] == M and f[1] + f[2] * new > 0:
                self.ln_const(A, x, f[1] + f[2] * new)
        for at, d in list(self.pows.items()):
            k = tm._atoms[at]
            q = thaw(k[1]) if k[0] == "poly" else {((at, Fraction(1)),): Fraction(1)}
            f = self.affine(q)
            if f and f[0] == M and f[1] + f[2] * new > 0:
                for e, (A, v) in list(d.items()):
                    if isinstance(e, Fraction):
                        self.pow_const(A, v, e, f[1] + f[2] * new)
        # a bound of B^e suggests one of B
        if len(M) == 1 and isinstance(M[0][1], Fraction) and new > 0 and M[0][1] != 1:
            at, e = M[0]
            k = tm._atoms[at]
            if k[0] == "poly":
                f = self.affine(thaw(k[1]))
                try:
                    c = mpmath.mpf(new.numerator) / new.denominator
                    c = c ** (mpmath.mpf(e.denominator) / e.numerator)
                except Exception:
                    return
                if f and mpmath.mpf(10) ** -30 < c < mpmath.mpf(10) ** 30:
                    for w in (c * (1 - mpmath.mpf(10) ** -9), c * (1 + mpmath.mpf(10) ** -9)):
                        self.add_bound(f[0], (approx(w) - f[1]) / f[2], depth + 1)

    def const_power(self, c, e):
        """c^e as a product of powers of primes."""
        r = None
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            if n > 10 ** 7:
                return None
            for p, k in tm.factorint(n).items():
                tot = sg * k * e
                fl = tot.numerator // tot.denominator
                fr = tot - fl
                z = rat(Fraction(p) ** fl)
                if fr:
                    z = z * self.power(tm.atom("prime", p), fr)
                r = z if r is None else r * z
        return rat(Fraction(1)) if r is None else r

    def pow_const(self, A, v, e, c):
        lo, hi = enclose((mpmath.mpf(c.numerator) / c.denominator) ** (mpmath.mpf(e.numerator) / e.denominator))
        cc = rat(c)
        z = self.const_power(c, e)
        if e > 0:
            self.ax += [z3.Implies(z3.And(A > 0, A <= cc), v <= rat(hi)),
                        z3.Implies(A >= cc, v >= rat(lo))]
            if z is not None:
                self.ax += [z3.Implies(z3.And(A > 0, A < cc), v < z), z3.Implies(A > cc, v > z)]
        else:
            self.ax += [z3.Implies(z3.And(A > 0, A <= cc), v >= rat(lo)),
                        z3.Implies(A >= cc, v <= rat(hi))]
            if z is not None:
                self.ax += [z3.Implies(z3.And(A > 0, A < cc), v > z), z3.Implies(A > cc, v < z)]
        if z is not None:
            self.ax += [z3.Implies(A == cc, v == z)]

    def power(self, a, e):
        k = tm._atoms[a]
        if isinstance(e, Fraction) and e.denominator == 1:
            n = int(e)
            A = self.atom(a)
            if n > 0:
                r = A
                for _ in range(n - 1):
                    r = r * A
                return r
            r = self.inv.get(a)
            if r is None:
                r = z3.Real(f"inv_{a}")
                self.ax += [z3.Implies(A != 0, r * A == 1),
                            z3.Implies(A > 0, r > 0), z3.Implies(A < 0, r < 0),
                            z3.Implies(A > 1, r < 1),
                            z3.Implies(z3.And(A > 0, A < 1), r > 1)]
                for a2, r2 in self.inv.items():
                    A2 = self.atom(a2)
                    self.ax += [z3.Implies(z3.And(A > 0, A < A2), r > r2),
                                z3.Implies(z3.And(A2 > 0, A2 < A), r2 > r)]
                self.inv[a] = r
            q = r
            for _ in range(-n - 1):
                q = q * r
            return q
        d = self.pows.setdefault(a, {})
        if e in d:
            return d[e][1]
        A = self.atom(a)
        v = z3.Real(f"pow_{a}_{e if isinstance(e, Fraction) else e[1]}")
        constbase = k[0] in ("prime", "const")
        if isinstance(e, Fraction):
            ez = rat(e)
        else:
            ez = self.poly(ethaw(e))
        if constbase:
            self.ax += [v > 0, z3.Implies(ez > 0, v > 1), z3.Implies(ez < 0, v < 1),
                        z3.Implies(ez == 0, v == 1)]
            if isinstance(e, Fraction):
                b = mpmath.mpf(k[1]) if k[0] == "prime" else +(mpmath.e if k[1] == "e" else mpmath.pi)
                lo, hi = enclose(b ** (mpmath.mpf(e.numerator) / e.denominator))
                self.ax += [v > rat(lo), v < rat(hi)]
            for e2, (_, v2) in d.items():
                if isinstance(e, Fraction) and isinstance(e2, Fraction) and (e + e2).denominator == 1 and k[0] == "prime":
                    self.ax.append(v * v2 == rat(Fraction(k[1]) ** int(e + e2)))
                ez2 = rat(e2) if isinstance(e2, Fraction) else self.poly(ethaw(e2))
                self.ax += [z3.Implies(ez < ez2, v < v2), z3.Implies(ez > ez2, v > v2),
                            z3.Implies(ez == ez2, v == v2)]
        else:
            self.ax += [z3.Implies(A > 0, v > 0), z3.Implies(z3.And(A == 1), v == 1)]
            up = z3.And(A > 1)
            dn = z3.And(A > 0, A < 1)
            self.ax += [z3.Implies(z3.And(up, ez > 0), v > 1), z3.Implies(z3.And(up, ez < 0), v < 1),
                        z3.Implies(z3.And(dn, ez > 0), v < 1), z3.Implies(z3.And(dn, ez < 0), v > 1),
                        z3.Implies(z3.And(up, ez > 1), v > A), z3.Implies(z3.And(up, ez < 1), v < A),
                        z3.Implies(z3.And(dn, ez > 1), v < A), z3.Implies(z3.And(dn, ez < 1), v > A)]
            if isinstance(e, Fraction) and e > 0:
                self.ax += [z3.Implies(A == 0, v == 0)]
            if e == Fraction(1, 2):
                self.ax += [z3.Implies(A >= 0, z3.And(v >= 0, v * v == A))]
            if e == Fraction(-1, 2):
                self.ax += [z3.Implies(A > 0, v * v * A == 1)]
            if isinstance(e, Fraction):
                pid = tm.freeze({((a, Fraction(1)),): Fraction(1)}) if k[0] != "poly" else k[1]
                b = closed_value(pid)
                if b is not None and b > 0:
                    lo, hi = enclose(b ** (mpmath.mpf(e.numerator) / e.denominator))
                    self.ax += [v > rat(lo), v < rat(hi)]
            for e2, (_, v2) in d.items():
                ez2 = rat(e2) if isinstance(e2, Fraction) else self.poly(ethaw(e2))
                self.ax += [z3.Implies(z3.And(up, ez < ez2), v < v2), z3.Implies(z3.And(up, ez > ez2), v > v2),
                            z3.Implies(z3.And(dn, ez < ez2), v > v2), z3.Implies(z3.And(dn, ez > ez2), v < v2),
                            z3.Implies(ez == ez2, v == v2)]
            for a2, dd in self.pows.items():
                if a2 == a or tm._atoms[a2][0] in ("prime", "const") or e not in dd:
                    continue
                A2, v2 = dd[e]
                self.ax += [z3.Implies(z3.And(A > 0, A2 > 0, A == A2), v == v2),
                            z3.Implies(z3.And(A > 0, A < A2, ez > 0), v < v2),
                            z3.Implies(z3.And(A > 0, A < A2, ez < 0), v > v2),
                            z3.Implies(z3.And(A2 > 0, A2 < A, ez > 0), v2 < v),
                            z3.Implies(z3.And(A2 > 0, A2 < A, ez < 0), v2 > v)]
            if isinstance(e, Fraction):
                q = {((a, Fraction(1)),): Fraction(1)} if k[0] != "poly" else thaw(k[1])
                for c in self.consts_for(q):
                    self.pow_const(A, v, e, c)
        d[e] = (A, v)
        return v

    def poly(self, p):
        terms = []
        for m, c in p.items():
            x = None
            for a, e in m:
                y = self.power(a, e)
                x = y if x is None else x * y
            if x is None:
                x = rat(c)
            elif c != 1:
                x = rat(c) * x
            terms.append(x)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def lit(self, l):
        """l = (op, P) with op in < <= == != or ('b', name, bool)"""
        if l[0] == "b":
            x = z3.Bool(l[1])
            return x if l[2] else z3.Not(x)
        p = self.poly(l[1])
        self.note_bound(l[1])
        return {"<": p < 0, "<=": p <= 0, "==": p == 0, "!=": p != 0}[l[0]]


class Gate:
    """Every solver query passes here, so that one that does not keep its time
    limit can be ended from outside and left out when the path is run again."""
    count = None      # shared: number of the query on this path
    since = None      # shared: when it started, 0 between queries
    skip = frozenset()

    @classmethod
    def check(cls, s):
        if cls.count is None:
            return s.check()
        cls.count.value += 1
        if cls.count.value in cls.skip:
            return z3.unknown
        cls.since.value = time.time()
        try:
            return s.check()
        finally:
            cls.since.value = 0.0


class PathSmt:
    """Path condition with incremental solver; also the sign oracle."""

    def __init__(self):
        self.tr = Translator()
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.n = 0
        self.known = {}     # frozen poly -> sign
        self.unknown = {}   # frozen poly -> n at which unknown
        self.depth = 0
        self.model_cache = []
        self.log, self.kept, self.const_cache = [], [], {}

    def norm(self):
        return Norm(self.sign)

    def add_axioms(self):
        for a in self.tr.take():
            self.solver.add(a)
            self.log.append(a)

    def assert_lit(self, l):
        z = self.tr.lit(l)
        self.add_axioms()
        self.solver.add(z)
        self.log.append(z)
        self.n += 1

    def consts(self, z):
        """Names of the constants of a formula."""
        k = z.get_id()
        r = self.const_cache.get(k)
        if r is None:
            r, todo, seen = set(), [z], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        r.add(x.decl().name())
                else:
                    todo += x.children()
            self.const_cache[k] = r
            self.kept.append(z)        # ids are reused once a formula is gone
        return r

    def near(self, zs, timeout, seed=0):
        """Try the hypotheses about the query's own quantities only (fewer
        hypotheses: unsat carries over, nothing else does)."""
        vs = set().union(*(self.consts(z) for z in zs))
        aux = {v for v in vs if v.startswith("inv_")}
        for a in self.log:
            if self.consts(a) & aux:
                vs |= self.consts(a)
        hyp = [a for a in self.log if self.consts(a) <= vs]
        s = z3.Solver() if not seed else z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", timeout)
        if seed == 11:
            hyp = hyp[::-1]
        s.add(hyp + zs)
        try:
            return Gate.check(s) == z3.unsat
        except z3.Z3Exception:
            return False

    def check(self, *lits, timeout=1500):
        zs = [self.tr.lit(l) for l in lits]
        self.add_axioms()
        t = time.time()
        if len(self.log) > 20 and any(v.startswith("inv_") for z in zs for v in self.consts(z)) and self.near(zs, 300):
            Stats.z3_calls += 1
            Stats.z3_time += time.time() - t
            self.last_model = None
            return "unsat"
        self.solver.set("timeout", timeout)
        self.solver.push()
        try:
            for z in zs:
                self.solver.add(z)
            r = Gate.check(self.solver)
            m = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        finally:
            self.solver.pop()
        Stats.z3_calls += 1
        Stats.z3_time += time.time() - t
        self.last_model = m
        if r == z3.unknown and zs:
            t = time.time()
            if any(self.near(zs, 2 * timeout, seed) for seed in (0, 5, 11)):
                r = z3.unsat
            Stats.z3_time += time.time() - t
        return str(r)

    def sign(self, p):
        key = tm.freeze(p)
        s = self.known.get(key)
        if s is not None:
            return s
        if self.unknown.get(key) == self.n:
            return None
        self.unknown[key] = self.n     # guards recursion
        if self.depth > 2:
            return None
        self.depth += 1
        try:
            s = None
            # syntactic: all coefficients and atoms positive
            if self.check(("<=", p), timeout=400) == "unsat":
                s = 1
            elif self.check(("<=", tm.pscale(p, -1)), timeout=400) == "unsat":
                s = -1
        finally:
            self.depth -= 1
        if s is not None:
            self.known[key] = s
            self.unknown.pop(key, None)
        return s

    def smt2(self, *lits):
        zs = [self.tr.lit(l) for l in lits]
        self.add_axioms()
        s = z3.Solver()
        s.add(self.solver.assertions())
        for z in zs:
            s.add(z)
        return s.to_smt2()

    def cvc5(self, *lits, timeout=10):
        txt = "(set-logic ALL)\n" + "\n".join(
            l for l in self.smt2(*lits).splitlines() if not l.startswith("(set-info"))
        t = time.time()
        try:
            r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={timeout*1000}"], input=txt,
                               capture_output=True, text=True, timeout=timeout + 5)
            out = r.stdout.strip().splitlines()
            res = out[0] if out and out[0] in ("sat", "unsat", "unknown") else "unknown"
        except Exception:
            res = "unknown"
        Stats.cvc5_calls += 1
        Stats.cvc5_time += time.time() - t
        return res

    # -- models
    def models(self, lits, ranges, k, rng, var_names, timeout=800):
        """Yield up to k assignments {var: mpf}, {app atom: mpf} of path+lits."""
        zs = [self.tr.lit(l) for l in lits]
        self.add_axioms()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(self.solver.assertions())
        for z in zs:
            s.add(z)
        if Gate.check(s) != z3.sat:
            return
        t0 = time.time()
        for _ in range(k):
            if time.time() - t0 > 20:
                return
            s.push()
            names = list(var_names)
            rng.shuffle(names)
            fails = 0
            for n in names:
                x = z3.Real(n)
                lo, hi = ranges.get(n, (None, None))
                v = sample(rng, lo, hi)
                s.push()
                s.add(x == rat(v))
                if Gate.check(s) != z3.sat:
                    s.pop()
                    fails += 1
                    if fails > 6:
                        break
            if Gate.check(s) == z3.sat:
                m = s.model()
                env = {}
                for n in names:
                    env[n] = zval(m.eval(z3.Real(n), model_completion=True))
                apps = {}
                for a, x in self.tr.exprs.items():
                    if tm._atoms[a][0] == "app":
                        apps[a] = zval(m.eval(x, model_completion=True))
                yield env, apps
            while s.num_scopes():
                s.pop()
            s.push()
            s.pop()


def zval(v):
    if z3.is_rational_value(v):
        return mpmath.mpf(v.numerator_as_long()) / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        return mpmath.mpf(v.approx(30).numerator_as_long()) / v.approx(30).denominator_as_long()
    return mpmath.mpf(1)


def sample(rng, lo, hi):
    if lo is None and hi is None:
        v = rng.choice([rng.uniform(-3, 3), rng.uniform(0, 1), rng.uniform(0, 50)])
    elif hi is None:
        v = float(lo) + rng.choice([rng.uniform(0, 1), rng.uniform(0, 10), 10 ** rng.uniform(-6, 4)])
    elif lo is None:
        v = float(hi) - rng.choice([rng.uniform(0, 1), rng.uniform(0, 10)])
    else:
        v = float(lo) + (float(hi) - float(lo)) * rng.random()
    return Fraction(v).limit_denominator(10 ** 9) if abs(v) > 1e-4 else Fraction(repr(float(f"{v:.6g}")))
