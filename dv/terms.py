"""Term language of the verifier: real terms, canonical forms, derivatives.

Terms are hash-consed trees over exact rationals.  ``Norm`` turns a term into
a canonical generalised polynomial: a sum of monomials over *atoms* whose
exponents may be rational or symbolic, where an atom is a variable, an
application of an uninterpreted (or named) function, a prime number, ``e``,
``pi``, or a primitive multi-term polynomial raised to a non-natural power.
Two terms whose difference normalises to the empty sum are equal wherever both
are defined; that is the algebraic back end of the verifier.
"""
from fractions import Fraction
from functools import lru_cache
import mpmath

mpmath.mp.dps = 40

# ---------------------------------------------------------------- terms


class T:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_table)
        _table[key] = t
    return t


def num(x):
    return mk("num", Fraction(x))


ZERO = num(0)
ONE = num(1)
E_ = mk("const", "e")
PI = mk("const", "pi")


def var(name):
    return mk("var", name)


def is_num(t):
    return t.op == "num"


def add(a, b):
    if a.op == "num":
        if b.op == "num":
            return num(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == "num" and b.args[0] == 0:
        return a
    return mk("add", a, b)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == "num":
        if b.op == "num":
            return num(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return ZERO
        if a.args[0] == 1:
            return b
        if b.op == "mul" and b.args[0].op == "num":
            return mul(num(a.args[0] * b.args[0].args[0]), b.args[1])
    elif b.op == "num":
        return mul(b, a)
    return mk("mul", a, b)


def div(a, b):
    if b.op == "num":
        return mul(num(1 / b.args[0]), a)
    if a.op == "num" and a.args[0] == 0:
        return ZERO
    return mul(a, power(b, num(-1)))


def power(a, b):
    if b.op == "num":
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        if a.op == "num":
            if e.denominator == 1 and abs(e) < 200 and (a.args[0] != 0 or e > 0):
                return num(a.args[0] ** int(e))
            if a.args[0] == 0 and e > 0:
                return ZERO
            if a.args[0] == 1:
                return ONE
        if a.op == "pow" and e.denominator == 1 and a.args[1].op == "num" \
                and a.args[1].args[0].denominator == 1 and \
                (e > 0 or True):
            return power(a.args[0], num(a.args[1].args[0] * e))
    elif a.op == "num" and a.args[0] == 1:
        return ONE
    return mk("pow", a, b)


def app(f, *args):
    if f == "ln" and args[0].op == "num" and args[0].args[0] == 1:
        return ZERO
    if f == "ln" and args[0] is E_:
        return ONE
    return mk("app", f, *args)


def exp(a):
    return power(E_, a)


def ln(a):
    return app("ln", a)


def sqrt(a):
    return power(a, num(Fraction(1, 2)))


def show(t, depth=0):
    if depth > 12:
        return "…"
    if t.op == "num":
        f = t.args[0]
        if f.denominator == 1:
            return str(f.numerator)
        s = repr(float(f))
        return s if Fraction(s) == f else f"({f.numerator}/{f.denominator})"
    if t.op in ("var", "const"):
        return t.args[0]
    if t.op == "add":
        return "(" + show(t.args[0], depth+1) + " + " + show(t.args[1], depth+1) + ")"
    if t.op == "mul":
        return show(t.args[0], depth+1) + "*" + show(t.args[1], depth+1)
    if t.op == "pow":
        return "(" + show(t.args[0], depth+1) + ")^(" + show(t.args[1], depth+1) + ")"
    if t.op == "app":
        return t.args[0] + "(" + ", ".join(show(a, depth+1) for a in t.args[1:]) + ")"
    return f"<{t.op}>"


def free_vars(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == "var":
        acc.add(t.args[0])
    for a in t.args:
        if isinstance(a, T):
            free_vars(a, acc, seen)
    return acc


def subst(t, m, memo=None):
    """Replace variables by terms; m maps variable name -> term."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "var":
        r = m.get(t.args[0], t)
    elif t.op in ("num", "const"):
        r = t
    elif t.op == "add":
        r = add(subst(t.args[0], m, memo), subst(t.args[1], m, memo))
    elif t.op == "mul":
        r = mul(subst(t.args[0], m, memo), subst(t.args[1], m, memo))
    elif t.op == "pow":
        r = power(subst(t.args[0], m, memo), subst(t.args[1], m, memo))
    elif t.op == "app":
        r = app(t.args[0], *[subst(a, m, memo) for a in t.args[1:]])
    else:
        raise AssertionError(t.op)
    memo[t.id] = r
    return r


# -------------------------------------------------------------- derivatives

class DerivError(Exception):
    pass


def diff(t, v, rules, memo=None):
    """d t / d v (v a variable name); rules(fname, args, i) -> partial term."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ("num", "const"):
        r = ZERO
    elif t.op == "var":
        r = ONE if t.args[0] == v else ZERO
    elif t.op == "add":
        r = add(diff(t.args[0], v, rules, memo), diff(t.args[1], v, rules, memo))
    elif t.op == "mul":
        a, b = t.args
        r = add(mul(diff(a, v, rules, memo), b), mul(a, diff(b, v, rules, memo)))
    elif t.op == "pow":
        a, b = t.args
        da = diff(a, v, rules, memo)
        db = diff(b, v, rules, memo)
        r = ZERO
        if da is not ZERO:
            r = add(r, mul(mul(b, power(a, sub(b, ONE))), da))
        if db is not ZERO:
            r = add(r, mul(mul(t, ln(a)), db))
    elif t.op == "app":
        r = ZERO
        f, args = t.args[0], t.args[1:]
        for i, a in enumerate(args):
            da = diff(a, v, rules, memo)
            if da is ZERO:
                continue
            if f == "ln":
                p = power(a, num(-1))
            else:
                p = rules(f, args, i)
            r = add(r, mul(p, da))
    else:
        raise AssertionError(t.op)
    memo[t.id] = r
    return r


# ----------------------------------------------------------- normal forms
# P: dict mono -> Fraction;  mono: tuple of (atom id, exponent), sorted
# exponent: Fraction | ('P', id of a frozen polynomial)

_atoms = []
_atom_ix = {}
_fps = []
_fp_ix = {}


def atom(kind, *data):
    k = (kind,) + data
    i = _atom_ix.get(k)
    if i is None:
        i = len(_atoms)
        _atoms.append(k)
        _atom_ix[k] = i
    return i


def freeze(p):
    k = frozenset(p.items())
    i = _fp_ix.get(k)
    if i is None:
        i = len(_fps)
        _fps.append(dict(p))
        _fp_ix[k] = i
    return i


def thaw(i):
    return _fps[i]


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def pconst(c):
    return {(): Fraction(c)} if c else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_of(p):
    return p.get((), Fraction(0))


def eadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return efreeze(padd(ethaw(a), ethaw(b)))


def ethaw(e):
    return pconst(e) if isinstance(e, Fraction) else thaw(e[1])


def efreeze(p):
    return const_of(p) if is_const(p) else ("P", freeze(p))


def ekey(e):
    return (0, e, 0) if isinstance(e, Fraction) else (1, 0, e[1])


class Limit(Exception):
    pass


MAXTERMS = 60000


def mono_mul(m1, m2):
    """Product of monomials -> (mono, coefficient); folds primes."""
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    coef = Fraction(1)
    for a, e in m2:
        if a in d:
            s = eadd(d[a], e)
            if s == 0:
                del d[a]
            else:
                d[a] = s
        else:
            d[a] = e
    for a in [a for a in d if _atoms[a][0] == "prime"]:
        e = d[a]
        if isinstance(e, Fraction):
            fl = e.numerator // e.denominator
            if fl:
                coef *= Fraction(_atoms[a][1]) ** fl
                if e == fl:
                    del d[a]
                else:
                    d[a] = e - fl
        else:
            # fold the integer part of the constant term of the exponent
            p = ethaw(e)
            c = const_of(p)
            fl = c.numerator // c.denominator
            if fl:
                coef *= Fraction(_atoms[a][1]) ** fl
                d[a] = efreeze(padd(p, pconst(-fl)))
    return tuple(sorted(d.items(), key=lambda x: x[0])), coef


def pmul(p, q):
    r = {}
    if len(p) * len(q) > MAXTERMS * 4:
        raise Limit("polynomial too large")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, k = mono_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2 * k
            if s:
                r[m] = s
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise Limit("polynomial too large")
    return r


def pint(p, n):
    r = pconst(1)
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def factorint(n):
    out = {}
    n = int(n)
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def monokey(m):
    return tuple((a,) + ekey(e) for a, e in m)


class Norm:
    """Normaliser in a context.  signs(p) -> 1, -1 or None for polynomial p."""

    def __init__(self, signs=None):
        self.signs = signs or (lambda p: None)
        self.memo = {}

    def nf(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == "num":
            r = pconst(t.args[0])
        elif op == "var":
            r = {((atom("var", t.args[0]), Fraction(1)),): Fraction(1)}
        elif op == "const":
            r = {((atom("const", t.args[0]), Fraction(1)),): Fraction(1)}
        elif op == "add":
            # iterate down left spines to avoid deep recursion
            r = padd(self.nf(t.args[0]), self.nf(t.args[1]))
        elif op == "mul":
            r = pmul(self.nf(t.args[0]), self.nf(t.args[1]))
        elif op == "pow":
            r = self.ppow(self.nf(t.args[0]), self.nf(t.args[1]))
        elif op == "app":
            r = self.papp(t.args[0], [self.nf(a) for a in t.args[1:]])
        else:
            raise AssertionError(op)
        self.memo[t.id] = r
        return r

    def papp(self, f, args):
        args = [self.tidy(a) for a in args]
        if f == "ln":
            p = args[0]
            if len(p) == 1:
                # ln of a monomial with positive factors
                (m, c), = p.items()
                ok = c > 0 and all(self.atom_sign(a) == 1 for a, e in m)
                if ok and (m or c != 1):
                    r = {}
                    for pr, k in factorint(c.numerator).items():
                        r = padd(r, {((atom("ln", freeze(pconst(pr))), Fraction(1)),): Fraction(k)})
                    for pr, k in factorint(c.denominator).items():
                        r = padd(r, {((atom("ln", freeze(pconst(pr))), Fraction(1)),): Fraction(-k)})
                    for a, e in m:
                        if _atoms[a] == ("const", "e"):
                            la = pconst(1)
                        elif _atoms[a][0] == "prime":
                            la = {((atom("ln", freeze(pconst(_atoms[a][1]))), Fraction(1)),): Fraction(1)}
                        elif _atoms[a][0] == "poly":
                            la = {((atom("ln", _atoms[a][1]), Fraction(1)),): Fraction(1)}
                        else:
                            la = {((atom("ln", freeze({((a, Fraction(1)),): Fraction(1)})), Fraction(1)),): Fraction(1)}
                        r = padd(r, pmul(ethaw(e), la))
                    return r
                if ok:
                    return {}
            elif p:
                c, m, prim = self.primitive(p, 1)
                if m or c != 1:
                    # only split a positive content off
                    ok = c > 0 and all(self.atom_sign(a) == 1 for a, e in m)
                    if ok:
                        return padd(self.papp("ln", [{m: c}]),
                                    {((atom("ln", freeze(prim)), Fraction(1)),): Fraction(1)})
            return {((atom("ln", freeze(p)), Fraction(1)),): Fraction(1)}
        return {((atom("app", f, *[freeze(a) for a in args]), Fraction(1)),): Fraction(1)}

    def atom_sign(self, a):
        k = _atoms[a]
        if k[0] in ("prime", "const"):
            return 1
        if k[0] == "poly":
            return self.sign(thaw(k[1]))
        return self.sign({((a, Fraction(1)),): Fraction(1)})

    def sign(self, p):
        """1 if p>0, -1 if p<0, None if not known."""
        if not p:
            return None
        if is_const(p):
            return 1 if const_of(p) > 0 else -1
        if len(p) == 1:
            (m, c), = p.items()
            s = 1 if c > 0 else -1
            known = True
            for a, e in m:
                if isinstance(e, Fraction) and e.denominator == 1 and e % 2 == 0:
                    if not (_atoms[a][0] in ("prime", "const") or self.raw_sign(a)):
                        known = False
                        break
                    continue
                if isinstance(e, Fraction) and e.denominator == 1:
                    q = self.raw_sign(a)
                    if q is None:
                        known = False
                        break
                    s *= q
                else:
                    q = self.raw_sign(a)
                    if q != 1:
                        known = False
                        break
            if known:
                return s
        return self.signs(p)

    def raw_sign(self, a):
        k = _atoms[a]
        if k[0] in ("prime", "const"):
            return 1
        if k[0] == "poly":
            return self.sign(thaw(k[1]))
        return self.signs({((a, Fraction(1)),): Fraction(1)})

    def primitive(self, p, want):
        """p = c * mono * prim with prim content free."""
        items = list(p.items())
        # common atoms with minimal exponent (rational exponents only, or
        # identical symbolic exponents)
        common = dict(items[0][0])
        for m, _ in items[1:]:
            d = dict(m)
            for a in list(common):
                e1 = common[a]
                e2 = d.get(a, Fraction(0))
                if e1 == e2:
                    continue
                if isinstance(e1, Fraction) and isinstance(e2, Fraction):
                    e = min(e1, e2)
                    if e == 0:
                        del common[a]
                    else:
                        common[a] = e
                else:
                    del common[a]
            for a, e2 in d.items():
                if a not in common and isinstance(e2, Fraction) and e2 < 0 and a not in dict(items[0][0]):
                    common[a] = e2
        # atoms absent from some monomials: only negative exponents count
        for a in list(common):
            e = common[a]
            if isinstance(e, Fraction):
                mn = min((dict(m).get(a, Fraction(0)) for m, _ in items
                          if isinstance(dict(m).get(a, Fraction(0)), Fraction)), default=e)
                if any(not isinstance(dict(m).get(a, Fraction(0)), Fraction) for m, _ in items):
                    del common[a]
                elif mn == 0:
                    del common[a]
                else:
                    common[a] = mn
        for m, _ in items:
            for a, e in m:
                if isinstance(e, Fraction) and e < 0 and a not in common:
                    es = [dict(mm).get(a, Fraction(0)) for mm, _ in items]
                    if all(isinstance(x, Fraction) for x in es):
                        common[a] = min(es)
        mono = tuple(sorted(common.items(), key=lambda x: x[0]))
        if mono:
            inv = tuple((a, -e if isinstance(e, Fraction) else
                         efreeze(pscale(ethaw(e), -1))) for a, e in mono)
            q = {}
            for m, c in items:
                mm, k = mono_mul(m, inv)
                q[mm] = q.get(mm, 0) + c * k
        else:
            q = dict(p)
        from math import gcd
        g = 0
        l = 1
        for c in q.values():
            g = gcd(g, c.numerator)
            l = l * c.denominator // gcd(l, c.denominator)
        cont = Fraction(g, l)
        lead = min(q, key=monokey)
        if q[lead] < 0:
            cont = -cont
        prim = {m: c / cont for m, c in q.items()}
        return cont, mono, prim

    def tidy(self, p):
        """Put into one canonical form: cancel poly atoms where possible."""
        return self.clear(p)[0] if self.has_poly(p) else p

    @staticmethod
    def has_poly(p):
        return any(_atoms[a][0] == "poly" for m in p for a, _ in m)

    def ppow(self, b, e):
        b = dict(b)
        if is_const(e):
            k = const_of(e)
            if k == 0:
                return pconst(1)
            if k.denominator == 1 and k > 0:
                if len(b) <= 1 or k <= 12:
                    if len(b) == 1:
                        (m, c), = b.items()
                        return self.mono_pow(m, c, k)
                    return pint(b, int(k))
        if not b:
            return {}
        if len(b) == 1:
            (m, c), = b.items()
            r = self.mono_pow(m, c, efreeze(e))
            if r is not None:
                return r
            a = atom("poly", freeze(b))
            return self.one(a, efreeze(e))
        ex = efreeze(e)
        z = self.is_zero(b)
        if z:
            return {}
        c, m, prim = self.primitive(b, 1)
        if isinstance(ex, Fraction) and ex.denominator == 1:
            s = self.sign(prim)
            if s == -1:
                prim = pscale(prim, -1)
                c = -c
            r = self.mono_pow(m, c, ex)
            if self.has_poly(prim):
                z, left = self.clear(prim)
                if left is None and z != prim and len(z) != len(prim):
                    return pmul(r, self.ppow(z, e))
            return pmul(r, self.one(atom("poly", freeze(prim)), ex))
        # non-integer exponent: all factors must be positive to split
        s = self.sign(prim)
        if s == -1:
            prim = pscale(prim, -1)
            c = -c
            s = 1
        if (m or c != 1) and s == 1 and c > 0 and all(self.atom_sign(a) == 1 for a, _ in m):
            r = self.mono_pow(m, c, ex)
            return pmul(r, self.one(atom("poly", freeze(prim)), ex))
        if c > 0 and not m:
            # positive rational content can always be split off
            r = self.mono_pow((), c, ex)
            return pmul(r, self.one(atom("poly", freeze(prim)), ex))
        return self.one(atom("poly", freeze(b)), ex)

    @staticmethod
    def one(a, e):
        return {((a, e),): Fraction(1)}

    def mono_pow(self, m, c, e):
        """(c*m)^e or None if it cannot be distributed."""
        if isinstance(e, Fraction) and e.denominator == 1:
            if c == 0:
                return {} if e > 0 else None
            coef = Fraction(c) ** int(e)
            d = []
            for a, x in m:
                if isinstance(x, Fraction):
                    d.append((a, x * e))
                else:
                    d.append((a, efreeze(pscale(ethaw(x), e))))
            rr = {(): coef}
            for a, x in d:
                rr = pmul(rr, self.fold(a, x))
            return rr
        if c < 0:
            return None
        for a, x in m:
            if _atoms[a][0] in ("prime", "const"):
                continue
            if self.atom_sign(a) != 1:
                return None
        r = pconst(1)
        for pr, k in factorint(c.numerator).items():
            r = pmul(r, self.fold(atom("prime", pr), efreeze(pscale(ethaw(e), k))))
        for pr, k in factorint(c.denominator).items():
            r = pmul(r, self.fold(atom("prime", pr), efreeze(pscale(ethaw(e), -k))))
        for a, x in m:
            r = pmul(r, self.fold(a, efreeze(pmul(ethaw(x), ethaw(e)))))
        return r

    @staticmethod
    def fold(a, e):
        """atom^e as polynomial, integer prime powers become numbers."""
        if e == 0:
            return pconst(1)
        k = _atoms[a]
        if k[0] == "prime":
            p = ethaw(e)
            c = const_of(p)
            fl = c.numerator // c.denominator
            rest = padd(p, pconst(-fl))
            co = Fraction(k[1]) ** fl
            if not rest:
                return pconst(co)
            return {((a, efreeze(rest)),): co}
        if k == ("const", "e") and not isinstance(e, Fraction):
            # e^(k ln b) = b^k
            r = pconst(1)
            rest = {}
            for m, c in ethaw(e).items():
                hit = [i for i, (x, y) in enumerate(m)
                       if _atoms[x][0] == "ln" and y == 1]
                if len(hit) >= 1:
                    i = hit[0]
                    base = thaw(_atoms[m[i][0]][1])
                    kk = {m[:i] + m[i+1:]: c}
                    if is_const(base):
                        q = pconst(1)
                        cb = const_of(base)
                        for pr, n in factorint(cb.numerator).items():
                            q = pmul(q, Norm.fold(atom("prime", pr), efreeze(pscale(kk, n))))
                        for pr, n in factorint(cb.denominator).items():
                            q = pmul(q, Norm.fold(atom("prime", pr), efreeze(pscale(kk, -n))))
                    elif len(base) == 1 and list(base.values())[0] == 1 \
                            and len(list(base)[0]) == 1 and list(base)[0][0][1] == 1:
                        q = {((list(base)[0][0][0], efreeze(kk)),): Fraction(1)}
                    else:
                        q = {((atom("poly", freeze(base)), efreeze(kk)),): Fraction(1)}
                    r = pmul(r, q)
                else:
                    rest[m] = c
            if rest:
                r = pmul(r, {((a, efreeze(rest)),): Fraction(1)})
            return r
        return {((a, e),): Fraction(1)}

    # ---- zero test
    def clear(self, p, depth=0):
        """Multiply out poly atoms.  Returns (q, None) with q == p when the
        cleared form could be kept as an equal polynomial (no denominators
        remained), else (q, factor) with q == p * factor."""
        factor = None
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise Limit("clear")
            tgt = None
            for m in p:
                for a, e in m:
                    if _atoms[a][0] == "poly":
                        es = self.exps(p, a)
                        if es is not None:
                            lo, mx, _ = es
                            if mx > 0:
                                tgt = a
                                break
                if tgt is not None:
                    break
            if tgt is None:
                return p, factor
            p = self.expand_atom(p, tgt)

    def exps(self, p, a):
        vals = {}
        for m in p:
            d = dict(m)
            vals[m] = d.get(a, Fraction(0))
        return self._classes(vals)

    def _classes(self, vals):
        # largest expandable integer lift over the minimum in each class
        uniq = list(dict.fromkeys(vals.values()))
        classes = []
        for e in uniq:
            for cl in classes:
                n = self.int_diff(e, cl[0][0])
                if n is not None:
                    cl.append((e, n))
                    break
            else:
                classes.append([(e, 0)])
        mx = 0
        info = {}
        for cl in classes:
            base = min(n for _, n in cl)
            # do not expand when the minimum is negative and nothing to lift
            for e, n in cl:
                info[e] = (n - base)
                mx = max(mx, n - base)
        return 0, mx, info

    def int_diff(self, e1, e2):
        if isinstance(e1, Fraction) and isinstance(e2, Fraction):
            d = e1 - e2
            return int(d) if d.denominator == 1 else None
        d = padd(ethaw(e1), pscale(ethaw(e2), -1))
        if is_const(d):
            c = const_of(d)
            return int(c) if c.denominator == 1 else None
        # numeric guess, then exact test
        try:
            v = [pnum(d, Rnd(7)), pnum(d, Rnd(19))]
        except Exception:
            return None
        if abs(v[0] - v[1]) > 1e-15 or abs(v[0] - mpmath.nint(v[0])) > 1e-15:
            return None
        n = int(mpmath.nint(v[0]))
        return n if self.is_zero(padd(d, pconst(-n))) else None

    def expand_atom(self, p, a):
        _, _, info = self.exps(p, a)
        body = thaw(_atoms[a][1])
        cache = {}
        r = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, Fraction(0))
            n = info[e]
            base = eadd(e, Fraction(-n))
            rest = tuple(sorted(d.items(), key=lambda x: x[0]))
            if n:
                if n not in cache:
                    if n > 40:
                        raise Limit("power too large")
                    cache[n] = pint(body, n)
                q = pmul({rest: c}, cache[n])
            else:
                q = {rest: c}
            if base != 0:
                q = pmul(q, {((a, base),): Fraction(1)})
            r = padd(r, q)
            if len(r) > MAXTERMS:
                raise Limit("polynomial too large")
        return r

    def merge_exps(self, p):
        """Unify symbolic exponents of the same atom that are equal, or differ
        by an integer, under different spellings: a^e1 with e1-e2=n becomes
        a^(e2)*a^n."""
        reps = {}
        r = {}
        for m, c in p.items():
            q = {(): c}
            for a, e in m:
                if not isinstance(e, Fraction):
                    k = ethaw(e)
                    found = None
                    for e2 in reps.setdefault(a, []):
                        if e2 == e:
                            found = (e2, 0)
                            break
                        n = self.int_diff(e, e2)
                        if n is not None:
                            found = (e2, n)
                            break
                    if found is None:
                        reps[a].append(e)
                        q = pmul(q, {((a, e),): Fraction(1)})
                    else:
                        e2, n = found
                        f = self.fold(a, eadd(e2, Fraction(n))) if _atoms[a][0] == "prime" else {((a, eadd(e2, Fraction(n))),): Fraction(1)}
                        q = pmul(q, f)
                else:
                    q = pmul(q, self.fold(a, e))
            r = padd(r, q)
        return r

    def is_zero(self, p):
        if not p:
            return True
        if is_const(p):
            return False
        p = self.merge_exps(p)
        if not p:
            return True
        q, _ = self.clear(p)
        if not q:
            return True
        q = self.merge_exps(q)
        q, _ = self.clear(q)
        return not q

    def equal(self, t1, t2):
        if t1 is t2:
            return True
        return self.is_zero(padd(self.nf(t1), pscale(self.nf(t2), -1)))


# --------------------------------------------------------- numeric values

class Rnd:
    """Deterministic pseudo random positive values for variables and apps."""

    def __init__(self, seed, env=None, uf=None):
        self.seed = seed
        self.env = env or {}
        self.uf = uf
        self.memo = {}

    def val(self, key):
        if key not in self.memo:
            import hashlib
            h = hashlib.sha256(f"{self.seed}|{key}".encode()).digest()
            self.memo[key] = mpmath.mpf(int.from_bytes(h[:6], "big")) / 2**48 * mpmath.mpf("1.3") + mpmath.mpf("0.37")
        return self.memo[key]

    def var(self, name):
        if name in self.env:
            return self.env[name]
        return self.val(name)

    def app(self, f, args):
        if self.uf:
            v = self.uf(f, args)
            if v is not None:
                return v
        return self.val(f + "|" + ",".join(mpmath.nstr(a, 20) for a in args))


def tnum(t, env, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == "num":
        r = mpmath.mpf(t.args[0].numerator) / t.args[0].denominator
    elif op == "var":
        r = mpmath.mpf(env.var(t.args[0]))
    elif op == "const":
        r = mpmath.e if t.args[0] == "e" else mpmath.pi
        r = +r
    elif op == "add":
        r = tnum(t.args[0], env, memo) + tnum(t.args[1], env, memo)
    elif op == "mul":
        r = tnum(t.args[0], env, memo) * tnum(t.args[1], env, memo)
    elif op == "pow":
        r = npow(tnum(t.args[0], env, memo), tnum(t.args[1], env, memo))
    elif op == "app":
        args = [tnum(a, env, memo) for a in t.args[1:]]
        r = napp(t.args[0], args, env)
    memo[t.id] = r
    return r


class Undefined(Exception):
    pass


def npow(b, e):
    if b == 0:
        if e > 0:
            return mpmath.mpf(0)
        raise Undefined("0 to a non-positive power")
    if b < 0 and e != mpmath.nint(e):
        raise Undefined("fractional power of a negative number")
    if abs(e) > 5000 or abs(e) * abs(mpmath.log(abs(b))) > 50000:
        raise Undefined("overflow")
    if e == mpmath.nint(e):
        return b ** int(mpmath.nint(e))
    return b ** e


def napp(f, args, env):
    if f == "ln":
        if args[0] <= 0:
            raise Undefined("log of a non-positive number")
        return mpmath.log(args[0])
    return mpmath.mpf(env.app(f, args))


def pnum(p, env, memo=None):
    memo = {} if memo is None else memo
    r = mpmath.mpf(0)
    for m, c in p.items():
        v = mpmath.mpf(c.numerator) / c.denominator
        for a, e in m:
            v = v * npow(anum(a, env, memo), pnum(ethaw(e), env, memo) if not isinstance(e, Fraction)
                         else mpmath.mpf(e.numerator) / e.denominator)
        r += v
    return r


def anum(a, env, memo):
    if a in memo:
        return memo[a]
    k = _atoms[a]
    if k[0] == "var":
        r = mpmath.mpf(env.var(k[1]))
    elif k[0] == "const":
        r = +(mpmath.e if k[1] == "e" else mpmath.pi)
    elif k[0] == "prime":
        r = mpmath.mpf(k[1])
    elif k[0] == "poly":
        r = pnum(thaw(k[1]), env, memo)
    elif k[0] == "ln":
        r = napp("ln", [pnum(thaw(k[1]), env, memo)], env)
    else:
        r = napp(k[1], [pnum(thaw(i), env, memo) for i in k[2:]], env)
    memo[a] = r
    return r


def pshow(p):
    def es(e):
        return str(e) if isinstance(e, Fraction) else "(" + pshow(ethaw(e)) + ")"
    def an(a):
        k = _atoms[a]
        if k[0] in ("var", "const", "prime"):
            return str(k[1])
        if k[0] == "poly":
            return "(" + pshow(thaw(k[1])) + ")"
        if k[0] == "ln":
            return "ln(" + pshow(thaw(k[1])) + ")"
        return k[1] + "(" + ",".join(pshow(thaw(i)) for i in k[2:]) + ")"
    out = []
    for m, c in p.items():
        s = str(c)
        for a, e in m:
            s += "*" + an(a) + ("" if e == 1 else "^" + es(e))
        out.append(s)
    return " + ".join(out) if out else "0"
