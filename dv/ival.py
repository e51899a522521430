"""Interval back end: subdivides the box of at most three variables until on
every part either a hypothesis is violated or the goal holds (outward rounded
arithmetic of mpmath, so the answer covers every real point of the box)."""
import time
from fractions import Fraction

from mpmath import iv, mpf, inf

from . import terms as tm


class Give(Exception):
    """A term the intervals do not cover."""


def const(q):
    return iv.mpf(q.numerator) / iv.mpf(q.denominator)


WHOLE = None


def whole():
    return iv.mpf(["-inf", "inf"])


def ipow(b, e, et):
    if et.op == "num" and et.args[0].denominator == 1:
        n = int(et.args[0])
        if abs(n) > 200:
            raise Give
        if n >= 0:
            return b ** n
        if b.a <= 0 <= b.b:
            if b.a == 0 < b.b:
                return iv.mpf([(1 / iv.mpf(b.b) ** -n).a, "inf"])
            return whole()
        return 1 / b ** -n
    if b.b <= 0:
        return whole()
    if b.a <= 0:
        if not (e.a == e.b or e.a > 0 or e.b < 0):
            return whole()
        if e.a <= 0 <= e.b:
            return whole()
        top = iv.exp(e * iv.log(iv.mpf(b.b)))
        return iv.mpf([0, max(top.b, mpf(1)) if e.a != e.b else top.b]) if e.a > 0 else \
            iv.mpf([min(top.a, mpf(0)) if e.a != e.b else top.a, "inf"])
    return iv.exp(e * iv.log(b))


def value(t, box, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == "num":
        r = const(t.args[0])
    elif op == "var":
        r = box[t.args[0]]
    elif op == "const":
        r = iv.e if t.args[0] == "e" else iv.pi
        r = r + 0
    elif op == "add":
        r = value(t.args[0], box, memo) + value(t.args[1], box, memo)
    elif op == "mul":
        a, b = value(t.args[0], box, memo), value(t.args[1], box, memo)
        r = a ** 2 if t.args[0] is t.args[1] else a * b
    elif op == "pow":
        if t.args[0].op == "const" and t.args[0].args[0] == "e":
            r = iv.exp(value(t.args[1], box, memo))
        else:
            r = ipow(value(t.args[0], box, memo), value(t.args[1], box, memo), t.args[1])
    elif op == "app" and t.args[0] == "ln":
        a = value(t.args[1], box, memo)
        if a.b <= 0:
            r = whole()
        elif a.a <= 0:
            r = iv.mpf(["-inf", iv.log(iv.mpf(a.b)).b])
        else:
            r = iv.log(a)
    else:
        raise Give
    if r.a != r.a or r.b != r.b:
        r = whole()
    memo[t.id] = r
    return r


def never(op, v):
    """No value of v satisfies v op 0."""
    if op == "<":
        return v.a >= 0
    if op == "<=":
        return v.a > 0
    if op == "==":
        return v.a > 0 or v.b < 0
    return v.a == v.b == 0


def bounds(lits, names, norm):
    """Ranges of the variables from hypotheses that are linear in one of them."""
    lo, hi = {}, {}
    for op, t in lits:
        vs = tm.free_vars(t)
        if op not in ("<", "<=", "==") or len(vs) != 1:
            continue
        n = next(iter(vs))
        if n not in names:
            continue
        x = tm.var(n)
        a = norm.nf(tm.diff(t, n, None)) if linear_candidate(t) else None
        if a is None or not tm.is_const(a):
            continue
        a = tm.const_of(a)
        b = norm.nf(tm.subst(t, {n: tm.ZERO}))
        if not tm.is_const(b) or a == 0:
            continue
        v = -tm.const_of(b) / a
        if op == "==" or a > 0:
            hi[n] = min(hi.get(n, v), v)
        if op == "==" or a < 0:
            lo[n] = max(lo.get(n, v), v)
    return lo, hi


def covered(t, seen=None):
    seen = {} if seen is None else seen
    r = seen.get(t.id)
    if r is None:
        r = (t.op != "app" or t.args[0] == "ln") and all(covered(a, seen) for a in t.args if isinstance(a, tm.T))
        seen[t.id] = r
    return r


def linear_candidate(t):
    """Only sums and products of numbers and variables."""
    if t.op in ("num", "var"):
        return True
    return t.op in ("add", "mul") and all(linear_candidate(a) for a in t.args)


def impossible(goal, lits, norm, seconds=4.0, parts=6000):
    """No point satisfies all of lits and goal (both lists of (op, term))."""
    names = set()
    for op, t in goal:
        names |= tm.free_vars(t)
    if not names or len(names) > 3:
        return False
    if not all(covered(t) for _, t in goal):
        return False
    own = [(op, t) for op, t in lits if tm.free_vars(t) <= names and op in ("<", "<=", "==", "!=") and covered(t)]
    try:
        lo, hi = bounds(own, names, norm)
    except (tm.Limit, tm.DerivError, KeyError):
        return False
    if any(n not in lo and n not in hi for n in names):
        return False
    old = iv.prec
    iv.prec = 100
    t0 = time.time()
    names = sorted(names)
    try:
        box = {}
        for n in names:
            a = const(lo[n]).a if n in lo else mpf("-inf")
            b = const(hi[n]).b if n in hi else mpf("inf")
            if a > b:
                return True
            box[n] = (mpf(a), mpf(b))
        todo, done = [box], 0
        conds = goal + own
        while todo:
            done += 1
            if done > parts or time.time() - t0 > seconds:
                return False
            box = todo.pop()
            ib = {n: iv.mpf([a, b]) for n, (a, b) in box.items()}
            memo = {}
            if any(never(op, value(t, ib, memo)) for op, t in conds):
                continue
            # split the relatively widest variable
            best, width = None, 0
            for n, (a, b) in box.items():
                if a == -inf or b == inf:
                    w = mpf(4) if max(abs(a) if a != -inf else 0, abs(b) if b != inf else 0) < mpf(10) ** 30 else 0
                else:
                    w = b - a
                    if w > 1:
                        w = 1 + (b - a) / (1 + abs(a) + abs(b))
                if w > width:
                    best, width = n, w
            if best is None or width < mpf(10) ** -14:
                return False
            a, b = box[best]
            if a == -inf and b == inf:
                m = mpf(0)
            elif b == inf:
                m = 2 * abs(a) + 1
            elif a == -inf:
                m = -2 * abs(b) - 1
            elif a > 0 and b > 100 * a:
                m = (a * b) ** mpf("0.5")
            else:
                m = (a + b) / 2
            l, r = dict(box), dict(box)
            l[best], r[best] = (a, m), (m, b)
            todo += [r, l]
        return True
    except (Give, OverflowError, ValueError, ZeroDivisionError):
        return False
    finally:
        iv.prec = old
