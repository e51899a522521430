"""Symbolic engine: runs contracts on every path and discharges obligations."""
import os
import re
import sys
sys.set_int_max_str_digits(0)
import time
import traceback
import types
import warnings

from . import seqs, api, loader, models, sym, terms as tm
from .smt import Gate, Stats
from .sym import (SReal, SNp, SBool, GArr, VArr, Tag, TAG0, Cell, Unsupported, PathAbort, Budget,
                  Run, Obl, lift, npval, compare, elementwise)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Missing(BaseException):
    """A private name the contract refers to does not exist: contract skipped."""


class Stored:
    """Returns the very same object when asked again for the same location."""

    def __init__(self, f):
        self.f, self.seen = f, {}

    def __call__(self, x):
        cell = x.cell.v if isinstance(x, GArr) else x
        if isinstance(x, (VArr, list, tuple)):
            return self.f(x)
        k = (type(x).__name__, getattr(x, "tag", None), lift(cell).t)
        if k not in self.seen:
            self.seen[k] = self.f(x)
        return self.seen[k]


class UFn:
    """An arbitrary function given by the user, with its derivatives."""

    def __init__(self, e, name, ders=()):
        self.e, self.name, self.ders = e, name, ders
        r = e.run
        r.fns.add(name)
        if ders:
            r.rules[name] = lambda args, j: tm.app(ders[0], args[0])
        else:
            def stop(args, j):
                raise Unsupported(f"derivative of {name}")
            r.rules[name] = stop

    def scalar(self, x):
        x = lift(x)
        if x.sp:
            raise Unsupported(f"{self.name} at infinity")
        return SNp(tm.app(self.name, self.e.canon(x.t)))

    def __call__(self, x):
        if isinstance(x, (list, tuple)):
            x = models.as_arr(x)
        if isinstance(x, (GArr, VArr)):
            r = elementwise(lambda v: self.scalar(v), x)
            if isinstance(x, GArr) and x.tag.ndim == 0:
                return r
            return r
        r = self.scalar(x)
        return r if isinstance(x, SNp) else SReal(r.t)


class SymE:
    mode = "sym"
    symbolic = True

    def __init__(self, run, contract):
        self.run = run
        self.contract = contract
        self.repo_path = api.repo_root()
        self.repo = loader.Repo(self.repo_path)
        self.np = self.repo.ext["numpy"]
        self.choices = {}
        self.notes = []

    # ---- environment
    def mod(self, name):
        try:
            return self.repo.load(name)
        except ModuleNotFoundError:
            raise Missing(name)

    def get(self, obj, name):
        """A private attribute; its absence skips the contract."""
        if not hasattr(obj, name):
            raise Missing(name)
        return getattr(obj, name)

    def restrict(self, thunk):
        return thunk()

    # ---- inputs
    def choice(self, name, options):
        options = list(options)
        name = self.run.name("choice:" + name)[7:]
        i = self.run.choose(len(options), "choice " + name)
        self.choices[name] = i
        return options[i]

    def canon(self, t):
        r = self.run
        seen = r.state.setdefault("sol_args", [])
        for s in seen:
            if s is t:
                return s
        for s in seen:
            if r.norm().equal(s, t):
                return s
        seen.append(t)
        return t

    def real(self, name, lo=None, hi=None, gt=None, lt=None, span=None, special=()):
        r = self.run
        a = (gt if lo is None else lo) if span is None else span[0]
        b = (lt if hi is None else hi) if span is None else span[1]
        v = sym.fresh_real(name, numeric(a), numeric(b))
        r.inputs[name] = v.t
        self.bound(v, lo, hi, gt, lt)
        return v

    def bound(self, v, lo=None, hi=None, gt=None, lt=None, **_):
        r = self.run
        for b, op, s in ((lo, "<=", 1), (hi, "<=", -1), (gt, "<", 1), (lt, "<", -1)):
            if b is not None:
                b = lift(b)
                if b.sp:
                    continue
                r.assume(compare(op, b, v) if s == 1 else compare(op, v, b))

    def point(self, name, shapes=("scalar", "0d", "1d"), **kw):
        """A location given as a scalar or an array (generic element)."""
        sh = self.choice(name + ".shape", shapes) if len(shapes) > 1 else shapes[0]
        v = self.real(name, **kw)
        if sh == "scalar":
            return v
        nd = {"0d": 0, "1d": 1, "2d": 2}[sh]
        return GArr(TAG0 if nd == 0 else Tag.new(nd, name), v)

    def const_point(self, name, value, shapes=("scalar", "0d", "1d")):
        """A given value in any shape."""
        sh = self.choice(name + ".shape", shapes) if len(shapes) > 1 else shapes[0]
        if sh == "scalar":
            return lift(value)
        nd = {"0d": 0, "1d": 1, "2d": 2}[sh]
        return GArr(TAG0 if nd == 0 else Tag.new(nd, name), lift(value))

    def table(self, name, span=(0, 3), values=None):
        """A pair of vectors for a table, with increasing first one.
        -> (xs, ys, some entry of xs, the entry of ys there, first of xs)"""
        n = self.choice(name + ".form", ["any length", 2, 3])
        values = values or {}
        if n == "any length":
            t = Tag.new(1, name)
            self.requires(compare("<=", 2, t.dims[0]))
            a, b = self.real(name + "_x", span=span), self.real(name + "_y", **values)
            xs, ys = GArr(t, a), GArr(t, b)
            return xs, ys, a, b, lift(xs[0])
        xs = [self.real(f"{name}_x{i}", span=span) for i in range(n)]
        for u, v in zip(xs, xs[1:]):
            self.requires(compare("<", u, v))
        ys = [self.real(f"{name}_y{i}", **values) for i in range(n)]
        k = self.choice(name + ".entry", list(range(n)))
        a, b, x0 = xs[k], ys[k], xs[0]
        if self.choice(name + ".as", ["lists", "arrays"]) == "arrays":
            xs, ys = VArr.of(xs), VArr.of(ys)
        return xs, ys, a, b, x0

    def like(self, x, name, **kw):
        """Another input of the same shape."""
        v = self.real(name, **kw)
        if isinstance(x, GArr):
            return GArr(x.tag, v)
        return v

    def elem(self, x):
        """The generic element as a scalar."""
        if isinstance(x, GArr):
            return SReal(lift(x.cell.v).t, lift(x.cell.v).sp)
        return x

    def spread(self, x, nd, like=None):
        """An array of nd dimensions whose generic element is x (of the shape of another one)."""
        if like is not None:
            return GArr(like.tag, x)
        return GArr(TAG0 if nd == 0 else Tag.new(nd, self.run.name("arr")), x)

    def item(self, x):
        """A number out of a scalar or zero-dimensional result."""
        return self.elem(x)

    def vec(self, *xs):
        return VArr.of(xs)

    def ivec(self, *xs):
        """An array of integers."""
        return VArr.of(xs).integers()

    def whole(self, name, **kw):
        """An integer (any number here)."""
        return self.real(name, **kw)

    def inexact(self, v):
        """The same number as a float."""
        return v

    def fn(self, name, order=2, **kw):
        """An arbitrary user function with `order` known derivatives."""
        names = [name] + [("d%s" % ("" if k == 1 else k)) + name for k in range(1, order + 1)]
        fs = [UFn(self, n, names[i + 1:i + 2]) for i, n in enumerate(names)]
        return fs

    def own_derivative(self, name):
        """A function of the caller that is its own derivative and stores what it returned."""
        return Stored(UFn(self, name, [name]))

    def requires(self, c):
        self.run.assume(sym.tobool(c) if not isinstance(c, GArr) else c.cell.v)

    def exact_splines(self):
        """CubicSpline of a table of numbers: the polynomials scipy documents (not-a-knot)."""
        self.run.state["exact_splines"] = True

    # ---- integrator
    def ivp(self, outcome="end", message=None):
        self.run.state["ivp_policy"] = lambda call: outcome(call) if callable(outcome) else outcome
        if message:
            self.run.state["ivp_message"] = message

    @property
    def calls(self):
        return self.run.state.setdefault("ivp_calls", [])

    @property
    def roots(self):
        return self.run.state.setdefault("root_calls", [])

    def root(self, policy):
        self.run.state["root_policy"] = policy

    def state(self, call, x, *bounds):
        """The solution's state at x, assumed within bounds."""
        c = call.sol.comp(x.cell.v if isinstance(x, GArr) else x)
        for v, b in zip(c, bounds):
            if b:
                self.bound(v, **b)
        if isinstance(x, GArr) and x.tag.ndim:
            return [GArr(x.tag, v) for v in c]
        return c

    @property
    def quads(self):
        return self.run.state.setdefault("quads", [])

    def holds(self, c):
        """Can the verifier prove c here?  (no obligation)"""
        return self.run.prove(c)[0] == "proved"

    def unsupported(self, why):
        raise Unsupported(why)

    # ---- calculus
    def D(self, f, x, order=1):
        x = lift(self.elem(x))
        y = lift(self.elem(f(SReal(x.t))))
        return self.Dt(y, x, order)

    def Dt(self, y, x, order=1):
        t = y.t
        for _ in range(order):
            t = tm.diff(t, x.t.args[0], self.run.rule)
        return SReal(t)

    def ln_mono(self, a, b):
        """Lemma instance: 0 < b <= a implies ln b <= ln a."""
        a, b = lift(a), lift(b)
        if self.true("lemma: 0 < b", compare("<", 0, b)) and self.true("lemma: b <= a", compare("<=", b, a)):
            self.run.add_lit("<=", tm.sub(tm.ln(b.t), tm.ln(a.t)))

    # ---- obligations
    def _add(self, name, kind, res, note=None):
        o = Obl(name, kind, *res)
        o.note = note
        o.choices = dict(self.choices)
        if o.status == "proved":
            o.model = None
        self.run.obls.append(o)
        return o.status == "proved"

    def true(self, name, c, note=None):
        if isinstance(c, GArr):
            c = c.cell.v
        c = sym.tobool(c) if not isinstance(c, VArr) else c.all()
        return self._add(name, "post", self.run.prove(c), note)

    ensure = true

    def fail(self, name, note=None):
        return self._add(name, "post", self.run.prove(False), note)

    @staticmethod
    def shape_key(a):
        if isinstance(a, GArr):
            return ("g", a.tag) if a.tag.ndim else ()
        if isinstance(a, VArr):
            return (len(a.cells), ("g", a.tag) if a.tag.ndim else ())
        if isinstance(a, (list, tuple)):
            return (len(a),) + ((SymE.shape_key(a[0]),) if a else ((),))
        return ()

    def same_shape(self, name, a, b):
        ka, kb = self.shape_key(a), self.shape_key(b)
        if ka == kb:
            return self._add(name, "shape", ("proved", "eval", 0.0, None))
        return self.fail(name, f"shapes differ: {describe_shape(a)} and {describe_shape(b)}")

    def pairs(self, a, b):
        for x in (a, b):
            if isinstance(x, models.SymSeqArr):
                raise Unsupported("comparison")
        la = isinstance(a, (VArr, list, tuple))
        lb = isinstance(b, (VArr, list, tuple))
        if la or lb:
            if not (la and lb):
                return None
            a, b = list(a), list(b)
            if len(a) != len(b):
                return None
            out = []
            for x, y in zip(a, b):
                p = self.pairs(x, y)
                if p is None:
                    return None
                out += p
            return out
        if self.shape_key(a) != self.shape_key(b):
            return None
        return [(a.cell.v if isinstance(a, GArr) else a, b.cell.v if isinstance(b, GArr) else b)]

    def eq(self, name, a, b, tol=None, shape=True, abstol=None, scale=None):
        if not shape:
            if isinstance(a, GArr) or isinstance(b, GArr):
                a, b = self.elem(a), self.elem(b)
        ps = self.pairs(a, b)
        if ps is None:
            return self.fail(name, f"shapes differ: {describe_shape(a)} and {describe_shape(b)}")
        ok = True
        for k, (x, y) in enumerate(ps):
            nm = name if len(ps) == 1 else f"{name}[{k}]"
            if not (sym.is_scalar(x) and sym.is_scalar(y)):
                r = (x is y) or (type(x) is type(y) and x == y) or (isinstance(x, str) and x == y)
                ok &= self.true(nm, bool(r), f"{x!r} and {y!r}")
                continue
            if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
                ok &= self.true(nm, bool(x) == bool(y))
                continue
            X, Y = lift(x), lift(y)
            if X.sp or Y.sp:
                ok &= self.true(nm, X.sp == Y.sp and X.sp is not None, f"{x} and {y}")
                continue
            ok &= self._add(nm, "post", self.run.prove(compare("==", X, Y)), None)
        return ok

    def close(self, name, a, b, tol):
        d = lift(self.elem(a)) - lift(self.elem(b))
        return self.true(name, SBool.conj([compare("<=", d, tol), compare("<=", -d, tol)]))

    def cmp(self, name, op, a, b):
        ps = self.pairs(a, b)
        if ps is None:
            if sym.is_scalar(b):
                ps = [(v, b) for v in ([a.cell.v] if isinstance(a, GArr) else [c.v for c in a.cells])]
            elif sym.is_scalar(a):
                ps = [(a, v) for v in ([b.cell.v] if isinstance(b, GArr) else [c.v for c in b.cells])]
            else:
                return self.fail(name, "shapes differ")
        return self.true(name, SBool.conj([compare(op, x, y) for x, y in ps]))

    def le(self, name, a, b, tol=None):
        return self.cmp(name, "<=", a, b)

    def lt(self, name, a, b):
        return self.cmp(name, "<", a, b)

    def ne(self, name, a, b):
        return self.cmp(name, "!=", a, b)

    def same(self, name, a, b):
        return self.true(name, a is b)

    def finite(self, name, a):
        vs = [a.cell.v] if isinstance(a, GArr) else [c.v for c in a.cells] if isinstance(a, VArr) else [a]
        return self.true(name, all(not lift(v).sp for v in vs))

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except exc as ex:
            return self._add(name, "raises", ("proved", "eval", 0.0, None), str(ex)[:80])
        except (Unsupported, PathAbort, Budget):
            raise
        except Exception as ex:
            if isinstance(ex, (TypeError, AttributeError, NotImplementedError, IndexError)) and \
                    (not in_repo(ex, self.repo_path) or of_proxy(ex)):
                raise Unsupported(f"{type(ex).__name__}: {ex}")
            return self.fail(name, f"raised {type(ex).__name__}: {ex}")
        return self.fail(name, f"no {exc.__name__} raised")

    def attempt(self, thunk):
        """(value, None) or (None, exception) for exceptions the code raises."""
        try:
            return thunk(), None
        except ValueError as ex:
            return None, ex

    # ---- frames
    def snapshot(self, *objs):
        return [snap(o) for o in objs]

    def unchanged(self, name, shot, *objs):
        ok = True
        for k, (s, o) in enumerate(zip(shot, objs)):
            nm = name if len(shot) == 1 else f"{name}[{k}]"
            if s[0] == "seq":
                same = len(s[1]) == len(o) and all(a is b for a, b in zip(s[1], o))
                ok &= self.true(nm, same, "sequence changed")
            elif s[0] == "cells":
                cells = [o.cell] if isinstance(o, GArr) else o.cells
                if len(cells) != len(s[1]):
                    ok &= self.fail(nm)
                    continue
                for c, v in zip(cells, s[1]):
                    a, b = c.v, v
                    if a is b:
                        ok &= self._add(nm, "frame", ("proved", "eval", 0.0, None))
                    elif lift(a).sp or lift(b).sp:
                        ok &= self.true(nm, lift(a).sp == lift(b).sp)
                    else:
                        ok &= self._add(nm, "frame", self.run.prove(compare("==", a, b)))
        return ok

    def where(self, c, a, b):
        return models.np_where(c, a, b)

    # ---- text and files
    def brief(self, v):
        """v, or a number near it that is short when written."""
        return v

    def numeral(self, v):
        """Text that reads as the number v."""
        return models.token(v) if isinstance(v, SReal) else repr(v)

    def row(self, vals, width=0):
        """A line of numbers, at least this wide (with its line end)."""
        return " ".join(self.numeral(v) if not isinstance(v, str) else v for v in vals).rjust(max(width - 1, 0)) + "\n"

    def file(self, name, lines):
        self.run.state.setdefault("vfs", {})[name] = lines
        return name

    def block(self, name, make, some=False):
        """Arbitrarily many alike rows; make(j) is a row, what it requires holds for every row."""
        return SymRows(self, name, make, some or self.choice(name + " rows", ["none", "some"]) == "some")

    def rows(self, name, make, brief=False):
        """Any number of alike rows as pieces, the outer ones by themselves."""
        k = self.choice(name, ["none", "many"] if brief else ["none", "one", "two", "many"])
        if brief:
            return [make(0), self.block(name, make, some=True)] if k == "many" else []
        a = [make(0)] if k != "none" else []
        b = [self.block(name, make, some=True)] if k == "many" else []
        return a + b + ([make(1)] if k in ("two", "many") else [])

    def turned(self, pieces):
        """Pieces in reverse order."""
        return [self.mirror(p) if hasattr(p, "sample") else p for p in pieces[::-1]]

    def lines(self, pieces, f):
        """Lines of the rows of the pieces."""
        return self.texts(*[p.lines(f) if hasattr(p, "sample") else f(p) for p in pieces])

    def mirror(self, b):
        """The rows of b in reverse order."""
        return b.reverse()

    def texts(self, *pieces):
        """A list of the pieces' entries: plain entries, lists, and blocks of lines made by b.lines(f)."""
        out = seqs.SList()
        for p in pieces:
            list.extend(out, p.parts() if isinstance(p, seqs.SList) else p if isinstance(p, list) else [p])
        return out

    def along(self, *pieces):
        """(position, record) of every record of the pieces: records and blocks."""
        base = 0
        for p in pieces:
            if isinstance(p, SymRows):
                if p.block is not None:
                    yield seqs.Piece(p.block, None, p.rev).pos(base), p.rec
                    base = base + p.block.n
            else:
                yield base, p
                base = base + 1

    def total(self, *pieces):
        n = 0
        for p in pieces:
            n = n + (p.n if isinstance(p, SymRows) else 1)
        return n

    def at(self, a, pos):
        return a[pos]

    def count(self, a):
        return seqs.s_len(a)

    def case_file(self, case, lines):
        """The data file of a Stanford case."""
        p = f"{self.repo_path}/ibl/data/stanford_olympics/1968/case {case}.txt"
        self.run.state.setdefault("vfs", {})[p] = lines
        self.run.state["served"] = 0

    def served(self):
        """The case file given was the one that was read."""
        if not self.run.state.get("served"):
            raise Unsupported("case data do not come from the expected file")

    def note(self, s):
        self.notes.append(s)


class SymRows:
    """A block of records in a contract."""

    def __init__(self, e, name, make, there):
        self.rev = False
        self.block = self.rec = None
        self.n = 0
        if there:
            self.block = seqs.Block(e.run.name(name))
            self.n = self.block.n
            self.rec = make(self.block.i)

    def reverse(self):
        r = object.__new__(SymRows)
        r.rev, r.block, r.rec, r.n = not self.rev, self.block, self.rec, self.n
        return r

    def lines(self, f):
        out = seqs.SList()
        if self.block is not None:
            list.append(out, seqs.Piece(self.block, f(self.rec), self.rev))
        return out

    def sample(self):
        """Some records of the block."""
        return [self.rec] if self.block is not None else []


def numeric(v):
    if isinstance(v, SReal):
        return None if v.sp or v.t.op != "num" else float(v.t.args[0])
    return v


def snap(o):
    if isinstance(o, GArr):
        return ("cells", [o.cell.v])
    if isinstance(o, VArr):
        return ("cells", [c.v for c in o.cells])
    if isinstance(o, (list, tuple)):
        return ("seq", list(o))
    return ("other", None)


def describe_shape(a):
    if isinstance(a, GArr):
        return f"{a.tag.ndim}-d array {a.tag.name}"
    if isinstance(a, VArr):
        return f"array of {len(a.cells)}" + (f" x {a.tag.name}" if a.tag.ndim else "")
    if isinstance(a, (list, tuple)):
        return f"sequence of {len(a)}"
    return "scalar"


def proxies():
    from . import sym, models, seqs
    return {n for m in (sym, models, seqs) for n, v in vars(m).items() if isinstance(v, type) and v.__module__ == m.__name__}


def of_proxy(ex):
    """Is it a proxy that lacks an operation, and not the real thing?"""
    if isinstance(ex, AttributeError):
        m = type(getattr(ex, "obj", None)).__module__
        if m.split(".")[0] == "dv":
            return True
    return any(w in proxies() for w in re.findall(r"\w+", str(ex)))


def in_repo(ex, root):
    """Was the exception raised by a statement of the repository itself?"""
    tb = ex.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and os.path.realpath(last).startswith(os.path.realpath(root) + os.sep)


# -------------------------------------------------------------- exploration

_loaded = {}


def load_contracts(prop):
    if prop in _loaded:
        return _loaded[prop]
    path = api.contract_path(prop)
    src = open(path, encoding="utf8").read()
    code, lits = loader.Repo.compile_src(src, path)
    api.CONTRACTS.clear()
    ns = {"__name__": "contracts." + prop, "__file__": path, **loader.HELPERS, "contract": api.contract, "inf": float("inf"), "__builtins__": models.make_builtins()}
    common = os.path.join(os.path.dirname(path), "common.py")
    from fractions import Fraction

    def put(lits):
        for k, n in lits.items():
            ns[n] = SReal(tm.num(Fraction(k)))
    ns["np"] = models.NumpyShim()
    if os.path.exists(common):
        c2, l2 = loader.Repo.compile_src(open(common).read(), common, prefix="_vc_")
        put(l2)
        exec(c2, ns)
    put(lits)
    exec(code, ns)
    r = list(api.CONTRACTS)
    _loaded[prop] = r
    return r


def run_path(contract, script, deadline, loop_inv, path_time=60):
    """-> dict describing one path."""
    t0 = time.time()
    run = Run(script, min(deadline, t0 + path_time), contract.strict)
    run.loop_inv = {k: set(v) for k, v in loop_inv.items()}
    run.fns = set()
    sym.set_rt(run)
    e = SymE(run, contract)
    run.current = e
    status, why = "ok", None
    Stats.reset()
    try:
        contract.fn(e)
    except PathAbort:
        status = "abort"
    except Unsupported as ex:
        status, why = "unsupported", str(ex) + " @ " + where(ex)
    except Budget as ex:
        status, why = "budget", str(ex)
    except Missing as ex:
        status, why = "missing", str(ex)
    except loader.Restart:
        status = "restart"
    except RecursionError as ex:
        status, why = "unsupported", "recursion"
    except Exception as ex:
        w = where(ex)
        if in_repo(ex, e.repo_path) and not isinstance(ex, (TypeError, AttributeError, NameError, IndexError, KeyError, AssertionError)):
            try:
                e.fail("no unexpected exception", f"{type(ex).__name__}: {ex} @ {w}")
            except (Unsupported, PathAbort, Budget):
                pass
        else:
            status, why = "unsupported", f"{type(ex).__name__}: {str(ex)[:200]} @ {w}"
    obls = []
    for o in run.obls:
        obls.append(dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, secs=o.secs,
                         model=o.model, note=getattr(o, "note", None),
                         choices=getattr(o, "choices", None)))
    return dict(status=status, why=why, trail=list(run.trail), obls=obls, assumed=run.assumed,
                defined=run.state.get("defined", 0), choices=dict(e.choices), secs=time.time() - t0,
                loop_inv={k: sorted(v) for k, v in run.loop_inv.items()}, notes=e.notes,
                stats=Stats.dump())


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fs = [f for f in tb if "/dv/" not in f.filename]
    f = fs[-1] if fs else tb[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno}"


def children(script, trail):
    out = []
    for i in range(len(script), len(trail)):
        v, n = trail[i]
        for alt in range(1, n):
            out.append([t[0] for t in trail[:i]] + [alt])
    return out


_cover = set()


def start_cover():
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "dv")
    except ValueError:
        return
    root = os.path.realpath(api.repo_root()) + os.sep

    def py_start(code, off):
        if os.path.realpath(code.co_filename).startswith(root):
            _cover.add((code.co_filename[len(root):], code.co_qualname, code.co_firstlineno))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, py_start)
    mon.set_events(tool, mon.events.PY_START)


def task(prop, idx, script, deadline, loop_inv):
    cs = load_contracts(prop)
    warnings.simplefilter("ignore")
    start_cover()
    _cover.clear()
    sys.monitoring.restart_events()
    r = run_path(cs[idx], script, deadline, loop_inv)
    r["cover"] = sorted(_cover)
    return r


STUCK = 45       # seconds a solver query may take (limits given to the solvers are 16 at most)
LONG = 180       # seconds a path may take (it gives up by itself after 60)


def serve(prop, conn, count, since):
    """Worker: runs one path after the other."""
    Gate.count, Gate.since = count, since
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        idx, script, deadline, loop_inv, skip = job
        count.value, since.value, Gate.skip = 0, 0.0, frozenset(skip)
        try:
            r = task(prop, idx, script, deadline, loop_inv)
        except Exception as ex:
            r = ex
        try:
            conn.send(r)
        except Exception as ex:
            conn.send(RuntimeError(repr(ex)))


class Worker:
    def __init__(self, ctx, prop):
        self.count, self.since = ctx.RawValue("q", 0), ctx.RawValue("d", 0.0)
        self.conn, other = ctx.Pipe()
        self.p = ctx.Process(target=serve, args=(prop, other, self.count, self.since), daemon=True)
        self.p.start()
        other.close()
        self.job = None

    def give(self, job, deadline, loop_inv):
        self.job, self.t = job, time.time()
        self.conn.send((job[0], job[1], deadline, loop_inv, job[3]))

    def stuck(self, now):
        s = self.since.value
        return self.job is not None and ((s and now - s > STUCK) or now - self.t > LONG)

    def kill(self):
        self.p.kill()
        self.p.join()
        self.conn.close()


def explore(prop, budget, jobs=8, only=None, log=None):
    """Explore all contracts of a property.  -> list of per contract results"""
    from collections import deque
    from multiprocessing.connection import wait
    import multiprocessing as mp
    cs = load_contracts(prop)
    deadline = time.time() + budget
    res = []
    todo = deque()       # (contract, script, epoch, solver queries to leave out)
    for i, c in enumerate(cs):
        res.append(dict(contract=c.name, subjects=list(c.subjects), doc=c.doc, known=c.known, paths=0, aborted=0,
                        obls=[], unsupported=[], assumed=set(), defined=0, cover=set(), loop_inv={}, epoch=0,
                        secs=0.0, stats={}, budget=False, missing=None, restarts=0, sym=c.sym, stuck=0))
        if c.sym and (only is None or c.name in only):
            todo.append((i, [], 0, ()))
    ctx = mp.get_context("fork")
    pool = [Worker(ctx, prop) for _ in range(jobs)]

    def submit(i, s, skip=()):
        todo.append((i, s, res[i]["epoch"], skip))

    try:
        while todo or any(w.job for w in pool):
            for w in pool:
                if w.job is None and todo:
                    job = todo.popleft()
                    if job[2] == res[job[0]]["epoch"]:
                        w.give(job, deadline, res[job[0]]["loop_inv"])
            busy = {w.conn: w for w in pool if w.job}
            ready = wait(list(busy), timeout=2) if busy else []
            now = time.time()
            for k, w in enumerate(pool):
                if w.job is None or w.conn in ready or not (w.stuck(now) or now > deadline + 30):
                    continue
                # a solver ignored its limit: the path is run again without that query
                (i, s, ep, skip), n, query = w.job, w.count.value, w.since.value > 0
                w.kill()
                pool[k] = Worker(ctx, prop)
                if ep == res[i]["epoch"]:
                    res[i]["stuck"] += 1
                    if query and len(skip) < 6 and now < deadline:
                        submit(i, s, skip + (n,))
                    else:
                        res[i]["budget"] = True
            for conn in ready:
                w = busy[conn]
                (i, s, ep, skip), w.job = w.job, None
                R = res[i]
                try:
                    r = conn.recv()
                except (EOFError, OSError):       # ended from outside
                    n, query = w.count.value, w.since.value > 0
                    w.kill()
                    pool[pool.index(w)] = Worker(ctx, prop)
                    if ep == R["epoch"]:
                        if query and len(skip) < 3:
                            submit(i, s, skip + (n,))
                        else:
                            R["unsupported"].append("worker ended")
                    continue
                if ep != R["epoch"]:
                    continue
                if isinstance(r, Exception):
                    R["unsupported"].append(f"worker: {r!r}")
                    continue
                if log:
                    log(cs[i], s, r)
                R["secs"] += r["secs"]
                for k, v in r["stats"].items():
                    R["stats"][k] = R["stats"].get(k, 0) + v
                R["cover"] |= set(map(tuple, r["cover"]))
                if r["status"] == "restart":
                    R["epoch"] += 1
                    R["restarts"] += 1
                    for k, v in r["loop_inv"].items():
                        R["loop_inv"][k] = sorted(set(R["loop_inv"].get(k, [])) | set(v))
                    R.update(paths=0, aborted=0, obls=[], unsupported=[], assumed=set(), defined=0)
                    if R["restarts"] < 12:
                        submit(i, [])
                    else:
                        R["unsupported"].append("loop invariant search did not settle")
                    continue
                for o in r["obls"]:
                    o["path"] = r["choices"]
                    R["obls"].append(o)
                if r["status"] == "abort":
                    R["aborted"] += 1
                else:
                    R["paths"] += 1
                if r["status"] == "unsupported":
                    R["unsupported"].append(r["why"] + " " + short(r["choices"]))
                elif r["status"] == "budget":
                    R["budget"] = True
                elif r["status"] == "missing":
                    R["missing"] = r["why"]
                R["assumed"] |= set(r["assumed"])
                R["defined"] += r["defined"]
                for ch in children(s, r["trail"]):
                    if R["paths"] + R["aborted"] > 20000 or time.time() > deadline:
                        R["budget"] = True
                        break
                    submit(i, ch, skip)
    finally:
        for w in pool:
            w.kill()
    return res


def short(d):
    return "{" + ", ".join(f"{k}={v}" for k, v in d.items()) + "}"
