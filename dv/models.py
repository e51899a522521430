"""Assumed contracts of what the code under verification depends on:
numpy, scipy, math, the file system and a few builtins."""
from fractions import Fraction
import builtins as _b
import inspect
import types

from . import terms as tm
from . import sym
from .sym import (SReal, SNp, SBool, GArr, VArr, Rows, Tag, TAG0, Cell, Unsupported,
                  arith, compare, lift, elementwise, absval, fresh_real, out,
                  tobool, is_scalar, npval)
from .seqs import BArr, MArr, settled, SList, SText, Piece
from . import seqs


def rt():
    return sym.RT


# ------------------------------------------------------------ type shims

def shim_type(name, check, make, base=()):
    class Meta(type):
        def __new__(m, name, bases, ns, **k):
            if bases:       # a class derived from the type
                return types.new_class(name, tuple(y for b in bases for y in (base if type(b) is m else (b,))), k,
                                       lambda d: d.update(ns))
            return type.__new__(m, name, bases, ns)

        def __instancecheck__(cls, x):
            return check(x)

        def __subclasscheck__(cls, c):
            return any(issubclass(c, b) for b in base) if base else cls is c

        def __call__(cls, *a, **k):
            return make(*a, **k)

        def __or__(cls, o):
            import typing
            return typing.Union[cls, o]
        __ror__ = __or__

        def __eq__(cls, o):
            return o is cls or o in base

        def __hash__(cls):
            return hash(name)

        def __getitem__(cls, i):
            return cls
    return Meta(name, (), {})


TOKEN = "7.13"      # numerals that stand for symbolic numbers start like this


def token(v):
    """A numeral, unique in this run, that float() reads as the symbolic number v."""
    toks = rt().state.setdefault("tokens", {})
    t = f"{TOKEN}{len(toks):04d}"
    toks[t] = v
    return t


def parse_float(x):
    if isinstance(x, str) and TOKEN in x:
        v = rt().state.get("tokens", {}).get(x.strip())
        if v is None:
            if len(x.split()) > 1:
                raise ValueError(f"could not convert string to float: {x!r}")
            raise Unsupported("part of a symbolic numeral")
        return v
    if isinstance(x, str):
        float(x)     # ValueError as Python would
        s = x.strip().lower().replace("_", "")
        try:
            return SReal(tm.num(Fraction(s)))
        except ValueError:
            return lift(float(x))
    return None


def make_float(x=0.0):
    r = parse_float(x)
    if r is not None:
        return r
    if isinstance(x, SReal):
        return SReal(x.t, x.sp)
    if isinstance(x, GArr):
        if x.tag.ndim == 0:
            v = x.cell.v
            return make_float(v)
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    if isinstance(x, VArr):
        if len(x.cells) == 1 and x.tag.ndim == 0:
            return make_float(x.cells[0].v)
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    if is_scalar(x):
        return lift(x)
    return float(x)


Float = shim_type("float", lambda x: isinstance(x, float), make_float, (float,))
NpFloat = shim_type("float64", lambda x: isinstance(x, SNp), lambda x=0.0: npval(make_float(x)))
Ndarray = shim_type("ndarray", lambda x: isinstance(x, (GArr, VArr, Rows, BArr, MArr, seqs.Table, seqs.Turned)), lambda *a, **k: _unsup("ndarray()"))


List = shim_type("list", lambda x: isinstance(x, list) and not isinstance(x, seqs.STuple), seqs.collect, (list,))
Tuple = shim_type("tuple", lambda x: isinstance(x, (tuple, seqs.STuple)), seqs.s_tuple, (tuple,))


def _unsup(what):
    raise Unsupported(what)


def make_int(x=0, *a):
    if a:
        return int(x, *a)
    if isinstance(x, str) and TOKEN in x:
        raise Unsupported("int of symbolic text")
    return int(x)


Int = shim_type("int", lambda x: isinstance(x, int) and not isinstance(x, SReal), make_int, (int,))


# ----------------------------------------------------------------- numpy

def as_arr(x, copy=False, dtype=None):
    if dtype in (int, bool, Int):
        raise Unsupported("integer array")
    if isinstance(x, VArr) and x.ints and dtype is not None:
        return x.astype(dtype)
    if isinstance(x, (GArr, VArr, Rows, BArr, seqs.Table)):
        return x.copy() if copy else x
    if isinstance(x, seqs.Turned):
        raise Unsupported("transposed table")
    if isinstance(x, MArr):
        return x.copy() if copy else x.settle()
    if isinstance(x, SList) and x.blocks():
        if isinstance(next(v.value for v in x.parts() if isinstance(v, Piece)), (list, tuple, VArr)):
            return seqs.Table.of(x)
        return BArr.of(x)
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(v, VArr) and v.tag.ndim == 0 for v in x):
            return Rows([v.copy() for v in x])
        if x and all(isinstance(v, (list, tuple)) and v and len(v) == len(x[0]) and
                     all(is_scalar(y) for y in v) for v in x):
            return Rows([VArr.of(v) for v in x])
        if x and all(isinstance(v, (list, tuple)) and all(is_scalar(y) for y in v) for v in x) and \
                len({len(v) for v in x}) > 1:
            raise ValueError("setting an array element with a sequence")
        if any(isinstance(v, (list, tuple, VArr)) for v in x):
            raise Unsupported("nested array")
        return VArr.of(x)
    if isinstance(x, SBool):
        return GArr(TAG0, x)
    if is_scalar(x):
        return GArr(TAG0, lift(x))
    if isinstance(x, SymSeqArr):
        return x
    if x is None or isinstance(x, str):
        raise Unsupported("object array")
    if hasattr(x, "__iter__"):
        raise Unsupported("array of iterable")
    raise Unsupported(f"array of {type(x).__name__}")


class SymSeqArr:
    pass


def as_conc(v):
    return v


def plain(k, *known):
    """Refuses keywords of numpy that change the result and are not modelled."""
    for n, v in k.items():
        if n not in known and n not in ("casting", "order", "subok", "like", "equal_nan") and v is not None \
                and not (n == "keepdims" and v is False) and not (n == "where" and v is True) \
                and not (n == "axis" and v in (0, -1)) and not (n == "dtype" and v in (float, Float, NpFloat)):
            raise Unsupported(f"argument {n}")


def into(f, args, out=None, where=True, **k):
    """A ufunc with out= and where=: elements where the mask is False keep the value of out (else: undefined)."""
    plain(k)
    if isinstance(out, tuple):
        out, = out
    if where is True:
        r = f(*args)
    else:
        if out is None:
            raise Unsupported("where without out")
        args = [settled(a) for a in args]
        args = [as_arr(a) if isinstance(a, (list, tuple)) else a for a in args]
        where = as_arr(where)
        if isinstance(out, VArr):
            for j, c in enumerate(out.cells):
                at = lambda a: a.entry(a.cells[j]) if isinstance(a, VArr) else a
                if bool(at(where)):
                    out[j] = f(*[at(a) for a in args])
            return out
        if not isinstance(out, GArr) or not isinstance(where, GArr):
            raise Unsupported("where argument")
        if not bool(tobool(where.cell.v)):
            return out
        r = f(*args)
    if out is not None:
        if not isinstance(out, (GArr, VArr)):
            raise Unsupported("out argument")
        if isinstance(r, GArr) and isinstance(out, GArr) and r.tag.ndim and r.tag is not out.tag:
            raise Unsupported("out of another shape")
        out[...] = r
        return out
    return r


def unary(fn):
    def f(x, *a, **k):
        if a or k:
            return into(f, (x,), *a, **k)
        x = settled(x)
        if isinstance(x, (list, tuple)):
            x = as_arr(x)
        if isinstance(x, (GArr, VArr, BArr)):
            return elementwise(lambda v: fn(lift(v)), x)
        return npval(fn(lift(x)))
    return f


def binary(fn):
    def f(x, y, *a, **k):
        if a or k:
            return into(f, (x, y), *a, **k)
        x, y = settled(x), settled(y)
        if isinstance(x, (list, tuple)):
            x = as_arr(x)
        if isinstance(y, (list, tuple)):
            y = as_arr(y)
        if isinstance(x, (GArr, VArr, BArr)) or isinstance(y, (GArr, VArr, BArr)):
            return elementwise(fn, x, y)
        r = fn(x, y)
        return r if isinstance(r, (bool, SBool)) else npval(r)
    return f


def s_sqrt(x):
    if x.sp:
        return SNp(None, "nan" if x.sp != "inf" else "inf")
    sym.RT_need("nonneg", x.t, "sqrt argument")
    return SNp(tm.sqrt(x.t))


def s_exp(x):
    if x.sp:
        return SNp(tm.ZERO) if x.sp == "-inf" else x
    return SNp(tm.exp(x.t))


def s_ln(x):
    if x.sp:
        return SNp(None, "nan" if x.sp != "inf" else "inf")
    sym.RT_need("pos", x.t, "log argument")
    return SNp(tm.ln(x.t))


def s_log10(x):
    r = s_ln(x)
    return r if r.sp else SNp(tm.div(r.t, tm.ln(tm.num(10))))


def s_log2(x):
    r = s_ln(x)
    return r if r.sp else SNp(tm.div(r.t, tm.ln(tm.num(2))))


def s_max(a, b):
    a, b = lift(a), lift(b)
    return npval(a if bool(a >= b) else b)


def s_min(a, b):
    a, b = lift(a), lift(b)
    return npval(a if bool(a <= b) else b)


def s_clip(x, lo, hi):
    x = lift(x)
    if lo is not None and bool(x < lo):
        x = lift(lo)
    if hi is not None and bool(x > hi):
        x = lift(hi)
    return npval(x)


def s_sign(x):
    return SNp(tm.num(sym._sgn_of(x)))


def np_where(c, *ab):
    if len(ab) != 2:
        return (np_flatnonzero(c),)
    a, b = [as_arr(v) if isinstance(v, (list, tuple)) else v for v in ab]

    def f(c, a, b):
        return npval(lift(a)) if bool(tobool(c)) else npval(lift(b))
    return elementwise(f, c, a, b)


def np_piecewise(x, condlist, funclist, *args, **kw):
    if isinstance(x, VArr):
        conds = condlist
        if not isinstance(conds, (list, tuple)):
            conds = [conds]
        outv = []
        for k, e in enumerate(x):
            cl = [c.entry(c.cells[k]) if isinstance(c, VArr) else c for c in conds]
            r = np_piecewise(e, cl, funclist, *args, **kw)
            r = r.cell.v if isinstance(r, GArr) and r.tag.ndim == 0 else r
            outv.append(sym.truncated(lift(r)) if x.ints else r)
        return VArr.of(outv).integers(x.ints)
    g = as_arr(x)
    if isinstance(condlist, (SBool, bool, GArr)):
        condlist = [condlist]
    funclist = list(funclist)
    conds = [tobool(c.cell.v) if isinstance(c, GArr) else tobool(c) for c in condlist]
    y = lift(0)
    sel = None
    for c, f in zip(conds, funclist):
        if bool(c):
            sel = f
    if sel is None and len(funclist) == len(conds) + 1:
        sel = funclist[-1]
    elif len(funclist) not in (len(conds), len(conds) + 1):
        raise ValueError("with {} condition(s), either {} or {} functions are expected")
    if sel is not None:
        if callable(sel):
            sub = GArr(Tag.new(1, "pw"), g.cell.v)
            r = sel(sub, *args, **kw)
            y = r.cell.v if isinstance(r, GArr) else lift(r)
        else:
            y = lift(sel)
    return GArr(g.tag, y)


def like(val):
    def f(x, *a, **k):
        plain(k, "dtype", "shape")
        if k.get("shape") is not None or k.get("dtype") in (bool, int, Int):
            raise Unsupported("array like another of another type")
        v = val if val is not None else a[0]
        if isinstance(x, (list, tuple)):
            x = as_arr(x)
        if isinstance(x, GArr):
            return GArr(x.tag, lift(v))
        if isinstance(x, VArr):
            ints = x.ints and k.get("dtype") is None and len(a) <= (val is None)
            if ints:
                v = sym.truncated(lift(v))
            return VArr([Cell(npval(lift(v))) for _ in x.cells], x.tag).integers(ints)
        if isinstance(x, Rows):
            return Rows([f(r, *a, **k) for r in x])
        if is_scalar(x):
            return GArr(TAG0, lift(v))
        raise Unsupported("like")
    return f


def full(val):
    def f(shape, *a, **k):
        v = val if val is not None else k["fill_value"] if "fill_value" in k else a[0]
        plain(k, "fill_value", "dtype")
        given = k.get("dtype", a[val is None] if len(a) > (val is None) else None)
        if given in (int, Int):
            raise Unsupported("integer array")
        if given is bool:
            v = SBool.const(bool(v))
            if isinstance(shape, sym.Dims):
                return GArr(shape.tag, v)
            n = shape[0] if isinstance(shape, tuple) and len(shape) == 1 else shape
            n = n.__index__() if isinstance(n, SReal) and n.t is not None and n.t.op == "num" else n
            if not isinstance(n, int):
                raise Unsupported("array of truth values")
            return VArr([Cell(v) for _ in range(n)])
        if isinstance(shape, sym.Dims):
            if isinstance(v, GArr) and v.tag.ndim == 0:
                v = v.cell.v
            return GArr(shape.tag, lift(v))
        if isinstance(shape, tuple) and len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, SReal) and shape.t is not None and shape.t.op != "num":
            return MArr(shape)
        if isinstance(shape, SReal):
            shape = shape.__index__()
        if isinstance(shape, tuple):
            if len(shape) == 0:
                return GArr(TAG0, lift(v))
            if len(shape) == 2:
                a, b = [d.__index__() if isinstance(d, SReal) and d.t is not None and d.t.op == "num" else d for d in shape]
                if type(a) is int and type(b) is int:
                    return Rows([f(b, *([v] if val is None else [])) for _ in range(a)], b)
                if type(b) is int and b > 0 and isinstance(a, SReal):
                    return seqs.Table([MArr(a) for _ in range(b)])
                if type(a) is int and a > 0 and isinstance(b, SReal):
                    return seqs.Turned([MArr(b) for _ in range(a)])
            if len(shape) != 1:
                raise Unsupported("matrix")
            shape = shape[0]
            if isinstance(shape, SReal):
                shape = shape.__index__()
        return VArr([Cell(npval(lift(v))) for _ in range(shape)])
    return f


def np_shape(x):
    if hasattr(x, "shape"):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x),)
    return ()


def pred(fn):
    def f(x, *a, **k):
        plain(k)
        x = settled(x)
        if isinstance(x, (list, tuple)):
            x = as_arr(x)
        if isinstance(x, (GArr, VArr, BArr)):
            return elementwise(lambda v: fn(lift(v)), x)
        return fn(lift(x))
    return f


def np_any(x, *a, **k):
    plain(k)
    if isinstance(x, (list, tuple)):
        return any(bool(tobool(v)) for v in x)
    x = settled(x)
    return x.any() if isinstance(x, (GArr, VArr, BArr)) else tobool(x)


def np_all(x, *a, **k):
    plain(k)
    if isinstance(x, (list, tuple)):
        return all(bool(tobool(v)) for v in x)
    x = settled(x)
    return x.all() if isinstance(x, (GArr, VArr, BArr)) else tobool(x)


def np_isclose(a, b, rtol=None, atol=None, equal_nan=False):
    rtol = lift(Fraction(1, 100000)) if rtol is None else rtol
    atol = lift(Fraction(1, 10**8)) if atol is None else atol
    return binary(lambda x, y: compare("<=", absval(arith("sub", x, y)),
                                       arith("add", atol, arith("mul", rtol, absval(y)))))(a, b)


def np_fold(less):
    def f(x, *a, **k):
        plain(k)
        x = settled(x)
        if isinstance(x, (list, tuple)):
            x = as_arr(x)
        if isinstance(x, (GArr, VArr, BArr)):
            return x.min() if less else x.max()
        return npval(lift(x))
    return f


def np_logical(op):
    return lambda a, b: elementwise(lambda x, y: sym._barith(op, x, y), a, b) \
        if isinstance(a, (GArr, VArr, BArr)) or isinstance(b, (GArr, VArr, BArr)) else sym._barith(op, a, b)


def np_not(a):
    a = settled(a)
    if isinstance(a, (GArr, VArr, BArr)):
        return ~a
    a = tobool(a)
    return a.negate() if isinstance(a, SBool) else not a


def np_atleast_1d(x):
    x = as_arr(x)
    if isinstance(x, GArr) and x.tag.ndim == 0:
        return VArr([Cell(x.cell.v)])
    return x


def np_float_power(a, b):
    return binary(lambda x, y: arith("pow", x, y))(a, b)


def np_broadcast_arrays(*xs):
    raise Unsupported("broadcast")


def np_concatenate(xs, *a, **k):
    plain(k)
    o = []
    for x in xs:
        x = as_arr(x)
        if not isinstance(x, VArr):
            raise Unsupported("concatenate")
        o += list(x)
    return VArr.of(o)


def np_full_like(x, v, *a, **k):
    if isinstance(v, GArr):
        v = v.cell.v
    return like(None)(x, v, *a, **k)


def np_copyto(dst, src, casting=None, where=True):
    into(lambda v: v, (src if hasattr(src, "shape") else as_arr(src) if isinstance(src, (list, tuple)) else lift(src),),
         out=dst, where=where)


def np_clip(x, a_min=None, a_max=None, out=None, **k):
    plain(k)
    x = settled(x)
    if isinstance(x, (list, tuple)):
        x = as_arr(x)
    return into(lambda v, lo, hi: elementwise(s_clip, v, lo, hi)
                if any(isinstance(w, (GArr, VArr, BArr)) for w in (v, lo, hi)) else s_clip(v, lo, hi),
                (x, a_min, a_max), out=out)


def np_sum(x, **k):
    plain(k)
    return as_arr(x).sum()


def np_putmask(a, mask, values):
    if isinstance(values, (list, tuple, VArr)) or isinstance(values, GArr) and values.tag.ndim:
        raise Unsupported("putmask with an array")
    a[as_arr(mask) if isinstance(mask, (list, tuple)) else mask] = values


def np_place(a, mask, values):
    np_putmask(a, mask, values[0] if isinstance(values, (list, tuple)) and len(values) == 1 else values)


def np_ravel(x, *a):
    x = as_arr(x)
    if isinstance(x, GArr) and x.tag.ndim == 0:
        return VArr([x.cell])
    if isinstance(x, GArr) and x.tag.ndim == 1 or isinstance(x, BArr) or isinstance(x, VArr) and x.tag.ndim == 0:
        return x
    raise Unsupported("ravel")


def np_squeeze(x):
    x = as_arr(x)
    if isinstance(x, VArr) and len(x.cells) == 1 and x.tag.ndim == 0:
        return GArr(TAG0, None, cell=x.cells[0])
    if isinstance(x, GArr) and x.tag.ndim == 0 or isinstance(x, VArr) and len(x.cells) > 1 and x.tag.ndim == 0:
        return x
    raise Unsupported("squeeze")


def entries(x, what):
    x = as_arr(x)
    if not isinstance(x, VArr) or x.tag.ndim:
        raise Unsupported(what)
    return list(x)


def np_vectorize(f, otypes=None, **k):
    if k:
        raise Unsupported("vectorize")

    def g(*a):
        a = [settled(v) for v in a]
        a = [as_arr(v) if isinstance(v, (list, tuple)) else v for v in a]
        if any(isinstance(v, VArr) and not v.cells for v in a):
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        r = elementwise(lambda *v: npval(lift(f(*v))), *a)
        return r if isinstance(r, (GArr, VArr, BArr)) else GArr(TAG0, r)
    return g


def np_arg(less):
    def f(x):
        v = entries(x, "argmin/argmax")
        b = 0
        for k in range(1, len(v)):
            if bool(v[k] < v[b] if less else v[k] > v[b]):
                b = k
        return b
    return f


def np_diff(x):
    v = entries(x, "diff")
    return VArr.of([b - a for a, b in zip(v, v[1:])])


def np_cumsum(x):
    o, t = [], 0
    for v in entries(x, "cumsum"):
        t = t + v
        o.append(t)
    return VArr.of(o)


def np_dot(a, b):
    a, b = entries(a, "dot"), entries(b, "dot")
    if len(a) != len(b):
        raise ValueError("shapes not aligned")
    return npval(lift(sum((x * y for x, y in zip(a, b)), 0)))


def np_trapz(y, x=None, dx=1):
    y = entries(y, "trapz")
    x = entries(x, "trapz") if x is not None else [k * dx for k in range(len(y))]
    return npval(lift(sum(((b - a) * (p + q) / 2 for a, b, p, q in zip(x, x[1:], y, y[1:])), 0)))


def np_flatnonzero(x):
    return VArr.of([k for k, v in enumerate(entries(x, "flatnonzero")) if bool(tobool(v))]).integers(True)


def np_append(a, b):
    return np_concatenate([np_ravel(a), np_ravel(b)])


def np_array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if isinstance(a, VArr) and isinstance(b, VArr):
        return len(a.cells) == len(b.cells) and all(bool(tobool(x == y)) for x, y in zip(a, b))
    raise Unsupported("array_equal")


def np_linspace(a, b, num=50):
    a, b = lift(a), lift(b)
    return VArr.of([a + (b - a) * k / (num - 1) for k in range(num)])


def np_heaviside(x, h0):
    return binary(lambda v, h: npval(lift(1)) if bool(compare(">", v, 0)) else npval(lift(0)) if bool(compare("<", v, 0))
                  else npval(lift(h)))(x, h0)


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d.update(
            inf=SReal(None, "inf"), Inf=SReal(None, "inf"), nan=SReal(None, "nan"),
            pi=SReal(tm.PI), e=SReal(tm.E_), newaxis=None,
            ndarray=Ndarray, float64=NpFloat, floating=NpFloat, double=NpFloat, float_=NpFloat,
            number=shim_type("number", lambda x: isinstance(x, SNp), lambda x: npval(lift(x))),
            generic=shim_type("generic", lambda x: isinstance(x, SNp), lambda x: npval(lift(x))),
            integer=shim_type("integer", lambda x: False, lambda x: _unsup("integer")),
            bool_=shim_type("bool_", lambda x: isinstance(x, SBool), tobool),
            array=lambda x, dtype=None, copy=True, **k: as_arr(x, True, dtype),
            asarray=lambda x, dtype=None, **k: as_arr(x, False, dtype),
            asanyarray=lambda x, dtype=None, **k: as_arr(x, False, dtype),
            ascontiguousarray=lambda x, dtype=None, **k: as_arr(x, False, dtype),
            copy=lambda x, **k: as_arr(x, True),
            zeros_like=like(0), ones_like=like(1), empty_like=like(0), full_like=np_full_like,
            zeros=full(0), ones=full(1), empty=full(0), full=full(None),
            sqrt=unary(s_sqrt), exp=unary(s_exp), log=unary(s_ln), log10=unary(s_log10), log2=unary(s_log2),
            abs=unary(absval), absolute=unary(absval), fabs=unary(absval), sign=unary(s_sign),
            square=unary(lambda v: arith("mul", v, v)), negative=unary(sym._neg),
            positive=unary(lambda v: v), reciprocal=unary(lambda v: arith("div", npval(lift(1)), v)),
            power=binary(lambda x, y: arith("pow", x, y)), float_power=np_float_power,
            add=binary(lambda x, y: arith("add", x, y)), subtract=binary(lambda x, y: arith("sub", x, y)),
            multiply=binary(lambda x, y: arith("mul", x, y)), divide=binary(lambda x, y: arith("div", npval(lift(x)), y)),
            true_divide=binary(lambda x, y: arith("div", npval(lift(x)), y)),
            maximum=binary(s_max), minimum=binary(s_min), fmax=binary(s_max), fmin=binary(s_min),
            less=binary(lambda x, y: compare("<", x, y)), less_equal=binary(lambda x, y: compare("<=", x, y)),
            greater=binary(lambda x, y: compare(">", x, y)), greater_equal=binary(lambda x, y: compare(">=", x, y)),
            equal=binary(lambda x, y: compare("==", x, y)), not_equal=binary(lambda x, y: compare("!=", x, y)),
            clip=np_clip,
            where=np_where, piecewise=np_piecewise,
            shape=np_shape, ndim=lambda x: len(np_shape(x)), size=lambda x: getattr(x, "size", 1),
            isscalar=lambda x: is_scalar(x) and not isinstance(x, SBool),
            isfinite=pred(lambda v: not v.sp), isinf=pred(lambda v: v.sp in ("inf", "-inf")),
            isnan=pred(lambda v: v.sp == "nan"), any=np_any, all=np_all,
            isclose=np_isclose, allclose=lambda a, b, **k: np_all(np_isclose(a, b, **k)),
            min=np_fold(True), amin=np_fold(True), max=np_fold(False), amax=np_fold(False),
            sum=np_sum,
            fromiter=lambda it, dtype=None, count=-1: np_fromiter(it),
            logical_and=np_logical("and"), logical_or=np_logical("or"), logical_not=np_not,
            polyval=np_polyval, select=np_select, stack=np_stack,
            atleast_1d=np_atleast_1d, concatenate=np_concatenate, hstack=np_concatenate,
            copyto=np_copyto, errstate=_ErrState, putmask=np_putmask, place=np_place, ravel=np_ravel, squeeze=np_squeeze,
            vectorize=np_vectorize, argmin=np_arg(True), argmax=np_arg(False), diff=np_diff, cumsum=np_cumsum,
            dot=np_dot, inner=np_dot, trapz=np_trapz, flatnonzero=np_flatnonzero, append=np_append,
            nonzero=lambda x: (np_flatnonzero(x),),
            count_nonzero=lambda x: len(np_flatnonzero(x).cells), array_equal=np_array_equal, linspace=np_linspace,
            flip=lambda x: VArr.of(entries(x, "flip")[::-1]), heaviside=np_heaviside,
            hypot=binary(lambda x, y: s_sqrt(lift(arith("add", arith("mul", x, x), arith("mul", y, y))))),
            cbrt=unary(lambda v: arith("pow", v, lift(Fraction(1, 3)))),
            exp2=unary(lambda v: arith("pow", npval(lift(2)), v)),
            expm1=unary(lambda v: arith("sub", s_exp(v), 1)), log1p=unary(lambda v: s_ln(lift(arith("add", v, 1)))),
            nan_to_num=lambda x, copy=True, **k: as_arr(x, copy) if isinstance(x, (GArr, VArr, list, tuple)) else npval(lift(x)),
            logical_xor=None,
        )
        del d["logical_xor"]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("typing",):
            raise AttributeError(n)
        raise Unsupported(f"numpy.{n} is not modelled")


def np_polyval(p, x):
    v = 0
    x = as_arr(x) if isinstance(x, (list, tuple)) else x
    for c in p:
        v = v * x + c
    return v


def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np_where(c, v, r)
    return r


def np_stack(xs, axis=0, **k):
    if axis != 0:
        raise Unsupported("stack along another axis")
    return VArr.of(list(xs))


def np_fromiter(it):
    xs = seqs.collect(it)
    return BArr.of(xs) if xs.blocks() else VArr.of(xs)


class _ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Any:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _AnyT

    def __getitem__(self, i):
        return _AnyT


class _AnyTMeta(type):
    def __getitem__(cls, i):
        return cls

    def __or__(cls, o):
        return cls
    __ror__ = __or__


class _AnyT(metaclass=_AnyTMeta):
    pass


def make_nptyping():
    m = types.ModuleType("numpy.typing")
    m.NDArray = _AnyT
    m.ArrayLike = _AnyT
    m.DTypeLike = _AnyT
    return m


def make_math():
    m = types.ModuleType("math")

    def sc(f):
        return lambda x: SReal(*(lambda v: (v.t, v.sp))(f(lift(x))))
    m.sqrt = sc(s_sqrt)
    m.exp = sc(s_exp)
    m.log = lambda x, b=None: sc(s_ln)(x) if b is None else sc(s_ln)(x) / sc(s_ln)(b)
    m.log10 = sc(s_log10)
    m.log2 = sc(s_log2)
    m.fabs = lambda x: SReal(absval(lift(x)).t, absval(lift(x)).sp)
    m.pow = lambda a, b: arith("pow", a, b)
    m.pi = SReal(tm.PI)
    m.e = SReal(tm.E_)
    m.inf = SReal(None, "inf")
    m.nan = SReal(None, "nan")
    m.isfinite = lambda x: not lift(x).sp
    m.isinf = lambda x: lift(x).sp in ("inf", "-inf")
    m.isnan = lambda x: lift(x).sp == "nan"
    m.copysign = lambda a, b: absval(a) if bool(compare(">=", b, 0)) else sym._neg(absval(a))
    m.isclose = lambda a, b, rel_tol=Fraction(1, 10**9), abs_tol=0: bool(compare("<=", absval(arith("sub", a, b)), s_max(
        arith("mul", lift(rel_tol), s_max(absval(lift(a)), absval(lift(b)))), abs_tol)))

    def ga(n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"math.{n}")
    m.__getattr__ = ga
    return m


# ----------------------------------------------------------------- scipy

class Res:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, k):
        try:
            return self.__dict__[k]
        except KeyError:
            raise Unsupported(f"result field {k}")

    def get(self, k, d=None):
        return self.__dict__.get(k, d)


class Ends:
    """1-d array of which the first and last entries are known."""
    def __init__(self, first, last):
        self.first, self.last = first, last

    def __getitem__(self, i):
        if i == 0:
            return npval(self.first)
        if i == -1:
            return npval(self.last)
        raise Unsupported("index into integrator steps")


class EndsY:
    def __init__(self, first, last):
        self.first, self.last = first, last

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2:
            r = self.last if i[1] == -1 else self.first if i[1] == 0 else None
            if r is None:
                raise Unsupported("index into integrator steps")
            if isinstance(i[0], slice):
                return r[i[0]].copy()
            return r[i[0]]
        if isinstance(i, int):
            return Ends(self.first[i], self.last[i])
        raise Unsupported("index into integrator steps")


def fun_values(r, n):
    """Result of a right-hand side as n scalars."""
    if isinstance(r, (list, tuple)):
        r = as_arr(r)
    if isinstance(r, VArr):
        if len(r.cells) != n:
            raise ValueError("right-hand side has the wrong length")
        return [lift(c.v) if r.tag.ndim == 0 else c.v for c in r.cells]
    if n == 1:
        return [lift(r.cell.v) if isinstance(r, GArr) else lift(r)]
    raise Unsupported("right-hand side of unknown shape")


class OdeSol:
    """Dense output: S_i with S_i' = fun(., S)_i and S(t0) = y0."""

    def __init__(self, call, k):
        self.call = call
        self.k = k
        self.n = call.n
        self.names = [f"S{k}_{i}" for i in range(self.n)]
        self.memo = {}
        self.t_min = call.t0
        self.t_max = call.t1
        r = rt()
        for i, nm in enumerate(self.names):
            r.rules[nm] = (lambda i: lambda args, j: self.rhs(args[0])[i])(i)

    def rhs(self, xt):
        key = xt.id
        if key not in self.memo:
            x = SReal(xt)
            f = VArr([Cell(SNp(tm.app(nm, xt))) for nm in self.names])
            v = fun_values(self.call.fun(x, f), self.n)
            self.memo[key] = [lift(a).t if not lift(a).sp else _unsup("infinite slope") for a in v]
        return self.memo[key]

    def comp(self, x):
        x = lift(x)
        if x.sp:
            raise Unsupported("solution at infinity")
        r = rt()
        t0 = lift(self.call.t0)
        if not t0.sp and r.norm().equal(x.t, t0.t):
            return [npval(v) for v in self.call.y0]
        # canonical argument so equal points give equal values
        seen = r.state.setdefault("sol_args", [])
        xt = x.t
        for s in seen:
            if s is xt or r.norm().equal(s, xt):
                xt = s
                break
        else:
            seen.append(xt)
        return [SNp(tm.app(nm, xt)) for nm in self.names]

    def __call__(self, x):
        if isinstance(x, (list, tuple)):
            x = as_arr(x)
        if isinstance(x, VArr):
            if x.tag.ndim:
                raise ValueError("`t` must be a float or a 1-D array.")
            cols = [self.comp(v) for v in x]
            return Rows([VArr([Cell(c[k]) for c in cols]) for k in range(self.n)])
        if isinstance(x, GArr):
            if x.tag.ndim > 1:
                raise ValueError("`t` must be a float or a 1-D array.")
            c = self.comp(x.cell.v)
            return VArr([Cell(v) for v in c], x.tag)
        return VArr([Cell(v) for v in self.comp(x)])


_IVP_SIG = ["fun", "t_span", "y0", "method", "t_eval", "dense_output", "events",
            "vectorized", "args"]


class IvpCall:
    pass


def solve_ivp(*a, **k):
    kw = dict(zip(_IVP_SIG, a))
    kw.update(k)
    r = rt()
    c = IvpCall()
    fun = kw["fun"]
    extra = kw.get("args")
    c.fun = (lambda t, y: fun(t, y, *extra)) if extra else fun
    ts = kw["t_span"]
    c.t0, c.t1 = lift(ts[0]), lift(ts[1])
    y0 = as_arr(kw["y0"])
    if isinstance(y0, GArr) and y0.tag.ndim == 0:
        raise ValueError("`y0` must be 1-dimensional.")
    c.y0 = [npval(v) for v in y0]
    c.n = len(c.y0)
    ev = kw.get("events")
    c.no_events = ev is None
    if ev is None:
        ev = []
    elif callable(ev):
        ev = [ev]
    c.events = list(ev)
    c.events_obj = kw.get("events")
    c.kw = kw
    c.dense = bool(kw.get("dense_output", False))
    calls = r.state.setdefault("ivp_calls", [])
    calls.append(c)
    pol = r.state.get("ivp_policy")
    outcome = pol(c) if pol else "end"
    c.outcome = outcome
    k_ = len(calls) - 1
    sol = OdeSol(c, k_)
    c.sol = sol
    if outcome == "fail":
        msg = r.state.get("ivp_message", "Required step size is less than spacing between numbers.")
        tf = fresh_real(f"t_fail{k_}")
        return Res(t=Ends(c.t0, tf), y=EndsY(VArr.of(c.y0), sol(tf)), sol=sol if c.dense else None,
                   t_events=None if c.no_events else [VArr([]) for _ in c.events],
                   y_events=None if c.no_events else [VArr([]) for _ in c.events],
                   nfev=1, njev=0, nlu=0, status=-1, message=msg, success=False)
    if outcome == "end":
        te = c.t1
        status, msg = 0, "The solver successfully reached the end of the integration interval."
        tev = [VArr([]) for _ in c.events]
        yev = [VArr([]) for _ in c.events]
    else:
        idx = outcome[1]
        te = fresh_real(f"t_event{k_}")
        c.te = te
        status, msg = 1, "A termination event occurred."
        occ = {idx: te}
        for i in outcome[2] if len(outcome) > 2 else ():       # earlier, not terminal
            occ[i] = fresh_real(f"t_passed{k_}")
        tev = [VArr([Cell(npval(occ[i]))]) if i in occ else VArr([]) for i in range(len(c.events))]
        yev = [[sol(occ[i])] if i in occ else [] for i in range(len(c.events))]
    c.t_end = te
    ye = sol(te)
    return Res(t=Ends(c.t0, te), y=EndsY(VArr.of(c.y0), ye), sol=sol if c.dense else None,
               t_events=None if c.no_events else tev, y_events=None if c.no_events else yev,
               nfev=1, njev=0, nlu=0, status=status, message=msg, success=True)


class Interp:
    """Interpolating spline: exact at its knots, derivative() exact."""

    def __init__(self, x, y, axis=0, bc_type=None, extrapolate=None, _parent=None, **k):
        r = rt()
        if _parent is not None:
            self.base, self.ordr, self.x0 = _parent
            self.off = None
            self.knots = None
        else:
            x, y = as_arr(x), as_arr(y)
            if isinstance(x, GArr) or isinstance(y, GArr):
                if not (isinstance(x, GArr) and isinstance(y, GArr) and x.tag is y.tag and x.tag.ndim == 1):
                    raise Unsupported("interpolation tables")
                self.knots = ("gen", x.cell.v, y.cell.v)
                self.x0 = x[0]
            else:
                if x.ndim != 1:
                    raise ValueError("`x` must be 1-dimensional.")
                if len(x.cells) < 2:
                    raise ValueError("`x` must contain at least 2 elements.")
                if len(x.cells) != len(y.cells):
                    raise ValueError("The length of `y` along `axis`=0 doesn't match the length of `x`")
                self.knots = ("list", list(zip(list(x), list(y))))
                self.x0 = x[0]
            key = None
            if self.knots[0] == "list" and all(a.t is not None and a.t.op == "num" and b.t is not None and b.t.op == "num"
                                               for a, b in self.knots[1]):
                key = type(self).__name__ + str(hash(tuple((a.t.args[0], b.t.args[0]) for a, b in self.knots[1])))
            if key:
                self.base = "P_" + key
            elif r is not None:
                self.base = r.name("P")
            else:
                raise Unsupported("symbolic spline at import")
            self.ordr = 0
            self.off = None
        self.c = Coef(self)
        self.axis = 0
        self.extrapolate = True

    @staticmethod
    def fname(base, n):
        return f"{base}^({n})"

    slope_of = None

    def comp(self, x):
        x = lift(x)
        if x.sp:
            raise Unsupported("spline at infinity")
        if self.slope_of is not None and x.t.op != "num":
            p = self.slope_of.piece(x)
            if p is not None:
                d, (a, b, c, g) = p
                return npval(b + d * (2 * c + 3 * d * g))
        r = rt()
        for n in range(-3, 4):
            f = self.fname(self.base, n)
            if f not in r.rules:
                r.rules[f] = (lambda n: lambda args, j: tm.app(self.fname(self.base, n + 1), args[0]))(n)
        v = None
        if self.knots is not None and self.ordr == 0:
            if self.knots[0] == "gen":
                if r.norm().equal(x.t, self.knots[1].t):
                    v = self.knots[2]
            else:
                for a, b in self.knots[1]:
                    if x.t is a.t or ((x.t.op != "num" or a.t.op != "num") and r.norm().equal(x.t, a.t)):
                        v = b
                        break
        if v is None:
            if self.ordr < 0 and r.norm().equal(x.t, lift(self.x0).t):
                v = lift(0)
            else:
                v = SNp(tm.app(self.fname(self.base, self.ordr), x.t))
        if self.off is not None:
            v = v + self.off
        return npval(v)

    def __call__(self, x, nu=0, extrapolate=None):
        if nu:
            return self.derivative(nu)(x)
        if isinstance(x, (list, tuple)):
            x = as_arr(x)
        if isinstance(x, VArr):
            return VArr.of([self.comp(v) for v in x])
        if isinstance(x, GArr):
            return GArr(x.tag, self.comp(x.cell.v))
        # scipy returns a 0-d array for a scalar argument
        return GArr(TAG0, self.comp(x))

    def derivative(self, nu=1):
        if nu < 0:
            return self.antiderivative(-nu)
        if self.off is not None and nu == 0:
            raise Unsupported("derivative(0)")
        return Interp(None, None, _parent=(self.base, self.ordr + nu, self.x0))

    def antiderivative(self, nu=1):
        if self.off is not None:
            raise Unsupported("antiderivative of a shifted spline")
        if nu < 0:
            return self.derivative(-nu)
        return Interp(None, None, _parent=(self.base, self.ordr - nu, self.x0))

    def integrate(self, a, b, **k):
        A = self.antiderivative()
        return A(b) - A(a)


class Coef:
    """Coefficient array of a spline: only its constant row can be shifted."""
    def __init__(self, s):
        self.s = s

    @staticmethod
    def const_row(i):
        return i == -1 or (isinstance(i, tuple) and i[0] == -1 and all(
            (isinstance(k, slice) and k == slice(None)) or k is Ellipsis for k in i[1:]))

    def __getitem__(self, i):
        if self.const_row(i):
            return CoefRow(self.s, self.s.off if self.s.off is not None else lift(0))
        raise Unsupported("spline coefficients")

    def __setitem__(self, i, v):
        if self.const_row(i) and isinstance(v, CoefRow) and v.s is self.s:
            self.s.off = v.off
            return
        raise Unsupported("spline coefficients")


class CoefRow:
    def __init__(self, s, off):
        self.s, self.off = s, off

    def __add__(self, o):
        if isinstance(o, GArr) and o.tag.ndim == 0:
            o = o.cell.v
        return CoefRow(self.s, self.off + lift(o))
    __radd__ = __add__

    def __sub__(self, o):
        return CoefRow(self.s, self.off - lift(o))


class Pchip(Interp):
    """Also monotone between neighbouring points (scipy's documentation)."""

    def comp(self, x):
        v = super().comp(x)
        if self.knots is not None and self.knots[0] == "list" and self.ordr == 0 and v.t is not None \
                and v.t.op == "app" and not self.base.startswith("P_"):
            r = rt()
            x = lift(x)
            done = r.state.setdefault("pchip", set())
            if (self.base, x.t.id) not in done:
                done.add((self.base, x.t.id))
                for (a, p), (b, q) in zip(self.knots[1], self.knots[1][1:]):
                    if r.prove(SBool.conj([compare("<=", a, x), compare("<=", x, b)]), 1500)[0] == "proved":
                        for lo, hi in ((p, q), (q, p)):
                            if r.prove(compare("<=", lo, hi), 1500)[0] == "proved":
                                r.assume(compare("<=", lo, v))
                                r.assume(compare("<=", v, hi))
                        break
        return v


_PIECES = {}


def cubic_pieces(base, knots):
    """Coefficients of scipy's default (not-a-knot) cubic spline through a table of numbers, exactly."""
    if base in _PIECES:
        return _PIECES[base]
    x = [a.t.args[0] for a, _ in knots]
    y = [b.t.args[0] for _, b in knots]
    n = len(x)
    if n < 4:
        return None
    h = [x[i + 1] - x[i] for i in range(n - 1)]
    rows = []          # second derivatives M: row of {column: value}, right-hand side
    rows.append(({0: h[1], 1: -(h[0] + h[1]), 2: h[0]}, Fraction(0)))
    for i in range(1, n - 1):
        rows.append(({i - 1: h[i - 1], i: 2 * (h[i - 1] + h[i]), i + 1: h[i]},
                     6 * ((y[i + 1] - y[i]) / h[i] - (y[i] - y[i - 1]) / h[i - 1])))
    rows.append(({n - 3: h[-1], n - 2: -(h[-2] + h[-1]), n - 1: h[-2]}, Fraction(0)))
    for c in range(n):
        k = next(k for k in range(c, n) if rows[k][0].get(c))
        rows[c], rows[k] = rows[k], rows[c]
        pr, pv = rows[c]
        for k in range(n):
            if k != c and rows[k][0].get(c):
                f = rows[k][0][c] / pr[c]
                row = dict(rows[k][0])
                for j, v in pr.items():
                    row[j] = row.get(j, 0) - f * v
                rows[k] = ({j: v for j, v in row.items() if v and j != c}, rows[k][1] - f * pv)
    m = [rows[i][1] / rows[i][0][i] for i in range(n)]
    out = []
    for i in range(n - 1):
        out.append((y[i], (y[i + 1] - y[i]) / h[i] - h[i] * (2 * m[i] + m[i + 1]) / 6, m[i] / 2,
                    (m[i + 1] - m[i]) / (6 * h[i])))
    _PIECES[base] = (x, out)
    return _PIECES[base]


class CubicSplineM(Interp):
    """With e.exact_splines(): the polynomial of the piece, where x is known to be in one."""

    def __init__(self, x=None, y=None, axis=0, bc_type="not-a-knot", extrapolate=None, **k):
        super().__init__(x, y, **k)
        self.cubic = None
        if self.knots is not None and self.knots[0] == "list" and bc_type == "not-a-knot" and self.base.startswith("P_"):
            self.cubic = self.knots[1]

    def derivative(self, nu=1):
        d = super().derivative(nu)
        if nu == 1 and self.cubic is not None:
            d.slope_of = self
        return d

    def piece(self, x):
        r = rt()
        if self.cubic is None or not (r and r.state.get("exact_splines")):
            return None
        xs, cs = cubic_pieces(self.base, self.cubic) or (None, None)
        if xs is None:
            return None
        lo, hi = 0, len(cs)
        above = lambda k: r.prove(compare("<=", SReal(tm.num(xs[k])), x), 1000)[0] == "proved"
        below = lambda k: r.prove(compare("<=", x, SReal(tm.num(xs[k]))), 1000)[0] == "proved"
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if above(mid):
                lo = mid
            elif below(mid):
                hi = mid
            else:
                return None
        if not (above(lo) and below(hi)):
            return None
        return x - SReal(tm.num(xs[lo])), [SReal(tm.num(c)) for c in cs[lo]]

    def comp(self, x):
        x = lift(x)
        if self.ordr == 0 and not x.sp and x.t.op != "num":
            p = self.piece(x)
            if p is not None:
                d, (a, b, c, g) = p
                v = a + d * (b + d * (c + d * g))
                return npval(v if self.off is None else v + self.off)
        return super().comp(x)


def quad(f, a, b, *args, **k):
    if k.get("args") or args:
        raise Unsupported("quad arguments")
    r = rt()
    v = fresh_real("quad_arg")
    r.ranges[v.t.args[0]] = (0, 10)
    y = lift(f(v))
    if y.sp:
        raise Unsupported("infinite integrand")
    body = tm.subst(y.t, {v.t.args[0]: tm.var("ξ")})
    key = tm.pshow(dict(sorted(r.norm().nf(body).items(), key=lambda z: tm.monokey(z[0]))))
    ints = r.state.setdefault("integrals", {})
    name = None
    for n, bt in ints.items():
        if r.norm().equal(bt, body):
            name = n
    if name is None:
        name = f"Int{len(ints)}"
        ints[name] = body
    res = SReal(tm.app(name, lift(a).t, lift(b).t))
    r.state.setdefault("quads", []).append(dict(f=f, a=a, b=b, value=res))
    return (res, SReal(tm.num(Fraction(1, 10**10))))


def root_scalar(f, args=(), method=None, bracket=None, fprime=None, fprime2=None, x0=None, x1=None,
                xtol=None, rtol=None, maxiter=None, options=None):
    if args:
        raise Unsupported("root_scalar arguments")
    r = rt()
    pol = r.state.get("root_policy", "conv")
    root = fresh_real("root")
    rec = dict(f=f, bracket=bracket, root=root, method=method)
    r.state.setdefault("root_calls", []).append(rec)
    if pol != "conv":
        return Res(root=root, converged=False, flag="convergence error", iterations=1, function_calls=1)
    if bracket is not None:
        r.assume(compare("<=", lift(bracket[0]), root))
        r.assume(compare("<=", root, lift(bracket[1])))
    v = lift(f(root))
    r.assume(compare("==", v, 0))
    return Res(root=root, converged=True, flag="converged", iterations=1, function_calls=1)


class VFile:
    def __init__(self, lines):
        self.parts = list(list.__iter__(lines))
        self.i = 0

    def rest(self):
        r = SList()
        list.extend(r, self.parts[self.i:])
        self.i = len(self.parts)
        return r

    def readlines(self):
        return self.rest()

    def readline(self):
        if self.i < len(self.parts):
            self.i += 1
            p = self.parts[self.i - 1]
            if isinstance(p, Piece):
                raise Unsupported("one line out of a block")
            return p
        return ""

    def read(self):
        return seqs.s_join("", self.rest())

    def _vf_walk(self):
        return seqs.walk(self.rest())

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.parts):
            raise StopIteration
        return self.readline()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def s_open(name, *a, **k):
    vfs = rt().state.get("vfs", {})
    if str(name) in vfs:
        mode = a[0] if a else k.get("mode", "r")
        if mode not in ("r", "rt"):
            raise Unsupported("file mode " + mode)
        rt().state["served"] = rt().state.get("served", 0) + 1
        return VFile(vfs[str(name)])
    return open(name, *a, **k)


def s_abs(x):
    if isinstance(x, int) and not isinstance(x, SReal):
        return abs(x)
    return abs(x)


def s_sum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


def s_pow(a, b, *m):
    if m:
        return pow(a, b, *m)
    return r_pow(a, b)


def r_div(a, b):
    if type(a) in (int, bool) and type(b) in (int, bool):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return SReal(tm.num(Fraction(a, b)))
    if type(a) is float or type(b) is float:
        if is_scalar(a) and is_scalar(b):
            return arith("div", a, b)
    return a / b


def r_pow(a, b):
    if type(a) in (int, bool) and type(b) in (int, bool):
        if b >= 0:
            return a ** b
        return arith("pow", a, b)
    if type(a) is float or type(b) is float:
        if is_scalar(a) and is_scalar(b):
            return arith("pow", a, b)
    return a ** b


class FilesShim:
    def __init__(self, path):
        self.path = path

    def joinpath(self, *p):
        import os
        return FilesShim(os.path.join(self.path, *p))
    __truediv__ = joinpath

    def is_file(self):
        import os
        vfs = rt().state.get("vfs", {})
        return self.path in vfs or os.path.isfile(self.path)

    exists = is_file

    def open(self, *a, **k):
        return s_open(self.path, *a, **k)

    def read_text(self, *a, **k):
        with s_open(self.path) as f:
            return f.read()

    def __fspath__(self):
        return self.path

    def __str__(self):
        return self.path


def make_modules(repo):
    """Modules the code under verification may import."""
    npm = NumpyShim()
    npt = make_nptyping()
    npm.__dict__["typing"] = npt
    sci = types.ModuleType("scipy")
    integ = types.ModuleType("scipy.integrate")
    integ.solve_ivp = solve_ivp
    integ.quad = quad
    interp = types.ModuleType("scipy.interpolate")
    interp.PchipInterpolator = Pchip
    interp.CubicSpline = CubicSplineM
    opt = types.ModuleType("scipy.optimize")
    opt.root_scalar = root_scalar
    sci.integrate, sci.interpolate, sci.optimize = integ, interp, opt
    for m in (integ, interp, opt, sci):
        def ga(n, m=m):
            if n.startswith("__"):
                raise AttributeError(n)
            raise Unsupported(f"{m.__name__}.{n} is not modelled")
        m.__getattr__ = ga
    te = types.ModuleType("typing_extensions")
    import typing
    te.override = lambda f: f
    te.__getattr__ = lambda n: getattr(typing, n)
    res = types.ModuleType("importlib.resources")
    res.files = lambda pkg: FilesShim(repo + "/" + pkg.replace(".", "/"))
    il = types.ModuleType("importlib")
    il.resources = res
    return {"numpy": npm, "numpy.typing": npt, "scipy": sci, "scipy.integrate": integ,
            "scipy.interpolate": interp, "scipy.optimize": opt, "math": make_math(),
            "itertools": seqs.make_itertools(), "typing_extensions": te, "importlib.resources": res, "importlib": il}


def make_builtins():
    d = dict(vars(_b))
    d.update(float=Float, int=Int, len=seqs.s_len, range=seqs.s_range, sum=s_sum, pow=s_pow, open=s_open,
             list=List, tuple=Tuple, enumerate=seqs.s_enumerate, zip=seqs.s_zip, reversed=seqs.s_reversed,
             filter=seqs.s_filter, map=seqs.s_map, any=seqs.s_any, all=seqs.s_all)
    return d


sym.refuses(Res, [], ("t", "y", "sol", "t_events", "y_events", "nfev", "njev", "nlu", "status", "message", "success", "keys",
                      "items", "values", "converged", "root", "iterations", "function_calls", "flag", "method"))
sym.refuses(Ends, [sym._np.ndarray])
sym.refuses(EndsY, [sym._np.ndarray])
sym.refuses(OdeSol, [], ("ts", "t_min", "t_max", "interpolants", "n_segments", "side", "ts_sorted", "ascending"))
sym.refuses(Interp, [], ("c", "x", "k", "axis", "extrapolate", "derivative", "antiderivative", "integrate", "roots", "solve", "extend"))
sym.refuses(Coef, [sym._np.ndarray])
sym.refuses(CoefRow, [sym._np.ndarray])
import io as _io
import pathlib as _pl
sym.refuses(VFile, [_io.TextIOWrapper])
sym.refuses(FilesShim, [_pl.PosixPath])
