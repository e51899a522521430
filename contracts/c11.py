# Data fits of Thwaites' methods.
F = "ibl.thwaites_method:_ThwaitesFunctions"
SUBJ = (F + ".shear", F + ".shape", F + ".shape_p", F + "._check_range", F + "White.__init__",
        F + "CebeciBradshaw.__init__", F + "Drela.__init__", F + "Spline.__init__",
        "ibl.thwaites_method:ThwaitesMethod.set_data_fits")
SHAPES = ("scalar", "0d", "1d", "2d")
FORMULA = ("White", "Cebeci-Bradshaw", "Drela")
KINDS = ("ThwaitesMethodLinear", "ThwaitesMethodNonlinear")


def method(e, fits):
    kind = e.choice("kind", KINDS)
    how = e.choice("set by", ["constructor", "setter"])
    M = getattr(e.mod(THW), kind)
    if how == "constructor":
        return M(data_fits=fits)
    tm = M(data_fits="White" if fits != "White" else "Drela")
    tm.set_data_fits(fits)
    return tm


def model(e, fits):
    return e.get(method(e, fits), "_model")


def inside(e, fit, shapes=SHAPES, eps=0.0):
    lo, hi = FIT_RANGE[fit]
    if fit == "Cebeci-Bradshaw":
        b = e.choice("branch", ["negative", "positive", "ends"])
        if b == "negative":
            return e.point("lam", shapes, gt=-0.1, lt=0, span=(-0.1, 0))
        if b == "positive":
            return e.point("lam", shapes, gt=0, lt=0.1, span=(0, 0.1))
        return e.const_point("lam", e.choice("at", [-0.1, 0, 0.1]), shapes)
    if hi is None:
        return e.point("lam", shapes, lo=lo + eps, span=(lo + eps, 0.3))
    return e.point("lam", shapes, lo=lo + eps, hi=hi)


@contract(*SUBJ)
def published_formula(e):
    fit = e.choice("fit", FORMULA)
    m = model(e, fit)
    lam = inside(e, fit)
    s, h = fit_formula(e, fit, lam)
    e.eq("shear function", m.shear(lam), s, abstol=1e-12)
    e.eq("shape function", m.shape(lam), h)


@contract(*SUBJ)
def published_formula_reported(e):
    """The same through the public queries of a solution."""
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e, fits=FORMULA)
    x = in_span(e, span, shapes=("scalar",))
    z, lam = thw_state(e, call, x, dU(x), fit)
    s, h = fit_formula(e, fit, lam)
    e.eq("shape function", tm.shape_d(x), h, shape=False)
    e.eq("shear function", tm.tau_w(x, 1.0) * tm.delta_m(x), s * nu * U(x), shape=False, abstol=1e-12)


@contract(*SUBJ)
def published_table(e):
    m = model(e, "Spline")
    k = e.choice("knot", range(len(TAB_LAMBDA)))
    lam = e.const_point("lam", TAB_LAMBDA[k], ("scalar", "1d"))
    e.eq("shear table", m.shear(lam), 0 * lam + TAB_SHEAR[k], abstol=1e-12)
    e.eq("shape table", m.shape(lam), 0 * lam + TAB_SHAPE[k])


@contract(*SUBJ)
def table_is_interpolated_smoothly(e):
    """Between neighbouring entries both stay within the table's next neighbours."""
    e.exact_splines()
    m = model(e, "Spline")
    k = e.choice("interval", range(len(TAB_LAMBDA) - 1))
    lam = e.real("lam", lo=TAB_LAMBDA[k], hi=TAB_LAMBDA[k + 1])
    j, n = max(k - 1, 0), min(k + 2, len(TAB_LAMBDA) - 1)
    e.le("shear not below", TAB_SHEAR[j] - 0.002, m.shear(lam))
    e.le("shear not above", m.shear(lam), TAB_SHEAR[n] + 0.002)
    e.le("shape not above", m.shape(lam), TAB_SHAPE[j] + 0.002)
    e.le("shape not below", TAB_SHAPE[n] - 0.002, m.shape(lam))


@contract(*SUBJ)
def slope(e):
    fit = e.choice("fit", FITS)
    m = model(e, fit)
    lo, hi = FIT_RANGE[fit]
    if fit == "Cebeci-Bradshaw" and e.choice("branch", [0, 1]) == 0:
        lam = e.real("lam", gt=-0.1, lt=0)
    elif fit == "Cebeci-Bradshaw":
        lam = e.real("lam", gt=0, lt=0.1)
    else:
        lam = e.real("lam", gt=lo, lt=hi, span=(lo + 0.001, 0.249))
    e.eq("exact slope", m.shape_p(lam), e.D(m.shape, lam), tol=1e-5, shape=False, scale=10)


@contract(*SUBJ)
def slope_shape(e):
    fit = e.choice("fit", FITS)
    m = model(e, fit)
    lam = inside(e, fit, eps=0.001)
    e.same_shape("shape of the slope", m.shape_p(lam), lam)


@contract(*SUBJ)
def clamped(e):
    fit = e.choice("fit", FITS)
    m = model(e, fit)
    lo, hi = FIT_RANGE[fit]
    if hi is not None and e.choice("side", ["low", "high"]) == "high":
        lam = e.point("lam", SHAPES, gt=hi, span=(hi, 2))
        end = hi
    else:
        lam = e.point("lam", SHAPES, lt=lo, span=(-2, lo))
        end = lo
    c = e.np.array(end)
    e.eq("shear keeps the end value", m.shear(lam), 0 * lam + m.shear(c), abstol=1e-12)
    e.eq("shape keeps the end value", m.shape(lam), 0 * lam + m.shape(c))
    if fit == "Spline":
        k = 0 if end < 0 else len(TAB_LAMBDA) - 1
        s, h = TAB_SHEAR[k], TAB_SHAPE[k]
    else:
        s, h = fit_formula(e, fit, c)
    e.eq("end value of the shear", m.shear(c), s, shape=False, abstol=1e-12)
    e.eq("end value of the shape", m.shape(c), h, shape=False)


@contract(*SUBJ)
def clamped_next_to_others(e):
    """Arrays with elements on every side of the range."""
    fit = e.choice("fit", FITS)
    m = model(e, fit)
    lo, hi = FIT_RANGE[fit]
    below, inside = e.real("below", lt=lo, span=(-2, lo)), e.real("inside", gt=0.034, lt=0.047)
    above = e.real("above", gt=hi, span=(hi, 2)) if hi is not None else None
    pick = e.choice("elements", ["below, inside", "inside, below"] + ["below, above", "above, below", "inside, above", "all"] * (hi is not None))
    at = {"below": (below, lo), "inside": (inside, inside), "above": (above, hi)}
    xs = [at[k] for k in (["below", "inside", "above"] if pick == "all" else pick.split(", "))]
    for nm in ("shear", "shape"):
        f = getattr(m, nm)
        v = f(e.vec(*[x for x, c in xs]))
        e.eq(nm + " length", e.np.shape(v), (len(xs),))
        for k, (x, c) in enumerate(xs):
            e.eq(f"{nm} [{k}]", v[k], e.item(f(e.np.array(c))), shape=False, abstol=1e-12)


@contract(*SUBJ)
def user_functions(e):
    """Given functions are used as given for every lambda."""
    S, dS = e.fn("Sfit", 1)
    H, dH = e.fn("Hfit", 1)
    three = e.choice("given", ["three", "two"]) == "three"
    m = model(e, (S, H, dH) if three else (S, H))
    lam = e.point("lam", SHAPES, span=(-2, 2))
    e.eq("shear", m.shear(lam), S(lam))
    e.eq("shape", m.shape(lam), H(lam))
    if three:
        e.eq("slope", m.shape_p(lam), dH(lam))
    else:
        e.same_shape("slope", m.shape_p(lam), lam)


@contract(*SUBJ)
def user_shape_differenced(e):
    c = [e.real(f"c{k}", span=(-3, 3)) for k in range(5)]
    deg = e.choice("degree", range(5))
    c = c[:deg + 1]

    def H(t):
        r = 0 * t
        for a in reversed(c):
            r = r * t + a
        return r
    m = model(e, (lambda t: t + 1, H))
    lam = e.point("lam", SHAPES, span=(-0.5, 0.5))
    p = 0 * lam
    for k in range(deg, 0, -1):
        p = p * lam + k * c[k]
    e.eq("slope of a polynomial shape", m.shape_p(lam), p, abstol=1e-8)


@contract(*SUBJ)
def later_fits_replace(e):
    """A replaced two function fit differences its own shape function only."""
    S, dS = e.fn("Sfit", 1)
    a = e.real("a", span=(-3, 3))
    tm = getattr(e.mod(THW), e.choice("kind", KINDS))(data_fits=(S, lambda t: 2 + a * t))
    tm.set_data_fits(e.choice("fit", FITS))
    b = e.real("b", span=(-3, 3))
    tm.set_data_fits((S, lambda t: 1 + b * t))
    lam = e.real("lam", span=(-0.5, 0.5))
    e.eq("slope", e.get(tm, "_model").shape_p(lam), b, shape=False, abstol=1e-8)


BAD = ("unknown name", "empty name", "one function", "two, first bad", "two, second bad", "three, first bad",
       "three, second bad", "three, third bad", "four", "list", "nothing", "number", "empty", "function", "case")


def bad_fits(which, f):
    return {"unknown name": "Thwaites", "empty name": "", "one function": (f,), "two, first bad": (1.0, f),
            "two, second bad": (f, "x"), "three, first bad": (1.0, f, f), "three, second bad": (f, 2.0, f),
            "three, third bad": (f, f, 3.0), "four": (f, f, f, f), "list": [f, f], "nothing": None, "number": 1.0,
            "empty": (), "function": f, "case": "white"}[which]


@contract("ibl.thwaites_method:ThwaitesMethod.set_data_fits")
def refused(e):
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e)
    x = in_span(e, span, shapes=("scalar",))
    z, lam = thw_state(e, call, x, dU(x), fit)
    before = (tm.shape_d(x), tm.tau_w(x, 1.0))
    which = e.choice("bad", BAD)
    e.raises("unusable fits", ValueError, lambda: tm.set_data_fits(bad_fits(which, lambda t: t)))
    e.eq("shape function in force", tm.shape_d(x), before[0])
    e.eq("shear function in force", tm.tau_w(x, 1.0), before[1])
    r, ex = e.attempt(lambda: tm.solve(span[0], span[1]))
    again = e.calls[len(e.calls) - 1]
    e.eq("same number of events", len(again.events), len(call.events))
    for a, b in zip(again.events, call.events):
        e.same("same criterion", a, b)


@contract("ibl.thwaites_method:ThwaitesMethod.__init__")
def refused_by_constructor(e):
    M = getattr(e.mod(THW), e.choice("kind", KINDS))
    which = e.choice("bad", BAD)
    e.raises("unusable fits", ValueError, lambda: M(data_fits=bad_fits(which, lambda t: t)))
