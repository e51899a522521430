# Arrays and scalars.
T = "ibl.thwaites_method:ThwaitesMethod."
H_ = "ibl.head_method:HeadMethod."
B = "ibl.ibl_method:IBLMethod."
A = "ibl.analytic._analytic_2d_base:Analytic2dSimilarityIncompressible."
METHOD = ("v_e", "delta_d", "delta_m", "delta_k", "shape_d", "shape_k", "tau_w", "dissipation")
SUBJ = tuple(T + q for q in METHOD) + tuple(H_ + q for q in METHOD) + (B + "u_e", B + "du_e", B + "d2u_e")
MIXED = ("0d", "1d", "list of two", "integers", "list of three")
FLOATS = ("0d", "1d", "list of two", "list of three")


def stack(e, xs):
    return e.vec(*xs)


def agrees(e, name, f, form, xs, abstol=0.0):
    """f of an array against f of each location by itself (abstol: rounding of differencing in runs)."""
    if form in ("0d", "1d", "2d"):
        nd = dict([("0d", 0), ("1d", 1), ("2d", 2)])[form]
        X = e.spread(xs[0], nd)
        v = f(X)
        e.same_shape(name + " shape", v, X)
        e.eq(name, e.elem(v), e.item(f(xs[0])), shape=False, abstol=abstol)
        return
    v = f(column(e, form, xs))
    e.eq(name + " length", e.np.shape(v), (len(xs),))
    for k, x in enumerate(xs):
        e.eq(f"{name} [{k}]", v[k], e.item(f(x)), shape=False, abstol=abstol)
        if form == "integers":
            e.eq(f"{name} [{k}] (as a real number)", v[k], e.item(f(e.inexact(x))), shape=False, abstol=abstol)
    e.eq(name + " of a number", e.np.ndim(f(xs[0])), 0)


def number(e, form):
    """How locations are made: whole ones for arrays of integers."""
    return e.whole if form == "integers" else e.real


def column(e, form, xs):
    return e.ivec(*xs) if form == "integers" else stack(e, xs)


def count(form):
    return {"list of two": 2, "integers": 2, "list of three": 3}.get(form, 1)


@contract(*SUBJ)
def head(e):
    hm, call, (U, dU, d2U), nu, span, r = head_solved(e, positive=False, again=False)
    q = e.choice("query", METHOD + ("u_e", "du_e", "d2u_e"))
    form = e.choice("form", MIXED if q not in ("v_e", "tau_w") else MIXED[:4])
    xs = []
    for k in range(count(form)):
        x = number(e, form)(f"x{k}", gt=span[0], lt=span[1], span=span[:2])
        d, H = e.state(call, x, dict(gt=0, span=(1e-4, 1e-1)), dict(span=(1.0, 3.5)))
        # both sides of the limits of velocity and shape factor
        side = e.choice(f"side {k}", ["inside", "slow", "low H"]) if q in ("v_e", "tau_w") else "any"
        if side != "any":
            e.requires(U(x) > 0.001 if side != "slow" else U(x) < 0.001)
            e.requires(U(x) > -0.001)
            e.requires(H > 1.12 if side != "low H" else H < 1.05)
        if side == "inside" and e.symbolic and q == "v_e":
            b = e.choice(f"branch {k}", ["below", "above"])
            e.requires(H < 1.6 if b == "below" else H > 1.6)
        xs.append(x)
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    f = getattr(hm, q)
    agrees(e, q, (lambda x: f(x, rho)) if q in ("tau_w", "dissipation") else f, form, xs)


@contract(*SUBJ, weight=2)
def thwaites(e):
    q = e.choice("query", METHOD)
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(
        e, kinds=("Nonlinear",) if q != "v_e" else ("Linear", "Nonlinear"), again=False)
    form = e.choice("form", MIXED[:4])
    if count(form) > 1 and q in ("delta_k", "shape_k", "dissipation", "delta_m"):
        e.requires(fit == "White")
    xs = []
    lo, hi = FIT_RANGE[fit]
    for k in range(count(form)):
        x = number(e, form)(f"x{k}", gt=span[0], lt=span[1], span=span[:2])
        z, = e.state(call, x, dict(gt=0, span=(1e-3, 0.1)))
        lam = z * dU(x)
        if q == "v_e":
            e.requires(U(x) >= 0)
        opts = ["inside"] + (["below"] if lo is not None else []) + (["above"] if hi is not None else [])
        if q in ("shape_d", "delta_d", "tau_w", "v_e") and len(opts) > 1:
            side = e.choice(f"side {k}", opts)
            if side == "below":
                e.requires(lam < lo)
            elif lo is not None:
                e.requires(lam > lo)
            if side == "above":
                e.requires(lam > hi)
            elif hi is not None:
                e.requires(lam < hi)
            if side == "inside" and fit == "Cebeci-Bradshaw":
                e.requires(lam < 0 if e.choice(f"branch {k}", [0, 1]) else lam >= 0)
        xs.append(x)
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    f = getattr(tm, q)
    agrees(e, q, (lambda x: f(x, rho)) if q in ("tau_w", "dissipation") else f, form, xs)


@contract(B + "set_velocity", B + "u_e", B + "du_e", B + "d2u_e")
def velocities(e):
    """Edge velocity in every way of giving it."""
    how = e.choice("velocity", ["callables", "two callables", "one callable", "table", "start and slopes"])
    M = e.mod(HEAD).HeadMethod
    if "callable" in how:
        U = e.fn("U", 2)
        m = M(1.0, *U[:{"callables": 3, "two callables": 2, "one callable": 1}[how]])
    else:
        xs, ys, a, b, x0 = e.table("t")
        m = M(1.0, (xs, ys)) if how == "table" else M(1.0, e.real("start"), (xs, ys))
    q = e.choice("query", ["u_e", "du_e", "d2u_e"])
    form = e.choice("form", MIXED)
    x = [number(e, form)(f"x{k}", span=(0.2, 2)) for k in range(count(form))]
    agrees(e, q, getattr(m, q), form, x,
           abstol={"u_e": 0, "du_e": 1e-8, "d2u_e": 1e-3}[q] if "callable" in how else 0)


SIMQ = ("u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s", "shape_d", "shape_k", "tau_w", "dissipation")


@contract(*(A + q for q in SIMQ + ("f", "f_p", "f_pp")))
def similarity(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, again=False)
    q = e.choice("query", SIMQ + ("f", "f_p", "f_pp"))
    # the profile itself is stored for locations on a line only
    form = e.choice("form", MIXED[:4] + (("2d",) if q in SIMQ else ()))
    e.requires(s.eta_m > 0)
    x = [number(e, form)(f"x{k}", gt=0, span=(0.01, 4 if form != "integers" else 9)) for k in range(count(form))]
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    if q in ("f", "f_p", "f_pp"):
        for k, v in enumerate(x):
            if e.choice(f"side {k}", ["inside", "beyond"]) == "inside":
                e.requires(v < s.eta_inf)
            elif form == "integers":
                e.requires(v > s.eta_inf)
            else:
                x[k] = v + s.eta_inf
    f = getattr(s, q)
    agrees(e, q, (lambda t: f(t, rho)) if q in ("tau_w", "dissipation") else f, form, x)


@contract(*(A + q for q in ("eta", "u", "v")))
def similarity_points(e):
    """Functions of both coordinates; either may be an array."""
    s, call, beta, u_ref, nu, fpp, eta = sim(e, again=False)
    name = e.choice("query", ["eta", "u", "v"])
    q = getattr(s, name)
    form = e.choice("form", MIXED[:4] + (("2d",) if name == "eta" else ()))
    arrays = e.choice("arrays", ["both", "x only", "y only"])
    n = count(form)
    x = [number(e, form)(f"x{k}", gt=0, span=(0.01, 10)) for k in range(n)]
    y = [e.real(f"y{k}", lo=0, span=(0, 0.1)) for k in range(n)]
    if n == 1:
        nd = dict([("0d", 0), ("1d", 1), ("2d", 2)])[form]
        X = e.spread(x[0], nd)
        Y = e.spread(y[0], nd, like=X) if arrays != "y only" else e.spread(y[0], nd)
        v = q(X if arrays != "y only" else x[0], Y if arrays != "x only" else y[0])
        e.same_shape("shape", v, X if arrays != "y only" else Y)
        e.eq("value", e.elem(v), e.item(q(x[0], y[0])), shape=False)
        return
    v = q(column(e, form, x) if arrays != "y only" else x[0], e.vec(*y) if arrays != "x only" else y[0])
    e.eq("length", e.np.shape(v), (n,))
    for k in range(n):
        if form == "integers":
            e.eq(f"value [{k}] (as a real number)", v[k], e.item(
                q(e.inexact(x[k] if arrays != "y only" else x[0]), y[k] if arrays != "x only" else y[0])), shape=False)
        e.eq(f"value [{k}]", v[k], e.item(q(x[k] if arrays != "y only" else x[0], y[k] if arrays != "x only" else y[0])),
             shape=False)


@contract("ibl.skin_friction:ludwieg_tillman", "ibl.skin_friction:felsch", "ibl.skin_friction:white")
def friction(e):
    law = e.choice("law", ["ludwieg_tillman", "felsch", "white"])
    f = getattr(e.mod("ibl.skin_friction"), law)
    form = e.choice("form", MIXED + ("2d",))
    arrays = e.choice("arrays", ["both", "Re only", "H only"])
    n = count(form)
    R = [number(e, form)(f"Re{k}", gt=1, span=(2, 1e5)) for k in range(n)]
    H = []
    for k in range(n):
        h = e.real(f"H{k}", gt=0, span=(0.5, 3.5))
        if law == "felsch":
            s = e.choice(f"side {k}", ["low", "mid", "high"])
            e.requires(h < 1 if s == "low" else h > 3.1 if s == "high" else h > 1)
            if s == "mid":
                e.requires(h < 2.99)
        H.append(h)
    if n == 1:
        nd = dict([("0d", 0), ("1d", 1), ("2d", 2)])[form]
        X = e.spread(R[0], nd)
        Y = e.spread(H[0], nd, like=X) if arrays != "H only" else e.spread(H[0], nd)
        v = f(X if arrays != "H only" else R[0], Y if arrays != "Re only" else H[0])
        e.same_shape("shape", v, X if arrays != "H only" else Y)
        e.eq("value", e.elem(v), e.item(f(R[0], H[0])), shape=False)
        return
    v = f(column(e, form, R) if arrays != "H only" else R[0], e.vec(*H) if arrays != "Re only" else H[0])
    e.eq("length", e.np.shape(v), (n,))
    for k in range(n):
        if form == "integers":
            e.eq(f"value [{k}] (as a real number)", v[k], e.item(
                f(e.inexact(R[k] if arrays != "H only" else R[0]), H[k] if arrays != "Re only" else H[0])), shape=False)
        e.eq(f"value [{k}]", v[k], e.item(f(R[k] if arrays != "H only" else R[0], H[k] if arrays != "Re only" else H[0])),
             shape=False)


CL = ("_shape_entrainment", "_shape_entrainment_p", "_shape_d", "_entrainment_velocity")


@contract(*(H_ + q for q in CL))
def head_closures(e):
    q = e.choice("function", CL)
    form = e.choice("form", FLOATS + ("2d",))
    f = e.get(e.mod(HEAD).HeadMethod, q)
    n = count(form)
    a = []
    for k in range(n):
        v = e.real(f"a{k}", span=(1.0, 9))
        if q == "_shape_d":
            b = e.choice(f"side {k}", ["limit", "high branch", "low branch"])
            e.requires(v < 3 if b == "limit" else v > 3.4 if b == "high branch" else v > 5.4 if b == "low branch" else True)
            if b == "high branch":
                e.requires(v < 5.2)
        elif q == "_entrainment_velocity":
            e.requires(v > 3.01 if e.choice(f"side {k}", [0, 1]) else v < 2.9)
        else:
            b = e.choice(f"side {k}", ["limit", "low", "high"])
            e.requires(v < 1.05 if b == "limit" else v > 1.12)
            if b == "low":
                e.requires(v < 1.6)
            elif b == "high":
                e.requires(v > 1.6)
        a.append(v)
    if q == "_entrainment_velocity":
        g = f
        f = lambda v: g(e.np.array(v)) if e.np.ndim(v) == 0 else g(v)
    h = (lambda v: f(e.np.array(v))) if q != "_entrainment_velocity" else f
    agrees(e, q, h, form, a)


@contract("ibl.thwaites_method:_ThwaitesFunctions.shear", "ibl.thwaites_method:_ThwaitesFunctions.shape",
          "ibl.thwaites_method:_ThwaitesFunctions.shape_p", "ibl.thwaites_method:_ThwaitesFunctions._check_range")
def data_fits(e):
    fit = e.choice("fit", FITS)
    q = e.choice("function", ["shear", "shape", "shape_p", "f"])
    form = e.choice("form", FLOATS + ("2d",))
    m = e.get(e.mod(THW).ThwaitesMethodLinear(data_fits=fit), "_model")
    lo, hi = FIT_RANGE[fit]
    n = count(form)
    lam = []
    for k in range(n):
        v = e.real(f"lam{k}", span=(-0.15, 0.3))
        s = e.choice(f"side {k}", ["inside", "below"] + (["above"] if hi is not None else []))
        e.requires(v < lo if s == "below" else v > lo)
        if hi is not None:
            e.requires(v > hi if s == "above" else v < hi)
        if s == "inside" and fit == "Cebeci-Bradshaw":
            e.requires(v < 0 if e.choice(f"branch {k}", [0, 1]) else v >= 0)
        lam.append(v)
    agrees(e, q, getattr(m, q), form, lam)
