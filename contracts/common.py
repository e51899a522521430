# Shared helpers of the contract texts.

HEAD = "ibl.head_method"
THW = "ibl.thwaites_method"
IBLM = "ibl.ibl_method"
IC = "ibl.initial_condition"


def ask(m, x):
    """Every query of a solved method."""
    for q in ("u_e", "du_e", "d2u_e", "v_e", "delta_d", "delta_m", "delta_k", "shape_d", "shape_k"):
        getattr(m, q)(x)
    m.tau_w(x, 1.2)
    m.dissipation(x, 1.2)


def ask_similarity(s, x):
    """Every query of a similarity solution."""
    for q in ("u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s", "shape_d", "shape_k"):
        getattr(s, q)(x)
    s.tau_w(x, 1.2)
    s.dissipation(x, 1.2)
    for q in ("eta", "u", "v"):
        getattr(s, q)(x, 0.0)
    for q in ("f", "f_p", "f_pp"):
        getattr(s, q)(0.0)
    return s.fw_pp, s.eta_inf, s.eta_d, s.eta_m, s.eta_k, s.eta_s, getattr(s, "m", 0)


def history(e):
    return e.choice("history", ["new", "used with other settings"]) != "new"


def solved_before(e, m, head):
    """Solve with other settings and ask everything, so that nothing of it may be left over."""
    V = e.fn("V", 2, positive=True)
    e.ivp("end")
    x0 = e.real("earlier x0", span=(0.1, 1))
    z = e.real("earlier d0", gt=0, span=(1e-4, 1e-3))
    nu = m.nu
    m.set_velocity(*V)
    m.nu = e.real("earlier nu", gt=0, span=(1e-6, 1e-2))
    m.initial_delta_m = z
    e.requires(V[0](x0) > 0.01)
    if head:
        m.initial_shape_d = e.real("earlier H0", gt=1.2, lt=1.5)
    else:
        e.requires(abs(z**2 / m.nu * V[1](x0)) < 0.05)
    m.solve(x0, x0 + 0.1)
    ask(m, x0)
    m.nu = nu


def velocity_fns(e, positive=True, own=False):
    """The edge velocity and its derivatives; `own`: one function that is its own derivative (an exponential) and
    returns the very same object when asked again."""
    return [e.own_derivative("U")] * 3 if own else e.fn("U", 2, positive=positive)


def head_solved(e, events=None, nu=None, crit=None, positive=True, again=True, own=False):
    """HeadMethod with an arbitrary edge velocity, solved from x0 to x1."""
    M = e.mod(HEAD).HeadMethod
    U, dU, d2U = velocity_fns(e, positive, own)
    nu = e.real("nu", gt=0, span=(1e-6, 1e-2)) if nu is None else nu
    old = again and history(e)
    hm = M(nu=nu, U_e=U, dU_edx=dU, d2U_edx2=d2U) if crit is None else \
        M(nu=nu, U_e=U, dU_edx=dU, d2U_edx2=d2U, shape_d_crit=crit)
    x0 = e.real("x0", span=(0.1, 1))
    x1 = x0 + e.real("dx", gt=0, span=(0.2, 2))
    d0 = e.real("d0", gt=0, span=(1e-4, 1e-2))
    H0 = e.real("H0", gt=1.2, hi=2.3)
    if old:
        solved_before(e, hm, True)
        hm.set_velocity(U, dU, d2U)
    hm.initial_delta_m = d0
    hm.initial_shape_d = H0
    e.requires(U(x0) > 0.01)
    r = hm.solve(x0, x1) if events is None else hm.solve(x0, x1, events)
    call = e.calls[len(e.calls) - 1]
    return hm, call, (U, dU, d2U), nu, (x0, x1, d0, H0), r


def in_span(e, span, name="x", shapes=("scalar", "0d", "1d")):
    """A location strictly inside the interval of a solution."""
    x0, x1 = span[0], span[1]
    return e.point(name, shapes, gt=x0, lt=x1)


def lt_cf(Re, H):
    return 0.246 * 10**(-0.678 * H) * Re**(-0.268)


def head_H1(e, H):
    """Head's entrainment shape factor (published fit, made continuous)."""
    return e.where(H <= 1.6, 3.3 + 0.8234 / e.np.maximum(H - 1.1, 1e-9)**1.287,
                   3.32254659218600974 + 1.5501 / e.np.maximum(H - 0.6778, 1e-9)**3.064)


def head_H1_slope(e, H):
    return e.where(H <= 1.6, -0.8234 * 1.287 / e.np.maximum(H - 1.1, 1e-9)**2.287,
                   -1.5501 * 3.064 / e.np.maximum(H - 0.6778, 1e-9)**4.064)


ANA = "ibl.analytic"
# wall curvature of known profiles, to start bounded runs close to a solution
FPP = ((-0.19, 0.0857), (-0.15, 0.2164), (-0.1, 0.3193), (0, 0.4696), (0.2, 0.6867), (0.5, 0.9277), (1, 1.2326),
       (1.6, 1.5215), (2, 1.6872))


def near_fpp(b):
    for (a, p), (c, q) in zip(FPP, FPP[1:]):
        if b <= c:
            return p + (q - p) * max(b - a, -0.004) / (c - a)
    return FPP[-1][1]


def sim(e, which=("Blasius", "FalknerSkan"), lo=-0.19884, beta=None, lt=2, hi=None, again=True):
    """A similarity solution with explicitly given parameters.
    -> (solution, integrator call, beta, u_ref, nu, fw_pp, eta_inf)"""
    kind = e.choice("similarity", which) if len(which) > 1 else which[0]
    u_ref = e.real("u_ref", gt=0, span=(0.1, 100))
    nu = e.real("nu", gt=0, span=(1e-6, 1e-2))
    M = e.mod(ANA)
    if e.symbolic:
        if kind == "FalknerSkan" and beta is None:
            beta = e.real("beta", lo=lo, lt=lt, hi=hi)
        fpp = e.real("fw_pp", gt=0, span=(0.3, 2))
        eta = e.real("eta_inf", gt=0, span=(3, 8))
    else:
        e.ivp("real")
        if kind == "FalknerSkan" and beta is None:
            beta = e.real("beta", lo=lo, lt=lt, hi=hi, span=(-0.19, 1.8), special=(0.0, 1.0))
        fpp = near_fpp(beta if kind == "FalknerSkan" else 0) * e.real("fpp_factor", lo=0.999, hi=1.01)
        eta = e.real("eta_inf", gt=0, span=(4, 7))
    old = again and history(e)
    first = (e.real("earlier u_ref", gt=0, span=(0.1, 100)), e.real("earlier nu", gt=0, span=(1e-6, 1e-2))) if old \
        else (u_ref, nu)
    if kind == "Blasius":
        beta = 0
        s, ex = e.attempt(lambda: M.Blasius(*first, fw_pp=fpp, eta_inf=eta))
    else:
        s, ex = e.attempt(lambda: M.FalknerSkan(beta, *first, fw_pp=fpp, eta_inf=eta))
    if ex is None and e.symbolic:
        e.requires(s.eta_m > 0)
    if old and ex is None:
        ask_similarity(s, 1.0)
        s.u_ref, s.nu_ref = u_ref, nu
    if ex is not None:
        if not e.symbolic:
            e.requires(False)
        e.fail("accepted parameters are usable", str(ex))
        e.requires(False)
    return s, e.calls[len(e.calls) - 1], beta, u_ref, nu, fpp, eta


FITS = ("Spline", "White", "Cebeci-Bradshaw", "Drela")
FIT_RANGE = {"Spline": (-0.09, 0.25), "White": (-0.09, None), "Cebeci-Bradshaw": (-0.1, 0.1), "Drela": (-0.09, None),
             "user 3": (None, None), "user 2": (None, None)}
TAB_LAMBDA = (-0.090, -0.088, -0.086, -0.084, -0.080, -0.076, -0.072, -0.068, -0.064, -0.060, -0.056, -0.052, -0.048,
              -0.040, -0.032, -0.016, 0.0, 0.016, 0.032, 0.048, 0.064, 0.080, 0.100, 0.120, 0.140, 0.200, 0.250)
TAB_SHEAR = (0.000, 0.015, 0.027, 0.038, 0.056, 0.072, 0.085, 0.095, 0.104, 0.113, 0.122, 0.130, 0.138, 0.153, 0.168,
             0.195, 0.220, 0.244, 0.268, 0.291, 0.313, 0.333, 0.359, 0.382, 0.404, 0.463, 0.500)
TAB_SHAPE = (3.55, 3.49, 3.44, 3.39, 3.30, 3.22, 3.15, 3.09, 3.04, 2.99, 2.94, 2.90, 2.87, 2.81, 2.75, 2.67, 2.61, 2.55,
             2.49, 2.44, 2.39, 2.34, 2.28, 2.23, 2.18, 2.07, 2.00)


def fit_formula(e, name, lam):
    """Published shear and shape functions at a lambda inside the validity range."""
    if name == "White":
        z = 0.25 - lam
        return (lam + 0.09)**0.62, 2 + 4.14 * z - 83.5 * z**2 + 854 * z**3 - 3337 * z**4 + 4576 * z**5
    if name == "Cebeci-Bradshaw":
        # both branches are harmless where the other one holds
        S = e.where(lam < 0, 0.22 + 1.402 * lam + 0.018 * lam / (0.107 + abs(lam) * e.where(lam < 0, -1, 1)),
                    0.22 + 1.57 * lam - 1.8 * lam**2)
        H = e.where(lam < 0, 2.088 + 0.0731 / (0.14 + lam), 2.61 - 3.75 * lam + 5.24 * lam**2)
        return S, H
    if name == "Drela":
        return (0.22 + 1.52 * lam - 5 * lam**3 - 0.072 * (lam / (lam + 0.18))**2,
                2.61 - 4.1 * lam + 14 * lam**3 + 0.56 * (lam / (lam + 0.18))**2)


def thw_solved(e, kinds=("Linear", "Nonlinear"), fits=FITS + ("user 3", "user 2"), positive=True, again=True,
               own=False):
    """A Thwaites method with an arbitrary edge velocity, solved from x0 to x1.
    -> (method, call, (U, dU, d2U), nu, (x0, x1, d0), (kind, fit, S, H, dH))"""
    kind = e.choice("kind", kinds) if len(kinds) > 1 else kinds[0]
    fit = e.choice("fit", fits) if len(fits) > 1 else fits[0]
    M = getattr(e.mod(THW), "ThwaitesMethod" + kind)
    U, dU, d2U = velocity_fns(e, positive, own)
    nu = e.real("nu", gt=0, span=(1e-6, 1e-2))
    S = H = dH = None
    arg = fit
    if fit not in FITS:
        S, dS = e.fn("Sfit", 1)
        H, dH = e.fn("Hfit", 1)
        arg = (S, H, dH) if fit == "user 3" else (S, H)
    if again and history(e):
        tm = M(nu=nu, data_fits="White")
        solved_before(e, tm, False)
        tm.set_velocity(U, dU, d2U)
        tm.set_data_fits(arg)
    else:
        tm = M(nu=nu, U_e=U, dU_edx=dU, d2U_edx2=d2U, data_fits=arg)
    x0 = e.real("x0", span=(0.1, 1))
    x1 = x0 + e.real("dx", gt=0, span=(0.2, 2))
    d0 = e.real("d0", gt=0, span=(1e-4, 1e-1))
    tm.initial_delta_m = d0
    e.requires(U(x0) > 0.01)
    tm.solve(x0, x1)
    return tm, e.calls[len(e.calls) - 1], (U, dU, d2U), nu, (x0, x1, d0), (kind, fit, S, H, dH)


def thw_state(e, call, x, du, fit, inside=True, margin=0):
    """A positive state at x, with lambda inside the range of the fit."""
    z, = e.state(call, x, dict(gt=0, span=(1e-3, 0.1)))
    lam = z * du
    if inside:
        lo, hi = FIT_RANGE[fit]
        if lo is not None:
            e.requires(lam > lo + margin)
        if hi is not None:
            e.requires(lam < hi - margin)
    return z, lam


def interval(e, bothways=True, tag=""):
    """Where a solve starts and ends; it may run towards smaller x."""
    x0 = e.real("x0" + tag, span=(0.1, 1))
    dx = e.real("dx" + tag, gt=0, span=(0.2, 2))
    if bothways and e.choice("towards" + tag, ["larger x", "smaller x"]) == "smaller x":
        dx = -dx if e.symbolic else -dx / 4
    return x0, x0 + dx


def ready(e, kinds=("Head", "Linear", "Nonlinear"), fits=("White", "user 3"), bothways=False):
    """A configured method that was not solved yet.
    -> (method, kind, (U, dU, d2U), nu, x0, x1, d0, H0)"""
    kind = e.choice("kind", kinds) if len(kinds) > 1 else kinds[0]
    U, dU, d2U = e.fn("U", 2)
    nu = e.real("nu", gt=0, span=(1e-6, 1e-2))
    x0, x1 = interval(e, bothways)
    d0 = e.real("d0", gt=0, span=(1e-4, 1e-2))
    H0 = e.real("H0", gt=1.2, hi=2.3)
    e.requires(U(x0) > 0.01)
    if kind == "Head":
        m = e.mod(HEAD).HeadMethod(nu, U, dU, d2U)
        m.initial_delta_m = d0
        m.initial_shape_d = H0
    else:
        fit = e.choice("fit", fits) if len(fits) > 1 else fits[0]
        if fit.startswith("user"):
            S, H, dH = e.fn("Sfit", 1)[0], *e.fn("Hfit", 1)
            fit = (S, H, dH)
        m = getattr(e.mod(THW), "ThwaitesMethod" + kind)(nu, U, dU, d2U, data_fits=fit)
        m.initial_delta_m = d0
    return m, kind, (U, dU, d2U), nu, x0, x1, d0, H0


def user_event(e, name, reason="TRANSITIONED", text="", terminal=True):
    """A termination event of the caller."""
    M = e.mod(IBLM)
    a = e.real(name, span=(0.5, 3))

    class Event(M.TermEvent):
        def _call_impl(self, x, f):
            return x - a

        def event_info(self):
            return getattr(M.TermReason, reason), text
    ev = Event()
    if not terminal:
        ev.terminal = False
    return ev


QUERIES = ("v_e", "delta_d", "delta_m", "shape_d", "shape_k")


def no_answers(e, m, x=1.0, what=""):
    for nm in QUERIES:
        e.raises(nm + " not available" + what, ValueError, lambda: getattr(m, nm)(x))
    e.raises("tau_w not available" + what, ValueError, lambda: m.tau_w(x, 1.2))


# ------------------------------------------------------------- XFoil dump files
XR = "ibl.reference._xfoil_reader"
XD = "ibl.reference._xfoil_data"
FIELDS = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d", "shape_k",
          "mom_defect", "mass_defect", "ke_defect")
WAKE_FIELDS = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "shape_d")
FLIPPED = ("u_e_rel", "mass_defect", "ke_defect")
HEADER = "#" + "    s        x        y     Ue/Vinf    Dstar     Theta      Cf       H       H*        P         m          K          tau         Di" + "\n"


def airfoil_row(e, tag, **u):
    """A row of the airfoil part as a dictionary; u: bounds of velocity (u_) and arc-length (s_)."""
    b = {k: v for k, v in u.items() if k in ("s_lo", "s_hi", "s_gt")}
    s = dict(lo=b.get("s_lo", 0 if "s_gt" not in b else None), hi=b.get("s_hi"), gt=b.get("s_gt"))
    s = {k: v for k, v in s.items() if v is not None}
    if not e.symbolic:
        a = s.get("lo", s.get("gt", 0))
        s["span"] = (a + (0.01 if "gt" in s else 0), s.get("hi", a + 2))
    r = {"s": e.real(tag + "_s", **s)}
    r["x"] = e.real(tag + "_x", span=(-0.1, 1.1))
    r["y"] = e.real(tag + "_y", span=(-0.2, 0.2))
    r["u_e_rel"] = e.real(tag + "_u", **u.get("vel", dict(span=(-1.5, 1.5))))
    for k in ("delta_d", "delta_m", "c_f"):
        r[k] = e.real(tag + "_" + k, lo=0, span=(0, 0.1))
    for k in ("shape_d", "shape_k"):
        r[k] = e.real(tag + "_" + k, gt=0, span=(1.2, 3))
    for k in ("mom_defect", "mass_defect", "ke_defect"):
        r[k] = e.real(tag + "_" + k, span=(-0.1, 0.1))
    return r


def wake_row(e, tag, s_lo):
    r = {"s": e.real(tag + "_s", lo=s_lo, span=(s_lo, 4) if e.symbolic is False else (1, 4))}
    r["x"] = e.real(tag + "_x", span=(1, 3))
    r["y"] = e.real(tag + "_y", span=(-0.2, 0.2))
    r["u_e_rel"] = e.real(tag + "_u", span=(0, 1.5))
    for k in ("delta_d", "delta_m"):
        r[k] = e.real(tag + "_" + k, lo=0, span=(0, 0.1))
    r["c_f"] = e.real(tag + "_c_f", span=(0, 0.1))
    r["shape_d"] = e.real(tag + "_shape_d", gt=0, span=(1.2, 3))
    return {k: e.brief(v) for k, v in r.items()}


def airfoil_line(e, r):
    return e.row([r[k] for k in FIELDS], 115)


def wake_line(e, r):
    return e.row([r[k] for k in ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d")], 78)


def dump(e, exact=None, wake=None, header=None, name="dump.txt", tag="", brief=False):
    """A dump file with any number of rows: (file name, upper rows, last upper, first lower, lower rows, wake)."""
    exact = e.choice("row at stagnation", [False, True]) if exact is None else exact
    last = airfoil_row(e, tag + "last", vel=dict(lo=0, hi=0) if exact else dict(gt=0, span=(0.01, 1)))
    up = e.rows(tag + "upper", lambda j: airfoil_row(e, tag + "up", s_hi=last["s"], vel=dict(lo=0, span=(0, 1.5))), brief)
    first = airfoil_row(e, tag + "first", s_gt=last["s"], vel=dict(lt=0, span=(-1, -0.01)))
    low = e.rows(tag + "lower", lambda j: airfoil_row(e, tag + "lo", s_lo=first["s"]), brief)
    wakes = []
    if wake is not False and (wake or e.choice("wake", [False, True])):
        w0 = wake_row(e, tag + "wake0", 0)
        wakes = [w0] + e.rows(tag + "wake", lambda j: wake_row(e, tag + "wk", w0["s"]), brief)
    lines = e.texts(e.lines(up + [last, first] + low, lambda r: airfoil_line(e, r)),
                    e.lines(wakes, lambda r: wake_line(e, r)))
    if header or header is None and e.choice("header", [False, True]):
        lines = e.texts(HEADER, lines)
    return e.file(name, lines), up, last, first, low, wakes


def stagnation(up, lo):
    """The row interpolated between the last upper and first lower row (reported signs)."""
    lo = {k: -lo[k] if k in FLIPPED else lo[k] for k in FIELDS}
    f = up["u_e_rel"] / (up["u_e_rel"] + lo["u_e_rel"])
    p = {k: f * lo[k] + (1 - f) * up[k] for k in FIELDS}
    p["u_e_rel"] = 0
    return p


# ---------------------------------------------------- Stanford Olympics 1968
SO = "ibl.reference._stanford_1968"
SS = "ibl.reference._stanford_1968_station"
SUMM = ("x", "u_e", "du_e", "delta_m", "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt", "c_f_exp", "beta_eq")
STAT = ("x", "u_star", "u_e", "nu", "delta_m", "delta_d", "delta_k", "delta_c", "shape_d", "shape_eq", "shape_k",
        "re_delta_m", "re_delta_d")
SAMPLE = ("y_plus", "u_plus", "y", "u", "y_c", "u_defect")
UNITS = {"SI": dict(x=1, u=1, theta=1e-2, nu=1e-4), "English": dict(x=0.3048, u=0.3048, theta=0.0254, nu=0.3048**2)}
KIND = {"x": "x", "u_e": "u", "u_star": "u", "delta_m": "theta", "delta_d": "theta", "delta_k": "theta",
        "delta_c": "theta", "nu": "nu", "y": "theta"}


def si(units, k, v):
    """The recorded number v of column k in SI units."""
    return v * UNITS[units][KIND[k]] if k in KIND else v


def summary_row(e, tag):
    """What a row of the summary records, in its own units."""
    r = {k: e.real(f"{tag}_{k}", span=(-3, 3)) for k in ("du_e", "c_f_lt", "c_f_exp", "beta_eq")}
    r["x"] = e.real(tag + "_x", lo=0, hi=100, span=(0.5, 20))
    r["u_e"] = e.real(tag + "_u_e", lo=1, hi=1000, span=(10, 100))
    r["delta_m"] = e.real(tag + "_delta_m", lo=0.01, hi=100, span=(0.1, 1))
    for k in ("shape_d", "shape_k"):
        r[k] = e.real(f"{tag}_{k}", gt=1, hi=10, span=(1.2, 2))
    r["shape_eq"] = e.real(tag + "_shape_eq", gt=1, hi=100, span=(5, 10))
    r["c_f"] = e.real(tag + "_c_f", lo=1e-4, hi=0.1, span=(0.001, 0.01))
    return r


TOL = dict(x=2e-3, u_e=6e-2, delta_m=2e-3, shape_d=2e-3, shape_k=2e-3, shape_eq=2e-3, delta_d=5e-3, delta_k=5e-3,
           re_delta_d=5, re_delta_m=5, u_star=5e-3)
SAMPLE_TOL = dict(y_plus=1.0, y_c=0.5, u_plus=0.5, u_defect=0.5)


def deviation(e, name, tol, far):
    """A disagreement within the tolerance, or beyond it."""
    if not far:
        return e.real(name, lo=-0.999 * tol, hi=0.999 * tol)
    d = e.real(name, lo=1.001 * tol, hi=10 * tol)
    return d if e.choice("sign", ["more", "less"]) == "more" else -d


def station_row(e, tag, units, s, wrong=None):
    """What the station's summary records, in SI units; wrong: the column that disagrees."""
    w = {k: si(units, k, s[k]) for k in SUMM}
    r = {}
    dev = {k: deviation(e, f"{tag}_{k}_off", t, k == wrong) for k, t in TOL.items()}
    if units == "SI":
        r["nu"] = e.real(tag + "_nu", lo=1e-6, hi=1e-3, span=(1e-5, 1e-4))
    else:
        r["nu"] = e.real(tag + "_nu", lo=1e-6, hi=1e-3, span=(1e-5, 1e-4))
    r["delta_c"] = e.real(tag + "_delta_c", lo=1e-3, hi=10, span=(0.01, 1))
    for k in ("x", "u_e", "delta_m", "shape_d", "shape_k", "shape_eq"):
        r[k] = w[k] + dev[k]
    r["delta_d"] = w["shape_d"] * w["delta_m"] + dev["delta_d"]
    r["delta_k"] = w["shape_k"] * w["delta_m"] + dev["delta_k"]
    r["u_star"] = w["u_e"] * e.np.sqrt(0.5 * w["c_f"]) + dev["u_star"]
    r["re_delta_d"] = w["u_e"] * r["delta_d"] / r["nu"] + dev["re_delta_d"]
    r["re_delta_m"] = w["u_e"] * r["delta_m"] / r["nu"] + dev["re_delta_m"]
    for k in ("delta_m", "delta_d", "delta_k", "shape_d", "shape_k", "u_star", "re_delta_d", "re_delta_m", "u_e"):
        e.requires(r[k] > 0)
    return r


def recorded(units, k, v):
    """The number recorded for the SI value v of column k."""
    return v / UNITS[units][KIND[k]] if k in KIND else v


def sample_row(e, tag, units, t, wrong=None):
    """A sample of the profile of a station with the (SI) values t."""
    y = e.real(tag + "_y", lo=0, hi=1, span=(1e-4, 0.02))
    q = e.real(tag + "_ratio", lo=0, hi=2, span=(0.3, 1))
    u = q * t["u_e"]
    dev = {k: deviation(e, f"{tag}_{k}_off", tol, k == wrong) for k, tol in SAMPLE_TOL.items()}
    r = dict(y=y, ratio=q, u=u, y_plus=y * t["u_star"] / t["nu"] + dev["y_plus"], y_c=y / t["delta_c"] + dev["y_c"],
             u_plus=u / t["u_star"] + dev["u_plus"], u_defect=(t["u_e"] - u) / t["u_star"] + dev["u_defect"])
    return r


def summary_line(e, s):
    return e.row([s[k] for k in SUMM])


def station_line(e, units, r):
    return e.row([recorded(units, k, r[k]) for k in STAT])


def sample_line(e, units, r):
    return e.row([r["y_plus"], r["u_plus"], recorded(units, "y", r["y"]), r["ratio"], r["y_c"], r["u_defect"]])


def smooth_line(e, s):
    return e.row([s[k] for k in ("x", "u_e", "du_e")])


def smooth_row(e, tag):
    return dict(x=e.real(tag + "_x", span=(0, 20)), u_e=e.real(tag + "_u", span=(1, 100)), du_e=e.real(tag + "_du", span=(-5, 5)))


def case_lines(e, case, nu, summary, smooth, stations=None, samples=None, blank=("\n",)):
    """The lines of a case file; each argument already as lines."""
    out = ["# A title\n", f"IDENT = {case}\n", "V = " + e.numeral(nu) + "\n"] + list(blank)
    out += ["# Summary data\n", "# X  UI\n", summary] + list(blank)
    out += ["# Edge velocity plot\n", "# X  UI  DUI\n", smooth] + list(blank)
    if stations is not None:
        out += ["# Stations summary\n", "# X  US\n", stations] + list(blank)
    for k, s in enumerate(samples or []):
        out += [f"# Station {k + 1} data\n", "# Y+  U+\n", s] + list(blank)
    return e.texts(*out)


def new_params(e, b):
    """Solution parameters for another wedge."""
    if e.symbolic:
        return dict(eta_inf=e.real("eta_inf2", gt=0), fw_pp=e.real("fw_pp2", gt=0))
    return dict(eta_inf=e.real("eta_inf2", lo=4, hi=5), fw_pp=near_fpp(b) * 1.005)


def usable(e, thunk):
    """Bounded runs: values for which no profile exists are not what is tested."""
    r, ex = e.attempt(thunk)
    if ex is not None:
        if not e.symbolic:
            e.requires(False)
        e.fail("accepted", str(ex))
        e.requires(False)
    return r
