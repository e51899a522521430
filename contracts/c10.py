# Thwaites' equation and the quantities reported from its solution.
T = "ibl.thwaites_method:ThwaitesMethod."
ODE = (T + "_ode_impl", T + "_calc_lambda", "ibl.thwaites_method:ThwaitesMethodLinear._calc_f",
       "ibl.thwaites_method:ThwaitesMethodNonlinear._calc_f", "ibl.thwaites_method:_ThwaitesFunctions.f")
FORMULA = ("White", "Cebeci-Bradshaw", "Drela", "user 3", "user 2")


def SH(e, fit, S, H, lam):
    return (S(lam), H(lam)) if S is not None else fit_formula(e, fit, lam)


def velocity_form(e, tm, U, dU, d2U):
    form = e.choice("velocity result", ["number", "array"])
    if form == "array":
        tm.set_velocity(lambda t: e.np.asarray(U(t)), lambda t: e.np.asarray(dU(t)), d2U)


def rhs(e, call, x, z):
    return e.np.atleast_1d(call.fun(x, e.np.array([z])))[0]


@contract(*ODE)
def linear(e):
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e, ("Linear",))
    x = e.real("x", span=(0.1, 3))
    z = e.real("z", gt=0, span=(1e-3, 0.1))
    e.requires(U(x) > 0)
    velocity_form(e, tm, U, dU, d2U)
    e.eq("Thwaites' equation", rhs(e, call, x, z) * (U(x) + 0.001), 0.45 - 6 * (z * dU(x)), shape=False)


@contract(*ODE)
def nonlinear(e):
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e, ("Nonlinear",), FORMULA)
    x = e.real("x", span=(0.1, 3))
    z = e.real("z", gt=0, span=(1e-3, 0.1))
    e.requires(U(x) > 0)
    velocity_form(e, tm, U, dU, d2U)
    lam = z * dU(x)
    lo, hi = FIT_RANGE[fit]
    c = lam
    if lo is not None and e.choice("side", ["inside", "below"]) == "below":
        e.requires(lam < lo)
        c = 0 * lam + lo
    elif lo is not None:
        e.requires(lam > lo)
    if hi is not None and e.choice("upper side", ["inside", "above"]) == "above":
        e.requires(lam > hi)
        c = 0 * lam + hi
    elif hi is not None:
        e.requires(lam < hi)
    s, h = SH(e, fit, S, H, c)
    e.eq("Thwaites' equation", rhs(e, call, x, z) * (U(x) + 0.001), 2 * (s - lam * (h + 2)), shape=False,
         scale=abs(s) + abs(lam * (h + 2)), tol=1e-6)


@contract(T + "delta_m", T + "delta_d", T + "tau_w", T + "shape_d")
def reported(e):
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e, fits=FORMULA)
    x = in_span(e, span)
    z, lam = thw_state(e, call, x, dU(x), fit)
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    s, h = SH(e, fit, S, H, lam)
    dm = e.np.sqrt(nu * z)
    e.eq("delta_m", tm.delta_m(x), dm)
    e.eq("shape_d", tm.shape_d(x), h)
    e.eq("delta_d", tm.delta_d(x), dm * h)
    e.eq("wall shear", tm.tau_w(x, rho), rho * nu * U(x) * s / dm)


@contract(*ODE, T + "delta_m", T + "tau_w", T + "shape_d")
def momentum_integral(e):
    """The nonlinear method in reported quantities only."""
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e, ("Nonlinear",))
    x = in_span(e, span, shapes=("scalar",))
    u, du = U(x), dU(x)
    e.requires(u > 0.01)
    z, lam = thw_state(e, call, x, du, fit, margin=0.0001)
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    dm, h = tm.delta_m(x), tm.shape_d(x)
    e.eq("momentum integral equation", e.D(tm.delta_m, x) * (u + 0.001) / u,
         tm.tau_w(x, rho) / (rho * u**2) - dm * (2 + h) * du / u, shape=False, tol=1e-5,
         scale=abs(dm * (2 + h) * du / u) + abs(dm))


@contract(*ODE, T + "_ode_setup")
def start(e):
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e)
    e.eq("state", len(call.y0), 1)
    e.eq("starts from momentum thickness squared over viscosity", call.y0[0], span[2]**2 / nu, shape=False)
    e.eq("delta_m at the start", tm.delta_m(span[0]), span[2], shape=False)
