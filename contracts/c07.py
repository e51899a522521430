# Head's method: the equations it integrates and the shear it reports.


@contract("ibl.head_method:HeadMethod._ode_impl", "ibl.head_method:HeadMethod._shape_entrainment",
          "ibl.head_method:HeadMethod._shape_entrainment_p", "ibl.head_method:HeadMethod._entrainment_velocity",
          "ibl.skin_friction:ludwieg_tillman")
def head_equations(e):
    hm, call, (U, dU, d2U), nu, span, r = head_solved(e)
    x = e.real("x", span=(0.1, 3))
    d = e.real("d", gt=0, span=(1e-4, 1e-1))
    H = e.real("H", lo=1.11, span=(1.11, 3.5), special=(1.6,))
    u, du = U(x), dU(x)
    e.requires(u >= 0.001)
    form = e.choice("velocity result", ["number", "array"])
    if form == "array":
        hm.set_velocity(lambda t: e.np.asarray(U(t)), lambda t: e.np.asarray(dU(t)), d2U)
    y = call.fun(x, e.np.array([d, H]))
    e.eq("two slopes", len(y), 2)
    d_p, H_p = y[0], y[1]
    cf = lt_cf(u * d / nu, H)
    e.eq("momentum integral equation", d_p, cf / 2 - d * (2 + H) * du / u, shape=False)
    H1 = head_H1(e, H)
    e.eq("entrainment equation", du * d * H1 + u * d_p * H1 + u * d * head_H1_slope(e, H) * H_p,
         0.0306 * u * (H1 - 3)**(-0.6169), shape=False, tol=1e-6,
         scale=abs(du * d * H1) + abs(u * d_p * H1) + abs(u))


@contract("ibl.head_method:HeadMethod._ode_impl")
def contract_formulas(e):
    """The slope used in these contracts is the derivative of H1."""
    H = e.real("H", gt=1.101, lt=1.6) if e.choice("branch", [0, 1]) == 0 else e.real("H", gt=1.6, hi=20)
    e.eq("slope of H1", e.D(lambda h: head_H1(e, h), H), head_H1_slope(e, H), tol=1e-5, shape=False)


@contract("ibl.head_method:HeadMethod.tau_w", "ibl.skin_friction:ludwieg_tillman")
def head_wall_shear(e):
    hm, call, (U, dU, d2U), nu, span, r = head_solved(e)
    x = in_span(e, span)
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    d, H = e.state(call, x, dict(gt=0, span=(1e-4, 1e-1)), dict(lo=1.11, span=(1.11, 3.5)))
    u = U(x)
    e.requires(u >= 0.001)
    t = hm.tau_w(x, rho)
    e.eq("wall shear", t, 0.5 * rho * u**2 * lt_cf(u * d / nu, H))
