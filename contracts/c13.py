# The similarity solutions as solutions of the boundary layer equations.
A = "ibl.analytic._analytic_2d_base:Analytic2dSimilarityIncompressible."
G = ("ibl.analytic._blasius:Blasius._g", "ibl.analytic._falkner_skan:FalknerSkan._g", A + "eta", A + "u_e")


def reset(e, s):
    """Sometimes another wedge, viscosity or velocity before asking."""
    then = e.choice("then", ["nothing", "parameters", "wedge"] if hasattr(s, "reset_beta") else ["nothing", "parameters"])
    if then == "parameters":
        s.u_ref = e.real("u_ref2", gt=0, span=(0.1, 100))
        s.nu_ref = e.real("nu2", gt=0, span=(1e-6, 1e-2))
    elif then == "wedge":
        b2 = e.real("beta2", lo=-0.19884, lt=2, span=(-0.19, 1.8))
        if e.symbolic:
            s.reset_beta(b2, eta_inf=e.real("eta_inf2", gt=0), fw_pp=e.real("fw_pp2", gt=0))
        else:
            r, ex = e.attempt(lambda: s.reset_beta(b2, eta_inf=e.real("eta_inf2", lo=4, hi=5), fw_pp=near_fpp(b2) * 1.005))
            e.requires(ex is None)


def place(e, s):
    x = e.real("x", gt=0, span=(0.05, 5))
    g = s.eta(x, 1.0)
    if e.symbolic:
        y = e.real("y", gt=0)
    else:
        y = float(e.real("eta", gt=0.1, lt=3.5) / g)
        e.requires(y * g < 0.95 * s.eta_inf)
    return x, y, g


@contract(*G, A + "u", A + "v")
def continuity(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    reset(e, s)
    x, y, g = place(e, s)
    e.eq("du/dx + dv/dy = 0", e.D(lambda t: s.u(t, y), x), -e.D(lambda t: s.v(x, t), y), shape=False, tol=1e-4,
         scale=s.u_e(x) / x)


@contract(*G, A + "u", A + "v", A + "f", A + "f_p", A + "f_pp")
def momentum(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    reset(e, s)
    x, y, g = place(e, s)
    u, v, ue = s.u(x, y), s.v(x, y), s.u_e(x)
    uyy = e.D(lambda t: s.u(x, t), y, 2) if e.symbolic else e.D(lambda t: ue * g * s.f_pp(s.eta(x, t)), y)
    e.eq("u u_x + v u_y = u_e u_e' + nu u_yy",
         u * e.D(lambda t: s.u(t, y), x) + v * e.D(lambda t: s.u(x, t), y),
         ue * e.D(lambda t: s.u_e(t), x) + s.nu_ref * uyy, shape=False, tol=2e-3, scale=ue**2 / x)


@contract(*G, A + "u", A + "v")
def wall(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    reset(e, s)
    x = e.real("x", gt=0, span=(0.05, 5))
    e.eq("u = 0", s.u(x, 0), 0, shape=False, abstol=1e-12)
    e.eq("v = 0", s.v(x, 0), 0, shape=False, abstol=1e-12)


@contract(*G, A + "u", A + "tau_w", A + "fw_pp")
def wall_shear(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    reset(e, s)
    x, y, g = place(e, s)
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    ue = s.u_e(x)
    e.eq("du/dy", e.D(lambda t: s.u(x, t), y), ue * g * s.f_pp(s.eta(x, y)), shape=False, tol=1e-3, scale=ue * g)
    e.eq("rho nu du/dy at the wall", s.tau_w(x, rho), rho * s.nu_ref * ue * g * s.f_pp(0.0), shape=False)


@contract(*G, A + "delta_d", A + "delta_m", A + "shape_d", A + "tau_w", A + "set_solution_parameters")
def momentum_integral(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    reset(e, s)
    x = e.real("x", gt=0, span=(0.05, 5))
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    ue = s.u_e(x)
    e.requires(s.eta_m > 0)
    e.eq("momentum integral equation",
         e.D(lambda t: s.u_e(t)**2 * s.delta_m(t), x) + ue * s.delta_d(x) * e.D(lambda t: s.u_e(t), x), s.tau_w(x, rho) / rho,
         shape=False, tol=1e-5)


@contract(*G, A + "delta_k", A + "dissipation")
def energy_integral(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    reset(e, s)
    x = e.real("x", gt=0, span=(0.05, 5))
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    e.eq("kinetic energy integral equation", e.D(lambda t: s.u_e(t)**3 * s.delta_k(t), x), 2 * s.dissipation(x, rho) / rho,
         shape=False, tol=1e-5)


@contract(*G, A + "v_e", A + "delta_d")
def transpiration(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    reset(e, s)
    x = e.real("x", gt=0, span=(0.05, 5))
    e.eq("v_e = d(u_e delta_d)/dx", s.v_e(x), e.D(lambda t: s.u_e(t) * s.delta_d(t), x), shape=False, tol=1e-5)


@contract(*G, A + "delta_s", A + "u")
def shear_thickness(e):
    """delta_s is where the profile reaches 0.99 of the edge velocity."""
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    reset(e, s)
    x = e.real("x", gt=0, span=(0.05, 5))
    e.eq("u(delta_s) = 0.99 u_e", s.u(x, s.delta_s(x)), 0.99 * s.u_e(x), shape=False, tol=1e-6)
