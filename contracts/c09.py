# Transpiration velocity is the slope of the mass defect.


@contract("ibl.head_method:HeadMethod.v_e", "ibl.head_method:HeadMethod.delta_d",
          "ibl.head_method:HeadMethod._ode_impl")
def head(e):
    hm, call, (U, dU, d2U), nu, span, r = head_solved(e)
    x = in_span(e, span, shapes=("scalar",))
    e.state(call, x, dict(gt=0, span=(1e-4, 1e-1)), dict(gt=1.12, span=(1.12, 3)))
    e.requires(U(x) > 0.01)
    e.eq("v_e = d(u_e delta_d)/dx", hm.v_e(x), e.D(lambda t: hm.u_e(t) * hm.delta_d(t), x), tol=1e-5, shape=False,
         scale=abs(U(x)))


@contract("ibl.thwaites_method:ThwaitesMethod.v_e", "ibl.thwaites_method:ThwaitesMethod.delta_d",
          "ibl.thwaites_method:ThwaitesMethod._ode_impl", "ibl.thwaites_method:_ThwaitesFunctions.shape_p")
def thwaites(e):
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e, fits=FITS + ("user 3",))
    x = in_span(e, span, shapes=("scalar",))
    u, du = U(x), dU(x)
    e.requires(u > 0.01)
    z, lam = thw_state(e, call, x, du, fit, margin=0.0001)
    if fit == "Cebeci-Bradshaw":
        e.requires(lam != 0)
    e.eq("v_e = d(u_e delta_d)/dx", tm.v_e(x), e.D(lambda t: tm.u_e(t) * tm.delta_d(t), x), tol=1e-4, shape=False,
         scale=abs(u) + abs(du))


@contract("ibl.analytic._analytic_2d_base:Analytic2dSimilarityIncompressible.v_e",
          "ibl.analytic._analytic_2d_base:Analytic2dSimilarityIncompressible.delta_d",
          "ibl.analytic._blasius:Blasius._g", "ibl.analytic._falkner_skan:FalknerSkan._g")
def similarity(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    x = e.real("x", gt=0, span=(0.01, 10))
    e.eq("v_e = d(u_e delta_d)/dx", s.v_e(x), e.D(lambda t: s.u_e(t) * s.delta_d(t), x), tol=1e-5, shape=False)
    if hasattr(s, "reset_beta") and e.choice("then", ["nothing", "reset"]) == "reset":
        b2 = e.real("beta2", lo=-0.19884, lt=2, span=(-0.19, 1.8))
        if e.symbolic:
            s.reset_beta(b2, eta_inf=e.real("eta_inf2", gt=0), fw_pp=e.real("fw_pp2", gt=0))
        else:
            r, ex = e.attempt(lambda: s.reset_beta(b2, eta_inf=e.real("eta_inf2", lo=4, hi=5), fw_pp=near_fpp(b2) * 1.005))
            e.requires(ex is None)
        e.eq("v_e after reset", s.v_e(x), e.D(lambda t: s.u_e(t) * s.delta_d(t), x), tol=1e-5, shape=False)


@contract("ibl.head_method:HeadMethod.v_e", "ibl.thwaites_method:ThwaitesMethod.v_e", "ibl.ibl_method:IBLMethod.set_velocity")
def one_function(e):
    """An exponential edge velocity given as one function for all three, which stores what it returned."""
    if e.choice("method", ["Head", "Thwaites"]) == "Head":
        m, call, (U, _, _), nu, span, r = head_solved(e, again=False, own=True)
        x = in_span(e, span)
        e.state(call, x, dict(gt=0, span=(1e-4, 1e-1)), dict(gt=1.12, span=(1.12, 3)))
    else:
        m, call, (U, _, _), nu, span, fits = thw_solved(e, fits=("White", "user 3"), again=False, own=True)
        x = in_span(e, span)
        thw_state(e, call, x, U(x), fits[1], margin=0.0001)
    e.requires(U(x) > 0.01)
    e.eq("v_e = d(u_e delta_d)/dx", m.v_e(x), e.D(lambda t: m.u_e(t) * m.delta_d(t), x), tol=1e-4, shape=False,
         scale=abs(U(x)))
