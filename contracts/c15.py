# Wedge parameters of the Falkner-Skan solution.
SUBJ = ("ibl.analytic._falkner_skan:FalknerSkan.m", "ibl.analytic._falkner_skan:FalknerSkan.beta",
        "ibl.analytic._falkner_skan:FalknerSkan.reset_beta", "ibl.analytic._falkner_skan:FalknerSkan.reset_m")
FS = ("FalknerSkan",)


@contract(*SUBJ, "ibl.analytic._falkner_skan:FalknerSkan.__init__")
def m_of_beta(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, FS)
    e.eq("beta", s.beta, beta)
    e.eq("m", s.m, beta / (2 - beta))


@contract(*SUBJ)
def reset_beta(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, FS)
    b2 = e.real("beta2", lo=-0.19884, lt=2, span=(-0.19, 1.8), special=(0.0, 1.0))
    usable(e, lambda: s.reset_beta(b2, **new_params(e, b2)))
    e.eq("beta", s.beta, b2)
    e.eq("m", s.m, b2 / (2 - b2))


@contract(*SUBJ)
def reset_m(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, FS)
    m = e.real("m", lo=-0.0904, span=(-0.0904, 5), special=(0.0, 1.0))
    b2 = 2 * m / (1 + m)
    usable(e, lambda: s.reset_m(m, **new_params(e, b2)))
    e.eq("beta", s.beta, b2)
    e.eq("m is read back", s.m, m)


@contract(*SUBJ)
def inverse(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, FS)
    p = new_params(e, beta)
    usable(e, lambda: s.reset_m(s.m, **p))
    e.eq("beta recovered", s.beta, beta, abstol=1e-12)


@contract(*SUBJ)
def infinite(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, FS)
    how = e.choice("how", ["m", "beta", "constructor"])
    p = new_params(e, 2)
    if how == "m":
        usable(e, lambda: s.reset_m(e.np.inf, **p))
    elif how == "beta":
        usable(e, lambda: s.reset_beta(2.0, **p))
    else:
        s = usable(e, lambda: e.mod(ANA).FalknerSkan(2.0, u_ref, nu, **p))
    e.eq("beta", s.beta, 2.0)
    e.eq("m", s.m, e.np.inf)


def facts(s, q):
    return [s.beta, s.m, s.eta_inf, s.fw_pp, s.eta_d, s.eta_m, s.eta_k, s.eta_s, s.f(q), s.f_p(q), s.f_pp(q)]


@contract(*SUBJ)
def refused(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, FS)
    q = eta * e.real("q", gt=0, lt=1)
    before = facts(s, q)
    n = len(e.calls)
    side = e.choice("value", ["low", "high", "m low", "m -1", "m below -1", "-inf"])
    if side == "low":
        b = e.real("bad", lt=-0.19884, span=(-3, -0.2))
        e.raises("beta too small", ValueError, lambda: s.reset_beta(b))
    elif side == "high":
        b = e.real("bad", gt=2, span=(2, 5))
        e.raises("beta too large", ValueError, lambda: s.reset_beta(b))
    elif side == "m low":
        b = e.real("bad", gt=-1, lt=-0.09043, span=(-0.99, -0.0905))
        e.raises("m without a wedge", ValueError, lambda: s.reset_m(b))
    elif side == "m -1":
        e.raises("m = -1", ValueError, lambda: s.reset_m(-1.0))
    elif side == "m below -1":
        b = e.real("bad", lt=-1, span=(-50, -1))
        e.raises("m without a wedge", ValueError, lambda: s.reset_m(b))
    else:
        e.raises("m = -inf", ValueError, lambda: s.reset_m(-e.np.inf))
    for k, (a, b) in enumerate(zip(before, facts(s, q))):
        e.eq(f"unchanged[{k}]", b, a)


@contract("ibl.analytic._falkner_skan:FalknerSkan.__init__")
def refused_by_constructor(e):
    M = e.mod(ANA).FalknerSkan
    b = e.real("bad", lt=-0.19884, span=(-3, -0.2)) if e.choice("side", [0, 1]) == 0 else e.real("bad", gt=2, span=(2, 5))
    e.raises("beta out of range", ValueError, lambda: M(b, 1.0, 1.0))


@contract("ibl.analytic._analytic_2d_base:Analytic2dSimilarityIncompressible.u_e")
def edge_velocity(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    x = e.point("x", ("scalar", "0d", "1d", "2d"), gt=0, span=(0.01, 10))
    e.eq("u_ref x^m", s.u_e(x), u_ref * x**(beta / (2 - beta)))
    if e.choice("then", ["nothing", "reset"]) == "reset" and hasattr(s, "reset_beta"):
        b2 = e.real("beta2", lo=-0.19884, lt=2, span=(-0.19, 1.8))
        usable(e, lambda: s.reset_beta(b2, **new_params(e, b2)))
        e.eq("u_ref x^m after reset", s.u_e(x), u_ref * x**(b2 / (2 - b2)))
