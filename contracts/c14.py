# Dimensionless profile, its integrals, and the search for its parameters.
A = "ibl.analytic._analytic_2d_base:Analytic2dSimilarityIncompressible."
SET = (A + "set_solution_parameters", A + "_calculate_solution")


def check_profile(e, s, call, beta, fpp, eta):
    """The integrator call that produced the profile."""
    q = [e.real(n, span=(-2, 2)) for n in ("f0", "f1", "f2")]
    t = e.real("t", span=(0, 6))
    y = call.fun(t, e.np.array(q))
    e.eq("three equations", len(y), 3)
    e.eq("f' = f'", y[0], q[1], shape=False)
    e.eq("f'' = f''", y[1], q[2], shape=False)
    e.eq("f''' + f f'' + beta (1 - f'^2) = 0", y[2], -(q[0] * q[2] + beta * (1 - q[1]**2)), shape=False, abstol=1e-12)
    e.eq("starts at the wall", call.t0, 0, shape=False)
    e.eq("ends at eta_inf", call.t1, eta, shape=False)
    e.eq("f(0) = 0", call.y0[0], 0, shape=False)
    e.eq("f'(0) = 0", call.y0[1], 0, shape=False)
    e.eq("f''(0) = fw_pp", call.y0[2], fpp, shape=False)


@contract(*SET, A + "f", A + "f_p", A + "f_pp", A + "fw_pp", A + "eta_inf")
def given_parameters(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    e.eq("one integration", len(e.calls), 1)
    e.eq("eta_inf as given", s.eta_inf, eta)
    e.eq("fw_pp as given", s.fw_pp, fpp)
    check_profile(e, s, call, beta, fpp, eta)
    x = e.point("x", ("scalar", "0d", "1d"), gt=0, lt=eta)
    e.same_shape("shape", s.f(x), x)
    if e.symbolic:
        v = call.sol(x)
        for k, g in enumerate((s.f, s.f_p, s.f_pp)):
            e.eq(f"profile[{k}]", g(x), v[k])


@contract(*SET, A + "f", A + "f_p", A + "f_pp", A + "fw_pp", A + "eta_inf", "ibl.analytic._falkner_skan:FalknerSkan.reset_beta",
          "ibl.analytic._falkner_skan:FalknerSkan.reset_m")
def given_later(e):
    """Parameters given to a solution that already has a profile."""
    how = e.choice("by", ["set_solution_parameters", "reset_beta", "reset_m"])
    s, call, beta, u_ref, nu, fpp, eta = sim(e, ("Blasius", "FalknerSkan") if how[0] == "s" else ("FalknerSkan",))
    b2 = beta
    if how != "set_solution_parameters":
        b2 = e.real("beta2", lo=-0.19884, lt=2, span=(-0.19, 1.8), special=(0.0, 1.0))
        e.requires(b2 != beta)
    kw = new_params(e, b2)
    same = e.choice("parameters", ["as before", "other eta_inf", "other fw_pp", "others"])
    if same in ("as before", "other fw_pp"):
        kw["eta_inf"] = eta
    else:
        e.requires(kw["eta_inf"] != eta)
    if same in ("as before", "other eta_inf"):
        kw["fw_pp"] = fpp
    else:
        e.requires(kw["fw_pp"] != fpp)
    n = len(e.calls)
    if how == "set_solution_parameters":
        usable(e, lambda: s.set_solution_parameters(**kw))
    elif how == "reset_beta":
        usable(e, lambda: s.reset_beta(b2, **kw))
    else:
        usable(e, lambda: s.reset_m(b2 / (2 - b2), **kw))
    e.eq("eta_inf as given", s.eta_inf, kw["eta_inf"])
    e.eq("fw_pp as given", s.fw_pp, kw["fw_pp"])
    if how == "set_solution_parameters" and same == "as before":
        n = 0
    e.true("integrated", len(e.calls) > n)
    if len(e.calls) <= n:
        return
    call = e.calls[len(e.calls) - 1]
    check_profile(e, s, call, b2, kw["fw_pp"], kw["eta_inf"])
    x = e.real("x", gt=0, lt=kw["eta_inf"], span=(0, kw["eta_inf"]))
    v = call.sol(x)
    for k, g in enumerate((s.f, s.f_p, s.f_pp)):
        e.eq(f"profile[{k}]", e.item(g(x)), v[k], shape=False)
    if e.symbolic:
        e.eq("eta_d", s.eta_d, kw["eta_inf"] - call.sol(kw["eta_inf"])[0])


@contract("ibl.analytic._blasius:Blasius.__init__", *SET)
def blasius_defaults(e):
    e.ivp("end" if e.symbolic else "real")
    u = e.real("u_ref", gt=0, span=(0.1, 100))
    nu = e.real("nu", gt=0, span=(1e-6, 1e-2))
    s, ex = e.attempt(lambda: e.mod(ANA).Blasius(u, nu))
    e.true("usable", ex is None)
    call = e.calls[len(e.calls) - 1]
    e.close("fw_pp", s.fw_pp, 0.46960, 1e-5)
    e.eq("default fw_pp", s.fw_pp, s.fw_pp_default)
    e.eq("default eta_inf", s.eta_inf, s.eta_inf_default)
    check_profile(e, s, call, 0, s.fw_pp, s.eta_inf)


BL = ("ibl.analytic._blasius:Blasius.__init__", *SET)
FS = ("ibl.analytic._falkner_skan:FalknerSkan.__init__", *SET)


def wedge(e):
    return e.real("beta", lo=-0.19884, hi=2, span=(-0.18, 2), special=(0.0, 1.0))


# One of the two given: it is used, the other one is searched for.
@contract(*BL, trials=10, strict=False)
def blasius_edge_given(e):
    searched(e, None, "eta_inf")


@contract(*BL, trials=5, strict=False)
def blasius_wall_given(e):
    searched(e, None, "fw_pp")


@contract(*FS, trials=20, strict=False)
def search_both(e):
    searched(e, wedge(e), "nothing")


@contract(*FS, trials=20, strict=False)
def search_wall(e):
    searched(e, wedge(e), "eta_inf")


@contract(*FS, trials=5, strict=False)
def search_edge(e):
    searched(e, wedge(e), "fw_pp")


def searched(e, beta, which):
    e.ivp("end" if e.symbolic else "real")
    M = e.mod(ANA)
    b = 0 if beta is None else beta
    kw = {}
    if which == "eta_inf":
        kw["eta_inf"] = e.real("eta_inf", gt=0, span=(4, 7))
    elif which == "fw_pp":
        # a wall value that belongs to the wedge; others have no solution
        kw["fw_pp"] = e.real("fw_pp", gt=0, span=(0.3, 1.7)) if e.symbolic else 0.4695999883612 if b == 0 else e.requires(False)
    s, ex = e.attempt(lambda: M.Blasius(1.0, 1.0, **kw) if beta is None else M.FalknerSkan(beta, 1.0, 1.0, **kw))
    if ex is not None:
        # a search that gives up says so
        if e.symbolic:
            e.true("did not converge", True)
        return
    call = e.calls[len(e.calls) - 1]
    check_profile(e, s, call, b, s.fw_pp, s.eta_inf)
    if which == "eta_inf":
        e.eq("eta_inf as given", s.eta_inf, kw["eta_inf"])
    if which == "fw_pp":
        e.eq("fw_pp as given", s.fw_pp, kw["fw_pp"], tol=1e-12)
    if not e.symbolic:
        if which != "fw_pp":
            e.close("f'(eta_inf) = 1", s.f_p(s.eta_inf), 1, 1e-5)
        if which != "eta_inf":
            e.close("f''(eta_inf) = 0", s.f_pp(s.eta_inf), 0, 1e-5)
        return
    # The last trial integration was for exactly the parameters kept; it
    # integrates the same profile over [0, 1] with eta = eta_inf t, so its end
    # is (f'(eta_inf), f''(eta_inf)).
    if len(e.calls) < 2:
        e.fail("searched", "no trial integration")
        return
    trial = e.calls[len(e.calls) - 2]
    E = s.eta_inf
    if not e.holds(trial.t1 == 1):
        e.unsupported("trial integration of another form")
    q = [e.real(n) for n in ("g0", "g1", "g2")]
    y = trial.fun(e.real("t2"), e.np.array(q))
    e.eq("trial[0]", y[0], E * q[1], shape=False)
    e.eq("trial[1]", y[1], E * q[2], shape=False)
    e.eq("trial[2]", y[2], -E * (q[0] * q[2] + b * (1 - q[1]**2)), shape=False)
    e.eq("trial starts at the wall", trial.y0[0], 0, shape=False)
    e.eq("trial f'(0)", trial.y0[1], 0, shape=False)
    end = trial.sol(trial.t1)
    if which != "fw_pp" and e.holds(abs(end[1] - 1) >= 1e-8):
        e.note("KF3: wall value search used up its iterations, last one accepted")
        return
    e.eq("trial f''(0)", trial.y0[2], s.fw_pp, shape=False)
    if which != "fw_pp":
        e.close("f'(eta_inf) = 1", end[1], 1, 2e-8)
    if which != "eta_inf":
        e.close("f''(eta_inf) = 0", end[2], 0, 2e-8)


@contract(*FS, known="KF3", sym=False, trials=1)
def exhausted_wall_search(e):
    e.ivp("real")
    s, ex = e.attempt(lambda: e.mod(ANA).FalknerSkan(-0.19884, 1.0, 1.0, eta_inf=15.547749912889532))
    if ex is None:
        e.close("f'(eta_inf) = 1", s.f_p(s.eta_inf), 1, 1e-4)


@contract(*SET)
def failed_integration(e):
    """No profile is kept when the final or a trial integration fails."""
    M = e.mod(ANA)
    which = e.choice("given", ["both", "none", "eta_inf"])
    kw = {"both": dict(eta_inf=5.0, fw_pp=1.0), "none": {}, "eta_inf": dict(eta_inf=5.0)}[which]
    e.ivp("fail")
    e.raises("failure is reported", ValueError, lambda: M.FalknerSkan(0.5, 1.0, 1.0, **kw))


@contract(*SET, A + "f", A + "f_p", A + "f_pp", A + "fw_pp")
def failed_later(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    e.requires(eta != 5.0)
    e.ivp("fail")
    e.raises("failure is reported", ValueError, lambda: s.set_solution_parameters(5.0, 1.0))
    for nm in ("f", "f_p", "f_pp"):
        e.raises(nm + " not available", ValueError, lambda: getattr(s, nm)(1.0))


@contract(*SET)
def no_shear_thickness(e):
    M = e.mod(ANA)
    e.root("fail")
    if not e.symbolic:
        e.ivp("real")
    e.raises("failure is reported", ValueError, lambda: M.Blasius(1.0, 1.0))


@contract(*SET)
def refused(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    n = len(e.calls)
    bad = e.real("bad", hi=0, span=(-3, 0), special=(0.0,))
    which = e.choice("which", ["eta_inf", "fw_pp"])
    other = e.choice("other", ["given", "searched"])
    kw = {which: bad}
    if other == "given":
        kw["fw_pp" if which == "eta_inf" else "eta_inf"] = 1.0
    e.raises("refused", ValueError, lambda: s.set_solution_parameters(**kw))
    e.eq("eta_inf kept", s.eta_inf, eta)
    e.eq("fw_pp kept", s.fw_pp, fpp)
    e.eq("nothing integrated", len(e.calls), n)


@contract(*SET, A + "eta_d", A + "eta_m", A + "eta_k", A + "eta_s")
def integrals(e):
    """eta_d, eta_m, eta_k are the integrals over the profile: each is the
    increase over [0, eta_inf] of a function with the right derivative."""
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    b = beta
    if not e.symbolic:
        e.requires(abs(s.f_p(eta) - 1) < 2e-2)
        t = e.np.linspace(0, eta, 4001)
        f1 = s.f_p(t)
        w = e.np.full(4001, eta / 4000)
        w[0] = w[4000] = eta / 8000
        e.close("eta_d", s.eta_d, e.np.sum((1 - f1) * w), 1e-5)
        if b >= 0:
            tail = abs(s.f_p(eta) - 1) * eta + abs(s.f_pp(eta)) * 2
            e.close("eta_m", s.eta_m, e.np.sum(f1 * (1 - f1) * w), 1e-5 + 2 * tail)
            e.close("eta_k", s.eta_k, e.np.sum(f1 * (1 - f1**2) * w), 1e-5 + 3 * tail * eta)
        e.close("eta_s", s.f_p(s.eta_s), 0.99, 1e-6)
        return
    z = e.real("z", gt=0, lt=eta)
    e.eq("eta_d", s.eta_d, eta - s.f(eta))
    e.eq("eta_d integrand", e.D(lambda t: t - s.f(t), z), 1 - s.f_p(z), shape=False)
    e.eq("eta_d at the wall", 0 - s.f(0.0), 0, shape=False)
    G = lambda t: (s.fw_pp - s.f_pp(t) - s.f(t) * (s.f_p(t) - 1) - b * (t - s.f(t))) / (1 + b)
    e.eq("eta_m integrand", e.D(G, z), s.f_p(z) * (1 - s.f_p(z)), shape=False)
    e.eq("eta_m at the wall", G(0.0), 0, shape=False)
    # on a profile that has reached the edge
    e.eq("eta_m", s.eta_m - G(eta), (s.f_pp(eta) + s.f(eta) * (s.f_p(eta) - 1)) / (1 + b), shape=False)
    eta_k = s.eta_k
    hit = [q for q in e.quads if e.holds(q["value"] == eta_k)]
    if not hit:
        e.unsupported("eta_k is not the value of a quadrature")
    q = hit[0]
    e.eq("eta_k from the wall", q["a"], 0, shape=False)
    e.eq("eta_k to the edge", q["b"], eta, shape=False)
    d = e.elem(q["f"](z)) - s.f_p(z) * (1 - s.f_p(z)**2)
    if not e.holds(d == 0):
        # equal up to the slope of f (f'^2 - 1), which is zero at the wall and at the edge
        K = lambda t: s.f(t) * (s.f_p(t)**2 - 1)
        e.eq("eta_k integrand", d, e.D(K, z), shape=False)
        e.eq("boundary term at the wall", K(0.0), 0, shape=False)
    e.eq("f'(eta_s) = 0.99", s.f_p(s.eta_s), 0.99)
    e.le("eta_s not before the wall", 0, s.eta_s)
    e.le("eta_s inside", s.eta_s, eta)
