# Where separation stops an integration.
EV = ("ibl.head_method:_HeadSeparationEvent._call_impl", "ibl.thwaites_method:_ThwaitesSeparationEvent._call_impl",
      "ibl.head_method:_HeadSeparationEvent.event_info", "ibl.thwaites_method:_ThwaitesSeparationEvent.event_info",
      "ibl.ibl_method:IBLMethod._set_kill_event", "ibl.head_method:HeadMethod.set_shape_d_critical",
      "ibl.thwaites_method:ThwaitesMethod.set_data_fits")


def own_event(e, m, x0, x1, others=()):
    """The watched event that is the method's own, of a new integration."""
    e.ivp("end")
    m.solve(x0, x1, list(others)) if others else m.solve(x0, x1)
    call = e.calls[len(e.calls) - 1]
    own = [v for v in call.events if all(v is not o for o in others)]
    e.eq("one own event", len(own), 1)
    e.requires(len(own) == 1)
    e.true("stops the integration", bool(own[0].terminal))
    e.eq("reason", own[0].event_info()[0].name, "SEPARATED")
    return own[0]


def value(e, ev, x, *f):
    v = ev(x, e.np.array(list(f)))
    e.true("value is one number", e.np.ndim(v) == 0)
    return v


def crosses(e, ev, va, vs):
    """Attached value va and separated value vs have different signs, and the change counts."""
    e.lt("sign changes at the criterion", va * vs, 0)
    e.eq("a crossing counts in both directions", getattr(ev, "direction", 0), 0)


def others_(e, few=False):
    n = e.choice("other events", ["none", "two"] if few else ["none", "one", "two", "numpy one"])
    if n == "numpy one":
        M = e.mod(IBLM)

        class Event(M.TermEvent):
            def _call_impl(self, x, f):
                return f[0] - 1e3

            def event_info(self):
                return M.TermReason.TRANSITIONED, ""
        return [Event()]
    return [user_event(e, "at" + k) for k in {"none": "", "one": "a", "two": "ab"}[n]]


@contract(*EV)
def head(e):
    """Zero exactly where the shape factor is critical, with opposite signs on the two sides."""
    how = e.choice("critical value", ["default", "argument", "set", "set twice", "set after solve"])
    crit = 2.4 if how == "default" else e.real("crit", gt=1.5, hi=4, span=(1.8, 3))
    U, dU, d2U = e.fn("U", 2)
    nu = e.real("nu", gt=0, span=(1e-6, 1e-2))
    M = e.mod(HEAD).HeadMethod
    m = M(nu, U, dU, d2U, crit) if how == "argument" else M(nu, U, dU, d2U)
    x0 = e.real("x0", span=(0.1, 1))
    x1 = x0 + e.real("dx", gt=0, span=(0.2, 2))
    e.requires(U(x0) > 0.01)
    m.initial_delta_m = e.real("d0", gt=0, span=(1e-4, 1e-2))
    m.initial_shape_d = e.real("H0", gt=1.2, lt=1.5)
    if how == "set":
        m.set_shape_d_critical(crit)
    elif how == "set twice":
        m.set_shape_d_critical(crit + 0.5)
        m.set_shape_d_critical(crit)
    elif how == "set after solve":
        m.solve(x0, x1)
        m.set_shape_d_critical(crit)
    ev = own_event(e, m, x0, x1, others_(e))
    x = e.real("x", span=(0.1, 3))
    d, d2 = e.real("d", gt=0, span=(1e-4, 1e-1)), e.real("d'", gt=0, span=(1e-4, 1e-1))
    a = crit - e.real("below", gt=0, span=(1e-3, 0.5))
    b = crit + e.real("above", gt=0, span=(1e-3, 0.5))
    crosses(e, ev, value(e, ev, x, d, a), value(e, ev, x, d2, b))
    e.eq("zero at the critical shape factor", value(e, ev, x, d, crit), 0, abstol=1e-12)


def thw_method(e, kind, fit, U):
    M = getattr(e.mod(THW), "ThwaitesMethod" + kind)
    arg, S = fit, None
    if fit not in FITS:
        S, dS = e.fn("Sfit", 1)
        H, dH = e.fn("Hfit", 1)
        arg = (S, H, dH) if fit == "user 3" else (S, H)
    nu = e.real("nu", gt=0, span=(1e-6, 1e-2))
    how = e.choice("fit", ["argument", "default", "set", "set after solve"] if fit == "Spline" else
                   ["argument", "set", "set after solve"])
    m = M(nu, *U, data_fits=arg) if how == "argument" else M(nu, *U)
    x0 = e.real("x0", span=(0.1, 1))
    x1 = x0 + e.real("dx", gt=0, span=(0.2, 2))
    e.requires(U[0](x0) > 0.01)
    m.initial_delta_m = e.real("d0", gt=0, span=(1e-4, 1e-2))
    if how == "set":
        m.set_data_fits("Cebeci-Bradshaw" if fit != "Cebeci-Bradshaw" else "White")
        m.set_data_fits(arg)
    elif how == "set after solve":
        m.solve(x0, x1)
        m.set_data_fits(arg)
    return m, x0, x1, S


def state_at(e, n, U, lam):
    """A location and the state with this lambda there."""
    x = e.real("x" + n, span=(0.1, 3))
    du = U[1](x)
    e.requires(abs(du) > 0.01)
    z = lam / du
    e.requires(z > 0)
    return x, z


def shear(e, fit, S, lam):
    return S(lam) if S is not None else fit_formula(e, fit, lam)[0]


@contract(*EV)
def thwaites(e):
    """Opposite signs where the shear function is positive and where it is negative."""
    kind = e.choice("kind", ["Linear", "Nonlinear"])
    fit = e.choice("data", ["Cebeci-Bradshaw", "user 3", "user 2"])
    U = e.fn("U", 2)
    m, x0, x1, S = thw_method(e, kind, fit, U)
    ev = own_event(e, m, x0, x1, others_(e))
    la = e.real("lambda a", span=(-0.08, 0.09))
    lb = e.real("lambda b", span=(-0.1, -0.09))
    if fit in FITS:
        for v in (la, lb):
            e.requires(v >= FIT_RANGE[fit][0])
            e.requires(v <= FIT_RANGE[fit][1])
    x, z = state_at(e, "", U, la)
    x2, z2 = state_at(e, "'", U, lb)
    e.requires(shear(e, fit, S, la) > 1e-9)
    e.requires(shear(e, fit, S, lb) < -1e-9)
    crosses(e, ev, value(e, ev, x, z), value(e, ev, x2, z2))


@contract(*EV)
def thwaites_zero(e):
    """Zero where the shear function is zero."""
    kind = e.choice("kind", ["Linear", "Nonlinear"])
    fit = e.choice("data", ["Cebeci-Bradshaw", "White", "user 3"])
    U = e.fn("U", 2)
    m, x0, x1, S = thw_method(e, kind, fit, U)
    ev = own_event(e, m, x0, x1)
    if fit == "White":
        lam = 0 * x0 - 0.09
    elif e.symbolic:
        lam = e.real("lambda", lo=-0.1, hi=0.1)
        e.requires(shear(e, fit, S, lam) == 0)
    else:
        e.requires(fit == "Cebeci-Bradshaw")
        lam = -0.0898156166724938
    x, z = state_at(e, "", U, lam)
    e.eq("zero", value(e, ev, x, z), 0, abstol=1e-9)


@contract(*EV)
def shear_vanishes_at_end_of_range(e):
    """Fits whose shear is zero from the end of their range on still have a crossing there."""
    kind = e.choice("kind", ["Linear", "Nonlinear"])
    fit = e.choice("data", ["White", "Spline"])
    U = e.fn("U", 2)
    m, x0, x1, S = thw_method(e, kind, fit, U)
    ev = own_event(e, m, x0, x1, others_(e, True))
    if fit == "White":
        la = e.real("lambda a", gt=-0.09, span=(-0.089, 0.2))
    else:
        la = e.choice("table entry", (-0.088, -0.086, -0.04, 0.0, 0.1, 0.25))
    lb = e.real("lambda b", lt=-0.09, span=(-0.5, -0.091))
    x, z = state_at(e, "", U, la)
    x2, z2 = state_at(e, "'", U, lb)
    va, vb = value(e, ev, x, z), value(e, ev, x2, z2)
    crosses(e, ev, va, vb)
    x3, z3 = state_at(e, '"', U, 0 * x0 - 0.09)
    e.eq("zero at the end of the range", value(e, ev, x3, z3), 0, abstol=1e-9)


@contract(*EV)
def never_zero_while_attached(e):
    """A positive shear never stops the integration: Drela's fit over its whole range, and every
    other one from lambda = -0.0898 on."""
    kind = e.choice("kind", ["Linear", "Nonlinear"])
    fit = e.choice("data", ["Cebeci-Bradshaw", "White", "Drela", "user 3"])
    U = e.fn("U", 2)
    m, x0, x1, S = thw_method(e, kind, fit, U)
    ev = own_event(e, m, x0, x1)
    lam = e.real("lambda", span=(-0.0898, 0.3))
    if fit in FITS:
        if FIT_RANGE[fit][1] is not None:
            e.requires(lam <= FIT_RANGE[fit][1])
        e.requires(lam >= FIT_RANGE[fit][0])
    x, z = state_at(e, "", U, lam)
    e.requires(shear(e, fit, S, lam) > 1e-9)
    e.ne("not zero", value(e, ev, x, z), 0)


@contract(*EV)
def agrees_with_wall_shear(e):
    """The criterion is the zero of the wall shear the method itself reports."""
    kind = e.choice("kind", ["Linear", "Nonlinear"])
    fit = e.choice("data", FITS + ("user 3",))
    U = e.fn("U", 2, positive=True)
    m, x0, x1, S = thw_method(e, kind, fit, U)
    ev = own_event(e, m, x0, x1)
    call = e.calls[len(e.calls) - 1]
    x = in_span(e, (x0, x1), shapes=("scalar",))
    z, = e.state(call, x, dict(gt=0, span=(1e-3, 0.1)))
    e.requires(U[0](x) > 0.01)
    tau = m.tau_w(x, 1.2) * e.np.sqrt(m.nu * z) / (1.2 * m.nu * U[0](x))
    v = value(e, ev, x, z)
    # White's and Drela's shear is never negative
    side = e.choice("shear", ["positive"] if fit in ("White", "Drela") else ["positive", "negative"])
    if side == "positive":
        e.requires(tau > 0)
        e.lt("event of the same sign as the wall shear", 0, v)
    else:
        e.requires(tau < 0)
        e.lt("event of the same sign as the wall shear", v, 0)


@contract(*EV, sym=False, trials=40)
def real_thwaites(e):
    """The real integrator in a decelerating flow."""
    e.ivp("real")
    kind = e.choice("kind", ["Linear", "Nonlinear"])
    fit = e.choice("fit", ["Spline", "White", "Cebeci-Bradshaw"])
    a = e.real("slope", lo=0.3, hi=2)
    nu = e.real("nu", gt=0, span=(1e-6, 1e-3))
    m = getattr(e.mod(THW), "ThwaitesMethod" + kind)(nu, lambda x: 1 - a * x, lambda x: -a + 0 * x, lambda x: 0 * x, fit)
    m.initial_delta_m = 1e-3 * nu**0.5
    ev = [user_event(e, "at", "TRANSITIONED")] if e.choice("other event", [0, 1]) else None
    if ev:
        e.requires(e.used["reals"]["at"] > 0.2 / a)
    r = m.solve(0.0, 0.9 / a, ev)
    e.eq("separated", r.status.name, "SEPARATED")
    if r.status.name == "SEPARATED":
        lam = r.f_end[0] * -a
        e.close("lambda at the end", lam, -0.0898156166724938 if fit == "Cebeci-Bradshaw" else -0.09, 1e-6)


@contract(*EV, sym=False, trials=30)
def real_head(e):
    e.ivp("real")
    a = e.real("slope", lo=0.3, hi=1)
    crit = e.real("crit", lo=1.8, hi=3)
    m = e.mod(HEAD).HeadMethod(1e-6, lambda x: 1 - a * x, lambda x: -a + 0 * x, lambda x: 0 * x)
    m.initial_delta_m = e.real("d0", lo=2e-3, hi=5e-3)
    m.initial_shape_d = 1.4
    m.set_shape_d_critical(crit)
    ev = [user_event(e, "at", "TRANSITIONED")] if e.choice("other event", [0, 1]) else None
    r = m.solve(0.0, 0.8 / a, ev)
    if r.status.name == "SEPARATED":
        e.close("shape factor at the end", r.f_end[1], crit, 1e-6)
    elif r.status.name == "REACHED_END":
        x = e.np.linspace(0, 0.8 / a, 50)
        e.true("not separated before", e.np.max(m.shape_d(x)) < crit + 1e-3)
