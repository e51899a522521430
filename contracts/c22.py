# Data of the caller.
T = "ibl.thwaites_method:ThwaitesMethod."
H_ = "ibl.head_method:HeadMethod."
B = "ibl.ibl_method:IBLMethod."
A = "ibl.analytic._analytic_2d_base:Analytic2dSimilarityIncompressible."
METHOD = ("u_e", "du_e", "d2u_e", "v_e", "delta_d", "delta_m", "delta_k", "shape_d", "shape_k", "tau_w", "dissipation")
SETTINGS = ("nu", "initial_delta_m", "initial_shape_d")
SUBJ = tuple(B + q for q in METHOD)


class Kept:
    """A function of the caller that keeps what it returned: stored (the same array for the same location) or
    the very array it was called with."""

    def __init__(self, e, f, how):
        self.e, self.f, self.how, self.seen, self.shots = e, f, how, [], []

    def __call__(self, x):
        e = self.e
        if not hasattr(x, "shape") or isinstance(x, float):
            return self.f(x)
        if self.how == "argument":
            v = x
        else:
            for a, v in self.seen:
                if a is x:
                    return v
            v = self.f(x)
        self.seen.append((x, v))
        if e.np.ndim(v) or hasattr(v, "__setitem__"):
            self.shots.append((v, e.snapshot(v)))
        return v

    def check(self, name):
        for v, s in self.shots:
            self.e.unchanged(name, s, v)


def settings(m):
    return [getattr(m, k) for k in SETTINGS if hasattr(m, k)]


def query(o, q, x, rho):
    f = getattr(o, q)
    return f(x, rho) if q in ("tau_w", "dissipation") else f(x)


def undisturbed(e, o, qs, x, y, kept=(), state=lambda o: []):
    """Every query at an array, twice, with a query elsewhere in between."""
    rho = e.real("rho", gt=0, span=(0.1, 1000))
    before = state(o)
    shot = e.snapshot(x)
    for q in qs:
        v = query(o, q, x, rho)
        mine = e.snapshot(v)
        query(o, q, y, rho)
        e.unchanged("location after " + q, shot, x)
        w = query(o, q, x, rho)
        e.eq(q + " repeated", w, v)
        e.unchanged("earlier answer of " + q, mine, v)
        for k in kept:
            k.check("result of a function of the caller after " + q)
    for a, b in zip(before, state(o)):
        e.eq("settings", b, a)


def where(e, span):
    x = e.point("x", ("0d", "1d"), gt=span[0], lt=span[1])
    return x, e.real("elsewhere", gt=span[0], lt=span[1])


@contract(*SUBJ, *(H_ + q for q in METHOD[3:]))
def head(e):
    M = e.mod(HEAD).HeadMethod
    q = e.choice("query", ["v_e", "tau_w", "others"])
    how = e.choice("functions", ["stored", "argument", "slope is argument"])
    U, dU, d2U = e.fn("U", 2)
    kept = [Kept(e, U, "argument" if how == "argument" else "stored"),
            Kept(e, dU, "argument" if how == "slope is argument" else "stored"), Kept(e, d2U, "stored")]
    m = M(e.real("nu", gt=0, span=(1e-6, 1e-2)), *kept)
    x0 = e.real("x0", gt=0.01, span=(0.1, 1))
    x1 = x0 + e.real("dx", gt=0, span=(0.2, 2))
    e.requires(U(x0) > 0.01)
    m.initial_delta_m = e.real("d0", gt=0, span=(1e-4, 1e-2))
    m.initial_shape_d = e.real("H0", gt=1.2, hi=2.3)
    m.solve(x0, x1)
    call = e.calls[len(e.calls) - 1]
    x, y = where(e, (x0, x1))
    for v, nm in ((x, "x"), (y, "elsewhere")):
        d, H = e.state(call, v, dict(gt=0, span=(1e-4, 1e-1)), dict(span=(1.0, 3.5)))
        if q == "others":
            continue
        # both sides of the limits of velocity and shape factor
        u, H = e.elem(U(v)), e.elem(H)
        side = e.choice("side", ["inside", "slow", "low H", "high H"]) if nm == "x" else "inside"
        if e.symbolic:
            e.requires(u > 0.001 if side != "slow" or how == "argument" else u < 0.001)
            e.requires(u > -0.001)
            e.requires(H < 1.05 if side == "low H" else H > 1.7 if side == "high H" else H > 1.12)
            if side in ("inside", "slow"):
                e.requires(H < 1.6)
    undisturbed(e, m, [q] if q != "others" else [k for k in METHOD if k not in ("v_e", "tau_w")], x, y, kept, settings)


@contract(*SUBJ, *(T + q for q in METHOD[3:]), T + "set_data_fits")
def thwaites(e):
    q = e.choice("query", ["v_e", "shape_d", "delta_d", "tau_w", "others"])
    kind = e.choice("kind", ["Linear", "Nonlinear"]) if q == "v_e" else "Linear"
    M = getattr(e.mod(THW), "ThwaitesMethod" + kind)
    how = e.choice("functions", ["stored", "argument", "slope is argument"])
    U, dU, d2U = e.fn("U", 2)
    kept = [Kept(e, U, "argument" if how == "argument" else "stored"),
            Kept(e, dU, "argument" if how == "slope is argument" else "stored"), Kept(e, d2U, "stored")]
    vel = list(kept)
    fit = e.choice("fit", ["Spline", "White", "Cebeci-Bradshaw", "Drela", "user 3", "user 2"] if q != "others" else ["White"])
    arg = fit
    if fit.startswith("user"):
        arg = tuple(Kept(e, f, "stored") for f in (e.fn("Sfit", 1)[0], *e.fn("Hfit", 1)))[:int(fit[-1])]
        kept += list(arg)
    m = M(e.real("nu", gt=0, span=(1e-6, 1e-2)), *vel, data_fits=arg)
    x0 = e.real("x0", gt=0.01, span=(0.1, 1))
    x1 = x0 + e.real("dx", gt=0, span=(0.2, 2))
    e.requires(U(x0) > 0.01)
    m.initial_delta_m = e.real("d0", gt=0, span=(1e-4, 1e-2))
    m.solve(x0, x1)
    call = e.calls[len(e.calls) - 1]
    x, y = where(e, (x0, x1))
    lo, hi = FIT_RANGE[fit]
    for v, nm in ((x, "x"), (y, "elsewhere")):
        z, = e.state(call, v, dict(gt=0, span=(1e-3, 0.1)))
        if q == "v_e":
            e.requires(e.elem(U(v)) >= 0)
        if q == "others" or not e.symbolic or lo is None:
            continue
        lam = e.elem(z) * e.elem(v if how == "slope is argument" else dU(v))
        side = e.choice("side", ["inside", "below"] + ["above"] * (hi is not None)) if nm == "x" else "inside"
        # in one branch of the fit
        e.requires(lam < lo if side == "below" else lam > hi if side == "above" else lam > (0.01 if fit != "Spline" else 0.033))
        if side == "inside" and hi is not None:
            e.requires(lam < (hi if fit != "Spline" else 0.047))
    undisturbed(e, m, [q] if q != "others" else [k for k in METHOD if k not in ("v_e", "shape_d", "tau_w", "delta_d")],
                x, y, kept, settings)


@contract(B + "set_velocity", B + "u_e", B + "du_e", B + "d2u_e", B + "solve")
def tables(e):
    """Velocity tables through setting, solving and queries."""
    kind = e.choice("kind", ["Head", "Linear"])
    how = e.choice("velocity", ["table", "start and slopes"])
    xs, ys, a, b, x0 = e.table("t", values=dict(gt=0.02, span=(0.5, 2)))
    shot = e.snapshot(xs, ys)
    pair = (xs, ys) if e.choice("pair", ["tuple", "list"]) == "tuple" else [xs, ys]
    pshot = list(pair)
    m = e.mod(HEAD).HeadMethod(1e-3) if kind == "Head" else e.mod(THW).ThwaitesMethodLinear(1e-3, data_fits="White")
    m.set_velocity(*((pair,) if how == "table" else (e.real("start", gt=0.02, span=(0.5, 2)), pair)))
    e.unchanged("table after setting", shot, xs, ys)
    m.initial_delta_m = e.real("d0", gt=0, span=(1e-4, 1e-2))
    if kind == "Head":
        m.initial_shape_d = 1.4
    x1 = x0 + e.real("dx", gt=0, span=(0.2, 2))
    e.requires(m.u_e(x0) > 0.01)
    m.solve(x0, x1)
    e.unchanged("table after solving", shot, xs, ys)
    x = e.point("x", ("scalar", "1d"), gt=x0, lt=x1)
    for q in ("u_e", "du_e", "d2u_e"):
        v = getattr(m, q)(x)
        e.eq(q + " repeated", getattr(m, q)(x), v)
        e.unchanged("table after " + q, shot, xs, ys)
    e.true("pair", len(pair) == 2 and all(p is o for p, o in zip(pair, pshot)))


@contract(B + "solve", B + "_set_kill_event", B + "_add_kill_event", H_ + "_ode_setup", T + "_ode_setup")
def events(e):
    """Event lists, the events in them, and the settings of the method through a solve."""
    m, kind, vel, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    ev = [user_event(e, "at" + k) for k in "ab"[:e.choice("events", [0, 1, 2])]]
    direction = e.choice("direction", [0, 1, -1])
    for v in ev:
        v.direction = direction
    given, inside, was = list(ev), [dict(vars(v)) for v in ev], settings(m)
    for k in range(2):
        m.solve(x0, x1, ev)
        e.true(f"list {k}", len(ev) == len(given) and all(p is o for p, o in zip(ev, given)))
        for v, d in zip(ev, inside):
            e.true(f"event {k}", {j: getattr(v, j) for j in d} == d)
        e.eq(f"watched {k}", len(e.calls[len(e.calls) - 1].events), 1 + len(given))
        for a, b in zip(was, settings(m)):
            e.eq(f"settings {k}", b, a)


SIMQ = ("u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s", "shape_d", "shape_k", "tau_w", "dissipation")


def parameters(s):
    return [getattr(s, k) for k in ("u_ref", "nu_ref", "fw_pp", "eta_inf", "m", "beta") if hasattr(s, k)]


@contract(*(A + q for q in SIMQ))
def similarity(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, again=False)
    e.requires(s.eta_m > 0)
    x = e.point("x", ("0d", "1d", "2d"), gt=0, span=(0.01, 4))
    q = e.choice("query", SIMQ)
    undisturbed(e, s, [q], x, e.real("elsewhere", gt=0, span=(0.01, 4)), state=parameters)


@contract(*(A + q for q in ("f", "f_p", "f_pp")))
def similarity_profile(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, again=False)
    x = e.point("eta", ("0d", "1d"), lo=0, span=(0, 12))
    if e.choice("side", ["inside", "beyond"]) == "inside":
        e.requires(e.elem(x) < s.eta_inf) if e.symbolic else None
    elif e.symbolic:
        e.requires(e.elem(x) > s.eta_inf)
    q = e.choice("query", ("f", "f_p", "f_pp"))
    undisturbed(e, s, [q], x, e.real("elsewhere", lo=0, hi=1, span=(0, 1)), state=parameters)


@contract(*(A + q for q in ("eta", "u", "v")))
def similarity_points(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e, again=False)
    q = e.choice("query", ("eta", "u", "v"))
    x = e.point("x", ("0d", "1d"), gt=0, span=(0.01, 10))
    y = e.spread(e.real("y", lo=0, span=(0, 0.1)), 0, like=x)
    shot = e.snapshot(x, y)
    before = parameters(s)
    f = getattr(s, q)
    v = f(x, y)
    mine = e.snapshot(v)
    f(e.real("x'", gt=0, span=(0.01, 10)), e.real("y'", lo=0, span=(0, 0.1)))
    e.unchanged("locations", shot, x, y)
    e.eq("repeated", f(x, y), v)
    e.unchanged("earlier answer", mine, v)
    for a, b in zip(before, parameters(s)):
        e.eq("settings", b, a)


@contract("ibl.skin_friction:ludwieg_tillman", "ibl.skin_friction:felsch", "ibl.skin_friction:white")
def friction(e):
    law = e.choice("law", ["ludwieg_tillman", "felsch", "white"])
    f = getattr(e.mod("ibl.skin_friction"), law)
    R = e.point("Re", ("0d", "1d", "2d"), gt=1, span=(2, 1e5))
    H = e.spread(e.real("H", gt=0, span=(0.5, 3.5)), 0, like=R)
    if law == "felsch":
        s = e.choice("side", ["low", "mid", "high"])
        if e.symbolic:
            h = e.elem(H)
            e.requires(h < 1 if s == "low" else h > 3.1 if s == "high" else h > 1)
            if s == "mid":
                e.requires(h < 2.99)
    shot = e.snapshot(R, H)
    v = f(R, H)
    mine = e.snapshot(v)
    e.unchanged("arguments", shot, R, H)
    f(e.real("Re'", gt=1, span=(2, 1e5)), e.real("H'", gt=1.2, lt=2.5, span=(1.3, 2.4)))
    e.eq("repeated", f(R, H), v)
    e.unchanged("earlier answer", mine, v)


@contract(SS + ":StanfordOlympics1968StationData.reset", SS + ":StanfordOlympics1968StationData._reset_station_data",
          SS + ":StanfordOlympics1968SmoothVel.reset")
def records(e):
    """Lists of data lines given to the records."""
    units = e.choice("units", ["SI", "English"])
    M = e.mod(SS)
    if e.choice("record", ["station", "velocities"]) == "station":
        s = summary_row(e, "st")
        t = station_row(e, "stt", units, s)
        rows = e.rows("samples", lambda n: sample_row(e, "sa", units, t))
        data = e.lines(rows, lambda r: sample_line(e, units, r))
        keep = list(data)
        o = M.StanfordOlympics1968StationData(units == "SI", summary_line(e, s), station_line(e, units, t), data)
        e.eq("samples", o.sample_count(), e.total(*rows))
    else:
        rows = e.rows("smooth", lambda j: smooth_row(e, "sm"))
        data = e.lines(rows, lambda s: smooth_line(e, s))
        keep = list(data)
        o = M.StanfordOlympics1968SmoothVel(units == "SI", data)
        e.eq("samples", e.count(o.x), e.total(*rows))
    e.true("lines", len(keep) == len(list(data)) and all(a is b for a, b in zip(keep, list(data))))


R = XR + ":XFoilReader."
AIR = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "shape_d", "shape_k", "c_f", "mass_defect", "mom_defect", "ke_defect")
WAKE = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "shape_d")
ASKED = {q: "u_e" if q == "u_e_rel" else q for q in AIR}
HEAD_ = ("name", "alpha", "reynolds", "c_l", "c_d", "c_m", "u_ref", "c", "filename")


@contract(*(R + f"{ASKED[q]}_{s}" for q in AIR for s in ("upper", "lower")), R + "delta_k_upper", R + "delta_k_lower",
          *(R + ASKED[q] + "_wake" for q in WAKE))
def reader_queries(e):
    """Arrays of a dump, in any order, change neither the records nor what is answered later."""
    name, up, last, first, low, wakes = dump(e, exact=False, wake=True, header=False)
    r = e.mod(XR).XFoilReader(name)
    if e.choice("reference velocity", ["default", "set"]) == "set":
        r.u_ref = e.real("u_ref", gt=0, span=(0.1, 100))
    def state():
        v = [getattr(r, k) for k in HEAD_ if hasattr(r, k)]
        for side, qs in (("upper", AIR), ("lower", AIR), ("wake", WAKE)):
            for j in (0, -1):
                n = getattr(r, side + "_count")()
                v += [getattr(getattr(r, side)(n - 1 if j else 0), q) for q in qs]
        return v
    before = state()
    side = e.choice("side", ["upper", "lower", "wake"])
    pieces = {"upper": ["stagnation", last] + e.turned(up), "lower": ["stagnation", first] + low, "wake": wakes}[side]
    for q in (AIR + ("delta_k",) if side != "wake" else WAKE):
        f = getattr(r, f"{ASKED.get(q, q)}_{side}")
        v = f()
        places = [pos for pos, rec in e.along(*pieces)]
        was = [e.at(v, pos) for pos in places]
        w = f()
        e.eq(f"length of {q}_{side}", e.count(w), e.count(v))
        for pos, a in zip(places, was):
            e.eq(f"{q}_{side} repeated", e.at(w, pos), a)
            e.eq(f"earlier {q}_{side}", e.at(v, pos), a)
    now = state()
    e.eq("number of records", len(now), len(before))
    for a, b in zip(before, now):
        if isinstance(a, (str, type(None))):
            e.true("records", a == b)
        else:
            e.eq("records", b, a)


O = SO + ":StanfordOlympics1968."
STATION = ("x", "u_e", "du_e", "delta_d", "delta_m", "delta_k", "delta_c", "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt",
           "c_f_exp", "beta_eq", "u_star", "nu", "re_delta_d", "re_delta_m")


@contract(*(O + q for q in STATION), O + "x_smooth", O + "u_e_smooth", O + "du_e_smooth", O + "station")
def case_queries(e):
    """Arrays of a case change neither its stations nor what is answered later."""
    units = e.choice("units", ["SI", "English"])
    case = "1100" if units == "SI" else "2100"
    rows = [summary_row(e, f"st{j}") for j in range(2)]
    smooth = [smooth_row(e, f"sm{j}") for j in range(2)]
    e.case_file(case, case_lines(e, case, e.real("nu", gt=0, span=(0.1, 1)), [summary_line(e, s) for s in rows],
                                 [smooth_line(e, s) for s in smooth]))
    o = e.mod(SO).StanfordOlympics1968(case)
    e.served()
    def state():
        return [getattr(o.station(j), q) for j in range(2) for q in STATION]
    before = state()
    for q in STATION + ("x_smooth", "u_e_smooth", "du_e_smooth"):
        f = getattr(o, q)
        v = f()
        shot = e.snapshot(v)
        e.eq(f"{q} repeated", f(), v)
        e.unchanged(f"earlier {q}", shot, v)
    for a, b in zip(before, state()):
        e.eq("stations", b, a)
