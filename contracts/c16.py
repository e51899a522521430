# Settable parameters: read back, independent of each other, refused outside their range.
REF = "ibl.reference"
RULES = {
    # class: ((parameter, rule), ...); pos: greater than zero, nonneg: not negative, any: every number
    "Head": (("nu", "pos"), ("initial_delta_m", "pos"), ("initial_shape_d", "pos")),
    "Linear": (("nu", "pos"), ("initial_delta_m", "pos")),
    "Nonlinear": (("nu", "pos"), ("initial_delta_m", "pos")),
    "Stagnation": (("nu", "pos"), ("du_e", "any")),
    "Manual": (("nu", "pos"), ("du_e", "any"), ("del_d", "any"), ("del_m", "any"), ("del_k", "any")),
    "Blasius": (("u_ref", "pos"), ("nu_ref", "pos")),
    "FalknerSkan": (("u_ref", "pos"), ("nu_ref", "pos")),
    "XFoilReader": (("alpha", "any"), ("u_ref", "pos"), ("c", "pos"), ("reynolds", "nonneg"), ("n_trans", "pos"),
                    ("x_trans_upper", "any"), ("x_trans_lower", "any")),
    "XFoilAirfoilData": (("s", "nonneg"), ("x", "any"), ("y", "any"), ("u_e_rel", "any"), ("delta_d", "nonneg"),
                         ("delta_m", "nonneg"), ("c_f", "nonneg"), ("shape_d", "pos"), ("shape_k", "pos"),
                         ("mass_defect", "any"), ("mom_defect", "any"), ("ke_defect", "any")),
    "XFoilWakeData": (("s", "nonneg"), ("x", "any"), ("y", "any"), ("u_e_rel", "any"), ("delta_d", "nonneg"),
                      ("delta_m", "nonneg"), ("shape_d", "pos")),
    "Station": (("x", "any"), ("u_e", "pos"), ("du_e", "any"), ("delta_d", "pos"), ("delta_m", "pos"), ("delta_k", "pos"),
                ("delta_c", "pos"), ("shape_d", "pos"), ("shape_k", "pos"), ("shape_eq", "pos"), ("c_f", "any"),
                ("c_f_lt", "any"), ("c_f_exp", "any"), ("beta_eq", "any"), ("u_star", "pos"), ("nu", "pos"),
                ("re_delta_d", "pos"), ("re_delta_m", "pos")),
}
PROFILE = ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")
WHERE = {"Head": ("ibl.head_method", "HeadMethod"), "Linear": ("ibl.thwaites_method", "ThwaitesMethod"),
         "Nonlinear": ("ibl.thwaites_method", "ThwaitesMethod"),
         "Stagnation": ("ibl.initial_condition", "InitialCondition"),
         "Blasius": ("ibl.analytic._analytic_2d_base", "Analytic2dSimilarityIncompressible"),
         "XFoilReader": ("ibl.reference._xfoil_reader", "XFoilReader"),
         "XFoilAirfoilData": ("ibl.reference._xfoil_data", "XFoilAirfoilData"),
         "XFoilWakeData": ("ibl.reference._xfoil_data", "XFoilWakeData"),
         "Station": ("ibl.reference._stanford_1968_station", "StanfordOlympics1968StationData")}
SUBJ = tuple(f"{WHERE[k][0]}:{WHERE[k][1]}.{p}" for k in WHERE for p, _ in RULES[k]
             if (k, p) not in (("Head", "nu"), ("Linear", "nu"), ("Nonlinear", "nu"))) + \
    tuple(f"{WHERE['Station'][0]}:{WHERE['Station'][1]}.{p}" for p in PROFILE) + ("ibl.ibl_method:IBLMethod.nu",)


def number(e, name, rule):
    if rule == "any":
        return e.real(name, span=(-3, 3))
    return e.real(name, gt=0, span=(0.01, 30)) if rule == "pos" else e.real(name, lo=0, span=(0.01, 30), special=(0.0,))


def build(e, kind):
    if kind == "Head":
        m = e.mod(HEAD).HeadMethod()
        m.initial_delta_m = e.real("d", gt=0, span=(1e-4, 1))
        m.initial_shape_d = e.real("H", gt=0, span=(1, 3))
        return m
    if kind in ("Linear", "Nonlinear"):
        m = getattr(e.mod(THW), "ThwaitesMethod" + kind)(e.real("nu", gt=0))
        m.initial_delta_m = e.real("d", gt=0, span=(1e-4, 1))
        return m
    if kind == "Stagnation":
        return e.mod(IC).FalknerSkanStagCondition(e.real("du", span=(0.1, 2)), e.real("nu", gt=0))
    if kind == "Manual":
        return e.mod(IC).ManualCondition(e.real("dd"), e.real("dm"), e.real("dk"))
    if kind in ("Blasius", "FalknerSkan"):
        return sim(e, (kind,))[0]
    M = e.mod(REF)
    if kind == "XFoilReader":
        return M.XFoilReader()
    if kind == "XFoilAirfoilData":
        return M.XFoilAirfoilData("")
    if kind == "XFoilWakeData":
        return M.XFoilWakeData("")
    pos = dict(gt=0, span=(0.5, 3))
    vals = [e.real("row" + n, **(pos if p else {})) for n, p in
            (("x", 0), ("ui", 1), ("dui", 0), ("theta", 1), ("h", 1), ("hs", 1), ("g", 1), ("cf", 1), ("cflt", 0),
             ("cfe", 0), ("beta", 0))]
    return M.StanfordOlympics1968StationData(e.choice("SI", [True, False]), e.row(vals), "", [])


def value_of(o, p):
    return getattr(o, p)


def same_value(e, name, a, b):
    """Equal, also when both are infinite or undefined."""
    if e.symbolic:
        e.eq(name, a, b, shape=False)
    else:
        e.true(name, a == b or abs(a - b) <= 1e-9 * (abs(a) + abs(b)) or (a != a and b != b), f"{a!r} {b!r}")


@contract(*SUBJ)
def read_back(e):
    kind = e.choice("class", list(RULES))
    rules = dict(RULES[kind])
    o = build(e, kind)
    p = e.choice("parameter", list(rules))
    prepared = e.choice("others", ["as built", "set"])
    if prepared == "set":
        for q in rules:
            setattr(o, q, number(e, "first " + q, rules[q]))
    old = {q: value_of(o, q) for q in rules}
    new = number(e, "new", rules[p])
    setattr(o, p, new)
    same_value(e, "read back", value_of(o, p), new)
    for q in rules:
        if q != p:
            same_value(e, f"{q} unchanged", value_of(o, q), old[q])
    again = number(e, "newer", rules[p])
    setattr(o, p, again)
    same_value(e, "read back again", value_of(o, p), again)


@contract(*SUBJ)
def refused(e):
    kind = e.choice("class", list(RULES))
    rules = dict(RULES[kind])
    limited = [q for q in rules if rules[q] != "any"]
    o = build(e, kind)
    p = e.choice("parameter", limited)
    if e.choice("others", ["as built", "set"]) == "set":
        for q in rules:
            setattr(o, q, number(e, "first " + q, rules[q]))
    old = {q: value_of(o, q) for q in rules}
    # zero itself only where it is not allowed
    bad = -number(e, "size", "pos" if rules[p] == "nonneg" else "nonneg")
    e.raises("refused", ValueError, lambda: setattr(o, p, bad))
    for q in rules:
        same_value(e, f"{q} unchanged", value_of(o, q), old[q])


@contract(*SUBJ)
def each_object_its_own(e):
    """Setting a parameter of one object leaves another object of the class alone."""
    kind = e.choice("class", [k for k in RULES if k not in ("Blasius", "FalknerSkan", "Station")])
    rules = dict(RULES[kind])
    a, b = build(e, kind), build(e, kind)
    va = {q: number(e, "first " + q, rules[q]) for q in rules}
    vb = {q: number(e, "second " + q, rules[q]) for q in rules}
    for q in rules:
        setattr(a, q, va[q])
        setattr(b, q, vb[q])
    for q in rules:
        same_value(e, q + " of the first", value_of(a, q), va[q])
        same_value(e, q + " of the second", value_of(b, q), vb[q])


@contract(*SUBJ)
def constructors(e):
    """Values given to a constructor are read back, and refused like those that are set."""
    kind = e.choice("class", ["Head", "Linear", "Nonlinear", "Stagnation", "Manual", "Blasius", "FalknerSkan"])
    good = e.choice("values", ["good", "bad"]) == "good"
    nu = number(e, "nu", "pos") if good else -number(e, "nu", "nonneg")
    u = number(e, "u", "pos")
    M = e.mod(ANA)
    if kind in ("Blasius", "FalknerSkan") and not good and e.choice("which", ["viscosity", "velocity"]) == "velocity":
        nu, u = u, nu
    new = {"Head": lambda: e.mod(HEAD).HeadMethod(nu), "Linear": lambda: e.mod(THW).ThwaitesMethodLinear(nu),
           "Nonlinear": lambda: e.mod(THW).ThwaitesMethodNonlinear(nu),
           "Stagnation": lambda: e.mod(IC).FalknerSkanStagCondition(u, nu),
           "Manual": lambda: e.mod(IC).ManualCondition(u, nu, u + 1),
           "Blasius": lambda: M.Blasius(u, nu, fw_pp=0.47, eta_inf=5.0),
           "FalknerSkan": lambda: M.FalknerSkan(0.5, u, nu, fw_pp=0.93, eta_inf=5.0)}[kind]
    if not good:
        if kind != "Manual":
            e.raises("refused", ValueError, new)
        return
    if kind in ("Blasius", "FalknerSkan"):
        e.ivp("end" if e.symbolic else "real")
        o, ex = e.attempt(new)
        if ex is not None:
            e.requires(False)
        same_value(e, "u_ref", o.u_ref, u)
        same_value(e, "nu_ref", o.nu_ref, nu)
        return
    o = new()
    if kind == "Manual":
        same_value(e, "delta_d", o.delta_d(), u)
        same_value(e, "delta_m", o.delta_m(), nu)
        same_value(e, "delta_k", o.delta_k(), u + 1)
        return
    same_value(e, "nu", o.nu, nu)
    if kind == "Stagnation":
        same_value(e, "du_e", o.du_e, u)


@contract(*SUBJ)
def profiles(e):
    """Profile arrays of a station: no negative entries."""
    o = build(e, "Station")
    p = e.choice("parameter", PROFILE)
    n = e.choice("length", [1, 2, 3])
    first = {}
    for q in PROFILE:
        first[q] = e.vec(*[number(e, f"{q}{k}", "nonneg") for k in range(2)])
        setattr(o, q, first[q])
    rules = dict(RULES["Station"])
    old = {q: value_of(o, q) for q in rules}
    new = [number(e, f"new{k}", "nonneg") for k in range(n)]
    if e.choice("values", ["good", "bad"]) == "good":
        setattr(o, p, e.vec(*new))
        e.eq("read back", getattr(o, p), e.vec(*new))
    else:
        new[e.choice("bad entry", list(range(n)))] = -number(e, "size", "pos")
        e.raises("refused", ValueError, lambda: setattr(o, p, e.vec(*new)))
        e.eq("still the previous one", getattr(o, p), first[p])
    for q in PROFILE:
        if q != p:
            e.eq(q + " unchanged", getattr(o, q), first[q])
    for q in rules:
        same_value(e, q + " unchanged", value_of(o, q), old[q])


@contract("ibl.reference._xfoil_reader:XFoilReader.name")
def reader_name(e):
    r = e.mod(REF).XFoilReader()
    a = e.choice("name", ["NACA 0012", "", "x"])
    old = {q: value_of(r, q) for q, _ in RULES["XFoilReader"]}
    r.name = a
    e.eq("name", r.name, a)
    for q in old:
        same_value(e, q + " unchanged", value_of(r, q), old[q])
    e.eq("file name", r.filename, "")
