# Arrays of records.
R = XR + ":XFoilReader."
ST = "ibl.reference._stanford_1968"
AIR = {"s": "s", "x": "x", "y": "y", "u_e": "u_e_rel", "delta_d": "delta_d", "delta_m": "delta_m", "delta_k": None,
       "shape_d": "shape_d", "shape_k": "shape_k", "c_f": "c_f", "mass_defect": "mass_defect",
       "mom_defect": "mom_defect", "ke_defect": "ke_defect"}
WK = ("s", "x", "y", "u_e", "delta_d", "delta_m", "shape_d")
ALL = tuple(R + f"{q}_{s}" for q in AIR for s in ("upper", "lower")) + tuple(R + q + "_wake" for q in WK)


@contract(*ALL)
def surfaces(e):
    """Entry by entry the records' values."""
    name, up, last, first, low, wakes = dump(e, header=False)
    r = e.mod(XR).XFoilReader(name)
    how = e.choice("reference velocity", ["default", "set"])
    u = 1
    if how == "set":
        u = e.real("u_ref", gt=0, span=(0.1, 100))
        for side in ("upper", "lower", "wake"):
            for q in AIR if side != "wake" else WK:
                getattr(r, f"{q}_{side}")()
        r.u_ref = u
    exact = e.choices["row at stagnation"] == 1
    for side, pieces in (("upper", ([] if exact else ["stagnation"]) + [last] + e.turned(up)),
                         ("lower", ["stagnation", first] + low), ("wake", wakes)):
        n = e.total(*pieces)
        e.eq(side + " count", getattr(r, side + "_count")(), n)
        for q in AIR if side != "wake" else WK:
            a = getattr(r, f"{q}_{side}")()
            e.eq(f"{q}_{side} length", e.count(a), n)
            e.eq(f"{q}_{side} dimensions", e.np.ndim(a), 1)
            for pos, rec in e.along(*pieces):
                p = getattr(r, side)(pos)
                v = p.shape_k * p.delta_m if q == "delta_k" else getattr(p, AIR[q])
                e.eq(f"{q}_{side}", e.at(a, pos), u * v if q == "u_e" else v, abstol=1e-14)


@contract(*ALL)
def records_changed(e):
    """An array follows changes of the records made after it was first asked for."""
    name, up, last, first, low, wakes = dump(e, exact=False, wake=True, header=False)
    r = e.mod(XR).XFoilReader(name)
    side = e.choice("side", ["upper", "lower", "wake"])
    for q in AIR if side != "wake" else WK:
        a = getattr(r, f"{q}_{side}")
        a()
        p = getattr(r, side)(0)
        v = e.real("new " + q, gt=0, span=(0.1, 2))
        if q == "delta_k":
            p.shape_k = v
            v = v * p.delta_m
        else:
            setattr(p, AIR[q], v)
        e.eq(f"{q}_{side}", e.at(a(), 0), v)


@contract(*ALL)
def not_read(e):
    """Without a file the arrays are empty."""
    r = e.mod(XR).XFoilReader()
    for side in ("upper", "lower", "wake"):
        e.eq(side + " count", getattr(r, side + "_count")(), 0)
        for q in AIR if side != "wake" else WK:
            e.eq(f"{q}_{side}", e.count(getattr(r, f"{q}_{side}")()), 0)


@contract(*ALL)
def arrays_are_copies(e):
    """Writing into an array changes neither the records nor later arrays."""
    name, up, last, first, low, wakes = dump(e, exact=False, wake=True, header=False)
    r = e.mod(XR).XFoilReader(name)
    side = e.choice("side", ["upper", "lower", "wake"])
    for q in AIR if side != "wake" else WK:
        f = getattr(r, f"{q}_{side}")
        v = e.at(f(), 0)
        a = f()
        a *= 2
        e.eq(f"{q}_{side} again", e.at(f(), 0), v)


# ------------------------------------------------------------------ Stanford stations
O = SO + ":StanfordOlympics1968."
OF_STATION = ("x", "u_e", "du_e", "delta_d", "delta_m", "delta_k", "delta_c", "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt",
              "c_f_exp", "beta_eq", "u_star", "nu", "re_delta_d", "re_delta_m")
OARR = tuple(O + q for q in OF_STATION)


@contract(*OARR, O + "station", O + "station_count")
def stations(e):
    """Any number of stations; also after records were changed and after another case."""
    units = e.choice("units", ["SI", "English"])
    case = "1100" if units == "SI" else "2100"
    rows = e.rows("station", lambda j: summary_row(e, "st"))
    smooth = e.rows("smooth", lambda j: smooth_row(e, "sm"), brief=True)
    lines = case_lines(e, case, e.real("nu", gt=0, span=(0.1, 1)), e.lines(rows, lambda s: summary_line(e, s)),
                       e.lines(smooth, lambda s: smooth_line(e, s)))
    o = e.mod(SO).StanfordOlympics1968()
    for q in OF_STATION:
        e.eq(q + " of no case", e.count(getattr(o, q)()), 0)
    e.case_file(case, lines)
    o.case = case
    e.served()
    e.eq("count", o.station_count(), e.total(*rows))
    for q in OF_STATION:
        a = getattr(o, q)()
        e.eq(q + " length", e.count(a), o.station_count())
        if rows:
            e.eq(q + " dimensions", e.np.ndim(a), 1)
        for pos, s in e.along(*rows):
            if q in ("delta_c", "nu", "re_delta_d", "re_delta_m"):
                continue
            e.eq(q, e.at(a, pos), getattr(o.station(pos), q))
    n = e.total(*smooth)
    for q in ("x_smooth", "u_e_smooth", "du_e_smooth"):
        e.eq(q + " length", e.count(getattr(o, q)()), n)
    o.case = ""
    for q in OF_STATION:
        e.eq(q + " of no case again", e.count(getattr(o, q)()), 0)
    for q in ("x_smooth", "u_e_smooth", "du_e_smooth"):
        e.eq(q + " of no case again", e.count(getattr(o, q)()), 0)


@contract(*OARR)
def stations_changed(e):
    """Arrays follow the records of recorded stations, entry by entry."""
    s = [summary_row(e, f"st{j}") for j in range(2)]
    t = [station_row(e, f"t{j}", "SI", s[j]) for j in range(2)]
    case = "1300"
    e.case_file(case, case_lines(e, case, e.real("nu", gt=0, span=(0.1, 1)), [summary_line(e, v) for v in s], [],
                                 [station_line(e, "SI", v) for v in t]))
    o = e.mod(SO).StanfordOlympics1968(case)
    e.served()
    k = e.choice("changed", [0, 1])
    for q in OF_STATION:
        a = getattr(o, q)()
        for j in range(2):
            e.eq(q, e.at(a, j), getattr(o.station(j), q))
        v = e.real("new " + q, gt=0, span=(0.1, 2))
        setattr(o.station(k), q, v)
        b = getattr(o, q)()
        e.eq(q + " changed", e.at(b, k), v)
        e.eq(q + " of the other", e.at(b, 1 - k), e.at(a, 1 - k))
