# Stanford cases in SI units.
C = SO + ":StanfordOlympics1968."
S = SS + ":StanfordOlympics1968StationData."
V = SS + ":StanfordOlympics1968SmoothVel."
CASES = {"SI": ("1100", "1300"), "English": ("2200", "3100", "0411")}
ARRAYS = ("x", "u_e", "du_e", "delta_d", "delta_m", "delta_k", "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt", "c_f_exp",
          "beta_eq", "u_star", "nu", "re_delta_d", "re_delta_m", "delta_c")


def from_summary(e, units, s):
    """What a station reports that has only its summary row."""
    w = {k: si(units, k, s[k]) for k in SUMM}
    w["delta_d"] = w["shape_d"] * w["delta_m"]
    w["delta_k"] = w["shape_k"] * w["delta_m"]
    w["u_star"] = w["u_e"] * e.np.sqrt(0.5 * w["c_f"])
    return w


def another_case(e, case):
    units = "SI" if case[0] == "1" else "English"
    return case_lines(e, case, e.real("other nu", gt=0, span=(0.1, 1)), [summary_line(e, summary_row(e, "other"))],
                      [smooth_line(e, smooth_row(e, "other sm"))])


def read(e, case, lines, how=None):
    M = e.mod(SO).StanfordOlympics1968
    how = how or e.choice("read", ["constructor", "setter", "after another"])
    if how == "after another":
        other = "1100" if case[0] != "1" else "2200"
        e.case_file(other, another_case(e, other))
        o = M(other)
        for q in ARRAYS:
            getattr(o, q)()
    e.case_file(case, lines)
    if how == "constructor":
        o = M(case)
    elif how == "setter":
        o = M()
        o.case = case
    else:
        o.case = case
    e.served()
    return o


@contract(C + "case", C + "_get_case_data", S + "_reset_summary_data", V + "reset", C + "station_count", C + "nu_ref")
def summary_only(e):
    """Any number of summary rows and smoothed velocities without station data."""
    units = e.choice("units", ["SI", "English"])
    case = e.choice("case", CASES[units])
    nu = e.real("nu", gt=0, span=(0.1, 1))
    rows = e.rows("station", lambda j: summary_row(e, "st"))
    smooth = e.rows("smooth", lambda j: smooth_row(e, "sm"))
    o = read(e, case, case_lines(e, case, nu, e.lines(rows, lambda s: summary_line(e, s)),
                                 e.lines(smooth, lambda s: smooth_line(e, s))))
    e.eq("viscosity", o.nu_ref, nu * UNITS[units]["nu"])
    e.eq("case", o.case, case)
    e.eq("number of stations", o.station_count(), e.total(*rows))
    for q in ARRAYS:
        e.eq(q + " length", e.count(getattr(o, q)()), e.total(*rows))
    for pos, s in e.along(*rows):
        w = from_summary(e, units, s)
        for q in w:
            e.eq(q, getattr(o.station(pos), q), w[q])
            e.eq(q + " array", e.at(getattr(o, q)(), pos), w[q])
        e.eq("no samples", o.station(pos).sample_count(), 0)
    for q, k in (("x_smooth", "x"), ("u_e_smooth", "u_e"), ("du_e_smooth", "du_e")):
        a = getattr(o, q)()
        e.eq(q + " length", e.count(a), e.total(*smooth))
        for pos, s in e.along(*smooth):
            e.eq(q, e.at(a, pos), si(units, k, s[k]))


def from_station(e, s, t):
    """What a station with a summary row s and a station summary row t (SI) reports."""
    w = {k: s[k] for k in ("du_e", "c_f", "c_f_lt", "c_f_exp", "beta_eq")}
    w.update(t)
    return w


def both_rows(e, tag, units):
    s = summary_row(e, tag)
    return dict(s=s, t=station_row(e, tag + "t", units, s))


@contract(C + "case", C + "_get_case_data", S + "_reset_summary_data", S + "_reset_station_summary", *[C + q for q in ARRAYS])
def station_summaries(e):
    """Any number of stations with their recorded thicknesses."""
    units = e.choice("units", ["SI", "English"])
    case = CASES[units][0]
    nu = e.real("nu", gt=0, span=(0.1, 1))
    rows = e.rows("station", lambda j: both_rows(e, "st", units))
    o = read(e, case, case_lines(e, case, nu, e.lines(rows, lambda r: summary_line(e, r["s"])), [],
                                 e.lines(rows, lambda r: station_line(e, units, r["t"]))), "constructor")
    e.eq("number of stations", o.station_count(), e.total(*rows))
    for q in ARRAYS:
        e.eq(q + " length", e.count(getattr(o, q)()), e.total(*rows))
    for pos, r in e.along(*rows):
        w = from_station(e, r["s"], r["t"])
        for q in w:
            e.eq(q, getattr(o.station(pos), q), w[q])
            if q in ARRAYS:
                e.eq(q + " array", e.at(getattr(o, q)(), pos), w[q])
        e.eq("no samples", o.station(pos).sample_count(), 0)


@contract(C + "case", C + "_get_case_data", S + "_reset_station_data", S + "sample_count", *[C + q for q in SAMPLE])
def samples(e):
    """Up to two stations, each with any number of samples."""
    units = e.choice("units", ["SI", "English"])
    case = CASES[units][1]
    nu = e.real("nu", gt=0, span=(0.1, 1))
    k = e.choice("stations", [1, 2])
    rows = [both_rows(e, f"st{j}", units) for j in range(k)]
    prof = [e.rows(f"samples{j}", lambda n, j=j: sample_row(e, f"sa{j}", units, rows[j]["t"]), brief=k > 1) for j in range(k)]
    smooth = e.rows("smooth", lambda j: smooth_row(e, "sm"), brief=True)
    o = read(e, case, case_lines(e, case, nu, [summary_line(e, r["s"]) for r in rows], e.lines(smooth, lambda s: smooth_line(e, s)),
                                 [station_line(e, units, r["t"]) for r in rows],
                                 [e.lines(p, lambda r: sample_line(e, units, r)) for p in prof]), "constructor")
    e.eq("number of stations", o.station_count(), k)
    for j in range(k):
        w = from_station(e, rows[j]["s"], rows[j]["t"])
        for q in w:
            e.eq(q, getattr(o.station(j), q), w[q])
        n = e.total(*prof[j])
        e.eq("number of samples", o.station(j).sample_count(), n)
        for q in SAMPLE:
            a, b = getattr(o, q)(j), getattr(o.station(j), q)
            e.eq(q + " length", e.count(a), n)
            for pos, r in e.along(*prof[j]):
                e.eq(q, e.at(a, pos), r[q])
                e.eq(q + " of the station", e.at(b, pos), r[q])


@contract(C + "case", C + "station_count", C + "nu_ref", *[C + q for q in ARRAYS], C + "x_smooth", C + "u_e_smooth", C + "du_e_smooth")
def cleared(e):
    """A case that is cleared, or followed by one without smoothed velocities, leaves nothing behind."""
    how = e.choice("then", ["cleared", "shorter case"])
    o = read(e, "1100", case_lines(e, "1100", e.real("nu", gt=0, span=(0.1, 1)),
                                   [summary_line(e, summary_row(e, f"st{j}")) for j in range(2)],
                                   [smooth_line(e, smooth_row(e, f"sm{j}")) for j in range(2)]), "constructor")
    for q in ARRAYS + ("x_smooth", "u_e_smooth", "du_e_smooth"):
        getattr(o, q)()
    n = 0
    if how == "cleared":
        o.case = ""
        e.eq("viscosity", o.nu_ref, e.np.inf)
    else:
        n, case = 1, "2200"
        nu = e.real("nu2", gt=0, span=(0.1, 1))
        e.case_file(case, case_lines(e, case, nu, [summary_line(e, summary_row(e, "sc"))], []))
        o.case = case
        e.eq("viscosity", o.nu_ref, nu * UNITS["English"]["nu"])
    e.eq("case", o.case, "2200" if n else "")
    e.eq("number of stations", o.station_count(), n)
    for q in ARRAYS:
        e.eq(q + " length", e.count(getattr(o, q)()), n)
    for q in ("x_smooth", "u_e_smooth", "du_e_smooth"):
        e.eq(q + " length", e.count(getattr(o, q)()), 0)
