# The stagnation point of an XFoil dump.
R = XR + ":XFoilReader."
SUBJ = (R + "filename", R + "_interpolate_aifoil_data", R + "upper", R + "lower")
REST = tuple(k for k in FIELDS if k not in ("s", "x", "u_e_rel"))


@contract(*SUBJ)
def interpolated(e):
    """Everything but the abscissa is interpolated at the zero of velocity; both surfaces agree."""
    name, up, last, first, low, wakes = dump(e, exact=False, wake=False, header=False)
    r = e.mod(XR).XFoilReader(name)
    p = stagnation(last, first)
    for what, q in (("upper", r.upper(0)), ("lower", r.lower(0))):
        e.eq(what + " velocity", q.u_e_rel, 0, abstol=1e-12)
        e.eq(what + " arc-length", q.s, 0, abstol=1e-12)
        for k in REST:
            e.eq(f"{what} {k}", getattr(q, k), p[k], abstol=1e-12)
    # the arc-length of the stagnation point is interpolated too
    e.eq("distance to the upper neighbour", r.upper(1).s, p["s"] - last["s"], abstol=1e-12)
    e.eq("distance to the lower neighbour", r.lower(1).s, first["s"] - p["s"], abstol=1e-12)
    e.eq("same abscissa", r.upper(0).x, r.lower(0).x)


@contract(*SUBJ)
def between_neighbours(e):
    """The interpolated values lie between the neighbouring rows' (reported signs)."""
    name, up, last, first, low, wakes = dump(e, exact=False, wake=False, header=False)
    r = e.mod(XR).XFoilReader(name)
    k = e.choice("quantity", REST)
    a = last[k]
    b = -first[k] if k in FLIPPED else first[k]
    rise = e.choice("rising", [True, False])
    e.requires(a <= b if rise else b <= a)
    q = getattr(r.upper(0), k)
    lo, hi = (a, b) if rise else (b, a)
    e.true("not below", q >= lo - (0 if e.symbolic else 1e-12))
    e.true("not above", q <= hi + (0 if e.symbolic else 1e-12))


@contract(*SUBJ, known="KF2")
def abscissa(e):
    """The abscissa is interpolated as well."""
    name, up, last, first, low, wakes = dump(e, exact=False, wake=False, header=False)
    r = e.mod(XR).XFoilReader(name)
    e.eq("abscissa", r.upper(0).x, stagnation(last, first)["x"], abstol=1e-12)


@contract(*SUBJ)
def abscissa_bounds(e):
    """The abscissa is not negative and not larger than both neighbours' distances from zero."""
    name, up, last, first, low, wakes = dump(e, exact=False, wake=False, header=False)
    r = e.mod(XR).XFoilReader(name)
    e.requires(last["x"] >= 0)
    e.requires(first["x"] >= 0)
    x = r.upper(0).x
    big = e.choice("larger", ["upper", "lower"])
    e.requires(last["x"] >= first["x"] if big == "upper" else last["x"] <= first["x"])
    e.true("not negative", x >= 0)
    e.true("not larger", x <= (last["x"] if big == "upper" else first["x"]) + (0 if e.symbolic else 1e-12))


@contract(*SUBJ)
def sensitive_to_neighbours_only(e):
    """Two dumps that differ in other rows have the same stagnation point."""
    name, up, last, first, low, wakes = dump(e, exact=False, wake=False, header=False)
    r = e.mod(XR).XFoilReader(name)
    two = e.mod(XR).XFoilReader(e.file("two.txt", [airfoil_line(e, last), airfoil_line(e, first)]))
    for k in FIELDS:
        e.eq(k, getattr(r.upper(0), k), getattr(two.upper(0), k), abstol=1e-12)
        e.eq(k + " (lower)", getattr(r.lower(0), k), getattr(two.lower(0), k), abstol=1e-12)
