# Surfaces of an XFoil dump.
R = XR + ":XFoilReader."
SUBJ = (R + "filename", R + "_get_dump_data", R + "upper", R + "lower", R + "wake", R + "upper_count",
        R + "lower_count", R + "wake_count", XD + ":XFoilAirfoilData.reset", XD + ":XFoilWakeData.reset")


def check_points(e, what, point, count, pieces, s_of, flip):
    e.eq(what + " count", count(), e.total(*pieces))
    for pos, rec in e.along(*pieces):
        p = point(pos)
        for k in FIELDS:
            if k == "s":
                e.eq(f"{what} arc-length", p.s, s_of(rec), abstol=1e-12)
            elif k in rec:
                v = -rec[k] if flip(rec) and k in FLIPPED else rec[k]
                e.eq(f"{what} {k}", getattr(p, k), v, abstol=1e-12)


@contract(*SUBJ)
def surfaces(e):
    """Every row on its surface, in order, with its values."""
    name, up, last, first, low, wakes = dump(e)
    r = e.mod(XR).XFoilReader(name)
    exact = e.choices["row at stagnation"] == 1
    if exact:
        stag = last
    else:
        stag = {"s": stagnation(last, first)["s"], "u_e_rel": 0}
    s0 = stag["s"]
    check_points(e, "upper", r.upper, r.upper_count, ([] if exact else [stag]) + [last] + e.turned(up),
                 lambda q: s0 - q["s"], lambda q: False)
    check_points(e, "lower", r.lower, r.lower_count, [stag, first] + low,
                 lambda q: q["s"] - s0, lambda q: q is not stag)
    e.eq("wake count", r.wake_count(), e.total(*wakes))
    for pos, rec in e.along(*wakes):
        p = r.wake(pos)
        for k in WAKE_FIELDS:
            e.eq("wake " + k, getattr(p, k), rec[k] - wakes[0]["s"] if k == "s" else rec[k], abstol=1e-12)


@contract(*SUBJ)
def arc_length_increases(e):
    """From zero at stagnation; neighbouring rows stay in the file's order."""
    name, up, last, first, low, wakes = dump(e, wake=True, header=False)
    r = e.mod(XR).XFoilReader(name)
    exact = e.choices["row at stagnation"] == 1
    e.eq("upper starts at zero", r.upper(0).s, 0, abstol=1e-12)
    e.eq("lower starts at zero", r.lower(0).s, 0, abstol=1e-12)
    e.eq("wake starts at zero", r.wake(0).s, 0, abstol=1e-12)
    if not exact:
        e.true("upper increases after stagnation", r.upper(1).s > 0)
    e.true("lower increases after stagnation", r.lower(1).s > 0)
    # any two rows of a surface keep their distance, so their order follows the file's
    k = 0 if exact else 1
    for pos, rec in e.along(*(["stagnation"] * k), last, *e.turned(up)):
        if rec != "stagnation":
            e.eq("upper distance", r.upper(pos).s - r.upper(k).s, last["s"] - rec["s"], abstol=1e-12)
    for pos, rec in e.along("stagnation", first, *low):
        if rec != "stagnation":
            e.eq("lower distance", r.lower(pos).s - r.lower(1).s, rec["s"] - first["s"], abstol=1e-12)
    for pos, rec in e.along(*wakes):
        e.eq("wake distance", r.wake(pos).s - r.wake(0).s, rec["s"] - wakes[0]["s"], abstol=1e-12)


@contract(*SUBJ)
def surfaces_are_separate(e):
    """Changing a point of one surface leaves the other alone."""
    name, up, last, first, low, wakes = dump(e, wake=False, header=False)
    r = e.mod(XR).XFoilReader(name)
    a, b = r.upper(0), r.lower(0)
    e.true("two records", a is not b)
    old = b.y
    a.y = e.real("other")
    e.eq("other surface", b.y, old)
