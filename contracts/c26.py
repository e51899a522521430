# Layout of dump files.
R = XR + ":XFoilReader."
SUBJ = (R + "filename", R + "_get_dump_data", R + "__init__", XD + ":XFoilAirfoilData.reset", XD + ":XFoilWakeData.reset")
SETTINGS = ("name", "alpha", "u_ref", "c", "reynolds", "n_trans", "x_trans_upper", "x_trans_lower")


def same_points(e, what, point, count, pieces, flip):
    """The rows' own values (velocity shows the sign convention, x which row it is)."""
    e.eq(what + " count", count, e.total(*pieces))
    for pos, rec in e.along(*pieces):
        if rec != "stagnation":
            p = point(pos)
            for k in ("x", "y", "delta_m", "shape_d"):
                e.eq(f"{what} {k}", getattr(p, k), rec[k])
            e.eq(f"{what} velocity", p.u_e_rel, -rec["u_e_rel"] if flip else rec["u_e_rel"])


def content(e, r, d):
    """r holds exactly the content of the dump d."""
    name, up, last, first, low, wakes, exact = d
    e.true("file name", r.filename == name)
    same_points(e, "upper", r.upper, r.upper_count(), ([] if exact else ["stagnation"]) + [last] + e.turned(up), False)
    same_points(e, "lower", r.lower, r.lower_count(), ["stagnation", first] + low, True)
    same_points(e, "wake", r.wake, r.wake_count(), wakes, False)


def nothing(e, r):
    e.true("no file name", r.filename == "")
    for s in ("upper", "lower", "wake"):
        e.eq(s + " empty", getattr(r, s + "_count")(), 0)
        e.eq(s + " array empty", e.count(getattr(r, "s_" + s)()), 0)


@contract(*SUBJ)
def layout(e):
    """Airfoil rows, wake rows, with and without header; reading by the constructor and by the setter."""
    d = dump(e)
    if e.choice("how", ["constructor", "setter"]) == "constructor":
        r = e.mod(XR).XFoilReader(d[0])
    else:
        r = e.mod(XR).XFoilReader()
        nothing(e, r)
        r.filename = d[0]
    content(e, r, (*d, e.choices["row at stagnation"] == 1))


@contract(*SUBJ)
def header_changes_nothing(e):
    """The same rows with and without the comment line."""
    name, up, last, first, low, wakes = dump(e, header=False, brief=True)
    r = e.mod(XR).XFoilReader(name)
    lines = e.texts(e.lines(up + [last, first] + low, lambda q: airfoil_line(e, q)),
                    e.lines(wakes, lambda q: wake_line(e, q)))
    head = e.choice("comment", [HEADER, "#" + "-" * 90 + "\n", "# " + " ".join("1.0" for _ in FIELDS).rjust(100) + "\n"])
    h = e.mod(XR).XFoilReader(e.file("headed.txt", e.texts(head, lines)))
    for s, pieces in (("upper", ([] if e.choices["row at stagnation"] == 1 else ["stagnation"]) + [last] + e.turned(up)),
                      ("lower", ["stagnation", first] + low), ("wake", wakes)):
        e.eq(s + " count", getattr(h, s + "_count")(), getattr(r, s + "_count")())
        for pos, rec in e.along(*pieces):
            a, b = getattr(h, s)(pos), getattr(r, s)(pos)
            for k in FIELDS if s != "wake" else WAKE_FIELDS:
                e.eq(f"{s} {k}", getattr(a, k), getattr(b, k), abstol=1e-14)


@contract(*SUBJ)
def width_decides(e):
    """Rows of any width of 80 and more are airfoil rows, the first shorter one starts the wake."""
    last = airfoil_row(e, "last", vel=dict(gt=0, span=(0.01, 1)))
    first = airfoil_row(e, "first", s_gt=last["s"], vel=dict(lt=0, span=(-1, -0.01)))
    w0 = wake_row(e, "w0", 0)
    wide = e.choice("airfoil width", [80, 81, 120, 200])
    slim = e.choice("wake width", [79, 78, 40])
    def line(r, keys, n):
        if e.symbolic:
            return e.row([r[k] for k in keys], n)
        t = e.row([e.brief(r[k]) for k in keys])
        return t.rjust(n) if len(t) <= n else t
    a = [line(r, FIELDS, wide) for r in (last, first)]
    w = [line(r, ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d"), slim) for r in (w0,)]
    if any(len(t) < 80 for t in a) or any(len(t) >= 80 for t in w):
        return
    r = e.mod(XR).XFoilReader(e.file("d.txt", a + w))
    e.eq("upper count", r.upper_count(), 2)
    e.eq("lower count", r.lower_count(), 2)
    e.eq("wake count", r.wake_count(), 1)
    e.eq("wake x", r.wake(0).x, w0["x"], abstol=1e-12)


BAD = ("missing", "extra", "text", "text first", "text last")


def spoil(e, vals, width, kind, words=False):
    vals = list(vals)
    if kind == "missing":
        vals.pop()
    elif kind == "extra":
        vals.append(e.real("surplus", span=(0, 1)))
        if not e.symbolic:
            vals[-1] = e.brief(vals[-1])
    else:
        vals[{"text": len(vals) // 2, "text first": 0, "text last": -1}[kind]] = e.choice("word", ["x.y", "1,5", "0.1.2", "--"]) if words else "x.y"
    return e.row(vals, width)


@contract(*SUBJ, weight=2)
def bad_airfoil_row(e):
    """A bad row anywhere among the airfoil rows."""
    kind = e.choice("bad", BAD)
    where = e.choice("where", ["upper", "last", "first", "lower"])
    last = airfoil_row(e, "last", vel=dict(gt=0, span=(0.01, 1)))
    up = e.rows("upper", lambda j: airfoil_row(e, "up", s_hi=last["s"], vel=dict(lo=0, span=(0, 1.5))), True)
    first = airfoil_row(e, "first", s_gt=last["s"], vel=dict(lt=0, span=(-1, -0.01)))
    low = e.rows("lower", lambda j: airfoil_row(e, "lo", s_lo=first["s"]), True)
    b = dict(last if where in ("upper", "last") else first)
    bad = spoil(e, [b[k] for k in FIELDS], 115, kind)
    L = lambda rows: e.lines(rows, lambda r: airfoil_line(e, r))
    if where == "upper":
        lines = e.texts(bad, L(up + [last, first] + low)) if e.choice("very first", [True, False]) else \
            e.texts(L(up), bad, L([last, first] + low))
    elif where == "last":
        lines = e.texts(L(up), bad, L([first] + low))
    elif where == "first":
        lines = e.texts(L(up + [last]), bad, L(low))
    else:
        lines = e.texts(L(up + [last, first]), bad, L(low)) if e.choice("then more", [True, False]) else \
            e.texts(L(up + [last, first] + low), bad)
    bad = e.file("bad.txt", lines)
    if e.choice("how", ["constructor", "setter"]) == "constructor":
        e.raises("refused", ValueError, lambda: e.mod(XR).XFoilReader(bad))
    else:
        r = e.mod(XR).XFoilReader()
        e.raises("refused", ValueError, lambda: setattr(r, "filename", bad))


@contract(*SUBJ)
def bad_wake_row(e):
    """A bad row anywhere in the wake."""
    kind = e.choice("bad", BAD)
    last = airfoil_row(e, "last", vel=dict(gt=0, span=(0.01, 1)))
    first = airfoil_row(e, "first", s_gt=last["s"], vel=dict(lt=0, span=(-1, -0.01)))
    w0 = wake_row(e, "wake0", 0)
    more = e.rows("wake", lambda j: wake_row(e, "wk", w0["s"]), True)
    bad = spoil(e, [w0[k] for k in ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d")], 60, kind)
    if len(bad) >= 80:
        return
    L = lambda rows: e.lines(rows, lambda r: wake_line(e, r))
    where = e.choice("where", ["first", "second", "last"])
    w = e.texts(bad, L([w0] + more)) if where == "first" else \
        e.texts(L([w0]), bad, L(more)) if where == "second" else e.texts(L([w0] + more), bad)
    bad = e.file("bad.txt", e.texts(e.lines([last, first], lambda r: airfoil_line(e, r)), w))
    e.raises("refused", ValueError, lambda: e.mod(XR).XFoilReader(bad))


@contract(XD + ":XFoilAirfoilData.reset", XD + ":XFoilWakeData.reset")
def records(e):
    """Records on their own: values in column order, refusals, reset by an empty row."""
    M = e.mod(XD)
    if e.choice("record", ["airfoil", "wake"]) == "airfoil":
        r = airfoil_row(e, "r")
        cols, cls, row = FIELDS, M.XFoilAirfoilData, e.row([r[k] for k in FIELDS])
    else:
        r = wake_row(e, "r", 0)
        cols = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d")
        cls, row = M.XFoilWakeData, e.row([r[k] for k in cols])
    o = cls(row)
    for k in cols:
        if k != "c_f" or cls is M.XFoilAirfoilData:
            e.eq(k, getattr(o, k), r[k])
    kind = e.choice("bad", BAD)
    bad = spoil(e, [r[k] for k in cols], 0, kind, True)
    e.raises("refused", ValueError, lambda: cls(bad))
    e.raises("refused by reset", ValueError, lambda: o.reset(bad))
    o.reset(row)
    for k in cols:
        if k != "c_f" or cls is M.XFoilAirfoilData:
            e.eq(k + " again", getattr(o, k), r[k])
    o.reset("")
    for k in cols:
        if k != "c_f" or cls is M.XFoilAirfoilData:
            e.true(k + " unset", getattr(o, k) == float("inf"))


def settings(e, r):
    r.name = "some airfoil"
    r.alpha = e.real("alpha", span=(-0.1, 0.1))
    r.u_ref = e.real("u_ref", gt=0, span=(2, 100))
    r.c = e.real("c", gt=0, span=(2, 3))
    r.reynolds = e.real("re", gt=0, span=(1e5, 1e6))
    r.n_trans = e.real("n", gt=0, span=(5, 9))
    r.x_trans_upper = e.real("xu", span=(0, 1))
    r.x_trans_lower = e.real("xl", span=(0, 1))


def fresh_settings(e, r, ref):
    for k in SETTINGS:
        a, b = getattr(r, k), getattr(ref, k)
        e.true(k + " as in a new reader", a == b)


@contract(*SUBJ)
def cleared(e):
    """An empty name leaves an empty reader."""
    d = dump(e, header=False, brief=True)
    r = e.mod(XR).XFoilReader(d[0])
    settings(e, r)
    r.filename = ""
    nothing(e, r)
    fresh_settings(e, r, e.mod(XR).XFoilReader())
    # and it can be read again
    r.filename = d[0]
    content(e, r, (*d, e.choices["row at stagnation"] == 1))
    r.filename = ""
    nothing(e, r)


@contract(*SUBJ, weight=2)
def replaced(e):
    """Only the new file's content is left."""
    exact = e.choice("old stagnation", [False, True])
    old = dump(e, exact=exact, wake=True, header=False, name="old.txt", tag="old ", brief=True)
    r = e.mod(XR).XFoilReader(old[0])
    settings(e, r)
    new = dump(e, exact=False, wake=None, header=False, name="new.txt", tag="new ", brief=True)
    r.filename = new[0]
    content(e, r, (*new, False))
    fresh_settings(e, r, e.mod(XR).XFoilReader())


@contract(*SUBJ)
def replaced_by_bad_file(e):
    """A file that cannot be read leaves nothing of the previous one."""
    old = dump(e, exact=False, wake=True, header=False, name="old.txt", tag="old ", brief=True)
    r = e.mod(XR).XFoilReader(old[0])
    settings(e, r)
    kind = e.choice("new file", ["bad row", "missing"])
    if kind == "missing":
        e.raises("missing", OSError, lambda: setattr(r, "filename", "not there.txt"))
        e.true("no old name", r.filename != old[0])
    else:
        b = airfoil_row(e, "b", vel=dict(gt=0, span=(0.01, 1)))
        bad = e.file("bad.txt", [spoil(e, [b[k] for k in FIELDS], 115, "missing")])
        e.raises("refused", ValueError, lambda: setattr(r, "filename", bad))
        e.true("no old name", r.filename != old[0])
    for s in ("upper", "lower", "wake"):
        e.eq(s + " empty", getattr(r, s + "_count")(), 0)
    fresh_settings(e, r, e.mod(XR).XFoilReader())
