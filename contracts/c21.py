# Inconsistent Stanford records.
C = SO + ":StanfordOlympics1968."
S = SS + ":StanfordOlympics1968StationData."
V = SS + ":StanfordOlympics1968SmoothVel."


def text(line):
    return line[:-1] if isinstance(line, str) and line.endswith("\n") else line


def sample_text(e, units, r):
    return r if isinstance(r, str) else sample_line(e, units, r)


def record(e, units, s, t=None, samples=(), via=None):
    """Make the record from its rows, by itself or through a case file of its own."""
    via = via or e.choice("through", ["record", "reset", "case"])
    M = e.mod(SS).StanfordOlympics1968StationData
    a = dict(si_unit=units == "SI", summ_data=text(s), stat_summ="" if t is None else text(t),
             stat_data=e.lines(list(samples), lambda r: text(sample_text(e, units, r))))
    if via == "record":
        return M(**a)
    if via == "reset":
        o = M(si_unit=True, summ_data="1 10 0 0.1 1.4 1.7 7 0.003 0.003 0.003 0", stat_summ="", stat_data=[])
        o.reset(**a)
        return o
    case = "1100" if units == "SI" else "2200"
    e.case_file(case, case_lines(e, case, e.real("nu", gt=0, span=(0.1, 1)), [s], [], None if t is None else [t],
                                 None if not samples else [e.lines(list(samples), lambda r: sample_text(e, units, r))]))
    o = e.mod(SO).StanfordOlympics1968(case)
    e.served()
    return o.station(0)


def units_(e):
    return e.choice("units", ["SI", "English"])


@contract(S + "_reset_summary_data", S + "_reset_station_summary", S + "reset")
def accepted(e):
    """Agreement within the tolerance: reported as recorded."""
    units = units_(e)
    s = summary_row(e, "s")
    t = station_row(e, "t", units, s)
    smp = e.rows("samples", lambda j: sample_row(e, "p", units, t))
    o = record(e, units, summary_line(e, s), station_line(e, units, t), smp)
    for k in STAT:
        e.eq(k, getattr(o, k), t[k])
    for k in ("du_e", "c_f", "c_f_lt", "c_f_exp", "beta_eq"):
        e.eq(k, getattr(o, k), s[k])
    for k in SAMPLE:
        e.eq(k + " count", e.count(getattr(o, k)), e.total(*smp))
        for pos, p in e.along(*smp):
            e.eq(k, e.at(getattr(o, k), pos), p[k])


@contract(S + "_reset_station_summary", S + "reset")
def summaries_disagree(e):
    """One quantity beyond its tolerance."""
    units = units_(e)
    s = summary_row(e, "s")
    wrong = e.choice("wrong", list(TOL))
    t = station_row(e, "t", units, s, wrong)
    via = e.choice("through", ["record", "reset", "case"])
    e.raises(wrong + " refused", ValueError, lambda: record(e, units, summary_line(e, s), station_line(e, units, t), via=via))


@contract(S + "_reset_station_data", S + "reset")
def samples_disagree(e):
    """One column of one sample beyond its tolerance."""
    units = units_(e)
    s = summary_row(e, "s")
    t = station_row(e, "t", units, s)
    wrong = e.choice("wrong", list(SAMPLE_TOL))
    via = e.choice("through", ["record", "reset", "case"])
    rows = e.rows("agreeing samples before", lambda j: sample_row(e, "p", units, t), brief=True)
    rows = rows + [sample_row(e, "q", units, t, wrong)]
    e.raises(wrong + " refused", ValueError, lambda: record(e, units, summary_line(e, s), station_line(e, units, t), rows, via))


def spoil(e, line):
    """A row with a column too few, too many, or that is no number."""
    how = e.choice("row", ["missing", "missing last", "extra", "no number", "one column"])
    p = text(line).split()
    if how == "missing":
        p = p[1:]
    elif how == "missing last":
        p = p[:-1]
    elif how == "extra":
        p = p + ["1.5"]
    elif how == "no number":
        p[e.choice("column", [0, 1])] = "x1"
    else:
        p = p[:1]
    return " ".join(p) + "\n"


@contract(S + "_reset_summary_data", S + "_reset_station_summary", S + "_reset_station_data", V + "reset")
def columns(e):
    """Rows of the wrong number of columns."""
    units = units_(e)
    which = e.choice("which", ["summary", "station", "sample", "later sample", "smooth"])
    s = summary_row(e, "s")
    sl = summary_line(e, s)
    if which == "summary":
        b = spoil(e, sl)
        via = e.choice("through", ["record", "reset", "case"])
        e.raises("summary row refused", ValueError, lambda: record(e, units, b, via=via))
        return
    if which == "smooth":
        rows = e.rows("good rows before", lambda j: smooth_row(e, "v"), brief=True)
        bad = spoil(e, smooth_line(e, smooth_row(e, "w")))

        def lines(f):
            return e.texts(e.lines(rows, lambda r: f(smooth_line(e, r))), f(bad))
        if e.choice("through", ["record", "case"]) == "record":
            e.raises("smoothed velocity row refused", ValueError,
                     lambda: e.mod(SS).StanfordOlympics1968SmoothVel(units == "SI", lines(text)))
        else:
            case = "1100" if units == "SI" else "2200"
            e.case_file(case, case_lines(e, case, 0.155, [sl], lines(lambda r: r)))
            e.raises("smoothed velocity row refused", ValueError, lambda: e.mod(SO).StanfordOlympics1968(case))
        return
    t = station_row(e, "t", units, s)
    tl = station_line(e, units, t)
    via = e.choice("through", ["record", "reset", "case"])
    if which == "station":
        b = spoil(e, tl)
        e.raises("station row refused", ValueError, lambda: record(e, units, sl, b, via=via))
        return
    rows = e.rows("good samples before", lambda j: sample_row(e, "p", units, t), brief=True) if which == "later sample" else []
    rows = rows + [spoil(e, sample_line(e, units, sample_row(e, "q", units, t)))]
    e.raises("sample refused", ValueError, lambda: record(e, units, sl, tl, rows, via))


IDENTS = ("IDENT = 1200\n", "IDENT = 110\n", "CASE = 1100\n", "IDENT 1100\n", "IDENT\n", "IDENT =\n", "1100\n", None)
VISC = ("V 0.155\n", "V\n", "V =\n", "V = abc\n", "NU = 0.155\n", "U = 0.155\n", "0.155\n", None)


@contract(C + "case", C + "_get_case_data")
def case_file_(e):
    """Wrong identity or viscosity line, or no data."""
    what = e.choice("wrong", ["identity", "viscosity", "no file", "empty", "no sections", "title only", "header only", "nothing"])
    how = e.choice("read", ["constructor", "setter"])
    case = "1100"
    M = e.mod(SO).StanfordOlympics1968
    o = M() if how == "setter" else None
    s, v = summary_line(e, summary_row(e, "s")), smooth_line(e, smooth_row(e, "v"))
    lines = ["# Title\n", "IDENT = 1100\n", "V = 0.155\n", "\n", "# Summary data\n", "# X\n", s, "\n", "# Edge velocity plot\n", "# X\n", v, "\n"]
    if what == "identity":
        b = e.choice("line", list(range(len(IDENTS))))
        lines[1:2] = [IDENTS[b]] if IDENTS[b] else []
    elif what == "viscosity":
        b = e.choice("line", list(range(len(VISC))))
        lines[2:3] = [VISC[b]] if VISC[b] else []
    elif what == "empty":
        lines = []
    elif what == "no sections":
        lines = ["IDENT = 1100\n", "V = 0.155\n"]
    elif what == "title only":
        lines = ["# Title\n"]
    elif what == "header only":
        lines = lines[:4]
    if what == "no file":
        case = "0000"
        e.case_file("1100", e.texts(*lines))
    else:
        e.case_file(case, e.texts(*lines))

    def read():
        if o is None:
            return M(case)
        o.case = case
        return o
    if what == "nothing":
        e.eq("good file accepted", read().station_count(), 1)
        e.served()
    else:
        e.raises("refused", ValueError, read)
