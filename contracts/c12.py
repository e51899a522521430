# Thicknesses and shape factors.
A = "ibl.analytic._analytic_2d_base:Analytic2dSimilarityIncompressible."
T = "ibl.thwaites_method:ThwaitesMethod."
H_ = "ibl.head_method:HeadMethod."


def products(e, o, *a):
    e.eq("delta_d = H delta_m", o.delta_d(*a), o.shape_d(*a) * o.delta_m(*a))
    e.eq("delta_k = H* delta_m", o.delta_k(*a), o.shape_k(*a) * o.delta_m(*a))


def no_energy(e, o, x, rho):
    for nm, v in (("delta_k", o.delta_k(x)), ("shape_k", o.shape_k(x)), ("dissipation", o.dissipation(x, rho))):
        e.eq(nm + " is zero", v, 0 * x if not isinstance(v, (int, float)) or isinstance(x, (int, float)) else 0, shape=False)
        e.same_shape(nm + " shape", v, x)


@contract(H_ + "delta_d", H_ + "delta_m", H_ + "shape_d", H_ + "delta_k", H_ + "shape_k", H_ + "dissipation")
def head(e):
    hm, call, (U, dU, d2U), nu, span, r = head_solved(e)
    x = in_span(e, span)
    d, H = e.state(call, x, dict(gt=0, span=(1e-4, 1e-1)), dict(gt=0, span=(1.12, 3)))
    e.eq("delta_m is the state", hm.delta_m(x), d)
    e.eq("shape_d is the state", hm.shape_d(x), H)
    products(e, hm, x)
    no_energy(e, hm, x, e.real("rho", gt=0, span=(0.1, 1000)))


@contract(T + "delta_d", T + "delta_m", T + "shape_d", T + "delta_k", T + "shape_k", T + "dissipation", weight=2)
def thwaites(e):
    tm, call, (U, dU, d2U), nu, span, (kind, fit, S, H, dH) = thw_solved(e)
    x = in_span(e, span, shapes=("scalar", "0d", "1d"))
    z, lam = thw_state(e, call, x, dU(x), fit, inside=False)
    products(e, tm, x)
    no_energy(e, tm, x, e.real("rho", gt=0, span=(0.1, 1000)))


@contract(A + "delta_d", A + "delta_m", A + "delta_k", A + "shape_d", A + "shape_k", "ibl.analytic._blasius:Blasius._g",
          "ibl.analytic._falkner_skan:FalknerSkan._g")
def similarity(e):
    s, call, beta, u_ref, nu, fpp, eta = sim(e)
    x = e.point("x", ("scalar", "0d", "1d", "2d"), gt=0, span=(0.01, 10))
    e.requires(s.eta_m > 0)
    products(e, s, x)
    e.eq("shape_d is eta_d/eta_m", s.shape_d(x), 0 * x + s.eta_d / s.eta_m)
    e.eq("shape_k is eta_k/eta_m", s.shape_k(x), 0 * x + s.eta_k / s.eta_m)


I = "ibl.initial_condition:"


@contract(I + "FalknerSkanStagCondition.shape_d", I + "FalknerSkanStagCondition.shape_k",
          I + "FalknerSkanStagCondition.delta_d", I + "FalknerSkanStagCondition.delta_m", I + "FalknerSkanStagCondition.delta_k")
def stagnation_condition(e):
    du = e.real("du", gt=0, span=(0.1, 100))
    nu = e.real("nu", gt=0, span=(1e-6, 1e-2))
    ic = e.mod(IC).FalknerSkanStagCondition(du, nu)
    products(e, ic)
    du2, nu2 = e.real("du2", gt=0, span=(0.1, 100)), e.real("nu2", gt=0, span=(1e-6, 1e-2))
    ic.du_e = du2
    ic.nu = nu2
    products(e, ic)


@contract(I + "ManualCondition.shape_d", I + "ManualCondition.shape_k", I + "ManualCondition.delta_d",
          I + "ManualCondition.delta_m", I + "ManualCondition.delta_k")
def manual_condition(e):
    d, m, k = e.real("d", lo=0, span=(0, 1)), e.real("m", gt=0, span=(1e-3, 1)), e.real("k", lo=0, span=(0, 1))
    ic = e.mod(IC).ManualCondition(d, m, k)
    e.eq("delta_d", ic.delta_d(), d)
    e.eq("delta_m", ic.delta_m(), m)
    e.eq("delta_k", ic.delta_k(), k)
    products(e, ic)
    which = e.choice("then", ["del_d", "del_m", "del_k"])
    v = e.real("v", gt=0, span=(1e-3, 1))
    setattr(ic, which, v)
    e.eq("changed", {"del_d": ic.delta_d, "del_m": ic.delta_m, "del_k": ic.delta_k}[which](), v)
    products(e, ic)


S_ = SS + ":StanfordOlympics1968StationData."


@contract(S_ + "reset", S_ + "_reset_summary_data", S_ + "_reset_station_summary", S_ + "delta_d", S_ + "delta_m",
          S_ + "delta_k", S_ + "shape_d", S_ + "shape_k")
def reference_station(e):
    """Derived from the summary exactly; recorded thicknesses within the documented tolerances."""
    units = e.choice("units", ["SI", "English"])
    s = summary_row(e, "st")
    M = e.mod(SS).StanfordOlympics1968StationData
    how = e.choice("thicknesses", ["from the summary", "recorded", "from the summary after recorded"])
    if how == "from the summary":
        o = M(units == "SI", summary_line(e, s), "", [])
        return products(e, o_calls(o))
    s2 = summary_row(e, "first") if "after" in how else s
    t = station_row(e, "t", units, s2)
    o = M(units == "SI", summary_line(e, s2), station_line(e, units, t), [])
    if "after" in how:
        o.reset(units == "SI", summary_line(e, s), "", [])
        return products(e, o_calls(o))
    # the recorded products differ by no more than their own and their factors' tolerances
    H, m, Hk = o.shape_d, o.delta_m, o.shape_k
    e.le("delta_d", abs(o.delta_d - H * m), TOL["delta_d"] + TOL["shape_d"] * (m + TOL["delta_m"]) + TOL["delta_m"] * H)
    e.le("delta_k", abs(o.delta_k - Hk * m), TOL["delta_k"] + TOL["shape_k"] * (m + TOL["delta_m"]) + TOL["delta_m"] * Hk)


class o_calls:
    """Attributes as queries."""

    def __init__(self, o):
        self.o = o

    def __getattr__(self, k):
        return lambda: getattr(self.o, k)


@contract(XR + ":XFoilReader.delta_k_upper", XR + ":XFoilReader.delta_k_lower", XR + ":XFoilReader.delta_d_upper")
def dump_file(e):
    """Kinetic energy thickness of a dump (which records none); displacement thickness is as recorded there."""
    name, up, last, first, low, wakes = dump(e, header=False, wake=False)
    r = e.mod(XR).XFoilReader(name)
    for side, pieces in (("upper", ([] if e.choices["row at stagnation"] == 1 else ["stagnation"]) + [last] + e.turned(up)),
                         ("lower", ["stagnation", first] + low)):
        a = {q: getattr(r, f"{q}_{side}")() for q in ("delta_k", "shape_k", "delta_m")}
        for pos, rec in e.along(*pieces):
            k, h, m = (e.at(a[q], pos) for q in ("delta_k", "shape_k", "delta_m"))
            e.eq("delta_k = H* delta_m " + side, k, h * m, abstol=1e-14)
