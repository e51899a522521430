# Unusable velocity specifications.
V = "ibl.ibl_method:IBLMethod."
SETV = (V + "set_velocity", V + "__init__", V + "u_e", V + "du_e", V + "d2u_e")


class Thing:
    """Neither callable, nor a scalar, nor a pair."""


def bad_spec(e):
    """(u_e, du_e, d2u_e) that cannot be used."""
    U, dU, d2U = e.fn("W", 2)
    a, b = e.real("a", span=(0, 1)), e.real("b", span=(1.1, 2))
    p, q = e.real("p", span=(-3, 3)), e.real("q", span=(-3, 3))
    good = ([a, a + 1, a + 2], [p, q, p])
    flat = e.np.array([[1.0, 2.0], [3.0, 4.0]]) if not e.symbolic else None
    tables = {
        "unequal lengths": ([a, a + 1, a + 2], [p, q]),
        "unequal lengths, more values": ([a, a + 1], [p, q, p]),
        "one point": ([a], [p]),
        "no points": ([], []),
        "scalars": (a, p),
        "numbers": (1.0, 2.0),
        "scalar values": ([a, a + 1], p),
        "scalar points": (a, [p, q]),
    }
    for nm in ("points", "values", "both"):
        tables["2-d " + nm] = (two_d(e, a) if nm != "values" else e.np.array([a, a + 1]),
                               two_d(e, p) if nm != "points" else e.np.array([p, q]))
    specs = {
        "second derivative without first": (U, None, d2U),
        "number as first derivative": (U, p, None),
        "number as first derivative, second given": (U, p, d2U),
        "table as first derivative": (U, good, None),
        "number as second derivative": (U, dU, p),
        "table as second derivative": (U, dU, good),
        "object as second derivative": (U, dU, Thing()),
        "object as first derivative": (U, Thing(), d2U),
        "no slopes": (p, None, None),
        "no slopes, integer": (3, None, None),
        "slope number": (p, q, None),
        "slope function": (p, dU, None),
        "slope function and second": (p, dU, d2U),
        "one slope vector": (p, (good[0],), None),
        "three slope vectors": (p, (good[0], good[1], good[1]), None),
        "object": (Thing(), None, None),
        "object with slopes": (Thing(), dU, d2U),
        "nothing": (None, None, None),
        "one vector": ((good[0],), None, None),
        "three vectors": ((good[0], good[1], good[1]), None, None),
        "empty": ((), None, None),
    }
    for k, t in tables.items():
        specs["table: " + k] = (t, None, None)
        specs["slope table: " + k] = (p, t, None)
    k = e.choice("specification", list(specs))
    return specs[k]


def two_d(e, v):
    if e.symbolic:
        return e.point("m", ("2d",))
    return e.np.array([[v, v + 1], [v + 2, v + 3]])


def before(e):
    """A method that has a velocity already, and what that is."""
    C = e.mod(HEAD).HeadMethod if e.choice("method", ["Head", "Thwaites"]) == "Head" else e.mod(THW).ThwaitesMethodNonlinear
    kind = e.choice("in force", ["functions", "differenced", "table", "start and slopes"])
    if kind == "functions":
        return C(1.0, *e.fn("U", 2)), kind
    if kind == "differenced":
        return C(1.0, e.fn("U", 2)[0]), kind
    if kind == "table":
        return C(1.0, ([0.0, 1.0, 2.0], [1.0, 2.0, 4.0])), kind
    return C(1.0, 2.0, ([0.0, 1.0, 2.0], [1.0, 2.0, 4.0])), kind


@contract(*SETV)
def refused_and_kept(e):
    m, kind = before(e)
    x = e.real("x", span=(0.2, 1.8))
    was = [m.u_e(x), m.du_e(x), m.d2u_e(x)]
    spec = bad_spec(e)
    e.raises("refused", ValueError, lambda: m.set_velocity(*spec))
    e.eq("u_e kept", m.u_e(x), was[0])
    e.eq("du_e kept", m.du_e(x), was[1])
    e.eq("d2u_e kept", m.d2u_e(x), was[2])


@contract(*SETV)
def refused_when_new(e):
    M = e.mod(HEAD).HeadMethod if e.choice("method", ["Head", "Thwaites"]) == "Head" else e.mod(THW).ThwaitesMethodLinear
    spec = bad_spec(e)
    if spec[0] is None:
        U, dU, d2U = e.fn("U", 2)
        k = e.choice("without velocity", ["first", "second", "both", "table"])
        kw = {"first": dict(dU_edx=dU), "second": dict(d2U_edx2=d2U), "both": dict(dU_edx=dU, d2U_edx2=d2U),
              "table": dict(dU_edx=([0.0, 1.0], [1.0, 2.0]))}[k]
        e.raises("refused", ValueError, lambda: M(1.0, **kw))
        m = M(1.0)
        for nm in ("u_e", "du_e", "d2u_e"):
            e.raises(nm + " not set", ValueError, lambda: getattr(m, nm)(1.0))
        return
    e.raises("refused", ValueError, lambda: M(1.0, *spec))
    m = M(1.0)
    e.raises("refused", ValueError, lambda: m.set_velocity(*spec))
    for nm in ("u_e", "du_e", "d2u_e"):
        e.raises(nm + " still not set", ValueError, lambda: getattr(m, nm)(1.0))


@contract(*SETV)
def refused_after_solve(e):
    """The solution stays as well."""
    hm, call, (U, dU, d2U), nu, span, r = head_solved(e)
    x = in_span(e, span, shapes=("scalar",))
    e.state(call, x, dict(gt=0, span=(1e-4, 1e-1)), dict(lo=1.11, span=(1.11, 3.5)))
    was = [hm.delta_m(x), hm.u_e(x), hm.du_e(x), hm.d2u_e(x)]
    spec = bad_spec(e)
    e.raises("refused", ValueError, lambda: hm.set_velocity(*spec))
    for k, f in enumerate((hm.delta_m, hm.u_e, hm.du_e, hm.d2u_e)):
        e.eq(f"answer {k} kept", f(x), was[k])
