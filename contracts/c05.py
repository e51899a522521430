# No answers without a valid solution.
Q = ("ibl.ibl_method:IBLMethod.solve", "ibl.ibl_method:IBLMethod.u_e", "ibl.ibl_method:IBLMethod.du_e",
     "ibl.ibl_method:IBLMethod.d2u_e") + tuple(
    f"ibl.{a}:{b}.{c}" for a, b in (("head_method", "HeadMethod"), ("thwaites_method", "ThwaitesMethod"))
    for c in QUERIES + ("tau_w",))


def where_(e):
    return e.point("x", ("scalar", "0d", "1d"), gt=0, span=(0.2, 2))


@contract(*Q)
def before_solve(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e)
    no_answers(e, m, where_(e))


@contract(*Q)
def nothing_set(e):
    kind = e.choice("kind", ["Head", "Linear", "Nonlinear"])
    M = e.mod(HEAD).HeadMethod if kind == "Head" else getattr(e.mod(THW), "ThwaitesMethod" + kind)
    m = M(e.real("nu", gt=0)) if e.choice("viscosity", ["given", "default"]) == "given" else M()
    if e.choice("start", ["set", "not set"]) == "set":
        m.initial_delta_m = e.real("d0", gt=0, span=(1e-4, 1))
    x = where_(e)
    for nm in ("u_e", "du_e", "d2u_e"):
        e.raises(nm + " not set", ValueError, lambda: getattr(m, nm)(x))
    e.raises("solve refused", ValueError, lambda: m.solve(0.1, 1.0))
    e.eq("nothing integrated", len(e.calls), 0)
    no_answers(e, m, x)


@contract(*Q)
def after_failed_solve(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    for k in range(e.choice("solves before", [0, 1, 2])):
        e.ivp("end" if k == 0 else ("event", 0))
        m.solve(x0, x1)
    e.ivp("fail")
    r = m.solve(x0, x1)
    e.true("failure", not r.success)
    x = in_span(e, (x0, x1))
    no_answers(e, m, x)
    # still none when the velocity or the initial state is set again
    what = e.choice("then", ["velocity", "start", "viscosity", "criterion"])
    if what == "velocity":
        m.set_velocity(*e.fn("W", 2))
    elif what == "start":
        m.initial_delta_m = d0 * 2
    elif what == "viscosity":
        m.nu = nu * 2
    elif kind == "Head":
        m.set_shape_d_critical(2.0)
    else:
        m.set_data_fits("Drela")
    no_answers(e, m, x, " afterwards")


@contract(*Q)
def solve_raises(e):
    """A solve that ends in an exception leaves no solution either."""
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    m.solve(x0, x1)
    when = e.choice("raises", ["at start", "while integrating"])

    def bad(x):
        raise ValueError("outside")
    if when == "at start":
        m.set_velocity(U[0], bad, U[2])
    else:
        def policy(call):
            call.fun(x0, e.np.array([d0] * call.n))
            return "end"
        m.set_velocity(lambda x: bad(x), U[1], U[2])
        e.ivp(policy)
    e.raises("solve reports it", ValueError, lambda: m.solve(x0, x1))
    m.set_velocity(*U)
    no_answers(e, m, in_span(e, (x0, x1), shapes=("scalar",)))


@contract(*Q)
def answers_after_success(e):
    """After a success, also one that follows a failure, queries answer."""
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    if e.choice("before", ["nothing", "failure"]) == "failure":
        e.ivp("fail")
        m.solve(x0, x1)
    e.ivp("end" if e.choice("outcome", ["end", "event"]) == "end" else ("event", 0))
    m.solve(x0, x1)
    call = e.calls[len(e.calls) - 1]
    x = in_span(e, (x0, x1), shapes=("scalar",))
    if kind == "Head":
        e.state(call, x, dict(gt=0, span=(1e-4, 1e-1)), dict(lo=1.13, span=(1.13, 3.5)))
        e.requires(U[0](x) > 0.01)
    else:
        thw_state(e, call, x, U[1](x), "White", margin=0.001)
        e.requires(U[0](x) >= 0)
    for nm in QUERIES[:4]:
        v, ex = e.attempt(lambda: getattr(m, nm)(x))
        e.true(nm + " available", ex is None)
    v, ex = e.attempt(lambda: m.tau_w(x, 1.2))
    e.true("tau_w available", ex is None)


@contract(*Q)
def velocity_without_solution(e):
    """The velocity is available without any solution, also after a failure."""
    m, kind, (U, dU, d2U), nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    if e.choice("before", ["nothing", "failure"]) == "failure":
        e.ivp("fail")
        m.solve(x0, x1)
    x = where_(e)
    e.eq("u_e", m.u_e(x), U(x))
    e.eq("du_e", m.du_e(x), dU(x))
    e.eq("d2u_e", m.d2u_e(x), d2U(x))
