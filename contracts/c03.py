# What solve reports.
SOLVE = ("ibl.ibl_method:IBLMethod.solve", "ibl.ibl_method:TermReason.__str__", "ibl.ibl_method:IntegrationResult.__init__",
         "ibl.ibl_method:IntegrationResult.x_end", "ibl.ibl_method:IntegrationResult.f_end",
         "ibl.ibl_method:IntegrationResult.status", "ibl.ibl_method:IntegrationResult.message",
         "ibl.ibl_method:IntegrationResult.success")
NAMES = {"REACHED_END": "Completed", "SEPARATED": "Separated", "TRANSITIONED": "Transition", "UNKNOWN": "Unknown Event"}


def solve_with(e, m, x0, x1, evs):
    if evs is None:
        return m.solve(x0, x1)
    return m.solve(x0, x1, evs)


def some_events(e):
    n = e.choice("events", ["none", "one", "list of one", "list of two", "list of three", "empty list"])
    if n == "none":
        return None, []
    if n == "empty list":
        return [], []
    reason = e.choice("reason", ["TRANSITIONED", "SEPARATED", "UNKNOWN"])
    es = [user_event(e, "at1", reason, e.choice("text", ["", "flow tripped"]))]
    if n == "one":
        return es[0], es
    if n != "list of one":
        es.append(user_event(e, "at2", "UNKNOWN", "second"))
    if n == "list of three":
        es.append(user_event(e, "at3", "TRANSITIONED", "third"))
    return es, es


@contract(*SOLVE)
def completed(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, bothways=True)
    evs, es = some_events(e)
    r = solve_with(e, m, x0, x1, evs)
    T = e.mod(IBLM).TermReason
    call = e.calls[len(e.calls) - 1]
    e.true("status", r.status == T.REACHED_END)
    e.true("success", bool(r.success))
    e.eq("location", r.x_end, x1, shape=False)
    e.true("text", "Completed" in r.message)
    e.eq("text of the status", str(r.status), "Completed")
    end = call.sol(call.t1)
    for k in range(call.n):
        e.eq(f"end state {k}", r.f_end[k], end[k], shape=False)
    if not e.symbolic:
        e.true("printed", "Completed" in str(r))


@contract(*SOLVE, "ibl.head_method:_HeadSeparationEvent.event_info", "ibl.thwaites_method:_ThwaitesSeparationEvent.event_info")
def stopped_by_event(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, bothways=True)
    evs, es = some_events(e)
    k = e.choice("stopped by", list(range(len(es) + 1)))
    e.ivp(("event", k))
    r = solve_with(e, m, x0, x1, evs)
    T = e.mod(IBLM).TermReason
    call = e.calls[len(e.calls) - 1]
    e.eq("events watched", len(call.events), len(es) + 1)
    if len(call.events) != len(es) + 1:
        return
    reason, text = call.events[k].event_info()
    if k == 0:
        e.true("own criterion", reason == T.SEPARATED)
    e.true("reason", r.status == reason)
    e.true("success", bool(r.success))
    e.eq("location", r.x_end, call.te, shape=False)
    e.true("name of the reason", NAMES[reason.name] in r.message)
    e.true("text", text in r.message)
    for j, o in enumerate(call.events):
        t = o.event_info()[1]
        if t and t != text:
            e.true("no other text", t not in r.message)
    end = call.sol(call.te)
    for j in range(call.n):
        e.eq(f"end state {j}", r.f_end[j], end[j], shape=False)


@contract(*SOLVE)
def passed_event_not_reported(e):
    """An event that does not terminate had occurred earlier."""
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, ("Head", "Linear"), ("White",))
    a = user_event(e, "at1", "TRANSITIONED", "only watched", terminal=False)
    b = user_event(e, "at2", "UNKNOWN", "the end")
    order = e.choice("order", ["watched first", "watched last"])
    stop = e.choice("stopped by", ["own", "b"])
    ev = [a, b] if order == "watched first" else [b, a]
    ia = ev.index(a) + 1
    e.ivp(("event", 0 if stop == "own" else 3 - ia, (ia,)))
    r = m.solve(x0, x1, ev)
    T = e.mod(IBLM).TermReason
    call = e.calls[len(e.calls) - 1]
    e.true("reason", r.status == (T.SEPARATED if stop == "own" else T.UNKNOWN))
    e.eq("location", r.x_end, call.te, shape=False)
    e.true("text", (stop == "own" or "the end" in r.message) and "only watched" not in r.message)
    e.ivp("end")
    r = m.solve(x0, x1, ev)
    e.true("completed", r.status == T.REACHED_END and "Completed" in r.message)


@contract(*SOLVE)
def integrator_failed(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, bothways=True)
    evs, es = some_events(e)
    e.ivp("fail")
    r = solve_with(e, m, x0, x1, evs)
    T = e.mod(IBLM).TermReason
    call = e.calls[len(e.calls) - 1]
    e.true("status", r.status == T.UNKNOWN)
    e.true("no success", not r.success)
    e.eq("location", r.x_end, x0, shape=False)
    e.true("name of the reason", "Unknown Event" in r.message)
    for k in range(call.n):
        e.eq(f"state {k}", r.f_end[k], call.y0[k], shape=False)


@contract(*SOLVE)
def one_after_the_other(e):
    """Each result tells of its own integration, also after another one."""
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    ev = user_event(e, "at", "TRANSITIONED", "tripped")
    first = e.choice("first", ["end", "fail", "own", "event"])
    second = e.choice("second", ["end", "fail", "own", "event"])
    out = {"end": "end", "fail": "fail", "own": ("event", 0), "event": ("event", 1)}
    T = e.mod(IBLM).TermReason
    want = {"end": T.REACHED_END, "fail": T.UNKNOWN, "own": T.SEPARATED, "event": T.TRANSITIONED}
    res, ends = [], []
    for o in (first, second):
        e.ivp(out[o])
        res.append(m.solve(x0, x1, [ev]))
        c = e.calls[len(e.calls) - 1]
        ends.append(x1 if o == "end" else x0 if o == "fail" else c.te)
    for k, (o, r) in enumerate(zip((first, second), res)):
        e.true(f"status {k}", r.status == want[o])
        e.eq(f"location {k}", r.x_end, ends[k], shape=False)
        e.true(f"success {k}", bool(r.success) == (o != "fail"))
        e.true(f"text {k}", NAMES[want[o].name] in r.message and ("tripped" in r.message) == (o == "event"))


@contract("ibl.ibl_method:TermReason.__str__")
def names(e):
    T = e.mod(IBLM).TermReason
    e.eq("reasons", sorted([r.name for r in T]), sorted(NAMES))
    for r in T:
        e.eq(r.name, str(r), NAMES[r.name])


@contract(*SOLVE, sym=False, trials=20)
def real_runs(e):
    """The real integrator, with an event at a known place."""
    e.ivp("real")
    kind = e.choice("kind", ["Head", "Linear", "Nonlinear"])
    a = e.real("slope", span=(-0.3, 0.5))
    M = e.mod(HEAD).HeadMethod if kind == "Head" else getattr(e.mod(THW), "ThwaitesMethod" + kind)
    m = M(1e-5, lambda x: 1 + a * x, lambda x: a + 0 * x, lambda x: 0 * x)
    m.initial_delta_m = 1e-3
    if kind == "Head":
        m.initial_shape_d = 1.4
    ev = user_event(e, "at", "TRANSITIONED", "tripped")
    at = e.used["reals"]["at"]
    r = m.solve(0.1, 2.0, e.choice("as", ["one", "list"]) == "one" and ev or [ev])
    T = e.mod(IBLM).TermReason
    if r.status == T.SEPARATED:
        e.requires(False)
    if at < 2.0:
        e.true("reason", r.status == T.TRANSITIONED)
        e.close("location", r.x_end, at, 1e-6)
    else:
        e.true("reason", r.status == T.REACHED_END)
        e.close("location", r.x_end, 2.0, 1e-12)
    e.eq("end state", r.f_end[0], m.delta_m(r.x_end) if kind == "Head" else m.delta_m(r.x_end)**2 / 1e-5)
