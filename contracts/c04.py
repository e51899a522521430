# Which events an integration watches.
SOLVE = ("ibl.ibl_method:IBLMethod.solve", "ibl.ibl_method:IBLMethod._set_kill_event",
         "ibl.head_method:HeadMethod.set_shape_d_critical", "ibl.thwaites_method:ThwaitesMethod.set_data_fits")


def state_of(ev):
    return sorted([(k, id(v)) for k, v in ev.__dict__.items()])


def watched(e, what, own, evs):
    """The last integration watched one own event and then exactly evs."""
    call = e.calls[len(e.calls) - 1]
    got = call.events
    e.eq(what + ": number of events", len(got), len(evs) + 1)
    if len(got) != len(evs) + 1:
        return
    for k, ev in enumerate(evs):
        e.same(f"{what}: event {k + 1}", got[k + 1], ev)
    e.true(what + ": own event", all(got[0] is not v for v in own))
    T = e.mod(IBLM).TermReason
    e.true(what + ": own criterion", got[0].event_info()[0] == T.SEPARATED)


OUT = {"end": "end", "fail": "fail", "own": ("event", 0)}


@contract(*SOLVE)
def events_of_each_solve(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    a, b, c = (user_event(e, "at" + n, "TRANSITIONED", n) for n in "abc")
    pool = {"none": (None, []), "a": (a, [a]), "[a, b]": ([a, b], [a, b]), "[b, a]": ([b, a], [b, a]), "[]": ([], []),
            "[c, c]": ([c, c], [c, c]), "[a]": ([a], [a])}
    shots = [state_of(v) for v in (a, b, c)]
    for k in range(2):
        arg, evs = pool[e.choice(f"events {k}", list(pool))]
        e.ivp(OUT[e.choice(f"outcome {k}", ["end", "fail"] if k == 0 else ["end"])])
        if arg is None:
            m.solve(x0, x1)
        else:
            m.solve(x0, x1, arg)
        watched(e, f"solve {k}", (a, b, c), evs)
        if isinstance(arg, list):
            e.eq(f"list of solve {k}: length", len(arg), len(evs))
            for j, v in enumerate(evs):
                e.same(f"list of solve {k}: entry {j}", arg[j], v)
    e.eq("events themselves", [state_of(v) for v in (a, b, c)], shots)


@contract(*SOLVE)
def same_list_again(e):
    """One list for two solves and two methods."""
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    m2 = e.mod(HEAD).HeadMethod(nu, *U)
    m2.initial_delta_m = d0
    m2.initial_shape_d = H0
    a, b = user_event(e, "a"), user_event(e, "b")
    evs = [a]
    m.solve(x0, x1, evs)
    evs.append(b)
    m2.solve(x0, x1, evs)
    watched(e, "other method", (a, b), [a, b])
    m.solve(x0, x1, evs)
    watched(e, "again", (a, b), [a, b])
    del evs[0]
    m.solve(x0, x1, evs)
    watched(e, "shorter", (a, b), [b])
    m2.solve(x0, x1)
    watched(e, "none", (a, b), [])


@contract(*SOLVE)
def criterion_replaced(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    a = user_event(e, "a")
    given = e.choice("first", ["none", "a"])
    n = e.choice("changes", [1, 2])
    m.solve(x0, x1) if given == "none" else m.solve(x0, x1, [a])
    old = [e.calls[len(e.calls) - 1].events[0]]
    for k in range(n):
        if kind == "Head":
            m.set_shape_d_critical(e.real(f"crit{k}", gt=1.5, span=(1.6, 3)))
        else:
            m.set_data_fits(e.choice(f"fit {k}", ["Spline", "Drela"]))
        if k == 0 and n == 2:
            m.solve(x0, x1, a)
            watched(e, "between", old + [a], [a])
            old.append(e.calls[len(e.calls) - 1].events[0])
    m.solve(x0, x1)
    watched(e, "afterwards", old + [a], [])


@contract(*SOLVE)
def methods_do_not_share(e):
    """The criterion of one method is not that of another one."""
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    other = e.choice("other", ["Head", "Linear", "Nonlinear"])
    a = user_event(e, "a")
    m.solve(x0, x1, [a])
    mine = e.calls[len(e.calls) - 1].events[0]
    M = e.mod(HEAD).HeadMethod if other == "Head" else getattr(e.mod(THW), "ThwaitesMethod" + other)
    m2 = M(nu, *U)
    m2.initial_delta_m = d0
    if other == "Head":
        m2.initial_shape_d = H0
    m2.solve(x0, x1)
    watched(e, "other method", (a, mine), [])
    m.solve(x0, x1)
    watched(e, "first method", (a,), [])
