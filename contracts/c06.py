# The state an integration starts from.
SOLVE = ("ibl.ibl_method:IBLMethod.solve", "ibl.ibl_method:IBLMethod.set_initial_condition", "ibl.ibl_method:IBLMethod.nu",
         "ibl.head_method:HeadMethod._ode_setup", "ibl.head_method:HeadMethod.initial_delta_m",
         "ibl.head_method:HeadMethod.initial_shape_d", "ibl.thwaites_method:ThwaitesMethod._ode_setup",
         "ibl.thwaites_method:ThwaitesMethod.initial_delta_m")
COND = ("ibl.initial_condition:FalknerSkanStagCondition.delta_m", "ibl.initial_condition:FalknerSkanStagCondition.shape_d",
        "ibl.initial_condition:ManualCondition.delta_m", "ibl.initial_condition:ManualCondition.shape_d")


def started(e, m, kind, x0, x1, d, H, nu, what=""):
    """The last integration's start; d is None where it is not checked."""
    call = e.calls[len(e.calls) - 1]
    e.eq("start of the interval" + what, call.t0, x0, shape=False)
    e.eq("end of the interval" + what, call.t1, x1, shape=False)
    if kind == "Head":
        e.eq("state size" + what, len(call.y0), 2)
        e.eq("starts at the momentum thickness" + what, call.y0[0], d, shape=False)
        e.eq("starts at the shape factor" + what, call.y0[1], H, shape=False)
        e.eq("momentum thickness reported there" + what, m.delta_m(x0), d, shape=False)
        e.eq("shape factor reported there" + what, m.shape_d(x0), H, shape=False)
    else:
        e.eq("state size" + what, len(call.y0), 1)
        e.eq("starts at momentum thickness squared over viscosity" + what, call.y0[0], d**2 / nu, shape=False)
        e.eq("momentum thickness reported there" + what, m.delta_m(x0), d, shape=False)


def new(e, k, *names):
    spans = dict(d=(1e-4, 1e-2), H=(1.2, 2.3), nu=(1e-6, 1e-2), f=(1e-4, 1e-2))
    return [e.real(f"{n}{k}", gt=0, span=spans[n]) for n in names]


@contract(*SOLVE)
def first_solve(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",), bothways=True)
    m.solve(x0, x1)
    started(e, m, kind, x0, x1, d0, H0, nu)


@contract(*SOLVE)
def changed_between(e):
    """Every change after a solve is in force in the next one."""
    m, kind, U, nu, x0, x1, d, H = ready(e, fits=("White",))
    e.ivp({"end": "end", "fail": "fail", "own": ("event", 0)}[e.choice("first outcome", ["end", "fail", "own"])])
    m.solve(x0, x1)
    opts = ["delta_m", "viscosity", "velocity", "interval", "other events", "both orders"]
    if kind == "Head":
        opts += ["shape_d", "delta_m then shape_d", "shape_d then delta_m", "delta_m twice", "criterion"]
    ch = e.choice("change", opts)
    if ch in ("delta_m", "delta_m then shape_d", "delta_m twice", "both orders"):
        d, = new(e, 1, "d")
        m.initial_delta_m = d
    if ch in ("shape_d", "delta_m then shape_d", "shape_d then delta_m"):
        H, = new(e, 1, "H")
        m.initial_shape_d = H
    if ch in ("shape_d then delta_m", "delta_m twice"):
        d, = new(e, 2, "d")
        m.initial_delta_m = d
    if ch in ("viscosity", "both orders"):
        nu, = new(e, 1, "nu")
        m.nu = nu
    if ch == "velocity":
        W = e.fn("W", 2)
        e.requires(W[0](x0) > 0.01)
        m.set_velocity(*W)
    if ch == "interval":
        x0, x1 = interval(e, tag="b")
        e.requires(U[0](x0) > 0.01)
    if ch == "criterion":
        m.set_shape_d_critical(3.0)
    e.ivp("end")
    if ch == "other events":
        m.solve(x0, x1, [user_event(e, "a")])
    else:
        m.solve(x0, x1)
    started(e, m, kind, x0, x1, d, H, nu)
    # reading the settings back
    e.eq("initial_delta_m", m.initial_delta_m, d, shape=False)
    if kind == "Head":
        e.eq("initial_shape_d", m.initial_shape_d, H, shape=False)
    m.solve(x0, x1)
    started(e, m, kind, x0, x1, d, H, nu, " again")


@contract(*SOLVE)
def order_of_setting(e):
    """Settings count, not the order they were made in."""
    U = e.fn("U", 2)
    kind = e.choice("kind", ["Head", "Linear", "Nonlinear"])
    nu, d, H, nu0, d_old = *new(e, 1, "nu", "d", "H"), *new(e, 2, "nu", "d")
    x0 = e.real("x0", span=(0.1, 1))
    x1 = x0 + e.real("dx", gt=0, span=(0.2, 2))
    e.requires(U[0](x0) > 0.01)
    M = e.mod(HEAD).HeadMethod if kind == "Head" else getattr(e.mod(THW), "ThwaitesMethod" + kind)
    m = M(nu0, *U)
    steps = dict(n=lambda: setattr(m, "nu", nu), d=lambda: setattr(m, "initial_delta_m", d),
                 o=lambda: setattr(m, "initial_delta_m", d_old), H=lambda: setattr(m, "initial_shape_d", H))
    order = e.choice("order", ["ndH", "dHn", "dnH", "oHdn", "oHnd", "odHn"] if kind == "Head" else ["nd", "dn", "odn", "nod"])
    for s in order:
        steps[s]()
    m.solve(x0, x1)
    started(e, m, kind, x0, x1, d, H, nu)


@contract(*SOLVE)
def shape_before_thickness(e):
    """Head's method: the shape factor is set before any momentum thickness."""
    U = e.fn("U", 2)
    nu, d, H = new(e, 1, "nu", "d", "H")
    e.requires(U[0](0.1) > 0.01)
    m = e.mod(HEAD).HeadMethod(nu, *U)
    m.initial_shape_d = H
    e.eq("initial_shape_d read back", m.initial_shape_d, H, shape=False)
    m.initial_delta_m = d
    e.eq("initial_shape_d", m.initial_shape_d, H, shape=False)
    e.eq("initial_delta_m", m.initial_delta_m, d, shape=False)
    x0 = e.real("x0", span=(0.1, 1))
    e.requires(U[0](x0) > 0.01)
    m.solve(x0, x0 + 1)
    started(e, m, "Head", x0, x0 + 1, d, H, nu)


def stagnation(e, nu, a):
    return e.np.sqrt(0.29235 * 1.23259 * nu / ((2.2162 + 2) * a))


@contract(*SOLVE, *COND, "ibl.initial_condition:FalknerSkanStagCondition.__init__")
def stagnation_start(e):
    """The stagnation condition, with the viscosity and slope of the moment."""
    m, kind, (U, dU, d2U), nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    C = e.mod(IC).FalknerSkanStagCondition
    c = C(e.real("slope", span=(-2, 2)), new(e, 3, "nu")[0])
    m.set_initial_condition(c)
    e.requires(dU(x0) > 0)
    before = e.choice("before", ["nothing", "solve", "solve elsewhere"])
    if before == "solve":
        m.solve(x0, x1)
    elif before == "solve elsewhere":
        e.requires(dU(x0 - 0.05) > 0)
        e.requires(U(x0 - 0.05) > 0.01)
        m.solve(x0 - 0.05, x1)
    ch = e.choice("change", ["nothing", "viscosity", "velocity"])
    if ch == "viscosity":
        nu, = new(e, 1, "nu")
        m.nu = nu
    elif ch == "velocity":
        U, dU, d2U = e.fn("W", 2)
        e.requires(dU(x0) > 0)
        e.requires(U(x0) > 0.01)
        if e.choice("result", ["number", "array"]) == "number":
            m.set_velocity(U, dU, d2U)
        else:
            m.set_velocity(U, lambda t: e.np.asarray(dU(t)), d2U)
    m.solve(x0, x1)
    d = stagnation(e, nu, dU(x0))
    started(e, m, kind, x0, x1, d, 2.2162, nu)
    e.eq("momentum thickness of the condition", c.delta_m(), d, shape=False)
    e.eq("displacement thickness of the condition", c.delta_d(), 2.2162 * d, shape=False)


@contract(*SOLVE)
def own_condition(e):
    """A condition of the user is asked with the current viscosity and slope."""
    m, kind, (U, dU, d2U), nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    Base = e.mod(IC).InitialCondition

    class Mine(Base):
        def delta_m(self):
            return self.nu * (2 + self.du_e**2)

        def shape_d(self):
            return 1.3 + self.du_e**2 / (1 + self.du_e**2)

        def shape_k(self):
            return 1.5

        def delta_d(self):
            return self.delta_m() * self.shape_d()

        def delta_k(self):
            return self.delta_m() * 1.5
    c = Mine(0.0, 1.0)
    m.set_initial_condition(c)
    for k in range(e.choice("solves", [1, 2])):
        if k:
            nu, = new(e, 1, "nu")
            m.nu = nu
        m.solve(x0, x1)
        a = dU(x0)
        started(e, m, kind, x0, x1, nu * (2 + a**2), 1.3 + a**2 / (1 + a**2), nu)
    e.eq("viscosity of the condition", c.nu, nu, shape=False)
    e.eq("slope of the condition", c.du_e, a, shape=False)


@contract(*COND, "ibl.initial_condition:ManualCondition.__init__")
def manual_condition(e):
    m, kind, U, nu, x0, x1, d0, H0 = ready(e, fits=("White",))
    dd, dm, dk = [e.real("delta_" + n, gt=0, span=(1e-4, 1e-2)) for n in "dmk"]
    c = e.mod(IC).ManualCondition(dd, dm, dk)
    m.set_initial_condition(c)
    m.solve(x0, x1)
    started(e, m, kind, x0, x1, dm, dd / dm, nu)
    e.eq("delta_d", c.delta_d(), dd)
    e.eq("delta_m", c.delta_m(), dm)
    e.eq("delta_k", c.delta_k(), dk)


@contract("ibl.initial_condition:FalknerSkanStagCondition.delta_m", "ibl.initial_condition:FalknerSkanStagCondition.delta_k",
          "ibl.initial_condition:FalknerSkanStagCondition.delta_d", "ibl.initial_condition:FalknerSkanStagCondition.shape_k")
def stagnation_condition(e):
    nu, = new(e, 0, "nu")
    a = e.real("slope", gt=0, span=(0.1, 10))
    c = e.mod(IC).FalknerSkanStagCondition(a, nu)
    if e.choice("then", ["as made", "changed"]) == "changed":
        nu, = new(e, 1, "nu")
        a = e.real("slope1", gt=0, span=(0.1, 10))
        c.nu = nu
        c.du_e = a
    d = stagnation(e, nu, a)
    e.eq("delta_m", c.delta_m(), d)
    e.eq("shape_d", c.shape_d(), 2.2162)
    e.eq("delta_d", c.delta_d(), 2.2162 * d)
    e.eq("shape_k", c.shape_k(), 1.6257)
    e.eq("delta_k", c.delta_k(), 1.6257 * d)
