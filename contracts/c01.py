# Edge velocity and its derivatives, for every way of specifying them.
V = "ibl.ibl_method:IBLMethod."
SETV = (V + "set_velocity", V + "__init__", V + "u_e", V + "du_e", V + "d2u_e")
CLS = ("ibl.head_method:HeadMethod.__init__", "ibl.thwaites_method:ThwaitesMethod.__init__")


def configured(e, *spec, ways=("Head constructor", "Thwaites constructor", "set_velocity", "set again")):
    """A method with that velocity, set in one of the possible ways."""
    how = e.choice("set by", ways)
    C = e.mod(HEAD).HeadMethod if how != "Thwaites constructor" else e.mod(THW).ThwaitesMethodLinear
    if how.endswith("constructor"):
        names = ("U_e", "dU_edx", "d2U_edx2")
        return C(1.0, **{n: s for n, s in zip(names, spec) if s is not None})
    m = C(1.0)
    if how == "set again":
        if e.choice("before", ["functions", "table"]) == "table":
            m.set_velocity(([0.0, 1.0, 2.0], [1.0, 2.0, 4.0]))
        else:
            m.set_velocity(*e.fn("V0", 2))
    m.set_velocity(*spec)
    return m


class WithDerivative:
    """Callable with a derivative method, like scipy's interpolators."""
    def __init__(self, fs):
        self.fs = fs

    def __call__(self, x):
        return self.fs[0](x)

    def derivative(self, nu=1):
        return WithDerivative(self.fs[nu:])


def poly(c):
    def p(x):
        r = 0 * x
        for a in c[::-1]:
            r = r * x + a
        return r
    return p


def dpoly(c):
    return [k * c[k] for k in range(1, len(c))]


@contract(*SETV, *CLS)
def given_functions(e):
    U, dU, d2U = e.fn("U", 2)
    m = configured(e, U, dU, d2U)
    x = e.point("x", ("scalar", "0d", "1d", "2d"), span=(0.2, 2))
    e.eq("u_e", m.u_e(x), U(x))
    e.eq("du_e", m.du_e(x), dU(x))
    e.eq("d2u_e", m.d2u_e(x), d2U(x))


@contract(*SETV, *CLS)
def given_derivative_methods(e):
    U, dU, d2U = e.fn("U", 2)
    which = e.choice("with derivative method", ["u_e", "du_e", "both", "u_e and d2u_e given"])
    if which == "u_e":
        m = configured(e, WithDerivative([U, dU, d2U]))
    elif which == "du_e":
        m = configured(e, U, WithDerivative([dU, d2U]))
    elif which == "both":
        W, dW, d2W = e.fn("W", 2)
        m = configured(e, WithDerivative([U, dW, d2W]), WithDerivative([dU, d2U]))
    else:
        W, dW, d2W = e.fn("W", 2)
        m = configured(e, WithDerivative([U, dW, d2W]), WithDerivative([dU, d2W]), d2U)
    x = e.point("x", ("scalar", "0d", "1d"), span=(0.2, 2))
    e.eq("u_e", m.u_e(x), U(x))
    e.eq("du_e", m.du_e(x), dU(x))
    e.eq("d2u_e", m.d2u_e(x), d2U(x))


@contract(*SETV)
def differenced_velocity(e):
    n = e.choice("degree", [0, 1, 2, 3, 4])
    c = [e.real(f"c{k}", span=(-2, 2)) for k in range(n + 1)]
    U = poly(c)
    m = configured(e, U)
    x = e.point("x", ("scalar", "0d", "1d"), span=(0.2, 2))
    e.eq("u_e", m.u_e(x), U(x))
    e.eq("du_e", m.du_e(x), poly(dpoly(c))(x), abstol=1e-8)
    e.eq("d2u_e", m.d2u_e(x), poly(dpoly(dpoly(c)))(x), abstol=1e-3)


@contract(*SETV)
def differenced_slope(e):
    n = e.choice("degree", [0, 1, 2, 3, 4])
    c = [e.real(f"c{k}", span=(-2, 2)) for k in range(n + 1)]
    U, _, _ = e.fn("U", 2)
    dU = poly(c)
    m = configured(e, U, dU)
    x = e.point("x", ("scalar", "0d", "1d"), span=(0.2, 2))
    e.eq("u_e", m.u_e(x), U(x))
    e.eq("du_e", m.du_e(x), dU(x))
    e.eq("d2u_e", m.d2u_e(x), poly(dpoly(c))(x), abstol=1e-7)


@contract(*SETV, *CLS)
def velocity_table(e):
    xs, ys, xk, yk, first = e.table("tab", values=dict(span=(0.5, 5)))
    m = configured(e, (xs, ys) if not e.symbolic or isinstance(xs, list) else [xs, ys],
                   ways=("Thwaites constructor", "set again"))
    e.eq("velocity at the table points", m.u_e(xk), yk, shape=False)
    consistent(e, m)
    monotone(e, m.u_e, xs, ys)


@contract(*SETV, *CLS)
def start_and_slope_table(e):
    xs, ys, xk, yk, first = e.table("tab", values=dict(span=(-2, 5)))
    u0 = e.real("u0", span=(-1, 5))
    form = e.choice("start velocity", ["float", "integer"])
    if form == "integer":
        u0 = 3
    m = configured(e, u0, (xs, ys) if not e.symbolic or isinstance(xs, list) else [xs, ys],
                   ways=("Head constructor", "set again"))
    e.eq("start velocity", m.u_e(first), u0, shape=False, abstol=1e-12)
    e.eq("slope at the table points", m.du_e(xk), yk, shape=False, abstol=1e-12)
    consistent(e, m)
    monotone(e, m.du_e, xs, ys)


def consistent(e, m):
    x = e.point("x", ("scalar", "0d", "1d"), span=(0.12, 1.8))
    u, du, d2u = m.u_e(x), m.du_e(x), m.d2u_e(x)
    e.same_shape("shape of u_e", u, x)
    e.same_shape("shape of du_e", du, x)
    e.same_shape("shape of d2u_e", d2u, x)
    e.eq("du_e is the derivative of u_e", du, e.D(m.u_e, x), shape=False, tol=1e-4, abstol=1e-6)
    e.eq("d2u_e is the derivative of du_e", d2u, e.D(m.du_e, x), shape=False, tol=1e-4, abstol=1e-6)


def monotone(e, f, xs, ys):
    """Between two neighbouring points there is no overshoot."""
    if e.symbolic:
        if not isinstance(xs, list):
            return
        k = 0
    else:
        k = e.choice("interval", list(range(len(xs) - 1)))
    a, b, p, q = xs[k], xs[k + 1], ys[k], ys[k + 1]
    up = e.choice("order", ["up", "down"]) == "up"
    e.requires(p <= q if up else p > q)
    v = e.elem(f(e.real("between", gt=a, lt=b)))
    tol = 0 if e.symbolic else 1e-9
    e.true("no overshoot", v <= (q if up else p) + tol)
    e.true("no undershoot", v >= (p if up else q) - tol)
