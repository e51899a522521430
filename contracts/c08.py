# Head's shape factor closure and its inverse.
SUBJ = ("ibl.head_method:HeadMethod._shape_entrainment", "ibl.head_method:HeadMethod._shape_d")
SHAPES = ("scalar", "0d", "1d", "2d")


def fn(e, name):
    return e.get(e.mod(HEAD).HeadMethod, name)


def pick_H(e, shapes=SHAPES):
    b = e.choice("branch", ["low", "at", "high"])
    if b == "low":
        return e.point("H", shapes, gt=1.1001, lt=1.6)
    if b == "at":
        return e.const_point("H", 1.6, shapes)
    return e.point("H", shapes, gt=1.6, lt=20, span=(1.6, 6))


@contract(*SUBJ)
def closure_formula(e):
    H = pick_H(e)
    r = fn(e, "_shape_entrainment")(H)
    e.eq("published fit", r, head_H1(e, H))
    e.lt("positive", 0, r)


@contract(*SUBJ)
def closure_decreasing(e):
    H = e.real("H", gt=1.1001, lt=1.6) if e.choice("branch", [0, 1]) == 0 else e.real("H", gt=1.6, hi=20)
    e.lt("strictly decreasing", e.D(fn(e, "_shape_entrainment"), H), 0)


@contract(*SUBJ, "ibl.head_method:HeadMethod._shape_entrainment_p")
def closure_slope(e):
    H = e.real("H", gt=1.1001, lt=1.6) if e.choice("branch", [0, 1]) == 0 else e.real("H", gt=1.6, hi=20)
    e.eq("exact derivative", fn(e, "_shape_entrainment_p")(H), e.D(fn(e, "_shape_entrainment"), H), tol=1e-5, shape=False)


@contract(*SUBJ)
def closure_continuous(e):
    f = fn(e, "_shape_entrainment")
    at = f(e.np.array(1.6))
    e.close("continuous at 1.6", at, head_H1(e, 1.6), 1e-9)
    # the upper branch as H falls to 1.6
    e.close("upper branch at 1.6", 3.32254659218600974 + 1.5501 / (1.6 - 0.6778)**3.064, at, 1e-4)


def check_inverse(e, H):
    back = fn(e, "_shape_d")(fn(e, "_shape_entrainment")(e.np.array(H)))
    e.same_shape("shape", back, H)
    e.le("not above", back - H, 1e-4)
    e.le("not below", H - back, 1e-4)


@contract(*SUBJ)
def closure_inverse(e):
    b = e.choice("branch", ["low", "at", "high"])
    check_inverse(e, e.const_point("H", 1.6, SHAPES) if b == "at" else
                  e.point("H", SHAPES, gt=1.1001, lt=1.6) if b == "low" else
                  e.point("H", SHAPES, gt=1.601, lt=20, span=(1.601, 6)))


@contract(*SUBJ, trials=200)
def closure_inverse_transition(e):
    # just above the switch the two published fits overlap by ~1e-5: bounded
    check_inverse(e, e.point("H", SHAPES, gt=1.6, lt=1.601))


@contract(*SUBJ)
def closure_inverse_exact(e):
    b = e.choice("branch", ["low", "high"])
    H = e.point("H", SHAPES, gt=1.1001, lt=1.599) if b == "low" else e.point("H", SHAPES, gt=1.601, lt=20, span=(1.6, 6))
    back = fn(e, "_shape_d")(fn(e, "_shape_entrainment")(e.np.array(H)))
    e.eq("inverse", back, H, tol=1e-6)


@contract(*SUBJ, "ibl.head_method:HeadMethod._shape_entrainment_p", "ibl.head_method:HeadMethod._entrainment_velocity")
def closure_limits(e):
    which = e.choice("function", ["_shape_entrainment", "_shape_entrainment_p", "_shape_d", "_entrainment_velocity"])
    f = fn(e, which)
    lim, at = {"_shape_d": (3.32254659218600974, 3.323), "_entrainment_velocity": (3, 3.001)}.get(which, (1.1, 1.1001))
    H = e.point("v", SHAPES, hi=lim, span=(-3, lim))
    r = f(e.np.array(H))
    e.same_shape("shape", r, H)
    e.finite("finite", r)
    e.eq("value of the limit", r, f(e.np.array(at)) + 0 * H)


@contract("ibl.head_method:HeadMethod._entrainment_velocity")
def entrainment_velocity(e):
    H1 = e.point("H1", SHAPES, gt=3.001, span=(3.01, 20))
    e.eq("Head's entrainment", fn(e, "_entrainment_velocity")(H1), 0.0306 * (H1 - 3)**(-0.6169))
