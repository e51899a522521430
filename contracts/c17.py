# Skin friction laws.
MOD = "ibl.skin_friction"


def one_over(name):
    return name


@contract("ibl.skin_friction:ludwieg_tillman")
def ludwieg_tillman_formula(e):
    f = e.mod(MOD).ludwieg_tillman
    H = e.point("H", ("scalar", "0d", "1d", "2d"), lo=1, hi=20, span=(1, 5))
    Re = e.like(H, "Re", gt=1, span=(1, 1e6))
    r = f(Re, H)
    e.eq("value", r, 0.246 * 10**(-0.678 * H) * Re**(-0.268))
    e.lt("positive", 0, r)


@contract("ibl.skin_friction:ludwieg_tillman")
def ludwieg_tillman_monotone(e):
    f = e.mod(MOD).ludwieg_tillman
    H = e.real("H", lo=1, hi=20, span=(1, 5))
    Re = e.real("Re", gt=1, span=(1, 1e6))
    e.lt("falls with Re", e.D(lambda v: f(v, H), Re), 0)
    e.lt("falls with H", e.D(lambda v: f(Re, v), H), 0)


@contract("ibl.skin_friction:felsch")
def felsch_formula(e):
    f = e.mod(MOD).felsch
    H = e.point("H", ("scalar", "0d", "1d", "2d"), lo=1, hi=2.998, span=(1, 3))
    Re = e.like(H, "Re", gt=1, span=(1, 1e6))
    r = f(Re, H)
    e.eq("value", r, 0.058 * (0.93 - 1.95 * np.log10(H))**1.705 * Re**(-0.268))
    e.lt("positive", 0, r)


@contract("ibl.skin_friction:felsch")
def felsch_monotone(e):
    f = e.mod(MOD).felsch
    H = e.real("H", gt=1, lt=2.998)
    Re = e.real("Re", gt=1, span=(1, 1e6))
    e.lt("falls with Re", e.D(lambda v: f(v, H), Re), 0)
    e.lt("falls with H", e.D(lambda v: f(Re, v), H), 0)


@contract("ibl.skin_friction:felsch")
def felsch_limits(e):
    f = e.mod(MOD).felsch
    side = e.choice("side", ["low", "high", "edge"])
    if side == "low":
        H = e.point("H", ("scalar", "0d", "1d", "2d"), lt=1, span=(-2, 1))
    elif side == "high":
        H = e.point("H", ("scalar", "0d", "1d", "2d"), lo=2.9986, span=(2.9986, 6))
    else:
        H = e.point("H", ("scalar", "0d", "1d", "2d"), lo=2.99, hi=2.9986)
    Re = e.like(H, "Re", gt=1, span=(1, 1e6))
    r = f(Re, H)
    e.finite("finite", r)
    e.same_shape("shape", r, H)
    if side == "low":
        e.eq("H below 1 as 1", r, 0.058 * 0.93**1.705 * Re**(-0.268))
    elif side == "high":
        e.le("zero beyond 2.9986", r, 1e-6)
        e.le("never negative", 0, r)
    else:
        e.le("never negative", 0, r)


@contract("ibl.skin_friction:white")
def white_formula(e):
    f = e.mod(MOD).white
    H = e.point("H", ("scalar", "0d", "1d", "2d"), lo=1, hi=20, span=(1, 5))
    Re = e.like(H, "Re", gt=1, span=(1, 1e6))
    r = f(Re, H)
    e.eq("value", r, 0.3 * np.exp(-1.33 * H) * np.log10(Re)**(-1.74 - 0.31 * H))
    e.lt("positive", 0, r)


@contract("ibl.skin_friction:white")
def white_monotone(e):
    f = e.mod(MOD).white
    H = e.real("H", lo=1, hi=20, span=(1, 5))
    Re = e.real("Re", gt=1, span=(1, 1e6))
    e.lt("falls with Re", e.D(lambda v: f(v, H), Re), 0)
    e.requires(Re >= 1.04)
    e.ln_mono(Re, 1.04)
    e.ln_mono(np.log10(Re), np.log10(1.04))
    e.lt("falls with H", e.D(lambda v: f(Re, v), H), 0)
