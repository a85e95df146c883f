"""Impulse response heat uptake is that of the equivalent two-layer model."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS]


def uptake_ref(c, v, T1, T2, F):
    """
    F - lambda0 T - (eff - 1) eta (T - T_deep) in terms of q and d.

    A mode decaying at rate 1/d_i has T_deep = phi_i T with
    efficacy * eta * (1 - phi_i) = C / d_i - lambda0 (upper layer's equation), which turns
    the efficacy term into (eff - 1) / eff * sum_i (C / d_i - lambda0) T_i.
    """
    lam = 1 / (v["q1"] + v["q2"])
    C = v["d1"] * v["d2"] / (v["q1"] * v["d2"] + v["q2"] * v["d1"])
    e = (v["efficacy"] - 1) / v["efficacy"]
    return c.terms(
        F, -(lam * T1), -(lam * T2),
        -(e * C / v["d1"] * T1), e * lam * T1, -(e * C / v["d2"] * T2), e * lam * T2,
    )  # fmt: skip


def any_state(c):
    v = ir_values(c)
    T1, T2, F = c.real("T10", -50, 50), c.real("T20", -50, 50), c.real("F", -20, 20)
    m = ir_model(v)
    _A, _B, R = last_step(c, m, (T1, T2), F, points(c))
    c.observe("R", R)
    c.eq("start", state(m)[2][0], 0.0)
    r, s = uptake_ref(c, v, T1, T2, F)
    c.eq("uptake", R, r, scale=s)


def function(c):
    """the heat uptake as a function of state and efficacy, and its value at efficacy 1"""
    v = ir_values(c)
    T1, T2, F = c.real("T1", -50, 50), c.real("T2", -50, 50), c.real("F", -50, 50)
    m = ir_model(v)
    R = private(m._calculate_next_rndt, T1, T2, F, v["efficacy"])
    c.observe("R", R)
    r, s = uptake_ref(c, v, T1, T2, F)
    c.eq("uptake", R, r, scale=s)


def whole_run(c):
    n = c.choose("n", [1, 2, 3])
    v = ir_values(c)
    F = forcing(c, n)
    m = ir_model(v)
    T1, T2, R = run(m, F)
    observe_state(c, m)
    c.true("length", len(R) == n)
    for i in range(1, n):
        r, s = uptake_ref(c, v, T1[i - 1], T2[i - 1], F[i - 1])
        c.eq("uptake[%d]" % i, R[i], r, scale=s)


def far(c):
    n, F = far_run(c)
    v = ir_values(c)
    T1, T2, R = run(ir_model(v), F)
    for i in range(n - 4, n):
        r, s = uptake_ref(c, v, T1[i - 1], T2[i - 1], F[i - 1])
        c.eq("uptake[%d]" % i, R[i], r, scale=s)


def other_units(c):
    """every parameter in an arbitrary unit"""
    v = ir_values(c)
    which = c.choose("which", ["q1", "q2", "d1", "d2", "q", "d", "all"])
    pick = {"q": ["q1", "q2"], "d": ["d1", "d2"], "all": ["q1", "q2", "d1", "d2"]}.get(
        which, [which]
    )
    over = {}
    kq, kd = c.pos("kq", 1e3), c.pos("kd", 1e3)
    uq = c.scale_unit(ur, "q", IR_UNITS["q1"], kq)
    ud = c.scale_unit(ur, "d", "yr", kd)
    for p in pick:
        k, u = (kq, uq) if p[0] == "q" else (kd, ud)
        over[p] = Q(v[p] / k, u)
    m = ir_model(v, **over)
    T1, T2, F = c.real("T1", -50, 50), c.real("T2", -50, 50), c.real("F", -50, 50)
    drive(m, c.array([F, 0.0]))
    m.step()
    poke(m, 0, (T1, T2))
    m.step()
    R = state(m)[2]
    c.observe("R", R[1])
    r, s = uptake_ref(c, v, T1, T2, F)
    c.eq("uptake in other units", R[1], r, scale=s)


UNIT_SETS = [
    {"q1": "K/(W/m^2)", "q2": "K/(W/m^2)"},
    {"q1": "K/(W/m^2)", "q2": "delta_degC/(W/m^2)", "d1": "month", "d2": "century"},
    {"q1": "delta_degC/(kW/m^2)", "q2": "delta_degC/(kW/m^2)"},
    {"q1": "mK/(W/km^2)", "q2": "K/(kW/m^2)", "d1": "s", "d2": "day"},
    {"q1": "delta_degC*m^2/W", "q2": "delta_degF*m^2/W"},
    {"q1": "delta_degC * s * m^2 / J", "q2": "delta_degC * month * m^2 / J"},
    {"efficacy": "percent"},
    {"d1": "day", "d2": "s", "efficacy": "g/kg"},
]


def real_units(c):
    """every parameter in real units"""
    v = ir_values(c)
    us = c.choose("units", UNIT_SETS)
    over = {}
    for p, u in us.items():
        try:
            k = ur(u).to(IR_UNITS[p]).magnitude
        except Exception:
            continue  # unit unknown to this registry
        over[p] = Q(v[p] / k, u)
    m = ir_model(v, **over)
    T1, T2, F = c.real("T1", -50, 50), c.real("T2", -50, 50), c.real("F", -50, 50)
    drive(m, c.array([F, 0.0]))
    m.step()
    poke(m, 0, (T1, T2))
    m.step()
    R = state(m)[2]
    c.observe("R", R[1])
    r, s = uptake_ref(c, v, T1, T2, F)
    c.eq("uptake in real units", R[1], r, scale=s)


def two_layer(c):
    """ImpulseResponseModel made from a two-layer model reports the two-layer heat uptake"""
    v = tl_values(c, a=False)
    t = tl_model(v)
    p = t.get_impulse_response_parameters()
    m = ImpulseResponseModel(**p)
    T, D, F = c.real("T", -50, 50), c.real("D", -50, 50), c.real("F", -50, 50)
    # box temperatures with T1 + T2 = T and phi1 T1 + phi2 T2 = D, by way of the rates
    C = v["du"] * RHO_C
    yr = ur("yr").to("s").magnitude
    r1 = 1 / (p["d1"].to("yr").magnitude * yr)
    r2 = 1 / (p["d2"].to("yr").magnitude * yr)
    s = v["efficacy"] * v["eta"]
    f1 = 1 - (C * r1 - v["lambda0"]) / s
    f2 = 1 - (C * r2 - v["lambda0"]) / s
    c.assume(f1 != f2)
    T1 = (D - f2 * T) / (f1 - f2)
    T2 = T - T1
    R = private(m._calculate_next_rndt, T1, T2, F, v["efficacy"])
    c.observe("R", R)
    ref, sc = c.terms(
        F, -(v["lambda0"] * T), -((v["efficacy"] - 1) * v["eta"] * T),
        (v["efficacy"] - 1) * v["eta"] * D,
    )  # fmt: skip
    c.eq("uptake of the two-layer model", R, ref, scale=sc, tol=1e-6)


HARNESSES = [
    H("any_state", any_state, bounds="one step from an arbitrary state, all parameters, last step of "
      + CODE_SIZES),
    H("function", function, bounds="the uptake function on arbitrary reals"),
    H("whole_run", whole_run, bounds="runs of 1 to 3 time points"),
    H("far", far, **FAR),
    H("other_units", other_units,
      bounds="one step; q1, q2, d1, d2 singly and together in units of arbitrary size"),
    H("real_units", real_units, bounds="one step; 8 mixes of real units, all values"),
    H("two_layer", two_layer, best_effort=True, tiers=("thorough",), branch_s=60.0, query_s=120.0,
      budget=(60, 900),
      bounds="all two-layer models with a = 0, arbitrary states"),
]
