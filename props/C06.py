"""Conversions between the two models are mutual inverses."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS]
TL = ("du", "dl", "lambda0", "efficacy", "eta")
IR = ("q1", "q2", "d1", "d2", "efficacy")


def mag(q, unit):
    return q.to(unit).magnitude


def tl_over(c, v, pick, unit=None):
    over = {}
    for p in pick:
        k = c.pos("k_" + p, 1e3)
        over[p] = Q(v[p] / k, c.scale_unit(ur, p, TL_UNITS[p], k))
    return over


def ir_over(c, v, pick):
    over = {}
    for p in pick:
        k = c.pos("k_" + p, 1e3)
        over[p] = Q(v[p] / k, c.scale_unit(ur, p, IR_UNITS[p], k))
    return over


def from_two_layer(c, pick=()):
    v = tl_values(c, a=False)
    m = tl_model(v, **tl_over(c, v, pick))
    p = m.get_impulse_response_parameters()
    k = ImpulseResponseModel(**p)
    back = k.get_two_layer_parameters()
    c.true("returned keys", sorted(back) == sorted(TL))
    for n in ("q1", "q2", "d1", "d2"):
        x = mag(p[n], IR_UNITS[n])
        c.observe(n, x)
        c.lt(n + " > 0", 0.0, x)
    for n in TL:
        c.observe("back " + n, mag(back[n], TL_UNITS[n]))
        c.eq("back " + n, mag(back[n], TL_UNITS[n]), v[n], tol=1e-6)
    t = TwoLayerModel(**back)
    c.true("accepted", isinstance(t, TwoLayerModel))


def from_impulse(c, pick=()):
    v = ir_values(c)
    m = ir_model(v, **ir_over(c, v, pick))
    p = m.get_two_layer_parameters()
    c.true("returned keys", sorted(p) == sorted(TL))
    for n in TL:
        x = mag(p[n], TL_UNITS[n])
        c.observe(n, x)
        c.lt(n + " > 0", 0.0, x)
    k = TwoLayerModel(**p)
    back = k.get_impulse_response_parameters()
    for n in IR:
        c.observe("back " + n, mag(back[n], IR_UNITS[n]))
        c.eq("back " + n, mag(back[n], IR_UNITS[n]), v[n], tol=1e-6)


def from_two_layer_units(c):
    from_two_layer(c, c.choose("which", [["du"], ["dl"], ["lambda0"], ["eta"], ["efficacy"],
                                         ["du", "dl", "lambda0", "eta", "efficacy"]]))


def from_impulse_units(c):
    from_impulse(c, c.choose("which", [["q1"], ["q2"], ["d1"], ["d2"], ["efficacy"],
                                       ["q1", "q2", "d1", "d2", "efficacy"]]))


def repeated(c):
    """the conversion is a function of the current parameters: convert, change, convert"""
    v = tl_values(c, a=False)
    m = tl_model(v)
    m.get_impulse_response_parameters()
    n = c.choose("changed", list(TL))
    v[n] = c.pos("new_" + n, 20.0 if n not in ("du", "dl") else 1e4,
                 typical=(1.1, 1.3) if n not in ("du", "dl") else (150.0, 250.0))
    setattr(m, n, Q(v[n], TL_UNITS[n]))
    m.lambda0 = m.lambda0
    back = ImpulseResponseModel(**m.get_impulse_response_parameters()).get_two_layer_parameters()
    for k in TL:
        c.eq("after a change, back " + k, mag(back[k], TL_UNITS[k]), v[k], tol=1e-6)


def repeated_impulse(c):
    v = ir_values(c)
    m = ir_model(v)
    m.get_two_layer_parameters()
    n = c.choose("changed", list(IR))
    v[n] = c.pos("new_" + n, 1e3, typical={"d1": (1.5, 2.5), "d2": (600.0, 700.0)}.get(n, (1.1, 1.3)))
    c.assume(v["d1"] < v["d2"])
    setattr(m, n, Q(v[n], IR_UNITS[n]))
    back = TwoLayerModel(**m.get_two_layer_parameters()).get_impulse_response_parameters()
    for k in IR:
        c.eq("after a change, back " + k, mag(back[k], IR_UNITS[k]), v[k], tol=1e-6)


OPT = dict(exact_s=30.0, query_s=40.0, budget=(120, 500))
HARNESSES = [
    H("from_two_layer", from_two_layer, bounds="all positive two-layer parameters, a = 0", **OPT),
    H("from_impulse", from_impulse, bounds="all positive impulse response parameters, d1 < d2", **OPT),
    H("from_two_layer_units", from_two_layer_units,
      bounds="the same, each parameter and all together in units of arbitrary size", **OPT),
    H("from_impulse_units", from_impulse_units,
      bounds="the same, each parameter and all together in units of arbitrary size", **OPT),
    H("repeated", repeated, bounds="converting, changing one parameter, converting again", **OPT),
    H("repeated_impulse", repeated_impulse,
      bounds="converting, changing one parameter, converting again", **OPT),
]
