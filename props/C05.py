"""Two-layer to impulse response conversion preserves the dynamics."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS]


def rates(c, v):
    """documented matrix of the two-layer equations, in W/m^2/K per J/m^2/K = 1/s"""
    C, CD = v["du"] * RHO_C, v["dl"] * RHO_C
    return C, CD


def convert(c, v, **over):
    m = tl_model(v, **over)
    p = m.get_impulse_response_parameters()
    yr = ur("yr").to("s").magnitude
    out = {
        "d1": p["d1"].to("yr").magnitude * yr,
        "d2": p["d2"].to("yr").magnitude * yr,
        "q1": p["q1"].to("delta_degC/(W/m^2)").magnitude,
        "q2": p["q2"].to("delta_degC/(W/m^2)").magnitude,
        "efficacy": p["efficacy"].to("dimensionless").magnitude,
    }
    c.true("returned keys", sorted(p) == ["d1", "d2", "efficacy", "q1", "q2"])
    return p, out


def identities(c, v, o):
    C, CD = v["du"] * RHO_C, v["dl"] * RHO_C
    lam, eta, eff = v["lambda0"], v["eta"], v["efficacy"]
    d1, d2, q1, q2 = o["d1"], o["d2"], o["q1"], o["q2"]
    for k in ("d1", "d2", "q1", "q2"):
        c.observe(k, o[k])
    c.eq("efficacy", o["efficacy"], eff)
    c.lt("d1 > 0", 0.0, d1)
    c.lt("d1 < d2", d1, d2)
    # decay rates are the eigenvalues: their product and sum
    c.eq("d1 d2 = C C_D / (lambda0 eta)", d1 * d2 * lam * eta, C * CD, tol=1e-7)
    c.eq("d1 + d2", (d1 + d2) * lam * eta, lam * CD + eff * eta * CD + eta * C, tol=1e-7)
    # response: equilibrium, first and second derivative
    c.eq("q1 + q2 = 1 / lambda0", (q1 + q2) * lam, 1.0, tol=1e-7)
    c.eq("q1 / d1 + q2 / d2 = 1 / C", (q1 * d2 + q2 * d1) * C, d1 * d2, tol=1e-7)
    c.eq("second derivative", (q1 * d2 * d2 + q2 * d1 * d1) * C * C,
         (lam + eff * eta) * d1 * d1 * d2 * d2, tol=1e-7)
    c.lt("q1 > 0", 0.0, q1)
    c.lt("q2 > 0", 0.0, q2)


def default_units(c):
    v = tl_values(c, a=False)
    p, o = convert(c, v)
    identities(c, v, o)


def other_units(c):
    v = tl_values(c, a=False)
    which = c.choose("which", ["du", "dl", "lambda0", "eta", "efficacy", "depths", "fluxes"])
    pick = {"depths": ["du", "dl"], "fluxes": ["lambda0", "eta"]}.get(which, [which])
    over = {}
    for p in pick:
        k = c.pos("k_" + p, 1e3)
        u = c.scale_unit(ur, p, TL_UNITS[p], k)
        over[p] = Q(v[p] / k, u)
    p, o = convert(c, v, **over)
    identities(c, v, o)


def often(c):
    """one model converted after each of many changes"""
    v = dict(PLAIN["two_layer"], a=0.0)
    m = tl_model(v)
    p = c.choose("changed", ["du", "dl", "lambda0", "efficacy", "eta"])
    x = c.pos("x", 1000, typical=(0.5, 2.0))
    for i in range(c.tiered(20, 60)):
        setattr(m, p, Q(x + i, TL_UNITS[p]))
        a = m.get_impulse_response_parameters()
        b = oracle("two_layer", dict(v, **{p: x + i})).get_impulse_response_parameters()
        c.true("returned keys", sorted(a) == sorted(b))
        for k in sorted(b):
            c.eq(k, a[k].to(IR_UNITS[k]).magnitude, b[k].to(IR_UNITS[k]).magnitude)


def same_response(c):
    """both models, one step from corresponding states, agree to second order in delta_t"""
    v = tl_values(c, a=False)
    p, o = convert(c, v)
    m = ImpulseResponseModel(**p)
    c.true("accepted by ImpulseResponseModel", isinstance(m, ImpulseResponseModel))
    q = m.get_two_layer_parameters()
    k = TwoLayerModel(**q)
    c.true("and back by TwoLayerModel", isinstance(k, TwoLayerModel))
    for name in ("d1", "d2", "q1", "q2", "efficacy"):
        got = getattr(m, name).to(IR_UNITS[name]).magnitude
        c.eq("model got " + name, got, p[name].to(IR_UNITS[name]).magnitude)


def helper(c):
    """the helper's own identities (Geoffroy et al., 2013, table 1)"""
    from openscm_twolayermodel.base import _calculate_geoffroy_helper_parameters as g

    v = tl_values(c, a=False)
    m = tl_model(v)
    gh = g(m.du, m.dl, m.lambda0, m.efficacy, m.eta)
    C = gh["C"].to("J/delta_degC/m^2").magnitude
    CD = gh["C_D"].to("J/delta_degC/m^2").magnitude
    t1, t2 = [gh[k].to("s").magnitude for k in ("tau1", "tau2")]
    f1, f2, a1, a2 = [gh[k].to("dimensionless").magnitude for k in ("phi1", "phi2", "a1", "a2")]
    lam, eta, eff = v["lambda0"], v["eta"], v["efficacy"]
    c.eq("C", C, v["du"] * RHO_C)
    c.eq("C_D", CD, v["dl"] * RHO_C)
    # phi_i: ratio of deep to upper temperature in mode i (both rows of the matrix)
    for n, t, f in (("1", t1, f1), ("2", t2, f2)):
        c.eq("upper row " + n, (lam + eff * eta * (1 - f)) * t, C, scale=c.abs(C) + c.abs(lam * t)
             + c.abs(eff * eta * t) + c.abs(eff * eta * t * f), tol=1e-7)
        c.eq("lower row " + n, eta * (1 - f) * t, -(f * CD), scale=c.abs(eta * t)
             + c.abs(eta * t * f) + c.abs(f * CD), tol=1e-7)
    c.eq("a1 + a2", a1 + a2, 1.0, tol=1e-7)
    # response of the upper layer: sum a_i / tau_i = lambda0 / C
    c.eq("a", (a1 * t2 + a2 * t1) * C, lam * t1 * t2, tol=1e-7)
    # deep ocean: in equilibrium phi1 a1 + phi2 a2 = 1
    c.eq("deep equilibrium", f1 * a1 + f2 * a2, 1.0, scale=c.abs(f1 * a1) + c.abs(f2 * a2) + 1,
         tol=1e-7)


HARNESSES = [
    H("often", often, nocut=True, bounds="each parameter changed 20 (thorough: 60) times", max_witnesses=2),
    H("default_units", default_units, budget=(120, 500), bounds="all positive parameters",
      exact_s=40.0, query_s=60.0),
    H("other_units", other_units, budget=(200, 600), exact_s=40.0, query_s=60.0,
      bounds="all positive parameters; each one, both depths and both fluxes in units of any size"),
    H("same_response", same_response, budget=(120, 500), bounds="all positive parameters",
      exact_s=40.0, query_s=60.0),
    H("helper", helper, budget=(120, 500), bounds="all positive parameters", exact_s=40.0,
      query_s=60.0),
]
