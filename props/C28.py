"""Equivalent models agree to first order in the time step."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [
    REALS, STUBS, EXP + "; exp(x) <= 1 + x + x^2/2 for x <= 0 is assumed where the bound is claimed",
]


def equivalent(m, delta_t):
    """the two-layer model with the parameters of impulse response model m"""
    return TwoLayerModel(delta_t=Q(delta_t, "yr"), **m.get_two_layer_parameters())


def modes(v):
    """deep temperature of each mode per surface temperature"""
    s = (v["d1"] * v["q2"] + v["d2"] * v["q1"]) / (v["q1"] + v["q2"])
    return [v["d1"] / (v["d1"] - s), v["d2"] / (v["d2"] - s)]


def euler(v, u, F):
    """one forward-differencing step of the two boxes"""
    h = v["delta_t"]
    return [x + h * (v["q" + i] * F - x) / v["d" + i] for x, i in zip(u, "12")]


def size(c, v, u, F):
    """magnitude of the terms that are summed in a step"""
    s = c.abs(F) * (v["q1"] + v["q2"])
    for x in u + modes(v):
        s = s + c.abs(x)
    return s


def start(c, v):
    return [c.real("T1", -50, 50), c.real("T2", -50, 50)], c.real("F", -20, 20)


def one_step(c):
    """the two-layer model makes the forward-differencing step of the boxes, from any state"""
    v = ir_values(c)
    u, F = start(c, v)
    phi = modes(v)
    m = ir_model(v)
    w = equivalent(m, v["delta_t"])
    S = u[0] + u[1], phi[0] * u[0] + phi[1] * u[1]
    A, B, _R = last_step(c, w, S, F, points(c))
    n = euler(v, u, F)
    s = size(c, v, u, F) * (1 + v["delta_t"] / v["d1"]) * 100
    c.observe("A", A)
    c.eq("surface", A, n[0] + n[1], scale=s)
    c.eq("deep", B, phi[0] * n[0] + phi[1] * n[1], scale=s * (1 + c.abs(phi[0]) + c.abs(phi[1])))


def uptake(c):
    """both report the same heat uptake for equivalent states and the same forcing"""
    v = ir_values(c)
    u, F = start(c, v)
    phi = modes(v)
    m = ir_model(v)
    w = equivalent(m, v["delta_t"])
    n = points(c)
    Rw = last_step(c, w, (u[0] + u[1], phi[0] * u[0] + phi[1] * u[1]), F, n)[2]
    Rm = last_step(c, m, u, F, n)[2]
    c.observe("R", Rm)
    lam = 1 / (v["q1"] + v["q2"])
    C = v["d1"] * v["d2"] / (v["q1"] * v["d2"] + v["q2"] * v["d1"])
    s = c.abs(F) + (c.abs(u[0]) + c.abs(u[1])) * (lam + C / v["d1"] + 1 / v["efficacy"]) * (
        1 + c.abs(phi[0]) + c.abs(phi[1])) * (1 + v["efficacy"]) * (1 + v["d2"] / v["delta_t"])
    c.eq("uptake", Rw, Rm, scale=100 * s)


def gap(c):
    """bound on the difference of the surface temperatures after one step"""
    v = ir_values(c)
    v["efficacy"] = 1.0
    u, F = start(c, v)
    m = ir_model(v)
    A, B, _R = last_step(c, m, u, F, points(c))
    e = euler(v, u, F)
    for i, (x, y) in enumerate(zip((A, B), e)):
        r = v["delta_t"] / v["d%d" % (i + 1)]
        k = decay(c, v["delta_t"], v["d%d" % (i + 1)])
        c.assume(k <= 1 - r + r * r / 2)
        away = v["q%d" % (i + 1)] * F - u[i]
        c.observe("box%d" % i, x)
        # exactly: the boxes' gap is away * (1 - r - k), between -away * r^2/2 and 0
        c.eq("gap of box %d" % (i + 1), x - y, away * (1 - r - k),
             scale=c.abs(u[i]) + c.abs(away) * (1 + r))
        c.true("curvature of box %d" % (i + 1), (k - 1 + r >= 0) & (k - 1 + r <= r * r / 2)
               if c.symbolic else -1e-9 <= k - 1 + r <= r * r / 2 + 1e-9)


def runs(c):
    """whole runs from rest: the two-layer model follows the forward-differenced boxes"""
    n = c.choose("n", [2, 3, c.tiered(4, 5)])
    v = ir_values(c)
    F = forcing(c, n)
    m = ir_model(v)
    A, B, R = run(equivalent(m, v["delta_t"]), F)
    u = [0.0, 0.0]
    phi = modes(v)
    for i in range(n):
        s = 1.0
        for f in F:
            s = s + c.abs(f)
        r = 1 + v["delta_t"] / v["d1"]
        for _ in range(i):
            s = s * r
        s = s * (v["q1"] + v["q2"]) * (1 + c.abs(phi[0]) + c.abs(phi[1])) * 100
        c.eq("surface[%d]" % i, A[i], u[0] + u[1], scale=s)
        c.eq("deep[%d]" % i, B[i], phi[0] * u[0] + phi[1] * u[1], scale=s)
        u = euler(v, u, F[i])


def far(c):
    """the end of a long run"""
    v = ir_values(c)
    n, F = far_run(c)
    A, B, R = run(equivalent(ir_model(v), v["delta_t"]), F)
    u = [0.0, 0.0]
    phi = modes(v)
    f, r = 1.0, 1 + v["delta_t"] / v["d1"]
    for i in range(n - 4, n):
        f = f + c.abs(F[i])
    for i in range(n - 4, n):
        s = f * (v["q1"] + v["q2"]) * (1 + c.abs(phi[0]) + c.abs(phi[1])) * 100 * r * r * r
        c.eq("surface[%d]" % i, A[i], u[0] + u[1], scale=s)
        c.eq("deep[%d]" % i, B[i], phi[0] * u[0] + phi[1] * u[1], scale=s)
        u = euler(v, u, F[i])


def from_two_layer(c):
    """the same, starting from two-layer parameters"""
    n = c.choose("n", [2, 3])
    v = tl_values(c, a=False)
    F = forcing(c, n)
    m = tl_model(v)
    p = m.get_impulse_response_parameters()
    w = {k: q.to(IR_UNITS[k]).magnitude for k, q in p.items()}
    w["delta_t"] = Q(v["delta_t"], "s").to("yr").magnitude
    A, _B, _R = run(m, F)
    u = [0.0, 0.0]
    for i in range(n):
        s = 1.0
        for f in F:
            s = s + c.abs(f)
        r = 1 + w["delta_t"] / w["d1"]
        for _ in range(i):
            s = s * r
        c.eq("surface[%d]" % i, A[i], u[0] + u[1], scale=s * (w["q1"] + w["q2"]) * 100)
        u = euler(w, u, F[i])


HARNESSES = [
    H("one_step", one_step, bounds="one step from any state, all parameters (induction over steps), last step of "
      + CODE_SIZES),
    H("uptake", uptake, bounds="one step from any state, all parameters, last step of " + CODE_SIZES),
    H("gap", gap, bounds="one step from any state, all parameters, last step of " + CODE_SIZES),
    H("runs", runs, bounds="runs of 2, 3 and 4 (thorough: 5) points from rest", nocut=True),
    H("far", far, **dict(FAR, nocut=True)),
    H("from_two_layer", from_two_layer, bounds="runs of 2 and 3 points from rest", nocut=True),
]
