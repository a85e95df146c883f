"""Rest and equilibrium are preserved."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS, EXP]


def rest(c):
    t = kind(c)
    n = c.choose("n", [1, 2, 5, c.tiered(20, 100)] + code_sizes(c))
    v = values(c, t, positive=t == "impulse")
    m = build(t, v)
    z = c.choose("zero", [0.0, 0]) if n < 6 else 0.0
    how = c.choose("array", ["f", "i"]) if z == 0 and n == 5 else "f"
    x = run(m, c.array([z] * n, how))
    observe_state(c, m)
    for s, nm in zip(x, names(m)):
        for i in range(n):
            c.eq("%s[%d] stays zero" % (nm, i), s[i], 0.0)


def rest_after_use(c):
    """a driven model, driven again by nothing"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    run(m, forcing(c, 2))
    x = run(m, c.array([0.0, 0.0, 0.0]))
    for s, nm in zip(x, names(m)):
        for i in range(3):
            c.eq("%s[%d] zero after use" % (nm, i), s[i], 0.0)


def equilibrium_two_layer(c):
    v = tl_values(c, a=c.flag("a"))
    T = c.real("T", -20, 20)
    F = (v["lambda0"] - v["a"] * T) * T
    k, n = c.choose("from and to", [(0, 1), (0, 2)] + [(n - 2, n - 1) for n in code_sizes(c)])
    m = tl_model(v)
    drive(m, c.array([0.0] * k + [F] * (n - k + 1)))
    for _ in range(k + 1):
        m.step()
    poke(m, k, (T, T))
    A, B, R = state(m)
    for i in range(k + 1, n + 1):
        m.step()
        c.observe("A%d" % i, A[i])
        s = c.abs(T) + c.abs(v["delta_t"] * F / (v["du"] * RHO_C)) + c.abs(
            v["delta_t"] * v["lambda0"] * T / (v["du"] * RHO_C))
        c.eq("upper stays[%d]" % i, A[i], T, scale=s)
        c.eq("lower stays[%d]" % i, B[i], T)
        c.eq("no uptake[%d]" % i, R[i], 0.0, scale=c.abs(F) + c.abs(v["lambda0"] * T)
             + c.abs(T) * (v["du"] + v["dl"]) * RHO_C / v["delta_t"])


def equilibrium_impulse(c):
    v = ir_values(c)
    F = c.real("F", -20, 20)
    k, n = c.choose("from and to", [(0, 1), (0, 2)] + [(n - 2, n - 1) for n in code_sizes(c)])
    m = ir_model(v)
    drive(m, c.array([0.0] * k + [F] * (n - k + 1)))
    for _ in range(k + 1):
        m.step()
    poke(m, k, (v["q1"] * F, v["q2"] * F))
    A, B, R = state(m)
    for i in range(k + 1, n + 1):
        m.step()
        c.observe("A%d" % i, A[i])
        c.eq("box 1 stays[%d]" % i, A[i], v["q1"] * F)
        c.eq("box 2 stays[%d]" % i, B[i], v["q2"] * F)
        c.eq("no uptake[%d]" % i, R[i], 0.0, scale=c.abs(F) * (
            2 + c.abs((v["efficacy"] - 1) / v["efficacy"]) * 2 *
            (1 + v["q1"] / v["q2"] + v["q2"] / v["q1"]) * (v["d2"] / v["d1"])))


HARNESSES = [
    H("rest", rest, budget=(150, 500), bounds="runs of 1, 2, 5 and 20 (thorough: 100) points and sizes near the code's "
      "constants, all parameters", nocut=True),
    H("rest_after_use", rest_after_use, bounds="2 points of any forcing, then 3 of none"),
    H("equilibrium_two_layer", equilibrium_two_layer, bounds="1 and 2 steps, all parameters, any a; last step of "
      + CODE_SIZES),
    H("equilibrium_impulse", equilibrium_impulse, bounds="1 and 2 steps, all parameters; last step of " + CODE_SIZES),
]
