"""Stable steps keep temperatures within physical bounds (by induction over the steps)."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS, EXP]


def stable(c, v):
    c.assume(v["delta_t"] * (v["lambda0"] + v["efficacy"] * v["eta"]) <= v["du"] * RHO_C)
    c.assume(v["delta_t"] * v["eta"] <= v["dl"] * RHO_C)


def within(c, label, x, hi):
    c.le(label + " not negative", 0.0, x, floor=1e-6)
    c.le(label + " at most equilibrium", x, hi, floor=1e-6)


def start(c):
    """the induction starts inside the bounds"""
    t = kind(c)
    v = values(c, t, a=False)
    F = forcing(c, 1)
    x = run(build(t, v), F)
    for s in x[:2]:
        c.eq("first temperature", s[0], 0.0)


def step_two_layer(c):
    v = tl_values(c, a=False)
    top = c.pos("F_max", 20)
    stable(c, v)
    F = c.real("F", 0, 20)
    c.assume(F <= top)
    T, D = c.real("T", 0, 50), c.real("D", 0, 50)
    hi = top / v["lambda0"]
    c.assume(T <= hi)
    c.assume(D <= hi)
    A, B, _R = last_step(c, tl_model(v), (T, D), F, points(c))
    c.observe("A", A)
    within(c, "upper", A, hi)
    within(c, "lower", B, hi)


def step_impulse(c):
    v = ir_values(c)
    top = c.pos("F_max", 20)
    F = c.real("F", 0, 20)
    c.assume(F <= top)
    T, D = c.real("T", 0, 50), c.real("D", 0, 50)
    c.assume(T <= v["q1"] * top)
    c.assume(D <= v["q2"] * top)
    A, B, _R = last_step(c, ir_model(v), (T, D), F, points(c))
    c.observe("A", A)
    within(c, "box 1", A, v["q1"] * top)
    within(c, "box 2", B, v["q2"] * top)


def monotone(c):
    """larger state and forcing, larger next state"""
    t = kind(c)
    v = values(c, t, a=False)
    if t == "two_layer":
        stable(c, v)
    F = [c.real("F1", -20, 20), c.real("F2", -20, 20)]
    T = [c.real("T1", -50, 50), c.real("T2", -50, 50)]
    D = [c.real("D1", -50, 50), c.real("D2", -50, 50)]
    for x in (F, T, D):
        c.assume(x[0] <= x[1])
    out = []
    n = points(c)
    for i in (0, 1):
        out.append(last_step(c, build(t, v), (T[i], D[i]), F[i], n))
    c.le("upper grows with the forcing", out[0][0], out[1][0], floor=1e-6)
    c.le("lower grows with the forcing", out[0][1], out[1][1], floor=1e-6)


def whole_run(c):
    """the bounds on complete short runs"""
    t = kind(c)
    n = c.choose("n", [2, 3])
    v = values(c, t, a=False)
    if t == "two_layer":
        stable(c, v)
    top = c.pos("F_max", 20)
    F = []
    for i in range(n):
        f = c.real("F[%d]" % i, 0, 20)
        c.assume(f <= top)
        F.append(f)
    m = build(t, v)
    x = run(m, c.array(F))
    observe_state(c, m)
    his = [top / v["lambda0"]] * 2 if t == "two_layer" else [v["q1"] * top, v["q2"] * top]
    for s, hi, nm in zip(x, his, ("A", "B")):
        for i in range(1, n):
            within(c, "%s[%d]" % (nm, i), s[i], hi)


HARNESSES = [
    H("start", start, bounds="first point"),
    H("step_two_layer", step_two_layer, query_s=40.0, exact_s=30.0, budget=(150, 600),
      bounds="one step from every state within the bounds, last step of " + CODE_SIZES),
    H("step_impulse", step_impulse, query_s=40.0, exact_s=30.0, budget=(150, 600),
      bounds="one step from every state within the bounds, last step of " + CODE_SIZES),
    H("monotone", monotone, query_s=40.0, exact_s=30.0, budget=(150, 600),
      bounds="one step from every ordered pair of states and forcings, last step of " + CODE_SIZES),
    H("whole_run", whole_run, query_s=40.0, exact_s=30.0, budget=(150, 600), best_effort=True,
      bounds="runs of 2 and 3 points"),
]
