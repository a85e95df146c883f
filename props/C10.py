"""Without state dependence the response is linear in the forcing."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS, EXP]


def mix(c, xs, ys, p, q):
    return [p * a + q * b for a, b in zip(xs, ys)]


def whole_run(c):
    t = kind(c)
    n = c.choose("n", [1, 2, 3])
    v = values(c, t, a=False)
    F, G = forcing(c, n, "F"), forcing(c, n, "G")
    x, y = c.real("x", -5, 5), c.real("y", -5, 5)
    a = run(oracle(t, v), F)
    b = run(oracle(t, v), G)
    m = build(t, v)
    r = run(m, c.array(mix(c, F, G, x, y)))
    observe_state(c, m)
    for p, q, s, nm in zip(a, b, r, ("A", "B", "uptake")):
        for i in range(n):
            big = c.abs(x) * c.abs(p[i]) + c.abs(y) * c.abs(q[i])
            if nm == "uptake":
                for j in range(i):
                    big = big + c.abs(x * F[j]) + c.abs(y * G[j])
                big = big * 1000
            c.eq("%s[%d] is linear" % (nm, i), s[i], x * p[i] + y * q[i], scale=big)


def any_state(c):
    """one step: linear in state and forcing together, which carries over to runs of any length"""
    t = kind(c)
    v = values(c, t, a=False)
    x, y = c.real("x", -5, 5), c.real("y", -5, 5)
    S = {k: [c.real("%s%d" % (k, i), -50, 50) for i in (1, 2)] for k in ("A", "B", "F")}
    for k in S:
        S[k].append(x * S[k][0] + y * S[k][1])
    out = []
    n = points(c)
    for i in range(3):
        out.append(last_step(c, build(t, v), (S["A"][i], S["B"][i]), S["F"][i], n))
    for j, nm in enumerate(("A", "B", "uptake")):
        c.observe(nm, out[2][j])
        big = 0.0
        for k in S:
            big = big + c.abs(x * S[k][0]) + c.abs(y * S[k][1])
        if nm == "uptake":
            big = big * 1e6
        c.eq("%s is linear" % nm, out[2][j], x * out[0][j] + y * out[1][j],
             scale=big + c.abs(out[0][j] * x) + c.abs(out[1][j] * y))


def far(c):
    """proportional to the forcing at the end of a long run"""
    t = kind(c)
    v = values(c, t, a=False)
    n, F = far_run(c)
    x = c.real("x", -5, 5)
    a = run(oracle(t, v), F)
    r = run(build(t, v), c.array([f if i < n - 4 else x * f for i, f in enumerate(F)]))
    for p, s, nm in zip(a, r, ("A", "B", "uptake")):
        for i in range(n - 4, n):
            big = c.abs(x) * c.abs(p[i])
            if nm == "uptake":
                for j in range(n - 4, i):
                    big = big + 1000 * c.abs(x * F[j])
            c.eq("%s[%d] is proportional" % (nm, i), s[i], x * p[i], scale=big)


def one_model(c):
    """the three runs on one model object, one after the other"""
    t = kind(c)
    v = values(c, t, a=False)
    F, G = forcing(c, 3, "F"), forcing(c, 3, "G")
    m = build(t, v)
    a = [list(s) for s in run(m, F)]
    b = [list(s) for s in run(m, G)]
    r = run(m, c.array([p + q for p, q in zip(F, G)]))
    for p, q, s, nm in zip(a, b, r, ("A", "B", "uptake")):
        big = 1000.0 * (c.abs(F[0]) + c.abs(G[0])) if nm == "uptake" else c.abs(p[1]) + c.abs(q[1])
        c.eq("%s adds up" % nm, s[1], p[1] + q[1], scale=big)


HARNESSES = [
    H("whole_run", whole_run, bounds="1 to 3 points"),
    H("any_state", any_state, bounds="one step from any pair of states, last step of " + CODE_SIZES),
    H("far", far, **dict(FAR, nocut=True)),
    H("one_model", one_model, bounds="three runs of 2 points on one model"),
]
