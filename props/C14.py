"""run is the same as stepping, and reset clears the state."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS, EXP]


def is_nan(x):
    return isinstance(x, float) and x != x


def cleared(c, label, m, n):
    for s, nm in zip(state(m), names(m)):
        c.true("%s: %s has the drivers' length" % (label, nm), len(s) == n)
        c.true("%s: %s is undefined" % (label, nm), all(is_nan(x) for x in s))


def filled(c, label, m):
    for s, nm in zip(state(m), names(m)):
        c.true("%s: %s is complete" % (label, nm), not any(is_nan(x) for x in s))


def copy(m):
    return tuple(list(s) for s in state(m))


def step_run(c, n, kindF="f"):
    t = kind(c)
    v = values(c, t)
    F = c.vec("F", n, -20, 20, kind=kindF)
    a, b = build(t, v), oracle(t, v)
    drive(a, F)
    cleared(c, "reset", a, n)
    a.run()
    x = copy(a)
    drive(b, F)
    for i in range(n):
        b.step()
        for s, nm in zip(state(b), names(b)):
            c.true("a step fills one entry of " + nm,
                   sum(1 for z in s if not is_nan(z)) == i + 1 and not is_nan(s[i]))
    observe_state(c, a)
    filled(c, "run", a)
    filled(c, "steps", b)
    same_results(c, "run is stepping", x, b)
    # again, on both
    a.reset()
    cleared(c, "second reset", a, n)
    for i in range(n):
        a.step()
    same_results(c, "reset and stepping reproduces", x, a)
    b.reset()
    cleared(c, "reset after stepping", b, n)
    b.run()
    same_results(c, "reset and run reproduces", x, b)


def short(c):
    step_run(c, c.choose("n", list(range(1, c.tiered(4, 6) + 1))))


def sizes_in_code(c):
    step_run(c, c.choose("n", code_sizes(c)))


def far(c):
    t = kind(c)
    n, F = far_run(c)
    v = values(c, t)
    if t == "impulse":
        v["efficacy"] = 1.0
    a, b = build(t, v), oracle(t, v)
    x = run(a, F)
    drive(b, F)
    for _ in range(n):
        b.step()
    filled(c, "run", a)
    for nm, p, q in zip(names(a), x, state(b)):
        c.true(nm + " length", len(p) == n)
        for i in range(n - 4, n):
            c.eq("run is stepping: %s[%d]" % (nm, i), p[i], q[i])


def integers(c):
    step_run(c, 3, "i")


def partial(c):
    """reset after k steps of n"""
    t = kind(c)
    n = c.choose("n", [2, 3, 4])
    k = c.choose("k", list(range(0, n + 1)))
    v = values(c, t)
    F = forcing(c, n)
    a, b = build(t, v), oracle(t, v)
    x = [list(s) for s in run(b, F)]
    drive(a, F)
    for _ in range(k):
        a.step()
    if c.flag("twice"):
        a.reset()
    a.reset()
    cleared(c, "reset midway", a, n)
    a.run()
    same_results(c, "run after reset midway", a, tuple(x))


def resized(c):
    """drivers of another length"""
    t = kind(c)
    n, k = c.choose("n", [1, 2, 4]), c.choose("k", [1, 3])
    v = values(c, t)
    m = build(t, v)
    run(m, forcing(c, n, "F"))
    G = forcing(c, k, "G")
    drive(m, G)
    cleared(c, "new length", m, k)
    m.run()
    w = oracle(t, v)
    run(w, G)
    filled(c, "new length", m)
    same_results(c, "new length", m, w)


def reset_only(c):
    """reset after a change of parameters, without setting the drivers again"""
    t = kind(c)
    v = values(c, t)
    F = forcing(c, 3)
    m = build(t, v)
    run(m, F)
    p = c.choose("changed", [k for k in UNITS[t]])
    v[p] = other_value(c, t, p, "new")
    if t == "impulse":
        c.assume(v["d1"] < v["d2"])
    setattr(m, p, Q(v[p], UNITS[t][p]))
    m.reset()
    cleared(c, "changed", m, 3)
    m.run()
    w = oracle(t, v)
    run(w, F)
    same_results(c, "changed " + p, m, w)


HARNESSES = [
    H("short", short, nocut=True, bounds="1 to 4 (thorough: 6) points"),
    H("sizes_in_code", sizes_in_code, nocut=True, max_witnesses=0, no_witness=True,
      bounds="up to 6 (thorough: 30) sizes near the constants in the code"),
    H("integers", integers, nocut=True, bounds="3 integer drivers"),
    H("partial", partial, nocut=True, bounds="2 to 4 points, reset after any number of steps"),
    H("resized", resized, nocut=True, bounds="drivers of 1, 2, 4 then 1, 3 points"),
    H("reset_only", reset_only, nocut=True, bounds="each parameter changed between runs of 3 points"),
]
HARNESSES += [H("far", far, **dict(FAR, nocut=True, local_only=False))]
