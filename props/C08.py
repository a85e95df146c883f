"""Outputs start at zero and depend on earlier forcing only."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS, EXP]


def agree(c, n, k):
    """two forcing series of n points that agree before k"""
    t = kind(c)
    v = values(c, t, positive=False) if t == "two_layer" else values(c, t)
    F = forcing(c, n)
    G = list(F)
    for i in range(k, n):
        G[i] = c.real("G[%d]" % i, -20, 20)
    m, w = build(t, v), oracle(t, v)
    x = run(m, F)
    y = run(w, c.array(G))
    observe_state(c, m)
    for a, b, nm in zip(x, y, ("A", "B", "uptake")):
        c.true(nm + " length", len(a) == n and len(b) == n)
        c.eq(nm + " starts at zero", a[0], 0.0)
        c.eq(nm + " starts at zero too", b[0], 0.0)
        for i in range(0, min(k, n - 1) + 1):
            c.eq("%s[%d] knows only the past" % (nm, i), a[i], b[i])


def short(c):
    n = c.choose("n", list(range(1, c.tiered(4, 5) + 1)))
    k = c.choose("k", list(range(0, n + 1)))
    agree(c, n, k)


def long_run(c):
    n = c.choose("n", [c.tiered(40, 200)] + code_sizes(c))
    agree(c, n, c.choose("k", [1, n // 2, n - 1]))


def far(c):
    """runs that agree up to some point shortly before the end"""
    t = kind(c)
    n, F = far_run(c)
    k = 2
    v = values(c, t)
    G = list(F)
    for i in range(n - k, n):
        G[i] = c.real("G%d" % (n - i), -20, 20)
    x, y = run(build(t, v), F), run(oracle(t, v), c.array(G))
    for a, b, nm in zip(x, y, ("A", "B", "uptake")):
        c.eq(nm + " starts at zero", a[0], 0.0)
        for i in range(n - 4, n - k + 1):
            c.eq("%s[%d] knows only the past" % (nm, i), a[i], b[i])


def last_value(c):
    """the last driver is used nowhere: it may be anything, in a model that was used before"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("n", [1, 2, 3])
    F = forcing(c, n)
    G = c.array(list(F)[:-1] + [c.real("last", -20, 20)])
    m = build(t, v)
    x = tuple(list(s) for s in run(m, F))
    y = tuple(list(s) for s in run(m, G))
    same_results(c, "last driver", x, y)


def integers(c):
    """drivers of integer type"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("n", [2, 3])
    k = c.choose("k", [1, n - 1])
    F = c.vec("F", n, -20, 20, kind="i")
    G = list(F)
    for i in range(k, n):
        G[i] = c.int("G[%d]" % i, -20, 20)
    x = run(oracle(t, v), F)
    y = run(build(t, v), c.array(G, "i"))
    for a, b, nm in zip(x, y, ("A", "B", "uptake")):
        c.eq(nm + " starts at zero", a[0], 0.0)
        for i in range(0, min(k, n - 1) + 1):
            c.eq("%s[%d] knows only the past" % (nm, i), a[i], b[i])


HARNESSES = [
    H("short", short, bounds="1 to 4 (thorough: 5) points, every k", nocut=True),
    H("long_run", long_run, bounds="40 (thorough: 200) points and sizes near the code's constants; agreement up to 1, half, all but the last",
      nocut=True, max_witnesses=0, no_witness=True),
    H("far", far, **dict(FAR, nocut=True)),
    H("last_value", last_value, bounds="1 to 3 points", nocut=True),
    H("integers", integers, bounds="2 and 3 integer drivers", nocut=True),
]
