"""A copied model continues like the original and independently of it."""
import copy

from .C13 import Doer
from .C15 import same_table
from .common import *  # noqa: F401,F403
from .scen import meta, months, results, scenario, years

ASSUMPTIONS = [REALS, STUBS, EXP]

OPS = ["run 4", "half", "reset", "convert", "bad unit", "erf only", "nan", "set du", "set dl",
       "set lambda0", "set a", "set eta", "set efficacy", "set delta_t", "set q1", "set q2", "set d1",
       "set d2"]


def ops(t):
    return [o for o in OPS if not o.startswith("set ") or o[4:] in UNITS[t]]


def midway(c):
    """copied after some steps; both continue and give what a single model gives"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("points", [4] + code_sizes(c, quick=(60, 3), thorough=(200, 9)))
    F = forcing(c, n)
    at = c.choose("steps before", [0, 1, 2, n]) if n == 4 else n // 2
    first = c.choose("continues first", ["original", "copy", "alternating"])
    m = build(t, v)
    drive(m, F)
    for _ in range(at):
        m.step()
    k = copy.deepcopy(m)
    ms = [m, k] if first == "original" else [k, m]
    if first == "alternating":
        for _ in range(n - at):
            for x in ms:
                x.step()
    else:
        for x in ms:
            for _ in range(n - at):
                x.step()
    observe_state(c, k)
    y = run(oracle(t, v), F)
    same_results(c, "original", m, y)
    same_results(c, "copy", k, y)


def independent(c):
    """an operation on one of them, between two steps, changes nothing for the other"""
    t = kind(c)
    v = values(c, t)
    F = forcing(c, 3)
    op = c.choose("op", ops(t))
    m = build(t, v)
    drive(m, F)
    m.step()
    k = copy.deepcopy(m)
    used, other = (m, k) if c.flag("on the original") else (k, m)
    w = dict(v)
    Doer(c, t, w, used).do(op)
    other.step()
    other.step()
    observe_state(c, other)
    same_results(c, "untouched one", other, run(oracle(t, v), F))
    for p in UNITS[t]:
        c.eq("parameter " + p, getattr(other, p).to(UNITS[t][p]).magnitude, v[p])
        c.eq("changed parameter " + p, getattr(used, p).to(UNITS[t][p]).magnitude, w[p])
    # and the one that was used follows its new parameters
    G = forcing(c, 3, "G")
    same_results(c, "used one", run(used, G), run(oracle(t, w), G))


def undefined(x):
    return isinstance(x, float) and x != x


def overtaken(c):
    """one is changed and goes on; the other stays where it was, then goes on by itself"""
    t = kind(c)
    v = values(c, t)
    n, at = 4, c.choose("steps before", [0, 1, 2])
    F = forcing(c, n)
    op = c.choose("op", [None] + [o for o in ops(t) if o.startswith("set ")])
    m = build(t, v)
    drive(m, F)
    for _ in range(at):
        m.step()
    k = copy.deepcopy(m)
    used, other = (m, k) if c.flag("the original goes on") else (k, m)
    u, w = dict(v), oracle(t, v)
    drive(w, F)
    for _ in range(at):
        w.step()
    if op:
        p = op[4:]
        u[p] = other_value(c, t, p, "new")
        if t == "impulse":
            c.assume(u["d1"] < u["d2"])
        for x in (used, w):
            setattr(x, p, Q(u[p], UNITS[t][p]))
    for x in (used, w):
        for _ in range(n - at):
            x.step()
    for s, nm in zip(state(other), names(other)):
        c.true("%s is not there yet" % nm, all(undefined(s[i]) for i in range(at, n)))
    for _ in range(n - at):
        other.step()
    observe_state(c, other)
    same_results(c, "the one that waited", other, run(oracle(t, v), F))
    same_results(c, "the one that went on", used, w)
    c.eqs("drivers", other.erf.to(ERF).magnitude, F)


def drivers_in_place(c):
    """the numbers of one's drivers are changed in place"""
    t = kind(c)
    v = values(c, t)
    F, G = forcing(c, 3), forcing(c, 3, "G")
    m = build(t, v)
    done = c.choose("before", ["drivers", "reset", "step"])
    m.set_drivers(Q(c.array(list(F)), ERF))
    if done != "drivers":
        m.reset()
    if done == "step":
        m.step()
    k = copy.deepcopy(m)
    used, other = (m, k) if c.flag("of the original") else (k, m)
    x = used.erf.magnitude
    for i in range(3):
        x[i] = G[i]
    c.eqs("drivers", other.erf.to(ERF).magnitude, F)
    if done == "drivers":
        other.reset()
    for _ in range(2 if done == "step" else 3):
        other.step()
    same_results(c, "the other one", other, run(oracle(t, v), F))


def fresh(c):
    """a copy of a model that was never driven, or was driven and changed"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    before = c.choose("before", ["nothing", "run", "set delta_t", "copied"])
    d = Doer(c, t, v, m)
    if before == "run":
        d.do("run 2")
    elif before == "set delta_t":
        d.do(before)
    elif before == "copied":
        m = copy.deepcopy(m)
    k = copy.deepcopy(m)
    c.true("same class", type(k) is type(m))
    F = forcing(c, 3)
    y = run(oracle(t, v), F)
    same_results(c, "copy", run(k, F), y)
    same_results(c, "original", run(m, F), y)
    if t == "two_layer":
        for p, q in (("heat_capacity_upper", "du"), ("heat_capacity_lower", "dl")):
            c.eq(p, getattr(k, p).to("J/delta_degC/m^2").magnitude, v[q] * RHO_C)


def converted(c):
    """a copy converts to the same parameters"""
    t = kind(c)
    v = values(c, t, a=False)
    m = build(t, v)
    k = copy.deepcopy(m)
    get = "get_impulse_response_parameters" if t == "two_layer" else "get_two_layer_parameters"
    us = IR_UNITS if t == "two_layer" else TL_UNITS
    a, b = getattr(oracle(t, v), get)(), getattr(k, get)()
    c.true("names", sorted(a) == sorted(b))
    for p in sorted(a):
        c.eq(p, b[p].to(us[p]).magnitude, a[p].to(us[p]).magnitude)


def scenarios(c):
    """copies run scenarios like the original, whichever comes first"""
    t = kind(c)
    v = values(c, t)
    F, G = list(forcing(c, 3)), list(forcing(c, 3, "G"))
    m = build(t, v)
    cols, other = (years(3), months(3)) if c.flag("yearly") else (months(3), years(3))
    if c.flag("used before"):
        m.run_scenarios(scenario([(meta(), G)], other), progress=False)
    k = copy.deepcopy(m)
    first = c.choose("first", ["copy", "original"])
    a, b = (k, m) if first == "copy" else (m, k)
    x = results(c, a, scenario([(meta(), F)], cols))
    y = results(c, b, scenario([(meta(), G)], other))
    same_table(c, "first", results(c, oracle(t, v), scenario([(meta(), F)], cols)), x)
    same_table(c, "second", results(c, oracle(t, v), scenario([(meta(), G)], other)), y)


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("midway", midway, bounds="copied at 4 points of a run of 4 or half way of runs of sizes near "
      "the code's constants, 3 orders of continuing", **O),
    H("independent", independent, bounds="one of %d operations on either of them" % len(OPS), **O),
    H("overtaken", overtaken, bounds="copied at 3 points of a run of 4, any one parameter changed", **O),
    H("drivers_in_place", drivers_in_place, bounds="copied after set_drivers, reset and a step", **O),
    H("fresh", fresh, bounds="4 histories, runs of 3 points", **O),
    H("converted", converted, bounds="all parameters"),
    H("scenarios", scenarios, bounds="3 points, yearly and monthly", **O),
]
