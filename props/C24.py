"""Model instances do not influence each other."""
from .C13 import Doer
from .C15 import same_table
from .common import *  # noqa: F401,F403
from .scen import meta, months, results, scenario, table, years

ASSUMPTIONS = [REALS, STUBS, EXP]

OPS = ["run 4", "half", "reset", "convert", "bad unit", "erf only", "set du", "set dl", "set lambda0",
       "set a", "set eta", "set efficacy", "set delta_t", "set q1", "set d2"]


def ops(t):
    return [o for o in OPS if not o.startswith("set ") or o[4:] in UNITS[t]]


def interleaved(c):
    """another instance does something between any two steps of a run"""
    t, o = c.choose("model", KINDS), c.choose("other", KINDS)
    v, w = values(c, t), values(c, o, prefix="other ")
    first = c.flag("other made first")
    if first:
        other = build(o, w)
    m = build(t, v)
    if not first:
        other = build(o, w)
    F = forcing(c, 3)
    op = c.choose("op", ops(o))
    at = c.choose("at", [0, 1, 2, 3])
    d = Doer(c, o, w, other)
    if at == 0:
        d.do(op)
    m.set_drivers(Q(F, ERF))
    if at == 1:
        d.do(op)
    m.reset()
    m.step()
    if at == 2:
        d.do(op)
    m.step()
    if at == 3:
        d.do(op)
    m.step()
    observe_state(c, m)
    alone = oracle(t, v)
    same_results(c, "as alone", m, run(alone, F))
    for p in UNITS[t]:
        c.eq("parameter " + p, getattr(m, p).to(UNITS[t][p]).magnitude, v[p])


def shared_quantities(c):
    """two instances made from the same quantity objects and driven by the same one"""
    t = kind(c)
    v = values(c, t)
    qs = {p: Q(v[p], UNITS[t][p]) for p in v}
    m, other = CLS[t](**qs), CLS[t](**qs)
    F = forcing(c, 3)
    f = Q(F, ERF)
    drive_q(m, f)
    drive_q(other, f)
    p = c.choose("changed", list(UNITS[t]))
    x = other_value(c, t, p, "new")
    w = dict(v)
    w[p] = x
    if t == "impulse":
        c.assume(w["d1"] < w["d2"])
    setattr(other, p, Q(x, UNITS[t][p]))
    for i in range(3):
        m.step()
        other.step()
    observe_state(c, m)
    same_results(c, "first", m, run(oracle(t, v), F))
    same_results(c, "second", other, run(oracle(t, w), F))


def drive_q(m, q):
    m.set_drivers(q)
    m.reset()


def defaults(c):
    """instances made with default parameters, one of them changed"""
    t = kind(c)
    m = CLS[t]()
    other = CLS[t]()
    ref = {p: getattr(m, p).to(UNITS[t][p]).magnitude for p in UNITS[t]}
    p = c.choose("changed", list(UNITS[t]))
    x = other_value(c, t, p, "new")
    if t == "impulse":
        c.assume(dict(ref, **{p: x})["d1"] < dict(ref, **{p: x})["d2"])
    setattr(other, p, Q(x, UNITS[t][p]))
    F = forcing(c, 3)
    run(other, F)
    late = CLS[t]()
    for k in UNITS[t]:
        for mm, nm in ((m, "earlier"), (late, "later")):
            c.eq("%s instance keeps default %s" % (nm, k), getattr(mm, k).to(UNITS[t][k]).magnitude,
                 ref[k])
    x1, x2 = run(m, F), run(late, F)
    observe_state(c, m)
    same_results(c, "same defaults", x1, x2)
    same_results(c, "same as given explicitly", x1, run(oracle(t, ref), F))


def converted(c):
    """another instance, equal but for one parameter, is converted before"""
    t = kind(c)
    v = values(c, t, a=False)
    p = c.choose("differing", [k for k in UNITS[t] if k not in ("a", "delta_t")])
    w = dict(v)
    w[p] = other_value(c, t, p, "other")
    if t == "impulse":
        c.assume(w["d1"] < w["d2"])
    m, other = build(t, v), build(t, w)
    for k, x, y in (("other", other, oracle(t, w)), ("first", m, oracle(t, v)), ("again", other, oracle(t, w))):
        a, b = both(x), both(y)
        c.true(k + ": parameters", sorted(a) == sorted(b))
        for q in sorted(a):
            c.true("%s: unit of %s" % (k, q), a[q].units == b[q].units)
            c.observe("%s %s" % (k, q), a[q].magnitude)
            c.eq("%s: %s" % (k, q), a[q].magnitude, b[q].magnitude)
    if t == "impulse":
        F = forcing(c, 2)
        run(other, F)
        same_results(c, "uptake as alone", run(m, F), run(oracle(t, v), F))


def often(c):
    """many instances, one after the other, the ones before are gone"""
    t = kind(c)
    v = dict(PLAIN[t])
    if t == "two_layer":
        v["a"] = 0.0
    F = list(forcing(c, 2))
    p = c.choose("differing", [k for k in UNITS[t] if k not in ("a", "d1", "delta_t")])
    v[p] = c.pos("x", 1000, typical=(0.5, 2.0))
    if p == "d2":
        c.assume(v[p] > 9)
    for i in range(c.tiered(12, 40)):
        w = dict(v)
        w[p] = v[p] + i
        m = build(t, w)
        got, a = run(m, c.array(F)), both(m)
        ref = oracle(t, w)
        same_results(c, "instance", got, run(ref, c.array(F)))
        b = both(ref)
        for q in sorted(b):
            c.eq("converted " + q, a[q].magnitude, b[q].magnitude)


def both(m):
    return (m.get_impulse_response_parameters if isinstance(m, TwoLayerModel)
            else m.get_two_layer_parameters)()


def two_runs(c):
    """two models of different classes stepped alternately"""
    v, w = tl_values(c), ir_values(c)
    m, other = tl_model(v), ir_model(w)
    F, G = forcing(c, 3, "F"), forcing(c, 3, "G")
    order = c.choose("order", ["mm", "mo", "om"])
    drive(m, F)
    drive(other, G)
    for i in range(3):
        for s in {"mm": "mo", "mo": "om", "om": "mo"}[order] if i % 2 else "mo":
            (m if s == "m" else other).step()
    observe_state(c, m)
    same_results(c, "two-layer", m, run(oracle("two_layer", v), F))
    same_results(c, "impulse", other, run(oracle("impulse", w), G))


def scenarios(c):
    """another instance runs scenarios before, with the same or other forcing, dates and names"""
    t, o = choose_two(c)
    same = c.flag("same parameters") if t == o else False
    v = values(c, t)
    w = v if same else values(c, o, prefix="other ")
    m, other = build(t, v), build(o, w)
    cols = c.choose("cols", [years(3), months(3)])
    F = list(forcing(c, 3))
    mine = scenario([(meta(), F)], cols)
    what = c.choose("other runs", ["the same object", "other values", "other dates", "other lengths",
                                   "other names", "other metadata"])
    G = list(forcing(c, 4, "G"))
    theirs = {
        "the same object": lambda: mine,
        "other values": lambda: scenario([(meta(), G[:3])], cols),
        "other dates": lambda: scenario([(meta(), F)], months(3) if cols == years(3) else years(3)),
        "other lengths": lambda: scenario([(meta(), G)], years(4)),
        "other names": lambda: scenario([(meta("s0"), G[:3]), (meta("s2"), F)], cols),
        "other metadata": lambda: scenario([(meta(member=3), G[:3])], cols),
    }[what]()
    a = other.run_scenarios(theirs, progress=False)
    b = m.run_scenarios(mine, progress=False)
    for k in UNITS[t]:
        if k != "delta_t":
            c.eq("parameter " + k, getattr(m, k).to(UNITS[t][k]).magnitude, v[k])
    ref = oracle(t, v).run_scenarios(scenario([(meta(), F)], cols), progress=False)
    same_table(c, "as alone", table(ref), table(b))
    c.true("metadata columns", sorted(ref.meta.columns) == sorted(b.meta.columns))
    if what != "other names":
        # what the other one returned is not touched by the second run
        x = {"the same object": (F, cols), "other values": (G[:3], cols), "other metadata": (G[:3], cols),
             "other dates": (F, months(3) if cols == years(3) else years(3)),
             "other lengths": (G, years(4))}[what]
        same_table(c, "the other's output", results(c, oracle(o, w), scenario([(meta(), x[0])], x[1])),
                   table(a))


def choose_two(c):
    return c.choose("model", KINDS), c.choose("other", KINDS)


HARNESSES = [
    H("interleaved", interleaved, nocut=True, budget=(200, 600),
      bounds="any of 12 operations on another instance at any of 4 points of a run of 3"),
    H("shared_quantities", shared_quantities, nocut=True,
      bounds="two instances of one class, each parameter changed on one of them"),
    H("defaults", defaults, nocut=True, bounds="default instances, each parameter changed on one"),
    H("scenarios", scenarios, nocut=True, budget=(150, 600),
      bounds="two instances, 6 kinds of scenarios run by the other one before"),
    H("converted", converted, nocut=True, bounds="two instances that differ by any value of one parameter, "
      "each converted in turn"),
    H("often", often, nocut=True, budget=(150, 600), max_witnesses=2,
      bounds="12 (thorough: 40) instances that differ in one parameter, one after the other"),
    H("two_runs", two_runs, nocut=True, bounds="alternating steps of both classes"),
]
