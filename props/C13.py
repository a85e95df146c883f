"""A run depends only on the current parameters and drivers."""
from openscm_twolayermodel.errors import ModelStateError, UnitError

from .common import *  # noqa: F401,F403
from .scen import months, one_scenario, years

ASSUMPTIONS = [REALS, STUBS, EXP]

OPS = ["run 2", "run 4", "half", "too many", "reset", "convert", "bad unit", "bad type", "bad shape",
       "set du", "set dl", "set lambda0", "set a", "set efficacy", "set eta", "set delta_t",
       "erf only", "set q1", "set q2", "set d1", "set d2", "read", "nan"]


def ops(t):
    mine = set(UNITS[t])
    return [o for o in OPS if not o.startswith("set ") or o[4:] in mine]


class Doer:
    def __init__(self, c, t, v, m):
        self.c, self.t, self.v, self.m, self.k = c, t, v, m, 0
        self.driven = False

    def name(self, s):
        self.k += 1
        return "%s_%d" % (s, self.k)

    def do(self, op):
        c, m, t = self.c, self.m, self.t
        if op.startswith("run "):
            run(m, forcing(c, int(op[4:]), self.name("H")))
            self.driven = True
        elif op == "half":
            drive(m, forcing(c, 3, self.name("H")))
            m.step()
            m.step()
            self.driven = True
        elif op == "too many":
            drive(m, forcing(c, 2, self.name("H")))
            self.driven = True
            m.run()
            try:
                m.step()
            except IndexError:
                pass
        elif op == "reset":
            try:
                m.reset()
            except ModelStateError:
                pass
        elif op == "convert":
            try:
                if t == "two_layer":
                    m.get_impulse_response_parameters()
                else:
                    m.get_two_layer_parameters()
            except ValueError:
                pass
        elif op == "bad unit":
            p = "eta" if t == "two_layer" else "q1"
            try:
                setattr(m, p, Q(c.real(self.name("bad"), -5, 5), "kg"))
            except UnitError:
                pass
        elif op == "bad type":
            p = "lambda0" if t == "two_layer" else "d1"
            try:
                setattr(m, p, 3.0)
            except TypeError:
                pass
        elif op == "bad shape":
            try:
                m.set_drivers(Q(c.vec(self.name("bad"), 4, -5, 5).reshape((2, 2)), ERF))
            except AssertionError:
                pass
        elif op == "erf only":
            m.erf = Q(forcing(c, 5, self.name("H")), ERF)
            self.driven = True
        elif op == "nan":
            m.set_drivers(Q(c.array([1.0, float("nan")]), ERF))
            self.driven = True
            try:
                m.reset()
            except ModelStateError:
                pass
        elif op == "read":
            for p in UNITS[t]:
                getattr(m, p)
            if t == "two_layer":
                m.heat_capacity_upper
                m.heat_capacity_lower
        elif op.startswith("set "):
            p = op[4:]
            other = p.endswith(" in other unit")
            p = p.split(" ")[0]
            unit = (OTHER_UNITS if other else UNITS[t])[p]
            x = other_value(c, t, p, self.name(p))
            self.v[p] = Q(x, unit).to(UNITS[t][p]).magnitude
            if p in ("d1", "d2"):
                c.assume(self.v["d1"] < self.v["d2"])
            setattr(m, p, Q(x, unit))


def history(c, depth, only=None, t=None):
    t = t or kind(c)
    v = values(c, t)
    m = build(t, v)
    d = Doer(c, t, v, m)
    for i in range(depth):
        d.do(c.choose("op%d" % i, [o for o in ops(t) if only is None or o in only]))
    F = forcing(c, 3)
    x = run(m, F)
    observe_state(c, m)
    w = oracle(t, d.v)
    y = run(w, F)
    same_results(c, "as a fresh model", x, y)
    for p in UNITS[t]:
        c.eq("parameter " + p, getattr(m, p).to(UNITS[t][p]).magnitude, d.v[p])


def one(c):
    history(c, 1)


def other_units(c):
    """each parameter set to any number in another unit (also the number it was before)"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    d = Doer(c, t, v, m)
    F = forcing(c, 3)
    if c.flag("used before"):
        run(m, forcing(c, 3, "H"))
    p = c.choose("parameter", list(UNITS[t]))
    d.do("set %s in other unit" % p)
    x = run(m, F)
    same_results(c, "as a fresh model", x, run(oracle(t, d.v), F))
    if c.flag("back"):
        d.do("set " + p)
        x = run(m, F)
        same_results(c, "back in the first unit", x, run(oracle(t, d.v), F))


def two_layer(c):
    history(c, 2, t="two_layer")


def impulse(c):
    history(c, 2, t="impulse")


def three(c):
    history(c, 3, ["run 4", "half", "convert", "bad unit", "erf only", "nan", "set du", "set a",
                   "set delta_t", "set d1", "set q1"])


def reassign_all(c):
    """all parameters replaced, in a chosen order, after a run"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    run(m, forcing(c, 2, "H"))
    w = values(c, t, prefix="new ")
    order = list(UNITS[t])
    k = c.choose("start", list(range(len(order))))
    order = order[k:] + order[:k]
    if c.flag("reversed"):
        order.reverse()
    for p in order:
        setattr(m, p, Q(w[p], UNITS[t][p]))
    F = forcing(c, 3)
    x = run(m, F)
    observe_state(c, m)
    y = run(oracle(t, w), F)
    same_results(c, "as a fresh model", x, y)
    if t == "impulse":
        a, b = m.get_two_layer_parameters(), oracle(t, w).get_two_layer_parameters()
        for n in sorted(a):
            c.eq("converted " + n, a[n].magnitude, b[n].to(a[n].units).magnitude)


def changed_between(c):
    """parameters changed between set_drivers and reset, and between reset and run"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    if c.flag("used"):
        run(m, forcing(c, 2, "H"))
    p = c.choose("changed", list(UNITS[t]))
    when = c.choose("when", ["before drivers", "after drivers", "after reset"])
    v[p] = other_value(c, t, p, "new")
    if t == "impulse":
        c.assume(v["d1"] < v["d2"])
    F = forcing(c, 3)
    x = Q(v[p], UNITS[t][p])
    if when == "before drivers":
        setattr(m, p, x)
    m.set_drivers(Q(F, ERF))
    if when == "after drivers":
        setattr(m, p, x)
    m.reset()
    if when == "after reset":
        setattr(m, p, x)
    m.run()
    w = oracle(t, v)
    run(w, F)
    same_results(c, "current parameters count", m, w)


def after_scenarios(c):
    """a model that ran scenarios, then is driven directly"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    H_ = forcing(c, 3, "H")
    cols = c.choose("time", ["years", "months"])
    m.run_scenarios(one_scenario(list(H_), cols=years(3) if cols == "years" else months(3)),
                    progress=False)
    v["delta_t"] = other_value(c, t, "delta_t", "dt")
    m.delta_t = Q(v["delta_t"], UNITS[t]["delta_t"])
    F = forcing(c, 4)
    x = run(m, F)
    y = run(oracle(t, v), F)
    same_results(c, "as a fresh model", x, y)


def same_quantity(c):
    """the same quantity object given again, after its content changed in place"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    what = c.choose("what", ["drivers"] + list(UNITS[t]))
    F = forcing(c, 3)
    if what != "drivers":
        q = Q(v[what], UNITS[t][what])
        setattr(m, what, q)
        run(m, F)
        q.ito(q.to_base_units().units)
        x = other_value(c, t, what, "new")
        # a new value for the same object, as q.magnitude would be changed by q *= ...
        q._magnitude = Q(x, UNITS[t][what]).to(q.units).magnitude
        if t == "impulse":
            d = dict(v, **{what: x})
            c.assume(d["d1"] < d["d2"])
        setattr(m, what, q)
        y = run(m, F)
        same_results(c, "as a fresh model", y, run(oracle(t, dict(v, **{what: x})), F))
        return
    unit = c.choose("unit", ["W/m^2", "kW/m^2"])
    k = 1.0 if unit == "W/m^2" else 1000.0
    arr = c.array([f for f in F])
    q = Q(arr, unit)
    m.set_drivers(q)
    m.reset()
    done = c.choose("before", ["reset", "step", "run"])
    if done == "run":
        m.run()
    elif done == "step":
        m.step()
    G = forcing(c, 3, "G")
    for i, g in enumerate(G):
        q.magnitude[i] = g
    if c.flag("by erf"):
        m.erf = q
    else:
        m.set_drivers(q)
    m.reset()
    m.run()
    same_results(c, "as a fresh model", state(m), run(oracle(t, v), c.array([g * k for g in G])))


def same_numbers(c):
    """drivers given again: the same or other numbers, the same or another unit, part or more of them"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    F = forcing(c, 3)
    first, second = c.choose("units", [("W/m^2", "kW/m^2"), ("kW/m^2", "W/m^2"), ("W/m^2", "W/m^2")])
    drive(m, c.array(list(F)), first)
    done = c.choose("before", ["reset", "step", "run"])
    if done == "run":
        m.run()
    elif done == "step":
        m.step()
    G = list(F)
    what = c.choose("again", ["all", "the first two", "one more", "backwards", "last changed", "negated"])
    if what == "the first two":
        G = G[:2]
    elif what == "one more":
        G = G + [c.real("more", -20, 20)]
    elif what == "backwards":
        G = G[::-1]
    elif what == "last changed":
        G = G[:2] + [c.real("last", -20, 20)]
    elif what == "negated":
        G = [-g for g in G]
    x = Q(c.array(G), second)
    if c.flag("by erf"):
        m.erf = x
    else:
        m.set_drivers(x)
    m.reset()
    m.run()
    k = 1000.0 if second == "kW/m^2" else 1.0
    same_results(c, "as a fresh model", state(m), run(oracle(t, v), c.array([g * k for g in G])))


def often(c):
    """the drivers or a parameter given many times: every quantity is a new one, the ones before are gone"""
    t = kind(c)
    v = PLAIN[t]
    m = build(t, v)
    p = c.choose("given", ["drivers"] + list(UNITS[t]))
    F = list(forcing(c, 2))
    x = c.real("x", -5, 5, typical=(-0.2, 0.2)) if p == "a" else c.pos(
        "x", 100, typical=(10.0, 30.0) if p == "d2" else (0.5, 2.0))
    if p == "d2":
        c.assume(x > 9)
    if p == "d1":
        c.assume(x < 100)
    for i in range(c.tiered(25, 80)):
        if p == "drivers":
            got = run(m, c.array([f + 0.5 * i for f in F]))
            same_results(c, "time", got, run(oracle(t, v), c.array([f + 0.5 * i for f in F])))
            continue
        y = x + i * (0.01 if p == "a" else 0.5)
        setattr(m, p, Q(y, UNITS[t][p]))
        same_results(c, "time", run(m, c.array(F)), run(oracle(t, dict(v, **{p: y})), c.array(F)))


def sizes_in_code(c):
    """long runs after long runs"""
    t = kind(c)
    n = c.choose("n", code_sizes(c, quick=(60, 3), thorough=(300, 12)))
    k = c.choose("k", [n, n - 1, 2])
    v = values(c, t)
    m = build(t, v)
    G, F = forcing(c, k, "G"), forcing(c, n, "F")
    run(m, G)
    if c.flag("changed"):
        p = "eta" if t == "two_layer" else "q2"
        v[p] = other_value(c, t, p, "new")
        setattr(m, p, Q(v[p], UNITS[t][p]))
    same_results(c, "as a fresh model", run(m, F), run(oracle(t, v), F))


HARNESSES = [
    H("sizes_in_code", sizes_in_code, nocut=True, budget=(150, 600), max_witnesses=0, no_witness=True,
      bounds="runs of up to 3 (thorough: 12) sizes near the constants in the code, after another run"),
    H("often", often, nocut=True, budget=(150, 600), max_witnesses=2,
      bounds="any drivers or one parameter of any value given 25 (thorough: 80) times"),
    H("one", one, nocut=True, bounds="every single prior operation out of 18 (16)"),
    H("same_numbers", same_numbers, nocut=True, bounds="drivers given again in 6 ways, in the same or "
      "another unit, after reset, step or run"),
    H("other_units", other_units, nocut=True, bounds="each parameter given in another unit, any number"),
    H("two_layer", two_layer, nocut=True, budget=(200, 400), bounds="every sequence of two prior operations"),
    H("impulse", impulse, nocut=True, budget=(200, 400), bounds="every sequence of two prior operations"),
    H("three", three, nocut=True, budget=(200, 780), tiers=("thorough",), best_effort=True,
      bounds="every sequence of three out of 9 (8) prior operations"),
    H("reassign_all", reassign_all, nocut=True, bounds="all parameters replaced, 14 (12) orders"),
    H("changed_between", changed_between, nocut=True,
      bounds="each parameter changed before set_drivers, before reset, before run"),
    H("same_quantity", same_quantity, nocut=True,
      bounds="drivers and each parameter given again as the same object with other content"),
    H("after_scenarios", after_scenarios, nocut=True, bounds="after a yearly or monthly scenario"),
]
