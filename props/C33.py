"""Looking at a model does not change what it does."""
import copy

from .C13 import Doer
from .C15 import same_table
from .common import *  # noqa: F401,F403
from .scen import jan, meta, months, results, scenario

ASSUMPTIONS = [REALS, STUBS, EXP]


def _parameters(t, m):
    for p in UNITS[t]:
        getattr(m, p)
        getattr(m, p)


def _convert(t, m):
    try:
        m.get_impulse_response_parameters() if t == "two_layer" else m.get_two_layer_parameters()
    except ValueError:
        pass


def _heat(t, m):
    if t == "two_layer":
        m.heat_capacity_upper, m.heat_capacity_lower


def _use_heat(t, m):
    if t == "two_layer":
        m.heat_capacity_upper.to("kJ/delta_degC/m^2")
        m.heat_capacity_lower * 2


def _use_conversion(t, m):
    try:
        out = m.get_impulse_response_parameters() if t == "two_layer" else m.get_two_layer_parameters()
    except ValueError:
        return
    for k in sorted(out):
        out[k] = out[k] * 2
    out["name"] = "x"
    out.pop("efficacy")


def _ecs(t, m):
    if t == "two_layer":
        convert_lambda_to_ecs(-m.lambda0)
    else:
        convert_lambda_to_ecs(-1 / (m.q1 + m.q2))


def _drivers(t, m):
    x = m.erf
    if isinstance(x, ur.Quantity):  # not before they are set
        x.to("kW/m^2"), x.magnitude, len(x), list(x)


def _contents(t, m):
    vars(m)
    for n in dir(m):
        if not n.startswith("_"):
            getattr(m, n)


LOOKS = {
    "parameters": _parameters,
    "drivers": _drivers,
    "heat capacities": _heat,
    "heat capacities used": _use_heat,
    "converted": _convert,
    "converted and used": _use_conversion,
    "climate sensitivity": _ecs,
    "text": lambda t, m: (repr(m), str(m)),
    "contents": _contents,
    "copied": lambda t, m: (copy.copy(m), copy.deepcopy(m)),
    "compared": lambda t, m: (m == m, m != copy.copy(m), hash(m), bool(m)),
    "results": lambda t, m: [list(s) for s in state(m)],
}


def midway(c):
    """between two steps of a run"""
    t = kind(c)
    v = values(c, t, a=c.flag("state-dependent") if t == "two_layer" else True)
    F = forcing(c, 3)
    m = build(t, v)
    at = c.choose("looked at", ["before the drivers", "before reset", 0, 1, 2, 3])
    look = LOOKS[c.choose("look", sorted(LOOKS))]
    if at == "before the drivers":
        look(t, m)
    m.set_drivers(Q(F, ERF))
    if at == "before reset":
        look(t, m)
    m.reset()
    for i in range(3):
        if at == i:
            look(t, m)
        m.step()
    if at == 3:
        look(t, m)
    observe_state(c, m)
    same_results(c, "as not looked at", m, run(oracle(t, v), F))
    c.eqs("drivers", m.erf.to(ERF).magnitude, F)
    for p in UNITS[t]:
        c.true("unit of " + p, getattr(m, p).units == ur.Unit(UNITS[t][p]))
        c.eq("parameter " + p, getattr(m, p).magnitude, v[p])


def before_a_change(c):
    """what was looked at and then changed is as if it had always been so"""
    t = kind(c)
    v = values(c, t, a=c.flag("state-dependent") if t == "two_layer" else True)
    m = build(t, v)
    look = LOOKS[c.choose("look", sorted(LOOKS))]
    if c.flag("driven"):
        run(m, forcing(c, 2, "H"))
    look(t, m)
    p = c.choose("changed", [None] + [q for q in UNITS[t] if q != "a"])
    if p:
        Doer(c, t, v, m).do("set " + p)
    if c.flag("looked at again"):
        look(t, m)
    F = forcing(c, 3)
    w = oracle(t, v)
    same_results(c, "as a fresh model", run(m, F), run(w, F))
    if t == "two_layer":
        for p, q in (("heat_capacity_upper", "du"), ("heat_capacity_lower", "dl")):
            c.eq(p, getattr(m, p).to("J/delta_degC/m^2").magnitude, v[q] * RHO_C)
    get = "get_impulse_response_parameters" if t == "two_layer" else "get_two_layer_parameters"
    us = IR_UNITS if t == "two_layer" else TL_UNITS
    try:
        a = getattr(w, get)()
    except ValueError:
        c.raises("conversion", ValueError, getattr(m, get))
        return
    b = getattr(m, get)()
    for p in sorted(a):
        c.eq("converted " + p, b[p].to(us[p]).magnitude, a[p].to(us[p]).magnitude)


def drivers_too(c):
    """drivers that were looked at and then replaced"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    look = LOOKS[c.choose("look", sorted(LOOKS))]
    n = c.choose("points", c.tiered([2, 3], [2, 3, 4, 5]))
    F, G = forcing(c, 3), forcing(c, n, "G")
    m.set_drivers(Q(F, ERF))
    if c.flag("run"):
        m.reset()
        m.run()
    look(t, m)
    if c.flag("assigned"):
        m.erf = Q(G, ERF)
    else:
        m.set_drivers(Q(G, ERF))
    c.eqs("drivers", m.erf.to(ERF).magnitude, G)
    m.reset()
    m.run()
    same_results(c, "as not looked at", m, run(oracle(t, v), G))


def scenarios(c):
    """between two calls of run_scenarios"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    look = LOOKS[c.choose("look", sorted(LOOKS))]
    F, G = list(forcing(c, 3)), list(forcing(c, 3, "G"))
    if c.flag("run before"):
        m.run_scenarios(scenario([(meta("x"), G)], months(3)), progress=False)
    look(t, m)
    same_table(c, "as not looked at", results(c, oracle(t, v), scenario([(meta(), F)], jan(3))),
               results(c, m, scenario([(meta(), F)], jan(3))))


O = dict(nocut=True, budget=(200, 600))
N = "%d ways to look, " % len(LOOKS)
HARNESSES = [
    H("midway", midway, bounds=N + "at any moment of a run of 3 points", **O),
    H("before_a_change", before_a_change, bounds=N + "each parameter", **O),
    H("drivers_too", drivers_too, bounds=N + "runs of 3 and then 2 or 3 (thorough: 2-5) points", **O),
    H("scenarios", scenarios, bounds=N + "3 points", **O),
]
