"""Heat capacities always match the layer depths."""
from .common import *  # noqa: F401,F403

ASSUMPTIONS = [REALS, STUBS]

CU = "J/delta_degC/m^2"


def matches(c, label, m, v):
    c.eq(label + ": upper", m.heat_capacity_upper.to(CU).magnitude, v["du"] * RHO_C)
    c.eq(label + ": lower", m.heat_capacity_lower.to(CU).magnitude, v["dl"] * RHO_C)


def in_unit(c, p, x, name):
    """x metres of depth, in one of several units"""
    u = c.choose("unit of " + name, ["m", "km", "cm", "any"])
    if u == "any":
        k = c.pos("k_" + name, 1e3)
        return Q(x / k, c.scale_unit(ur, p, "m", k))
    return Q(x / ur.Quantity(1.0, u).to("m").magnitude, u)


def constructed(c):
    v = tl_values(c)
    over = {}
    p = c.choose("depth", ["du", "dl"])
    over[p] = in_unit(c, p, v[p], p)
    m = tl_model(v, **over)
    matches(c, "constructed", m, v)


def defaults(c):
    m = TwoLayerModel()
    matches(c, "defaults", m, {"du": 50, "dl": 1200})
    x = c.pos("x", 1e4)
    m = TwoLayerModel(du=Q(x, "m"))
    matches(c, "default dl", m, {"du": x, "dl": 1200})
    m = TwoLayerModel(dl=Q(x, "m"))
    matches(c, "default du", m, {"du": 50, "dl": x})


def changed(c):
    """a sequence of changes, with runs in between"""
    v = tl_values(c)
    m = tl_model(v)
    matches(c, "before", m, v)
    for i in range(2):
        op = c.choose("op%d" % i, ["du", "dl", "run", "bad", "convert", "same"])
        if op in ("du", "dl"):
            v[op] = c.pos("%s_%d" % (op, i), 1e4, typical=(20.0, 1000.0))
            setattr(m, op, in_unit(c, op, v[op], "%s_%d" % (op, i)))
        elif op == "run":
            run(m, forcing(c, 2, "H%d" % i))
        elif op == "bad":
            for p in ("du", "dl"):
                try:
                    setattr(m, p, Q(3.0, "kg"))
                    c.fail("wrong unit accepted")
                except ValueError:
                    pass
        elif op == "convert":
            try:
                m.get_impulse_response_parameters()
            except ValueError:
                pass
        else:
            m.du, m.dl = m.du, m.dl
        matches(c, "after op %d" % i, m, v)
    F = forcing(c, 3)
    x = run(m, F)
    observe_state(c, m)
    w = oracle("two_layer", v)
    same_results(c, "steps use them", x, run(w, F))


def next_step(c):
    """a change in the middle of a run counts from the very next step"""
    v = tl_values(c)
    m = tl_model(v)
    drive(m, c.vec("F", 3, -20, 20))
    m.step()
    poke(m, 0, (c.real("T", -50, 50), c.real("D", -50, 50)))
    A, B, R = state(m)
    p = c.choose("depth", ["du", "dl", "both"])
    for q in ("du", "dl"):
        if p in (q, "both"):
            v[q] = c.pos("new_" + q, 1e4, typical=(20.0, 1000.0))
            setattr(m, q, Q(v[q], "m"))
    m.step()
    (t, ts), (d, ds), (r, rs) = tl_ref(c, v, A[0], B[0], m._erf_mag[0])
    c.observe("A", A[1])
    c.eq("upper layer", A[1], t, scale=ts)
    c.eq("lower layer", B[1], d, scale=ds)
    c.eq("uptake", R[1], r, scale=rs)
    matches(c, "midway", m, v)


def often(c):
    """changed many times: every quantity is a new one, and the ones before are gone"""
    v = tl_values(c)
    m = tl_model(v)
    p = c.choose("depth", ["du", "dl", "both"])
    x = c.pos("x", 1e3, typical=(20.0, 100.0))
    for i in range(c.tiered(60, 300)):
        for q in ("du", "dl"):
            if p in (q, "both"):
                v[q] = x + i
                setattr(m, q, Q(v[q], "m"))
        matches(c, "change", m, v)
    F = forcing(c, 3)
    same_results(c, "steps use them", run(m, F), run(oracle("two_layer", v), F))


def read_only(c):
    v = tl_values(c)
    m = tl_model(v)
    x = c.pos("x", 1e9)
    for p in ("heat_capacity_upper", "heat_capacity_lower"):
        c.raises(p + " cannot be assigned", AttributeError, lambda: setattr(m, p, Q(x, CU)))
    matches(c, "after the attempt", m, v)


HARNESSES = [
    H("constructed", constructed, bounds="every depth in m, km, cm and units of any size"),
    H("defaults", defaults, bounds="default depths with every other depth"),
    H("changed", changed, budget=(150, 500), nocut=True,
      bounds="every sequence of two out of 6 operations, depths in 4 kinds of units"),
    H("next_step", next_step, bounds="one step after a change, from any state"),
    H("often", often, nocut=True, bounds="one or both depths changed 60 (thorough: 300) times"),
    H("read_only", read_only, bounds="assignment of any value"),
]
