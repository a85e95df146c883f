"""Inputs are never modified and results are not shared."""
import copy


from .common import *  # noqa: F401,F403
from .scen import DRIVER, META, NAN, frame, jan, meta, months, results, scenario, table, years

from scmdata.run import ScmRun

ASSUMPTIONS = [REALS, STUBS, EXP]


def same(c, label, now, then):
    """two lists of numbers (NaN equal to NaN)"""
    now, then = list(now), list(then)
    c.true(label + ": length", len(now) == len(then))
    for i, (x, y) in enumerate(zip(now, then)):
        nx, ny = (isinstance(z, (float, np.floating)) and z != z for z in (x, y))
        if nx or ny:
            c.true("%s[%d]" % (label, i), nx and ny)
        else:
            c.eq("%s[%d]" % (label, i), x, y)


def convert(c, t, v, m):
    """convert to the other model"""
    if t == "two_layer":
        m.a = Q(0.0, UNITS[t]["a"])
        return m.get_impulse_response_parameters()
    return m.get_two_layer_parameters()


def quantities(c):
    """the quantities and the array given to a model"""
    t = kind(c)
    v = values(c, t)
    if t == "two_layer" and c.flag("no state dependence"):
        v["a"] = 0.0
    other = c.choose("other unit", [None] + list(UNITS[t]))
    units = dict(UNITS[t])
    if other is not None:
        units[other] = {"m": "km", "s": "day", "yr": "month", "dimensionless": "cm/m",
                        "W/m^2/delta_degC": "kW/m^2/kelvin", "W/m^2/delta_degC^2": "W/m^2/kelvin^2",
                        "delta_degC/(W/m^2)": "kelvin/(kW/m^2)"}[units[other]]
    mags = {p: Q(v[p], UNITS[t][p]).to(units[p]).magnitude for p in v}
    qs = {p: Q(mags[p], units[p]) for p in v}
    m = CLS[t](**qs)
    F = list(forcing(c, 3))
    arr = c.array(list(F))
    fu = c.choose("forcing unit", ["W/m^2", "kW/m^2"])
    f = Q(arr, fu)
    op = c.choose("operation", ["run", "run twice", "steps", "convert", "scenario after", "failed"])
    m.set_drivers(f)
    m.reset()
    if op == "run" or op == "run twice":
        m.run()
        if op == "run twice":
            m.reset()
            m.run()
    elif op == "steps":
        m.step()
        m.step()
    elif op == "convert":
        if t == "two_layer" and other == "a":
            pass
        elif t == "two_layer" and not (isinstance(v["a"], float) and v["a"] == 0):
            try:
                m.get_impulse_response_parameters()
            except ValueError:
                pass
        else:
            (m.get_impulse_response_parameters if t == "two_layer" else m.get_two_layer_parameters)()
        m.run()
    elif op == "failed":
        for bad in (3.0, Q(1.0, "kg")):
            try:
                m.efficacy = bad
            except (TypeError, ValueError):
                pass
        m.run()
    c.true("forcing array can still be changed", arr.flags.writeable and f.magnitude.flags.writeable)
    same(c, "forcing array", arr, F)
    same(c, "forcing quantity", f.magnitude, F)
    c.true("forcing unit", f.units == ur.Unit(fu))
    c.true("the model's forcing", m.erf.units == ur.Unit(fu))
    same(c, "the model's forcing", m.erf.magnitude, F)
    if op == "scenario after":
        m.run()
        m.run_scenarios(scenario([(meta(), F[::-1])], years(3)), progress=False)
        same(c, "forcing array after a scenario", arr, F)
        same(c, "forcing quantity after a scenario", f.magnitude, F)
    for p in v:
        c.true("unit of " + p, qs[p].units == ur.Unit(units[p]))
        c.eq("value of " + p, qs[p].magnitude, mags[p])
        if not (p == "delta_t" and op == "scenario after"):
            q = getattr(m, p)
            c.true("model's unit of " + p, q.units == ur.Unit(units[p]))
            c.eq("model's " + p, q.magnitude, mags[p])
    observe_state(c, m)


def conversions(c):
    """converting leaves the model, its results and drivers alone; what it returns is not shared"""
    t = kind(c)
    v = values(c, t, a=False)
    m = build(t, v)
    F = list(forcing(c, 3))
    run(m, c.array(F))
    before = [list(x) for x in state(m)]
    get = m.get_impulse_response_parameters if t == "two_layer" else m.get_two_layer_parameters
    one = get()
    for k in list(one):
        one[k] = Q(1.0, "kg")
    del one["efficacy"]
    two = get()
    c.true("names", "efficacy" in two)
    c.eq("efficacy", two["efficacy"].to("dimensionless").magnitude, v["efficacy"])
    for nm, x, y in zip(names(m), state(m), before):
        same(c, nm, x, y)
    for p in v:
        c.eq("model's " + p, getattr(m, p).to(UNITS[t][p]).magnitude, v[p])
    same(c, "drivers", m.erf.magnitude, F)
    m.reset()
    m.run()
    for nm, x, y in zip(names(m), state(m), before):
        same(c, "again " + nm, x, y)
    observe_state(c, m)


def ecs(c):
    x, y = c.real("lambda", -20, 20, typical=(-3.0, -0.5)), c.pos("f2x", 100, typical=(2.0, 5.0))
    c.assume(x < 0)
    lam, f = Q(x, "W/m^2/delta_degC"), Q(y, c.choose("unit", ["W/m^2", "kW/m^2"]))
    u = f.units
    one = convert_lambda_to_ecs(lam, f)
    first = one.magnitude
    two = convert_lambda_to_ecs(lam, f)
    c.eq("lambda", lam.magnitude, x)
    c.eq("f2x", f.magnitude, y)
    c.true("units", f.units == u and lam.units == ur.Unit("W/m^2/delta_degC"))
    c.eq("the same again", two.magnitude, first)
    c.eq("first result kept", one.magnitude, first)


def snapshot(x):
    if isinstance(x, ScmRun):
        ts = x.timeseries()
        return ["run", list(x.meta.columns), [tuple(r) for r in x.meta.values.tolist()],
                list(x["time"]), [list(r) for r in ts.values], list(ts.index.names),
                [tuple(i) for i in ts.index], copy.deepcopy(x.metadata)]
    return ["frame", copy.deepcopy(x.attrs), list(x.columns.names), str(x.columns.dtype),
            x.flags.allows_duplicate_labels, list(x.columns), list(x.index.names), [tuple(i) if isinstance(i, tuple) else i
            for i in x.index], [str(k) for k in x.dtypes], [list(r) for r in x.values]]


def unchanged(c, label, now, then):
    if isinstance(then, (list, tuple)) and isinstance(now, (list, tuple)):
        c.true(label + " size", len(now) == len(then))
        for i, (p, q) in enumerate(zip(now, then)):
            unchanged(c, "%s %d" % (label, i) if label.count(" ") < 3 else label, p, q)
    elif isinstance(then, str) or not hasattr(then, "t") and not isinstance(then, (int, float)):
        c.true(label, now == then)
    else:
        nx, ny = (isinstance(z, (float, np.floating)) and z != z for z in (now, then))
        if nx or ny:
            c.true(label, nx and ny)
        else:
            c.eq(label, now, then)


def rows_for(c, shape):
    F, G = list(forcing(c, 3, "F")), list(forcing(c, 3, "G"))
    if shape == "one":
        return [(meta("a"), F)]
    if shape == "two":
        return [(meta("a"), F), (meta("b", unit="kW/m^2"), G)]
    if shape == "with missing":
        return [(meta("a"), F[:2] + [NAN]), (meta("b"), G)]
    if shape == "climate_model":
        return [(meta("a", climate_model="x"), F), (meta("b", climate_model="y"), G)]
    return [(meta("a"), F), (meta("a", variable="x", unit="K"), G), (meta("a", region="R5"), G)]


SHAPES = ["one", "two", "with missing", "climate_model", "with other rows"]


def scenarios(c):
    """what is given to run_scenarios stays as it is, even when it fails"""
    t = kind(c)
    v = values(c, t)
    shape = c.choose("rows", SHAPES)
    cols = c.choose("cols", [jan(3), months(3), "irregular"])
    bad = cols == "irregular"
    if bad:
        cols = [2000, 2001, 2005]
    rows = rows_for(c, shape)
    how = c.choose("as", ["ScmRun", "frame", "reset index", "iamc frame"])
    x = frame(rows, cols)
    if how == "ScmRun":
        x = ScmRun(x)
        x.metadata["source"] = {"file": "a.csv", "notes": ["first"]}
    elif how == "reset index":
        x = x.reset_index()
    elif how == "iamc frame":
        x = x.reset_index()[["region", "model"] + [
            k for k in x.index.names if k not in ("region", "model")] + list(x.columns)]
    if how != "ScmRun":
        x.attrs["source"] = {"file": "a.csv", "notes": ["first"]}
    before = snapshot(x)
    m = build(t, v)
    par = {p: getattr(m, p) for p in v}
    kw = {"driver_var": "not there"} if c.flag("no driver") else {}
    try:
        out = m.run_scenarios(x, progress=False, **kw)
        done = True
    except (ValueError, NotImplementedError):
        done = False
    c.true("outcome", done == (not kw and not bad))
    unchanged(c, "scenarios", snapshot(x), before)
    for p in v:
        if p != "delta_t":
            q = getattr(m, p)
            c.true("unit of " + p, q.units == ur.Unit(UNITS[t][p]))
            c.eq("value of " + p, q.magnitude, v[p])
            c.eq("quantity given for " + p, par[p].magnitude, v[p])
    if done and not isinstance(x, ScmRun):
        return
    if done:
        # the result can be changed without changing the scenarios or the model's state
        keep = [list(s) for s in state(m)]
        out["scenario"] = "changed"
        out["note"] = 1
        unchanged(c, "scenarios after changing the output", snapshot(x), before)
        for s, k in zip(state(m), keep):
            same(c, "state after changing the output", s, k)


def output_not_shared(c):
    """an earlier output stays as it is when the model runs again or its state is changed"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    F, G = list(forcing(c, 3, "F")), list(forcing(c, 3, "G"))
    cols = c.choose("cols", [jan(3), months(3)])
    out = m.run_scenarios(scenario([(meta("a"), F)], cols), progress=False)
    before = snapshot(out)
    op = c.choose("then", ["scenarios", "run", "reset", "parameters", "clear state", "convert"])
    if op == "scenarios":
        m.run_scenarios(scenario([(meta("b"), G), (meta("c"), F)], jan(3)), progress=False)
    elif op == "run":
        run(m, c.array(G))
    elif op == "reset":
        m.reset()
    elif op == "parameters":
        for p in ("efficacy", "du" if t == "two_layer" else "q1"):
            setattr(m, p, Q(other_value(c, t, p, "new " + p), UNITS[t][p]))
    elif op == "clear state":
        for s in state(m):
            s[:] = 0.0
    else:
        try:
            convert(c, t, v, m)
        except ValueError:
            pass
    unchanged(c, "output", snapshot(out), before)


def arrays_kept(c):
    """results of a run taken before a new run are not changed by it"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    F, G = list(forcing(c, 3, "F")), list(forcing(c, 3, "G"))
    kept = run(m, c.array(F))
    was = [list(x) for x in kept]
    op = c.choose("then", ["reset", "reset and run", "new drivers", "scenario", "other length",
                           "partial"])
    if op == "reset":
        m.reset()
    elif op == "reset and run":
        m.reset()
        m.run()
    elif op == "new drivers":
        run(m, c.array(G))
    elif op == "other length":
        run(m, c.array(G[:2]))
    elif op == "partial":
        drive(m, c.array(G))
        m.step()
        m.step()
    else:
        m.run_scenarios(scenario([(meta(), G)], years(3)), progress=False)
    for nm, x, y in zip(names(m), kept, was):
        same(c, nm, x, y)


def results_apart(c):
    """the arrays of results and drivers do not overlap"""
    t = kind(c)
    m = build(t, values(c, t))
    F = list(forcing(c, 3))
    arr = c.array(list(F))
    how = c.choose("after", ["reset", "run"])
    m.set_drivers(Q(arr, ERF))
    m.reset()
    if how == "run":
        m.run()
    was = [list(x) for x in state(m)]
    k = c.choose("overwritten", [0, 1, 2, "drivers"])
    tgt = arr if k == "drivers" else state(m)[k]
    for i in range(3):
        tgt[i] = 7.0
    for i, (x, y) in enumerate(zip(state(m), was)):
        if i != k:
            same(c, names(m)[i], x, y)
    if k != "drivers":
        same(c, "drivers", arr, F)


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("quantities", quantities, bounds="6 operations, every parameter in one other unit, 2 forcing units",
      **O),
    H("conversions", conversions, bounds="3 points", **O),
    H("ecs", ecs, bounds="any lambda < 0 and f2x", **O),
    H("scenarios", scenarios, bounds="5 sets of rows, 4 kinds of input, 3 time axes, with and without "
      "a driver", **O),
    H("output_not_shared", output_not_shared, bounds="6 later operations", **O),
    H("arrays_kept", arrays_kept, bounds="6 later operations", **O),
    H("results_apart", results_apart, bounds="each array overwritten", **O),
]
