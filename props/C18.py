"""Scenario output is complete and correctly labelled."""
import datetime as dt

from .common import *  # noqa: F401,F403
from .scen import DRIVER, META, frame, jan, meta, months, outputs, results, scenario, table, years

from scmdata.run import ScmRun

ASSUMPTIONS = [REALS, STUBS, EXP]

NAME = {"two_layer": "two_layer", "impulse": "two_timescale_impulse_response"}
OUT_UNITS = {
    "Surface Temperature|Upper": "delta_degC", "Surface Temperature|Lower": "delta_degC",
    "Surface Temperature|Box 1": "delta_degC", "Surface Temperature|Box 2": "delta_degC",
    "Surface Temperature": "delta_degC", "Heat Uptake": "W/m^2",
}  # fmt: skip


def saved(t):
    return [p for p in UNITS[t] if p != "delta_t"]


def values_and_units(c):
    """variables, units, values and time points"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("n", [1, 2, 3, 5] + code_sizes(c, quick=(130, 3), thorough=(600, 20)))
    step = c.choose("step", ["yr", "month"]) if n > 1 else "yr"
    cols = jan(n, c.choose("first", [1850, 1999])) if step == "yr" else months(n, (2003, 9))
    unit = c.choose("unit", ["W/m^2", "kW/m^2"])
    k = 1.0 if unit == "W/m^2" else 1000.0
    F = list(forcing(c, n))
    m = build(t, v)
    out = m.run_scenarios(scenario([(meta(unit=unit), F)], cols), progress=False)
    w = oracle(t, v)
    w.delta_t = Q(1, step)
    A, B, R = run(w, c.array([f * k for f in F]))
    if n < 6:  # exact values take long to calculate beyond
        observe_state(c, w)
    exp = outputs(t, A, B, R)
    got = table(out)
    c.true("is an ScmRun", isinstance(out, ScmRun))
    c.true("variables", sorted(got) == sorted(list(exp) + [DRIVER]))
    c.true("time points", list(out["time"]) == cols)
    c.true("unit of the driver", got[DRIVER][0] == unit)
    c.eqs("driver", got[DRIVER][1], F)
    for x in exp:
        c.true("unit of " + x, got[x][0] == OUT_UNITS[x])
        c.eqs(x, got[x][1], exp[x])
    c.eqs("state of the model", list(state(m)[2]), R)


def parameters(c):
    """parameter values and units in the metadata"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    F = list(forcing(c, 2))
    before = c.choose("before", ["nothing", "another run"])
    if before == "another run":
        m.run_scenarios(scenario([(meta("other"), F)], years(2)), progress=False)
    p = c.choose("other unit", ["none"] + saved(t))
    units = {x: UNITS[t][x] for x in saved(t)}
    mags = {x: v[x] for x in saved(t)}
    if p != "none":
        u = OTHER_UNITS[p]
        # the same kind of quantity, of any size
        x = other_value(c, t, p, "new")
        if t == "impulse":
            one = Q(1.0, u).to(UNITS[t][p]).magnitude if p in ("d1", "d2") else 1.0
            dd = dict(v, **{p: x * one})
            c.assume(dd["d1"] < dd["d2"])
        setattr(m, p, Q(x, u))
        units[p], mags[p] = u, x
    two = c.flag("two scenarios")
    rows = [(meta("a"), F)] + ([(meta("b"), F[::-1])] if two else [])
    out = m.run_scenarios(scenario(rows, years(2)), progress=False)
    md = out.meta
    cols = {}
    for x in saved(t):
        hit = [k for k in md.columns if k.startswith(x + " (")]
        c.true("one column for " + x, len(hit) == 1)
        col = hit[0]
        c.true("unit of %s in the column" % x,
               ur.Unit(col[len(x) + 2:-1]) == ur.Unit(units[x]) and col.endswith(")"))
        vals = list(md[col])
        c.true("%s on every time series" % x, len(vals) == len(out))
        for y in vals:
            c.eq("value of " + x, y, mags[x])
    c.true("climate_model", set(md["climate_model"]) == {NAME[t]})
    c.true("no other columns", sorted(k for k in md.columns if " (" in k) == sorted(
        k for k in md.columns for x in saved(t) if k.startswith(x + " (")))
    for x in saved(t):
        c.true("model still has unit of " + x, getattr(m, x).units == ur.Unit(units[x]))
        c.eq("model still has " + x, getattr(m, x).magnitude, mags[x])


EXTRA_META = {
    "strings": ({"id": "x", "note": "a note"}, {"id": "y", "note": ""}),
    "numbers": ({"member": 1, "weight": 0.25}, {"member": 2, "weight": -1.5}),
    "same values": ({"id": "x", "member": 3}, {"id": "x", "member": 3}),
    "digits as text": ({"id": "001"}, {"id": "01"}),
    "names that sort around": ({"Zz": "1", "aa": "2", "_b": "3"}, {"Zz": "4", "aa": "5", "_b": "6"}),
    "like a parameter": ({"du": "deep", "q1 (x)": "k", "efficacy": 2}, {"du": "", "q1 (x)": "k", "efficacy": 1}),
    "climate_model": ({"climate_model": "MAGICC"}, {"climate_model": "FaIR"}),
    "run_id": ({"run_id": 7}, {"run_id": 9}),
    "run_idx": ({"run_idx": 3}, {"run_idx": 3}),
    "booleans": ({"ok": True}, {"ok": False}),
    "one has none": ({"note": float("nan")}, {"note": "x"}),
    "the other has none": ({"note": "x", "weight": 1.5}, {"note": None, "weight": float("nan")}),
    "none": ({"note": float("nan")}, {"note": float("nan")}),
    "mixed": ({"id": "3"}, {"id": 3}),
    "odd texts": ({"id": " padded ", "note": "x" * 300 + "1"}, {"id": "padded", "note": "x" * 300 + "2"}),
    "not ascii": ({"id": "\u00e9t\u00e9"}, {"id": "ete"}),
    "zero": ({"weight": 0.0, "member": 0}, {"weight": -0.0, "member": 1}),
    "large": ({"member": 10 ** 15 + 1}, {"member": 10 ** 15 + 2}),
    "dates": ({"made": dt.datetime(2020, 1, 1)}, {"made": dt.datetime(2020, 1, 1, 0, 0, 1)}),
}


def _is(x, y):
    if y is None or y != y:
        return x is None or x != x
    if isinstance(x, str) != isinstance(y, str):
        return False
    return bool(x == y)


def metadata(c):
    """each time series carries the metadata of its scenario"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("extra", sorted(EXTRA_META))
    a, b = EXTRA_META[k]
    order = c.flag("reversed")
    cols = months(2) if order else years(2)
    ms = [meta("a", **a), meta("b", **b)]
    if c.flag("other model names"):
        ms[1]["model"] = "other"
    Fs = [list(forcing(c, 2, "F")), list(forcing(c, 2, "G"))]
    rows = list(zip(ms, Fs))
    m = build(t, v)
    out = m.run_scenarios(scenario(rows[::-1] if order else rows, cols), progress=False)
    md = out.meta
    c.true("there is a run_idx", "run_idx" in md.columns)
    c.true("run_idx tells the scenarios apart", len(set(zip(md["scenario"], md["run_idx"]))) == 2
           and len(set(md["run_idx"])) == 2)
    for i, (mm, F) in enumerate(rows):
        sub = md[md["scenario"] == mm["scenario"]]
        c.true("number of time series", len(sub) == (4 if t == "two_layer" else 5))
        for name, val in mm.items():
            if name in ("variable", "unit", "run_idx"):
                continue
            want = NAME[t] if name == "climate_model" else val
            c.true("metadata %s of scenario %d" % (name, i),
                   all(_is(x, want) for x in sub[name]))
        c.true("climate_model", set(sub["climate_model"]) == {NAME[t]})
        got = table(out, scenario=mm["scenario"])
        c.eqs("driver of scenario %d" % i, got[DRIVER][1], F)
    c.true("nothing else", set(md["scenario"]) == {"a", "b"})


ALIKE = [
    (dict(scenario=x), dict(scenario=y)) for x, y in (
        ("a", "A"), ("a", " a"), ("a", "a "), ("a b", "a  b"), ("x*", "xy"), ("*", "x"), ("a.c", "abc"),
        ("a|b", "a|b|c"), ("(a)", "a"), ("a+", "aa"), ("1", "1.0"), ("1", "01"), ("nan", "x"), ("a$", "a"),
        ("World", "W/m^2"), ("^a", "a"), ("a\\b", "ab"), ("[ab]", "a"), ("a%", "a%%"), ("{}", "x"))
] + [
    (dict(scenario="s", model="m1"), dict(scenario="s", model="m2")),
    (dict(scenario="s", model="m*"), dict(scenario="s", model="mm")),
    (dict(scenario="s1", model="m2"), dict(scenario="s2", model="m1")),
    (dict(scenario="s", member=1), dict(scenario="s", member=2)),
    (dict(scenario="s", member=1), dict(scenario="s", member=11)),
    (dict(scenario="s", member=1), dict(scenario="s", member=float("nan"))),
    (dict(scenario="s", model="1 2"), dict(scenario="s 1", model="2")),
    (dict(scenario="s", unit="W/m^2"), dict(scenario="s", unit="kW/m^2")),
]


def alike(c):
    """scenarios whose names or other metadata hardly differ"""
    t = kind(c)
    v = values(c, t)
    k = c.choose("pair", list(range(len(ALIKE))))
    ms = [dict(meta(), **x) for x in ALIKE[k]]
    Fs = [list(forcing(c, 3)), list(forcing(c, 3, "G"))]
    order = [0, 1] if c.flag("reversed") else [1, 0]
    cols = years(3)
    out = build(t, v).run_scenarios(scenario([(ms[i], Fs[i]) for i in order], cols), progress=False)
    c.true("number of time series", len(out) == 2 * (4 if t == "two_layer" else 5))
    ts = out.timeseries()
    own = [n for n in ms[0] if n not in ("variable", "unit")]
    # by what was given, and by the driver's unit where nothing else differs
    runs = {}
    for lab, vals in zip(ts.index, ts.values):
        d = dict(zip(ts.index.names, lab))
        runs.setdefault(d["run_idx"], {})[d["variable"]] = (d, list(vals))
    c.true("two runs", len(runs) == 2)
    w = oracle(t, v)
    w.delta_t = Q(1, "yr")
    for i, (m, F) in enumerate(zip(ms, Fs)):
        hit = [r for r in runs.values() if all(_is(r[DRIVER][0][n], m[n]) for n in own + ["unit"])]
        c.true("one run of scenario %d" % i, len(hit) == 1)
        got, f = hit[0], 1000.0 if m["unit"] == "kW/m^2" else 1.0
        c.eqs("driver %d" % i, got[DRIVER][1], F)
        for x, s in outputs(t, *run(w, c.array([y * f for y in F]))).items():
            c.eqs("%s %d" % (x, i), got[x][1], s)
            c.true("metadata of %s %d" % (x, i), all(_is(got[x][0][n], m[n]) for n in own))
            c.true("unit of %s" % x, got[x][0]["unit"] == OUT_UNITS[x])


def many(c):
    """every scenario appears, whatever their number"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("scenarios", [1, 3, 4, 11])
    Fs = [list(forcing(c, 2, "F%d" % i)) for i in range(n)]
    nm = ["s%d" % ((7 * i) % 11) for i in range(n)]
    same = c.flag("two have the same data") if n > 1 else False
    if same:
        Fs[1] = list(Fs[0])
    m = build(t, v)
    out = m.run_scenarios(
        scenario([(meta(nm[i]), Fs[i]) for i in range(n)], years(2)), progress=False)
    c.true("number of time series", len(out) == n * (4 if t == "two_layer" else 5))
    w = oracle(t, v)
    w.delta_t = Q(1, "yr")
    for i in range(n):
        got = table(out, scenario=nm[i])
        c.eqs("driver %d" % i, got[DRIVER][1], Fs[i])
        A, B, R = run(w, c.array(Fs[i]))
        for x, s in outputs(t, A, B, R).items():
            c.eqs("%s %d" % (x, i), got[x][1], s)
            c.true("unit of %s" % x, got[x][0] == OUT_UNITS[x])


def changed_between(c):
    """the columns follow changes of the parameters between calls"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    F = list(forcing(c, 3))
    sc = scenario([(meta("a"), F)], years(3))
    m.run_scenarios(sc, progress=False)
    p = c.choose("changed", saved(t))
    x = other_value(c, t, p, "new")
    w = dict(v, **{p: x})
    if t == "impulse":
        c.assume(w["d1"] < w["d2"])
    setattr(m, p, Q(x, UNITS[t][p]))
    again = m.run_scenarios(sc, progress=False)
    col = [k for k in again.meta.columns if k.startswith(p + " (")]
    c.true("one column", len(col) == 1)
    for y in again.meta[col[0]]:
        c.eq("new value of " + p, y, x)
    got, ref = table(again), results(c, oracle(t, w), sc)
    for k in ref:
        c.eqs(k, got[k][1], ref[k][1])


def names_in_code(c):
    """scenarios, models and further metadata with the names that occur in the package's code"""
    t = kind(c)
    v = values(c, t)
    F = list(forcing(c, 2))
    nm = [x for x in world.strings() if x != DRIVER]
    which = c.choose("names of", ["scenarios", "everything", "columns"])
    if which == "columns":
        own = set(META) | {"climate_model", "run_idx"}
        ms = [meta("a", **{x: "x%d" % i for i, x in enumerate(nm) if x not in own})]
    elif which == "scenarios":
        ms = [meta(x) for x in nm]
    else:
        ms = [dict(meta(x, id=x), model=x) for x in nm]
    m = build(t, v)
    out = m.run_scenarios(
        scenario([(x, [f + i for f in F]) for i, x in enumerate(ms)], years(2)), progress=False)
    c.true("number of time series", len(out) == len(ms) * (4 if t == "two_layer" else 5))
    w = oracle(t, v)
    w.delta_t = Q(1, "yr")
    md, ts = out.meta, out.timeseries()
    by = {}
    for lab, vals in zip(ts.index, ts.values):
        d = dict(zip(ts.index.names, lab))
        by.setdefault(tuple(d[k] for k in ("scenario", "model")) + (d.get("id"),), {})[
            d["variable"]] = (d, list(vals))
    for i, x in enumerate(ms):
        got = by[(x["scenario"], x["model"], x.get("id"))]
        G = [f + i for f in F]
        c.eqs("driver %d" % i, got[DRIVER][1], G)
        A, B, R = run(w, c.array(G))
        for k, s in outputs(t, A, B, R).items():
            c.eqs("%s %d" % (k, i), got[k][1], s)
            c.true("metadata of %s %d" % (k, i), all(
                got[k][0][n] == y for n, y in x.items() if n not in ("variable", "unit")))


def labelled_before(c):
    """scenarios that already have the columns of the output, with other values"""
    t = kind(c)
    v = values(c, t)
    how = c.choose("columns", ["output of other parameters", "output of the other model", "by hand",
                               "by hand, some", "two values"])
    F = list(forcing(c, 3))
    G = list(forcing(c, 3, "G"))
    m = build(t, v)
    cols = years(3)
    if how.startswith("output"):
        s = t if how == "output of other parameters" else (
            "impulse" if t == "two_layer" else "two_layer")
        first = (TwoLayerModel if s == "two_layer" else ImpulseResponseModel)()
        sc = first.run_scenarios(scenario([(meta("a"), F)], cols), progress=False)
        Fs = {"a": F}
    else:
        ps = saved(t) if how != "by hand, some" else saved(t)[1:3]
        x = {"%s (%s)" % (p, ur.Unit(UNITS[t][p])): 77.5 for p in ps}
        x["climate_model"] = "MAGICC"
        y = dict(x)
        if how == "two values":
            y = {k: 11.25 if k != "climate_model" else "FaIR" for k in x}
        sc = scenario([(meta("a", **x), F), (meta("b", **y), G)], cols)
        Fs = {"a": F, "b": G}
    out = m.run_scenarios(sc, progress=False)
    md = out.meta
    for p in saved(t):
        hit = [k for k in md.columns if k.startswith(p + " (")]
        c.true("one column for " + p, len(hit) == 1)
        for y in md[hit[0]]:
            c.eq("value of " + p, y, v[p])
    c.true("climate_model", set(md["climate_model"]) == {NAME[t]})
    c.true("number of time series", len(out) == len(Fs) * (4 if t == "two_layer" else 5))
    w = oracle(t, v)
    w.delta_t = Q(1, "yr")
    for s in Fs:
        A, B, R = run(w, c.array(Fs[s]))
        got = table(out, scenario=s)
        for k, x in outputs(t, A, B, R).items():
            c.eqs("%s of %s" % (k, s), got[k][1], x)


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("values_and_units", values_and_units, bounds="1, 2, 3 or 5 points or a size near the code's constants, yearly and monthly, 2 units", **O),
    H("parameters", parameters, bounds="each parameter in one other unit, 1 or 2 scenarios", **O),
    H("metadata", metadata, bounds="%d sets of further metadata, 2 scenarios" % len(EXTRA_META), **O),
    H("alike", alike, bounds="%d pairs of scenarios whose metadata hardly differ, both orders" % len(ALIKE), **O),
    H("many", many, bounds="1, 3, 4 or 11 scenarios", **O),
    H("names_in_code", names_in_code, bounds="every string constant of the package as scenario, model, "
      "metadata value or metadata column", max_witnesses=3, **O),
    H("labelled_before", labelled_before, bounds="scenarios that carry the output's columns already: output "
      "of either model, or 3 sets of columns by hand", **O),
    H("changed_between", changed_between, bounds="each parameter", **O),
]
