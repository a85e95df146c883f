"""Only the requested driver in the World region is used."""
from .C15 import same_table
from .common import *  # noqa: F401,F403
from .scen import DRIVER, META, frame, jan, meta, months, results, scenario, table, years

from scmdata.run import ScmRun

ASSUMPTIONS = [REALS, STUBS, EXP]

OTHER_VARIABLES = [
    DRIVER + "|CO2", DRIVER + "|Anthropogenic|CO2", "Anthropogenic " + DRIVER, DRIVER + " 2",
    "Effective Radiative", DRIVER.lower(), "Heat Uptake", "Surface Temperature|Upper",
    "Surface Temperature", "W", "Radiative Forcing",
]
OTHER_REGIONS = ["World|Northern Hemisphere", "world", "World 2", "R5ASIA|World", "Wor", "R5OECD",
                 "A World"]
EXTRA = [meta(variable=x) for x in OTHER_VARIABLES] + [meta(region=x) for x in OTHER_REGIONS] + [
    meta(variable=DRIVER + "|CO2", region="World|Land"),
    meta("other scenario", variable="Emissions", unit="GtC/yr"),
    meta("other scenario", region="R5ASIA"),
]


def key(m):
    return "%(scenario)s / %(variable)s / %(region)s" % m


def extra_rows(c):
    """one further time series, of any values, before or after the driver"""
    t = kind(c)
    v = values(c, t)
    F, G = list(forcing(c, 3)), list(forcing(c, 3, "G"))
    extra = {key(m): m for m in EXTRA}[c.choose("extra", [key(m) for m in EXTRA])]
    before = c.flag("before")
    rows = [(meta(), F), (extra, G)]
    cols = years(3)
    w = oracle(t, v)
    alone = results(c, w, scenario(rows[:1], cols))
    for nm, s in zip(names(w), state(w)):
        c.observe(nm, s)
    m = build(t, v)
    out = m.run_scenarios(scenario(rows[::-1] if before else rows, cols), progress=False)
    same_table(c, "with others", alone, table(out))
    c.true("only the driver's scenario", set(out.meta["scenario"]) == {"s1"})
    c.true("only the World", set(out.meta["region"]) == {"World"})


def many(c):
    """any subset of five other time series, in any of four orders"""
    t = kind(c)
    v = values(c, t)
    cols = c.choose("cols", c.tiered([years(3)], [years(3), months(3)]))
    F = list(forcing(c, 3))
    cand = [meta(variable=DRIVER + "|CO2"), meta(region="World|Land"), meta(region="R5ASIA"),
            meta(variable="Heat Uptake"), meta(variable="Surface Temperature|Box 1", unit="K")]
    rows = [(meta(), F)]
    for i, x in enumerate(cand):
        if c.flag("row %d" % i):
            rows.append((x, list(forcing(c, 3, "G%d" % i))))
    k = c.choose("rotation", [0, 1])
    rows = rows[k:] + rows[:k]
    alone = results(c, oracle(t, v), scenario([(meta(), F)], cols))
    got = results(c, build(t, v), scenario(rows, cols))
    same_table(c, "with others", alone, got)


def two_scenarios(c):
    """other time series of the scenarios that are run, or of scenarios that have no driver"""
    t = kind(c)
    v = values(c, t)
    Fs = {s: list(forcing(c, 3, "F" + s)) for s in "ab"}
    rows = [(meta("a", variable=DRIVER + "|CO2"), list(forcing(c, 3, "x1"))),
            (meta("b"), Fs["b"]),
            (meta("none", variable="Effective"), list(forcing(c, 3, "x2"))),
            (meta("a"), Fs["a"]),
            (meta("b", region="World|Land"), list(forcing(c, 3, "x3")))]
    n = c.choose("without", [0, 2, 4, None])
    if n is not None:
        rows.pop(n)
    cols = c.choose("cols", [years(3), months(3)])
    out = build(t, v).run_scenarios(scenario(rows, cols), progress=False)
    c.true("scenarios", set(out.meta["scenario"]) == {"a", "b"})
    for s in "ab":
        alone = results(c, oracle(t, v), scenario([(meta(s), Fs[s])], cols))
        same_table(c, "scenario " + s, alone, table(out, scenario=s))


NAMES = ["Effective Radiative Forcing|CO2", "Effective Radiative Forcing|Anthropogenic|CO2", "erf",
         "Radiative Forcing", "Temperature", "Effective Radiative Forcing (total)", "A.B"]


def driver_var(c):
    """another driver is asked for"""
    t = kind(c)
    v = values(c, t)
    name = c.choose("driver_var", NAMES)
    F, G = list(forcing(c, 3)), list(forcing(c, 3, "G"))
    H3 = list(forcing(c, 3, "H"))
    rows = [(meta(), G), (meta(variable=name), F), (meta(variable=name + "|x"), H3),
            (meta(variable=name, region="R5ASIA"), H3)]
    if c.flag("reversed"):
        rows = rows[::-1]
    cols = c.choose("cols", [years(3), months(3)])
    m = build(t, v)
    out = m.run_scenarios(scenario(rows, cols), driver_var=name, progress=False)
    ref = results(c, oracle(t, v), scenario([(meta(), F)], cols))
    c.true("the driver is in the output", name in set(out.meta["variable"]))
    c.true("no other driver is in the output", DRIVER not in set(out.meta["variable"]))
    got = table(out)
    c.true("unit of the driver", got[name][0] == "W/m^2")
    got[DRIVER] = got.pop(name)
    same_table(c, "driver_var", ref, got)


def positional(c):
    """driver_var given by position; default driver asked for by name"""
    t = kind(c)
    v = values(c, t)
    F, G = list(forcing(c, 3)), list(forcing(c, 3, "G"))
    rows = [(meta(), G), (meta(variable="erf"), F)]
    name = c.choose("driver_var", ["erf", DRIVER])
    got = table(build(t, v).run_scenarios(scenario(rows, years(3)), name, False))
    ref = results(c, oracle(t, v), scenario([(meta(), F if name == "erf" else G)], years(3)))
    got[DRIVER] = got.pop(name)
    same_table(c, "positional", ref, got)


def no_driver(c):
    """ValueError exactly if there is no such time series"""
    t = kind(c)
    v = values(c, t)
    m = build(t, v)
    G = list(forcing(c, 3, "G"))
    before = c.flag("used before")
    F = list(forcing(c, 3))
    if before:
        run(m, c.array(F))
    which = c.choose("only", [key(x) for x in EXTRA] + ["another driver_var", "as frame"])
    x = {key(e): e for e in EXTRA}.get(which, meta(variable="x"))
    cols = years(3)
    rows = [(x, G), (meta(variable="Emissions|CO2", region="World"), G)]
    if which == "another driver_var":
        rows.append((meta(), F))
        go = lambda: m.run_scenarios(scenario(rows, cols), driver_var="erf", progress=False)
    elif which == "as frame":
        go = lambda: m.run_scenarios(frame(rows, cols), progress=False)
    else:
        go = lambda: m.run_scenarios(scenario(rows, cols), progress=False)
    c.raises("no driver", ValueError, go)
    got = results(c, m, scenario([(meta(), F)], cols))
    ref = results(c, oracle(t, v), scenario([(meta(), F)], cols))
    same_table(c, "after the failure", ref, got)


DEEP = [DRIVER + "|Anthropogenic|Aerosols|Indirect", DRIVER + "|Anthropogenic|CO2", "a|b", "a b (c)|d"]


def relatives(name):
    """variables whose names are close to this one's"""
    parts = name.split("|")
    up = ["|".join(parts[:k]) for k in range(1, len(parts))]
    out = up + ["|".join(parts[k:]) for k in range(1, len(parts))]
    out += [x + "|Other" for x in up] + [name + "|Other", "All|" + name, name + " 2", name + "|"]
    out += [name.lower(), name.upper(), name.replace("|", " "), name.replace("|", "||"),
            "|".join(parts[::-1])]
    return sorted(set(out) - {name})


def near_names(c):
    """ValueError also if there are only variables, or regions, of similar names; else no use of them"""
    t = kind(c)
    v = values(c, t)
    name = c.choose("driver_var", DEEP)
    F, G = list(forcing(c, 3)), list(forcing(c, 3, "G"))
    near = relatives(name)
    rows = [(meta(variable=x), G) for x in near]
    which = c.choose("present", ["all"] + list(range(len(near))))
    if which != "all":
        rows = rows[which:which + 1]
    elif c.flag("in other regions"):
        rows += [(meta(variable=name, region=x), G) for x in OTHER_REGIONS]
    cols = years(3)
    m = build(t, v)
    c.raises("no driver", ValueError,
             lambda: m.run_scenarios(scenario(rows, cols), driver_var=name, progress=False))
    rows.insert(c.choose("at", [0, len(rows)] if which == "all" else [0]), (meta(variable=name), F))
    got = table(m.run_scenarios(scenario(rows, cols), driver_var=name, progress=False))
    ref = results(c, oracle(t, v), scenario([(meta(), F)], cols))
    c.true("the driver is in the output", name in got)
    got[DRIVER] = got.pop(name)
    same_table(c, "among similar names", ref, got)


def units_of_others(c):
    """units and times of the time series that are not used do not matter"""
    t = kind(c)
    v = values(c, t)
    F, G = list(forcing(c, 3)), list(forcing(c, 3, "G"))
    unit = c.choose("unit", ["kW/m^2", "K", "nonsense unit", "W"])
    rows = [(meta(variable="x", unit=unit), G), (meta(), F),
            (meta(region="R5ASIA", unit=unit), G)]
    cols = jan(3)
    if c.flag("own times"):
        nan = float("nan")
        cols = months(2, (1999, 11)) + jan(3) + jan(1, 2007)
        rows = [(rows[0][0], [G[0], G[1], nan, nan, G[2], nan]),
                (rows[1][0], [nan, nan] + F + [nan]),
                (rows[2][0], [nan, nan, G[0], nan, G[1], G[2]])]
    got = results(c, build(t, v), scenario(rows, cols))
    ref = results(c, oracle(t, v), scenario([(meta(), F)], jan(3)))
    same_table(c, "other units", ref, got)


def own_output(c):
    """the output of a run is a scenario like any other: its driver gives the same results again"""
    t, o = kind(c), c.choose("run again by", ["same instance", "same model", "other model"])
    v = values(c, t)
    Fs = {s: list(forcing(c, 3, "F" + s)) for s in "ab"}
    cols = c.choose("cols", [years(3), months(3)])
    m = build(t, v)
    out = m.run_scenarios(scenario([(meta(s), Fs[s]) for s in "ab"], cols), progress=False)
    if o == "other model":
        t = "impulse" if t == "two_layer" else "two_layer"
        v = values(c, t, prefix="other ")
    if o != "same instance":
        m = build(t, v)
    again = m.run_scenarios(out.copy() if c.flag("copied") else out, progress=False)
    for s in "ab":
        alone = results(c, oracle(t, v), scenario([(meta(s), Fs[s])], cols))
        same_table(c, "again " + s, alone, table(again, scenario=s))


def code_names():
    """names that occur in the package, as they are and as patterns"""
    out = set()
    for x in world.strings():
        out |= {x, x.replace("*", "x"), x.replace("|*", ""), x + "|x", x.lower(), x.upper()}
    return sorted(x for x in out if x.strip() and not set(x) & set("*{}%"))


def names_in_code(c):
    """variables and regions with any name that occurs in the package's code"""
    t = kind(c)
    v = values(c, t)
    F, G = list(forcing(c, 3)), list(forcing(c, 3, "G"))
    which = c.choose("names of", ["variables", "regions", "both"])
    rows = []
    for x in code_names():
        if which == "variables" and x != DRIVER:
            rows.append((meta(variable=x), G))
        elif which == "regions" and x != "World":
            rows.append((meta(region=x), G))
        elif which == "both" and x not in (DRIVER, "World"):
            rows.append((meta("other", variable=x, region=x), G))
    cols = years(3)
    m = build(t, v)
    if c.flag("without the driver"):
        c.raises("no driver", ValueError,
                 lambda: m.run_scenarios(scenario(rows, cols), progress=False))
        return
    rows.insert(c.choose("at", [0, len(rows)]), (meta(), F))
    out = m.run_scenarios(scenario(rows, cols), progress=False)
    c.true("only the World", set(out.meta["region"]) == {"World"})
    c.true("only the driver's scenario", set(out.meta["scenario"]) == {"s1"})
    ref = results(c, oracle(t, v), scenario([(meta(), F)], cols))
    same_table(c, "among named in the code", ref, table(out))


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("extra_rows", extra_rows, bounds="one of %d other time series, before or after" % len(EXTRA), **O),
    H("many", many, bounds="all subsets of 5 other time series, 2 orders, yearly (thorough: and monthly)", **O),
    H("two_scenarios", two_scenarios, bounds="2 scenarios among 3 other time series", **O),
    H("driver_var", driver_var, bounds="%d names of drivers" % len(NAMES), **O),
    H("positional", positional, bounds="2 drivers", **O),
    H("no_driver", no_driver, bounds="%d scenarios without the driver" % (len(EXTRA) + 2), **O),
    H("near_names", near_names, bounds="%d names of drivers with levels, each among, and without the driver "
      "only, variables of up to %d similar names, and 7 regions" % (
          len(DEEP), max(len(relatives(x)) for x in DEEP)), **O),
    H("own_output", own_output, bounds="2 scenarios of 3 points, run again by 3 models", **O),
    H("names_in_code", names_in_code, bounds="every string constant of the package (and variants) as "
      "variable, region or both, with and without the driver", **O),
    H("units_of_others", units_of_others, bounds="4 units, same and other time axes", **O),
]
