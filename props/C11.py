"""Results do not depend on the units inputs are expressed in."""
from .common import *  # noqa: F401,F403
from .scen import meta, one_scenario, results, scenario, table, years

ASSUMPTIONS = [REALS, STUBS, EXP]

REAL = {
    "du": ["km", "cm", "ft"], "dl": ["km", "mm", "mile"],
    "lambda0": ["W/m^2/K", "kW/m^2/K", "W/km^2/delta_degF", "J/yr/m^2/delta_degC"],
    "a": ["W/m^2/K^2", "kW/m^2/delta_degC^2", "W/m^2/delta_degF^2", "J/day/m^2/K^2"],
    "efficacy": ["percent", "g/kg", "K/delta_degC"],
    "eta": ["W/m^2/K", "kW/m^2/delta_degC", "W/m^2/delta_degF", "TJ/yr/km^2/K"],
    "q1": ["K/(W/m^2)", "K/(kW/m^2)", "delta_degF*m^2/W", "K * s * m^2 / J"],
    "q2": ["K/(W/m^2)", "mK/(W/m^2)", "delta_degF/(W/m^2)", "delta_degC * day * m^2 / kJ"],
    "d1": ["month", "day", "s", "century"], "d2": ["month", "hour", "s", "kiloyear"],
    "delta_t": ["s", "day", "month", "yr"], "erf": ["kW/m^2", "mW/m^2", "W/km^2", "J/yr/m^2", "TW/km^2"],
}  # fmt: skip


def factor(u, base):
    """size of unit u in base units, or None when this registry does not know it"""
    try:
        return float(ur.Quantity(1.0, u).to(base).magnitude)
    except Exception:
        return None


def close_results(c, label, ref, y, v, F):
    """results y are those of model ref, driven by F with parameters v"""
    n, x = len(F), state(ref)
    for p, q, nm in zip(x, y, names(ref)):
        c.true(nm + " length", len(p) == n and len(q) == n)
        for i in range(n):
            sc = c.abs(p[i])
            if nm == "uptake":
                for f in F:
                    sc = sc + c.abs(f)
                if "du" in v:
                    sc = sc + (c.abs(x[0][i]) * v["du"] + c.abs(x[1][i]) * v["dl"]) * (
                        RHO_C / v["delta_t"])
                sc = 100 * sc
            c.eq("%s[%d] %s" % (nm, i, label), q[i], p[i], scale=sc)


def compare(c, t, v, F, over, eunit, ek):
    """a model with some inputs in other units against one in default units"""
    n = len(F)
    ref, m = oracle(t, v), build(t, v, **over)
    run(ref, F)
    G = F if ek is None else c.array([f / ek for f in F])
    y = run(m, G, eunit)
    for nm, s in zip(names(m), y):
        c.observe(nm, s)
    close_results(c, "in other units", ref, y, v, F)
    return ref, m


def converted(c, t, ref, m):
    """the converted parameters describe the same physical values"""
    get = "get_impulse_response_parameters" if t == "two_layer" else "get_two_layer_parameters"
    us = IR_UNITS if t == "two_layer" else TL_UNITS
    a, b = getattr(ref, get)(), getattr(m, get)()
    c.true("same keys", sorted(a) == sorted(b))
    for k in sorted(a):
        c.eq("converted " + k, b[k].to(us[k]).magnitude, a[k].to(us[k]).magnitude)


def inputs(t):
    return [p for p in UNITS[t]] + ["erf"]


def any_size(c):
    t = kind(c)
    p = c.choose("input", inputs(t) + ["all"])
    v = values(c, t)
    F = forcing(c, 3)
    over, eu, ek = {}, ERF, None
    for q in inputs(t) if p == "all" else [p]:
        k = c.pos("k_" + q, 1e3, typical=(0.2, 5.0))
        u = c.scale_unit(ur, q, ERF if q == "erf" else UNITS[t][q], k)
        if q == "erf":
            eu, ek = u, k
        else:
            over[q] = Q(v[q] / k, u)
    compare(c, t, v, F, over, eu, ek)


def any_size_conversion(c):
    t = kind(c)
    p = c.choose("input", [q for q in UNITS[t] if q not in ("a", "delta_t")] + ["all"])
    v = values(c, t, a=False)
    over = {}
    for q in [q for q in UNITS[t] if q not in ("a", "delta_t")] if p == "all" else [p]:
        k = c.pos("k_" + q, 1e3, typical=(0.2, 5.0))
        over[q] = Q(v[q] / k, c.scale_unit(ur, q, UNITS[t][q], k))
    converted(c, t, oracle(t, v), build(t, v, **over))


def real_units(c):
    """real units: catches conversions that treat a particular unit specially"""
    t = kind(c)
    p = c.choose("input", inputs(t))
    u = c.choose("unit", REAL[p])
    k = factor(u, ERF if p == "erf" else UNITS[t][p])
    v = values(c, t)
    F = forcing(c, 3)
    if k is None:
        c.true("unit unknown to the registry", True)
        return
    over, eu, ek = {}, ERF, None
    if p == "erf":
        eu, ek = u, k
    else:
        over[p] = Q(v[p] / k, u)
    compare(c, t, v, F, over, eu, ek)


def by_setter(c):
    """the same through assignment after construction, and after another unit was in use"""
    t = kind(c)
    p = c.choose("input", inputs(t))
    v = values(c, t)
    F = forcing(c, 3)
    k = c.pos("k", 1e3, typical=(0.2, 5.0))
    u = c.scale_unit(ur, p, ERF if p == "erf" else UNITS[t][p], k)
    ref, m = oracle(t, v), build(t, v)
    x = [list(s) for s in run(ref, F)]
    first = c.flag("used before")
    if first:
        run(m, F)
    if p == "erf":
        y = run(m, c.array([f / k for f in F]), u)
        c.eq("erf kept", m.erf[0].to(ERF).magnitude, F[0])
    else:
        setattr(m, p, Q(v[p] / k, u))
        c.eq("value kept", getattr(m, p).to(UNITS[t][p]).magnitude, v[p])
        y = run(m, F)
    for a, b, nm in zip(x, y, names(m)):
        for i in range(2):
            sc = c.abs(F[0]) if nm == "uptake" else None
            if nm == "uptake":
                sc = 100 * sc
            c.eq("%s[%d] by setter" % (nm, i), b[i], a[i], scale=sc)


def scenario_unit(c):
    t = kind(c)
    u = c.choose("unit", ["W/m^2"] + REAL["erf"] + ["any"])
    v = values(c, t)
    F = forcing(c, 3)
    if u == "any":
        k = c.pos("k", 1e3, typical=(0.2, 5.0))
        u = str(c.scale_unit(ur, "erf", ERF, k))
    else:
        k = factor(u, ERF)
        if k is None:
            c.true("unit unknown to the registry", True)
            return
    a = results(c, oracle(t, v), one_scenario([f for f in F], ERF))
    b = results(c, build(t, v), one_scenario([f / k for f in F], u))
    c.true("same variables", sorted(a) == sorted(b))
    for n in sorted(a):
        if n == "Effective Radiative Forcing":
            c.eqs("driver", [x * k for x in b[n][1]], a[n][1])
            continue
        c.true("unit of " + n, a[n][0] == b[n][0])
        sc = None
        for i in range(3):
            if "Heat Uptake" in n:
                sc = 1e4 * (c.abs(F[0]) + c.abs(F[1]))
            c.eq("%s[%d] from a scenario" % (n, i), b[n][1][i], a[n][1][i], scale=sc)


ALIKE_UNITS = {
    "erf": [("mW/m^2", "MW/m^2"), ("W/m^2", "W/mm^2"), ("W/m^2", "W/m**2"), ("kW/m^2", "kW / m ^ 2"),
            ("W/m^2", "W*m^-2"), ("watt/meter^2", "W/m^2"), ("J/s/m^2", "J/yr/m^2"), ("W/km^2", "kW/m^2"),
            ("W/m^2", "1000 W/m^2"), ("TW/km^2", "tW/km^2"), ("PW/m^2", "pW/m^2"), ("10 W/m^2", "W/m^2")],
    "du": [("mm", "Mm"), ("pm", "Pm"), ("km", "m"), ("metre", "m"), ("dm", "dam")],
    "dl": [("mm", "Mm"), ("m", "cm")],
    "d2": [("ms", "Ms"), ("yr", "year"), ("min", "month")],
    "delta_t": [("ms", "Ms"), ("d", "ds"), ("s", "S")],
    "lambda0": [("mW/m^2/K", "MW/m^2/K"), ("W/m^2/K", "W/mm^2/K"), ("W/m^2/K", "W/m^2/kK")],
    "eta": [("mW/m^2/K", "MW/m^2/K"), ("W/m^2/delta_degC", "W/m^2/delta_degF")],
    "q1": [("mK*m^2/W", "MK*m^2/W"), ("K/(W/m^2)", "mK/(mW/m^2)")],
}


def alike_units(c):
    """two units whose names hardly differ, one after the other"""
    t = kind(c)
    p = c.choose("input", [q for q in inputs(t) if q in ALIKE_UNITS])
    us = c.choose("units", ALIKE_UNITS[p])
    if c.flag("swapped"):
        us = us[::-1]
    base = ERF if p == "erf" else UNITS[t][p]
    ks = [factor(u, base) for u in us]
    if None in ks:
        c.true("unit unknown to the registry", True)
        return
    v = values(c, t)
    F = list(forcing(c, 3))
    w = oracle(t, v)
    run(w, c.array(F))
    if p != "erf":
        ms = [build(t, v, **{p: Q(v[p] / k, u)}) for u, k in zip(us, ks)]
        for u, m in zip(us, ms):
            close_results(c, "in " + u, w, run(m, c.array(F)), v, F)
        setattr(ms[0], p, Q(v[p] / ks[1], us[1]))
        close_results(c, "now in " + us[1], w, run(ms[0], c.array(F)), v, F)
        return
    m = build(t, v)
    how = c.choose("how", ["drivers", "one call", "two calls", "two models"])
    if how == "drivers":
        for u, k in zip(us, ks):
            close_results(c, "in " + u, w, run(m, c.array([f / k for f in F]), u), v, F)
        return
    if any(u[0].isdigit() for u in us):
        return  # no name of a unit
    rows = [(meta("s%d" % i, unit=u), [f / k for f in F]) for i, (u, k) in enumerate(zip(us, ks))]
    if how == "one call":
        out = m.run_scenarios(scenario(rows, years(3)), progress=False)
        got = [table(out, scenario="s%d" % i) for i in (0, 1)]
    else:
        got = [results(c, m if how == "two calls" or not i else build(t, v), scenario([r], years(3)))
               for i, r in enumerate(rows)]
    ref = results(c, oracle(t, v), one_scenario(F, ERF))
    for i, u in enumerate(us):
        for n in sorted(ref):
            if n != "Effective Radiative Forcing":
                for j in range(3):
                    c.eq("%s[%d] in %s" % (n, j, u), got[i][n][1][j], ref[n][1][j],
                         scale=1e4 * (c.abs(F[0]) + c.abs(F[1])) if n == "Heat Uptake" else None)
            else:
                c.eqs("driver in " + u, got[i][n][1], rows[i][1])


HARNESSES = [
    H("any_size", any_size, bounds="each input, and all of them together, in units of any size; 3 points"),
    H("any_size_conversion", any_size_conversion,
      bounds="each parameter, and all of them together, in units of any size"),
    H("real_units", real_units, bounds="3 to 5 real units of each input; 3 points"),
    H("by_setter", by_setter, bounds="each input assigned in a unit of any size; 2 points"),
    H("alike_units", alike_units, nocut=True, bounds="%d pairs of units whose names hardly differ, one after the "
      "other, in both orders" % sum(len(x) for x in ALIKE_UNITS.values())),
    H("scenario_unit", scenario_unit, bounds="scenario driver in 6 real units and one of any size"),
]
