"""Scenarios with symbolic values, and reading of the output of run_scenarios."""
import datetime as dt

import numpy as np
import pandas as pd
from scmdata.run import ScmRun

DRIVER = "Effective Radiative Forcing"
META = ("climate_model", "model", "region", "scenario", "unit", "variable")
NAN = float("nan")


def frame(rows, cols, names=None):
    """
    rows: [(metadata dict, values)]; a wide pd.DataFrame of objects (symbolic) or floats
    """
    names = names or sorted(rows[0][0])
    data = np.empty((len(rows), len(cols)), dtype=object)
    for i, (_m, vals) in enumerate(rows):
        for j, x in enumerate(vals):
            data[i, j] = x
    idx = pd.MultiIndex.from_tuples([tuple(m[n] for n in names) for m, _v in rows], names=names)
    try:
        data = data.astype(float)
    except BaseException:
        pass
    return pd.DataFrame(data, index=idx, columns=list(cols))


def meta(scenario="s1", variable=DRIVER, region="World", unit="W/m^2", **kw):
    return dict(model="m", scenario=scenario, variable=variable, region=region, unit=unit, **kw)


def years(n, start=2000):
    return list(range(start, start + n))


def jan(n, start=2000):
    return [dt.datetime(y, 1, 1) for y in years(n, start)]


def months(n, start=(2000, 1)):
    y, m = start
    out = []
    for _ in range(n):
        out.append(dt.datetime(y, m, 1))
        m += 1
        if m > 12:
            y, m = y + 1, 1
    return out


def scenario(rows, cols):
    return ScmRun(frame(rows, cols))


def one_scenario(vals, unit="W/m^2", cols=None, name="s1"):
    cols = cols or years(len(vals))
    return scenario([(meta(name, unit=unit), vals)], cols)


def table(out, **sel):
    """{variable: (unit, [values])} of the rows of an ScmRun whose metadata match sel"""
    ts = out.timeseries()
    names = list(ts.index.names)
    res = {}
    vals = ts.values
    for i, lab in enumerate(ts.index):
        m = dict(zip(names, lab))
        if any(m.get(k) != v for k, v in sel.items()):
            continue
        if m["variable"] in res:
            raise AssertionError("two time series for %s" % m["variable"])
        res[m["variable"]] = (m["unit"], list(vals[i]))
    return res


def results(c, model, run, driver=DRIVER, **sel):
    kw = {} if driver == DRIVER else {"driver_var": driver}
    return table(model.run_scenarios(run, progress=False, **kw), **sel)


def outputs(t, A, B, R):
    if t == "two_layer":
        return {"Surface Temperature|Upper": A, "Surface Temperature|Lower": B, "Heat Uptake": R}
    return {"Surface Temperature|Box 1": A, "Surface Temperature|Box 2": B, "Heat Uptake": R,
            "Surface Temperature": [p + q for p, q in zip(A, B)]}
