"""The form in which scenarios are handed over does not matter."""
import contextlib
import datetime as dt
import io
import os
import pathlib
import tempfile

from .C15 import same_table
from .common import *  # noqa: F401,F403
from .scen import DRIVER, NAN, frame, jan, meta, months, outputs, results, scenario, table, years

from scmdata.run import ScmRun

ASSUMPTIONS = [REALS, STUBS, EXP]


MORE = {"Ensemble": "r1", "Some Number": 3}


class MyRun(ScmRun):
    """somebody's own kind of ScmRun"""


def flat(df):
    return df.reset_index()


def levels(df):
    return df.reorder_levels(list(df.index.names)[::-1])


def renamed(f):
    def g(df):
        df.columns = [f(x) for x in df.columns]
        return df

    return g


def date(x):
    return dt.datetime(x, 1, 1) if isinstance(x, int) else x


def year(f):
    return renamed(lambda x: f(x) if isinstance(x, int) else x)


FORMS = {
    "frame": lambda df: df,
    "reversed rows": lambda df: df.iloc[::-1],
    "metadata as columns": flat,
    "metadata as columns, last first": lambda df: flat(df)[list(flat(df).columns)[::-1]],
    "metadata in another order": levels,
    "some metadata as columns": lambda df: df.reset_index(["unit", "region"]),
    "reversed columns": lambda df: df[list(df.columns)[::-1]],
    "columns in another order": lambda df: df[list(df.columns)[1:] + list(df.columns)[:1]],
    "dates": renamed(date),
    "DatetimeIndex": lambda df: renamed(date)(df),
    "years as text": year(str),
    "years as floats": year(float),
    "run": ScmRun,
    "own kind of run": MyRun,
    "copied run": lambda df: ScmRun(df).copy(),
    "joined runs": lambda df: ScmRun(df.iloc[1:]).append(ScmRun(df.iloc[:1])),
    "filtered run": lambda df: ScmRun(df).filter(region="World"),
    "run from timeseries()": lambda df: ScmRun(ScmRun(df).timeseries()),
    "timeseries()": lambda df: ScmRun(df).timeseries(),
    "timeseries() with years": lambda df: ScmRun(df).timeseries(time_axis="year"),
    "run with metadata": lambda df: with_metadata(ScmRun(df)),
}


def with_metadata(r):
    r.metadata["source"] = "somewhere"
    return r


def is_monthly(cols):
    return len(cols) > 1 and not isinstance(cols[0], int) and cols[1].year == cols[0].year


def check(c, t, v, given, rows, axes, call=None):
    """what the model makes of it is what stepping a model gives for every scenario"""
    m = build(t, v)
    out = call(m, given) if call else m.run_scenarios(given, progress=False)
    c.true("as many time series", len(out) == len(rows) * (4 if t == "two_layer" else 5))
    for (mm, F), ax in zip(rows, axes):
        w = oracle(t, v)
        w.delta_t = Q(1, "month" if is_monthly(ax) else "yr")
        pts = [(x, f) for x, f in zip(ax, F) if not (isinstance(f, float) and f != f)]
        res = outputs(t, *run(w, c.array([f for _x, f in pts])))
        mine = out.meta[out.meta["scenario"] == mm["scenario"]]
        for k in mm:
            if k not in ("variable", "unit", "climate_model", "run_idx"):
                c.true("%s of %s" % (k, mm["scenario"]), k in mine and set(mine[k]) == {mm[k]})
        got = table(out, scenario=mm["scenario"])
        c.true("variables", set(got) == set(res) | {mm["variable"]})
        for k, s in res.items():
            x = [p for p in got[k][1] if not (isinstance(p, float) and p != p)]
            c.true("points of %s of %s" % (k, mm["scenario"]), len(x) == len(s))
            c.eqs("%s of %s" % (k, mm["scenario"]), x, s)
    return out


def forms(c):
    """the same scenarios in many forms; their values symbolic"""
    t = kind(c)
    v = values(c, t)
    cols = c.choose("cols", [years(3), months(3)])
    F, G = list(forcing(c, 3, "F")), list(forcing(c, 3, "G"))
    if c.flag("with a gap"):
        G[2] = NAN
    rows = [(meta("a", **MORE), F), (meta("b", **MORE), G)]
    how = c.choose("as", sorted(FORMS))
    if cols != years(3) and how in ("timeseries() with years", "dates", "DatetimeIndex", "years as text",
                                    "years as floats"):
        return
    out = check(c, t, v, FORMS[how](frame(rows, cols)), rows, [cols] * 2)
    for mm, F in rows:
        got = table(out, scenario=mm["scenario"])[DRIVER][1]
        c.true("driver points", len(got) == len(F))
        for x, f in zip(got, F):
            if f is NAN:
                c.true("gap", isinstance(x, float) and x != x)
            else:
                c.eq("driver of " + mm["scenario"], x, f)


LONG = {
    "year": lambda df, d: df,
    "time": lambda df, d: df.assign(time=[date(int(y)) for y in df["year"]]).drop(columns="year"),
    "another order": lambda df, d: df.iloc[::-1].reset_index(drop=True),
    "interleaved": lambda df, d: df.sort_values(["year", "scenario"]),
    "metadata in the index": lambda df, d: df.set_index([x for x in df.columns if x not in ("value", "year")]),
    "columns in another order": lambda df, d: df[list(df.columns)[::-1]],
    "file": lambda df, d: saved(df, os.path.join(d, "long.csv")),
}
WIDE = {
    "file": lambda df, d: saved(df, os.path.join(d, "wide.csv")),
    "path": lambda df, d: pathlib.Path(saved(df, os.path.join(d, "wide.csv"))),
    "compressed file": lambda df, d: saved(df, os.path.join(d, "wide.csv.gz")),
    "series by series": lambda df, d: ScmRun(
        data=df[[x for x in df.columns if isinstance(x, int)]].values.T,
        index=[x for x in df.columns if isinstance(x, int)],
        columns={k: list(df[k]) for k in df.columns if not isinstance(k, int)}),
}


def saved(df, path):
    df.to_csv(path, index=False)
    return path


def from_outside(c):
    """scenarios in a file, or in a long data frame, chosen values and every parameter"""
    t = kind(c)
    v = values(c, t)
    n = c.choose("points", [4, 2])
    cols = years(n, c.choose("start", [1850, 2000]))
    gaps = c.flag("with a gap")
    X = {"a": [0.5, 1.25, 1.25, 0.5][:n], "b": [0.5, -1.0, 0.125, -1.0][:n]}
    if gaps:
        X["b"][-1] = NAN
    rows = [(meta("a", **MORE), X["a"]), (meta("b", **MORE), X["b"])]
    more = [(meta("b", region="World|Northern Hemisphere", **MORE), [7.0] * n),
            (meta("b", variable="Emissions|CO2", unit="GtC/yr", **MORE), [8.0] * n)]
    df = flat(frame(rows + more, cols))
    how = c.choose("as", ["long " + x for x in sorted(LONG)] + ["wide " + x for x in sorted(WIDE)])
    if how.startswith("long "):
        df = df.melt(id_vars=[x for x in df.columns if not isinstance(x, int)], var_name="year")
    with tempfile.TemporaryDirectory() as d:
        given = (LONG if how.startswith("long ") else WIDE)[how[5:]](df, d)
        file = given if "file" in how or "path" in how else None
        before = file and open(file, "rb").read()
        check(c, t, v, given, rows, [cols] * 2)
        c.true("the file is left alone", not file or open(file, "rb").read() == before)
        c.true("no other file", os.listdir(d) == ([os.path.basename(file)] if file else []))


def one_series(c):
    """a single time series, in few forms"""
    t = kind(c)
    v = values(c, t)
    cols = c.choose("cols", [years(3), months(3), years(1)])
    F = list(forcing(c, len(cols)))
    df = frame([(meta("a"), F)], cols)
    how = c.choose("as", ["frame", "run", "metadata as columns"])
    check(c, t, v, FORMS[how](df), [(meta("a"), F)], [cols])


STYLES = {
    "progress": lambda m, s: m.run_scenarios(s, progress=True),
    "no progress": lambda m, s: m.run_scenarios(s, progress=False),
    "scenarios only": lambda m, s: m.run_scenarios(s),
    "by keyword": lambda m, s: m.run_scenarios(scenarios=s, driver_var=DRIVER, progress=False),
    "keywords in another order": lambda m, s: m.run_scenarios(progress=False, driver_var=DRIVER, scenarios=s),
    "by position": lambda m, s: m.run_scenarios(s, DRIVER, False),
    "progress by position": lambda m, s: m.run_scenarios(s, DRIVER, True),
    "progress by number": lambda m, s: m.run_scenarios(s, DRIVER, 1),
    "no progress by number": lambda m, s: m.run_scenarios(s, DRIVER, 0),
    "of the class": lambda m, s: type(m).run_scenarios(m, s),
}


def quietly(f, *a):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def call_styles(c):
    """however run_scenarios is called: with or without progress bar, by position or by keyword"""
    t = kind(c)
    v = values(c, t)
    how = c.choose("call", sorted(STYLES))
    F, G = list(forcing(c, 3, "F")), list(forcing(c, 3, "G"))
    rows = [(meta("a"), F), (meta("b"), G)]
    if c.flag("one scenario"):
        rows = rows[:1]
    twice = c.flag("twice")

    def call(m, s):
        if twice:
            quietly(STYLES[how], m, s)
        return quietly(STYLES[how], m, s)

    check(c, t, v, scenario(rows, jan(3)), rows, [jan(3)] * 2, call)


def again(c):
    """the output of a run, of either model, handed over as scenarios, in several forms"""
    t = kind(c)
    v = values(c, t)
    o = c.choose("first run by", KINDS)
    w = values(c, o, prefix="other_")
    F = list(forcing(c, 3))
    cols = c.choose("cols", [years(3), months(3)])
    rows = [(meta("a"), F), (meta("b"), [x + 1 for x in F])]
    out = build(o, w).run_scenarios(scenario(rows, cols), progress=False)
    how = c.choose("as", ["as it is", "copy", "run from timeseries()", "joined to another scenario"])
    if how == "copy":
        out = out.copy()
    elif how == "run from timeseries()":
        out = ScmRun(out.timeseries())
    elif how == "joined to another scenario":
        more = [(meta("c", climate_model="none", run_idx=7), [2 * x for x in F])]
        out = out.append(scenario(more, cols))
        rows = rows + more
    check(c, t, v, out, rows, [cols] * len(rows))


O = dict(nocut=True, budget=(150, 600))
HARNESSES = [
    H("forms", forms, bounds="%d forms of 2 scenarios of 3 points, yearly and monthly" % len(FORMS), **O),
    H("from_outside", from_outside, bounds="%d long and %d other forms of 2 scenarios of 2 or 4 points with chosen "
      "forcing, every parameter" % (len(LONG), len(WIDE)), **O),
    H("one_series", one_series, bounds="1 scenario of 3 points or 1, 3 forms", **O),
    H("call_styles", call_styles, bounds="%d ways to call, 1 or 2 scenarios of 3 points" % len(STYLES), **O),
    H("again", again, bounds="output of either model for 2 scenarios of 3 points, 4 forms", **O),
]
