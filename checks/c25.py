"""C25 exported ranges pair every execution's start with its own stop."""
import collections
import contextlib
import csv
import datetime
import io as stdio
import math
import os

import pandas as pd
from hypothesis import strategies as st
from openclsim import io

from vlib import boot, fleet, prog, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: a log in which one activity has at least two executions (or an activity with labelled parts), in full or cut off halfway an execution"
ASSUMPTIONS = ["the executions of one activity follow one another, so the n-th start of an activity (with a label) belongs to its n-th stop"]


def value(x):
    if x is None or (isinstance(x, float) and math.isnan(x)) or x is pd.NaT:
        return None
    if isinstance(x, dict):
        return tuple(sorted(x.items()))
    if hasattr(x, "to_pydatetime"):
        return x.to_pydatetime()
    return x


def want_ranges(obj, names):
    """id (or name) -> [(start, stop, level at start, level at stop)]; also whether levels are recorded at all"""
    open_, out, levels = {}, collections.defaultdict(list), False
    for e in obj.logbook:
        s = e["ActivityState"]
        if s not in ("START", "STOP"):
            continue
        lv = value(e["ObjectState"].get("container level"))
        levels = levels or "container level" in e["ObjectState"]
        lab = e["ActivityLabel"]
        key = (e["ActivityID"], lab.get("type"), lab.get("ref"))
        if s == "START":
            row = [e["Timestamp"], None, lv, None]
            open_.setdefault(key, []).append(row)
            out[names.get(e["ActivityID"], e["ActivityID"])].append(row)
        else:
            row = open_[key].pop(0)
            row[1], row[3] = e["Timestamp"], lv
    return {k: [tuple(r) for r in v] for k, v in out.items()}, levels


def check(df, want, levels, what, idcol="Activity"):
    got = collections.defaultdict(list)
    prev = None
    for _, r in df.iterrows():
        start, stop, dt = value(r["TimestampStart"]), value(r["TimestampStop"]), value(r["TimestampDt"])
        expect(prev is None or prev <= start, "%s: rows are not sorted by their start: %s after %s", what, start, prev)
        prev = start
        if stop is None:
            expect(dt is None, "%s: a range without stop lasts %s", what, dt)
        else:
            expect(dt is not None and abs(dt - (stop - start).total_seconds()) < 1e-6, "%s: the range %s - %s lasts %s s", what, start, stop, dt)
        ls, le = (value(r.get("ContainerLevelStart")), value(r.get("ContainerLevelStop"))) if levels else (None, None)
        got[r[idcol]].append((r["trip"], (start, stop, ls, le)))
    expect(set(got) == set(want), "%s: ranges of %s instead of %s", what, sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3])
    for k, rows in want.items():
        g = [x for _, x in got[k]]
        key = lambda x: tuple(str(y) for y in x)  # noqa: E731
        if sorted(g, key=key) != sorted(rows, key=key):
            extra = [x for x in g if x not in rows][:2]
            missing = [x for x in rows if x not in g][:2]
            expect(False, "%s, activity %s: unexpected ranges %s, missing %s (%d ranges instead of %d)", what, k, extra, missing, len(g), len(rows))
        trips = sorted(got[k], key=lambda x: x[0])
        expect([t for t, _ in trips] == list(range(1, len(rows) + 1)), "%s, activity %s: trips are numbered %s", what, k, [t for t, _ in trips])
        expect(all(a[1][0] <= b[1][0] for a, b in zip(trips, trips[1:])), "%s, activity %s: trips are not in chronological order", what, k)


def check_object(o, id_map, names, what):
    want, levels = want_ranges(o, names)
    with contextlib.redirect_stdout(stdio.StringIO()):
        df = io.get_ranges_dataframe(o, id_map=id_map) if id_map is not None else io.get_ranges_dataframe(o)
    check(df, want, levels, what)
    if want and not levels:
        expect("ContainerLevelStart" not in df.columns or df["ContainerLevelStart"].isna().all(), "%s: container levels for something without container", what)
    return want


def check_export(tops, acts, nested, write):
    """The export of all activities; nested: (activity, name, class) of every activity in the tree"""
    f = os.path.join(boot.scratch(), f"log-{os.getpid()}.csv") if write else None
    with contextlib.redirect_stdout(stdio.StringIO()):
        df = io.get_activity_log(tops, ofile=f)
    want = {}
    names, classes = {}, {}
    for a in acts:
        w, _ = want_ranges(a, {})
        for k, rows in w.items():
            expect(k == a.id, "%s logs entries of %s", a.name, k)
            want[k] = [(s, e, None, None) for s, e, *_ in rows]
        names[a.id], classes[a.id] = a.name, type(a).__name__
    check(df, want, False, "export", "ActivityID")
    for _, r in df.iterrows():
        i = r["ActivityID"]
        expect((r["ActivityName"], r["ActivityClass"]) == (names[i], classes[i]), "the export calls %s a %s named %s", i, r["ActivityClass"], r["ActivityName"])
    if f:
        with open(f, newline="", encoding="utf-8") as fh:
            rows = list(csv.DictReader(fh))
        os.unlink(f)

        def ts(x):
            return datetime.datetime.fromisoformat(x) if x else None

        got = collections.Counter((r["trip"], r["ActivityID"], r["ActivityName"], r["ActivityClass"], ts(r["TimestampStart"]), ts(r["TimestampStop"]),
                                   round(float(r["TimestampDt"]), 5) if r["TimestampDt"] else None) for r in rows)
        exp = collections.Counter((str(r["trip"]), r["ActivityID"], r["ActivityName"], r["ActivityClass"], value(r["TimestampStart"]), value(r["TimestampStop"]),
                                   None if value(r["TimestampDt"]) is None else round(r["TimestampDt"], 5)) for _, r in df.iterrows())
        expect(got == exp, "the file has other rows than the table: %s instead of %s", list((got - exp))[:2], list((exp - got))[:2])
    return sum(map(len, want.values()))


def interesting(wants):
    rep = any(len(rows) > 1 for w in wants for rows in w.values())
    cut = any(r[1] is None for w in wants for rows in w.values() for r in rows)
    return rep, cut


def id_map(how, tops, every):
    """(the id_map, what it makes of the ids); a number: so many labels for all activities together"""
    if how == "none":
        return None, {}
    if how in ("list", "manual"):
        return (tops if how == "list" else dict(every)), every
    labels = {i: "group %d" % (k % how) for k, i in enumerate(every)}
    return dict(labels), labels


@st.composite
def programs(draw):
    p = draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), depth=2, start=0.3, plugins=0.15, delay=0.1, max_rep=3, same=0.3, stretch=0.25))
    return dict(p=p, cut=draw(st.one_of(st.none(), st.integers(0, 400).map(lambda k: k / 4))), csv=draw(st.booleans()),
                map=draw(st.sampled_from(["none", "list", "manual", 1, 2, 3])), tops=draw(st.sampled_from(["all", "one", "dict"])))


def run_program(c):
    b = prog.build(c["p"])
    sut.run_all(b.env, until=None if c["cut"] is None else c["p"]["t0"] + c["cut"])
    acts = list(b.acts.values())
    every = {a.id: a.name for a in acts}
    m, names = id_map(c["map"], b.tops, every)
    objs = sorted(acts + b.logs + [m_ for m_, _ in b.movers.values()], key=lambda o: -len(o.logbook))
    wants = [check_object(o, m, names, o.name) for o in objs[:4] + objs[-1:]]
    tops = {"all": b.tops, "one": b.tops[0], "dict": {"%d %s" % (i, a.name): a for i, a in enumerate(b.tops)}}[c["tops"]]
    inside = acts if c["tops"] != "one" else [b.acts[n["n"]] for n in prog.walk_nodes({"acts": c["p"]["acts"][:1]})]
    if any(o.logbook for o in inside) and len(inside) < 40:
        check_export(tops, inside, None, c["csv"])
    rep, cut = interesting(wants)
    return (["repeated"] if rep else []) + (["cut"] if cut else []) + (["nontrivial"] if rep else [])


@st.composite
def fleets(draw):
    return dict(spec=draw(fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3, plugins=0.1, site_slots=st.sampled_from([1, 1, 2]))),
                cut=draw(st.one_of(st.none(), st.integers(0, 1000).map(lambda k: k / 2))), csv=draw(st.booleans()),
                map=draw(st.sampled_from(["none", "list", "manual", 1, 2, 3])))


def run_fleet(c):
    r = fleet.build(c["spec"])
    sut.run_all(r.env, until=None if c["cut"] is None else c["spec"]["t0"] + c["cut"])
    every = {a.id: a.name for a in r.acts.values()}
    m, names = id_map(c["map"], r.tops, every)
    objs = r.sites + r.vessels + [x for x in r.cranes if x]
    wants = [check_object(o, m, names, o.name) for o in objs[:6] if o.logbook]
    if any(a.logbook for a in r.acts.values()):
        check_export(r.tops, list(r.acts.values()), None, c["csv"])
    rep, cut = interesting(wants)
    return (["repeated"] if rep else []) + (["cut"] if cut else []) + (["nontrivial"] if rep else [])


FACETS = [
    Facet("program", lambda t: programs(), run_program, 400, 6000, "logs of activities, movers and listeners, in full and cut off"),
    Facet("fleet", lambda t: fleets(), run_fleet, 200, 4000, "logs of sites, vessels and cranes, in full and cut off"),
]
