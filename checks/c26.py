"""C26 charts show exactly the logged intervals and levels."""
import collections

import pandas as pd
from hypothesis import strategies as st

from vlib import charts, fleet, prog, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: at least two plotted objects with at least four bars (charts), at least two series of which one changes level three times (steps)"
ASSUMPTIONS = ["the bars of an activity with parts may be drawn in pieces that together cover its executions",
               "objects with the same name share a row, activities with the same label a colour"]


def stamp(x):
    return pd.Timestamp(x).to_pydatetime()


def drawn(chart):
    """(label, row) -> list of (start, stop)"""
    out = collections.defaultdict(list)
    for t in chart["data"]:
        run = []
        pts = list(zip(list(t.x) if t.x is not None else [], list(t.y) if t.y is not None else [])) + [(None, None)]
        for x, y in pts:
            if x is None or y is None:
                if run:
                    rows = {r for _, r in run}
                    expect(len(rows) == 1, "the chart of %s has a line across rows %s", t.name, rows)
                    xs = [x for x, _ in run]
                    out[t.name, rows.pop()].append((stamp(min(xs)), stamp(max(xs))))
                run = []
            else:
                run.append((x, y))
    return out


def logged(o):
    """activity id -> bars it logged itself, and whether it logged parts"""
    open_, out, parts = {}, collections.defaultdict(list), set()
    for e in o.logbook:
        i, s = e["ActivityID"], e["ActivityState"]
        if e["ActivityLabel"].get("type") == "subprocess":
            parts.add(i)
        elif s == "START":
            open_[i] = e["Timestamp"]
        elif s == "STOP":
            out[i].append((open_.pop(i), e["Timestamp"]))
    return out, parts, open_


def union(spans):
    out = []
    for a, b in sorted(spans):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def check_gantt(objs, given, kw, labels, whole):
    """labels: id -> expected label"""
    from openclsim.plot import get_gantt_chart

    kw = dict(kw)
    if kw.pop("show", False):
        chart = charts.shown(lambda: get_gantt_chart(given, **kw))
    else:
        chart = get_gantt_chart(given, static=True, **kw)
    got = drawn(chart)
    want = collections.defaultdict(lambda: [[], False, True])
    order = []
    for o in objs:
        bars, parts, open_ = logged(o)
        if any(bars.values()):
            order.append(o)
        for i in set(bars) | set(open_):
            w = want[labels.get(i, i), o.name]
            w[0] += bars.get(i, [])
            w[1] = w[1] or i in parts
            w[2] = w[2] and i not in open_
    rows = {r for _, r in got}
    if kw.get("y_scale") == "numbers":
        names = [o.name for o in order]
        nums = sorted(rows, reverse=True)
        expect(len(nums) == len(names) or not whole, "%d rows for %d objects", len(nums), len(names))
        if len(nums) != len(names):
            return 0
        row = dict(zip(nums, names))
        byrow, got = got, collections.defaultdict(list)
        for (a, b), v in byrow.items():
            got[a, row[b]] += v
    else:
        extra = rows - {o.name for o in objs}
        expect(not extra, "the chart has rows %s", extra)
    n = 0
    for k in set(got) | set(want):
        bars, structural, complete = want[k] if k in want else ([], False, True)
        g = got.get(k, [])
        if structural:
            if complete:
                expect(union(g) == union(bars), "%s on the row of %s: drawn %s, logged %s", *k, union(g)[:3], union(bars)[:3])
        else:
            gs, ws = set(g), set(bars)
            expect(gs == ws, "%s on the row of %s: bars %s that were not logged, logged %s not drawn", *k, sorted(gs - ws)[:2], sorted(ws - gs)[:2])
            n += len(ws)
    if kw.get("colors"):
        other = {t.line.color for t in chart["data"]} - set(kw["colors"].values())
        expect(not other, "bars have other colours than the given ones: %s", other)
    rng = chart["layout"].xaxis.range
    for (a, b), v in got.items():
        expect(all(stamp(rng[0]) <= s and e <= stamp(rng[1]) for s, e in v), "bars of %s on the row of %s lie outside the plotted range %s", a, b, rng)
    return n


def tree(a):
    return [a] + [x for s in getattr(a, "sub_processes", []) for x in tree(s)]


def options(draw):
    return dict(y=draw(st.sampled_from([None, "text", "numbers"])), map=draw(st.sampled_from(["none", "list", "dict", "manual", "partial", "groups"])),
                given=draw(st.sampled_from(["list", "dict"])), pick=draw(st.lists(st.booleans(), min_size=12, max_size=12)),
                tops=draw(st.sampled_from(["no", "all", "one", "nested"])), cut=draw(st.one_of(st.none(), st.none(), st.integers(1, 800).map(lambda k: k / 4))),
                colors=draw(st.booleans()), ids=draw(st.booleans()), show=draw(st.sampled_from([False] * 5 + [True])))


def run_gantt(c, objs, tops, acts):
    chosen = [o for i, o in enumerate(objs) if c["pick"][i % 12]]
    if c["tops"] == "all":
        chosen += tops
    elif c["tops"] == "one":
        chosen.append(tops[0])
    elif c["tops"] == "nested":
        chosen += acts[::2][:6]
    chosen = [o for o in dict.fromkeys(chosen)]
    if not any(o.logbook for o in chosen):
        return []
    known = {}
    for o in chosen:
        for x in tree(o):
            known[x.id] = x.name
    every = {a.id: a.name for a in acts}
    kw = {}
    if c["map"] == "list":
        kw["id_map"], known2 = list(tops), every
    elif c["map"] == "dict":
        kw["id_map"], known2 = {f"top {i}": a for i, a in enumerate(tops)}, every
    elif c["map"] == "manual":
        known2 = {a.id: "the " + a.name for a in acts}
        kw["id_map"] = dict(known2)
    elif c["map"] == "groups":
        # several activities with one label
        known2 = {a.id: "group %d" % (i % 2) for i, a in enumerate(acts)}
        kw["id_map"] = dict(known2)
    elif c["map"] == "partial":
        known2 = {a.id: "label " + a.name for a in acts[::3]}
        kw["id_map"] = dict(known2)
    else:
        known2 = {}
    if c["y"]:
        kw["y_scale"] = c["y"]
    n = sum(len(o.log["ActivityID"]) for o in chosen)
    kw["show"] = c.get("show", False)
    if c["colors"]:
        kw["colors"] = {i: f"rgb({i % 256},7,9)" for i in range(n)}
    if c["ids"]:
        # the activities to plot given explicitly: all of them
        kw["activities"] = sorted({i for o in chosen for i in o.log["ActivityID"]})
    given = chosen if c["given"] == "list" else {f"k{i}": o for i, o in enumerate(chosen)}
    bars = check_gantt(chosen, given, kw, {**known, **known2}, c["cut"] is None)
    return [c["map"]] + (["nontrivial"] if bars >= 4 and len(chosen) > 1 else [])


@st.composite
def programs(draw):
    return dict(p=draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), depth=2, width=3, start=0.3, plugins=0.1, delay=0.1, max_rep=3, same=0.3)), **options(draw))


def run_program(c):
    p = c["p"]
    b = prog.build(p)
    sut.run_all(b.env, until=None if c["cut"] is None else p["t0"] + c["cut"])
    acts = list(b.acts.values())
    return run_gantt(c, b.logs + [m for m, _ in b.movers.values()], b.tops, acts)


@st.composite
def fleets(draw):
    return dict(spec=draw(fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3, plugins=0.1, site_slots=st.sampled_from([1, 1, 2]))), **options(draw))


def run_fleet(c):
    r = fleet.build(c["spec"])
    sut.run_all(r.env, until=None if c["cut"] is None else c["spec"]["t0"] + c["cut"])
    return run_gantt(c, r.sites + r.vessels + [x for x in r.cranes if x], r.tops, list(r.acts.values()))


# ---------------------------------------------------------------- step charts
@st.composite
def stepped(draw):
    return dict(spec=draw(fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3)), cut=draw(st.one_of(st.none(), st.integers(1, 800).map(lambda k: k / 4))),
                pick=draw(st.lists(st.booleans(), min_size=7, max_size=7)), map=draw(st.sampled_from([None, {"default": "x"}, {"sand": "SAND", "default": "main"}, {}])))


def run_steps(c):
    import matplotlib.pyplot as plt
    from openclsim.plot import get_step_chart

    r = fleet.build(c["spec"])
    sut.run_all(r.env, until=None if c["cut"] is None else c["spec"]["t0"] + c["cut"])
    objs = [o for o, p in zip(r.sites + r.vessels, c["pick"]) if p] or r.sites[:1]
    ids = list(c["spec"]["sites"][0]["ids"])
    labels = c["map"] if c["map"] is not None else {"default": ""}
    fig = get_step_chart(objs, **({} if c["map"] is None else {"container_map": c["map"]}))
    try:
        got = collections.Counter()
        for ax in fig.axes:
            for line in ax.lines:
                got[line.get_label().strip(), tuple((stamp(x), float(y)) for x, y in zip(line.get_xdata(), line.get_ydata()))] += 1
    finally:
        plt.close(fig)
    want = collections.Counter()
    rich = False
    for o in objs:
        for i in ids:
            rows = []
            for e in sorted(o.logbook, key=lambda e: e["Timestamp"]):
                lv = e["ObjectState"]["container level"]
                rows.append((e["Timestamp"], float(lv[i] if isinstance(lv, dict) else lv)))
            if rows:
                want[f"{o.name} {labels.get(i, i)}".strip(), tuple(rows)] += 1
            rich = rich or len({v for _, v in rows}) >= 3
    got = collections.Counter({k: v for k, v in got.items() if k[1]})
    expect(got == want, "series %s not logged, series %s not drawn", [(k[0], k[1][:3]) for k in got - want][:2], [(k[0], k[1][:3]) for k in want - got][:2])
    return (["multi"] if len(ids) > 1 else []) + (["nontrivial"] if rich and len(want) > 1 else [])


FACETS = [
    Facet("program", lambda t: programs(), run_program, 250, 4000, "gantt charts of activities, movers and listeners"),
    Facet("fleet", lambda t: fleets(), run_fleet, 160, 3000, "gantt charts of sites, vessels and cranes with and without their activities"),
    Facet("steps", lambda t: stepped(), run_steps, 150, 2500, "step charts of sites and vessels"),
]
