"""C21 the log dataframe is a faithful, time-sorted view of the log."""
import math

from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: a log of at least four entries shown with an id map that resolves some but not necessarily all ids, or recorded out of time order"
ASSUMPTIONS = ["ids and names are strings"]


def frame_of(obj, id_map=None):
    from openclsim.plot import get_log_dataframe

    return get_log_dataframe(obj, id_map) if id_map is not None else get_log_dataframe(obj)


def rows_of(df):
    """Rows in order as dicts; missing values dropped."""
    cols = list(df.columns)
    out = []
    for vals in df.itertuples(index=False, name=None):
        row = {}
        for c, v in zip(cols, vals):
            if v is None or (isinstance(v, float) and math.isnan(v)):
                continue
            row[c] = v
        out.append(row)
    return out


def want_rows(obj, names):
    out = []
    for e in sorted(obj.logbook, key=lambda e: e["Timestamp"]):  # stable
        row = {"Activity": names.get(e["ActivityID"], e["ActivityID"]), "Timestamp": e["Timestamp"], "ActivityState": e["ActivityState"]}
        row.update(e["ObjectState"])
        row.update(e["ActivityLabel"])
        out.append(row)
    return out


def compare(obj, id_map, names, what):
    got = rows_of(frame_of(obj, id_map))
    want = want_rows(obj, names)
    expect(len(got) == len(want), "%s: the frame has %d rows, the log %d entries", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        expect(set(g) == set(w) and all(g[k] == w[k] for k in w), "%s, row %d: %s instead of %s", what, i, g, w)


def maps(c, tops, acts):
    """(description, id map, names)"""
    def tree(a):
        out = [a]
        for s in getattr(a, "sub_processes", []):
            out += tree(s)
        return out

    every = {a.id: a.name for a in acts}
    first = {a.id: a.name for a in tree(tops[0])}
    some = {a.id: "label " + a.name for i, a in enumerate(acts) if i % 2 == c["odd"]}
    shift = {a.id: acts[(i + 1) % len(acts)].id for i, a in enumerate(acts)}
    named = {"%d %s" % (i, a.name): a for i, a in enumerate(tops)}
    return {
        "none": [("no map", None, {}), ("empty list", [], {}), ("empty dict", {}, {})],
        "list": [("list of all", list(tops), every), ("list of the first", [tops[0]], first)],
        "dict": [("dict of all", named, every), ("dict of the first", {"x": tops[0]}, first)],
        "manual": [("manual map", dict(every), every), ("partial manual map", dict(some), some), ("manual map of ids to other ids", dict(shift), shift)],
    }[c["map"]]


def labels(objs):
    out = []
    if any(len(o.logbook) >= 4 for o in objs):
        out.append("long")
    if any([e["Timestamp"] for e in o.logbook] != sorted(e["Timestamp"] for e in o.logbook) for o in objs):
        out.append("unordered")
    return out


@st.composite
def programs(draw):
    return dict(p=draw(prog.programs(kinds=("basic", "seq", "par", "rep"), start=0.4, plugins=0.2, delay=0.1, logs=2, explicit_ids=True, same=0.25)),
                map=draw(st.sampled_from(["none", "list", "dict", "manual"])), odd=draw(st.integers(0, 1)))


def run_program(c):
    b = prog.run(c["p"])
    objs = sorted(list(b.acts.values()) + b.logs, key=lambda o: -len(o.logbook))
    objs = objs[:4] + objs[4::7][:2]  # the longest and some others
    for what, m, names in maps(c, b.tops, list(b.acts.values())):
        for o in objs:
            compare(o, m, names, f"{what}, {o.name}")
    lab = labels(objs)
    return lab + [c["map"]] + (["nontrivial"] if "long" in lab and (c["map"] != "none" or "unordered" in lab) else [])


@st.composite
def fleets(draw):
    return dict(spec=draw(fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3)), map=draw(st.sampled_from(["none", "list", "dict", "manual"])),
                odd=draw(st.integers(0, 1)))


def run_fleet(c):
    r = fleet.observe(c["spec"])
    objs = r.sites[:2] + r.vessels[:2] + [x for x in r.cranes if x][:1] + r.tops[:1]
    for what, m, names in maps(c, r.tops, list(r.acts.values())):
        for o in objs:
            compare(o, m, names, f"{what}, {o.name}")
    lab = labels(objs)
    return lab + [c["map"]] + (["nontrivial"] if "long" in lab and c["map"] != "none" else [])


@st.composite
def entries(draw):
    n = draw(st.integers(0, 14))
    return dict(kind=draw(st.sampled_from(["logger", "site", "multi"])), odd=0, map=draw(st.sampled_from(["none", "manual", "list"])),
                acts=draw(st.integers(1, 4)), t0=draw(prog.epochs()),
                entries=[dict(t=draw(st.integers(0, 8)) / 2, a=draw(st.integers(0, 5)), s=draw(st.sampled_from(["START", "STOP", "WAIT_START", "WAIT_STOP"])),
                              level=draw(st.integers(0, 9)), lab=draw(st.one_of(st.none(), st.just(["plugin", "delay"]), st.just(["x", "y"]))),
                              more=draw(st.one_of(st.none(), st.integers(0, 5)))) for _ in range(n)])


def run_entries(c):
    env = sut.simpy.Environment(initial_time=c["t0"])
    if c["kind"] == "logger":
        o = sut.Logger(env=env, name="o")
    elif c["kind"] == "site":
        o = sut.Site(env=env, name="o", geometry=sut.point(4, 52), capacity=10, level=0)
    else:
        o = sut.MultiSite(env=env, name="o", geometry=sut.point(4, 52), initials=[dict(id="a", capacity=10, level=0), dict(id="b", capacity=10, level=3)])
    reg = {}
    acts = [sut.model.BasicActivity(env=env, registry=reg, name=f"act{i}", duration=1) for i in range(c["acts"])]
    top = sut.model.SequentialActivity(env=env, registry=reg, name="top", sub_processes=acts)
    level = 0
    for e in c["entries"]:
        if c["kind"] != "logger" and e["level"] != level:
            d = e["level"] - level
            k = "a" if c["kind"] == "multi" else "default"
            o.container.put(d, k) if d > 0 else o.container.get(-d, k)
            level = e["level"]
        kw = {}
        if e["lab"]:
            kw["activity_label"] = {"type": e["lab"][0], "ref": e["lab"][1]}
        if e["more"] is not None:
            kw["additional_state"] = {"more": e["more"]}
        o.log_entry_v1(t=c["t0"] + e["t"], activity_id=acts[e["a"]].id if e["a"] < len(acts) else f"unknown{e['a']}",
                       activity_state=sut.core.LogState[e["s"]], **kw)
    for what, m, names in maps(c, [top], acts + [top]):
        compare(o, m, names, what)
    lab = labels([o])
    return lab + (["nontrivial"] if "unordered" in lab and len(c["entries"]) > 3 else [])


FACETS = [
    Facet("program", lambda t: programs(), run_program, 500, 10000, "logs of activities and listeners with every kind of id map"),
    Facet("fleet", lambda t: fleets(), run_fleet, 200, 4000, "logs of sites, vessels and cranes"),
    Facet("entries", lambda t: entries(), run_entries, 1000, 20000, "entries recorded in any order of time, with ties, labels and additional state"),
]
