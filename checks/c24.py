"""C24 exported activity tables describe the model's tree and relations exactly."""
import collections
import csv
import os

import pandas as pd
from hypothesis import strategies as st
from openclsim import io

from vlib import boot, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: a forest nested at least three levels deep with at least two siblings below the top level and two moves or shifts in it (forest), at least two concepts (concepts)"
ASSUMPTIONS = ["an activity has one parent; names and ids are arbitrary texts without NUL, lone surrogates or carriage returns"]

TEXT = st.one_of(
    st.sampled_from(["", "a", "A", "load, unload", 'say "hi"', "line\nbreak", "007", "1e5", "nan", "None", "True", "é€", " x ", ";", "'", "a\tb"]),
    st.text(st.characters(codec="utf-8", exclude_characters="\x00\r"), max_size=8))
KINDS = ("basic", "move", "shift", "seq", "par", "rep", "while")


@st.composite
def forests(draw):
    nodes = draw(st.integers(1, 25))
    # parent of node i: an earlier structural node or none
    out = []
    for i in range(nodes):
        open_ = [j for j, n in enumerate(out) if n["k"] in ("seq", "par", "rep", "while")]
        k = draw(st.sampled_from(KINDS))
        parent = None
        if open_ and draw(st.integers(0, 9)) > 0:
            # prefer the most recent ones: deep trees
            parent = open_[-1 - min(draw(st.integers(0, 3)), len(open_) - 1)]
        n = dict(k=k, parent=parent, name=draw(TEXT), plug=draw(st.booleans()), a=draw(st.integers(0, 3)), b=draw(st.integers(0, 3)),
                 c=draw(st.integers(0, 5)))
        if draw(st.booleans()):
            n["id"] = draw(st.one_of(TEXT.filter(bool), st.integers(0, 99).map(str)))
        out.append(n)
    ids = [n["id"] for n in out if "id" in n]
    seen = set()
    for n in out:
        if "id" in n and n["id"] in seen:
            del n["id"]
        seen.add(n.get("id"))
    names = [draw(TEXT) for _ in range(10)]
    return dict(nodes=out, names=names, given=draw(st.sampled_from(["list", "dict", "single", "list"])), csv=draw(st.booleans()),
                depth=draw(st.integers(0, 3)))


def concepts(c, env):
    sites = [sut.Site(env=env, name=c["names"][i], geometry=sut.point(4 + i, 52), capacity=10, level=5, id=f"site-{i}" if i % 2 else None) for i in range(4)]
    vessels = [sut.PlainVessel(env=env, name=c["names"][4 + i], geometry=sut.point(4, 52), capacity=10, v=1, loading_rate=1, unloading_rate=1) for i in range(4)]
    cranes = [sut.Crane(env=env, name=c["names"][8 + i], geometry=sut.point(4, 52), loading_rate=1, unloading_rate=1) for i in range(2)]
    return sites, vessels, cranes


def make(c):
    env = sut.simpy.Environment()
    reg = {}
    sites, vessels, cranes = concepts(c, env)
    kids = collections.defaultdict(list)
    acts = [None] * len(c["nodes"])
    rel = {}
    for i in reversed(range(len(c["nodes"]))):
        n = c["nodes"][i]
        kw = dict(env=env, registry=reg, name=n["name"])
        if "id" in n:
            kw["id"] = n["id"]
        cls = sut.activity_class(n["k"], delay=n["plug"])
        rel[i] = {}
        if n["k"] == "basic":
            a = cls(duration=1, **kw)
        elif n["k"] == "move":
            rel[i] = dict(mover=vessels[n["a"]], destination=sites[n["b"]])
            a = cls(duration=1, **rel[i], **kw)
        elif n["k"] == "shift":
            v, s = vessels[n["a"]], sites[n["b"]]
            p = ([v] + cranes + [vessels[(n["a"] + 1) % 4]])[n["c"] % 4]
            rel[i] = dict(processor=p, origin=s if n["c"] % 2 else v, destination=v if n["c"] % 2 else s)
            a = cls(duration=1, amount=1, **rel[i], **kw)
        else:
            subs = [acts[j] for j in sorted(kids[i])]
            if n["k"] == "rep":
                a = cls(sub_processes=subs, repetitions=2, **kw)
            elif n["k"] == "while":
                a = cls(sub_processes=subs, condition_event={"type": "time", "start_time": 1}, **kw)
            else:
                a = cls(sub_processes=subs, **kw)
        acts[i] = a
        kids[n["parent"]].append(i)
    return env, acts, sorted(kids[None]), rel


def text(x):
    return "" if x is None else str(x)


def read_csv(path):
    with open(path, newline="", encoding="utf-8") as fh:
        rows = list(csv.reader(fh))
    return [dict(zip(rows[0], r)) for r in rows[1:]]


def compare(got, want, what):
    """Same rows in any order."""
    key = lambda r: tuple(sorted((k, text(v)) for k, v in r.items()))  # noqa: E731
    g, w = collections.Counter(map(key, got)), collections.Counter(map(key, want))
    expect(g == w, "%s: unexpected rows %s, missing rows %s", what, list((g - w))[:2], list((w - g))[:2])


def run(c):
    env, acts, tops, rel = make(c)
    given = [acts[i] for i in tops]
    if c["given"] == "dict":
        given = {f"k{i}": a for i, a in enumerate(given)}
    elif c["given"] == "single":
        given = given[0]
        keep = {tops[0]}
    else:
        given = list(given)
    nodes = c["nodes"]
    level = {}
    inside = []
    for i, n in enumerate(nodes):
        if n["parent"] is None:
            if c["given"] == "single" and i not in keep:
                continue
            level[i] = 0
        elif n["parent"] in level:
            level[i] = level[n["parent"]] + 1
        else:
            continue
        inside.append(i)
    base, full, relations = [], [], []
    for i in inside:
        n, a = nodes[i], acts[i]
        p = None if n["parent"] is None else acts[n["parent"]]
        row = dict(ActivityID=a.id, ActivityName=n["name"], ActivityClass=type(a).__name__, ParentId=None if p is None else p.id,
                   ParentName="" if p is None else p.name, ParentLevel=level[i])
        if "id" in n:
            row["ActivityID"] = n["id"]
        base.append(row)
        row = dict(row)
        for mode in ("Origin", "Destination", "Processor", "Mover"):
            o = rel[i].get(mode.lower())
            row[mode + "ID"], row[mode + "Name"] = (None, "") if o is None else (o.id, o.name)
            if o is not None:
                relations.append(dict(ActivityID=a.id, ActivityName=n["name"], ActivityClass=type(a).__name__, ConceptID=o.id,
                                      ConceptName=o.name, ConceptMode=mode.lower()))
        full.append(row)
    # the tree
    d = io.get_tree_as_list(given)
    keys = list(base[0])
    expect(all(len(d[k]) == len(base) for k in keys + ["activity"]), "the tree has %s entries instead of %d", {k: len(v) for k, v in d.items()}, len(base))
    compare([dict(zip(keys, r)) for r in zip(*[d[k] for k in keys])], base, "tree")
    for x, i, nm in zip(d["activity"], d["ActivityID"], d["ActivityName"]):
        expect(x.id == i and x.name == nm, "the tree lists object %s (%s) as %s (%s)", x.name, x.id, nm, i)
    if c["depth"]:
        d2 = io.get_tree_as_list(given, c["depth"])
        expect(sorted(d2["ParentLevel"]) == sorted(r["ParentLevel"] + c["depth"] for r in base), "levels from depth %d: %s", c["depth"], d2["ParentLevel"])
        compare([dict(zip(keys, r), ParentLevel=0) for r in zip(*[d2[k] for k in keys])], [dict(r, ParentLevel=0) for r in base], "tree from depth")
    files = [os.path.join(boot.scratch(), f"{x}-{os.getpid()}.csv") for x in ("activities", "resources")] if c["csv"] else [None, None]
    df = io.get_activities(given, ofile=files[0])
    keys = list(full[0])
    cells = lambda f, ks: [{k: None if f[k].iloc[j] is None or f[k].iloc[j] != f[k].iloc[j] else f[k].iloc[j] for k in ks} for j in range(len(f))]  # noqa: E731
    compare(cells(df, keys), full, "activity table")
    rs = io.get_activity_resources(given, ofile=files[1])
    rkeys = ["ActivityID", "ActivityName", "ActivityClass", "ConceptID", "ConceptName", "ConceptMode"]
    compare(cells(rs, rkeys), relations, "activity-resource table")
    if c["csv"]:
        compare([{k: r[k] for k in keys} for r in read_csv(files[0])], full, "activity file")
        compare([{k: r[k] for k in rkeys} for r in read_csv(files[1])], relations, "activity-resource file")
        for f, ks in zip(files, (keys, rkeys)):
            expect(sorted(read_csv(f)[0] if read_csv(f) else ks) == sorted(ks), "columns of the file: %s instead of %s", read_csv(f)[:1], ks)
            os.unlink(f)
    deep = max(level.values()) >= 2
    sib = collections.Counter(nodes[i]["parent"] for i in inside if nodes[i]["parent"] is not None)
    labels = (["deep"] if deep else []) + (["csv"] if c["csv"] else [])
    if deep and max(sib.values()) >= 2 and sum(1 for i in inside if rel[i]) >= 2:
        labels.append("nontrivial")
    return labels


@st.composite
def concept_lists(draw):
    return dict(names=[draw(TEXT) for _ in range(10)], pick=draw(st.lists(st.integers(0, 9), min_size=1, max_size=10, unique=True)),
                given=draw(st.sampled_from(["list", "dict"])), ns=draw(st.sampled_from(["", "Vessel", "Site", "Concept"])), csv=draw(st.booleans()))


def run_concepts(c):
    env = sut.simpy.Environment()
    s, v, k = concepts(c, env)
    objs = [(s + v + k)[i] for i in c["pick"]]
    given = objs if c["given"] == "list" else {f"k{i}": o for i, o in enumerate(objs)}
    f = os.path.join(boot.scratch(), f"concepts-{os.getpid()}.csv") if c["csv"] else None
    df = io.get_concepts(given, namespace=c["ns"], ofile=f)
    want = [{c["ns"] + "Name": (c["names"])[i], c["ns"] + "ID": o.id, c["ns"] + "Class": type(o).__name__} for i, o in zip(c["pick"], objs)]
    keys = list(want[0])
    expect(sorted(df.columns) == sorted(keys), "columns %s", list(df.columns))
    compare([{k: df[k].iloc[j] for k in keys} for j in range(len(df))], want, "concept table")
    if f:
        compare(read_csv(f), want, "concept file")
        os.unlink(f)
    return ["nontrivial"] if len(objs) > 1 else []


FACETS = [
    Facet("forest", lambda t: forests(), run, 500, 8000, "forests of up to 25 activities with arbitrary names and ids"),
    Facet("concepts", lambda t: concept_lists(), run_concepts, 200, 2500, "lists and dicts of sites, vessels and cranes"),
]
