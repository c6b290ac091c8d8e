"""C32 identities are unique, stable and honoured."""
import copy
import warnings

from hypothesis import strategies as st

from vlib import boot, prog, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: objects of three classes or more with explicit and generated ids / a program that refers to activities with generated and explicit ids"
ASSUMPTIONS = ["explicit ids are non-empty and different from each other", "ids of generated objects come from uuid4, made deterministic"]

TEXT = st.one_of(st.text(min_size=1, max_size=8), st.sampled_from(["a", "a", "vessel", "0", " ", "ID", "None"]))
KINDS = ("logger", "site", "multi", "crane", "mover", "plain", "vessel", "basic", "move", "seq", "par", "rep", "while", "shift")


@st.composite
def objects(draw):
    out, used = [], set()
    for _ in range(draw(st.integers(2, 14))):
        how = draw(st.sampled_from(["none", "none", "id", "id", "ID", "both"]))
        o = dict(k=draw(st.sampled_from(KINDS)), name=draw(TEXT), how=how)
        if how != "none":
            i = draw(TEXT)
            while i in used:
                i += "'"
            used.add(i)
            o["id"] = i
        out.append(o)
    return dict(objs=out)


def create(env, reg, o, **kw):
    k = o["k"]
    kw = dict(env=env, name=o["name"], **kw)
    at = sut.point(4, 52)
    if k == "logger":
        return sut.Logger(**kw)
    if k == "site":
        return sut.Site(geometry=at, capacity=5, **kw)
    if k == "multi":
        return sut.MultiSite(geometry=at, initials=[dict(id="a", capacity=3, level=1)], **kw)
    if k == "crane":
        return sut.Crane(geometry=at, loading_rate=1, unloading_rate=1, **kw)
    if k == "mover":
        return sut.Mover(geometry=at, v=1, **kw)
    if k == "plain":
        return sut.PlainVessel(geometry=at, v=1, capacity=3, loading_rate=1, unloading_rate=1, **kw)
    if k == "vessel":
        return sut.Vessel(geometry=at, compute_v=lambda x: 1, capacity=3, loading_rate=1, unloading_rate=1, **kw)
    kw["registry"] = reg
    cls = sut.activity_class(k)
    if k == "basic":
        return cls(duration=1, **kw)
    m = sut.Mover(env=env, name="m", id="own mover", geometry=at, v=1)
    s = sut.Site(env=env, name="s", id="own site", geometry=at, capacity=5)
    if k == "move":
        return cls(mover=m, destination=s, **kw)
    if k == "shift":
        v = sut.PlainVessel(env=env, name="v", id="own vessel", geometry=at, v=1, capacity=3, loading_rate=1, unloading_rate=1)
        return cls(processor=v, origin=v, destination=s, duration=1, amount=1, **kw)
    part = sut.model.BasicActivity(env=env, registry=reg, name="part", id="own part", duration=1)
    if k == "rep":
        return cls(sub_processes=[part], repetitions=1, **kw)
    if k == "while":
        return cls(sub_processes=[part], condition_event={"type": "time", "start_time": 0}, **kw)
    return cls(sub_processes=[part], **kw)


def run_objects(c):
    env, reg = sut.simpy.Environment(), {}
    made = []
    for o in c["objs"]:
        if o["how"] == "both":
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    create(env, reg, o, id=o["id"], ID=o["id"] + "x")
            except ValueError:
                continue
            expect(False, "%s accepts both id and ID", o["k"])
        kw = {} if o["how"] == "none" else {o["how"]: o["id"]}
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            x = create(env, reg, o, **kw)
        told = [w for w in seen if issubclass(w.category, DeprecationWarning) and "ID" in str(w.message)]
        if o["how"] == "ID":
            expect(told, "%s: no warning about the keyword ID", o["k"])
        else:
            expect(not told, "%s: warning %s", o["k"], [str(w.message) for w in told])
        expect(x.name == o["name"], "the name %r became %r", o["name"], x.name)
        if o["how"] != "none":
            expect(x.id == o["id"] and type(x.id) is str, "the id %r became %r", o["id"], x.id)
        else:
            expect(isinstance(x.id, str) and x.id, "generated id %r", x.id)
        made.append((x, x.id))
    ids = [i for _, i in made]
    expect(len(set(ids)) == len(ids), "ids are shared: %s", sorted(i for i in ids if ids.count(i) > 1))
    for x, i in made:
        expect(x.id == i, "the id of %s changed to %s", i, x.id)
    kinds = {o["k"] for o in c["objs"] if o["how"] != "both"}
    hows = {o["how"] for o in c["objs"]}
    return ["nontrivial"] if len(kinds) >= 3 and "none" in hows and hows & {"id", "ID"} else []


@st.composite
def programs(draw):
    p = draw(prog.programs(kinds=("basic", "basic", "move", "seq", "par", "rep", "while"), depth=2, start=0.6, explicit_ids=True, max_rep=3, delay=0.1, same=0.3))
    if draw(st.integers(0, 9)) < 4:
        # ids that are the names of other activities (or of the activity itself)
        nodes = list(prog.walk_nodes(p))
        given = [n for n in nodes if "id" in n]
        for n, name in zip(given, draw(st.permutations([n["n"] for n in nodes]))):
            n["id"] = name
    return dict(p=p)


def redirect(p, by):
    p = copy.deepcopy(p)
    todo = [e for n in prog.walk_nodes(p) for e in (n.get("st"), n.get("c")) if e]
    while todo:
        e = todo.pop()
        if "a" in e:
            e["by"] = by
        todo += [x for k in ("and", "or", "list") if k in e for x in e[k]]
    return p


def run_program(c):
    p = c["p"]
    prog.reference(p)
    before = None
    given = {n["n"]: n["id"] for n in prog.walk_nodes(p) if "id" in n}
    mixed = bool(set(given.values()) & {n["n"] for n in prog.walk_nodes(p)})
    # a name under the key ID (and the reverse) has a meaning as long as it is not the id of another one
    for by in (None, "name", "ID") + (() if mixed else ("name-by-ID", "ID-by-name")):
        boot.reset_uuid(3)
        b = prog.build(p if by is None else redirect(p, by))
        ids = {n: a.id for n, a in b.acts.items()}
        expect(len(set(ids.values())) == len(ids), "activities share an id")
        for n in prog.walk_nodes(p):
            if "id" in n:
                expect(ids[n["n"]] == n["id"], "activity %s with id %s has id %s", n["n"], n["id"], ids[n["n"]])
        sut.run_all(b.env)
        got = {}
        for n, a in b.acts.items():
            expect(a.id == ids[n], "the id of %s changed", n)
            rows = []
            for t, s, aid, lt, lr in sut.entries(a):
                expect(aid == ids[n], "log of %s (%s) has the id %s", n, ids[n], aid)
                if lt == "subprocess":
                    expect(lr in b.by_id, "log of %s refers to %s", n, lr)
                    lr = b.by_id[lr]
                rows.append((t, s, lt, lr))
            got[n] = rows
        for x in b.logs + [m for m, _ in b.movers.values()]:
            for t, s, aid, lt, lr in sut.entries(x):
                expect(aid in b.by_id, "log of %s has the unknown id %s", x.name, aid)
        if before is not None:
            for n in got:
                expect(got[n] == before[n], "referring by %s, log of %s is %s instead of %s", by, n, got[n], before[n])
        before = got
    used = {r for n in prog.walk_nodes(p) for e in (n.get("st"), n.get("c")) for r in prog.refs(e)}
    out = (["refers"] if used else []) + (["mixed"] if mixed else [])
    return out + (["nontrivial"] if used and given and len(given) < len(list(prog.walk_nodes(p))) else [])


@st.composite
def groups(draw):
    n = draw(st.integers(1, 4))
    return dict(members=[dict(d=draw(st.integers(0, 20)), id=draw(st.booleans()), st=draw(st.integers(0, 10))) for _ in range(n)],
                other=draw(st.integers(0, 30)), pick=draw(st.integers(0, n - 1)), by=draw(st.sampled_from(["name", "ID"])))


def run_group(c):
    """Activities of the same name, registered one after the other."""
    env, reg = sut.simpy.Environment(initial_time=50), {}
    acts = []
    for i, m in enumerate(c["members"]):
        kw = dict(id="member %d" % i) if m["id"] else {}
        a = sut.model.BasicActivity(env=env, registry=reg, name="same", duration=m["d"], start_event={"type": "time", "start_time": 50 + m["st"]}, **kw)
        sut.model.register_processes([a])
        acts.append(a)
    x = sut.model.BasicActivity(env=env, registry=reg, name="other", duration=c["other"])
    ref = dict(name="same") if c["by"] == "name" else dict(ID=acts[c["pick"]].id)
    w = sut.model.BasicActivity(env=env, registry=reg, name="waiting", duration=1, start_event={"type": "activity", "state": "done", **ref})
    sut.model.register_processes([x, w])
    sut.run_all(env)
    ends = [50 + m["st"] + m["d"] for m in c["members"]]
    want = max(ends) if c["by"] == "name" else ends[c["pick"]]
    got = [t for t, s, *_ in sut.entries(w) if s == "START"]
    expect(got == [want], "referring by %s to activities that end at %s, the waiting one starts at %s", c["by"], ends, got)
    return ["nontrivial"] if len(set(ends)) > 1 else []


@st.composite
def crowds(draw):
    return dict(n=draw(st.integers(40_000, 150_000)), k=draw(st.sampled_from(["plain", "logger", "basic"])), given=draw(st.integers(0, 50)))


def run_crowd(c):
    """Very many objects: no id is used twice."""
    env, reg = sut.simpy.Environment(), {}
    n = c["n"] if c["k"] == "plain" else c["n"] // 20
    ids = []
    for i in range(n):
        kw = dict(id=f"given {i}") if i < c["given"] else {}
        if c["k"] == "plain":
            x = sut.core.Identifiable(name="x", **kw)
        elif c["k"] == "logger":
            x = sut.Logger(env=env, name="x", **kw)
        else:
            x = sut.model.BasicActivity(env=env, registry=reg, name="x", duration=1, **kw)
        expect(not kw or x.id == kw["id"], "the id %s became %s", kw, x.id)
        ids.append(x.id)
    expect(len(set(ids)) == n, "%d objects have %d different ids", n, len(set(ids)))
    return ["nontrivial"] if c["k"] == "plain" else []


FACETS = [
    Facet("objects", lambda t: objects(), run_objects, 800, 20000, "objects and activities of all classes with and without ids"),
    Facet("program", lambda t: programs(), run_program, 500, 12000, "the same program referring by name and by id"),
    Facet("group", lambda t: groups(), run_group, 300, 4000, "activities that share a name: a reference by name means all of them, by id one"),
    Facet("many", lambda t: crowds(), run_crowd, 16, 200, "very many objects of one kind: no id is used twice"),
]
