"""C01 basic activities take exactly their duration and are logged everywhere once."""
from hypothesis import strategies as st

from vlib import prog, sut
from vlib.runner import Facet, expect

RULE = ("a case is non-trivial when some basic activity with an additional log or a non-integer or zero duration runs "
        "inside another activity or more than once")
ASSUMPTIONS = ["additional logs are objects with a log; an object is listed at most once per activity"]


def odd_durations():
    return st.one_of(prog.quarters(), st.sampled_from([0, 0.5, 1 / 3, 0.1, 1e-6, 86400, 1e7, 123456.789]),
                     st.floats(0, 5000, allow_nan=False).map(lambda x: round(x, 6)))


def run_tree(p):
    b, ref = prog.run_and_compare(p, [n["n"] for n in prog.walk_nodes(p) if n["k"] == "basic"])
    prog.check_additional_logs(b, ref)
    ex = prog.ref_execs(ref)
    basics = [n for n in prog.walk_nodes(p) if n["k"] == "basic"]
    labels = []
    if any(n.get("al") for n in basics):
        labels.append("additional")
    if any(len(ex[n["n"]]) > 1 for n in basics):
        labels.append("repeated")
    if any(n["d"] == 0 for n in basics):
        labels.append("zero")
    if any(n["d"] != int(n["d"]) for n in basics):
        labels.append("fractional")
    if any(i.released() > i.due() for n in basics for i in ex[n["n"]]):
        labels.append("waited")
    if {"additional", "fractional", "zero"} & set(labels) and (len(p["acts"]) < ref.count):
        labels.append("nontrivial")
    return labels


def trees(tier):
    return prog.programs(kinds=("basic", "seq", "par", "rep"), depth=3, start=0.25, logs=3, explicit_ids=True)


def odd(tier):
    return prog.programs(kinds=("basic", "basic", "seq", "rep"), depth=2, start=0, logs=3, dur=DUR, stretch=0)


DUR = odd_durations()


# the objects that listen have a state of their own, and one object listens to many activities at once
@st.composite
def shared(draw):
    n = draw(st.integers(1, 6))
    objs = draw(st.lists(st.sampled_from(["site", "vessel", "logger", "activity"]), min_size=1, max_size=4))
    acts = [dict(d=draw(prog.quarters()), t=draw(prog.quarters()),
                 al=draw(st.lists(st.integers(0, len(objs) - 1), unique=True, max_size=len(objs)))) for _ in range(n)]
    # (objects may share a name)
    return {"t0": draw(prog.epochs()), "objs": objs, "acts": acts, "names": draw(st.lists(st.sampled_from(["o", "o", "p"]) | st.none(), min_size=4, max_size=4))}


def run_shared(c):
    env = sut.simpy.Environment(initial_time=c["t0"])
    reg = {}
    objs = []
    for i, k in enumerate(c["objs"]):
        name = c.get("names", [None] * 9)[i] or f"o{i}"
        if k == "site":
            o = sut.Site(env=env, name=name, geometry=sut.point(4, 52), capacity=10, level=3)
        elif k == "vessel":
            o = sut.PlainVessel(env=env, name=name, geometry=sut.point(4, 52), capacity=10, level=3, v=1,
                                loading_rate=1, unloading_rate=1)
        elif k == "activity":
            o = sut.model.BasicActivity(env=env, registry=reg, name=f"o{i}", duration=1)
        else:
            o = sut.Logger(env=env, name=name)
        objs.append(o)
    acts = []
    for i, a in enumerate(c["acts"]):
        acts.append(sut.model.BasicActivity(
            env=env, registry=reg, name=f"a{i}", duration=a["d"], additional_logs=[objs[j] for j in a["al"]],
            start_event={"type": "time", "start_time": c["t0"] + a["t"]}))
    sut.model.register_processes(acts)
    sut.run_all(env)
    for i, (a, act) in enumerate(zip(c["acts"], acts)):
        rows = []
        t = c["t0"]
        if a["t"] > 0:
            rows += [(t, "WAIT_START"), (t + a["t"], "WAIT_STOP")]
        rows += [(t + a["t"], "START"), (t + a["t"] + a["d"], "STOP")]
        rows = [(prog.q(x), s) for x, s in rows]
        own = [(x, s) for x, s, aid, lt, lr in sut.entries(act)]
        expect(own == rows, "activity a%d logged %s instead of %s", i, own, rows)
        for j, o in enumerate(objs):
            got = [(x, s) for x, s, aid, lt, lr in sut.entries(o) if aid == act.id]
            expect(got == (rows if j in a["al"] else []), "object o%d logged %s for a%d", j, got, i)
            for x, s, aid, lt, lr in sut.entries(o):
                if aid == act.id:
                    expect((lt, lr) == ("additional log", act.id), "label %s/%s in the log of o%d", lt, lr, j)
    return ["nontrivial"] if any(len(a["al"]) > 1 for a in c["acts"]) and len(acts) > 1 else []


FACETS = [
    Facet("tree", trees, run_tree, 1600, 30000, "trees of activities with additional logs against the reference interpreter"),
    Facet("durations", odd, run_tree, 800, 15000, "arbitrary fractional, tiny and huge durations"),
    Facet("shared", lambda tier: shared(), run_shared, 800, 15000, "sites, vessels and activities as additional logs"),
]
