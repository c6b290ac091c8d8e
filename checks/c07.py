"""C07 event expressions mean what their and/or/list structure says."""
import math

from hypothesis import strategies as st

from vlib import prog, sut
from vlib.runner import Facet, Violation, expect

RULE = "non-trivial: an expression with and/or/list over at least two elementary conditions that occur at different times"
ASSUMPTIONS = ["level changes are awaited one by one and never coincide with other events"]


@st.composite
def flat(draw):
    """Independent basic activities whose start events refer to containers, times and each other (never a cycle)."""
    p = {"t0": draw(prog.epochs()), "logs": 0, "acts": []}
    prog.draw_containers(draw, p)
    n = draw(st.integers(1, 7))
    for i in range(n):
        e = draw(prog.exprs(3, True, True, True))
        p["acts"].append({"k": "basic", "d": draw(prog.quarters()), "n": f"a{i}", "st": e, "al": []})
    for i, a in enumerate(p["acts"]):
        a["st"] = prog._resolve(a["st"], [f"a{j}" for j in range(i)], p["t0"], p["cont"])
    p["order"] = draw(st.permutations(list(range(n))))
    return p


def leaves(e):
    for key in ("and", "or", "list"):
        if key in e:
            return [x for y in e[key] for x in leaves(y)]
    return [e]


class Ref(prog.Reference):
    """As prog.Reference, but waiting for ever is allowed."""

    def __init__(self, p):
        self.prog, self.t0, self.limit, self.count, self.ties, self.ambiguous = p, p["t0"], 10**6, 0, 0, 0
        self.paths, self.nodes = {}, {}
        for i, n in enumerate(p["acts"]):
            self._index(n, (i,))
        self.tops = [prog.Inst(self, n, None, 0, i) for i, n in enumerate(p["acts"])]

    def holds(self, c, since):
        try:
            return super().holds(c, since)
        except prog.Never:
            return math.inf


def run_flat(p):
    ref = Ref(p)
    b = prog.run(p)
    labels = set()
    for t in ref.tops:
        act = b.acts[t.node["n"]]
        got = [(x, s) for x, s, _, lt, _ in sut.entries(act) if lt is None]
        if t.released() == math.inf:
            labels.add("never")
            expect(not [x for x in got if x[1] != "WAIT_START"], "%s started although its start event never occurs: %s (expression %s)",
                   t.node["n"], got, t.node["st"])
            continue
        want = [(prog.q(x), s) for x, s, _, _ in t.log()]
        expect(got == want, "%s with start event %s logged %s instead of %s", t.node["n"], t.node["st"], got, want)
        if t.node["st"] is not None:
            ls = leaves(t.node["st"])
            times = {t.occurs(x, p["t0"]) for x in ls}
            if len(ls) > 1:
                labels.add("composite")
                if len(times) > 1:
                    labels.add("nontrivial")
            if any("c" in x for x in ls):
                labels.add("container")
    return sorted(labels)


@st.composite
def same_name(draw):
    """Activities registered one after another under few names and ids: completion means completion of all of them."""
    n = draw(st.integers(2, 6))
    acts = [dict(name=draw(st.sampled_from(["A", "B", "C"])), d=draw(prog.quarters()), t=draw(prog.quarters())) for _ in range(n)]
    return dict(acts=acts, ref=draw(st.integers(0, n - 1)), by=draw(st.sampled_from(["name", "ID", "idname"])),
                how=draw(st.sampled_from(["start", "while"])))


def run_same(c):
    env = sut.simpy.Environment()
    reg = {}
    acts = []
    for i, a in enumerate(c["acts"]):
        x = sut.model.BasicActivity(env=env, registry=reg, name=a["name"], id=f"id{i}", duration=a["d"],
                                    start_event={"type": "time", "start_time": a["t"]})
        sut.model.register_processes([x])
        acts.append(x)
    target = c["acts"][c["ref"]]
    if c["by"] == "name":
        e = {"type": "activity", "state": "done", "name": target["name"]}
        want = max(a["t"] + a["d"] for a in c["acts"] if a["name"] == target["name"])
    else:
        e = {"type": "activity", "state": "done", "ID": f"id{c['ref']}"}
        if c["by"] == "idname":
            e["name"] = "no such name"  # the id decides
        want = target["t"] + target["d"]
    z = sut.model.BasicActivity(env=env, registry=reg, name="waiting", duration=1, start_event=e)
    sut.model.register_processes([z])
    sut.run_all(env)
    got = [t for t, s, *_ in sut.entries(z) if s == "START"]
    expect(got == [want], "waiting for %s: started at %s instead of %s", e, got, want)
    many = len([a for a in c["acts"] if a["name"] == target["name"]]) > 1
    return ["nontrivial"] if many else []


BAD_LEAVES = [
    {"type": "container", "concept": 0, "state": "overflowing"},
    {"type": "container", "concept": 0, "state": "eq", "level": 3},
    {"type": "container", "concept": 0, "state": "ge"},
    {"type": "container", "concept": 0},
    {"type": "container", "state": "full"},
    {"type": "activity", "state": "started", "name": "a0"},
    {"type": "activity", "name": "a0"},
    {"type": "activity", "state": "done", "name": "nobody"},
    {"type": "activity", "state": "done", "ID": "nobody"},
    {"type": "activity", "state": "done"},
    {"type": "weather", "state": "done"},
    {"type": "Time", "start_time": 5},
    {"state": "full", "concept": 0},
    {},
    {"xor": [{"type": "time", "start_time": 5}]},
    "a0", 7, 3.5, True,
]
GOOD_LEAVES = [
    {"type": "time", "start_time": 3},
    {"type": "activity", "state": "done", "name": "a0"},
    {"type": "container", "concept": 0, "state": "full"},
    {"type": "container", "concept": 0, "state": "ge", "level": 2},
]


@st.composite
def malformed(draw):
    bad = draw(st.sampled_from(BAD_LEAVES))
    e = bad
    depth = draw(st.integers(0, 3))
    for _ in range(depth):
        sibs = draw(st.lists(st.sampled_from(GOOD_LEAVES), max_size=2))
        sibs.insert(draw(st.integers(0, len(sibs))), e)
        k = draw(st.sampled_from(["and", "or", "list"]))
        e = sibs if k == "list" else {k: sibs}
    return dict(e=e, use=draw(st.sampled_from(["start", "while", "nested", "parse"])))


def run_malformed(c):
    env = sut.simpy.Environment()
    reg = {}
    store = sut.Site(env=env, name="store", geometry=sut.point(4, 52), capacity=5, level=1)

    def fill(e):
        if isinstance(e, list):
            return [fill(x) for x in e]
        if isinstance(e, dict):
            return {k: (store if k == "concept" else fill(v) if k in ("and", "or", "xor") else v) for k, v in e.items()}
        return e

    e = fill(c["e"])
    B = sut.model.BasicActivity
    a0 = B(env=env, registry=reg, name="a0", duration=2)
    try:
        if c["use"] == "parse":
            sut.model.register_processes([a0])
            a0.parse_expression(e)
        elif c["use"] == "start":
            x = B(env=env, registry=reg, name="x", duration=1, start_event=e)
            sut.model.register_processes([a0, x])
            sut.run_all(env)
        elif c["use"] == "nested":
            x = B(env=env, registry=reg, name="x", duration=1, start_event=e)
            s = sut.model.SequentialActivity(env=env, registry=reg, name="s", sub_processes=[x])
            sut.model.register_processes([a0, s])
            sut.run_all(env)
        else:
            x = B(env=env, registry=reg, name="x", duration=1)
            w = sut.model.WhileActivity(env=env, registry=reg, name="w", sub_processes=[x], condition_event=e)
            sut.model.register_processes([a0, w])
            sut.run_all(env, max_events=5000)
    except Violation:
        raise
    except Exception:
        return ["nontrivial"] if c["e"] != {} else []
    raise Violation(f"expression {c['e']} used in {c['use']} is accepted silently")


FACETS = [
    Facet("flat", lambda t: flat(), run_flat, 2000, 40000, "start events of independent activities against their boolean meaning"),
    Facet("tree", lambda t: prog.programs(kinds=("basic", "seq", "par", "rep", "while"), start=0.6, conts=True, cond_depth=1, raw=True),
          lambda p: (prog.run_and_compare(p), ["nontrivial"])[1], 800, 15000, "expressions inside trees"),
    Facet("names", lambda t: same_name(), run_same, 400, 6000, "several activities under one name"),
    Facet("malformed", lambda t: malformed(), run_malformed, 500, 6000, "expressions with an invalid part anywhere"),
]
