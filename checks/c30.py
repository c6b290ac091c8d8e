"""C30 dependency-recording environments do not disturb and record true causes."""
import collections
import copy

from hypothesis import strategies as st

from vlib import boot, cp, fleet, prog, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: at least six executions that take time and four dependencies (same: eight log entries)"
ASSUMPTIONS = ["waits of plugins are logged (as those of the delay plugin are)", "when several executions end at the same moment any of them may be recorded as the cause", "runs to the end"]


def critical_env(t0):
    from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment

    return CriticalPathEnvironment(initial_time=t0)


# ---------------------------------------------------------------- the same logs
def logs_of(m, extra=()):
    out = {}
    for a in m.acts.values():
        out["activity " + a.name] = [(e["Timestamp"], e["ActivityState"], m.acts[e["ActivityID"]].name, sorted((k, named(m, v)) for k, v in e["ActivityLabel"].items()))
                                     for e in a.logbook]
    for o in m.objects:
        out["object " + o.name] = [(e["Timestamp"], e["ActivityState"], m.acts[e["ActivityID"]].name, sorted((k, named(m, v)) for k, v in e["ActivityLabel"].items()),
                                    str(sorted(e["ObjectState"].items(), key=lambda kv: kv[0]))) for e in o.logbook]
    return out


def named(m, v):
    return m.acts[v].name if v in m.acts else v


def same(a, b):
    x, y = logs_of(a), logs_of(b)
    expect(set(x) == set(y), "other objects")
    for k in x:
        if x[k] != y[k]:
            i = next((i for i, (p, r) in enumerate(zip(x[k], y[k])) if p != r), min(len(x[k]), len(y[k])))
            expect(False, "log of %s, entry %d: %s in simpy.Environment, %s in CriticalPathEnvironment (%d and %d entries)", k, i, x[k][i:i + 1], y[k][i:i + 1], len(x[k]), len(y[k]))
    n = sum(len(v) for v in x.values())
    return ["nontrivial"] if n >= 8 else []


@st.composite
def any_programs(draw):
    p = draw(prog.programs(kinds=("basic", "basic", "move", "seq", "par", "rep", "while"), depth=2, start=0.4, delay=0.2, plugins=0.2, max_rep=3, explicit_ids=True, conts=draw(st.booleans())))
    return dict(p=p, until=draw(st.one_of(st.none(), st.none(), st.integers(0, 160).map(lambda k: p["t0"] + k / 4))))


def run_same(c):
    boot.reset_uuid(1)
    a = cp.of_program(c["p"], until=c["until"])
    boot.reset_uuid(1)
    b = cp.of_program(c["p"], env=critical_env(c["p"]["t0"]), until=c["until"])
    out = same(a, b)
    if c["until"] is not None:
        out.append("cut off")
    return out


def run_same_fleet(spec):
    boot.reset_uuid(1)
    a = cp.of_fleet(spec)
    boot.reset_uuid(1)
    return same(a, cp.of_fleet(spec, env=critical_env(spec["t0"])))


# ---------------------------------------------------------------- the dependencies
@st.composite
def programs(draw):
    p = draw(prog.programs(kinds=("basic", "basic", "move", "seq", "seq", "par", "rep", "while"), depth=2, start=0.4, delay=0.2, max_rep=3, explicit_ids=True,
                           root=draw(st.sampled_from([None, "seq", "rep"])), dur=draw(st.sampled_from([cp.POSITIVE, cp.POSITIVE, None]))))
    return dict(p=p)


@st.composite
def many(draw):
    """Many independent processes at the same time."""
    nl = draw(st.integers(1, 3))
    leaf = st.tuples(st.sampled_from([1, 1, 2, 3, 0.5]), st.integers(0, 5))
    acts = []
    for kind, parts, r, e in draw(st.lists(st.tuples(st.sampled_from(["seq", "seq", "seq", "rep", "basic"]), st.lists(leaf, min_size=2, max_size=3), st.integers(1, 3),
                                                     st.one_of(st.none(), st.none(), st.none(), prog.exprs(0))), min_size=9, max_size=24)):
        parts = [{"k": "basic", "d": d, "st": None, "al": [] if k == 5 else [k % nl]} for d, k in parts]
        if kind == "basic":
            parts[0]["st"] = e
            acts.append(parts[0])
        else:
            acts.append({"k": kind, "s": parts, "st": e, "r": r})
    p = {"t0": draw(prog.epochs()), "logs": nl, "acts": acts}
    prog.normalise(p)
    p["order"] = draw(st.permutations(list(range(len(acts)))))
    return dict(p=p)


@st.composite
def crowds(draw):
    """A few small processes, each of them many times over."""
    c = draw(many())
    p = c["p"]
    n = draw(st.integers(70, 160))
    few = p["acts"][: draw(st.integers(2, 4))]
    names = {x["n"] for x in prog.walk_nodes({"acts": few})}
    for x in prog.walk_nodes({"acts": few}):
        if not set(prog.refs(x.get("st"))) <= names:
            x["st"] = None
    # (names are given anew; references mean the first ones)
    acts = few + [copy.deepcopy(few[i % len(few)]) for i in range(n - len(few))]
    for i, a in enumerate(acts[len(few):]):
        for x in prog.walk_nodes({"acts": [a]}):
            x["n"] = "%s copy %d" % (x["n"], i)
    size = lambda a: 1 + a.get("r", 1) * len(a.get("s", ()))  # noqa: E731
    while sum(map(size, acts)) > 550:
        del acts[-10:]
    p["acts"] = acts
    n = len(acts)
    p["order"] = list(range(n)) if draw(st.booleans()) else list(range(n))[::-1]
    return c


EMPTY = "empty"


def must(p):
    """Links between executions that one directly follows or is released by the other.  An execution is (name, start, end)."""
    ref = prog.reference(p)
    links, memo = set(), {}

    def chain(items, prev=EMPTY):
        """(first executions or EMPTY, last execution, EMPTY or None when unknown)"""
        first, last = EMPTY, EMPTY
        for f, l in items:
            if f == EMPTY and l == EMPTY:
                continue
            if first == EMPTY:
                first = f
            elif last not in (None, EMPTY):
                links.update((last, x) for x in f)
            last = l
        return first, last

    def seg(inst, a, b):
        s = (inst.node["n"], prog.q(a), prog.q(b))
        return ([s], s) if b > a else (EMPTY, EMPTY)

    def analyse(inst):
        if id(inst) in memo:
            return memo[id(inst)]
        k = inst.node["k"]
        if k in ("basic", "move"):
            items = [seg(inst, inst.start(), inst.stop())]
        elif k == "par":
            kids = [inst.kid(0, i) for i in range(len(inst.node["s"]))]
            res = [analyse(c) for c in kids]
            firsts = [x for f, _ in res if f != EMPTY for x in f]
            ends = [l for c, (_, l) in zip(kids, res) if c.done() == inst.stop()]
            if all(r == (EMPTY, EMPTY) for r in res):
                items = []
            else:
                items = [(firsts, ends[0] if len(ends) == 1 and ends[0] != EMPTY else None)]
        else:
            items = [analyse(inst.kid(it, i)) for it in range(inst.iterations()) for i in range(len(inst.node["s"]))]
        after = inst.after()
        items += [seg(inst, a, b) for a, b in zip(after, after[1:])]
        first, last = chain(items)
        if inst.released() > inst.due():
            e = inst.node["st"]
            if "a" in e and first != EMPTY:
                cause = analyse(inst.find(e["a"]))[1]
                if cause not in (None, EMPTY):
                    links.update((cause, x) for x in first)
            if first == EMPTY:
                last = None
            first = []
        elif inst.node.get("st") is not None and inst.occurs(inst.node["st"], inst.reg()) == inst.due():
            # its turn and the start event at the same moment: either may be recorded as the cause
            if first == EMPTY:
                last = None
            first = []
        memo[id(inst)] = first, last
        return first, last

    for top in ref.tops:
        analyse(top)
    return links


def times_in(e):
    return e is not None and ("t" in e or any(times_in(x) for k in ("and", "or", "list") if k in e for x in e[k]))


def clocked(tops, nodes):
    """Whether an activity may start at a moment of the clock that is recorded nowhere."""
    tops = [n["n"] for n in tops]
    return any(times_in(n.get("st")) and not (n["n"] in tops and "t" in n["st"]) for n in nodes)


def judge(m, links=(), complete=False):
    from openclsim.critical_path.dependencies_from_simpy_step import DependenciesFromSimpy

    d = DependenciesFromSimpy(m.env, m.objects, m.tops)
    deps = d.get_dependency_list()
    _, rows = cp.table(d.get_recorded_activity_df())
    execs = {r["cp"]: r for r in rows}
    label = lambda i: "%s %s-%s" % (execs[i]["name"], sut.secs(execs[i]["start"]), sut.secs(execs[i]["end"]))
    for a, b in deps:
        expect(a in execs and b in execs, "a dependency of executions that were not recorded")
        expect(a != b, "%s depends on itself", label(a))
        expect(execs[a]["end"] == execs[b]["start"], "%s depends on %s", label(b), label(a))
        expect(execs[a]["start"] < execs[a]["end"] and execs[b]["start"] < execs[b]["end"], "%s depends on %s", label(b), label(a))
    expect(len(set(deps)) == len(deps), "a dependency is listed twice")
    ids = collections.defaultdict(set)
    for r in rows:
        ids[r["name"], sut.secs(r["start"]), sut.secs(r["end"])].add(r["cp"])
    have = {((execs[a]["name"], sut.secs(execs[a]["start"]), sut.secs(execs[a]["end"])), (execs[b]["name"], sut.secs(execs[b]["start"]), sut.secs(execs[b]["end"])))
            for a, b in deps}
    for a, b in links:
        expect(ids[a] and ids[b], "%s or %s is not recorded", a, b)
        expect((a, b) in have, "%s follows %s but this dependency is missing; dependencies of it: %s", b, a, [x for x, y in have if y == b])
    if complete:
        caused = {b for _, b in deps}
        for o in list(m.acts.values()):
            if o.id in m.leaf:
                for i, kind, a, b, _ in cp.intervals(o):
                    if kind == "ACTIVE" and a < b and sut.secs(a) > prog.q(m.t0):
                        c = ids[o.name, sut.secs(a), sut.secs(b)]
                        expect(c & caused, "nothing is recorded as the cause of %s %s-%s", o.name, a, b)
    if any(r["end"] > r["start"] for r in rows):
        expect(d.get_critical_path_df()["is_critical"].any(), "no execution is critical")
    long = {c for c, r in execs.items() if r["end"] > r["start"]}
    return (["linked"] if links else []) + (["nontrivial"] if len(long) >= 6 and len(deps) >= 4 else [])


def run_program(c):
    links = must(c["p"])
    m = cp.of_program(c["p"], env=critical_env(c["p"]["t0"]))
    if not any(o.logbook for o in m.objects):
        return []
    return judge(m, links, not clocked(c["p"]["acts"], prog.walk_nodes(c["p"])))


def run_fleet(spec):
    return judge(cp.of_fleet(spec, env=critical_env(spec["t0"])), (), not clocked(spec["jobs"], fleet.walk(spec["jobs"])))


def plain(spec):
    for n in fleet.walk(spec["jobs"]):
        n.pop("pl", None)
    return spec


FACETS = [
    Facet("same", lambda t: any_programs(), run_same, 250, 6000, "programs in both environments, also cut off"),
    Facet("same fleet", lambda t: fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3, plugins=0.1, delay=0.2), run_same_fleet, 80, 2000,
          "fleets in both environments"),
    Facet("program", lambda t: programs(), run_program, 400, 8000, "dependencies of programs against the reference interpretation"),
    Facet("many", lambda t: many(), run_program, 60, 2000, "dependencies of many simultaneous processes against the reference interpretation"),
    Facet("crowd", lambda t: crowds(), run_program, 16, 500, "dependencies of a hundred simultaneous processes against the reference interpretation"),
    Facet("fleet", lambda t: fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3, delay=0.2).map(plain), run_fleet, 100, 2500,
          "dependencies of fleets connect recorded executions in time"),
]
