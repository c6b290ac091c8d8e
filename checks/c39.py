"""C39 the critical-path analysis is one consistent answer, and its chart shows exactly that."""
import collections
import itertools

from hypothesis import strategies as st

from vlib import charts, cp, fleet, prog
from vlib.runner import Facet, Skip, expect
from checks.c26 import drawn, stamp
from checks.c30 import critical_env

RULE = "non-trivial: at least six bars on two rows, of which some but not all are critical"
ASSUMPTIONS = ["some execution takes time", "DependenciesFromModel is an empty skeleton in the code and is not analysed"]
CALLS = ("recorded", "dependencies", "critical", "chart")


def rows_of(df, ids=None):
    """A table as a multiset, without the generated ids of executions"""
    out = collections.Counter()
    for r in df.to_dict("records"):
        out[r["SimulationObject"], r["ActivityID"], r["Activity"], r["state"], stamp(r["start_time"]), stamp(r["end_time"]), r["duration"], r.get("is_critical")] += 1
    return out


def ask(d, call):
    return {"recorded": d.get_recorded_activity_df, "dependencies": d.get_dependency_list, "critical": d.get_critical_path_df,
            "chart": lambda: d.make_plotly_gantt_chart(static=True)}[call]()


def deps_of(d):
    """Dependencies between executions"""
    _, rows = cp.table(d.get_recorded_activity_df())
    key = {r["cp"]: (r["id"], r["start"], r["end"]) for r in rows}
    return collections.Counter((key[a], key[b]) for a, b in d.get_dependency_list())


def judge(m, cls, calls, show=False):
    from openclsim.critical_path.simulation_graph import SimulationGraph

    plain = cls(m.env, m.objects, m.tops)
    df = plain.get_recorded_activity_df()
    if not any(d.total_seconds() > 0 for d in df.duration):
        raise Skip("nothing takes time")
    crit = rows_of(plain.get_critical_path_df())
    rec, deps = rows_of(plain.get_recorded_activity_df()), deps_of(plain)

    # the same answers in whatever order they are asked for, and when asked again
    d = cls(m.env, m.objects, m.tops)
    got = {}
    for call in calls:
        x = ask(d, call)
        if call == "recorded":
            expect(rows_of(x) == rec, "the recorded executions differ after %s", calls)
        if call == "critical":
            expect(rows_of(x) == crit, "the critical path differs when asked for in the order %s", calls)
        if call == "dependencies":
            got.setdefault(call, list(x))
            expect(sorted(map(str, x)) == sorted(map(str, got[call])), "the dependencies differ when asked for again")
    expect(deps_of(d) == deps, "the dependencies differ when asked for in the order %s", calls)

    # critical are the executions on a longest chain of exactly these executions and dependencies
    cdf = d.get_critical_path_df()
    again = set(SimulationGraph(d.get_recorded_activity_df(), d.get_dependency_list()).get_list_critical_activities())
    marked = {r["cp_activity_id"] for r in cdf.to_dict("records") if r["is_critical"]}
    expect(marked == again, "%d executions are marked as critical, %d are by the dependencies", len(marked), len(again))
    expect(bool(marked), "nothing is critical")

    # the chart
    chart = charts.shown(d.make_plotly_gantt_chart) if show else ask(d, "chart")
    traces = chart["data"]
    main = [t for t in traces if t.name == "critical_path"]
    expect(len(main) == 1, "%d traces are called critical_path", len(main))
    red, rest = drawn(dict(data=main)), drawn(dict(data=[t for t in traces if t.name != "critical_path"]))
    want_red, want = collections.Counter(), collections.Counter()
    for (o, i, a, s, t1, t2, dur, c), n in crit.items():
        want[a, o, t1, t2] += n
        if c:
            want_red[o, t1, t2] += n
    got_red = collections.Counter((o, *b) for (_, o), bars in red.items() for b in bars)
    got = collections.Counter((a, o, *b) for (a, o), bars in rest.items() for b in bars)
    expect(got_red == want_red, "the critical path is drawn as %s, the table has %s", dict((got_red - want_red)), dict(want_red - got_red))
    expect(got == want, "bars %s are drawn without a row, rows %s without a bar", dict(got - want), dict(want - got))
    lo, hi = (stamp(x) for x in chart["layout"].xaxis.range)
    expect(all(lo <= k[2] and k[3] <= hi for k in want), "bars lie outside the plotted range %s", (lo, hi))
    colors = collections.defaultdict(set)
    for t in traces:
        colors[t.name == "critical_path"].add(t.line.width)
    expect(min(colors[True]) > max(colors[False]), "the critical path is hidden behind the bars")
    n = sum(want.values())
    return ["nontrivial"] if n >= 6 and len({k[1] for k in want}) >= 2 and 0 < sum(want_red.values()) < n else []


def calls():
    return st.permutations(CALLS).flatmap(lambda p: st.lists(st.sampled_from(CALLS), max_size=3).map(lambda x: list(p) + x))


@st.composite
def programs(draw):
    p = draw(prog.programs(kinds=("basic", "basic", "move", "seq", "par", "rep", "while"), depth=2, start=0.3, delay=0.1, max_rep=3, logs=3,
                           dur=draw(st.sampled_from([cp.POSITIVE, cp.POSITIVE, None]))))
    p["logs"] = max(1, p["logs"])
    for n in prog.walk_nodes(p):
        if n["k"] == "basic" and not n.get("al"):
            n["al"] = [draw(st.integers(0, p["logs"] - 1))]
    return dict(p=p, simpy=draw(st.booleans()), calls=draw(calls()), show=draw(st.sampled_from([False] * 5 + [True])))


@st.composite
def fleets(draw):
    return dict(spec=draw(fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3, delay=0.2, site_slots=st.sampled_from([1, 1, 2]))),
                simpy=draw(st.booleans()), calls=draw(calls()), show=draw(st.sampled_from([False] * 5 + [True])))


def analysis(c, t0):
    if c["simpy"]:
        from openclsim.critical_path.dependencies_from_simpy_step import DependenciesFromSimpy

        return DependenciesFromSimpy, critical_env(t0)
    from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities

    return DependenciesFromRecordedActivities, None


def run_program(c):
    cls, env = analysis(c, c["p"]["t0"])
    m = cp.of_program(c["p"], env=env)
    if not any(o.logbook for o in m.objects):
        raise Skip("no object recorded anything")
    return judge(m, cls, c["calls"], c.get("show", False)) + (["simpy"] if env else [])


def run_fleet(c):
    cls, env = analysis(c, c["spec"]["t0"])
    return judge(cp.of_fleet(c["spec"], env=env), cls, c["calls"], c.get("show", False)) + (["simpy"] if env else [])


FACETS = [
    Facet("program", lambda t: programs(), run_program, 300, 6000, "programs on listeners and movers"),
    Facet("fleet", lambda t: fleets(), run_fleet, 150, 3000, "fleets on sites, vessels and cranes"),
]
