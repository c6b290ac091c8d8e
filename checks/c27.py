"""C27 recorded activities for critical-path analysis match the logs one to one."""
import collections

from hypothesis import strategies as st

from vlib import cp, fleet, prog
from vlib.runner import Facet, expect

RULE = "non-trivial: at least two plotted objects or activities with at least six executions of which one activity ran more than once"
ASSUMPTIONS = ["simulations that ran to their end", "executions of one activity with the same start and the same end are one execution"]


def judge(m, known=False):
    from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities

    d = DependenciesFromRecordedActivities(m.env, m.objects, m.tops)
    df = d.get_recorded_activity_df()
    got, rows = cp.table(df)
    want = collections.defaultdict(list)
    structural = set()
    for o in m.objects:
        for i, kind, a, b, _ in cp.intervals(o):
            want[o.name, i].append((kind, a, b))
    for i, act in m.acts.items():
        for j, kind, a, b, ref in cp.intervals(act):
            want["Activity", j].append((kind, a, b))
            if i not in m.leaf:
                structural.add(j)
    for k in set(got) | set(want):
        g, w = sorted(got.get(k, [])), sorted(want.get(k, []))
        name = m.acts[k[1]].name if k[1] in m.acts else k[1]
        if g == w:
            continue
        if k[0] == "Activity" and k[1] in structural and not known:
            # known finding: parts of one activity are paired by the order of their starts and stops
            expect(g == sorted(cp.in_order(w)), "activity %s with parts: recorded %s, logged %s", name, g, w)
            continue
        extra, missing = [x for x in g if x not in w], [x for x in w if x not in g]
        expect(False, "%s, activity %s: recorded rows %s that were not logged, logged %s not recorded (%d rows, %d logged)", k[0], name,
               extra[:2], missing[:2], len(g), len(w))
    execs = collections.defaultdict(set)
    for r in rows:
        expect(r["name"] == m.acts[r["id"]].name, "activity %s is called %s", m.acts[r["id"]].name, r["name"])
        expect(abs(r["duration"].total_seconds() - (r["end"] - r["start"]).total_seconds()) < 1e-6, "%s - %s lasts %s", r["start"], r["end"], r["duration"])
        execs[r["cp"]].add((r["id"], r["start"], r["end"]))
    for c, e in execs.items():
        expect(len(e) == 1, "executions %s share the id %s", e, c)
    per = collections.defaultdict(set)
    for r in rows:
        per[r["id"], r["start"], r["end"]].add(r["cp"])
    for e, c in per.items():
        expect(len(c) == 1, "one execution %s has the ids %s", e, c)
    many = any(sum(1 for s, *_ in v if s == "ACTIVE") > 1 for k, v in want.items() if k[1] in m.leaf)
    n = sum(len(v) for k, v in want.items() if k[0] != "Activity")
    shared = any(len({r["obj"] for r in rows if r["cp"] == c}) > 2 for c in list(execs)[:20])
    return (["repeated"] if many else []) + (["shared"] if shared else []) + (["nontrivial"] if many and n >= 6 else [])


@st.composite
def programs(draw):
    p = draw(prog.programs(kinds=("basic", "basic", "move", "seq", "par", "rep", "while"), depth=2, start=0.3, delay=0.2, plugins=0.1, max_rep=3, explicit_ids=True, same=0.4,
                           root=draw(st.sampled_from([None, "rep"])), dur=draw(st.sampled_from([cp.POSITIVE, cp.POSITIVE, None]))))
    if draw(st.booleans()):
        # waits of no length between executions, or none at all
        for n in prog.walk_nodes(p):
            if "s" not in n and not n.get("pl") and draw(st.booleans()):
                n["dl"] = draw(st.sampled_from([0, 0, None]))
    return dict(p=p)


@st.composite
def moments(draw):
    """Activities that run again and again at one moment"""
    p = draw(prog.programs(kinds=("basic", "basic", "basic", "move", "seq"), depth=1, start=0.1, width=3, max_rep=4, logs=2, explicit_ids=True, same=0.6,
                           root="rep", dur=st.sampled_from([0, 0, 0, 1, 2, 0.25])))
    return dict(p=p)


def run_program(c):
    m = cp.of_program(c["p"])
    if not any(o.logbook for o in m.objects):
        return []
    return judge(m, c.get("known", False))


def run_fleet(spec):
    return judge(cp.of_fleet(spec), False)


FACETS = [
    Facet("program", lambda t: programs(), run_program, 500, 9000, "logs of activities, movers and listeners against the table"),
    Facet("moments", lambda t: moments(), run_program, 250, 4000, "repetitions of activities of no length"),
    Facet("fleet", lambda t: fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3, plugins=0.1, delay=0.3, site_slots=st.sampled_from([1, 1, 2])), run_fleet,
          250, 5000, "logs of sites, vessels and cranes against the table"),
]
