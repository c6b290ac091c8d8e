"""C29 dependencies inferred from logs follow the documented rule, and the critical path computed from them."""
import collections
import datetime

from hypothesis import strategies as st

from vlib import cp, fleet, prog
from vlib.runner import Facet, Skip, expect

RULE = "non-trivial: at least six executions on objects, five dependencies and a critical set that is not everything"
ASSUMPTIONS = ["executions that take no time pass dependencies on and are never reported as critical", "chains whose lengths differ by less than 0.01 s may count as equally long"]


def judge(m):
    from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities

    # the rule, from the logs
    on, waited = collections.defaultdict(set), collections.defaultdict(set)  # execution -> objects
    for o in m.objects:
        for i, kind, a, b, _ in cp.intervals(o):
            on[i, a, b].add(o.name)
            if kind == "WAITING":
                waited[i, a, b].add(o.name)
    want = set()
    ending = collections.defaultdict(list)
    for e in on:
        ending[e[2]].append(e)
    for b in on:
        before = [a for a in ending[b[1]]]
        if any(waited[a] & on[b] for a in before):
            want |= {(a, b) for a in before if a != b}
        else:
            want |= {(a, b) for a in before if a != b and on[a] & on[b]}
    succ = collections.defaultdict(list)
    for a, b in want:
        succ[a].append(b)

    d = DependenciesFromRecordedActivities(m.env, m.objects, m.tops)
    _, rows = cp.table(d.get_recorded_activity_df())
    key = {}
    for r in rows:
        key[r["cp"]] = r["id"], r["start"], r["end"]
    deps = d.get_dependency_list()
    got = [(key[a], key[b]) for a, b in deps]
    expect(len(set(got)) == len(got), "a dependency is listed twice")
    for a, b in set(got) - want:
        expect(False, "%s does not depend on %s", name(m, b), name(m, a))
    for a, b in want - set(got):
        expect(False, "%s depends on %s: both on %s", name(m, b), name(m, a), sorted(on[a] & on[b]))

    # the critical path
    nodes = sorted(set(key.values()), key=lambda e: (e[1], e[2], str(e[0])))
    num = {e: k for k, e in enumerate(nodes)}
    t0 = nodes[0][1]
    micro = datetime.timedelta(microseconds=1)
    acts = [((e[1] - t0) // micro, (e[2] - e[1]) // micro) for e in nodes]
    # executions of no length only pass dependencies on
    links = set()
    for a, b in want:
        if a[1] == a[2]:
            continue
        ends, passed, todo = set(), {b}, [b]
        while todo:
            x = todo.pop()
            if x[1] != x[2]:
                ends.add(x)
                continue
            todo += [y for y in succ[x] if y not in passed]
            passed |= set(succ[x])
        links |= {(num[a], num[x]) for x in ends}
    if not any(x[1] for x in acts):
        raise Skip
    options = longest(acts, links)
    _, crows = cp.table(d.get_critical_path_df())
    crit = {(r["id"], r["start"], r["end"]) for r in crows if r["critical"]}
    cset = {num[e] for e in crit}
    expect(any(cset == exact or (exact != near and cset and cset <= near) for exact, near in options), "critical %s; on a longest chain are %s",
           [name(m, nodes[k]) for k in sorted(cset)], [[name(m, nodes[k]) for k in sorted(s)] for s, _ in options])
    flat = lambda r: (r["obj"], r["id"], r["name"], r["state"], r["start"], r["end"], r["cp"])
    base = collections.Counter(flat(r) for r in rows)
    seen = collections.Counter(flat(r) for r in crows)
    for f, n in seen.items():
        expect(base[f] == n, "row %s occurs %s times instead of %s", f, n, base[f])
    for r in rows:
        if r["obj"] != "Activity" or (num[key[r["cp"]]] in cset and key[r["cp"]] not in on):
            expect(seen[flat(r)], "row %s is missing", flat(r))
        else:
            expect(not seen[flat(r)], "row %s is superfluous", flat(r))
    for r in crows:
        expect(bool(r["critical"]) == (num[key[r["cp"]]] in cset), "row %s of one execution has another mark", flat(r))
    out = ["waiting"] if any(w for w in waited.values()) else []
    if any(a[1] == a[2] or b[1] == b[2] for a, b in want):
        out.append("zero")
    if any(not on[a] & on[b] for a, b in want):
        out.append("not shared")
    if len(on) >= 6 and len(want) >= 5 and len(cset) < len([n for n in acts if n[1]]):
        out.append("nontrivial")
    return out


def longest(acts, links):
    """Per moment at which a longest chain ends: the activities on such chains, and those on chains about as long."""
    order = sorted((i for i in range(len(acts)) if acts[i][1]), key=lambda i: acts[i][0])
    pred, succ = collections.defaultdict(list), collections.defaultdict(list)
    for a, b in links:
        pred[b].append(a)
        succ[a].append(b)
    up = {}
    for i in order:
        up[i] = acts[i][1] + max([up[p] for p in pred[i]], default=0)
    top, tol = max(up.values()), 10000
    out = []
    for e in {sum(acts[i]) for i in order if up[i] >= top - tol}:
        down = {}
        for i in reversed(order):
            down[i] = max([down[s] for s in succ[i]] + [0 if sum(acts[i]) == e else -10**18]) + acts[i][1]
        sets = [{i for i in order if up[i] + down[i] - acts[i][1] >= top - x} for x in (0, tol)]
        out.append((sets[0] or sets[1], sets[1]))
    return out


def name(m, e):
    return "%s %s-%s" % (m.acts[e[0]].name, e[1].strftime("%H:%M:%S.%f")[:-4], e[2].strftime("%H:%M:%S.%f")[:-4])


@st.composite
def programs(draw):
    p = draw(prog.programs(kinds=("basic", "basic", "basic", "move", "seq", "par", "rep", "while"), depth=2, start=0.3, delay=0.1, plugins=0.1, max_rep=3, logs=3,
                           dur=draw(st.sampled_from([cp.POSITIVE, cp.POSITIVE, st.integers(1, 3), None]))))
    for n in prog.walk_nodes(p):
        if n["k"] == "basic" and p["logs"] and not n["al"]:
            n["al"] = [draw(st.integers(0, p["logs"] - 1))]
    return p


@st.composite
def meetings(draw):
    """Short activities on few objects that wait for each other: much begins and ends at the same moments"""
    p = draw(prog.programs(kinds=("basic", "basic", "basic", "move", "seq"), depth=1, top=6, width=3, start=0.5, logs=3, delay=0.1, dur=st.integers(0, 3), epoch=st.just(0.0), stretch=0))
    p["logs"] = p["logs"] or 1
    for n in prog.walk_nodes(p):
        if n["k"] == "basic" and not n.get("al"):
            n["al"] = [draw(st.integers(0, p["logs"] - 1))]
    return p


def run_program(p):
    m = cp.of_program(p)
    if not any(o.logbook for o in m.objects):
        return []
    return judge(m)


def run_fleet(spec):
    return judge(cp.of_fleet(spec))


FACETS = [
    Facet("program", lambda t: programs(), run_program, 500, 9000, "programs on up to three listeners and movers"),
    Facet("meeting", lambda t: meetings(), run_program, 400, 8000, "short activities on up to three listeners that wait for each other"),
    Facet("fleet", lambda t: fleet.any_fleet(styles=("ample", "alone", "reserve"), max_vessels=3, plugins=0.1, delay=0.2, site_slots=st.sampled_from([1, 1, 2])), run_fleet,
          250, 5000, "fleets on sites, vessels and cranes, with waiting"),
]
