"""C14 feasible transport workloads complete."""
from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, expect
from vlib.trees import features

RULE = "non-trivial: several vessels, or more than one trip, or an activity that waited for another one"
ASSUMPTIONS = ["several vessels on one route work with reservations and equal trip amounts (without them the library refuses "
               "late-comers by design)"]


def run(spec):
    r = fleet.observe(spec, max_events=120_000)
    ex = fleet.executions(r)
    fleet.check_complete(r, ex)
    fleet.check_released(r)
    jobs = spec["jobs"]
    if jobs[0]["k"] == "while":
        src, dst = ("site", 0), None
        for n in fleet.walk(jobs):
            if n["k"] == "shift" and n["dir"] == "unload":
                dst, id_ = ("site", n["site"]), n["id"]
        s, d = (*src, id_), (*dst, id_)
        moved = r.final[d] - r.initial[d]
        want = min(r.initial[s], r.capacity[d] - r.initial[d])
        conds = jobs[0]["c"]
        if "or" in conds:
            expect(abs(moved - want) < 1e-6, "%s was delivered; the source held %s and the destination had room for %s", moved,
                   r.initial[s], r.capacity[d] - r.initial[d])
    else:
        for k in r.initial:
            if k[0] == "vessel":
                expect(abs(r.final[k] - r.initial[k]) < 1e-6, "%s is left with %s on board", k, r.final[k])
    lab = fleet.labels(r, ex)
    trips = len(fleet.shift_execs(r, ex)) // 2
    return lab + (["nontrivial"] if trips > 1 else [])


@st.composite
def decimals(draw):
    spec = draw(fleet.any_fleet(styles=("alone", "alone", "ample", "reserve"), plugins=0.1))
    unit = draw(st.sampled_from([0.1, 0.01, 1.1, 1 / 3, 0.7, 12.34, 1e-6, 987654.321]))
    spec = fleet.in_units(spec, unit)
    for x in spec["vessels"] + [s["crane"] for s in spec["sites"] if s["crane"]]:
        x["rl"], x["ru"] = x["rl"] * unit, x["ru"] * unit
    for o in spec["sites"] + (spec["vessels"] if spec["jobs"][0]["k"] == "while" else []):  # something is there already
        for x in o["ids"].values():
            more = x[0] * draw(st.sampled_from([0, 0.1, 0.02, 1 / 7]))
            x[0], x[1] = x[0] + (more if o in spec["sites"] else 0), x[1] + more
    return spec


def run_decimals(spec):
    """Amounts that have no exact binary representation: nothing gets stuck on the rounding."""
    r = fleet.observe(spec, max_events=120_000)
    for name, a in r.acts.items():
        expect(a.main_process.processed, "%s never finished", name)
    fleet.check_released(r)
    trips = sum(1 for n, a in r.acts.items() if r.nodes[n]["k"] == "shift" for e in a.logbook if e["ActivityState"] == "STOP") // 2
    return ["nontrivial"] if trips > 1 else []


def run_tree(p):
    ref = prog.reference(p)
    b = prog.run(p)
    for name, insts in prog.ref_execs(ref).items():
        n = sum(1 for _, s, _, lt, _ in prog.sut.entries(b.acts[name]) if lt is None and s == "STOP")
        expect(n == len(insts), "%s finished %d of %d times", name, n, len(insts))
    f = features(p, ref)
    return sorted(f) + (["nontrivial"] if "waited" in f else [])


FACETS = [
    Facet("alone", lambda t: fleet.fleets(style="alone", plugins=0.1), run, 500, 10000, "one vessel until empty or full"),
    Facet("reserve", lambda t: fleet.fleets(style="reserve", plugins=0.1, max_vessels=6), run, 1000, 20000, "several vessels with reservations"),
    Facet("ample", lambda t: fleet.fleets(style="ample", plugins=0.1, max_vessels=6), run, 700, 15000, "several vessels and routes, both directions"),
    Facet("decimal", lambda t: decimals(), run_decimals, 600, 12000, "amounts that are rounded (tenths, thirds, ...)"),
    Facet("tree", lambda t: prog.programs(kinds=("basic", "seq", "par", "rep", "while"), start=0.5, conts=True), run_tree, 800, 15000,
          "activity trees whose start conditions all occur"),
]
