"""C16 reservation levels reflect assigned but not yet executed shifts."""
from hypothesis import strategies as st

from vlib import fleet
from vlib.runner import Facet, expect

RULE = "non-trivial: reservation levels were compared at moments with announced shifts in runs of more than one trip"
ASSUMPTIONS = ["amounts given are positive", "reservation levels are compared after everything that happens at one moment"]


def run(spec):
    r = fleet.observe(spec, reservations=True)
    ex = fleet.executions(r)
    fleet.check_complete(r, ex)
    n = fleet.check_reservations(r, ex)
    for k in r.final:
        expect(abs(r.final[k] - r.final_res[k]) < 1e-6, "in the end the level of %s is %s and its reservation level %s", k, r.final[k], r.final_res[k])
    lab = fleet.labels(r, ex)
    if spec["jobs"][0]["k"] == "while":
        sh = fleet.shift_execs(r, ex)
        amt = next(n["amt"] for n in fleet.walk(spec["jobs"]) if n["k"] == "shift") if sh else None
        loads = [e for e, o, d, id_ in sh if e.node["dir"] == "load"]
        if amt and "reserv" in str(spec["jobs"][0]["c"]):
            s = ("site", 0, loads[0].node["id"])
            dst = next(d for e, o, d, id_ in sh if e.node["dir"] == "unload")
            room = min(r.initial[s], r.capacity[(*dst, s[2])] - r.initial[(*dst, s[2])])
            # a trip is only assigned while something is left to assign
            first = len(r.vessels)
            expect(len(loads) <= max(first, -(-room // amt)), "%d trips of %s were assigned for %s", len(loads), amt, room)
    return lab + (["nontrivial"] if n and len(fleet.shift_execs(r, ex)) > 2 else [])


FACETS = [
    Facet("reserve", lambda t: fleet.fleets(style="reserve", plugins=0.1, delay=0.2, max_vessels=5), run, 1200, 25000, "loops conditioned on reservations"),
    Facet("other", lambda t: fleet.any_fleet(styles=("ample", "alone"), plugins=0.1), run, 1200, 25000, "other fleets: amounts given or not, nested loops"),
    Facet("slots", lambda t: fleet.fleets(style="ample", site_slots=st.integers(1, 3)), run, 400, 8000, "sites serving several vessels at once"),
]
