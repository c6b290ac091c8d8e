"""C10 material is conserved."""
from hypothesis import strategies as st

from vlib import fleet
from vlib.runner import Facet, expect

RULE = "non-trivial: at least three shifts by vessels that had to wait for each other, or a run with two commodities"
ASSUMPTIONS = ["every shift involves one vessel, which is how its amount is told apart from others at the same moment"]


def run(spec):
    r = fleet.observe(spec, allow_refusal=True)
    ex = fleet.executions(r)
    amounts = fleet.check_material(r, ex)
    fleet.check_conservation(r, ex)
    if r.refused is None:
        for e, *_ in fleet.shift_execs(r, ex):
            expect(e.stop is not None, "%r never finished", e)
        for id_ in {k[2] for k in r.initial}:
            a, b = (sum(v for k, v in x.items() if k[2] == id_) for x in (r.initial, r.final))
            expect(abs(a - b) < 1e-6, "the total of %s was %s initially and is %s in the end", id_, a, b)
    lab = fleet.labels(r, ex)
    if len(amounts) > 2 and ("queued" in lab or len(next(iter(spec["sites"]))["ids"]) > 1):
        lab.append("nontrivial")
    return lab


FACETS = [
    Facet("fleet", lambda t: fleet.any_fleet(plugins=0.15), run, 1600, 30000, "fleets of every style, with delays and plugins; some end in a refused shift"),
    Facet("slots", lambda t: fleet.any_fleet(styles=("ample", "edge", "edge"), site_slots=st.integers(1, 3), plugins=0.15), run, 900, 16000,
          "sites that serve several vessels at once, also short of content and space"),
]
