"""C11 container levels stay between zero and capacity."""
from hypothesis import strategies as st

from vlib import fleet
from vlib.runner import Facet, expect

RULE = "non-trivial: a level reached zero or its capacity while vessels were waiting for the same site"
ASSUMPTIONS = ["an overfilled site with several slots into which unloads overlapped is the known finding, anything else is reported"]


def overfilled(r, ex):
    """Moments at which a site with several slots exceeds its capacity because unloads into it were
    admitted together (known finding: the free space is checked per shift, not for all shifts admitted together)."""
    out = set()
    unloads = [(e, d) for e, o, d, i in fleet.shift_execs(r, ex) if d[0] == "site" and fleet.slots(r, d) > 1 and e.stop is not None]
    for e, d in unloads:
        if any(x is not e and dx == d and x.released < e.stop - fleet.EPS and e.released < x.stop - fleet.EPS for x, dx in unloads):
            out.add((d, e.stop))
    return out


def run(spec):
    r = fleet.observe(spec, allow_refusal=True)
    ex = fleet.executions(r)
    known = set() if spec.get("known") else overfilled(r, ex)
    lab = fleet.labels(r, ex)
    for t, _, k, v in r.changes:
        if v > r.capacity[k] and any(o == k[:2] and t >= a - fleet.EPS for o, a in known):
            lab.append("known-overfill")
            continue
        expect(v >= -1e-9, "level of %s is %s at %s, below zero", k, v, t)
        expect(v <= r.capacity[k] + 1e-9, "level of %s is %s at %s, above its capacity %s", k, v, t, r.capacity[k])
    site = [(k, v) for _, s, k, v in r.changes if k[0] == "site" and s > 0]
    limit = any(v <= 0 or v >= r.capacity[k] for k, v in site)
    if limit:
        lab.append("limit")
    if limit and "queued" in lab:
        lab.append("nontrivial")
    return lab


FACETS = [
    Facet("edge", lambda t: fleet.fleets(style="edge", plugins=0.3, delay=0.3, max_vessels=5), run, 1200, 25000,
          "several vessels competing for the last content and space"),
    Facet("fleet", lambda t: fleet.any_fleet(styles=("alone", "reserve", "ample"), plugins=0.15), run, 1000, 20000, "other fleets"),
    Facet("slots", lambda t: fleet.fleets(style="edge", max_vessels=5, site_slots=st.integers(1, 3)), run, 600, 12000,
          "sites that serve several vessels at once"),
    Facet("rush", lambda t: rush(), run, 1200, 25000, "vessels at the site itself: no sailing between the shifts"),
]


@st.composite
def rush(draw):
    """Everybody starts at the same site at about the same time, with little content and space."""
    nv = draw(st.integers(2, 5))
    vessels, jobs = [], []
    for v in range(nv):
        cap = draw(st.integers(1, 10))
        vessels.append(dict(kind="plain", ids={"default": [cap, draw(st.integers(0, cap))]}, at=0, v=1, rl=draw(fleet.rate()), ru=draw(fleet.rate())))
        parts = []
        for _ in range(draw(st.integers(1, 4))):
            n = dict(k="shift", v=v, site=0, dir=draw(st.sampled_from(["load", "unload"])), amt=draw(st.one_of(st.none(), st.integers(1, 10))),
                     d=draw(st.one_of(st.none(), fleet.dur())), by="vessel")
            if draw(st.integers(0, 4)) == 0:
                n["pl"] = [[0, draw(fleet.dur()), draw(fleet.dur())]]
            if draw(st.integers(0, 4)) == 0:
                n["dl"] = 50
            if draw(st.integers(0, 3)) == 0:
                n["st"] = {"c": [0, "default", draw(st.sampled_from(["ge", "le", "gt", "lt"])), draw(st.integers(0, 12))]}
            parts.append(n)
        jobs.append(dict(k="seq", s=parts, st={"t": draw(st.integers(0, 40)) / 2}))
    cap = draw(st.integers(1, 25))
    site = dict(x=0, ids={"default": [cap, draw(st.integers(0, cap))]}, slots=1, crane=None)
    return fleet.name_nodes(dict(t0=0, multi=False, sites=[site], vessels=vessels, jobs=jobs))
