"""For metamorphic checks: what a run showed, in terms that do not depend on ids."""
from . import sut
from .runner import expect


def picture(objs, by_id, t0):
    """name -> entries, with times relative to the start and names instead of ids"""
    out = {}
    for key, o in objs:
        rows = []
        for e in o.logbook:
            s = e["ObjectState"]
            g = s.get("geometry")
            lab = e["ActivityLabel"]
            rows.append((sut.secs(e["Timestamp"]) - t0, e["ActivityState"], by_id.get(e["ActivityID"], e["ActivityID"]), lab.get("type"),
                         by_id.get(lab.get("ref"), lab.get("ref")), s.get("container level"), (g.x, g.y) if g is not None else None,
                         sorted((k, str(v)) for k, v in s.items() if k not in ("geometry", "container level"))))
        out[key] = rows
    return out


def same(a, b, how, factor=1, tol=2e-6):
    expect(a.keys() == b.keys(), "%s: other logs", how)
    for k in a:
        expect(len(a[k]) == len(b[k]), "%s: the log of %s has %d entries instead of %d", how, k, len(b[k]), len(a[k]))
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            expect(abs(x[0] * factor - y[0]) <= tol * max(1, factor) and x[1:] == y[1:], "%s: entry %d of the log of %s is %s instead of %s (factor %s)",
                   how, i, k, y, x, factor)


def prog_objects(b):
    """(key, object with a log) of a built program"""
    objs = list(b.acts.items()) + [(f"log{i}", o) for i, o in enumerate(b.logs)]
    return objs + [("mover " + n, m) for n, (m, d) in b.movers.items()]


def fleet_objects(r):
    objs = list(r.acts.items()) + [(f"site{i}", o) for i, o in enumerate(r.sites)] + [(f"vessel{i}", o) for i, o in enumerate(r.vessels)]
    return objs + [(f"crane{i}", o) for i, o in enumerate(r.cranes) if o]


def run_fleet(r):
    """Run to the end; the message if the library refused a shift"""
    try:
        sut.run_all(r.env)
    except ValueError as e:
        if not str(e).startswith("Attempting to shift content"):
            raise
        return str(e)
