"""Models for the critical-path checks: what was logged, execution by execution, and tables of it."""
import collections

from hypothesis import strategies as st

from . import fleet, prog, sut
from .runner import expect


class Model:
    """env, objects (with unique names), tops, acts: id -> activity, leaf: ids of activities without parts, t0"""


def of_program(p, env=None, until=None):
    m = Model()
    b = prog.build(p, env=env)
    sut.run_all(b.env, until=until)
    m.env, m.tops, m.t0 = b.env, b.tops, p["t0"]
    m.acts = {a.id: a for a in b.acts.values()}
    m.leaf = {b.acts[n["n"]].id for n in prog.walk_nodes(p) if "s" not in n}
    m.objects = b.logs + [x for x, _ in b.movers.values()]
    m.built = b
    return m


def of_fleet(spec, env=None, r=None):
    m = Model()
    r = r or fleet.build(spec, env=env)
    sut.run_all(r.env)
    m.env, m.tops, m.t0 = r.env, r.tops, spec["t0"]
    m.acts = {a.id: a for a in r.acts.values()}
    m.leaf = {r.acts[n["n"]].id for n in fleet.walk(spec["jobs"]) if "s" not in n}
    m.objects = r.sites + r.vessels + [x for x in r.cranes if x]
    m.built = r
    return m


def intervals(obj):
    """Logged executions and waits of an object: (activity id, state, start, stop, label ref), paired by their labels."""
    open_, out = collections.defaultdict(list), []
    for e in obj.logbook:
        s, lab = e["ActivityState"], e["ActivityLabel"]
        kind = "WAITING" if s.startswith("WAIT") else "ACTIVE"
        key = (e["ActivityID"], kind, lab.get("type"), lab.get("ref"))
        if s.endswith("START"):
            open_[key].append(e["Timestamp"])
        else:
            out.append((e["ActivityID"], kind, open_[key].pop(0), e["Timestamp"], lab.get("ref") if lab.get("type") == "subprocess" else None))
    expect(not any(open_.values()), "%s has an execution that never ends", obj.name)
    return out


def in_order(rows):
    """The same starts and stops, paired by their order (see known_findings.json, C27)."""
    out = []
    for kind in ("ACTIVE", "WAITING"):
        a = sorted(r[1] for r in rows if r[0] == kind)
        b = sorted(r[2] for r in rows if r[0] == kind)
        out += [(kind, x, y) for x, y in zip(a, b)]
    return out


def table(df):
    """(object, activity id) -> [(state, start, end)], and all rows"""
    out = collections.defaultdict(list)
    rows = []
    for r in df.to_dict("records"):
        s, e = r["start_time"].to_pydatetime(), r["end_time"].to_pydatetime()
        out[r["SimulationObject"], r["ActivityID"]].append((r["state"], s, e))
        rows.append(dict(obj=r["SimulationObject"], id=r["ActivityID"], name=r["Activity"], state=r["state"], start=s, end=e,
                         duration=r["duration"], cp=r["cp_activity_id"], critical=r.get("is_critical")))
    return out, rows


POSITIVE = st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(1, 160).map(lambda k: k / 4))
