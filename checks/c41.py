"""C41 names carry no meaning."""
import copy

from hypothesis import strategies as st

from vlib import boot, cp, fleet, prog, sut
from vlib.meta import fleet_objects, picture, prog_objects, run_fleet as finish, same
from vlib.runner import Facet, Skip, expect
from checks.c39 import deps_of, rows_of

RULE = "non-trivial: at least twenty log entries and at least one odd name (words of the log, numbers, blanks, other scripts) for an activity and for an object"
ASSUMPTIONS = ["names of activities in one registry differ", "ids of containers do not end in _reservations (the library's suffix for reservations)",
               "no object is called Activity (the critical-path tables use it for rows of activities)"]

WORDS = ["START", "STOP", "WAIT_START", "delay", "plugin", "subprocess", "waiting on weather", "default", "None", "nan", "True", "name", "ID", "id", "type", "done", "level",
         "loading", "unloading", "sailing", "critical_path", "start 0", "end 0", "and", "or", "activity", "container", "time", "object", "Timestamp", "geometry",
         "additional log", "requested_resources", "0", "1", "-1", "3.5", "1e5", "inf", " ", "  ", "\t", "\n", "a b", "a", "A", "ä", "ß", "名", "🚢", "'", '"', "\\", "%s", "{x}", "$x^2$",
         "a,b", "a;b", "<b>", "[0]", ".*", "a.b", "a/b", "x" * 200, "reservations", "x_reservations_2", "_reservations_", "default_reservations2", "default2", "requested", "\u200b", "é", "e\u0301"]


def names():
    text = st.text(st.characters(exclude_categories=("Cs",)), max_size=8)
    return st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), text)


def container_names():
    """Also those that resemble the ids of reservations."""
    odd = ["x_reservations_2", "_reservations_", "default_reservations2", "sand_reservations_", "default2", "default", "reservations", "_reservation", "all", "level", "total"]
    return st.lists(st.one_of(st.text(max_size=4), st.sampled_from(WORDS), st.sampled_from(odd)), min_size=3, max_size=3)


class Names:
    """A new name for everything that had one: from a list, numbered when it has been used."""

    def __init__(self, pool, never=()):
        self.pool, self.used, self.new = list(pool), set(never), {}

    def __call__(self, old):
        if old not in self.new:
            x = self.pool[len(self.new) % len(self.pool)]
            k = 0
            y = x
            while y in self.used:
                k += 1
                y = f"{x}{k}"
            self.used.add(y)
            self.new[old] = y
        return self.new[old]

    def odd(self):
        return any(x in WORDS for x in self.new.values())



# ---------------------------------------------------------------- programs
@st.composite
def programs(draw):
    p = draw(prog.programs(kinds=("basic", "basic", "move", "seq", "par", "rep", "while"), start=0.4, plugins=0.1, delay=0.15, conts=draw(st.booleans()), explicit_ids=True))
    return dict(p=p, acts=draw(st.lists(names(), min_size=4, max_size=20)), objs=draw(st.lists(names(), min_size=3, max_size=8)),
                ids=draw(container_names()), cp=draw(st.integers(0, 4)) == 0, as_ids=draw(st.integers(0, 3)) == 0)


def ids_of(e, ids):
    if e is None or "t" in e or "a" in e:
        return e
    if "c" in e:
        i, id_, state, level = e["c"]
        base, res = (id_[: -len("_reservations")], "_reservations") if id_.endswith("_reservations") else (id_, "")
        return {"c": [i, ids[i][base] + res, state, level]}
    return {k: [ids_of(x, ids) for x in v] for k, v in e.items()}


def container_ids(boxes, pool):
    """per container: old id -> new id"""
    out = []
    for ids in boxes:
        n = Names(pool)
        out.append({k: (k if list(ids) == ["default"] else n(k)) for k in ids})
        if list(out[-1].values()) == ["default"] and list(ids) != ["default"]:
            out[-1] = {k: k for k in ids}
    return out


def analysis(m):
    """Recorded executions and dependencies, if there are any"""
    from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities

    d = DependenciesFromRecordedActivities(m.env, m.objects, m.tops)
    return d


def canonical(d, acts, objs):
    """In terms of the old names: acts, objs: new -> old"""
    rows = sorted(((objs.get(k[0], k[0]), acts.get(k[2], k[2])) + k[3:] + (n,)) for k, n in rows_of(d.get_recorded_activity_df()).items())
    ids = {}
    for r in d.get_recorded_activity_df().to_dict("records"):
        ids[r["ActivityID"]] = acts.get(r["Activity"], r["Activity"])
    deps = sorted(((ids[a[0]], *a[1:]), (ids[b[0]], *b[1:]), n) for (a, b), n in deps_of(d).items())
    return rows, deps


def run_program(c):
    p = c["p"]
    boot.reset_uuid(0)
    b = prog.run(p)
    want = picture(prog_objects(b), b.by_id, p["t0"])
    # names may be the ids of other activities
    acts, objs = Names([n["id"] for n in prog.walk_nodes(p) if "id" in n and c["as_ids"]][::-1] + c["acts"]), Names(c["objs"], never=("Activity",))
    q = prog.rename(p, acts)
    boxes = container_ids([s["ids"] for s in q.get("cont", ())], c["ids"])
    for s, ids in zip(q.get("cont", ()), boxes):
        s["ids"] = {ids[k]: v for k, v in s["ids"].items()}
    for h in q.get("hist", ()):
        h[2] = boxes[h[1]][h[2]]
    for n in prog.walk_nodes(q):
        for k in ("st", "c"):
            n[k] = ids_of(n.get(k), boxes)
    boot.reset_uuid(0)
    e = prog.build(q, prefix=objs)
    sut.run_all(e.env)
    old = {v: k for k, v in acts.new.items()}
    by_id = {i: old[n] for i, n in e.by_id.items()}
    pairs = [(old[n], a) for n, a in e.acts.items()] + [(f"log{i}", o) for i, o in enumerate(e.logs)] + [("mover " + old[n], m) for n, (m, _) in e.movers.items()]
    same(want, picture(pairs, by_id, p["t0"]), f"with the names {acts.new} and {objs.new}")
    for n, a in e.acts.items():
        expect(a.name == n, "the name %r became %r", n, a.name)
    if c["cp"] and any(o.logbook for o in b.logs + [m for m, _ in b.movers.values()]):
        x, y = cp.Model(), cp.Model()
        for m, z in ((x, b), (y, e)):
            m.env, m.tops, m.objects = z.env, z.tops, z.logs + [v for v, _ in z.movers.values()]
        same_tables(canonical(analysis(x), {}, {}), canonical(analysis(y), old, {v: "mover " + old[k[6:]] if k.startswith("mover ") else k for k, v in objs.new.items()}))
    odd = acts.odd() and objs.odd()
    return (["analysed"] if c["cp"] else []) + (["as ids"] if c["as_ids"] else []) + (["nontrivial"] if odd and sum(map(len, want.values())) >= 20 else [])


def same_tables(a, b):
    for what, x, y in zip(("recorded executions", "dependencies"), a, b):
        if x != y:
            expect(False, "with other names the %s are %s instead of %s", what, [z for z in y if z not in x][:2], [z for z in x if z not in y][:2])


# ---------------------------------------------------------------- fleets
@st.composite
def fleets(draw):
    return dict(spec=draw(fleet.any_fleet(styles=("ample", "alone", "reserve", "edge"), plugins=0.1, delay=0.15, max_vessels=3, site_slots=st.sampled_from([1, 1, 2]))),
                acts=draw(st.lists(names(), min_size=4, max_size=20)), objs=draw(st.lists(names(), min_size=3, max_size=8)),
                ids=draw(container_names()))


def run_fleet(c):
    spec = c["spec"]
    boot.reset_uuid(0)
    r = fleet.build(spec)
    ra = finish(r)
    want = picture(fleet_objects(r), r.by_id, spec["t0"])
    acts, objs, ids = Names(c["acts"]), Names(c["objs"], never=("Activity",)), Names(c["ids"])
    q = copy.deepcopy(spec)
    for n in fleet.walk(q["jobs"]):
        n["n"] = acts(n["n"])
    if spec["multi"]:
        for o in q["sites"] + q["vessels"]:
            o["ids"] = {ids(k): v for k, v in o["ids"].items()}
        for n in fleet.walk(q["jobs"]):
            if n["k"] == "shift":
                n["id"] = ids(n["id"])
            for k in ("st", "c"):
                n[k] = ids_of(n.get(k), [ids.new] * len(q["sites"]))
    boot.reset_uuid(0)
    e = fleet.build(q, prefix=objs)
    rb = finish(e)
    old = {v: k for k, v in acts.new.items()}
    pairs = [(old.get(n, n) if e.acts.get(n) is o else n, o) for n, o in fleet_objects(e)]
    got = picture(pairs, {i: old[n] for i, n in e.by_id.items()}, spec["t0"])
    if spec["multi"]:
        back = {v: k for k, v in ids.new.items()}
        got = {k: [row[:5] + (({back[i]: x for i, x in row[5].items()} if isinstance(row[5], dict) else row[5]),) + row[6:] for row in rows] for k, rows in got.items()}
    same(want, got, f"with the names {acts.new}, {objs.new} and {ids.new}")
    expect((ra is None) == (rb is None), "with other names: %s instead of %s", rb, ra)
    return (["refused"] if ra else []) + (["nontrivial"] if acts.odd() and objs.odd() and sum(map(len, want.values())) >= 20 else [])


FACETS = [
    Facet("program", lambda t: programs(), run_program, 400, 8000, "programs whose activities, objects and containers are called something else"),
    Facet("fleet", lambda t: fleets(), run_fleet, 300, 6000, "fleets whose activities, objects and containers are called something else"),
]
