"""C20 logs are a complete and consistent record of the simulation."""
import datetime

from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, expect

RULE = ("non-trivial: objects logged the work of at least two activities that overlapped or queued (fleet, crane), or an activity with at least "
        "three kinds of entries (program), or at least three entries with differing states (entries)")
ASSUMPTIONS = ["an entry's state is compared with the object's state just before and just after the event in which it was logged"]

COLUMNS = ("Timestamp", "ActivityID", "ActivityState", "ObjectState", "ActivityLabel")


def check_view(obj, name):
    """The dictionary of lists has exactly the entries of the logbook, in order."""
    book, view = obj.logbook, obj.log
    expect(sorted(view) == sorted(COLUMNS), "%s: the log view has columns %s", name, sorted(view))
    for c in COLUMNS:
        expect(list(view[c]) == [e[c] for e in book], "%s: column %s of the log view is %s instead of %s", name, c, list(view[c])[:5], [e[c] for e in book][:5])
    for t in view["Timestamp"]:
        expect(type(t) is datetime.datetime and t.tzinfo is None, "%s: timestamp %r", name, t)


def check_closed(name, log, ids, complete=True):
    """Every START (WAIT_START) is closed by its own STOP (WAIT_STOP)."""
    open_ = {}
    for t, s, aid, lt, lr in log:
        expect(aid in ids, "%s has an entry of unknown activity %s", name, aid)
        kind = "WAIT" if s.startswith("WAIT") else "RUN"
        key = (aid, kind, lt, lr)
        if s in ("START", "WAIT_START"):
            expect(key not in open_, "%s: %s at %s although the one at %s is still open", name, s, t, open_.get(key))
            open_[key] = t
        else:
            expect(s in ("STOP", "WAIT_STOP"), "%s logged state %s", name, s)
            expect(key in open_, "%s: %s at %s closes nothing", name, s, t)
            expect(open_.pop(key) <= t, "%s: %s at %s before its start", name, s, t)
    if complete:
        expect(not open_, "%s: never closed %s", name, open_)


def run_fleet(spec):
    r = fleet.observe(spec, states=True, allow_refusal=True)
    ex = fleet.executions(r)
    expect(not r.state_errors, "%s", r.state_errors[:1])
    n = fleet.check_object_logs(r, ex)
    for kind, objs in (("site", r.sites), ("vessel", r.vessels), ("crane", r.cranes)):
        for i, o in enumerate(objs):
            if o is not None:
                check_view(o, f"{kind}{i}")
                check_closed(f"{kind}{i}", sut.entries(o), r.by_id, not r.refused)
    for name, a in r.acts.items():
        check_view(a, name)
        check_closed(name, sut.entries(a), r.by_id, not r.refused)
    fleet.check_positions(r, ex)
    lab = fleet.labels(r, ex)
    over = any(sum(1 for b, d, e in lst if b <= u < d) > 1 for o, lst in fleet.uses(r, ex).items() for u, *_ in lst)
    if over:
        lab.append("overlap")
    return lab + (["nontrivial"] if n and (over or "queued" in lab) else [])


def run_program(p):
    ref = prog.reference(p)
    b = prog.run(p)
    rich = False
    for name in ref.paths:
        prog.check_own_log(b, ref, name)
        check_view(b.acts[name], name)
        check_closed(name, sut.entries(b.acts[name]), b.by_id)
        rich = rich or len({(s, lt) for _, s, _, lt, _ in sut.entries(b.acts[name])}) > 3
        for e in b.acts[name].logbook:
            expect(e["ObjectState"] == {}, "an activity has state %s", e["ObjectState"])
    prog.check_additional_logs(b, ref)
    for i, o in enumerate(b.logs):
        check_view(o, f"log{i}")
        check_closed(f"log{i}", sut.entries(o), b.by_id)
    for name, (m, d) in b.movers.items():
        check_view(m, "mover of " + name)
        check_closed("mover of " + name, sut.entries(m), b.by_id)
        want = [(prog.q(t), s) for i in prog.ref_execs(ref)[name] for t, s in ((i.start(), "START"), (i.stop(), "STOP"))]
        got = [(t, s) for t, s, *_ in sut.entries(m)]
        expect(got == want, "the mover of %s logged %s instead of %s", name, got, want)
        here = sut.point(4, 52)
        for j, e in enumerate(m.logbook):
            g = e["ObjectState"]["geometry"]
            at = here if j == 0 else d.geometry
            expect((g.x, g.y) == (at.x, at.y), "the mover of %s logged position %s instead of %s", name, g, at)
        check_view(d, "destination of " + name)
        expect(not d.logbook, "the destination of a move has log entries")
    return ["nontrivial"] if rich else []


# ---------------------------------------------------------------- entries made directly
@st.composite
def entry_lists(draw):
    out = []
    for _ in range(draw(st.integers(0, 12))):
        out.append(dict(t=draw(st.one_of(prog.epochs(), st.integers(0, 4_000_000_000), st.integers(0, 10**9).map(lambda k: k / 64))),
                        id=draw(st.one_of(st.sampled_from(["a", "b", "x-1"]), st.just(None), st.integers(0, 5))), s=draw(st.sampled_from(["START", "STOP", "WAIT_START", "WAIT_STOP", "UNKNOWN"])),
                        label=draw(st.one_of(st.none(), st.tuples(st.sampled_from(["plugin", "subprocess", "x"]), st.sampled_from(["delay", "r2", "5"])))),
                        more=draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(["extra", "container level", "other"]), st.integers(0, 9), max_size=2))),
                        level=draw(st.one_of(st.none(), st.integers(0, 10))), x=draw(st.one_of(st.none(), st.integers(0, 9)))))
    return dict(kind=draw(st.sampled_from(["logger", "site", "multi", "vessel"])), entries=out)


def run_entries(c):
    env = sut.simpy.Environment()
    kw = dict(env=env, name="o", geometry=sut.point(4, 52))
    level = {"default": 5}
    if c["kind"] == "logger":
        o = sut.Logger(env=env, name="o")
    elif c["kind"] == "site":
        o = sut.Site(capacity=10, level=5, **kw)
    elif c["kind"] == "multi":
        level = {"sand": 5, "rock": 5}
        o = sut.MultiSite(initials=[dict(id=k, capacity=10, level=5) for k in level], **kw)
    else:
        o = sut.PlainVessel(capacity=10, level=5, v=1, loading_rate=1, unloading_rate=1, **kw)
    want = []
    pos = sut.point(4, 52)
    for e in c["entries"]:
        if c["kind"] != "logger":
            if e["level"] is not None:
                k = sorted(level)[0]
                d = e["level"] - level[k]
                if d:
                    o.container.put(d, k) if d > 0 else o.container.get(-d, k)
                level[k] = e["level"]
            if e["x"] is not None:
                pos = sut.point(e["x"], 1)
                o.geometry = pos
        kw2 = {}
        if e["label"]:
            kw2["activity_label"] = {"type": e["label"][0], "ref": e["label"][1]}
        if e["more"] is not None:
            kw2["additional_state"] = dict(e["more"])
        o.log_entry_v1(t=e["t"], activity_id=e["id"], activity_state=sut.core.LogState[e["s"]], **kw2)
        state = {}
        if c["kind"] != "logger":
            state = {"container level": dict(level) if c["kind"] == "multi" else level["default"], "geometry": pos}
        state.update(e["more"] or {})
        want.append((prog.q(e["t"]), e["id"], e["s"], state, kw2.get("activity_label", {})))
    got = [(sut.secs(e["Timestamp"]), e["ActivityID"], e["ActivityState"], e["ObjectState"], e["ActivityLabel"]) for e in o.logbook]
    expect(len(got) == len(want), "%d entries were logged, %d recorded", len(want), len(got))
    for g, w in zip(got, want):
        expect(g == w, "entry %s instead of %s", g, w)
    view = o.log
    expect(sorted(view) == sorted(COLUMNS), "the log view has columns %s", sorted(view))
    for c2, j in (("ActivityState", 2), ("ObjectState", 3), ("ActivityLabel", 4)):
        expect(list(view[c2]) == [w[j] for w in want], "column %s is %s instead of %s", c2, view[c2], [w[j] for w in want])
    expect([sut.secs(t) for t in view["Timestamp"]] == [w[0] for w in want], "timestamps %s", view["Timestamp"])
    if all(isinstance(w[1], str) for w in want):
        expect(list(view["ActivityID"]) == [w[1] for w in want], "ids %s", view["ActivityID"])
    return ["nontrivial"] if len({str(w[3]) for w in want}) > 2 or (c["kind"] == "logger" and len(want) > 2) else []


FACETS = [
    Facet("fleet", lambda t: fleet.any_fleet(plugins=0.15), run_fleet, 700, 14000, "fleets: logs of all objects and activities, states at every entry"),
    Facet("crane", lambda t: fleet.fleets(style="ample", max_vessels=6, site_slots=st.integers(1, 3), crane_slots=st.integers(1, 3), delay=0.1), run_fleet,
          500, 10000, "cranes and sites that serve several vessels at once"),
    Facet("program", lambda t: prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), plugins=0.15, delay=0.15, raw=True), run_program, 700, 14000,
          "programs of activities: all logs against the reference interpreter"),
    Facet("entries", lambda t: entry_lists(), run_entries, 800, 16000, "entries made directly on objects of every kind"),
]
