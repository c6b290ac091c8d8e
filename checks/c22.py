"""C22 simulations are reproducible and invariant under time shift and scaling."""
import contextlib
import math

from hypothesis import strategies as st

from vlib import boot, fleet, fresh, prog, sut
from vlib.meta import fleet_objects, picture, prog_objects, same
from vlib.runner import Facet, Skip, expect

FRESH = ("here", "one", "other")
RULE = "non-trivial: at least twenty log entries in which something waited (for an event, a slot or a plugin), run in a second way"
ASSUMPTIONS = ["times and factors in shift and scale are binary fractions, so that rounding cannot reorder events",
               "ids are compared by the name of the activity they belong to"]


def advance(env, how, x):
    """Run to the end: in one go, event by event or in many small steps."""
    if how == "run":
        env.run()
    elif how == "events":
        sut.run_all(env)
    else:
        n = 0
        while env.peek() != float("inf"):
            nxt = env.peek()
            # "steps": past the next event; "edges": alternately up to the next event and just past it
            until = nxt + x if how == "steps" else nxt if n % 2 == 0 and nxt > env.now else nxt + x / 16
            env.run(until=max(until, math.nextafter(env.now, math.inf), math.nextafter(nxt, math.inf) if until != nxt else until))
            env.step()  # run() leaves its own stop event in the queue, before everything else
            n += 1
            expect(n < 200_000, "does not end")




# ---------------------------------------------------------------- programs
def prog_picture(p, how="events", x=1, seed=0):
    boot.reset_uuid(seed)
    b = prog.build(p)
    advance(b.env, how, x)
    return picture(prog_objects(b), b.by_id, p["t0"])


@st.composite
def programs(draw):
    p = draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0.3, plugins=0.15, delay=0.1, conts=True, raw=True, epoch=st.sampled_from([0, 0, 4096]), stretch=0))
    for n in prog.walk_nodes(p):
        if n.get("dl") not in (None, 0, 25, 50, 100, 200):
            n["dl"] = 50
    return dict(p=p, how=draw(st.sampled_from(["twice", "run", "steps", "edges", "shift", "scale"])), x=draw(st.sampled_from([0.25, 1, 3.5, 100])),
                t1=draw(st.sampled_from([1024, 65536.5, 2 ** 20 + 0.125, 3, 2 ** 30])), f=draw(st.sampled_from([2, 4, 0.5, 0.25, 1024])))


def run_program(c):
    p = c["p"]
    try:
        execs = prog.ref_execs(prog.reference(p))
        waited = any(i.released() > i.due() for ins in execs.values() for i in ins)
    except prog.TooLong:
        raise Skip("with the rounded delays some condition never occurs")
    a = prog_picture(p)
    if c["how"] == "shift":
        same(a, prog_picture(prog.map_times(p, p["t0"] + c["t1"], 1)), "started later")
    elif c["how"] == "scale":
        same(a, prog_picture(prog.map_times(p, p["t0"], c["f"])), "scaled", c["f"])
    else:
        same(a, prog_picture(p, "events" if c["how"] == "twice" else c["how"], c["x"], seed=1), c["how"])
    n = sum(map(len, a.values()))
    return [c["how"]] + (["nontrivial"] if n >= 20 and waited else [])


# ---------------------------------------------------------------- fleets
def fleet_picture(spec, how="events", x=1, seed=0):
    boot.reset_uuid(seed)
    r = fleet.build(spec)
    refused = None
    try:
        advance(r.env, how, x)
    except ValueError as e:
        if not str(e).startswith("Attempting to shift content"):
            raise
        refused = str(e)
    return picture(fleet_objects(r), r.by_id, spec["t0"]), refused


@st.composite
def fleets(draw):
    spec = draw(fleet.any_fleet(plugins=0.15, delay=0.15, max_vessels=4))
    how = draw(st.sampled_from(["twice", "run", "steps", "edges", "shift", "scale"]))
    if how in ("shift", "scale"):
        spec["t0"] = t0 = 0
        for n in fleet.walk(spec["jobs"]):
            if n["k"] == "move" and n["d"] is None:
                n["d"] = draw(fleet.dur())
            if n.get("dl") not in (None, 0, 25, 50, 100):
                n["dl"] = 50
            if n.get("st"):
                n["st"] = {"t": t0 + draw(st.integers(0, 200)) / 2}
    return dict(spec=spec, how=how, x=draw(st.sampled_from([0.25, 1, 60, 3600])), t1=draw(st.sampled_from([1024, 65536.5, 2 ** 20 + 0.125, 3])),
                f=draw(st.sampled_from([2, 4, 0.5, 0.25, 1024])))


def run_fleet(c):
    spec = c["spec"]
    a, ra = fleet_picture(spec)
    if c["how"] == "shift":
        b, rb = fleet_picture(fleet.map_times(spec, spec["t0"] + c["t1"], 1))
        same(a, b, "started later")
    elif c["how"] == "scale":
        b, rb = fleet_picture(fleet.map_times(spec, spec["t0"], c["f"]))
        same(a, b, "scaled", c["f"])
    else:
        b, rb = fleet_picture(spec, "events" if c["how"] == "twice" else c["how"], c["x"], seed=1)
        same(a, b, c["how"])
    expect(ra == rb, "%s: %s instead of %s", c["how"], rb, ra)
    n = sum(map(len, a.values()))
    waited = any(s == "WAIT_START" for rows in a.values() for _, s, *_ in rows) or len(spec["vessels"]) > 1
    return [c["how"]] + (["nontrivial"] if n >= 20 and waited else []) + (["refused"] if ra else [])


# ---------------------------------------------------------------- in other interpreters
@st.composite
def elsewhere(draw):
    tables = draw(st.integers(0, 5)) == 5
    if draw(st.booleans()):
        return dict(tables=tables, prog=draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0.3, plugins=0.15, delay=0.1, conts=True, logs=2, same=0.2)))
    return dict(tables=tables, fleet=draw(fleet.any_fleet(plugins=0.15, delay=0.15, max_vessels=4, site_slots=st.sampled_from([1, 1, 2]))))


@st.composite
def queues(draw):
    """Many activities registered together that want the same slots at the same moment."""
    wants = draw(st.lists(st.tuples(st.integers(1, 6), st.integers(0, 2), st.booleans()), min_size=5, max_size=16))
    # what they wait for occurs at one moment too
    starts = draw(st.sampled_from(["none", "levels", "levels", "activities", "mixed"]))
    kinds = {"none": [None], "levels": ["ge", "gt", "le", "lt"], "activities": ["done"], "mixed": [None, "ge", "lt", "done", "or", "and"]}[starts]
    return dict(slots=draw(st.integers(1, 2)), wants=wants, starts=[[draw(st.sampled_from(kinds)), draw(st.integers(0, 1)), draw(st.integers(1, 12))] for _ in wants],
                names=draw(st.integers(0, 2)), wrap=draw(st.sampled_from([None, None, "parallel"])), given=draw(st.booleans()))


def queue(c):
    """What happens: (time, state, name) of all entries of everything"""
    import openclsim.model as model

    env = sut.simpy.Environment(initial_time=0)
    reg = {}
    quay = sut.Site(env=env, name="quay", geometry=sut.point(0, 0), capacity=10 ** 6, level=10 ** 5, nr_resources=c["slots"])
    acts, vessels = [], []
    lakes = [sut.MultiSite(env=env, name="lake %d" % i, geometry=sut.point(0, 0), initials=[dict(id="water", capacity=40, level=20), dict(id="sand", capacity=40, level=20)])
             for i in range(2)]

    def tide():
        yield env.timeout(7)
        for lake in lakes:
            lake.container.put(15, "water")
            lake.container.get(15, "sand")

    env.process(tide())
    tides = [model.BasicActivity(env=env, registry=reg, name="tide %d" % i, duration=7) for i in range(2)]

    def event(what, x, n):
        if what in ("ge", "gt"):
            return {"type": "container", "concept": lakes[x], "state": what, "level": 20 + n, "id_": "water"}
        if what in ("le", "lt"):
            return {"type": "container", "concept": lakes[x], "state": what, "level": 20 - n, "id_": "sand"}
        if what == "done":
            return {"type": "activity", "state": "done", "name": "tide %d" % x}
        return {what: [event("ge", x, n), event("done", 1 - x, n), event("lt", 1 - x, n)]} if what else None

    for i, (d, k, al) in enumerate(c["wants"]):
        name = ["job %d" % i, "%d" % (997 * (i + 3) % 1000), chr(97 + (i * 7) % 26) * (1 + i % 3)][c["names"]]
        kw = dict(env=env, registry=reg, name=name, duration=d, start_event=event(*c["starts"][i]), **({"ID": "id of " + name} if c["given"] else {}))
        v = sut.PlainVessel(env=env, name="v" + name, geometry=sut.point(0, 0), capacity=100, level=50, nr_resources=1, v=1, loading_rate=1, unloading_rate=1,
                            load_manoeuvring=0, unload_manoeuvring=0)
        vessels.append(v)
        if k == 0:
            acts.append(model.BasicActivity(additional_logs=[quay] if al else [], **kw))
        else:
            o, t = (quay, v) if k == 1 else (v, quay)
            acts.append(model.ShiftAmountActivity(amount=1, origin=o, destination=t, processor=v, **kw))
    tops = acts
    if c["wrap"]:
        tops = [model.ParallelActivity(env=env, registry=reg, name="all of them", sub_processes=acts)]
    tops = tops + tides
    model.register_processes(tops)
    sut.run_all(env)
    names = {a.id: a.name for a in acts + tops}
    return [(o.name, [(sut.secs(e["Timestamp"]), e["ActivityState"], names[e["ActivityID"]]) for e in o.logbook]) for o in [quay] + vessels + acts + tops]


def run_queue(c):
    a = fresh.call(queue, c)
    for at in ("one", "other"):
        b = fresh.call(queue, c, at=at)
        for (n, x), (_, y) in zip(a, b):
            expect(x == y, "in another interpreter the log of %s has %s instead of %s", n, [r for r in y if r not in x][:2] or y[:4], [r for r in x if r not in y][:2] or x[:4])
    return ["nontrivial"] if sum(1 for _, k, _ in c["wants"] if k) >= 4 else []


def everything(c):
    """All that a run shows, and what is made of it, with names instead of ids"""
    from openclsim import io
    from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities
    from openclsim.plot import get_log_dataframe

    if "prog" in c:
        b = prog.build(c["prog"])
        t0, objs, plotted = c["prog"]["t0"], prog_objects(b), b.logs + [m for m, _ in b.movers.values()]
    else:
        b = fleet.build(c["fleet"])
        t0, objs, plotted = c["fleet"]["t0"], fleet_objects(b), b.sites + b.vessels
    refused = None
    try:
        sut.run_all(b.env)
    except ValueError as e:
        if not str(e).startswith("Attempting to shift content"):
            raise
        refused = str(e)
    names = dict(b.by_id)
    logs = picture(objs, names, t0)
    tables = {"activities": [(names.get(i), p, n) for i, p, n in zip(*(io.get_tree_as_list(b.tops)[k] for k in ("ActivityID", "ParentName", "ParentLevel")))],
              "resources": sorted((names.get(r["ActivityID"]), r["ConceptName"], r["ConceptMode"]) for r in io.get_activity_resources(b.tops).to_dict("records"))}
    for k, o in objs if c["tables"] else ():
        if o.logbook:
            df = get_log_dataframe(o, b.tops)
            tables["log of " + k] = [(str(r["Timestamp"]), names.get(r["Activity"], r["Activity"]), r["ActivityState"]) for r in df.to_dict("records")]
    if c["tables"] and refused is None and any(o.logbook for o in plotted):
        for o in plotted:
            if o.logbook:
                with contextlib.redirect_stdout(None):
                    df = io.get_ranges_dataframe(o)
                tables["ranges of " + o.name] = sorted((str(r["TimestampStart"]), str(r["TimestampStop"]), r["trip"]) for r in df.to_dict("records"))
        d = DependenciesFromRecordedActivities(b.env, plotted, b.tops)
        key, rows = {}, []
        df = d.get_recorded_activity_df()
        if (df["end_time"] > df["start_time"]).any():
            df = d.get_critical_path_df()
        for r in df.to_dict("records"):
            key[r["cp_activity_id"]] = names.get(r["ActivityID"]), str(r["start_time"]), str(r["end_time"])
            rows.append((r["SimulationObject"], r["state"], bool(r.get("is_critical"))) + key[r["cp_activity_id"]])
        tables["critical path"] = sorted(rows)
        tables["dependencies"] = sorted((key[x], key[y]) for x, y in d.get_dependency_list())
    return logs, refused, tables


def run_elsewhere(c):
    a = fresh.call(everything, c)
    for at in ("one", "other"):
        b = fresh.call(everything, c, at=at)
        same(a[0], b[0], "in another interpreter")
        expect(a[1] == b[1], "in another interpreter: %s instead of %s", b[1], a[1])
        for k in a[2]:
            if a[2][k] != b[2].get(k):
                x, y = a[2][k], b[2].get(k)
                expect(False, "in another interpreter the table %s has %s instead of %s", k, [z for z in y if z not in x][:2] or y[:4], [z for z in x if z not in y][:2] or x[:4])
    n = sum(map(len, a[0].values()))
    return (["nontrivial"] if n >= 20 and len({r[0] for rows in a[0].values() for r in rows}) > 3 else []) + (["refused"] if a[1] else []) + (["critical"] if "critical path" in a[2] else [])


FACETS = [
    Facet("program", lambda t: programs(), run_program, 700, 14000, "programs run twice, in steps, from another initial time and with scaled times"),
    Facet("fleet", lambda t: fleets(), run_fleet, 700, 14000, "fleets run twice, in steps, from another initial time and with scaled times"),
    Facet("elsewhere", lambda t: elsewhere(), run_elsewhere, 140, 4000, "models run in interpreters with another hash seed, time zone and ids"),
    Facet("queue", lambda t: queues(), run_queue, 60, 2000, "many activities that want the same slots, run in interpreters with another hash seed and ids"),
]
