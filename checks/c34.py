"""C34 the single-run helper builds the standard cycle."""
import pyproj
from hypothesis import strategies as st

from vlib import fleet, sut
from vlib.runner import Facet, Skip, expect

RULE = "non-trivial: at least two trips, of which the last is not a full load, or a stop or start event that was given"
ASSUMPTIONS = ["content and space at the start, the vessel is empty", "events given as stop occur before content (with refills) or space run out",
               "moments of the clock that coincide with the end of a cycle to 1e-6 s are skipped"]

GEOD = pyproj.Geod(ellps="WGS84")
EPS = 1e-6
OWN = ("level", "time", "activity")  # stop events that do not depend on the content of the origin
PLACES = [(4.0, 52.0), (4.05, 52.0), (4.3, 52.2), (4.0003, 52.0), (3.0, 54.0)]


@st.composite
def runs(draw):
    cap = draw(st.integers(1, 12))
    o_cap = draw(st.integers(1, 60))
    d_cap = draw(st.integers(1, 60))
    rate = st.sampled_from([1, 0.5, 2, 0.01])
    man = st.sampled_from([0, 0, 1, 2.5])
    cranes = [None if draw(st.booleans()) else dict(rl=draw(rate), ru=draw(rate), ml=draw(man), mu=draw(man)) for _ in range(2)]
    stop = draw(st.sampled_from(["default", "default", "default", "empty list", "level", "time", "activity", "or"]))
    return dict(t0=draw(st.sampled_from([0, 1000, 1.6e9])), cap=cap, origin=[o_cap, draw(st.integers(1, o_cap))], dest=[d_cap, draw(st.integers(0, d_cap - 1))],
                places=[draw(st.integers(0, len(PLACES) - 1)) for _ in range(3)], v=draw(st.sampled_from([1, 5, 9.5])), dep=draw(st.booleans()),
                own=dict(rl=draw(rate), ru=draw(rate), ml=draw(man), mu=draw(man)), cranes=cranes, stop=stop, at=draw(st.integers(1, 97)) / 97,
                refill=draw(st.lists(st.integers(1, o_cap), max_size=2)), start=draw(st.sampled_from([None, None, "time", "activity"])), wait=draw(st.integers(1, 500)), held=draw(st.sampled_from([None, None, None, "empty", "mover", "origin", "dest", "mover later", "origin later", "dest later"])))


def reference(c, begin, filled):
    """Trips of the default cycle: [(moments of the four starts and stops, loaded, unloaded)]"""
    pos = [PLACES[k] for k in c["places"]]
    d = lambda a, b: GEOD.inv(a[0], a[1], b[0], b[1])[2]
    level, free, fill, t, here = c["origin"][1], c["dest"][0] - c["dest"][1], 0, begin, pos[0]
    load, unload = c["cranes"][0] or c["own"], c["cranes"][1] or c["own"]
    v = lambda: c["v"] / (1 + fill / c["cap"]) if c["dep"] else c["v"]
    trips, refills = [], list(c.get("refill", []) if c["stop"] in OWN else [])
    while True:
        ts = [t]
        t += d(here, pos[1]) / v()
        ts.append(t)
        a = min(c["cap"] - fill, level)
        t += a / load["rl"] + 60 * load["ml"]
        ts.append(t)
        fill += a
        level -= a
        t += d(pos[1], pos[2]) / v()
        ts.append(t)
        b = min(fill, free)
        t += b / unload["ru"] + 60 * unload["mu"]
        ts.append(t)
        fill -= b
        free -= b
        here = pos[2]
        trips.append((ts, a, b, free, fill))
        if level == 0 and free > 0 and refills:
            # somebody fills the origin while the last of its content is under way
            level += refills.pop(0)
            filled.append(((ts[2] + ts[4]) / 2, level))
        if level == 0 or free == 0:
            return trips


def run(c):
    env = sut.simpy.Environment(initial_time=c["t0"])
    pos = [sut.point(*PLACES[k]) for k in c["places"]]
    origin = sut.Site(env=env, name="origin", geometry=pos[1], capacity=c["origin"][0], level=c["origin"][1])
    dest = sut.Site(env=env, name="destination", geometry=pos[2], capacity=c["dest"][0], level=c["dest"][1])
    rates = lambda x: dict(loading_rate=x["rl"], unloading_rate=x["ru"], load_manoeuvring=x["ml"], unload_manoeuvring=x["mu"])
    kw = dict(env=env, name="vessel", geometry=pos[0], capacity=c["cap"], **rates(c["own"]))
    ship = sut.Vessel(compute_v=lambda f: c["v"] / (1 + f), **kw) if c["dep"] else sut.PlainVessel(v=c["v"], **kw)
    cranes = [sut.Crane(env=env, name="crane %d" % i, geometry=pos[i + 1], **rates(x)) if x else ship for i, x in enumerate(c["cranes"])]
    begin = c["t0"] + (c["wait"] if c["start"] else 0)
    filled = []
    trips = reference(c, begin, filled)
    total = sum(x[2] for x in trips)
    content, space = c["origin"][1] + sum(x for _, x in filled), c["dest"][0] - c["dest"][1]
    expect(total == min(content, space), "reference")  # full loads, except the last

    # what stops the loop
    reg, extra, args = {}, [], {}
    last = trips[-1][0][-1]
    moment = begin + (last - begin) * c["at"]
    stops = lambda f: next((k + 1 for k, x in enumerate(trips) if f(x)), len(trips))
    n = len(trips)
    cond = None
    if c["stop"] == "empty list":
        args["stop_event"] = []
    elif c["stop"] == "level":
        level = max(1, round(total * c["at"]))
        cond = {"type": "container", "concept": dest, "state": "ge", "level": c["dest"][1] + level}
        n = stops(lambda x: space - x[3] >= level)
    elif c["stop"] in ("time", "activity", "or"):
        if any(abs(x[0][-1] - moment) < EPS for x in trips):
            raise Skip
        n = stops(lambda x: x[0][-1] >= moment)
        if c["stop"] == "activity":
            extra.append(sut.model.BasicActivity(env=env, registry=reg, name="stopper", duration=moment - c["t0"]))
            cond = {"type": "activity", "state": "done", "name": "stopper"}
        else:
            cond = {"type": "time", "start_time": moment}
        if c["stop"] == "or":
            cond = {"or": [cond, {"type": "container", "concept": origin, "state": "empty"}, {"type": "container", "concept": dest, "state": "full"}]}
    if cond is not None:
        args["stop_event"] = cond if c["at"] < 0.5 else [cond]
    if c["start"] == "time":
        args["start_event"] = {"type": "time", "start_time": begin}
    elif c["start"] == "activity":
        extra.append(sut.model.BasicActivity(env=env, registry=reg, name="starter", duration=c["wait"]))
        args["start_event"] = [{"type": "activity", "state": "done", "name": "starter"}]
    if c["held"] is not None:
        held = {}

        def hold():
            r = {"mover": ship, "origin": origin, "dest": dest}[c["held"].split()[0]].resource
            held[r] = r.request()

        if c["held"] in ("mover", "origin", "dest"):
            hold()
        args["requested_resources"] = held

    parts, loop = sut.model.single_run_process(env=env, registry=reg, name="run", origin=origin, destination=dest, mover=ship, loader=cranes[0], unloader=cranes[1], **args)
    if (c["held"] or "").endswith("later"):
        # somebody who shares the (so far empty) administration gets the slot
        hold()
    expect(len(parts) == 4 and list(loop.sub_processes) == list(parts), "the loop consists of %s", [p.name for p in loop.sub_processes])
    expect(loop.name == "run" and len({p.name for p in parts} | {"run"}) == 5, "names %s", [p.name for p in parts])

    def fill():
        for t, amount in filled:
            yield env.timeout(t - env.now)
            if origin.container.get_level() == 0:  # (unless the loop stopped before)
                yield origin.container.put(amount)

    env.process(fill())
    sut.model.register_processes(extra + [loop])
    sut.run_all(env)

    trips = trips[:n]
    near = lambda x, y: abs(x - y) < 1e-5
    for i, p in enumerate(parts):
        own = [(t, s) for t, s, a, lt, _ in sut.entries(p) if lt is None]
        want = [(ts[i + k], s) for ts, *_ in trips for k, s in ((0, "START"), (1, "STOP"))]
        expect(len(own) == len(want) and all(x[1] == y[1] and near(x[0], y[0]) for x, y in zip(own, want)), "log of %s: %s instead of %s", p.name, own[:8], want[:8])
    own = [(t, s) for t, s, a, lt, _ in sut.entries(loop) if lt is None]
    want = ([(c["t0"], "WAIT_START"), (begin, "WAIT_STOP")] if c["start"] else []) + [(begin, "START"), (trips[-1][0][-1], "STOP")]
    expect(len(own) == len(want) and all(x[1] == y[1] and near(x[0], y[0]) for x, y in zip(own, want)), "log of the loop: %s instead of %s", own, want)
    a, b = sum(x[1] for x in trips), sum(x[2] for x in trips)
    content = c["origin"][1] + sum(x for t, x in filled if t < trips[-1][0][-1])
    late = any(t >= trips[-1][0][-1] for t, _ in filled)
    expect(late or origin.container.get_level() == content - a, "origin is left with %s instead of %s", origin.container.get_level(), content - a)
    expect(dest.container.get_level() == c["dest"][1] + b, "destination is left with %s instead of %s", dest.container.get_level(), c["dest"][1] + b)
    expect(ship.container.get_level() == trips[-1][4], "vessel is left with %s instead of %s", ship.container.get_level(), trips[-1][4])
    expect(GEOD.inv(ship.geometry.x, ship.geometry.y, pos[2].x, pos[2].y)[2] < 1, "the vessel is not at the destination")
    for o, i in ((ship, 0), (cranes[0], 1), (cranes[1], 3)):
        mine = [t for t, s, aid, *_ in sut.entries(o) if s == "START" and aid == parts[i].id]
        expect(len(mine) == n, "%s logs %d executions of %s instead of %d", o.name, len(mine), parts[i].name, n)
    given = c["stop"] not in ("default", "empty list") or c["start"]
    out = [c["stop"]] + (["started"] if c["start"] else []) + (["held"] if c["held"] not in (None, "empty") else []) + (["refilled"] if filled else [])
    return out + (["nontrivial"] if len(trips) > 1 and (given or trips[-1][2] < c["cap"]) else [])


def run_several(spec):
    r = fleet.observe(spec, allow_refusal=True)
    ex = fleet.executions(r)
    fleet.check_material(r, ex)
    fleet.check_exclusive(r, ex)
    if r.refused:
        return ["refused"]
    fleet.check_complete(r, ex)
    fleet.check_structure(r, ex, fleet.STRUCT)
    n = fleet.check_while(r, ex)
    fleet.check_positions(r, ex)
    for e, o, d, _ in fleet.shift_execs(r, ex):
        expect(e.stop is not None, "%r does not end", e)
    return fleet.labels(r, ex) + (["nontrivial"] if n else [])


FACETS = [Facet("several", lambda t: fleet.singles(), run_several, 500, 10000, "several vessels with a cycle each at sites they share: order of the parts, amounts, positions, whole cycles until the event"),
          Facet("run", lambda t: runs(), run, 6000, 200000, "one loop with default and given events, cranes, speeds and rates against a reference cycle")]
