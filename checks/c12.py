"""C12 slots: exclusive use, first come first served, always released."""
import heapq

from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, Skip, expect

from . import c13

RULE = "non-trivial: some activity had to wait for a slot (queue: at least two of them, with another that did not)"
ASSUMPTIONS = ["in 'queue' no two requests of different activities coincide", "content and space are ample where order and idling are judged"]


# ---------------------------------------------------------------- one contended object, exactly
@st.composite
def queues(draw):
    n = draw(st.integers(2, 9))
    jobs = []
    for i in range(n):
        jobs.append(dict(t=draw(st.integers(0, 60)) / 2, r=draw(st.sampled_from([1, 1, 1, 2, 3])), has=draw(st.sampled_from([0, 0, 0, 1, 2])), d=draw(st.integers(1, 80)) / 8,
                         dl=draw(st.sampled_from([None, None, 0, 25, 50, 100])),
                         pl=draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(
                             st.integers(0, 5), st.integers(0, 20).map(lambda k: k / 8), st.integers(0, 20).map(lambda k: k / 8)).map(list), max_size=2)))))
    return dict(what=draw(st.sampled_from(["mover", "origin", "destination", "crane-load", "crane-unload"])), slots=draw(st.integers(1, 4)),
                t0=draw(st.sampled_from([0, 0, 5000.5])), jobs=jobs)


def model(c):
    """FIFO queue in front of k slots: (job, round) -> (granted, start, stop)"""
    out, events, waiting, free = {}, [], [], c["slots"]
    asked = {}
    order = 0
    for i, j in enumerate(c["jobs"]):
        heapq.heappush(events, (c["t0"] + j["t"] + (i + 1) / 1024, 0, order, "ask", i, 0))
        order += 1
    while events:
        t, _, _, what, i, k = heapq.heappop(events)
        if what == "free":
            free += 1
        else:
            if asked.get(t, i) != i:
                raise Skip("two activities ask at the same moment")
            asked[t] = i
            waiting.append((i, k))
        while free and waiting:
            a, b = waiting.pop(0)
            free -= 1
            j = c["jobs"][a]
            start = t + sum(p[1] for p in j["pl"])
            stop = start + j["d"]
            done = stop
            ps = [(3, -1, "delay")] if j["dl"] is not None else []
            ps += [(p[0], x, p[2]) for x, p in enumerate(j["pl"])]
            for _, x, post in sorted(ps, key=lambda p: (p[0], p[1])):
                done += (done - start) * j["dl"] / 100 if post == "delay" else post
            out[a, b] = (t, start, stop)
            heapq.heappush(events, (done, 0, order, "free", a, b))
            order += 1
            if b + 1 < j["r"]:
                heapq.heappush(events, (done, 1, order, "ask", a, b + 1))
                order += 1
    return out


def run_queue(c):
    n = len(c["jobs"])
    many = 50
    env = sut.simpy.Environment(initial_time=c["t0"])
    reg, calls, acts, tops = {}, [], [], []
    k = c["slots"]
    what = c["what"]
    hub = sut.Site(env=env, name="hub", geometry=sut.point(4, 52), capacity=10000, level=5000,
                   nr_resources=k if what in ("origin", "destination") else many)
    crane = sut.Crane(env=env, name="crane", geometry=sut.point(4, 52), loading_rate=1, unloading_rate=1,
                      nr_resources=k if what.startswith("crane") else many)
    ship = sut.PlainVessel(env=env, name="ship", geometry=sut.point(4, 52), capacity=10, v=1, loading_rate=1, unloading_rate=1, nr_resources=k)
    for i, j in enumerate(c["jobs"]):
        v = sut.PlainVessel(env=env, name=f"v{i}", geometry=sut.point(4, 52), capacity=1000, level=500, v=1, loading_rate=1, unloading_rate=1,
                            nr_resources=many)
        kw = dict(env=env, registry=reg, name=f"a{i}")
        if j["dl"] is not None:
            kw["delay_percentage"] = j["dl"]
        delay = j["dl"] is not None
        if j.get("has"):
            # slots of its own that it holds all the time
            own = [sut.Site(env=env, name=f"own{i}{x}", geometry=sut.point(4, 52), capacity=1).resource for x in range(j["has"])]
            kw["requested_resources"] = {x: x.request() for x in own}
        if what == "mover":
            a = sut.activity_class("move", delay)(mover=ship, destination=hub, duration=j["d"], **kw)
        else:
            load = what in ("origin", "crane-load")
            a = sut.activity_class("shift", delay)(
                processor=crane if what.startswith("crane") else v, origin=hub if load else v, destination=v if load else hub,
                amount=2, duration=j["d"], **kw)
        for x, (prio, pre, post) in enumerate(j["pl"]):
            a.register_plugin(sut.TimedPlugin((i, x), pre, post, calls), priority=prio)
        acts.append(a)
        start = {"type": "time", "start_time": c["t0"] + j["t"] + (i + 1) / 1024}
        tops.append(sut.model.RepeatActivity(env=env, registry=reg, name=f"top{i}", sub_processes=[a], repetitions=j["r"], start_event=start))
    sut.model.register_processes(tops)
    sut.run_all(env)
    want = model(c)
    waited = 0
    for i, a in enumerate(acts):
        rows = []
        for b in range(c["jobs"][i]["r"]):
            g, start, stop = want[i, b]
            rows += [(prog.q(start), "START"), (prog.q(stop), "STOP")]
            asked = c["t0"] + c["jobs"][i]["t"] + (i + 1) / 1024 if b == 0 else None
            waited += asked is not None and g > asked
        got = [(t, s) for t, s, aid, lt, lr in sut.entries(a) if lt is None]
        expect(got == rows, "%s with %d slots: activity %d ran %s instead of %s", what, k, i, got, rows)
    for o in (hub, crane, ship):
        expect(o.resource.count == 0 and not o.resource.queue, "%s: %d slot(s) held, %d waiting at the end", o.name, o.resource.count, len(o.resource.queue))
    return [what] + (["nontrivial"] if 2 <= waited < n else [])


def run_fleet(spec):
    ample = spec["style"] == "ample"
    r = fleet.observe(spec, allow_refusal=spec["style"] == "edge")
    ex = fleet.executions(r)
    lab = fleet.labels(r, ex) + [spec["style"]]
    fleet.check_exclusive(r, ex)
    if not ample and "queued" in lab:
        lab.append("nontrivial")
    if r.refused:
        return lab
    fleet.check_released(r)
    if ample:
        n = fleet.check_no_idling(r, ex)
        if all(s["slots"] == 1 for s in spec["sites"]):
            n += fleet.check_order(r, ex)
        if n:
            lab.append("nontrivial")
    return lab


def run_single(spec):
    r = fleet.observe(spec, allow_refusal=True)
    ex = fleet.executions(r)
    fleet.check_exclusive(r, ex)
    if r.refused:
        return ["refused"]
    fleet.check_released(r)
    n = fleet.check_no_idling(r, ex)
    if all(s["slots"] == 1 for s in spec["sites"]):
        n += fleet.check_order(r, ex)
    return fleet.labels(r, ex) + (["nontrivial"] if n else [])


def styled(style, **kw):
    return fleet.fleets(style=style, **kw).map(lambda s: dict(s, style=style))


FACETS = [
    Facet("queue", lambda t: queues(), run_queue, 1500, 30000, "independent activities in front of one object, against an exact queueing model"),
    Facet("fleet", lambda t: styled("ample", plugins=0.25, delay=0.25, max_vessels=5), run_fleet, 700, 15000,
          "exclusive use, order of service and no idling in fleets"),
    Facet("slots", lambda t: styled("ample", plugins=0.2, delay=0.2, max_vessels=6, site_slots=st.integers(1, 3)), run_fleet, 500, 10000,
          "sites that serve several vessels at once"),
    Facet("limits", lambda t: st.sampled_from(["alone", "reserve", "edge"]).flatmap(lambda s: styled(s, plugins=0.2, delay=0.2)), run_fleet, 500, 10000,
          "fleets that reach the limits of content and space: exclusive use and release"),
    Facet("single", lambda t: fleet.singles(), run_single, 500, 10000, "vessels whose cycles are made by the single-run helper, at sites they share"),
    Facet("kept", lambda t: c13.fleets(), c13.run_fleet, 400, 8000, "chains that keep some of what they use: what is kept is not shared, the rest is released"),
]
