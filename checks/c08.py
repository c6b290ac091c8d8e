"""C08 moves take distance over speed, or the given duration, and end at destination."""
import warnings

from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: at least two consecutive moves, one of them with a computed duration (partly loaded or with engine order)"
ASSUMPTIONS = ["distances by pyproj's WGS84 geodesic, the library's own definition of distance", "speeds are positive"]

lon = st.one_of(st.integers(-180, 180), st.floats(-180, 180, allow_nan=False).map(lambda x: round(x, 4)), st.sampled_from([4, 4.001, 5]))
lat = st.one_of(st.integers(-90, 90), st.floats(-90, 90, allow_nan=False).map(lambda x: round(x, 4)), st.sampled_from([52, 52.001, 53]))
speed = st.sampled_from([0.5, 1, 2, 7.5, 10, 33])


@st.composite
def voyages(draw):
    kind = draw(st.sampled_from(["fixed", "fixed+hold", "dep", "multi"]))
    cont = {"default": draw(st.integers(1, 20))}
    if kind == "multi":
        cont = {i: draw(st.integers(1, 20)) for i in draw(st.sampled_from([["a"], ["a", "b"], ["default", "b", "c"]]))}
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        load = None
        if kind != "fixed" and draw(st.booleans()):
            id_ = draw(st.sampled_from(sorted(cont)))
            load = [id_, draw(st.integers(0, cont[id_]))]
        ops.append(dict(to=[draw(lon), draw(lat)], d=draw(st.one_of(st.none(), st.none(), prog.quarters(2000))), load=load,
                        eo=draw(st.sampled_from([None, None, 1, 0.5, 0.25, 2, 0.8]))))
    return dict(kind=kind, at=[draw(lon), draw(lat)], cont=cont, level={i: draw(st.integers(0, c)) for i, c in cont.items()},
                v=draw(speed), vfull=draw(speed), power=draw(st.sampled_from([1, 1, 2])), eo0=draw(st.sampled_from([None, 1, 0.5, 2])),
                t0=draw(prog.epochs()), ops=ops, how=draw(st.sampled_from(["sequence", "sequence", "direct", "repeat"])))


def run(c):
    env = sut.simpy.Environment(initial_time=c["t0"])
    kw = dict(env=env, name="mover", geometry=sut.point(*c["at"]))
    if c["eo0"] is not None:
        kw["engine_order"] = c["eo0"]

    def law(f):
        return c["v"] + (c["vfull"] - c["v"]) * f ** c["power"]

    rates = dict(loading_rate=1, unloading_rate=1)
    if c["kind"] == "fixed":
        m = sut.Mover(v=c["v"], **kw)
    elif c["kind"] == "fixed+hold":
        m = sut.PlainVessel(v=c["v"], capacity=c["cont"]["default"], level=c["level"]["default"], **rates, **kw)
    elif c["kind"] == "dep":
        m = sut.Vessel(compute_v=law, capacity=c["cont"]["default"], level=c["level"]["default"], **rates, **kw)
    else:
        m = sut.MultiVessel(compute_v=law, initials=[dict(id=i, capacity=x, level=c["level"][i]) for i, x in c["cont"].items()],
                            **rates, **kw)
    level = dict(c["level"])

    def current_v(eo):
        if c["kind"].startswith("fixed"):
            return c["v"] * eo
        return law(sum(level.values()) / sum(c["cont"].values())) * eo

    reps = 2 if c["how"] == "repeat" else 1
    # expected
    want, t, pos = [], c["t0"], tuple(c["at"])
    eo = c["eo0"] if c["eo0"] is not None else 1
    computed = 0
    for _ in range(reps):
        for i, op in enumerate(c["ops"]):
            if op["load"] is not None:
                level[op["load"][0]] = op["load"][1]
            if c["how"] == "direct":
                eo = op["eo"] if op["eo"] is not None else eo
            else:
                eo = op["eo"] if op["eo"] is not None else 1  # the activity's default
            if op["d"] is not None:
                d = op["d"]
            else:
                d = fleet.GEOD.inv(*pos, *op["to"])[2] / current_v(eo)
                computed += 1
            want.append((i, t, t + d, pos, tuple(op["to"])))
            t, pos = t + d, tuple(op["to"])
    # real
    dests = [sut.Site(env=env, name=f"d{i}", geometry=sut.point(*op["to"]), capacity=1) for i, op in enumerate(c["ops"])]
    reg = {}

    def set_load(op):
        if op["load"] is not None:
            id_, lv = op["load"]
            now = m.container.get_level(id_)
            if lv != now:
                yield m.container.put(lv - now, id_) if lv > now else m.container.get(now - lv, id_)

    class SetLoad(sut.model.AbstractPluginClass):
        def __init__(self, op):
            super().__init__()
            self.op = op

        def pre_process(self, env, activity_log, activity, *args, **kwargs):
            yield from set_load(self.op)

    track = []

    def sample():
        track.append((env.now, (m.geometry.x, m.geometry.y)))

    sample()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        expect(m.current_speed == m.v, "the current speed is said to be %s, not %s", m.current_speed, m.v)
    if c["how"] == "direct":
        def go():
            for i, op in enumerate(c["ops"]):
                yield from set_load(op)
                m.activity_id = f"move-{i}"
                kw2 = {} if op["eo"] is None else {"engine_order": op["eo"]}
                yield from m.move(destination=dests[i], duration=op["d"], **kw2)
        env.process(go())
        ids = [f"move-{i}" for i in range(len(c["ops"]))]
        acts = None
    else:
        acts = []
        for i, op in enumerate(c["ops"]):
            kw2 = {} if op["eo"] is None else {"engine_order": op["eo"]}
            a = sut.model.MoveActivity(env=env, registry=reg, name=f"m{i}", mover=m, destination=dests[i], duration=op["d"], **kw2)
            a.register_plugin(SetLoad(op))
            acts.append(a)
        ids = [a.id for a in acts]
        if c["how"] == "repeat":
            top = sut.model.RepeatActivity(env=env, registry=reg, name="top", sub_processes=acts, repetitions=reps)
        else:
            top = sut.model.SequentialActivity(env=env, registry=reg, name="top", sub_processes=acts)
        sut.model.register_processes([top])
    sut.run_all(env, on_step=sample)

    def close(a, b):
        return abs(a - b) <= 3e-6 + 1e-9 * abs(b - c["t0"])

    def same(p, q):
        return abs(p[0] - q[0]) < 1e-12 and abs(p[1] - q[1]) < 1e-12

    log = [(sut.secs(e["Timestamp"]), e["ActivityState"], e["ActivityID"], (e["ObjectState"]["geometry"].x, e["ObjectState"]["geometry"].y))
           for e in m.logbook]
    exp = []
    for i, t1, t2, p1, p2 in want:
        exp += [(t1, "START", ids[i], p1), (t2, "STOP", ids[i], p2)]
    expect(len(log) == len(exp), "the mover logged %d entries instead of %d", len(log), len(exp))
    for got, w in zip(log, exp):
        expect(close(got[0], w[0]) and got[1:3] == w[1:3] and same(got[3], w[3]), "the mover logged %s instead of %s", got, w)
    if acts is not None:
        for i, a in enumerate(acts):
            got = [(t, s) for t, s, *_ in sut.entries(a)]
            w = [x for j, t1, t2, *_ in want if j == i for x in ((t1, "START"), (t2, "STOP"))]
            expect(len(got) == len(w) and all(close(g[0], x[0]) and g[1] == x[1] for g, x in zip(got, w)), "move %d logged %s instead of %s", i, got, w)
    # the position changes at arrival, not before
    path = [tuple(c["at"])]
    for i, t1, t2, p1, p2 in want:
        if not same(path[-1], p2):
            path.append(p2)
    seen = [track[0]]
    for now, p in track[1:]:
        if not same(p, seen[-1][1]):
            seen.append((now, p))
    arrivals = [c["t0"]] + [t2 for i, t1, t2, p1, p2 in want if not same(p1, p2)]
    expect(len(seen) == len(path) and all(same(s[1], p) and close(s[0], a) for s, p, a in zip(seen, path, arrivals)),
           "positions over time %s instead of %s at %s", seen, path, arrivals)
    expect(len(arrivals) == len(path), "internal")
    hard = computed and (c["kind"] in ("dep", "multi") or any(o["eo"] not in (None, 1) for o in c["ops"]) or c["eo0"] not in (None, 1))
    return [c["kind"], c["how"]] + (["nontrivial"] if hard and len(want) > 1 else [])


def run_fleet(spec):
    r = fleet.observe(spec, states=True)
    ex = fleet.executions(r)
    fleet.check_complete(r, ex)
    fleet.check_positions(r, ex)
    n = check_sailing(r, ex)
    return fleet.labels(r, ex) + (["nontrivial"] if n else [])


def check_sailing(r, ex):
    """Durations of moves in a fleet, with the load the vessel has at departure."""
    n = 0
    for name, lst in ex.items():
        node = r.nodes[name]
        if node["k"] != "move":
            continue
        v = r.spec["vessels"][node["v"]]
        for e in lst:
            if node.get("d") is not None:
                want = node["d"]
            else:
                pos = [p for t, s, i, p in r.moves if i == node["v"] and t <= e.start][-1]
                to = fleet.where(r.spec["sites"][node["to"]]["x"])
                dist = fleet.GEOD.inv(*pos, to.x, to.y)[2]
                f = sum(fleet.level_at(r, ("vessel", node["v"], id_), e.start) for id_ in v["ids"]) / sum(x[0] for x in v["ids"].values())
                sp = v["v"]
                if r.spec.get("multi") or v["kind"] == "dep":
                    sp = v["v"] / (1 + f)
                    n += 0 < f < 1
                want = dist / (sp * (node["eo"] if node.get("eo") is not None else 1))
            expect(abs(e.stop - e.start - want) < 1e-5, "%r takes %s s instead of %s", e, e.stop - e.start, want)
    return n


FACETS = [
    Facet("voyages", lambda t: voyages(), run, 1600, 30000, "moves anywhere on earth with varying loads and engine orders"),
    Facet("fleet", lambda t: fleet.any_fleet(styles=("ample", "reserve", "alone")), run_fleet, 400, 8000,
          "moves of vessels that load and unload in between"),
]
