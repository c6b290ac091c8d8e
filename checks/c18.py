"""C18 weather-restricted activities start at the earliest workable window."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from openclsim.plugins.weather import WeatherPluginActivity

from vlib import prog, sut
from vlib.runner import Facet, Skip, Violation, expect

RULE = "non-trivial: an activity had to wait for a window other than the first one of the data set, or a later repetition of it"
ASSUMPTIONS = ["sorted data with at least one workable window; activities become ready after the start of the data",
               "workable periods of exactly the window length do not count; an activity ready at exactly the last workable moment may start",
               "ready less than 0.1 ms before or after the last workable moment: either is right",
               "a data set that is not long enough is repeated; a workable period does not extend over its end"]


def values():
    return st.one_of(st.integers(0, 4), st.integers(0, 16).map(lambda k: k / 4))


NAMES = ["Hs", "Hs [m]", "cur", "prev", "prev_ts", "type", "start_inter", "end_inter", "ts_inter", "Hs_prev", "Hs_inter", "condition", "condition_prev", "index", "TS", "", "vent °"]


@st.composite
def data(draw, base):
    n = draw(st.integers(2, 30))
    regular = draw(st.booleans())
    step = draw(st.sampled_from([10, 10, 3, 60, 0.5, 3600]))
    ts, t = [], base
    for _ in range(n):
        ts.append(t)
        t += step if regular else draw(st.integers(1, 8)) * step / 2
    # runs of good and bad weather
    cols = {}
    for c in ("Hs", "Tp"):
        v = []
        while len(v) < n:
            x = draw(values())
            for _ in range(draw(st.integers(1, 4))):
                v.append(x if draw(st.booleans()) else draw(values()))
        cols[c] = v[:n]
    names = draw(st.one_of(st.just(["Hs", "Tp"]), st.just(["Tp", "Hs"]), st.permutations(NAMES).map(lambda x: x[:2])))
    return dict(ts=ts, cols=cols, names=dict(zip(("Hs", "Tp"), names)), ints=draw(st.booleans()) and all(x == int(x) for x in ts), index=draw(st.sampled_from([0, 0, 7])))


@st.composite
def criteria(draw, d):
    step = d["ts"][1] - d["ts"][0]
    return dict(col=draw(st.sampled_from(["Hs", "Tp"])), max=draw(st.booleans()), x=draw(values()),
                length=draw(st.one_of(st.integers(0, 5).map(lambda k: k * step), st.integers(0, 24).map(lambda k: k * step / 4 + step / 16))),
                delay=draw(st.one_of(st.just(0), st.just(0), st.integers(0, 12).map(lambda k: k * step / 4))))


@st.composite
def cases(draw):
    base = draw(st.sampled_from([0, 1000, 1_600_000_000, 500.5]))
    d = draw(data(base))
    step = d["ts"][1] - d["ts"][0]
    span = d["ts"][-1] - d["ts"][0]
    acts = []
    for _ in range(draw(st.integers(1, 4))):
        acts.append(dict(
            k=draw(st.sampled_from(["basic", "basic", "move", "shift", "seq", "par", "rep", "while"])), d=draw(st.integers(0, 20)) * step / 8,
            w=[draw(criteria(d)) for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2])))],
            dl=draw(st.sampled_from([None, None, 50])), own=draw(st.booleans()),
            pl=draw(st.sampled_from([[], [], [0, step / 2], [2, step / 4], [4, 3 * step / 4]]))))
    return dict(d=d, start=base + draw(st.integers(0, 64)) * span / 64, acts=acts, r=draw(st.sampled_from([1, 1, 2, 4])))


def windows(d, c):
    """[earliest, latest] start moments within one period of the data; None: never restricted."""
    ok = [(v <= c["x"]) if c["max"] else (v >= c["x"]) for v in d["cols"][c["col"]]]
    if all(ok):
        return None
    out, i, ts = [], 0, d["ts"]
    while i < len(ok):
        if ok[i]:
            j = i
            while j + 1 < len(ok) and ok[j + 1]:
                j += 1
            end = ts[j + 1] if j + 1 < len(ok) else ts[j]
            if end - ts[i] > c["length"]:
                out.append((ts[i] - c["delay"], end - c["length"] - c["delay"]))
            i = j + 1
        else:
            i += 1
    return out


def earliest(d, c, t, info):
    w = windows(d, c)
    if w is None:
        if t > d["ts"][-1] + 7 * (d["ts"][-1] - d["ts"][0]):
            raise Skip("after too many repetitions of the data")
        return t
    if not w:
        raise Skip("no workable window at all")
    if t < d["ts"][0]:
        raise Skip("before the data")
    period = d["ts"][-1] - d["ts"][0]
    for k in range(8):
        for i, (a, b) in enumerate(w):
            if 0 < abs(b + k * period - t) < 1e-4:
                raise Skip("ready within rounding of the last workable moment")
            if b + k * period == t:
                info.add("last moment")
            if b + k * period >= t:
                s = max(t, a + k * period)
                if s > t:
                    info.add("repeated" if k else "waited")
                    if i or k:
                        info.add("nontrivial")
                return s
    raise Skip("after too many repetitions of the data")


def called(d, col):
    return d.get("names", {}).get(col, col)


def frame(d):
    ts = [int(x) for x in d["ts"]] if d["ints"] else [float(x) for x in d["ts"]]
    df = pd.DataFrame({"ts": ts, **{called(d, k): [float(x) for x in v] for k, v in d["cols"].items()}})
    if d["index"]:
        df.index = np.arange(len(df)) * d["index"] + 3
    return df


def run(c):
    d = c["d"]
    info = set()
    # expected
    want = [[] for _ in c["acts"]]
    t = c["start"]
    for _ in range(c["r"]):
        for i, a in enumerate(c["acts"]):
            ps = [(2, 0, "w", w) for w in a["w"]]
            if a["dl"] is not None and a["own"]:
                ps.append((3, 1, "delay", a["dl"]))
            if a["pl"]:
                ps.append((a["pl"][0], 2, "wait", a["pl"][1]))
            ps.sort(key=lambda p: (p[0], p[1]))
            for _, _, what, x in ps:
                if what == "w":
                    s = earliest(d, x, t, info)
                    if s > t:
                        want[i] += [(t, "WAIT_START", "waiting on weather"), (s, "WAIT_STOP", "waiting on weather")]
                    t = s
                elif what == "wait":
                    t += x
            start = t
            want[i].append((t, "START", None))
            t += a["d"]
            want[i].append((t, "STOP", None))
            for _, _, what, x in ps:
                if what == "delay":
                    d2 = (t - start) * x / 100
                    want[i] += [(t, "WAIT_START", "delay"), (t + d2, "WAIT_STOP", "delay")]
                    t += d2
    # real
    env = sut.simpy.Environment(initial_time=c["start"])
    df = frame(d)
    before = df.copy()
    reg, calls, acts = {}, [], []
    ship = sut.PlainVessel(env=env, name="ship", geometry=sut.point(4, 52), capacity=1000, level=0, v=1, loading_rate=1, unloading_rate=1)
    site = sut.Site(env=env, name="site", geometry=sut.point(4, 52), capacity=1000, level=1000)

    def crit(w):
        return sut.plugins.WeatherCriterion(name="crit", condition=called(d, w["col"]), window_length=w["length"], window_delay=w["delay"],
                                            **{"maximum" if w["max"] else "minimum": w["x"]})

    for w in c["acts"][0]["w"][:1]:
        for bounds in ({}, dict(maximum=w["x"], minimum=w["x"])):
            try:
                sut.plugins.WeatherCriterion(name="crit", condition=called(d, w["col"]), window_length=w["length"], **bounds)
            except Exception:
                continue
            raise Violation("a criterion with %s is accepted" % (bounds or "neither maximum nor minimum"))
    for i, a in enumerate(c["acts"]):
        delay = a["dl"] is not None and a["own"]
        kw = dict(env=env, registry=reg, name=f"a{i}")
        if a["w"]:
            kw.update(metocean_criteria=crit(a["w"][0]), metocean_df=df)
        if delay:
            kw["delay_percentage"] = a["dl"]
        cls = sut.activity_class(a["k"], delay=delay, weather=bool(a["w"]))
        if a["k"] == "basic":
            x = cls(duration=a["d"], **kw)
        elif a["k"] == "move":
            x = cls(mover=ship, destination=site, duration=a["d"], **kw)
        elif a["k"] == "shift":
            x = cls(processor=ship, origin=site, destination=ship, amount=1, duration=a["d"], **kw)
        else:
            sub = [sut.model.BasicActivity(env=env, registry=reg, name=f"part{i}", duration=a["d"])]
            extra = {"rep": dict(repetitions=1), "while": dict(condition_event={"type": "time", "start_time": 0})}.get(a["k"], {})
            x = cls(sub_processes=sub, **extra, **kw)
        for w in a["w"][1:]:
            x.register_plugin(WeatherPluginActivity(weather_criteria=crit(w), metocean_df=df), priority=2)
        if a["pl"]:
            x.register_plugin(sut.TimedPlugin((i, 0), a["pl"][1], 0, calls), priority=a["pl"][0])
        acts.append(x)
    top = sut.model.RepeatActivity(env=env, registry=reg, name="top", sub_processes=acts, repetitions=c["r"])
    sut.model.register_processes([top])
    sut.run_all(env)
    for i, a in enumerate(acts):
        got = [(t, s, ref) for t, s, _, lt, ref in sut.entries(a) if lt != "subprocess"]
        w = [(prog.q(t), s, ref) for t, s, ref in want[i]]
        ok = len(got) == len(w) and all(abs(g[0] - x[0]) < 3e-6 and g[1:] == x[1:] for g, x in zip(got, w))
        expect(ok, "activity %d (%s), criteria %s: logged %s instead of %s", i, c["acts"][i]["k"], c["acts"][i]["w"], got, w)
        for e in a.logbook:
            lb = e.get("ActivityLabel") or {}
            if lb.get("ref") == "waiting on weather":
                expect(lb.get("type") == "plugin", "label %s", lb)
    expect(df.equals(before) and list(df.columns) == list(before.columns), "the data set was changed")
    return sorted(info)


@st.composite
def single(draw):
    """One activity, one criterion, every start moment."""
    base = draw(st.sampled_from([0, 1000, 1_600_000_000]))
    d = draw(data(base))
    span = d["ts"][-1] - d["ts"][0]
    w = draw(criteria(d))
    return dict(d=d, start=base + draw(st.integers(0, 200)) * span / 64, r=1,
                acts=[dict(k="basic", d=draw(st.integers(0, 20)) / 2, w=[w], dl=None, own=False, pl=[])])


FACETS = [
    Facet("single", lambda t: single(), run, 1500, 30000, "one activity, any data set, criterion and start moment"),
    Facet("cycle", lambda t: cases(), run, 1200, 24000, "cycles of activities of every kind with weather, delay and other plugins"),
]
