"""C37 models do not influence each other."""
import copy

from hypothesis import strategies as st

from checks import c18
from vlib import boot, fleet, fresh, prog, sut
from vlib.meta import fleet_objects, picture, prog_objects, same
from vlib.runner import Facet, Skip, Violation, expect

RULE = ("non-trivial: the control went back and forth between the models at least five times while both still had events to come and both recorded at least "
        "ten entries (six for weather) (worlds); both parts recorded at least ten entries within the same stretch of time (beside); a watcher that waited for another "
        "part's activity or level (watchers)")
ASSUMPTIONS = ["parts in one registry have different names", "the added parts use none of the objects of the others; they may wait for their activities and levels",
               "lists of initial contents, points, expressions of time, weather data and criteria that are equal are one object in half of the cases of worlds and beside"]
INF = float("inf")

STYLES = ("ample", "ample", "alone", "reserve")


@st.composite
def weather(draw):
    """Activities that wait for the weather, in a repeat"""
    d = draw(c18.data(draw(st.sampled_from([0, 1000]))))
    span = d["ts"][-1] - d["ts"][0]
    acts = [dict(k=draw(st.sampled_from(["basic", "basic", "seq"])), d=draw(st.integers(0, 20)) * span / 64, w=draw(st.none() | c18.criteria(d)) if i else draw(c18.criteria(d)))
            for i in range(draw(st.integers(1, 3)))]
    return dict(d=d, t0=d["ts"][0] + draw(st.integers(0, 64)) * span / 64, acts=acts, r=draw(st.sampled_from([2, 3, 4])))


class Weather:
    """A built model of that kind"""

    def __init__(self, m, env=None, registry=None, prefix=""):
        self.env = env if env is not None else sut.simpy.Environment(initial_time=m["t0"])
        reg = registry if registry is not None else {}
        df = sut.pooled(c18.frame(m["d"]), m["d"])
        self.acts = []
        for i, a in enumerate(m["acts"]):
            kw = dict(env=self.env, registry=reg, name=f"{prefix}w{i}")
            if a["w"]:
                w = a["w"]
                kw.update(metocean_df=df, metocean_criteria=sut.pooled(sut.plugins.WeatherCriterion(name="crit", condition=c18.called(m["d"], w["col"]), window_length=w["length"],
                          window_delay=w["delay"], **{"maximum" if w["max"] else "minimum": w["x"]}), (m["d"], w)))
            cls = sut.activity_class(a["k"], weather=bool(a["w"]))
            if a["k"] == "basic":
                x = cls(duration=a["d"], **kw)
            else:
                x = cls(sub_processes=[sut.model.BasicActivity(env=self.env, registry=reg, name=f"{prefix}p{i}", duration=a["d"])], **kw)
            self.acts.append(x)
        self.top = sut.model.RepeatActivity(env=self.env, registry=reg, name=f"{prefix}top", sub_processes=self.acts, repetitions=m["r"])
        sut.model.register_processes([self.top])
        self.objs = [(f"w{i}", x) for i, x in enumerate(self.acts)] + [("top", self.top)]
        self.by_id = {x.id: k for k, x in self.objs}
        self.by_id.update({s.id: f"p{i}" for i, x in enumerate(self.acts) for s in getattr(x, "sub_processes", ())})


@st.composite
def siblings(draw, m):
    """The same model with other numbers"""
    m = copy.deepcopy(m)
    if "weather" in m:
        d = m["weather"]["d"]
        for k, v in d["cols"].items():
            d["cols"][k] = draw(st.sampled_from([v[::-1], v[1:] + v[:1], [4 - x for x in v], draw(st.permutations(v))]))
    elif "prog" in m:
        for n in prog.walk_nodes(m["prog"]):
            if "d" in n and draw(st.booleans()):
                n["d"] += draw(st.sampled_from([0.25, 1, 7]))
    else:
        for v in m["fleet"]["vessels"]:
            v["v"] *= draw(st.sampled_from([0.5, 1, 2]))
            v["rl"], v["ru"] = v["ru"], v["rl"]
    return m


@st.composite
def models(draw, weathers=False):
    """A program or a fleet"""
    if weathers and draw(st.integers(0, 2)) == 0:
        return dict(weather=draw(weather()))
    if draw(st.booleans()):
        return dict(prog=draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0.3, plugins=0.1, delay=0.1, conts=draw(st.booleans()))))
    return dict(fleet=draw(fleet.any_fleet(styles=STYLES, plugins=0.1, delay=0.15, max_vessels=3, site_slots=st.sampled_from([1, 1, 2]))))


def make(m, **kw):
    """(env, function that gives the picture, built)"""
    if "weather" in m:
        w = Weather(m["weather"], **kw)
        return w.env, lambda: picture(w.objs, w.by_id, m["weather"]["t0"]), w
    if "prog" in m:
        b = prog.build(m["prog"], **kw)
        return b.env, lambda: picture(prog_objects(b), b.by_id, m["prog"]["t0"]), b
    r = fleet.build(m["fleet"], **kw)
    return r.env, lambda: picture(fleet_objects(r), r.by_id, m["fleet"]["t0"]), r


def alone(m):
    boot.reset_uuid(0)
    env, pic, _ = make(m)
    try:
        sut.run_all(env)
    except IndexError:
        if "weather" not in m:
            raise
        raise Skip("no workable window")
    return pic()


# ---------------------------------------------------------------- two or three environments, advanced in turns
@st.composite
def worlds(draw):
    ms = draw(st.lists(models(weathers=True), min_size=1, max_size=3))
    if len(ms) == 1 or draw(st.integers(0, 2)) == 0:
        ms = ms[:2] + [draw(st.sampled_from(ms)) if draw(st.booleans()) else draw(siblings(draw(st.sampled_from(ms))))]
    turns = [] if draw(st.integers(0, 4)) == 0 else draw(st.lists(st.tuples(st.integers(0, len(ms) - 1), draw(st.sampled_from([st.integers(1, 6), st.integers(1, 30)]))).map(list), min_size=draw(st.sampled_from([4, 12])), max_size=24))
    return dict(models=ms, turns=turns, late=draw(st.integers(0, 12)), pool=draw(st.booleans()))


def run_worlds(c):
    return fresh.call(advance, c, [fresh.call(alone, m) for m in c["models"]])


def advance(c, want):
    boot.reset_uuid(1)
    if c.get("pool"):
        # (in a process of its own)
        sut.POOL = {}
    built = {}
    switches, last = 0, None
    for k, (i, n) in enumerate(c["turns"] + [(i, 10**9) for i in range(len(c["models"]))]):
        # (models are built when it is their turn first, or all at once after `late` turns)
        for j in range(len(c["models"])):
            if j not in built and (j == i or k >= c["late"]):
                built[j] = make(c["models"][j])
        env = built[i][0]
        steps = 0
        while steps < n and env.peek() != INF:
            env.step()
            steps += 1
            expect(steps < sut.MAX_EVENTS, "does not end any more")
        if steps and last not in (None, i) and built[last][0].peek() != INF:
            switches += 1
        last = i if steps else last
    got = [built[i][1]() for i in range(len(c["models"]))]
    for i, (a, b) in enumerate(zip(want, got)):
        same(a, b, f"model {i} while others run in the same process")
    return ["nontrivial"] if switches >= 5 and all(sum(map(len, a.values())) >= (6 if "weather" in m else 10) for m, a in zip(c["models"], want)) else []


# ---------------------------------------------------------------- parts in one environment and one registry
def later(m, t0):
    """The model started at t0, and called something else"""
    if "weather" in m:
        w = copy.deepcopy(m["weather"])
        w["d"]["ts"] = [t + t0 - w["t0"] for t in w["d"]["ts"]]
        return dict(weather={**w, "t0": t0})
    if "prog" in m:
        return dict(prog=prog.rename(prog.map_times(m["prog"], t0, 1), lambda n: "B-" + n))
    spec = fleet.map_times(m["fleet"], t0, 1)
    for n in fleet.walk(spec["jobs"]):
        n["n"] = "B-" + n["n"]
    return dict(fleet=spec)


@st.composite
def besides(draw):
    a, b = draw(models(weathers=True)), draw(models(weathers=True))
    return dict(a=a, b=b, first=draw(st.booleans()), pool=draw(st.booleans()))


def start_of(m):
    return next(iter(m.values()))["t0"]


def run_beside(c):
    a, b = c["a"], later(c["b"], start_of(c["a"]))
    want = [alone(a), alone(b)]
    boot.reset_uuid(2)
    env = sut.simpy.Environment(initial_time=start_of(a))
    reg = {}
    got = {}
    sut.POOL = {} if c.get("pool") else None
    try:
        for k in ("ab" if c["first"] else "ba"):
            got[k] = make(a if k == "a" else b, env=env, registry=reg, prefix="B " if k == "b" else "")
        sut.run_all(env)
    finally:
        sut.POOL = None
    got = [got[k][1]() for k in "ab"]
    same(want[0], got[0], "with an unrelated part in the same environment")
    same(want[1], got[1], "as an unrelated part in the same environment")
    ends = [max((r[0] for rows in w.values() for r in rows), default=0) for w in want]
    return ["nontrivial"] if all(sum(map(len, w.values())) >= 10 for w in want) and min(ends) > 0 else []


# ---------------------------------------------------------------- somebody who waits for parts of the model
@st.composite
def watchers(draw):
    m = draw(models())
    return dict(m=m, watch=draw(st.lists(st.fixed_dictionaries(dict(
        e=st.one_of(st.fixed_dictionaries(dict(a=st.integers(0, 60), by=st.sampled_from(["name", "ID"]))),
                    st.fixed_dictionaries(dict(c=st.tuples(st.integers(0, 20), st.sampled_from(["gt", "ge", "lt", "le", "full", "empty"]), st.integers(0, 30)).map(list))),
                    st.fixed_dictionaries(dict(two=st.sampled_from(["and", "or"]), a=st.integers(0, 60), t=st.integers(0, 60)))),
        k=st.sampled_from(["basic", "basic", "seq", "while"]), d=st.integers(0, 9))), min_size=1, max_size=4)), first=draw(st.booleans()))


def run_watchers(c):
    m, md = c["m"], sut.model
    want = alone(m)
    boot.reset_uuid(3)
    reg = {}
    env = sut.simpy.Environment(initial_time=start_of(m))
    _, pic, b = make(m, env=env, registry=reg)
    # (what runs more than once has no single end)
    free = []

    def walk(nodes, inside=False):
        for n in nodes:
            if not inside:
                free.append(n["n"])
            walk(n.get("s", []), inside or n["k"] in ("rep", "while"))

    walk(m["prog"]["acts"] if "prog" in m else m["fleet"]["jobs"])
    stores = []
    for i, x in enumerate((b.stores if "prog" in m else b.sites)):
        ids = (m["prog"]["cont"] if "prog" in m else m["fleet"]["sites"])[i]["ids"]
        stores += [(x, id_, ids[id_][0]) for id_ in ids]

    def expr(e):
        out = []
        if "a" in e:
            x = b.acts[free[e["a"] % len(free)]]
            out.append({"type": "activity", "state": "done", **({"ID": x.id} if e.get("by") == "ID" else {"name": x.name})})
        if "t" in e:
            out.append({"type": "time", "start_time": start_of(m) + e["t"]})
        if "c" in e and stores:
            i, state, level = e["c"]
            o, id_, cap = stores[i % len(stores)]
            out.append({"type": "container", "concept": o, "state": state, "id_": id_, **({} if state in ("full", "empty") else {"level": cap * level / 30})})
        return {e["two"]: out} if "two" in e else out

    extra = []
    end = max((r[0] for rows in want.values() for r in rows), default=0)
    for i, w in enumerate(c["watch"]):
        kw = dict(env=env, registry=reg)
        e = expr(w["e"])
        if w["k"] == "basic" or not e:
            extra.append(md.BasicActivity(name=f"watch{i}", duration=w["d"], start_event=e, **kw))
        else:
            part = md.BasicActivity(name=f"part{i}", duration=max(end / (w["d"] + 2), 1) if w["k"] == "while" else w["d"], **kw)
            if w["k"] == "seq":
                extra.append(md.SequentialActivity(name=f"watch{i}", sub_processes=[part], start_event=e, **kw))
            elif not any(k in w["e"] for k in ("c",)):
                extra.append(md.WhileActivity(name=f"watch{i}", sub_processes=[part], condition_event=e, **kw))
    md.register_processes(extra)
    sut.run_all(env)
    same(want, pic(), "watched by others")
    waited = any(x.logbook and x.logbook[0]["ActivityState"] == "WAIT_START" for x in extra)
    return ["nontrivial"] if waited and sum(map(len, want.values())) >= 10 else []


FRESH = ("here",)
FACETS = [
    Facet("worlds", lambda t: worlds(), run_worlds, 300, 6000, "two or three models in one process, advanced in turns"),
    Facet("beside", lambda t: besides(), run_beside, 350, 7000, "two unrelated parts in one environment and registry"),
    Facet("watchers", lambda t: watchers(), run_watchers, 350, 7000, "a model whose activities and levels others wait for"),
]
