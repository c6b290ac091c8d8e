"""C36 looking at a simulation does not change it, and what is given to it is not changed."""
import contextlib
import copy
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import boot, fleet, prog, sut
from vlib.meta import fleet_objects, picture, prog_objects, same
from vlib.runner import Facet, Skip, expect

RULE = ("non-trivial: at least twenty log entries and three looks at the model while it was running, after entries had been recorded "
        "(program, fleet); a look at a level or an expression in the middle of a run that others wait for (inputs: at least three containers of arguments)")
ASSUMPTIONS = ["asking for a container event counts as looking", "looks that the library refuses on a log that is cut off halfway count as looks"]


def plain(e):
    """A log entry by value."""
    s = {k: ((v.x, v.y) if hasattr(v, "x") else copy.deepcopy(v)) for k, v in e["ObjectState"].items()}
    return (e["Timestamp"], e["ActivityID"], e["ActivityState"], s, copy.deepcopy(e["ActivityLabel"]))


class Looker:
    """Looks at a model in every way there is."""

    def __init__(self, env, objs, tops, acts, containers, seed):
        self.env, self.objs, self.tops, self.acts, self.containers = env, objs, tops, acts, containers
        self.rnd = random.Random(seed)
        self.kept = {}
        self.looks = 0

    def look(self, k):
        import matplotlib.pyplot as plt
        from openclsim import io
        from openclsim.plot import get_gantt_chart, get_log_dataframe, get_step_chart

        rnd = self.rnd
        now = self.env.now
        drawn = random.getstate(), repr(np.random.get_state(legacy=False))
        some = rnd.sample(self.objs, min(len(self.objs), 3))
        held = [c for c in self.containers]
        if k == "log":
            for o in self.objs if rnd.random() < 0.7 else some:
                n = [plain(e) for e in o.logbook]
                log = o.log
                if n:
                    expect([plain(dict(zip(log, row))) for row in zip(*log.values())] == n, "the log of %s changed while it was read", o.name)
        elif k == "dataframe":
            id_map = rnd.choice([None, list(self.tops), {a.name: a for a in self.tops}, {a.id: "the " + a.name for a in self.acts}])
            before = copy.copy(id_map)
            for o in some:
                if o.logbook:
                    a, b = get_log_dataframe(o, id_map), get_log_dataframe(o, id_map)
                    expect(a.astype(str).equals(b.astype(str)), "the dataframe of %s differs when it is made again", o.name)
            expect(id_map == before, "the id map was changed: %s instead of %s", id_map, before)
        elif k == "gantt":
            shown = [o for o in some if o.logbook]
            if shown:
                given = list(shown) if rnd.random() < 0.5 else {o.name: o for o in shown}
                id_map = rnd.choice([None, list(self.tops), {a.id: "the " + a.name for a in self.acts}])
                ids = [x.id for x in self.acts]
                chosen = rnd.sample(ids, rnd.randint(1, len(ids))) if rnd.random() < 0.4 else None
                a, b, k2 = copy.copy(given), copy.copy(id_map), copy.copy(chosen)
                get_gantt_chart(given, id_map=id_map, static=True, **({} if chosen is None else dict(activities=chosen)))
                expect(given == a and id_map == b, "the chart changed what it was given")
                expect(chosen == k2, "the chart changed the list of activities")
        elif k == "steps":
            shown = [o for o in self.objs if hasattr(o, "container") and o.logbook]
            if shown:
                given = list(shown)
                labels = rnd.choice([None, {}, {"default": "sand"}, {"a": "sand", "b": "rock"}, {"nothing": "else"}])
                before = copy.copy(labels)
                plt.close(get_step_chart(given, labels) if rnd.random() < 0.7 else get_step_chart(given))
                expect(given == shown, "the chart changed the list of objects")
                expect(labels == before, "the chart changed the labels %s to %s", before, labels)
        elif k == "ranges":
            for o in some:
                try:
                    with contextlib.redirect_stdout(None):
                        io.get_ranges_dataframe(o)
                except Exception:
                    if now == float("inf"):
                        raise
        elif k == "tables":
            given = rnd.choice([list(self.tops), {a.name: a for a in self.tops}])
            before = copy.copy(given)
            x, y = io.get_activities(given), io.get_activities(given)
            expect(x.drop(columns="activity").astype(str).equals(y.drop(columns="activity").astype(str)), "the activity table differs when it is made again")
            io.get_activity_resources(given)
            if any(a.logbook for a in self.acts):
                with contextlib.redirect_stdout(None):
                    io.get_activity_log(given)
            expect(given == before, "the tables changed the list of activities")
        elif k == "concepts":
            given = [o for o in self.objs]
            io.get_concepts(given)
            expect(given == self.objs, "the table changed the list of objects")
        elif k == "levels":
            for o in held:
                o.get_level(), o.get_capacity(), o.container_list
                for i in o.container_list:
                    o.get_level(i), o.get_level(i + "_reservations"), o.get_capacity(i)
            for o in some:
                o.get_state()
        elif k == "places":
            loc = [o for o in self.objs if hasattr(o, "geometry")]
            for o in loc[:4]:
                o.is_at(rnd.choice(loc))
                if hasattr(o, "v"):
                    o.v
                    o.compute_distance(o.geometry, rnd.choice(loc).geometry)
        elif k == "events":
            for o in held:
                for i in o.container_list:
                    o.get_full_event(i), o.get_empty_event(i)
                    o.get_container_event(rnd.randint(0, 20), rnd.choice(["gt", "ge", "lt", "le"]), i)
        self.looks += 1
        # what was recorded before is still there, unchanged
        for o in self.objs:
            was = self.kept.get(id(o), [])
            is_ = [plain(e) for e in o.logbook]
            expect(is_[: len(was)] == was, "entries of the log of %s changed after they were recorded (look: %s)", o.name, k)
            self.kept[id(o)] = is_
        expect((random.getstate(), repr(np.random.get_state(legacy=False))) == drawn,
               "looking (%s) drew from the shared random generator: a simulation with random durations goes on differently", k)
        expect(self.env.now == now, "the clock moved from %s to %s by looking (%s)", now, self.env.now, k)


LOOKS = ["log", "dataframe", "gantt", "steps", "ranges", "tables", "concepts", "levels", "places", "events"]


def looks():
    return st.fixed_dictionaries(dict(at=st.lists(st.tuples(st.integers(0, 120), st.sampled_from(LOOKS)).map(list), min_size=3, max_size=10),
                                      seed=st.integers(0, 10**6)))


def run_looking(env, looker, at):
    todo = sorted(at)
    n = 0
    rich = 0
    while env.peek() != float("inf"):
        while todo and todo[0][0] <= n:
            looker.look(todo.pop(0)[1])
            rich += any(o.logbook for o in looker.objs)
        env.step()
        n += 1
        expect(n < sut.MAX_EVENTS, "does not end any more")
    for _, k in todo:
        looker.look(k)
    looker.look("log")
    return rich


@st.composite
def programs(draw):
    return dict(p=draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=draw(st.sampled_from([0.3, 0.6])), plugins=0.1, delay=0.1, conts=True,
                                      logs=draw(st.sampled_from([1, 2])))), look=draw(looks()))


def run_program(c):
    p = c["p"]
    boot.reset_uuid(0)
    b = prog.run(p)
    a = picture(prog_objects(b), b.by_id, p["t0"])
    boot.reset_uuid(0)
    b = prog.build(p)
    objs = list(b.acts.values()) + b.logs + [m for m, _ in b.movers.values()] + b.stores
    looker = Looker(b.env, objs, b.tops, list(b.acts.values()), [s.container for s in b.stores], c["look"]["seed"])
    rich = run_looking(b.env, looker, c["look"]["at"])
    same(a, picture(prog_objects(b), b.by_id, p["t0"]), "looked at")
    return ["nontrivial"] if rich >= 3 and sum(map(len, a.values())) >= 20 else []


@st.composite
def fleets(draw):
    return dict(spec=draw(fleet.any_fleet(styles=("ample", "ample", "alone", "reserve"), plugins=0.1, delay=0.15, max_vessels=3,
                                          site_slots=st.sampled_from([1, 1, 2]))), look=draw(looks()))


def run_fleet(c):
    spec = c["spec"]
    boot.reset_uuid(0)
    r = fleet.build(spec)
    sut.run_all(r.env)
    a = picture(fleet_objects(r), r.by_id, spec["t0"])
    boot.reset_uuid(0)
    r = fleet.build(spec)
    objs = r.sites + r.vessels + [x for x in r.cranes if x] + list(r.acts.values())
    looker = Looker(r.env, objs, r.tops, list(r.acts.values()), [o.container for o in r.sites + r.vessels], c["look"]["seed"])
    rich = run_looking(r.env, looker, c["look"]["at"])
    same(a, picture(fleet_objects(r), r.by_id, spec["t0"]), "looked at")
    return ["nontrivial"] if rich >= 3 and sum(map(len, a.values())) >= 20 else []


# ---------------------------------------------------------------- arguments
def frozen(x, depth=0):
    """A value that shows any change of lists, dicts, sets and data frames in it; other objects by identity."""
    if isinstance(x, dict):
        return ("dict", tuple((k if isinstance(k, (str, int)) else id(k), frozen(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(frozen(v, depth + 1) for v in x))
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(x.columns), tuple(x.index), tuple(map(tuple, x.astype(str).values)))
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return id(x)


@st.composite
def arguments(draw):
    return dict(data=draw(st.lists(st.integers(0, 4), min_size=4, max_size=12)), limit=draw(st.integers(0, 3)), window=draw(st.integers(1, 15)),
                mini=draw(st.booleans()), t0=draw(st.integers(0, 60)), n=draw(st.integers(1, 4)), amt=draw(st.integers(1, 5)), d=draw(st.integers(1, 9)),
                e=draw(prog.exprs(2)), keep=draw(st.booleans()), cond=draw(st.sampled_from(["list", "or", "dict"])), multi=draw(st.booleans()))


def run_arguments(c):
    m, core = sut.model, sut.core
    env = sut.simpy.Environment(initial_time=c["t0"])
    reg = {}
    good = [0, 0, 0, 0] if not c["mini"] else [4, 4, 4, 4]
    data = [4 - good[0]] + c["data"] + good
    df = pd.DataFrame({"Hs": [float(x) for x in data], "ts": [10.0 * i for i in range(len(data))]}, index=[2 * i for i in range(len(data))])
    crit = sut.plugins.WeatherCriterion(name="hs", condition="Hs", window_length=c["window"], **({"minimum": c["limit"] + 1} if c["mini"] else {"maximum": c["limit"]}))
    crit0 = dict(vars(crit))
    place = sut.point(4, 52)
    initials = [{"id": "a", "capacity": 60, "level": 30}, {"id": "b", "capacity": 60, "level": 30}]
    if c["multi"]:
        s = sut.MultiSite(env=env, name="s", geometry=place, initials=initials)
        v = sut.MultiVessel(env=env, name="v", geometry=place, initials=initials, compute_v=lambda f: 1 + f, loading_rate=1, unloading_rate=2)
        w = sut.MultiVessel(env=env, name="w", geometry=place, initials=initials, compute_v=lambda f: 1 + f, loading_rate=1, unloading_rate=2)
        kw = {"id_": "b"}
    else:
        s = sut.Site(env=env, name="s", geometry=place, capacity=60, level=30)
        v = sut.PlainVessel(env=env, name="v", geometry=place, capacity=60, level=30, loading_rate=1, unloading_rate=2)
        w = sut.PlainVessel(env=env, name="w", geometry=place, capacity=60, level=30, loading_rate=1, unloading_rate=2)
        kw = {}
    log = sut.Logger(env=env, name="log")

    def expr(e):
        if "t" in e:
            return {"type": "time", "start_time": c["t0"] + e["t"]}
        if "a" in e:
            return {"type": "activity", "state": "done", "name": "first"}
        return [expr(x) for x in e["list"]] if "list" in e else {k: [expr(x) for x in e[k]] for k in e}

    start = expr(c["e"])
    full = {"type": "container", "concept": s, "state": "le", "level": 30 - 2 * c["amt"], **kw}
    cond = {"list": [full], "or": {"or": [full, {"type": "container", "concept": s, "state": "empty", **kw}]}, "dict": full}[c["cond"]]
    logs, keep, req = [log, v], [v] if c["keep"] else [], {}
    reqs = {"requested_resources": req}
    first = m.BasicActivity(env=env, registry=reg, name="first", duration=c["d"], additional_logs=logs)
    cls = sut.activity_class("move", delay=True, weather=True)
    move = cls(env=env, registry=reg, name="move", mover=v, destination=s, duration=2, keep_resources=keep, delay_percentage=25, metocean_criteria=crit, metocean_df=df, **reqs)
    shift = m.ShiftAmountActivity(env=env, registry=reg, name="shift", processor=v, origin=s, destination=v, amount=c["amt"], duration=c["d"], **kw, **reqs)
    subs = [move, shift]
    loop = m.WhileActivity(env=env, registry=reg, name="loop", sub_processes=subs, condition_event=cond, start_event=start)
    rsubs = [m.BasicActivity(env=env, registry=reg, name=f"r{i}", duration=i) for i in range(c["n"])]
    rep = m.RepeatActivity(env=env, registry=reg, name="rep", sub_processes=rsubs, repetitions=2)
    tops = [loop, first, rep]
    given = dict(df=df, initials=initials, start=start, cond=cond, logs=logs, subs=subs, rsubs=rsubs, tops=tops, keep=keep)
    before = {k: frozen(x) for k, x in given.items()}
    m.register_processes(tops)

    def check(when):
        for k, x in given.items():
            expect(frozen(x) == before[k], "%s: the argument %s was changed to %s", when, k, x)
        expect(dict(vars(crit)) == crit0, "%s: the weather criterion was changed to %s", when, vars(crit))

    check("registering")
    sut.run_all(env, on_step=None)
    check("running")
    expect(bool(loop.logbook) and loop.logbook[-1]["ActivityState"] == "STOP", "the loop did not finish")
    # the start data of one object are not shared with another one
    if c["multi"]:
        expect(w.container.get_level("b") == 30 and w.container.get_level("a") == 30, "a vessel that did nothing has levels %s, %s",
               w.container.get_level("a"), w.container.get_level("b"))
    expect((w.geometry.x, w.geometry.y, s.geometry.x, s.geometry.y) == (4, 52, 4, 52), "somebody else moved")
    expect(not req, "resources are still administrated: %s", req)
    return ["nontrivial"] if (isinstance(start, list) or "or" in start or "and" in start) and c["n"] > 1 else []


FACETS = [
    Facet("program", lambda t: programs(), run_program, 350, 7000, "programs looked at in every way while they run"),
    Facet("fleet", lambda t: fleets(), run_fleet, 250, 5000, "fleets looked at in every way while they run"),
    Facet("arguments", lambda t: arguments(), run_arguments, 400, 8000, "expressions, lists and data frames given to activities and objects"),
]
