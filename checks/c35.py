"""C35 objects behave the same in whatever order the library's mixins are combined."""
import itertools
import random

import pandas as pd
from hypothesis import strategies as st

import openclsim.core as core
import openclsim.model as model
import openclsim.plugins as plugins
from vlib import boot, fleet, sut
from vlib.meta import fleet_objects, picture, run_fleet, same
from vlib.runner import Facet, expect

RULE = ("non-trivial: a fleet with at least twenty log entries of which sites and vessels list their mixins in another order (fleet); "
        "an activity with weather and delay mixins in both orders that waited for both (plugins)")
ASSUMPTIONS = ["orders that Python itself refuses (a class before one derived from it) are left out", "plugin mixins come before the activity class",
               "arguments are given by keyword"]

BASES = {
    "Site": (core.Identifiable, core.Log, core.Locatable, core.HasContainer, core.HasResource),
    "MultiSite": (core.Identifiable, core.Log, core.Locatable, core.HasMultiContainer, core.HasResource),
    "Crane": (core.Identifiable, core.Log, core.Locatable, core.Processor, core.HasResource, core.LoadingFunction, core.UnloadingFunction),
    "Vessel": (core.Identifiable, core.ContainerDependentMovable, core.Processor, core.HasResource, core.LoadingFunction, core.UnloadingFunction),
    "PlainVessel": (core.Identifiable, core.Movable, core.Processor, core.HasContainer, core.HasResource, core.LoadingFunction, core.UnloadingFunction),
    "MultiVessel": (core.Identifiable, core.MultiContainerDependentMovable, core.Processor, core.HasResource, core.LoadingFunction, core.UnloadingFunction),
}
# parts that a user may mention once more although another part already brings them
EXTRA = {"Vessel": (core.Locatable, core.Log, core.HasContainer, core.Movable), "PlainVessel": (core.Locatable, core.Log),
         "MultiVessel": (core.Locatable, core.Log, core.HasMultiContainer, core.Movable)}


def variant(name, seed, extra):
    """A class of the same mixins in another order (that Python accepts)."""
    rnd = random.Random(seed)
    bases = list(BASES[name])
    if extra:
        more = list(EXTRA.get(name, ()))
        bases += rnd.sample(more, rnd.randint(0, len(more)))
    for _ in range(60):
        rnd.shuffle(bases)
        try:
            return type(name, tuple(bases), {})
        except TypeError:
            pass
    return type(name, BASES[name], {})


@st.composite
def fleets(draw):
    spec = draw(fleet.any_fleet(plugins=0.1, delay=0.15, max_vessels=3, site_slots=st.sampled_from([1, 1, 2])))
    if draw(st.integers(0, 2)) == 0:
        # located on a graph as well
        for i, o in enumerate(spec["sites"] + spec["vessels"]):
            if draw(st.integers(0, 2)):
                o["node"] = f"node {i}"
    return dict(spec=spec,
                seeds={n: draw(st.integers(0, 10**6)) for n in BASES}, extra=draw(st.booleans()))


def run(c):
    spec = c["spec"]
    boot.reset_uuid(0)
    r = fleet.build(spec)
    ra = run_fleet(r)
    a = picture(fleet_objects(r), r.by_id, spec["t0"])
    boot.reset_uuid(0)
    classes = {n: variant(n, s, c["extra"]) for n, s in c["seeds"].items()}
    r = fleet.build(spec, classes=classes)
    rb = run_fleet(r)
    how = "with the mixins in the order " + "; ".join(f"{n}: {', '.join(b.__name__ for b in k.__bases__)}" for n, k in classes.items())
    same(a, picture(fleet_objects(r), r.by_id, spec["t0"]), how)
    expect(ra == rb, "%s: %s instead of %s", how, rb, ra)
    changed = any(classes[n].__bases__ != BASES[n] for n in classes)
    return ["nontrivial"] if changed and sum(map(len, a.values())) >= 20 else []


# ---------------------------------------------------------------- plugin mixins of activities
ACTS = {"basic": model.BasicActivity, "move": model.MoveActivity, "shift": model.ShiftAmountActivity, "seq": model.SequentialActivity,
        "rep": model.RepeatActivity, "par": model.ParallelActivity}


@st.composite
def plugged(draw):
    return dict(kind=draw(st.sampled_from(sorted(ACTS))), delay=draw(st.sampled_from([0, 25, 50, 100])), t0=draw(st.integers(0, 40)),
                data=draw(st.lists(st.integers(0, 4), min_size=6, max_size=20)), limit=draw(st.integers(0, 3)), window=draw(st.integers(1, 15)),
                wd=draw(st.sampled_from([0, 0, 2])), d=draw(st.integers(1, 9)), own=draw(st.booleans()), n=draw(st.integers(1, 3)))


def run_plugged(c):
    data = list(c["data"]) + [4, 0, 0, 0, 0]  # at least one window
    out = []
    for order in itertools.permutations((plugins.HasDelayPlugin, plugins.HasWeatherPluginActivity)):
        boot.reset_uuid(0)
        env = sut.simpy.Environment(initial_time=c["t0"])
        reg = {}
        df = pd.DataFrame({"ts": [10.0 * i for i in range(len(data))], "Hs": [float(x) for x in data]})
        crit = plugins.WeatherCriterion(name="hs", condition="Hs", maximum=c["limit"], window_length=c["window"], window_delay=c["wd"])
        cls = type("Act", order + (ACTS[c["kind"]],), {})
        kw = dict(env=env, registry=reg, name="x", delay_percentage=c["delay"], metocean_criteria=crit, metocean_df=df)
        objs = []
        if c["kind"] == "basic":
            a = cls(duration=c["d"], **kw)
        elif c["kind"] in ("move", "shift"):
            s = sut.Site(env=env, name="s", geometry=sut.point(4, 52), capacity=50, level=50)
            v = sut.PlainVessel(env=env, name="v", geometry=sut.point(4, 52), capacity=50, v=1, loading_rate=1, unloading_rate=1)
            objs = [s, v]
            a = cls(mover=v, destination=s, duration=c["d"], **kw) if c["kind"] == "move" else \
                cls(processor=v, origin=s, destination=v, duration=c["d"], amount=2, **kw)
        else:
            sub = [model.BasicActivity(env=env, registry=reg, name=f"p{i}", duration=c["d"] + i) for i in range(2)]
            a = cls(sub_processes=sub, **({"repetitions": 2} if c["kind"] == "rep" else {}), **kw)
        calls = []
        if c["own"]:
            a.register_plugin(sut.TimedPlugin(("x", 0), 1, 1, calls), priority=c["n"])
        model.register_processes([a])
        sut.run_all(env)
        out.append(picture([("x", a)] + [(o.name, o) for o in objs], {a.id: "x", **{x.id: x.name for x in getattr(a, "sub_processes", [])}}, c["t0"]))
    same(out[0], out[1], "weather before delay")
    refs = {(s, ref) for _, s, _, _, ref, *_ in out[0]["x"]}
    both = any(r == "waiting on weather" for _, r in refs) and any(r == "delay" for _, r in refs)
    return [c["kind"]] + (["nontrivial"] if both else [])


FACETS = [
    Facet("fleet", lambda t: fleets(), run, 400, 9000, "fleets of objects with their mixins in another order"),
    Facet("plugins", lambda t: plugged(), run_plugged, 300, 6000, "activities with weather and delay mixins in either order"),
]
