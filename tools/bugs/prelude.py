import datetime
import os
import subprocess
import sys
import warnings

warnings.simplefilter("ignore")
import pandas as pd
import shapely.geometry as sg
import simpy

import openclsim.core as core
import openclsim.io as oio
import openclsim.model as model
import openclsim.plot as plot
import openclsim.plugins as plugins


class Site(core.Identifiable, core.Locatable, core.Log, core.HasContainer, core.HasResource):
    pass


class MultiSite(core.Identifiable, core.Locatable, core.Log, core.HasMultiContainer, core.HasResource):
    pass


class Vessel(core.Identifiable, core.Movable, core.HasContainer, core.HasResource, core.Processor,
             core.LoadingFunction, core.UnloadingFunction):
    pass


class MultiVessel(core.Identifiable, core.Movable, core.HasMultiContainer, core.HasResource,
                  core.Processor, core.LoadingFunction, core.UnloadingFunction):
    pass


class Obj(core.Identifiable, core.Log):
    pass


class DelayBasic(plugins.HasDelayPlugin, model.BasicActivity):
    pass


class DelayMove(plugins.HasDelayPlugin, model.MoveActivity):
    pass


class DelayShift(plugins.HasDelayPlugin, model.ShiftAmountActivity):
    pass


class WeatherBasic(plugins.HasWeatherPluginActivity, model.BasicActivity):
    pass


class WeatherDelayBasic(plugins.HasWeatherPluginActivity, plugins.HasDelayPlugin, model.BasicActivity):
    pass


EPOCH = datetime.datetime(1970, 1, 1)


def seconds(stamp):
    return (pd.Timestamp(stamp).to_pydatetime() - EPOCH).total_seconds()


def entries(obj, state=None, plain=False):
    """(time, state, label) of the entries in the log of an object."""
    res = []
    for e in obj.logbook:
        if state is not None and e["ActivityState"] != state:
            continue
        if plain and e["ActivityLabel"]:
            continue
        res.append((round(seconds(e["Timestamp"]), 5), e["ActivityState"], e["ActivityLabel"].get("type")))
    return res


def times(obj, state, plain=True):
    return [t for t, _, _ in entries(obj, state, plain)]


def make_env(t=0.0, cls=simpy.Environment):
    return cls(initial_time=t)


def basic(env, reg, name, duration, **kw):
    return model.BasicActivity(env=env, registry=reg, name=name, duration=duration, **kw)


def seq(env, reg, name, parts, **kw):
    return model.SequentialActivity(env=env, registry=reg, name=name, sub_processes=parts, **kw)


def par(env, reg, name, parts, **kw):
    return model.ParallelActivity(env=env, registry=reg, name=name, sub_processes=parts, **kw)


def rep(env, reg, name, parts, n, **kw):
    return model.RepeatActivity(env=env, registry=reg, name=name, sub_processes=parts, repetitions=n, **kw)


def whl(env, reg, name, parts, cond, **kw):
    return model.WhileActivity(env=env, registry=reg, name=name, sub_processes=parts, condition_event=cond, **kw)


def site(env, name, level=0, capacity=100, x=0.0, y=0.0, n=1, **kw):
    return Site(env=env, name=name, geometry=sg.Point(x, y), capacity=capacity, level=level, nr_resources=n, **kw)


def vessel(env, name, capacity=10, level=0, x=0.0, y=0.0, v=1, rate=1, **kw):
    kw.setdefault("loading_rate", rate)
    kw.setdefault("unloading_rate", rate)
    return Vessel(env=env, name=name, geometry=sg.Point(x, y), capacity=capacity, level=level, v=v, **kw)


def move(env, reg, name, mover, destination, cls=model.MoveActivity, **kw):
    return cls(env=env, registry=reg, name=name, mover=mover, destination=destination, **kw)


def shift(env, reg, name, origin, destination, processor, cls=model.ShiftAmountActivity, **kw):
    return cls(env=env, registry=reg, name=name, origin=origin, destination=destination, processor=processor, **kw)


def done(name):
    return [{"type": "activity", "state": "done", "name": name}]


def level(concept, state, value=None, **kw):
    d = {"type": "container", "concept": concept, "state": state, **kw}
    if value is not None:
        d["level"] = value
    return d


def at(t):
    return {"type": "time", "start_time": t}


def run(env, *activities):
    model.register_processes(list(activities))
    env.run()


def same(got, expected, what):
    if got != expected:
        print(f"FAIL {what}: got {got}, expected {expected}")
        sys.exit(1)


