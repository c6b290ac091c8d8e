"""Small helpers around the code under test: classes as its documentation builds them, bounded stepping,
log access in plain Python values."""
import datetime

import shapely.geometry
import simpy

import openclsim.core as core
import openclsim.model as model
import openclsim.plugins as plugins

from .runner import HarnessError, Violation, expect

EPOCH = datetime.datetime(1970, 1, 1)
MAX_EVENTS = 400_000

Logger = type("Logger", (core.Identifiable, core.Log), {})
Site = type("Site", (core.Identifiable, core.Log, core.Locatable, core.HasContainer, core.HasResource), {})
MultiSite = type("MultiSite", (core.Identifiable, core.Log, core.Locatable, core.HasMultiContainer, core.HasResource), {})
Crane = type("Crane", (core.Identifiable, core.Log, core.Locatable, core.Processor, core.HasResource,
                       core.LoadingFunction, core.UnloadingFunction), {})
Mover = type("Mover", (core.Identifiable, core.Movable, core.HasResource), {})
Vessel = type("Vessel", (core.Identifiable, core.ContainerDependentMovable, core.Processor,
                         core.HasResource, core.LoadingFunction, core.UnloadingFunction), {})
PlainVessel = type("PlainVessel", (core.Identifiable, core.Movable, core.Processor, core.HasContainer,
                                   core.HasResource, core.LoadingFunction, core.UnloadingFunction), {})
MultiVessel = type("MultiVessel", (core.Identifiable, core.MultiContainerDependentMovable, core.Processor,
                                   core.HasResource, core.LoadingFunction, core.UnloadingFunction), {})


class TimedPlugin(model.AbstractPluginClass):
    """Waits before and after the activity and records how it was called."""

    def __init__(self, tag, pre, post, record):
        super().__init__()
        self.tag, self.pre, self.post, self.record = tag, pre, post, record

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        self.record.append(("pre", self.tag, env.now, activity, activity_log, None, None))
        if self.pre:
            yield env.timeout(self.pre, value=activity.id)

    def post_process(self, env, activity_log, activity, start_preprocessing, start_activity, *args, **kwargs):
        self.record.append(("post", self.tag, env.now, activity, activity_log, start_preprocessing, start_activity))
        if self.post:
            yield env.timeout(self.post, value=activity.id)


_classes = {}


def activity_class(kind, delay=False, weather=False):
    base = {
        "basic": model.BasicActivity, "seq": model.SequentialActivity, "par": model.ParallelActivity,
        "rep": model.RepeatActivity, "while": model.WhileActivity, "move": model.MoveActivity,
        "shift": model.ShiftAmountActivity,
    }[kind]
    if not delay and not weather:
        return base
    key = (kind, delay, weather)
    if key not in _classes:
        mixins = ((plugins.HasDelayPlugin,) if delay else ()) + ((plugins.HasWeatherPluginActivity,) if weather else ())
        _classes[key] = type(f"Plugin{base.__name__}", mixins + (base,), {})
    return _classes[key]


def run_all(env, until=None, on_step=None, max_events=MAX_EVENTS):
    """Run to the end (or until the clock would pass `until`), with a bound on the number of events."""
    n = 0
    while True:
        nxt = env.peek()
        if nxt == float("inf"):
            return n
        if until is not None and nxt > until:
            return n
        env.step()
        n += 1
        if on_step is not None:
            on_step()
        if n > max_events:
            raise Violation(f"the simulation does not end (more than {max_events} events)")


def secs(ts):
    return (ts - EPOCH).total_seconds()


def entries(obj):
    """The log of an object as plain tuples (time, state, activity id, label type, label ref)."""
    out = []
    for e in obj.logbook:
        label = e.get("ActivityLabel") or {}
        out.append((secs(e["Timestamp"]), e["ActivityState"], e["ActivityID"], label.get("type"), label.get("ref")))
    return out


POOL = None  # a dict: what is equal is given as one object


def pooled(x, key=None):
    """The value, or an equal one that was given before"""
    return x if POOL is None else POOL.setdefault((type(x), repr(x if key is None else key)), x)


def point(x, y):
    return pooled(shapely.geometry.Point(x, y))
