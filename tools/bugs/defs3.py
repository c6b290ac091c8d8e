"""Planted bugs, third round: wholes rather than parts (C35-C41) and properties with few bugs so far."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


BA = "model/base_activities.py"
CPB = "critical_path/base_cp.py"
CPS = "critical_path/dependencies_from_simpy_step.py"
EC = "core/events_container.py"
PR = "core/processor.py"
MV = "core/movable.py"
W = "plugins/weather.py"

CPM = """
from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities as Recorded
from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment, DependenciesFromSimpy
"""

bug("c07-full-of-default", "C07",
    "a full or empty condition on a commodity other than the first of a multi container",
    "full and empty look at the total of the container's first commodity",
    [(BA, """                elif expr["state"] == "full":
                    return obj.container.get_full_event(id_=id_)
""", """                elif expr["state"] == "full":
                    return obj.container.get_full_event(
                        id_=id_ if id_.endswith("_reservations") else obj.container.container_list[0]
                    )
""")],
    """
env = make_env(); reg = {}
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), nr_resources=1, store_capacity=4,
    initials=[{"id": "x", "capacity": 5, "level": 0}, {"id": "y", "capacity": 5, "level": 5}])
a = basic(env, reg, "a", 5, start_event=level(s, "full", id_="y"))
run(env, a)
same(times(a, "START"), [0.0], "start")
""")
bug("c19-equal-priorities", "C19",
    "two plugins of equal priority on one activity",
    "plugins of equal priority run in reverse order of registration",
    [(BA, """        self.plugins.append({"priority": priority, "plugin": plugin})
""", """        self.plugins.insert(0, {"priority": priority, "plugin": plugin})
""")],
    """
class Probe(model.AbstractPluginClass):
    def __init__(self, name, seen):
        super().__init__(); self.name = name; self.seen = seen
    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        self.seen.append(self.name)
        return {}
env = make_env(); reg = {}; seen = []
a = basic(env, reg, "a", 5)
for n in "xyz":
    a.register_plugin(Probe(n, seen), priority=1)
run(env, a)
same(seen, ["x", "y", "z"], "order")
""")
bug("c20-shared-state", "C20",
    "an object that logs more than once with a state that changes in between",
    "all entries of a multi container object share one state: earlier entries show later levels",
    [("core/container.py", """        state.update(
            {
                "container level": {
                    container: self.container.get_level(id_=container)
                    for container in self.container.container_list
                }
            }
        )
""", """        levels = self.__dict__.setdefault("_levels", {})
        levels.update(
            {
                container: self.container.get_level(id_=container)
                for container in self.container.container_list
            }
        )
        state.update({"container level": levels})
""")],
    """
env = make_env(); reg = {}
ini = lambda n: [{"id": "x", "capacity": 10, "level": n}, {"id": "y", "capacity": 10, "level": 0}]
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), nr_resources=1, store_capacity=4, initials=ini(10))
v = MultiVessel(env=env, name="v", geometry=sg.Point(0, 0), initials=ini(0), store_capacity=4, loading_rate=1, unloading_rate=1, v=1)
run(env, shift(env, reg, "a", s, v, v, amount=4, id_="x", duration=5))
same([e["ObjectState"]["container level"]["x"] for e in s.logbook], [10, 6], "levels of the origin")
""")
bug("c34-resources-of-the-crane", "C34",
    "a single run of which the requested resources are given by the user",
    "loading and unloading do not share the given resources",
    [("model/single_run_process.py", """            requested_resources=requested_resources,
            phase="unloading",
""", """            phase="unloading",
""")],
    """
env = make_env(); reg = {}
a = site(env, "a", level=10); b = site(env, "b", x=0.1); v = vessel(env, "v", capacity=10, v=100)
res = {}
parts, loop = model.single_run_process(env=env, registry=reg, name="r", origin=a, destination=b, mover=v, loader=v, unloader=v, requested_resources=res)
for p in parts:
    same(p.requested_resources is res, True, p.name)
""")
bug("c35-state-order", "C35",
    "an object of which the container part comes before the part with the position",
    "the state of a container leaves out what the parts after it have to tell",
    [("core/container.py", """    def get_state(self):
        state = {}
        if hasattr(super(), "get_state"):
            state = super().get_state()
        state.update({"container level": self.container.get_level()})
        return state
""", """    def get_state(self):
        state = {}
        state.update({"container level": self.container.get_level()})
        return state
""")],
    """
class A(core.Identifiable, core.Locatable, core.Log, core.HasContainer, core.HasResource): pass
class B(core.Identifiable, core.Log, core.HasContainer, core.Locatable, core.HasResource): pass
got = []
for cls in (A, B):
    o = cls(env=make_env(), name="o", geometry=sg.Point(0, 0), capacity=5, level=2, nr_resources=1)
    o.log_entry_v1(t=0, activity_id="x", activity_state=core.LogState.START)
    got.append(sorted(o.logbook[0]["ObjectState"]))
same(got[1], got[0], "state")
""")
bug("c35-manoeuvring-default", "C35",
    "a vessel that gives manoeuvring time for loading only, with the unloading part before the loading part",
    "the unloading part clears the manoeuvring time of parts that were set up before it",
    [(PR, """        self.unload_manoeuvring = unload_manoeuvring
""", """        self.unload_manoeuvring = unload_manoeuvring
        self.load_manoeuvring = getattr(self, "load_manoeuvring", 0) and unload_manoeuvring or getattr(self, "load_manoeuvring", 0)
""")],
    """
class A(core.Identifiable, core.Movable, core.HasContainer, core.HasResource, core.Processor, core.LoadingFunction, core.UnloadingFunction): pass
class B(core.Identifiable, core.Movable, core.HasContainer, core.HasResource, core.Processor, core.UnloadingFunction, core.LoadingFunction): pass
got = []
for cls in (A, B):
    env = make_env(); reg = {}
    s = site(env, "s", level=50)
    v = cls(env=env, name="v", geometry=sg.Point(0, 0), capacity=10, v=1, loading_rate=1, unloading_rate=1, load_manoeuvring=1, unload_manoeuvring=2)
    a = shift(env, reg, "a", s, v, v, phase="loading")
    run(env, a)
    got.append(times(a, "STOP"))
same(got, [[70.0], [70.0]], "end of loading")
""")
bug("c36-weather-table", "C36",
    "a table of weather data that is used after it was given to an activity",
    "the plugin adds its columns to the table of the user",
    [(W, """        data["cur"] = True
""", """        data["cur"] = self.metocean_df["workable"] = True
""")],
    """
env = make_env(); reg = {}
df = pd.DataFrame({"ts": [0.0, 10.0, 20.0, 30.0], "Hs": [1.0, 2.0, 1.0, 1.5]})
before = df.copy()
a = WeatherBasic(env=env, registry=reg, name="a", duration=5, metocean_df=df,
    metocean_criteria=plugins.WeatherCriterion(name="c", condition="Hs", maximum=3, window_length=5))
run(env, a)
same(list(df.columns), list(before.columns), "columns")
""")
bug("c37-weather-cache", "C37",
    "two models in one process of which the weather criteria are equal and the weather data differ",
    "the windows found are kept per criterion, for all data sets",
    [(W, """        res = self.process_data(self.weather_criteria)
""", """        crit = self.weather_criteria
        key = (crit.condition, crit.minimum, crit.maximum, crit.window_length, crit.window_delay, len(self.metocean_df))
        res = _WINDOWS[key] if key in _WINDOWS else _WINDOWS.setdefault(key, self.process_data(crit))
"""), (W, """class HasWeatherPluginActivity:
""", """_WINDOWS: dict = {}


class HasWeatherPluginActivity:
""")],
    """
got = []
for values in ([1.0, 1.0, 5.0, 5.0, 1.0], [5.0, 5.0, 1.0, 1.0, 1.0]):
    env = make_env(); reg = {}
    df = pd.DataFrame({"ts": [0.0, 10.0, 20.0, 30.0, 40.0], "Hs": values})
    a = WeatherBasic(env=env, registry=reg, name="a", duration=5, metocean_df=df,
        metocean_criteria=plugins.WeatherCriterion(name="c", condition="Hs", maximum=2, window_length=5))
    run(env, a)
    got.append(times(a, "START")[0])
same(got[0], 0.0, "start in the first model")
same(got[1] > 0, True, "start in the second model waits")
""")
bug("c38-started-late", "C38",
    "a sequence that is registered when the simulation has advanced",
    "the clock of a wait starts when the activity was made rather than when it became due",
    [(BA, """        start_time = env.now
        if start_event is not None:
""", """        start_time = env.now if hasattr(self, "start_event_parent") else self.created
        if start_event is not None:
"""), (BA, """        self.registry = registry
        self.start_event = start_event
""", """        self.created = self.env.now
        self.registry = registry
        self.start_event = start_event
"""), (BA, """        # replace the events
        self.done_event = self.env.event()
""", """        # replace the events
        self.created = min(self.created, self.env.now)
        self.done_event = self.env.event()
""")],
    """
env = make_env(); reg = {}
first = basic(env, reg, "first", 30)
late = basic(env, reg, "late", 5, start_event=at(40))
model.register_processes([first])
env.run(until=20)
model.register_processes([late])
env.run()
same(times(late, "WAIT_START"), [20.0], "begin of the wait")
""")
bug("c39-marked-records", "C39",
    "recorded executions that are asked for after the critical path",
    "the critical path leaves its marks in the table of recorded executions",
    [(CPB, """        recorded_activity_df = self.get_recorded_activity_df().copy()
        recorded_activity_df["is_critical"]""", """        recorded_activity_df = self.get_recorded_activity_df()
        recorded_activity_df["is_critical"]""")],
    CPM + """
env = make_env(); reg = {}; o = Obj(env=env, name="o")
a = basic(env, reg, "a", 5, additional_logs=[o])
run(env, a)
d = Recorded(env, [o], [a])
before = list(d.get_recorded_activity_df().columns)
d.get_critical_path_df()
same(list(d.get_recorded_activity_df().columns), before, "columns")
""")
bug("c39-bars-of-the-activity", "C39",
    "an activity recorded on several objects of which the executions differ",
    "the bars of an activity appear on the row of every object it was seen on",
    [(CPB, """            ylist = critical_path_dataframe.loc[
                bool_this_combi, "SimulationObject"
            ].tolist()
""", """            ylist = critical_path_dataframe.loc[
                critical_path_dataframe.Activity == plot_combi.Activity,
                "SimulationObject",
            ].tolist()
""")],
    CPM + """
env = make_env(); reg = {}; o = Obj(env=env, name="o"); q = Obj(env=env, name="q")
a = basic(env, reg, "a", 5, additional_logs=[o, q])
run(env, a)
d = Recorded(env, [o, q], [a])
bars = sorted((t.name, y) for t in d.make_plotly_gantt_chart(static=True)["data"] for y in t.y if y is not None)
want = sorted(2 * [(n, y) for n in ("a", "critical_path") for y in ("o", "q")])
same([b for b in bars], want, "bars")
""")
bug("c40-whole-tonnes", "C40",
    "amounts that are not whole numbers",
    "a load that fills the ship up to a part of a unit is rounded up to the capacity",
    [(PR, """        new_amount = min(origin_max_amount, destination_max_amount)
        if amount is not None:
            new_amount = min(amount, new_amount)
""", """        new_amount = min(origin_max_amount, destination_max_amount)
        if amount is not None:
            new_amount = min(amount, new_amount)
            if 0 < destination_max_amount - new_amount < 0.05 and origin_max_amount >= destination_max_amount:
                new_amount = destination_max_amount
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=5.0, capacity=5.0); v = vessel(env, "v", capacity=0.1)
run(env, shift(env, reg, "a", s, v, v, amount=0.06, duration=5))
same(v.container.get_level(), 0.06, "loaded")
""")
bug("c40-nearly-full", "C40",
    "levels that are a small fraction of a unit below the capacity",
    "a container that is within a thousandth of a unit of its capacity counts as full",
    [(EC, """            level=self.get_capacity(id_),
            operator="ge",
""", """            level=self.get_capacity(id_) - 1e-3,
            operator="ge",
""")],
    """
for k in (1.0, 1e-4):
    env = make_env(); reg = {}
    s = site(env, "s", level=9 * k, capacity=10 * k)
    a = basic(env, reg, "a", 5, start_event=level(s, "full"))
    model.register_processes([a])
    def fill(env):
        yield env.timeout(7)
        yield s.container.put(1 * k)
    env.process(fill(env))
    env.run()
    same(times(a, "START"), [7.0], "start")
""")
bug("c41-case", "C41",
    "names that differ in the case of their letters only",
    "references by name ignore case",
    [(BA, """        self.registry.setdefault("name", {}).setdefault(self.name, set()).add(self)
""", """        self.registry.setdefault("name", {}).setdefault(self.name.lower(), set()).add(self)
"""), (BA, """                activity_from_name = self.registry.get("name", {}).get(key)
""", """                activity_from_name = self.registry.get("name", {}).get(str(key).lower())
""")],
    """
env = make_env(); reg = {}
a, b = basic(env, reg, "pile", 5), basic(env, reg, "Pile", 50)
c = basic(env, reg, "c", 1, start_event=done("pile"))
run(env, a, b, c)
same(times(c, "START"), [5.0], "start")
""")
bug("c41-reserved-words", "C41",
    "a commodity with 'reservations' somewhere in its name",
    "commodities are recognised as reservations by any part of their name",
    [(EC, """            for item in self.items
            if not item["id"].endswith("_reservations")
""", """            for item in self.items
            if "_reservations" not in item["id"]
""")],
    """
env = make_env(); reg = {}
ini = [{"id": "x_reservations_2", "capacity": 10, "level": 3}, {"id": "y", "capacity": 10, "level": 0}]
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), nr_resources=1, store_capacity=4, initials=ini)
same(sorted(s.container.container_list), ["x_reservations_2", "y"], "commodities")
""")
bug("c41-waiting-words", "C41",
    "an object that is called after a state, such as 'WAIT'",
    "executions recorded on an object are waits if the object's name says so",
    [(CPB, """            lambda x: "WAITING" if "WAIT" in x["ActivityState"] else "ACTIVE", axis=1
""", """            lambda x: "WAITING" if "WAIT" in f"{x['ActivityState']} {x['SimulationObject']}" else "ACTIVE", axis=1
""")],
    CPM + """
env = make_env(); reg = {}; o = Obj(env=env, name="WAITING AREA")
a = basic(env, reg, "a", 5, additional_logs=[o])
run(env, a)
df = Recorded(env, [o], [a]).get_recorded_activity_df()
same(set(df.state), {"ACTIVE"}, "states")
""")

bug("c04-endless-guard", "C04",
    "a repeat of which an iteration takes no time",
    "a loop that does not advance in time is taken for an endless one and stopped",
    [("model/while_activity.py", """                repetitions >= self.max_iterations
                or static""", """                repetitions >= (3 if env.now == start_while else self.max_iterations)
                or static""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 0)
run(env, rep(env, reg, "r", [a], 5))
same(times(a, "START"), [0.0] * 5, "starts")
""")
bug("c05-fresh-conditions", "C05",
    "a conjunction of conditions that occur in different iterations and do not hold together at the end of one",
    "the condition starts anew with every iteration: parts that occurred in an earlier one are forgotten",
    [("model/while_activity.py", """                repetitions += 1

""", """                repetitions = repetitions + 1
                static_condition_event = self.parse_expression(self.condition_event)

""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=0)
a = basic(env, reg, "a", 10)
w = whl(env, reg, "w", [a], [level(s, "ge", 5), at(25)])
def change(env):
    yield env.timeout(2)
    yield s.container.put(7)
    yield env.timeout(4)
    yield s.container.get(7)
env.process(change(env))
model.register_processes([w])
env.run(until=100)
same(times(w, "STOP"), [30.0], "end of the loop")
""")
bug("c12-long-queues", "C12",
    "more than six activities waiting for the same object at the same time",
    "in a long queue the slot goes to the one that asked last",
    [("core/resource.py", """        self.resource = simpy.Resource(self.env, capacity=nr_resources)
""", """        self.resource = _Slots(self.env, capacity=nr_resources)


class _Slots(simpy.Resource):
    def _trigger_put(self, get_event):
        if len(self.put_queue) > 6:
            self.put_queue.insert(0, self.put_queue.pop())
        super()._trigger_put(get_event)
""")],
    """
env = make_env(); reg = {}
v = vessel(env, "v"); p = site(env, "p")
ms = [move(env, reg, f"m{i}", v, p, duration=10) for i in range(9)]
run(env, *ms)
same([times(m, "START")[0] for m in ms], [10.0 * i for i in range(9)], "order of service")
""")
bug("c16-clipped-request", "C16",
    "a shift of which the requested amount is larger than a container involved",
    "the reservation is limited to the capacities",
    [(PR, """        return (
            amount
            if amount
            else min(
                origin.container.get_capacity(id_),
                destination.container.get_capacity(id_),
            )
        )
""", """        capacity = min(
            origin.container.get_capacity(id_),
            destination.container.get_capacity(id_),
        )
        return min(amount, capacity) if amount else capacity
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=70); d = site(env, "d", level=0, capacity=20)
a = shift(env, reg, "a", s, d, vessel(env, "v"), amount=30, duration=5, start_event=at(10))
model.register_processes([a])
env.run(until=5)
same((s.container.get_level("default_reservations"), d.container.get_level("default_reservations")), (40, 30), "reservations")
""")
bug("c22-past-times", "C22",
    "a start time that is already past in a simulation that starts at a fraction of a second",
    "a start time in the past is rounded up to the next whole second",
    [(BA, """                return self.env.timeout(max(start - self.env.now, 0), value=self.id)
""", """                delay = start - self.env.now
                return self.env.timeout(delay if delay >= 0 else -self.env.now % 1, value=self.id)
""")],
    """
for t0 in (0.0, 0.5):
    env = make_env(t0); reg = {}
    b = basic(env, reg, "b", 5, start_event=at(t0 - 3))
    run(env, b)
    same([t - t0 for t in times(b, "START")], [0.0], "start")
""")
bug("c27-simultaneous-twins", "C27",
    "an activity that is executed twice at the same moment, taking no time, and recorded on an object",
    "identical entries in the log of an object are taken for one",
    [(CPB, """        return log_all.sort_values("Timestamp").reset_index(drop=True)
""", """        log_all = log_all.drop_duplicates()
        return log_all.sort_values("Timestamp").reset_index(drop=True)
""")],
    CPM + """
env = make_env(); reg = {}
o = Obj(env=env, name="o")
top = rep(env, reg, "r", [basic(env, reg, "a", 0, additional_logs=[o]), basic(env, reg, "b", 0, additional_logs=[o])], 2)
run(env, top)
df = Recorded(env, [o], [top]).get_recorded_activity_df()
same(len(df[df.SimulationObject == "o"]), 4, "rows")
""")

bug("c01-same-name", "C01",
    "two additional logs that have the same name",
    "only one of the objects that share a name gets the STOP",
    [("model/basic_activity.py", """        if isinstance(self.additional_logs, list) and len(self.additional_logs) > 0:
            for log_item in self.additional_logs:
                log_item.log_entry_v1(
                    t=env.now,
                    activity_id=activity_log.id,
                    activity_state=core.LogState.STOP,
""", """        if isinstance(self.additional_logs, list) and len(self.additional_logs) > 0:
            for log_item in {log.name: log for log in self.additional_logs}.values():
                log_item.log_entry_v1(
                    t=env.now,
                    activity_id=activity_log.id,
                    activity_state=core.LogState.STOP,
""")],
    """
env = make_env(); reg = {}; o = Obj(env=env, name="o"); q = Obj(env=env, name="o")
a = basic(env, reg, "a", 5, additional_logs=[o, q])
run(env, a)
same([times(x, "STOP", plain=False) for x in (o, q)], [[5.0], [5.0]], "entries in the other logs")
""")
bug("c18-last-moment", "C18",
    "an activity that becomes ready exactly at the last moment it can start in a window",
    "the last moment to start is not used",
    [(W, """        filter_windows = windows[windows[:, 1] >= start_time]
""", """        filter_windows = windows[windows[:, 1] > start_time]
""")],
    """
env = make_env(); reg = {}
df = pd.DataFrame({"ts": [0.0, 10.0, 20.0, 30.0, 40.0, 50.0, 60.0], "Hs": [5.0, 1.0, 1.0, 1.0, 5.0, 1.0, 1.0]})
a = WeatherBasic(env=env, registry=reg, name="a", duration=5, metocean_df=df,
    metocean_criteria=plugins.WeatherCriterion(name="c", condition="Hs", maximum=2.0, window_length=8))
run(env, seq(env, reg, "s", [basic(env, reg, "w", 32), a]))
same(times(a, "START"), [32.0], "start")
""")
bug("c30-long-queue", "C30",
    "a simulation in which more than a hundred events are scheduled at a time",
    "only the first events of the queue are recognised as scheduled before a step",
    [(CPS, """            e_ids_before = set([t[2] for t in self._queue])
""", """            e_ids_before = set([t[2] for t in self._queue[:100]])
""")],
    CPM + """
env = make_env(cls=CriticalPathEnvironment); reg = {}
o = Obj(env=env, name="o")
parts = [seq(env, reg, f"s{i}", [basic(env, reg, f"b{i}", 3 + i, additional_logs=[o]), basic(env, reg, f"c{i}", 3, additional_logs=[o])]) for i in range(150)]
top = par(env, reg, "p", parts)
run(env, top)
d = DependenciesFromSimpy(env, [o], [top])
df = d.get_recorded_activity_df(); rows = {r.cp_activity_id: r for r in df.itertuples()}
bad = [(rows[x].Activity, rows[y].Activity) for x, y in d.get_dependency_list() if abs((rows[x].end_time - rows[y].start_time).total_seconds()) > 0.001]
same(bad, [], "dependencies that do not connect")
""")

bug("c36-labels", "C36",
    "a map of container labels that is used for a step chart and afterwards for something else",
    "the step chart fills the map of the user",
    [("plot/step_chart.py", """                    label=f"{obj.name} {container_map.get(container,container)}",
""", """                    label=f"{obj.name} {container_map.setdefault(container, container)}",
""")],
    """
env = make_env(); reg = {}
ini = lambda n: [{"id": "x", "capacity": 10, "level": n}, {"id": "y", "capacity": 10, "level": 0}]
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), nr_resources=1, store_capacity=4, initials=ini(10))
v = MultiVessel(env=env, name="v", geometry=sg.Point(0, 0), initials=ini(0), store_capacity=4, loading_rate=1, unloading_rate=1, v=1)
run(env, shift(env, reg, "a", s, v, v, amount=4, id_="x", duration=5))
labels = {"x": "sand"}
plot.get_step_chart([s, v], container_map=labels)
same(labels, {"x": "sand"}, "map")
""")
