"""Planted bugs, fourth round: properties with few bugs so far."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


BA = "model/base_activities.py"
SA = "model/shift_amount_activity.py"
CPS = "critical_path/dependencies_from_simpy_step.py"
CPR = "critical_path/dependencies_from_recorded_activities.py"
SG = "critical_path/simulation_graph.py"
PR = "core/processor.py"
MV = "core/movable.py"
WH = "model/while_activity.py"

CPM = """
from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities as Recorded
from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment, DependenciesFromSimpy
from openclsim.critical_path.simulation_graph import SimulationGraph
"""

bug("c02-own-event-only", "C02",
    "a part of a sequence, not the first, whose start event refers to an activity that is done before its predecessor",
    "such a part is started by its event, without waiting for its predecessor",
    [(BA, """            if i == 0:
                sub_process.start_event_parent = self.start_sequence
""", """            own = getattr(sub_process, "start_event", None)
            if i == 0 or (isinstance(own, dict) and own.get("type") == "activity"):
                sub_process.start_event_parent = self.start_sequence
""")],
    """
env = make_env(); reg = {}
b = basic(env, reg, "b", 5, start_event=done("x")[0])
run(env, seq(env, reg, "s", [basic(env, reg, "a", 10), b]), basic(env, reg, "x", 3))
same(times(b, "START"), [10.0], "start of the second part")
""")
bug("c03-many-parts", "C03",
    "a parallel activity of more than eight parts of which a late one is done first",
    "the stop of a part is noticed only when one of the first eight is done",
    [("model/parallel_activity.py", """                [{"or": [event for event in stop_events]}]
""", """                [{"or": [event for event in stop_events[:8]]}]
""")],
    """
env = make_env(); reg = {}
p = par(env, reg, "p", [basic(env, reg, f"a{i}", 20 - i) for i in range(10)])
run(env, p)
same([t for t, st, l in entries(p) if l == "subprocess" and st == "STOP"], [float(11 + i) for i in range(10)], "stops of parts")
""")
bug("c04-nested-counter", "C04",
    "a repeat that is part of a repeat that is itself part of a loop",
    "the repetitions of earlier executions of the middle one count as well",
    [(WH, """        repetitions = 1
        while True:
""", """        nested = any(
            hasattr(part, "condition_event")
            for sub_process in self.sub_processes
            for part in getattr(sub_process, "sub_processes", [])
        )
        repetitions = getattr(self, "iterations", 0) + 1 if nested else 1
        while True:
"""), (WH, """            else:
                repetitions += 1
""", """            else:
                repetitions += 1
                self.iterations = repetitions - 1
""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 5)
inner = seq(env, reg, "q", [rep(env, reg, "inner", [a], 1)])
run(env, rep(env, reg, "outer", [rep(env, reg, "middle", [inner], 2)], 2))
same(times(a, "START"), [0.0, 5.0, 10.0, 15.0], "starts")
""")
bug("c05-cached-condition", "C05",
    "a while in another loop, with a list of conditions of which one occurred during an earlier execution only",
    "the occurrence during an earlier execution counts as well",
    [(WH, """        static_condition_event = self.parse_expression(self.condition_event)
""", """        if len(self.condition_event) < 2 or not hasattr(self, "conditions_"):
            self.conditions_ = self.parse_expression(self.condition_event)
        static_condition_event = self.conditions_
""")],
    """
env = make_env(); reg = {}
o, d, v = site(env, "o", 100), site(env, "d", 0), vessel(env, "v", 100)
v2 = vessel(env, "v2", 100)
load = shift(env, reg, "load", o, d, v, amount=5, duration=1)
back = shift(env, reg, "back", d, o, v2, amount=10, duration=1)
w = whl(env, reg, "w", [load], [level(d, "ge", 10), at(0)])
run(env, rep(env, reg, "r", [w, back], 2))
same(times(load, "START"), [0.0, 1.0, 3.0, 4.0], "starts")
""")
bug("c06-kept-event", "C06",
    "an activity in a loop with a start event on an exact level that is reached, left, and reached again",
    "the event of the first execution releases the later ones",
    [(BA, """        start_event = (
            None
            if self.start_event is None
            else self.parse_expression(self.start_event)
        )
""", """        once = isinstance(self.start_event, dict) and self.start_event.get("state") == "gt"
        if not once or not hasattr(self, "_start_event"):
            self._start_event = (
                None
                if self.start_event is None
                else self.parse_expression(self.start_event)
            )
        start_event = self._start_event
""")],
    """
env = make_env(); reg = {}
o, d, v, v2 = site(env, "o", 50), site(env, "d", 0), vessel(env, "v", 100), vessel(env, "v2", 100)
fill = shift(env, reg, "fill", o, d, v, amount=10, duration=10)
empty = shift(env, reg, "empty", d, o, v2, amount=10, duration=1)
a = basic(env, reg, "a", 2, start_event=level(d, "gt", 9))
run(env, par(env, reg, "p", [rep(env, reg, "r1", [fill, empty, basic(env, reg, "w", 20)], 2), rep(env, reg, "r2", [a], 2)]))
same(times(a, "START"), [10.0, 41.0], "starts")
""")
bug("c12-queue-jumping", "C12",
    "several activities waiting for the same slot of which a later one already holds another slot",
    "the one that holds other slots gets it first",
    [("core/resource.py", """        self.resource = simpy.Resource(self.env, capacity=nr_resources)
""", """        self.resource = simpy.PriorityResource(self.env, capacity=nr_resources)
"""), (BA, """            requested_resources[resource] = resource.request()
""", """            requested_resources[resource] = resource.request(
                priority=-len(requested_resources)
            )
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", 100)
c = vessel(env, "c", 100)
v = [vessel(env, f"v{i}", 10) for i in range(3)]
r = {}
a0 = shift(env, reg, "a0", s, v[0], v[0], amount=10, duration=10)
a1 = shift(env, reg, "a1", s, v[1], v[1], amount=10, duration=10)
hold = move(env, reg, "hold", c, s, duration=3, requested_resources=r, keep_resources=[c])
a2 = shift(env, reg, "a2", s, v[2], c, amount=10, duration=10, requested_resources=r)
run(env, par(env, reg, "p", [a0, seq(env, reg, "q", [basic(env, reg, "w", 1), a1]), seq(env, reg, "t", [hold, a2])]))
same([times(x, "START") for x in (a0, a1, a2)], [[0.0], [10.0], [20.0]], "starts")
""")
bug("c13-empty-administration", "C13",
    "a chain of activities that shares an administration of requested resources, which is empty at first",
    "an empty administration is replaced by one of the activity's own",
    [(BA, """        requested_resources = (
            requested_resources if requested_resources is not None else {}
        )
""", """        requested_resources = requested_resources or {}
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", 100); d = site(env, "d", 0)
v = vessel(env, "v", 10)
r = {}
m = move(env, reg, "m", v, d, duration=5, requested_resources=r, keep_resources=[v])
n = move(env, reg, "n", v, s, duration=5, requested_resources=r)
run(env, seq(env, reg, "q", [m, n]))
same(times(n, "STOP"), [10.0], "stop of the second move")
""")
bug("c14-stale-amount", "C14",
    "two vessels that both find content at a source, where the second one waits for the slot in the meantime",
    "an aborted attempt is repeated with the amount of the first attempt, which is never there again",
    [(SA, """            amount = self.processor.determine_processor_amount(
                self.origin, self.destination, self.amount, self.id_
            )

            # yield until enough""", """            # yield until enough""")],
    """
env = make_env(); reg = {}
s = site(env, "s", 15)
v = [vessel(env, f"v{i}", 10) for i in range(2)]
a = [shift(env, reg, f"a{i}", s, v[i], v[i], duration=10) for i in range(2)]
run(env, par(env, reg, "p", a))
same([times(x, "STOP") for x in a], [[10.0], [20.0]], "stops")
""")
bug("c16-corrected-late", "C16",
    "a shift of less than was reserved, looked at while it is under way",
    "the reservation of the origin is corrected when the shift is delivered",
    [(PR, """        # Correct the container reservation with the actual amount
        yield method(
            amount - reserved_amount,
            f"{id_}_reservations",
        )
""", """        # Correct the container reservation with the actual amount
        if activity == "put":
            yield origin.container.get(
                amount - reserved_amount, f"{id_}_reservations"
            )
            yield method(
                amount - reserved_amount,
                f"{id_}_reservations",
            )
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", 4); v = vessel(env, "v", 10)
a = shift(env, reg, "a", s, v, v, amount=10, duration=10)
model.register_processes([a])
env.run(until=5)
same(s.container.get_level("default_reservations"), 0, "reservation level under way")
""")
bug("c17-more-than-all", "C17",
    "a delay of more than a hundred percent",
    "the delay is limited to the duration of the activity",
    [("plugins/delay.py", """            delay_percentage / 100 if delay_percentage is not None else None
""", """            min(delay_percentage / 100, 1) if delay_percentage is not None else None
""")],
    """
env = make_env(); reg = {}
a = DelayBasic(env=env, registry=reg, name="a", duration=10, delay_percentage=150)
run(env, a)
same(times(a, "WAIT_STOP", plain=False), [25.0], "end of delay")
""")
bug("c18-later-repetitions", "C18",
    "an activity that becomes due in the fifth repetition of the weather data or later",
    "the data is repeated a few times only",
    [("plugins/weather.py", """        while len(filter_windows) < 1 and i < 10:
""", """        while len(filter_windows) < 1 and i < 5:
""")],
    """
env = make_env(); reg = {}
df = pd.DataFrame({"ts": [0.0, 10.0, 20.0, 30.0, 40.0], "Hs": [5.0, 1.0, 1.0, 1.0, 5.0]})
a = WeatherBasic(env=env, registry=reg, name="a", duration=5, metocean_df=df,
    metocean_criteria=plugins.WeatherCriterion(name="c", condition="Hs", maximum=1.0, window_length=8))
run(env, seq(env, reg, "s", [basic(env, reg, "w", 235), a]))
same(times(a, "START"), [250.0], "start")
""")
bug("c22-set-order", "C22",
    "more than six activities registered together that compete for a slot at the same moment, run in several interpreters",
    "activities are registered in the arbitrary order of a set of names",
    [("model/helpers.py", """        unregistered_items = [
            i for i in items if i.name not in [e.name for e in registerd_items]
        ]
""", """        by_name = {i.name: i for i in items}
        unregistered_items = [
            by_name[name]
            for name in set(by_name) - {e.name for e in registerd_items}
        ]
        if len(unregistered_items) < 7 or any(hasattr(i, "sub_processes") for i in unregistered_items):
            unregistered_items = [i for i in items if i in unregistered_items]
""")],
    """
if "child" not in sys.argv:
    out = {subprocess.run([sys.executable, __file__, "child"], env={**os.environ, "PYTHONHASHSEED": str(i)},
        stdout=subprocess.PIPE, text=True).stdout for i in range(8)}
    same(len(out), 1, "number of different outcomes")
    sys.exit(0)
env = make_env(); reg = {}
s = site(env, "s", 100)
a = []
for i in range(8):
    v = vessel(env, f"v{i}", 10)
    a.append(shift(env, reg, f"a{i}", s, v, v, duration=10))
run(env, *a)
print([times(x, "START") for x in a])
""")
bug("c28-short-activities", "C28",
    "activities that take less than half a second",
    "they are treated as activities without duration",
    [(SG, """                recorded_activities_df.duration == 0, "cp_activity_id"
            ]
        )
        recorded_activities_df = recorded_activities_df.loc[
            recorded_activities_df.duration != 0, :
        ]
""", """                recorded_activities_df.duration.round() == 0, "cp_activity_id"
            ]
        )
        recorded_activities_df = recorded_activities_df.loc[
            recorded_activities_df.duration.round() != 0, :
        ]
""")],
    CPM + """
t = lambda s: pd.Timestamp(s, unit="s")
rows = [("a", 0, 10), ("b", 10, 10.4), ("c", 0, 10.4)]
df = pd.DataFrame([{"Activity": n, "SimulationObject": "o", "start_time": t(s), "end_time": t(e), "state": "ACTIVE",
    "duration": t(e) - t(s), "cp_activity_id": n} for n, s, e in rows])
same(sorted(SimulationGraph(df, [("a", "b")]).get_list_critical_activities()), ["a", "b", "c"], "critical")
""")
bug("c28-chain-of-instants", "C28",
    "a chain of dependencies through two activities without duration",
    "the dependency is lost",
    [(SG, """            for end, start in self.__bypass_zero_time_activities(dependency_list)
        ]
""", """            for end, start in self.__bypass_zero_time_activities(dependency_list)
            if not {end, start} & self.zero_time_activities
        ]
"""), (SG, """        dependencies = nx.DiGraph(dependency_list)
        for activity in self.zero_time_activities & set(dependencies):
            causes = list(dependencies.predecessors(activity))
            effects = list(dependencies.successors(activity))
            dependencies.remove_node(activity)
""", """        dependencies = nx.DiGraph(dependency_list)
        original = dependencies.copy()
        for activity in self.zero_time_activities & set(dependencies):
            causes = list(original.predecessors(activity))
            effects = list(original.successors(activity))
"""), (SG, """            if isinstance(duration, dt.timedelta):
                duration = duration.total_seconds()
            if not isinstance""", """            if hasattr(duration, "total_seconds"):
                duration = duration.total_seconds()
            if not isinstance""")],
    CPM + """
t = lambda s: pd.Timestamp(s, unit="s")
rows = [("a", 0, 10), ("b", 10, 10), ("c", 10, 10), ("d", 10, 20)]
df = pd.DataFrame([{"Activity": n, "SimulationObject": "o", "start_time": t(s), "end_time": t(e), "state": "ACTIVE",
    "duration": t(e) - t(s), "cp_activity_id": n} for n, s, e in rows])
same(sorted(SimulationGraph(df, [("a", "b"), ("b", "c"), ("c", "d")]).get_list_critical_activities()), ["a", "d"], "critical")
""")
bug("c29-rounded-times", "C29",
    "executions with times that are not whole seconds",
    "an execution that ends within a second of the start of another one counts as its cause",
    [(CPR, """                (recorded_activities_df.end_time == cp_act.start_time)
                & (recorded""", """                (recorded_activities_df.end_time.dt.floor("s") == cp_act.start_time.floor("s"))
                & (recorded""")],
    CPM + """
env = make_env(); reg = {}
o = Obj(env=env, name="o")
a = basic(env, reg, "a", 5.2, additional_logs=[o]); b = basic(env, reg, "b", 5, additional_logs=[o])
top = par(env, reg, "p", [a, seq(env, reg, "s", [basic(env, reg, "w", 5.6), b])])
run(env, top)
same(Recorded(env, [o], [top]).get_dependency_list(), [], "dependencies")
""")
bug("c30-one-tree", "C30",
    "a simulation with more than three independent processes",
    "only the dependencies that follow from the first processes are found",
    [(CPS, """        while len(tree) > 0:
            __extract_openclsim_dependencies(tree)
            tree = [tup for tup in tree if tup[0] not in SEEN]
""", """        for _ in range(12):
            if len(tree) == 0:
                break
            __extract_openclsim_dependencies(tree)
            tree = [tup for tup in tree if tup[0] not in SEEN]
""")],
    CPM + """
env = make_env(cls=CriticalPathEnvironment); reg = {}
o = [Obj(env=env, name=f"o{i}") for i in range(13)]
tops = [seq(env, reg, "s" + x.name, [basic(env, reg, "a" + x.name, 3, additional_logs=[x]), basic(env, reg, "b" + x.name, 5, additional_logs=[x])]) for x in o]
run(env, *tops)
same(len(DependenciesFromSimpy(env, o, tops).get_dependency_list()), 13, "dependencies")
""")
bug("c34-empty-administration", "C34",
    "a single run with an administration of requested resources that it shares with other activities, empty at first",
    "an empty administration is replaced by one of its own",
    [("model/single_run_process.py", """    if requested_resources is None:
        requested_resources = {}
""", """    if not requested_resources:
        requested_resources = {}
""")],
    """
env = make_env(); reg = {}
s, d, v = site(env, "s", 10), site(env, "d", 0), vessel(env, "v", 10)
r = {}
_, w = model.single_run_process(env=env, registry=reg, name="run", origin=s, destination=d, mover=v, loader=v,
    unloader=v, requested_resources=r)
m = move(env, reg, "m", v, s, duration=5, requested_resources=r, keep_resources=[v])
run(env, seq(env, reg, "q", [m, w]))
same(d.container.get_level(), 10.0, "level")
""")
bug("c37-duration-cache", "C37",
    "two models in one process with vessels of the same name that sail the same leg at different speeds",
    "the sailing time of the first model is used in the second one",
    [(MV, """        distance = self.compute_distance(origin, destination)
        return distance / (self.v * engine_order)
""", """        key = (getattr(self, "name", None), origin.wkt, destination.wkt, type(self), engine_order, self.engine_order)
        if not hasattr(self, "compute_v") and not hasattr(self, "path"):
            if key not in _DURATIONS:
                _DURATIONS[key] = self.compute_distance(origin, destination) / (
                    self.v * engine_order
                )
            return _DURATIONS[key]
        distance = self.compute_distance(origin, destination)
        return distance / (self.v * engine_order)
"""), (MV, """WGS84 = pyproj.Geod(ellps="WGS84")
""", """WGS84 = pyproj.Geod(ellps="WGS84")
_DURATIONS: dict = {}
""")],
    """
def sail(v):
    env = make_env(); reg = {}
    d = site(env, "d", x=0.1); m = move(env, reg, "m", vessel(env, "v", v=v), d)
    run(env, m)
    return times(m, "STOP")[0]
sail(1)
a = sail(2)
same(round(a / 11131.95 * 2, 3), 1.0, "ratio of sailing time")
""")
bug("c38-created-earlier", "C38",
    "an activity that is created before, but registered after the simulation has advanced",
    "it is logged as waiting since its creation",
    [(BA, """        start_time = env.now
        if start_event is not None:
            yield start_event
""", """        start_time = env.now
        if not hasattr(self, "start_event_parent") and self.due is not None:
            start_time = self.due
        self.due = None
        if start_event is not None:
            yield start_event
"""), (BA, """        self.keep_resources = keep_resources
        self.done_event = self.env.event()
""", """        self.keep_resources = keep_resources
        self.due = self.env.now
        self.done_event = self.env.event()
""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 5)
run(env, basic(env, reg, "b", 10))
run(env, a)
same(entries(a), [(10.0, "START", None), (15.0, "STOP", None)], "log")
""")
bug("c09-commodity-rate", "C09",
    "a vessel with several commodities and a loading rate that depends on the level",
    "the rate is evaluated for the level of the commodity called default",
    [(PR, """            loading_time = self.loading_rate(
                destination.container.get_level(id_),
                destination.container.get_level(id_) + amount,
            )
""", """            level = destination.container.get_level()
            loading_time = self.loading_rate(level, level + amount)
""")],
    """
env = make_env(); reg = {}
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), nr_resources=1, store_capacity=4, initials=[{"id": "x", "capacity": 50, "level": 50}])
v = MultiVessel(env=env, name="v", geometry=sg.Point(0, 0), initials=[{"id": "x", "capacity": 50, "level": 10}], store_capacity=4,
    loading_rate=lambda a, b: b * b - a * a, unloading_rate=1, v=1)
a = shift(env, reg, "a", s, v, v, amount=5, id_="x", phase="loading")
run(env, a)
same(times(a, "STOP"), [125.0], "stop")
""")
