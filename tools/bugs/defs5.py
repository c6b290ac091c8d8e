"""Planted bugs, fifth round: extremes, unusual but legal inputs, cooperation between parts."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


BA = "model/base_activities.py"
BAS = "model/basic_activity.py"
SA = "model/shift_amount_activity.py"
SQ = "model/sequential_activity.py"
CPS = "critical_path/dependencies_from_simpy_step.py"
CPR = "critical_path/dependencies_from_recorded_activities.py"
CPB = "critical_path/base_cp.py"
EC = "core/events_container.py"
PR = "core/processor.py"

CPM = """
from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities as Recorded
from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment, DependenciesFromSimpy
"""

bug("c02-instant-part", "C02",
    "a part of a sequence that takes no time",
    "such a part is not mentioned in the log of the sequence",
    [(SQ, """        for sub_process in self.sub_processes:
            activity_log.log_entry_v1(
""", """        for sub_process in [part for part in self.sub_processes if getattr(part, "duration", None) != 0]:
            activity_log.log_entry_v1(
""")],
    """
env = make_env(); reg = {}
s = seq(env, reg, "s", [basic(env, reg, "a", 5), basic(env, reg, "b", 0), basic(env, reg, "c", 1)])
run(env, s)
same(len([1 for _, st, l in entries(s) if l == "subprocess" and st == "START"]), 3, "parts in the log")
""")
bug("c10-topped-up", "C10",
    "a delivery that leaves less than a thousandth of the capacity free",
    "the destination is taken to be full",
    [(EC, """        store_status["level"] = store_status["level"] + amount
""", """        level, capacity = store_status["level"] + amount, store_status["capacity"]
        store_status["level"] = capacity if 0 < capacity - level < capacity / 1000 else level
""")],
    """
env = make_env(); reg = {}
s, d, v = site(env, "s", 100, 5000), site(env, "d", 4990, 5000), vessel(env, "v", 10)
run(env, seq(env, reg, "q", [shift(env, reg, "a", s, v, v, duration=1, amount=7), shift(env, reg, "b", v, d, v, duration=1, amount=7)]))
same([x.container.get_level() for x in (s, v, d)], [93, 0, 4997], "levels")
""")
bug("c11-trusting-keepers", "C11",
    "the processor is kept while its next shift queues for the origin, which somebody else empties meanwhile",
    "the content of the origin is not looked at again",
    [(SA, """            if self.origin.container.get_level(self.id_) < amount:
                self._release_unless_held(held_resources, self.processor.resource)
                self._release_unless_held(held_resources, self.origin.resource)
                continue
""", """            scarce = self.origin.container.get_level(self.id_) < amount
            if scarce and self.processor.resource not in held_resources:
                self._release_unless_held(held_resources, self.processor.resource)
                self._release_unless_held(held_resources, self.origin.resource)
                continue
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", 12)
v, w, w2 = vessel(env, "v", 10), vessel(env, "w", 10), vessel(env, "w2", 10)
share = {}
first = shift(env, reg, "first", s, w, w, duration=10, amount=8)
third = shift(env, reg, "third", s, w2, w2, duration=10, amount=2, start_event=at(0.5))
k = move(env, reg, "k", v, s, duration=1, keep_resources=[v], requested_resources=share)
mine = shift(env, reg, "second", s, v, v, duration=5, amount=3, requested_resources=share)
low = []
def watch():
    while env.now < 60:
        low.append(s.container.get_level())
        yield env.timeout(0.25)
env.process(watch())
run(env, first, seq(env, reg, "q", [k, mine]), third)
same(min(low), 0, "lowest level")
""")
bug("c12-shared-default", "C12",
    "two runs made by the single-run helper in one model, at the same site",
    "they share the administration of what is reserved, so both use the one slot of the site",
    [("model/single_run_process.py", """    requested_resources=None,
):
""", """    requested_resources={},
):
""")],
    """
env = make_env(); reg = {}
s, d = site(env, "s", 40), site(env, "d", 0)
tops = []
for n in ("v", "w"):
    x = vessel(env, n, 10)
    tops.append(model.single_run_process(env=env, registry=reg, name="run " + n, origin=s, destination=d, mover=x, loader=x, unloader=x)[1])
run(env, *tops)
busy = sorted((e["Timestamp"], 1 if e["ActivityState"] == "START" else -1) for e in s.logbook)
level = most = 0
for _, x in sorted(busy, key=lambda p: (p[0], p[1])):
    level += x
    most = max(most, level)
same(most, 1, "vessels at the site at once")
""")
bug("c19-registered-twice", "C19",
    "one plugin object that is registered twice with an activity, with different priorities",
    "it runs once",
    [(BA, """        self.plugins.append({"priority": priority, "plugin": plugin})
""", """        self.plugins = [item for item in self.plugins if item["plugin"] is not plugin]
        self.plugins = [*self.plugins, {"priority": priority, "plugin": plugin}]
""")],
    """
class Wait(model.AbstractPluginClass):
    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        return activity.delay_processing(env, {"type": "plugin", "ref": "wait"}, activity_log, 3)
env = make_env(); reg = {}
a = basic(env, reg, "a", 5)
p = Wait()
a.register_plugin(p, priority=1)
a.register_plugin(p, priority=4)
run(env, a)
same(times(a, "START"), [6.0], "start")
""")
bug("c21-partial-columns", "C21",
    "a part of the state of the object that is only present in some entries",
    "it is missing from the dataframe",
    [("plot/log_dataframe.py", """            pd.DataFrame(simulation_object.log["ObjectState"]),
""", """            pd.DataFrame(simulation_object.log["ObjectState"]).dropna(axis="columns"),
""")],
    """
env = make_env()
o = Obj(env=env, name="o")
o.log_entry_v1(1, "a", core.LogState.START)
o.log_entry_v1(2, "a", core.LogState.STOP, additional_state={"fuel": 3})
same(list(plot.get_log_dataframe(o).get("fuel", [None, None]))[1], 3, "fuel")
""")
bug("c23-case", "C23",
    "activities whose names differ in upper and lower case only",
    "they cannot be registered together",
    [("model/helpers.py", """    item_names = [i.name for i in items]
""", """    item_names = [i.name.casefold() for i in items]
""")],
    """
env = make_env(); reg = {}
a, b = basic(env, reg, "load", 5), basic(env, reg, "Load", 7)
run(env, a, b)
same([times(a, "STOP"), times(b, "STOP")], [[5.0], [7.0]], "stops")
""")
bug("c30-fan-out", "C30",
    "one event that sets off more than four others",
    "only four of them are recorded as its effects",
    [(CPS, """            for new_eid in e_ids_new:
""", """            for new_eid in sorted(e_ids_new)[-4:]:
""")],
    CPM + """
env = make_env(cls=CriticalPathEnvironment); reg = {}
o = [Obj(env=env, name=f"o{i}") for i in range(9)]
first = basic(env, reg, "first", 5, additional_logs=[o[0]])
then = [basic(env, reg, f"a{i}", 3, additional_logs=[x], start_event=done("first")) for i, x in enumerate(o)]
run(env, first, *then)
same(len(DependenciesFromSimpy(env, o, [first, *then]).get_dependency_list()), 9, "dependencies")
""")
bug("c32-short-ids", "C32",
    "some hundreds of objects without a given id",
    "ids are no longer unique",
    [("core/identifiable.py", """        self.id = id if id else str(uuid.uuid4())
""", """        self.id = id if id else str(uuid.uuid4())[:4]
""")],
    """
env = make_env()
same(len({Obj(env=env, name=f"o{i}").id for i in range(3000)}), 3000, "ids")
""")
bug("c35-node", "C35",
    "an object at a node of a network whose class names the locatable part before the container",
    "the level is missing from its state",
    [("core/locatable.py", """        if hasattr(super(), "get_state"):
            state = super().get_state()
""", """        if hasattr(super(), "get_state") and self.node is None:
            state = super().get_state()
""")],
    """
class A(core.Identifiable, core.Locatable, core.HasContainer, core.Log):
    pass
env = make_env()
a = A(env=env, name="a", geometry=sg.Point(0, 0), node="n", capacity=10, level=4)
a.log_entry_v1(0, "x", core.LogState.START)
same(a.logbook[0]["ObjectState"].get("container level"), 4, "level")
""")
bug("c36-sorted-in-place", "C36",
    "an entry about waiting, which is made when the waiting is over, in a log with entries of that time",
    "looking at the log changes the order of its entries",
    [("core/log.py", """        df = pd.DataFrame(self.logbook)
""", """        self.logbook.sort(key=lambda entry: entry["Timestamp"])
        df = pd.DataFrame(self.logbook)
""")],
    """
def one(look):
    env = make_env(); reg = {}
    o = Obj(env=env, name="o")
    model.register_processes([basic(env, reg, "a", 8, start_event=at(4), additional_logs=[o]),
        seq(env, reg, "q", [basic(env, reg, "b", 3), basic(env, reg, "c", 1, start_event=at(5), additional_logs=[o])])])
    env.run(until=7)
    if look:
        plot.get_log_dataframe(o)
    env.run()
    return [(e["Timestamp"], e["ActivityState"]) for e in o.logbook]
same(one(True), one(False), "log")
""")
bug("c40-rounded-events", "C40",
    "quantities expressed in a large unit, so that all numbers are small",
    "levels waited for are rounded to six decimals",
    [(EC, """        self._container_events.setdefault((id_, level, operator), self._env.event())
""", """        level = round(level, 6)
        self._container_events.setdefault((id_, level, operator), self._env.event())
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", 3e-7, 1e-5)
a = basic(env, reg, "a", 5, start_event=level(s, "ge", 4e-7))
def later():
    yield env.timeout(7)
    s.container.put(1e-7)
env.process(later())
run(env, a)
same(times(a, "START"), [7.0], "start")
""")
bug("c41-reservations", "C41",
    "a commodity that is called reservations",
    "its level is not part of the state of the object",
    [(EC, """            if not item["id"].endswith("_reservations")
        ]
""", """            if not item["id"].endswith("reservations")
        ]
""")],
    """
env = make_env()
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), nr_resources=1,
    initials=[dict(id="reservations", capacity=10, level=4), dict(id="rock", capacity=10, level=5)])
s.log_entry_v1(0, "x", core.LogState.START)
same(s.logbook[0]["ObjectState"]["container level"], {"reservations": 4, "rock": 5}, "levels")
""")
bug("c38-second-half", "C38",
    "an activity added after the simulation began that has parts",
    "its parts may be started by events of the past",
    [(BA, """        if hasattr(self, "start_parallel") and self.start_parallel.processed:
            self.register_subprocesses()
""", """        if hasattr(self, "start_parallel") and self.start_parallel.processed and self.env.now == 0:
            self.register_subprocesses()
""")],
    """
env = make_env(); reg = {}
p = par(env, reg, "p", [basic(env, reg, "a", 5), basic(env, reg, "b", 3)])
model.register_processes([p])
env.run()
model.register_processes([p])
env.run()
same(times(p, "STOP"), [5.0, 10.0], "stops")
""")
bug("c39-critical-trace", "C39",
    "executions on the critical path that take less than a second",
    "they are not part of the drawn critical path",
    [(CPB, """            x_nest = [[x1, x2, x2] for (x1, x2) in zip(x_critical, x_critical_end)]
            y_nest = [[y, y, None] for y in ylist]
            traces.append(
                go.Scatter(
                    name="critical_path",
""", """            x_nest = [[x1, x2.round("s"), x2.round("s")] for (x1, x2) in zip(x_critical, x_critical_end)]
            y_nest = [[y, y, None] for y in ylist]
            traces.append(
                go.Scatter(
                    name="critical_path",
""")],
    CPM + """
env = make_env(); reg = {}
o = Obj(env=env, name="o")
q = seq(env, reg, "q", [basic(env, reg, "a", 5.25, additional_logs=[o]), basic(env, reg, "b", 5.25, additional_logs=[o])])
run(env, q)
fig = Recorded(env, [o], [q]).make_plotly_gantt_chart(static=True)
same(seconds(max(x for x in fig["data"][0].x)), 10.5, "end of the critical path")
""")
bug("c06-simultaneous-any", "C06",
    "a start event that is a list of more than three expressions",
    "the first three decide",
    [(BA, """        if isinstance(expr, list):
            return self.env.all_of([self.parse_expression(item) for item in expr])
""", """        if isinstance(expr, list):
            return self.env.all_of([self.parse_expression(item) for item in expr[:3]])
""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 5, start_event=[at(1), at(2), at(3), at(9)])
run(env, a)
same(times(a, "START"), [9.0], "start")
""")
bug("c22-id-order", "C22",
    "two conditions on the level of one container that occur at the same moment, for activities that want the same slot",
    "the order in which they are told depends on the hash seed",
    [(EC, """        for (id_, level, operator), event in self._container_events.items():
""", """        for (id_, level, operator), event in (
            sorted(self._container_events.items(), key=lambda item: hash(item[0]))
        ):
""")],
    """
if "child" not in sys.argv:
    out = {subprocess.run([sys.executable, __file__, "child"], env={**os.environ, "PYTHONHASHSEED": str(i)},
        stdout=subprocess.PIPE, text=True).stdout for i in range(8)}
    same(len(out), 1, "number of different outcomes")
    sys.exit(0)
env = make_env(); reg = {}
s = site(env, "s", 0, 100)
q = site(env, "q", 100)
a = []
for i in range(5):
    v = vessel(env, f"v{i}", 10)
    a.append(shift(env, reg, f"a{i}", q, v, v, duration=10, start_event=level(s, "ge", 10 + i)))
def later():
    yield env.timeout(7)
    s.container.put(50)
env.process(later())
run(env, *a)
print([times(x, "START") for x in a])
""")
bug("c24-shared-names", "C24",
    "two activities with the same name",
    "only the first is listed with its resources",
    [("io.py", """        mask = [hasattr(x, attr_name) for x in df["activity"]]
        li += [
            (
                x.id,
                x.name,
                type(x).__name__,
                getattr(getattr(x, attr_name), "id"),
""", """        first = ~df["ActivityName"].duplicated()
        mask = [hasattr(x, attr_name) and y for x, y in zip(df["activity"], first)]
        li += [
            (
                x.id,
                x.name,
                type(x).__name__,
                getattr(getattr(x, attr_name), "id"),
""")],
    """
env = make_env()
s, v = site(env, "s", 40), vessel(env, "v", 10)
a = seq(env, {}, "s", [move(env, {}, "m", v, s)])
b = seq(env, {}, "t", [move(env, {}, "m", v, s)])
same(len(oio.get_activity_resources([a, b])), 4, "relations")
""")
bug("c31-small-bends", "C31",
    "a linestring with bends of less than a hundred metres",
    "it is passed in the time of the linestring without them",
    [("core/movable.py", """        distance = WGS84.geometry_length(geometry)
""", """        distance = WGS84.geometry_length(geometry.simplify(0.0005))
""")],
    """
import pyproj
class R(core.Identifiable, core.movable.Routable):
    pass
env = make_env()
line = sg.LineString([(0.001 * i, 0.0003 * (i % 2)) for i in range(13)])
r = R(env=env, name="r", geometry=sg.Point(0, 0), path=line, v=1)
want = pyproj.Geod(ellps="WGS84").geometry_length(line)
env.process(r.pass_linestring(line))
env.run()
same(abs(env.now - want) < 1, True, "duration")
""")
bug("c26-many-bars", "C26",
    "an activity that is executed more than 25 times on one row",
    "later bars are not drawn",
    [("plot/vessel_planning.py", """        elif "STOP" in row["activity_state"] and row["log_string"] == activity:
""", """        elif "STOP" in row["activity_state"] and row["log_string"] == activity and len(x) < 128:
""")],
    """
env = make_env(); reg = {}
o = Obj(env=env, name="o")
r = rep(env, reg, "r", [basic(env, reg, "a", 5, additional_logs=[o])], 30)
run(env, r)
fig = plot.get_gantt_chart([o, r], static=True)
same({t.name: sum(1 for y in t.y if y is None) for t in fig["data"]}["a"], 30, "bars")
""")
bug("c33-empty-commodity", "C33",
    "a commodity with capacity zero listed before others",
    "it takes the place of the others",
    [(EC, """        res = [item["capacity"] for item in self.items if item["id"] == id_]
        if isinstance(res, list) and len(res) > 0:
            return res[0]
        return 0

    def get_level""", """        res = [item["capacity"] for item in self.items if item["id"] == id_]
        if isinstance(res, list) and len(res) > 0:
            return res[0] or max(item["capacity"] for item in self.items)
        return 0

    def get_level""")],
    """
env = make_env()
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), nr_resources=1,
    initials=[dict(id="sand", capacity=0, level=0), dict(id="rock", capacity=10, level=5)])
same([s.container.get_capacity("sand"), s.container.get_capacity("rock")], [0, 10], "capacities")
""")
