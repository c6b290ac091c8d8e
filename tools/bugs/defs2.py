"""Planted bugs: plugins, logs, exports, charts, critical path, positions, identities (C18-C34)."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


PLUG = """
class Probe(model.AbstractPluginClass):
    def __init__(self, name, seen, wait=0):
        super().__init__(); self.name = name; self.seen = seen; self.wait = wait
    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        self.seen.append(("pre", self.name, env.now))
        yield env.timeout(self.wait)
    def post_process(self, env, activity_log, activity, start_preprocessing, start_activity, *args, **kwargs):
        self.seen.append(("post", self.name, start_preprocessing, start_activity))
        yield env.timeout(self.wait)
"""
GEO = """
import networkx as nx
import pyproj
GEOD = pyproj.Geod(ellps="WGS84")
class Router(core.Identifiable, core.movable.Routable):
    pass
"""

BA = "model/base_activities.py"
W = "plugins/weather.py"
WEATHER = """
def weather(values, step=100.0, start=0.0, duration=10, t0=0.0, ready=0.0, **crit):
    env = make_env(t0); reg = {}
    df = pd.DataFrame({"ts": [start + step * i for i in range(len(values))], "Hs": values})
    crit.setdefault("window_length", 20)
    a = WeatherBasic(env=env, registry=reg, name="a", duration=duration, metocean_df=df,
        metocean_criteria=plugins.WeatherCriterion(name="c", condition="Hs", **crit))
    run(env, seq(env, reg, "s", [basic(env, reg, "b", ready), a]))
    return times(a, "START")[0]
"""
bug("c18-window-delay-at-end", "C18",
    "a criterion with a window delay and an activity that becomes ready near the end of a workable period",
    "the last moment to start does not take the window delay into account",
    [(W, """        data["end_inter"] = (
            data["end_inter"] - criterion.window_length - criterion.window_delay
        )
""", """        data["end_inter"] = data["end_inter"] - criterion.window_length
""")],
    WEATHER + """
v = [5, 1, 1, 1, 5, 5, 1, 1, 1, 5, 1, 5]
same(weather(v, ready=340.0, maximum=2, window_delay=50), 550.0, "start")
""")
bug("c18-minimum-equal", "C18",
    "a minimum criterion with samples that equal the minimum exactly",
    "samples equal to the minimum count as not workable",
    [(W, """            data["cur"] = data["cur"] & (data[col] >= threshold[col])
""", """            data["cur"] = data["cur"] & (data[col] > threshold[col])
""")],
    WEATHER + """
same(weather([1, 1, 2, 2, 1, 1, 3, 3, 1], minimum=2), 200.0, "start")
""")
bug("c18-second-repetition", "C18",
    "an activity that becomes ready two or more lengths of the data set after its begin",
    "the data set is repeated once only",
    [(W, """        while len(filter_windows) < 1 and i < 10:
""", """        while len(filter_windows) < 1 and i < 3:
"""), (W, """            dt = i * (ts_stop - ts_start)
""", """            dt = min(i, 2) * (ts_stop - ts_start)
""")],
    WEATHER + """
same(weather([5, 5, 1, 1, 1, 5, 5], ready=1900.0, maximum=2), 2000.0, "start")
""")
bug("c19-structural-start", "C19",
    "a plugin on a while activity whose pre-processing takes time",
    "the plugin gets the begin of the pre-processing as the start of the activity",
    [("model/while_activity.py", """        args_data["start_activity"] = start_while
""", """        args_data["start_activity"] = start_time
""")],
    PLUG + """
env = make_env(); reg = {}; seen = []
a = basic(env, reg, "a", 5)
r = rep(env, reg, "r", [a], 2)
r.register_plugin(Probe("x", seen, 3))
run(env, r)
same(seen[-1], ("post", "x", 0.0, 3.0), "post-processing")
""")
bug("c20-local-time", "C20",
    "a machine whose local time zone is not UTC",
    "time stamps are in local time",
    [("core/log.py", """datetime.datetime.utcfromtimestamp(t)""", """datetime.datetime.fromtimestamp(t)""")],
    """
import os, time
os.environ["TZ"] = "XXX-5:30"; time.tzset()
env = make_env(86400.0); reg = {}
a = basic(env, reg, "a", 5)
run(env, a)
same(times(a, "START"), [86400.0], "start")
""")
bug("c20-processor-log", "C20",
    "a shift whose processor is another object than origin and destination, which are one vessel and a site",
    "the entry of the processor gets the id of the activity that used it before",
    [("core/processor.py", """        for location in set([self, origin, destination]):
            location.log_entry_v1(
                t=location.env.now,
                activity_id=activity_id,
                activity_state=LogState.STOP,
            )
""", """        for location in set([self, origin, destination]):
            location.log_entry_v1(
                t=location.env.now,
                activity_id=getattr(location, "activity_id", None) or activity_id,
                activity_state=LogState.STOP,
            )
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=50); v = vessel(env, "v"); far = site(env, "far", x=0.1); w = vessel(env, "w")
m = move(env, reg, "m", v, s, duration=1)
sh = shift(env, reg, "sh", s, v, w, amount=5, duration=10)
run(env, seq(env, reg, "q", [m, sh]))
same([e["ActivityID"] for e in v.logbook], [m.id, m.id, sh.id, sh.id], "ids in the log of the vessel")
""")
bug("c21-misaligned-ids", "C21",
    "a log in which an entry with an earlier time stamp is recorded later (a wait is logged when it is over)",
    "activity ids are shown in other rows than their times and states",
    [("plot/log_dataframe.py", """                df.filter(items=["ActivityID"])
""", """                df.reset_index(drop=True)
                .filter(items=["ActivityID"])
""")],
    """
env = make_env(); reg = {}
o = Obj(env=env, name="o")
a = basic(env, reg, "a", 5, additional_logs=[o]); b = basic(env, reg, "b", 1, start_event=done("a"), additional_logs=[o])
run(env, a, b)
df = plot.get_log_dataframe(o)
got = sorted((seconds(r.Timestamp), r.Activity, r.ActivityState) for r in df.itertuples())
same(got, sorted((seconds(e["Timestamp"]), e["ActivityID"], e["ActivityState"]) for e in o.logbook), "rows")
""")
bug("c21-deeply-nested-names", "C21",
    "an id map with an activity whose parts have parts which have parts",
    "the names of deeply nested activities are not resolved",
    [("plot/log_dataframe.py", """        id_map = {act.id: act.name for act in get_subprocesses(id_map)}
""", """        nested = [sub for act in id_map for sub in getattr(act, "sub_processes", [])]
        nested += [sub for act in nested for sub in getattr(act, "sub_processes", [])]
        id_map = {act.id: act.name for act in get_subprocesses(id_map[:0]) + id_map + nested}
""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 5)
top = seq(env, reg, "t", [seq(env, reg, "u", [seq(env, reg, "w", [a])])])
run(env, top)
same(set(plot.get_log_dataframe(a, [top]).Activity), {"a"}, "names")
""")
bug("c22-rounded-clock", "C22",
    "an initial time with a fraction of a second and a time expression",
    "time expressions are truncated to whole seconds",
    [(BA, """                start = expr.get("start_time")
""", """                start = int(expr.get("start_time"))
""")],
    """
def starts(t0):
    env = make_env(t0); reg = {}
    b = basic(env, reg, "b", 1, start_event=at(t0 + 5))
    run(env, b)
    return [round(t - t0, 4) for t in times(b, "START")]
same(starts(0.0), starts(1000.25), "shifted")
""")
bug("c23-validated-references", "C23",
    "an activity that makes a reservation and is listed before the activity its start event refers to",
    "references are looked up at registration, after the reservation: it is made twice",
    [(BA, """        # add the activity with start event to the simpy environment
        self.main_process""", """        # report wrong references right away
        if isinstance(self.start_event, (list, dict)):
            self.parse_expression(self.start_event)
        # add the activity to the simpy environment
        self.main_process""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=50); v = vessel(env, "v")
m = shift(env, reg, "m", s, v, v, duration=10, amount=5, start_event=done("a")); a = basic(env, reg, "a", 1)
run(env, m, a)
same([s.container.get_level("default_reservations"), v.container.get_level("default_reservations")], [45, 5], "levels")
""")
bug("c23-nested-duplicates", "C23",
    "two activities with the same name of which one is nested in another activity",
    "they are accepted",
    [("model/helpers.py", """    item_names = [i.name for i in items]
""", """    item_names = [i.name for i in processes] if isinstance(processes, list) else []
""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 1); a2 = basic(env, reg, "a", 1)
try:
    model.register_processes([a, seq(env, reg, "s", [a2])])
    ok = False
except Exception:
    ok = True
same(ok, True, "rejected")
""")
TREE = """
env = make_env(); reg = {}
"""
bug("c24-deep-nesting", "C24",
    "activities nested more than three levels deep",
    "deeper activities are missing in the exported tables",
    [("io.py", """        if hasattr(act, "sub_processes"):
""", """        if hasattr(act, "sub_processes") and depth < 3:
""")],
    TREE + """
top = a = basic(env, reg, "a", 1)
for i in range(5):
    top = seq(env, reg, f"s{i}", [top])
same(len(oio.get_activities([top])), 6, "rows")
""")
bug("c24-one-role-per-concept", "C24",
    "a shift in which one object is both processor and origin or destination",
    "only the first role of a concept in an activity is exported",
    [("io.py", """    for attr_name in ["processor", "mover", "origin", "destination"]:
        mask = [hasattr(x, attr_name) for x in df["activity"]]
""", """    for attr_name in ["processor", "mover", "origin", "destination"]:
        mask = [
            hasattr(x, attr_name)
            and (x.id, getattr(x, attr_name).id) not in [(r[0], r[3]) for r in li]
            for x in df["activity"]
        ]
""")],
    TREE + """
s = site(env, "s", level=50); v = vessel(env, "v")
m = shift(env, reg, "m", s, v, v, duration=1)
same(sorted(oio.get_activity_resources([m]).ConceptMode), ["destination", "origin", "processor"], "modes")
""")
bug("c24-moved-mover", "C24",
    "a forest with moves, given as a dict",
    "the mover columns are filled from the processor when activities are given as a dict",
    [("io.py", """    df["MoverID"] = [x.id if x else None for x in mover]
""", """    df["MoverID"] = [x.id if x else None for x in (processor if isinstance(activities, dict) else mover)]
""")],
    TREE + """
d = site(env, "d", x=0.1); v = vessel(env, "v")
m = move(env, reg, "m", v, d)
same(list(oio.get_activities({"x": m}).MoverID), [v.id], "mover")
""")
bug("c25-long-executions", "C25",
    "an execution that takes more than a day",
    "whole days are missing in the duration",
    [("io.py", "[x.total_seconds() for x in dt]", "[x.seconds + x.microseconds / 1e6 for x in dt]")],
    TREE + """
a = basic(env, reg, "a", 100000)
run(env, a)
same(list(oio.get_ranges_dataframe(a).TimestampDt), [100000.0], "duration")
""")
bug("c25-ranges-order", "C25",
    "an object with more than one activity whose executions alternate",
    "the ranges are listed per activity and not in chronological order",
    [("io.py", """    R = R.sort_values(by=["TimestampStart"])
""", """    R = R.sort_values(by=[idkey, "TimestampStart"])
""")],
    TREE + """
o = Obj(env=env, name="o")
a = basic(env, reg, "a", 3, additional_logs=[o]); b = basic(env, reg, "b", 2, additional_logs=[o])
run(env, rep(env, reg, "r", [a, b], 3))
r = oio.get_ranges_dataframe(o)
same([seconds(t) for t in r.TimestampStart], [0.0, 3.0, 5.0, 8.0, 10.0, 13.0], "starts")
""")
bug("c25-merged-log", "C25",
    "an activity log of a tree in which two activities have the same name",
    "rows of the activities are mixed up by their names",
    [("io.py", """    ActivityRanges = ActivityRanges.merge(
        df[["ActivityID", "ActivityName", "ActivityClass"]], on="ActivityID", how="left"
    )
""", """    columns = ["ActivityID", "ActivityName", "ActivityClass"]
    ActivityRanges = ActivityRanges.merge(
        df[columns].drop_duplicates("ActivityName"), on="ActivityID", how="inner"
    )
""")],
    TREE + """
a = basic(env, reg, "a", 3); a2 = basic(env, reg, "a", 4)
model.register_processes([a]); model.register_processes([a2]); env.run()
same(len(oio.get_activity_log([a, a2])), 2, "rows")
""")
bug("c26-drop-by-time", "C26",
    "an activity that starts at the moment its waiting ends",
    "its bar is missing in the gantt chart",
    [("plot/vessel_planning.py", """            df = (
                df.drop(df[df.activity_state == "WAIT_START"].index)
                .drop(df[df.activity_state == "WAIT_STOP"].index)
                .set_index("Timestamp", drop=False)
            )
""", """            df = df.set_index("Timestamp", drop=False)
            df = df.drop(df[df.activity_state == "WAIT_START"].index)
            df = df.drop(df[df.activity_state == "WAIT_STOP"].index)
""")],
    TREE + """
a = basic(env, reg, "a", 5); b = basic(env, reg, "b", 3, start_event=done("a"))
run(env, a, b)
traces = plot.get_gantt_chart([a, b], static=True)["data"]
xs = sorted({seconds(x) for t in traces if t.name == "b" for x in t.x})
same(xs, [5.0, 8.0], "bar of b")
""")
bug("c26-step-of-second", "C26",
    "a step chart of an object with several containers",
    "every container shows the levels of the first one",
    [("plot/step_chart.py", """                    y = [y[container] for y in list(df["container level"])]
""", """                    y = [list(y.values())[0] for y in list(df["container level"])]
""")],
    TREE + """
ini = [{"id": "x", "capacity": 100, "level": 50}, {"id": "y", "capacity": 100, "level": 5}]
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), initials=ini)
a = basic(env, reg, "a", 5, additional_logs=[s])
run(env, a)
fig = plot.get_step_chart([s])
same(sorted(set(float(y) for l in fig.axes[0].lines for y in l.get_ydata())), [5.0, 50.0], "levels")
""")
bug("c26-number-rows", "C26",
    "a gantt chart with y_scale='numbers' of several objects of which the first ones have empty logs",
    "bars are on the rows of other objects",
    [("plot/vessel_planning.py", """            dataframes.append(df)
            names.append(vessel.name)
""", """            dataframes.append(df)
        names.append(vessel.name)
""")],
    TREE + """
o = Obj(env=env, name="o"); a = basic(env, reg, "a", 5)
run(env, a)
traces = plot.get_gantt_chart([o, a], static=True)["data"]
same({y for t in traces for y in t.y if y is not None}, {"a"}, "rows")
""")
CP = """
from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities as FromLogs
from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment, DependenciesFromSimpy
from openclsim.critical_path.simulation_graph import SimulationGraph
env = make_env(cls=CriticalPathEnvironment); reg = {}
def frame(rows):
    df = pd.DataFrame(rows, columns=["cp_activity_id", "Activity", "SimulationObject", "s", "e"])
    df["start_time"] = pd.to_datetime(df.s, unit="s"); df["end_time"] = pd.to_datetime(df.e, unit="s")
    df["duration"] = df.end_time - df.start_time; df["state"] = "ACTIVE"
    return df.drop(columns=["s", "e"])
"""
bug("c27-activity-names", "C27",
    "an object and an activity of the same name",
    "rows of an object called like an activity are attributed to the activity",
    [("critical_path/base_cp.py", """            pd.Series(names, name="SimulationObject")
""", """            pd.Series(
                ["Activity" if n in [a.name for a in self.activity_list] else n for n in names],
                name="SimulationObject",
            )
""")],
    CP + """
o = Obj(env=env, name="a"); a = basic(env, reg, "a", 5, additional_logs=[o])
run(env, a)
df = FromLogs(env, [o], [a]).get_recorded_activity_df()
same(sorted(df.SimulationObject), ["Activity", "a"], "objects")
""")
bug("c28-same-name", "C28",
    "two activities with the same name that start at the same moment",
    "only one of them is part of the graph",
    [("critical_path/simulation_graph.py", """            subset=["cp_activity_id"]
""", """            subset=["activity", "start_time", "end_time"]
""")],
    CP + """
df = frame([["x", "n", "o", 0, 5], ["y", "n", "p", 0, 5]])
same(set(SimulationGraph(df, []).get_list_critical_activities()), {"x", "y"}, "critical")
""")
bug("c29-all-waiting", "C29",
    "an execution preceded by both a waiting and another execution that end at its start on its object",
    "the extension to executions on other objects is only made if all predecessors are waitings",
    [("critical_path/dependencies_from_recorded_activities.py", """                if "WAITING" in dependencies.loc[:, "state"].tolist():
""", """                if (dependencies.loc[:, "state"] == "WAITING").all():
""")],
    CP + """
o = Obj(env=env, name="o"); p = Obj(env=env, name="p")
a = basic(env, reg, "a", 5, additional_logs=[p])
c = basic(env, reg, "c", 5, additional_logs=[o])
b = basic(env, reg, "b", 3, start_event=[done("a")], additional_logs=[o])
run(env, a, c, b)
cp = FromLogs(env, [o, p], [a, b, c]); deps = cp.get_dependency_list(); df = cp.get_recorded_activity_df()
names = {r.cp_activity_id: (r.Activity, r.state) for r in df.itertuples()}
same((("a", "ACTIVE"), ("b", "ACTIVE")) in [(names[x], names[y]) for x, y in deps], True, "dependency of b on a")
""")
bug("c29-duplicates", "C29",
    "critical executions that are recorded only by their activity (no object takes part)",
    "they are left out of the critical path",
    [("critical_path/base_cp.py", """        critical_path_df = pd.concat([df_no_activity, df_to_add])
""", """        critical_path_df = pd.concat(
            [df_no_activity, df_to_add[df_to_add.state == "WAITING"]]
        )
""")],
    CP + """
o = Obj(env=env, name="o")
a = basic(env, reg, "a", 9); b = basic(env, reg, "b", 3, additional_logs=[o])
run(env, a, b)
df = FromLogs(env, [o], [a, b]).get_critical_path_df()
same(sorted(df.Activity[df.is_critical]), ["a"], "critical")
""")
bug("c31-straight-edges", "C31",
    "a route over an edge whose geometry has bends",
    "the distance is measured straight between the nodes",
    [("core/movable.py", """                total_distance += WGS84.geometry_length(edge["geometry"])
""", """                coords = edge["geometry"].coords
                total_distance += WGS84.line_length(
                    [coords[0][0], coords[-1][0]], [coords[0][1], coords[-1][1]]
                )
""")],
    GEO + """
env = make_env(); g = nx.Graph(); env.graph = g
g.add_node("a", geometry=sg.Point(0, 0)); g.add_node("b", geometry=sg.Point(1, 0))
line = sg.LineString([(0, 0), (0.5, 0.5), (1, 0)]); g.add_edge("a", "b", geometry=line)
r = Router(env=env, name="r", geometry=sg.Point(0, 0), route=["a", "b"], v=1)
same(round(r.compute_distance(sg.Point(0, 0), sg.Point(1, 0))), round(GEOD.geometry_length(line)), "distance")
""")
bug("c31-planar-order", "C31",
    "ordering a line at a high latitude from a point nearer (on earth) to the end that is farther in degrees",
    "the line is ordered by distances in degrees",
    [("core/movable.py", """        _, _, distance_from_start = WGS84.inv(start.x, start.y, a.x, a.y)
        _, _, distance_from_end = WGS84.inv(end.x, end.y, a.x, a.y)
""", """        distance_from_start = start.distance(a)
        distance_from_end = end.distance(a)
""")],
    GEO + """
line = sg.LineString([(0, 80), (2, 79)])
got = core.movable.Routable.order_geometry(line, sg.Point(1.4, 80))
same(tuple(got.coords[0]), (0.0, 80.0), "first point")
""")
bug("c31-tolerance", "C31",
    "a check whether objects are at the same place with a tolerance other than the default",
    "the tolerance is at least the default",
    [("core/locatable.py", """        return distance < tolerance
""", """        return distance < max(tolerance, 100)
""")],
    GEO + """
env = make_env()
s = site(env, "s"); t = site(env, "t", x=0.0005)
same([s.is_at(t), s.is_at(t, tolerance=10), s.is_at(t, tolerance=56)], [True, False, True], "is_at")
""")
bug("c32-id-from-name", "C32",
    "two objects with the same name",
    "they get the same id",
    [("core/identifiable.py", "str(uuid.uuid4())", "str(uuid.uuid5(uuid.NAMESPACE_OID, name))")],
    """
env = make_env()
same(site(env, "s").id != site(env, "s").id, True, "ids differ")
""")
bug("c32-id-key-only", "C32",
    "a reference with the key ID that gives the name of an activity",
    "only ids are accepted for this key",
    [(BA, """                activity_from_name = self.registry.get("name", {}).get(key)
""", """                activity_from_name = self.registry.get("name", {}).get(expr.get("name"))
""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 5); b = basic(env, reg, "b", 3, start_event={"type": "activity", "state": "done", "ID": "a"})
run(env, a, b)
same(times(b, "START"), [5.0], "start of b")
""")
bug("c32-falsy-id", "C32",
    "an explicit id together with an activity that is used twice in a registry",
    "explicit ids that are not strings are converted",
    [("core/identifiable.py", "self.id = id if id else", "self.id = str(id).lower() if id else")],
    """
env = make_env()
same([site(env, "s", id="Site-A").id, site(env, "s", id=12).id], ["Site-A", 12], "ids")
""")
MULTI = """
env = make_env(); reg = {}
def multi(cls, name, **kw):
    ini = [{"id": i, "capacity": c, "level": l} for i, (c, l) in kw.pop("store").items()]
    return cls(env=env, name=name, geometry=sg.Point(0, 0), initials=ini, **kw)
"""
bug("c33-full-of-first", "C33",
    "a 'full' event on a commodity whose capacity differs from that of the default container",
    "full is judged by the capacity of the smallest container of the store",
    [("core/events_container.py", """            level=self.get_capacity(id_),
            operator="ge",""", """            level=min(self.get_capacity(i) for i in self.container_list),
            operator="ge",""")],
    MULTI + """
s = multi(MultiSite, "s", store={"x": (10, 0), "y": (50, 12)})
same([s.container.get_full_event("y").triggered, s.container.get_full_event("x").triggered], [False, False], "full")
""")
bug("c33-shared-events", "C33",
    "two commodities with events on the same level",
    "an event on one commodity is triggered by the level of another",
    [("core/events_container.py", """            current_level = self.get_level(id_)
            event_status = getattr(py_opp, operator)(current_level, level)
            if event_status and not""", """            current_level = max(
                self.get_level(i)
                for i, other, o in self._container_events
                if i == id_ or (operator == "ge" and (other, o) == (level, operator))
            )
            event_status = getattr(py_opp, operator)(current_level, level)
            if event_status and not""")],
    MULTI + """
s = multi(MultiSite, "s", store={"x": (10, 0), "y": (50, 0)})
x = s.container.get_container_event(5, "ge", "x"); y = s.container.get_container_event(5, "ge", "y")
s.container.put(6, "y"); env.run()
same([x.triggered, y.triggered], [False, True], "events")
""")
bug("c33-many-commodities", "C33",
    "a store with more than six commodities",
    "the store is too small for their reservations: further commodities have no level and capacity",
    [("core/events_container.py", """capacity=store_capacity * 2)""", """capacity=store_capacity + 2)""")],
    MULTI + """
s = multi(MultiSite, "s", store={f"c{i}": (10 + i, i) for i in range(8)})
same([s.container.get_level(f"c{i}") for i in range(8)], list(range(8)), "levels")
""")
bug("c34-default-stop-too", "C34",
    "the single-run helper with a stop event of one's own, where the source is empty for a moment before",
    "the default stop conditions apply as well",
    [("model/single_run_process.py", """    if stop_event == []:
        stop_event = [""", """    own_stop_event = stop_event
    if True:
        stop_event = [""" ), ("model/single_run_process.py", """    while_activity = WhileActivity(
""", """    if own_stop_event != []:
        stop_event = {"or": [own_stop_event, stop_event]}
    while_activity = WhileActivity(
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=10); t = site(env, "t"); v = vessel(env, "v")
def refill():
    yield env.timeout(15); yield s.container.put(10)
env.process(refill())
sub, w = model.single_run_process(env, reg, "w", s, t, v, v, v, stop_event=level(t, "ge", 20))
run(env, w)
same(t.container.get_level(), 20, "delivered")
""")
