"""Planted bugs, sixth round: ids and names, long and short times, small amounts, shared data."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


BA = "model/base_activities.py"
EC = "core/events_container.py"
MV = "core/movable.py"
PR = "core/processor.py"
LD = "plot/log_dataframe.py"
CPS = "critical_path/dependencies_from_simpy_step.py"
CPR = "critical_path/dependencies_from_recorded_activities.py"
CPB = "critical_path/base_cp.py"

CPM = """
from openclsim.critical_path.dependencies_from_recorded_activities import DependenciesFromRecordedActivities as Recorded
from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment, DependenciesFromSimpy
"""

bug("c21-regex-ids", "C21",
    "an id of an activity that is part of the id of another one",
    "the ids are replaced as regular expressions",
    [(LD, """                .replace(id_map)
""", """                .replace(id_map, regex=True)
""")],
    """
env = make_env(); reg = {}
o = Obj(env=env, name="o")
a = basic(env, reg, "first", 3, id="a1", additional_logs=[o]); b = basic(env, reg, "second", 3, id="a10", additional_logs=[o])
run(env, a, b)
same(sorted(set(plot.get_log_dataframe(o, [a, b])["Activity"])), ["first", "second"], "names")
""")
bug("c21-chained-names", "C21",
    "an activity of which the name is the id of another activity",
    "the ids are replaced one after another, so that a name can be replaced again",
    [(LD, """                .replace(id_map)
""", """                .pipe(resolve, id_map)
"""), (LD, '''def get_log_dataframe(simulation_object, id_map=None):
''', '''def resolve(df, id_map):
    """Put the labels in place of the ids."""
    for id_, label in id_map.items():
        df = df.replace(id_, label)
    return df


def get_log_dataframe(simulation_object, id_map=None):
''')],
    """
env = make_env(); reg = {}
o = Obj(env=env, name="o")
a = basic(env, reg, "B", 3, id="A", additional_logs=[o]); b = basic(env, reg, "C", 3, id="B", additional_logs=[o])
run(env, a, b)
same(sorted(set(plot.get_log_dataframe(o, [a, b])["Activity"])), ["B", "C"], "names")
""")
bug("c37-shared-initials", "C37",
    "one list of initial contents that is used for the containers of several objects or models",
    "the containers keep the dictionaries of the user as their state",
    [(EC, """            container_item = {
                "id": item["id"],
                "capacity": item["capacity"],
                "level": item["level"],
            }
""", """            container_item = item
""")],
    """
stock = [{"id": "sand", "capacity": 100, "level": 50}]
got = []
for _ in range(2):
    env = make_env(); reg = {}
    s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), initials=stock, nr_resources=1)
    v = MultiVessel(env=env, name="v", geometry=sg.Point(0, 0), initials=[{"id": "sand", "capacity": 20, "level": 0}], v=1, loading_rate=1, unloading_rate=1)
    run(env, shift(env, reg, "a", s, v, v, id_="sand", amount=20, phase="loading"))
    got.append(s.container.get_level("sand"))
same(got, [30, 30], "levels in two equal models")
""")
bug("c15-empty-below-one", "C15",
    "a container that holds less than one unit",
    "a container with less than one unit counts as empty",
    [(EC, """            level=0,
            operator="le",
            id_=id_,
""", """            level=1,
            operator="lt",
            id_=id_,
""")],
    """
env = make_env()
s = site(env, "s", level=0.5)
same(s.container.get_empty_event().triggered, False, "empty with 0.5 left")
""")
bug("c19-two-digit-priorities", "C19",
    "plugins of which one has a priority of two digits",
    "the priorities are ordered as texts",
    [(BA, """        self.plugins = sorted(self.plugins, key=lambda x: x["priority"])
""", """        self.plugins = sorted(self.plugins, key=lambda x: f"{x['priority']}")
""")],
    """
env = make_env(); reg = {}
order = []


class P(model.AbstractPluginClass):
    def __init__(self, k):
        self.k = k

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        order.append(self.k)
        return {}


a = basic(env, reg, "a", 1)
for k in (10, 2, -1, -5):
    a.register_plugin(P(k), priority=k)
run(env, a)
same(order, [-5, -1, 2, 10], "order of the plugins")
""")
bug("c34-shared-administration", "C34",
    "two single runs that are made without requested_resources",
    "they share one administration of held slots, so one takes over what the other holds",
    [("model/single_run_process.py", """    requested_resources=None,
):""", """    requested_resources={},
):"""), ("model/single_run_process.py", """    if requested_resources is None:
        requested_resources = {}
""", "")],
    """
env = make_env(); reg = {}
a = site(env, "a", level=40); b = site(env, "b", x=0.01)
tops = []
for i in range(2):
    v = vessel(env, f"v{i}", capacity=10)
    _, w = model.single_run_process(env=env, registry=reg, name=f"run{i}", origin=a, destination=b, mover=v, loader=v, unloader=v,
                                    stop_event=done(f"run{i} unloading"))
    tops.append(w)
run(env, *tops)
e = entries(a)
busy = 0; most = 0
for t, s, _ in e:
    busy += {"START": 1, "STOP": -1}.get(s, 0); most = max(most, busy)
same(most, 1, "simultaneous loadings at a site with one slot")
""")
bug("c40-negligible-content", "C40",
    "amounts in a unit so large that a load is less than a millionth",
    "such an amount counts as nothing",
    [(PR, """        if origin_max_amount <= 0:
""", """        if origin_max_amount <= 1e-6:
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=5e-7, capacity=1e-6); v = vessel(env, "v", capacity=1e-6, rate=1e-7)
try:
    run(env, shift(env, reg, "a", s, v, v, phase="loading"))
except ValueError:
    pass
same(abs(v.container.get_level() - 5e-7) < 1e-12, True, "the load is on board")
""")
bug("c29-first-predecessor", "C29",
    "an execution before which both an execution and a wait of its object end, the wait not being listed first",
    "only the first of what ended counts when looking for a wait",
    [(CPR, """                if "WAITING" in dependencies.loc[:, "state"].tolist():
""", """                if dependencies["state"].iloc[0] == "WAITING":
""")],
    CPM + """
env = make_env(); reg = {}
o = Obj(env=env, name="o"); p = Obj(env=env, name="p")
z = basic(env, reg, "z", 4, additional_logs=[p])
a = basic(env, reg, "a", 4, additional_logs=[o])
w = basic(env, reg, "w", 2, additional_logs=[o], start_event=done("z"))
run(env, z, a, w)
d = Recorded(env, [o, p], [z, a, w])
df = d.get_recorded_activity_df().drop_duplicates("cp_activity_id").set_index("cp_activity_id")
pairs = sorted((df.loc[x, "Activity"], df.loc[y, "Activity"]) for x, y in d.get_dependency_list() if df.loc[y, "state"] == "ACTIVE")
same(("z", "w") in pairs, True, "w depends on what it waited for")
""")
bug("c08-whole-percents", "C08",
    "a speed that depends on the load, and a load that is no whole percentage of the capacity",
    "the load is rounded to whole percents of the capacity",
    [(MV, """            self.container.get_level() / self.container.get_capacity()
""", """            round(self.container.get_level() / self.container.get_capacity(), 2)
""")],
    """
class Dependent(core.Identifiable, core.ContainerDependentMovable, core.HasResource):
    pass


env = make_env(); reg = {}
v = Dependent(env=env, name="v", geometry=sg.Point(0, 0), capacity=1000, level=123, compute_v=lambda x: 1 + x)
same(v.v, 1.123, "speed")
""")
bug("c26-one-point-per-moment", "C26",
    "a step chart of an object of which the level changes twice at one moment",
    "only the last of the levels of one moment is plotted",
    [("plot/step_chart.py", """        df = get_log_dataframe(obj)
""", """        df = get_log_dataframe(obj).drop_duplicates("Timestamp", keep="last")
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=50); v = vessel(env, "v")
run(env, seq(env, reg, "q", [shift(env, reg, "a", s, v, v, amount=5, duration=3), shift(env, reg, "b", v, s, v, amount=5, duration=3)]))
f = plot.get_step_chart([s])
same(len(f.axes[0].lines[0].get_xdata()), len(s.logbook), "points")
""")
bug("c39-range", "C39",
    "a critical execution that no object recorded and that starts before all others",
    "the chart begins at the first row, which need not be the earliest one",
    [(CPB, """            critical_path_dataframe.start_time.min(),
""", """            critical_path_dataframe.start_time.iloc[0],
""")],
    CPM + """
env = make_env(); reg = {}
o = Obj(env=env, name="o")
a = basic(env, reg, "a", 10, additional_logs=[o], start_event=at(5))
top = seq(env, reg, "q", [basic(env, reg, "early", 3), a])
run(env, top)
d = Recorded(env, [o], [top])
df = d.get_critical_path_df()
chart = d.make_plotly_gantt_chart(static=True)
same(pd.Timestamp(chart["layout"].xaxis.range[0]), pd.Timestamp(df.start_time.min()), "begin of the chart")
""")
bug("c25-whole-seconds", "C25",
    "an execution of which the duration has a fraction of a second",
    "durations are rounded to whole seconds",
    [("io.py", """        s["TimestampDt"] = [x.total_seconds() for x in dt]
""", """        s["TimestampDt"] = dt.dt.round("s").dt.total_seconds()
""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 3.25)
run(env, a)
same(list(oio.get_ranges_dataframe(a)["TimestampDt"]), [3.25], "duration")
""")
