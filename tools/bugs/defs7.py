"""Planted bugs, seventh round: types of numbers, shared arguments, moments, aborted attempts."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


BA = "model/base_activities.py"
EC = "core/events_container.py"
MV = "core/movable.py"
PR = "core/processor.py"
SH = "model/shift_amount_activity.py"
WH = "model/while_activity.py"
IO = "io.py"

bug("c40-number-types", "C40",
    "a loading rate that is a number of numpy",
    "only int and float count as constant rates",
    [(PR, """        if not hasattr(self.loading_rate, "__call__"):
""", """        if isinstance(self.loading_rate, (int, float)):
""")],
    """
import numpy as np
env = make_env(); reg = {}
s = Site(env=env, name="s", geometry=sg.Point(0, 0), capacity=10, level=10, nr_resources=1)
v = Vessel(env=env, name="v", geometry=sg.Point(0, 0), capacity=10, level=0, v=1, loading_rate=np.int64(2), unloading_rate=1)
a = shift(env, reg, "a", s, v, v, amount=10, phase="loading")
try:
    run(env, a)
except TypeError as e:
    same(str(e), "", "loading at a rate of numpy's")
same(v.container.get_level(), 10, "level")
""")

bug("c31-route-nearby", "C31",
    "a mover that is some kilometres away from the first node of its route",
    "the route counts as the way from places up to about ten kilometres away from its begin",
    [(MV, """            a_is_origin = shapely.equals_exact(origin, a_geometry, tolerance=0.01)
""", """            a_is_origin = shapely.equals_exact(origin, a_geometry, tolerance=0.1)
""")],
    """
import networkx as nx
import shapely
from openclsim.core.movable import Routable
class Routed(core.Identifiable, Routable):
    pass
env = make_env()
g = nx.Graph()
g.add_node("a", geometry=sg.Point(0, 0)); g.add_node("b", geometry=sg.Point(1, 0))
g.add_edge("a", "b", geometry=sg.LineString([(0, 0), (1, 0)]))
env.graph = g
m = Routed(env=env, name="m", geometry=sg.Point(0.05, 0), v=1, route=["a", "b"])
try:
    d = m.compute_distance(sg.Point(0.05, 0), sg.Point(1, 0))
except AssertionError:
    d = None
same(d, None, "distance over the route from a place that is not on it")
""")

bug("c08-current-speed", "C08",
    "a mover with an engine order, asked for its current speed",
    "the current speed is that at full power",
    [(MV, """        return self.v

    @staticmethod
    def compute_distance(""", """        return getattr(self, "_v", self.v)

    @staticmethod
    def compute_distance(""")],
    """
env = make_env()
v = Vessel(env=env, name="v", geometry=sg.Point(0, 0), capacity=10, level=0, v=4, engine_order=0.5, loading_rate=1, unloading_rate=1)
same(v.current_speed, v.v, "current speed")
""")

bug("c18-no-bounds", "C18",
    "a weather criterion without a maximum and a minimum, or with both",
    "criteria with both bounds are accepted",
    [("plugins/weather.py", """            if maximum is not None:
                assert minimum is None
""", ""), ("plugins/weather.py", """            if minimum is not None:
                assert maximum is None
""", "")],
    """
try:
    plugins.WeatherCriterion(name="c", condition="Hs", window_length=60, maximum=1, minimum=0)
    refused = False
except AssertionError:
    refused = True
same(refused, True, "a criterion with both bounds")
""")
