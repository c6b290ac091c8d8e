"""C31 positions and distances are geodesic and symmetric, routes take their length."""
import pyproj
import shapely.geometry
from hypothesis import strategies as st

from vlib import prog, sut
from vlib.runner import Facet, Skip, Violation, expect

RULE = ("non-trivial: two points at most 1 km from the tolerance or on both sides of the date line / a route of at least two legs with bends / a line that would start at its other "
        "end if degrees were distances (order)")
ASSUMPTIONS = ["positions are points", "paths do not cross or touch themselves; a point on a bend or at an end of it projects to itself",
               "routes: the ends of the route lie 0.03 degrees or more apart (the code takes positions within 0.01 degrees as the same node)",
               "order: points that are as far from both ends of a line (within 1 m) are left out"]

GEOD = pyproj.Geod(a=6378137.0, f=1 / 298.257223563)


def dist(a, b):
    return GEOD.inv(a[0], a[1], b[0], b[1])[2]


def length(coords):
    return sum(dist(a, b) for a, b in zip(coords, coords[1:]))


def near(x, y, rel=1e-9, abs_=1e-6):
    return abs(x - y) <= max(abs_, rel * max(abs(x), abs(y)))


def geom(p, form=0):
    return shapely.geometry.mapping(sut.point(*p)) if form == 1 else sut.point(*p)


# ---------------------------------------------------------------- points
LON = st.one_of(st.floats(-180, 180), st.sampled_from([-180.0, 180.0, 179.9999, -179.9999, 0.0, 4.5]), st.floats(3, 8))
LAT = st.one_of(st.floats(-90, 90), st.sampled_from([-90.0, 90.0, 89.9999, 0.0, 52.0]), st.floats(50, 56))


@st.composite
def pairs(draw):
    a = [draw(LON), draw(LAT)]
    tol = draw(st.sampled_from([None, None, None, 0, 1, 99.5, 250, 5000, 1e6]))
    if draw(st.booleans()):
        b = [draw(LON), draw(LAT)]
    else:
        t = 100 if tol is None else tol
        d = draw(st.sampled_from([0, t, t - 0.01, t + 0.01, t * 0.5, t * 0.99, t * 1.01, t * 2, t + 50, 1e-3])) if draw(st.booleans()) else draw(st.floats(0, 1000))
        x, y, _ = GEOD.fwd(a[0], a[1], draw(st.sampled_from([0, 90, 180, 270, 45, 123.4])), max(d, 0))
        b = [x, y]
    return dict(a=a, b=b, tol=tol, forms=[draw(st.integers(0, 4)), draw(st.integers(0, 4))], v=draw(st.sampled_from([1, 0.5, 7, 12.5])), eo=draw(st.sampled_from([1, 0.8, 0.25])))


def run_points(c):
    env = sut.simpy.Environment()
    a = sut.Mover(env=env, name="a", geometry=geom(c["a"], c["forms"][0]), v=c["v"], engine_order=c["eo"])
    b = sut.Site(env=env, name="b", geometry=geom(c["b"], c["forms"][1]), capacity=1)
    kw = {} if c["tol"] is None else {"tolerance": c["tol"]}
    tol = 100 if c["tol"] is None else c["tol"]
    d = dist(c["a"], c["b"])
    x, y = a.is_at(b, **kw), b.is_at(a, **kw)
    if abs(d - tol) > 1e-6:
        expect(bool(x) == (d < tol), "a is%s at b: distance %s, tolerance %s, positions %s %s", "" if x else " not", d, tol, c["a"], c["b"])
        expect(bool(y) == (d < tol), "b is%s at a: distance %s, tolerance %s", "" if y else " not", d, tol)
    s = a.compute_distance(a.geometry, b.geometry)
    r = a.compute_distance(b.geometry, a.geometry)
    expect(near(s, d), "sailing distance %s instead of %s", s, d)
    expect(near(r, d), "sailing distance back %s instead of %s", r, d)
    t = a.compute_duration(a.geometry, b.geometry)
    expect(near(t, d / (c["v"] * c["eo"])), "sailing takes %s instead of %s", t, d / (c["v"] * c["eo"]))
    if d > 1e6 and min(abs(c["a"][1]), abs(c["b"][1])) < 80 and abs(c["a"][0] - c["b"][0]) < 170:
        # coarse, without the library: a sphere is within 0.6 %
        from math import asin, cos, radians, sin, sqrt
        p, q = [radians(v) for v in c["a"]], [radians(v) for v in c["b"]]
        h = 2 * 6371008.8 * asin(min(1, sqrt(sin((q[1] - p[1]) / 2) ** 2 + cos(p[1]) * cos(q[1]) * sin((q[0] - p[0]) / 2) ** 2)))
        expect(abs(h - s) < 0.01 * h, "distance %s, on a sphere %s", s, h)
    out = ["near"] if abs(d - tol) < 1000 else []
    if abs(c["a"][0] - c["b"][0]) > 180:
        out.append("date line")
    if d < tol:
        out.append("at")
    return out + (["nontrivial"] if out and out != ["at"] else [])


# ---------------------------------------------------------------- paths
@st.composite
def polyline(draw, n_min=2, n_max=6, start=None):
    """Vertices, always further to the east: the line does not cross itself."""
    x, y = start if start else (draw(st.floats(-170, 150)), draw(st.sampled_from([52.0, 0.0, 65.0, -40.0])))
    out = [[x, y]]
    for _ in range(draw(st.integers(n_min, n_max)) - 1):
        x += draw(st.integers(5, 100)) / 100
        y += draw(st.integers(-100, 100)) / 100
        out.append([x, y])
    return out


@st.composite
def paths(draw):
    line = draw(polyline())
    # positions on it: (segment, fraction)
    pos = [(draw(st.integers(0, len(line) - 2)), draw(st.sampled_from([0, 0, 1, 1, 0.5, 0.25]))) for _ in range(2)]
    if draw(st.integers(0, 3)) == 0:
        pos = [(0, 0), (len(line) - 2, 1)][:: draw(st.sampled_from([1, -1]))]
    return dict(line=line, pos=[list(p) for p in pos], v=draw(st.sampled_from([1, 4.5, 12])), eo=draw(st.sampled_from([1, 1, 0.8])), site=draw(st.booleans()))


def spot(line, p):
    a, b = line[p[0]], line[p[0] + 1]
    return [a[0] + (b[0] - a[0]) * p[1], a[1] + (b[1] - a[1]) * p[1]] if p[1] not in (0, 1) else (list(a) if p[1] == 0 else list(b))


def routable():
    from openclsim import core

    return type("RoutedMover", (core.movable.Routable, core.Identifiable), {})


def run_path(c):
    line = c["line"]
    (i, f), (j, g) = sorted(tuple(p) for p in c["pos"])
    a, b = spot(line, (i, f)), spot(line, (j, g))
    part = [a] + [line[k] for k in range(i + 1, j + 1)] + [b]
    want = length(part)
    whole = f in (0, 1) and g in (0, 1)
    env = sut.simpy.Environment(initial_time=1000)
    if c["site"]:
        a, b = b, a
    m = routable()(env=env, name="m", geometry=geom(a), v=c["v"], engine_order=c["eo"], path=shapely.geometry.LineString(line))
    site = sut.Site(env=env, name="b", geometry=geom(b), capacity=1)
    # inside a segment the straight line in degrees differs a little from the geodesic
    rel = 1e-6 if whole else 2e-3
    got, back = m.compute_distance(m.geometry, site.geometry), m.compute_distance(site.geometry, m.geometry)
    expect(near(got, want, rel, 1.0), "from %s to %s over %s are %s m, not %s", a, b, line, want, got)
    expect(near(back, want, rel, 1.0), "back from %s to %s over %s are %s m, not %s", b, a, line, want, back)
    m.activity_id = "x"
    env.process(m.move(site))
    end = sail(env)
    expect(near(end - 1000, got / (c["v"] * c["eo"]), 1e-9), "sailing %s m with %s m/s takes %s s", got, c["v"] * c["eo"], end - 1000)
    expect(list(m.geometry.coords[0]) == b, "sailed to %s but is at %s", b, m.geometry)
    return ["nontrivial"] if len(part) > 2 else []


def sail(env):
    """The moment of the last event."""
    while env.peek() != float("inf"):
        t = env.peek()
        env.step()
    return t


# ---------------------------------------------------------------- routes
@st.composite
def routes(draw):
    n = draw(st.integers(2, 6))
    legs, start = [], None
    for _ in range(n - 1):
        leg = draw(polyline(2, 4, start))
        start = leg[-1]
        legs.append(leg)
    start = draw(st.sampled_from([0, 0, 1]))  # sails to the first node first
    return dict(legs=legs, flip=[draw(st.booleans()) for _ in legs], directed=draw(st.integers(0, 3)) == 0, off=start, v=draw(st.sampled_from([1, 4.5, 12])),
                slow=draw(st.lists(st.sampled_from([1, 1, 0.5, 0.25]), min_size=n - 1, max_size=n - 1)), hooks=draw(st.integers(0, 2)), wait=draw(st.sampled_from([0, 0, 60])),
                back=draw(st.booleans()), t0=draw(st.sampled_from([0, 1.5e9])), names=draw(st.sampled_from(["n", "8861", ""])), part=draw(st.integers(1, n - 1)))


def graph_of(c):
    import networkx as nx

    g = nx.DiGraph() if c["directed"] else nx.Graph()
    nodes = ["%s%d" % (c["names"], i) for i in range(len(c["legs"]) + 1)]
    at = [leg[0] for leg in c["legs"]] + [c["legs"][-1][-1]]
    for name, p in zip(nodes, at):
        g.add_node(name, geometry=geom(p))
    for i, leg in enumerate(c["legs"]):
        line = shapely.geometry.LineString(leg[::-1] if c["flip"][i] else leg)
        g.add_edge(nodes[i], nodes[i + 1], geometry=line)
        if c["directed"]:
            g.add_edge(nodes[i + 1], nodes[i], geometry=shapely.geometry.LineString(leg))
    return g, nodes, at


def run_route(c):
    g, nodes, at = graph_of(c)
    env = sut.simpy.Environment(initial_time=c["t0"])
    env.graph = g
    legs = [list(map(list, leg)) for leg in c["legs"]]
    lengths = [length(leg) for leg in legs]
    order = list(range(len(nodes)))[:: -1 if c["back"] else 1]

    # the distance over the whole route, and sailing it in one move
    m = routable()(env=env, name="m", geometry=geom(at[order[0]]), v=c["v"], route=list(nodes))
    target = sut.Site(env=env, name="b", geometry=geom(at[order[-1]]), capacity=1)
    for a, b in ((m, target), (target, m)):
        d = m.compute_distance(a.geometry, b.geometry)
        expect(near(d, sum(lengths), 1e-9), "the route of %s m is %s m long", sum(lengths), d)
    # (other legs than the whole route, from or to a place that is at least 0.02 degrees away from both ends)
    for dx in (0.05, -0.05, 0.4):
        away = [at[0][0] + dx, at[0][1]]
        if max(abs(away[0] - at[-1][0]), abs(away[1] - at[-1][1])) < 0.02:
            continue
        for a, b in ((away, at[-1]), (at[0], away), (at[-1], away), (away, at[0])):
            try:
                d = m.compute_distance(geom(a), geom(b))
            except Exception:
                continue
            raise Violation("a route from %s to %s is taken for the way from %s to %s: %s m" % (at[0], at[-1], a, b, d))
    m.activity_id = "x"
    env.process(m.move(target))
    end = sail(env)
    expect(near(end - c["t0"], sum(lengths) / c["v"], 1e-9), "sailing the route takes %s instead of %s", end - c["t0"], sum(lengths) / c["v"])
    expect(list(m.geometry.coords[0]) == at[order[-1]], "sailed the route to %s but is at %s", at[order[-1]], m.geometry)

    # leg by leg
    off = [at[order[0]][0] - 0.5, at[order[0]][1] + 0.1] if c["off"] else list(at[order[0]])
    env = sut.simpy.Environment(initial_time=c["t0"])
    env.graph = g
    m = routable()(env=env, name="m", geometry=geom(off), v=c["v"])
    passed = []
    for k in range(c["hooks"]):
        def hook(movable, a, b, route, geometry, k=k):
            passed.append((k, env.now, a, b, list(map(list, geometry.coords)), movable is m, list(route)))
            if k == 0:
                m.engine_order = c["slow"][len([p for p in passed if p[0] == 0]) - 1]
            return env.timeout(c["wait"])
        m.on_pass_edge_functions.append(hook)
    route = [nodes[i] for i in order][: c["part"] + 1]
    env.process(m.move_over_route(route))
    end = sail(env)
    t, eo, k = c["t0"] + dist(off, at[order[0]]) / c["v"], 1, 0
    for i, (x, y) in enumerate(zip(order[: c["part"]], order[1:])):
        leg = legs[min(x, y)]
        t += length(leg) / (c["v"] * eo)
        for h in range(c["hooks"]):
            p = passed[k]
            k += 1
            expect(near(p[1], t, 1e-9), "leg %d passed at %s instead of %s", i, p[1], t)
            expect(p[:1] + p[2:4] == (h, nodes[x], nodes[y]) and p[5] and p[6] == route, "leg %d: called %s", i, p)
            expect(p[4] == (leg if x < y else leg[::-1]), "leg %d from %s to %s sailed along %s", i, at[x], at[y], p[4])
            t += c["wait"]
        if c["hooks"]:
            eo = c["slow"][i]
    last = order[c["part"]]
    expect(len(passed) == k, "%d calls instead of %d", len(passed), k)
    expect(near(end, t, 1e-9), "arrived at %s instead of %s", end - c["t0"], t - c["t0"])
    expect(m.node == nodes[last] and list(m.geometry.coords[0]) == at[last], "arrived at node %s, %s instead of %s, %s", m.node, m.geometry, nodes[last], at[last])
    expect(m.get_state().get("node") == nodes[last], "state %s", m.get_state())

    # a single line, and straight to a point
    env = sut.simpy.Environment(initial_time=c["t0"])
    m = routable()(env=env, name="m", geometry=geom(off), v=c["v"], engine_order=0.5)
    env.process(m.pass_linestring(shapely.geometry.LineString(legs[0])))
    end = sail(env)
    expect(near(end, c["t0"] + lengths[0] / (c["v"] / 2), 1e-9), "the line of %s m takes %s s", lengths[0], end - c["t0"])
    expect(list(m.geometry.coords[0]) == legs[0][-1], "passed the line but is at %s", m.geometry)
    env.process(m.move_to_geometry(geom(off)))
    t, end = env.now, sail(env)
    expect(near(end - t, dist(legs[0][-1], off) / (c["v"] / 2), 1e-9), "straight to a point takes %s s", end - t)
    expect(list(m.geometry.coords[0]) == off, "went to %s but is at %s", off, m.geometry)
    out = ["hooks"] if c["hooks"] else []
    if any(c["flip"]):
        out.append("flipped")
    return out + (["nontrivial"] if len(legs) > 1 and any(len(x) > 2 for x in legs) else [])


# ---------------------------------------------------------------- the order of a line
@st.composite
def orders(draw):
    line = draw(polyline())
    if draw(st.booleans()):
        line = [[x, max(-89, min(89, y + draw(st.sampled_from([0, 15, 20]))))] for x, y in line]
    near_ = draw(st.sampled_from(line))
    return dict(line=line, at=[near_[0] + draw(st.integers(-100, 100)) / 50, max(-90, min(90, near_[1] + draw(st.integers(-100, 100)) / 50))])


def run_order(c):
    a, b, at = c["line"][0], c["line"][-1], c["at"]
    x, y = dist(a, at), dist(b, at)
    if abs(x - y) < 1:
        raise Skip("as far from both ends")
    got = [list(p) for p in routable().order_geometry(shapely.geometry.LineString(c["line"]), sut.point(*at)).coords]
    expect(got == (c["line"] if x < y else c["line"][::-1]), "the line from %s (%s m away) to %s (%s m) starts at %s, seen from %s", a, x, b, y, got[0], at)
    plane = lambda p: ((p[0] - at[0]) ** 2 + (p[1] - at[1]) ** 2) ** 0.5  # noqa: E731
    return ["nontrivial"] if (plane(a) < plane(b)) != (x < y) else []


FACETS = [
    Facet("order", lambda t: orders(), run_order, 1500, 40000, "lines seen from a point start at the end that is nearer on earth"),
    Facet("points", lambda t: pairs(), run_points, 6000, 200000, "pairs of points on the whole globe against the ellipsoid"),
    Facet("path", lambda t: paths(), run_path, 2500, 60000, "positions on a path"),
    Facet("route", lambda t: routes(), run_route, 2000, 50000, "routes over a graph with bends, edges drawn in both directions"),
]
