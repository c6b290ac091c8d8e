"""C40 the unit in which quantities are expressed carries no meaning."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from vlib import boot, fleet, prog, sut
from vlib.meta import fleet_objects, picture, prog_objects, run_fleet as finish, same
from vlib.runner import Facet, Skip, expect

RULE = "non-trivial: at least twenty log entries with at least four changes of level (fleet); an activity that waited for a level (program); three transfers (shifts)"
ASSUMPTIONS = ["the factors are powers of two, so that amounts and times stay exact; in the decimal facets, where they do not, rounding decides nothing"]
FACTORS = st.sampled_from([2, 0.5, 8, 0.125, 1024, 2.0 ** -10, 2.0 ** 20, 2.0 ** -20])


def scaled(level, f):
    if isinstance(level, dict):
        return {k: v * f for k, v in level.items()}
    return level if level is None else level * f


def in_unit(pic, f):
    return {k: [r[:5] + (scaled(r[5], f),) + r[6:] for r in rows] for k, rows in pic.items()}


def levels_of(e, f):
    if e is None or "t" in e or "a" in e:
        return e
    if "c" in e:
        i, id_, state, level = e["c"]
        return {"c": [i, id_, state, level if level is None else level * f]}
    return {k: [levels_of(x, f) for x in v] for k, v in e.items()}


# ---------------------------------------------------------------- fleets
@st.composite
def fleets(draw):
    spec = draw(fleet.any_fleet(styles=("ample", "alone", "reserve", "edge"), plugins=0.1, delay=0.15, max_vessels=3, site_slots=st.sampled_from([1, 1, 2])))
    for n in fleet.walk(spec["jobs"]):  # start events on levels
        if n["k"] in ("basic", "move") and draw(st.integers(0, 7)) == 0:
            i = draw(st.integers(0, len(spec["sites"]) - 1))
            id_ = draw(st.sampled_from(sorted(spec["sites"][i]["ids"])))
            now = spec["sites"][i]["ids"][id_][1]
            n["st"] = {"or": [{"c": [i, id_, draw(st.sampled_from(["lt", "gt", "le", "ge"])), now]}, {"t": spec["t0"] + draw(st.integers(1, 60))}]}
    return dict(spec=spec, f=draw(FACTORS))


def in_units(spec, f):
    q = fleet.in_units(copy.deepcopy(spec), f)
    for x in q["vessels"] + [s["crane"] for s in q["sites"] if s["crane"]]:
        x["rl"], x["ru"] = x["rl"] * f, x["ru"] * f
    for n in fleet.walk(q["jobs"]):
        for k in ("st", "c"):
            if n.get(k):
                n[k] = levels_of(n[k], f)
    return q


def run_fleet(c):
    spec, f = c["spec"], c["f"]
    boot.reset_uuid(0)
    r = fleet.build(spec)
    ra = finish(r)
    a = picture(fleet_objects(r), r.by_id, spec["t0"])
    boot.reset_uuid(0)
    r = fleet.build(in_units(spec, f))
    rb = finish(r)
    same(in_unit(a, f), picture(fleet_objects(r), r.by_id, spec["t0"]), f"in units of 1/{f}")
    expect((ra is None) == (rb is None), "in units of 1/%s: %s instead of %s", f, rb, ra)
    seen = {(k, str(row[5])) for k, rows in a.items() for row in rows}
    return (["refused"] if ra else []) + (["nontrivial"] if sum(map(len, a.values())) >= 20 and len(seen) >= len(a) + 4 else [])


# ---------------------------------------------------------------- programs that wait for levels
@st.composite
def programs(draw):
    return dict(p=draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0.5, conts=True)), f=draw(FACTORS))


def run_program(c):
    p, f = c["p"], c["f"]
    if not any("'c': [" in str((n.get("st"), n.get("c"))) for n in prog.walk_nodes(p)):
        raise Skip("nobody waits for a level")
    boot.reset_uuid(0)
    b = prog.run(p)
    a = picture(prog_objects(b), b.by_id, p["t0"])
    q = copy.deepcopy(p)
    for s in q["cont"]:
        s["ids"] = {k: [x * f for x in v] for k, v in s["ids"].items()}
    for h in q["hist"]:
        h[3] *= f
    for n in prog.walk_nodes(q):
        for k in ("st", "c"):
            n[k] = levels_of(n.get(k), f)
    boot.reset_uuid(0)
    b = prog.run(q)
    same(a, picture(prog_objects(b), b.by_id, p["t0"]), f"in units of 1/{f}")
    waited = any(row[1] == "WAIT_STOP" and row[0] > 0 for rows in a.values() for row in rows)
    return ["nontrivial"] if waited else []


# ---------------------------------------------------------------- the processor by itself
@st.composite
def shifts(draw):
    cap = draw(st.integers(4, 60))
    work = [list(x) for x in draw(st.lists(st.tuples(st.sampled_from([None, None, None, None, "loading", "unloading"]), st.one_of(st.none(), st.integers(1, 5)),
                                                     st.one_of(st.none(), st.integers(0, 9))), min_size=3, max_size=10))]
    for i, w in enumerate(work):  # to and fro, mostly
        w[0] = w[0] or ("unloading" if i % 2 else "loading")
    return dict(cap=cap, level=draw(st.integers(cap // 3, cap)), vcap=draw(st.integers(2, 20)), rl=draw(fleet.rate()), ru=draw(fleet.rate()), ml=draw(st.integers(0, 4)), mu=draw(st.integers(0, 4)),
                work=work, f=draw(FACTORS))


def work(c, f):
    """Moments and levels after every transfer, or what was refused"""
    env = sut.simpy.Environment()
    s = sut.Site(env=env, name="s", geometry=sut.point(4, 52), capacity=c["cap"] * f, level=c["level"] * f)
    v = sut.Vessel(env=env, name="v", geometry=sut.point(4, 52), capacity=c["vcap"] * f, level=0, compute_v=lambda x: 1 + x, loading_rate=c["rl"] * f, unloading_rate=c["ru"] * f,
                   load_manoeuvring=c["ml"], unload_manoeuvring=c["mu"])
    out = []
    for k, amount, dur in c["work"]:
        o, d = (s, v) if k == "loading" else (v, s)
        a = sut.model.ShiftAmountActivity(env=env, registry={}, name="a", processor=v, origin=o, destination=d, amount=None if amount is None else amount * f, duration=dur, phase=k)
        sut.model.register_processes([a])
        try:
            sut.run_all(env)
        except ValueError as e:
            if not str(e).startswith("Attempting to shift content"):
                raise
            out.append("refused")
            break
        out.append((env.now, s.container.get_level() / f, v.container.get_level() / f, v.v, v.container.get_level() / v.container.get_capacity()))
    return out


def run_shifts(c):
    a, b = work(c, 1), work(c, c["f"])
    expect(a == b, "in units of 1/%s: %s instead of %s", c["f"], b, a)
    return ["nontrivial"] if len(a) >= 3 else []


# ---------------------------------------------------------------- units in which the amounts are rounded
DECIMALS = st.sampled_from([0.1, 0.01, 0.001, 10, 1000, 1 / 3, 1.1, 0.7, 3.6, 1 / 35.3146667, 1e-6, 987654.321])


def near(x, y, f=1.0, size=1.0):
    return abs(x * f - y) <= 1e-9 * max(abs(x * f), size * f, 1e-300)


@st.composite
def decimal_fleets(draw):
    """One vessel whose trips are never limited by what is left, so that the rounding decides nothing."""
    spec = draw(fleet.fleets(style="ample", max_vessels=1, plugins=0.1, delay=0.15))
    return dict(spec=spec, f=draw(DECIMALS))


def run_decimal_fleet(c):
    spec, f = c["spec"], c["f"]
    boot.reset_uuid(0)
    r = fleet.build(spec)
    expect(finish(r) is None, "refused")
    a = picture(fleet_objects(r), r.by_id, spec["t0"])
    boot.reset_uuid(0)
    r = fleet.build(in_units(spec, f))
    got = finish(r)
    expect(got is None, "in units of 1/%s: %s", f, got)
    b = picture(fleet_objects(r), r.by_id, spec["t0"])
    for k in a:
        expect(len(a[k]) == len(b[k]), "in units of 1/%s: the log of %s has %d entries instead of %d", f, k, len(b[k]), len(a[k]))
        # (what happens at one moment may be logged in another order)
        rest = list(b[k])
        for x in a[k]:
            y = next((y for y in rest if x[1:5] == y[1:5] and abs(x[0] - y[0]) < 1e-4 and x[6] == y[6]), None)
            expect(y is not None, "in units of 1/%s: the log of %s lacks %s", f, k, x)
            rest.remove(y)
            u, w = x[5], y[5]
            if u is not None:
                u, w = (u, w) if isinstance(u, dict) else ({"": u}, {"": w})
                size = max([1e-300] + [v for o in spec["sites"] + spec["vessels"] for v in next(iter(o["ids"].values()))[:1]])
                expect(u.keys() == w.keys() and all(near(u[i], w[i], f, size) for i in u), "in units of 1/%s: the level of %s at %s is %s instead of %s times that", f, k, x[0], w, u)
    return ["nontrivial"] if sum(map(len, a.values())) >= 20 else []


def run_decimal_shifts(c):
    a = work(c, 1)
    n = a.index("refused") if "refused" in a else len(a)
    b = work({**c, "work": c["work"][:n]}, c["f"])
    expect(len(b) == n, "in units of 1/%s: %s instead of %s", c["f"], b, a)
    for i, (x, y) in enumerate(zip(a[:n], b)):
        expect(len(x) == len(y) and all(near(u, w, 1.0, c["cap"] + c["vcap"]) for u, w in zip(x, y)), "in units of 1/%s, after transfer %s: %s instead of %s", c["f"], i, y, x)
    return ["nontrivial"] if n >= 3 else []


# ---------------------------------------------------------------- the types of the numbers
def retyped(x, rng):
    if isinstance(x, dict):
        # (the first of a level condition is an index)
        return {k: v[:1] + retyped(v[1:], rng) if k == "c" and len(v) == 4 and isinstance(v[0], int) else retyped(v, rng) for k, v in x.items()}
    if isinstance(x, list):
        return [retyped(v, rng) for v in x]
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return x
    return rng.choice([int, float, np.int64, np.float64] if x == int(x) else [float, np.float64])(x)


@st.composite
def typed(draw):
    if draw(st.booleans()):
        m = dict(fleet=draw(fleet.any_fleet(styles=("ample", "alone", "reserve", "edge"), plugins=0.1, delay=0.15, max_vessels=3)))
    else:
        m = dict(prog=draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0.4, plugins=0.1, delay=0.15, conts=True)))
    return dict(m, seed=draw(st.integers(0, 10**6)))


def typed_model(m, rng=None):
    boot.reset_uuid(0)
    if "fleet" in m:
        spec = m["fleet"]
        if rng:
            spec = copy.deepcopy(spec)
            things = spec["sites"] + spec["vessels"] + [s["crane"] for s in spec["sites"] if s["crane"]]
            for xs, keys in ((things, ("ids", "rl", "ru", "ml", "mu", "v")), (fleet.walk(spec["jobs"]), ("d", "amt", "st", "c", "dl"))):
                for x in xs:
                    x.update({k: retyped(x[k], rng) for k in keys if k in x})
            spec["t0"] = retyped(spec["t0"], rng)
        r = fleet.build(spec)
        refused = finish(r)
        return picture(fleet_objects(r), r.by_id, m["fleet"]["t0"]), refused is not None
    p = m["prog"]
    if rng:
        p = copy.deepcopy(p)
        for n in prog.walk_nodes(p):
            for k in ("d", "st", "c", "dl"):
                if k in n:
                    n[k] = retyped(n[k], rng)
        for s in p["cont"]:
            s["ids"] = retyped(s["ids"], rng)
        p["hist"] = [[retyped(t, rng), i, id_, retyped(x, rng)] for t, i, id_, x in p["hist"]]
        p["t0"] = retyped(p["t0"], rng)
    b = prog.run(p)
    return picture(prog_objects(b), b.by_id, m["prog"]["t0"]), False


def run_types(c):
    a, ra = typed_model(c)
    b, rb = typed_model(c, random.Random(c["seed"]))
    same(a, b, "with numbers of other types")
    expect(ra == rb, "with numbers of other types: %s", "refused" if rb else "not refused")
    return ["nontrivial"] if sum(map(len, a.values())) >= 20 else []


FACETS = [
    Facet("types", lambda t: typed(), run_types, 300, 6000, "fleets and programs with whole numbers, floating point numbers and those of numpy instead of each other"),
    Facet("decimal", lambda t: decimal_fleets(), run_decimal_fleet, 300, 6000, "one vessel in units that are no powers of two, up to rounding"),
    Facet("decimal shifts", lambda t: st.tuples(shifts(), DECIMALS).map(lambda x: {**x[0], "f": x[1]}), run_decimal_shifts, 500, 10000, "sequences of transfers in such units, up to rounding"),
    Facet("fleet", lambda t: fleets(), run_fleet, 400, 8000, "fleets in another unit of quantity"),
    Facet("program", lambda t: programs(), run_program, 400, 8000, "programs that wait for levels in another unit"),
    Facet("shifts", lambda t: shifts(), run_shifts, 600, 12000, "sequences of transfers between a site and a vessel"),
]
