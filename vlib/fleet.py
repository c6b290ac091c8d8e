"""Fleets: sites, vessels and cranes that share containers and resource slots.

The oracles work on what any user can see - the logs of activities and objects, and container levels and positions
sampled after every step of the event loop - and never on the order of events within one moment.

Spec (plain JSON):
 t0, multi,
 sites:   [{x, ids: {id: [capacity, level]}, slots, crane: None | {slots, rl, ru, ml, mu}}]
 vessels: [{kind: dep|plain|multi, ids, at, v, rl, ru, ml, mu, slots}]
 jobs:    [node]   node k: seq par rep while basic move shift
   seq/par/rep/while: s, r (rep), c (while; expression)       basic: d, al: [vessel, ...]
   move: v, to, d | None, eo                                  shift: v, site, dir, amt, d | None, id, by: vessel|crane
   every node: n, st (expression or None), dl (percentage), pl [[priority, pre, post]], keep
 expression: {t} | {c: [site, id, state, level]} | {a: name} | {and|or|list: [...]}
"""
import collections
import copy

import pyproj
from hypothesis import strategies as st

from . import prog, sut
from .runner import Facet, Skip, Violation, expect

GEOD = pyproj.Geod(ellps="WGS84")
EPS = 1e-6
STRUCT = ("seq", "par", "rep", "while")


def walk(nodes):
    for n in nodes:
        yield n
        yield from walk(n.get("s", []))


def name_nodes(spec):
    for i, n in enumerate(walk(spec["jobs"])):
        n["n"] = f"{n['k']}{i}"
    return spec


class Run:
    """The built model and everything observed while it ran."""


def where(x):
    return sut.point(4 + 0.05 * x, 52)


def build(spec, env=None, register=True, classes=None, prefix="", registry=None, world=None):
    """classes: name of a class in sut -> another one to use for it; prefix: of the names of objects; world: an earlier
    model whose objects to use"""
    r = Run()
    new = {n: (classes or {}).get(n) or getattr(sut, n) for n in ("Site", "MultiSite", "Crane", "MultiVessel", "Vessel", "PlainVessel")}
    r.spec = spec
    if world is not None:
        env, registry = world.env, world.registry
    r.env = env if env is not None else sut.simpy.Environment(initial_time=spec["t0"])
    r.registry = registry if registry is not None else {}
    r.calls = []
    r.refused = None
    r.sites, r.cranes, r.vessels = [], [], []
    if world is not None:
        r.sites, r.cranes, r.vessels = world.sites, world.cranes, world.vessels
    for i, s in enumerate(spec["sites"] if world is None else ()):
        kw = dict(env=r.env, name=prog.called(prefix, f"site{i}"), geometry=where(s["x"]), nr_resources=s.get("slots", 1))
        node = dict(node=s["node"]) if s.get("node") else {}
        kw.update(node)
        if spec.get("multi"):
            r.sites.append(new["MultiSite"](initials=sut.pooled([dict(id=k, capacity=v[0], level=v[1]) for k, v in s["ids"].items()]), **kw))
        else:
            cap, level = s["ids"]["default"]
            r.sites.append(new["Site"](capacity=cap, level=level, **kw))
        c = s.get("crane")
        r.cranes.append(None if c is None else new["Crane"](
            env=r.env, name=prog.called(prefix, f"crane{i}"), geometry=where(s["x"]), nr_resources=c.get("slots", 1), loading_rate=c["rl"],
            unloading_rate=c["ru"], load_manoeuvring=c.get("ml", 0), unload_manoeuvring=c.get("mu", 0), **node))
    for i, v in enumerate(spec["vessels"] if world is None else ()):
        kw = dict(env=r.env, name=prog.called(prefix, f"vessel{i}"), geometry=where(spec["sites"][v["at"]]["x"]),
                  nr_resources=v.get("slots", 1), loading_rate=v["rl"], unloading_rate=v["ru"],
                  load_manoeuvring=v.get("ml", 0), unload_manoeuvring=v.get("mu", 0))
        if v.get("node"):
            kw["node"] = v["node"]
        speed = v["v"]
        if spec.get("multi"):
            init = sut.pooled([dict(id=k, capacity=x[0], level=x[1]) for k, x in v["ids"].items()])
            r.vessels.append(new["MultiVessel"](initials=init, compute_v=lambda f, s=speed: s / (1 + f), **kw))
        elif v["kind"] == "dep":
            cap, level = v["ids"]["default"]
            r.vessels.append(new["Vessel"](capacity=cap, level=level, compute_v=lambda f, s=speed: s / (1 + f), **kw))
        else:
            cap, level = v["ids"]["default"]
            r.vessels.append(new["PlainVessel"](capacity=cap, level=level, v=speed, **kw))
    r.acts, r.nodes, r.parent = {}, {}, {}
    r.shared = {}  # requested-resources administrations

    def expr(e):
        if "t" in e:
            return {"type": "time", "start_time": e["t"]}
        if "a" in e:
            return {"type": "activity", "state": "done", "name": e["a"]}
        if "c" in e:
            i, id_, state, level = e["c"]
            out = {"type": "container", "concept": r.sites[i], "state": state}
            if level is not None:
                out["level"] = level
            if id_ != "default":
                out["id_"] = id_
            return out
        if "list" in e:
            return [expr(x) for x in e["list"]]
        for key in ("and", "or"):
            if key in e:
                return {key: [expr(x) for x in e[key]]}
        raise KeyError(str(e))

    def make(n, parent=None):
        kw = dict(env=r.env, registry=r.registry, name=n["n"])
        if n.get("st") is not None:
            kw["start_event"] = expr(n["st"])
        if n.get("dl") is not None:
            kw["delay_percentage"] = n["dl"]
        if n.get("share") is not None:
            kw["requested_resources"] = r.shared.setdefault(n["share"], {})
        if n.get("keep"):
            kw["keep_resources"] = [obj(r, o) for o in n["keep"]]
        cls = sut.activity_class(n["k"], delay=n.get("dl") is not None)
        if n.get("single"):
            # a cycle made by the single-run helper
            go, load, back, unload = n["s"]
            v = r.vessels[n["v"]]
            if n["single"] != "default":
                kw["stop_event"] = [expr(n["c"])] if n["single"] == "list" else expr(n["c"])
            cycle, a = sut.model.single_run_process(origin=r.sites[go["to"]], destination=r.sites[back["to"]], mover=v,
                                                    loader=v if load["by"] == "vessel" else r.cranes[go["to"]],
                                                    unloader=v if unload["by"] == "vessel" else r.cranes[back["to"]], **kw)
            for c, part in zip(n["s"], cycle):
                r.acts[c["n"]], r.nodes[c["n"]], r.parent[c["n"]] = part, c, n["n"]
        elif n["k"] == "basic":
            a = cls(duration=n["d"], additional_logs=[r.vessels[i] for i in n.get("al", [])], **kw)
        elif n["k"] == "move":
            if n.get("eo") is not None:
                kw["engine_order"] = n["eo"]
            a = cls(mover=r.vessels[n["v"]], destination=r.sites[n["to"]], duration=n.get("d"), **kw)
        elif n["k"] == "shift":
            v, s = r.vessels[n["v"]], r.sites[n["site"]]
            proc = v if n["by"] == "vessel" else r.cranes[n["site"]]
            if n.get("id", "default") != "default":
                kw["id_"] = n["id"]
            a = cls(processor=proc, origin=s if n["dir"] == "load" else v, destination=v if n["dir"] == "load" else s,
                    amount=n.get("amt"), duration=n.get("d"),
                    phase=None if n.get("d") is not None else ("loading" if n["dir"] == "load" else "unloading"), **kw)
        else:
            subs = [make(c, n) for c in n["s"]]
            if n["k"] == "rep":
                a = cls(sub_processes=subs, repetitions=n["r"], **kw)
            elif n["k"] == "while":
                a = cls(sub_processes=subs, condition_event=expr(n["c"]), **kw)
            else:
                a = cls(sub_processes=subs, **kw)
        for i, (prio, pre, post) in enumerate(n.get("pl", [])):
            a.register_plugin(sut.TimedPlugin((n["n"], i), pre, post, r.calls), priority=prio)
        r.acts[n["n"]], r.nodes[n["n"]], r.parent[n["n"]] = a, n, parent["n"] if parent else None
        return a

    r.tops = [make(n) for n in spec["jobs"]]
    r.by_id = {a.id: name for name, a in r.acts.items()}
    if register:
        sut.model.register_processes(list(r.tops))
    return r


def obj(r, ref):
    kind, i = ref
    return {"site": r.sites, "vessel": r.vessels, "crane": r.cranes}[kind][i]


def stores(r):
    """(kind, index, id) -> (container, capacity)"""
    out = {}
    for kind, objs, specs in (("site", r.sites, r.spec["sites"]), ("vessel", r.vessels, r.spec["vessels"])):
        for i, (o, s) in enumerate(zip(objs, specs)):
            for id_, (cap, _) in s["ids"].items():
                out[kind, i, id_] = (o.container, cap)
    return out


def observe(spec, reservations=False, states=False, allow_refusal=False, r=None, max_events=sut.MAX_EVENTS):
    """Build and run; sample levels (and reservation levels, positions) after every step."""
    r = r if r is not None else build(spec)
    st_ = stores(r)
    r.capacity = {k: v[1] for k, v in st_.items()}
    r.changes = []      # (time, step, key, new level)
    r.res_changes = []
    r.moves = []        # (time, step, vessel, (x, y))
    r.refused = None
    cur, cur_r, pos = {}, {}, {}
    step = 0
    objs = [("site", i, o) for i, o in enumerate(r.sites)] + [("vessel", i, o) for i, o in enumerate(r.vessels)]
    seen = {id(o): 0 for _, _, o in objs}
    prev_state = {}
    r.state_errors = []

    reservations = reservations or reserving(spec)

    def sample():
        now = prog.q(r.env.now)
        for k, (c, _) in st_.items():
            v = c.get_level(k[2])
            if v != cur.get(k):
                cur[k] = v
                r.changes.append((now, step, k, v))
            if reservations:
                v = c.get_level(f"{k[2]}_reservations")
                if v != cur_r.get(k):
                    cur_r[k] = v
                    r.res_changes.append((now, step, k, v))
        for i, v in enumerate(r.vessels):
            p = (v.geometry.x, v.geometry.y)
            if p != pos.get(i):
                pos[i] = p
                r.moves.append((now, step, i, p))
        if states:
            for kind, i, o in objs:
                state = observed_state(r, kind, i, o)
                lb = o.logbook
                for e in lb[seen[id(o)]:]:
                    got = recorded_state(e["ObjectState"])
                    if got not in (prev_state.get((kind, i)), state):
                        r.state_errors.append(
                            f"{kind}{i} logged {e['ActivityState']} at {now} with state {got}; its state was "
                            f"{prev_state.get((kind, i))} before and {state} after that moment")
                    if abs(sut.secs(e["Timestamp"]) - now) > 2e-6:
                        # waits are logged afterwards; everything else when it happens
                        if not e["ActivityState"].startswith("WAIT"):
                            r.state_errors.append(f"{kind}{i} logged {e['ActivityState']} for {e['Timestamp']} at {now}")
                seen[id(o)] = len(lb)
                prev_state[kind, i] = state

    sample()
    r.initial = dict(cur)
    r.initial_res = dict(cur_r)

    def on_step():
        nonlocal step
        step += 1
        sample()

    try:
        sut.run_all(r.env, on_step=on_step, max_events=max_events)
    except ValueError as e:
        text = str(e)
        if not text.startswith("Attempting to shift content"):
            raise
        sample()
        if not allow_refusal:
            skip_ties(r)
            raise
        r.refused = text
    skip_ties(r)
    r.final, r.final_res = dict(cur), dict(cur_r)
    r.end = r.env.now
    return r


def reserving(spec):
    return any(n["k"] == "while" and "_reservations" in str(n["c"]) for n in walk(spec["jobs"]))


def skip_ties(r):
    """Known finding of C16: when cycles end at one moment, the loops of all of them go on although the first of them
    reserves all that was left. Nothing else is excused: the limit was not reached before that moment."""
    if r.spec.get("known") or not reserving(r.spec):
        return
    ends = [(n["c"], n) for n in walk(r.spec["jobs"]) if n["k"] == "while"]
    limits = set()
    for c, _ in ends:
        for x in c.get("or", [c]):
            if "c" in x and x["c"][1].endswith("_reservations"):
                limits.add((("site", x["c"][0], x["c"][1][:-len("_reservations")]), x["c"][2]))
    for key, state in limits:
        sign, bound = (1, r.capacity[key]) if state == "full" else (-1, 0)
        hist = [(t, sign * v) for t, _, k, v in r.res_changes if k == key]
        for (t0, v0), (t1, v1), (t2, v2) in zip(hist, hist[1:], hist[2:]):
            if t1 == t2 and v0 < sign * bound - EPS * abs(v2) <= v1 < v2:
                raise Skip("several vessels reserve at the very moment at which the first of them reserves all that is left")


def observed_state(r, kind, i, o):
    ids = r.spec["sites" if kind == "site" else "vessels"][i]["ids"]
    if r.spec.get("multi"):
        level = {k: o.container.get_level(k) for k in ids}
    else:
        level = o.container.get_level()
    return (level, (o.geometry.x, o.geometry.y))


def recorded_state(s):
    g = s.get("geometry")
    return (s.get("container level"), (g.x, g.y) if g is not None else None)


# ---------------------------------------------------------------- executions from the logs
class Exec:
    __slots__ = ("name", "node", "k", "due", "released", "start", "stop", "done", "parent", "it", "sub", "waits")

    def __init__(self, name, node, k):
        self.name, self.node, self.k = name, node, k
        self.due = self.released = self.start = self.stop = self.done = self.parent = None
        self.it = 0
        self.sub = []  # (time, START/STOP, child name)
        self.waits = []

    def __repr__(self):
        return f"{self.name}#{self.k}[{self.start},{self.stop}]"


def executions(r):
    """name -> executions, from the activities' own logs, linked to the execution of their parent."""
    out = {}
    for name, act in r.acts.items():
        node = r.nodes[name]
        lst, cur, wait = [], None, None
        for t, s, aid, lt, lr in sut.entries(act):
            expect(aid == act.id, "the log of %s has an entry with id %s", name, aid)
            if lt == "subprocess":
                expect(lr in r.by_id, "the log of %s refers to unknown activity %s", name, lr)
                expect(cur is not None and cur.stop is None, "%s logged a part outside its own start and stop", name)
                cur.sub.append((t, s, r.by_id[lr]))
            elif lt == "plugin":
                expect(cur is not None, "%s logged a plugin wait before it started", name)
                cur.waits.append((t, s, lr))
                if s == "WAIT_STOP":
                    cur.done = t
            elif s == "WAIT_START":
                expect(wait is None and (cur is None or cur.stop is not None), "%s: unexpected WAIT_START at %s", name, t)
                wait = (t, None)
            elif s == "WAIT_STOP":
                expect(wait is not None and wait[1] is None, "%s: unexpected WAIT_STOP at %s", name, t)
                wait = (wait[0], t)
            elif s == "START":
                expect(cur is None or cur.stop is not None, "%s started at %s before it stopped", name, t)
                cur = Exec(name, node, len(lst))
                cur.start = t
                if wait is not None:
                    cur.due, cur.released = wait
                    wait = None
                lst.append(cur)
            elif s == "STOP":
                expect(cur is not None and cur.stop is None, "%s: unexpected STOP at %s", name, t)
                cur.stop = t
                cur.done = t
            else:
                raise Violation(f"{name} logged state {s}")
        out[name] = lst
    # plugins that take time after the stop
    for what, tag, t, *_ in r.calls:
        if what == "post":
            name, i = tag
            t = prog.q(t)
            done = t + r.nodes[name]["pl"][i][2]
            ex = [e for e in out[name] if e.stop is not None and e.stop <= t + EPS]
            if ex:
                ex[-1].done = max(ex[-1].done, done)
    for name, lst in out.items():
        for e in lst:
            seen = collections.Counter()
            for t, s, child in e.sub:
                if s == "START":
                    k = sum(len([1 for _, s2, c2 in p.sub if s2 == "START" and c2 == child]) for p in lst[: e.k]) + seen[child]
                    seen[child] += 1
                    expect(k < len(out[child]) or r.refused or e.stop is None, "%s logged execution %d of %s, which ran %d times",
                           name, k, child, len(out[child]))
                    if k < len(out[child]):
                        c = out[child][k]
                        c.parent, c.it = e, seen[child] - 1
                        if c.due is None:
                            c.due = c.released = t
                        else:
                            expect(abs(c.due - t) < EPS, "%s became due at %s but logs waiting since %s", child, t, c.due)
    for name, lst in out.items():
        for e in lst:
            if r.parent[name] is None and e.due is None:
                e.due = e.released = r.spec["t0"]
    return out


def check_complete(r, ex):
    """Every activity ran to its end, as often as its parent asked for."""
    for n in r.spec["jobs"]:
        expect(len(ex[n["n"]]) == 1, "top-level activity %s ran %d times", n["n"], len(ex[n["n"]]))
    for name, lst in ex.items():
        for e in lst:
            expect(e.stop is not None, "%s started at %s and never finished", name, e.start)
    for n in walk(r.spec["jobs"]):
        for c in n.get("s", []):
            want = sum(1 for e in ex[n["n"]] for _, s, x in e.sub if s == "START" and x == c["n"])
            expect(len(ex[c["n"]]) == want, "%s asked for %d executions of %s, it ran %d times", n["n"], want, c["n"], len(ex[c["n"]]))


def check_structure(r, ex, kinds):
    """Starts and ends of parts relate to their parent and to each other as the kind of activity says."""
    n_checked = 0
    for name, lst in ex.items():
        node = r.nodes[name]
        if node["k"] not in kinds:
            continue
        parts = [c["n"] for c in node["s"]]
        for e in lst:
            if e.stop is None:
                continue
            n_checked += 1
            if node["k"] == "par":
                starts = [(t, c) for t, s, c in e.sub if s == "START"]
                stops = [(t, c) for t, s, c in e.sub if s == "STOP"]
                expect(sorted(c for _, c in starts) == sorted(parts) and all(t == e.start for t, _ in starts),
                       "parallel %s started %s at %s", name, starts, e.start)
                expect(sorted(c for _, c in stops) == sorted(parts), "parallel %s logged the end of %s", name, stops)
                expect(abs(max(t for t, _ in stops) - e.stop) < EPS, "parallel %s stops at %s, its parts at %s", name, e.stop, stops)
                for t, c in stops:
                    ce = [x for x in ex[c] if x.parent is e]
                    expect(len(ce) == 1 and abs(ce[0].done - t) < EPS, "parallel %s logs the end of %s at %s: %s", name, c, t, ce)
                    expect(ce[0].start >= e.start - EPS, "part %s starts before %s", c, name)
                continue
            expect(len(e.sub) % (2 * len(parts)) == 0 and e.sub, "%s logged %d part entries", name, len(e.sub))
            its = len(e.sub) // (2 * len(parts))
            if node["k"] == "seq":
                expect(its == 1, "sequence %s ran its parts %d times", name, its)
            if node["k"] == "rep":
                expect(its == node["r"], "%s ran %d iterations instead of %d", name, its, node["r"])
            prev = e.start
            count = collections.Counter()
            for j in range(0, len(e.sub), 2):
                c = parts[(j // 2) % len(parts)]
                (t1, s1, c1), (t2, s2, c2) = e.sub[j], e.sub[j + 1]
                expect((s1, c1, s2, c2) == ("START", c, "STOP", c), "%s: parts out of order: %s %s instead of %s", name, e.sub[j], e.sub[j + 1], c)
                expect(abs(t1 - prev) < EPS, "%s: %s becomes due at %s, its predecessor was done at %s", name, c, t1, prev)
                ce = [x for x in ex[c] if x.parent is e and x.it == count[c]]
                count[c] += 1
                expect(len(ce) == 1, "%s: no single execution of %s", name, c)
                expect(ce[0].start >= t1 - EPS, "%s: %s starts at %s, before it is due at %s", name, c, ce[0].start, t1)
                expect(abs(ce[0].done - t2) < EPS, "%s logs the end of %s at %s, it was done at %s", name, c, t2, ce[0].done)
                prev = t2
            expect(abs(prev - e.stop) < EPS, "%s stops at %s, its last part is done at %s", name, e.stop, prev)
    return n_checked


def level_at(r, key, t):
    """Level after everything that happened up to and including t."""
    v = r.initial[key]
    for ct, _, k, nv in r.changes:
        if k == key and ct <= t + EPS:
            v = nv
    return v


def first_true(r, c, since, reservations=False):
    """(first moment since `since` at which the level relation holds, or None)"""
    i, id_, state, level = c
    res = id_.endswith("_reservations")
    key = ("site", i, id_[: -len("_reservations")] if res else id_)
    cap = r.capacity[key]
    test = {"gt": lambda v: v > level, "ge": lambda v: v >= level, "lt": lambda v: v < level,
            "le": lambda v: v <= level, "full": lambda v: v >= cap, "empty": lambda v: v <= 0}[state]
    changes = r.res_changes if res else r.changes
    v = (r.initial_res if res else r.initial)[key]
    for ct, _, k, nv in changes:
        if k == key and ct < since - EPS:
            v = nv
    later = [(ct, nv) for ct, _, k, nv in changes if k == key and ct >= since - EPS]
    at = [v] + [nv for ct, nv in later if ct <= since + EPS]
    if any(test(x) for x in at):
        return since  # may have ceased within that very moment: callers allow for either
    for ct, nv in later:
        if test(nv):
            return ct
    return None


def occurs(r, e, since):
    if "t" in e:
        return max(e["t"], since)
    if "c" in e:
        return first_true(r, e["c"], since)
    for key in ("and", "list", "or"):
        if key in e:
            v = [occurs(r, x, since) for x in e[key]]
            if key == "or":
                v = [x for x in v if x is not None]
                return min(v) if v else None
            return None if any(x is None for x in v) else max(v)
    raise KeyError(str(e))


def check_while(r, ex):
    n = 0
    for name, lst in ex.items():
        node = r.nodes[name]
        if node["k"] != "while":
            continue
        last = node["s"][-1]["n"]
        for e in lst:
            if e.stop is None:
                continue
            ends = [t for t, s, c in e.sub if s == "STOP" and c == last]
            occ = occurs(r, node["c"], e.start)
            expect(occ is not None and occ <= ends[-1] + EPS, "%s stopped at %s but its condition occurred at %s", name, ends[-1], occ)
            for t in ends[:-1]:
                expect(t <= occ + EPS, "%s started another iteration at %s although its condition occurred at %s", name, t, occ)
            n += len(ends) > 1
    return n


# ---------------------------------------------------------------- shifts and material
def shift_execs(r, ex):
    out = []
    for name, lst in ex.items():
        n = r.nodes[name]
        if n["k"] == "shift":
            v, s = ("vessel", n["v"]), ("site", n["site"])
            o, d = (s, v) if n["dir"] == "load" else (v, s)
            for e in lst:
                out.append((e, o, d, n.get("id", "default")))
    return out


def net_changes(r):
    """(key, moment) -> change of the level within that moment"""
    out = collections.defaultdict(float)
    cur = dict(r.initial)
    for t, _, k, v in r.changes:
        out[k, t] += v - cur[k]
        cur[k] = v
    return {k: v for k, v in out.items() if abs(v) > 1e-9}


def check_material(r, ex):
    """Every change of a level is the start (origin) or end (destination) of one shift, with equal amounts."""
    net = net_changes(r)
    want = collections.defaultdict(float)
    amounts, unfinished = {}, set()
    for e, o, d, id_ in shift_execs(r, ex):
        v = o if o[0] == "vessel" else d
        at = e.start if v == o else e.stop
        if at is None:
            unfinished.add(((*o, id_), e.start))  # cut off: what it took is not delivered anywhere
            continue
        # a vessel is used by one shift at a time
        a = abs(net.get(((*v, id_), at), 0.0))
        amounts[e.name, e.k] = a
        want[(*o, id_), e.start] -= a
        if e.stop is not None:
            want[(*d, id_), e.stop] += a
    for key in (set(net) | set(want)) - unfinished:
        expect(abs(net.get(key, 0.0) - want.get(key, 0.0)) < 1e-6,
               "level of %s changed by %s at %s, the shifts starting and stopping then account for %s",
               key[0], net.get(key, 0.0), key[1], want.get(key, 0.0))
    return amounts


def check_conservation(r, ex):
    """At every moment: content of everything plus what is under way equals the initial content."""
    total0 = collections.defaultdict(float)
    for k, v in r.initial.items():
        total0[k[2]] += v
    level = dict(r.initial)
    times = sorted({t for t, *_ in r.changes})
    by_t = collections.defaultdict(list)
    for t, _, k, v in r.changes:
        by_t[t].append((k, v))
    sh = shift_execs(r, ex)
    checked = 0
    for t in times:
        for k, v in by_t[t]:
            level[k] = v
        for id_ in total0:
            running = [e for e, o, d, i in sh if i == id_ and e.start <= t + EPS and (e.stop is None or e.stop > t + EPS)]
            total = sum(v for k, v in level.items() if k[2] == id_)
            if not running:
                expect(abs(total - total0[id_]) < 1e-6, "at %s the total content of %s is %s instead of %s with no shift under way",
                       t, id_, total, total0[id_])
                checked += 1
            else:
                expect(total < total0[id_] + 1e-6, "at %s the total content of %s is %s, more than the initial %s", t, id_, total, total0[id_])
    return checked


def check_bounds(r):
    for t, _, k, v in r.changes:
        expect(-1e-9 <= v <= r.capacity[k] + 1e-9, "level of %s is %s at %s, outside [0, %s]", k, v, t, r.capacity[k])


def users(r, node):
    """Objects whose slot the activity needs."""
    if node["k"] == "move":
        return {("vessel", node["v"])}
    if node["k"] == "shift":
        out = {("vessel", node["v"]), ("site", node["site"])}
        if node["by"] == "crane":
            out.add(("crane", node["site"]))
        return out
    return set()


def slots(r, o):
    kind, i = o
    if kind == "crane":
        return r.spec["sites"][i]["crane"].get("slots", 1)
    return r.spec["sites" if kind == "site" else "vessels"][i].get("slots", 1)


def began(e):
    """Start of pre-processing: what the activity needs is granted just before."""
    return max(e.released, e.start - sum(p[1] for p in e.node.get("pl", [])))


def uses(r, ex):
    """object -> [(from, to, execution)]: from the start of pre-processing to the moment the activity is done"""
    out = collections.defaultdict(list)
    for name, lst in ex.items():
        node = r.nodes[name]
        for e in lst:
            begin = began(e)
            for o in users(r, node):
                out[o].append((begin, e.done if e.stop is not None else float("inf"), e))
    return out


def check_exclusive(r, ex):
    n = 0
    for o, lst in uses(r, ex).items():
        k = slots(r, o)
        # (the log rounds to microseconds: an end that coincides with a start comes first)
        events = sorted([(b, 1, e) for b, d, e in lst if d - b > 1e-4] + [(d - 2e-5, 0, e) for b, d, e in lst if d - b > 1e-4],
                        key=lambda x: x[:2])
        inside = []
        for t, what, e in events:
            if what:
                inside.append(e)
                expect(len(inside) <= k, "%s has %d slot(s) but at %s is used by %s", o, k, t, inside)
                n += len(inside) > 1
            else:
                inside.remove(e)
    return n


def check_released(r):
    for kind, objs in (("site", r.sites), ("vessel", r.vessels), ("crane", r.cranes)):
        for i, o in enumerate(objs):
            if o is not None:
                expect(o.resource.count == 0 and len(o.resource.queue) == 0,
                       "%s%d: %d slot(s) still held, %d request(s) still waiting after the simulation", kind, i,
                       o.resource.count, len(o.resource.queue))


def check_order(r, ex):
    """First come, first served: who asks for a site earlier starts no later (ample content and space)."""
    n = 0
    groups = collections.defaultdict(list)
    for e, o, d, id_ in shift_execs(r, ex):
        if e.node["dir"] == "unload":
            groups[d, "unload"].append(e)
        elif e.node["by"] == "vessel":
            groups[o, "load"].append(e)
    for key, lst in groups.items():
        mixed = any(x["k"] == "shift" and x["site"] == key[0][1] and x["dir"] != key[1] for x in r.nodes.values())
        if mixed:
            continue
        starts = {id(e): began(e) for e in lst}
        lst.sort(key=lambda e: e.released)
        for a, b in zip(lst, lst[1:]):
            if b.released > a.released + EPS:
                expect(starts[id(b)] >= starts[id(a)] - EPS, "%s: %r asked at %s and started before %r, which asked at %s", key, b, b.released, a, a.released)
                n += starts[id(a)] > a.released + EPS
    return n


def check_no_idling(r, ex):
    """An activity that is due and free of conditions waits only while a slot it needs is taken by others."""
    use = uses(r, ex)
    n = 0
    for name, lst in ex.items():
        node = r.nodes[name]
        need = users(r, node)
        if not need:
            continue
        for e in lst:
            begin = began(e)
            if begin <= e.released + EPS:
                continue
            points = sorted({e.released, begin} | {t for o in need for b, d, x in use[o] for t in (b, d) if e.released < t < begin})
            for a, b in zip(points, points[1:]):
                if b - a < 1e-4:
                    continue
                mid = (a + b) / 2
                blocked = any(sum(1 for u, d, x in use[o] if u <= mid < d and x is not e) >= slots(r, o) for o in need)
                expect(blocked, "%r was due at %s and waits at %s although everything it needs is free", e, e.released, mid)
            n += 1
    return n


def registered(r, ex):
    """(name, k) -> moment at which the execution was scheduled"""
    def reg(e):
        p, it = e.parent, e.it
        while p is not None:
            if p.node["k"] in ("rep", "while") and it > 0:
                last = p.node["s"][-1]["n"]
                ends = [t for t, s, c in p.sub if s == "STOP" and c == last]
                return ends[it - 1]
            it, p = p.it, p.parent
        return r.spec["t0"]

    return {(e.name, e.k): reg(e) for lst in ex.values() for e in lst}


def check_reservations(r, ex):
    """After every moment: reservation level = level + announced deliveries - announced pick-ups."""
    reg = registered(r, ex)
    sh = []
    for e, o, d, id_ in shift_execs(r, ex):
        a = e.node.get("amt")
        if not a:
            a = min(r.capacity[(*o, id_)], r.capacity[(*d, id_)])
        sh.append((reg[e.name, e.k], e.start, e.stop, o, d, id_, a))
    times = sorted({t for t, *_ in r.changes} | {t for t, *_ in r.res_changes})
    lv, rs = dict(r.initial), dict(r.initial_res)
    c1 = collections.defaultdict(list)
    for t, _, k, v in r.changes:
        c1[t].append((0, k, v))
    for t, _, k, v in r.res_changes:
        c1[t].append((1, k, v))
    n = 0
    for t in times:
        for w, k, v in c1[t]:
            (rs if w else lv)[k] = v
        for k in lv:
            want = lv[k]
            pending = 0
            for g, a, b, o, d, id_, amt in sh:
                if id_ != k[2] or g > t + EPS:
                    continue
                if d == k[:2] and b > t + EPS:
                    want += amt
                    pending += 1
                if o == k[:2] and a > t + EPS:
                    want -= amt
                    pending += 1
            expect(abs(rs[k] - want) < 1e-6, "reservation level of %s is %s at %s; level %s and %d announced shifts make %s",
                   k, rs[k], t, lv[k], pending, want)
            n += pending > 0
    return n


def check_object_logs(r, ex):
    """Every object logs exactly the executions that use it, with their times and ids."""
    want = collections.defaultdict(list)
    for name, lst in ex.items():
        n = r.nodes[name]
        aid = r.acts[name].id
        for e in lst:
            for o in users(r, n):
                want[o].append((e.start, "START", aid, None))
                if e.stop is not None:
                    want[o].append((e.stop, "STOP", aid, None))
            if n["k"] == "basic":
                for i in n.get("al", []):
                    o = ("vessel", i)
                    if e.released > e.due:
                        want[o] += [(e.due, "WAIT_START", aid, aid), (e.released, "WAIT_STOP", aid, aid)]
                    want[o].append((e.start, "START", aid, aid))
                    if e.stop is not None:
                        want[o].append((e.stop, "STOP", aid, aid))
    n = 0
    for kind, objs in (("site", r.sites), ("vessel", r.vessels), ("crane", r.cranes)):
        for i, o in enumerate(objs):
            if o is None:
                continue
            got = [(t, s, aid, lr) for t, s, aid, lt, lr in sut.entries(o)]
            w = want[kind, i]
            key = lambda x: tuple(str(y) if not isinstance(y, float) else round(y, 5) for y in x)  # noqa: E731
            g2, w2 = sorted(map(key, got), key=str), sorted(map(key, w), key=str)
            if g2 != w2:
                extra = [x for x in g2 if x not in w2][:3]
                missing = [x for x in w2 if x not in g2][:3]
                raise Violation(f"log of {kind}{i}: unexpected {extra}, missing {missing} ({len(g2)} entries, {len(w2)} expected)")
            n += len(got) > 0
            # entries of one activity alternate
            open_ = collections.Counter()
            for t, s, aid, lr in got:
                if s in ("START", "STOP"):
                    open_[aid] += 1 if s == "START" else -1
                    expect(open_[aid] in (0, 1), "log of %s%d: %s of activity %s does not alternate", kind, i, s, r.by_id.get(aid))
    return n


def check_positions(r, ex):
    """A vessel changes position only at the end of its moves, to their destination."""
    want = collections.defaultdict(list)
    for name, lst in ex.items():
        n = r.nodes[name]
        if n["k"] == "move":
            p = where(r.spec["sites"][n["to"]]["x"])
            for e in lst:
                if e.stop is not None:
                    want[n["v"]].append((e.stop, (p.x, p.y)))
    for i, v in enumerate(r.spec["vessels"]):
        p = where(r.spec["sites"][v["at"]]["x"])
        cur = (p.x, p.y)
        exp = []
        for t, p in sorted(want[i]):
            if p != cur:
                exp.append((t, p))
                cur = p
        got = [(t, p) for t, s, j, p in r.moves if j == i and s > 0]
        expect(got == exp, "positions of vessel%d: %s instead of %s", i, got, exp)


# ---------------------------------------------------------------- generators
def dur():
    return st.one_of(st.integers(1, 20), st.integers(1, 160).map(lambda k: k / 8))


def rate():
    return st.sampled_from([0.125, 0.25, 0.5, 1, 2, 4])


@st.composite
def fleets(draw, style="ample", max_vessels=4, cranes=True, multi=None, delay=0.15, plugins=0.0, site_slots=1, extras=True,
           start=0.15, bidirectional=True, crane_slots=1):
    """style 'ample': enough for every trip; 'edge': limits are reached and shifts may be refused (several vessels);
    'alone': one vessel working to the limit; 'reserve': several vessels working to the limit with reservations."""
    multi = draw(st.booleans()) if multi is None else multi
    ids = ["default"] if not multi else draw(st.sampled_from([["sand"], ["sand", "rock"], ["default", "sand"]]))
    ns = draw(st.integers(2, 3))
    nv = 1 if style == "alone" else draw(st.integers(1 if style != "edge" else 2, max_vessels))
    t0 = draw(st.sampled_from([0, 0, 1000.5, 1_600_000_000]))
    two_way = bidirectional and style == "ample" and draw(st.booleans())
    amt_all = draw(st.integers(1, 10))
    vessels, jobs = [], []
    crane_at = [draw(st.booleans()) if cranes and not two_way else False for _ in range(ns)]

    def pct(p):
        return draw(st.integers(0, 99)) < p * 100

    def wrap(n):
        if pct(delay):
            n["dl"] = draw(st.sampled_from([0, 12.5, 25, 50, 100, 150]))
        if pct(plugins):
            n["pl"] = [[draw(st.integers(0, 5)), draw(dur()), draw(dur())]]
            while plugins > 0.3 and len(n["pl"]) < 4 and pct(0.5):
                n["pl"].append([draw(st.integers(-2, 5)), draw(st.one_of(st.just(0), dur())), draw(st.one_of(st.just(0), dur()))])
        return n

    total = {}
    for v in range(nv):
        at = draw(st.integers(0, ns - 1))
        caps = {id_: draw(st.integers(amt_all if style == "reserve" else 1, 12)) for id_ in ids}
        vessels.append(dict(kind=draw(st.sampled_from(["dep", "plain"])), ids={k: [c, 0] for k, c in caps.items()}, at=at,
                            v=draw(st.sampled_from([1, 5, 10, 13.5])), rl=draw(rate()), ru=draw(rate()),
                            ml=draw(st.sampled_from([0, 0, 0.5, 2])), mu=draw(st.sampled_from([0, 0, 0.25, 1]))))
        if two_way:
            src, dst = draw(st.permutations(list(range(ns))))[:2]
        else:
            src, dst = 0, draw(st.integers(1, ns - 1)) if style in ("ample", "edge") else 1
        id_ = draw(st.sampled_from(ids)) if style == "ample" else ids[-1]
        amt = amt_all if style == "reserve" else draw(st.one_of(st.none(), st.integers(1, 12)))
        fast = pct(0.4)
        parts = [
            wrap(dict(k="move", v=v, to=src, d=draw(st.one_of(st.none(), dur())), eo=draw(st.sampled_from([None, 1, 0.5])))),
            wrap(dict(k="shift", v=v, site=src, dir="load", amt=amt, id=id_, by="crane" if crane_at[src] else "vessel",
                      d=draw(dur()) if fast else draw(st.one_of(st.none(), dur())))),
            wrap(dict(k="move", v=v, to=dst, d=draw(st.one_of(st.none(), dur())), eo=None)),
            wrap(dict(k="shift", v=v, site=dst, dir="unload", amt=amt, id=id_, by="crane" if crane_at[dst] else "vessel",
                      d=draw(st.one_of(st.none(), dur())))),
        ]
        if extras and pct(0.3):
            b = wrap(dict(k="basic", d=draw(dur()), al=[v]))
            parts.insert(draw(st.integers(0, len(parts))), b)
        if extras and pct(0.2):
            parts[0] = dict(k="par", s=[parts[0], dict(k="basic", d=draw(dur()), al=[])])
        n_trips = draw(st.integers(1, 4))
        body = [dict(k="seq", s=parts)] if pct(0.4) else parts
        if style == "ample":
            kind = draw(st.sampled_from(["rep", "rep", "seq", "rep2"]))
            if kind == "rep":
                job = dict(k="rep", r=n_trips, s=body)
            elif kind == "seq":
                n_trips = 1
                job = dict(k="seq", s=parts)
            else:
                job = dict(k="rep", r=2, s=[dict(k="rep", r=n_trips, s=body)])
                n_trips *= 2
            load = min(amt or 10**6, caps[id_])
            total[src, id_, "out"] = total.get((src, id_, "out"), 0) + n_trips * load
            total[dst, id_, "in"] = total.get((dst, id_, "in"), 0) + n_trips * load
        else:
            suffix = "_reservations" if style == "reserve" else ""
            conds = [{"c": [dst, id_ + suffix, "full", None]}, {"c": [src, id_ + suffix, "empty", None]}]
            if style == "reserve":
                cond = {"or": conds}
            else:
                cond = {"or": conds} if draw(st.booleans()) or style == "alone" else draw(st.sampled_from(conds))
            job = dict(k="while", c=cond, s=body)
        wrap(job)
        if pct(start):
            job["st"] = {"t": t0 + draw(st.integers(0, 200)) / 2}
        jobs.append(job)
    sites = []
    room = draw(st.integers(0, 20))
    n_users = max(1, nv)
    for i in range(ns):
        s = dict(x=i, ids={}, slots=site_slots if isinstance(site_slots, int) else draw(site_slots),
                 crane=dict(rl=draw(rate()), ru=draw(rate()), ml=draw(st.sampled_from([0, 0.5])), mu=0, slots=crane_slots if isinstance(crane_slots, int) else draw(crane_slots)) if crane_at[i] else None)
        for id_ in ids:
            if style == "ample":
                # any order of deliveries and pick-ups fits
                level = total.get((i, id_, "out"), 0) + draw(st.integers(0, 5))
                cap = level + total.get((i, id_, "in"), 0) + max(1, room)
                if two_way:
                    level += 60
                    cap += 120
            elif i == 0:
                low = 1 + (n_users - 1) * amt_all if style == "reserve" else 1
                level = draw(st.integers(low, low + 40))
                cap = level + room
            else:
                low = 1 + (n_users - 1) * amt_all if style == "reserve" else 1
                level = draw(st.integers(0, 5))
                cap = level + draw(st.integers(low, low + 40))
            s["ids"][id_] = [max(cap, 1), level]
        sites.append(s)
    # stocks against which the amounts shifted are small, where nothing waits for the site to be empty
    stock = draw(st.sampled_from([0] * 8 + [1000, 250_000]))
    if stock:
        emptied = {tuple(x["c"][:2]) for j in jobs if j["k"] == "while" for x in j["c"].get("or", [j["c"]]) if x["c"][2] == "empty"}
        for i, s in enumerate(sites):
            for id_, x in s["ids"].items():
                if not {(i, id_), (i, id_ + "_reservations")} & emptied:
                    s["ids"][id_] = [x[0] + stock, x[1] + stock]
    unit = draw(st.sampled_from([1, 1, 1, 1 / 8, 37 / 64, 3 / 1024, 750]))
    return name_nodes(in_units(dict(t0=t0, multi=multi, sites=sites, vessels=vessels, jobs=jobs), unit))


@st.composite
def singles(draw, max_vessels=5):
    """Vessels whose cycles are made by the single-run helper, at sites they share."""
    nv, ns = draw(st.integers(2, max_vessels)), draw(st.integers(2, 3))
    t0 = draw(st.sampled_from([0, 0, 1000.5, 1_600_000_000]))
    limited = draw(st.integers(0, 4)) == 0
    vessels, jobs = [], []
    crane_at = [draw(st.integers(0, 2)) == 0 for _ in range(ns)]
    for v in range(nv):
        vessels.append(dict(kind=draw(st.sampled_from(["dep", "plain"])), ids={"default": [draw(st.integers(1, 12)), 0]}, at=draw(st.integers(0, ns - 1)),
                            v=draw(st.sampled_from([1, 5, 10, 13.5])), rl=draw(st.sampled_from([0.004, 0.0625, 1])), ru=draw(st.sampled_from([0.004, 0.0625, 1])),
                            ml=draw(st.sampled_from([0, 0, 0.5, 2])), mu=draw(st.sampled_from([0, 0, 0.25, 1]))))
        to = draw(st.integers(1, ns - 1))
        cycle = [dict(k="move", v=v, to=0), dict(k="shift", v=v, site=0, dir="load", by="crane" if crane_at[0] else "vessel"),
                 dict(k="move", v=v, to=to), dict(k="shift", v=v, site=to, dir="unload", by="crane" if crane_at[to] else "vessel")]
        cond = {"t": t0 + draw(st.integers(0, 15_000))}
        single = draw(st.sampled_from(["list", "dict"]))
        if limited and draw(st.integers(0, 1)):
            single, cond = "default", {"or": [{"c": [0, "default", "empty", None]}, {"c": [to, "default", "full", None]}]}
        job = dict(k="while", c=cond, s=cycle, v=v, single=single)
        if draw(st.integers(0, 3)) == 0:
            job["st"] = {"t": t0 + draw(st.integers(0, 2000)) / 2}
        jobs.append(job)
    sites = []
    for i in range(ns):
        c = dict(rl=draw(st.sampled_from([0.004, 0.0625])), ru=draw(st.sampled_from([0.004, 0.0625])), ml=draw(st.sampled_from([0, 0.5])), mu=0, slots=1)
        stock = draw(st.integers(1, 60)) if limited else 100_000
        sites.append(dict(x=i, ids={"default": [2 * stock, stock]}, slots=draw(st.sampled_from([1, 1, 1, 2])), crane=c if crane_at[i] else None))
    return name_nodes(dict(t0=t0, multi=False, sites=sites, vessels=vessels, jobs=jobs))


def in_units(spec, unit):
    """The same fleet with all amounts and levels multiplied (exactly)."""
    for o in spec["sites"] + spec["vessels"]:
        o["ids"] = {k: [x * unit for x in v] for k, v in o["ids"].items()}
    for n in walk(spec["jobs"]):
        if n.get("amt"):
            n["amt"] *= unit
    return spec


def map_times(spec, t1, f):
    """The fleet started at t1 with all times multiplied by f."""
    q = copy.deepcopy(spec)
    for x in q["vessels"] + [s["crane"] for s in q["sites"] if s["crane"]]:
        for k in ("rl", "ru"):
            x[k] = x[k] / f
        for k in ("ml", "mu"):
            x[k] = x.get(k, 0) * f
        if "v" in x:
            x["v"] = x["v"] / f

    def expr(e):
        if "t" in e:
            return {"t": t1 + (e["t"] - spec["t0"]) * f}
        return {k: ([expr(x) for x in v] if k in ("and", "or", "list") else v) for k, v in e.items()}

    for n in walk(q["jobs"]):
        if n.get("d") is not None:
            n["d"] = n["d"] * f
        if n.get("st"):
            n["st"] = expr(n["st"])
        if "pl" in n:
            n["pl"] = [[a, b * f, c * f] for a, b, c in n["pl"]]
    q["t0"] = t1
    return q


def any_fleet(tier=None, **kw):
    styles = kw.pop("styles", ("ample", "ample", "alone", "reserve", "edge"))
    return st.sampled_from(styles).flatmap(lambda s: fleets(style=s, **kw))


def labels(r, ex):
    out = [f"vessels-{len(r.vessels)}"]
    if r.refused:
        out.append("refused")
    if r.spec.get("multi"):
        out.append("multi")
    if any(e.start > e.released + EPS for e, *_ in shift_execs(r, ex)):
        out.append("queued")
    if any(n["k"] == "shift" and n["by"] == "crane" for n in r.nodes.values()):
        out.append("crane")
    return out


# ---------------------------------------------------------------- facets shared by several checks
def structure_facet(name, kinds, quick, thorough):
    def run(spec):
        r = observe(spec, reservations=True)
        ex = executions(r)
        check_complete(r, ex)
        n = check_structure(r, ex, kinds)
        lab = labels(r, ex)
        if "while" in kinds:
            n = check_while(r, ex)
        if n and ("queued" in lab or len(r.vessels) == 1):
            lab.append("nontrivial")
        return lab

    styles = ("alone", "reserve") if "while" in kinds else ("ample",)
    return Facet(name, lambda tier: any_fleet(styles=styles, delay=0.3, plugins=0.1), run, quick, thorough,
                 "fleets of vessels that wait for each other: parts and parents by their logs")


@st.composite
def shift_starts(draw):
    """One vessel at one site; loads and unloads guarded by start events on levels that an outsider changes."""
    cap = draw(st.integers(10, 40))
    hist, t = [], 0
    level = draw(st.integers(0, cap))
    for _ in range(draw(st.integers(0, 8))):
        t += draw(st.integers(1, 12))
        hist.append([t + 1 / 8, draw(st.integers(0, 6)), draw(st.booleans())])
    parts = []
    for _ in range(draw(st.integers(1, 5))):
        st_ = draw(st.one_of(
            st.none(), st.integers(0, 60).map(lambda x: {"t": x}),
            st.tuples(st.sampled_from(["ge", "gt", "le", "lt"]), st.integers(0, cap)).map(lambda x: {"c": [0, "default", x[0], x[1]]})))
        parts.append(dict(d=draw(st.integers(1, 9)), dir=draw(st.sampled_from(["load", "unload", "move"])), amt=draw(st.integers(1, 4)), st=st_))
    return dict(cap=cap, level=level, vcap=draw(st.integers(5, 20)), vlevel=draw(st.integers(0, 5)), parts=parts, hist=hist)


def run_shift_starts(c):
    """Exact model: levels of site and vessel, one activity after another."""
    spec = dict(t0=0, multi=False, sites=[dict(x=0, ids={"default": [c["cap"] + 60, c["level"] + 30]}, slots=1)],
                vessels=[dict(kind="plain", ids={"default": [c["vcap"] + 40, c["vlevel"] + 20]}, at=0, v=1, rl=1, ru=1)], jobs=[])
    parts = []
    for p in c["parts"]:
        e = p["st"]
        if e is not None and "c" in e:
            e = {"c": e["c"][:3] + [e["c"][3] + 30]}
        if p["dir"] == "move":
            parts.append(dict(k="move", v=0, to=0, d=p["d"], eo=None, st=e))
        else:
            parts.append(dict(k="shift", v=0, site=0, dir=p["dir"], amt=p["amt"], d=p["d"], by="vessel", st=e))
    spec["jobs"] = [dict(k="seq", s=parts)]
    name_nodes(spec)
    # model
    changes = [(0, c["level"] + 30)]

    for t, a, up in c["hist"]:
        changes.append((t, a if up else -a))
    now, exp, never = 0, [], False
    for p, n in zip(c["parts"], parts):
        e = n["st"]
        rel = now
        if e is not None and "t" in e:
            rel = max(now, e["t"])
        elif e is not None:
            # latched since time 0; own and outside changes both count
            _, _, op, lv = e["c"]
            test = {"gt": lambda v: v > lv, "ge": lambda v: v >= lv, "lt": lambda v: v < lv, "le": lambda v: v <= lv}[op]
            occ, v = None, 0
            for t, d in changes[:1] + sorted(changes[1:], key=lambda x: x[0]):
                v += d
                if test(v):
                    occ = t
                    break
            if occ is None:
                never = True
                exp.append(("never", n["n"]))
                break
            rel = max(now, occ)
        exp.append((n["n"], now, rel, rel + p["d"]))
        if p["dir"] == "load":
            changes.append((rel, -p["amt"]))
        elif p["dir"] == "unload":
            changes.append((rel + p["d"], p["amt"]))
        now = rel + p["d"]
    r = build(spec)

    def outside():
        for t, a, up in c["hist"]:
            yield r.env.timeout(t - r.env.now)
            if a:
                yield r.sites[0].container.put(a) if up else r.sites[0].container.get(a)

    r.env.process(outside())
    sut.run_all(r.env)
    ex = executions(r)
    waited = early = 0
    for e in exp:
        if e[0] == "never":
            expect(not ex[e[1]], "%s started although its start event never occurred", e[1])
            break
        name, due, rel, stop = e
        expect(len(ex[name]) == 1, "%s ran %d times", name, len(ex[name]))
        x = ex[name][0]
        expect((x.due, x.released, x.start, x.stop) == (due, rel, rel, stop), "%s: due/released/start/stop %s instead of %s",
               name, (x.due, x.released, x.start, x.stop), (due, rel, rel, stop))
        waited += rel > due
        early += r.nodes[name]["st"] is not None and rel == due
    return (["nontrivial"] if waited else []) + (["never"] if never else []) + (["already"] if early else [])


def start_facet(name, quick, thorough):
    return Facet(name, lambda tier: shift_starts(), run_shift_starts, quick, thorough,
                 "moves and shifts with start events on levels changed by themselves and others")


def delay_facet(name, quick, thorough):
    def run(spec):
        r = observe(spec)
        ex = executions(r)
        check_complete(r, ex)
        check_structure(r, ex, STRUCT)
        n = check_delays(r, ex)
        check_exclusive(r, ex)
        lab = labels(r, ex)
        return lab + (["nontrivial"] if n else [])

    return Facet(name, lambda tier: any_fleet(styles=("ample",), delay=0.5), run, quick, thorough,
                 "delays on moves, shifts and loops of fleets; slots stay occupied during the delay")


def check_delays(r, ex):
    n = 0
    for name, lst in ex.items():
        pct = r.nodes[name].get("dl")
        for e in lst:
            if pct is None:
                expect(not e.waits, "%s has no delay but logs %s", name, e.waits)
                continue
            expect([(s, ref) for _, s, ref in e.waits] == [("WAIT_START", "delay"), ("WAIT_STOP", "delay")], "%s logs %s", name, e.waits)
            (t1, *_), (t2, *_) = e.waits
            if r.nodes[name].get("pl"):
                continue
            expect(abs(t1 - e.stop) < EPS and abs(t2 - t1 - (e.stop - e.start) * pct / 100) < 1e-5,
                   "%s took %s s and is delayed from %s to %s instead of by %s %%", name, e.stop - e.start, t1, t2, pct)
            n += t2 > t1
    return n
