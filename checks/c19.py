"""C19 plugins run in priority order around the activity."""
from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: an activity with at least two plugins of which two have the same priority or were not registered in order of priority, or one that is registered twice"
ASSUMPTIONS = ["plugins wait by yielding timeouts", "times compared to the microsecond"]


def mixed(pl):
    prio = [p[0] for p in pl]
    return len(prio) > 1 and (prio != sorted(prio) or len(set(prio)) < len(prio))


def check_calls(calls, act, want, name):
    """calls: what the plugins recorded for one activity; want: [(what, plugin, time, start of pre-processing, start)]"""
    got = [(what, tag[1], t, a, b) for what, tag, t, _, _, a, b in calls]
    expect(len(got) == len(want), "%s: %d plugin calls instead of %d", name, len(got), len(want))
    for g, w in zip(got, want):
        ok = g[:2] == w[:2] and abs(g[2] - w[2]) < 5e-6
        if w[0] == "post":
            ok = ok and g[3] is not None and g[4] is not None and abs(g[3] - w[3]) < 5e-6 and abs(g[4] - w[4]) < 5e-6
        expect(ok, "%s: plugin call (what, plugin, time, start of pre-processing, start) %s instead of %s", name, g, w)
    for _, _, _, a, log, _, _ in calls:
        expect(a is act and log is act, "%s: the plugin was handed activity %s and log %s", name, getattr(a, "name", a), getattr(log, "name", log))


def by_activity(calls):
    out = {}
    for c in calls:
        out.setdefault(c[1][0], []).append(c)
    return out


def run_tree(p):
    ref = prog.reference(p)
    b = prog.run(p)
    calls = by_activity(b.calls)
    lab = set()
    for name, insts in prog.ref_execs(ref).items():
        node = ref.nodes[name]
        want = []
        order = sorted(range(len(node.get("pl", []))), key=lambda i: node["pl"][i][0])
        for inst in insts:
            t = rel = inst.released()
            for i in order:
                want.append(("pre", i, t, None, None))
                t += node["pl"][i][1]
            t = inst.stop()
            pending = [(node["pl"][i][0], 1, i) for i in order]
            if node.get("dl") is not None:
                pending.append((3, 0, None))
            for _, _, i in sorted(pending, key=lambda x: x[:2]):
                if i is None:
                    t += (t - inst.start()) * node["dl"] / 100
                else:
                    want.append(("post", i, t, rel, inst.start()))
                    t += node["pl"][i][2]
        check_calls(calls.get(name, []), b.acts[name], want, f"{node['k']} {name}")
        prog.check_own_log(b, ref, name)
        if mixed(node.get("pl", [])):
            lab.add("nontrivial")
            lab.add("mixed-" + node["k"])
    return sorted(lab)


def run_fleet(spec):
    r = fleet.observe(spec, allow_refusal=True)
    ex = fleet.executions(r)
    calls = by_activity(r.calls)
    lab = set()
    for name, lst in ex.items():
        node = r.nodes[name]
        pl = node.get("pl", [])
        mine = calls.get(name, [])
        if not pl:
            expect(not mine, "%s has no plugins but %d calls were made", name, len(mine))
            continue
        order = sorted(range(len(pl)), key=lambda i: pl[i][0])
        pre = sum(p[1] for p in pl)
        want = []
        for e in lst:
            t = e.start - pre
            expect(t >= e.released - 1e-5, "%s starts at %s, less than its pre-processing (%s s) after it was released at %s", name, e.start, pre, e.released)
            t0 = t
            for i in order:
                want.append(("pre", i, t, None, None))
                t += pl[i][1]
            if e.stop is None:
                continue
            t = e.stop
            pending = [(pl[i][0], 1, i) for i in order] + ([(3, 0, None)] if node.get("dl") is not None else [])
            for _, _, i in sorted(pending, key=lambda x: x[:2]):
                if i is None:
                    t += (t - e.start) * node["dl"] / 100
                else:
                    want.append(("post", i, t, t0, e.start))
                    t += pl[i][2]
        if r.refused:
            mine, want = mine[:0], want[:0]
        check_calls(mine, r.acts[name], want, name)
        if mixed(pl):
            lab |= {"nontrivial", "mixed-" + node["k"]}
    if not r.refused:
        fleet.check_structure(r, ex, fleet.STRUCT)
        fleet.check_exclusive(r, ex)
    return sorted(lab) + fleet.labels(r, ex)


# ---------------------------------------------------------------- one plugin object, several registrations
@st.composite
def shared(draw):
    plugins = draw(st.lists(st.tuples(st.integers(0, 8), st.integers(0, 8)).map(list), min_size=1, max_size=3))
    acts = [dict(k=draw(st.sampled_from(["basic", "move", "seq", "rep"])), d=draw(st.integers(0, 9)), n=draw(st.integers(1, 3)), t=draw(st.integers(0, 20)),
                 uses=draw(st.lists(st.tuples(st.integers(0, len(plugins) - 1), st.sampled_from([0, 0, 1, 1, 2, 5, -3])).map(list), max_size=5)))
            for _ in range(draw(st.integers(1, 4)))]
    return dict(plugins=plugins, acts=acts, t0=draw(st.sampled_from([0, 1000])))


def run_shared(c):
    env, reg, calls = sut.simpy.Environment(initial_time=c["t0"]), {}, []
    plugins = [sut.TimedPlugin(("p", i), pre / 4, post / 4, calls) for i, (pre, post) in enumerate(c["plugins"])]
    tops, acts = [], []
    at = sut.point(4, 52)
    for i, a in enumerate(c["acts"]):
        kw = dict(env=env, registry=reg, name=f"a{i}")
        if a["k"] == "basic":
            x = sut.model.BasicActivity(duration=a["d"], **kw)
        elif a["k"] == "move":
            ship = sut.Mover(env=env, name=f"m{i}", geometry=at, v=1)
            x = sut.model.MoveActivity(mover=ship, destination=sut.Site(env=env, name=f"s{i}", geometry=at, capacity=1), duration=a["d"], **kw)
        else:
            part = sut.model.BasicActivity(env=env, registry=reg, name=f"part{i}", duration=a["d"])
            x = sut.model.SequentialActivity(sub_processes=[part], **kw) if a["k"] == "seq" else sut.model.RepeatActivity(sub_processes=[part], repetitions=2, **kw)
        for j, prio in a["uses"]:
            x.register_plugin(plugins[j], priority=prio)
        acts.append(x)
        tops.append(sut.model.RepeatActivity(env=env, registry=reg, name=f"top{i}", sub_processes=[x], repetitions=a["n"],
                                             start_event={"type": "time", "start_time": c["t0"] + a["t"]}))
    sut.model.register_processes(tops)
    sut.run_all(env)
    often = 0
    for i, (a, x) in enumerate(zip(c["acts"], acts)):
        order = sorted(range(len(a["uses"])), key=lambda k: a["uses"][k][1])
        t, want, log = c["t0"] + a["t"], [], []
        for _ in range(a["n"]):
            rel = t
            for k in order:
                j = a["uses"][k][0]
                want.append(("pre", j, t, None, None))
                t += c["plugins"][j][0] / 4
            start = t
            log.append((prog.q(t), "START"))
            t += a["d"] * (2 if a["k"] == "rep" else 1)
            log.append((prog.q(t), "STOP"))
            for k in order:
                j = a["uses"][k][0]
                want.append(("post", j, t, rel, start))
                t += c["plugins"][j][1] / 4
        check_calls([y for y in calls if y[3] is x], x, want, x.name)
        got = [(t, s) for t, s, _, lt, _ in sut.entries(x) if lt is None]
        expect(got == log, "log of %s with the plugins %s: %s instead of %s", x.name, a["uses"], got, log)
        js = [j for j, _ in a["uses"]]
        often += len(js) > len(set(js))
    expect(len(calls) == sum(2 * a["n"] * len(a["uses"]) for a in c["acts"]), "%d calls of plugins", len(calls))
    return ["nontrivial"] if often else []


KINDS = ("basic", "move", "seq", "par", "rep", "while")
FACETS = [
    Facet("tree", lambda t: prog.programs(kinds=KINDS, depth=2, plugins=0.6, delay=0.3, start=0.2), run_tree, 1200, 24000,
          "programs of activities with several plugins each against the reference interpreter"),
    Facet("shared", lambda t: shared(), run_shared, 600, 12000,
          "plugin objects registered several times with an activity and with several activities; every registration counts"),
    Facet("fleet", lambda t: fleet.any_fleet(styles=("ample", "ample", "alone", "reserve"), plugins=0.6, delay=0.3), run_fleet, 700, 14000,
          "moves and shifts with several plugins that keep vessels and sites occupied"),
]
