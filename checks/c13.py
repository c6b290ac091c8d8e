"""C13 kept resources stay with the chain of activities that shares their administration."""
import collections
import heapq

from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, Skip, expect

RULE = "non-trivial: a slot was kept between two activities of a chain while an outsider was waiting for it"
ASSUMPTIONS = ["the activities of one chain run one after another", "in 'vessel' no two requests of different chains coincide",
               "chains do not wait for each other in a circle"]


# ---------------------------------------------------------------- one vessel, exactly
@st.composite
def chains(draw):
    out = []
    for i in range(draw(st.integers(2, 6))):
        steps = []
        for _ in range(draw(st.integers(1, 5))):
            k = draw(st.sampled_from(["move", "move", "basic"]))
            steps.append(dict(k=k, d=draw(st.integers(1, 40)) / 8, keep=draw(st.booleans()) if k == "move" else False,
                              form=draw(st.sampled_from(["list", "single", "two"])),
                              pl=draw(st.sampled_from([None, None, None, [0.5, 0.25], [0, 1.5]]))))
        # now and then a chain never gives its slot back
        if draw(st.integers(0, 19)):
            last = [s for s in steps if s["k"] == "move"]
            if last:
                last[-1]["keep"] = False
        out.append(dict(t=draw(st.integers(0, 60)) / 2, r=draw(st.sampled_from([1, 1, 2, 3])), s=steps))
    return dict(slots=draw(st.sampled_from([1, 1, 1, 2])), chains=out)


def model(c):
    """(chain, step, round) -> (asked or due, pre-processing from, start, stop); slots still held at the end"""
    out, ev, waiting, free = {}, [], [], c["slots"]
    held = [False] * len(c["chains"])
    asked = {}
    order = 0

    def push(t, what, *a):
        nonlocal order
        order += 1
        heapq.heappush(ev, (t, order, what, a))

    for i, ch in enumerate(c["chains"]):
        push(ch["t"] + (i + 1) / 1024, "next", i, 0, 0)

    def begin(t, i, k, b, due):
        s = c["chains"][i]["s"][k]
        pre, post = s["pl"] or (0, 0)
        out[i, k, b] = (due, t, t + pre, t + pre + s["d"])
        push(t + pre + s["d"] + post, "done", i, k, b)

    while ev:
        t, _, what, a = heapq.heappop(ev)
        if what == "next":
            i, k, b = a
            ch = c["chains"][i]
            if k == len(ch["s"]):
                k, b = 0, b + 1
                if b == ch["r"]:
                    continue
            s = ch["s"][k]
            if s["k"] == "basic" or held[i]:
                begin(t, i, k, b, t)
            else:
                if asked.get(t, i) != i:
                    raise Skip("two chains ask at the same moment")
                asked[t] = i
                waiting.append((i, k, b, t))
        else:
            i, k, b = a
            s = c["chains"][i]["s"][k]
            if s["k"] == "move" and not s["keep"]:
                held[i] = False
                free += 1
        while free and waiting:
            i2, k2, b2, due = waiting.pop(0)
            free -= 1
            held[i2] = True
            begin(t, i2, k2, b2, due)
        if what == "done":
            push(t, "next", i, k + 1, b)
    return out, sum(held), len(waiting)


def run_vessel(c):
    env = sut.simpy.Environment()
    reg, calls = {}, []
    ship = sut.PlainVessel(env=env, name="ship", geometry=sut.point(4, 52), capacity=10, v=1, loading_rate=1, unloading_rate=1, nr_resources=c["slots"])
    other = sut.Site(env=env, name="site", geometry=sut.point(4, 52), capacity=10)
    acts, tops = {}, []
    for i, ch in enumerate(c["chains"]):
        shared = {}
        subs = []
        for k, s in enumerate(ch["s"]):
            kw = dict(env=env, registry=reg, name=f"c{i}s{k}", duration=s["d"])
            if s["k"] == "move":
                kw.update(mover=ship, destination=other, requested_resources=shared)
                if s["keep"]:
                    kw["keep_resources"] = {"list": [ship], "single": ship, "two": [other, ship]}[s["form"]]
                elif s["form"] == "two":
                    kw["keep_resources"] = [other]
            a = sut.activity_class(s["k"])(**kw)
            if s["pl"]:
                a.register_plugin(sut.TimedPlugin((i, k), *s["pl"], calls))
            acts[i, k] = a
            subs.append(a)
        tops.append(sut.model.RepeatActivity(env=env, registry=reg, name=f"chain{i}", sub_processes=subs, repetitions=ch["r"],
                                             start_event={"type": "time", "start_time": ch["t"] + (i + 1) / 1024}))
    sut.model.register_processes(tops)
    sut.run_all(env)
    want, held, waiting = model(c)
    kept_wait = 0
    for (i, k), a in acts.items():
        rows = []
        for b in range(c["chains"][i]["r"]):
            if (i, k, b) in want:
                _, _, start, stop = want[i, k, b]
                rows += [(prog.q(start), "START"), (prog.q(stop), "STOP")]
        got = [(t, s) for t, s, aid, lt, lr in sut.entries(a) if lt is None]
        expect(got == rows, "step %d of chain %d ran %s instead of %s", k, i, got, rows)
    expect((ship.resource.count, len(ship.resource.queue)) == (held, waiting), "at the end %d slot(s) are held and %d requests wait instead of %d and %d",
           ship.resource.count, len(ship.resource.queue), held, waiting)
    for (i, k, b), (due, got, start, stop) in want.items():
        if got > due:
            kept_wait += any(d2 <= got and c["chains"][i2]["s"][k2]["keep"] and i2 != i and b1 < got and due < e1
                             for (i2, k2, b2), (d2, b1, _, e1) in want.items())
    lab = ["never-released"] if held else []
    return lab + (["nontrivial"] if kept_wait else [])


# ---------------------------------------------------------------- vessels, sites and cranes
@st.composite
def fleets(draw, short=False):
    nv = draw(st.integers(2, 4))
    ns = draw(st.integers(2, 3))
    vessels, jobs = [], []
    crane_at = [draw(st.booleans()) for _ in range(ns)]
    out, into = collections.Counter(), collections.Counter()
    for v in range(nv):
        src, dst = 0, draw(st.integers(1, ns - 1))
        nl = draw(st.integers(1, 3))
        nu = 1 if short else draw(st.integers(1, 2))
        amounts = [draw(st.integers(1, 10)) for _ in range(nl)]
        cap = sum(amounts)
        vessels.append(dict(kind="plain", ids={"default": [cap, 0]}, at=0, v=5, rl=1, ru=1))
        r = 1 if short else draw(st.integers(1, 3))
        me, s_, d_ = ["vessel", v], ["site", src], ["site", dst]

        def keep(*objs):
            kept = [o for o in objs if draw(st.integers(0, 2))]
            # a crane is kept with its site: who keeps one of them and waits for the other can block everybody
            return kept + [["crane", o[1]] for o in kept if o[0] == "site" and crane_at[o[1]]]

        def by(site):
            return "crane" if crane_at[site] else "vessel"

        body = []
        if draw(st.booleans()):
            body.append(dict(k="move", v=v, to=src, d=draw(fleet.dur()), eo=None, share=v, keep=keep(me)))
        for i, a in enumerate(amounts):
            if i and draw(st.integers(0, 2)) == 0:
                body.append(dict(k="basic", d=draw(fleet.dur()), al=[]))
            body.append(dict(k="shift", v=v, site=src, dir="load", amt=a, d=draw(fleet.dur()), by=by(src), share=v,
                             keep=keep(me, s_) if i < nl - 1 else keep(me)))
        if draw(st.booleans()):
            body.append(dict(k="move", v=v, to=dst, d=draw(fleet.dur()), eo=None, share=v, keep=keep(me)))
        first = draw(st.integers(1, cap - 1)) if nu == 2 and cap > 1 else None
        if first:
            body.append(dict(k="shift", v=v, site=dst, dir="unload", amt=first, d=draw(fleet.dur()), by=by(dst), share=v, keep=keep(me, d_)))
            if draw(st.integers(0, 2)) == 0:
                body.append(dict(k="basic", d=draw(fleet.dur()), al=[]))
        body.append(dict(k="shift", v=v, site=dst, dir="unload", amt=None, d=draw(fleet.dur()), by=by(dst), share=v, keep=[]))
        for n in body:
            if n["k"] != "basic" and draw(st.integers(0, 5)) == 0:
                n["pl"] = [[0, draw(fleet.dur()), draw(fleet.dur())]]
            if n["k"] != "basic" and draw(st.integers(0, 5)) == 0:
                n["dl"] = 50
        jobs.append(dict(k="rep", r=r, s=body, st={"t": draw(st.integers(0, 80)) / 2}))
        out[src] += r * cap
        into[dst] += r * cap
        for _ in range(draw(st.integers(0, 2))):
            jobs.append(dict(k="move", v=v, to=draw(st.integers(0, ns - 1)), d=draw(fleet.dur()), eo=None,
                             st={"t": draw(st.integers(0, 200)) / 2 + 0.125}))
    sites = []
    for i in range(ns):
        level = out[i]
        if short and i == 0:
            level = draw(st.integers(max(1, level // 3), level))
        sites.append(dict(x=0, ids={"default": [level + into[i] + 1, level]}, slots=1,
                          crane=dict(rl=1, ru=1) if crane_at[i] else None))
    return fleet.name_nodes(dict(t0=0, multi=False, sites=sites, vessels=vessels, jobs=jobs, short=short))


def spans(r, ex):
    """object -> [(from, to, chain)]: uses, joined over the time a chain keeps the object"""
    out = {}
    for o, lst in fleet.uses(r, ex).items():
        res, open_ = [], {}
        for b, d, e in sorted(lst, key=lambda x: x[0]):
            chain = e.node.get("share", e.name)
            if chain in open_:
                b = open_.pop(chain)
            if list(o) in [list(k) for k in e.node.get("keep") or []]:
                open_[chain] = b
            else:
                res.append((b, d, chain))
        res += [(b, float("inf"), chain) for chain, b in open_.items()]
        out[o] = res
    return out


def run_fleet(spec):
    r = fleet.observe(spec, allow_refusal=spec["short"])
    ex = fleet.executions(r)
    sp = spans(r, ex)
    lab = ["refused"] if r.refused else []
    # nobody uses an object somebody else uses or keeps
    for o, lst in sp.items():
        k = fleet.slots(r, o)
        for b, d, c in lst:
            others = {c2 for b2, d2, c2 in lst if c2 != c and b2 <= b + fleet.EPS and d2 > b + fleet.EPS}
            if d - b > fleet.EPS:
                expect(len(others) < k, "%s is taken by %s at %s although it is used or kept by %s", o, c, b, others)
    if r.refused:
        return lab
    fleet.check_complete(r, ex)
    fleet.check_released(r)
    n = 0
    use = fleet.uses(r, ex)
    waits = []
    for name, lst in ex.items():
        node = r.nodes[name]
        if node["k"] == "shift":
            for e in lst:
                begin = fleet.began(e)
                waits.append((e.released, begin, node.get("share", name), fleet.users(r, node)))
    for name, lst in ex.items():
        node = r.nodes[name]
        need = fleet.users(r, node)
        chain = node.get("share", name)
        for e in lst:
            begin = fleet.began(e)
            if not need or begin <= e.released + 1e-4:
                continue
            points = sorted({e.released, begin} | {t for o in need for b, d, c in sp[o] for t in (b, d) if e.released < t < begin})
            for a, b in zip(points, points[1:]):
                if b - a < 1e-4:
                    continue
                mid = (a + b) / 2
                busy = {o: {c for u, d, c in sp[o] if u <= mid < d and c != chain} for o in need}
                # a shift that waits itself may already have what this activity needs
                blocked = any(len(v) >= fleet.slots(r, o) for o, v in busy.items()) or any(
                    c2 != chain and need & need2 and rel <= mid < beg for rel, beg, c2, need2 in waits)
                expect(blocked, "%r was due at %s and waits at %s although everything it needs is free", e, e.released, mid)
                for o, v in busy.items():
                    for c in v:
                        if c != chain and not any(u <= mid < d for u, d, x in use[o] if x.node.get("share", x.name) == c):
                            n += 1  # kept, not used
    return lab + (["nontrivial"] if n else ["short"] if spec["short"] else [])


def run_short(spec):
    lab = run_fleet(spec)
    return [x for x in lab if x != "short"] + (["nontrivial"] if "short" in lab else [])


FACETS = [
    Facet("vessel", lambda t: chains(), run_vessel, 1500, 30000, "chains of moves that keep or release one vessel, against an exact queueing model"),
    Facet("fleet", lambda t: fleets(), run_fleet, 900, 18000, "chains of moves and shifts keeping vessels and sites, and outsiders"),
    Facet("short", lambda t: fleets(short=True), run_short, 700, 14000, "content runs short while chains wait with what they keep"),
]
