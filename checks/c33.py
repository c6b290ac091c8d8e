"""C33 containers for different commodities are independent."""
from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, expect

from . import c15

RULE = "non-trivial: at least two commodities were changed alternately and one of them had an event waiting (history) or a limited shift (shifts)"
ASSUMPTIONS = ["the container holding only one commodity (HasContainer) is the reference for each commodity", "shifts run one after another in 'shifts'"]


def play(conts, ops, pool, t0):
    """Run a history (see c15) on one store; returns per commodity what was seen."""
    env = sut.simpy.Environment(initial_time=t0)
    store = c15.make(conts, env)
    cont = store.container
    seen = {k: [] for k in conts}
    fired = {}
    base = lambda k: k[: -len("_reservations")] if k.endswith("_reservations") else k  # noqa: E731

    def listen(x, ev):
        yield ev
        fired[x] = env.now

    def driver():
        for x, op in ops:
            if op[1]:
                yield env.timeout(op[1])
            if op[0] == "skip":
                continue
            if op[0] == "req":
                cond = pool[op[2]]
                k = cond[0]
                ev = c15.request(cont, *cond)
                env.process(listen(x, ev))
                seen[base(k)].append((x, "request", ev.triggered))
            else:
                _, _, k, amount, how = op
                ev = cont.put(amount, k) if amount >= 0 else cont.get(-amount, k)
                yield ev
                b = base(k)
                seen[b].append((x, cont.get_level(b), cont.get_level(b + "_reservations"), cont.get_capacity(b)))
                st_ = store.get_state()["container level"]
                seen[b].append((x, "state", st_[b] if isinstance(st_, dict) else st_))

    env.process(driver())
    sut.run_all(env)
    return seen, fired, {k: (cont.get_level(k), cont.get_level(k + "_reservations"), cont.get_capacity(k)) for k in conts}, cont.container_list


def run_history(c):
    base = lambda k: k[: -len("_reservations")] if k.endswith("_reservations") else k  # noqa: E731
    ids = list(c["conts"])
    ops = []
    for x, op in enumerate(c["ops"]):
        if op[0] == "change":
            op = op[:4] + ["await"]
        ops.append((x, op))

    def owner(op):
        return base(c["pool"][op[2]][0] if op[0] == "req" else op[2])

    seen, fired, final, lst = play(c["conts"], ops, c["pool"], c["t0"])
    expect(sorted(lst) == sorted(ids), "the store lists containers %s instead of %s", lst, ids)
    waited = 0
    for k in ids:
        mine = [(x, op if owner(op) == k else ["skip", op[1]]) for x, op in ops]
        renamed = []
        for x, op in mine:
            if op[0] == "change":
                op = op[:2] + [op[2].replace(k, "default", 1)] + op[3:]
            renamed.append((x, op))
        pool = [[p[0].replace(k, "default", 1) if base(p[0]) == k else p[0], *p[1:]] for p in c["pool"]]
        s1, f1, fin1, _ = play({"default": c["conts"][k]}, renamed, pool, c["t0"])
        expect(seen[k] == s1["default"], "commodity %s among %s: %s; alone: %s", k, ids, seen[k], s1["default"])
        f = {x: t for x, t in fired.items() if owner(dict(ops)[x]) == k}
        expect(f == f1, "events of commodity %s among %s fired at %s; alone: %s", k, ids, f, f1)
        expect(final[k] == fin1["default"], "commodity %s ends as %s; alone: %s", k, final[k], fin1["default"])
        waited += bool(f)
    changed = [op[2] for _, op in ops if op[0] == "change"]
    return ["nontrivial"] if len({base(k) for k in changed}) > 1 and waited else []


def histories(tier):
    return c15.histories(tier == "thorough").filter(lambda c: len(c["conts"]) > 1)


# ---------------------------------------------------------------- shifts
@st.composite
def shifts(draw):
    ids = (["default", "sand", "rock", "silt"] + ["stuff %d" % i for i in range(8)])[: draw(st.sampled_from([2, 2, 3, 3, 4, 10]))]
    draw(st.just(0))
    v = {i: [draw(st.integers(1, 15)), 0] for i in ids}
    s = {i: [draw(st.integers(1, 30)), 0] for i in ids}
    for x in (v, s):
        for i in ids:
            x[i][1] = draw(st.integers(0, x[i][0]))
    ops = [dict(id=draw(st.sampled_from(ids)), dir=draw(st.sampled_from(["load", "unload"])), amt=draw(st.one_of(st.none(), st.integers(1, 12))),
                d=draw(st.one_of(st.none(), fleet.dur()))) for _ in range(draw(st.integers(2, 12)))]
    # keep mostly feasible
    lv, ls = {i: v[i][1] for i in ids}, {i: s[i][1] for i in ids}
    for o in ops:
        i = o["id"]
        for _ in range(2):
            src, dst = (ls[i], v[i][0] - lv[i]) if o["dir"] == "load" else (lv[i], s[i][0] - ls[i])
            if src > 0 and dst > 0:
                break
            o["dir"] = "unload" if o["dir"] == "load" else "load"
        a = max(0, min(src, dst, o["amt"] or 10**6))
        lv[i] += a if o["dir"] == "load" else -a
        ls[i] -= a if o["dir"] == "load" else -a
    return dict(vessel=v, site=s, ops=ops, rl=draw(fleet.rate()), ru=draw(fleet.rate()), law=draw(st.booleans()),
                order=draw(st.permutations(ids)))


def run_ops(c, ids, single):
    """Shifts one after another; returns [(index, amount, duration, level vessel, level site)] and the index refused."""
    env = sut.simpy.Environment()
    reg = {}
    name = {i: "default" if single else i for i in ids}
    kw = dict(env=env, geometry=sut.point(4, 52))
    rl = (lambda a, b: (b - a) * (1 + a) / c["rl"]) if c["law"] else c["rl"]
    ru = (lambda a, b: (a - b) * (1 + b) / c["ru"]) if c["law"] else c["ru"]
    order = [i for i in c["order"] if i in ids]
    if single:
        v = sut.PlainVessel(name="v", v=1, loading_rate=rl, unloading_rate=ru, capacity=c["vessel"][ids[0]][0], level=c["vessel"][ids[0]][1], **kw)
        s = sut.Site(name="s", capacity=c["site"][ids[0]][0], level=c["site"][ids[0]][1], **kw)
    else:
        v = sut.MultiVessel(name="v", compute_v=lambda f: 1, loading_rate=rl, unloading_rate=ru,
                            initials=[dict(id=i, capacity=c["vessel"][i][0], level=c["vessel"][i][1]) for i in order], **kw)
        s = sut.MultiSite(name="s", initials=[dict(id=i, capacity=c["site"][i][0], level=c["site"][i][1]) for i in reversed(order)], **kw)
    out, acts = [], []
    mine = [x for x, o in enumerate(c["ops"]) if o["id"] in ids]
    for x in mine:
        o = c["ops"][x]
        kw2 = {} if name[o["id"]] == "default" else {"id_": name[o["id"]]}
        acts.append(sut.model.ShiftAmountActivity(
            env=env, registry=reg, name=f"s{x}", processor=v, origin=s if o["dir"] == "load" else v, destination=v if o["dir"] == "load" else s,
            amount=o["amt"], duration=o["d"], phase=None if o["d"] is not None else o["dir"] + "ing", **kw2))
    top = sut.model.SequentialActivity(env=env, registry=reg, name="top", sub_processes=acts)
    sut.model.register_processes([top])
    refused = None
    try:
        sut.run_all(env)
    except ValueError as e:
        expect(str(e).startswith("Attempting to shift content"), "raised %s", e)
        refused = True
    for x, a in zip(mine, acts):
        log = [(t, s_) for t, s_, _, lt, _ in sut.entries(a) if lt is None]
        id_ = c["ops"][x]["id"]
        if len(log) < 2:
            expect(refused, "shift %d did not run", x)
            return out, x

        def level(obj, state):
            for e in obj.logbook:
                if e["ActivityID"] == a.id and e["ActivityState"] == state:
                    lv = e["ObjectState"]["container level"]
                    return lv[name[id_]] if isinstance(lv, dict) else lv

        out.append((x, log[1][0] - log[0][0], level(v, "START"), level(v, "STOP"), level(s, "START"), level(s, "STOP")))
        if not single:
            for obj in (v, s):
                for e in obj.logbook:
                    expect(sorted(e["ObjectState"]["container level"]) == sorted(ids), "a log entry shows containers %s", e["ObjectState"]["container level"])
                rows = [e["ObjectState"]["container level"] for e in obj.logbook if e["ActivityID"] == a.id]
                for j in ids:
                    if j != id_:
                        expect(len({r[j] for r in rows}) == 1, "shift %d of %s changed %s: %s", x, id_, j, rows)
    return out, None


def run_shifts(c):
    ids = list(c["vessel"])
    got, refused = run_ops(c, ids, False)
    lab = ["refused"] if refused is not None else []
    done = {x for x, *_ in got}
    limited = False
    for i in ids:
        if not any(o["id"] == i for o in c["ops"]):
            continue
        one, ref1 = run_ops(c, [i], True)
        mine = [g for g in got if c["ops"][g[0]]["id"] == i]
        want = [o for o in one if o[0] in done]
        expect(len(mine) == len(want), "commodity %s: %d shifts were made, alone %d", i, len(mine), len(want))
        for g, w in zip(mine, want):
            expect(abs(g[1] - w[1]) < 3e-6 and g[2:] == w[2:], "shift of %s: (index, duration, levels) %s; alone: %s", i, g, w)
        if refused is not None and c["ops"][refused]["id"] == i:
            expect(ref1 == refused, "shift %d of %s is refused although alone it is not", refused, i)
        elif ref1 is not None:
            expect(ref1 not in done and (refused is not None and ref1 > refused), "shift %d of %s is made although alone it is refused", ref1, i)
        limited = limited or any(g[3] in (0, c["vessel"][i][0]) or g[5] in (0, c["site"][i][0]) for g in mine)
    kinds = {c["ops"][x]["id"] for x in done}
    return lab + (["nontrivial"] if len(kinds) > 1 and limited else [])


def run_fleet(spec):
    r = fleet.observe(spec, reservations=True, states=True, allow_refusal=True)
    expect(not r.state_errors, "%s", r.state_errors[:1])
    ex = fleet.executions(r)
    fleet.check_material(r, ex)
    fleet.check_conservation(r, ex)
    if not r.refused:
        fleet.check_reservations(r, ex)
    ids = {i for *_, i in fleet.shift_execs(r, ex)}
    return fleet.labels(r, ex) + (["nontrivial"] if len(ids) > 1 else [])


FACETS = [
    Facet("history", histories, run_history, 1200, 24000, "the same history for each commodity alone and together"),
    Facet("shifts", lambda t: shifts(), run_shifts, 1200, 24000, "the same shifts for each commodity alone and together"),
    Facet("fleet", lambda t: fleet.any_fleet(styles=("ample", "ample", "alone", "reserve"), multi=True, plugins=0.1), run_fleet, 500, 10000,
          "fleets carrying several commodities: levels, reservations and recorded states"),
]
