"""C09 a shift transfers the feasible amount in the specified time."""
from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, Violation, expect

RULE = "non-trivial: at least two shifts were made, one of them limited by content, space or a partial request"
ASSUMPTIONS = ["amounts are positive multiples of 1/4", "a refused shift ends the run, as the library does"]

quart = st.integers(1, 80).map(lambda k: k / 4)


@st.composite
def cases(draw):
    multi = draw(st.booleans())
    ids = ["default"] if not multi else draw(st.sampled_from([["a"], ["a", "b"], ["default", "a"]]))
    n = draw(st.integers(2, 4))
    objs = []
    for i in range(n):
        kind = draw(st.sampled_from(["site", "vessel", "vessel"]))
        cont = {}
        for id_ in ids:
            cap = draw(quart)
            cont[id_] = [cap, draw(st.one_of(st.just(0), st.just(cap), st.integers(0, int(cap * 4)).map(lambda k: k / 4)))]
        objs.append(dict(kind=kind, cont=cont))
    rates = []
    for i in range(n + 1):
        rates.append(dict(rl=draw(st.one_of(st.sampled_from([0.25, 1, 2, 4]), st.just("f"))), ru=draw(st.one_of(st.sampled_from([0.5, 1, 8]), st.just("f"))),
                          ml=draw(st.sampled_from([0, 0, 0.5, 3])), mu=draw(st.sampled_from([0, 0, 0.25, 2]))))
    ops = []
    level = {(i, k): v[1] for i, o in enumerate(objs) for k, v in o["cont"].items()}
    for _ in range(draw(st.integers(1, 8))):
        feasible = [(o, d, k) for o in range(n) for d in range(n) for k in ids
                    if o != d and level[o, k] > 0 and level[d, k] < objs[d]["cont"][k][0]]
        if feasible and draw(st.integers(0, 19)):
            o, d, id_ = draw(st.sampled_from(feasible))
        else:
            o, d = draw(st.permutations(list(range(n))))[:2]
            id_ = draw(st.sampled_from(ids))
        procs = [i for i in (o, d) if objs[i]["kind"] == "vessel"] + [n]
        amt = draw(st.one_of(st.none(), quart, quart, st.integers(1, 8).map(lambda k: k / 4)))
        a = max(0, min(level[o, id_], objs[d]["cont"][id_][0] - level[d, id_], amt or 1000))
        level[o, id_] -= a
        level[d, id_] += a
        ops.append(dict(o=o, d=d, p=draw(st.sampled_from(procs)), id=id_, amt=amt,
                        dur=draw(st.one_of(st.none(), st.none(), prog.quarters())), phase=draw(st.sampled_from(["loading", "unloading"]))))
    return dict(t0=draw(prog.epochs()), multi=multi, objs=objs, rates=rates, ops=ops, how=draw(st.sampled_from(["sequence", "separate"])))


def area(x):
    return x * x / 8 + x


def loading_law(a, b):
    return area(b) - area(a)


def unloading_law(a, b):
    return 2 * (area(a) - area(b))


def run(c):
    env = sut.simpy.Environment(initial_time=c["t0"])
    here = sut.point(4, 52)
    objs = []

    def rate_args(i):
        x = c["rates"][i]
        return dict(loading_rate=loading_law if x["rl"] == "f" else x["rl"], unloading_rate=unloading_law if x["ru"] == "f" else x["ru"],
                    load_manoeuvring=x["ml"], unload_manoeuvring=x["mu"])

    for i, o in enumerate(c["objs"]):
        kw = dict(env=env, name=f"o{i}", geometry=here)
        if c["multi"]:
            cont = dict(initials=[dict(id=k, capacity=v[0], level=v[1]) for k, v in o["cont"].items()])
        else:
            cont = dict(capacity=o["cont"]["default"][0], level=o["cont"]["default"][1])
        if o["kind"] == "site":
            objs.append((sut.MultiSite if c["multi"] else sut.Site)(**cont, **kw))
        elif c["multi"]:
            objs.append(sut.MultiVessel(compute_v=lambda f: 1, **cont, **rate_args(i), **kw))
        else:
            objs.append(sut.PlainVessel(v=1, **cont, **rate_args(i), **kw))
    crane = sut.Crane(env=env, name="crane", geometry=here, **rate_args(len(objs)))
    level = {(i, k): v[1] for i, o in enumerate(c["objs"]) for k, v in o["cont"].items()}
    cap = {(i, k): v[0] for i, o in enumerate(c["objs"]) for k, v in o["cont"].items()}
    # model
    want, t, refused, limited = [], c["t0"], None, 0
    history = [(t, dict(level))]
    for i, op in enumerate(c["ops"]):
        ko, kd = (op["o"], op["id"]), (op["d"], op["id"])
        space, content = cap[kd] - level[kd], level[ko]
        if space <= 0 or content <= 0:
            refused = i
            break
        a = min(space, content) if op["amt"] is None else min(space, content, op["amt"])
        limited += op["amt"] is None or a < op["amt"] or a < min(space, content)
        if op["dur"] is not None:
            d = op["dur"]
        else:
            x = c["rates"][op["p"]]
            if op["phase"] == "loading":
                d = (loading_law(level[kd], level[kd] + a) if x["rl"] == "f" else a / x["rl"]) + 60 * x["ml"]
            else:
                d = (unloading_law(level[ko], level[ko] - a) if x["ru"] == "f" else a / x["ru"]) + 60 * x["mu"]
        level[ko] -= a
        history.append((t, dict(level)))
        level[kd] += a
        history.append((t + d, dict(level)))
        want.append((i, t, t + d, a))
        t += d
    # real
    reg = {}
    acts = []
    for i, op in enumerate(c["ops"]):
        kw = {} if op["amt"] is None else {"amount": op["amt"]}
        if op["dur"] is not None:
            kw["duration"] = op["dur"]
        else:
            kw["phase"] = op["phase"]
        if op["id"] != "default":
            kw["id_"] = op["id"]
        acts.append(sut.model.ShiftAmountActivity(
            env=env, registry=reg, name=f"s{i}", origin=objs[op["o"]], destination=objs[op["d"]],
            processor=crane if op["p"] == len(objs) else objs[op["p"]], **kw))
    samples = []

    def sample():
        cur = {(i, k): objs[i].container.get_level(k) for i, k in cap}
        if not samples or samples[-1][1] != cur:
            samples.append((env.now, cur))

    sample()
    failed = None
    try:
        if c["how"] == "sequence":
            top = sut.model.SequentialActivity(env=env, registry=reg, name="top", sub_processes=acts)
            sut.model.register_processes([top])
            sut.run_all(env, on_step=sample)
        else:
            for i, a in enumerate(acts):
                sut.model.register_processes([a])
                sut.run_all(env, on_step=sample)
    except ValueError as e:
        if "Attempting to shift" not in str(e):
            raise
        failed = str(e)
    sample()
    done = [i for i, a in enumerate(acts) if any(s == "STOP" for _, s, *_ in sut.entries(a))]
    started = [i for i, a in enumerate(acts) if any(s == "START" for _, s, *_ in sut.entries(a))]
    expect(started == done == [w[0] for w in want], "shifts %s started and %s finished, the feasible ones are %s", started, done, [w[0] for w in want])
    if refused is None:
        expect(failed is None, "a feasible shift was refused: %s", failed)
    else:
        expect(failed is not None, "shift %s is impossible but was not refused", c["ops"][refused])
        op = c["ops"][refused]
        a = acts[refused]
        for j in (op["o"], op["d"]):
            expect(all(e["ActivityID"] != a.id for e in objs[j].logbook), "the refused shift is in the log of o%d", j)

    def close(a, b):
        return abs(a - b) < 3e-6 + 1e-12 * abs(b)

    for i, t1, t2, a in want:
        got = [(x, s) for x, s, *_ in sut.entries(acts[i])]
        expect(len(got) == 2 and got[0][1] == "START" and got[1][1] == "STOP" and close(got[0][0], t1) and close(got[1][0], t2),
               "shift %d (%s) logged %s instead of %s to %s", i, c["ops"][i], got, t1, t2)
    # levels over time: the same changes at the same moments
    hist = [history[0]]
    for h in history[1:]:
        if h[1] != hist[-1][1]:
            hist.append(h)
    expect(len(hist) == len(samples) and all(close(s[0], h[0]) and all(abs(s[1][k] - h[1][k]) < 1e-9 for k in cap) for s, h in zip(samples, hist)),
           "levels over time %s instead of %s", samples, hist)
    out = ["refused"] if refused is not None else []
    return out + (["nontrivial"] if len(want) > 1 and limited else [])


def check_shifts(r, ex, amounts, exact):
    n = 0
    for e, o, d, id_ in fleet.shift_execs(r, ex):
        if e.stop is None:
            continue
        node = e.node
        a = amounts[e.name, e.k]
        before_o = fleet.level_at(r, (*o, id_), e.start) + a
        before_d = fleet.level_at(r, (*d, id_), e.start)
        space = r.capacity[(*d, id_)] - before_d
        feasible = min(before_o, space, node["amt"] if node.get("amt") is not None else float("inf"))
        expect(1e-9 < a <= feasible + 1e-6, "%r moved %s, feasible was %s", e, a, feasible)
        if exact:
            expect(abs(a - feasible) < 1e-6, "%r moved %s of the feasible %s", e, a, feasible)
        if node.get("d") is not None:
            want = node["d"]
        else:
            p = r.spec["vessels"][node["v"]] if node["by"] == "vessel" else r.spec["sites"][node["site"]]["crane"]
            want = a / p["rl"] + 60 * p.get("ml", 0) if node["dir"] == "load" else a / p["ru"] + 60 * p.get("mu", 0)
        expect(abs(e.stop - e.start - want) < 1e-5, "%r takes %s s instead of %s for %s", e, e.stop - e.start, want, a)
        n += 1
    return n


def run_fleet(exact):
    def f(spec):
        r = fleet.observe(spec)
        ex = fleet.executions(r)
        amounts = fleet.check_material(r, ex)
        n = check_shifts(r, ex, amounts, exact)
        return fleet.labels(r, ex) + (["nontrivial"] if n > 2 else [])
    return f


FACETS = [
    Facet("shifts", lambda t: cases(), run, 2000, 40000, "sequences of shifts between objects at one place against a model of the levels"),
    Facet("alone", lambda t: fleet.fleets(style="alone"), run_fleet(True), 400, 8000, "one vessel working until empty or full"),
    Facet("fleet", lambda t: fleet.any_fleet(styles=("ample", "reserve")), run_fleet(False), 400, 8000, "several vessels: amounts feasible, durations right"),
]
