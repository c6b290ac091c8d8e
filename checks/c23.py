"""C23 registration accepts any declaration order and registers every activity once."""
import copy

from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, Violation, expect

RULE = ("non-trivial: another order than the declaration order, with a reference to an activity that comes later in it "
        "(order, chain, fleet); a name or reference that is wrong below the top level (duplicates, unknown)")
ASSUMPTIONS = []


def positions(p, order):
    """name -> index of its top-level activity in the registration order"""
    out = {}
    for pos, i in enumerate(order):
        for n in prog.walk_nodes({"acts": [p["acts"][i]]}):
            out[n["n"]] = pos
    return out


def forward(p, order):
    pos = positions(p, order)
    return any(pos[m] > pos[n["n"]] for n in prog.walk_nodes(p) for e in (n.get("st"), n.get("c")) if e for m in prog.refs(e))


# ---------------------------------------------------------------- any order
def near(style):
    """Names that differ only a little from each other."""
    def name(n):
        i = int(n[1:])
        if style == "case":
            return "".join(x.upper() if i >> k & 1 else x for k, x in enumerate("sailing empty to b"))
        if style == "blanks":
            return " " * (i % 4) + "sail" + " " * (i // 4)
        if style == "zeros":
            return "0" * (i % 5) + str(i // 5)
        if style == "sign":
            return "sail" + "+-_.,;:/\\|" [i % 10] * (1 + i // 10)
        if style == "accent":
            return "cafe" + ("e\u0301", "\u00e9", "e", "\u00e8", "\uff45")[i % 5] * (1 + i // 5)
        return "x" * (i + 1)
    return name


@st.composite
def ordered(draw):
    p = draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0.5, top=6, depth=2, width=3, plugins=0.1, delay=0.1, raw=True))
    style = draw(st.sampled_from([None, None, "case", "blanks", "zeros", "sign", "accent", "long"]))
    if style:
        p = prog.rename(p, near(style))
    n = len(p["acts"])
    orders = draw(st.lists(st.permutations(list(range(n))), min_size=1, max_size=3))
    return dict(p=p, orders=[list(range(n))[::-1]] + orders, split=draw(st.booleans()))


def run_ordered(c):
    p = c["p"]
    ref = prog.reference(p)
    fwd = False
    for order in c["orders"]:
        b = prog.build(p, register=False)
        lst = [b.tops[i] for i in order]
        given = list(lst)
        if c["split"] and len(lst) == 1:
            sut.model.register_processes(lst[0])  # a single activity instead of a list
        elif c["split"]:
            # in two portions
            k = len(lst) // 2
            sut.model.register_processes(lst[:k])
            sut.model.register_processes(lst[k:])
        else:
            sut.model.register_processes(lst)
            expect(len(lst) == len(given) and all(x is y for x, y in zip(lst, given)), "the list given to register_processes was changed")
        sut.run_all(b.env)
        for name in ref.paths:
            prog.check_own_log(b, ref, name)
        prog.check_additional_logs(b, ref)
        fwd = fwd or forward(p, order)
    return ["nontrivial"] if fwd else []


# ---------------------------------------------------------------- long chains
@st.composite
def chains(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(90, 260)))
    return dict(n=n, by=draw(st.sampled_from(["name", "ID", "mixed"])), order=draw(st.sampled_from(["back", "forth", "riffle", "shuffle"])),
                seed=draw(st.integers(0, 999)), durs=draw(st.lists(prog.quarters(), min_size=1, max_size=5)),
                nest=draw(st.sampled_from(["top", "seq", "deep"])), jump=draw(st.integers(1, 3)))


def run_chain(c):
    """Activity i waits for i - jump; the registration order may be the opposite."""
    import random

    n = c["n"]
    env = sut.simpy.Environment()
    reg = {}
    acts, tops = [], []
    for i in range(n):
        e = None
        if i >= c["jump"]:
            by_id = c["by"] == "ID" or (c["by"] == "mixed" and i % 2)
            e = {"type": "activity", "state": "done", **({"ID": f"id {i - c['jump']}"} if by_id else {"name": f"act {i - c['jump']}"})}
        a = sut.model.BasicActivity(env=env, registry=reg, name=f"act {i}", id=f"id {i}", duration=c["durs"][i % len(c["durs"])], start_event=e)
        acts.append(a)
        top = a
        if c["nest"] != "top":
            for lvl in range(1 if c["nest"] == "seq" else 1 + i % 4):
                top = (sut.model.SequentialActivity if lvl % 2 == 0 else sut.model.ParallelActivity)(
                    env=env, registry=reg, name=f"around {i} {lvl}", sub_processes=[top])
        tops.append(top)
    order = list(range(n))
    if c["order"] == "back":
        order.reverse()
    elif c["order"] == "riffle":
        order = order[1::2] + order[::2]
    elif c["order"] == "shuffle":
        random.Random(c["seed"]).shuffle(order)
    sut.model.register_processes([tops[i] for i in order])
    sut.run_all(env)
    done = []
    for i in range(n):
        start = done[i - c["jump"]] if i >= c["jump"] else 0
        done.append(start + c["durs"][i % len(c["durs"])])
        got = [(t, s) for t, s, *_ in sut.entries(acts[i]) if s in ("START", "STOP")]
        expect(got == [(prog.q(start), "START"), (prog.q(done[-1]), "STOP")], "act %d of %d: %s instead of [%s, %s]", i, n, got, start, done[-1])
    return ["nontrivial"] if c["order"] != "forth" and n > 2 else []


# ---------------------------------------------------------------- duplicates
@st.composite
def duplicates(draw):
    p = draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0, top=4, depth=3, width=3))
    nodes = list(prog.walk_nodes(p))
    if len(nodes) < 2:
        p["acts"].append({"k": "basic", "d": 1, "n": "extra", "st": None})
        p["order"].append(len(p["acts"]) - 1)
        nodes = list(prog.walk_nodes(p))
    i, j = draw(st.lists(st.integers(0, len(nodes) - 1), min_size=2, max_size=2, unique=True))
    return dict(p=p, i=i, j=j)


def run_duplicates(c):
    p = copy.deepcopy(c["p"])
    nodes = list(prog.walk_nodes(p))
    nodes[c["j"]]["n"] = nodes[c["i"]]["n"]
    b = prog.build(p, register=False)
    try:
        sut.model.register_processes([b.tops[i] for i in p["order"]])
    except Exception:
        return ["nontrivial"] if min(c["i"], c["j"]) > 0 or len(p["acts"]) == 1 else []
    raise Violation(f"activities {c['i']} and {c['j']} have the same name {nodes[c['i']]['n']!r} and are registered without complaint")


# ---------------------------------------------------------------- references to nothing
@st.composite
def unknown(draw):
    p = draw(prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0.3, top=4, depth=3, width=3, explicit_ids=True, raw=True))
    nodes = list(prog.walk_nodes(p))
    names = [n["n"] for n in nodes]
    i = draw(st.integers(0, len(nodes) - 1))
    near = draw(st.sampled_from(["upper", "space", "prefix", "longer", "other", "empty", "store", "class"]))
    base = draw(st.sampled_from(names))
    bad = {"upper": base.upper(), "space": base + " ", "prefix": base[:1], "longer": base + "0x", "other": "nobody", "empty": "",
           "store": "mover " + base, "class": "BasicActivity"}[near]
    e = {"a": bad, "by": draw(st.sampled_from(["name", "ID"]))}
    for _ in range(draw(st.integers(0, 2))):
        sibs = [{"t": p["t0"]}] if draw(st.booleans()) else []
        sibs.insert(draw(st.integers(0, len(sibs))), e)
        e = {draw(st.sampled_from(["and", "or", "list"])): sibs}
    return dict(p=p, i=i, e=e, cond=draw(st.booleans()))


def run_unknown(c):
    p = copy.deepcopy(c["p"])
    nodes = list(prog.walk_nodes(p))
    n = nodes[c["i"]]
    prog.reference(p)  # everything runs
    cond = c["cond"] and n["k"] == "while"
    n["c" if cond else "st"] = c["e"]
    bad = prog.refs(c["e"])[0]
    if bad in {m.get("id") for m in nodes} | {m["n"] for m in nodes}:
        return []  # it exists
    b = prog.build(p, register=False)
    try:
        sut.model.register_processes([b.tops[i] for i in p["order"]])
        sut.run_all(b.env, max_events=20_000)
    except Violation:
        raise
    except Exception:
        return ["nontrivial"] if c["i"] > 0 else []
    raise Violation(f"activity {n['n']} refers to {c['e']}, which exists nowhere, without any complaint")


# ---------------------------------------------------------------- fleets
@st.composite
def fleets(draw):
    spec = draw(fleet.fleets(style="ample", max_vessels=5, plugins=0.1))
    jobs = spec["jobs"]
    # some vessels wait for another vessel to finish, whatever the order in which they are registered
    for i in range(1, len(jobs)):
        if draw(st.integers(0, 2)) == 0:
            jobs[i]["st"] = {"a": jobs[draw(st.integers(0, i - 1))]["n"]}
    return dict(spec=spec, order=draw(st.permutations(list(range(len(jobs))))))


def run_fleet(c):
    spec = copy.deepcopy(c["spec"])
    jobs = spec["jobs"]
    spec["jobs"] = [jobs[i] for i in c["order"]]
    r = fleet.observe(spec)
    ex = fleet.executions(r)
    fleet.check_complete(r, ex)
    fleet.check_structure(r, ex, fleet.STRUCT)
    fleet.check_material(r, ex)
    fleet.check_released(r)
    pos = {n["n"]: i for i, n in enumerate(spec["jobs"])}
    fwd = False
    for n in jobs:
        if n.get("st") and "a" in n["st"]:
            other = n["st"]["a"]
            e, o = ex[n["n"]][0], ex[other][0]
            want = max(o.done, spec["t0"])
            expect(abs(e.start - want - sum(p[1] for p in n.get("pl", []))) < 1e-5, "%s starts at %s, it waits for %s which is done at %s", n["n"], e.start, other, o.done)
            fwd = fwd or pos[other] > pos[n["n"]]
    return fleet.labels(r, ex) + (["nontrivial"] if fwd else [])


FACETS = [
    Facet("order", lambda t: ordered(), run_ordered, 800, 15000, "the same activities registered in several orders, in one go or in portions"),
    Facet("chain", lambda t: chains(), run_chain, 250, 4000, "chains of up to 260 activities registered forwards, backwards and shuffled"),
    Facet("duplicates", lambda t: duplicates(), run_duplicates, 600, 8000, "two activities anywhere in the forest with one name"),
    Facet("unknown", lambda t: unknown(), run_unknown, 600, 10000, "a reference to a name or id that no activity has"),
    Facet("fleet", lambda t: fleets(), run_fleet, 500, 10000, "vessels waiting for each other's completion, registered in any order"),
]
