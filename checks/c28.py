"""C28 critical activities are exactly those on a longest path."""
import collections
import datetime

from hypothesis import strategies as st

from vlib.runner import Facet, Violation, expect

RULE = "non-trivial: at least five activities, four dependencies and a critical set of two or more that is not everything"
ASSUMPTIONS = ["lengths of paths are equal or differ by 0.1 s or more (the code takes paths within 0.005 s as equally long)",
               "when longest chains end at different moments, those that end at one of these moments are reported; which one is not specified"]

EPOCH = datetime.datetime(2021, 3, 4, 5, 6, 7)
TICKS = (10**6, 10**6, 250000, 1000400, 333333, 123457, 3600 * 10**6)  # microseconds
NAMES = ("a", "b", "start 1", "end 2", "0", "", "é", "z" * 40)


def frame(c, perm=None, ids=None, name=None):
    import pandas as pd

    rows = []
    for i, (s, d) in enumerate(c["acts"]):
        for k in range(1 + c.get("dup", {}).get(str(i), 0)):
            if c["numeric"]:
                a, b = s * c["tick"] / 10**6, (s + d) * c["tick"] / 10**6
            else:
                a, b = EPOCH + datetime.timedelta(microseconds=s * c["tick"]), EPOCH + datetime.timedelta(microseconds=(s + d) * c["tick"])
            dur = b - a
            rows.append(dict(ActivityID="A%d" % (i % 3), Activity=name or NAMES[i % len(NAMES)], SimulationObject="object %d" % k, start_time=a, end_time=b,
                             duration=dur, state=("ACTIVE", "WAITING")[(i * 7) % 3 == 1], cp_activity_id=(ids or c["ids"])[i]))
    rows = [rows[j] for j in sorted(range(len(rows)), key=lambda j: ((perm or c["perm"])[j % len(c["acts"])], j))]
    return pd.DataFrame(rows)


def critical(c, **kw):
    from openclsim.critical_path.simulation_graph import SimulationGraph

    ids = kw.get("ids") or c["ids"]
    g = SimulationGraph(frame(c, **kw), [(ids[a], ids[b]) for a, b in c["deps"]])
    out = g.get_list_critical_activities()
    expect(len(out) == len(set(out)), "an activity is listed twice: %s", out)
    expect(g.get_list_critical_activities() == out, "asked again, other activities are critical")
    got = {ids.index(x) for x in out}
    return got, g


def order(acts):
    """Causes before effects: by start, at one moment first those that take no time."""
    return sorted(range(len(acts)), key=lambda i: (acts[i][0], acts[i][1] > 0, i))


def oracle(acts, deps):
    """One set per moment at which a longest chain ends."""
    pred = collections.defaultdict(list)
    for a, b in deps:
        pred[b].append(a)
    up = {}
    for i in order(acts):
        up[i] = acts[i][1] + max([up[p] for p in pred[i]], default=0)
    long = [i for i in up if acts[i][1]]  # activities that take no time only pass on what they depend on
    top = max(up.values())
    out = []
    for e in {sum(acts[i]) for i in long if up[i] == top}:
        crit, stack = set(), [i for i in long if up[i] == top and sum(acts[i]) == e]
        while stack:
            i = stack.pop()
            if i not in crit:
                crit.add(i)
                stack += [p for p in pred[i] if up[p] == up[i] - acts[i][1]]
        out.append(crit & set(long))
    return top, out


@st.composite
def graphs(draw, n_max=14):
    acts = []
    instants = draw(st.sampled_from([0, 1, 5, 8]))
    for i in range(draw(st.integers(1, n_max))):
        ends = sorted({s + d for s, d in acts})
        s = draw(st.sampled_from([0] + ends + ends[-2:])) if draw(st.integers(0, 9)) else draw(st.integers(0, 20))
        d = 0 if draw(st.integers(0, 14)) < instants else draw(st.integers(1, 5))
        acts.append((s, d))
    if not any(d for _, d in acts):
        acts[0] = (acts[0][0], 1)
    dense = draw(st.sampled_from([3, 6, 9, 10]))
    o = order(acts)
    deps = [(i, j) for k, i in enumerate(o) for j in o[k + 1:] if sum(acts[i]) == acts[j][0] and draw(st.integers(0, 9)) < dense]
    return finish(draw, acts, deps)


def finish(draw, acts, deps):
    if deps and draw(st.integers(0, 2)) == 0:  # some dependencies are passed on by activities that take no time
        through = draw(st.dictionaries(st.integers(0, len(deps) - 1), st.integers(1, 4), max_size=8))
        if draw(st.integers(0, 3)) == 0:
            through = {k: draw(st.integers(1, 3)) for k in range(min(len(deps), 40))}
        new = [d for k, d in enumerate(deps) if k not in through]
        for k, n in sorted(through.items()):
            a, b = deps[k]
            if not acts[b][1]:
                new.append((a, b))
                continue
            for _ in range(n):
                acts.append((acts[b][0], 0))
                new.append((a, len(acts) - 1))
                a = len(acts) - 1
            new.append((a, b))
        deps = new
    n = len(acts)
    deps = draw(st.permutations(deps)) if 0 < len(deps) < 200 else deps
    if deps and draw(st.integers(0, 4)) == 0:
        deps = deps + [deps[0]]
    tag = draw(st.integers(0, 10**6))
    style = draw(st.integers(0, 2))
    ids = ["%d-%s" % (tag, i) if style == 0 else ("start %d" % i if i % 2 else "end start %d" % i) if style == 1 else i + tag for i in range(n)]
    dup = {str(i): draw(st.integers(1, 2)) for i in draw(st.sets(st.integers(0, n - 1), max_size=3))}
    perm = draw(st.permutations(list(range(n)))) if n < 200 else list(range(n))[:: draw(st.sampled_from([1, -1]))]
    tick = draw(st.sampled_from(TICKS))
    return dict(tick=tick, acts=[list(a) for a in acts], deps=[list(d) for d in deps], ids=ids, perm=list(perm), dup=dup, numeric=draw(st.integers(0, 5)) == 0)


@st.composite
def big(draw):
    """Long chains, wide layers (many tied paths) and several parts with ties."""
    kind = draw(st.sampled_from(["chain", "layers", "ladder"]))
    acts, deps = [], []
    if kind == "chain":
        n, t = draw(st.integers(200, 1500)), 0
        for i in range(n):
            d = 1 + (i * 7) % 3
            acts.append((t, d))
            if i and (i * 13) % 400 != 5:
                deps.append((i - 1, i))
            t += d
    elif kind == "layers":
        w, n = draw(st.integers(2, 4)), draw(st.integers(5, 40))
        skip = draw(st.integers(2, 11))
        for i in range(n):
            for j in range(w):
                acts.append((i, 1))
                if i:
                    deps += [((i - 1) * w + k, i * w + j) for k in range(w) if (i * w * w + j * w + k) % skip]
    else:
        n = draw(st.integers(5, 60))
        for i in range(n):  # two rails: one long step against two short ones
            t = 2 * i
            acts += [(t, 2), (t, 1), (t + 1, 1)]
            b = 3 * i
            deps.append((b + 1, b + 2))
            if i:
                deps += [(b - 3, b), (b - 3, b + 1), (b - 1, b)][: draw(st.integers(1, 3))]
    return finish(draw, acts, deps)


def run_graph(c):
    acts = [tuple(a) for a in c["acts"]]
    top, sets = oracle(acts, c["deps"])
    got, g = critical(c)
    expect(got in sets, "critical %s, the activities on a longest chain (%s long) are %s; activities (start, duration) %s, dependencies %s", sorted(got), top,
           [sorted(s) for s in sets], acts, c["deps"])
    n = len(acts)
    renamed, _ = critical(c, perm=c["perm"][::-1], ids=["x%d" % ((i * 7919) % 1000003) for i in range(n)], name="same")
    expect(renamed in sets, "with other names, ids and row order %s are critical instead of one of %s", sorted(renamed), [sorted(s) for s in sets])
    out = ["tie"] if len(sets) > 1 else []
    if len(acts) > 30:
        out.append("large")
    if any(not d for _, d in acts):
        out.append("instants" if any(not acts[a][1] and not acts[b][1] for a, b in c["deps"]) else "zero")
    if len(acts) >= 5 and len(c["deps"]) >= 4 and 2 <= len(got) < len(acts):
        out.append("nontrivial")
    return out


@st.composite
def wrong(draw):
    c = draw(graphs(8).filter(lambda c: sum(1 for a in c["acts"] if a[1]) > 1))
    acts = c["acts"]
    pos = [i for i, a in enumerate(acts) if a[1]]
    bad = [(i, j) for i in pos for j in pos if sum(acts[i]) != acts[j][0]]
    c["deps"] = c["deps"] + [list(draw(st.sampled_from(bad)))]
    c["deps"] = draw(st.permutations(c["deps"]))
    return c


def run_wrong(c):
    try:
        got, _ = critical(c)
    except Violation:
        raise
    except Exception:  # refused
        gaps = [c["acts"][b][0] - sum(c["acts"][a]) for a, b in c["deps"]]
        return ["nontrivial"] + (["fraction"] if any(0 < abs(x) * c["tick"] < 10**6 for x in gaps) else [])
    raise Violation("accepted dependencies between activities that do not connect in time (or form a circle): activities %s, dependencies %s, critical %s"
                    % (c["acts"], c["deps"], sorted(got)))


FACETS = [
    Facet("graph", lambda t: graphs() if t == "quick" else st.one_of(graphs(), graphs(30)), run_graph, 2000, 60000, "random graphs against a dynamic programme"),
    Facet("big", lambda t: big(), run_graph, 150, 3000, "long chains, layers and ladders with many tied paths"),
    Facet("refuse", lambda t: wrong(), run_wrong, 600, 12000, "graphs with a dependency that does not connect are refused"),
]
