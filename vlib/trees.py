"""Facets that run resource-free activity programs against the reference interpreter (vlib/prog.py)."""
from hypothesis import strategies as st

from . import prog, sut
from .runner import Facet, expect


def features(p, ref):
    ex = prog.ref_execs(ref)
    nodes = list(prog.walk_nodes(p))
    out = set()
    for n in nodes:
        ins = ex[n["n"]]
        out.add(n["k"])
        if len(ins) > 1:
            out.add("repeated")
        if any(i.released() > i.due() for i in ins):
            out.add("waited")
        if n.get("pl"):
            out.add("plugins")
        if n.get("dl"):
            out.add("delay")
        if n["k"] in ("basic", "move") and n["d"] == 0:
            out.add("zero")
        if n["k"] == "par":
            for i in ins:
                d = [i.kid(0, j).done() for j in range(len(n["s"]))]
                if len(d) > 1:
                    out.add("par-tie" if len(set(d)) < len(d) else "par-distinct")
                    if d != sorted(d):
                        out.add("par-unordered")
        if n["k"] in ("rep", "while") and any(i.iterations() > 1 for i in ins):
            out.add(n["k"] + "-many")
        if n["k"] in ("rep", "while") and len(ins) > 1:
            out.add("nested-loop")
        if n["k"] == "seq" and len(n["s"]) > 1:
            out.add("seq-many")
        if n["k"] == "while" and any(i.iterations() == 1 for i in ins):
            out.add("while-once")
    return out


def names_around(p, kinds):
    """The activities of these kinds and their direct parts."""
    out = []
    for n in prog.walk_nodes(p):
        if n["k"] in kinds:
            out.append(n["n"])
            out += [c["n"] for c in n["s"]]
    return list(dict.fromkeys(out))


def tree_facet(name, kinds, judged, nontrivial, quick, thorough, rule, **gen):
    """judged: kinds whose logs (and whose parts' logs) must match the reference. nontrivial: features all needed."""
    def run(p):
        b, ref = prog.run_and_compare(p, names_around(p, judged) if judged else None)
        f = features(p, ref)
        return sorted(f) + (["nontrivial"] if set(nontrivial) <= f else [])

    return Facet(name, lambda tier: prog.programs(kinds=kinds, **gen), run, quick, thorough, rule)


# ---------------------------------------------------------------- loops of hundreds or thousands of iterations
@st.composite
def long_loops(draw, kind, top):
    exp = draw(st.integers(0, 7))
    n = draw(st.integers(min(100 << exp, top) // 2, min(100 << exp, top)))
    parts = [draw(st.integers(0, 24)) / 8 for _ in range(draw(st.integers(1, 2)))]
    if not any(parts):
        parts[0] = 0.5
    cond = None
    if kind == "while":
        cond = dict(what=draw(st.sampled_from(["time", "level", "activity"])), after=draw(st.integers(0, 7)) / 8 * sum(parts))
    return dict(kind=kind, n=n, parts=parts, cond=cond, t0=draw(st.sampled_from([0, 0, 1000.5])))


def run_long_loop(c):
    env = sut.simpy.Environment(initial_time=c["t0"])
    reg = {}
    subs = [sut.model.BasicActivity(env=env, registry=reg, name=f"part{i}", duration=d) for i, d in enumerate(c["parts"])]
    one = sum(c["parts"])
    others = []
    if c["kind"] == "rep":
        loop = sut.model.RepeatActivity(env=env, registry=reg, name="loop", sub_processes=subs, repetitions=c["n"])
        n = c["n"]
    else:
        # the condition occurs strictly within iteration n
        t = c["t0"] + (c["n"] - 1) * one + max(c["cond"]["after"], 1 / 16)
        n = c["n"]
        what = c["cond"]["what"]
        if what == "time":
            cond = {"type": "time", "start_time": t}
        elif what == "activity":
            others.append(sut.model.BasicActivity(env=env, registry=reg, name="other", duration=t - c["t0"]))
            cond = {"type": "activity", "state": "done", "name": "other"}
        else:
            s = sut.Site(env=env, name="s", geometry=sut.point(4, 52), capacity=10)
            cond = {"type": "container", "concept": s, "state": "ge", "level": 3}

            def fill():
                yield env.timeout(t - c["t0"])
                yield s.container.put(4)

            env.process(fill())
        loop = sut.model.WhileActivity(env=env, registry=reg, name="loop", sub_processes=subs, condition_event=cond)
    after = sut.model.BasicActivity(env=env, registry=reg, name="after", duration=1)
    top = sut.model.SequentialActivity(env=env, registry=reg, name="top", sub_processes=[loop, after])
    sut.model.register_processes([top] + others)
    sut.run_all(env)
    want, t = [[] for _ in subs], c["t0"]
    for _ in range(n):
        for i, d in enumerate(c["parts"]):
            want[i] += [(t, "START"), (t + d, "STOP")]
            t += d
    for a, w in zip(subs, want):
        got = [(t, s) for t, s, *_ in sut.entries(a)]
        expect(len(got) == len(w), "%s with %d iterations ran a part %s times", c["kind"], n, len(got) / 2)
        expect(got == w, "%s: parts ran at other times", c["kind"])
    got = [(t, s) for t, s, aid, lt, lr in sut.entries(loop) if lt is None]
    expect(got == [(c["t0"], "START"), (t, "STOP")], "%s of %d iterations logs %s instead of ending at %s", c["kind"], n, got, t)
    got = [(t, s) for t, s, *_ in sut.entries(after)]
    expect(got == [(t, "START"), (t + 1, "STOP")], "the activity after the loop ran at %s instead of %s", got, t)
    return [c["kind"], f"over-{10 ** (len(str(n - 1)) - 1)}"] + (["nontrivial"] if n >= 100 else [])


def long_facet(kind, quick, thorough):
    return Facet("thousands", lambda tier: long_loops(kind, 4000 if tier == "quick" else 12800), run_long_loop, quick, thorough,
                 "one loop of 50 to thousands of iterations, against the closed form")
