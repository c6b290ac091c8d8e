"""C38 activities may be added while a simulation is under way."""
from hypothesis import strategies as st

from vlib import boot, fleet, prog, sut
from vlib.meta import fleet_objects, picture, prog_objects, run_fleet, same
from vlib.runner import Facet, Skip, expect

RULE = ("non-trivial: an activity added after the start waited for one of an earlier part that was still going on, or one that was "
        "already over was referred to, and at least one activity of an earlier part ended after the addition (stages); a second "
        "round of work that recorded at least twenty entries (rounds)")
ASSUMPTIONS = ["only activities outside loops are referred to from parts added later (others do not end once)",
               "all parts have names of their own"]
KINDS = ("basic", "move", "seq", "par", "rep", "while")


@st.composite
def stages(draw):
    """Two to four programs, each added at some moment, with start events on activities of the earlier ones."""
    n = draw(st.integers(2, 4))
    parts, t = [], 0
    epoch = draw(st.sampled_from([0, 0, 1000, 1_600_000_000]))
    for i in range(n):
        p = draw(prog.programs(kinds=KINDS, depth=2, top=2, width=3, start=0.3, plugins=0.1, delay=0.1, logs=1, epoch=st.just(epoch + t), stretch=0))
        p = prog.rename(p, lambda x: f"p{i} {x}")
        links = []
        for _ in range(draw(st.integers(0, 3)) if i else 0):
            links.append([draw(st.integers(0, 40)), draw(st.integers(0, i - 1)), draw(st.integers(0, 40)), draw(st.sampled_from(["name", "ID"])),
                          draw(st.sampled_from(["list", "and", "or", "alone"]))])
        parts.append(dict(p=p, links=links, how=draw(st.sampled_from(["until", "steps"])), early=draw(st.booleans())))
        t += draw(st.integers(0, 160)) / 4 + draw(st.sampled_from([0, 0, 1 / 64]))
    return dict(parts=parts)


def outside_loops(p):
    loops, _ = prog.loops_of(p)
    return [n for n, ls in loops.items() if not ls]


def linked(c):
    """The programs with links resolved: for the library ({"x": name}) and for the reference ({"t": moment})"""
    progs, done, free, execs = [], {}, [], []
    refs, n_over, n_wait = [], 0, 0
    for part in c["parts"]:
        p = prog.copy.deepcopy(part["p"])
        q = prog.copy.deepcopy(part["p"])
        nodes, qnodes = list(prog.walk_nodes(p)), list(prog.walk_nodes(q))
        for a, j, x, by, how in part["links"]:
            pool = free[j]
            name = pool[x % len(pool)]
            for ns, leaf in ((nodes, {"x": name, "by": by}), (qnodes, {"t": done[name]})):
                node = ns[a % len(ns)]
                old = node.get("st")
                node["st"] = leaf if how == "alone" and old is None else {"list" if how == "alone" else how: [leaf] + ([old] if old else [])}
            over = done[name] <= p["t0"]
            n_over, n_wait = n_over + over, n_wait + (not over)
        try:
            ref = prog.reference(q)
        except (prog.Cycle, prog.TooLong):
            raise Skip("with its links the program does not end")
        free.append(outside_loops(q))
        for name, ins in prog.ref_execs(ref).items():
            if name in free[-1]:
                done[name] = ins[0].done()
        progs.append(p)
        refs.append(ref)
    return progs, refs, n_over, n_wait


def run(c):
    progs, refs, n_over, n_wait = linked(c)
    env = sut.simpy.Environment(initial_time=progs[0]["t0"])
    reg, built, others = {}, [], {}
    late = 0
    for i, (p, part) in enumerate(zip(progs, c["parts"])):
        b = None
        kw = dict(env=env, registry=reg, others=others, prefix=f"p{i} ")
        if part["early"]:
            b = prog.build(p, register=False, **kw)
        if p["t0"] > env.now:
            if part["how"] == "until":
                env.run(until=p["t0"])
            else:
                sut.run_all(env, until=p["t0"])
                if env.now < p["t0"]:
                    env.run(until=p["t0"])
        if b is None:
            b = prog.build(p, register=False, **kw)
        late += any(x.done() > p["t0"] for r in refs[:i] for ins in prog.ref_execs(r).values() for x in ins)
        sut.model.register_processes([b.tops[k] for k in p["order"]])
        others.update(b.acts)
        built.append(b)
    sut.run_all(env)
    for b, ref in zip(built, refs):
        for name in ref.paths:
            prog.check_own_log(b, ref, name)
        prog.check_additional_logs(b, ref)
    return (["over"] if n_over else []) + (["waited"] if n_wait else []) + (["nontrivial"] if late and (n_over or n_wait) else [])


# ---------------------------------------------------------------- more work for the same fleet
@st.composite
def rounds(draw):
    """A fleet, and more jobs for it: its own once more, or with other amounts and numbers of trips."""
    spec = draw(fleet.any_fleet(styles=("ample", "ample", "ample", "alone", "alone", "reserve"), plugins=0.1, delay=0.15, max_vessels=3,
                               site_slots=st.sampled_from([1, 1, 2])))
    ample = not any(n["k"] == "while" for n in spec["jobs"])
    if ample:
        for s in spec["sites"]:
            s["ids"] = {k: [4 * x for x in v] for k, v in s["ids"].items()}
    jobs = prog.copy.deepcopy(spec["jobs"])
    latched = any("_reservations" in str(n.get("c")) for n in jobs)
    if draw(st.integers(0, 3)) == 0:
        # the very same activities
        return dict(spec=spec, jobs=jobs, refill=not ample and not latched, pause=draw(st.sampled_from([0, 0, 7.5, 1 / 64])), same=True)
    other = draw(st.one_of(st.just(0), st.just(0), st.none(), st.integers(1, 6)))
    for n in fleet.walk(jobs):
        n["n"] = "2nd " + n["n"]
        if n["k"] == "rep":
            n["r"] = draw(st.integers(1, 3))
        if n["k"] == "shift" and other != 0 and ample:
            n["amt"] = other
    if ample and draw(st.booleans()):  # carry it back
        for job in jobs:
            ends = sorted({n["site"] for n in fleet.walk([job]) if n["k"] == "shift"})
            swap = dict(zip(ends, reversed(ends)))
            for n in fleet.walk([job]):
                for key in ("to", "site"):
                    if key in n:
                        n[key] = swap.get(n[key], n[key])
                if n["k"] == "shift":
                    n["by"] = "crane" if spec["sites"][n["site"]]["crane"] else "vessel"
    latched = any("_reservations" in str(n.get("c")) for n in jobs)
    return dict(spec=spec, jobs=jobs, refill=not ample and not latched, pause=draw(st.sampled_from([0, 0, 7.5, 1 / 64])))


def run_rounds(c):
    spec = c["spec"]
    boot.reset_uuid(0)
    r = fleet.build(spec)
    sut.run_all(r.env)
    if c["refill"]:
        # somebody fills the source and empties the destination
        for id_, (cap, level) in spec["sites"][0]["ids"].items():
            have = r.sites[0].container.get_level(id_)
            if level > have:
                r.sites[0].container.put(level - have, id_)
        for id_ in spec["sites"][1]["ids"]:
            have = r.sites[1].container.get_level(id_)
            if have > 0:
                r.sites[1].container.get(have, id_)
        sut.run_all(r.env)
    if c["pause"]:
        r.env.run(until=r.env.now + c["pause"])
    before = {k: len(o.logbook) for k, o in fleet_objects(r)}
    places = {(o.geometry.x, o.geometry.y): i for i, o in reversed(list(enumerate(r.sites)))}
    now = prog.copy.deepcopy(spec)
    now["t0"] = r.env.now
    for o, s in list(zip(r.sites, now["sites"])) + list(zip(r.vessels, now["vessels"])):
        s["ids"] = {k: [v[0], o.container.get_level(k)] for k, v in s["ids"].items()}
    for o, s in zip(r.vessels, now["vessels"]):
        s["at"] = places[o.geometry.x, o.geometry.y]
    now["jobs"] = prog.copy.deepcopy(c["jobs"])
    if c.get("same"):
        world = r
        sut.model.register_processes(list(r.tops))
    else:
        for n in now["jobs"]:
            if n.get("st"):
                n["st"] = {"t": n["st"]["t"] - spec["t0"] + now["t0"]}
        world = fleet.build(now, world=r)
    refused = run_fleet(world)
    got = picture(fleet_objects(world), world.by_id, now["t0"])
    got = {k: v[before.get(k, 0):] for k, v in got.items()}
    boot.reset_uuid(1)
    new = fleet.build(now)
    again = run_fleet(new)
    want = picture(fleet_objects(new), new.by_id, now["t0"])
    same(want, got, "a fleet that has worked before")
    expect(refused == again, "a fleet that has worked before: %s instead of %s", refused, again)
    return (["refused"] if again else []) + (["same"] if c.get("same") else []) + (["nontrivial"] if sum(map(len, want.values())) >= 20 else [])


# ---------------------------------------------------------------- the same activities once more
@st.composite
def repeats(draw):
    p = draw(prog.programs(kinds=KINDS, depth=2, top=3, width=3, start=0.3, plugins=0.15, delay=0.15, logs=2))
    return dict(p=p, rounds=draw(st.integers(1, 3)), pause=draw(st.sampled_from([0, 2.5, 1 / 64, 500])), part=draw(st.sampled_from(["all", "all", "order"])))


def run_repeat(c):
    """Activities that are over are registered again: they run as new ones that start at that moment."""
    p = c["p"]
    prog.reference(p)
    boot.reset_uuid(0)
    b = prog.run(p)
    n = 0
    for k in range(c["rounds"]):
        if c["pause"]:
            b.env.run(until=b.env.now + c["pause"])
        now = b.env.now
        q = prog.copy.deepcopy(p)
        q["t0"] = now
        if c["part"] == "order":
            q["order"] = p["order"][::-1]
        try:
            ref = prog.reference(q)
        except (prog.Cycle, prog.TooLong):
            raise Skip("some condition never occurs again")
        before = {x: len(o.logbook) for x, o in prog_objects(b)}
        if q.get("separate"):
            for i in q["order"]:
                sut.model.register_processes([b.tops[i]])
        else:
            sut.model.register_processes([b.tops[i] for i in q["order"]])
        sut.run_all(b.env)
        got = {x: v[before[x]:] for x, v in picture(prog_objects(b), b.by_id, now).items()}
        boot.reset_uuid(1)
        f = prog.run(q)
        want = picture(prog_objects(f), f.by_id, now)
        # (movers are at their destination already)
        got, want = ({x: [e[:6] for e in v] for x, v in y.items()} for y in (got, want))
        for x in got:
            expect(got[x] == want[x], "round %d from %s, log of %s: %s instead of %s", k + 2, now, x, got[x][:6], want[x][:6])
        n += sum(map(len, want.values()))
    return ["nontrivial"] if n >= 20 else []


FACETS = [
    Facet("stages", lambda t: stages(), run, 700, 14000, "programs of which parts are added while the others run"),
    Facet("again", lambda t: repeats(), run_repeat, 500, 10000, "activities that are over and are registered once more"),
    Facet("rounds", lambda t: rounds(), run_rounds, 500, 10000, "fleets that are given more work when they are done"),
]
