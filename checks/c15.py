"""C15 container events fire exactly when the level satisfies them."""
from hypothesis import strategies as st

from vlib import fleet, prog, sut
from vlib.runner import Facet, expect

RULE = "non-trivial: an event waited and fired, and the same condition was requested again after it had ceased to hold"
ASSUMPTIONS = ["puts and gets at one moment are awaited one after another, or the next thing done is a request", "levels stay within the container, its ids exist"]

OPS = {"gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b}


@st.composite
def histories(draw, long=False):
    n = draw(st.sampled_from([1, 1, 2, 3, 4, 9]))
    unit = draw(st.sampled_from([1, 1, 0.25, 0.1, 1 / 64, 1000]))
    size = draw(st.sampled_from([12, 12, 12, 100 if unit < 1 else 20]))
    ids = ["default"] if n == 1 and draw(st.booleans()) else [f"id{i}" for i in range(n)]
    conts = {i: [draw(st.integers(1, size)) * unit, 0] for i in ids}
    if draw(st.integers(0, 6)) == 0:
        conts[draw(st.sampled_from(ids))][0] = 0  # nothing fits in
    for i in ids:
        conts[i][1] = draw(st.integers(0, round(conts[i][0] / unit))) * unit
    cap = {k: v[0] for k, v in conts.items()}
    cur = {k: v[1] for k, v in conts.items()}
    cap |= {k + "_reservations": v for k, v in list(cap.items())}
    cur |= {k + "_reservations": v for k, v in list(cur.items())}
    keys = sorted(cap)
    # a small pool of conditions, so that they are requested repeatedly
    pool = []
    hot = draw(st.sampled_from(keys))
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 6]))):
        k = draw(st.sampled_from([hot, hot] + keys))
        op = draw(st.sampled_from(["gt", "ge", "lt", "le", "full", "empty"]))
        pool.append([k, op, draw(st.integers(-1, round(cap[k] / unit) + 1)) * unit if op in OPS else None])
    if draw(st.integers(0, 2)) == 0:
        # neighbouring levels
        op, at = draw(st.sampled_from(["gt", "ge", "lt", "le"])), draw(st.integers(0, round(cap[hot] / unit)))
        pool += [[hot, op, (at + d) * unit] for d in draw(st.lists(st.sampled_from([-1, 0, 1, 2, 3]), min_size=1, max_size=3))]
    ops = []
    for _ in range(draw(st.integers(8, 60 if long else 30))):
        gap = draw(st.sampled_from([0, 0, 1, 0.5]))
        if draw(st.booleans()):
            ops.append(["req", gap, draw(st.integers(0, len(pool) - 1))])
        else:
            k = draw(st.sampled_from([hot, hot] + keys))
            new = draw(st.one_of(st.just(0), st.just(round(cap[k] / unit)), st.integers(0, round(cap[k] / unit)))) * unit
            if draw(st.integers(0, 7)) == 0:
                new = cur[k]  # an amount of zero
            ops.append(["change", gap, k, round(new - cur[k], 10), draw(st.sampled_from(["await", "await", "await", "leave"]))])
            cur[k] = new
    for a, b in zip(ops, ops[1:]):
        if a[0] == "change" and b[0] == "req" and b[1] == 0 and draw(st.booleans()):
            a[4] = "now"  # the request follows without any waiting
    return dict(conts=conts, pool=pool, ops=ops, t0=draw(prog.epochs()))


def make(conts, env):
    if list(conts) == ["default"] and conts["default"][0] > 0:  # (an object with one container has none if its capacity is zero)
        cap, level = conts["default"]
        return sut.Site(env=env, name="store", geometry=sut.point(4, 52), capacity=cap, level=level)
    return sut.MultiSite(env=env, name="store", geometry=sut.point(4, 52),
                         initials=[dict(id=k, capacity=v[0], level=v[1]) for k, v in conts.items()])


def request(c, key, op, level):
    if op == "full":
        return c.get_full_event(key) if key != "default" else c.get_full_event()
    if op == "empty":
        return c.get_empty_event(key) if key != "default" else c.get_empty_event()
    return c.get_container_event(level, op, key) if key != "default" else c.get_container_event(level=level, operator=op)


def run_history(c):
    env = sut.simpy.Environment(initial_time=c["t0"])
    store = make(c["conts"], env)
    cont = store.container
    levels = {k: v[1] for k, v in c["conts"].items()}
    levels |= {k + "_reservations": v for k, v in list(levels.items())}
    caps = {k: v[0] for k, v in c["conts"].items()}
    caps |= {k + "_reservations": v for k, v in list(caps.items())}
    handles = []   # [event, condition, moment it is due to fire or None, moments it was seen]
    stats = dict(waited=0, again=0)
    last_false = {}

    def sat(cond):
        k, op, level = cond
        if op == "full":
            return levels[k] >= caps[k]
        if op == "empty":
            return levels[k] <= 0
        return OPS[op](levels[k], level)

    def listen(h):
        yield h[0]
        h[3].append(env.now)

    def update():
        for h in handles:
            if h[2] is None and sat(h[1]):
                h[2] = env.now
                stats["waited"] += 1
        for i, cond in enumerate(c["pool"]):
            if not sat(cond):
                last_false[i] = True

    def check(where):
        for h in handles:
            expect(h[0].triggered == (h[2] is not None), "%s at %s: event %s (requested at %s) triggered=%s, levels now %s",
                   where, env.now, h[1], h[4], h[0].triggered, levels)
        for k in levels:
            expect(cont.get_level(k) == levels[k] and cont.get_capacity(k) == caps[k], "%s: %s has level %s of %s instead of %s of %s",
                   where, k, cont.get_level(k), cont.get_capacity(k), levels[k], caps[k])

    def driver():
        check("initially")
        for x, op in enumerate(c["ops"]):
            if op[1]:
                yield env.timeout(op[1])
                check(f"before step {x}")
            if op[0] == "req":
                cond = c["pool"][op[2]]
                h = [request(cont, *cond), cond, env.now if sat(cond) else None, [], env.now]
                if h[2] is None and any(g[1] == cond and g[2] is not None for g in handles):
                    stats["again"] += 1
                handles.append(h)
                env.process(listen(h))
                check(f"step {x} (request)")
            else:
                _, _, k, amount, how = op
                ev = cont.put(amount, k) if amount >= 0 else cont.get(-amount, k)
                levels[k] = round(levels[k] + amount, 10)
                # avoid rounding differences between model and store: multiples of the unit
                if abs(cont.get_level(k) - levels[k]) < 1e-9:
                    levels[k] = cont.get_level(k)
                update()
                if how == "now":
                    continue
                if how == "await":
                    yield ev
                else:
                    yield env.timeout(0.25)
                check(f"step {x} (change of {amount} in {k})")

    update()
    env.process(driver())
    sut.run_all(env)
    for h in handles:
        want = [] if h[2] is None else [h[2]]
        expect(h[3] == want, "who waited for %s since %s was woken at %s instead of %s", h[1], h[4], h[3], want)
    out = []
    if stats["waited"]:
        out.append("waited")
    if stats["again"]:
        out.append("again")
    if stats["waited"] and stats["again"]:
        out.append("nontrivial")
    return out


# ---------------------------------------------------------------- waiting processes racing for content
@st.composite
def races(draw):
    cap = draw(st.integers(5, 30))
    return dict(cap=cap, level=draw(st.integers(0, cap)),
                takers=[[draw(st.integers(0, 40)) / 2 + (i + 1) / 64, draw(st.integers(1, 8))] for i in range(draw(st.integers(1, 6)))],
                givers=[[draw(st.integers(0, 40)) / 2 + 0.5 + (i + 1) / 1024, draw(st.integers(1, 8))] for i in range(draw(st.integers(0, 6)))])


def run_race(c):
    """Takers wait for content in a loop, as the documentation does: whoever could be served is, content never runs negative."""
    env = sut.simpy.Environment()
    s = sut.Site(env=env, name="s", geometry=sut.point(4, 52), capacity=c["cap"] + 100, level=c["level"])
    served = {}
    waited = []

    def taker(i, t, a):
        yield env.timeout(t)
        while True:
            yield s.container.get_container_event(a, "ge")
            if s.container.get_level() >= a:
                yield s.container.get(a)
                served[i] = env.now
                expect(s.container.get_level() >= 0, "content ran negative")
                if env.now > t:
                    waited.append(i)
                return

    def giver(t, a):
        yield env.timeout(t)
        yield s.container.put(a)

    for i, (t, a) in enumerate(c["takers"]):
        env.process(taker(i, t, a))
    for t, a in c["givers"]:
        env.process(giver(t, a))
    sut.run_all(env, max_events=20000)
    level = s.container.get_level()
    expect(level == c["level"] + sum(a for _, a in c["givers"]) - sum(c["takers"][i][1] for i in served), "level %s at the end", level)
    for i, (t, a) in enumerate(c["takers"]):
        if i not in served:
            expect(level < a, "a process still waits for %s although %s are there", a, level)
    return ["nontrivial"] if waited and len(c["takers"]) > 1 else []


FACETS = [
    Facet("history", lambda t: histories(t == "thorough"), run_history, 2500, 50000, "histories of puts, gets and requests against a model"),
    Facet("race", lambda t: races(), run_race, 800, 16000, "several processes waiting for the content of one container"),
    fleet.start_facet("starts", 400, 8000),
]
