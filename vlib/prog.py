"""Programs of activities that need no shared resources: generator, builder for the real code, and an independent
reference interpreter that computes every execution time from the definitions (no event loop involved).

Program (plain JSON):
  {"t0": time, "logs": n, "acts": [node, ...], "order": [...]}
node:
  k   basic | move | seq | par | rep | while
  n   name (nm: the name it is given instead, when nobody refers to it)            id  explicit id or absent
  d   duration (basic, move)          al  indices of additional logs (basic)
  s   parts (structural)              r   repetitions (rep)    c  condition (while)
  st  start expression or None
  pl  [[priority, pre, post], ...]    dl  delay percentage (absent: class without the plugin, None: no percentage)
expression: {"t": time} | {"a": name, "by": "name"|"ID"} | {"and": [...]} | {"or": [...]} | {"list": [...]}
            | {"c": [store, id, state, level]}  state: gt ge lt le full empty
containers (optional): "cont": [{"ids": {id: [capacity, level]}}], "hist": [[time, store, id, change], ...] - an
outside process makes these changes; their times never coincide with those of activities they did not release.
"""
import copy
import datetime
import functools
import sys

from hypothesis import strategies as st

from . import sut
from .runner import Skip, Violation, expect

sys.setrecursionlimit(20000)

INF = float("inf")
STRUCT = ("seq", "par", "rep", "while")


class Cycle(Exception):
    pass


class TooLong(Exception):
    pass


class Never(TooLong):
    """An activity waits for something that does not happen."""


# ---------------------------------------------------------------- reference interpreter
class Inst:
    """One execution of an activity in the reference interpretation."""

    __slots__ = ("ref", "node", "parent", "it", "idx", "_memo", "_busy", "kids")

    def __init__(self, ref, node, parent, it, idx):
        self.ref, self.node, self.parent, self.it, self.idx = ref, node, parent, it, idx
        self._memo = {}
        self._busy = set()
        self.kids = {}
        ref.count += 1
        if ref.count > ref.limit:
            raise TooLong

    def _get(self, what, f):
        if what in self._memo:
            return self._memo[what]
        if what in self._busy:
            raise Cycle
        self._busy.add(what)
        v = f()
        self._busy.discard(what)
        self._memo[what] = v
        return v

    def kid(self, it, idx):
        key = (it, idx)
        if key not in self.kids:
            self.kids[key] = Inst(self.ref, self.node["s"][idx], self, it, idx)
        return self.kids[key]

    # when the activity was (re)scheduled
    def reg(self):
        p, it = self.parent, self.it
        node = self
        while p is not None:
            if p.node["k"] in ("rep", "while") and it > 0:
                return p.body_start(it)
            node, p, it = p, p.parent, p.it
        return self.ref.t0

    def due(self):
        return self._get("due", self._due)

    def _due(self):
        if self.parent is None:
            return self.ref.t0
        p = self.parent
        if p.node["k"] == "par":
            return p.start()
        if self.idx == 0:
            return p.body_start(self.it)
        return p.kid(self.it, self.idx - 1).done()

    def released(self):
        return self._get("released", lambda: self._released())

    def _released(self):
        d = self.due()
        if self.node.get("st") is None:
            return d
        return max(d, self.occurs(self.node["st"], self.reg()))

    def plugins(self):
        """[(priority, pre, post or ('delay', pct))] in execution order."""
        ps = []
        if self.node.get("dl") is not None:
            ps.append((3, 0, ("delay", self.node["dl"])))
        ps += [tuple(p) for p in self.node.get("pl", [])]
        return sorted(ps, key=lambda p: p[0])

    def start(self):
        return self._get("start", lambda: self.released() + sum(p[1] for p in self.plugins()))

    def body_start(self, it):
        if it == 0 or self.node["k"] in ("seq", "par"):
            return self.start()
        return self.kid(it - 1, len(self.node["s"]) - 1).done()

    def iterations(self):
        return self._get("iterations", self._iterations)

    def _iterations(self):
        k = self.node["k"]
        if k in ("seq", "par"):
            return 1
        if k == "rep":
            return self.node["r"]
        occ = self.occurs(self.node["c"], self.start())
        n = 1
        while True:
            for i in range(len(self.node["s"])):
                end = self.kid(n - 1, i).done()
            if end >= occ:
                break
            n += 1
            if n > 60:
                raise TooLong
        if end == occ:
            self.ref.ties += 1
            if refs(self.node["c"]) or raw(self.node["c"]):
                self.ref.ambiguous += 1
        return n

    def stop(self):
        return self._get("stop", self._stop)

    def _stop(self):
        k = self.node["k"]
        if k in ("basic", "move"):
            return self.start() + self.node["d"]
        if k == "par":
            return max(self.kid(0, i).done() for i in range(len(self.node["s"])))
        t = None
        for it in range(self.iterations()):  # in order: keeps the recursion shallow
            for i in range(len(self.node["s"])):
                t = self.kid(it, i).done()
        return t

    def done(self):
        return self._get("done", lambda: self.after()[-1])

    def after(self):
        """Moments after each post-processing step; the last one is when the activity is done."""
        t = [self.stop()]
        for _, _, post in self.plugins():
            if isinstance(post, tuple):
                t.append(t[-1] + (t[-1] - self.start()) * post[1] / 100)
            else:
                t.append(t[-1] + post)
        return t

    def occurs(self, e, since):
        if "t" in e:
            return max(e["t"], since)
        if "a" in e:
            return max(self.find(e["a"]).done(), since)
        if "c" in e:
            return self.ref.holds(e["c"], since)
        for key, f in (("and", max), ("list", max), ("or", min)):
            if key in e:
                if not e[key]:
                    return since
                return f([self.occurs(x, since) for x in e[key]])
        raise KeyError(str(e))

    def find(self, name):
        """The execution of `name` belonging to the same iterations of the common loops."""
        mine = {}
        i = self
        while i.parent is not None:
            mine[i.parent.node["n"]] = i.it
            i = i.parent
        path = self.ref.paths[name]
        cur = self.ref.tops[path[0]]
        for idx in path[1:]:
            it = mine.get(cur.node["n"], 0) if cur.node["k"] in ("rep", "while") else 0
            cur = cur.kid(it, idx)
        return cur

    # expected own log
    def log(self):
        out = []
        due, rel = self.due(), self.released()
        if rel > due:
            out += [(due, "WAIT_START", None, None), (rel, "WAIT_STOP", None, None)]
        out.append((self.start(), "START", None, None))
        k = self.node["k"]
        if k == "par":
            kids = [self.kid(0, i) for i in range(len(self.node["s"]))]
            out += [(self.start(), "START", "subprocess", c.node["n"]) for c in kids]
            out += sorted([(c.done(), "STOP", "subprocess", c.node["n"]) for c in kids], key=lambda x: x[0])
        elif k in STRUCT:
            for it in range(self.iterations()):
                for i in range(len(self.node["s"])):
                    c = self.kid(it, i)
                    out.append((c.due(), "START", "subprocess", c.node["n"]))
                    out.append((c.done(), "STOP", "subprocess", c.node["n"]))
        out.append((self.stop(), "STOP", None, None))
        t = self.after()
        for i, (_, _, post) in enumerate(self.plugins()):
            if isinstance(post, tuple):
                out += [(t[i], "WAIT_START", "plugin", "delay"), (t[i + 1], "WAIT_STOP", "plugin", "delay")]
        return out


class Reference:
    def __init__(self, prog, limit=600):
        self.prog = prog
        self.t0 = prog["t0"]
        self.limit = limit
        self.count = 0
        self.ties = 0
        self.ambiguous = 0  # loops ending at the very moment another activity does: either order is fine
        self.paths = {}
        self.nodes = {}
        for i, n in enumerate(prog["acts"]):
            self._index(n, (i,))
        self.tops = [Inst(self, n, None, 0, i) for i, n in enumerate(prog["acts"])]
        for t in self.tops:
            t.done()

    def _index(self, node, path):
        self.paths[node["n"]] = path
        self.nodes[node["n"]] = node
        for i, c in enumerate(node.get("s", [])):
            self._index(c, path + (i,))

    def holds(self, c, since):
        """First moment at or after `since` at which the level satisfies the relation."""
        store, id_, state, level = c
        cap, cur = self.prog["cont"][store]["ids"][id_]
        changes = sorted((h for h in self.prog["hist"] if h[1] == store and h[2] == id_), key=lambda h: h[0])
        test = {"gt": lambda v: v > level, "ge": lambda v: v >= level, "lt": lambda v: v < level,
                "le": lambda v: v <= level, "full": lambda v: v >= cap, "empty": lambda v: v <= 0}[state]
        for h in changes:
            if h[0] <= since:
                cur += h[3]
        if test(cur):
            return since
        for h in changes:
            if h[0] > since:
                cur += h[3]
                if test(cur):
                    return h[0]
        raise Never

    def executions(self):
        """name -> list of Inst in chronological order"""
        out = {n: [] for n in self.paths}

        def walk(inst):
            out[inst.node["n"]].append(inst)
            if inst.node["k"] in STRUCT:
                for it in range(inst.iterations()):
                    for i in range(len(inst.node["s"])):
                        walk(inst.kid(it, i))

        for t in self.tops:
            walk(t)
        return out


# ---------------------------------------------------------------- normalisation of generated programs
def loops_of(prog):
    """name -> tuple of enclosing loop names, name -> tuple of all ancestors"""
    loops, anc = {}, {}

    def walk(n, ls, an):
        loops[n["n"]] = ls
        anc[n["n"]] = an
        inner = ls + ((n["n"],) if n["k"] in ("rep", "while") else ())
        for c in n.get("s", []):
            walk(c, inner, an + (n["n"],))

    for n in prog["acts"]:
        walk(n, (), ())
    return loops, anc


def walk_nodes(prog):
    todo = list(prog["acts"])
    i = 0
    while i < len(todo):
        yield todo[i]
        todo.extend(todo[i].get("s", []))
        i += 1


def _resolve(e, choices, base, conts=()):
    """Replace drawn numbers by names and relative by absolute times; None when there is nothing to refer to."""
    if "raw" in e:
        # at no moment anything else happens
        return {"t": base + e["t"] + 1 / 128, "raw": 1}
    if "t" in e:
        return {"t": base + e["t"]}
    if "c" in e:
        k, state, level = e["c"]
        keys = [(i, id_) for i, s in enumerate(conts) for id_ in sorted(s["ids"])]
        if not keys:
            return None
        i, id_ = keys[k % len(keys)]
        cap = conts[i]["ids"][id_][0]
        return {"c": [i, id_, state, level % (cap + 1) if state in ("gt", "ge", "lt", "le") else None]}
    if "a" in e:
        if isinstance(e["a"], str):
            return dict(e) if e["a"] in choices else None
        if not choices:
            return None
        return {"a": choices[e["a"] % len(choices)], "by": e.get("by", "name")}
    for key in ("and", "or", "list"):
        if key in e:
            sub = [_resolve(x, choices, base, conts) for x in e[key]]
            sub = [x for x in sub if x is not None]
            return {key: sub} if sub or not e[key] else None
    raise KeyError(str(e))


def refs(e):
    if e is None:
        return []
    if "a" in e:
        return [e["a"]]
    return [r for key in ("and", "or", "list") if key in e for x in e[key] for r in refs(x)]


def raw(e):
    """Whether simpy events are part of the expression."""
    return e is not None and ("raw" in e or any(raw(x) for key in ("and", "or", "list") if key in e for x in e[key]))


def normalise(prog, prefix=""):
    """Assign names, resolve references, drop expressions that would make an activity wait for itself."""
    cnt = 0
    for n in walk_nodes(prog):
        n["n"] = f"{prefix}a{cnt}"
        cnt += 1
    loops, anc = loops_of(prog)
    names = list(loops)
    pending = []
    for n in walk_nodes(prog):
        mine = loops[n["n"]]
        ok = [m for m in names if m != n["n"] and loops[m] == mine[: len(loops[m])]
              and m not in anc[n["n"]] and n["n"] not in anc[m]]
        for key in ("st", "c"):
            e = n.get(key)
            if e is None:
                continue
            e = _resolve(e, ok, prog["t0"], prog.get("cont", ()))
            n[key] = e
            if e is not None and (refs(e) or "cont" in prog):
                pending.append((n, key, e))
                n[key] = None if key == "st" else {"t": prog["t0"]}
            elif e is None and key == "c":
                n[key] = {"t": prog["t0"]}
    for n in walk_nodes(prog):
        if n["k"] == "while":
            try:
                Reference(prog)
            except (TooLong, Cycle):
                n["c"] = {"t": prog["t0"]}
    for n, key, e in pending:
        old = n[key]
        n[key] = e
        try:
            Reference(prog)
        except (Cycle, TooLong):
            n[key] = old
    while True:
        try:
            Reference(prog)
            break
        except TooLong:
            for n in walk_nodes(prog):
                if n["k"] == "rep":
                    n["r"] = min(n["r"], 2)
                if n["k"] == "while":
                    n["c"] = {"t": prog["t0"]}
            try:
                Reference(prog)
            except TooLong:
                for n in walk_nodes(prog):
                    if n["k"] == "rep":
                        n["r"] = 1
            break
    return prog


# ---------------------------------------------------------------- strategies
@functools.lru_cache(None)
def quarters(max_value=40):
    return st.one_of(
        st.integers(0, 6), st.integers(0, int(max_value)),
        st.integers(0, int(max_value) * 4).map(lambda k: k / 4),
    )


@functools.lru_cache(None)
def epochs():
    return st.sampled_from([0, 0, 1000, 1_600_000_000, 86_399.5, 3_155_760_000])


@functools.lru_cache(None)
def exprs(depth=2, times=True, conts=False, events=False):
    """Expressions with times relative to the start and numbers for activities (see _resolve); events: also simpy events that occur at given times."""
    times_ = st.integers(-20, 400).map(lambda k: {"t": k / 2})
    if events:
        times_ = st.one_of(times_, st.integers(-20, 200).map(lambda k: {"t": k / 2, "raw": 1}))
    acts_ = st.tuples(st.integers(0, 50), st.sampled_from(["name", "ID"])).map(lambda x: {"a": x[0], "by": x[1]})
    leaf = st.one_of(times_, acts_) if times else acts_
    if conts:
        leaf = st.one_of(leaf, st.tuples(
            st.integers(0, 20), st.sampled_from(["gt", "ge", "lt", "le", "full", "empty"]), st.integers(0, 30),
        ).map(lambda x: {"c": list(x)}))
    e = leaf
    for _ in range(depth):
        subs = st.one_of(st.lists(e, min_size=1, max_size=3), st.lists(e, min_size=1, max_size=3), st.lists(e, min_size=1, max_size=3),
                         st.lists(leaf, min_size=4, max_size=8))
        e = st.one_of(
            leaf,
            subs.map(lambda x: {"and": x}),
            subs.map(lambda x: {"or": x}),
            subs.map(lambda x: {"list": x}),
        )
    return e


PERCENT = st.integers(0, 99)
PLUGINS = {}


IDS = ("default", "sand", "rock")


def draw_containers(draw, prog, busy=False):
    """One or two stores and up to 12 level changes by somebody else (busy: one store, and 10 to 30 changes)."""
    prog["cont"], levels = [], {}
    for i in range(1 if busy else draw(st.integers(1, 2))):
        ids = ["default"] if busy or draw(st.booleans()) else list(IDS[: draw(st.integers(1, 3))])
        prog["cont"].append({"ids": {}})
        for id_ in ids:
            cap = draw(st.integers(1, 3 if busy else 12))
            level = draw(st.integers(0, cap))
            prog["cont"][i]["ids"][id_] = [cap, level]
            levels[i, id_] = level
    keys = sorted(levels)
    hist = []
    times = sorted(draw(st.lists(st.integers(0, 120), min_size=10, max_size=30) if busy else st.lists(st.integers(0, 200), max_size=12)))
    for k, t in enumerate(times):
        i, id_ = draw(st.sampled_from(keys))
        cap = prog["cont"][i]["ids"][id_][0]
        new = draw(st.one_of(st.just(0), st.just(cap), st.integers(0, cap)))
        if new != levels[i, id_]:
            # no two moments coincide modulo a quarter
            hist.append([prog["t0"] + t / 2 + (k + 1) / (256 if busy else 64), i, id_, new - levels[i, id_]])
            levels[i, id_] = new
    prog["hist"] = hist


def reshape(draw, acts, struct_kinds, dur, nl, start):
    """Many parts of one activity, many independent activities, or deeply nested ones."""
    how = draw(st.sampled_from(["broad", "many", "deep", "deep"]))
    nodes = list(walk_nodes({"acts": acts}))
    if how != "deep" or not struct_kinds:
        leaf = st.tuples(dur, st.integers(0, 3), st.one_of(st.none(), st.none(), exprs(0)) if start else st.none())
        new = []
        for i, (d, k, e) in enumerate(draw(st.lists(leaf, min_size=6, max_size=16))):
            x = {"k": "basic", "d": d, "st": e}
            if nl:
                x["al"] = [i % nl] if k % 2 else []
            if how == "many" and k >= 2 and "seq" in struct_kinds:
                x = {"k": "seq", "s": [x, {"k": "basic", "d": 1, "st": None, "al": [0] if nl else []}], "st": None}
            new.append(x)
        outer = [n for n in nodes if "s" in n]
        to = draw(st.sampled_from(outer))["s"] if how == "broad" and outer else acts
        at = draw(st.integers(0, len(to)))
        to[at:at] = new
    else:
        n = draw(st.sampled_from(nodes))
        inner = dict(n)
        al = {"al": [len(nodes) % nl]} if nl else {}
        for kind, r, side, t in draw(st.lists(st.tuples(st.sampled_from(struct_kinds), st.integers(1, 3), st.integers(0, 3), st.integers(0, 60)), min_size=2, max_size=6)):
            parts = [inner]
            if side == 1:
                parts = [{"k": "basic", "d": 1, "st": None, **al}] + parts
            elif side == 2:
                parts.append({"k": "basic", "d": 2, "st": None, **al})
            inner = {"k": kind, "s": parts, "st": None}
            if kind == "rep":
                inner["r"] = r
            if kind == "while":
                inner["c"] = {"t": t / 2}
        n.clear()
        n.update(inner)


@st.composite
def programs(draw, kinds=("basic", "seq", "par", "rep"), depth=3, top=3, width=4, start=0.3, plugins=0.0, delay=0.0,
             logs=2, explicit_ids=False, root=None, max_rep=4, cond_depth=1, epoch=None, dur=None, conts=False, same=0.0, stretch=0.1, shape=0.06, events=None, raw=False):
    """conts: False, True or "busy"; shape: how often the program gets an unusual shape (see reshape); events: the start events;
    raw: whether expressions also have simpy events"""
    t0 = draw(epoch if epoch is not None else epochs())
    dur = dur if dur is not None else quarters()
    nl = draw(st.integers(0, logs))
    leaf_kinds = [k for k in kinds if k in ("basic", "move")]
    struct_kinds = [k for k in kinds if k in STRUCT]

    def maybe(p):
        return draw(PERCENT) >= 100 - 100 * p if 0 < p < 1 else p >= 1

    if dur not in PLUGINS:
        PLUGINS[dur] = st.lists(st.tuples(st.integers(-2, 6), dur, dur).map(list), min_size=1, max_size=4)

    def node(level, kind=None):
        if kind is None:
            if level <= 0 or not struct_kinds:
                kind = draw(st.sampled_from(leaf_kinds))
            else:
                kind = draw(st.sampled_from(leaf_kinds + struct_kinds + struct_kinds))
        n = {"k": kind}
        if kind in ("basic", "move"):
            n["d"] = draw(dur)
            if kind == "basic" and nl:
                n["al"] = sorted(draw(st.sets(st.integers(0, nl - 1), max_size=nl)))
        else:
            n["s"] = [node(level - 1) for _ in range(draw(st.integers(1, width)))]
            if kind == "rep":
                n["r"] = draw(st.integers(1, max_rep))
            if kind == "while":
                n["c"] = draw(exprs(cond_depth, True, bool(conts), raw))
        n["st"] = draw(exprs(2, True, bool(conts), raw) if events is None else events) if maybe(start) else None
        if maybe(plugins):
            n["pl"] = draw(PLUGINS[dur])
        if maybe(delay):
            n["dl"] = draw(st.one_of(st.none(), st.sampled_from([0, 12.5, 25, 50, 100, 200])))
        if explicit_ids and maybe(0.5):
            n["id"] = "ID-%d" % draw(st.integers(0, 10**9))
        return n

    acts = []
    for i in range(draw(st.integers(1, top))):
        acts.append(node(depth, root if (root and i == 0) else None))
    if maybe(shape):
        reshape(draw, acts, struct_kinds, dur, nl, start)
    prog = {"t0": t0, "logs": nl, "acts": acts}
    ids = [n["id"] for n in walk_nodes(prog) if "id" in n]
    if len(ids) != len(set(ids)):
        seen = set()
        for n in walk_nodes(prog):
            if n.get("id") in seen:
                del n["id"]
            elif "id" in n:
                seen.add(n["id"])
    if conts:
        draw_containers(draw, prog, conts == "busy")
    normalise(prog)
    prog["order"] = draw(st.permutations(list(range(len(acts)))))
    if maybe(same):
        # activities of different registries may have the same name, and objects the name of an activity
        nodes = list(walk_nodes(prog))
        trees = [list(walk_nodes({"acts": [top]})) for top in acts]
        far = lambda e, tree: not set(refs(e)) <= {n["n"] for n in tree}  # noqa: E731
        cut = draw(st.booleans())
        if cut:
            # nothing refers to another tree
            for tree in trees:
                for n in tree:
                    if far(n.get("st"), tree):
                        n["st"] = None
                    if far(n.get("c"), tree):
                        n["c"] = {"t": t0 + 8.0}
        if not any(far(e, tree) for tree in trees for n in tree for e in (n.get("st"), n.get("c"))):
            prog["separate"] = True
            used = {r for n in nodes for e in (n.get("st"), n.get("c")) for r in refs(e)}
            for tree in trees:
                for j, n in enumerate(tree):
                    if n["n"] not in used and maybe(0.6):
                        n["nm"] = "twin %d" % j
        pool = list(dict.fromkeys([n.get("nm", n["n"]) for n in nodes]))
        prog["lognames"] = draw(st.permutations(pool))[:nl] if len(pool) >= nl and draw(st.booleans()) else None
    if maybe(stretch):
        prog = map_times(prog, t0, draw(st.sampled_from([64, 3600, 3600, 43200, 2.0**17])))
    return prog


def map_times(p, t1, f):
    """The program started at t1 with all durations multiplied by f."""
    out = copy.deepcopy(p)
    t0 = p["t0"]

    def expr(e):
        if e is None:
            return None
        if "t" in e:
            return {**e, "t": t1 + (e["t"] - t0) * f}
        return {k: ([expr(x) for x in v] if k in ("and", "or", "list") else v) for k, v in e.items()}

    for n in walk_nodes(out):
        if "d" in n:
            n["d"] = n["d"] * f
        n["st"] = expr(n.get("st"))
        if n.get("c"):
            n["c"] = expr(n["c"])
        if "pl" in n:
            n["pl"] = [[a, b * f, c * f] for a, b, c in n["pl"]]
    for h in out.get("hist", ()):
        h[0] = t1 + (h[0] - t0) * f
    out["t0"] = t1
    return out


# ---------------------------------------------------------------- real code
class Built:
    pass


def _history(b):
    for t, i, id_, change in b.prog["hist"]:
        yield b.env.timeout(t - b.env.now)
        c = b.stores[i].container
        yield c.put(change, id_) if change > 0 else c.get(-change, id_)


def _occur(event, t):
    """A simpy event of the user that occurs at t (at once when that moment has passed)."""
    yield event.env.timeout(max(t - event.env.now, 0))
    event.succeed()


def rename(prog, name):
    """The program with other names for its activities (name: old -> new)."""
    out = copy.deepcopy(prog)

    def expr(e):
        if e is None:
            return None
        if "a" in e:
            return {**e, "a": name(e["a"])}
        return {k: ([expr(x) for x in v] if k in ("and", "or", "list") else v) for k, v in e.items()}

    for n in walk_nodes(out):
        n["n"] = name(n["n"])
        n["st"] = expr(n.get("st"))
        if n.get("c"):
            n["c"] = expr(n["c"])
    return out


def called(prefix, name):
    return prefix(name) if callable(prefix) else prefix + name


def build(prog, env=None, register=True, order=None, registry=None, others=None, prefix=""):
    """registry: one to share with a model built before; others: activities {"x": name} refers to; prefix: of names of objects (or a function that gives their names)"""
    b = Built()
    b.prog = prog
    b.env = env if env is not None else sut.simpy.Environment(initial_time=prog["t0"])
    b.registry = registry if registry is not None else {}
    names = prog.get("lognames") or [called(prefix, f"log{i}") for i in range(prog["logs"])]
    b.logs = [sut.Logger(env=b.env, name=name) for name in names]
    b.stores = []
    for i, c in enumerate(prog.get("cont", ())):
        kw = dict(env=b.env, name=called(prefix, f"store{i}"), geometry=sut.point(4, 52))
        if list(c["ids"]) == ["default"]:
            cap, level = c["ids"]["default"]
            b.stores.append(sut.Site(capacity=cap, level=level, **kw))
        else:
            b.stores.append(sut.MultiSite(initials=sut.pooled([{"id": k, "capacity": v[0], "level": v[1]} for k, v in c["ids"].items()]), **kw))
    if prog.get("hist"):
        b.env.process(_history(b))
    b.acts = {}
    b.movers = {}
    b.calls = []

    def expr(e):
        if "raw" in e:
            event = b.env.event()
            b.env.process(_occur(event, e["t"]))
            return event
        if "t" in e:
            return sut.pooled({"type": "time", "start_time": e["t"]})
        if "c" in e:
            i, id_, state, level = e["c"]
            out = {"type": "container", "concept": b.stores[i], "state": state}
            if level is not None:
                out["level"] = level
            if id_ != "default" or prog["cont"][i].get("named"):
                out["id_"] = id_
            return out
        if "x" in e:
            a = others[e["x"]]
            return {"type": "activity", "state": "done", **({"ID": a.id} if e["by"] == "ID" else {"name": a.name})}
        if "a" in e:
            # (an id and a name are accepted under either key)
            key = "ID" if e.get("by") in ("ID", "ID-by-name") else "name"
            ref = node_ids.get(e["a"], e["a"]) if e.get("by") in ("ID", "name-by-ID") else e["a"]
            return {"type": "activity", "state": "done", key: ref}
        if "list" in e:
            return [expr(x) for x in e["list"]]
        for key in ("and", "or"):
            if key in e:
                return {key: [expr(x) for x in e[key]]}
        raise KeyError(str(e))

    # activities referred to by id need that id up front
    node_ids = {}
    wanted = set()
    for n in walk_nodes(prog):
        for e in (n.get("st"), n.get("c")):
            todo = [e] if e else []
            while todo:
                x = todo.pop()
                if "a" in x and x.get("by") in ("ID", "name-by-ID"):
                    wanted.add(x["a"])
                todo += [y for key in ("and", "or", "list") if key in x for y in x[key]]
    for n in walk_nodes(prog):
        if "id" in n:
            node_ids[n["n"]] = n["id"]
        elif n["n"] in wanted:
            node_ids[n["n"]] = "fixed-" + n["n"]

    def make(n, registry):
        kw = dict(env=b.env, registry=registry, name=n.get("nm", n["n"]))
        if n["n"] in node_ids:
            kw["id"] = node_ids[n["n"]]
        if n.get("st") is not None:
            kw["start_event"] = expr(n["st"])
        delay = "dl" in n
        if delay and n["dl"] is not None:
            kw["delay_percentage"] = n["dl"]
        cls = sut.activity_class(n["k"], delay=delay)
        if n["k"] == "basic":
            a = cls(duration=n["d"], additional_logs=[b.logs[i] for i in n.get("al", [])], **kw)
        elif n["k"] == "move":
            mover = sut.Mover(env=b.env, name=called(prefix, "mover " + n["n"]), geometry=sut.point(4, 52), v=1)
            dest = sut.Site(env=b.env, name=called(prefix, "dest " + n["n"]), geometry=sut.point(4.1, 52.1), capacity=10)
            b.movers[n["n"]] = (mover, dest)
            a = cls(mover=mover, destination=dest, duration=n["d"], **kw)
        else:
            subs = [make(c, registry) for c in n["s"]]
            if n["k"] == "rep":
                a = cls(sub_processes=subs, repetitions=n["r"], **kw)
            elif n["k"] == "while":
                a = cls(sub_processes=subs, condition_event=expr(n["c"]), **kw)
            else:
                a = cls(sub_processes=subs, **kw)
        for i, (prio, pre, post) in enumerate(n.get("pl", [])):
            a.register_plugin(sut.TimedPlugin((n["n"], i), pre, post, b.calls), priority=prio)
        b.acts[n["n"]] = a
        return a

    b.tops = [make(n, {} if prog.get("separate") else b.registry) for n in prog["acts"]]
    b.by_id = {a.id: name for name, a in b.acts.items()}
    if register:
        tops = [b.tops[i] for i in (order if order is not None else prog.get("order", range(len(b.tops))))]
        for group in [[a] for a in tops] if prog.get("separate") else [tops]:
            sut.model.register_processes(group)
    return b


def q(t):
    """The moment as a log records it (microseconds)."""
    return sut.secs(datetime.datetime.fromtimestamp(t, datetime.timezone.utc).replace(tzinfo=None))


def check_own_log(b, ref, name, only=None):
    """The activity's own log is exactly what its executions imply."""
    inst = ref_execs(ref)[name]
    act = b.acts[name]
    want = []
    for i in inst:
        want += [(q(t), s, lt, lr) for t, s, lt, lr in i.log()]
    got = []
    for t, s, aid, lt, lr in sut.entries(act):
        expect(aid == act.id, "log of activity %s contains an entry of another activity id %s", name, aid)
        if lt == "subprocess":
            expect(lr in b.by_id, "log of %s refers to an unknown activity %s", name, lr)
            lr = b.by_id[lr]
        got.append((t, s, lt, lr))
    kind = inst[0].node["k"] if inst else ref.nodes[name]["k"]

    def canon(log):
        if kind != "par":
            return log
        # parts finishing at the same moment may be logged in any order
        out, run = [], []
        for e in log:
            if e[1] == "STOP" and e[2] == "subprocess":
                if run and run[-1][0] != e[0]:
                    out += sorted(run)
                    run = []
                run.append(e)
            else:
                out += sorted(run)
                run = []
                out.append(e)
        return out + sorted(run)

    want, got = canon(want), canon(got)
    if want != got:
        i = next((j for j, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
        raise Violation(
            f"log of {kind} activity {name} differs at entry {i}: expected {want[i:i + 3]} got {got[i:i + 3]} "
            f"(expected {len(want)} entries, got {len(got)})"
        )
    return inst


def ref_execs(ref):
    if not hasattr(ref, "_execs"):
        ref._execs = ref.executions()
    return ref._execs


def check_additional_logs(b, ref):
    want = [[] for _ in b.logs]
    for name, insts in ref_execs(ref).items():
        node = ref.nodes[name]
        if node["k"] != "basic":
            continue
        for inst in insts:
            rows = [r for r in inst.log() if r[2] is None]
            for li in node.get("al", []):
                want[li] += [(q(t), s, name, "additional log", name) for t, s, _, _ in rows]
    for li, log in enumerate(b.logs):
        got = []
        for t, s, aid, lt, lr in sut.entries(log):
            got.append((t, s, b.by_id.get(aid, aid), lt, b.by_id.get(lr, lr)))
        for name in {x[2] for x in got} | {x[2] for x in want[li]}:
            w = [x for x in want[li] if x[2] == name]
            g = [x for x in got if x[2] == name]
            if w != g:
                i = next((j for j, (x, y) in enumerate(zip(w, g)) if x != y), min(len(w), len(g)))
                raise Violation(f"additional log {li}, entries of {name} differ at {i}: expected {w[i:i+3]} got {g[i:i+3]}")


def run(prog, **kw):
    b = build(prog, **kw)
    sut.run_all(b.env)
    return b


def reference(prog):
    ref = Reference(prog)
    if ref.ambiguous:
        raise Skip("a loop ends at the very moment another activity does")
    return ref


def run_and_compare(prog, names=None):
    ref = reference(prog)
    b = run(prog)
    for name in names if names is not None else ref.paths:
        check_own_log(b, ref, name)
    return b, ref
