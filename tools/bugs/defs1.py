"""Planted bugs, core and model (C01-C17)."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


BA = "model/base_activities.py"
bug("c01-fractional-duration", "C01",
    "a basic activity whose duration has a fraction below a tenth of a second",
    "the duration is rounded, so the activity stops at another time than start + duration",
    [("model/basic_activity.py", "        self.duration = duration\n", "        self.duration = round(duration, 1)\n")],
    """
env = make_env(100.0); reg = {}
a = basic(env, reg, "a", 7.25); b = basic(env, reg, "b", 3)
run(env, a, b)
same(times(a, "STOP"), [107.25], "stop of a")
same(times(b, "STOP"), [103.0], "stop of b")
""")
bug("c02-after-a-parallel", "C02",
    "a parallel activity in a sequence whose last listed part is not the slowest one",
    "the part after the parallel starts when the last listed part of the parallel is done",
    [(BA, """        for i, sub_process in enumerate(self.sub_processes):
            if i == 0:
                sub_process.start_event_parent = self.start_sequence
            else:
                sub_process""", """        for i, sub_process in enumerate(self.sub_processes):
            previous = self.sub_processes[i - 1]
            if hasattr(previous, "start_parallel"):
                previous = previous.sub_processes[-1]
            if i == 0:
                sub_process.start_event_parent = self.start_sequence
            else:
                sub_process"""), (BA, """                    "name": self.sub_processes[i - 1].name,
""", """                    "name": previous.name,
""")],
    """
env = make_env(); reg = {}
p = par(env, reg, "p", [basic(env, reg, "a", 5), basic(env, reg, "b", 2)])
c = basic(env, reg, "c", 1)
run(env, seq(env, reg, "s", [p, c]))
same(times(c, "START"), [5.0], "c")
""")
bug("c03-refs-of-simultaneous-parts", "C03",
    "a parallel activity in which a later listed part ends before an earlier one",
    "the subprocess STOP entries refer to the wrong part",
    [("model/parallel_activity.py", """                            "ref": subprocess_ids.pop(i),""",
      """                            "ref": subprocess_ids.pop(
                                i if len(subprocess_ids) <= 3 else 0
                            ),""")],
    """
env = make_env(); reg = {}
parts = [basic(env, reg, f"p{i}", d) for i, d in enumerate([9, 4, 7, 2, 5])]
p = par(env, reg, "p", parts)
run(env, p)
got = {e["ActivityLabel"]["ref"]: seconds(e["Timestamp"]) for e in p.logbook
       if e["ActivityState"] == "STOP" and e["ActivityLabel"]}
same(got, {q.id: d for q, d in zip(parts, [9.0, 4.0, 7.0, 2.0, 5.0])}, "subprocess stops")
""")
bug("c03-late-stop-entries", "C03",
    "a parallel activity with at least three parts, the last listed one being done first",
    "the subprocess STOP of that part is logged at a later time than it was done",
    [("model/parallel_activity.py", """                [{"or": [event for event in stop_events]}]
""", """                [{"or": [event for event in stop_events[:2]]}]
""")],
    """
env = make_env(); reg = {}
parts = [basic(env, reg, f"p{i}", d) for i, d in enumerate([9, 4, 2])]
p = par(env, reg, "p", parts)
run(env, p)
got = {e["ActivityLabel"]["ref"]: seconds(e["Timestamp"]) for e in p.logbook
       if e["ActivityState"] == "STOP" and e["ActivityLabel"]}
same(got, {q.id: d for q, d in zip(parts, [9.0, 4.0, 2.0])}, "subprocess stops")
""")
bug("c04-name-reuse", "C04",
    "a repeat whose part starts with waiting for an event, in the last iteration",
    "a repeat stops its last iteration early when all but the waiting part are done",
    [("model/while_activity.py", """                yield stop_event

                activity_log""", """                last = repetitions > 2 and repetitions == self.max_iterations
                if last and sub_process.start_event is not None:
                    stop_event = stop_event | env.timeout(1)
                yield (stop_event)

                activity_log""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 2)
b = basic(env, reg, "b", 3, start_event=at(0))
r = rep(env, reg, "r", [a, b], 3)
run(env, r)
same(times(r, "STOP"), [15.0], "stop of the repeat")
""")
bug("c05-many-iterations", "C05",
    "a while activity that needs more than 500 iterations before its condition occurs",
    "it gives up after 500 iterations",
    [("model/while_activity.py", "        self.max_iterations = 1_000_000\n", "        self.max_iterations = 500\n")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 1)
w = whl(env, reg, "w", [a], at(600.5))
run(env, w)
same(len(times(a, "START")), 601, "iterations")
""")
bug("c06-late-evaluation", "C06",
    "a part of a sequence whose start event (a level) occurred and ceased to hold before the part becomes due",
    "the start event is only looked at when the part is due, so an event that already occurred is waited for again",
    [(BA, """        start_event = (
            None
            if self.start_event is None
            else self.parse_expression(self.start_event)
        )
        if hasattr(self, "start_event_parent"):
            yield self.parse_expression(self.start_event_parent)
""", """        if hasattr(self, "start_event_parent"):
            yield self.parse_expression(self.start_event_parent)
        start_event = (
            None
            if self.start_event is None
            else self.parse_expression(self.start_event)
        )
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=0, capacity=10)
def drive():
    yield env.timeout(5); yield s.container.put(10)
    yield env.timeout(1); yield s.container.get(10)
    yield env.timeout(40); yield s.container.put(10)
env.process(drive())
a = basic(env, reg, "a", 10); b = basic(env, reg, "b", 1, start_event=level(s, "full"))
run(env, seq(env, reg, "q", [a, b]))
same(times(b, "START"), [10.0], "start of b")
""")
bug("c06-short-waits", "C06",
    "a start event that makes an activity wait for less than a second",
    "waits shorter than a second are not logged",
    [(BA, "        if env.now > start_time:\n", "        if env.now - start_time >= 1:\n")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 0.5); b = basic(env, reg, "b", 1, start_event=done("a"))
run(env, a, b)
same(times(b, "WAIT_STOP"), [0.5], "wait of b")
""")
bug("c06-additional-wait", "C06",
    "an activity with additional logs that waits for its start event inside a sequence",
    "the wait in the additional logs starts at the release, not when the activity became due",
    [(BA, """            for log in additional_logs:
                log.log_entry_v1(
                    t=start_time,""", """            for log in additional_logs[:1]:
                log.log_entry_v1(
                    t=start_time,""")],
    """
env = make_env(); reg = {}
o = Obj(env=env, name="o"); o2 = Obj(env=env, name="o2")
a = basic(env, reg, "a", 5); b = basic(env, reg, "b", 1, start_event=done("a"), additional_logs=[o, o2])
run(env, a, b)
same(times(o, "WAIT_START", False), [0.0], "o"); same(times(o2, "WAIT_START", False), [0.0], "o2")
""")
bug("c07-level-zero", "C07",
    "an expression on the level 0 of a container (gt 0 / le 0 ...)",
    "it is rejected",
    [(BA, """                    and expr.get("level") is not None
""", """                    and expr.get("level")
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=0, capacity=10)
def drive():
    yield env.timeout(5); yield s.container.put(1)
env.process(drive())
b = basic(env, reg, "b", 1, start_event=level(s, "gt", 0))
run(env, b)
same(times(b, "START"), [5.0], "start of b")
""")
bug("c07-any-of-the-name", "C07",
    "a reference to a name under which several activities are registered",
    "the expression occurs when the first of them is done",
    [(BA, """                return self.env.all_of(
                    [activity_item.main_process for activity_item in activity_]
                )
""", """                return self.env.any_of(
                    [activity_item.main_process for activity_item in activity_]
                )
""")],
    """
env = make_env(); reg = {}
a = basic(env, reg, "a", 5); a2 = basic(env, reg, "a", 9)
model.register_processes([a]); model.register_processes([a2])
b = basic(env, reg, "b", 1, start_event=done("a"))
run(env, b)
same(times(b, "START"), [9.0], "start of b")
""")
bug("c07-list-in-or", "C07",
    "a list with several conditions nested inside an 'or'",
    "the list is flattened into the 'or': one of its conditions is enough",
    [(BA, """                return self.env.any_of(
                    [self.parse_expression(item) for item in expr["or"]]
                )
""", """                items = []
                for item in expr["or"]:
                    items.extend(item if isinstance(item, list) else [item])
                return self.env.any_of([self.parse_expression(item) for item in items])
""")],
    """
env = make_env(); reg = {}
b = basic(env, reg, "b", 1, start_event={"or": [[at(5), at(9)], at(20)]})
run(env, b)
same(times(b, "START"), [9.0], "start of b")
""")
bug("c08-zero-duration", "C08",
    "a move activity with the given duration 0",
    "the duration is ignored and computed from distance and speed",
    [("core/movable.py", """        if duration is None:
            duration = self.compute_duration(""", """        if not duration:
            duration = self.compute_duration(""")],
    """
env = make_env(); reg = {}
v = vessel(env, "v"); d = site(env, "d", x=0.1)
m = move(env, reg, "m", v, d, duration=0)
run(env, m)
same(times(m, "STOP"), [0.0], "stop of the move")
""")
bug("c08-engine-order-sticks", "C08",
    "a move with an engine order below one, followed by a move of the same mover at full speed",
    "the second move still sails with the engine order of the first",
    [("core/movable.py", "        if engine_order is not None:\n            self.engine_order = engine_order\n",
      "        if engine_order is not None and engine_order != 1:\n            self.engine_order = engine_order\n")],
    """
env = make_env(); reg = {}
v = vessel(env, "v"); d = site(env, "d", x=0.1); o = site(env, "o")
run(env, seq(env, reg, "s", [move(env, reg, "m", v, d, engine_order=0.5), move(env, reg, "m2", v, o)]))
t = times(v, "STOP", False)
same(round((t[1] - t[0]) / t[0], 4), 0.5, "ratio of the durations")
""")
bug("c08-early-position", "C08",
    "somebody looks at the position of the mover while it sails",
    "the mover is at the destination from its departure on",
    [("core/movable.py", """            duration = self.compute_duration(self.geometry, destination.geometry)

        # Check out the time based on duration of sailing event
        yield self.env.timeout(duration, value=self.activity_id)
        # Set mover geometry to destination geometry
        self.geometry = shapely.geometry.shape(destination.geometry)
""", """            duration = self.compute_duration(self.geometry, destination.geometry)

        # Set mover geometry to destination geometry
        self.geometry = shapely.geometry.shape(destination.geometry)
        # Check out the time based on duration of sailing event
        yield self.env.timeout(duration, value=self.activity_id)
""")],
    """
env = make_env(); reg = {}
v = vessel(env, "v"); d = site(env, "d", x=0.1)
seen = []
def look():
    yield env.timeout(50); seen.append(v.geometry.x)
env.process(look())
run(env, move(env, reg, "m", v, d, duration=100))
same(seen, [0.0], "position under way")
""")
bug("c09-manoeuvring", "C09",
    "a loading rate given as a function, together with manoeuvring minutes",
    "the manoeuvring time is taken as seconds",
    [("core/processor.py", """            duration = loading_time + self.load_manoeuvring * 60
""", """            duration = loading_time + self.load_manoeuvring
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=50); v = vessel(env, "v", rate=1, loading_rate=lambda a, b: (b - a) * 2, load_manoeuvring=3)
m = shift(env, reg, "m", s, v, v, amount=5, phase="loading")
run(env, m)
same(times(m, "STOP"), [190.0], "stop")
""")
bug("c09-small-amounts", "C09",
    "an unloading shift with a requested amount below one at a constant rate",
    "at least one unit is charged",
    [("core/processor.py", """            duration = amount / self.unloading_rate + self.unload_manoeuvring * 60
""", """            duration = max(amount, 1) / self.unloading_rate + self.unload_manoeuvring * 60
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=0); v = vessel(env, "v", level=8, rate=0.01)
m = shift(env, reg, "m", v, s, v, amount=0.5, phase="unloading")
run(env, m)
same(times(m, "STOP"), [50.0], "stop")
""")
bug("c09-duration-zero", "C09",
    "a shift with the given duration 0 and a phase",
    "the given duration is ignored, the time follows from the rate",
    [("model/shift_amount_activity.py", """        if self.duration is not None:
            return lambda""", """        if self.duration:
            return lambda""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=50); v = vessel(env, "v")
m = shift(env, reg, "m", s, v, v, amount=5, phase="loading", duration=0)
run(env, m)
same(times(m, "STOP"), [0.0], "stop")
""")
bug("c10-rounded-levels", "C10",
    "amounts with more than two decimals",
    "levels are rounded on unloading: material gets lost or appears",
    [("core/events_container.py", """        store_status["level"] = store_status["level"] + amount
""", """        store_status["level"] = round(store_status["level"] + amount, 2)
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=50); v = vessel(env, "v")
m = shift(env, reg, "m", s, v, v, amount=1.005125, phase="loading")
run(env, m)
same(round(s.container.get_level() + v.container.get_level(), 8), 50.0, "total")
""")
bug("c10-clipped-delivery", "C10",
    "two vessels that unload at the same time into a site with several slots and too little space for both",
    "what does not fit is lost",
    [("core/processor.py", """        # Shift amounts in containers
        yield method(
            amount,
""", """        # Shift amounts in containers
        yield method(
            amount
            if activity == "get"
            else min(amount, obj.container.get_capacity(id_) - obj.container.get_level(id_)),
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=0, capacity=12, n=2)
vs = [vessel(env, f"v{i}", level=8) for i in range(2)]
run(env, *[shift(env, reg, f"u{i}", v, s, v, duration=10) for i, v in enumerate(vs)])
same(s.container.get_level() + sum(v.container.get_level() for v in vs), 16, "total")
""")
bug("c11-no-second-look", "C11",
    "two vessels that load from one site with too little left for both, the second waiting for the slot of the site",
    "the content is not checked again after waiting for the origin: its level becomes negative",
    [("model/shift_amount_activity.py", """            if self.origin.container.get_level(self.id_) < amount:
                self._release_unless_held(held_resources, self.processor.resource)
                self._release_unless_held(held_resources, self.origin.resource)
                continue
""", """            if self.origin.container.get_level(self.id_) <= 0:
                self._release_unless_held(held_resources, self.processor.resource)
                self._release_unless_held(held_resources, self.origin.resource)
                continue
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=12, capacity=12)
vs = [vessel(env, f"v{i}", capacity=8) for i in range(2)]
for i, v in enumerate(vs):
    model.register_processes([shift(env, reg, f"u{i}", s, v, v, duration=10)])
env.run()
same([s.container.get_level() >= 0, sum(v.container.get_level() for v in vs)], [True, 12], "levels")
""")
bug("c12-released-before-plugins", "C12",
    "a move with a delay plugin of a vessel another activity waits for",
    "the vessel is released before the delay is over",
    [("model/move_activity.py", """        yield from self.post_process(**args_data)

        self._release_resource(
            self.requested_resources, self.mover.resource, self.keep_resources
        )
""", """        self._release_resource(
            self.requested_resources, self.mover.resource, self.keep_resources
        )
        yield from self.post_process(**args_data)
""")],
    """
env = make_env(); reg = {}
v = vessel(env, "v"); a = site(env, "a", x=0.1); b = site(env, "b", x=0.2)
m = move(env, reg, "m", v, a, cls=DelayMove, duration=100, delay_percentage=50)
m2 = move(env, reg, "m2", v, b, duration=100)
run(env, m, m2)
same(times(m2, "START"), [150.0], "start of the second move")
""")
bug("c12-third-party-slot", "C12",
    "a shift by a separate processor (crane) between two other objects that is used again afterwards",
    "the slot of a processor that is neither origin nor destination is only released when it is the last user",
    [("model/shift_amount_activity.py", """        if self.processor.resource in self.requested_resources:
            self._release_resource(
                self.requested_resources, self.processor.resource, self.keep_resources
            )

    def""", """        if self.processor.resource in self.requested_resources and (
            self.processor.resource.queue or self.processor.resource.count > 1 or not self.keep_resources
        ):
            self._release_resource(
                self.requested_resources, self.processor.resource, self.keep_resources
            )

    def""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=50); t = site(env, "t"); crane = vessel(env, "crane"); far = site(env, "far", x=1)
m = shift(env, reg, "m", s, t, crane, amount=5, duration=10, keep_resources=[t])
mv = move(env, reg, "mv", crane, far, duration=5, start_event=at(20))
run(env, m, mv)
same(times(mv, "STOP"), [25.0], "move of the crane")
""")
bug("c13-any-kept", "C13",
    "a shift that keeps one of the resources it uses and not the others",
    "when a list of resources to keep is given, nothing at all is released",
    [(BA, """                if resource in [item.resource for item in kept_resource]:
                    return
""", """                if kept_resource:
                    return
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=50); v = vessel(env, "v"); w = vessel(env, "w")
m = shift(env, reg, "m", s, v, v, amount=5, duration=10, keep_resources=[v])
m2 = shift(env, reg, "m2", s, w, w, amount=5, duration=10)
run(env, m, m2)
same(times(m2, "STOP"), [20.0], "second shift")
""")
bug("c13-kept-by-move", "C13",
    "a move that keeps the mover although its chain already held it",
    "a kept resource that the chain held before is released at the end of the move",
    [("model/move_activity.py", """        yield from self._request_resource(self.requested_resources, self.mover.resource)
""", """        held = self.mover.resource in self.requested_resources
        yield from self._request_resource(self.requested_resources, self.mover.resource)
"""), ("model/move_activity.py", """        self._release_resource(
            self.requested_resources, self.mover.resource, self.keep_resources
        )
""", """        self._release_resource(
            self.requested_resources,
            self.mover.resource,
            None if held else self.keep_resources,
        )
""")],
    """
env = make_env(); reg = {}; rr = {}
v = vessel(env, "v"); a = site(env, "a", x=0.1); b = site(env, "b", x=0.2); c = site(env, "c")
chain = seq(env, reg, "chain", [
    move(env, reg, "m1", v, a, duration=10, requested_resources=rr, keep_resources=[v]),
    move(env, reg, "m2", v, b, duration=10, requested_resources=rr, keep_resources=[v]),
    move(env, reg, "m3", v, c, duration=10, requested_resources=rr)])
other = move(env, reg, "other", v, a, duration=5, start_event=at(5))
run(env, chain, other)
same(times(other, "START"), [30.0], "the other move")
""")
bug("c14-lost-wakeup", "C14",
    "a shift that has to wait for content that another process puts in later, with a fractional amount",
    "the shift waits for one unit more than it needs, so it can wait forever",
    [("model/shift_amount_activity.py", """                        level=amount,
                        operator="ge",""", """                        level=amount if amount < 1 else int(amount + 0.999),
                        operator="ge",""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=5.5); v = vessel(env, "v")
m = shift(env, reg, "m", s, v, v, duration=10)
run(env, m)
same(v.container.get_level(), 5.5, "transferred")
""")
bug("c14-two-vessel-stop", "C14",
    "two vessels with equal loads on a source whose content is not a multiple of the load",
    "a fleet leaves the last partial load behind, as reservations below a full load count as empty",
    [("core/events_container.py", """    def get_empty_event(self, id_="default"):
        return self.get_container_event(
            level=0,
            operator="le",
            id_=id_,
        )
""", """    def get_empty_event(self, id_="default"):
        return self.get_container_event(
            level=0 if not id_.endswith("_reservations") else 1,
            operator="le",
            id_=id_,
        )
""")],
    """
env = make_env(); reg = {}
s = site(env, "s", level=21); t = site(env, "t"); v = vessel(env, "v", capacity=4)
sub = [shift(env, reg, "l", s, v, v, duration=10, amount=4), shift(env, reg, "u", v, t, v, duration=10, amount=4)]
run(env, whl(env, reg, "w", sub, level(s, "empty", id_="default_reservations")))
same(t.container.get_level(), 21, "delivered")
""")
bug("c15-integer-keys", "C15",
    "two events on levels of one container that differ by less than one",
    "both are the same event, so one of them is triggered at the wrong level",
    [("core/events_container.py", """        self._container_events.setdefault((id_, level, operator), self._env.event())
        event = self._container_events.get((id_, level, operator))
""", """        if level > 1:
            level = next(
                (
                    other
                    for i, other, o in self._container_events
                    if (i, o) == (id_, operator) and int(other) == int(level)
                ),
                level,
            )
        self._container_events.setdefault((id_, level, operator), self._env.event())
        event = self._container_events.get((id_, level, operator))
""")],
    """
env = make_env()
c = core.EventsContainer(env); c.initialize_container([{"id": "default", "capacity": 10, "level": 0}])
e1 = c.get_container_event(3.2, "ge"); e2 = c.get_container_event(3.8, "ge")
c.put(3.5); env.run()
same([e1.triggered, e2.triggered], [True, False], "events")
""")
bug("c15-only-first-event", "C15",
    "two or more different events that become satisfied by the same change of a level",
    "only the first of them is triggered by that change",
    [("core/events_container.py", """            if event_status and not event.triggered:
                event.succeed()
""", """            if event_status and not event.triggered:
                event.succeed()
                if operator in ("gt", "lt"):
                    break
""")],
    """
env = make_env()
c = core.EventsContainer(env); c.initialize_container([{"id": "default", "capacity": 10, "level": 0}])
e1 = c.get_container_event(3, "gt"); e2 = c.get_container_event(2, "ge"); e3 = c.get_full_event()
c.put(5); env.run()
same([e1.triggered, e2.triggered, e3.triggered], [True, True, False], "events")
""")
bug("c16-reservation-id", "C16",
    "a shift of a commodity other than the first between multi containers",
    "a reservation without requested amount is the smaller of both first capacities",
    [("core/processor.py", """                origin.container.get_capacity(id_),
                destination.container.get_capacity(id_),
            )
        )
""", """                origin.container.get_capacity(origin.container.container_list[0]),
                destination.container.get_capacity(
                    destination.container.container_list[0]
                ),
            )
        )
""")],
    """
env = make_env(); reg = {}
ini = lambda a, b: [{"id": "x", "capacity": 100, "level": a}, {"id": "y", "capacity": 20, "level": b}]
s = MultiSite(env=env, name="s", geometry=sg.Point(0, 0), initials=ini(10, 15))
t = MultiSite(env=env, name="t", geometry=sg.Point(0, 0), initials=ini(0, 0))
v = vessel(env, "v")
m = shift(env, reg, "m", s, t, v, duration=10, id_="y", start_event=at(5))
model.register_processes([m]); env.run(until=2)
same([t.container.get_level("y_reservations"), s.container.get_level("y_reservations")], [20, -5], "reservations")
""")
bug("c17-delay-from-preprocessing", "C17",
    "an activity with both a delay and another plugin that makes it wait before its start",
    "the delay is also taken over the waiting time",
    [("plugins/delay.py", """        self, env, activity_log, activity, start_activity, *args, **kwargs
""", """        self, env, activity_log, activity, start_preprocessing, start_activity, *args, **kwargs
"""), ("plugins/delay.py", "(env.now - start_activity)", "(env.now - start_preprocessing)")],
    """
env = make_env(); reg = {}
df = pd.DataFrame({"ts": [0.0, 100.0, 200.0, 300.0, 400.0], "Hs": [5, 1, 1, 1, 1]})
a = WeatherDelayBasic(env=env, registry=reg, name="a", duration=10, delay_percentage=50, metocean_df=df,
    metocean_criteria=plugins.WeatherCriterion(name="c", condition="Hs", maximum=2, window_length=20))
b = basic(env, reg, "b", 1)
run(env, seq(env, reg, "s", [a, b]))
same(times(b, "START"), [115.0], "start of b")
""")
bug("c17-small-delays", "C17",
    "a delay of less than one percent",
    "the percentage is rounded to whole percents",
    [("plugins/delay.py", """            delay_percentage / 100 if delay_percentage is not None else None
""", """            round(delay_percentage / 100, 2) if delay_percentage is not None else None
""")],
    """
env = make_env(); reg = {}
a = DelayBasic(env=env, registry=reg, name="a", duration=1000, delay_percentage=2.5)
b = basic(env, reg, "b", 1)
run(env, seq(env, reg, "s", [a, b]))
same(times(b, "START"), [1025.0], "start of b")
""")
