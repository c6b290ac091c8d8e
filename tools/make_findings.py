"""Regenerates known_findings.json (by hand-maintained entries; never run by a check)."""
import json
import pathlib

F = []


def fixed(prop, commit, what):
    F.append(dict(property=prop, status="fixed", commit=commit, what=what, line=f"fixed: property={prop} {commit} {what}"))


fixed("C20", "b3b930c", "a processor with several slots logged the id of the activity that started last for all its shifts")
fixed("C08", "23a7f59", "MultiContainerDependentMovable took the load of one container only for its speed")
fixed("C08", "1befc65", "the engine order was ignored by movables without a load dependent speed")
fixed("C31", "e98eb86", "the sailing time over a leg of a route was distance times speed")
fixed("C31", "57b2725", "moving over a route looked for the graph in the wrong place and failed")
fixed("C18", "b3c3ca7", "a data set that reaches but never exceeds the weather limit raised IndexError")
fixed("C18", "278a970", "in a repeated weather data set the window of the first period was used, so the activity did not wait")
fixed("C21", "45f3041", "the log dataframe refused a manual id map of ids to names")
fixed("C21", "46a744c", "simultaneous log entries changed order in the log dataframe")
fixed("C27", "b8dcecc", "a wait of no length between two executions of an activity was taken as the end of the second")
fixed("C31", "f5aa0d0", "the distance over part of a path was the part of its length in degrees (30 % off on bends)")
fixed("C28", "4aac7f7", "activities on a longest path were not marked critical / unbounded recursion in the search")
fixed("C24", "6969c1e", "activities nested more than one level were exported with the top activity as parent")
fixed("C24", "459939f", "exporting resources of activities without resources raised IndexError")
fixed("C25", "4eed9c3", "ranges paired starts and stops of different labels and failed on runs that were cut off")
fixed("C25", "631a2ed", "exporting ranges of an object without log entries raised ValueError")
fixed("C25", "1634473", "exporting ranges of a log without any STOP (cut off in its first executions, with waits or parts) raised Exception")
fixed("C26", "8aacfd2", "the gantt chart omitted sub-activities on vessels when their parent activity was plotted too")
fixed("C26", "c451f71", "the gantt chart refused a manual id map of ids to labels")
fixed("C26", "b8a0a9c", "a manual id map of ids to labels was ignored for activities that are (part of) the plotted concepts")
fixed("C28", "34d21c0", "dependencies between activities less than a second apart were accepted")
fixed("C29", "d2a20bc", "a dependency on an execution that takes no time (a vessel that is already there) raised KeyError in the critical path")
fixed("C29", "2520978", "executions on a longest chain were left out when their lengths, rounded to milliseconds, added up differently")
fixed("C30", "f8da6de", "dependency extraction hit the recursion limit on long simulations")
fixed("C30", "d407eed", "a wait or execution of no length of the same activity made dependency extraction fail")
fixed("C30", "b1ce659", "a while loop until a time, or a time as start event inside a sequence, made dependency extraction fail")
fixed("C30", "eed729d", "dependency extraction failed when the moment of an event is rounded differently in the log (1 % of sailing times)")
fixed("C09", "d190cb0", "the unloading rate function was given the levels (L+a, L) instead of (L, L-a)")
fixed("C09", "c71be58", "rate functions were given the level of the default container instead of the shifted one")
fixed("C13", "304b2b4", "a shift that had to wait for content released a slot that an earlier activity had kept")
fixed("C15", "581fe3a", "a container event that was triggered at the same moment was handed out although the level no longer satisfied it")
fixed("C18", "60658ae", "a data set that turns from workable to unworkable once was taken as workable to its end")

fixed("C32", "addefa5", "a reference by name meant the activity whose id equals that name, also the library's own references to the parts of a sequence, loop or parallel, which went on (or ended) at the wrong time")
fixed("C14", "3720a0d", "a shift limited by the room in its destination never took place when the difference of capacity and level is rounded (a vessel with capacity 10 and 0.1 on board)")
fixed("C25", "a496dbc", "overlapping executions of activities with one label (equal names, or mapped to one by id_map) were paired with each other's stops")
fixed("C26", "b1fa55d", "activities of the plotted concepts with equal names were each drawn with the executions of the other, and overlapping ones lost pieces")
fixed("C18", "f539829", "weather data in a column called like one the plugin adds itself (cur, type, prev_ts, start_inter, ...) was misread or refused")
fixed("C36", "bce67dc", "drawing a vessel planning drew its colours from the shared random generator, so a simulation under way with random durations went on differently")
fixed("C38", "6b812e8", "the parts of a sequence, loop or parallel that was registered again after it had finished did not wait for it to start")

ves = dict(kind="plain", ids={"default": [7, 7]}, at=0, v=1, rl=1, ru=1)
F.append(dict(
    property="C11", status="known", facet="slots",
    what="two vessels unloading 7 each at the same time into a site with 2 slots and capacity 10 leave it at level 14: the free "
         "space is checked per shift and not for the shifts under way together",
    case=dict(t0=0, multi=False, sites=[dict(x=0, ids={"default": [10, 0]}, slots=2, crane=None)], vessels=[ves, ves],
              jobs=[dict(k="shift", v=i, site=0, dir="unload", amt=7, d=10, by="vessel", n=f"shift{i}") for i in range(2)])))
F.append(dict(
    property="C27", status="known", facet="program",
    what="the log of a sequence of three parts (whole 0-6, parts 0-1, 1-3, 3-6) is recorded with starts and stops paired in the order "
         "of time, as rows 0-1, 0-3, 1-6, 3-6 that were not all logged (counts in the repository's tests depend on it)",
    case=dict(p=dict(t0=0, logs=1, order=[0], acts=[dict(k="seq", n="s", st=None, s=[
        dict(k="basic", n="a", d=1, al=[0], st=None), dict(k="basic", n="b", d=2, al=[], st=None), dict(k="basic", n="c", d=3, al=[], st=None)])]))))
full = {"or": [{"c": [1, "default_reservations", "full", None]}, {"c": [0, "default_reservations", "empty", None]}]}
F.append(dict(
    property="C16", status="known", facet="reserve",
    what="three vessels bring 2 each into a site with room for 8 until it is full of reservations; two of them end a trip at the same "
         "moment (2 s), with room for one more, and both go on: 10 is assigned, as the loop of the second looks at an event that the "
         "reservation of the first has triggered but that is not processed yet",
    case=dict(t0=0, multi=False, sites=[dict(x=0, ids={"default": [40, 40]}, slots=2, crane=None), dict(x=0, ids={"default": [8, 0]}, slots=2, crane=None)],
              vessels=[dict(kind="plain", ids={"default": [2, 0]}, at=0, v=1, rl=1, ru=1)] * 3,
              jobs=[dict(k="while", c=full, n=f"while{i}", s=[
                  dict(k="shift", v=i, site=0, dir="load", amt=2, id="default", by="vessel", d=1, n=f"load{i}"),
                  dict(k="shift", v=i, site=1, dir="unload", amt=2, id="default", by="vessel", d=1, n=f"unload{i}")]) for i in range(3)])))
pathlib.Path(__file__).resolve().parents[1].joinpath("known_findings.json").write_text(json.dumps({"findings": F}, indent=1) + "\n")
