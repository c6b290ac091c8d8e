"""C06 start events delay an activity to exactly the moment they occur."""
from hypothesis import strategies as st

from vlib import fleet, prog
from vlib.runner import Facet
from vlib.trees import features

RULE = "non-trivial: some activity waited for its start event and some other start event did not make its activity wait"
ASSUMPTIONS = ["level changes never coincide with other events"]


def run(p):
    b, ref = prog.run_and_compare(p)
    prog.check_additional_logs(b, ref)
    ex = prog.ref_execs(ref)
    f = features(p, ref)
    with_event = [n for n in prog.walk_nodes(p) if n.get("st") is not None]
    late = any(i.released() > i.due() for n in with_event for i in ex[n["n"]])
    early = any(i.released() == i.due() for n in with_event for i in ex[n["n"]])
    if any(n.get("al") for n in with_event):
        f.add("additional")
    return sorted(f) + (["nontrivial"] if late and early else [])


LEVEL = st.tuples(st.integers(0, 20), st.sampled_from(["gt", "ge", "lt", "le", "full", "empty"]), st.integers(0, 30)).map(lambda x: {"c": list(x)})

FACETS = [
    Facet("tree", lambda t: prog.programs(kinds=("basic", "move", "seq", "par", "rep", "while"), start=0.6, raw=True), run,
          1600, 30000, "start events on times and activities anywhere in a tree"),
    Facet("containers", lambda t: prog.programs(kinds=("basic", "seq", "par", "rep"), start=0.6, conts=True, raw=True), run,
          1600, 30000, "start events on container levels as well"),
    Facet("plugins", lambda t: prog.programs(kinds=("basic", "seq", "par", "rep"), start=0.5, plugins=0.3, delay=0.2, raw=True,
                                             depth=2, conts=True), run, 500, 10000, "together with plugins"),
    Facet("again", lambda t: prog.programs(kinds=("basic", "basic", "seq", "par", "rep", "rep"), root="rep", start=0.5, depth=2, width=3, top=2, conts="busy", events=LEVEL,
                                           dur=st.integers(0, 16).map(lambda k: k / 2)), run, 800, 15000, "one level condition, in loops, on a level that goes up and down"),
    fleet.start_facet("shifts", 400, 8000),
]
