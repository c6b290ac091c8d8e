"""C17 the delay plugin adds exactly the given percentage."""
from vlib import fleet
from vlib.trees import tree_facet

RULE = "non-trivial: an activity with a positive percentage was executed"
ASSUMPTIONS = ["percentages are exact binary fractions, so expected times are computed without rounding"]
FACETS = [
    tree_facet("tree", ("basic", "move", "seq", "par", "rep", "while"), None, ("delay",), 1600, 30000,
               "delays on every kind of activity", delay=0.5, start=0.15),
    tree_facet("plugins", ("basic", "move", "seq", "par", "rep"), None, ("delay", "plugins"), 800, 15000,
               "delays together with other plugins", delay=0.5, plugins=0.4, start=0.1, depth=2),
    fleet.delay_facet("shifts", 400, 8000),
]
