"""C05 while runs whole iterations and stops as soon as its condition has occurred."""
from vlib import fleet
from vlib.trees import long_facet, tree_facet

RULE = "non-trivial: a while activity ran more than one iteration (or, in 'fleet', more than one trip)"
ASSUMPTIONS = ["a loop whose iteration ends at the very moment another activity it waits for completes may or may not "
               "run another iteration: such cases are not judged", "in 'thousands' the case counts from 100 iterations on", "the code's limit of a million iterations is not reached"]
FACETS = [
    tree_facet("containers", ("basic", "seq", "par", "rep", "while"), ("while",), ("while-many",), 1600, 30000,
               "conditions on container levels changed by others, times, activities, and/or", root="while", start=0.15,
               conts=True, raw=True),
    tree_facet("tree", ("basic", "move", "seq", "par", "rep", "while"), ("while",), ("while-many",), 1200, 25000,
               "conditions on times and activities anywhere in a tree", root="while", start=0.2, raw=True),
    tree_facet("plugins", ("basic", "seq", "while"), ("while",), ("while-many", "plugins"), 500, 12000,
               "parts that take time in plugins", root="while", start=0.1, plugins=0.3, delay=0.3, conts=True),
    fleet.structure_facet("fleet", ("while",), 400, 8000),
    long_facet("while", 48, 800),
]
