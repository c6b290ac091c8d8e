"""C04 repeat runs its parts exactly the requested number of times."""
from vlib import fleet
from vlib.trees import long_facet, tree_facet

RULE = "non-trivial: a repeat activity ran more than one iteration"
ASSUMPTIONS = ["repetitions >= 1", "in 'thousands' the case counts from 100 iterations on"]
FACETS = [
    tree_facet("tree", ("basic", "move", "seq", "par", "rep"), ("rep",), ("rep-many",), 1600, 30000,
               "repeats anywhere in a tree", root="rep", start=0.15),
    tree_facet("nested", ("basic", "rep", "rep", "seq", "par"), ("rep",), ("rep-many", "nested-loop"), 800, 15000,
               "repeats inside repeats", root="rep", start=0, depth=3, width=2, shape=0.3),
    tree_facet("long", ("basic", "rep"), ("rep",), ("rep-many",), 200, 4000,
               "many iterations", root="rep", start=0, depth=1, width=2, max_rep=120),
    tree_facet("plugins", ("basic", "seq", "rep"), ("rep",), ("rep-many", "plugins"), 500, 12000,
               "parts that take time in plugins", root="rep", start=0.1, plugins=0.3, delay=0.3),
    fleet.structure_facet("fleet", ("rep",), 400, 8000),
    long_facet("rep", 48, 800),
]
