"""C03 parallels start all parts together and end with the slowest."""
from vlib import fleet
from vlib.trees import tree_facet

RULE = "non-trivial: a parallel activity with at least two parts that end at different moments was executed"
ASSUMPTIONS = ["parts ending at the same moment may be logged in either order"]
FACETS = [
    tree_facet("tree", ("basic", "move", "seq", "par", "rep"), ("par",), ("par", "par-distinct"), 1600, 30000,
               "parallels anywhere in a tree, with start conditions", root="par", start=0.2),
    tree_facet("wide", ("basic", "par"), ("par",), ("par", "par-unordered"), 800, 15000,
               "wide and nested parallels, ties and any order of finishing", root="par", start=0.1, depth=2, width=8, shape=0.3),
    tree_facet("plugins", ("basic", "par", "rep"), ("par",), ("par", "par-distinct", "plugins"), 600, 15000,
               "parts that take time in plugins", root="par", start=0.1, plugins=0.3, delay=0.3),
    fleet.structure_facet("fleet", ("par",), 400, 8000),
]
