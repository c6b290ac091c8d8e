"""C02 sequences run their parts one after another."""
from vlib import fleet
from vlib.trees import tree_facet

RULE = "non-trivial: a sequence with at least two parts inside a program of nested activities was executed"
ASSUMPTIONS = ["programs of up to a few hundred executions; resource contention only in the fleet facet"]
FACETS = [
    tree_facet("tree", ("basic", "move", "seq", "par", "rep"), ("seq",), ("seq", "seq-many"), 1600, 30000,
               "sequences anywhere in a tree, with start conditions", root="seq", start=0.2),
    tree_facet("plain", ("basic", "seq"), ("seq",), ("seq", "seq-many"), 800, 15000,
               "nested sequences, zero and equal durations, no conditions", root="seq", start=0, depth=4),
    tree_facet("plugins", ("basic", "seq", "rep"), ("seq",), ("seq", "seq-many", "plugins"), 600, 15000,
               "parts that take time in plugins", root="seq", start=0.1, plugins=0.3, delay=0.3),
    fleet.structure_facet("fleet", ("seq",), 400, 8000),
]
