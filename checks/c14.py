"""C14: contour trees (TraceTree.tla)."""
from vlib import treecheck


def run(c):
    return treecheck.run(c)
