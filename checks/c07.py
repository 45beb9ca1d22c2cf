"""C07: drilling (TraceDrill.tla)."""
from vlib import drillcheck


def run(c):
    return drillcheck.run(c, 400, 8000)
