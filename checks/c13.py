"""C13: programs relative to the job plane (TracePlacement.tla)."""
from vlib import placementcheck


def run(c):
    return placementcheck.run(c)
