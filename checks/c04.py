"""C04: what a profile cuts (TraceProfile.tla)."""
from vlib import profilecheck


def run(c):
    return profilecheck.run(c, 200, 4000)
