"""C06: the tabs of profiles (TraceProfile.tla)."""
from vlib import profilecheck


def run(c):
    return profilecheck.run(c, 150, 4000)
