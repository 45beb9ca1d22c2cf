"""C17: the same requests give the same program (TraceFluent.tla)."""
from vlib import fluentcheck


def run(c):
    return fluentcheck.run(c, (200, 2500), (130, 2500), refs=True)
