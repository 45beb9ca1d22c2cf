"""C09: jobs are values (TraceFluent.tla)."""
from vlib import fluentcheck


def run(c):
    return fluentcheck.run(c, (500, 3500), (150, 3000), refs=False)
