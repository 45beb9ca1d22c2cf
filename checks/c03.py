"""C03: what a pocket has cut at the end (TracePocket.tla)."""
from vlib import pocketcheck


def run(c):
    return pocketcheck.run(c, 120, 3000)
