"""C02: where a pocket cuts (TracePocket.tla)."""
from vlib import pocketcheck


def run(c):
    return pocketcheck.run(c, 120, 3000)
