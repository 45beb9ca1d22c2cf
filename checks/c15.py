"""C15: zig-zag filling (TraceZigzag.tla)."""
from vlib import zigzagcheck


def run(c):
    return zigzagcheck.run(c)
