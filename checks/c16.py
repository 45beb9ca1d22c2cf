"""C16: 3D surfacing (TraceSurface.tla)."""
from vlib import surfacecheck


def run(c):
    return surfacecheck.run(c, 300, 8000)
