"""C12: previews (TracePreview.tla)."""
from vlib import previewcheck


def run(c):
    return previewcheck.run(c)
