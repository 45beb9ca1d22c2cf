"""C18: refused requests (TraceRequests.tla)."""
from vlib import requestcheck


def run(c):
    return requestcheck.run(c)
