"""C10: form and order of whole programs for all configurations, including saved files and jobs without operations."""
import itertools

from vlib import gen, models, progcheck
from checks.c08 import ITEMS


def configurations():
    """Every unit x work offset x path mode x coolant"""
    out = []
    for u, w, p, k in itertools.product(["G20", "G21"], ["G54", "G55", "G56", "G57", "G58", "G59"], ["G61", "G61.1", "G64"], [None, "M7", "M8", "M9"]):
        j = dict(plane=[[0, 0, 0], [1, 0, 0], [0, 0, 1]], feed=300, tool_diameter=1, unit=u, wcs=w, path=p, name=f"{u} {w}")
        if k:
            j["coolant"] = k
        out.append(j)
    return out


def run(c):
    if c.replay:
        progcheck.check(c, [c.replay["data"]], "replay")
        return c.finish()
    models.program_design(c)
    sc = []
    for n, j in enumerate(configurations()):
        kinds = [["drill"], ["profile", "drill"], ["pocket"], ["drill", "wire", "pocket"]][n % 4]
        sc.append(dict(job=dict(j, speed=9000) if n % 3 else j, steps=[dict(kind=k, items=ITEMS[k], **(dict(depth=2) if k == "drill" else {})) for k in kinds]))
    for n, name in enumerate(gen.NAMES + ["x" * 200, "()", "a(b)c)", "(((", "\t", "a\r\nG1 Z-50", "a\nM30", "ünïcode ✓", "%", "Drill", "a - Pocket", "\u2028x", "\x0b"]):
        sc.append(dict(job=dict(sc[n]["job"], name=name), steps=sc[n % 8]["steps"]))
        sc.append(dict(job=dict(sc[n]["job"], name=name), steps=[]))
    progcheck.check(c, sc, "all configurations and names")
    sc = []
    for i in range(c.n(140, 3000)):
        rng = c.rng("hist", i)
        sc.append(progcheck.random_scenario(rng, ("profile", "wire", "pocket", "drill", "update"), rng.choice([1, 4, 6])))
    progcheck.check(c, sc, "random histories")
    return c.finish(["a controller reads one block per line; comments may not nest or span lines"])
