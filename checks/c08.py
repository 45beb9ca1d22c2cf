"""C08: every history of the model is replayed on the real code, plus random histories with real geometry."""
from vlib import models, progcheck, shapes
from vlib.progtrace import NONE

ITEMS = dict(
    profile=[dict(outline=shapes.rect(0, 0, 6, 5).edges, z=-2)],
    wire=[dict(outline=shapes.rect(0, 0, 6, 5).edges, z=-2)],
    drill=[dict(point=[0, 0, 0]), dict(point=[5, 1, 0])],
    pocket=[dict(outer=shapes.rect(0, 0, 5, 4).edges, holes=[], z=-1)],
)


def val(v):
    return None if v == NONE else v / 1000


def scenario_of(h):
    """The real requests of a history of the model"""
    i = h["init"]
    job = dict(plane=[[0, 0, 0], [1, 0, 0], [0, 0, 1]], feed=val(i["feed"]), plunge_feed=val(i["pfeed"]), tool_diameter=val(i["dia"]))
    if i["num"] != NONE:
        job["tool_number"] = i["num"] // 1000
    if i["speed"] != NONE:
        job["speed"] = i["speed"] // 1000
    if h["cool"] != NONE:
        job["coolant"] = f"M{h['cool'] // 10}"
    steps = []
    for r in h["reqs"]:
        t, s = r["tool"], dict(kind=r["kind"])
        if t["given"]:
            s["tool"] = {k: v for k, v in (("tool_number", t["num"] // 1000 if t["num"] != NONE else None), ("tool_diameter", val(t["dia"])),
                                           ("feed", val(t["feed"])), ("speed", val(t["speed"]))) if v is not None}
        if r["kind"] != "update":
            s["items"] = ITEMS[r["kind"]]
            if r["kind"] == "drill":
                s["depth"] = 2
            if r["kind"] == "profile":
                s["stepdown"] = 1
        steps.append(s)
    return dict(job=job, steps=steps)


def run(c):
    if c.replay:
        progcheck.check(c, [c.replay["data"]], "replay")
        return c.finish()
    hist = models.program_design(c, deep=not c.quick)
    if c.quick:
        c.rng("pick").shuffle(hist)
        hist = hist[:1500]
    else:
        c.rng("pick").shuffle(hist)
        hist = hist[:20000]
    progcheck.check(c, [scenario_of(h) for h in hist], "histories of the model")
    sc = []
    for i in range(c.n(160, 3000)):
        rng = c.rng("hist", i)
        sc.append(progcheck.random_scenario(rng, ("profile", "wire", "pocket", "drill", "update", "drill"), rng.choice([3, 5, 8])))
    progcheck.check(c, sc, "random histories")
    return c.finish(["the machine starts with the tool number of the initial job loaded"])
