"""Requests, possible and impossible ones, on real jobs -> TraceRequests (C18)."""
import json
import math

import cadquery as cq

from . import gen, scenario, shapes, tlc
from .pool import Failed, run_many
from .progcheck import random_scenario

R0 = dict(kind="", dia="job", outer=True, inner=True, items=[], avoid=[], depth=True, tabs="none", steps=0, limit=100)


def place_all(spec, plane):
    """[class, cx, cy, size, z, variant] -> shape in the world"""
    cls, x, y, s, z, v = spec
    W = lambda p: plane.toWorldCoords(cq.Vector(*p))
    o = [shapes.rect(x, y, 2 * s, 1.6 * s), shapes.circle(x, y, s), shapes.lshape(x, y, 2 * s, 2 * s, s, s)][v % 3]
    how = ["world", "moved", "baked", "twice"][v // 3 % 4]
    if cls == "text":
        return ["bottom", None, 7][v % 3]
    if cls == "point":
        return W((x, y, z))
    if cls == "wire":
        return shapes.build_wire(o, z, plane, how, v % 2 == 1)
    if cls == "level":
        z = 0
    if cls == "above":
        z = [0.01, 0.1, 2, 30][v % 4]
    if cls in ("face", "level", "above"):
        return shapes.build_face(o, [shapes.circle(x - s / 3, y - s / 3, s / 4)] if v % 2 and cls == "face" else [], z, plane, how)
    if cls == "tilted":
        a = [2, 10, 45, 90][v % 4]
        f = cq.Face.makeFromWires(o.wire(0)).rotate(cq.Vector(x, y, 0), cq.Vector(x + 1, y + [0, 1, 3][v % 3], 0), a)
        return shapes.place(f.translate(cq.Vector(0, 0, z - 2 * s)), plane)
    up = cq.Solid.makeCylinder(s, 2, cq.Vector(x, y, z - 2), cq.Vector(0, 0, 1))
    if cls == "round":
        if v % 2:
            up = cq.Solid.makeCone(s, s / 2, 2, cq.Vector(x, y, z - 2), cq.Vector(0, 0, 1))
        return shapes.place([f for f in up.Faces() if f.geomType() != "PLANE"][0], plane)
    up = shapes.place(up, plane)
    if cls == "solid":
        return up
    if cls == "edge":
        return up.Edges()[v % 3]
    if cls == "vertex":
        return up.Vertices()[0]
    if cls == "compound":
        return cq.Compound.makeCompound([up])
    raise ValueError(cls)


def ask(job, req, how, plane):
    """One request; may raise"""
    from cq_cam.operations.tabs import EdgeTabs, WireTabs
    from cq_cam.tool import Tool

    items = [place_all(i, plane) for i in how["items"]]
    sel = items
    if how["as"] == "wp":
        sel = cq.Workplane().newObject(items)
    elif how["as"] == "one" and len(items) == 1:
        sel = items[0]
    kw = {}
    if how["tool"] is not None:
        kw["tool"] = Tool(**how["tool"])
    kind = req["kind"]
    if kind == "drill":
        if req["depth"]:
            kw["depth"] = how["depth"]
        return job.drill(sel, **kw)
    if kind == "pocket":
        if how["avoid"]:
            kw["avoid_areas"] = [place_all(i, plane) for i in how["avoid"]]
        return job.pocket(sel, **kw)
    if req["tabs"] == "wire":
        kw["tabs"] = WireTabs(count=2, width=how["tab"], height=1)
    elif req["tabs"] != "none":
        kw["tabs"] = EdgeTabs(spacing=how["tab"] * dict(edge=how["ratio"], equal=1, wide=0.7)[req["tabs"]], width=how["tab"], height=1)
    if how["stepdown"]:
        kw["stepdown"] = how["stepdown"]
    if kind == "wire":
        return job.wire_profile(sel, **kw)
    for name in ("outer", "inner"):
        if not req[name]:
            kw[name + "_offset"] = None
        elif how["offsets"]:
            kw[name + "_offset"] = how["offsets"][name == "inner"]
    return job.profile(sel, **kw)


def state(job):
    return (job.to_gcode(), len(job.operations), job.tool_diameter, job.feed, job.speed, job.tool_number)


def execute(sc):
    plane = scenario.plane_of(sc["job"]["plane"])
    job = scenario.make_job(sc["job"])
    if sc.get("limit"):
        job.max_stepdown_count = sc["limit"]
    steps = []
    for req, how in zip(sc["reqs"], sc["hows"]):
        before, count = state(job), len(job.operations)
        try:
            new = scenario.apply(job, how["step"], plane) if "step" in how else ask(job, req, how, plane)
            out, added = "job", len(new.operations) - count
        except Exception as e:  # noqa: refusals have no common type
            new, out, added = job, "error", 0
            if sc.get("debug"):
                print(repr(e))
        steps.append(dict(req=req, out=out, added=added, kept=state(job) == before))
        job = new
    return dict(steps=steps)


def check(c, items, label):
    results = dict(run_many(execute, items, timeout=150))
    traces, idx = [], []
    for i, it in enumerate(items):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind != "long":
                c.violation(f"{label}:{r.kind}", f"{label} {i}: {r}", it)
            continue
        traces.append(r)
        idx.append(i)
    if not traces:
        return
    verdicts, st = tlc.check_traces("TraceRequests", traces, batch=5000)
    c.count_traces(len(traces), st)
    failed, refused, n = {}, 0, 0
    for k, rec in verdicts.items():
        refused += rec["refused"]
        n += len(traces[k]["steps"])
        for b in rec["bad"]:
            failed[b["c"]] = failed.get(b["c"], 0) + 1
            c.violation(b["c"], f"{label} {idx[k]}: clause {b['c']} fails for request {b['n']}: {json.dumps(traces[k]['steps'][b['n'] - 1])}", items[idx[k]])
    c.coverage[label] = dict(traces=len(traces), requests=n, refused=refused, clauses_failed=failed)
    c.samples.append(dict(scenario=label, steps=traces[0]["steps"]))


def concrete(rng, h):
    """A history of the model with real shapes"""
    job = dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=200)
    if h["dia"]:
        job["tool_diameter"] = rng.choice([1, 1.2])
    small = rng.random() < 0.8
    limit = h["hist"][0]["limit"] if small else 100
    reqs, hows = [], []
    for r in h["hist"]:
        r = dict(r)
        if not small:
            r["steps"] = max(0, r["steps"] + 100 - r["limit"]) if r["steps"] else 0
        r["limit"] = limit
        z = -rng.choice([2, 3.5, 6])
        deep = rng.randrange(max(1, len(r["items"])))
        spec = lambda cls, k, z: [cls, 14 * k + gen.q(rng, -1, 1), gen.q(rng, -9, 9), gen.q(rng, 3, 5), z, rng.randrange(12)]
        how = dict(items=[spec(i, k, z if k == deep else z / 2) for k, i in enumerate(r["items"])],
                   avoid=[spec(i, k + 0.3, rng.choice([-0.5, z, z / 2])) for k, i in enumerate(r["avoid"])],
                   tab=rng.choice([1, 0.5, 2]), ratio=rng.choice([1.001, 1.5, 3]), depth=rng.choice([1, -2.5]), offsets=rng.choice([None, (0, 0), (1, 0)]))
        plain = all(i in ("face", "wire", "point", "level", "above", "solid") for i in r["items"])
        how["as"] = rng.choice(["list", "wp", "one"] if plain and r["kind"] != "wire" else ["list"])
        if r["items"] == ["wire"]:
            how["as"] = rng.choice(["list", "one"])
        if r["kind"] == "pocket" and "solid" in r["items"]:
            how["as"] = "list"
        how["stepdown"] = -z / (r["steps"] + rng.choice([0.6, 1])) if r["steps"] else rng.choice([None, -z, -2 * z])
        how["tool"] = dict(tool_diameter=rng.choice([1, 1.2])) if r["dia"] == "tool" else rng.choice([None, None, dict(feed=150)])
        if r["dia"] == "tool" and rng.random() < 0.5:
            how["tool"]["tool_number"] = 3
        if r["kind"] == "profile" and not r["outer"]:
            cls, v = how["items"][deep][0], how["items"][deep][5]
            if cls != "face" or v % 2 == 0:
                r["steps"] = 0  # nothing deep is profiled
        reqs.append(r)
        hows.append(how)
    return dict(job=job, limit=limit if small else None, reqs=reqs, hows=hows)


def valid(rng):
    """A random history of valid requests"""
    sc = random_scenario(rng, ("profile", "wire", "pocket", "drill"), rng.choice([1, 1, 2, 3]))
    reqs = []
    cls = lambda i: "point" if "point" in i else "wire" if "outline" in i else "face" if i["z"] < 0 else "level"
    for s in sc["steps"]:
        items = [cls(i) for i in s["items"]]
        if s["kind"] != "pocket":
            items = ["face" if i == "level" else i for i in items]
        if s["kind"] == "pocket" and "stepdown" in s:
            del s["stepdown"]
        reqs.append(dict(R0, kind=s["kind"], items=items, avoid=[cls(i) for i in s.get("avoid", [])],
                         outer=s.get("outer_offset", 1) is not None, inner=s.get("inner_offset", 1) is not None,
                         tabs=(s.get("tabs") or dict(kind="none"))["kind"], steps=40 if s.get("stepdown") else 0))
    return dict(job=sc["job"], reqs=reqs, hows=[dict(step=s) for s in sc["steps"]])


def run(c):
    from . import models

    if c.replay:
        check(c, [c.replay["data"]], "replay")
        return c.finish()
    hs = models.request_design(c)
    rng = c.rng("hist")
    rng.shuffle(hs)
    # every kind of request that is refused for one reason comes first
    seen, first, rest = set(), [], []
    for h in hs:
        r = h["hist"][-1]
        k = (r["kind"], r["dia"], r["outer"], r["inner"], tuple(r["items"][-1:]), tuple(r["avoid"][-1:]), r["depth"], r["tabs"], r["steps"])
        (rest if k in seen else first).append(h)
        seen.add(k)
    hs = first + rest
    check(c, [concrete(c.rng("req", i), h) for i, h in enumerate(hs[: c.n(max(1500, len(first)), 10**6)])], "requests of the model")
    check(c, [valid(c.rng("valid", i)) for i in range(c.n(150, 3000))], "random valid requests")
    return c.finish(["any exception counts as a refusal"])
