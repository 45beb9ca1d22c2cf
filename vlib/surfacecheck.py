"""3D surfacing with a modelled drop cutter -> recorded programs -> TraceSurface (C16).

part: slabs [x0, y0, x1, y1, a, b, axis] whose tops form the surface (axis 1: rising along x, 2: along y)
field: as slabs, but the heights are given by the drop cutter directly (tool without width)
"""
import random

from . import dropcutter, gen, motion, scenario, shapes, tlc
from .pool import Failed, run_many

um = lambda v: int(round(v * 1000))
DEPTH = 14  # the bodies of the parts reach down to here


def body(part, how, plane):
    import cadquery as cq

    V = cq.Vector
    solids = []
    for x0, y0, x1, y1, a, b, axis in part:
        if axis == 1:
            side = [(x0, y0, -DEPTH), (x1, y0, -DEPTH), (x1, y0, b), (x0, y0, a)]
            along = V(0, y1 - y0, 0)
        else:
            side = [(x0, y0, -DEPTH), (x0, y1, -DEPTH), (x0, y1, b), (x0, y0, a)]
            along = V(x1 - x0, 0, 0)
        if how == "world":
            side = [plane.toWorldCoords(V(*p)) for p in side]
            along = plane.toWorldCoords(along) - plane.origin
        solids.append(cq.Solid.extrudeLinear(cq.Wire.makePolygon([V(*p) if isinstance(p, tuple) else p for p in side], close=True), [], along))
    s = solids[0] if len(solids) == 1 else solids[0].fuse(*solids[1:]).clean()
    return s if how == "world" else shapes.PLACES[how](s, plane)


def selected(sc, plane):
    import cadquery as cq

    s = body(sc["part"], sc["how"], plane)
    up = [f for f in s.Faces() if f.normalAt().dot(plane.zDir) > 1e-6]
    if sc["select"] == "up":
        faces = up
    elif sc["select"] == "all":
        faces = s.Faces()
    else:
        faces = [f for f in s.Faces() if f.normalAt().dot(plane.zDir) > -1e-6]
    random.Random(sc["order"]).shuffle(faces)
    return cq.Workplane().newObject(faces) if sc["as"] == "wp" else faces


def execute(sc):
    import cadquery as cq

    dropcutter.install()
    dropcutter.BatchDropCutter.field = None
    job = scenario.make_job(sc["job"])
    plane = scenario.plane_of(sc["job"]["plane"])
    slabs = sc["part"] if "part" in sc else sc["field"]
    if "field" in sc:
        o = scenario.outline(sc["outline"])
        o = shapes.build_face(o, [], sc["bottom"], plane, sc["how"])
        o = cq.Workplane().newObject([o]) if sc["as"] == "wp" else [o]

        def field(x, y):
            return max([-1000] + [s[4] for s in slabs if s[0] <= x <= s[2] and s[1] <= y <= s[3]])

        dropcutter.BatchDropCutter.field = field
    else:
        o = selected(sc, plane)
    kw = {k: sc[k] for k in ("stepdown", "stepover", "interpolation_step", "top_height") if k in sc}
    if "offset" in sc:
        kw["outer_boundary_offset"] = tuple(sc["offset"]) if isinstance(sc["offset"], list) else sc["offset"]
    text = job.surface3d(o=o, tool=dropcutter.CylCutter(sc["tool"], 20), **kw).to_gcode()
    moves = motion.moves(text)
    spots = {}
    for m in moves:
        if m["g"] == 1:
            spots.setdefault(tuple(m["e"][:2]), []).append(m["e"][2])
    off = sc.get("offset", -1)
    off = off if isinstance(off, list) else [off, 0]
    outline = motion.poly(scenario.outline(sc["outline"]))
    d = sc["tool"]
    xs, ys = [p[0] for p in outline], [p[1] for p in outline]
    k, n = um(d * off[0] + off[1]), sc.get("n", 12)
    lo, hi = (min(xs) - max(k, 0), min(ys) - max(k, 0)), (max(xs) + max(k, 0), max(ys) + max(k, 0))
    wits = [[lo[0] + (hi[0] - lo[0]) * (2 * i + 1) // (2 * n), lo[1] + (hi[1] - lo[1]) * (2 * j + 1) // (2 * n)] for i in range(n) for j in range(n)]
    bottom = sc["bottom"] if "field" in sc else min(min(s[4], s[5]) for s in slabs) if sc["select"] == "up" else -DEPTH
    return dict(
        slabs=[dict(x0=um(s[0]), y0=um(s[1]), x1=um(s[2]), y1=um(s[3]), a=um(s[4]), b=um(s[5]), axis=s[6]) for s in slabs],
        bottom=um(bottom), rad=8 if "field" in sc else um(d / 2), outline=outline, off=k, grain=um(sc.get("interpolation_step", 0.5)),
        row=um(d * sc.get("stepover", 0.8)), down=um(abs(sc.get("stepdown") or 0)), top=um(sc.get("top_height", 0)),
        rapid=um(sc["job"].get("rapid_height", 10)), safe=um(sc["job"].get("op_safe_height", 1)),
        moves=[dict(g=m["g"], s=m["s"], e=m["e"]) for m in moves], spots=[list(p) + z for p, z in spots.items()], wits=wits)


def heights(rng):
    return rng.choice([0, 0, -0.5, -1, -2, -2.75, -4, -6, 1.5]) if rng.random() < 0.9 else -gen.q(rng, 0, 7)


def random_scenario(rng):
    j = gen.rand_job(rng, simple=True)
    j.pop("tool_diameter")
    d = rng.choice([1, 2, 3])
    x0, y0 = gen.q(rng, -8, 4), gen.q(rng, -8, 4)
    off = rng.choice([-1, -1, -1, -0.5, 0, [-1, 0.5], [-0.5, -0.3], [0, -1]])
    W, H = rng.choice([8, 11, 14]), rng.choice([8, 10, 13])
    if rng.random() < 0.15:
        return flat(rng, j, d)
    nx, ny = rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 1, 2, 3])
    cx = [round(x0 + W * i / nx, 2) for i in range(nx + 1)]
    cy = [round(y0 + H * i / ny, 2) for i in range(ny + 1)]
    part = []
    for i in range(nx):
        for k in range(ny):
            a = heights(rng)
            b, axis = a, 1
            if rng.random() < 0.3:
                b, axis = min(0, heights(rng)), rng.choice([1, 2])
            part.append([cx[i], cy[k], cx[i + 1], cy[k + 1], a, b, axis])
    lo = min(min(s[4:6]) for s in part)
    sc = dict(job=j, part=part, how=rng.choice(["world", "moved", "baked", "twice"]), select=rng.choice(["up", "up", "notdown", "all"]), order=rng.randint(0, 99),
              tool=d, offset=off, interpolation_step=rng.choice([0.5, 1, 1.3, 4]), outline=shapes.polygon([(cx[0], cy[0]), (cx[-1], cy[0]), (cx[-1], cy[-1]), (cx[0], cy[-1])]).edges,
              **{"as": rng.choice(["list", "wp"])})
    if rng.random() < 0.4:
        sc["stepover"] = rng.choice([0.4, 0.9, 1])
    if rng.random() < 0.75:
        deep = lo if sc["select"] == "up" else -DEPTH
        sc["stepdown"] = rng.choice([1, -1]) * rng.choice([0.8, 1, 2, 3.3] if deep > -8 else [2, 3.3, 5])
        if rng.random() < 0.2:
            sc["top_height"] = -rng.choice([0.5, 1])
    return sc


def flat(rng, job, d):
    """One flat face of any outline"""
    sc = dict(job=job, tool=d, interpolation_step=rng.choice([0.6, 2]), how=rng.choice(gen.HOWS), bottom=rng.choice([0, -1, -2.5]), **{"as": "list"})
    while True:
        o = shapes.rand_outline(rng, gen.q(rng, -9, 9), gen.q(rng, -9, 9), rng.choice([6, 9]))
        sc["offset"] = rng.choice([-1, -0.5, 0, 0.5, [0, 1]])
        off = sc["offset"] if isinstance(sc["offset"], list) else [sc["offset"], 0]
        if gen.offset_ok(o, d * off[0] + off[1]) and gen.polygon(o).buffer(d * off[0] + off[1] - d * 0.8).area > 1:
            break
    x0, y0, x1, y1 = gen.polygon(o).bounds
    sc["field"] = [[x0 - 20, y0 - 20, x1 + 20, y1 + 20, sc["bottom"], sc["bottom"], 1]]
    sc["outline"] = o.edges
    if rng.random() < 0.6:
        sc["stepdown"] = rng.choice([0.8, -1.3])
    return sc


def model_scenario(rng, r):
    """A flat face with one row of positions; the drop cutter answers with the heights of the model"""
    n = len(r["h"])
    x0, y0, w = gen.q(rng, -20, 20), gen.q(rng, -20, 20), rng.choice([1, 1.5])
    lo = min(r["h"]) / 1000
    L = w * (n - 1)
    o = shapes.rect(x0 + L / 2, y0 + 1, L, 2)
    field = [[round(x0 + w * (i - 0.4), 3), y0 - 9, round(x0 + w * (i + 0.4), 3), y0 + 9, h / 1000, h / 1000, 1] for i, h in enumerate(r["h"])]
    sc = dict(job=dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=300), tool=1, offset=0, stepover=0.5, interpolation_step=w, how=rng.choice(gen.HOWS),
              bottom=lo, field=field, outline=o.edges, **{"as": rng.choice(["list", "wp"])})
    if r["down"]:
        sc["stepdown"] = rng.choice([1, -1]) * r["down"] / 1000
    return sc


def run(c, quick, thorough):
    from . import models

    if c.replay:
        check(c, [c.replay["data"]], "replay")
        return c.finish()
    reqs = models.surface_design(c)
    c.rng("model").shuffle(reqs)
    check(c, [model_scenario(c.rng("model", i), r) for i, r in enumerate(reqs[: c.n(300, 1875)])], "surfaces of the model")
    check(c, [random_scenario(c.rng("random", i)) for i in range(c.n(quick, thorough))], "random surfaces")
    models.geometry(c)
    return c.finish(["the drop cutter of opencamlib is replaced by a model: an exact flat cutter, or given heights", "flat end mills only"])


def check(c, scenarios, label):
    results = dict(run_many(execute, scenarios, timeout=60))
    traces, idx = [], []
    for i, sc in enumerate(scenarios):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind != "long":
                c.violation(f"{label}:{r.kind}", f"{label} scenario {i}: valid surfacing failed: {r}", sc)
            continue
        traces.append(r)
        idx.append(i)
    v, st = tlc.check_traces("TraceSurface", traces, batch=300)
    c.count_traces(len(traces), st)
    n, failed = 0, {}
    for k, rec in v.items():
        n += rec["needed"]
        for b in rec["bad"]:
            failed[b["c"]] = failed.get(b["c"], 0) + 1
            c.violation(b["c"], f"{label} scenario {idx[k]}: clause {b['c']} fails at {b['n']}", scenarios[idx[k]])
    if not n:
        raise RuntimeError("vacuous: nothing had to be covered")
    c.coverage[label] = dict(programs=len(traces), positions=sum(len(t["spots"]) for t in traces), cuts=sum(len(t["moves"]) for t in traces),
                             witnesses=n, clauses_failed=failed)
