"""Pocket scenarios -> recorded programs -> TracePocket (C02, C03, C05)."""
import math

from shapely.geometry import LineString, Point
from shapely.ops import nearest_points, unary_union

from . import gen, motion, scenario, shapes, tlc
from .pool import Failed, run_many

MAXMOVES = 6000


def offset(radius, value, default):
    """Documented meaning of offsets: multiples of the tool radius, or (multiple, distance)"""
    if value is None:
        value = default
    if isinstance(value, (list, tuple)):
        return radius * value[0] + value[1]
    return radius * value


def request(step, radius):
    um = lambda v: int(round(v * 1000))
    o = lambda e: motion.poly(scenario.outline(e))
    av = step.get("avoid") or []
    return dict(
        areas=[dict(outer=o(f["outer"]), holes=[o(h) for h in f["holes"]], z=um(f["z"])) for f in step["items"]],
        avoids=[dict(outer=o(f["outer"]), z=um(f["z"])) for f in av],
        ro=um(offset(radius, step.get("outer_offset"), 0 if av else -1)),
        ri=um(offset(radius, step.get("inner_offset"), 1)),
        ra=um(offset(radius, step.get("avoid_outer_offset"), 1)),
        step=um(offset(radius, step.get("stepover"), 0.5)),
        sd=math.ceil(step["stepdown"] * 1000 - 1e-6) if step.get("stepdown") else 0,
        R=um(radius),
    )


def witnesses(rng, step, req, npts, nedge):
    """Points for the specification to look at; it decides itself what they have to satisfy."""
    polys = [gen.polygon(scenario.outline(f["outer"])) for f in step["items"]]
    xs = [p.bounds for p in polys]
    pad = req["R"] / 1000
    pts = []
    for k in range(npts):
        b = xs[k % len(xs)] if k % 4 else (min(x[0] for x in xs), min(x[1] for x in xs), max(x[2] for x in xs), max(x[3] for x in xs))
        pts.append(motion.ints((rng.uniform(b[0] - pad, b[2] + pad), rng.uniform(b[1] - pad, b[3] + pad))))
    edge = []
    every = unary_union([p.buffer(req["ro"] / 1000) for p in polys])
    reach = math.dist(every.bounds[:2], every.bounds[2:]) if not every.is_empty else 1
    for f, p in enumerate(polys):
        b = p.buffer(req["ro"] / 1000, quad_segs=64)
        inner = b.buffer(-0.06)
        if b.is_empty or inner.is_empty:
            continue
        rings = [g.exterior for g in getattr(b, "geoms", [b])]
        for k in range(nedge):
            r = rings[k % len(rings)]
            d = rng.uniform(0, r.length) if k % 3 else r.project(Point(r.coords[rng.randrange(len(r.coords))]))
            q = r.interpolate(d)
            i = nearest_points(inner, q)[0]
            # a far point seen from q
            far = None
            for a in range(16):
                t = 2 * math.pi * (a + 0.37) / 16
                u = (math.cos(t), math.sin(t))
                line = LineString([(q.x + 0.02 * u[0], q.y + 0.02 * u[1]), (q.x + reach * u[0], q.y + reach * u[1])])
                if far is None or not line.intersects(every):
                    far = (q.x + reach * u[0], q.y + reach * u[1])
                    if not line.intersects(every):
                        break
            edge.append(dict(q=motion.ints((q.x, q.y)), i=motion.ints((i.x, i.y)), o=motion.ints(far), f=f + 1))
    return pts, edge


def execute(arg):
    sc, judge, seed, npts, nedge = arg
    import random

    rng = random.Random(f"w{seed}")
    text = scenario.build(sc).to_gcode()
    radius = sc["job"]["tool_diameter"] / 2
    req = request(sc["steps"][0], radius)
    mv = motion.moves(text)
    if len(mv) > MAXMOVES:
        return Failed("long", str(len(mv)))
    pts, edge = witnesses(rng, sc["steps"][0], req, npts, nedge)
    req.update(moves=[dict(g=m["g"], s=m["s"], e=m["e"]) for m in mv], pts=pts, edge=edge, tol=12, tolb=8, every=40, judge=judge)
    return req


def check(c, scenarios, label, npts=150, nedge=40, timeout=60, budget=None, size=30000):
    """Every scenario is a single pocket on a fresh job."""
    arg = [(sc, [c.prop], f"{c.seed}/{i}", npts, nedge) for i, sc in enumerate(scenarios)]
    results = dict(run_many(execute, arg, timeout=timeout, budget=budget))
    traces, idx, long = [], [], 0
    for i in range(len(scenarios)):
        if i not in results:
            continue
        r = results[i]
        if isinstance(r, Failed):
            if r.kind == "long":
                long += 1
                continue
            c.violation(f"{label}:{r.kind}", f"{label} scenario {i}: a valid pocket failed: {r}", scenarios[i])
            continue
        traces.append(r)
        idx.append(i)
    start = 0
    sums = dict(cuts=0, reach=0, edge=0)
    failed = {}
    while start < len(traces):
        end, n = start, 0
        while end < len(traces) and (end == start or n + len(traces[end]["moves"]) < size):
            n += len(traces[end]["moves"])
            end += 1
        v, st = tlc.check_traces("TracePocket", traces[start:end])
        c.count_traces(end - start, st)
        for k, rec in v.items():
            for key in sums:
                sums[key] += rec[key]
            for b in rec["bad"]:
                failed[b["c"]] = failed.get(b["c"], 0) + 1
                c.violation(b["c"], f"{label} scenario {idx[start + k]}: clause {b['c']} fails at move {b['n']}, {b['w']}", scenarios[idx[start + k]])
        start = end
    if not sums["cuts"]:
        raise RuntimeError("vacuous: nothing was cut")
    c.coverage[label] = dict(programs=len(traces), too_long=long, cuts=sums["cuts"], reach_points=sums["reach"],
                             boundary_points=sums["edge"], clauses_failed=failed)
    if traces:
        t = traces[0]
        c.samples.append(dict(scenario=label, areas=len(t["areas"]), avoids=len(t["avoids"]), step=t["step"], sd=t["sd"], moves=t["moves"][:6]))


def random_scenario(rng):
    j = gen.rand_job(rng, simple=True)
    return dict(job=j, steps=[gen.rand_pocket(rng, j["tool_diameter"] / 2)])


def nested_scenario(rng):
    """Areas at several depths inside, around, in the bays, in the holes and across the borders of each other"""
    d = rng.choice([1, 1.5, 2])
    j = dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=300, tool_diameter=d)
    x, y, s = gen.q(rng, -9, 9), gen.q(rng, -9, 9), gen.q(rng, 6, 9)
    z1 = -rng.choice([1, 2, 2.5, 3])
    z2 = z1 - rng.choice([0.5, 1, 2, 3, 4.2])
    box = lambda cx, cy, w, h: rng.choice([shapes.rect(cx, cy, w, h), shapes.circle(cx, cy, min(w, h) / 2), shapes.rounded(cx, cy, w, h, min(w, h) / 5)])
    face = lambda o, z, *holes: dict(outer=o.edges, holes=[h.edges for h in holes], z=z, how=rng.choice(gen.HOWS))
    kind = rng.choice(["hole", "fill", "bay", "corner", "inside", "stairs", "across", "split", "rings"])
    big = shapes.rect(x, y, 2 * s, 2 * s)
    if kind == "hole":
        h = gen.q(rng, 0.55 * s, 0.7 * s)
        items = [face(big, z1, box(x, y, 2 * h, 2 * h)), face(box(x, y, 1.1 * h, 1.1 * h), z2)]
    elif kind == "fill":
        h = shapes.rect(x, y, s, s)
        items = [face(big, z1, h), face(h, z2)]
    elif kind == "bay":
        items = [face(shapes.ushape(x, y, 2 * s, 2 * s, 0.5 * s), z1), face(shapes.rect(x, y + 0.25 * s, 0.6 * s, 0.9 * s), z2)]
    elif kind == "corner":
        items = [face(shapes.lshape(x, y, 2 * s, 2 * s, 0.8 * s, 0.8 * s), z1), face(box(x + 0.45 * s, y + 0.45 * s, s, s), z2)]
    elif kind == "inside":
        items = [face(big, z1), face(box(x, y, s, s), z2)]
    elif kind == "stairs":
        items = [face(big, z1), face(shapes.rect(x, y, 1.3 * s, 1.3 * s), (z1 + z2) / 2), face(box(x, y, 0.7 * s, 0.7 * s), z2)]
    elif kind == "across":
        items = [face(big, z1), face(box(x + s, y + gen.q(rng, -s, s), s, s), z2)]
    elif kind == "split":
        items = [face(shapes.rect(x - s / 2, y, s, 2 * s), z1), face(shapes.rect(x + s / 2, y, s, 2 * s), rng.choice([z1, z1 + 0.5])),
                 face(box(x + gen.q(rng, -0.3, 0.3), y, s, s), z2)]
    else:
        items = [face(big, z1, shapes.rect(x, y, 1.2 * s, 1.2 * s)), face(shapes.rect(x, y, 1.2 * s, 1.2 * s), z2, shapes.rect(x, y, 0.4 * s, 0.4 * s)),
                 face(shapes.rect(x, y, 0.4 * s, 0.4 * s), z1 if rng.random() < 0.5 else z2 - 1)]
    rng.shuffle(items)
    step = dict(kind="pocket", items=items, **{"as": rng.choice(["list", "wp"])})
    if rng.random() < 0.4:
        step["outer_offset"] = rng.choice([0, -0.5])
    if rng.random() < 0.3:
        step["stepover"] = rng.choice([0.7, 1])
    if rng.random() < 0.25:
        step["avoid"] = [dict(outer=box(x + gen.q(rng, -s, s), y + gen.q(rng, -s, s), 0.6 * s, 0.6 * s).edges, holes=[], z=rng.choice([0, z1 / 2, z1, z2]), how="world")]
    if rng.random() < 0.75:
        step["stepdown"] = rng.choice([1, 1.5, 2, 0.7, -z1, -z2 / 2])
    return dict(job=j, steps=[step])


def studs_scenario(rng):
    """A round pocket with slim islands standing between its contours"""
    d = rng.choice([2, 3, 4])
    j = dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=300, tool_diameter=d)
    x, y = gen.q(rng, -9, 9), gen.q(rng, -9, 9)
    over = rng.choice([0.7, 1, 1.3])
    step, size = over * d / 2, gen.q(rng, 6, 9)
    out = rng.choice([None, 0, -0.5])
    first = size + offset(d / 2, out, -1)
    wall = rng.choice([0, 0, (0, 0.1)])
    extra = offset(d / 2, wall, 0)
    r = gen.q(rng, 0.2, 0.4) * step - extra
    k = rng.randrange(max(1, int(first / step) - 1))
    at = first - (k + gen.q(rng, 0.48, 0.52)) * step
    n = max(1, min(40, int(2 * math.pi * at / (2.8 * (r + extra)))))
    turn = rng.uniform(0, 2 * math.pi)
    place = lambda i: (x + at * math.cos(turn + 2 * math.pi * i / n), y + at * math.sin(turn + 2 * math.pi * i / n))
    stud = lambda i: rng.choice([shapes.circle(*place(i), r), shapes.rect(*place(i), 1.4 * r, 1.4 * r)]).edges
    studs = [stud(i) for i in range(n)]
    z = -rng.choice([1, 2, 2.5])
    step = dict(kind="pocket", outer_offset=out, stepover=over, **{"as": rng.choice(["list", "wp"])})
    if rng.random() < 0.7:
        step["items"] = [dict(outer=shapes.circle(x, y, size).edges, holes=studs, z=z, how=rng.choice(gen.HOWS))]
        step["inner_offset"] = wall
    else:
        step["items"] = [dict(outer=shapes.circle(x, y, size).edges, holes=[], z=z, how=rng.choice(gen.HOWS))]
        step["outer_offset"] = 0 if out is None else out
        step["avoid"] = [dict(outer=s, holes=[], z=rng.choice([0, z]), how="world") for s in studs]
        step["avoid_outer_offset"] = wall
    if step["outer_offset"] is None:
        del step["outer_offset"]
    if rng.random() < 0.3:
        step["stepdown"] = rng.choice([1, 0.7])
    return dict(job=j, steps=[step])


CELL = 6.0


def cell_scenario(rng, r):
    """A request of the pocket design on squares in a row"""
    j = dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=300, tool_diameter=2)
    run = lambda a, b: shapes.rect(CELL * (a + b) / 2, CELL / 2, CELL * (b - a + 1), CELL).edges
    items = [dict(outer=run(*a["run"]), holes=[], z=-a["d"], how=rng.choice(gen.HOWS)) for a in r["areas"]]
    step = dict(kind="pocket", items=items, outer_offset=0, avoid_outer_offset=0, stepover=rng.choice([1, 0.7]), **{"as": "list"})
    if r["avoids"]:
        step["avoid"] = [dict(outer=run(a["cell"], a["cell"]), holes=[], z=-a["top"], how="world") for a in r["avoids"]]
    if r["sd"]:
        step["stepdown"] = r["sd"]
    return dict(job=j, steps=[step])


def feasible(r):
    """Something is left to cut at every floor"""
    for d in {a["d"] for a in r["areas"]}:
        cells = {c for a in r["areas"] if a["d"] >= d for c in range(a["run"][0], a["run"][1] + 1)}
        if not cells - {a["cell"] for a in r["avoids"] if a["top"] <= d}:
            return False
    return True


def run(c, quick, thorough, replays=(150, 3000)):
    from . import models

    if c.replay:
        check(c, [c.replay["data"]], "replay", npts=600, nedge=100)
        return c.finish()
    reqs = [r for r in models.pocket_design(c) if feasible(r)]
    c.rng("model").shuffle(reqs)
    check(c, [cell_scenario(c.rng("cell", i), r) for i, r in enumerate(reqs[: c.n(*replays)])], "requests of the model", npts=60, nedge=20)
    check(c, [random_scenario(c.rng("random", i)) for i in range(c.n(quick, thorough))], "random pockets", npts=c.n(150, 250), nedge=c.n(40, 60))
    check(c, [nested_scenario(c.rng("nested", i)) for i in range(c.n(quick // 2, thorough))], "nested pockets", npts=c.n(150, 250), nedge=c.n(40, 60))
    check(c, [studs_scenario(c.rng("studs", i)) for i in range(c.n(quick // 6, quick))], "slim islands between contours", npts=c.n(80, 150), nedge=c.n(20, 40))
    return c.finish(["outlines are given to the specification as polygons within 2 micrometres", "avoid areas count with their outer outline only",
                     "stock is judged away from islands and avoid areas"])
