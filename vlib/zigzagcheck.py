"""Walks along real boundaries and fillings by the real zig-zag strategy -> TraceZigzag (C15)."""
import math

from . import gen, scenario, shapes, tlc
from .pool import Failed, run_many

um = lambda v: int(round(v * 1000))


class Task:
    def __init__(self, diameter, stepover):
        self._tool_diameter, self.stepover = diameter, stepover


def on_side(a, b, q):
    return ((b[0] - a[0]) * (q[1] - a[1]) == (b[1] - a[1]) * (q[0] - a[0]) and min(a[0], b[0]) <= q[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= q[1] <= max(a[1], b[1]))


def execute_ring(h):
    """h: poly, links, ops: ["query", k] | ["reset"] | ["reset", k] | ["drop", k]; k picks one of the unused points"""
    from cq_cam.utils.linked_polygon import LinkedPolygon

    f = lambda p: (float(p[0]), float(p[1]))
    ints = lambda p: [int(p[0]), int(p[1])]
    poly = [f(p) for p in h["poly"]]
    closed = poly + poly[:1]
    lp = LinkedPolygon(closed[:])
    for q in h["links"]:
        for a, b in zip(closed, closed[1:]):
            if on_side(a, b, q):
                lp.link_point(f(q), a, b)
                break
    links = [f(p) for p in h["links"]]
    lp.reset()
    unused = sorted(links)
    steps = [dict(op="reset", p=[0, 0], none=True, walk=[])]
    for op in h["ops"]:
        if op[0] == "reset":
            start = links[op[1] % len(links)] if len(op) > 1 else None
            lp.reset(start) if start else lp.reset()
            unused = sorted(p for p in links if p != start)
            steps.append(dict(op="reset", p=[0, 0], none=True, walk=[ints(start)] if start else []))
            continue
        if not unused:
            continue
        p = unused[op[1] % len(unused)]
        unused.remove(p)
        if op[0] == "drop":
            lp.drop(p)
            steps.append(dict(op="drop", p=ints(p), none=True, walk=[]))
            continue
        w = lp.nearest_linked(p)
        steps.append(dict(op="query", p=ints(p), none=w is None, walk=[ints(v) for v in w or []]))
        if w and w[-1] in unused:
            unused.remove(w[-1])
    return dict(kind="ring", poly=h["poly"], links=h["links"], steps=steps)


def random_ring(rng):
    # corners on a lattice of 12: the sides contain many integer points
    n = rng.randint(3, 8)
    pts = []
    while len(pts) < 3:
        angles = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        pts = []
        for t in angles:
            r = rng.uniform(0.4, 1) * 10
            p = [12 * round(r * math.cos(t)), 12 * round(r * math.sin(t))]
            if p not in pts:
                pts.append(p)
        P = gen_polygon(pts)
        if not P.is_valid or P.area < 100:
            pts = []
    if rng.random() < 0.5:
        pts.reverse()
    cand = []
    for a, b in zip(pts, pts[1:] + pts[:1]):
        g = math.gcd(b[0] - a[0], b[1] - a[1])
        cand += [[a[0] + (b[0] - a[0]) // g * k, a[1] + (b[1] - a[1]) // g * k] for k in range(g)]
    rng.shuffle(cand)
    links = cand[: rng.choice([1, 2, 3, 5, 8, 14])]
    ops = []
    for _ in range(rng.choice([3, 8, 20])):
        x = rng.random()
        ops.append(["query", rng.randint(0, 20)] if x < 0.8 else ["reset"] if x < 0.87 else ["reset", rng.randint(0, 20)] if x < 0.93 else ["drop", rng.randint(0, 20)])
    return dict(poly=pts, links=links, ops=ops)


def gen_polygon(pts):
    from shapely.geometry import Polygon

    return Polygon(pts) if len(pts) > 2 else Polygon()


def execute_fill(sc):
    from cq_cam.operations.strategy import ZigZagStrategy

    def boundary(b):
        if "points" in b:
            p = [(float(x), float(y)) for x, y in b["points"]]
            return p + p[:1]
        plane = scenario.plane_of([[0, 0, 0], [1, 0, 0], [0, 0, 1]])
        return shapes.build_wire(scenario.outline(b["outline"]), b.get("z", 0), plane, b.get("how", "world"), b.get("reverse", False))

    def pts(b):
        p = b["points"] if "points" in b else scenario.outline(b["outline"]).points(0.0005)
        return [[um(x), um(y)] for x, y in p]

    seqs = ZigZagStrategy.process(Task(sc["diameter"], sc["stepover"]), [boundary(b) for b in sc["outers"]], [boundary(b) for b in sc["inners"]])
    outers, inners = [pts(b) for b in sc["outers"]], [pts(b) for b in sc["inners"]]
    xs = [x for o in outers for x, _ in o]
    lo, hi = min(xs), max(xs)
    n = sc["n"]
    return dict(kind="fill", outers=outers, inners=inners, step=um(sc["diameter"] * sc["stepover"]), tol=sc["tol"],
                xs=[lo + (hi - lo) * (2 * i + 1) // (2 * n) for i in range(n)],
                seqs=[[[um(x), um(y)] for x, y in s] for s in seqs])


def star(rng, x, y, R, q):
    while True:
        n = rng.randint(3, 9)
        pts = []
        for t in sorted(rng.uniform(0, 2 * math.pi) for _ in range(n)):
            r = rng.uniform(0.3, 1) * R
            p = [round(x + round(r * math.cos(t) / q) * q, 6), round(y + round(r * math.sin(t) / q) * q, 6)]
            if p not in pts:
                pts.append(p)
        P = gen_polygon(pts)
        if P.is_valid and P.area > 4 and P.buffer(-0.1).geom_type == "Polygon":
            return pts


def random_fill(rng):
    kind = rng.choice(["star", "star", "star", "cells", "wire"])
    d, so = rng.choice([(2, 0.5), (1, 0.5), (2, 0.35), (3, 0.4), (1, 1), (2, 1)])
    sc = dict(diameter=d, stepover=so, n=60, tol=0, inners=[])
    q = rng.choice([1, 0.5, 0.1, 0.001])
    x0, y0 = gen.q(rng, -20, 20, q), gen.q(rng, -20, 20, q)
    if kind == "star":
        regions = [star(rng, x0, y0, 8, q)]
        if rng.random() < 0.35:
            dx, dy = rng.choice([(18, 0), (18, 3), (0, 18), (17, -6)])
            regions.append(star(rng, x0 + dx, y0 + dy, 8, q))
        sc["outers"] = [dict(points=p) for p in regions]
        for p in regions:
            if rng.random() < 0.4:
                inner = gen_polygon(p).buffer(-1.2)
                if not inner.is_empty and inner.geom_type == "Polygon":
                    c = inner.representative_point()
                    e = rng.choice([0.5, 0.8, 1.1])
                    cx, cy = round(round(c.x / q) * q, 6), round(round(c.y / q) * q, 6)
                    h = [[cx - e, cy - e], [cx + e, cy - e], [cx + e, cy + e], [cx - e, cy + e]]
                    if rng.random() < 0.4:
                        h = [[cx - e, cy], [cx, cy - e], [cx + e, cy], [cx, cy + e]]
                    if gen_polygon(p).buffer(-0.05).contains(gen_polygon(h)):
                        sc["inners"].append(dict(points=h if rng.random() < 0.5 else h[::-1]))
    elif kind == "cells":
        sc["outers"] = [dict(points=[[x0 + x * 1.5, y0 + y * 1.5] for x, y in rng.choice(CELLS)])]
    else:
        o = shapes.rand_outline(rng, x0, y0, rng.choice([4, 9]), kinds=["rect", "circle", "slot", "rounded", "dshape", "lshape", "notched", "star", "ushape", "dumbbell"])
        sc["outers"] = [dict(outline=o.edges, how=rng.choice(["world", "moved"]), reverse=rng.random() < 0.5)]
        # the strategy follows curves every tenth of a millimetre
        sc["tol"] = 8
    for b in sc["outers"]:
        if "points" in b:
            k = rng.randrange(len(b["points"]))
            b["points"] = b["points"][k:] + b["points"][:k]
            if rng.random() < 0.4:
                b["points"].reverse()
    return sc


CELLS = [
    [[0, 0], [6, 0], [6, 4], [4, 4], [4, 2], [2, 2], [2, 4], [0, 4]],
    [[0, 0], [1, 0], [1, 2], [2, 2], [2, 0], [3, 0], [3, 2], [4, 2], [4, 0], [5, 0], [5, 4], [0, 4]],
    [[0, 0], [4, 0], [4, 1], [1, 1], [1, 2], [4, 2], [4, 5], [0, 5], [0, 4], [3, 4], [3, 3], [0, 3]],
    [[0, 0], [3, 3], [6, 0], [6, 5], [3, 4], [0, 5]],
    [[0, 2], [2, 0], [4, 2], [6, 0], [8, 2], [6, 4], [4, 3], [2, 4]],
]


def model_fill(rng, r):
    s = rng.choice([1, 2, 0.7])
    x0, y0 = gen.q(rng, -20, 20), gen.q(rng, -20, 20)

    def b(p):
        p = [[round(x0 + x / 1000 * s, 6), round(y0 + y / 1000 * s, 6)] for x, y in p]
        k = rng.randrange(len(p))
        p = p[k:] + p[:k]
        return dict(points=p if rng.random() < 0.5 else p[::-1])

    return dict(diameter=2, stepover=rng.choice([0.5, 0.25, 0.35]), n=40, tol=0, outers=[b(p) for p in r["outers"]], inners=[b(p) for p in r["inners"]])


def check(c, items, label, fn):
    results = dict(run_many(fn, items, timeout=60))
    traces, idx = [], []
    for i, it in enumerate(items):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind != "long":
                c.violation(f"{label}:{r.kind}", f"{label} {i}: {r}", it)
            continue
        traces.append(r)
        idx.append(i)
    v, st = tlc.check_traces("TraceZigzag", traces, batch=3000)
    c.count_traces(len(traces), st)
    failed, count = {}, 0
    for k, rec in v.items():
        count += rec["count"]
        for b in rec["bad"]:
            failed[b["c"]] = failed.get(b["c"], 0) + 1
            c.violation(b["c"], f"{label} {idx[k]}: clause {b['c']} fails at step {b['n']}", items[idx[k]])
    if traces and count <= 2 * len(traces):
        raise RuntimeError("vacuous: nothing was walked or filled")
    c.coverage[label] = dict(traces=len(traces), steps=count, clauses_failed=failed)
    if traces:
        t = traces[0]
        c.samples.append(dict(scenario=label, **{k: t[k] for k in (("poly", "links", "steps") if t["kind"] == "ring" else ("outers", "step", "seqs"))}))


def run(c):
    from . import models

    if c.replay:
        d = c.replay["data"]
        check(c, [d], "replay", execute_ring if "poly" in d else execute_fill)
        return c.finish()
    rings, regions = models.zigzag_design(c)
    rng = c.rng("rings")
    rng.shuffle(rings)
    check(c, [dict(poly=r["poly"], links=r["links"], ops=[["query", k] for k in r["picks"]]) for r in rings[: c.n(6000, 10**6)]], "boundaries of the model", execute_ring)
    check(c, [random_ring(c.rng("ring", i)) for i in range(c.n(1500, 20000))], "random boundaries", execute_ring)
    check(c, [model_fill(c.rng("region", i), regions[i % len(regions)]) for i in range(c.n(80, 1000))], "regions of the model", execute_fill)
    check(c, [random_fill(c.rng("fill", i)) for i in range(c.n(300, 6000))], "random regions", execute_fill)
    models.geometry(c)
    return c.finish(["the boundaries of a region are simple, closed and do not cross each other"])
