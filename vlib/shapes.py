"""Scenario geometry in job coordinates, and its construction as cadquery shapes anywhere in the world.

An Outline is a closed loop of lines and arcs given by plain numbers; everything the specification is told about
a scenario comes from here and never from the code under test.
"""
import math

import cadquery as cq


def rnd(v, q=0.001):
    return round(round(v / q) * q, 6)


class Outline:
    """edges: ("L", p, q) | ("A", p, mid, q, centre, radius, ccw) | ("C", centre, radius, ccw)
    | ("B", p, control, control, q): a cubic Bezier curve, built as a spline"""

    def __init__(self, edges):
        self.edges = edges

    def reversed(self):
        out = []
        for e in reversed(self.edges):
            if e[0] == "L":
                out.append(("L", e[2], e[1]))
            elif e[0] == "B":
                out.append(("B", *e[:0:-1]))
            elif e[0] == "A":
                out.append(("A", e[3], e[2], e[1], e[4], e[5], not e[6]))
            else:
                out.append(("C", e[1], e[2], not e[3]))
        return Outline(out)

    def shifted(self, n):
        return Outline(self.edges[n:] + self.edges[:n])

    def translated(self, dx, dy):
        f = lambda p: (p[0] + dx, p[1] + dy)
        out = []
        for e in self.edges:
            if e[0] == "L":
                out.append(("L", f(e[1]), f(e[2])))
            elif e[0] == "B":
                out.append(("B", *map(f, e[1:])))
            elif e[0] == "A":
                out.append(("A", f(e[1]), f(e[2]), f(e[3]), f(e[4]), e[5], e[6]))
            else:
                out.append(("C", f(e[1]), e[2], e[3]))
        return Outline(out)

    def points(self, tol=0.004):
        """Polygon through the outline (first point not repeated); arcs deviate at most tol."""
        pts = []
        for e in self.edges:
            if e[0] == "L":
                pts.append(e[1])
            elif e[0] == "B":
                pts += bezier_points(e, tol)[:-1]
            else:
                pts += arc_points(e, tol)[:-1]
        return pts

    def area(self):
        p = self.points()
        return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1])) / 2

    def is_circle(self):
        return len(self.edges) == 1 and self.edges[0][0] == "C"

    def kinds(self):
        return "".join(e[0] for e in self.edges)

    def wire(self, z, to_world=None):
        f = to_world or (lambda v: v)
        V = lambda p: f(cq.Vector(p[0], p[1], z))
        es = []
        for e in self.edges:
            if e[0] == "L":
                es.append(cq.Edge.makeLine(V(e[1]), V(e[2])))
            elif e[0] == "B":
                es.append(spline([V(p) for p in e[1:]]))
            elif e[0] == "A":
                es.append(cq.Edge.makeThreePointArc(V(e[1]), V(e[2]), V(e[3])))
            else:
                c = V(e[1])
                n = f(cq.Vector(e[1][0], e[1][1], z + (1 if e[3] else -1))) - c
                return cq.Wire.makeCircle(e[2], c, n)
        return cq.Wire.assembleEdges(es)


def spline(poles):
    from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
    from OCP.Geom import Geom_BSplineCurve
    from OCP.TColgp import TColgp_Array1OfPnt
    from OCP.TColStd import TColStd_Array1OfInteger, TColStd_Array1OfReal

    ps, knots, mults = TColgp_Array1OfPnt(1, 4), TColStd_Array1OfReal(1, 2), TColStd_Array1OfInteger(1, 2)
    for i, p in enumerate(poles):
        ps.SetValue(i + 1, p.toPnt())
    for i in (0, 1):
        knots.SetValue(i + 1, i)
        mults.SetValue(i + 1, 4)
    return cq.Edge(BRepBuilderAPI_MakeEdge(Geom_BSplineCurve(ps, knots, mults, 3)).Edge())


def bezier_at(e, t):
    u = 1 - t
    w = (u * u * u, 3 * u * u * t, 3 * u * t * t, t * t * t)
    return tuple(sum(k * p[i] for k, p in zip(w, e[1:])) for i in (0, 1))


def bezier_points(e, tol):
    n = max(4, math.ceil(math.sqrt(bezier_bend(e) / (8 * tol))))
    return [bezier_at(e, k / n) for k in range(n + 1)]


def bezier_bend(e):
    """Bound of the second derivative"""
    return 6 * max(math.hypot(a[0] - 2 * b[0] + c[0], a[1] - 2 * b[1] + c[1]) for a, b, c in zip(e[1:], e[2:], e[3:]))


def arc_angles(e):
    if e[0] == "C":
        _, c, r, ccw = e
        return c, r, 0.0, (2 * math.pi if ccw else -2 * math.pi)
    _, p, m, q, c, r, ccw = e
    a0 = math.atan2(p[1] - c[1], p[0] - c[0])
    a1 = math.atan2(q[1] - c[1], q[0] - c[0])
    if ccw:
        while a1 <= a0:
            a1 += 2 * math.pi
    else:
        while a1 >= a0:
            a1 -= 2 * math.pi
    return c, r, a0, a1 - a0


def arc_points(e, tol):
    c, r, a0, sweep = arc_angles(e)
    step = 2 * math.acos(max(0.0, 1 - tol / r)) if tol < r else 1.0
    n = max(2, math.ceil(abs(sweep) / step))
    pts = [(c[0] + r * math.cos(a0 + sweep * k / n), c[1] + r * math.sin(a0 + sweep * k / n)) for k in range(n + 1)]
    if e[0] == "A":
        pts[0], pts[-1] = e[1], e[3]
    return pts


def arc(p, q, c, ccw):
    r = math.dist(p, c)
    a0 = math.atan2(p[1] - c[1], p[0] - c[0])
    a1 = math.atan2(q[1] - c[1], q[0] - c[0])
    if ccw:
        while a1 <= a0 + 1e-9:
            a1 += 2 * math.pi
    else:
        while a1 >= a0 - 1e-9:
            a1 -= 2 * math.pi
    am = (a0 + a1) / 2
    return ("A", p, (c[0] + r * math.cos(am), c[1] + r * math.sin(am)), q, c, r, ccw)


# ---- outline kinds (counterclockwise) ----
def polygon(pts):
    return Outline([("L", a, b) for a, b in zip(pts, pts[1:] + pts[:1])])


def rect(cx, cy, w, h, ang=0.0):
    c, s = math.cos(ang), math.sin(ang)
    P = [(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)]
    return polygon([(rnd(cx + c * x - s * y), rnd(cy + s * x + c * y)) for x, y in P])


def circle(cx, cy, r):
    return Outline([("C", (cx, cy), r, True)])


def two_arc_circle(cx, cy, r):
    p, q = (cx + r, cy), (cx - r, cy)
    return Outline([arc(p, q, (cx, cy), True), arc(q, p, (cx, cy), True)])


def slot(cx, cy, l, r):
    a, b, c, d = (cx - l / 2, cy - r), (cx + l / 2, cy - r), (cx + l / 2, cy + r), (cx - l / 2, cy + r)
    return Outline([("L", a, b), arc(b, c, (cx + l / 2, cy), True), ("L", c, d), arc(d, a, (cx - l / 2, cy), True)])


def rounded(cx, cy, w, h, r):
    x0, x1, y0, y1 = cx - w / 2, cx + w / 2, cy - h / 2, cy + h / 2
    P = [(x0 + r, y0), (x1 - r, y0), (x1, y0 + r), (x1, y1 - r), (x1 - r, y1), (x0 + r, y1), (x0, y1 - r), (x0, y0 + r)]
    C = [(x1 - r, y0 + r), (x1 - r, y1 - r), (x0 + r, y1 - r), (x0 + r, y0 + r)]
    es = []
    for k in range(4):
        es.append(("L", P[2 * k], P[2 * k + 1]))
        es.append(arc(P[2 * k + 1], P[(2 * k + 2) % 8], C[k], True))
    return Outline(es)


def dshape(cx, cy, r, cut):
    """A circle with a flat: more than half a turn for cut > 0, less for cut < 0"""
    y = math.sqrt(r * r - cut * cut)
    p, q = (cx - cut, cy - y), (cx - cut, cy + y)
    return Outline([arc(p, q, (cx, cy), True), ("L", q, p)])


def lshape(cx, cy, w, h, a, b):
    x0, y0 = cx - w / 2, cy - h / 2
    return polygon([(x0, y0), (x0 + w, y0), (x0 + w, y0 + b), (x0 + a, y0 + b), (x0 + a, y0 + h), (x0, y0 + h)])


def notched(cx, cy, w, h, r):
    """Rectangle with a concave arc bitten out of its top edge"""
    x0, x1, y0, y1 = cx - w / 2, cx + w / 2, cy - h / 2, cy + h / 2
    P = [(x0, y0), (x1, y0), (x1, y1), (cx + r, y1), (cx - r, y1), (x0, y1)]
    return Outline([("L", P[0], P[1]), ("L", P[1], P[2]), ("L", P[2], P[3]), arc(P[3], P[4], (cx, y1), False),
                    ("L", P[4], P[5]), ("L", P[5], P[0])])


def star(rng, cx, cy, r0, r1, n):
    pts = []
    for k in range(n):
        a = 2 * math.pi * (k + rng.uniform(-0.25, 0.25)) / n
        r = rng.uniform(r0, r1)
        pts.append((rnd(cx + r * math.cos(a), 0.01), rnd(cy + r * math.sin(a), 0.01)))
    return polygon(pts)


def ushape(cx, cy, w, h, t):
    x0, x1, y0, y1 = cx - w / 2, cx + w / 2, cy - h / 2, cy + h / 2
    return polygon([(x0, y0), (x1, y0), (x1, y1), (x1 - t, y1), (x1 - t, y0 + t), (x0 + t, y0 + t), (x0 + t, y1), (x0, y1)])


def dumbbell(cx, cy, s, n, l):
    """Two squares of side s joined by a neck of width n and length l"""
    a, b = l / 2, l / 2 + s
    return polygon([(cx - b, cy - s / 2), (cx - a, cy - s / 2), (cx - a, cy - n / 2), (cx + a, cy - n / 2),
                    (cx + a, cy - s / 2), (cx + b, cy - s / 2), (cx + b, cy + s / 2), (cx + a, cy + s / 2),
                    (cx + a, cy + n / 2), (cx - a, cy + n / 2), (cx - a, cy + s / 2), (cx - b, cy + s / 2)])


def wave(rng, cx, cy, w, h):
    """A rectangle with curved sides"""
    o, es = rect(cx, cy, w, h), []
    for k, (_, a, b) in enumerate(o.edges):
        if rng.random() < 0.4 and k:
            es.append(("L", a, b))
            continue
        dx, dy = b[0] - a[0], b[1] - a[1]
        at = lambda t, d: (rnd(a[0] + t * dx + d * dy), rnd(a[1] + t * dy - d * dx))
        d = rng.uniform(-0.25, 0.25)
        es.append(("B", a, at(0.33, d), at(0.67, rng.choice([d, -d])), b))
    return Outline(es)


def blob(rng, cx, cy, s):
    """A smooth closed curve of several splines"""
    n = rng.choice([3, 4, 5])
    P = [(cx + s * r * math.cos(a), cy + s * r * math.sin(a)) for r, a in ((rng.uniform(0.6, 0.95), 2 * math.pi * k / n) for k in range(n))]
    P = [(rnd(x), rnd(y)) for x, y in P]
    k = 1 / 5
    T = [((P[(i + 1) % n][0] - P[i - 1][0]) * k, (P[(i + 1) % n][1] - P[i - 1][1]) * k) for i in range(n)]
    return Outline([("B", P[i], (P[i][0] + T[i][0], P[i][1] + T[i][1]),
                     (P[(i + 1) % n][0] - T[(i + 1) % n][0], P[(i + 1) % n][1] - T[(i + 1) % n][1]), P[(i + 1) % n]) for i in range(n)])


def bezier_radius(e, n=200):
    """The smallest radius of curvature along a cubic Bezier edge"""
    _, a, b, c, d = e
    best = math.inf
    for i in range(n + 1):
        t = i / n
        u = 1 - t
        v = [3 * (u * u * (b[k] - a[k]) + 2 * u * t * (c[k] - b[k]) + t * t * (d[k] - c[k])) for k in (0, 1)]
        w = [6 * (u * (c[k] - 2 * b[k] + a[k]) + t * (d[k] - 2 * c[k] + b[k])) for k in (0, 1)]
        z = abs(v[0] * w[1] - v[1] * w[0])
        if z:
            best = min(best, math.hypot(*v) ** 3 / z)
    return best


SPLINES = ["wave", "blob"]
KINDS = ["rect", "tilted", "circle", "circle2", "slot", "rounded", "dshape", "lshape", "notched", "star", "ushape", "dumbbell", "tri"]


def rand_outline(rng, cx, cy, size, kinds=None):
    """An outline fitting into the square of the given half size around (cx, cy)"""
    for _ in range(50):
        o = _rand_outline(rng, cx, cy, size, kinds)
        if min(edge_length(e) for e in o.edges) > 0.02:
            return o
    return circle(cx, cy, max(0.05, 0.7 * size))


def edge_length(e):
    if e[0] == "L":
        return math.dist(e[1], e[2])
    if e[0] == "B":
        return math.dist(e[1], e[4])
    c, r, a0, sweep = arc_angles(e)
    return r * abs(sweep)


def _rand_outline(rng, cx, cy, size, kinds=None):
    kind = rng.choice(kinds or KINDS)
    q = lambda lo, hi: rnd(rng.uniform(lo, hi), 0.05)
    s = size
    if kind == "rect":
        o = rect(cx, cy, q(0.8 * s, 1.9 * s), q(0.8 * s, 1.9 * s))
    elif kind == "tilted":
        o = rect(cx, cy, q(0.7 * s, 1.3 * s), q(0.7 * s, 1.3 * s), rng.uniform(0, math.pi))
    elif kind == "circle":
        o = circle(cx, cy, q(0.5 * s, 0.95 * s))
    elif kind == "circle2":
        o = two_arc_circle(cx, cy, q(0.5 * s, 0.95 * s))
    elif kind == "slot":
        r = q(0.3 * s, 0.6 * s)
        o = slot(cx, cy, q(0.4 * s, 1.9 * s - 2 * r), r)
    elif kind == "rounded":
        w, h = q(1.0 * s, 1.9 * s), q(1.0 * s, 1.9 * s)
        o = rounded(cx, cy, w, h, rnd(min(w, h) * rng.uniform(0.1, 0.4), 0.05))
    elif kind == "dshape":
        r = q(0.6 * s, 0.95 * s)
        o = dshape(cx, cy, r, rnd(r * rng.uniform(-0.2, 0.7), 0.05))
    elif kind == "lshape":
        w, h = q(1.4 * s, 1.9 * s), q(1.4 * s, 1.9 * s)
        o = lshape(cx, cy, w, h, rnd(w * rng.uniform(0.4, 0.6), 0.05), rnd(h * rng.uniform(0.4, 0.6), 0.05))
    elif kind == "notched":
        w, h = q(1.4 * s, 1.9 * s), q(1.4 * s, 1.9 * s)
        o = notched(cx, cy, w, h, rnd(min(w, h) * rng.uniform(0.2, 0.35), 0.05))
    elif kind == "star":
        o = star(rng, cx, cy, 0.55 * s, 0.95 * s, rng.randint(5, 9))
    elif kind == "ushape":
        w, h = q(1.5 * s, 1.9 * s), q(1.5 * s, 1.9 * s)
        o = ushape(cx, cy, w, h, rnd(w * rng.uniform(0.3, 0.36), 0.05))
    elif kind == "dumbbell":
        k = q(0.6 * s, 0.75 * s)
        o = dumbbell(cx, cy, k, rnd(k * rng.uniform(0.3, 0.7), 0.05), q(0.2 * s, 0.35 * s))
    elif kind == "wave":
        o = wave(rng, cx, cy, q(0.8 * s, 1.3 * s), q(0.8 * s, 1.3 * s))
    elif kind == "blob":
        o = blob(rng, cx, cy, s)
    else:
        o = star(rng, cx, cy, 0.7 * s, 0.95 * s, 3)
    if rng.random() < 0.5 and len(o.edges) > 1:
        o = o.shifted(rng.randrange(len(o.edges)))
    if rng.random() < 0.4:
        o = o.reversed()
    return o


# ---- placement ----
def rand_plane(rng, mode=None):
    mode = mode or rng.choice(["id", "shift", "quarter", "flip", "any", "any"])
    V = cq.Vector
    u = lambda s: rnd(rng.uniform(-s, s), 0.01)
    if mode == "id":
        return cq.Plane(V(0, 0, 0), V(1, 0, 0), V(0, 0, 1))
    o = V(u(80), u(80), u(80))
    if mode == "shift":
        return cq.Plane(o, V(1, 0, 0), V(0, 0, 1))
    if mode == "quarter":
        n = rng.choice([V(1, 0, 0), V(-1, 0, 0), V(0, 1, 0), V(0, -1, 0)])
        return cq.Plane(o, rng.choice([V(0, 0, 1), V(0, 0, -1)]), n)
    if mode == "flip":
        a = rng.uniform(0, 2 * math.pi)
        return cq.Plane(o, V(math.cos(a), math.sin(a), 0), V(0, 0, -1))
    n = V(rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)).normalized()
    x = n.cross(V(rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1))).normalized()
    return cq.Plane(o, x, n)


def place(shape, plane):
    return shape.moved(cq.Location(plane))


def bake(shape, plane):
    """Moved into place without a location"""
    from OCP.BRepBuilderAPI import BRepBuilderAPI_Transform

    return cq.Shape.cast(BRepBuilderAPI_Transform(shape.wrapped, cq.Location(plane).wrapped.Transformation(), True).Shape())


def place_twice(shape, plane):
    """Moved into place in two steps"""
    a = cq.Location(cq.Plane(cq.Vector(3, -7, 11), cq.Vector(0, 1, 0), cq.Vector(1, 0, 0)))
    return shape.moved(a).moved(cq.Location(plane) * a.inverse)


PLACES = dict(moved=place, baked=bake, twice=place_twice)


def build_wire(outline, z, plane, how, reverse=False):
    if how == "world":
        w = outline.wire(z, plane.toWorldCoords)
    else:
        w = PLACES[how](outline.wire(z), plane)
    if reverse:
        w = cq.Wire(w.wrapped.Reversed())
    return w


def build_face(outer, holes, z, plane, how):
    """how: world (built in place), moved (built at the origin, then located), solid (bottom of an extrusion),
    top (top of an extrusion)"""
    if how == "world":
        return cq.Face.makeFromWires(outer.wire(z, plane.toWorldCoords), [h.wire(z, plane.toWorldCoords) for h in holes])
    if how in PLACES:
        return PLACES[how](cq.Face.makeFromWires(outer.wire(z), [h.wire(z) for h in holes]), plane)
    up = how == "solid"
    s = cq.Solid.extrudeLinear(outer.wire(z), [h.wire(z) for h in holes], cq.Vector(0, 0, 3 if up else -3))
    s = place(s, plane)
    want = plane.zDir * (-1 if up else 1)
    for f in s.Faces():
        if f.geomType() == "PLANE" and abs(f.normalAt().dot(want) - 1) < 1e-6:
            if abs(plane.toLocalCoords(f.Center()).z - z) < 1e-6:
                return f
    raise RuntimeError("no face")
