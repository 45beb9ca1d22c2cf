"""Moves of a program with integer coordinates (thousandths): arcs become chords."""
import math

from . import gcode


def ints(p):
    return [int(round(v * 1000)) for v in p]


def poly(outline, tol=0.002):
    """An outline as integer polygon without repeated points"""
    out = []
    for p in outline.points(tol):
        q = ints(p)
        if not out or out[-1] != q:
            out.append(q)
    if out[0] == out[-1]:
        out.pop()
    return out


def arc_points(mv, tol=2.0):
    """Intermediate points of an arc move, deviating at most tol; its length"""
    c = (mv["i"], mv["j"])
    a0 = math.atan2(mv["sy"] - c[1], mv["sx"] - c[0])
    a1 = math.atan2(mv["y"] - c[1], mv["x"] - c[0])
    r = math.dist(c, (mv["sx"], mv["sy"]))
    if mv["g"] == 3:
        while a1 <= a0 + 1e-12:
            a1 += 2 * math.pi
    else:
        while a1 >= a0 - 1e-12:
            a1 -= 2 * math.pi
    sweep = a1 - a0
    step = 2 * math.acos(max(0.0, 1 - tol / r)) if r > tol else 1.0
    n = max(1, math.ceil(abs(sweep) / step))
    pts = []
    for k in range(1, n):
        a = a0 + sweep * k / n
        pts.append([int(round(c[0] + r * math.cos(a))), int(round(c[1] + r * math.sin(a)))])
    pts.append([mv["x"], mv["y"]])
    return pts, abs(sweep) * r


def moves(text, tol=2.0):
    """[dict(g: 0 | 1, s, e, k: kind "rapid" | "line" | "arc", len, id: number of the printed move)], known starts only"""
    out = []
    for i, mv in enumerate(gcode.motion(gcode.read(text))):
        known = [mv["s" + a] if mv["s" + a] is not None else mv[a] for a in "xyz"]
        end = [mv[a] if mv[a] is not None else 0 for a in "xyz"]
        known = [v if v is not None else 0 for v in known]
        if mv["g"] in (2, 3):
            pts, length = arc_points(dict(mv, sx=known[0], sy=known[1]), tol)
            prev = known[:2]
            z0, z1 = known[2], end[2]
            for k, p in enumerate(pts):
                za, zb = z0 + (z1 - z0) * k // len(pts), z0 + (z1 - z0) * (k + 1) // len(pts)
                out.append(dict(g=1, s=prev + [za], e=p + [zb], k="arc", len=length / len(pts), id=i, c=[mv["i"], mv["j"]], dir=mv["g"], f=mv["f"]))
                prev = p
        else:
            out.append(dict(g=0 if mv["g"] == 0 else 1, s=known, e=end, k="rapid" if mv["g"] == 0 else "line",
                            len=math.dist(known, end), id=i, f=mv["f"]))
    return out
