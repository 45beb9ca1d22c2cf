"""Environment model of opencamlib (not installed here): the names 3D surfacing uses, with an exact flat-cutter drop."""
import math
import sys

import numpy as np


class MillingCutter:
    pass


class CylCutter(MillingCutter):
    def __init__(self, diameter, length):
        self.d = diameter

    def getDiameter(self):
        return self.d


class Point:
    def __init__(self, x, y, z):
        self.x, self.y, self.z = x, y, z


class CLPoint(Point):
    pass


class Triangle:
    def __init__(self, *p):
        self.p = p


class STLSurf:
    def __init__(self):
        self.t = []

    def addTriangle(self, t):
        self.t.append([(p.x, p.y, p.z) for p in t.p])


def drop_all(tris, pts, r):
    """Height of a flat cutter of radius r over the triangles at each of the points (-inf: nothing below)"""
    z = np.full(len(pts), -math.inf)
    P = np.array(pts, float).reshape(-1, 2)
    T = np.array(tris, float).reshape(-1, 3, 3)
    for a, b, c in T:
        for v in (a, b, c):
            m = np.hypot(P[:, 0] - v[0], P[:, 1] - v[1]) <= r
            z[m] = np.maximum(z[m], v[2])
        for u, v in ((a, b), (b, c), (c, a)):
            d = v - u
            l2 = d[0] ** 2 + d[1] ** 2
            if l2 == 0:
                continue
            f = u[:2] - P
            B = f @ d[:2] / l2
            D = B * B - ((f**2).sum(1) - r * r) / l2
            ok = D >= 0
            s = np.sqrt(np.where(ok, D, 0))
            for t in (-B - s, -B + s):
                m = ok & (t >= 0) & (t <= 1)
                z[m] = np.maximum(z[m], u[2] + t[m] * d[2])
        n = np.cross(b - a, c - a)
        if n[2] == 0:
            continue
        g = -n[:2] / n[2]
        l = np.hypot(*g)
        Q = P + (g / l * r if l > 0 else 0)
        w = [(q[0] - p[0]) * (Q[:, 1] - p[1]) - (q[1] - p[1]) * (Q[:, 0] - p[0]) for p, q in ((a, b), (b, c), (c, a))]
        m = (np.minimum.reduce(w) >= 0) | (np.maximum.reduce(w) <= 0)
        z[m] = np.maximum(z[m], a[2] + (Q[m] - a[:2]) @ g)
    return z


class BatchDropCutter:
    field = None  # heights given by a scenario instead of the triangles

    def __init__(self):
        self.pts = []

    def setCutter(self, c):
        self.c = c

    def appendPoint(self, p):
        self.pts.append(p)

    def setSTL(self, s):
        self.s = s

    def run(self):
        f = BatchDropCutter.field
        xy = [(p.x, p.y) for p in self.pts]
        z = [f(*p) for p in xy] if f else drop_all(self.s.t, xy, self.c.d / 2)
        self.pts = [CLPoint(p.x, p.y, max(p.z, h)) for p, h in zip(self.pts, z)]

    def getCLPoints(self):
        return self.pts


ocl = sys.modules[__name__]


def install():
    sys.modules["opencamlib"] = ocl
