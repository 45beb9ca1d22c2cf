"""Random scenarios. Sizes are chosen so that every request is valid (offsets do not make outlines degenerate)."""
import math

from shapely.geometry import Polygon

from . import shapes
from .scenario import plane_json
from .shapes import rnd

NAMES = ["Job", "My job", "part 7", "A - B", "(x)", "50% ø", "a;b", "top\nside", "M30", ""]


def q(rng, lo, hi, step=0.05):
    return rnd(rng.uniform(lo, hi), step)


def rand_job(rng, mode=None, tool_diameter=None, simple=False):
    pl = shapes.rand_plane(rng, mode)
    j = dict(plane=plane_json(pl), feed=rng.choice([100, 300, 750, 1200.5]), tool_diameter=tool_diameter or rng.choice([1, 2, 3, 3.175]))
    j["op_safe_height"] = rng.choice([0.5, 1, 2, 3.5])
    j["rapid_height"] = j["op_safe_height"] + rng.choice([0, 0.5, 4, 9])
    if rng.random() < 0.3:
        del j["op_safe_height"], j["rapid_height"]
    if rng.random() < 0.7:
        j["plunge_feed"] = rng.choice([40, 55.5, 300])
    if rng.random() < 0.8:
        j["speed"] = rng.choice([5000, 12000, 18000])
    if rng.random() < 0.6:
        j["tool_number"] = rng.choice([1, 2, 3, 0, 11])
    if rng.random() < 0.6:
        j["coolant"] = rng.choice(["M7", "M8", "M9"])
    if not simple:
        if rng.random() < 0.5:
            j["unit"] = rng.choice(["G20", "G21"])
        if rng.random() < 0.5:
            j["wcs"] = rng.choice(["G54", "G55", "G56", "G57", "G58", "G59"])
        if rng.random() < 0.5:
            j["path"] = rng.choice(["G61", "G61.1", "G64"])
        if rng.random() < 0.6:
            j["name"] = rng.choice(NAMES)
    return j


def rand_tool(rng, fields=None):
    t = {}
    f = fields if fields is not None else [k for k in ("tool_diameter", "tool_number", "feed", "speed") if rng.random() < 0.5]
    if "tool_diameter" in f:
        t["tool_diameter"] = rng.choice([1, 2, 2.01, 3, 3.1])
    if "tool_number" in f:
        t["tool_number"] = rng.choice([1, 2, 3, 0, 11, 101])
    if "feed" in f:
        t["feed"] = rng.choice([100, 100.5, 300, 300.4, 301, 750])
    if "speed" in f:
        t["speed"] = rng.choice([5000, 12000, 12001, 12050, 18000, 18100])
    return t


def polygon(o, tol=0.002):
    return Polygon(o.points(tol))


def offset_ok(o, d):
    """The outline offset by d (outward positive) stays one outline without degenerating, also a little beyond."""
    p = polygon(o)
    for k in (d, d * 1.15 + math.copysign(0.05, d or 1)):
        b = p.buffer(k, quad_segs=32, join_style=1)
        if b.is_empty or b.geom_type != "Polygon" or len(b.interiors):
            return False
        # opening back must reproduce the size: no neck got lost
    if d < 0:
        back = p.buffer(d, quad_segs=64).buffer(-d, quad_segs=64)
        if back.area < 0.6 * p.area:
            return False
    return True


def outlines_json(o):
    return o.edges


HOWS = ["world", "moved", "solid", "top"]


def rand_face(rng, cx, cy, size, z, radius, kinds=None, holes=None, clear=None):
    """A face with holes that keep at least `clear` from each other and from the boundary"""
    outer = shapes.rand_outline(rng, cx, cy, size, kinds)
    P = polygon(outer)
    hs = []
    want = rng.choice([0, 0, 1, 1, 2, 3]) if holes is None else holes
    clear = 0.3 if clear is None else clear
    for _ in range(want * 6):
        if len(hs) >= want:
            break
        r = q(rng, 0.12 * size, 0.4 * size)
        x0, y0, x1, y1 = P.bounds
        hx, hy = q(rng, x0, x1), q(rng, y0, y1)
        h = shapes.rand_outline(rng, hx, hy, r, kinds)
        H = polygon(h)
        if H.is_valid and P.buffer(-clear).contains(H) and all(H.distance(polygon(g)) > clear for g in hs):
            hs.append(h)
    return dict(outer=outer.edges, holes=[h.edges for h in hs], z=z, how=rng.choice(HOWS))


def rand_depth(rng, lo=0.3, hi=6):
    return -rng.choice([q(rng, lo, hi, 0.1), q(rng, lo, hi, 0.05), q(rng, lo, hi, 0.001), rng.choice([1, 2, 3, 4])])


def rand_tabs(rng, length, depth):
    """length: of the shortest cut path the tabs are for"""
    h = q(rng, 0.1 * depth, 1.2 * depth)
    if rng.random() < 0.6:
        count = rng.randint(1, 6)
        w = q(rng, 0.03 * length / count, 0.7 * length / count, 0.01)
        return dict(kind="wire", count=count, width=max(w, 0.05), height=max(h, 0.1))
    s = q(rng, 0.08 * length, 0.5 * length)
    t = dict(kind="edge", spacing=max(s, 0.2), height=max(h, 0.1))
    t["width"] = rnd(t["spacing"] * rng.uniform(0.1, 0.9), 0.01)
    only = rng.choice([None, None, "LINE", "CIRCLE"])
    if only:
        t["only"] = only
    return t


def valid_offset(rng, o, radius, choices):
    ok = [c for c in choices if offset_ok(o, c * radius)]
    return rng.choice(ok) if ok else 0


def rand_profile(rng, radius, cx=0, cy=0, size=None, nfaces=None, tabs=None, stepdown=None, kinds=None, wires=False):
    """A profile (or wire profile) step; offsets are valid for all outlines at once."""
    n = nfaces or rng.choice([1, 1, 1, 2, 3])
    size = size or q(rng, 3.5 * radius, 12 * radius)
    items, outers, inners = [], [], []
    for k in range(n):
        x, y = cx + rnd(k * 2.6 * size + rng.uniform(-0.2, 0.2), 0.01), cy + rnd(rng.uniform(-size, size), 0.01)
        z = rand_depth(rng)
        if wires or rng.random() < 0.3:
            o = shapes.rand_outline(rng, x, y, size, kinds)
            items.append(dict(outline=o.edges, z=z, how=rng.choice(["world", "moved"]), reverse=rng.random() < 0.3))
            outers.append(o)
        else:
            f = rand_face(rng, x, y, size, z, radius, kinds)
            items.append(f)
            outers.append(shapes.Outline(f["outer"]))
            inners += [shapes.Outline(h) for h in f["holes"]]
    # face outer wires and wires run either way; offsets go to the outer side for positive values
    def common(os, choices):
        ok = [c for c in choices if all(offset_ok(o, c * radius) for o in os)]
        return rng.choice(ok) if ok else 0

    step = dict(kind="wire" if wires else "profile", items=items, **{"as": rng.choice(["list", "wp", "one"])})
    if wires and step["as"] == "wp":
        step["as"] = "list"
    po = [1, 1, 1, 0, -1, 1.5, 0.5, -0.5, 2]
    pi = [-1, -1, -1, 0, 1, -0.5, -1.5, 0.5]
    if wires:
        step["offset"] = common(outers, po)
        used = [(o, step["offset"]) for o in outers]
    else:
        step["outer_offset"] = common(outers, po)
        step["inner_offset"] = common(inners, pi)
        r = rng.random()
        if r < 0.12 and inners:
            step["outer_offset"] = None
        elif r < 0.25:
            step["inner_offset"] = None
        used = [(o, step["outer_offset"]) for o in outers if step["outer_offset"] is not None]
        used += [(o, step["inner_offset"]) for o in inners if step["inner_offset"] is not None]
    depth = max(-it["z"] for it in items)
    if stepdown if stepdown is not None else rng.random() < 0.6:
        sd = rng.choice([q(rng, 0.15 * depth, 1.3 * depth, 0.05), depth / rng.choice([1, 2, 3, 4]), 0.5, 1])
        step["stepdown"] = max(sd, depth / 40)
    if tabs if tabs is not None else rng.random() < 0.4:
        L = min(polygon(o).buffer(c * radius).exterior.length for o, c in used) if used else 10
        step["tabs"] = rand_tabs(rng, L, depth)
    return step


def rand_pocket(rng, radius, cx=0, cy=0, size=None, rich=True):
    size = size or q(rng, 3 * radius, 8 * radius)
    n = rng.choice([1, 1, 1, 2, 2, 3]) if rich else 1
    items = []
    for k in range(n):
        s = size if k == 0 else size * rng.uniform(0.4, 1)
        x, y = (cx, cy) if k == 0 else (cx + q(rng, -1.8 * size, 1.8 * size), cy + q(rng, -1.2 * size, 1.2 * size))
        z = rand_depth(rng) if k == 0 or rng.random() < 0.6 else items[0]["z"]
        items.append(rand_face(rng, x, y, s, z, radius))
    step = dict(kind="pocket", items=items, **{"as": rng.choice(["list", "wp", "one"])})
    if rich:
        if rng.random() < 0.35:
            av = []
            for _ in range(rng.choice([1, 1, 2])):
                s = size * rng.uniform(0.15, 0.6)
                z = rng.choice([0, 0, items[0]["z"], rnd(items[0]["z"] * rng.uniform(0.2, 0.9), 0.05), rnd(items[0]["z"] * 1.5, 0.05)])
                o = shapes.rand_outline(rng, cx + q(rng, -size, size), cy + q(rng, -size, size), s)
                av.append(dict(outer=o.edges, holes=[], z=z, how="world"))
            step["avoid"] = av
        r = rng.random()
        if r < 0.3:
            step["outer_offset"] = rng.choice([-1, 0, -1.5, -0.5, 0.5, 1, [-1, -0.3], [0, 0.4]])
        r = rng.random()
        if r < 0.3:
            step["inner_offset"] = rng.choice([1, 0, 1.5, 0.5, [1, 0.25], [0, 0.5]])
        r = rng.random()
        if r < 0.3 and "avoid" in step:
            step["avoid_outer_offset"] = rng.choice([1, 0, 1.5, [1, 0.2]])
        if rng.random() < 0.5:
            step["stepover"] = rng.choice([0.3, 0.5, 0.75, 1, [0.5, 0.1]])
    depth = max(-it["z"] for it in items)
    if rng.random() < 0.45:
        sd = rng.choice([q(rng, 0.2 * depth, 1.2 * depth, 0.05), depth / rng.choice([1, 2, 3, 4]), 0.5, 1])
        step["stepdown"] = max(sd, depth / 12)
    return step


def rand_drill(rng, cx=0, cy=0, size=20, n=None):
    n = n or rng.choice([1, 2, 3, 5, 8])
    items = []
    for k in range(n):
        x, y = cx + q(rng, -size, size, rng.choice([0.001, 0.5, 5])), cy + q(rng, -size, size, rng.choice([0.001, 0.5, 5]))
        t = rng.choice(["point", "point", "wire", "face", "holed"])
        z = rand_depth(rng) * rng.choice([0, 1, 1])
        r = q(rng, 0.3, 2)
        if t == "point":
            items.append(dict(point=[x, y, rng.choice([z, 5.0])]))
        elif t == "wire":
            items.append(dict(outline=shapes.circle(x, y, r).edges if rng.random() < 0.4 else shapes.rand_outline(rng, x, y, 1.5 * r).edges,
                              z=z, how=rng.choice(["world", "moved"]), reverse=rng.random() < 0.3))
        elif t == "face":
            items.append(dict(outer=(shapes.circle(x, y, r) if rng.random() < 0.5 else shapes.rand_outline(rng, x, y, 1.5 * r)).edges, holes=[], z=z, how=rng.choice(HOWS)))
        else:
            hs = [shapes.circle(x + dx, y + dy, q(rng, 0.3, 1)) if rng.random() < 0.7 else shapes.rand_outline(rng, x + dx, y + dy, 1.2) for dx, dy in rng.sample([(-3, 0), (3, 0), (0, 3), (0, -3), (0, 0)], rng.randint(1, 3))]
            items.append(dict(outer=shapes.rect(x, y, 12, 11).edges, holes=[h.edges for h in hs], z=z, how=rng.choice(HOWS)))
    return dict(kind="drill", items=items, depth=rng.choice([1, -1]) * max(0.2, q(rng, 0.2, 8, rng.choice([0.001, 0.1, 0.5]))),
                **{"as": rng.choice(["list", "wp", "one"])})


def rand_history(rng, job, n, kinds=("profile", "wire", "pocket", "drill", "update"), small=True):
    """n steps on a job whose tool diameter may change on the way"""
    steps, dia = [], job.get("tool_diameter")
    for k in range(n):
        kind = rng.choice(kinds)
        tool = None
        if rng.random() < 0.5 or kind == "update":
            tool = rand_tool(rng)
        if tool and tool.get("tool_diameter"):
            dia = tool["tool_diameter"]
        r = dia / 2
        cx = q(rng, -30, 30)
        if kind in ("profile", "wire"):
            s = rand_profile(rng, r, cx, 0, size=q(rng, 3.5 * r, 8 * r), nfaces=rng.choice([1, 1, 2]), wires=kind == "wire")
        elif kind == "pocket":
            s = rand_pocket(rng, r, cx, 0, size=q(rng, 2.5 * r, 4 * r), rich=rng.random() < 0.4)
        elif kind == "drill":
            s = rand_drill(rng, cx, 0)
        else:
            s = dict(kind="update")
        if tool is not None:
            s["tool"] = tool
        steps.append(s)
    return steps
