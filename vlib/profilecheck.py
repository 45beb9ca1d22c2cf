"""Profile scenarios -> recorded programs -> TraceProfile (C04, C05, C06)."""
import math
import random

import cadquery as cq

from . import gen, motion, scenario, shapes, tlc
from .pool import Failed, run_many

NONE = -1000000000
um = lambda v: int(round(v * 1000))


def request(step, radius):
    o = lambda e: motion.poly(scenario.outline(e))
    items = []
    for it in step["items"]:
        if "outer" in it:
            items.append(dict(outer=o(it["outer"]), holes=[o(h) for h in it["holes"]], z=um(it["z"])))
        else:
            items.append(dict(outer=o(it["outline"]), holes=[], z=um(it["z"])))
    if step["kind"] == "wire":
        ro, ri = step.get("offset", 1), None
    else:
        ro, ri = step.get("outer_offset", 1), step.get("inner_offset", -1)
    off = lambda v: NONE if v is None else um(v * radius)
    t = step.get("tabs")
    tabs = dict(kind="none", count=1, spacing=1, width=1, height=0, only="")
    if t:
        tabs = dict(kind=t["kind"], count=t.get("count", 1), spacing=um(t.get("spacing", 0)), width=um(t["width"]), height=um(t["height"]),
                    only={"LINE": "line", "CIRCLE": "arc", None: ""}[t.get("only")])
    return dict(items=items, ro=off(ro), ri=off(ri), sd=math.ceil(step["stepdown"] * 1000 - 1e-6) if step.get("stepdown") else 0, tabs=tabs)


def passes(moves):
    """Runs of cutting moves between rapids, with positions along the lateral path"""
    out, cur, a = [], None, 0.0
    for m in moves:
        if m["g"] == 0:
            cur = None
            continue
        if cur is None:
            cur, a = [], 0.0
            out.append(cur)
        b = a + (m["len"] if m["s"][:2] != m["e"][:2] else 0)
        cur.append(dict(s=m["s"], e=m["e"], k=m["k"], c=m.get("c", [0, 0]), dir=m.get("dir", 0), a=int(round(a)), b=int(round(b)), id=m["id"]))
        a = b
    return out


def witnesses(rng, outline, rho, n):
    """Points on the offset outline (checked by the specification)"""
    p = gen.polygon(outline, 0.001)
    b = p.buffer(rho / 1000, quad_segs=128) if rho else p
    if b.is_empty or b.geom_type != "Polygon":
        return []
    r = b.exterior
    return [motion.ints(r.interpolate(rng.uniform(0, r.length)).coords[0]) for _ in range(n)]


def execute(arg):
    sc, judge, seed, nedge = arg
    rng = random.Random(f"w{seed}")
    text = scenario.build(sc).to_gcode()
    step = sc["steps"][0]
    radius = sc["job"]["tool_diameter"] / 2
    req = request(step, radius)
    ps = passes(motion.moves(text))
    if sum(map(len, ps)) > 12000:
        return Failed("long", "")
    exp = []
    if req["ri"] != NONE:
        exp += [(h, req["ri"]) for it in step["items"] for h in it.get("holes", [])]
    if req["ro"] != NONE:
        exp += [(it.get("outer") or it["outline"], req["ro"]) for it in step["items"]]
    req.update(passes=ps, edge=[witnesses(rng, scenario.outline(o), r, nedge) for o, r in exp], tol=8, tabtol=25, every=100, judge=judge,
               turned=any(e[0] == "B" for o, r in exp for e in scenario.outline(o).edges))
    return req


def check(c, scenarios, label, nedge=40, timeout=60, budget=None, size=30000):
    arg = [(sc, [c.prop], f"{c.seed}/{i}", nedge) for i, sc in enumerate(scenarios)]
    results = dict(run_many(execute, arg, timeout=timeout, budget=budget))
    traces, idx, long = [], [], 0
    for i in sorted(results):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind == "long":
                long += 1
                continue
            c.violation(f"{label}:{r.kind}", f"{label} scenario {i}: a valid profile failed: {r}", scenarios[i])
            continue
        traces.append(r)
        idx.append(i)
    start = 0
    sums = dict(passes=0, outlines=0, tabbed=0, lateral=0)
    failed = {}
    while start < len(traces):
        end, n = start, 0
        while end < len(traces) and (end == start or n + sum(map(len, traces[end]["passes"])) < size):
            n += sum(map(len, traces[end]["passes"]))
            end += 1
        v, st = tlc.check_traces("TraceProfile", traces[start:end])
        c.count_traces(end - start, st)
        for k, rec in v.items():
            for key in sums:
                sums[key] += rec[key]
            for b in rec["bad"]:
                failed[b["c"]] = failed.get(b["c"], 0) + 1
                c.violation(b["c"], f"{label} scenario {idx[start + k]}: clause {b['c']} fails in pass {b['n']}", scenarios[idx[start + k]])
        start = end
    if not sums["lateral"]:
        raise RuntimeError("vacuous: nothing was cut")
    c.coverage[label] = dict(programs=len(traces), too_long=long, **sums, clauses_failed=failed)
    if traces:
        t = traces[0]
        c.samples.append(dict(scenario=label, ro=t["ro"], ri=t["ri"], tabs=t["tabs"], first_pass=t["passes"][0][:4] if t["passes"] else []))


def kinds_of(tabs):
    """Two arcs of one circle look like one edge in a program"""
    return [k for k in shapes.KINDS if k != "circle2"] if tabs else None


def random_scenario(rng, tabs=None, stepdown=None):
    j = gen.rand_job(rng, simple=True)
    return dict(job=j, steps=[gen.rand_profile(rng, j["tool_diameter"] / 2, tabs=tabs, stepdown=stepdown, kinds=kinds_of(tabs), wires=rng.random() < 0.25)])


def model_scenario(rng, r):
    """A request of the profile design"""
    mm = lambda v: v / 1000
    items = []
    for i, it in enumerate(r["items"]):
        x = 12 * (i + 1)
        items.append(dict(outer=shapes.rect(x + 4, 4, 8, 8).edges, holes=[shapes.rect(x + 4, 4, 4, 4).edges] * it["holes"], z=mm(it["z"]), how=rng.choice(gen.HOWS)))
    rng.shuffle(items)
    off = lambda v: None if v == NONE else mm(v)
    step = dict(kind="profile", items=items, outer_offset=off(r["ro"]), inner_offset=off(r["ri"]), **{"as": rng.choice(["list", "wp"])})
    if r["sd"]:
        step["stepdown"] = mm(r["sd"])
    t = r["tabs"]
    if t["kind"] == "wire":
        step["tabs"] = dict(kind="wire", count=t["count"], width=mm(t["width"]), height=mm(t["height"]))
    elif t["kind"] == "edge":
        step["tabs"] = dict(kind="edge", spacing=mm(t["spacing"]), width=mm(t["width"]), height=mm(t["height"]))
    return dict(job=dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=300, tool_diameter=2), steps=[step])


def special_scenario(rng, prop):
    """Single awkward outlines: full circles, two-arc circles, tiny features, long thin outlines, many layers, wide tabs"""
    j = gen.rand_job(rng, simple=True)
    radius = j["tool_diameter"] / 2
    kind = rng.choice(["circle", "hole", "small", "long", "layers", "wide"])
    tabs = prop == "C06" or rng.random() < 0.3
    step = dict(kind="profile", outer_offset=rng.choice([1, 0, 2, 0.5, None]), inner_offset=rng.choice([-1, 0, -0.5, None]), **{"as": rng.choice(["list", "wp", "one"])})
    how = lambda: rng.choice(gen.HOWS)
    z = gen.rand_depth(rng)
    x, y = gen.q(rng, -20, 20, 0.01), gen.q(rng, -20, 20, 0.01)
    if kind == "circle":
        R = gen.q(rng, 0.3, 12, 0.01)
        o = shapes.circle(x, y, R)
        if rng.random() < 0.5:
            step = dict(kind="wire", offset=rng.choice([1, 0, 2, 0.5]), **{"as": rng.choice(["list", "one"])})
            items = [dict(outline=o.edges, z=z, how=rng.choice(["world", "moved"]), reverse=rng.random() < 0.5)]
        else:
            items = [dict(outer=o.edges, holes=[], z=z, how=how())]
            step["outer_offset"] = step["outer_offset"] or 1
    elif kind == "hole":
        R = gen.q(rng, 1.7 * radius, 4 * radius, 0.01)
        n = rng.randint(1, 4)
        size = 3 * R + 2
        hs = [shapes.circle(x + k * size, y, R) for k in range(n)]
        items = [dict(outer=shapes.rect(x + (n - 1) * size / 2, y, n * size, size).edges, holes=[h.edges for h in hs], z=z, how=how())]
    elif kind == "small":
        s = gen.q(rng, 0.05, 0.6, 0.01)
        o = rng.choice([shapes.rect(x, y, s, 2 * s), shapes.slot(x, y, s, s / 2), shapes.circle(x, y, s)])
        items = [dict(outer=o.edges, holes=[], z=z, how=how())]
        step["outer_offset"] = rng.choice([1, 0, 2])
    elif kind == "long":
        o = shapes.rect(x, y, gen.q(rng, 60, 400), gen.q(rng, 0.3, 2), rng.choice([0, 0.3, 1.2]))
        items = [dict(outer=o.edges, holes=[], z=z, how=how())]
        step["outer_offset"] = rng.choice([1, 0, 2])
    else:
        o = shapes.rand_outline(rng, x, y, gen.q(rng, 5, 12), kinds_of(True))
        items = [dict(outer=o.edges, holes=[], z=z, how=how())]
        step["outer_offset"] = rng.choice([1, 0, 2])
    if step["kind"] == "profile" and step["inner_offset"] is None and step["outer_offset"] is None:
        step["outer_offset"] = 1
    step["items"] = items
    if kind == "layers":
        step["stepdown"] = max(rng.choice([-z / 7, -z / 13, -z / 29.5, 0.1, 0.3]), -z / 60)
    elif rng.random() < 0.5:
        step["stepdown"] = max(gen.q(rng, 0.1, 4, 0.05), -z / 20)
    if tabs:
        used = [(e["outer"] if "outer" in e else e["outline"], step.get("outer_offset", step.get("offset"))) for e in items]
        used += [(h, step.get("inner_offset")) for e in items for h in e.get("holes", [])]
        L = min(gen.polygon(scenario.outline(o)).buffer(v * radius).exterior.length for o, v in used if v is not None)
        if kind == "wide":
            n = rng.randint(1, 4)
            step["tabs"] = dict(kind="wire", count=n, width=gen.rnd(L / n * rng.uniform(0.7, 0.95), 0.001), height=gen.q(rng, -0.1 * z, -1.1 * z, 0.01) or 0.1)
        else:
            step["tabs"] = gen.rand_tabs(rng, L, -z)
    return dict(job=j, steps=[step])


def corner_scenario(rng):
    """Tabs that start or end exactly at a corner: all lengths are binary fractions of the length of the path"""
    u, a = rng.choice([0.5, 1, 2, 4]), rng.randint(1, 7)
    x, y = rng.randint(-9, 9), rng.randint(-9, 9)
    P = [(x, y), (x + a * u, y), (x + a * u, y + (8 - a) * u), (x, y + (8 - a) * u)]
    o = shapes.polygon(P).shifted(rng.randrange(4))
    if rng.random() < 0.5:
        o = o.reversed()
    count = rng.choice([1, 2, 2, 4, 4, 8])
    corners = [a, 8, 8 + a, 16] + [8 - a, 8, 16 - a, 16]
    gaps = sorted({abs(c - 16 * k / count) for c in corners for k in range(count + 1)} - {0})
    gaps = [g for g in gaps if g < 8 / count] or [gen.q(rng, 0.5, 4 / count)]
    plane = cq.Plane(cq.Vector(*[rng.choice([0, rng.randint(-40, 40)]) for _ in range(3)]), cq.Vector(1, 0, 0), cq.Vector(0, 0, 1))
    z = -rng.choice([1, 2, 3])
    items = [dict(outer=o.edges, holes=[], z=z, how=rng.choice(["world", "moved"]))] if rng.random() < 0.5 else None
    step = dict(kind="profile", outer_offset=0, items=items) if items else dict(kind="wire", offset=0, items=[dict(outline=o.edges, z=z, how="world", reverse=rng.random() < 0.3)])
    step["tabs"] = dict(kind="wire", count=count, width=2 * rng.choice(gaps) * u, height=rng.choice([0.5, 0.75, 1.5]))
    if rng.random() < 0.4:
        step["stepdown"] = rng.choice([0.5, 0.8, 1])
    return dict(job=dict(plane=scenario.plane_json(plane), feed=300, tool_diameter=2), steps=[step])


def spline_scenario(rng, prop):
    """Outlines with curves that are cut as many short lines"""
    j = gen.rand_job(rng, simple=True)
    j["precision"] = 1
    radius = j["tool_diameter"] / 2
    while True:  # curves much wider than the offset, as the kernel only approximates the offset of a curve
        step = gen.rand_profile(rng, radius, size=gen.q(rng, 4 + 2 * radius, 9 + 5 * radius), nfaces=1, tabs=False, stepdown=rng.random() < 0.3, kinds=shapes.SPLINES, wires=rng.random() < 0.5)
        far = max(abs(step.get(k) or 0) for k in ("offset", "outer_offset", "inner_offset"))
        es = [x for e in step["items"] for o in [e.get("outer") or e["outline"], *e.get("holes", [])] for x in scenario.outline(o).edges]
        if all(shapes.bezier_radius(x) > 1.8 * far * radius + 0.4 for x in es if x[0] == "B"):
            break
    if step.get("stepdown"):
        step["stepdown"] = max(step["stepdown"], -step["items"][0]["z"] / 4)
    if prop == "C06" or rng.random() < 0.3:
        used = [(e["outer"] if "outer" in e else e["outline"], step.get("outer_offset", step.get("offset"))) for e in step["items"]]
        used += [(h, step.get("inner_offset")) for e in step["items"] for h in e.get("holes", [])]
        L = [gen.polygon(scenario.outline(o)).buffer(v * radius).exterior.length for o, v in used if v is not None]
        if L:
            n = rng.randint(1, 5)
            step["tabs"] = dict(kind="wire", count=n, width=gen.rnd(min(L) / n * rng.uniform(0.1, 0.7), 0.01), height=-gen.q(rng, 0.2, 1.1, 0.01) * step["items"][0]["z"])
    return dict(job=j, steps=[step])


def run(c, quick, thorough, replays=(120, 3300), special=(120, 3000), more=None):
    from . import models

    if c.replay:
        d = c.replay["data"]
        if d["steps"][0]["kind"] == "pocket":
            from . import pocketcheck

            pocketcheck.check(c, [d], "replay", npts=600, nedge=100)
        else:
            check(c, [d], "replay", nedge=200)
        return c.finish()
    reqs = models.profile_design(c)
    if c.prop == "C06":
        reqs = [r for r in reqs if r["tabs"]["kind"] != "none"]
    c.rng("model").shuffle(reqs)
    check(c, [model_scenario(c.rng("model", i), r) for i, r in enumerate(reqs[: c.n(*replays)])], "requests of the model")
    tabs = True if c.prop == "C06" else None
    check(c, [random_scenario(c.rng("random", i), tabs=tabs) for i in range(c.n(quick, thorough))], "random profiles")
    check(c, [special_scenario(c.rng("special", i), c.prop) for i in range(c.n(*special))], "special profiles")
    check(c, [spline_scenario(c.rng("spline", i), c.prop) for i in range(c.n(50, 1500))], "outlines with splines")
    if c.prop == "C06":
        check(c, [corner_scenario(c.rng("corner", i)) for i in range(c.n(120, 1500))], "tabs at corners")
    if more:
        more(c)
    return c.finish(["outlines are given to the specification as polygons within 2 micrometres",
                     "two collinear edges meeting without a change of height count as one edge unless there is a single such joint"])
