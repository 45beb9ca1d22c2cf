"""C11: printed blocks against planned moves, move by move (TracePlan.tla)."""
import math

from vlib import gcode, gen, progtrace, scenario, shapes, tlc
from vlib.pool import Failed, run_many

G = dict(Rapid=0, PlungeRapid=0, Retract=0, Cut=10, PlungeCut=10, CircularCW=20, CircularCCW=30)


def v5(v):
    return [0 if a is None else int(round(a * 1e5)) for a in (v.x, v.y, v.z)]


def planned(cmd):
    from cq_cam import command as K

    if isinstance(cmd, K.CircularCW):
        g = 20
    elif isinstance(cmd, K.CircularCCW):
        g = 30
    elif isinstance(cmd, K.Rapid):
        g = 0
    else:
        g = 10
    e, s = cmd.end, cmd.start
    p = dict(g=g, k=[a is not None for a in (e.x, e.y, e.z)], ks=[a is not None for a in (s.x, s.y, s.z)], s=v5(s), e=v5(e), m=[0, 0, 0], c=[0, 0, 0])
    if g >= 20:
        p["m"], p["c"] = v5(cmd.mid), v5(cmd.center)
    return p


def execute(sc):
    from cq_cam.command import MotionCommand

    job = scenario.build(sc)
    text = job.to_gcode()
    plan = [[planned(c) for c in op.commands if isinstance(c, MotionCommand)] for op in job.operations]
    if sum(map(len, plan)) > 6000:
        return Failed("long", "")
    big = max([abs(v) for o in plan for p in o for f in "semc" for v in p[f]], default=0)
    if big > 2_000_000_000:
        return Failed("long", "coordinates")
    lines = progtrace.program_lines(text, sc["job"].get("name", "Job"))
    for b in lines:
        for k in ("m", "label", "owner", "f", "s", "t", "h", "k"):
            if k != "m":
                b.pop(k, None)
        b.update(f=0, s=0, t=0, h=0, k=0)
    return dict(lines=lines, plan=plan, src=text, arcs=sum(p["g"] >= 20 for o in plan for p in o))


def check(c, scenarios, label):
    results = dict(run_many(execute, scenarios, timeout=90))
    traces, idx = [], []
    for i, sc in enumerate(scenarios):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind != "long":
                c.violation(f"{label}:{r.kind}", f"{label} scenario {i}: valid requests failed: {r}", sc)
            continue
        traces.append(r)
        idx.append(i)
    start = 0
    moves = arcs = 0
    failed = {}
    while start < len(traces):
        end, size = start, 0
        while end < len(traces) and (end == start or size + len(traces[end]["lines"]) < 40000):
            size += len(traces[end]["lines"])
            end += 1
        v, st = tlc.check_traces("TracePlan", [dict(lines=t["lines"], plan=t["plan"]) for t in traces[start:end]])
        c.count_traces(end - start, st)
        for k, rec in v.items():
            for b in rec["bad"]:
                failed[b["c"]] = failed.get(b["c"], 0) + 1
                t = traces[start + k]
                src = t["src"].split("\n")
                at = max(0, b["l"] - 1)
                c.violation(b["c"], f"{label} scenario {idx[start + k]}: clause {b['c']} fails at line {b['l']}: {' | '.join(src[max(0, at - 2):at + 1])}",
                            scenarios[idx[start + k]])
        start = end
    moves = sum(len(o) for t in traces for o in t["plan"])
    arcs = sum(t["arcs"] for t in traces)
    c.coverage[label] = dict(programs=len(traces), moves=moves, arcs=arcs, clauses_failed=failed)
    if traces:
        c.samples.append(dict(scenario=label, planned=traces[0]["plan"][-1][:3], text=traces[0]["src"].split("\n")[7:12]))
    if not moves:
        raise RuntimeError("vacuous")


def special(rng, i):
    """Small and huge arcs and coordinates, full circles, tabs whose ends fall next to ends of edges"""
    j = gen.rand_job(rng, simple=True)
    j["tool_diameter"] = rng.choice([0.1, 1, 3])
    z = -rng.choice([1, 0.0004, 0.0005, 1.2345, 2.00049])
    kind = i % 6
    far = rng.choice([0, 0, 1, 37.0005, 900, 9000])
    cx, cy = far + rng.uniform(-1, 1), -far + rng.uniform(-1, 1)
    if kind == 0:      # tiny arcs between lines (offset 0)
        r = 10 ** rng.uniform(-3.3, -0.5)
        w = rng.uniform(2, 5)
        o = shapes.rounded(cx, cy, w + 2 * r, w + 2 * r, r)
        off = 0
    elif kind == 1:    # huge circle and arcs
        r = rng.uniform(50, 900)
        o = rng.choice([shapes.circle, shapes.two_arc_circle])(cx, cy, r) if rng.random() < 0.6 else shapes.dshape(cx, cy, r, r * rng.uniform(-0.5, 0.9))
        off = rng.choice([1, 0, -1])
    elif kind == 2:    # almost full circle closed by a tiny chord
        r = rng.uniform(0.5, 20)
        gap = 10 ** rng.uniform(-3.5, -1)
        o = shapes.dshape(cx, cy, r, r * math.cos(gap / r / 2) if gap < r else r * 0.9)
        off = 0
    elif kind == 3:    # tiny circle
        o = shapes.circle(cx, cy, 10 ** rng.uniform(-2.9, 0))
        off = 0
    elif kind == 4:    # negative zero, exact halves
        o = shapes.rect(rng.choice([0, 0.0005, -0.0005]), rng.choice([0, 0.00049999, 1e-9]), rng.choice([4, 4.001, 3.9999995]), 3)
        off = 0
    else:
        o = shapes.rand_outline(rng, cx, cy, rng.uniform(2, 8))
        off = 0
    step = dict(kind="wire", items=[dict(outline=o.edges, z=z, how=rng.choice(["world", "moved"]), reverse=rng.random() < 0.5)], offset=off)
    if kind in (1, 5) and rng.random() < 0.8:
        L = gen.polygon(o).exterior.length
        n = rng.choice([1, 2, 3, 4])
        # tab ends close to the ends of edges: width such that k/n - w/2 falls near a vertex
        first = math.dist(o.edges[0][1], o.edges[0][2]) if o.edges[0][0] == "L" else L / 4
        w = min(0.8 * L / n, max(0.01, 2 * (first + rng.choice([0, 1e-4, -1e-4, 1e-3, -5e-4]))))
        step["tabs"] = dict(kind="wire", count=n, width=w, height=rng.uniform(0.1, 2) * abs(z))
    return dict(job=j, steps=[step])


def run(c):
    if c.replay:
        check(c, [c.replay["data"]], "replay")
        return c.finish()
    c.model("arcs between lattice points, printed with and without deviations", tlc.run("MC_Plan"), "deviations rejected")
    sc = [special(c.rng("special", i), i) for i in range(c.n(900, 12000))]
    check(c, sc, "special shapes")
    sc = []
    for i in range(c.n(150, 3000)):
        rng = c.rng("hist", i)
        j = gen.rand_job(rng)
        sc.append(dict(job=j, steps=gen.rand_history(rng, j, rng.choice([1, 2, 4]), ("profile", "profile", "wire", "pocket", "drill"))))
    check(c, sc, "random histories")
    return c.finish(["the last printed decimal is a thousandth", "|coordinates| < 20000"])
