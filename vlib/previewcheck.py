"""Previews of real jobs -> TracePreview (C12). The moves come from the program text of every operation."""
import math

from . import gcode, gen, scenario, shapes, tlc
from .pool import Failed, run_many
from .progcheck import random_scenario

um = lambda v: [int(round(x * 1000)) for x in v.toTuple()]


def plane_ints(p):
    o, x, n = [[float(v) for v in r] for r in p]
    norm = lambda v: [c / math.hypot(*v) for c in v]
    x, n = norm(x), norm(n)
    d = sum(a * b for a, b in zip(x, n))
    x = norm([a - d * b for a, b in zip(x, n)])
    y = [n[1] * x[2] - n[2] * x[1], n[2] * x[0] - n[0] * x[2], n[0] * x[1] - n[1] * x[0]]
    M = lambda v: [int(round(c * 1e6)) for c in v]
    return dict(o=[int(round(c * 1000)) for c in o], x=M(x), y=M(y), n=M(n))


def op_moves(text):
    """The moves of an operation after its first one"""
    out = []
    for mv in gcode.motion(gcode.read(text))[1:]:
        un = mv["sx"] is None or mv["sy"] is None
        s = [mv["s" + a] if mv["s" + a] is not None else 0 for a in "xyz"]
        e = [mv[a] if mv[a] is not None else 0 for a in "xyz"]
        m = [(a + b) // 2 for a, b in zip(s, e)]
        k = "line"
        if mv["g"] in (2, 3):
            k, c = "arc", (mv["i"], mv["j"])
            a0, a1 = math.atan2(s[1] - c[1], s[0] - c[0]), math.atan2(e[1] - c[1], e[0] - c[0])
            if mv["g"] == 3:
                while a1 <= a0 + 1e-12:
                    a1 += 2 * math.pi
            else:
                while a1 >= a0 - 1e-12:
                    a1 -= 2 * math.pi
            r, a = (math.dist(c, s[:2]) + math.dist(c, e[:2])) / 2, (a0 + a1) / 2
            m = [int(round(c[0] + r * math.cos(a))), int(round(c[1] + r * math.sin(a))), (s[2] + e[2]) // 2]
        out.append(dict(k=k, s=s, e=e, m=m, un=un))
    return out


def edge(e):
    rev = str(e.wrapped.Orientation()).endswith("REVERSED")
    a, b = e.positionAt(0), e.positionAt(1)
    k = {"LINE": "line", "CIRCLE": "arc"}.get(e.geomType(), e.geomType())
    return dict(k=k, s=um(b if rev else a), e=um(a if rev else b), m=um(e.positionAt(0.5)))


def commands(op, s, dx, dy):
    """Real commands for an operation of the model"""
    from cq_cam.address import AddressVector
    from cq_cam.command import CircularCCW, CircularCW, Cut, Rapid, Retract

    f = lambda p: (round(dx + p[0] / 1000 * s, 6), round(dy + p[1] / 1000 * s, 6), round(p[2] / 1000 * s, 6))
    out = [Retract.abs(z=f(op[0]["s"])[2], start=AddressVector())]
    for m in op:
        x, y, z = f(m["e"])
        start = out[-1].end
        if m["k"] == "line":
            out.append(Rapid.abs(x, y, z, start=start) if m["g"] == 0 else Cut.abs(x, y, z, start=start, feed=100))
        else:
            c = [(a + b) / 2 for a, b in zip(m["s"], m["e"])]
            V = lambda p: AddressVector(*f(p))
            out.append((CircularCW if m["g"] == 2 else CircularCCW)(end=V(m["e"]), center=V(c), mid=V(m["m"]), start=start, feed=100))
    return out


def execute(sc):
    from cq_cam.fluent import Operation

    if "ops" in sc:
        job = scenario.make_job(sc["job"])
        job.operations = [Operation(job, "Profile", commands(op, *sc["at"])) for op in sc["ops"]]
    else:
        job = scenario.build(sc)
    shown = []

    def show(obj, *args, **kw):
        shown.append([edge(e) for e in obj])

    job.show(show)
    flat = [edge(e) for e in job.to_shapes(as_edges=True)]
    ops = [op_moves(op.to_gcode()) for op in job.operations]
    if len(flat) > 6000:
        return Failed("long", str(len(flat)))
    return dict(plane=plane_ints(sc["job"]["plane"]), ops=ops, shown=shown, flat=flat)


def check(c, items, label):
    results = dict(run_many(execute, items, timeout=120))
    traces, idx = [], []
    for i, it in enumerate(items):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind != "long":
                c.violation(f"{label}:{r.kind}", f"{label} {i}: {r}", it)
            continue
        traces.append(r)
        idx.append(i)
    verdicts, start = {}, 0
    st0 = dict(distinct=0, states=0)
    while start < len(traces):
        end, size = start, 0
        while end < len(traces) and (end == start or size + len(traces[end]["flat"]) < 60000):
            size += len(traces[end]["flat"])
            end += 1
        v, st = tlc.check_traces("TracePreview", traces[start:end])
        c.count_traces(end - start, st)
        for k, rec in v.items():
            verdicts[start + k] = rec
        start = end
    failed, moves, edges = {}, 0, 0
    for k, rec in verdicts.items():
        moves += rec["moves"]
        edges += rec["edges"]
        for b in rec["bad"]:
            failed[b["c"]] = failed.get(b["c"], 0) + 1
            c.violation(b["c"], f"{label} {idx[k]}: clause {b['c']} fails in operation {b['n']}", items[idx[k]])
    if traces and edges <= len(traces):
        raise RuntimeError("vacuous: nothing was shown")
    arcs = sum(e["k"] == "arc" for t in traces for e in t["flat"])
    c.coverage[label] = dict(traces=len(traces), moves=moves, edges=edges, arcs=arcs, clauses_failed=failed)
    if traces:
        t = traces[min(3, len(traces) - 1)]
        c.samples.append(dict(scenario=label, plane=t["plane"], moves=[o[:3] for o in t["ops"]], edges=t["flat"][:4]))


def random_job(rng):
    sc = random_scenario(rng, ("profile", "wire", "pocket", "drill", "update"), rng.choice([1, 1, 2, 3]))
    # a preview is about whole operations: keep pockets short
    for s in sc["steps"]:
        if s["kind"] == "pocket" and "stepdown" in s:
            del s["stepdown"]
    return sc


def model_job(rng, ops):
    job = dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=100, tool_diameter=2)
    return dict(job=job, ops=ops, at=[rng.choice([1, 0.5, 3.7]), gen.q(rng, -30, 30), gen.q(rng, -30, 30)])


def run(c):
    from . import models

    if c.replay:
        check(c, [c.replay["data"]], "replay")
        return c.finish()
    ops = models.preview_design(c)
    c.rng("ops").shuffle(ops)
    check(c, [model_job(c.rng("model", i), o) for i, o in enumerate(ops[: c.n(1500, 10**6)])], "jobs of the model")
    check(c, [random_job(c.rng("job", i)) for i in range(c.n(250, 4000))], "random jobs")
    return c.finish(["only edges are looked at: shapes with colours need cq_editor, which is not installed"])
