"""Drilling scenarios -> recorded programs -> TraceDrill (C07)."""
from . import gen, motion, scenario, shapes, tlc
from .pool import Failed, run_many

um = lambda v: int(round(v * 1000))


def centre(o):
    p = gen.polygon(scenario.outline(o), 0.0001).centroid
    return [um(p.x), um(p.y)]


def holes(step):
    """Hole centres in the order selected"""
    out = []
    for it in step["items"]:
        if "point" in it:
            out.append([um(it["point"][0]), um(it["point"][1])])
        elif "outline" in it:
            out.append(centre(it["outline"]))
        elif it.get("holes"):
            out += [centre(h) for h in it["holes"]]
        else:
            out.append(centre(it["outer"]))
    return out


def execute(sc):
    step = sc["steps"][0]
    text = scenario.build(sc).to_gcode()
    mv = [dict(g=m["g"], s=m["s"], e=m["e"]) for m in motion.moves(text)]
    return dict(holes=holes(step), depth=um(abs(step["depth"])), firsts=max(1, len(step["items"][0].get("holes", []))), safe=um(sc["job"].get("op_safe_height", 1)), moves=mv)


def random_scenario(rng):
    j = gen.rand_job(rng, simple=True)
    kind = rng.random()
    if kind < 0.7:
        step = gen.rand_drill(rng, size=rng.choice([3, 20, 60]), n=rng.choice([1, 2, 3, 5, 8, 15]))
    else:
        # points only: lattices with many ties, the same hole twice, long rows
        n, s = rng.choice([4, 9, 20]), rng.choice([1, 2.5, 10])
        pts = [[s * rng.randint(0, 4), s * rng.randint(0, 4), rng.choice([0, -2, 3])] for _ in range(n)]
        step = dict(kind="drill", items=[dict(point=p) for p in pts], depth=rng.choice([1, -3, 0.5]), **{"as": rng.choice(["list", "wp", "one"])})
    return dict(job=j, steps=[step])


def model_scenario(rng, r):
    x0, y0 = gen.q(rng, -20, 20), gen.q(rng, -20, 20)
    items = []
    for h in r["holes"]:
        x, y = x0 + h[0] / 1000, y0 + h[1] / 1000
        k = rng.choice(["point", "wire", "face", "holed"])
        if k == "point":
            items.append(dict(point=[x, y, rng.choice([0, -1])]))
        elif k == "wire":
            items.append(dict(outline=shapes.circle(x, y, 0.3).edges, z=-1, how=rng.choice(["world", "moved"]), reverse=rng.random() < 0.5))
        elif k == "face":
            items.append(dict(outer=shapes.circle(x, y, 0.4).edges, holes=[], z=-1, how=rng.choice(gen.HOWS)))
        else:
            items.append(dict(outer=shapes.rect(x + 0.3, y - 0.2, 3, 2).edges, holes=[shapes.circle(x, y, 0.2).edges], z=-1, how=rng.choice(gen.HOWS)))
    step = dict(kind="drill", items=items, depth=r["depth"] / 1000, **{"as": rng.choice(["list", "wp", "one"])})
    return dict(job=dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=300, tool_diameter=2, op_safe_height=rng.choice([1, 2.5])), steps=[step])


def check(c, scenarios, label):
    results = dict(run_many(execute, scenarios, timeout=60))
    traces, idx = [], []
    for i, sc in enumerate(scenarios):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind != "long":
                c.violation(f"{label}:{r.kind}", f"{label} scenario {i}: valid drilling failed: {r}", sc)
            continue
        traces.append(r)
        idx.append(i)
    v, st = tlc.check_traces("TraceDrill", traces, batch=1500)
    c.count_traces(len(traces), st)
    n, failed = 0, {}
    for k, rec in v.items():
        n += rec["holes"]
        for b in rec["bad"]:
            failed[b["c"]] = failed.get(b["c"], 0) + 1
            c.violation(b["c"], f"{label} scenario {idx[k]}: clause {b['c']} fails at move {b['n']}", scenarios[idx[k]])
    if not n:
        raise RuntimeError("vacuous: nothing was drilled")
    c.coverage[label] = dict(programs=len(traces), holes=n, clauses_failed=failed)
    c.samples.append(dict(scenario=label, holes=traces[0]["holes"], moves=traces[0]["moves"][:6]))


def run(c, quick, thorough):
    from . import models

    if c.replay:
        check(c, [c.replay["data"]], "replay")
        return c.finish()
    reqs = models.drill_design(c)
    c.rng("model").shuffle(reqs)
    check(c, [model_scenario(c.rng("model", i), r) for i, r in enumerate(reqs[: c.n(400, 2000)])], "requests of the model")
    check(c, [random_scenario(c.rng("random", i)) for i in range(c.n(quick, thorough))], "random selections")
    models.geometry(c)
    return c.finish(["hole centres are the centroids of the outlines"])
