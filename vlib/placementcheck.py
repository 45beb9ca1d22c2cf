"""Programs of one part placed in several ways -> TracePlacement (C13)."""
import json

from . import gen, motion, scenario, shapes, tlc
from .pool import Failed, run_many


def program(text):
    cuts, dips, levels, run, away = [], [], set(), 0, False
    # travels back to (almost) where the tool is are printing matters
    for m in motion.moves(text):
        if m["s"] == m["e"]:
            continue
        flat = m["s"][:2] == m["e"][:2]
        if m["g"] == 0:
            if max(abs(a - b) for a, b in zip(m["s"][:2], m["e"][:2])) > 20:
                levels |= {m["s"][2], m["e"][2]}
                run += not away
                away = True
        elif flat:
            lo = min(m["s"], m["e"], key=lambda p: p[2])
            if [*lo, m["f"]] not in dips[-3:]:
                dips.append([*lo, m["f"]])
            away = False
        else:
            cuts.append([*m["s"], *m["e"], m["f"], run])
            away = False
    return dict(cuts=cuts, dips=dips, levels=sorted(levels))


def variants(sc, rng, n=3):
    """The same part at the world origin and anywhere else, built in several ways.

    Circles built in place start elsewhere than turned ones, so that tabs would lie elsewhere too.
    """
    out, base = [], {}
    tabs = any(st.get("tabs") for st in sc["steps"])
    for k in range(n):
        s = json.loads(json.dumps(sc))
        mode = ["id", None, "any"][k % 3]
        s["job"]["plane"] = scenario.plane_json(shapes.rand_plane(rng, mode))
        for i, st in enumerate(s["steps"]):
            for key in ("items", "avoid"):
                for m, it in enumerate(st.get(key, [])):
                    if "outer" not in it and "outline" not in it:
                        continue
                    b = base.setdefault((i, key, m), rng.choice(["flat", "solid", "top"]) if "outer" in it else "flat")
                    it["how"] = b if b != "flat" else rng.choice(["moved", "baked", "twice"] + ([] if tabs else ["world"]))
            if "as" in st and k:
                st["as"] = rng.choice(["list", "one"]) if st["kind"] == "wire" else rng.choice(["list", "wp", "one"])
        out.append(s)
    return out


def execute(sc):
    progs = [program(scenario.build(v).to_gcode()) for v in sc["variants"]]
    if max(len(p["cuts"]) for p in progs) > 6000:
        return Failed("long", "")
    st = sc["variants"][0]["steps"][-1]
    link = slack = 0
    if st["kind"] == "pocket":
        r = ((st.get("tool") or {}).get("tool_diameter") or sc["variants"][0]["job"]["tool_diameter"]) / 2
        o = st.get("stepover")
        over = (o[0] * r + o[1] if isinstance(o, list) else o * r) if o is not None else r
        link, slack = int(over * 1000) + 1, 10
    if st["kind"] == "drill":
        floor = -abs(st["depth"])
    else:
        floor = min(it["z"] for it in st["items"])
    deep = st["kind"] in ("wire", "drill") or (st["kind"] == "profile" and st.get("outer_offset", 1) is not None)
    return dict(progs=progs, deep=deep, ordered=st["kind"] in ("profile", "wire"), link=link, slack=slack, floor=int(round(floor * 1000)))


def check(c, items, label):
    results = dict(run_many(execute, items, timeout=150))
    traces, idx = [], []
    for i, it in enumerate(items):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind != "long":
                c.violation(f"{label}:{r.kind}", f"{label} {i}: {r}", it)
            continue
        traces.append(r)
        idx.append(i)
    failed, cuts, dips, start = {}, 0, 0, 0
    while start < len(traces):
        end, size = start, 0
        while end < len(traces) and (end == start or size < 100000):
            size += sum(len(p["cuts"]) for p in traces[end]["progs"])
            end += 1
        v, st = tlc.check_traces("TracePlacement", traces[start:end])
        c.count_traces(end - start, st)
        for k, rec in v.items():
            cuts += rec["cuts"]
            dips += rec["dips"]
            for b in rec["bad"]:
                failed[b["c"]] = failed.get(b["c"], 0) + 1
                i = idx[start + k]
                c.violation(b["c"], f"{label} {i} ({items[i]['variants'][0]['steps'][-1]['kind']}): clause {b['c']} fails in placement {b['n']}", items[i])
        start = end
    if traces and cuts + dips < len(traces):
        raise RuntimeError("vacuous: nothing was cut")
    c.coverage[label] = dict(traces=len(traces), cuts=cuts, plunges=dips, clauses_failed=failed)
    if traces:
        t = traces[min(3, len(traces) - 1)]
        c.samples.append(dict(scenario=label, planes=[v["job"]["plane"] for v in items[idx[min(3, len(traces) - 1)]]["variants"]],
                              cuts=[p["cuts"][:3] for p in t["progs"]], plunges=[p["dips"][:2] for p in t["progs"]]))


def random_item(rng, kinds):
    j = gen.rand_job(rng, mode="id", simple=True)
    if rng.random() < 0.4:
        j["feed"] = 300
        j["plunge_feed"] = 55.5
    return dict(variants=variants(dict(job=j, steps=gen.rand_history(rng, j, 1, kinds)), rng))


def model_item(rng, req):
    """A part of the model: rectangles are profiled, holes drilled"""
    P = req["plane"]
    s = rng.choice([1, 2.5])
    plane = [[5 * v for v in P["o"]], P["x"], P["n"]]
    kind = req["part"][0]["k"]
    items = []
    for f in req["part"]:
        if f["k"] != kind:
            continue
        (x0, y0), (x1, y1) = [[v * s for v in f[k]] for k in "ab"]
        if kind == "hole":
            o = shapes.circle(x0, y0, 0.4)
            items.append(dict(outline=o.edges, z=f["z"], reverse=rng.random() < 0.3))
        else:
            o = shapes.rect((x0 + x1) / 2, (y0 + y1) / 2, x1 - x0, y1 - y0)
            items.append(dict(outer=o.edges, holes=[], z=f["z"]))
    st = dict(kind="drill" if kind == "hole" else "profile", items=items)
    if kind == "hole":
        st["depth"] = rng.choice([2, -3])
    else:
        st["outer_offset"] = 1
    job = dict(feed=200, tool_diameter=1, plane=scenario.plane_json(shapes.rand_plane(rng, "id")))
    out = []
    for pl, how in ((job["plane"], "world"), (plane, req["how"])):
        v = json.loads(json.dumps(dict(job=dict(job, plane=pl), steps=[st])))
        for it in v["steps"][0]["items"]:
            it["how"] = how
        out.append(v)
    return dict(variants=out)


def run(c):
    from . import models

    if c.replay:
        check(c, [c.replay["data"]], "replay")
        return c.finish()
    reqs = models.placement_design(c)
    c.rng("reqs").shuffle(reqs)
    check(c, [model_item(c.rng("model", i), r) for i, r in enumerate(reqs[: c.n(500, 10**6)])], "requests of the model")
    check(c, [random_item(c.rng("cut", i), ("profile", "wire", "drill")) for i in range(c.n(240, 6000))], "random profiles and drillings")
    check(c, [random_item(c.rng("pocket", i), ("pocket",)) for i in range(c.n(90, 2500))], "random pockets")
    return c.finish(["links between the contours of a pocket and contours about to vanish may differ between placements"])
