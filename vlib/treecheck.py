"""Contour trees: histories on real trees, and the order of contours in recorded pockets -> TraceTree (C14)."""
from . import gen, motion, scenario, shapes, tlc
from .pool import Failed, run_many


class Contour:
    def __init__(self, n):
        self.n = n


def execute_history(hist):
    from cq_cam.utils.tree import Tree

    nodes = {1: Contour(1)}
    tree = Tree(nodes[1])
    real = {1: tree.root}
    number = {id(nodes[1]): 1}
    steps = []
    for x in hist:
        if x["k"] < 0:
            real[x["n"]].lock()
        else:
            new = [Contour(len(nodes) + 1 + i) for i in range(x["k"])]
            # a sequence, an iterator or a single object
            arg = new if x["n"] % 2 else iter(new)
            if x["k"] == 1 and x["n"] % 3 == 0:
                arg = new[0]
            made = real[x["n"]].branch(arg)
            for c, r in zip(new, made):
                nodes[c.n], real[c.n], number[id(c)] = c, r, c.n
        try:
            offer = number[id(tree.next_unlocked.obj)]
        except StopIteration:
            offer = 0
        seqs = [[number.get(id(o), 0) for o in s] for s in tree.sequences]
        steps.append(dict(n=x["n"], k=x["k"], offer=offer, sequences=seqs))
    return dict(kind="tree", steps=steps)


def random_history(rng, n):
    hist, nodes = [], 1
    for _ in range(n):
        x = dict(n=rng.randint(max(1, nodes - 4), nodes) if rng.random() < 0.7 else rng.randint(1, nodes), k=rng.choice([-1, 0, 1, 1, 1, 2, 3]))
        hist.append(x)
        nodes += max(0, x["k"])
    return hist


def split_loops(moves):
    """Closed loops of the cutting moves; the links between them belong to none"""
    out, cur = [], []
    for m in moves:
        s, e = m["s"][:2], m["e"][:2]
        if m["g"] == 0:
            if len(cur) > 1:
                return None
            cur = []
            continue
        if s == e:
            continue
        if not cur:
            cur = [s]
        elif cur == ["link"]:
            # the move after a finished loop leads to the next one
            cur = [e]
            continue
        cur.append(e)
        if e == cur[0]:
            out.append(cur[:-1])
            cur = ["link"]
    return out


def execute_pocket(sc):
    mv = motion.moves(scenario.build(sc).to_gcode())
    if len(mv) > 5000:
        return Failed("long", "")
    ls = split_loops(mv)
    if ls is None:
        return Failed("long", "contours touching themselves")
    if sum(map(len, ls)) > 4000 or len(ls) > 60:
        return Failed("long", "")
    return dict(kind="pocket", loops=ls)


def comb(x, y, w, t, n, depth):
    """A bar with n teeth of width t: its contours branch"""
    pitch = w / n
    pts = [(x, y), (x + w, y)]
    for k in reversed(range(n)):
        a, b = x + k * pitch + (pitch - t) / 2, x + k * pitch + (pitch + t) / 2
        d = depth * (1 + 0.37 * k)
        pts += [(b, y + 3), (b, y + 3 + d), (a, y + 3 + d), (a, y + 3)]
    # corners on one line with the teeth are fine
    pts += [(x, y + 3)]
    if pts[2][0] < x + w:
        pts.insert(2, (x + w, y + 3))
    return shapes.polygon(pts)


def pocket_scenario(rng):
    j = dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=300, tool_diameter=rng.choice([1, 2]))
    x, y = gen.q(rng, -20, 20), gen.q(rng, -20, 20)
    size = gen.q(rng, 5, 14)
    o = rng.choice([
        lambda: comb(x, y, size * 2, size * 2 / 3.2 * rng.uniform(0.5, 0.9), 3, size / 2),
        lambda: shapes.dumbbell(x, y, size, size * rng.uniform(0.15, 0.6), size * rng.uniform(0.2, 0.8)),
        lambda: shapes.ushape(x, y, size * 1.4, size, size * rng.uniform(0.2, 0.4)),
        lambda: shapes.star(rng, x, y, 0.35 * size, size, rng.randint(5, 11)),
        lambda: shapes.rand_outline(rng, x, y, size),
    ])()
    step = dict(kind="pocket", items=[dict(outer=o.edges, holes=[], z=-1, how=rng.choice(gen.HOWS))], stepover=rng.choice([0.4, 0.6, 0.8, 1]),
                **{"as": "list"})
    if rng.random() < 0.3:
        step["outer_offset"] = rng.choice([0, -0.5])
    return dict(job=j, steps=[step])


def check(c, items, label, fn):
    results = dict(run_many(fn, items, timeout=60))
    traces, idx, long = [], [], 0
    for i, it in enumerate(items):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind == "long":
                long += 1
            else:
                c.violation(f"{label}:{r.kind}", f"{label} {i}: {r}", it)
            continue
        if r["kind"] == "pocket" and not r["loops"]:
            long += 1
            continue
        traces.append(r)
        idx.append(i)
    v, st = tlc.check_traces("TraceTree", traces, batch=3000)
    c.count_traces(len(traces), st)
    failed, nodes = {}, 0
    for k, rec in v.items():
        nodes += rec["nodes"]
        for b in rec["bad"]:
            failed[b["c"]] = failed.get(b["c"], 0) + 1
            c.violation(b["c"], f"{label} {idx[k]}: clause {b['c']} fails at step {b['n']}", items[idx[k]])
    if nodes <= len(traces):
        raise RuntimeError("vacuous: no contours")
    c.coverage[label] = dict(traces=len(traces), skipped=long, contours=nodes, clauses_failed=failed)
    t = traces[0]
    c.samples.append(dict(scenario=label, steps=t["steps"][:3]) if t["kind"] == "tree" else dict(scenario=label, loops=len(t["loops"]), first=t["loops"][0][:5]))


def run(c):
    from . import models

    if c.replay:
        d = c.replay["data"]
        check(c, [d], "replay", execute_pocket if isinstance(d, dict) else execute_history)
        return c.finish()
    hs = models.tree_design(c)
    check(c, [h["hist"] for h in hs], "histories of the model", execute_history)
    check(c, [random_history(c.rng("random", i), c.rng("n", i).choice([3, 8, 20, 40])) for i in range(c.n(1000, 8000))], "random histories", execute_history)
    check(c, [pocket_scenario(c.rng("pocket", i)) for i in range(c.n(150, 3000))], "contours of pockets", execute_pocket)
    models.geometry(c)
    return c.finish(["contours are distinct objects"])
