"""Histories of jobs (trees of requests) -> what can be seen of all jobs after every step -> TraceFluent (C09, C17)."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

from . import gen, progtrace, scenario, shapes, tlc
from .pool import Failed, run_many
from .progtrace import th

REST = ["name", "rapid_height", "op_safe_height", "precision", "unit", "plane", "coordinate", "distance", "arc_distance",
        "controller_motion", "coolant", "max_stepdown_count"]


class Numbers:
    """Equal contents get equal numbers"""

    def __init__(self):
        self.d = {}

    def __call__(self, v):
        return self.d.setdefault(v, len(self.d) + 1)


def plane_print(p):
    return repr([round(v, 9) for x in (p.origin, p.xDir, p.zDir) for v in x.toTuple()])


def see(job, num):
    s = dict(num=th(job.tool_number), dia=th(job.tool_diameter), feed=th(job.feed), speed=th(job.speed), pfeed=th(job.plunge_feed), cool=0)
    rest = repr([str(getattr(job, n, None)) for n in REST]) + plane_print(job.top)
    return dict(set=s, rest=num(rest), labels=[o.name for o in job.operations], ops=[num(o.to_gcode()) for o in job.operations], text=num(job.to_gcode()))


def shape_print(o):
    import cadquery as cq

    if isinstance(o, cq.Workplane):
        return ["wp", [shape_print(x) for x in o.objects]]
    if isinstance(o, list):
        return ["list", [shape_print(x) for x in o]]
    if isinstance(o, cq.Vector):
        return list(o.toTuple())
    r = lambda v: [round(x, 7) for x in v.toTuple()]
    t = o.wrapped.Location().Transformation()
    loc = [round(t.Value(i, j), 9) for i in (1, 2, 3) for j in (1, 2, 3, 4)]
    return [o.ShapeType(), str(o.wrapped.Orientation()), loc,
            [[e.geomType(), str(e.wrapped.Orientation()), r(e.startPoint()), r(e.endPoint()), r(e.positionAt(0.37))] for e in o.Edges()]]


class Inputs:
    """Every distinct selection, tab setting and tool is one object, used wherever it is asked for"""

    def __init__(self, steps, plane):
        self.plane, self.sel, self.avoid, self.tabs, self.tools = plane, {}, {}, {}, {}
        for s in steps:
            k = lambda *n: json.dumps([s.get(x) for x in n] + [s.get("as", "list")])
            if "items" in s and k("items") not in self.sel:
                self.sel[k("items")] = scenario.selection(scenario.items_of(s, plane), s.get("as", "list"))
            if s.get("avoid") and k("avoid") not in self.avoid:
                self.avoid[k("avoid")] = scenario.selection(scenario.items_of(s, plane, "avoid"), s.get("as", "list"))
            if s.get("tabs"):
                self.tabs.setdefault(json.dumps(s["tabs"]), scenario.make_tabs(s["tabs"]))
            if s.get("tool"):
                self.tools.setdefault(json.dumps(s["tool"]), scenario.make_tool(s["tool"]))

    def apply(self, job, s):
        k = lambda *n: json.dumps([s.get(x) for x in n] + [s.get("as", "list")])
        return scenario.apply(job, s, self.plane, built=self.sel.get(k("items")) if "items" in s else None,
                              tabs=self.tabs.get(json.dumps(s.get("tabs"))), tool=self.tools.get(json.dumps(s.get("tool"))),
                              avoid=self.avoid.get(k("avoid")) if s.get("avoid") else None)

    def print(self):
        t = lambda o, names: [getattr(o, n, None) for n in names]
        return repr([shape_print(o) for o in self.sel.values()] + [shape_print(o) for o in self.avoid.values()]
                    + [t(o, ("count", "spacing", "width", "height", "only")) for o in self.tabs.values()]
                    + [t(o, ("tool_diameter", "tool_number", "feed", "speed")) for o in self.tools.values()] + [plane_print(self.plane)])


def look(job, how):
    if how == "preview":
        job.to_shapes(as_edges=True)
    elif how == "show":
        job.show(shown)
    elif how == "save":
        fd, path = tempfile.mkstemp(prefix="vsave.")
        os.close(fd)
        try:
            job.save_gcode(path)
        finally:
            os.unlink(path)
    else:
        job.to_gcode()


def shown(*args):
    pass


def execute(arg):
    """history: {job, pool: [steps], hist: [{h: parent, k: number in pool} | {h, look}]}, refs: [{deriv, text}]"""
    hi, refs = arg
    num = Numbers()
    plane = scenario.plane_of(hi["job"]["plane"])
    inputs = Inputs(hi["pool"], plane)
    jobs = [scenario.make_job(dict(hi["job"]))]
    jobs[0].top = plane
    start = dict(seen=[see(jobs[0], num)], inputs=num(inputs.print()))
    steps = []
    for x in hi["hist"]:
        if x["h"] > len(jobs):
            continue
        job = jobs[x["h"] - 1]
        if "look" in x:
            look(job, x["look"])
            st = dict(kind="look", h=x["h"], ok=True, req=dict(kind="", tool=progtrace.request(dict(kind=""))["tool"], key=0))
        else:
            s = hi["pool"][x["k"] - 1]
            ok = True
            try:
                new = inputs.apply(job, s)
            except Exception as e:
                if not s.get("refuse"):
                    raise
                ok = False
            else:
                if s.get("refuse"):
                    return Failed("accepted", json.dumps(s)[:300])
                jobs.append(new)
            r = progtrace.request(s)
            r["key"] = x["k"]
            st = dict(kind="request", h=x["h"], ok=ok, req=r)
        st["seen"] = [see(j, num) for j in jobs]
        st["inputs"] = num(inputs.print())
        steps.append(st)
    return dict(start=start, steps=steps, ref=[dict(deriv=r["deriv"], text=num(r["text"])) for r in refs], derivs=derivations(hi))


def derivations(hi):
    """Numbers of the requests that lead to each job"""
    out = [[1]]
    for x in hi["hist"]:
        if "look" in x or x["h"] > len(out) or hi["pool"][x["k"] - 1].get("refuse"):
            continue
        out.append(out[x["h"] - 1] + [x["k"]])
    return out


def fresh_programs(tasks):
    """The programs of linear histories, everything built anew"""
    out = []
    for job, steps in tasks:
        try:
            out.append(scenario.build(dict(job=job, steps=steps)).to_gcode())
        except Exception as e:
            out.append(f"{type(e).__name__}: {e}")
    return out


def elsewhere(histories, seed, procs=8):
    """References from other processes (other hash seeds, other order)"""
    tasks = []
    for i, hi in enumerate(histories):
        seen = set()
        for d in derivations(hi)[1:]:
            if tuple(d) not in seen:
                seen.add(tuple(d))
                tasks.append((i, d, [hi["job"], [hi["pool"][k - 1] for k in d[1:]]]))
    tasks.reverse()
    tmp = tempfile.mkdtemp(prefix="vfresh.")
    try:
        running = []
        for p in range(procs):
            part = tasks[p::procs]
            a, b = os.path.join(tmp, f"in{p}.json"), os.path.join(tmp, f"out{p}.json")
            json.dump([t[2] for t in part], open(a, "w"))
            env = dict(os.environ, PYTHONHASHSEED=str(1000 * seed + p + 1))
            running.append((subprocess.Popen([sys.executable, "-B", "-m", "vlib.fluentcheck", a, b], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                             env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), part, b))
        refs = [[] for _ in histories]
        for proc, part, b in running:
            try:
                _, err = proc.communicate(timeout=600)
            except subprocess.TimeoutExpired:
                proc.kill()
                raise RuntimeError("reference process hung")
            if proc.returncode:
                raise RuntimeError("reference process failed: " + err.decode()[-500:])
            for (i, d, _), text in zip(part, json.load(open(b))):
                refs[i].append(dict(deriv=d, text=text))
        return refs
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def check(c, histories, label, refs=False):
    R = elsewhere(histories, c.seed) if refs else [[] for _ in histories]
    results = dict(run_many(execute, list(zip(histories, R)), timeout=90))
    traces, idx = [], []
    for i, hi in enumerate(histories):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind in ("accepted", "long"):
                continue
            c.violation(f"{label}:{r.kind}", f"{label} history {i}: valid requests failed: {r}", hi)
            continue
        r.pop("derivs")
        traces.append(r)
        idx.append(i)
    v, st = tlc.check_traces("TraceFluent", traces, batch=800)
    c.count_traces(len(traces), st)
    failed, jobs = {}, 0
    for k, rec in v.items():
        jobs += rec["jobs"]
        for b in rec["bad"]:
            failed[b["c"]] = failed.get(b["c"], 0) + 1
            if b["c"].startswith(c.prop + "."):
                c.violation(b["c"], f"{label} history {idx[k]}: clause {b['c']} fails at step {b['n']}", histories[idx[k]])
    if jobs <= len(traces):
        raise RuntimeError("vacuous: no jobs derived")
    c.coverage[label] = dict(histories=len(traces), jobs=jobs, references=sum(map(len, R)), clauses_failed=failed)
    if traces:
        c.samples.append(dict(scenario=label, steps=[dict(kind=s["kind"], h=s["h"], ok=s["ok"], jobs=len(s["seen"])) for s in traces[0]["steps"]]))


LOOKS = ["preview", "show", "save", "render"]


def refused(rng):
    """Requests that must be refused, some with a tool"""
    tool = gen.rand_tool(rng) if rng.random() < 0.6 else None
    s = rng.choice([
        dict(kind="pocket", items=[dict(outer=shapes.rect(0, 0, 5, 4).edges, holes=[], z=1)]),
        dict(kind="drill", items=[dict(point=[0, 0, 0])]),
        dict(kind="profile", items=[dict(outer=shapes.rect(0, 0, 5, 4).edges, holes=[], z=-1)], outer_offset=None, inner_offset=None),
        dict(kind="profile", items=[dict(outer=shapes.rect(0, 0, 5, 4).edges, holes=[], z=-300)], stepdown=1),
    ])
    s = dict(s, refuse=True)
    if tool:
        s["tool"] = tool
    return s


def random_history(rng, n):
    j = gen.rand_job(rng)
    dia = j["tool_diameter"]
    pool = []
    for k in range(rng.randint(2, 5)):
        if rng.random() < 0.2:
            pool.append(refused(rng))
            continue
        s = gen.rand_history(rng, j, 1)[0]
        # any order of requests must stay valid: only one diameter per history
        if s.get("tool"):
            s["tool"].pop("tool_diameter", None)
            if not s["tool"] and s["kind"] != "update":
                s.pop("tool")
        pool.append(s)
    hist = []
    for _ in range(n):
        x = dict(h=rng.randint(1, 1 + sum("k" in y for y in hist)))
        if rng.random() < 0.2:
            x["look"] = rng.choice(LOOKS)
        else:
            x["k"] = rng.randint(1, len(pool))
        hist.append(x)
    return dict(job=dict(j, tool_diameter=dia), pool=pool, hist=hist)


def model_history(rng, h):
    R = lambda x, y, z: dict(outer=shapes.rect(x, y, 7, 6).edges, holes=[shapes.circle(x, y, 1.6).edges], z=z)
    tabs = dict(kind="wire", count=2, width=1, height=0.5)
    pool = [
        dict(kind="drill", items=[dict(point=[0, 0, 0]), dict(point=[4, 1, 0])], depth=2),
        dict(kind="wire", items=[dict(outline=shapes.slot(0, 0, 5, 2).edges, z=-1)], tabs=tabs),
        dict(kind="profile", items=[R(10, 0, -2)], tabs=tabs, stepdown=1, tool=dict(tool_number=2, speed=9000)),
        dict(kind="pocket", items=[R(10, 0, -2)], tool=dict(feed=500)),
        dict(kind="drill", items=[dict(point=[0, 0, 0])], tool=dict(tool_number=3, feed=700, speed=7000), refuse=True),
        dict(kind="pocket", items=[R(0, 0, 3)], refuse=True),
        dict(kind="update", tool=dict(tool_number=2)),
        dict(kind="update", tool=dict(speed=9000)),
        dict(kind="update", tool=dict(feed=500)),
    ]
    hist = list(h["hist"])
    if rng.random() < 0.5:
        hist.insert(rng.randint(0, len(hist)), dict(h=1, look=rng.choice(LOOKS)))
    return dict(job=dict(plane=scenario.plane_json(shapes.rand_plane(rng)), feed=100, speed=5000, tool_diameter=2, tool_number=1, plunge_feed=40), pool=pool, hist=hist)


def run(c, replayed, random, refs):
    from . import models

    if c.replay:
        check(c, [c.replay["data"]], "replay", refs=refs)
        return c.finish()
    hs = models.fluent_design(c)
    c.rng("model").shuffle(hs)
    check(c, [model_history(c.rng("model", i), h) for i, h in enumerate(hs[: c.n(*replayed)])], "histories of the model", refs=refs)
    check(c, [random_history(c.rng("random", i), c.rng("n", i).choice([3, 5, 8])) for i in range(c.n(*random))], "random histories", refs=refs)
    return c.finish(["what can be seen of a job: settings, operations, program", "shapes are compared by their edges and locations"])


if __name__ == "__main__":
    json.dump(fresh_programs(json.load(open(sys.argv[1]))), open(sys.argv[2], "w"))
