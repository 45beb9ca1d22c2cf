"""Scenarios: plain JSON descriptions of jobs and requests, and their execution against the real code.

job   {plane: [o, x, n], feed, speed, tool_diameter, tool_number, name, plunge_feed, rapid_height, op_safe_height,
       precision, unit, wcs, path, coolant}
step  {kind: profile | wire | pocket | drill | update, tool: {...} | null, ...}
"""
import cadquery as cq

from . import shapes
from .shapes import Outline, build_face, build_wire


def plane_of(p):
    return cq.Plane(cq.Vector(*p[0]), cq.Vector(*p[1]), cq.Vector(*p[2]))


def plane_json(pl):
    return [list(pl.origin.toTuple()), list(pl.xDir.toTuple()), list(pl.zDir.toTuple())]


def outline(o):
    return o if isinstance(o, Outline) else Outline([tuple(tuple(v) if isinstance(v, list) else v for v in e) for e in o])


# What the modes of a job are called (RS274 and LinuxCNC: G61 keeps to the exact path, G61.1 stops at every point)
MODES = dict(G20="IMPERIAL", G21="METRIC", G54="OFFSET_1", G55="OFFSET_2", G56="OFFSET_3", G57="OFFSET_4", G58="OFFSET_5", G59="OFFSET_6",
             G64="CONTINUOUS", M7="MIST", M8="FLOOD", M9="OFF")
MODES["G61"], MODES["G61.1"] = "EXACT_PATH", "EXACT_STOP"


def make_job(j):
    from cq_cam import Job
    from cq_cam.groups import CoolantState, PlannerControlMode, Unit, WorkOffset

    kw = {k: j[k] for k in ("feed", "speed", "tool_diameter", "tool_number", "name", "plunge_feed", "rapid_height",
                            "op_safe_height", "precision") if k in j}
    if "unit" in j:
        kw["unit"] = Unit[MODES[j["unit"]]]
    if "wcs" in j:
        kw["coordinate"] = WorkOffset[MODES[j["wcs"]]]
    if "path" in j:
        kw["controller_motion"] = PlannerControlMode[MODES[j["path"]]]
    if j.get("coolant"):
        kw["coolant"] = CoolantState[MODES[j["coolant"]]]
    return Job(plane_of(j["plane"]), **kw)


def make_tool(t):
    if t is None:
        return None
    from cq_cam.tool import Tool

    return Tool(**t)


def make_tabs(t):
    if t is None:
        return None
    from cq_cam.operations.tabs import EdgeTabs, WireTabs

    if t["kind"] == "wire":
        return WireTabs(count=t["count"], width=t["width"], height=t["height"])
    return EdgeTabs(spacing=t["spacing"], width=t["width"], height=t["height"], only=t.get("only"))


def face(f, plane):
    return build_face(outline(f["outer"]), [outline(h) for h in f.get("holes", [])], f["z"], plane, f.get("how", "world"))


def wire(w, plane):
    return build_wire(outline(w["outline"]), w["z"], plane, w.get("how", "world"), w.get("reverse", False))


def selection(items, how):
    """The same selection handed over as a list, a workplane or (one item) the bare shape"""
    if how == "wp":
        return cq.Workplane().newObject(items)
    if how == "one" and len(items) == 1:
        return items[0]
    return items


def items_of(step, plane, key="items"):
    out = []
    for it in step[key]:
        if "outer" in it:
            out.append(face(it, plane))
        elif "outline" in it:
            out.append(wire(it, plane))
        elif "point" in it:
            out.append(plane.toWorldCoords(cq.Vector(*it["point"])))
        else:
            raise ValueError(it)
    return out


def opt(step, *names):
    out = {}
    for n in names:
        if n in step:
            v = step[n]
            out[n] = tuple(v) if isinstance(v, list) else v
    return out


def apply(job, step, plane, built=None, tabs=None, tool=None, avoid=None):
    """One request on a job. built, tabs, tool, avoid: reuse these objects instead of building them."""
    kind = step["kind"]
    tool = tool or make_tool(step.get("tool"))
    if kind == "update":
        return job.update_tool(tool)
    items = built if built is not None else items_of(step, plane)
    sel = items if built is not None else selection(items, step.get("as", "list"))
    kw = dict(tool=tool) if tool else {}
    if kind == "profile":
        if step.get("tabs") or tabs:
            kw["tabs"] = tabs or make_tabs(step["tabs"])
        return job.profile(sel, **opt(step, "outer_offset", "inner_offset", "stepdown"), **kw)
    if kind == "wire":
        if step.get("tabs") or tabs:
            kw["tabs"] = tabs or make_tabs(step["tabs"])
        return job.wire_profile(sel, **opt(step, "offset", "stepdown"), **kw)
    if kind == "pocket":
        if step.get("avoid"):
            kw["avoid_areas"] = avoid if avoid is not None else selection(items_of(step, plane, "avoid"), step.get("as", "list"))
        return job.pocket(sel, **opt(step, "outer_offset", "inner_offset", "avoid_outer_offset", "avoid_inner_offset",
                                     "stepover", "stepdown"), **kw)
    if kind == "drill":
        return job.drill(sel, **opt(step, "depth"), **kw)
    raise ValueError(kind)


def build(sc):
    """The final job of a scenario"""
    plane = plane_of(sc["job"]["plane"])
    job = make_job(sc["job"])
    for step in sc["steps"]:
        job = apply(job, step, plane)
    return job
