"""Records one program trace per scenario for TraceProgram.tla: settings and requests from the scenario,
blocks from the program text."""
import os
import tempfile

from . import gcode, scenario
from .pool import Failed

NONE = -1
LABELS = ["Profile", "Wire Profile", "Pocket", "Drill", "Tool Change", "Speed Change"]


def th(v):
    return NONE if v is None else int(round(v * 1000))


def settings(j):
    return dict(num=th(j.get("tool_number")), dia=th(j.get("tool_diameter")), feed=th(j["feed"]), speed=th(j.get("speed")),
                pfeed=th(j.get("plunge_feed", j["feed"])), cool=0)


def request(step):
    t = step.get("tool")
    t0 = t or {}
    return dict(kind=step["kind"], tool=dict(given=t is not None, num=th(t0.get("tool_number")), dia=th(t0.get("tool_diameter")),
                                             feed=th(t0.get("feed")), speed=th(t0.get("speed"))))


def code(c):
    return int(round(float(c[1:]) * 10))


def cfg(j):
    imp = j.get("unit", "G21") == "G20"
    return dict(unit=code(j.get("unit", "G21")), wcs=code(j.get("wcs", "G54")), path=code(j.get("path", "G64")),
                rapid=th(j.get("rapid_height", 0.4 if imp else 10)), safe=th(j.get("op_safe_height", 0.04 if imp else 1)),
                cool=code(j["coolant"]) if j.get("coolant") else NONE)


def norm(s):
    return "".join(c for c in s if c.isalnum())


def program_lines(text, name):
    """Blocks of a program, trimmed to what the specification needs; comments get label and owner."""
    out = []
    for i, b in enumerate(gcode.read(text)):
        if b["kind"] == "comment":
            c = b["cmt"].strip()
            b["label"] = max((lb for lb in LABELS if c.endswith(lb)), key=len, default=c)
            b["owner"] = norm(c) == norm(name + b["label"])
        b["cmt"] = ""
        out.append(b)
    return out


def execute(sc, shorten=6000):
    from cq_cam.command import MotionCommand

    job = scenario.build(sc)
    text = job.to_gcode()
    # A new file, and one which held a longer program before
    with tempfile.TemporaryDirectory(prefix="vsave.") as d:
        saved = []
        for name, before in (("new.nc", None), ("old.nc", text + "\nG0 X1\n" * 50)):
            path = os.path.join(d, name)
            if before:
                with open(path, "w", newline="") as f:
                    f.write(before)
            job.save_gcode(path)
            with open(path, newline="") as f:
                saved.append(f.read())
    name = sc["job"].get("name", "Job")
    planned = [sum(isinstance(c, MotionCommand) for c in op.commands) for op in job.operations]
    lines = program_lines(text, name)
    if len(lines) > shorten:
        return Failed("long", str(len(lines)))
    return dict(cfg=cfg(sc["job"]), init=settings(sc["job"]), reqs=[request(s) for s in sc["steps"]],
                planned=planned, lines=lines, saved="same" if saved == [text, text] else "differs", text="same", src=text)


def slim(tr):
    return {k: v for k, v in tr.items() if k != "src"}
