"""C01: rapid moves. Programs of random histories are executed on the Rs274 machine and judged by RapidViol."""
from vlib import gen, models, progcheck


def scenarios(c, n, nmax):
    out = []
    for i in range(n):
        rng = c.rng("hist", i)
        kinds = rng.choice([("profile", "wire", "pocket", "drill", "update"), ("profile", "wire"), ("pocket",), ("drill", "pocket")])
        out.append(progcheck.random_scenario(rng, kinds, nmax))
    return out


def tall_tabs(c, n):
    """Tabs whose tops reach above the operation safe height: toolpaths start, end and run above it."""
    out = []
    for i in range(n):
        rng = c.rng("tall", i)
        j = gen.rand_job(rng)
        j["op_safe_height"] = rng.choice([0, 0.1, 0.3, 0.5])
        j["rapid_height"] = j["op_safe_height"] + rng.choice([1, 2, 6])
        steps = []
        for k in range(rng.randint(1, 2)):
            st = gen.rand_profile(rng, j["tool_diameter"] / 2, nfaces=rng.randint(2, 3) if k == 0 else None, tabs=True, stepdown=rng.random() < 0.3,
                                  wires=rng.random() < 0.5)
            low = max(-it["z"] for it in st["items"])
            st["tabs"]["height"] = round(low + j["op_safe_height"] + rng.uniform(-0.1, 0.9), 2)
            if st["tabs"]["kind"] == "edge" and rng.random() < 0.5:
                st["tabs"].pop("only", None)
            steps.append(st)
        out.append(dict(job=j, steps=steps))
    return out


def run(c):
    if c.replay:
        progcheck.check(c, [c.replay["data"]], "replay")
        return c.finish()
    models.program_design(c)
    progcheck.check(c, scenarios(c, c.n(260, 4000), 3), "short histories")
    progcheck.check(c, scenarios(c, c.n(60, 800), 6), "long histories")
    progcheck.check(c, tall_tabs(c, c.n(60, 800)), "tabs above the safe height")
    return c.finish(["the operation safe height is not above the rapid height", "stock fills everything below the job surface",
                     "after G30 the position of the tool is unknown"])
