"""C05: the layers of profiles (TraceProfile.tla) and pockets (TracePocket.tla)."""
from vlib import models, pocketcheck, profilecheck


def pockets(c):
    reqs = [r for r in models.pocket_design(c) if pocketcheck.feasible(r)]
    c.rng("pocket model").shuffle(reqs)
    cells = [pocketcheck.cell_scenario(c.rng("cell", i), r) for i, r in enumerate(reqs[: c.n(100, 3000)])]
    pocketcheck.check(c, cells, "pocket requests of the model", npts=60, nedge=10)
    pocketcheck.check(c, [pocketcheck.random_scenario(c.rng("pocket", i)) for i in range(c.n(70, 2500))], "random pockets", npts=c.n(150, 250), nedge=10)
    pocketcheck.check(c, [pocketcheck.nested_scenario(c.rng("nested", i)) for i in range(c.n(60, 2000))], "nested pockets", npts=c.n(200, 300), nedge=10)


def run(c):
    return profilecheck.run(c, 120, 3000, replays=(100, 3300), special=(100, 2000), more=pockets)
