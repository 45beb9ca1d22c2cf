"""Shared by the properties decided on whole programs (C01, C08, C10): histories -> programs -> TraceProgram."""
from . import gen, progtrace, tlc
from .pool import Failed, run_many


def random_scenario(rng, kinds, nmax):
    j = gen.rand_job(rng)
    return dict(job=j, steps=gen.rand_history(rng, j, rng.randint(0 if nmax > 3 else 1, nmax), kinds))


def _execute(sc):
    return progtrace.execute(sc)


def check(c, scenarios, label):
    """Executes the scenarios and validates the recorded programs; reports violations of this property only."""
    results = dict(run_many(_execute, scenarios, timeout=90))
    traces, idx = [], []
    for i in range(len(scenarios)):
        r = results[i]
        if isinstance(r, Failed):
            if r.kind == "long":
                continue
            c.violation(f"{label}:{r.kind}", f"{label} scenario {i}: valid requests failed: {r}", scenarios[i])
            continue
        traces.append(r)
        idx.append(i)
    # batches bounded by size, so that the data file stays small
    verdicts, start = {}, 0
    while start < len(traces):
        end, size = start, 0
        while end < len(traces) and (end == start or size + len(traces[end]["lines"]) < 60000):
            size += len(traces[end]["lines"])
            end += 1
        v, st = tlc.check_traces("TraceProgram", [progtrace.slim(t) for t in traces[start:end]])
        c.count_traces(end - start, st)
        for k, rec in v.items():
            verdicts[start + k] = rec
        start = end
    kinds = {}
    for k, rec in verdicts.items():
        for b in rec["bad"]:
            kinds[b["c"]] = kinds.get(b["c"], 0) + 1
            if b["c"].startswith(c.prop + "."):
                src = traces[k]["src"].split("\n")
                at = max(0, b["l"] - 1)
                ctx = " | ".join(src[max(0, at - 3) : at + 1])
                c.violation(b["c"], f"{label} scenario {idx[k]}: clause {b['c']} fails at line {b['l']}: {ctx}", scenarios[idx[k]])
    moves = sum(r["moves"] for r in verdicts.values())
    c.coverage[label] = dict(programs=len(traces), moves=moves, segments=sum(r["segs"] for r in verdicts.values()), clauses_failed=kinds)
    if traces:
        t = traces[min(len(traces) - 1, 3)]
        c.samples.append(dict(scenario=label, requests=[r["kind"] for r in t["reqs"]], program_head=t["src"].split("\n")[:12],
                              blocks=len(t["lines"])))
    if moves == 0:
        raise RuntimeError("vacuous: no moves in any program")
    return verdicts
