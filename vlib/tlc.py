"""Runs TLC on a specification and collects the JSON verdicts it prints."""
import atexit, json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")


TOOLS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_classes = None


class TlcError(Exception):
    pass


def java_classes():
    """Compiles the evaluators of spec/java once per process"""
    global _classes
    if _classes is None:
        _classes = tempfile.mkdtemp(prefix="vjava.")
        atexit.register(shutil.rmtree, _classes, True)
        src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java")))]
        subprocess.run(["javac", "-cp", TOOLS, "-d", _classes] + src, check=True, capture_output=True)
    return _classes


class Result:
    def __init__(self):
        self.out, self.records, self.states, self.distinct, self.wall = "", [], 0, 0, 0.0
        self.violation = None


def run(module, config=None, data=None, workers=8, timeout=800, extra=(), heap="8g", expect_violation=False, simulate=None, java=True):
    """data: JSON-able value, made available to the spec as the file named by IOEnv.TF."""
    tmp = tempfile.mkdtemp(prefix="vtlc.")
    try:
        env = dict(os.environ)
        env["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:+UseParallelGC"
        if data is not None:
            tf = os.path.join(tmp, "data.json")
            with open(tf, "w") as f:
                json.dump(data, f)
            env["TF"] = tf
        cfg = os.path.join(SPEC, (config or module) + ".cfg")
        cp = (java_classes() + ":" if java else "") + TOOLS
        cmd = ["java", f"-Djava.io.tmpdir={tmp}", "-cp", cp, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", os.path.join(tmp, "m"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(simulate[2])]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=SPEC, env=env, capture_output=True, text=True, timeout=timeout)
        r = Result()
        r.wall = time.time() - t0
        r.out = p.stdout + p.stderr
        for line in p.stdout.splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                r.records.append(json.loads(json.loads(line)))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", r.out)
            if m:
                r.states = r.distinct = int(m[-1])
        m = re.search(r"Error: (Invariant|Action property|Temporal properties|Property|Deadlock|Assumption)[^\n]*", r.out)
        if m:
            r.violation = m.group(0)
        if p.returncode != 0 and not (expect_violation and r.violation):
            raise TlcError(f"{module}: exit {p.returncode}\n" + r.out[-4000:])
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_traces(module, traces, common=None, batch=None, **kw):
    """Runs a trace specification over all traces; returns (verdicts by trace number, summed statistics).

    The specification prints exactly one record per trace; a missing record is a machinery failure.
    """
    verdicts, states, distinct, wall = {}, 0, 0, 0.0
    batch = batch or len(traces) or 1
    for i in range(0, len(traces), batch):
        part = traces[i : i + batch]
        data = dict(common or {}, traces=part)
        r = run(module, data=data, **kw)
        states += r.states
        distinct += r.distinct
        wall += r.wall
        for rec in r.records:
            verdicts[i + rec["t"] - 1] = rec
        missing = [k for k in range(i, i + len(part)) if k not in verdicts]
        if missing:
            raise TlcError(f"{module}: no verdict for traces {missing[:5]}\n" + r.out[-3000:])
    return verdicts, dict(states=states, distinct=distinct, wall=wall)
