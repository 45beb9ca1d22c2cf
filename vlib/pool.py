"""Runs a function over many items in forked workers; a crash, a hang or an exception becomes a result."""
import multiprocessing as mp
import os
import resource
import time
import traceback

GB = 1 << 30


def cpu(pid):
    """Seconds of processor time a worker has used"""
    try:
        with open(f"/proc/{pid}/stat") as f:
            u = f.read().rsplit(")", 1)[1].split()
        return (int(u[11]) + int(u[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0


class Failed:
    """kind: "raised" | "crashed" | "hung" """

    def __init__(self, kind, text):
        self.kind, self.text = kind, text

    def __repr__(self):
        return f"{self.kind}: {self.text}"


def _worker(fn, inq, outq, mem):
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    while True:
        task = inq.recv()
        if task is None:
            return
        i, item = task
        try:
            r = fn(item)
        except BaseException as e:  # noqa: every outcome of the code under test is a result
            tb = traceback.extract_tb(e.__traceback__)
            at = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:])
            r = Failed("raised", f"{type(e).__name__}: {e} [{at}]")
        outq.send((i, r))


def run_many(fn, items, timeout=60, procs=8, mem=6 * GB, budget=None, most=8):
    """Yields (index, result); results come in any order.

    timeout is processor time (a busy machine is no hang), 8 times of it by the clock. Items not started within the
    budget, or after `most` items hung, are given up as "long".
    """
    ctx = mp.get_context("fork")
    items = list(items)
    todo = list(range(len(items)))[::-1]
    t_end = time.time() + budget if budget else None
    slots, hung, given_up = [], 0, []

    def spawn():
        a, b = ctx.Pipe()
        c, d = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(fn, b, c, mem), daemon=True)
        p.start()
        b.close()
        c.close()
        return dict(p=p, inq=a, outq=d, cur=None, t=0)

    def feed(s):
        if todo and not (t_end and time.time() > t_end):
            i = todo.pop()
            s["cur"], s["t"], s["c"] = i, time.time(), cpu(s["p"].pid)
            s["inq"].send((i, items[i]))
        else:
            s["cur"] = None

    try:
        for _ in range(min(procs, len(items))):
            s = spawn()
            slots.append(s)
            feed(s)
        while any(s["cur"] is not None for s in slots):
            ready = mp.connection.wait([s["outq"] for s in slots if s["cur"] is not None], timeout=0.5)
            for k, s in enumerate(slots):
                if s["cur"] is None:
                    continue
                if s["outq"] in ready:
                    try:
                        i, r = s["outq"].recv()
                        yield i, r
                        feed(s)
                        continue
                    except (EOFError, OSError):
                        s["p"].join(5)
                        yield s["cur"], Failed("crashed", f"exit code {s['p'].exitcode}")
                elif cpu(s["p"].pid) - s["c"] > timeout or time.time() - s["t"] > 8 * timeout:
                    hung += 1
                    if hung >= most:
                        given_up, todo[:] = given_up + todo, []
                    yield s["cur"], Failed("hung", f"no result within {timeout} s")
                else:
                    continue
                s["p"].kill()
                s["p"].join()
                slots[k] = spawn()
                feed(slots[k])
        for i in given_up + todo:
            yield i, Failed("long", "not run")
    finally:
        for s in slots:
            s["p"].kill()
            s["p"].join()
