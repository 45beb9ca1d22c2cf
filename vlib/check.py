"""What every check shares: tier, seed, verdict lines, replay files, known findings, evidence."""
import json
import os
import random
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


class Check:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.violations = []
        self.known = {}
        self.states = self.transitions = self.traces = 0
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.models = []

    def rng(self, *key):
        return random.Random(f"{self.prop}/{self.seed}/{key}")

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, text):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s] {text}", flush=True)

    def violation(self, key, what, data=None):
        """key identifies the failing input independently of the run; what is for people."""
        for f in known_findings():
            if f["property"] == self.prop and f["key"] == key:
                self.known[key] = f["what"]
                return
        if any(k == key for k, _, _ in self.violations):
            return
        self.violations.append((key, what, data))

    def model(self, name, result, note=""):
        """Counts a model-checking run"""
        self.states += result.distinct
        self.transitions += result.states
        self.models.append(f"{name}: {result.distinct} states{', ' + note if note else ''}")

    def count_traces(self, n, stats):
        self.traces += n
        self.states += stats["distinct"]
        self.transitions += stats["states"]

    def finish(self, assumptions=()):
        for key, what in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (key, what, data) in enumerate(self.violations[:5]):
            path = os.path.join(d, f"{self.prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, key=key, what=what, data=data), f)
            print(f"  {what}"[:1500])
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        if not self.replay:
            cov = dict(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces, samples=self.samples[:4] or ["none"],
                       models=self.models, **self.coverage)
            ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                      assumptions=list(assumptions) or list(self.assumptions), wall_s=round(time.time() - self.t0, 2),
                      violations=len(self.violations))
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
                json.dump(ev, f, indent=1)
        self.log(f"{len(self.violations)} violations, {self.traces} traces, {self.states} states")
        return 1 if self.violations else 0
