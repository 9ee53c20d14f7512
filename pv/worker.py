"""One worker process of a check: regressions, then generated cases."""

import collections
import json
import os
import resource
import sys
import time

from . import env  # noqa: F401
from .core import Hang, Violation, reset_parsers
from .harness import arm, digest, load, run_case


class Campaign:
    """State and statistics of one worker."""

    def __init__(self, prop, tier, seed, index, of):
        self.prop, self.tier, self.seed, self.index, self.of = prop, tier, seed, index, of
        self.mod = load(prop)
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = collections.Counter()
        self.samples = []
        self.per_part = collections.Counter()
        self.failed = None  # dict: part, case, message
        self.current = None

    def one(self, part, case):
        self.current = (part.name, case)
        self.evaluations += 1
        self.per_part[part.name] += 1
        try:
            r = run_case(part, case)
        except Violation as e:
            self.failed = {"part": part.name, "case": case, "message": str(e)}
            raise
        nontrivial, classes = r if r is not None else (True, [])
        for c in classes:
            self.classes[f"{part.name}: {c}"] += 1
        if nontrivial:
            k = digest(case)
            if k not in self.nontrivial:
                self.nontrivial.add(k)
                n = self.per_part[part.name]
                if n in (3, 40) or (n > 40 and len(self.samples) < 2):
                    self.samples.append({"part": part.name, "case": case})

    def run(self, only=None):
        for i, (part_name, case) in enumerate(getattr(self.mod, "REGRESSIONS", [])):
            if i % self.of == self.index:
                part = {p.name: p for p in self.mod.PARTS}[part_name]
                try:
                    self.one(part, case)
                except Violation:
                    return
                reset_parsers()
        for part in self.mod.PARTS:
            total = part.quick if self.tier == "quick" else part.thorough
            quota = (total + self.of - 1) // self.of
            t0 = time.time()
            if not self.generate(part, quota):
                return
            self.classes[f"{part.name}: ~cpu-ms"] += int(1000 * (time.time() - t0))

    def generate(self, part, quota):
        import hypothesis.internal.conjecture.engine as engine
        from hypothesis import HealthCheck, Phase, given, seed, settings
        from hypothesis.errors import Flaky

        engine.MAX_SHRINKING_SECONDS = 60
        me = self

        @seed(self.seed * 1000 + self.index)
        @settings(
            max_examples=quota,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            print_blob=False,
        )
        @given(part.strategy)
        def test(case):
            me.one(part, case)

        try:
            test()
        except Violation:
            return False
        except Flaky:
            if self.failed is None:
                raise
            self.failed["history"] = True
            return False
        except BaseException as e:  # noqa
            if type(e).__name__ in ("FlakyFailure", "ExceptionGroup", "BaseExceptionGroup") and self.failed:
                self.failed["history"] = True
                return False
            raise
        return True


def main():
    prop, tier, seed, index, of, out = sys.argv[1:7]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    arm()
    c = Campaign(prop, tier, int(seed), int(index), int(of))
    try:
        c.run()
    except Hang as e:
        name, case = c.current
        c.failed = {"part": name, "case": case, "message": f"hang: {e}"}
    res = {
        "evaluations": c.evaluations,
        "nontrivial": sorted(c.nontrivial),
        "classes": dict(c.classes),
        "samples": c.samples,
        "failed": c.failed,
    }
    tmp = out + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(res, fh)
    os.replace(tmp, out)


if __name__ == "__main__":
    main()
