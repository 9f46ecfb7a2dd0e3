"""Choice source, event log and minimiser of the simulator.

One integer (the seed) decides a whole run: every scheduling decision, fault,
workload step and input is one call of ``Sim.draw``.  The values drawn form the
*choice sequence* of the run; a replay file stores that sequence, and a run fed
with a stored sequence is an exact repetition.  0 is always the simplest
choice (no fault, no switch, smallest size), and a sequence that runs out
continues with 0, so deleting or zeroing choices is a valid simplification.
"""
import hashlib
import os as _os
import random as _random

# the tree under test; the override serves development only
REPO = _os.environ.get("CAUSYSIM_REPO", "/repo").rstrip("/")


class Violation(BaseException):
    """The property is broken in this run."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class HarnessError(BaseException):
    """The machinery itself is broken (never reported as a violation)."""


class Discard(BaseException):
    """The generated case is degenerate; the run decides nothing."""


class Sim:
    def __init__(self, seed=None, choices=None, keep_log=False, max_draws=200000):
        self.seed = seed
        self._replay = list(choices) if choices is not None else None
        self._rng = _random.Random(seed) if choices is None else None
        self.choices = []
        self.max_draws = max_draws
        self.keep_log = keep_log
        self.log_lines = []
        self._digest = hashlib.sha256()
        self._inter = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.counts = {}
        self.sim_time = 0.0
        self.nontrivial = False
        self.desc = None
        self.inter_events = 0

    # ---- choices -------------------------------------------------------
    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.choices)
        if i >= self.max_draws:
            raise Discard("too many choices")
        if self._replay is not None:
            v = self._replay[i] if i < len(self._replay) else 0
            v = v % n if isinstance(v, int) and v >= 0 else 0
        else:
            v = self._rng.randrange(n)
        self.choices.append(v)
        return v

    def chance(self, num, den):
        """True with probability num/den (0 drawn = False)."""
        if num <= 0:
            return False
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def rint(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    # ---- records -------------------------------------------------------
    def log(self, line):
        line = str(line)
        self._digest.update(line.encode("utf-8", "replace") + b"\n")
        if self.keep_log:
            self.log_lines.append(line)

    def inter(self, tag):
        """One scheduling/fault decision that took effect."""
        self.inter_events += 1
        self._inter.update(str(tag).encode() + b";")
        self.log("S " + str(tag))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.inter("fault:" + kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self._digest.hexdigest()

    def inter_digest(self):
        return self._inter.hexdigest()[:16]


def shrink(run, choices, max_tries=400, deadline=None):
    """Minimise a failing choice sequence.

    ``run(choices) -> (failed_same_kind, used_choices)``.
    """
    import time

    tries = [0]

    def attempt(cand):
        if tries[0] >= max_tries or (deadline and time.time() > deadline):
            return None
        tries[0] += 1
        ok, used = run(cand)
        if ok:
            while used and used[-1] == 0:
                used = used[:-1]
            return used
        return None

    def size(c):
        return (len(c), sum(c))

    best = list(choices)
    while best and best[-1] == 0:
        best.pop()
    improved = True
    while improved:
        improved = False
        # truncate
        lo = 0
        for cut in (0, len(best) // 8, len(best) // 4, len(best) // 2, len(best) * 3 // 4, len(best) - 1):
            if cut >= len(best):
                continue
            r = attempt(best[:cut])
            if r is not None and size(r) < size(best):
                best = r
                improved = True
                break
        # delete / zero chunks
        k = max(1, len(best) // 2)
        while k >= 1:
            i = 0
            while i < len(best):
                seg = best[i:i + k]
                r = attempt(best[:i] + best[i + k:])
                if r is not None and size(r) < size(best):
                    best = r
                    improved = True
                    continue
                if any(seg):
                    r = attempt(best[:i] + [0] * len(seg) + best[i + k:])
                    if r is not None and size(r) < size(best):
                        best = r
                        improved = True
                i += k
            if k == 1:
                break
            k //= 2
        # lower values
        for i in range(len(best)):
            if i >= len(best):
                break
            for v in (1, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    r = attempt(best[:i] + [v] + best[i + 1:])
                    if r is not None and size(r) < size(best):
                        best = r
                        improved = True
                        break
        if tries[0] >= max_tries or (deadline and time.time() > deadline):
            break
    return best, tries[0]
