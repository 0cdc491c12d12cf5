"""Shared machinery of the monitors: verdicts, events, cases, exceptions.

A check is a module in /verif/checks with

  PID        the property
  SCENARIOS  [(name, function(rng, ctx), weight)]; a function drives the real
             code and reports to ctx; it raises Violation (via ctx.fail) when
             an oracle is contradicted
  DIRECTED   [(name, function(rng, ctx))], run once each, first
  CASES      {'quick': n, 'thorough': m} number of generated cases
  REQUIRED   {event: minimum} counts below which the run is inconclusive
  RULE       how cases are made and what makes one non-trivial
"""
import os
import random
import sys
from collections import Counter

# VERIF_DEV_REPO: a scratch copy, for trying planted changes in parallel.
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')


class Violation(Exception):
    """An oracle was contradicted by an observed execution."""


class Stuck(BaseException):
    """A case used more CPU time than any terminating one would."""


class Ctx(object):
    def __init__(self, tier='quick'):
        self.tier = tier
        self.events = Counter()
        self.sigs = set()
        self.samples = []
        self.known = {}
        self.note = None          # description of the current input
        self.trace = []

    def ev(self, name, n=1):
        self.events[name] += n

    def seen(self, sig):
        """Records a distinct non-trivial observed state."""
        self.sigs.add(hash(sig) if not isinstance(sig, int) else sig)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def log(self, *what):
        self.trace.append(' '.join(str(w) for w in what))
        if len(self.trace) > 400:
            del self.trace[:200]

    def fail(self, msg, *more):
        raise Violation(' '.join([str(msg)] + [short(m) for m in more]))

    def check(self, cond, msg, *more):
        if not cond:
            self.fail(msg, *more)

    def finding(self, key, what):
        """A listed genuine defect was reproduced (see known_findings.txt)."""
        self.known[key] = what

    @property
    def thorough(self):
        return self.tier == 'thorough'


def short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


_INF = float('inf')


def close(a, b, rel=1e-9, abs_=1e-12):
    # infinity is close to itself only; not-a-number to nothing
    return a == b or (abs(a - b) <= max(abs_, rel * max(abs(a), abs(b))) and
                      abs(a) != _INF and abs(b) != _INF)


def load_library():
    """Imports the library from /repo and makes sure it is that one."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import concept_formation.cobweb as m
    if not m.__file__.startswith(REPO + '/concept_formation/'):
        raise SystemExit('library not imported from /repo: ' + m.__file__)


def case_rng(seed, pid, scenario, index):
    return random.Random('%s/%s/%s/%s' % (seed, pid, scenario, index))
