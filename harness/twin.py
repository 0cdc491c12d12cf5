"""Twins that end up different: was it only a tie that was broken otherwise?

Twin executions use the same random seed before every operation. Should an
implementation draw its random numbers in another pattern, exact ties may be
broken differently in the twins, which no property forbids. The functions here
regrow the trees and compare everything the two may do under many seeds.
"""
import random
from itertools import islice

from harness import snap
from harness.ref import Model, from_real

SEEDS = 60


def grow(make, stream, seeds):
    t = make()
    for x, s in zip(stream, seeds):
        random.seed(s)
        t.ifit(x)
    return t


def outcomes(make, stream, seeds, op, visible):
    """Canonical forms of the tree after op (returns a leaf), over seeds."""
    out = set()
    for s in range(SEEDS):
        t = grow(make, stream, seeds)
        random.seed(s)
        out.add(snap.canon_tree(t, visible, op(t)))
    return out


def only_a_tie(one, two, seeds, op1, op2, visible=False):
    """one, two: (make, stream learned so far)."""
    a = outcomes(one[0], one[1], seeds, op1, visible)
    b = outcomes(two[0], two[1], seeds, op2, visible)
    return bool(a & b) and len(a | b) > 1


def completions(make, stream, seeds, q, **kw):
    """Per attribute, the values completing q may give, over seeds."""
    out = {}
    for s in range(SEEDS):
        t = grow(make, stream, seeds)
        random.seed(s)
        r = t.infer_missing(q, **kw)
        for a in r:
            out.setdefault(a, set()).add(gen_key(r[a]))
        for a in out:
            if a not in r:
                out[a].add(None)
    return out


def gen_key(v):
    return snap.key(v)


def completion_tie(one, two, seeds, q, **kw):
    a = completions(one[0], one[1], seeds, q, **kw)
    b = completions(two[0], two[1], seeds, q, **kw)
    for k in set(a) | set(b):
        x, y = a.get(k, {None}), b.get(k, {None})
        if not x & y:
            return False
    return True


def numeric_tie(make, kind, stream, seeds, inst, fit, eps=1e-9):
    """Whether, by the reference semantics, more than one outcome is legal:
    utilities that are equal in exact arithmetic may differ in the last bit,
    depending on the order of summation."""
    t = grow(make, stream, seeds)
    model = Model.for_tree(t, kind)
    for x in stream:
        model.learn_scales(x)
    pre = from_real(t.root)
    if fit:
        model.learn_scales(inst)
        return len(list(islice(model.outcomes(pre, inst, eps), 2))) > 1
    return len(model.descents(pre, inst, eps)) > 1
