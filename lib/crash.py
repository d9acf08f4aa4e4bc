"""Interruptions: every storage call of an operation is a point where the process may die or the call may fail."""
import copy
from vlib import *
from tree import *

def with_op(base, k, inj):
    s = copy.copy(base)
    s.ops = [dict(o) for o in base.ops]
    s.ops[k]["inj"] = inj
    return s
def count_calls(base, k):
    s = with_op(base, k, "count")
    s.ops = s.ops[:k + 1]
    s.mutations = 0
    s.run()
    return s.mutations
def points(bases, kinds, pick=None):
    """bases: list of (script, index of the operation).  kinds: e.g. ("crash", "crash-after", "fault 5 1 0").  Returns scripts."""
    ns = pmap(lambda b: count_calls(*b), bases)
    out = []
    for (base, k), n in zip(bases, ns):
        if k + 1 < len(base.ops) and base.ops[k + 1]["op"] != "remount": pass
        for kind in kinds:
            pts = list(range(1, n + 1))
            if pick: pts = pick(pts)
            for i in pts:
                w = kind.split()
                if w[0] == "crash": inj = f"crash {i}"
                elif w[0] == "crash-after": inj = f"crash {i} after"
                elif w[0] == "crash-torn": inj = f"crash {i} torn"
                else: inj = f"fault {i} {' '.join(w[1:])}"
                s = with_op(base, k, inj)
                s.tag = f"{base.tag}-{kind.replace(' ', '_')}@{i}"
                out.append(s)
    return out, sum(ns)
