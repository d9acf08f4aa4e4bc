"""Transition tours: every transition TLC enumerated in TreeMC becomes a step of some script."""
import collections, json, re
from vlib import *

def graph(ck, cfg, consts, timeout=900, props=True):
    """Runs TLC on TreeMC with the given constants; returns (initial view, {view: [(op, view2, ok)]})."""
    path = fresh_path("mc") + ".cfg"
    text = "SPECIFICATION Spec\nVIEW V\nINVARIANT Inv\n" + ("INVARIANT RefusedKeeps\nINVARIANT OnlyOwn\nINVARIANT EntriesTouched\nINVARIANT RenameKeepsNode\n" if props else "") + "CHECK_DEADLOCK FALSE\nCONSTANTS\n"
    dflt = dict(NameSet='{"a", "b"}', MaxDepth="2", MaxNodes="2", OpSet="{}", MaxLen="2", Handles="{}", XNames="{}", XVals="{}", Modes="{}", Fmt='"full"', DispC="FALSE", Emit="TRUE")
    c = {**dflt, **{k: v for k, v in consts.items() if k not in ("CanonOf", "LongNames")}}
    text += "".join(f"  {k} = {v}\n" for k, v in c.items())
    text += f"  CanonOf <- {consts.get('CanonOf', 'CanonNone')}\n  LongNames <- {consts.get('LongNames', 'NoLong')}\n"
    with open(path, "w") as f: f.write(text)
    out = ck.model("TreeMC", path, timeout=timeout, heap="8g")
    m = ck.cov["models"].pop(path); ck.cov["models"][cfg] = m
    ids, g, ops = {}, collections.defaultdict(dict), {}
    def sid(s): return ids.setdefault(s, len(ids))
    dq = r'"((?:[^"\\]|\\.)*)"'
    for mm in re.finditer(r'<<\s*"T",\s*' + dq + r",\s*" + dq + r",\s*" + dq + r",\s*(TRUE|FALSE)\s*>>", out):
        a, o, b, ok = mm.groups()
        g[sid(a)][o] = (sid(b), ok == "TRUE")
        if o not in ops: ops[o] = json.loads(o.replace('\\"', '"'))
    return g, ops

def tours(g, ops, maxlen=60, init=0, snap_every=8):
    """Greedy transition tour as several scripts from the initial state: refused steps in place, then the nearest uncovered step."""
    todo = {s: collections.deque(sorted(es)) for s, es in g.items()}
    left = sum(len(v) for v in todo.values())
    total = left
    dist_cache = {}
    succ = {s: [(o, t) for o, (t, ok) in es.items() if t != s] for s, es in g.items()}
    scripts = []
    while left:
        cur, path = init, []
        while left and len(path) < maxlen:
            if todo.get(cur):
                o = todo[cur].popleft(); left -= 1
                path.append((ops[o], g[cur][o][1])); cur = g[cur][o][0]
                continue
            # breadth first search to the nearest state with something left
            prev, q, goal = {cur: None}, collections.deque([cur]), None
            while q:
                s = q.popleft()
                if todo.get(s): goal = s; break
                for o, t in succ.get(s, ()):
                    if t not in prev: prev[t] = (s, o); q.append(t)
            if goal is None: break
            steps = []
            while prev[goal] is not None: s, o = prev[goal]; steps.append(o); goal = s
            for o in reversed(steps): path.append((ops[o], g[cur][o][1])); cur = g[cur][o][0]
        if not path: break
        scripts.append(path)
    assert left == 0, f"{left} of {total} transitions unreachable"
    return scripts, total

def expand(path, snap_every=8, unit=1, final=("snap", "remount", "snap"), snap_refused=False):
    """Model operations to script operations."""
    out = []
    for k, (o, ok) in enumerate(path):
        o = dict(o); o.pop("now", None)
        if o["op"] == "mk":
            out.append({**o, "op": "create"})
            if ok: out.append({"op": "release", "h": o["h"]})
            elif snap_refused: out.append({"op": "snap"})
            continue
        if o["op"] == "open": o["flag"] = "t" if o.pop("trunc") else "rw"
        if o["op"] == "symlink": o.pop("tl", None)
        if o["op"] == "setxattr": o["val"] = ("t" + o.pop("v"), o.pop("vl"))
        if o["op"] in ("write", "read"): o["off"] *= unit; o["len"] *= unit
        if o["op"] in ("truncate", "ftruncate"): o["n"] *= unit
        out.append(o)
        if (snap_every and k % snap_every == snap_every - 1) or (snap_refused and not ok): out.append({"op": "snap"})
    out += [{"op": x} for x in final]
    return out
