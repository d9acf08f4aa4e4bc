"""Transition tours over the transitions printed by any specification as <<"T", from, operation (JSON), to, allowed>>."""
import collections, json, re
from tour import tours
def transitions(out):
    ids, names, g, ops = {}, [], collections.defaultdict(dict), {}
    dq = r'"((?:[^"\\]|\\.)*)"'
    def sid(s):
        if s not in ids: ids[s] = len(ids); names.append(s)
        return ids[s]
    for m in re.finditer(r'<<\s*"T",\s*' + dq + r",\s*" + dq + r",\s*" + dq + r",\s*(TRUE|FALSE)\s*>>", out):
        a, o, b, ok = m.groups()
        g[sid(a)][(o, b)] = (sid(b), ok == "TRUE")
        if (o, b) not in ops: ops[(o, b)] = json.loads(o.replace('\\"', '"'))
    return g, ops, names
def tours_of(out, maxlen=40):
    """All transitions, as paths from the states no transition leads to (or the first)."""
    g, ops, names = transitions(out)
    into = {t for s in g for (t, ok) in g[s].values() if t != s}
    roots = [s for s in g if s not in into] or [0]
    res, total, done = [], 0, set()
    for r in roots:
        seen, q = {r}, [r]
        while q:
            s = q.pop()
            for t, ok in g.get(s, {}).values():
                if t not in seen: seen.add(t); q.append(t)
        sub = {s: {k: v for k, v in g[s].items()} for s in seen if s in g}
        paths, n = tours(sub, ops, maxlen=maxlen, init=r)
        total += n
        res += [(names[r], [o for o, ok in p]) for p in paths]
    return res, total
