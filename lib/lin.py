"""Concurrent scenarios: setup, operations of several threads under a schedule, what is seen afterwards.  Judged by spec/LinTrace.tla."""
import json, os
from vlib import *
from tree import *

class Scenario:
    """pre, threads (a list of lists), post: operations as in tree.py.  plan: [(thread, points), ...] or None; jitter: (microseconds, seed) or None."""
    recorded = True
    def __init__(self, mount, names, pre, threads, post, plan=None, jitter=None, targets=None, xnames=(), tag=""):
        self.mount, self.names, self.pre, self.threads, self.post, self.plan, self.jitter = mount, names, pre, threads, post, plan, jitter
        self.targets, self.xnames, self.tag = targets or {}, list(xnames), tag
        self.points = None
    def with_plan(self, plan):
        return Scenario(self.mount, self.names, self.pre, self.threads, self.post, plan, None, self.targets, self.xnames, f"{self.tag} " + " ".join(f"{t}:{k}" for t, k in plan))
    def all_ops(self): return list(self.pre) + [o for t in self.threads for o in t] + list(self.post)
    def dump(self):
        return {"mount": self.mount.desc(), "names": {a: b.hex() for a, b in self.names.real.items() if a.encode() != b}, "pre": self.pre, "threads": self.threads, "post": self.post,
                "plan": self.plan, "jitter": self.jitter}
    # -- driver lines and, for each, what its answer is
    def lines(self, d):
        out = [("alarm 40", None), (self.mount.line(d), "mount")]
        R = lambda o: render(o, self.names, self.targets)
        for o in self.pre: out.append((R(o), ("pre", o)))
        out.append(("filter 0", None))
        out.append((("sched " + " ".join(f"{t}:{k}" for t, k in self.plan)) if self.plan else "sched", None))
        out.append((f"jitter {self.jitter[0]} {self.jitter[1]}" if self.jitter else "jitter 0 1", None))
        out.append((f"par {len(self.threads)}", "par"))
        for t, ops in enumerate(self.threads):
            for o in ops: out.append((f"{t} {R(o)}", "skip"))
        out.append(("endpar", "skip"))
        out.append(("jitter 0 1", None)); out.append(("filter 1", None))
        for o in self.post:
            if o["op"] == "remount":
                out.append(("umount", "umount")); out.append((self.mount.line(d), "mount"))
            else:
                if o["op"] == "objects": o["full"] = self.mount.fmt == "full"
                out.append((R(o), ("post", o)))
        out.append(("umount", "umount"))
        return out
    def values(self):
        v = {}
        for op in self.all_ops():
            if op["op"] == "setxattr": v.setdefault(val_bytes(op["val"]), f"v{len(v)}:{len(val_bytes(op['val']))}")
        return v
    def trace(self, answers, conv):
        """answers: pairs (what, answer).  Returns a trace, or one that no specification accepts if a mount or unmount failed."""
        cfg = self.mount.cfg(self.names, self.xnames, [493, 0, 0]); cfg["st"] = False
        t = {"id": self.tag, "cfg": cfg, "pre": [], "par": [], "post": []}
        sc = Script(self.mount, self.names, [], self.targets, self.xnames); sc.vals = conv.vals
        def event(o, a):
            e = sc.event(o, 0); e["now"] = "0.0"; e.update(conv.observe(o, a))
            for x in ([e["o"]] if "m" in e.get("o", {}) else []) + e.get("snap", []): x.update(at="?", mt="?", ct="?")      # times are not judged here
            return e
        for what, a in answers:
            if what in (None, "skip"): continue
            if what in ("mount", "umount"):
                if a.get("r", -9000) < 0: t["post"].append({**DEFAULTS, "op": "snap", "now": "0.0", "r": f"{what}:{rname(a.get('r', -9000))}", "snap": [], "errs": []})
                continue
            if what == "par":
                self.points = a.get("points")
                for x in a["par"]:
                    e = event(self.threads[x["t"]][x["i"]], x["o"]); e.update(th=x["t"], s=x["s"], e=x["e"])
                    t["par"].append(e)
                continue
            t[what[0]].append(event(what[1], a))
        if any(o["op"] == "remount" for o in self.post):
            k = next(i for i, o in enumerate(self.post) if o["op"] == "remount")
            t["post"].insert(k, {**DEFAULTS, "op": "remount", "now": "0.0", "r": "OK"}) if len(t["post"]) >= k else None
        return t

def died(sc, rc, err):
    cfg = sc.mount.cfg(sc.names, sc.xnames, [493, 0, 0]); cfg["st"] = False
    return {"id": sc.tag, "cfg": cfg, "pre": [], "par": [], "post": [{**DEFAULTS, "op": "snap", "now": "0.0", "r": f"DIED:{rc}", "snap": [], "errs": []}], "stderr": err[-3000:]}

def run_all(scs, per=24, timeout=400, env=None, exe="vdrv"):
    """Runs the scenarios, several per driver process; returns one trace each."""
    def batch(part):
        res, todo, lone = [], list(part), False
        while todo:
            now = todo[:1] if lone else todo
            dirs = [fresh("lin") for _ in now]
            seqs = [s.lines(d) for s, d in zip(now, dirs)]
            outs, rc, err = run_driver([ln for q in seqs for ln, _ in q], timeout=timeout, env=env, exe=exe)
            for d in dirs: drop(d)
            if outs and outs[-1].get("hang"): outs.pop(); rc = "HANG"
            k, n = 0, 0
            for s, q in zip(now, seqs):
                need = [w for _, w in q if w != "skip"]
                if k + len(need) > len(outs): break
                conv = Conv(s.names, s.targets); conv.vals = s.values()
                res.append(s.trace(list(zip(need, outs[k:k + len(need)])), conv)); res[-1]["points"] = s.points
                k += len(need); n += 1
            if n == len(now):
                if rc != 0: res[-1] = died(now[-1], rc, err)
                todo = todo[n:]; lone = False
                continue
            if lone:
                # alone, it died (or hung): that is its result.  A hang must repeat.
                s = now[0]
                if rc in ("HANG", "timeout") and not getattr(s, "hung", False): s.hung = True; continue
                res.append(died(s, rc, err)); todo = todo[1:]; lone = False
                continue
            todo = todo[n:]; lone = True
        return res
    parts = [scs[i:i + per] for i in range(0, len(scs), per)]
    return [t for r in pmap(batch, parts) for t in r]

def distinct(scs, traces):
    """One representative of each set of histories that differ only in their name and in moments that do not matter."""
    seen, out = {}, []
    for s, t in zip(scs, traces):
        u = {k: v for k, v in t.items() if k not in ("id", "points", "stderr")}
        p = u["par"]
        u["par"] = [{k: v for k, v in e.items() if k not in ("s", "e")} for e in p]
        u["order"] = [[i for i, a in enumerate(p) if a["e"] < b["s"]] for b in p]
        key = json.dumps(u, sort_keys=True)
        if key not in seen: seen[key] = 1; out.append((s, t))
    return out
