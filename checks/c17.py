"""Linearizability of concurrent operations.  Cases: (1) for pairs of operations (or short sequences) of two threads on shared names, directories, objects and handles, schedules in which one thread is stopped at a point
(before every lock acquisition, after every release, before every storage call) and the other runs, in both roles, for every such point; (2) schedules with two and three switches at sampled points; (3) random programs
of two to four threads with random delays at all those points.  Afterwards the whole tree is compared, its files are closed, the data directory is checked for leftovers, and the tree again after a remount.
TLC searches LinTrace for an order of the calls that explains every answer and everything seen afterwards; abseil's lock order checker is on, and a call that never returns is a violation."""
from common import *
from lin import *
LEVEL = "model_checking"
ASSUMPTIONS = ["the schedules that matter are those at lock operations and storage calls (data races in between are the business of the address sanitizer, not of this check)",
               "a directory is not removed or replaced while another call goes below it: the kernel locks it"]
NAMES = "ABDENxyznmsk"
SHORT = Names({x: x for x in NAMES})
LONG = Names({x: (long_name(x, 180) if x in "DENxyznmsk" else x.encode()) for x in NAMES})
MIXED = Names({x: (long_name(x, 180) if x in "DynkB" else x.encode()) for x in NAMES})
PRE = "mkdir A;mkdir B;create 9 A/x;write 9 0 700 1;release 9;link A/x B/z;create 9 B/y;write 9 0 300 2;release 9;mkdir A/D;mkdir B/E;create 9 A/m;write 9 0 400 3;release 9;symlink t1 A/s;setxattr A/x user.x t1 5;open 1 A/x;open 2 B/y;opendir 3 A"
# H: a handle of the thread's own
OPS = ["create H A/n", "create H A/x", "mkdir A/N", "mkdir A/D", "symlink t1 A/k", "link A/x B/n", "link A/x A/n", "link B/y A/n", "link B/z A/n", "unlink A/x", "unlink B/z", "unlink B/y", "rmdir A/D",
       "rename A/x B/y", "rename B/y A/x", "rename A/x A/n", "rename B/y A/n", "rename A/x B/z", "rename B/z A/x", "rename A/D B/E", "rename B/E A/D", "rename A/D A/N", "rename A/x B/n", "rename B/z A/n",
       "open H A/x", "open H B/y", "open H A/x t", "getattr A/x", "getattr B/y", "getattr A/D", "getattr A/n", "ls A", "ls B", "readlink A/s", "readlink A/k", "unlink A/s", "rename A/s A/k", "read 1 0 900", "write 1 100 800 7",
       "ftruncate 1 50", "truncate A/x 120", "truncate B/z 5000", "fgetattr 1", "readdir 3", "release 1", "release 2", "fsync 1", "flush 1", "fsync 2", "utimens A/x 1000.000000005 2000.000000006", "utimens A/m 3000.000000001 4000.000000002", "chmod A/x 600", "chown A/x 7 8", "setxattr A/x user.x t2 40", "getxattr A/x user.x 100",
       "removexattr A/x user.x", "listxattr A/x 100", "setxattr B/z user.y t3 9", "open H A/m", "getattr A/m", "unlink A/m", "rename B/z A/m", "rename A/m B/y", "link A/m B/m", "truncate A/m 70"]
SEQS = ["unlink A/x;create H A/x", "open H A/x;read H 0 900;release H", "release 1;open H A/x", "unlink A/x;unlink B/z;release 1", "open H B/y;unlink B/y;release H", "create H A/n;write H 0 300 5;release H", "unlink B/y;release 2",
        "rename B/y A/x;open H A/x", "rmdir A/D;mkdir A/D", "rename A/x A/n;rename A/n A/x", "write 1 0 600 3;write 1 600 600 4", "write 1 0 600 3;flush 1", "flush 1;write 1 200 600 6", "write 2 0 500 4;fsync 2", "ftruncate 1 0;write 1 0 100 5", "mkdir A/N;rename A/N A/D", "getattr A/x;getattr B/z", "symlink t1 A/k;readlink A/k"]
POST = "ls A;ls B;snap;release 1;release 2;releasedir 3;release 20;release 21;release 22;release 23;objects;remount;snap;objects"
INF = 1000000
def ops(text, t):
    return ops_of(text.replace(" H", f" {20 + t}"))
def uses(text): return {w[1] for w in (x.split() for x in text.split(";")) if w[0] in ("read", "write", "ftruncate", "fgetattr", "readdir", "fsync", "flush", "release")}
def closes(text): return {w[1] for w in (x.split() for x in text.split(";")) if w[0] == "release" and w[1] != "H"}
def possible(a, b): return not (closes(a) & uses(b)) and not (closes(b) & uses(a))      # the kernel releases a handle when nobody uses it any more
ALL = OPS + SEQS
PAIRS = [(a, b) for i, a in enumerate(ALL) for b in ALL[i:] if possible(a, b)]
def mounts(ck):
    return [(Mount("full", block=256, store_time=1), SHORT), (Mount("lite", block=256, thr=100), LONG), (Mount("lite", block=256), SHORT)] + \
        ck.n([], [(Mount("full", block=256), LONG), (Mount("lite", block=256, thr=100), MIXED)])
def judge(ck, scs):
    tr = run_all(scs)
    for s in scs: ck.case(s.tag)
    ck.count("schedules_run", len(scs))
    d = distinct(scs, tr)
    ck.count("distinct_histories", len(d))
    if d: ck.sample({"threads": d[-1][0].tag, "history": [{x: e[x] for x in ("th", "op", "s", "e", "r")} for e in d[-1][1]["par"]]})
    for k in range(0, len(d), 3000):
        part = d[k:k + 3000]
        ts = [{x: v for x, v in t.items() if x not in ("stderr", "points")} for _, t in part]
        verdict, st = validate("LinTrace", ts, timeout=1500)
        if st["invariant_violated"]: raise Broken("invariant of the specification violated on a history:\n" + st["out"][-2500:])
        ck.states += st["states"]; ck.transitions += st["transitions"]; ck.traces += len(part)
        seen = set()
        for i, (s, t) in enumerate(part):
            if i in verdict: continue
            ck.count("rejected_histories")
            sig = tuple(sorted(o["op"] for th in s.threads for o in th))
            if sig in seen: continue
            seen.add(sig)
            ck.violation(f"{s.tag} ({s.mount.desc()}): no order of the calls explains this history: " + json.dumps({"par": [{x: e[x] for x in e if x not in ("u", "g", "now", "snap", "i") and e[x] not in ([], 0)} for e in t["par"]],
                         "post": [e for e in t["post"] if e["op"] != "snap"][:3] if not str(t["post"][-1]["r"]).startswith("DIED") else t["post"]})[:2500] + ("\nstderr: " + t["stderr"] if t.get("stderr") else ""),
                         {"module": "LinTrace", "scenario": s.dump(), "trace": t})
            if len(seen) >= 6: break
    return tr
def scenario(m, nm, a, b, tag):
    return Scenario(m, nm, ops_of(PRE), [ops(a, 0), ops(b, 1)], ops_of(POST), [(0, INF)], targets=targets_for(m), xnames=["user.x", "user.y"], tag=tag)
def tidy(text):
    """A thread closes its handle before it uses it for another file."""
    out, maybe = [], False
    for x in text.split(";"):
        w = x.split()
        if w[0] in ("open", "create") and w[1] == "H":
            if maybe: out.append("release H")
            maybe = True
        if x == "release H": maybe = False
        out.append(x)
    return ";".join(out)
def random_scenario(m, nm, rng, tag):
    while True:
        th = [[rng.choice(ALL if rng.random() < 0.3 else OPS) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 4))]
        tx = [tidy(";".join(t)) for t in th]
        if all(possible(a, b) for i, a in enumerate(tx) for b in tx[:i]) and sum(t.count(";") + 1 for t in tx) <= 12: break
    s = Scenario(m, nm, ops_of(PRE), [ops(t, k) for k, t in enumerate(tx)], ops_of(POST), targets=targets_for(m), xnames=["user.x", "user.y"], tag=tag + " [" + " | ".join(tx) + "]")
    if rng.random() < 0.7: return s.with_plan([(rng.randrange(len(th)), rng.randint(1, 60)) for _ in range(rng.randint(2, 14))])
    s.jitter = (rng.choice([5, 30, 100]), rng.randint(1, 10 ** 6))
    return s
def run(ck):
    rng = ck.rng("pairs")
    for m, nm in mounts(ck):
        pairs = PAIRS if not ck.quick else rng.sample(PAIRS, 1000 if m.fmt == "full" else 300)
        base = [scenario(m, nm, a, b, f"{m.fmt} [{a} | {b}]") for a, b in pairs]
        first = judge(ck, base)
        S = []
        for s, t in zip(base, first):
            pt = t.get("points")
            if not pt: continue
            for x in (0, 1):
                ks = list(range(1, pt[x] + 1))
                if ck.quick and len(ks) > 10: ks = rng.sample(ks, 10)
                S += [s.with_plan([(x, k), (1 - x, INF)]) for k in ks]
                for _ in range(ck.n(1, 12)): S.append(s.with_plan([(x, rng.randint(1, max(1, pt[x]))), (1 - x, rng.randint(1, max(1, pt[1 - x]))), (x, INF)]))
        judge(ck, S)
        ck.part(f"pairs {m.desc()}")
        judge(ck, [random_scenario(m, nm, ck.rng("random", m.desc(), i), f"{m.fmt} random {i}") for i in range(ck.n(500, 12000))])
        ck.part(f"random {m.desc()}")
