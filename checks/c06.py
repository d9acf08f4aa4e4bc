"""The directory index as an exact map over a valid balanced tree.  Cases: (1) every transition (insertion or deletion at every rank) of every tree shape that the exhaustively explored BTreeMC model reaches at
order 5, executed in a copy of the real index compiled with order 5, pages dumped at varying intervals and the index reloaded at varying moments; (2) seeded random, ascending, descending, growing and shrinking
histories at order 5 and at the real order 13, under the four comparison rules, with names up to the longest; (3) churn that fills the list of free pages until the index is rebuilt; (4) large directories through
the whole file system.  Judged by TLC: BTreeTrace demands the exact map in every answer and enumeration and a structure without Problems (order, balance, occupancy, used and free pages partition the file) in every dump."""
import bisect, collections, glob
from common import *
LEVEL = "model_checking"
TARGETS = ["vdrv", "vbt", "vbts"]
ASSUMPTIONS = ["the copy with order 5 differs from the sources in the constant BTREE_MAX_NUM_ENTRIES only", "pages are read back through the public read interface after a flush"]
AL = "bcdefghijklmnopqrstuvwxy"
def between(a, b):
    """a name strictly between a and b in byte order (None: unbounded)"""
    a = a or ""
    r = ""
    i = 0
    while True:
        lo = ord(a[i]) if i < len(a) else ord("a")
        hi = ord(b[i]) if b is not None and i < len(b) else ord("z") + 1
        if hi - lo > 1:
            return r + chr(lo + (hi - lo) // 2)
        r += chr(lo)
        if hi - lo == 1: b = None
        i += 1
class BScript:
    recorded = False
    def __init__(self, id, ops, exe="vbts", cmp=0, iv=12, pad=0, order=None):
        self.id, self.ops, self.exe, self.cmp, self.iv, self.pad = id, ops, exe, cmp, iv, pad
        self.order, self.stderr = order, ""
    def dump(self): return {"id": self.id, "exe": self.exe, "cmp": self.cmp, "iv": self.iv, "pad": self.pad, "ops": [list(o) for o in self.ops]}
    def run(self):
        p = fresh_path("bt")
        lines = [f"new {p} {self.cmp} {self.iv} {self.pad}"]
        for o in self.ops: lines.append(" ".join(map(str, o)))
        outs, rc, self.stderr = run_driver(lines + ["quit"], exe=self.exe, timeout=600)
        for x in (".d", ".m"):
            with contextlib.suppress(OSError): os.unlink(p + x)
        ev, names = [], set()
        for o, a in zip(self.ops, outs[1:]):
            e = {"op": o[0], **{k: v for k, v in a.items() if k not in ("what",)}}
            if o[0] in ("add", "del", "get"): e["n"] = o[1]; names.add(o[1])
            if o[0] == "add": e["tag"], e["ty"] = o[2], o[3]
            ev.append(e)
        if len(outs) - 1 < len(self.ops): ev.append({"op": "died", "r": -9999})
        key = (lambda n: n.lower()) if self.cmp in (1, 3) else (lambda n: n)
        rk = {k: i for i, k in enumerate(sorted({key(n) for n in names}))}
        return {"id": self.id, "cfg": {"M": ORDER[self.exe], "ord": {n: rk[key(n)] for n in names} or {"-": 0}}, "ev": ev}
ORDER = {"vbt": 13, "vbts": 5}
def model(ck, n):
    path = fresh_path("mc") + ".cfg"
    open(path, "w").write(f"SPECIFICATION Spec\nVIEW V\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n M = 5\n MaxKeys = {n}\n Emit = TRUE\n")
    out = ck.model("BTreeMC", path, timeout=600, heap="8g")
    ck.cov["models"][f"BTreeMC order 5, at most {n} entries"] = ck.cov["models"].pop(path)
    ids, g, ops = {}, collections.defaultdict(dict), {}
    for m in re.finditer(r'<<\s*"T",\s*"([^"]*)",\s*"(add|del|flush)",\s*(\d+),\s*"([^"]*)"\s*>>', out):
        s, op, r, s2 = m.groups()
        a, b = ids.setdefault(s, len(ids)), ids.setdefault(s2, len(ids))
        o = f"{op} {r}"
        g[a][o] = (b, True); ops[o] = (op, int(r))
    return g, ops, ids
def concrete(path, rng, every):
    """model operations at ranks to operations on names"""
    names, out, tag = [], [], 0
    for k, ((op, r), _) in enumerate(path):
        if op == "add":
            r = min(r, len(names) + 1)
            nm = between(names[r - 2] if r > 1 else None, names[r - 1] if r <= len(names) else None)
            names.insert(r - 1, nm); tag += 1
            out.append(("add", nm, tag, (8, 4, 10)[tag % 3]))
            if rng.random() < 0.15: out.append(("add", nm, tag + 5000, 4))
        elif op == "flush": out.append(("dump",))
        elif r <= len(names):
            nm = names.pop(r - 1)
            out.append(("del", nm))
            if rng.random() < 0.15: out.append(rng.choice([("del", nm), ("get", nm)]))
        if names and rng.random() < 0.2: out.append(("get", rng.choice(names)))
        if rng.random() < every: out.append(("dump",))
        if rng.random() < every / 3: out.append(("reload",))
        if rng.random() < 0.02: out += [("iter",), ("empty",)]
    return out + [("iter",), ("dump",), ("reload",), ("iter",), ("dump",)]
def random_history(rng, steps, bias, pool, dumps, order="random", fold=False):
    live, out, tag = [], [], 0
    seq = 0
    def sp(n): return "".join(c.upper() if rng.random() < 0.3 else c for c in n) if fold else n
    for k in range(steps):
        b = bias(k / steps)
        if live and rng.random() > b:
            i = {"random": rng.randrange(len(live)), "first": 0, "last": len(live) - 1}[order if order in ("first", "last") else "random"]
            n = live.pop(i)
            out.append(("del", sp(n)))
        else:
            n = pool(rng, seq); seq += 1; tag += 1
            out.append(("add", sp(n), tag, rng.choice([4, 8, 10])))
            i = bisect.bisect_left(live, n)
            if i >= len(live) or live[i] != n: live.insert(i, n)
        x = rng.random()
        if x < 0.1 and live: out.append(("get", sp(rng.choice(live))))
        elif x < 0.13: out.append(("get", pool(rng, rng.randrange(seq + 5))))
        elif x < 0.16: out.append(("del", pool(rng, seq + 1 + rng.randrange(50))[:254] + "x"))
        if rng.random() < dumps: out.append(("dump",))
        if rng.random() < dumps / 3: out.append(("reload",))
        if rng.random() < dumps / 6: out.append(("iter",))
    if not fold and rng.random() < 0.6:
        rng.shuffle(live)
        out += [("del", n) for n in live] + [("empty",), ("dump",), ("iter",)]
    return out + [("dump",), ("reload",), ("iter",), ("dump",), ("add", "zz", 9, 8), ("dump",)]
def run(ck):
    small = open(os.path.join(BUILD, "gen/small/btree_dir.h")).read()
    if not re.search(r"BTREE_MAX_NUM_ENTRIES\s*=\s*5\b", small): ORDER["vbts"] = 13
    g, ops, ids = model(ck, ck.n(18, 22))
    init = next(i for s, i in ids.items() if s.replace("\\", "").startswith("[[],"))
    paths, total = tours(g, ops, maxlen=250, init=init)
    ck.count("model_transitions_replayed", total)
    S = []
    for rep in range(ck.n(1, 3)):
        for i, p in enumerate(paths):
            rng = ck.rng("tour", rep, i)
            S.append(BScript(f"tour{rep}.{i}", concrete(p, rng, (0.35, 0.1, 0.7)[(i + rep) % 3]), iv=12, pad=0 if i % 4 else 31))
    pools = {"short": lambda r, s: "n%d" % r.randrange(400), "asc": lambda r, s: "n%06d" % s, "desc": lambda r, s: "n%06d" % (999999 - s),
             "mid": lambda r, s: "n%06d" % (500000 + (s if s % 2 else -s)), "long": lambda r, s: ("%03d" % r.randrange(600)) * 85, "len": lambda r, s: "k" * r.randrange(1, 255) + "%d" % r.randrange(3)}
    biases = {"grow": lambda x: 0.75, "shrink": lambda x: 0.95 if x < 0.5 else 0.08, "even": lambda x: 0.5, "wave": lambda x: 0.9 if int(x * 6) % 2 == 0 else 0.1}
    for i in range(ck.n(120, 1500)):
        rng = ck.rng("rand", i)
        pn, bn = list(pools)[i % len(pools)], list(biases)[(i // len(pools)) % len(biases)]
        cmp = (0, 1, 0, 2, 0, 3)[i % 6] if pn == "short" else (0 if i % 2 else 2)
        exe = "vbt" if i % 2 else "vbts"
        n = ck.n(250, 500) if exe == "vbts" else ck.n(450, 1500)
        S.append(BScript(f"rand{i}.{pn}.{bn}", random_history(rng, n, biases[bn], pools[pn], 0.04, ("random", "first", "last")[i % 3], fold=cmp in (1, 3)), exe=exe, cmp=cmp, iv=(12, 32)[i % 2], pad=(0, 31)[(i // 2) % 2]))
    for i in range(ck.n(6, 40)):                       # many entries, then almost all removed, between few flushes: the index is rebuilt
        rng = ck.rng("rebuild", i)
        n = (60, 400)[i % 2]
        o = [("add", "n%05d" % k, k, 8) for k in rng.sample(range(n), n)] + [("dump",)]
        keep = set(rng.sample(range(n), 7))
        d = [k for k in range(n) if k not in keep]
        rng.shuffle(d)
        for j, k in enumerate(d):
            o.append(("del", "n%05d" % k))
            if j % max(1, n // 6) == 0: o += [("dump",), ("get", "n%05d" % k)]
            if j == len(d) // 2 and i % 3: o += [("reload",)]
        o += [("dump",), ("iter",)] + [("get", "n%05d" % k) for k in sorted(keep)] + [("add", "n%05d" % k, k + 7000, 4) for k in d[:40]] + [("dump",), ("iter",), ("reload",), ("dump",), ("iter",)]
        S.append(BScript(f"rebuild{i}", o, exe=("vbts", "vbt")[i // 2 % 2]))
    ck.scripts(S, module="BTreeTrace", batch=400)
    # whole file systems: directories of many pages, listed, looked up, emptied and refilled, across mounts
    T = []
    for i in range(ck.n(6, 40)):
        rng = ck.rng("fs", i)
        n = rng.choice([30, 90, 200]) if ck.quick else rng.choice([90, 300, 900])
        t = ["mkdir d"]
        order = rng.sample(range(n), n)
        for k in order: t.append(rng.choice([f"create 1 d/n{k};release 1", f"mkdir d/n{k}", f"symlink t1 d/n{k}"]) if k % 5 else f"create 1 d/n{k};release 1")
        t += ["ls d", "remount", "ls d"]
        for k in rng.sample(range(n), n * 9 // 10): t += [f"rename d/n{k} m{k}"] if k % 7 == 0 else [f"unlink d/n{k};rmdir d/n{k}"]
        t += ["ls d", "remount", "snap"] + [f"symlink t1 d/n{k}" for k in rng.sample(range(n), n // 2)] + ["ls d", "remount", "snap"]
        T += handmade([Mount("full", block=rng.choice([256, 4096]), store_time=i % 2)], plain_names("d", *[f"n{k}" for k in range(n)], *[f"m{k}" for k in range(n)]), [";".join(t)], f"fs{i}")
    ck.scripts(T)
