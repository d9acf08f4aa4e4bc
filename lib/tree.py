"""Scripts of file system operations: generation, rendering for the driver, and conversion of the driver's answers into
events of spec/TreeTrace.tla."""
import os, random
from vlib import *

VBASE = 1000000
NSEC = 123456789

# ------------------------------------------------------------------------------------------------ configuration
class Mount:
    """One set of mount options of one repository; also knows the specification's view of it (cfg)."""
    def __init__(self, fmt="full", names=None, **o):
        self.fmt, self.o = fmt, dict(o)
        self.canon = {}
        self.toolong = []
    def line(self, d):
        return f"{'cmount' if self.o.get('cli') else 'mount'} dir={d} format={self.fmt} " + " ".join(f"{k}={enc(v.replace('{d}', d)) if isinstance(v, str) else enc(v) if isinstance(v, bytes) else v}" for k, v in self.o.items())
    def but(self, **o):
        m = Mount(self.fmt, **{**self.o, **o}); m.canon = self.canon; m.toolong = self.toolong
        return m
    @property
    def st(self): return self.fmt == "full" and bool(self.o.get("store_time"))
    def cfg(self, names, xnames, root):
        return {"fmt": self.fmt, "st": self.st, "canon": self.canon, "toolong": self.toolong, "xlen": {x: len(x) for x in xnames},
                "uo": self.o.get("uid", -1), "go": self.o.get("gid", -1), "root": root,
                "pad": self.fmt == "lite" and self.o.get("pad", 0) > 0,
                "dispc": self.fmt == "lite" and bool(self.o.get("fold") or self.o.get("nfc"))}
    def desc(self):
        return self.fmt + "".join(f" {k}={v}" for k, v in self.o.items())

class Names:
    """alias <-> byte string"""
    def __init__(self, d):
        self.real = {a: (b if isinstance(b, bytes) else b.encode()) for a, b in d.items()}
        self.alias = {b: a for a, b in self.real.items()}
        assert len(self.alias) == len(self.real)
    def of(self, b): return self.alias.get(b) or "?" + b.hex()[:80]
    def path(self, p): return b"/" + b"/".join(self.real[a] for a in p)
    def unpath(self, b): return [self.of(x) for x in b.split(b"/") if x]
def plain_names(*a): return Names({x: x for x in a})

def val_bytes(v):
    """xattr value: ("tag", length)"""
    tag, n = v
    if n == 0: return b""
    r = random.Random(f"{tag}/{n}")
    if tag.startswith("t"): return (tag.encode() * n)[:n]
    return bytes(r.randrange(256) for _ in range(n))

# ------------------------------------------------------------------------------------------------ rendering
HOPS = {"read", "write", "ftruncate", "fgetattr", "readdir", "flush", "fsync", "release", "releasedir"}
def render(op, names, targets):
    o = op["op"]
    P = lambda k="p": enc(names.path(op[k]))
    if o == "create": return f"create {op['h']} {P()} {op['m']}"
    if o == "open": return f"open {op['h']} {P()} {op.get('flag', 'rw')}"
    if o == "opendir": return f"opendir {op['h']} {P()}"
    if o in ("release", "releasedir", "readdir", "fgetattr", "flush", "fsync"): return f"{o} {op['h']}"
    if o == "read": return f"read {op['h']} {op['off']} {op['len']}"
    if o == "write": return f"write {op['h']} {op['off']} {op['len']} {op['tag']}"
    if o == "ftruncate": return f"ftruncate {op['h']} {op['n']}"
    if o == "truncate": return f"truncate {P()} {op['n']}"
    if o == "mkdir": return f"mkdir {P()} {op['m']}"
    if o in ("rmdir", "unlink", "getattr", "ls", "getpath", "readlink"): return f"{o} {P()}"
    if o in ("link", "rename"): return f"{o} {P()} {P('q')}"
    if o == "symlink": return f"symlink {enc(targets[op['t']])} {P()}"
    if o == "chmod": return f"chmod {P()} {op['m']}"
    if o == "chown": return f"chown {P()} {op['u2'] & 0xffffffff} {op['g2'] & 0xffffffff}"
    if o == "utimens":
        if not op["exp"]: return f"utimens {P()} now"
        a, b = op["a"].split("."), op["b"].split(".")
        return f"utimens {P()} {a[0]} {int(a[1])} {b[0]} {int(b[1])}"
    if o == "setxattr": return f"setxattr {P()} {enc(op['x'])} {enc(val_bytes(op['val']))} {op['fl']}"
    if o == "getxattr": return f"getxattr {P()} {enc(op['x'])} {op['sz']}"
    if o == "listxattr": return f"listxattr {P()} {op['sz']}"
    if o == "removexattr": return f"removexattr {P()} {enc(op['x'])}"
    if o == "objects": return f"objects {int(op['full'])}"
    if o == "snap": return f"snap {op.get('data', 1)} {op.get('xattr', 1)}"
    raise KeyError(o)

def ts(t): return f"{t[0]}.{t[1]:09d}"
def rname(r): return "OK" if r >= 0 else ERRNAME.get(-r, f"E{-r}")

class Conv:
    """Turns driver answers into observed fields."""
    def __init__(self, names, targets):
        self.names, self.targets, self.inos = names, {v: k for k, v in targets.items()}, {}
        self.vals = {}
        self.content = None        # how raw contents are written in traces
        self.size = None
    def ino(self, s): return self.inos.setdefault(s, len(self.inos) + 1)
    def val(self, b): return self.vals.get(b) or "?" + b.hex()[:60]
    def attr(self, a, op):
        if self.size and a["k"] == "f": a = {**a, "s": self.size(a["s"])}
        # modes, owners and sizes that do not fit the specification's integers are shown as impossible values
        return {"k": a["k"], "m": a["m"], "u": a["u"] if a["u"] < 2**31 else -7, "g": a["g"] if a["g"] < 2**31 else -7,
                "n": a["n"] if a["n"] < 2**31 else -7, "s": a["s"] if -2**31 < a["s"] < 2**31 else -7, "at": ts(a["at"]), "mt": ts(a["mt"]), "ct": ts(a["ct"])}
    def observe(self, op, a):
        o, e = op["op"], {}
        r = a.get("r", -9000)
        e["r"] = rname(r)
        if r < 0: return e
        if o == "read": e["d"] = a["d"]
        elif o in ("write", "getxattr", "listxattr"): e["n"] = r
        if o in ("getattr", "fgetattr"): e["o"] = self.attr(a, op)
        if o in ("ls", "readdir"): e["ls"] = [[self.names.of(dec(n)), k] for n, k in a["ls"]]
        if o == "readlink": e["t"] = self.targets.get(dec(a["t"]), "?" + a["t"][:400])
        if o == "getpath": e["t"] = self.names.unpath(dec(a["t"]))
        if o == "getxattr": e["v"] = self.val(dec(a["v"])) if op["sz"] else ""
        if o == "listxattr": e["l"] = [dec(x).decode("latin-1") for x in a["l"]] if op["sz"] else []
        if o == "objects": e["o"] = a["o"]
        if o == "snap":
            e["snap"] = []
            for s in a["snap"]:
                t = {"p": self.names.unpath(dec(s["p"])), **self.attr(s, op), "ino": self.ino(s["ino"]), "hasx": "x" in s}
                t["ls"] = [[self.names.of(dec(n)), k] for n, k in s.get("ls", [])]
                if "raw" in s: t["d"] = self.content(bytes.fromhex(s["raw"]))
                else: t["d"] = s.get("d", [[-1, -1]] if s["k"] == "f" and op.get("data", 1) else [])
                t["t"] = self.targets.get(dec(s["t"]), "?" + s["t"][:400]) if "t" in s else ""
                t["x"] = [[dec(x).decode("latin-1"), self.val(dec(v))] for x, v in s.get("x", [])]
                e["snap"].append(t)
            e["errs"] = a["err"]
            def ep(x):
                w = x.split(":")
                return self.names.unpath(dec(w[0] if w[0].startswith("/") or w[0].startswith("%2f") else w[1]))
            e["errp"] = [ep(x) for x in a["err"]]
        return e

DEFAULTS = {"p": [], "q": [], "h": 0, "m": 0, "u": 0, "g": 0}
class Script:
    """mount: Mount; names: Names; ops: list of op dicts (see FileTree.tla), plus {"op": "remount"[, "mount": Mount][, "kill": True]}"""
    def __init__(self, mount, names, ops, targets=None, xnames=(), tag="", vclock=True, root=(493, 0, 0)):
        self.mount, self.names, self.ops, self.targets, self.xnames, self.tag = mount, names, ops, targets or {}, list(xnames), tag
        self.vclock, self.root = vclock, list(root)
        self.pre = []              # extra driver lines before the first operation of every segment
        self.prepare = None        # called with (data directory, segment number) before every mount
        self.content = None        # how contents read with data=2 are written in the trace
        self.extra = {}            # further fields of the trace
        self.between = None        # called with (data directory, remount operation or None at the start); returns events
        self.size = None           # what sizes are shown as in the trace
    def line(self, op): return render(op, self.names, self.targets)
    def values(self):
        v = {}
        for op in self.ops:
            if op["op"] == "setxattr":
                b = val_bytes(op["val"])
                v.setdefault(b, f"v{len(v)}:{len(b)}")
        return v
    def event(self, op, now):
        e = {**DEFAULTS, **{k: v for k, v in op.items() if k not in ("val", "flag", "data", "xattr", "mount", "inj", "do")}, "now": f"{now}.{NSEC:09d}"}
        if op["op"] == "setxattr":
            b = val_bytes(op["val"]); e["v"], e["vl"] = self.vals[b], len(b)
        if op["op"] == "symlink": e["tl"] = len(self.targets[op["t"]])
        if op["op"] == "open": e["trunc"] = op.get("flag") == "t"
        if op.get("inj", "").startswith("fault"): e["fault"] = True
        return e
    def run(self, timeout=100, env=None, d=None, keep=False):
        """Executes the script in a fresh data directory and returns the trace for TreeTrace."""
        own = d is None
        d = d or fresh("repo")
        os.chmod(d, 0o755)
        self.vals = self.values()
        conv = Conv(self.names, self.targets); conv.vals = self.vals; conv.content = self.content; conv.size = self.size
        cfg = self.mount.cfg(self.names, self.xnames, self.root)
        ev, mount, clock, i, seg = [], self.mount, VBASE, 0, 0
        n = len(self.ops)
        try:
            if self.between: ev += self.between(d, None)
            while True:
                # one driver process per segment between remounts
                j = i
                while j < n and self.ops[j]["op"] != "remount": j += 1
                if self.prepare: self.prepare(d, seg)
                seg += 1
                lines, exp, ctx = [], [], (0, 0)
                now = clock
                def add(line, what):
                    nonlocal now
                    lines.append(line); exp.append((what, now)); now += 1
                if self.vclock: lines.append(f"vclock {clock}"); exp.append((None, 0)); now += 1
                add(mount.line(d), "mount")
                for ln in self.pre: add(ln, None)
                for op in self.ops[i:j]:
                    c = (op.get("u", 0), op.get("g", 0))
                    if c != ctx: add(f"ctx {c[0]} {c[1]}", None); ctx = c
                    if op["op"] == "raw": add(op["line"], "raw"); continue      # outside the specification's view
                    if op["op"] == "objects": op["full"] = self.mount.fmt == "full"
                    if "inj" in op: add(op["inj"], None)
                    add(self.line(op), op)
                    if "inj" in op: add("disarm", "count")
                kill = j < n and self.ops[j].get("kill")
                if not kill: add("umount", "umount")
                outs, rc, se = run_driver(lines, timeout=timeout, env=env)
                self.stderr = se
                if "AddressSanitizer" in se or "runtime error" in se or "ThreadSanitizer" in se: rc = "sanitizer"
                died = None
                for k, (what, t) in enumerate(exp):
                    if k >= len(outs) and isinstance(what, dict) and what.get("inj", "").startswith("crash") and rc == 77: died = what; break
                    if k >= len(outs):
                        ev.append({**DEFAULTS, "op": "snap", "now": "0.0", "r": f"DIED:{rc}", "snap": [], "errs": []})
                        return {"id": self.tag, "cfg": cfg, "ev": ev, **self.extra}
                    if what is None: continue
                    if what == "count": self.mutations = outs[k].get("count", 0); continue
                    if what in ("mount", "umount", "raw"):
                        if outs[k].get("r", -9000) < 0:
                            ev.append({**DEFAULTS, "op": "snap", "now": "0.0", "r": f"{what}:{rname(outs[k].get('r', -9000))}", "snap": [], "errs": []})
                            return {"id": self.tag, "cfg": cfg, "ev": ev, **self.extra}
                        continue
                    e = self.event(what, t)
                    e.update(conv.observe(what, outs[k]))
                    ev.append(e)
                if died is not None:
                    ev.append({**DEFAULTS, "op": "crash", "now": "0.0", "r": "OK", "of": self.event(died, t)})
                    clock, i = now + 10, next(x for x in range(i, n) if self.ops[x] is died) + 1
                    continue
                if rc != 0:
                    ev.append({**DEFAULTS, "op": "snap", "now": "0.0", "r": f"DIED:{rc}", "snap": [], "errs": []})
                    return {"id": self.tag, "cfg": cfg, "ev": ev, **self.extra}
                if j >= n: break
                ev.append({**DEFAULTS, "op": "remount", "now": "0.0", "r": "OK"})
                if self.between: ev += self.between(d, self.ops[j])
                if "mount" in self.ops[j]:
                    mount = self.ops[j]["mount"]
                    ev.append({"op": "cfg", "cfg": mount.cfg(self.names, self.xnames, self.root)})
                clock, i = now + 10, j + 1
        finally:
            if own and not keep: drop(d)
        return {"id": self.tag, "cfg": cfg, "ev": ev, **self.extra}
    def dump(self):
        return {"mount": self.mount.desc(), "names": {a: b.hex() for a, b in self.names.real.items() if a.encode() != b}, "targets": {k: v.decode("latin-1") for k, v in self.targets.items()},
                "ops": [{**o, "mount": o["mount"].desc()} if "mount" in o else o for o in self.ops]}

class Stretched(Script):
    """A script whose positions from `at` on lie `gap` bytes further: no operation writes, reads or cuts inside the gap, so that the specification need not know of it
    (its integers end at 2^31).  Requests reach up to `at` or start there; sizes are at most `at` or beyond it."""
    def __init__(self, *a, at, gap, **k):
        super().__init__(*a, **k)
        self.at, self.gap = at, gap
        self.size = lambda s: s if s <= at else s - gap if s > at + gap else -7
    def dump(self): return {**super().dump(), "at": self.at, "gap": self.gap}
    def line(self, op):
        op = dict(op)
        if op["op"] in ("read", "write") and op["off"] >= self.at: op["off"] += self.gap
        if op["op"] in ("truncate", "ftruncate") and op["n"] > self.at: op["n"] += self.gap
        return render(op, self.names, self.targets)
    @staticmethod
    def script(rng, mount, names, at, gap, n, tag):
        b = mount.o["block"]
        near = lambda: rng.choice([0, 1, b - 1, b, rng.randrange(2 * b)])
        def span():
            """offset, length"""
            if rng.random() < .5:
                o = max(0, at - 1 - near()) if rng.random() < .7 else rng.randrange(at)
                return o, rng.choice([1, at - o, rng.randint(1, at - o)])
            return at + near(), rng.choice([1, b, rng.randint(1, 3 * b)])
        ops, hs, k, tagn = [], [], 0, 0
        files = sorted(names.real)
        for f in files: k += 1; ops.append(dict(op="create", h=k, p=[f], m=0o644)); hs.append((k, "rw"))
        for _ in range(n):
            o = rng.choices(["write", "read", "ftruncate", "truncate", "open", "release", "fgetattr", "getattr", "remount", "fsync"], [20, 16, 7, 4, 4, 3, 3, 3, 1, 1])[0]
            w = [h for h, f in hs if f != "r"]; r = [h for h, f in hs if f not in ("w", "a")]
            size = lambda: rng.choice([at - 1 - near() if rng.random() < .4 else at + 1 + near(), at + 1 + near(), 0]) if rng.random() < .9 else rng.randrange(at)
            if o == "write" and w: off, ln = span(); tagn = tagn % 15 + 1; ops.append(dict(op=o, h=rng.choice(w), off=off, len=ln, tag=tagn))
            elif o == "read" and r: off, ln = span(); ops.append(dict(op=o, h=rng.choice(r), off=off, len=ln))
            elif o == "ftruncate" and w: ops.append(dict(op=o, h=rng.choice(w), n=max(0, size())))
            elif o == "truncate": ops.append(dict(op=o, p=[rng.choice(files)], n=max(0, size())))
            elif o == "open" and len(hs) < 4: k += 1; f = rng.choice(["r", "rw", "w", "t"]); hs.append((k, f)); ops.append(dict(op=o, h=k, p=[rng.choice(files)], flag=f))
            elif o == "release" and len(hs) > 1: h = rng.choice(hs); hs.remove(h); ops.append(dict(op=o, h=h[0]))
            elif o in ("fgetattr", "fsync") and hs: ops.append(dict(op=o, h=rng.choice(hs)[0]))
            elif o == "getattr": ops.append(dict(op=o, p=[rng.choice(files)]))
            elif o == "remount": ops += [dict(op="release", h=h) for h, f in hs] + [dict(op=o)]; hs = []
            else: continue
        ops += [dict(op="release", h=h) for h, f in hs] + [dict(op="remount")]
        for f in files:
            k += 1
            ops += [dict(op="getattr", p=[f]), dict(op="open", h=k, p=[f], flag="r"), dict(op="read", h=k, off=0, len=at), dict(op="read", h=k, off=at, len=6 * b), dict(op="release", h=k)]
        return Stretched(mount, names, ops, tag=tag, at=at, gap=gap)

# ------------------------------------------------------------------------------------------------ handwritten scripts
def P(s): return [x for x in s.split("/") if x]
def ops_of(text):
    """Compact notation, one operation per line or separated by ';'."""
    out = []
    for ln in text.replace(";", "\n").splitlines():
        w = ln.split()
        if not w or w[0].startswith("#"): continue
        o = w[0]
        if o == "create": out.append(dict(op=o, h=int(w[1]), p=P(w[2]), m=int(w[3], 8) if len(w) > 3 else 0o644))
        elif o == "open": out.append(dict(op=o, h=int(w[1]), p=P(w[2]), flag=w[3] if len(w) > 3 else "rw"))
        elif o == "opendir": out.append(dict(op=o, h=int(w[1]), p=P(w[2])))
        elif o in ("release", "releasedir", "readdir", "fgetattr", "flush", "fsync"): out.append(dict(op=o, h=int(w[1])))
        elif o == "read": out.append(dict(op=o, h=int(w[1]), off=int(w[2]), len=int(w[3])))
        elif o == "write": out.append(dict(op=o, h=int(w[1]), off=int(w[2]), len=int(w[3]), tag=int(w[4])))
        elif o == "ftruncate": out.append(dict(op=o, h=int(w[1]), n=int(w[2])))
        elif o == "truncate": out.append(dict(op=o, p=P(w[1]), n=int(w[2])))
        elif o == "mkdir": out.append(dict(op=o, p=P(w[1]), m=int(w[2], 8) if len(w) > 2 else 0o755))
        elif o in ("rmdir", "unlink", "getattr", "ls", "getpath", "readlink"): out.append(dict(op=o, p=P(w[1])))
        elif o in ("link", "rename"): out.append(dict(op=o, p=P(w[1]), q=P(w[2])))
        elif o == "symlink": out.append(dict(op=o, t=w[1], p=P(w[2])))
        elif o == "chmod": out.append(dict(op=o, p=P(w[1]), m=int(w[2], 8)))
        elif o == "chown": out.append(dict(op=o, p=P(w[1]), u2=int(w[2]), g2=int(w[3])))
        elif o == "utimens": out.append(dict(op=o, p=P(w[1]), exp=w[2] != "now", a=w[2] if w[2] != "now" else "", b=w[3] if w[2] != "now" else ""))
        elif o == "setxattr": out.append(dict(op=o, p=P(w[1]), x=w[2], val=(w[3], int(w[4])), fl=int(w[5]) if len(w) > 5 else 0))
        elif o == "getxattr": out.append(dict(op=o, p=P(w[1]), x=w[2], sz=int(w[3])))
        elif o == "listxattr": out.append(dict(op=o, p=P(w[1]), sz=int(w[2])))
        elif o == "removexattr": out.append(dict(op=o, p=P(w[1]), x=w[2]))
        elif o in ("snap", "objects"): out.append(dict(op=o))
        elif o == "raw": out.append(dict(op="raw", line=" ".join(w[1:])))
        elif o == "remount": out.append(dict(op="remount"))
        elif o == "kill": out.append(dict(op="remount", kill=True))
        else: raise KeyError(ln)
    return out

# ------------------------------------------------------------------------------------------------ random scripts
class Shadow:
    """A rough picture of the tree, only used to choose interesting operands."""
    class N:
        __slots__ = ("k", "e", "s", "x")
        def __init__(s, k): s.k, s.e, s.s, s.x = k, {}, 0, {}
    def __init__(self, canon): self.root = self.N("d"); self.canon = canon; self.h = {}
    def c(self, n): return self.canon.get(n, n)
    def get(self, p):
        n = self.root
        for a in p:
            if n.k != "d": return None
            n = n.e.get(self.c(a), (None, None))[1]
            if n is None: return None
        return n
    def par(self, p):
        n = self.get(p[:-1])
        return n if n is not None and n.k == "d" else None
    def paths(self, kinds="fdl", root=False):
        out = [[]] if root and "d" in kinds else []
        def rec(n, p):
            for _, (nm, m) in n.e.items():
                if m.k in kinds: out.append(p + [nm])
                if m.k == "d" and len(p) < 6: rec(m, p + [nm])
        rec(self.root, [])
        return out

class Gen:
    """Seeded random scripts."""
    def __init__(self, rng, mount, names, weights, xnames=(), targets=None, block=4096, maxdepth=3, maxh=4, ctxs=((0, 0),), xsizes=(0, 1, 5, 20, 300),
                 maxlen=None, alts=(), strictdepth=False, modes=None, ids=(0, 1, 1000, 65534), maxsize=None, spell=None):
        self.__dict__.update(locals())
        self.sh = Shadow(mount.canon)
        self.nlist = [n for n in names.real]
        self.tag = 0
        self.nexth = 1
        self.files_only = None
    def name(self): return self.rng.choice(self.nlist)
    def under(self, a, b): return a is b or any(m.k == "d" and self.under(m, b) for _, m in a.e.values())
    def height(self, n): return 1 + max((self.height(m) for _, m in n.e.values()), default=0) if n.k == "d" else 1
    def newpath(self):
        ds = [p for p in self.sh.paths("d", root=True) if len(p) < self.maxdepth] or [[]]
        return self.rng.choice(ds) + [self.name()]
    def respell(self, p):
        """another member of each name's class"""
        if not self.mount.canon: return p
        byc = {}
        for n in self.nlist: byc.setdefault(self.sh.c(n), []).append(n)
        return [self.rng.choice(byc.get(self.sh.c(a), [a])) for a in p]
    def oldpath(self, kinds="fdl", root=False):
        ps = self.sh.paths(kinds, root)
        if not ps or self.rng.random() < 0.08: p = self.newpath()
        else: p = self.rng.choice(ps)
        return self.respell(p) if self.rng.random() < 0.5 else p
    def off(self, size):
        r, b = self.rng, self.block
        M = self.maxsize or 6 * b
        c = r.random()
        if c < 0.25: return r.randrange(0, M)
        if c < 0.6: return max(0, min(M, r.choice([0, 1, 2, 3, 4, 5]) * b + r.choice([-1, 0, 0, 1, -2, 2])))
        if c < 0.9: return max(0, size + r.choice([-1, 0, 0, 1, -b, b, -3]))
        return 0
    def length(self, off, size):
        r, b = self.rng, self.block
        c = r.random()
        if c < 0.3: return r.randrange(1, 3 * b)
        if c < 0.5: return r.choice([1, 2, 3])
        if c < 0.75:
            e = (off // b + r.choice([1, 1, 2, 3])) * b + r.choice([-1, 0, 0, 1])
            return max(1, e - off)
        return max(1, size - off + r.choice([-1, 0, 0, 1]))
    def ts(self):
        r = self.rng
        far = [-1, -7, -4000000000, 2147483648, 4294967297, 5000000000] if self.mount.o.get("store_time") and r.random() < 0.4 else []
        return f"{r.choice(far or [0, 1, 86400, 1234567890, 1600000000, 2147483646])}.{r.choice([0, 1, 5, 999999999, 123456000]):09d}"
    def mode(self, d):
        r = self.rng
        m = r.choice(self.modes) if self.modes else r.randrange(0o1000)
        return m | (0o700 if d else 0o400)
    def op(self):
        r, sh = self.rng, self.sh
        while True:
            o = r.choices(list(self.weights), list(self.weights.values()))[0]
            ctx = r.choice(self.ctxs)
            base = dict(op=o, u=ctx[0], g=ctx[1])
            fh = [h for h, (n, f) in sh.h.items() if n.k == "f"]
            dh = [h for h, (n, f) in sh.h.items() if n.k == "d"]
            if o == "create":
                if len(sh.h) >= self.maxh: continue
                h = self.nexth; self.nexth += 1
                p = self.newpath() if r.random() < 0.85 else self.oldpath()
                if not p: continue
                d = sh.par(p)
                if d and sh.c(p[-1]) not in d.e and p[-1] not in self.mount.toolong:
                    n = sh.N("f"); d.e[sh.c(p[-1])] = (p[-1], n); sh.h[h] = (n, "rw")
                return {**base, "h": h, "p": p, "m": self.mode(False)}
            if o == "open":
                if len(sh.h) >= self.maxh: continue
                h = self.nexth; self.nexth += 1
                p = self.oldpath("f" if r.random() < 0.9 else "fdl"); f = r.choices(["r", "rw", "w", "t", "a"], [6, 8, 3, 2, 1])[0]
                n = sh.get(p)
                if n and n.k == "f":
                    sh.h[h] = (n, f)
                    if f == "t": n.s = 0
                return {**base, "h": h, "p": p, "flag": f}
            if o == "opendir":
                if len(sh.h) >= self.maxh: continue
                h = self.nexth; self.nexth += 1
                p = self.oldpath("d", True); n = sh.get(p)
                if n and n.k == "d": sh.h[h] = (n, "d")
                return {**base, "h": h, "p": p}
            if o == "readdir":
                if not dh: continue
                return {**base, "h": r.choice(dh)}
            if o == "release":
                if not sh.h: continue
                h = r.choice(list(sh.h)); n, f = sh.h.pop(h)
                return {**base, "op": "releasedir" if n.k == "d" else "release", "h": h}
            if o in ("fgetattr", "flush", "fsync"):
                if not fh: continue
                return {**base, "h": r.choice(fh)}
            if o == "read":
                hs = [h for h in fh if sh.h[h][1] not in "wa"]
                if not hs: continue
                h = r.choice(hs); n = sh.h[h][0]; off = self.off(n.s)
                ln = self.length(off, n.s) if r.random() < 0.7 else 8 * self.block
                return {**base, "h": h, "off": off, "len": ln}
            if o == "write":
                hs = [h for h in fh if sh.h[h][1] != "r"]
                if not hs: continue
                h = r.choice(hs); n = sh.h[h][0]; off = self.off(n.s); ln = self.length(off, n.s)
                if self.maxlen: ln = min(ln, self.maxlen)
                self.tag = self.tag % 15 + 1
                n.s = max(n.s, off + ln)
                return {**base, "h": h, "off": off, "len": ln, "tag": 0 if r.random() < 0.08 else self.tag}
            if o == "ftruncate":
                hs = [h for h in fh if sh.h[h][1] != "r"]
                if not hs: continue
                h = r.choice(hs); n = sh.h[h][0]; n.s = self.off(n.s)
                return {**base, "h": h, "n": n.s}
            if o == "truncate":
                p = self.oldpath("f" if r.random() < 0.9 else "fdl", False); n = sh.get(p)
                if not p: continue
                sz = self.off(n.s if n else 0)
                if n and n.k == "f": n.s = sz
                return {**base, "p": p, "n": sz}
            if o == "mkdir":
                p = self.newpath() if r.random() < 0.85 else self.oldpath()
                if not p: continue
                d = sh.par(p)
                if d and sh.c(p[-1]) not in d.e and p[-1] not in self.mount.toolong: d.e[sh.c(p[-1])] = (p[-1], sh.N("d"))
                return {**base, "p": p, "m": self.mode(True)}
            if o == "symlink":
                p = self.newpath() if r.random() < 0.85 else self.oldpath()
                if not p or not self.targets: continue
                d = sh.par(p)
                if d and sh.c(p[-1]) not in d.e and p[-1] not in self.mount.toolong: d.e[sh.c(p[-1])] = (p[-1], sh.N("l"))
                return {**base, "p": p, "t": r.choice(list(self.targets))}
            if o == "unlink":
                p = self.oldpath("fl" if r.random() < 0.9 else "fdl")
                if not p: continue
                n, d = sh.get(p), sh.par(p)
                if n and n.k != "d": del d.e[sh.c(p[-1])]
                return {**base, "p": p}
            if o == "rmdir":
                p = self.oldpath("d" if r.random() < 0.9 else "fdl")
                if not p: continue
                n, d = sh.get(p), sh.par(p)
                if n and n.k == "d" and not n.e: del d.e[sh.c(p[-1])]
                return {**base, "p": p}
            if o == "link":
                p = self.oldpath("fl" if r.random() < 0.9 else "fdl"); q = self.newpath() if r.random() < 0.85 else self.oldpath()
                if not p or not q: continue
                n, d = sh.get(p), sh.par(q)
                if n and n.k != "d" and d and sh.c(q[-1]) not in d.e and q[-1] not in self.mount.toolong: d.e[sh.c(q[-1])] = (q[-1], n)
                return {**base, "p": p, "q": q}
            if o == "rename":
                p = self.oldpath(); q = self.newpath() if r.random() < 0.6 else self.oldpath()
                if r.random() < 0.15 and p: q = p[:-1] + [r.choice([n for n in self.nlist if sh.c(n) == sh.c(p[-1])] or [p[-1]])]
                if not p or not q: continue
                n, dp, dq = sh.get(p), sh.par(p), sh.par(q)
                if self.strictdepth and n and len(q) - 1 + self.height(n) > self.maxdepth: continue
                if n and n.k == "d" and self.mount.fmt == "lite" and any(f == "d" and self.under(n, x) for x, f in sh.h.values()): continue     # known finding
                if n and dp and dq and q[-1] not in self.mount.toolong and [sh.c(x) for x in q[:len(p)]] != [sh.c(x) for x in p]:
                    m = sh.get(q)
                    if m is None or m is n or (m.k != "d" and n.k != "d") or (m.k == "d" and n.k == "d" and not m.e):
                        if m is n and not (dp is dq and sh.c(p[-1]) == sh.c(q[-1])): pass
                        else:
                            del dp.e[sh.c(p[-1])]; dq.e[sh.c(q[-1])] = (q[-1], n)
                return {**base, "p": p, "q": q}
            if o in ("getattr", "chmod", "chown", "utimens", "setxattr", "getxattr", "listxattr", "removexattr"):
                p = self.oldpath("fd" if "xattr" in o else "fdl", root=o != "chmod" or self.mount.fmt == "full")
                if o == "getattr": return {**base, "p": p}
                n = sh.get(p)
                isdir = n is not None and n.k == "d"
                if o == "chmod":
                    if n is not None and n.k == "l": continue
                    return {**base, "p": p, "m": self.mode(isdir)}
                if o == "chown": return {**base, "p": p, "u2": r.choice([-1, *self.ids]), "g2": r.choice([-1, *self.ids])}
                if o == "utimens": return {**base, "p": p, "exp": r.random() < 0.75, "a": self.ts(), "b": self.ts()}
                if n is not None and n.k == "l": continue
                x = r.choice(self.xnames) if not n or not n.x or r.random() < 0.4 else r.choice(list(n.x))
                if o == "setxattr":
                    v = (r.choice(["t1", "t2", "r1", "r2", "r3"]), r.choice(self.xsizes))
                    fl = r.choices([0, 1, 2], [6, 2, 2])[0]
                    if n and not (fl == 1 and x in n.x) and not (fl == 2 and x not in n.x): n.x[x] = v
                    return {**base, "p": p, "x": x, "val": v, "fl": fl}
                if o == "removexattr":
                    if n: n.x.pop(x, None)
                    return {**base, "p": p, "x": x}
                if o == "getxattr":
                    ln = n.x[x][1] if n and x in n.x else 5
                    return {**base, "p": p, "x": x, "sz": r.choice([0, ln, ln, ln + 1, max(0, ln - 1), 4096, 1])}
                tot = sum(len(k) + 1 for k in n.x) if n else 0
                return {**base, "p": p, "sz": r.choice([0, tot, tot + 1, max(0, tot - 1), 2000])}
            if o == "readlink": return {**base, "p": self.oldpath("l" if r.random() < 0.9 else "fdl")}
            if o == "ls": return {**base, "p": self.oldpath("d" if r.random() < 0.9 else "fdl", True)}
            if o == "getpath": return {**base, "p": self.oldpath("fdl", True)}
            if o in ("snap", "objects"): return base
            if o == "remount":
                sh.h.clear()
                if self.alts and r.random() < 0.6: return {"op": "remount", "mount": r.choice(self.alts)}
                return {"op": "remount"}
            raise KeyError(o)
    def script(self, n, tag="", final=("snap", "remount", "snap")):
        ops = [self.op() for _ in range(n)]
        ops += [dict(op=x) for x in final]
        return Script(self.mount, self.names, ops, targets=self.targets or {}, xnames=self.xnames, tag=tag)
