"""Repositories of earlier and later builds.  Layout (checked by TLC: pieces cover every stored file exactly, lengths determine contents) says where everything stands; lib/layout.py, which knows only keys and that arrangement, reads and writes data
directories.  (1) Random histories by the real code, in mounts of both formats and with configurations made by the real tool: at every remount the data directory is decoded and must show exactly the specification's tree, lengths, padding, order.
(2) Random trees written by the independent writer (holes, B-tree shapes, free pages, empty files, times far off), opened with configuration files of all versions, key derivations and ways to use a key file: the real code must show that tree, go on
modifying it, and leave what decodes again.  (3) The reference repositories of the project with every one of their configurations, shown and modified further.  A case is one history, judged by TLC against LayoutTrace."""
from common import *
from stored import *
LEVEL = "model_checking"
ASSUMPTIONS = ["what earlier builds wrote is represented by the project's reference repositories and by the independent writer of lib/layout.py, which was validated against them", "libcrypto, libargon2, zlib-free SQLite and Python's hashlib compute the standard primitives",
               "full format with case insensitivity or normalization: names whose folding Python and the real code agree on"]
W = {**ALL_W, "remount": 3, "snap": 1, "setxattr": 5, "truncate": 4}
XB = ["user.x", "user.a.longer.name", "user.=+/~"]

def mounts(rich):
    ms = full_mounts(True) + lite_mounts(True) + [Mount("full", block=256, pad=100, store_time=1), Mount("full", block=4096, pad=300, iv=32), Mount("lite", block=256, iv=32, pad=17), Mount("lite", block=4096, iv=16),
          Mount("full", block=256, ci=1, store_time=1), Mount("full", block=512, uninorm=1), Mount("full", block=256, ci=1, uninorm=1), Mount("full", block=256, legacy=1, pad=33), Mount("lite", block=64, thr=30, suf="#~", pad=5)]
    return ms
def names_for(m, rng):
    lens = [1, 2, 3, 7, 31, 60] + ([100, 128, 129, 200, 255] if m.fmt == "full" else [100, 110, 129, 200, 255] if m.o.get("thr", 128) > 0 else [90, 120])
    if m.o.get("plain"): lens = [1, 2, 3, 7, 31, 60, 255]
    d = {f"n{n}": long_name(f"n{n}_", n) if n > 4 else bytes([97 + i]) * n for i, n in enumerate(lens)}
    d.update({f"w{i}": x.encode() for i, x in enumerate(["ünï", "漢字", "a b\t", "%41", "zZ", "é" * 20, "f", "ém", "ey", "Öl", "oz"])})
    if m.fmt == "full" and m.o.get("uninorm"): d = {a: unicodedata.normalize("NFD", b.decode()).encode() for a, b in d.items()}
    if m.fmt == "full" and m.o.get("ci"): d = {a: b.decode().lower().encode() for a, b in d.items()}
    if m.o.get("plain"): d = {a: b for a, b in d.items() if not b.startswith(b".")}
    # more names, for directories of several pages
    for i in range(60): d[f"k{i}"] = f"k{i:02}".encode()
    return Names(d)
class Hist(Script):
    """a history with decoding of the data directory at every remount"""
    made = None
    params = None            # or a function of the data directory
    def values(self):
        keep, self.ops = self.ops, self.ops + (self.made.ops if self.made else [])
        v = super().values(); self.ops = keep
        return v
    def hook(self, d, op):
        if op is None:
            if self.start: return self.start(d)
            return []
        p = self.params(d) if callable(self.params) else self.params
        self.extra = dict(sizes=dict(bs=p.block, iv=p.iv, st=bool(p.store_time)), rank=ranks(self.names, p))
        return [Reader(self.names, self.targets, self.vals, self.content).event(p, d)]
    def run(self):
        self.between = self.hook
        p = self.params if isinstance(self.params, Params) else None
        self.extra = dict(sizes=dict(bs=4096, iv=12, st=False), rank=ranks(self.names, p or Params(self.mount.fmt)))
        d = fresh("repo")
        try: return super().run(d=d)
        finally:
            drop(d)
            for x in (".cfg", ".key"):
                if os.path.exists(d + x): os.unlink(d + x)
    start = None
FINAL = ("snap", "remount", "snap", "remount")
def small(names, n=14, rng=None):
    a = [a for a in names.real if not a.startswith("k")]
    return a[:n] if rng is None else rng.sample(a, min(n, len(a)))

def written(ck):
    S = []
    for i in range(ck.n(130, 2500)):
        rng = ck.rng("written", i)
        ms = mounts(True); m = ms[i % len(ms)]
        names = names_for(m, rng)
        g = Gen(rng, m, names, W, XB, targets=targets_for(m), block=m.o.get("block", 4096), maxdepth=3 if m.fmt == "full" else 2)
        g.nlist = small(names, rng=ck.rng('small', i)) if i % 4 else list(names.real)
        ops = [g.op() for _ in range(ck.n(70, 110))] + [dict(op=x) for x in FINAL]
        s = Hist(m, names, ops, targets=targets_for(m), xnames=XB, tag=f"written{i}")
        s.params = Params.of_mount(m)
        S.append(s)
    return S

def credentials(rng):
    return rng.choice([b"abc", "pässwörd".encode(), b" ", b"x" * 200]), rng.choice([None, b"k", rng.randbytes(300), b"\0" * 32, rng.randbytes(4096), rng.randbytes(5000), rng.randbytes(70001)])
KINDS = ["keys", "pb", "json:argon2id", "json:scrypt", "json:pbkdf2", "json2:argon2id", "json2:pbkdf2", "json2:scrypt"]
def earlier(ck):
    S = []
    for i in range(ck.n(160, 3000)):
        rng = ck.rng("earlier", i)
        ms = mounts(True); base = ms[i % len(ms)]
        kind = KINDS[(i // len(ms) + i) % len(KINDS)]
        o = {k: v for k, v in base.o.items()}
        if kind.startswith("json"):
            for k in ("ci", "uninorm", "suf"): o.pop(k, None)
            if base.fmt == "lite" and o.get("thr", 128) > 0: o["thr"] = 128
            if base.fmt == "full": 
                if o.get("legacy"): o.pop("store_time", None)
        m = Mount(base.fmt, **o)
        names = names_for(m, rng)
        p = Params.of_mount(m)
        if kind != "keys":
            for k in ("name", "content", "xattr", "padding", "master"): setattr(p, k, rng.randbytes(32))
            if p.fmt == "lite" and not p.pad: p.padding = None
            pw, kf = credentials(rng)
            if kind == "pb": text = make_config(p, pw, kf, rng)
            else: text = make_legacy_config(p, pw, kf, rng, kind.split(":")[1], 4 if p.fmt == "lite" else 1 if p.legacy else 3 if p.store_time else 2, second=kind.startswith("json2") and kf is not None)
            m = Mount(base.fmt, **{**o, "cfg": "{d}.cfg", "pass": pw}, **({"keyfile": "{d}.key"} if kf is not None else {}), **({"cli": 1} if i % 3 == 0 else {}))
        made = Made(ck.rng("made", i), m, names, targets_for(m), XB, p, size=rng.choice([3, 10, 20]), block=p.block, crowd=rng.choice([0, 0, 7, 14, 30, 60]) if p.fmt == "full" else rng.choice([0, 0, 20]))
        g = Gen(rng, m, names, W, XB, targets=targets_for(m), block=p.block, maxdepth=3 if m.fmt == "full" else 2)
        g.sh = made.sh; g.nlist = small(names, rng=ck.rng('small', i)) if i % 3 else list(names.real)
        ops = [dict(op="snap")] + [g.op() for _ in range(ck.n(45, 80))] + [dict(op=x) for x in FINAL]
        s = Hist(m, names, ops, targets=targets_for(m), xnames=XB, tag=f"earlier{i}-{kind}")
        s.made, s.params = made, p
        def start(d, s=s, made=made, p=p, i=i, extra=(None if kind == "keys" else (text, kf))):
            r = ck.rng("writer", i)
            ev = made.events(s)
            made.write(p, d, r)
            if extra:
                with open(f"{d}.cfg", "wb") as f: f.write(extra[0])
                if extra[1] is not None:
                    with open(f"{d}.key", "wb") as f: f.write(extra[1])
            ck_self = Reader(s.names, s.targets, s.vals).event(p, d)         # the reader agrees with the writer
            s.extra = dict(sizes=dict(bs=p.block, iv=p.iv, st=bool(p.store_time)), rank=ranks(s.names, p))
            return ev + [ck_self]
        s.start = start
        S.append(s)
    return S

class Cli(Hist):
    """created by the tool itself, opened by the independent reader of configurations"""
    def run(self):
        pw, kf = self.pw, self.kf
        try: return self.once()
        finally: self.pw, self.kf = pw, kf
    def once(self):
        d = fresh("repo"); os.chmod(d, 0o755)
        try:
            kf = ""
            if self.kf is not None:
                with open(f"{d}.key", "wb") as f: f.write(self.kf)
                kf = f"--keyfile {d}.key"
            lines = [f"cli create {d} {self.flags} --pass {enc(self.pw)} {kf}"]
            if self.new:
                a, b = self.new
                if b is not None:
                    with open(f"{d}.key2", "wb") as f: f.write(b)
                lines.append(f"cli chpass {d} --oldpass {enc(self.pw)} --newpass {enc(a)} " + (f"--oldkeyfile {d}.key " if self.kf is not None else "") + (f"--newkeyfile {d}.key2 " if b is not None else "") + "--argon2-t 1 --argon2-m 9 --argon2-p 1")
            outs, rc, se = run_driver(lines, timeout=60)
            if self.new: self.pw, self.kf = a, b
            self.stderr = se
            self.params = lambda dd: open_config(open(f"{d}/.config.pb", "rb").read(), self.pw, self.kf)
            try: p = self.params(d)
            except Exception as x:
                return {"id": self.tag, "cfg": self.mount.cfg(self.names, self.xnames, self.root), "ev": [{**DEFAULTS, "op": "stored", "now": "0.0", "r": f"configuration: {x!r} {outs[-1:]}", "snap": [], "errs": [], "objs": []}], "sizes": dict(bs=1, iv=1, st=False), "rank": {}}
            self.mount = Mount(p.fmt, cfg=f"{d}/.config.pb", store_time=int(p.store_time), pad=p.pad, **{"pass": self.pw}, **({"keyfile": f"{d}.key" + ("2" if self.new else "")} if self.kf is not None else {}))
            for o in self.ops:
                o.pop("full", None)
            self.between = self.hook
            self.extra = dict(sizes=dict(bs=p.block, iv=p.iv, st=bool(p.store_time)), rank=ranks(self.names, p))
            return Script.run(self, d=d)
        finally:
            drop(d)
            for x in (".key", ".key2"):
                if os.path.exists(d + x): os.unlink(d + x)
def by_cli(ck):
    S = []
    for i in range(ck.n(24, 300)):
        rng = ck.rng("cli", i)
        full = i % 2 == 1
        flags = [f"--format {'full' if full else 'lite'}", f"--block-size {rng.choice([256, 1024, 4096, 5000])}", f"--iv-size {rng.choice([12, 16, 32])}"]
        if rng.random() < .4: flags.append(f"--max-padding {rng.choice([1, 40, 500])}")
        ci, un = full and rng.random() < .4, full and rng.random() < .4
        if ci: flags.append("--case insensitive")
        if un: flags.append("--uninorm insensitive")
        if not full and rng.random() < .5: flags.append(f"--long-name-threshold {rng.choice([20, 60, 140])}")
        if not full and rng.random() < .3: flags.append("--long-name-suffix ..long")
        flags.append(f"--argon2-t {rng.choice([1, 2])} --argon2-m {rng.choice([8, 100])} --argon2-p {rng.choice([1, 1, 3])}".replace("m 8 --argon2-p 3", "m 24 --argon2-p 3"))
        m = Mount("full" if full else "lite", store_time=1, ci=int(ci), uninorm=int(un))
        names = names_for(m, rng)
        pw, kf = credentials(rng)
        g = Gen(rng, m, names, W, XB, targets=targets_for(m), block=1024, maxdepth=3 if m.fmt == "full" else 2)
        g.nlist = small(names, rng=ck.rng('smallc', i))
        s = Cli(m, names, [g.op() for _ in range(30)] + [dict(op=x) for x in FINAL], targets=targets_for(m), xnames=XB, tag=f"cli{i}")
        s.flags, s.pw, s.kf, s.new = " ".join(flags), pw, kf, (credentials(rng) if i % 3 == 0 else None)
        S.append(s)
    return S

def reference(ck):
    G = os.path.join(VERIF, "golden", "reference")
    kfile = open(f"{G}/keyfile", "rb").read()
    S = []
    for r in sorted(os.listdir(G)):
        src = f"{G}/{r}"
        cfgs = sorted(f for f in (os.listdir(src) if os.path.isdir(src) else []) if f.startswith((".securefs", ".config")))
        for c in cfgs:
            mode = c.split(".")[-2]
            pw, kf = (b"abc" if "PASSWORD" in mode else b" "), ("KEYFILE" in mode)
            p = open_config(open(f"{src}/{c}", "rb").read(), pw, kfile if kf else None)
            p.plain = "plain" in r
            out, errs = codec(p).read(src)
            S.append(golden(ck, f"{r}/{c}", src, c, p, out, errs, pw, f"{G}/keyfile" if kf else None))
    ck.count("reference_configurations", len(S))
    return S
def golden(ck, tag, src, c, p, out, errs, pw, kf):
    rng = ck.rng("golden", tag)
    m = Mount(p.fmt, cfg=f"{{d}}/{c}", store_time=int(p.store_time), pad=p.pad, **{"pass": pw}, **({"plain": 1} if p.plain else {}), **({"keyfile": kf} if kf else {}), cli=1)
    table = {}
    def content(b):
        rs = runs_of(b)
        if all(t != 99 for _, t in rs): return rs
        return [[len(b), 100 + table.setdefault(b, len(table))]] if len(table) < 5000 else [[len(b), 99]]
    real = {f"e{i}": n for i, n in enumerate(sorted({x for o in out for x in o["p"].split(b"/") if x}))}
    for i, x in enumerate([b"new", b"another one", "größe".encode(), b"q" * 60]):
        if x not in real.values(): real[f"w{i}"] = x
    names = Names(real)
    targets = {f"g{i}": t for i, t in enumerate(sorted({o["t"] for o in out if o["k"] == "l"}))}
    targets.update({k: v for k, v in targets_for(m).items() if v not in targets.values()})
    xs = sorted({n.decode("latin-1") for o in out for n, _ in o.get("x", [])} | set(XB))
    # the operations that make that tree
    ops, ino, sh, late = [], {}, Shadow({}), []
    root = (493, 0, 0)
    vals = {}
    for o in sorted(out, key=lambda o: o["p"].count(b"/") if o["p"] != b"/" else -1):
        q = names.unpath(o["p"])
        key = o.get("ino", o["p"])
        if not q: root = (o["m"], o["u"], o["g"]); n = sh.root
        else:
            par = sh.get(q[:-1])
            if key in ino and o["k"] != "d":
                ops.append(dict(op="link", p=ino[key][0], q=q)); par.e[q[-1]] = (q[-1], ino[key][1]); continue
            n = Shadow.N(o["k"]); par.e[q[-1]] = (q[-1], n); ino[key] = (q, n)
            if o["k"] == "d": ops.append(dict(op="mkdir", p=q, m=o["m"]))
            elif o["k"] == "l": ops.append(dict(op="symlink", p=q, t=next(k for k, v in targets.items() if v == o["t"])))
            else:
                ops.append(dict(op="create", h=1, p=q, m=o["m"])); pos = 0
                for ln, t in content(o["d"]):
                    ops.append(dict(op="write", h=1, off=pos, len=ln, tag=t) if t else dict(op="ftruncate", h=1, n=pos + ln)); pos += ln
                ops.append(dict(op="release", h=1)); n.s = len(o["d"])
            ops.append(dict(op="chown", p=q, u2=o["u"], g2=o["g"]))
        for x, v in o.get("x", []): vals[v] = f"g{len(vals)}:{len(v)}"; ops.append(dict(op="setxattr!", p=q, x=x.decode("latin-1"), b=v)); n.x[x.decode("latin-1")] = ("t1", len(v))
        if p.store_time: late.append(dict(op="utimens", p=q, exp=True, a=f"{o['times'][0][0]}.{o['times'][0][1]:09d}", b=f"{o['times'][1][0]}.{o['times'][1][1]:09d}", now=f"{o['times'][2][0]}.{o['times'][2][1]:09d}"))
    ops += late
    # further modification; contents of the files there are replaced as a whole only
    w = {**W, "write": 12, "ftruncate": 0, "open": 0, "truncate": 0, "read": 0}
    g = Gen(rng, m, names, w, xs, targets=targets, block=p.block, maxdepth=4)
    g.sh = sh
    more = [g.op() for _ in range(ck.n(40, 120))]
    # the specification knows nothing of old contents longer than its integers allow; sizes here are small
    for o in more:
        if o["op"] == "remount": o.pop("mount", None)
    tail = [dict(op="snap", data=2)] + more + [dict(op="snap", data=2), dict(op="remount"), dict(op="snap", data=2), dict(op="remount")]
    for o in tail:
        if o["op"] == "snap": o["data"] = 2
    s = Hist(m, names, tail, targets=targets, xnames=xs, tag=f"reference {tag}", root=root)
    s.params, s.content = p, content
    def start(d):
        if errs: return [{**DEFAULTS, "op": "snap", "now": "0.0", "r": "OK", "snap": [], "errs": errs}]
        subprocess.run(["cp", "-a", f"{src}/.", d], check=True)
        os.chmod(d, root[0]); os.chown(d, *root[1:])
        s.vals.update(vals)
        ev = []
        for k, o in enumerate(ops):
            x = dict(o)
            if x["op"] == "setxattr!":
                b = x.pop("b"); e = s.event({**x, "op": "getattr"}, 1000 + k); e.update(op="setxattr", fl=0, v=s.vals[b], vl=len(b))
            else: e = s.event(x, 1000 + k)
            if "now" in o: e["now"] = o["now"]
            if e["op"] == "write": e["n"] = e["len"]
            e["r"] = "OK"; ev.append(e)
        s.extra = dict(sizes=dict(bs=p.block, iv=p.iv, st=bool(p.store_time)), rank=ranks(s.names, p))
        return ev
    s.start = start
    return s
def run(ck):
    ck.model("LayoutMC")
    ck.part("model")
    ck.scripts(reference(ck), module="LayoutTrace", trace=lambda s: s.run(), tries=3)
    ck.part("reference")
    ck.scripts(written(ck), module="LayoutTrace", tries=3)
    ck.part("written")
    ck.scripts(earlier(ck) + by_cli(ck), module="LayoutTrace", tries=3)
