"""Looking changes nothing.  LookMC: readers over a cache of headers, changes now and then, for six designs; only writing back the cache's header, or nothing, keeps what a user sees.  Repositories of both formats with random contents are then looked at
by the real code in several processes: reading inside, across and beyond the end, listing, links, attributes, names that do not exist, handles opened for reading or for writing without writing, flush and fsync, in any order and by several threads;
ordinary mounts, mounts without locks or verification, read-only mounts, and the tool's commands that only inform.  Before and after each the data directory is compared byte by byte and everything a mount shows except access times.
Judged by TLC against LookTrace."""
from common import *
from layout import *
LEVEL = "model_checking"
ASSUMPTIONS = ["an operation that modifies does not reach a read-only mount (the kernel refuses it)", "a file of the lite format that was never opened and is stored empty may receive its identity when it is opened first"]
XN = ["user.x", "user.other.attribute"]
PREP = {**ALL_W, "remount": 0.7, "snap": 0, "setxattr": 6, "write": 20, "truncate": 4, "utimens": 5, "chmod": 4}
def mounts(rich):
    return full_mounts(True) + lite_mounts(True) + [Mount("full", block=256, ci=1, store_time=1), Mount("full", block=512, uninorm=1), Mount("full", block=256, pad=60, store_time=1), Mount("lite", block=256, nfc=1, thr=50)]
def alternatives(m, rng):
    """other ways to mount the same repository"""
    o = [m, m, m.but(noverify=1), m.but(noflock=1), m.but(uid=5, gid=6)]
    if m.fmt == "full": o += [m.but(ro=1), m.but(ro=1)] if not m.st else []
    return rng.choice(o)
def looks(rng, m, sh, names, n, h0=1):
    """operations that only look"""
    out, hs, nexth = [], {}, h0
    files, dirs, links, every = sh.paths("f"), sh.paths("d", True), sh.paths("l"), sh.paths(root=True)
    missing = lambda: rng.choice(dirs) + [rng.choice(list(names.real))]
    for _ in range(n):
        k = rng.choice(["open", "open", "read", "read", "read", "read", "getattr", "getattr", "ls", "ls", "readlink", "getxattr", "listxattr", "flush", "fsync", "fgetattr", "release", "opendir", "missing", "statfs"])
        if k == "open" and files and len(hs) < 4: hs[nexth] = ("f", sh.get(rng.choice(files)).s); p = rng.choice(files); out.append(dict(op="open", h=nexth, p=p, flag=rng.choice(["r", "r", "r", "rw"] if not m.o.get("ro") else ["r"]))); hs[nexth] = ("f", sh.get(p).s); nexth += 1
        elif k == "opendir" and len(hs) < 4: out.append(dict(op="opendir", h=nexth, p=rng.choice(dirs))); hs[nexth] = ("d", 0); nexth += 1
        elif k in ("read", "flush", "fsync", "fgetattr", "release") and hs:
            h = rng.choice(list(hs)); kind, s = hs[h]
            if kind == "d":
                if k == "release": out.append(dict(op="releasedir", h=h)); del hs[h]
                else: out.append(dict(op="readdir", h=h))
            elif k == "read":
                off = rng.choice([0, rng.randrange(s + 1), max(0, s - 10), s, s + 100, s + 70000]); out.append(dict(op="read", h=h, off=off, len=rng.choice([1, 100, 300, 5000, s + 50])))
            else:
                out.append(dict(op=k, h=h))
                if k == "release": del hs[h]
        elif k == "getattr": out.append(dict(op=k, p=rng.choice(every)))
        elif k == "ls": out.append(dict(op=k, p=rng.choice(dirs)))
        elif k == "readlink" and links: out.append(dict(op=k, p=rng.choice(links)))
        elif k == "getxattr": out.append(dict(op=k, p=rng.choice(files + dirs), x=rng.choice(XN), sz=rng.choice([0, 5, 4000])))
        elif k == "listxattr": out.append(dict(op=k, p=rng.choice(files + dirs), sz=rng.choice([0, 5, 4000])))
        elif k == "statfs": out.append(dict(op="raw", line="statfs"))
        elif k == "missing":
            q = missing(); out.append(rng.choice([dict(op="getattr", p=q), dict(op="open", h=nexth, p=q, flag="r"), dict(op="readlink", p=q), dict(op="getattr", p=q + [rng.choice(list(names.real))])]))
            if out[-1]["op"] == "open" and sh.get(q) is not None and sh.get(q).k == "f": hs[nexth] = ("f", sh.get(q).s)
            nexth += 1
    return out + [dict(op="release" if k == "f" else "releasedir", h=h) for h, (k, _) in hs.items()]
class Look:
    def __init__(self, mount, names, prep, segments, targets, tag, cli=None):
        self.mount, self.names, self.prep, self.segments, self.targets, self.tag, self.cli = mount, names, prep, segments, targets, tag, cli
    def image(self, d, p):
        c = codec(p); hl = 32 + p.iv + 16 + c.hdr if p.fmt == "full" else 0
        out = []
        for top, ds, fs in os.walk(os.fsencode(d)):
            for n in ds + fs:
                q = os.path.join(top, n); rel = os.path.relpath(q, os.fsencode(d)).decode("latin-1"); st = os.lstat(q)
                head, rest, x = b"", b"", []
                if stat.S_ISLNK(st.st_mode): k, rest = "l", os.readlink(q)
                elif stat.S_ISDIR(st.st_mode): k = "d"
                else:
                    with open(q, "rb", opener=lambda p, fl: os.open(p, fl | os.O_NOATIME)) as f: b = f.read()
                    k = "m" if p.fmt == "full" and rel.endswith(".meta") else "e" if p.fmt == "lite" and not b and not rel.split("/")[-1].startswith(".") else "f"
                    head, rest = (b[:hl], b[hl:]) if k == "m" else (b"", b)
                if k in "dfme": x = [[a, os.getxattr(q, a).hex()] for a in sorted(os.listxattr(q))]
                dg = lambda b: f"{len(b)}:" + hashlib.sha256(b).hexdigest()[:20]
                out.append([rel, k, dg(head), dg(rest), f"{st.st_mode:o} {st.st_uid} {st.st_gid} {st.st_nlink} {x}"])
        return {"op": "image", "img": sorted(out)}
    def view(self, a, conv, over):
        e = conv.observe(dict(op="snap", data=1), a)
        v = []
        for s in e.get("snap", []):
            own = [] if over else [s["u"], s["g"]]
            v.append(["/".join(s["p"]), f"{s['k']} {s['m']} {own} {s['n'] if s['k'] != 'd' else ''} {s['s'] if s['k'] == 'f' else ''} mt {s['mt'] if s['k'] != 'd' or self.mount.st or self.mount.fmt == 'lite' else ''} "
                      f"ct {s['ct'] if self.mount.st else ''} ino {s['ino']} {s['d']} {s['t']} {sorted(s['x'])} {sorted(s['ls'])}"])
        return {"op": "view", "view": v, "errs": [str(x)[:200] for x in e.get("errs", ["no snapshot"])]}
    def process(self, lines):
        outs, rc, se = run_driver(lines, timeout=100); self.stderr = se
        bad = rc != 0 or any(x.startswith("mount ") and (k >= len(outs) or outs[k].get("r", -1) < 0) for k, x in enumerate(lines)) or "Sanitizer" in se or "runtime error" in se or (outs and outs[-1].get("r", -1) < 0)
        return outs, f"{rc} {' '.join(se.split())[-200:]} {str(outs[-1:])[:100]}" if bad else "OK"
    def run(self):
        d = fresh("repo"); os.chmod(d, 0o755)
        p = Params.of_mount(self.mount)
        conv = Conv(self.names, self.targets)
        conv.vals = {val_bytes(o["val"]): f"{o['val'][0]}:{o['val'][1]}" for o in self.prep if o["op"] == "setxattr"}
        ev, clock = [], VBASE
        looks = lambda r: {"op": "looks", "r": r}
        try:
            seg = [[]]
            for o in self.prep:
                if o["op"] == "remount": seg.append([])
                else: seg[-1].append(o)
            for s in seg:
                _, r = self.process([f"vclock {clock}", self.mount.line(d)] + [render(o, self.names, self.targets) for o in s] + ["umount"]); clock += 1000
                ev.append(looks(r if r == "OK" else "preparing: " + r))
            ev.append(self.image(d, p))
            for m, parts in self.segments:
                clock += 90000 if len(ev) % 2 else 100
                lines = [f"vclock {clock}", m.line(d), "snap 1 1"]; k = len(lines)
                if len(parts) == 1: lines += [o["line"] + " /" if o["op"] == "raw" else render(o, self.names, self.targets) for o in parts[0]]
                else:
                    lines.append(f"par {len(parts)}")
                    for t, ops in enumerate(parts): lines += [f"{t} {render(o, self.names, self.targets)}" for o in ops if o["op"] != "raw"]
                    lines.append("endpar")
                lines += ["snap 1 1", "umount"]
                lock = f"{d}/.securefs.lock"
                if m.o.get("ro"):                     # somebody else's lock: a read-only mount neither minds nor takes nor removes it
                    with open(lock, "w") as f: f.write("1\n")
                outs, r = self.process(lines)
                if m.o.get("ro"):
                    if not os.path.exists(lock) or open(lock).read() != "1\n": r = "the lock was removed or written"
                    else: os.unlink(lock)
                ev.append(looks(r))
                over = "uid" in m.o
                for a in [x for x in outs if "snap" in x]:
                    v = self.view(a, conv, over)
                    if not over: ev.append(v)
                ev.append(self.image(d, p))
        finally: drop(d)
        return {"id": self.tag, "st": self.mount.st, "ro": False, "ev": ev}
    def dump(self): return {"mount": self.mount.desc(), "names": {a: b.hex() for a, b in self.names.real.items()}, "prep": self.prep, "segments": [[m.desc(), p] for m, p in self.segments]}
def names_for(m, rng):
    if m.o.get("plain"): return plain_names("a", "b", "c", "dd", "e" * 30, "f" * 200)
    lens = [3, 9, 40] + ([60, 90] if m.fmt == "lite" and m.o.get("thr", 128) <= 0 else [100, 128, 129, 220])
    return Names({f"n{n}": long_name(f"n{n}_", n).lower() if n > 4 else b"q" * n for n in lens})
def histories(ck):
    S, ms = [], mounts(True)
    for i in range(ck.n(170, 3000)):
        rng = ck.rng("look", i); m = ms[i % len(ms)]; names = names_for(m, rng)
        targets = targets_for(m)
        g = Gen(rng, m, names, PREP, XN, targets=targets, block=m.o.get("block", 4096), maxdepth=3, xsizes=(0, 5, 20, 300))
        prep = [g.op() for _ in range(rng.choice([15, 40, 80]))]
        prep = [o for o in prep if o["op"] != "snap"]
        segs = []
        for j in range(ck.n(3, 6)):
            a = alternatives(m, rng)
            n = rng.choice([0, 10, 40, 80])
            k = rng.choice([1, 1, 3])
            segs.append((a, [looks(rng, a, g.sh, names, n // k, 1 + 100 * t) for t in range(k)]))
        S.append(Look(m, names, prep, segs, targets, f"look{i}"))
    return S
def readonly(ck):
    """mounts that are only ever read-only where access times are recorded"""
    S = []
    for i in range(ck.n(6, 60)):
        rng = ck.rng("ro", i); m = Mount("full", block=256, store_time=1); names = names_for(m, rng)
        g = Gen(rng, m, names, PREP, XN, targets=targets_for(m), block=256, maxdepth=3)
        prep = [o for o in (g.op() for _ in range(30)) if o["op"] != "snap"]
        s = Look(m, names, prep, [(m.but(ro=1), [looks(rng, m.but(ro=1), g.sh, names, 20)])], targets_for(m), f"readonly{i}")
        S.append(s)
    return S
class Inform(Look):
    """a repository made by the tool, and commands that inform or are refused"""
    def run(self):
        self.d = d = fresh_path("repo")
        p = Params(self.mount.fmt)
        try:
            ev = [{"op": "looks", "r": self.process([f"cli create {d} --format {self.mount.fmt} --pass secret --argon2-t 1 --argon2-m 8 --argon2-p 1", f"vclock {VBASE}", self.mount.line(d)] + [render(o, self.names, self.targets) for o in self.prep if o["op"] != "remount"] + ["umount"])[1]}]
            for c in self.segments:
                ev.append(self.image(d, p))
                outs, r = self.process(["cli " + c.format(d=d), "now"])
                ev.append({"op": "looks", "r": r if outs else "no answer"})
            ev.append(self.image(d, p))
        finally:
            drop(d)
        return {"id": self.tag, "st": False, "ro": False, "ev": ev}
    def dump(self): return {"mount": self.mount.desc(), "prep": self.prep, "commands": self.segments}
def informs(ck):
    S = []
    for i in range(ck.n(6, 40)):
        rng = ck.rng("inform", i); fmt = ["lite", "full"][i % 2]
        m = Mount(fmt, cfg="{d}/.config.pb", **{"pass": "secret"}); names = plain_names("a", "bb", "cccc", "d" * 60)
        g = Gen(rng, m, names, PREP, XN, targets=targets_for(m), block=4096, maxdepth=3)
        prep = [o for o in (g.op() for _ in range(30)) if o["op"] != "snap"]
        cmds = ["info {d}", "info {d}/.config.pb", "version", "doc", "chpass {d} --oldpass wrong --newpass other --argon2-t 1 --argon2-m 8 --argon2-p 1", "create {d} --pass other --argon2-t 1 --argon2-m 8 --argon2-p 1",
                "chpass {d} --oldpass secret --oldkeyfile {d}/.config.pb --newpass other --argon2-t 1 --argon2-m 8 --argon2-p 1", "chpass {d} --oldpass secret --newpass other --newkeyfile {d}/none --argon2-t 1 --argon2-m 8 --argon2-p 1", "info {d}/none", "ismount {d}"]
        rng.shuffle(cmds)
        S.append(Inform(m, names, prep, cmds, targets_for(m), f"inform{i}"))
    return S
def run(ck):
    ck.model("LookMC", workers=1)
    ck.part("model")
    ck.scripts(histories(ck) + informs(ck), module="LookTrace", tries=3)
    ck.part("histories")
    ck.scripts(readonly(ck), module="LookTrace", tries=3, key="read-only-with-times")
