"""Alterations of the stored form of a repository.  A Base is a history of the real code together with byte images of the data directory at two points; a Case is a copy
of the last image, altered by an arbitrary function.  What an alteration touched is found by comparing the images, not taken from the function."""
import contextlib, copy, errno, os, shutil, sqlite3, struct, base64
from vlib import *
from tree import *

TABLE = ".long_names"
HDR = {False: 32, True: 80}

def b32dec(s):
    s = s.upper()
    return base64.b32decode(s + "=" * (-len(s) % 8))

class Base:
    """mount, names, script text of two phases -> trace events, images, where everything is stored."""
    def __init__(self, mount, names, opsA, opsB, targets, xnames, tag):
        self.mount, self.tag, self.full = mount, tag, mount.fmt == "full"
        self.bs = mount.o.get("block", 4096); self.iv = mount.o.get("iv", 12); self.pad = mount.o.get("pad", 0)
        self.names, self.targets, self.xnames = names, targets, xnames
        self.script = Script(mount, names, ops_of(opsA) + [dict(op="snap"), dict(op="remount")] + ops_of(opsB) + [dict(op="snap")], targets=targets, xnames=xnames, tag=tag)
        self.composed = []
        self.img = []
        def between(d, op):
            if op is None: return []
            self.save(d)
            return [{"op": "mark"}]
        self.script.between = between
        d = fresh("tbase")
        t = self.script.run(d=d, keep=True)
        if t["ev"][-1]["op"] != "snap" or t["ev"][-1]["r"] != "OK": raise Broken(f"base {tag}: {t['ev'][-1]}")
        snaps = [k for k, e in enumerate(t["ev"]) if e["op"] == "snap"]
        self.save(d)
        t["ev"].append({"op": "mark"})
        self.cfg, self.ev, self.vals = t["cfg"], t["ev"], self.script.vals
        # the raw inode numbers of both snapshots come from the two images (in the order of the walk)
        self.where = [self.locate(n, t["ev"][k]) for n, k in enumerate(snaps[-2:])]
        drop(d)
    def save(self, d):
        dst = fresh_path("img")
        shutil.copytree(d, dst, symlinks=True)
        inos = {}
        for r, ds, fs in os.walk(d):
            for f in ds + fs:
                rel = os.path.relpath(os.path.join(r, f), d)
                inos.setdefault(os.lstat(os.path.join(r, f)).st_ino, []).append(rel)
        inos[os.stat(d).st_ino] = ["."]
        self.img.append((dst, inos))
    def locate(self, n, snap):
        """stored path (without .meta) -> (path of aliases, kind, size)"""
        dst, inos = self.img[n]
        w = {}
        if self.full:
            ids = {}
            for r, ds, fs in os.walk(dst):
                for f in fs:
                    rel = os.path.relpath(os.path.join(r, f), dst)
                    if f.endswith(".meta"): continue
                    h = rel.replace("/", "")
                    if len(h) == 64: ids[str((~struct.unpack("<Q", bytes.fromhex(h)[:8])[0]) & (2**64 - 1))] = rel
            for s in snap["snap"]:
                rel = ids[snap["raw"][s["ino"]]]
                w.setdefault(rel, []).append((s["p"], s["k"], s["s"]))
        else:
            for s in snap["snap"]:
                for rel in inos[int(snap["raw"][s["ino"]])]:
                    w.setdefault(rel, []).append((s["p"], s["k"], s["s"]))
        return w

class RawConv(Conv):
    pass
# the raw inode numbers are needed to find the stored objects
_observe = Conv.observe
def observe(self, op, a):
    e = _observe(self, op, a)
    if "snap" in e and op.get("op") == "snap" and e["r"] == "OK": e["raw"] = {v: k for k, v in self.inos.items()}
    return e
Conv.observe = observe

# ------------------------------------------------------------------------------------------------ what differs
def rd(p):
    try:
        with open(p, "rb") as f: return f.read()
    except OSError: return None
def xat(p):
    try: return {k: os.getxattr(p, k, follow_symlinks=False) for k in os.listxattr(p, follow_symlinks=False)}
    except OSError: return {}
def differs(base, d):
    """hits (see TamperTrace) from comparing the altered directory with the last image"""
    img = base.img[-1][0]
    where = base.where[-1]
    hits = []
    def hit(p, k, whole=True, blocks=(), src=(), zb=()): hits.append({"p": p, "k": k, "whole": whole, "blocks": list(blocks), "bs": base.bs if not (base.full and base.pad) else 0, "src": list(src), "zb": list(zb)})
    def blocks_of(old, new, off, bsz):
        n = max(len(old), len(new)) - off
        return [k for k in range(0, n // bsz + 1) if old[off + k * bsz:off + (k + 1) * bsz] != new[off + k * bsz:off + (k + 1) * bsz]]
    if base.full:
        for rel, es in where.items():
            o, n = rd(f"{img}/{rel}"), rd(f"{d}/{rel}")
            om, nm = rd(f"{img}/{rel}.meta"), rd(f"{d}/{rel}.meta")
            for p, k, s in es:
                if n is None or nm is None or om != nm: hit(p, "obj")
                elif o != n: hit(p, "obj" if k == "l" else "data", k == "d", blocks_of(o, n, 0, base.bs))
                if xat(f"{img}/{rel}") != xat(f"{d}/{rel}") or xat(f"{img}/{rel}.meta") != xat(f"{d}/{rel}.meta"): hit(p, "x")
        return hits
    heads, pads = {}, {}
    for n, (dst, _) in enumerate(base.img):
        for rel, es in base.where[n].items():
            b = rd(f"{dst}/{rel}") if es[0][1] == "f" else None
            if b is not None and len(b) >= 16:
                heads.setdefault(b[:16], []).append({"n": n + 1, "p": es[0][0]})
                pads[b[:16]] = padding(base, b, es[0][2])
    def erased(b, size=base.bs + base.iv + 16):
        """the blocks whose stored bytes are all zero (for an unknown identity the padding is not known either: any)"""
        if len(b) < 16: return []
        if base.pad and b[:16] not in pads: return [-1]
        x = b[16 + pads.get(b[:16], 0):]
        return [k for k in range((len(x) + size - 1) // size) if not any(x[k * size:(k + 1) * size])]
    dirs = {rel: es[0][0] for rel, es in where.items() if es[0][1] == "d"}
    for rel, p in dirs.items():
        if not os.path.isdir(f"{d}/{rel}"): continue
        old, new = set(os.listdir(f"{img}/{rel}")), set(os.listdir(f"{d}/{rel}"))
        for x in new - old:
            hit(p, "extra"); break
        if rd(f"{img}/{rel}/{TABLE}") != rd(f"{d}/{rel}/{TABLE}"):
            hit(p, "extra"); hit(p, "table")
            suf = base.mount.o.get("suf", "...")
            for r2, es in where.items():
                if os.path.dirname(r2) == ("" if rel == "." else rel) and r2.endswith(suf):
                    for q, k, s in es: hit(q, "name")
    for rel, es in where.items():
        if rel == ".": continue
        lost = not os.path.lexists(f"{d}/{rel}")
        for p, k, s in es:
            if lost: hit(p, "name"); continue
            if os.lstat(f"{d}/{rel}").st_mode != os.lstat(f"{img}/{rel}").st_mode: hit(p, "name"); continue       # something else stands there
            if k == "l" and os.path.islink(f"{d}/{rel}"):
                if os.readlink(os.fsencode(f"{img}/{rel}")) != os.readlink(os.fsencode(f"{d}/{rel}")): hit(p, "link")
            if k == "f":
                o, n = rd(f"{img}/{rel}"), rd(f"{d}/{rel}")
                if o != n:
                    p_ = padding(base, o, s)
                    same = o[:16 + p_] == n[:16 + p_]
                    src = heads.get(n[:16], []) if len(n) >= 16 else []
                    hit(p, "file", not same, blocks_of(o, n, 16 + p_, base.bs + base.iv + 16), src, erased(n))
            if k != "l" and xat(f"{img}/{rel}") != xat(f"{d}/{rel}"): hit(p, "x")
    return hits
def padding(base, stored, size):
    n, r = divmod(size, base.bs)
    u = base.iv + 16
    return len(stored) - 16 - n * (base.bs + u) - (r + u if r else 0) if base.pad and stored else 0

class Case:
    """One alteration; run() alters a copy, mounts it and observes."""
    def __init__(self, base, bi, label, alter, after=""):
        self.base, self.bi, self.label, self.alter, self.after, self.mount = base, bi, label, alter, after, base.mount
        self.tag = f"{base.tag}-{label}"
    def dump(self): return {"base": self.base.script.dump(), "alteration": self.label, "mount": self.mount.desc()}
    def run(self):
        b = self.base
        d = fresh_path("t")
        shutil.copytree(b.img[-1][0], d, symlinks=True)
        try:
            self.alter(d)
            hits = differs(b, d)
            ops = [dict(op="snap")]
            fl = [h["p"] for h in hits if h["k"] in ("file", "data") and h["bs"] and not (h["k"] == "data" and h["whole"])]
            seen = []
            for p in fl:
                if p in seen or len(seen) >= 3: continue
                seen.append(p)
                h = 10 + len(seen)
                ops.append(dict(op="open", h=h, p=p, flag="r"))
                for k in range(0, 6): ops.append(dict(op="read", h=h, off=k * b.bs, len=b.bs))
                ops += [dict(op="read", h=h, off=b.bs, len=3 * b.bs), dict(op="read", h=h, off=7, len=5), dict(op="release", h=h)]
            ops += ops_of(self.after)
            ops += [dict(op="remount"), dict(op="snap")]
            if b.bs and any(h["bs"] == 0 for h in hits): pass
            s = Script(b.mount, b.names, ops, targets=b.targets, xnames=b.xnames, tag=self.tag)
            s.values = lambda: b.vals
            t = s.run(d=d, keep=True)
            self.stderr = getattr(s, "stderr", "")
            keep = {"op", "r", "d", "h", "p", "off", "len", "snap", "errp", "t", "x", "v", "sz", "n"}
            ev = [{k: v for k, v in e.items() if k in keep} for e in t["ev"]]
            for e in ev:
                if e["op"] == "snap": e.setdefault("errp", [])
                for x in [e] + e.get("snap", []):
                    if b.composed and x.get("t", "").startswith("?") and len(x["t"]) < 400 and all(c in b.comps for c in dec(x["t"][1:]).split(b"/") if c): x["t"] = "composed"
            return {"id": self.tag, "base": self.bi, "bs": b.bs if not (b.full and b.pad) else 0, "ev": [{"op": "tamper", "r": "OK", "hit": hits}] + ev}
        finally:
            drop(d)

# ------------------------------------------------------------------------------------------------ places
class Part:
    """A byte range of one stored file, with its role: (file, kind, index) -> offset, length"""
    __slots__ = ("rel", "role", "k", "off", "len")
    def __init__(self, rel, role, k, off, ln): self.rel, self.role, self.k, self.off, self.len = rel, role, k, off, ln
    def __repr__(self): return f"{self.role}{self.k if self.k is not None else ''}"
def parts(base, n, rel):
    """the parts of the stored object (both files of it in the full format)"""
    dst = base.img[n][0]
    es = base.where[n].get(rel)
    if es is None: return []
    out = []
    if base.full:
        o, m = rd(f"{dst}/{rel}"), rd(f"{dst}/{rel}.meta")
        for k in range(0, (len(o) + base.bs - 1) // base.bs): out.append(Part(rel, "ct", k, k * base.bs, min(base.bs, len(o) - k * base.bs)))
        h = HDR[base.mount.st]
        q = rel + ".meta"
        x = 32
        out += [Part(q, "hmac", None, 0, 32), Part(q, "hiv", None, x, base.iv), Part(q, "hmac2", None, x + base.iv, 16), Part(q, "hct", None, x + base.iv + 16, h)]
        x += base.iv + 16 + h
        k = 0
        while x < len(m):
            out += [Part(q, "iv", k, x, base.iv), Part(q, "mac", k, x + base.iv, 16)]
            x += base.iv + 16; k += 1
        return out
    if es[0][1] != "f": return []
    o = rd(f"{dst}/{rel}")
    if not o: return []
    p = padding(base, o, es[0][2])
    out.append(Part(rel, "id", None, 0, 16))
    if p: out.append(Part(rel, "pad", None, 16, p))
    x, k = 16 + p, 0
    while x < len(o):
        e = min(x + base.bs + base.iv + 16, len(o))
        out += [Part(rel, "iv", k, x, base.iv), Part(rel, "ct", k, x + base.iv, e - x - base.iv - 16), Part(rel, "mac", k, e - 16, 16)]
        x = e; k += 1
    return out
def put(d, rel, off, data):
    with open(f"{d}/{rel}", "r+b") as f: f.seek(off); f.write(data)
def get(base, n, p): return rd(f"{base.img[n][0]}/{p.rel}")[p.off:p.off + p.len]

# ------------------------------------------------------------------------------------------------ alterations
def apply(base, d, prims):
    for pr in prims:
        try: apply1(base, d, pr)
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError, FileExistsError): pass
        except OSError as e:
            if e.errno not in (errno.ENAMETOOLONG, errno.EINVAL, errno.ENOSPC, errno.ERANGE, errno.ENOTEMPTY, errno.ENODATA, errno.EPERM): raise
        except sqlite3.Error: pass
def apply1(base, d, pr):
    k, rel = pr[0], pr[1]
    p = f"{d}/{rel}"
    if k == "flip":
        b = bytearray(rd(p) or b"")
        if pr[2] < len(b): b[pr[2]] ^= 1 << pr[3]; put(d, rel, pr[2], bytes(b[pr[2]:pr[2] + 1]))
    elif k == "zero": put(d, rel, pr[2], bytes(pr[3]))
    elif k == "put": put(d, rel, pr[2], rd(f"{base.img[pr[3]][0]}/{pr[4]}")[pr[5]:pr[5] + pr[6]])
    elif k == "trunc":
        if os.path.exists(p) and pr[2] <= os.path.getsize(p): os.truncate(p, pr[2])
    elif k == "ext":
        with open(p, "r+b") as f: f.seek(0, 2); f.write(pr[2])
    elif k == "whole":
        b = rd(f"{base.img[pr[2]][0]}/{pr[3]}")
        if b is not None: open(p, "r+b").truncate(0); put(d, rel, 0, b)
    elif k == "del": os.unlink(p)
    elif k == "mv": os.rename(p, f"{d}/{pr[2]}")
    elif k == "swap":
        os.rename(p, f"{d}/.swap"); os.rename(f"{d}/{pr[2]}", p); os.rename(f"{d}/.swap", f"{d}/{pr[2]}")
    elif k == "mk":
        with open(os.fsencode(p) if isinstance(p, str) else p, "xb") as f: f.write(pr[2])
    elif k == "cp": shutil.copy2(p, f"{d}/{pr[2]}", follow_symlinks=False)
    elif k == "lnk": os.unlink(p); os.symlink(pr[2], os.fsencode(p))
    elif k == "xset":
        if pr[3] is None:
            with contextlib.suppress(OSError): os.removexattr(p, pr[2])
        else: os.setxattr(p, pr[2], pr[3])
    elif k == "sql":
        c = sqlite3.connect(p, isolation_level=None); c.text_factory = bytes
        for st, args in pr[2]: c.execute(st, args)
        c.close()
    elif k == "raw":
        with open(p, "wb") as f: f.write(pr[2])
    else: raise KeyError(k)
def short(pr): return ",".join(str(x if not isinstance(x, bytes) else x.hex()[:24] + f"({len(x)})") for x in pr)

def some(ps):
    """of a long file, the first, the last and the blocks around the 4096th byte of its list of blocks"""
    top = max((p.k for p in ps if p.k is not None), default=0)
    return [p for p in ps if p.k is None or top < 20 or p.k in (0, 1, 2, 70, top - 1, top) or (p.role in ("iv", "mac") and p.rel.endswith(".meta") and abs(p.off - 4096) < 60)]
def content_singles(base, rels, rng):
    """all single alterations of the stored content of the objects: every part of every block"""
    out = []
    cur = {r: some(parts(base, 1, r)) for r in rels}
    old = {r: some(parts(base, 0, r)) for r in rels}
    pool = [(1, p) for r in rels for p in cur[r]] + [(0, p) for r in rels for p in old[r]]
    for r in rels:
        files = sorted({p.rel for p in cur[r]})
        for p in cur[r]:
            if p.len <= 0: continue
            for off in sorted({0, p.len - 1, rng.randrange(p.len)}): out.append([("flip", p.rel, p.off + off, rng.randrange(8))])
            out.append([("zero", p.rel, p.off, p.len)])
            for n, q in pool:
                if q.len == p.len and not (n == 1 and q.rel == p.rel and q.off == p.off) and (q.role == p.role or rng.random() < 0.1):
                    out.append([("put", p.rel, p.off, n, q.rel, q.off, q.len)])
        for f in files:
            size = len(rd(f"{base.img[1][0]}/{f}") or b"")
            cuts = {0, 1, 15, 16, 17, 31, 32, 33, size - 1, size // 2} | {p.off + x for p in cur[r] if p.rel == f for x in (-1, 0, 1)} | {p.off + p.len for p in cur[r] if p.rel == f}
            out += [[("trunc", f, c)] for c in sorted(cuts) if 0 <= c < size]
            for n in (1, base.iv, base.iv + 16, base.iv + 17, base.bs, base.bs + base.iv + 16, 3 * (base.bs + base.iv + 16)):
                out.append([("ext", f, bytes(n))]); out.append([("ext", f, rng.randbytes(n))])
            for n, q in pool:
                if q.role == "ct": out.append([("ext", f, get(base, n, q))])
            # the whole stored file
            for r2 in rels:
                for n in (0, 1):
                    if (n, r2) != (1, r) and r2 in base.where[n]:
                        f2 = r2 + ".meta" if f.endswith(".meta") else r2
                        out.append([("whole", f, n, f2)])
                        if f.endswith(".meta"): out.append([("whole", f, n, f2), ("whole", r, n, r2)])
            out.append([("trunc", f, 0), ("ext", f, bytes(size))])
        if base.full: out += [[("trunc", r, 0), ("trunc", r + ".meta", 0)], [("zero", r, 0, len(rd(f"{base.img[1][0]}/{r}"))), ("trunc", r + ".meta", 0)], [("del", r)], [("del", r + ".meta")], [("del", r), ("del", r + ".meta")],
                              [("trunc", r + ".meta", 0), ("trunc", r, 0), ("ext", r, bytes(base.bs))]]
    return out
def block_moves(base, rels, rng):
    """whole blocks exchanged, copied, rolled back, with everything that belongs to them or only some of it"""
    def blk(n, r):
        b = {}
        for p in some(parts(base, n, r)):
            if p.role in ("iv", "ct", "mac"): b.setdefault(p.k, {})[p.role] = p
        return {k: v for k, v in b.items() if len(v) == 3}
    out = []
    B = {(n, r): blk(n, r) for r in rels for n in (0, 1)}
    sub = [("iv", "ct", "mac"), ("ct",), ("iv", "mac"), ("iv", "ct"), ("ct", "mac")]
    for r in rels:
        for k, dst in B[(1, r)].items():
            for (n, r2), bb in B.items():
                for k2, src in bb.items():
                    if (n, r2, k2) == (1, r, k) or src["ct"].len != dst["ct"].len: continue
                    for roles in (sub if rng.random() < 0.5 else sub[:1]):
                        out.append([("put", dst[x].rel, dst[x].off, n, src[x].rel, src[x].off, src[x].len) for x in roles])
                        if n == 1 and (r2, k2) > (r, k): out.append(out[-1] + [("put", src[x].rel, src[x].off, n, dst[x].rel, dst[x].off, dst[x].len) for x in roles])
        # an older state of every part but one, and of random subsets
        ps = [(p, q) for p in parts(base, 1, r) for q in parts(base, 0, r) if (p.rel, p.role, p.k, p.len) == (q.rel, q.role, q.k, q.len) and get(base, 1, p) != get(base, 0, q)]
        for t in range(40):
            S = ps if not ps else [x for x in ps if rng.random() < rng.choice([0.2, 0.5, 0.85])]
            if S: out.append([("put", p.rel, p.off, 0, q.rel, q.off, q.len) for p, q in S])
        # the identity of another file under one's own blocks
        for r2 in rels:
            for n in (0, 1):
                hs = [(p, q) for p in parts(base, 1, r) for q in parts(base, n, r2) if p.role == q.role and p.role in ("id", "pad", "hmac", "hiv", "hmac2", "hct") and p.len == q.len]
                if (n, r2) != (1, r) and hs:
                    out.append([("put", p.rel, p.off, n, q.rel, q.off, q.len) for p, q in hs])
                    bs = [(d[x], s[x]) for k, d in B[(1, r)].items() for k2, s in B[(n, r2)].items() if k == k2 and s["ct"].len == d["ct"].len for x in ("iv", "ct", "mac")]
                    out.append([("put", p.rel, p.off, n, q.rel, q.off, q.len) for p, q in hs + bs[:3]])
                    out.append([("put", p.rel, p.off, n, q.rel, q.off, q.len) for p, q in hs + bs])
                    out.append([("put", p.rel, p.off, n, q.rel, q.off, q.len) for p, q in bs])
    return out
def cases(ck, base, bi, lists, compound, label):
    """Case objects: all single alterations given, and random combinations of them."""
    out = []
    for i, prims in enumerate(lists): out.append(Case(base, bi, f"{label}{i}:" + ";".join(map(short, prims))[:300], lambda d, prims=prims: apply(base, d, prims)))
    for i in range(compound):
        rng = ck.rng("compound", label, bi, i)
        prims = sum((rng.choice(lists) for _ in range(rng.choice([2, 2, 3, 4, 6]))), [])
        out.append(Case(base, bi, f"{label}x{i}:" + ";".join(map(short, prims))[:300], lambda d, prims=prims: apply(base, d, prims)))
    return out
def judge(ck, bases, S, **kw):
    f = fresh_path("bases") + ".ndjson"
    with open(f, "w") as fh:
        for b in bases: fh.write(json.dumps({"cfg": b.cfg, "composed": b.composed, "ev": [{k: v for k, v in e.items() if k != "raw"} for e in b.ev]}) + "\n")
    os.environ["BASES"] = f
    ck.scripts(S, module="TamperTrace", forked=True, **kw)
