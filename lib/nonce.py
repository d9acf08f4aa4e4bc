"""What encryptions used and what became readable: reconstruction from the driver's log of everything written.  Judged by spec/NonceTrace.tla."""
import base64
from tree import *
from layout import *
from stored import pattern

HEX = set("0123456789abcdef")
class Watch:
    """Follows the stored files of a data directory through the log.  params may be None until known."""
    def __init__(self, params, canaries):
        self.p, self.c = params, codec(params)
        self.can, self.seen_ids, self.last = list(canaries), set(), None
        self.windows = {}
        for what, b in self.can: self.add(what, b)
        for t in range(1, 16):
            for k in range(13): self.windows.setdefault(pattern(t, k, 8), f"content {t}")
        for i, k in enumerate(params.secrets()): self.key(f"key {i}", k)
    def add(self, what, b):
        if len(b) >= 8:
            for x in {b[:8], b[len(b) // 2 - 4:len(b) // 2 + 4], b[-8:]}: self.windows.setdefault(x, what)
            self.forms(what, b)
    def forms(self, what, b):
        for x in (b32(b)[:12], b.hex().encode()[:16], base64.b64encode(b)[:12], base64.urlsafe_b64encode(b)[:12], base64.b32encode(b)[:12]): self.windows.setdefault(x, what + " (encoded)")
    def key(self, what, k):
        for i in range(0, len(k) - 7, 8): self.windows.setdefault(k[i:i + 8], what)
        self.forms(what, k)
    def scan(self, b, where):
        if len(b) < 8: return []
        return [f"{what} in {where}" for w, what in self.windows.items() if w in b]
    # ---- state of the data directory
    def load(self, d):
        self.d = d
        self.files, self.x, self.owed = {}, {}, {}
        self.known = set()
        for top, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(top, f); st = os.lstat(q)
                if not stat.S_ISREG(st.st_mode): continue
                with open(q, "rb") as fh: self.files[st.st_ino] = bytearray(fh.read())
                o = self.place(os.path.relpath(q, d))
                if o and self.p.fmt == "full": self.known.add(o[0])
                self.xload(q, f, top)
            for f in [top]: self.xload(f, "", top)
    def xload(self, q, f, top):
        for n in os.listxattr(q, follow_symlinks=False): self.x[(os.lstat(q).st_ino, n)] = os.getxattr(q, n, follow_symlinks=False)
    def place(self, rel):
        """full: (identity, is the list); lite: whether it is a file's content"""
        rel = rel.replace(" (deleted)", "")
        if self.p.fmt == "full":
            m = rel.endswith(".meta"); h = (rel[:-5] if m else rel).replace("/", "")
            return (bytes.fromhex(h), m) if len(h) == 64 and set(h) <= HEX else None
        n = rel.split("/")[-1]
        return None if n.startswith(".") and not self.p.plain else (rel, False)
    def event(self, name): return dict(op=name, ivs=[], heads=[], ids=[], reuse=[], hits=[], r="OK")
    # ---- one operation
    def begin(self, name): self.e = self.event(name); self.join = []; self.rec = self.owed; self.owed = {}
    def note(self, key, iv, ct):
        """iv, ct: states (None if that half is not seen here)"""
        r = self.rec.setdefault(key, dict(iv=[], ct=[]))
        if iv is not None and any(iv) and iv not in r["iv"]: r["iv"].append(iv)
        if ct is not None and any(ct) and ct not in r["ct"]: r["ct"].append(ct)
    def base(self, key, iv, ct):
        r = self.rec.setdefault(key, dict(iv=[], ct=[]))
        if "bi" not in r and iv is not None: r["bi"] = bytes(iv)
        if "bc" not in r and ct is not None: r["bc"] = bytes(ct)
    def units(self, ino, o, a, b, f, note):
        """the parts of the file that lie in [a, b)"""
        p, s = self.p, self.files.setdefault(ino, bytearray())
        if p.fmt == "lite":
            if len(s) < 16: return
            start = 16 + self.c.padding(bytes(s[:16])); u = p.block + p.iv + 16
            for k in range(max(0, a - start) // u, (max(0, b - start) + u - 1) // u):
                x = bytes(s[start + k * u:start + (k + 1) * u])
                if len(x) > p.iv + 16: f(("l", ino, k), x[:p.iv], x[p.iv:-16])
                elif not note: f(("l", ino, k), b"", b"")
        elif not o[1]:
            for k in range(a // p.block, (b + p.block - 1) // p.block): f(("b", o[0], k), None, bytes(s[k * p.block:(k + 1) * p.block]))
        else:
            h = 32; e = p.iv + 16; hl = e + self.c.hdr
            if a < h + hl and b > h: x = bytes(s[h:h + hl]); f(("h", o[0]), x[:p.iv], x[e:])
            for k in range(max(0, a - h - hl) // e, (max(0, b - h - hl) + e - 1) // e): f(("b", o[0], k), bytes(s[h + hl + k * e:h + hl + k * e + p.iv]), None)
    def flush(self):
        if not self.join: return
        ino, off, data, rel = self.join; self.join = []
        o = self.place(rel)
        s = self.files.setdefault(ino, bytearray())
        old = bytes(s[:16])
        if o: self.units(ino, o, off, off + len(data), self.base, False)
        if len(s) < off: s.extend(bytes(off - len(s)))
        s[off:off + len(data)] = data
        if not o: return
        if self.p.fmt == "lite" and off < 16 and len(s) >= 16 and bytes(s[:16]) != old:
            id = bytes(s[:16]); self.e["ids"] += [id.hex(), "<" + id[:8].hex(), ">" + id[8:].hex()]; self.key("key of a file", self.c.key(id))
            h = bytes(s[16:16 + self.c.padding(id)])
            if len(h) >= 12: self.e["ids"].append(h.hex()[:24])
        if self.p.fmt == "full" and o[0] not in self.known:
            self.known.add(o[0])
            if any(o[0]): self.e["ids"] += [o[0].hex(), "<" + o[0][:8].hex(), ">" + o[0][-8:].hex(), "^" + bytes(a ^ b for a, b in zip(o[0][:16], o[0][16:])).hex()]
            for i, k in enumerate(self.c.keys(o[0])[:3]): self.key("key of a file", k)
        self.units(ino, o, off, off + len(data), self.note, True)
    def line(self, ln):
        kind, ino, off, hx, path = ln.split(" ", 4)
        if kind == "O": return
        ino, off, data = int(ino), int(off), b"" if hx == "-" else bytes.fromhex(hx)
        rel = os.path.relpath(path.split("|")[0], self.d)
        if kind == "W":
            self.e["hits"] += self.scan(data, rel)
            j = self.join
            if j and j[0] == ino and j[1] + len(j[2]) == off: j[2] += data; return
            self.flush(); self.join = [ino, off, bytearray(data), rel]
            return
        self.flush()
        if kind == "T":
            s = self.files.setdefault(ino, bytearray())
            if len(s) > off: del s[off:]
            else: s.extend(bytes(off - len(s)))
        if kind == "X":
            n = path.split("|")[1]
            self.e["hits"] += self.scan(data, rel + " attribute") + self.scan(n.encode(), rel + " attribute name")
            old = self.x.get((ino, n), b""); self.x[(ino, n)] = data
            if self.p.fmt == "lite":
                v = self.p.iv
                self.base(("x", ino, n), old[:v], old[v:-16]); self.note(("x", ino, n), data[:v], data[v:-16])
            else:
                o = self.place(rel)
                if o and o[1]: self.base(("x", o[0], n), old[:-16], None); self.note(("x", o[0], n), data[:-16], None)
                elif o: self.base(("x", o[0], n), None, old); self.note(("x", o[0], n), None, data)
    def end(self, last=False):
        """last: whether the process ends here (a nonce may be stored later than the cipher text)"""
        self.flush()
        e = self.e
        for key, r in self.rec.items():
            ivs = [x for x in r["iv"] if x != r.get("bi")]; cts = [x for x in r["ct"] if x != r.get("bc")]
            for x in ("iv", "ct"): r.setdefault("done" + x, [])
            if len(cts) > len(ivs) and not last: self.owed[key] = r
            elif len(cts) > len(ivs): e["reuse"].append(f"{key[0]} {key[1].hex() if isinstance(key[1], bytes) else key[1]} {key[2:]}: {len(cts)} cipher texts, {len(ivs)} nonces")
            new = [x for x in cts if x not in r["donect"]]; r["donect"] += new
            ivs = [x for x in ivs if x not in r["doneiv"]]; r["doneiv"] += ivs
            for iv in ivs:
                n = int.from_bytes(iv, "big"); m = 1 << (8 * len(iv))
                dif = f"{len(iv)}:{(n - self.last) % m:x}" if self.last is not None else "first"
                self.last = n
                e["ivs"].append([iv.hex(), iv[:6].hex(), "." + iv[-6:].hex(), dif])
            e["heads"] += [x[:12].hex() for x in new if len(x) >= 12]
        e["hits"] = e["hits"][:5]; e["reuse"] = e["reuse"][:5]
        return e
    def final(self, d):
        """everything there"""
        e = self.event("look")
        for top, ds, fs in os.walk(os.fsencode(d)):
            for n in ds + fs:
                q = os.path.join(top, n); rel = os.path.relpath(q, os.fsencode(d))
                e["hits"] += self.scan(n, f"name {n[:40]!r}")
                if os.path.islink(q): e["hits"] += self.scan(os.readlink(q), f"target of {rel[:40]!r}")
                else:
                    if os.path.isfile(q):
                        with open(q, "rb") as f: e["hits"] += self.scan(f.read(), f"{rel[:60]!r}")
                    for x in os.listxattr(q): e["hits"] += self.scan(os.fsencode(x), f"attribute of {rel[:40]!r}") + self.scan(os.getxattr(q, x), f"attribute of {rel[:40]!r}")
        e["hits"] = e["hits"][:5]
        return e

class Record:
    """segments: lists of operations (tree.py) or ("par", [ops, ops]) each run by a process of its own; ("branch", k): go back to the state after segment k"""
    def __init__(self, mount, names, segments, targets=None, xnames=(), tag="", secrets=()):
        self.mount, self.names, self.segments, self.targets, self.xnames, self.tag, self.secrets = mount, names, segments, targets or {}, list(xnames), tag, list(secrets)
    def canaries(self):
        p = self.mount.o.get("plain")
        c = [] if p else [(f"name {a}", b) for a, b in self.names.real.items()] + [(f"target {a}", b) for a, b in self.targets.items() if len(b) >= 8 and len(set(b)) > 3]
        c += [(f"attribute {x}", x.encode()) for x in self.xnames]
        vals = {val_bytes(o["val"]) for s in self.segments if isinstance(s, list) for o in s if isinstance(o, dict) and o["op"] == "setxattr"}
        return c + [("attribute value", v) for v in vals] + self.secrets
    def params(self, d):
        if not self.mount.o.get("cli"): return Params.of_mount(self.mount)
        with open(f"{d}/.config.pb", "rb") as f: p = open_config(f.read(), b"pw", None)
        p.plain = bool(self.mount.o.get("plain"))
        return p
    def start(self, d):
        if self.mount.o.get("cli"):
            outs, rc, se = run_driver([self.mount.line(d), "umount"], timeout=100)
            if rc or not os.path.exists(f"{d}/.config.pb"): raise Broken(f"cannot create a repository: {outs} {se[-500:]}")
        return []
    def run(self):
        d = fresh("repo"); os.chmod(d, 0o755)
        saved, ev, mount = [], [], self.mount
        log = fresh_path("wlog")
        try:
            ev += self.start(d)
            w = Watch(self.params(d), self.canaries())
            for seg in self.segments:
                if isinstance(seg, tuple) and seg[0] == "branch":
                    drop(d); shutil.copytree(saved[seg[1]], d, symlinks=True); continue
                w.load(d)
                lines = ["vclock 1000000", f"wlog {log}", self.mount.line(d)]
                names = ["mount"]
                for o in seg:
                    if isinstance(o, tuple):
                        lines.append(f"par {len(o[1])}"); names.append("par")
                        for t, ops in enumerate(o[1]): lines += [f"{t} {render(x, self.names, self.targets)}" for x in ops]
                        lines.append("endpar")
                    else: lines.append(render(o, self.names, self.targets)); names.append(o["op"])
                lines.append("umount")
                outs, rc, se = run_driver(lines, timeout=100)
                self.stderr = se
                first = True
                if os.path.exists(log):
                    with open(log) as f:
                        for ln in f:
                            ln = ln.rstrip("\n")
                            if ln.startswith("O "):
                                if not first: ev.append(w.end())
                                first = False; w.begin(ln.split(" ", 4)[4])
                            elif first: w.begin("?"); first = False; w.line(ln)
                            else: w.line(ln)
                    if not first: ev.append(w.end(True))
                    os.unlink(log)
                if rc != 0 or (outs and outs[-1].get("r", -1) < 0) or "AddressSanitizer" in se: ev.append({**w.event("process"), "r": f"{rc} {outs[-1:]} {se[-300:]}"})
                ev.append(w.final(d))
                b = fresh_path("saved"); shutil.copytree(d, b, symlinks=True); saved.append(b)
                # copies carry the attributes of the originals (copytree does not follow the list of them for directories)
                for top, ds, fs in os.walk(d):
                    for n in [""] + fs:
                        q = os.path.join(top, n) if n else top; q2 = os.path.join(b, os.path.relpath(q, d))
                        if not os.path.islink(q):
                            for x in os.listxattr(q):
                                try: os.setxattr(q2, x, os.getxattr(q, x))
                                except OSError: pass
        finally:
            drop(d)
            for b in saved: drop(b)
            if os.path.exists(log): os.unlink(log)
        return {"id": self.tag, "ev": [e for e in ev if e["ivs"] or e["heads"] or e["ids"] or e["reuse"] or e["hits"] or e["r"] != "OK"]}
    def dump(self): return {"mount": self.mount.desc(), "names": {a: b.hex() for a, b in self.names.real.items()}, "segments": self.segments}
