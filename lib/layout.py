"""The stored form of both repository formats, written down independently of the sources: a reader and a writer that work from the keys alone.  Primitives are those of the system's libcrypto and libargon2.
spec/Layout.tla states the arrangement (which piece stands where); this module turns pieces into bytes and back."""
import ctypes, hashlib, hmac as _hmac, json, os, random, sqlite3, stat, struct, urllib.parse

C = ctypes.CDLL("libcrypto.so.3")
for f in ("EVP_CIPHER_fetch", "EVP_CIPHER_CTX_new"): getattr(C, f).restype = ctypes.c_void_p
_ciphers = {}
class Forged(Exception): pass
def _cipher(name):
    if name not in _ciphers: _ciphers[name] = ctypes.c_void_p(C.EVP_CIPHER_fetch(None, name.encode(), None))
    return _ciphers[name]
def _run(name, encrypt, key, iv, data, aad=b"", tag=None, taglen=16, nopad=False):
    x = ctypes.c_void_p(C.EVP_CIPHER_CTX_new())
    try:
        n = ctypes.c_int(0)
        out = ctypes.create_string_buffer(len(data) + 32)
        def ok(r):
            if r != 1: raise Forged(name)
        ok(C.EVP_CipherInit_ex(x, _cipher(name), None, None, None, int(encrypt)))
        if "GCM" in name: ok(C.EVP_CIPHER_CTX_ctrl(x, 9, len(iv), None))
        if "SIV" in name and not encrypt: ok(C.EVP_CIPHER_CTX_ctrl(x, 0x11, 16, ctypes.c_char_p(tag)))
        ok(C.EVP_CipherInit_ex(x, None, None, key, iv, int(encrypt)))
        if nopad: C.EVP_CIPHER_CTX_set_padding(x, 0)
        if "GCM" in name and not encrypt: ok(C.EVP_CIPHER_CTX_ctrl(x, 0x11, 16, ctypes.c_char_p(tag)))
        if aad: ok(C.EVP_CipherUpdate(x, None, ctypes.byref(n), aad, len(aad)))
        ok(C.EVP_CipherUpdate(x, out, ctypes.byref(n), data, len(data)))
        m = n.value
        ok(C.EVP_CipherFinal_ex(x, ctypes.byref(out, m), ctypes.byref(n)))
        r = out.raw[:m + n.value]
        if tag is None and ("GCM" in name or "SIV" in name):
            t = ctypes.create_string_buffer(16)
            ok(C.EVP_CIPHER_CTX_ctrl(x, 0x10, 16, t))
            return r, t.raw
        return r
    finally: C.EVP_CIPHER_CTX_free(x)
def ecb(key, block): return _run(f"AES-{len(key) * 8}-ECB", True, key, None, block, nopad=True)
def seal(key, iv, data, aad=b""): return _run(f"AES-{len(key) * 8}-GCM", True, key, iv, data, aad)                # (cipher text, MAC)
def unseal(key, iv, data, mac, aad=b""): return _run(f"AES-{len(key) * 8}-GCM", False, key, iv, data, aad, tag=mac)
def siv(key, data):
    c, t = _run(f"AES-{len(key) * 4}-SIV", True, key, None, data)
    return t + c
def unsiv(key, b):
    if len(b) <= 16: raise Forged("too short")
    return _run(f"AES-{len(key) * 4}-SIV", False, key, None, b[16:], tag=b[:16])
def hmac(key, data): return _hmac.new(key, data, hashlib.sha256).digest()
def expand(key, info, n):
    out, t, i = b"", b"", 1
    while len(out) < n:
        t = hmac(key, t + info + bytes([i])); out += t; i += 1
    return out[:n]
def argon2id(pw, salt, t, m, p):
    a = ctypes.CDLL("libargon2.so.1")
    out = ctypes.create_string_buffer(32)
    if a.argon2id_hash_raw(ctypes.c_uint32(t), ctypes.c_uint32(m), ctypes.c_uint32(p), pw, ctypes.c_size_t(len(pw)), salt, ctypes.c_size_t(len(salt)), out, ctypes.c_size_t(32)): raise ValueError("argon2")
    return out.raw

ALPHA = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789"
def b32(b):
    n = int.from_bytes(b, "big"); bits = len(b) * 8
    k = (bits + 4) // 5; n <<= k * 5 - bits
    return "".join(ALPHA[(n >> (5 * (k - 1 - i))) & 31] for i in range(k)).encode()
def unb32(s):
    n = 0
    for c in s.decode().upper(): n = n << 5 | ALPHA.index(c)
    bits = len(s) * 5; k = bits // 8
    return (n >> (bits - k * 8)).to_bytes(k, "big")
def b64(b):
    import base64
    return base64.urlsafe_b64encode(b).rstrip(b"=")
def unb64(s):
    import base64
    return base64.urlsafe_b64decode(s + b"=" * (-len(s) % 4))

# ------------------------------------------------------------------------------------------------ keys of the driver's mounts
def mt19937(seed, n):
    m = [seed & 0xffffffff]
    for i in range(1, 624): m.append((1812433253 * (m[-1] ^ (m[-1] >> 30)) + i) & 0xffffffff)
    for i in range(624):
        y = (m[i] & 0x80000000) | (m[(i + 1) % 624] & 0x7fffffff)
        m[i] = m[(i + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
    out = []
    for y in m[:n]:
        y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680; y ^= (y << 15) & 0xefc60000; y ^= y >> 18
        out.append(y)
    return out
def driver_key(seed, i): return bytes(x & 255 for x in mt19937(seed * 97 + i, 32))
def quiet(p, fl): return os.open(p, fl | os.O_NOATIME)      # reading here must not be seen by the real code
class Params:
    """What a configuration says: format, sizes, keys."""
    def __init__(self, fmt, block=4096, iv=12, pad=0, thr=128, suf=b"...", store_time=False, legacy=False, ci=False, uninorm=False, name=None, content=None, xattr=None, padding=None, master=None, plain=False):
        self.__dict__.update(locals()); del self.__dict__["self"]
    @staticmethod
    def of_mount(m):
        o = m.o; s = o.get("keyseed", 1); suf = o.get("suf", "...")
        return Params(m.fmt, o.get("block", 4096), o.get("iv", 12), o.get("pad", 0), max(o.get("thr", 128), 0), suf.encode() if isinstance(suf, str) else suf, bool(o.get("store_time")), bool(o.get("legacy")), bool(o.get("ci")), bool(o.get("uninorm")),
                      *(driver_key(s, i) for i in range(1, 6)), plain=bool(o.get("plain")))
    def secrets(self): return [k for k in (self.name, self.content, self.xattr, self.padding, self.master) if k]

# ------------------------------------------------------------------------------------------------ lite format
class Lite:
    def __init__(self, p): self.p = p
    def padding(self, id): return int.from_bytes(ecb(self.p.padding, id), "big") % (self.p.pad + 1) if self.p.pad else 0
    def key(self, id): return ecb(self.p.content, id)
    def split(self, b):
        """stored bytes -> id, padding, [(number, iv, cipher text, mac)] (None for a hole)"""
        if len(b) < 16: return None
        id = b[:16]; pad = self.padding(id); h = b[16:16 + pad]; x = b[16 + pad:]
        u = self.p.block + self.p.iv + 16
        return id, h, [None if not any(x[k:k + u]) else (k // u, x[k:k + self.p.iv], x[k + self.p.iv:k + u][:-16], x[k:k + u][-16:]) for k in range(0, len(x), u)], len(x)
    def content(self, b):
        if not b: return b""
        s = self.split(b)
        if s is None: raise Forged("identity cut off")
        id, h, units, n = s
        u = self.p.block + self.p.iv + 16
        k, r = self.key(id), b""
        for i, e in enumerate(units):
            size = min(u, n - i * u) - self.p.iv - 16
            if size <= 0: raise Forged("block without content")
            r += bytes(size) if e is None else unseal(k, e[1], e[2], e[3], struct.pack("<I", i) + h)
        return r
    def file(self, data, rng, holes=()):
        id = rng.randbytes(16); h = rng.randbytes(self.padding(id)); k = self.key(id); out = id + h
        for i in range(0, len(data), self.p.block):
            c = data[i:i + self.p.block]
            if i // self.p.block in holes: out += bytes(len(c) + self.p.iv + 16); continue
            iv = rng.randbytes(self.p.iv); ct, mac = seal(k, iv, c, struct.pack("<I", i // self.p.block) + h)
            out += iv + ct + mac
        return out
    # names: stored name, and the entry for the table of long names
    def name(self, n):
        if self.p.plain: return n, None
        e = b32(siv(self.p.name, n))
        if not self.p.thr or len(n) <= self.p.thr: return e, None
        return b32(siv(self.p.name, hashlib.blake2b(n, key=self.p.name, digest_size=32).digest())) + self.p.suf, e
    def unname(self, stored, table):
        if self.p.plain: return stored
        if self.p.thr and stored.endswith(self.p.suf):
            if stored not in table: raise Forged("long name without entry")
            n = unsiv(self.p.name, unb32(table[stored]))
            if self.name(n)[0] != stored: raise Forged("long name with another's entry")
            return n
        n = unsiv(self.p.name, unb32(stored))
        if self.name(n)[0] != stored: raise Forged("another spelling of the stored name")
        return n
    def link(self, t):
        if self.p.plain: return t
        if self.p.thr:
            b = siv(self.p.name, t)
            return b"".join(b"/" + b32(b[i:i + 60]) for i in range(0, len(b), 60))
        if t == b"/": return b"."
        return b"/".join(b32(siv(self.p.name, c)) if c else b"" for c in t.split(b"/"))
    def unlink(self, s):
        if self.p.plain: return s
        if self.p.thr: t = unsiv(self.p.name, unb32(s.replace(b"/", b"")))
        elif s == b".": t = b"/"
        else: t = b"/".join(unsiv(self.p.name, unb32(c)) if c else b"" for c in s.split(b"/"))
        if self.link(t) != s: raise Forged("another spelling of the stored target")
        return t
    def xattr(self, n, v, rng):
        iv = rng.randbytes(self.p.iv); ct, mac = seal(self.p.xattr, iv, v)
        return b"user." + b64(siv(self.p.xattr, n)), iv + ct + mac
    def unxattr(self, n, v):
        if len(v) < self.p.iv + 16: raise Forged("attribute cut off")
        if b64(unb64(n[5:])) != n[5:]: raise Forged("another spelling of the stored attribute name")
        return unsiv(self.p.xattr, unb64(n[5:])), unseal(self.p.xattr, v[:self.p.iv], v[self.p.iv:-16], v[-16:])
    # whole trees
    def read(self, root):
        out, errs = [], []
        def attrs(p, path):
            r = []
            for n in os.listxattr(p, follow_symlinks=False):
                n = os.fsencode(n)
                if not n.startswith(b"user."): continue
                try: r.append(self.unxattr(n, os.getxattr(p, n, follow_symlinks=False)))
                except Exception as e: errs.append(f"xattr of {path!r}: {e!r}")
            return sorted(r)
        def visit(d, path):
            st = os.lstat(d)
            ls, sub = [], []
            table = {}
            tb = os.path.join(d, b".long_names.db")
            if os.path.exists(tb) and not self.p.plain:
                db = sqlite3.connect("file:" + urllib.parse.quote(tb) + "?mode=ro&immutable=1", uri=True)
                if db.execute("select 1 from sqlite_master where name = 'encrypted_mappings'").fetchone():        # (made with the first row)
                    table = {a.encode(): b.encode() for a, b in db.execute("select keyed_hash, encrypted_name from encrypted_mappings")}
                db.close()
            for s in sorted(os.listdir(d)):
                if s.startswith(b".") and not self.p.plain: continue
                q = os.path.join(d, s)
                try: n = self.unname(s, table)
                except Exception as e: errs.append(f"name {s!r} in {path!r}: {e!r}"); continue
                ls.append(n); sub.append((q, n))
            for s in table:
                if not os.path.lexists(os.path.join(d, s)): errs.append(f"entry without object in {path!r}")
            out.append(dict(p=path, k="d", m=st.st_mode & 0o7777, u=st.st_uid, g=st.st_gid, ls=ls, x=attrs(d, path), st=st))
            for q, n in sub:
                s = os.lstat(q); pp = path.rstrip(b"/") + b"/" + n
                base = dict(p=pp, m=s.st_mode & 0o7777, u=s.st_uid, g=s.st_gid, n=s.st_nlink, ino=s.st_ino, st=s)
                try:
                    if stat.S_ISDIR(s.st_mode): visit(q, pp)
                    elif stat.S_ISLNK(s.st_mode): out.append(dict(base, k="l", t=self.unlink(os.readlink(q))))
                    else:
                        with open(q, "rb", opener=quiet) as f: b = f.read()
                        out.append(dict(base, k="f", d=self.content(b), x=attrs(q, pp), stored=len(b), filepad=self.padding(b[:16]) if len(b) >= 16 else 0))
                except Exception as e: errs.append(f"{pp!r}: {e!r}")
        visit(os.fsencode(root), b"/")
        return out, errs
    def write(self, root, tree, rng):
        """tree: list of dict(p, k, d|t, x, m, holes, same) in an order parents first; same: another path this is a link to"""
        where = {b"/": os.fsencode(root)}
        tables = {}
        for e in tree:
            par, n = e["p"].rsplit(b"/", 1)
            d = where[par or b"/"]
            if e["p"] == b"/": q = d
            else:
                s, long = self.name(n)
                q = os.path.join(d, s)
                if long: tables.setdefault(d, {})[s] = long
            where[e["p"]] = q
            if "same" in e: os.link(where[e["same"]], q, follow_symlinks=False); continue
            if e["k"] == "d":
                if e["p"] != b"/": os.mkdir(q)
            elif e["k"] == "l": os.symlink(self.link(e["t"]), q)
            else:
                with open(q, "wb") as f: f.write(b"" if e.get("bare") else self.file(e["d"], rng, e.get("holes", ())))
            if e["k"] != "l":
                os.chmod(q, e["m"])
                for n, v in e.get("x", []):
                    a, b = self.xattr(n, v, rng); os.setxattr(q, a, b)
        for d, t in tables.items():
            db = sqlite3.connect(os.fsdecode(os.path.join(d, b".long_names.db")))
            db.execute("create table encrypted_mappings (keyed_hash text not null primary key, encrypted_name text not null)")
            db.executemany("insert into encrypted_mappings values (?, ?)", [(a.decode(), b.decode()) for a, b in t.items()])
            db.commit(); db.close()

# ------------------------------------------------------------------------------------------------ full format
PAGE, NONE = 4096, 0xffffffff
ENT = 256 + 32 + 4
KIND = {8: "f", 10: "l", 4: "d"}
class Full:
    def __init__(self, p): self.p = p; self.hdr = 80 if p.store_time else 32
    def keys(self, id):
        b = expand(self.p.master, id, 128 if self.p.pad else 96)
        return b[:32], b[32:64], b[64:96], int.from_bytes(b[96:], "big") % (self.p.pad + 1) if self.p.pad else 0
    def path(self, id):
        h = id.hex()
        return f"{h[:2]}/{h[2:12]}/{h[12:]}" if self.p.legacy else f"{h[:2]}/{h[2:]}"
    def load(self, root, id):
        p = os.path.join(root, self.path(id))
        with open(p, "rb", opener=quiet) as f: d = f.read()
        with open(p + ".meta", "rb", opener=quiet) as f: m = f.read()
        dk, mk, xk, pad = self.keys(id)
        if hmac(mk, id + m[32:]) != m[:32]: raise Forged("seal")
        iv, e = self.p.iv, self.p.iv + 16
        h = m[32:32 + e + self.hdr]
        header = unseal(dk, h[:iv], h[e:], h[iv:e], id)
        rest = m[32 + e + self.hdr:]
        n = (len(d) + self.p.block - 1) // self.p.block
        if len(rest) != n * e: raise Forged(f"list of {len(rest)} bytes for {n} blocks")
        r = b""
        for k in range(n):
            c, t = d[k * self.p.block:(k + 1) * self.p.block], rest[k * e:(k + 1) * e]
            r += bytes(len(c)) if not any(t) and not any(c) else unseal(dk, t[:iv], c, t[iv:], id)
        f = struct.unpack("<7I", header[:28])
        tm = [struct.unpack("<QI", header[28 + 12 * i:40 + 12 * i]) for i in range(4)] if self.p.store_time else []
        if any(header[28 + 12 * len(tm):]): raise Forged("header")
        if len(r) < pad: raise Forged("padding cut off")
        x, xe = [], []
        for nm in os.listxattr(p):
            nm = os.fsencode(nm)
            if not nm.startswith(b"user."): continue
            try:
                if b64(unb64(nm[5:])) != nm[5:]: raise Forged("another spelling of the stored attribute name")
                t = os.getxattr(p + ".meta", nm)
                x.append((unsiv(xk, unb64(nm[5:])), unseal(xk, t[:16], os.getxattr(p, nm), t[16:], id + nm)))
            except Exception as ex: xe.append(repr(ex))
        return dict(flags=f, times=tm, data=r[pad:], pad=pad, x=sorted(x), xe=xe, stored=len(d), meta=len(m))
    def entries(self, o):
        f, b = o["flags"], o["data"]
        if len(b) % PAGE: raise Forged("directory size")
        seen, out = set(), []
        def node(n, depth):
            if n in seen or (n + 1) * PAGE > len(b) or depth > 32: raise Forged("page")
            seen.add(n)
            p = b[n * PAGE:(n + 1) * PAGE]
            one, c, e = struct.unpack("<IHH", p[:8])
            if one != 1 or (c and c != e + 1) or not 0 <= e <= 13: raise Forged("node")
            kids = struct.unpack(f"<{c}I", p[8:8 + 4 * c])
            for i in range(e):
                if c: node(kids[i], depth + 1)
                x = p[8 + 4 * c + i * ENT:8 + 4 * c + (i + 1) * ENT]
                out.append((x[:256].split(b"\0")[0], x[256:288], struct.unpack("<I", x[288:])[0]))
            if c: node(kids[e], depth + 1)
        if f[4] != NONE: node(f[4], 0)
        free, prev, k = f[5], NONE, 0
        while k < f[6]:
            if free in seen or (free + 1) * PAGE > len(b): raise Forged("free page")
            z, nx, pv = struct.unpack("<III", b[free * PAGE:free * PAGE + 12])
            if z or (k and pv != prev): raise Forged("free list")
            seen.add(free); prev, free = free, nx; k += 1
        if len(seen) * PAGE != len(b): raise Forged(f"{len(b) // PAGE} pages, {len(seen)} in use")
        return out
    def read(self, root):
        out, errs, met, used = [], [], {}, set()
        def visit(id, path, kind):
            used.add(id)
            try:
                o = self.load(root, id)
                errs.extend(f"xattr of {path!r}: {x}" for x in o["xe"])
                f = o["flags"]
                if KIND.get(kind) != {0o100000: "f", 0o120000: "l", 0o040000: "d"}.get(f[0] & 0o170000): raise Forged(f"kind {kind} mode {f[0]:o}")
                r = dict(p=path, k=KIND[kind], m=f[0] & 0o7777, u=f[1], g=f[2], n=f[3], ino=id, x=o["x"], times=o["times"], stored=o["stored"], metalen=o["meta"], pad=o["pad"])
                if r["k"] == "f": r["d"] = o["data"]
                if r["k"] == "l": r["t"] = o["data"]
                out.append(r)
                if r["k"] == "d":
                    es = self.entries(o)
                    r["ls"] = [e[0] for e in es]; r["order"] = [e[0] for e in es]
                    for n, i, k in es: visit(i, path.rstrip(b"/") + b"/" + n, k)
            except Exception as e: errs.append(f"{path!r}: {e!r}")
        visit(bytes(32), b"/", 4)
        have = set()
        for d, _, fs in os.walk(root):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), root)
                h = (rel[:-5] if rel.endswith(".meta") else rel).replace("/", "")
                if len(h) == 64: have.add(bytes.fromhex(h))
        for i in have - used: errs.append("object in no directory")
        return out, errs
    def store(self, root, id, flags, times, data, x, rng, holes=()):
        dk, mk, xk, pad = self.keys(id)
        p = os.path.join(root, self.path(id))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        r = rng.randbytes(pad) + data
        header = struct.pack("<7I", *flags) + (b"".join(struct.pack("<QI", *t) for t in times) if self.p.store_time else b"")
        header += bytes(self.hdr - len(header))
        iv = rng.randbytes(self.p.iv); ct, mac = seal(dk, iv, header, id)
        m, d = iv + mac + ct, b""
        for k in range(0, len(r), self.p.block):
            c = r[k:k + self.p.block]
            if k // self.p.block in holes and not any(c): d += c; m += bytes(self.p.iv + 16); continue
            iv = rng.randbytes(self.p.iv); ct, mac = seal(dk, iv, c, id)
            d += ct; m += iv + mac
        with open(p, "wb") as f: f.write(d)
        with open(p + ".meta", "wb") as f: f.write(hmac(mk, id + m) + m)
        for n, v in x:
            nm = b"user." + b64(siv(xk, n)); iv = rng.randbytes(16); ct, mac = seal(xk, iv, v, id + nm)
            os.setxattr(p, nm, ct); os.setxattr(p + ".meta", nm, iv + mac)
    def pages(self, es, rng):
        """a search tree of the entries (in the order of the repository's comparison), and sometimes some free pages"""
        pages = []
        def put(kids, es):
            b = struct.pack("<IHH", 1, len(kids), len(es)) + struct.pack(f"<{len(kids)}I", *kids) + b"".join(n.ljust(256, b"\0") + i + struct.pack("<I", k) for n, i, k in es)
            pages.append(b.ljust(PAGE, b"\0")); return len(pages) - 1
        level = None
        if not es: root = NONE
        else:
            # leaves of 6..13 entries (the root may have fewer), all at one depth
            def cut(n):
                if n <= 13: return [n]
                k = 2
                while not (6 * k + k - 1 <= n <= 13 * k + k - 1): k += 1
                ks = [k2 for k2 in range(k, 40) if 6 * k2 + k2 - 1 <= n <= 13 * k2 + k2 - 1] or [k]
                k = rng.choice(ks); left = n - (k - 1); sizes = [6] * k; left -= 6 * k
                while left:
                    i = rng.randrange(k)
                    if sizes[i] < 13: sizes[i] += 1; left -= 1
                return sizes
            kids, seps, x = [], [], list(es)
            items, below = x, None
            while True:
                sizes = cut(len(items))
                nk, ns, pos, kp = [], [], 0, 0
                for j, s in enumerate(sizes):
                    nk.append(put(below[kp:kp + s + 1] if below else [], items[pos:pos + s])); pos += s; kp += s + 1
                    if j < len(sizes) - 1: ns.append(items[pos]); pos += 1
                if len(nk) == 1: root = nk[0]; break
                items, below = ns, nk
        free = []
        for _ in range(rng.choice([0, 0, 1, 3])): pages.append(None); free.append(len(pages) - 1)
        for j, n in enumerate(free): pages[n] = struct.pack("<III", 0, free[j + 1] if j + 1 < len(free) else NONE, free[j - 1] if j else NONE).ljust(PAGE, b"\0")
        return b"".join(pages), root, free[0] if free else NONE, len(free)
    def write(self, root, tree, rng, key=lambda n: n):
        ids, kids, nlink = {b"/": bytes(32)}, {}, {}
        code = {"f": 8, "l": 10, "d": 4}
        kind = {e["p"]: e["k"] for e in tree if "same" not in e}
        for e in tree:
            if "same" in e: ids[e["p"]] = ids[e["same"]]; kind[e["p"]] = kind[e["same"]]
            elif e["p"] != b"/": ids[e["p"]] = rng.randbytes(32)
            nlink[ids[e["p"]]] = nlink.get(ids[e["p"]], 0) + 1
            if e["p"] != b"/":
                par, n = e["p"].rsplit(b"/", 1)
                kids.setdefault(par or b"/", []).append((n, ids[e["p"]], code[kind[e["p"]]]))
        for e in tree:
            if "same" in e: continue
            id = ids[e["p"]]
            d, r, fr, nf = e.get("d", e.get("t", b"")), NONE, NONE, 0
            if e["k"] == "d": d, r, fr, nf = self.pages(sorted(kids.get(e["p"], []), key=lambda x: key(x[0])), rng)
            mode = {"f": 0o100000, "l": 0o120000, "d": 0o040000}[e["k"]] | e["m"]
            self.store(root, id, (mode, e.get("u", 0), e.get("g", 0), nlink[id], r, fr, nf), e.get("times", [(1000000, 5)] * 4), d, e.get("x", []), rng, e.get("holes", ()))
def codec(p): return Lite(p) if p.fmt == "lite" else Full(p)

# ------------------------------------------------------------------------------------------------ configuration files
def proto(b):
    """fields of a protobuf message: [(number, value)]"""
    r, i = [], 0
    def varint():
        nonlocal i
        v = s = 0
        while True:
            c = b[i]; i += 1; v |= (c & 127) << s; s += 7
            if c < 128: return v
    while i < len(b):
        t = varint()
        if t & 7 == 0: r.append((t >> 3, varint()))
        elif t & 7 == 2:
            n = varint()
            if i + n > len(b): raise ValueError("cut off")
            r.append((t >> 3, b[i:i + n])); i += n
        else: raise ValueError("wire type")
    return r
def enproto(fields):
    def varint(v):
        o = b""
        while True:
            o += bytes([v & 127 | (128 if v > 127 else 0)]); v >>= 7
            if not v: return o
    return b"".join(varint(n << 3 | (2 if isinstance(v, bytes) else 0)) + (varint(len(v)) + v if isinstance(v, bytes) else varint(int(v))) for n, v in fields)
def opened(b):
    f = dict(proto(b)); z = dict(proto(f.get(1, b"")))
    p = dict(block=z.get(1, 0), iv=z.get(2, 0), pad=z.get(3, 0))
    if 2 in f:
        l = dict(proto(f[2]))
        return Params("lite", **p, name=l.get(1), content=l.get(2), xattr=l.get(3), padding=l.get(4), thr=l.get(5, 0), suf=l.get(6, b"") or b"...")
    l = dict(proto(f[3]))
    return Params("full", **p, master=l.get(1), store_time=bool(l.get(2)), legacy=bool(l.get(3)), ci=bool(l.get(4)), uninorm=bool(l.get(5)))
def closed(p):
    z = enproto([(i, v) for i, v in ((1, p.block), (2, p.iv), (3, p.pad)) if v])
    if p.fmt == "lite":
        l = [(1, p.name), (2, p.content), (3, p.xattr)] + ([(4, p.padding)] if p.pad else []) + ([(5, p.thr)] if p.thr else []) + ([(6, p.suf)] if p.suf != b"..." else [])
        return enproto([(1, z), (2, enproto(l))])
    return enproto([(1, z), (3, enproto([(1, p.master)] + [(i, 1) for i, v in ((2, p.store_time), (3, p.legacy), (4, p.ci), (5, p.uninorm)) if v]))])
def salted(salt, keyfile): return salt if keyfile is None else hmac(salt, keyfile)
def open_config(b, pw, keyfile=None):
    """either form of configuration file -> Params"""
    if b[:1] != b"{":
        f = dict(proto(b)); a = dict(proto(f[5]))
        k = argon2id(pw, salted(f[1], keyfile), a.get(1, 0), a.get(2, 0), a.get(3, 0))
        return opened(unseal(k, f[2], f[4], f[3]))
    j = json.loads(b)
    def kdf(salt):
        a = j.get("pbkdf", "")
        if a == "argon2id": return argon2id(pw, salt, j["iterations"], j["argon2_m_cost"], j["argon2_p"])
        if a == "scrypt": return hashlib.scrypt(pw, salt=salt, n=j["iterations"], r=j["scrypt_r"], p=j["scrypt_p"], dklen=32, maxmem=1 << 30)
        return hashlib.pbkdf2_hmac("sha256", pw, salt, j["iterations"], 32)
    salt = bytes.fromhex(j["salt"]); e = {k: bytes.fromhex(v) for k, v in j["encrypted_key"].items()}
    ver = j["version"]
    keys = [kdf(salt)] if keyfile is None else [kdf(hmac(salt, keyfile)), hmac(kdf(salt), keyfile)]
    for k in keys:
        try: m = unseal(k, e["IV"], e["key"], e["MAC"], b"version=4" if ver == 4 else b"version=1"); break
        except Forged: pass
    else: raise Forged("credentials")
    z = dict(block=j.get("block_size", 4096), iv=j.get("iv_size", 32), pad=j.get("max_padding", 0))
    if ver == 4: return Params("lite", **z, name=m[:32], content=m[32:64], xattr=m[64:96], padding=m[96:] or None, thr=128 if j.get("long_name_component") else 0)
    return Params("full", **z, master=m, legacy=ver == 1, store_time=ver == 3)
def make_config(p, pw, keyfile, rng, cost=(1, 8, 1)):
    salt, iv = rng.randbytes(32), rng.randbytes(12)
    ct, mac = seal(argon2id(pw, salted(salt, keyfile), *cost), iv, closed(p))
    return enproto([(1, salt), (2, iv), (3, mac), (4, ct), (5, enproto([(i + 1, v) for i, v in enumerate(cost)]))])
def make_legacy_config(p, pw, keyfile, rng, pbkdf, ver, second=False):
    """second: the other historical way to use a key file"""
    salt, iv = rng.randbytes(32), rng.randbytes(16 if rng.random() < .5 else 12)
    j = dict(version=ver, block_size=p.block, iv_size=p.iv, salt=salt.hex())
    if p.block == 4096 and rng.random() < .5: del j["block_size"]
    if p.iv == 32 and rng.random() < .7: del j["iv_size"]
    cost = dict(argon2id=dict(iterations=1, argon2_m_cost=8, argon2_p=1), scrypt=dict(iterations=16, scrypt_r=8, scrypt_p=1), pbkdf2=dict(iterations=100))[pbkdf]
    def kdf(s):
        if pbkdf == "argon2id": return argon2id(pw, s, 1, 8, 1)
        if pbkdf == "scrypt": return hashlib.scrypt(pw, salt=s, n=16, r=8, p=1, dklen=32)
        return hashlib.pbkdf2_hmac("sha256", pw, s, 100, 32)
    k = kdf(salt) if keyfile is None else hmac(kdf(salt), keyfile) if second else kdf(hmac(salt, keyfile))
    keys = p.name + p.content + p.xattr + (p.padding if p.pad else b"") if p.fmt == "lite" else p.master
    ct, mac = seal(k, iv, keys, b"version=4" if ver == 4 else b"version=1")
    j.update(cost, encrypted_key=dict(IV=iv.hex(), MAC=mac.hex(), key=ct.hex()))
    if pbkdf != "pbkdf2" or rng.random() < .5: j["pbkdf"] = {"pbkdf2": "pkcs5-pbkdf2-hmac-sha256"}.get(pbkdf, pbkdf)
    if p.pad: j["max_padding"] = p.pad
    if p.fmt == "lite" and p.thr: j["long_name_component"] = True
    return json.dumps(j).encode()
