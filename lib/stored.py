"""Events for LayoutTrace: what the independent reader finds in a data directory, and trees put there by the independent writer."""
import unicodedata
from tree import *
from layout import *

def pattern(tag, off, n):
    if tag == 0: return bytes(n)
    b = bytes((tag << 4) | k for k in range(13))
    s = off % 13
    return (b * (n // 13 + 2))[s:s + n]
def runs_of(b, off=0):
    out, i, n = [], 0, len(b)
    def tag(k):
        c = b[k]
        if c == 0: return 0
        return c >> 4 if (c & 15) == (off + k) % 13 and c >> 4 else 99
    while i < n:
        t, j = tag(i), i + 1
        if t == 99:
            while j < n and tag(j) == 99: j += 1
        else:
            step = 512
            while j < n and step:
                m = min(step, n - j)
                if b[j:j + m] == pattern(t, off + j, m): j += m
                elif m == 1: break
                else: step = m // 2
                if step == 0: step = 1
        out.append([j - i, t]); i = j
    return out
def render_runs(rs):
    r = b""
    for n, t in rs: r += pattern(t, len(r), n)
    return r

class Reader:
    """turns decoded entries into the fields of a stored event"""
    def __init__(self, names, targets, vals, content=None):
        self.names, self.targets, self.vals, self.content = names, {v: k for k, v in targets.items()}, vals, content
    def event(self, params, root, now=0):
        e = {**DEFAULTS, "op": "stored", "now": f"{now}.{NSEC:09d}", "r": "OK", "snap": [], "errs": [], "objs": []}
        try: out, errs = codec(params).read(root)
        except Exception as x: e["r"] = repr(x)[:300]; return e
        e["errs"] = [x[:300] for x in errs]
        try: self.fill(e, params, out)
        except Exception as x: e["r"] = f"what is stored is incomplete: {x!r} {errs[:2]}"[:300]
        return e
    def fill(self, e, params, out):
        inos, kinds = {}, {o["p"]: o["k"] for o in out}
        full = params.fmt == "full"
        T = lambda t: f"{t[0] - (1 << 64) if t[0] >> 63 else t[0]}.{t[1]:09d}"
        ST = lambda ns: f"{ns // 10**9}.{ns % 10**9:09d}"
        for o in out:
            p = self.names.unpath(o["p"])
            s = {"p": p, "k": o["k"], "m": o["m"], "u": o["u"], "g": o["g"], "n": o.get("n", 0), "ino": inos.setdefault(o.get("ino", o["p"]), len(inos) + 1), "hasx": "x" in o, "d": [], "t": "", "ls": []}
            s["x"] = [[n.decode("latin-1"), self.vals.get(v) or "?" + v.hex()[:60]] for n, v in o.get("x", [])]
            s["s"] = 0
            if o["k"] == "f": s["d"] = self.content(o["d"]) if self.content else runs_of(o["d"]); s["s"] = len(o["d"])
            if o["k"] == "l": s["t"] = self.targets.get(o["t"], "?" + o["t"].hex()[:100]); s["s"] = len(o["t"])
            if o["k"] == "d": s["ls"] = [[self.names.of(n), kinds.get(o["p"].rstrip(b"/") + b"/" + n, "?")] for n in o["ls"]]
            if full and params.store_time: s["at"], s["mt"], s["ct"] = (T(t) for t in o["times"][:3])
            else: s["at"] = s["mt"] = s["ct"] = "?"
            e["snap"].append(s)
            order = [self.names.of(n) for n in o["order"]] if "order" in o else []
            if full: e["objs"].append({"p": p, "stored": o["stored"], "meta": o["metalen"], "pad": o["pad"], "len": o["stored"] - o["pad"], "order": order})
            elif o["k"] == "f" and "stored" in o:
                e["objs"].append({"p": p, "stored": o["stored"], "meta": 0, "pad": o["filepad"], "len": 0, "order": []})

def name_key(params):
    """the order of names in directories of the full format"""
    def key(b):
        if params.fmt == "full" and (params.ci or params.uninorm):
            s = b.decode()
            if params.uninorm: s = unicodedata.normalize("NFD", s)
            if params.ci: s = s.casefold()
            return s.encode()
        return b
    return key
def ranks(names, params):
    key = name_key(params)
    order = sorted(names.real, key=lambda a: key(names.real[a]))
    return {a: i for i, a in enumerate(order)}

class Made:
    """A random tree: the operations that describe it (for the specification) and the entries (for the writer)."""
    def __init__(self, rng, mount, names, targets, xnames, params, size=14, maxdepth=3, block=4096, crowd=0):
        st = params.fmt == "full" and params.store_time
        key = name_key(params)
        self.ops, self.tree, self.sh = [], [], Shadow(mount.canon)
        canon = lambda a: mount.canon.get(a, a)
        alln = [a for a in names.real if a not in mount.toolong]
        entries = {(): dict(p=b"/", k="d", m=0o755, x=[])}
        used = {(): set()}
        paths = {}
        def place():
            for _ in range(30):
                d = rng.choice([q for q in used if len(q) < maxdepth]); a = rng.choice(alln)
                if canon(a) not in used[d]: used[d].add(canon(a)); return d + (a,)
        def put(q, e):
            e["p"] = names.path(q); entries[q] = e
            par = self.sh.get(list(q[:-1])); n = Shadow.N(e["k"]); par.e[canon(q[-1])] = (q[-1], n)
            if e["k"] == "f": n.s = len(e["d"])
            return n
        spots = []
        if crowd:
            q = place(); used[q] = set(); put(q, dict(k="d", m=0o700, x=[])); self.ops.append(dict(op="mkdir", p=list(q), m=0o700))
            for a in rng.sample(alln, min(crowd, len(alln))):
                if canon(a) not in used[q]: used[q].add(canon(a)); spots.append(q + (a,))
        todo = spots + [None] * size
        for spot in todo:
            q = spot or place()
            if not q: continue
            k = "f" if spot and rng.random() < .8 else rng.choice("fffddll=")
            if k == "=":
                old = [o for o, e in entries.items() if e["k"] != "d"]
                if not old: k = "f"
                else:
                    o = rng.choice(old); e = entries[o]
                    while "same" in e: o = next(z for z, y in entries.items() if y["p"] == e["same"]); e = entries[o]
                    par = self.sh.get(list(q[:-1])); par.e[canon(q[-1])] = (q[-1], self.sh.get(list(o)))
                    entries[q] = dict(p=names.path(q), k=e["k"], same=e["p"])
                    self.ops.append(dict(op="link", p=list(o), q=list(q)))
                    continue
            m = rng.randrange(0o1000) | (0o700 if k == "d" else 0o400)
            if k == "d":
                used[q] = set(); put(q, dict(k="d", m=m, x=[])); self.ops.append(dict(op="mkdir", p=list(q), m=m))
            elif k == "l":
                t = rng.choice(list(targets)); put(q, dict(k="l", m=0o777, t=targets[t])); self.ops.append(dict(op="symlink", p=list(q), t=t))
            else:
                B, rs, pos, holes = block, [], 0, set()
                self.ops.append(dict(op="create", h=1, p=list(q), m=m))
                for _ in range(0 if spot and rng.random() < .5 else rng.choice([0, 1, 1, 2, 3, 5])):
                    n = rng.choice([1, 2, B - 1, B, B + 1, rng.randrange(1, 2 * B + 2), 2 * B, 3 * B]); t = rng.choice([0] + list(range(1, 16)))
                    rs.append([n, t])
                    if t: self.ops.append(dict(op="write", h=1, off=pos, len=n, tag=t))
                    else: self.ops.append(dict(op="ftruncate", h=1, n=pos + n))
                    pos += n
                self.ops.append(dict(op="release", h=1))
                d = render_runs(rs)
                pad0 = 0
                e = dict(k="f", m=m, d=d, x=[])
                if params.fmt == "lite" and not d: e["bare"] = rng.random() < .3           # as after a crash: gets its identity when first opened, which shows in its times
                if params.fmt == "lite": e["holes"] = {k2 for k2 in range((len(d) + B - 1) // B) if not any(d[k2 * B:(k2 + 1) * B]) and rng.random() < .7}
                else: e["holes"] = {k2 for k2 in range((len(d) + 5000) // B + 2) if rng.random() < .7}
                put(q, e)
            if k != "l" and rng.random() < .5:
                for x in rng.sample(list(xnames), rng.randrange(1, len(xnames) + 1)) if xnames else []:
                    v = (rng.choice(["t1", "r1", "r2"]), rng.choice([1, 2, 17, 300]))
                    entries[q]["x"].append((x.encode("latin-1"), val_bytes(v))); self.ops.append(dict(op="setxattr", p=list(q), x=x, val=v, fl=0)); self.sh.get(list(q)).x[x] = v
        for q, e in entries.items():
            if "same" in e or not q: continue
            if e["k"] != "l" and rng.random() < .5:
                e["u"], e["g"] = rng.choice([0, 1, 1000, 65534]), rng.choice([0, 5, 65534]); self.ops.append(dict(op="chown", p=list(q), u2=e["u"], g2=e["g"]))
        self.stamped = []
        for q, e in entries.items():
            if "same" in e: continue
            a, b = [(rng.choice([0, 1, 86400, 1234567890, 1600000000, 2147483647, 4294967296, 2**40]) if st else rng.choice([1, 86400, 1234567890]), rng.choice([0, 1, 999999999])) for _ in "ab"]
            e["when"] = (a, b)
            if (st or params.fmt == "lite") and not e.get("bare"): self.ops.append(dict(op="utimens", p=list(q), exp=True, a=f"{a[0]}.{a[1]:09d}", b=f"{b[0]}.{b[1]:09d}")); self.stamped.append(e)
        self.tree = list(entries.values())
        self.st = st
    def events(self, script, clock=500000):
        ev, now = [], clock
        for op in self.ops:
            e = script.event(op, now)
            e["r"] = "OK"
            if op["op"] == "write": e["n"] = op["len"]
            if op["op"] == "utimens":
                x = next(x for x in self.stamped if x["p"] == script.names.path(op["p"]))
                x["times"] = [x["when"][0], x["when"][1], (now, NSEC), (77, 7)]
            ev.append(e); now += 1
        return ev
    def write(self, params, root, rng):
        c = codec(params)
        if params.fmt == "full":
            c.write(root, self.tree, rng, name_key(params)); return
        c.write(root, self.tree, rng)
        # ownership and times are those of the stored objects
        where = {}
        for e in self.tree:
            q = os.fsencode(root)
            if e["p"] != b"/":
                for n in e["p"].split(b"/")[1:]: q = os.path.join(q, c.name(n)[0])
            where[e["p"]] = q
            if "same" not in e and ("u" in e): os.chown(q, e["u"], e["g"], follow_symlinks=False)
            if "same" not in e and e["k"] != "l" : os.chmod(q, e["m"])
        for e in reversed(self.tree):
            if "same" in e: continue
            a, b = e["when"]
            os.utime(where[e["p"]], ns=(a[0] * 10**9 + a[1], b[0] * 10**9 + b[1]), follow_symlinks=False)
