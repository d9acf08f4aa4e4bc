"""Histories of the command line program on repository configurations, judged by ConfigTrace."""
import base64, itertools
from vlib import *

PWS = ["pw", "pw ", "Pw", "p", " ", "x" * 200, "\u00fc\u4e2d", "pw\t"]
KFS = {"none": None, "k1": b"key file one", "k1x": b"key file one\n", "empty": b"", "long": b"0123456789abcdef" * 400, "long2": b"0123456789abcdef" * 399 + b"0123456789abcdeX", "bin": bytes(range(256)),
       "huge": b"0123456789abcdef" * 20000, "huge2": b"0123456789abcdef" * 19999 + b"0123456789abcdeX", "huge3": b"0123456789abcdef" * 19999}
PLACE = {"pb": ".config.pb", "js": ".securefs.json"}
GOLD = os.path.join(VERIF, "golden", "reference")
KFREF = open(os.path.join(GOLD, "keyfile"), "rb").read()

class ConfigScript:
    """ops: dicts op, dir, at, cred, new, opts, inj, alter(bytes -> bytes)"""
    def __init__(self, ops, dirs=("D",), legacy=None, tag=""):
        self.ops, self.dirs, self.legacy, self.tag = ops, list(dirs), legacy or {}, tag
    def dump(self): return {"dirs": self.dirs, "legacy": self.legacy, "tag": self.tag, "ops": [{k: v for k, v in o.items() if k != "fn"} for o in self.ops]}
    # -- command lines
    def creds(self, c, p, k):
        pw, kf = c
        r = []
        if pw: r += [p, pw]
        if kf != "none": r += [k, os.path.join(self.base, "kf-" + kf)]
        return r
    def line(self, o):
        d = os.path.join(self.base, o["dir"])
        if o["op"] == "mount":
            pw, kf = o["cred"]
            return f"cmount dir={enc(d)} format=any nocreate=1" + (f" pass={enc(pw)}" if pw else "") + (f" keyfile={enc(os.path.join(self.base, 'kf-' + kf))}" if kf != "none" else "")
        a = [o["op"] if o["op"] != "migrate" else "migrate-long-name"]
        if o.get("at", "auto") != "auto": a += ["--config", os.path.join(d, PLACE[o["at"]])]
        if o["op"] == "create": a += self.creds(o["cred"], "--pass", "--keyfile") + o.get("opts", [])
        elif o["op"] == "info": a += self.creds(o["cred"], "--pass", "--keyfile") + ["--unmask"]
        elif o["op"] == "chpass": a += self.creds(o["cred"], "--oldpass", "--oldkeyfile") + self.creds(o["new"], "--newpass", "--newkeyfile")
        if o["op"] in ("create", "chpass"): a += sum([[f"--argon2-{x}", str(y)] for x, y in zip("tmp", o.get("argon", (1, 8, 1)))], [])
        return "cli " + " ".join(enc(x) for x in a + [d])
    def digs(self, files, x):
        r = {}
        for pl, f in PLACE.items(): r[pl] = self.num(("dig", files[f])) if f in files else 0
        return r, len([f for f in files if f not in PLACE.values() and f.startswith(".")])
    def num(self, k): return self.nums.setdefault(k, len(self.nums) + 1)
    def par(self, text):
        j = json.loads(text)
        s = j.get("size_params", {}); l = j.get("lite_format_params"); f = j.get("full_format_params")
        ks = [l.get(k, "") for k in ("name_key", "content_key", "xattr_key", "padding_key")] if l is not None else [f["master_key"]]
        z = l if l is not None else f
        return dict(fmt="lite" if l is not None else "full", block=s["block_size"], iv=s["iv_size"], pad=s["max_padding_size"], ci=bool(z.get("case_insensitive", False)), un=bool(z.get("unicode_normalization_agnostic", False)),
                    stt=bool(z.get("store_time", False)), lio=bool(z.get("legacy_file_table_io", False)), thr=z.get("long_name_threshold", -1), suf=z.get("long_name_suffix", ""),
                    klen=[len(base64.b64decode(k)) for k in ks], kd=len(set(ks)), key=self.num(("key", tuple(ks))))
    def run(self):
        self.base = fresh("cfg"); self.nums = {}; self.mutations = 0
        for n, b in list(KFS.items()) + [("ref", KFREF)]:
            if b is not None:
                with open(os.path.join(self.base, "kf-" + n), "wb") as f: f.write(b)
        init, expo = {}, {}
        for x in self.dirs:
            os.mkdir(os.path.join(self.base, x))
            init[x] = {pl: {"cred": ["", "none"], "par": 0, "dig": 0} for pl in PLACE}
            if x in self.legacy:
                src, cred = self.legacy[x]
                shutil.copy(os.path.join(GOLD, src), os.path.join(self.base, x, PLACE["js"]))
                init[x]["js"].update(cred=list(cred), par=1 + self.dirs.index(x))
        ev, lines, pend = [], [], []
        state = {x: {} for x in self.dirs}
        def digline(): return [f"dig {enc(os.path.join(self.base, x))}" for x in self.dirs]
        def files_now():
            o, rc, se = run_driver(digline())
            return {x: a["files"] for x, a in zip(self.dirs, o)}
        now = files_now()
        for x in self.dirs:
            for pl, v in self.digs(now[x], x)[0].items(): init[x][pl]["dig"] = v
        alt, saved = {x: False for x in self.dirs}, {}
        i = 0
        while i < len(self.ops):
            # a batch up to the next alteration
            j = i
            while j < len(self.ops) and (self.ops[j]["op"] != "alter" or j == i): j += 1
            if self.ops[i]["op"] == "alter":
                o = self.ops[i]; p = os.path.join(self.base, o["dir"], PLACE[o["pl"]])
                if "raw" in o or "fn" in o:
                    saved.setdefault(p, open(p, "rb").read())
                    b = bytes.fromhex(o["raw"]) if "raw" in o else o["fn"](saved[p])
                    o["raw"] = b.hex()
                    with open(p, "wb") as f: f.write(b)
                    same = b == saved[p]
                else:
                    with open(p, "wb") as f: f.write(saved[p])
                    same = True
                now = files_now()
                alt[o["dir"]] = not same
                ev.append({"op": "alter", "dir": o["dir"], "pl": o["pl"], "k": "alt", "back": int(same), "r": "OK", "junk": 0, "dig": {x: self.digs(now[x], x)[0] for x in self.dirs}})
                i += 1
                continue
            lines, marks = [], []
            for o in self.ops[i:j]:
                inj = o.get("inj")
                if inj: lines.append(inj)
                lines.append(self.line(o)); c = len(lines) - 1
                if inj: lines.append("disarm")
                if o["op"] == "mount": lines.append("umount")
                marks.append((c, len(lines)))
                lines += digline()
            outs, rc, se = run_driver(lines, timeout=60)
            done = 0
            for o, (c, q) in zip(self.ops[i:j], marks):
                e = {"op": o["op"], "dir": o["dir"], "at": o.get("at", "auto"), "cred": list(o["cred"]), "new": list(o.get("new", ("", "none"))), "bad": bool(o.get("bad", False)),
                     "fault": str(o.get("inj", "")).startswith("fault"), "lasting": " 99 " in str(o.get("inj", "")), "alt": alt[o["dir"]], "ask": o.get("ask", {"key": 0}), "par": {"key": 0}}
                done += 1
                if len(outs) <= c:
                    e["r"] = "CRASH" if rc == 77 else f"DIED {rc} {se[-300:]}"
                    now = files_now()
                else:
                    a = outs[c]
                    e["r"] = "OK" if a["r"] == 0 else "NO" if -9000 < a["r"] < 128 or a["r"] == -9995 else f"DIED {a['r']}"
                    if a["r"] == 0 and o["op"] == "info": e["par"] = self.par(dec(a["out"]).decode())
                    if o.get("inj") == "count": self.mutations = outs[c + 1].get("count", 0)
                    now = {x: b["files"] for x, b in zip(self.dirs, outs[q:q + len(self.dirs)])} if len(outs) >= q + len(self.dirs) else files_now()
                e["dig"] = {x: self.digs(now[x], x)[0] for x in self.dirs}
                e["junk"] = sum(self.digs(now[x], x)[1] for x in self.dirs if x == o["dir"])
                ev.append(e)
                if len(outs) <= c: break
            i += done
        t = {"id": self.tag, "dirs": self.dirs, "init": init, "ev": ev}
        drop(self.base)
        return t

def options(rng):
    """Options for create and what info must show."""
    fmt = rng.choice(["lite", "full", "lite", "full", "4", "2", "LITE"])
    lite = fmt.lower() in ("lite", "4")
    ask = dict(fmt="lite" if lite else "full", block=4096, iv=12, pad=0, ci=False, un=False, stt=False, lio=False, thr=128 if lite else -1, suf=".ll" if lite else "",
               klen=[32] * 4 if lite else [32], kd=4 if lite else 1, key=0)
    o = ["--format", fmt] if fmt != "lite" or rng.random() < .5 else []
    if rng.random() < .5: ask["block"] = rng.choice([64, 512, 4096, 65536]); o += ["--block-size", str(ask["block"])]
    if rng.random() < .4: ask["iv"] = rng.choice([12, 16, 32]); o += ["--iv-size", str(ask["iv"])]
    if rng.random() < .4: ask["pad"] = rng.choice([1, 64, 5000]); o += ["--max-padding", str(ask["pad"])]
    if lite:
        if rng.random() < .4:
            ask["thr"] = rng.choice([1, 50, 127, 200]); o += ["--long-name-threshold", str(ask["thr"])]
        elif rng.random() < .2: ask["thr"] = -1; o += ["--long-name-threshold", "0"]
        if rng.random() < .4: ask["suf"] = rng.choice([".x", "...", "-l", "zz"]); o += ["--long-name-suffix", ask["suf"]]
    else:
        if rng.random() < .5: ask["ci"] = True; o += ["--case", "insensitive"]
        if rng.random() < .5: ask["un"] = True; o += ["--uninorm", "insensitive"]
    return o, ask

def protofields(b):
    """Top level fields of a protobuf message: (tag byte offset, end offset, number, wire type, payload start)."""
    r, i = [], 0
    while i < len(b):
        s = i; t = b[i]; i += 1
        n, w = t >> 3, t & 7
        if w == 2:
            k, sh = 0, 0
            while True:
                c = b[i]; i += 1; k |= (c & 127) << sh; sh += 7
                if c < 128: break
            r.append((s, i + k, n, w, i)); i += k
        else:
            while b[i] >= 128: i += 1
            i += 1; r.append((s, i, n, w, s + 1))
    return r
