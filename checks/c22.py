"""Changing the suffix of long names with the command line program.  Cases: (1) random trees (names of every length around the threshold, long-named directories inside each other, links, attributes) in repositories with several
thresholds and suffixes, migrated repeatedly to suffixes of every shape (ending with the old one, longest, one character, looking like other files of the repository), the underlying listings in six different orders, with all
operations continued after each migration; (2) requests that must be refused (wrong password, wrong key file, full format, unusable suffixes, symbolic links in a repository without long names), which must leave every byte as it was;
(3) the process dies before, after or in the middle of every storage call of the migration, or the call fails once or lastingly, once or repeatedly, then it is repeated; (4) repositories without long name support.  The protocol
(deepest first, a transaction per table, the configuration last) is model checked with a crash or failure between any two steps; five deviating designs must fail.  Judged by TLC against MigrateTrace."""
import copy
import zlib
from common import *
from config import ConfigScript
LEVEL = "model_checking"
ASSUMPTIONS = ["nobody has the repository mounted during a migration", "an interrupted migration is repeated with the same suffix before the repository is used", "key derivation runs with small Argon2 costs"]
FAST = ["--argon2-t", "1", "--argon2-m", "8", "--argon2-p", "1"]
def digest(d):
    h = hashlib.sha256()
    for b, ds, fs in os.walk(d):
        ds.sort()
        for n in sorted(ds + fs):
            p = os.path.join(b, n)
            h.update(os.fsencode(os.path.relpath(p, d)) + b"\0")
            if os.path.islink(p): h.update(os.fsencode(os.readlink(p)))
            elif os.path.isfile(p): h.update(open(p, "rb").read())
    return h.hexdigest()
class Migration(Script):
    """ops with {"op": "remount", "do": [{"op": "migrate", "suf", "cred", "inj", "order"}, {"op": "info"}]}"""
    def __init__(self, *a, cred=("pw", "none"), opts=(), pre=(), **k):
        super().__init__(*a, **k)
        self.cred, self.opts = cred, list(opts)
        self.between = self.events
    def dump(self): return {**super().dump(), "opts": self.opts}
    def creds(self, c):
        r = ["--pass", c[0]] if c[0] else []
        if c[1] != "none":
            p = os.path.join(self.side, c[1])
            if not os.path.exists(p):
                with open(p, "wb") as f: f.write(c[1].encode() * 7)
            r += ["--keyfile", p]
        return r
    def cli(self, *a): return "cli " + " ".join(enc(x) for x in a)
    def info(self, d):
        o, rc, se = run_driver([self.cli("info", *self.creds(self.cred), "--unmask", d)], timeout=60)
        if not o or o[0]["r"] != 0: return None
        return ConfigScript.par(self, dec(o[0]["out"]).decode())
    def num(self, k): return self.nums.setdefault(k, len(self.nums) + 1)
    def run(self, **k):
        self.side = fresh("side"); self.nums = {}; self.muts = []
        if self.cred[1] != "none":
            self.creds(self.cred)
        self.mount = self.mount.but(**({"pass": self.cred[0]} if self.cred[0] else {}), **({"keyfile": os.path.join(self.side, self.cred[1])} if self.cred[1] != "none" else {}), **({"cli": 1} if zlib.crc32(self.tag.encode()) % 2 else {}))
        t = super().run(**k)
        drop(self.side)
        return t
    def events(self, d, op):
        if op is None:
            o, rc, se = run_driver([self.cli("create", *self.creds(self.cred), *FAST, *self.opts, d)], timeout=60)
            return [{"op": "made", "r": "OK" if o and o[0]["r"] == 0 else "NO", "par": self.info(d)}]
        ev = []
        for x in op.get("do", []):
            if x["op"] == "info":
                p = self.info(d)
                ev.append({"op": "info", "r": "OK" if p else "NO", "par": p or {}}); continue
            before = digest(d)
            inj = x.get("inj")
            lines = [f"dirorder {x.get('order', 0)}"] + ([inj] if inj else []) + [self.cli("migrate-long-name", *self.creds(x.get("cred", self.cred)), *FAST, *(["--long-name-suffix", x["suf"]] if x.get("suf") is not None else []), d), "disarm"]
            o, rc, se = run_driver(lines, timeout=60)
            k = 2 if inj else 1
            e = {"op": "migrate", "s": {"t": x["suf"] if x.get("suf") is not None else ".ll"}, "right": x.get("cred", self.cred) == self.cred, "fault": bool(inj) and inj.startswith("fault"), "thr": 0}
            b = os.fsencode(e["s"]["t"])
            e["s"].update(len=len(b), slash=b"/" in b, plain=all(c in b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" for c in b))
            if len(o) <= k: e["r"] = "CRASH" if rc == 77 else f"DIED {rc} {se[-300:]}"
            else:
                e["r"] = "OK" if o[k]["r"] == 0 else "NO" if -9000 < o[k]["r"] < 128 or o[k]["r"] == -9995 else f"DIED {o[k]['r']}"
                self.muts.append(o[k + 1].get("count", 0) if len(o) > k + 1 else 0)
            e["same"] = digest(d) == before
            if e["r"] == "OK": e["thr"] = (self.info(d) or {"thr": 0})["thr"]
            ev.append(e)
        return ev
def mg(suf, **k): return dict(op="migrate", suf=suf, **k)
INFO = dict(op="info")
def between(*a): return {"op": "remount", "do": list(a)}
M0 = Mount("lite", cfg="{d}/.config.pb")
SUFS = [".x", "..", ".ll", "...", ".a.ll", "x", "~", ".pb", ".db", ".json", "a b", "\u00fc", "0a", "z" * 178, "-" * 60, "%s", "'; --", ".LL", "=", ".X1", "abc", ".securefs.long_names.db"]
BAD = ["", "A", "7", "ABC234", "a/b", "/", "y" * 179, "q" * 300, "2" * 178, "0", "1", "8Q9"]
NAMES = Names({"a": b"a", "b": b"b", "L1": long_name("L1", 129), "L2": long_name("L2", 105), "L3": long_name("L3", 200), "L4": long_name("L4", 255), "L5": long_name("L5", 150), "s90": long_name("s", 90), "m60": long_name("m", 60), "m51": long_name("n", 51)})
W = dict(create=14, mkdir=12, unlink=5, rmdir=3, link=6, rename=14, symlink=4, release=10, write=8, setxattr=3, chmod=2, ls=2)
def opts_of(rng):
    thr = rng.choice([128, 128, 50, 10, 1]); suf = rng.choice([".ll", ".ll", "..", "x.x", ".q"])
    return ["--format", "lite", "--block-size", rng.choice(["256", "4096"]), "--long-name-threshold", str(thr), "--long-name-suffix", suf] + (["--max-padding", "30"] if rng.random() < .2 else []), thr, suf
DEEP = "mkdir L1;mkdir L1/L3;mkdir L1/L3/L4;mkdir L1/L3/L4/L5;create 1 L1/L3/L4/L5/L2;write 1 0 700 3;release 1;create 1 L1/L3/L4/L5/L1;write 1 5 20 4;release 1;create 1 L1/L3/a;release 1;mkdir a;mkdir a/L5;create 1 a/L5/L4;release 1;link a/L5/L4 a/L3;symlink t1 L1/L5;create 1 L4;release 1;mkdir b;mkdir b/m60;create 1 b/m60/L1;release 1;unlink b/m60/L1"
FLAT = "mkdir L1;mkdir L3;create 1 L1/L4;write 1 0 700 3;release 1;create 1 L2;release 1;mkdir a;create 1 a/L5;release 1;link a/L5 L1/L2;symlink t1 L5"
def run(ck):
    for design, good in (("good", True), ("anyorder", False), ("unchecked", False), ("twice", False), ("nonstale", False), ("configfirst", False)):
        path = fresh_path("mc") + ".cfg"
        with open(path, "w") as f: f.write(f'SPECIFICATION Spec\nINVARIANT Complete\nINVARIANT NotStuck\n{"PROPERTY Finally" if good else ""}\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Design = "{design}"\n  MaxBreaks = {ck.n(4, 7)}\n')
        out, rc = tlc("Migrate", path)
        if ("is violated" in out) == good: raise Broken(f"Migrate {design}:\n" + out[-2000:])
        s, d = tlc_stats(out); ck.states += d; ck.transitions += s
        ck.cov.setdefault("models", {})["Migrate-" + design] = {"states": d, "transitions": s, "violated_as_it_should": not good}
    S = []
    LT = {k: v[:1500] for k, v in LINKS.items()}
    # (1) random trees
    for i in range(ck.n(160, 3000)):
        rng = ck.rng("rand", i)
        opts, thr, suf = opts_of(rng)
        g = Gen(rng, M0, NAMES, W, xnames=["user.x"], targets=LT, block=256, maxdepth=3, strictdepth=True)
        ops = []
        for r in range(rng.randint(1, 4)):
            ops += [g.op() for _ in range(rng.randint(8, 30))] + [{"op": "snap"}]
            g.sh.h.clear()
            new = rng.choice([x for x in SUFS if len(x) < 61])
            if rng.random() < .25 and len(suf) < 30: new = rng.choice([suf + suf, "." + suf, suf + "x", suf])
            do = [mg(new, order=rng.randrange(6)), INFO]
            if rng.random() < .3: do.insert(0, mg(rng.choice(BAD), order=rng.randrange(6)))
            if rng.random() < .2: do.insert(0, mg(new, cred=(rng.choice(["p", "", "pww"]), rng.choice(["k1", "k2"]))))
            suf = new
            ops += [between(*do), {"op": "snap"}]
        ops += [dict(op=x) for x in ("remount", "snap")]
        S.append(Migration(M0, NAMES, ops, targets=LT, xnames=["user.x"], tag=f"rand{i}", opts=opts, cred=rng.choice([("pw", "none"), ("pw", "k1"), ("", "k1")])))
    # every suffix, every order, on a deep tree
    for k, suf in enumerate(SUFS):
        for order in ck.n([k % 6, (k + 3) % 6], range(6)):
            S.append(Migration(M0, NAMES, ops_of(DEEP if len(suf) < 34 else FLAT) + [{"op": "snap"}, between(mg(suf, order=order), INFO), {"op": "snap"}] + ops_of("create 2 L1/L3;release 2;rename L1/L2 a/L1;rename L3 a/L2;unlink a/L5;create 2 a/L3;release 2;snap") + [between(mg(".7x" if k % 2 else "yy", order=order), mg(".ll"), INFO), {"op": "snap"}],
                               targets=LT, tag=f"deep-{suf[:20]}-{order}", opts=["--format", "lite", "--long-name-suffix", [".ll", "l", ".x"][k % 3]] + (["--long-name-threshold", "50"] if k % 2 else [])))
    # (2) refusals
    for k, suf in enumerate(BAD):
        S.append(Migration(M0, NAMES, ops_of(DEEP) + [{"op": "snap"}, between(mg(suf), INFO), {"op": "snap"}], targets=LT, tag=f"bad-{suf[:20]}"))
    for c in [("pw2", "none"), ("", "k1"), ("pw", "k1")]:
        S.append(Migration(M0, NAMES, ops_of(DEEP) + [{"op": "snap"}, between(mg(".x", cred=c), INFO), {"op": "snap"}], targets=LT, tag=f"badcred-{c}"))
    full = Mount("full", cfg="{d}/.config.pb")
    for suf in (".x", ".ll", "A", "", None):
        S.append(Migration(full, NAMES, ops_of(DEEP) + [{"op": "snap"}, between(mg(suf), INFO), {"op": "snap"}], targets=LT, tag=f"full-{suf}", opts=["--format", "full"]))
    # (4) repositories without long names
    short = Names({"a": b"a", "b": b"b", "c": long_name("c", 100), "d": long_name("d", 127), "e": long_name("e", 128), "f": long_name("f", 129), "g": long_name("g", 142), "h": long_name("h", 143), "L": long_name("L", 200)})
    for top in "cdefgh":
        use = "abcdefgh"["abcdefgh".index(top):] if False else "abc" + top
        text = "mkdir a;" + "".join(f"create 1 {x};write 1 0 {30 + i} {i + 1};release 1;mkdir a/{x};create 1 a/{x}/{x};release 1;" for i, x in enumerate(sorted(set(use) - {"a"})))
        for j, suf in enumerate([".ll", "", "x", None]):
            S.append(Migration(M0, short, ops_of(text) + [{"op": "snap"}, between(mg(suf, order=j), INFO), {"op": "snap"}] + ops_of(f"create 2 L;release 2;create 2 a/{top}/L;release 2;rename L a/L;rename a/{top} {'h' if top != 'h' else 'g'};snap") + [between(mg(".new"), INFO), {"op": "snap"}],
                               targets=LT, tag=f"nolong-{top}-{suf}", opts=["--format", "lite", "--long-name-threshold", "0"]))
        for suf in ("A", "a/b", "q" * 179):
            S.append(Migration(M0, short, ops_of(text) + [{"op": "snap"}, between(mg(suf), INFO, mg(".ok"), INFO), {"op": "snap"}], targets=LT, tag=f"nolong-bad-{top}-{suf[:5]}", opts=["--format", "lite", "--long-name-threshold", "0"]))
    S.append(Migration(M0, short, ops_of("mkdir a;symlink t1 a/c;create 1 b;release 1;snap") + [between(mg(".ll"), INFO), {"op": "snap"}] + ops_of("unlink a/c") + [between(mg(".ll"), INFO), {"op": "snap"}], targets=LT, tag="nolong-links", opts=["--format", "lite", "--long-name-threshold", "0"]))
    ck.scripts(S, module="MigrateTrace")
    ck.part("migrations")
    # (3) interruptions
    S, total = [], 0
    after = ops_of("snap;create 2 L1/L3/L2;release 2;rename L1/L3/L4 a/L1;snap") 
    bases = [(ops_of(DEEP), [], ".ll.ll", 3), (ops_of(DEEP), ["--long-name-suffix", "zzz"], ".n", 1)]
    if not ck.quick: bases += [(ops_of(DEEP), [], "x", 2), (ops_of(DEEP), ["--long-name-threshold", "1"], "x.ll", 4)]
    kinds = ["crash {}", "crash {} after", "crash {} torn", "fault {} 28 1 0", "fault {} 5 1 1", "fault {} 28 99 0"] + ck.n([], ["fault {} 13 2 0", "fault {} 5 3 0", "fault {} 30 99 1"])
    for b, (mk, o, suf, order) in enumerate(bases):
        opts = ["--format", "lite", "--block-size", "256"] + o
        probe = Migration(M0, NAMES, mk + [between(mg(suf, order=order, inj="count")), {"op": "snap"}], targets=LT, opts=opts, tag="probe")
        probe.run(); n = probe.muts[-1]; total += n
        for kind in kinds:
            for p in range(1, n + (12 if kind.endswith(" 1") else 1)):
                rng = ck.rng("pt", b, kind, p)
                again = [mg(suf, order=rng.randrange(6))]
                if rng.random() < .5: again.insert(0, mg(suf, order=rng.randrange(6), inj=kind.format(rng.randint(1, n))))
                S.append(Migration(M0, NAMES, mk + [between(mg(suf, order=order, inj=kind.format(p)), INFO, *again, INFO)] + after, targets=LT, opts=opts, tag=f"break{b}-{kind.format(p)}"))
    ck.count("storage_calls_interrupted", total)
    ck.scripts(S, module="MigrateTrace")
    ck.part("interruptions")
    # the longer suffix makes the path of a table exceed what SQLite accepts (known finding)
    deep = Names({"d": long_name("d", 150), "e": long_name("e", 150), "x": long_name("x", 200)})
    ck.scripts([Migration(M0, deep, ops_of("mkdir d;mkdir d/e;create 1 d/e/x;release 1;snap") + [between(mg("y" * 170)), {"op": "snap"}], tag="deep")], module="MigrateTrace", key="table-path-beyond-512-bytes")
