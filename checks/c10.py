"""Confidentiality of what is stored.  NonceMC: all histories of writes, mounts and returns to an older copy of the data directory, for eight ways to choose nonces; all but fresh random ones must be shown to repeat.  Everything the real code writes (every
write to any file of the data directory, every attribute) is then recorded in histories of both formats: random ones; the same content written again and again, at other places and in other files; headers, attributes and truncations repeated;
several threads; continued from one copy of the data directory by two processes; configurations created and changed with the same credentials.  From the log every encryption is reconstructed with its nonce and cipher text, and everything written
is searched for contents, names, targets, attributes, keys and credentials, plain and encoded.  Judged by TLC against NonceTrace (nonces, halves and distances never repeat, nor do cipher texts, identities, salts; never more cipher texts than nonces)."""
from common import *
from nonce import *
LEVEL = "model_checking"
ASSUMPTIONS = ["encryptions are recognized where the format puts them (lib/layout.py)", "nonces that neither repeat, nor share halves, nor follow at equal distances, nor depend on the state of the repository are taken as random",
               "names and link targets of the lite format and names of attributes are encrypted deterministically by design (only searched for plaintext)", "blocks that were never written are stored as zeros by design"]
XN = ["user.canary-attribute-one", "user.another-secret-attr", "user.x" + "q" * 80]
W = {**ALL_W, "write": 24, "ftruncate": 6, "truncate": 5, "setxattr": 8, "chmod": 5, "read": 3, "remount": 0, "snap": 0.3, "ls": 1}
TG = {"t1": b"secret-target/of-a/link", "t2": b"/somewhere/else-entirely/" + b"xyz" * 30, "t3": "größer/als/nötig/für/einen/Test".encode()}
def mounts():
    return [Mount("full", block=256, store_time=1), Mount("lite", block=256), Mount("full", block=4096), Mount("lite", block=4096, thr=20), Mount("full", block=512, iv=16, store_time=1), Mount("lite", block=512, pad=64, iv=16), Mount("lite", block=256, thr=-1),
            Mount("full", block=128, iv=32, pad=50), Mount("lite", block=300, iv=32), Mount("lite", block=256, plain=1, pad=30), Mount("full", block=256, legacy=1), Mount("full", block=256, noverify=1), Mount("lite", block=256, noverify=1),
            Mount("full", block=256, cli=1), Mount("lite", block=256, cli=1)]
def names_for(m, rng):
    lens = [12, 16, 30, 60] + ([90] if m.o.get("thr", 128) <= 0 or m.o.get("plain") else [100, 128, 129, 200])
    d = {f"n{n}": "".join(rng.choice("abcdefghijklmnopqrstuvwxyz_-. ") for _ in range(n)).encode().replace(b".", b"o", 1) for n in lens}
    return Names({a: b"K" + b[1:] for a, b in d.items()})
REPEAT = ["create 1 {a};" + ";".join(f"write 1 {o} {n} 5" for o, n in [(0, 100), (0, 100), (0, 100), (300, 100), (0, 1000), (0, 1000), (256, 256), (512, 256), (0, 9000), (0, 9000), (4096, 4096), (0, 4096)]) + ";release 1;create 2 {b};write 2 0 9000 5;write 2 0 100 5;release 2;open 1 {a};write 1 0 9000 5;release 1",
          "create 1 {a};write 1 0 3000 3;" + ";".join(f"ftruncate 1 {n};ftruncate 1 3000;write 1 0 3000 3" for n in (0, 1, 255, 256, 257, 2000)) + ";release 1;truncate {a} 10;truncate {a} 10;open 2 {a};write 2 0 3000 3;release 2",
          "create 1 {a};release 1;mkdir {b};" + ";".join(f"chmod {p} {m}" for p in ("{a}", "{b}") for m in (600, 700, 600, 700, 644)) + ";" + ";".join("utimens {a} 5.0 5.0;utimens {b} 5.0 5.0" for _ in range(4)) + ";chown {a} 5 5;chown {a} 0 0;chown {a} 5 5",
          "create 1 {a};release 1;create 2 {b};release 2;" + ";".join(f"setxattr {p} {x} r1 {n}" for n in (20, 20, 300, 20) for p in ("{a}", "{b}") for x in XN) + ";" + ";".join(f"removexattr {{a}} {x};setxattr {{a}} {x} r1 20" for x in XN),
          "create 1 {a};write 1 0 20000 7;release 1;create 2 {b};write 2 0 20000 7;release 2;create 3 {c};write 3 0 20000 7;rename {a} {b};unlink {c};write 3 5 300 7;release 3;create 4 {c};write 4 0 20000 7;ftruncate 4 0;write 4 0 20000 7;release 4",
          "symlink t1 {a};unlink {a};symlink t1 {a};symlink t1 {b};rename {a} {b};mkdir {c};rename {b} {c}/{a};symlink t2 {c}/{b};unlink {c}/{a};unlink {c}/{b};rmdir {c};mkdir {c};create 1 {c}/{a};write 1 50000 9 2;write 1 100 1 2;write 1 100 1 2;release 1",
          "create 1 {a};write 1 0 10 1;write 1 10 10 1;write 1 20 10 1;write 1 30 10 1;write 1 300 10 1;write 1 310 10 1;fsync 1;flush 1;fsync 1;write 1 0 10 1;flush 1;release 1;open 1 {a};flush 1;fsync 1;release 1"]
class Tool(Record):
    """configurations made by the tool itself"""
    def canaries(self): return [("password", b"a long secret password"), ("password", b"another long password!!"), ("key file", b"contents of the key file " * 3)]
    def run(self):
        d = fresh("repo"); os.chmod(d, 0o755); log = fresh_path("wlog"); kf = fresh_path("kf")
        ev, used = [], None
        with open(kf, "wb") as f: f.write(b"contents of the key file " * 3)
        try:
            for i, (cmd, pw, k) in enumerate(self.segments):
                outs, rc, se = run_driver([f"wlog {log}", "cli " + cmd.format(d=d, kf=kf)], timeout=60)
                b = open(f"{d}/.config.pb", "rb").read()
                f = dict(proto(b))
                p = open_config(b, pw, open(kf, "rb").read() if k else None)
                w = Watch(p, self.canaries()); w.load(d); w.last = used
                w.begin(cmd.split()[0])
                for ln in open(log):
                    w.line(ln.rstrip("\n"))
                os.unlink(log)
                e = w.end(True)
                e["ivs"] = [[f[2].hex(), f[2][:6].hex(), "." + f[2][-6:].hex(), str(i)]]; e["heads"] = [f[4][:12].hex()]
                e["ids"] = [f[1].hex()[:24], "." + f[1].hex()[-24:]]
                if cmd.startswith("create"): e["ids"] += [k[:12].hex() for k in p.secrets()] + [k[-12:].hex() for k in p.secrets()]
                if len(f[3]) != 16: e["hits"].append("short MAC")
                ev += [e, w.final(d)]
                if self.remove and cmd.startswith("create"): os.unlink(f"{d}/.config.pb")
        finally:
            drop(d)
            for x in (log, kf):
                if os.path.exists(x): os.unlink(x)
        return {"id": self.tag, "ev": ev}
def tools(ck):
    A = "--argon2-t 1 --argon2-m 8 --argon2-p 1"
    pw, pw2 = b"a long secret password", b"another long password!!"
    C = lambda f, k="": f"create {{d}} --format {f} --pass {enc(pw)} {k} {A}"
    S = []
    for f in ("lite", "full", "lite --max-padding 30"):
        t = Tool(Mount(f[:4]), Names({}), [(C(f), pw, False)] * 5, tag=f"create {f}"); t.remove = True; S.append(t)
        ch = lambda a, b: f"chpass {{d}} --oldpass {enc(a)} --newpass {enc(b)} {A}"
        t = Tool(Mount(f[:4]), Names({}), [(C(f), pw, False), (ch(pw, pw), pw, False), (ch(pw, pw), pw, False), (ch(pw, pw2), pw2, False), (ch(pw2, pw), pw, False)], tag=f"chpass {f}"); t.remove = False; S.append(t)
        kf = f"chpass {{d}} --oldpass {enc(pw)} --oldkeyfile {{kf}} --newpass {enc(pw)} --newkeyfile {{kf}} {A}"
        t = Tool(Mount(f[:4]), Names({}), [(C(f, "--keyfile {kf}"), pw, True), (kf, pw, True), (kf, pw, True)], tag=f"keyfile {f}"); t.remove = False; S.append(t)
    return S
def histories(ck):
    S, ms = [], mounts()
    for i, m in enumerate(ms):
        for j, t in enumerate(REPEAT):
            if ck.quick and (i + j) % 2 and i > 3: continue
            rng = ck.rng("names", i, j); names = names_for(m, rng)
            a, b, c = rng.sample(list(names.real), 3)
            ops = ops_of(t.format(a=a, b=b, c=c))
            S.append(Record(m, names, [ops, [dict(op="snap")] + ops_of(t.format(a=c, b=a, c=b)), ("branch", 0), ops_of(t.format(a=c, b=a, c=b))], targets=TG, xnames=XN, tag=f"repeat{i}-{j}"))
    for i in range(ck.n(60, 750)):
        m = ms[i % len(ms)]; rng = ck.rng("rand", i); names = names_for(m, rng)
        g = Gen(rng, m, names, W, XN, targets=TG, block=m.o.get("block", 4096), maxdepth=2, xsizes=(8, 20, 300))
        one = [g.op() for _ in range(ck.n(40, 80))]
        g.sh.h.clear(); g.nexth = 1
        two = [g.op() for _ in range(ck.n(30, 60))]
        S.append(Record(m, names, [one, two, ("branch", 0), two, ("branch", 0), two], targets=TG, xnames=XN, tag=f"rand{i}"))
    for i in range(ck.n(15, 105)):
        m = ms[i % len(ms)]; rng = ck.rng("par", i); names = names_for(m, rng)
        al = list(names.real)
        T = []
        for t in range(3):
            h, p = 10 + t, al[t]
            T.append(ops_of(f"create {h} {p}") + [dict(op="write", h=h, off=rng.choice([0, 0, 256, 4096]), len=rng.choice([100, 256, 2000, 5000]), tag=4) for _ in range(12)] + [dict(op="setxattr", p=[p], x=XN[0], val=("r1", 20), fl=0) for _ in range(3)] + ops_of(f"release {h}"))
        S.append(Record(m, names, [[("par", T)], [("par", [[dict(o, op="open", flag="rw") if o["op"] == "create" else o for o in ops] for ops in T])]], xnames=XN, targets=TG, tag=f"par{i}"))
    return S
def run(ck):
    ck.model("NonceMC", workers=1)
    ck.part("model")
    S = tools(ck) + histories(ck)
    ck.scripts(S, module="NonceTrace", tries=3, forked=True, batch=400)
