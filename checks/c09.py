"""Altered names, directories and metadata.  Bases: histories with directories of several B-tree pages, links, attributes on files and directories, long names, replaced and renamed entries, with byte images of two moments.  Full format: every part of
every directory, link, header, checksum list and attribute flipped, erased, replaced by any equally long part of the same or other objects and of the older image, cut, extended, emptied, deleted; objects exchanged.  Lite format: stored names altered, cut,
exchanged, moved, copied, duplicated in other case, foreign names; the table of long names (rows exchanged, altered, deleted, foreign, the file damaged); link targets altered, cut to every length, exchanged, recombined; attributes altered, exchanged,
renamed, foreign.  After each alteration, and after random combinations, the repository is mounted and read completely, twice.  Judged by TLC against TamperTrace."""
from common import *
from tamper import *
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["alterations are made while the repository is not mounted", "the lite format binds names, link targets and attribute values to the repository, not to their place, and leaves kinds, modes and owners to the stored files",
               "a removed entry of the lite format, an older state of an object of the full format and the removal of the root directory are not noticed", "cryptographic primitives are those of Crypto++; keys are not known to whoever alters"]
BIG = [f"k{i:02}" for i in range(30)]
TG = {"t1": b"x", "t2": b"../a/b", "t4": "ünï→code \n tab\t".encode(), "t6": b"%s%d\xff\xfe\x01", "t7": b"q/r/s", "t8": b"u/v/ww", "t9": b"z" * 60}
def names(long): return Names({**{x: x for x in ["a", "d", "fa", "fb", "e", "g", "l1", "l2", "l3", "l4", "n", "o", "m"] + BIG}, **{f"N{i}": long_name(f"N{i}", n) for i, n in enumerate([150, 170, 220, 200, 230, 222] if long else [20, 30, 40, 50, 60, 70])}})
def history(m):
    lite = m.fmt == "lite"
    A = ("mkdir d;mkdir e 700;create 1 a;write 1 0 30 1;release 1;create 1 d/fa 600;write 1 0 200 2;release 1;create 1 d/fb;release 1;symlink t1 l1;symlink t2 d/l2;symlink t7 l3;symlink t4 l4;"
         "create 1 d/N0;release 1;create 1 d/N1;write 1 0 9 3;release 1;mkdir e/N2;create 1 N3;release 1;symlink t8 N5;"
         "setxattr a user.x v 20;setxattr a user.y v 20;setxattr d/fa user.x w 20;setxattr d user.x z 33;setxattr a user.z u 0;setxattr N3 user.x L 300")
    B = ("rename d/fb e/fb;create 1 n;write 1 0 30 4;release 1;rename n a;setxattr a user.x p 20;setxattr a user.y q 20;setxattr d/fa user.x r 20;chmod d/fa 640;chmod d 711;unlink l4;symlink t6 l4;rename d/N0 d/N4;symlink t9 o;symlink t8 g;"
         "rename N3 e/N3;create 1 e/N0;release 1")
    if not lite:
        A += ";mkdir m;" + ";".join(f"create 1 m/{x};release 1" for x in BIG[:24])
        B += ";" + ";".join(f"unlink m/{x}" for x in BIG[3:9]) + ";" + ";".join(f"create 1 m/{x};release 1" for x in BIG[24:]) + ";link a m/a;rename m/k20 m/k03"
    return A, B
AFTER = "open 1 d/fa r;read 1 0 200;release 1;readlink l1;readlink d/l2;getxattr d/fa user.x 100;open 2 e/fb r;release 2"
B32 = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789"

def xattr_cases(base, rng):
    out = []
    img = base.img[1][0]
    files = []
    for r in sorted(base.where[1]):
        for f in ((r, r + ".meta") if base.full else (r,)):
            if not os.path.islink(f"{img}/{f}") and xat(f"{img}/{f}"): files.append(f)
    allx = [(n, f, k, v) for n in (0, 1) for r in base.where[n] for f in ((r, r + ".meta") if base.full else (r,)) if not os.path.islink(f"{base.img[n][0]}/{f}") for k, v in xat(f"{base.img[n][0]}/{f}").items()]
    for f in files:
        X = xat(f"{img}/{f}")
        for k, v in X.items():
            for i in sorted({0, 11, 12, 15, 16, len(v) // 2, len(v) - 17, len(v) - 16, len(v) - 1}):
                if 0 <= i < len(v): out.append([("xset", f, k, v[:i] + bytes([v[i] ^ (1 << rng.randrange(8))]) + v[i + 1:])])
            for n in sorted({0, 1, base.iv, base.iv + 15, base.iv + 16, base.iv + 17, 31, 32, len(v) - 1}):
                if n < len(v): out.append([("xset", f, k, v[:n])])
            out += [[("xset", f, k, bytes(len(v)))], [("xset", f, k, v + b"\0")], [("xset", f, k, v + v)], [("xset", f, k, None)]]
            i = rng.randrange(5, len(k))
            k2 = k[:i] + (rng.choice([c for c in B32 if c != k[i]]) if i > 5 else "_") + k[i + 1:]
            out += [[("xset", f, k, None), ("xset", f, k2, v)], [("xset", f, k2, v)], [("xset", f, k[:-1], v)], [("xset", f, k.lower() if k.lower() != k else k.upper(), v)], [("xset", f, "user.plain", v)], [("xset", f, "user.", v)], [("xset", f, "user.A", v)]]
            for n, g, k3, v3 in allx:
                if v3 != v and f.endswith(".meta") == g.endswith(".meta"):
                    pr = [("xset", f, k, v3)]
                    if base.full:            # the other half as well, or not
                        o = lambda q: q[:-5] if q.endswith(".meta") else q + ".meta"
                        w = xat(f"{base.img[n][0]}/{o(g)}").get(k3)
                        if w is not None: out.append(pr + [("xset", o(f), k, w)])
                    out.append(pr)
                    if k3 != k: out.append([("xset", f, k3, v3)])
    return out

def name_cases(base, rng):
    out = []
    W = base.where[1]
    R = sorted(r for r in W if r != ".")
    dirs = sorted(r for r in W if W[r][0][1] == "d")
    suf = base.mount.o.get("suf", "...")
    J = lambda d, n: n if d in (".", "") else f"{d}/{n}"
    for r in R:
        d, n = os.path.split(r)
        body = n[:-len(suf)] if n.endswith(suf) else n
        tail = n[len(body):]
        var = []
        for i in sorted({0, 1, len(body) // 2, len(body) - 2, len(body) - 1} | {rng.randrange(len(body)) for _ in range(3)}):
            if 0 <= i < len(body): var.append(body[:i] + rng.choice([c for c in B32 if c != body[i]]) + body[i + 1:] + tail)
        for v in (body[:-1] + tail, body[:len(body) // 2] + tail, body + "A" + tail, body.lower() + tail, body + tail + suf, body, body + suf, body[:27], body[:26], body[1:] + tail, body + body, "0" + body[1:], "L" + body[1:], body[:5] + "-" + body[5:]):
            # (a long name without its suffix is shown under its hash: see CUT)
            if v and v != n and not (tail and v == body): var.append(v)
        for v in var:
            out += [[("mv", r, J(d, v))], [("cp", r, J(d, v))]] if W[r][0][1] != "d" else [[("mv", r, J(d, v))]]
        if W[r][0][1] != "d":
            out.append([("del", r)])
            for q in dirs:
                if q != (d or "."): out += [[("mv", r, J(q, n))], [("cp", r, J(q, n))]]
        else:
            out.append([("mv", r, J(q, n))for q in dirs[:1]])
        for q in R:
            if q > r and not q.startswith(r + "/"): out.append([("swap", r, q)])
    for q in dirs:
        for v in ["junk", ".x", "A" * 26, "A" * 28, "B" * 60, "C" * 200, "x" + suf, "D" * 52 + suf, suf, "é", "%", "=", "AAAAAAAA", "-" * 30, "\udcff\udcfe", "a b", ".securefs.json2", ".long_names2"] + ["".join(rng.choice(B32) for _ in range(k)) for k in (26, 28, 30, 39, 52, 100)]:
            out.append([("mk", J(q, v), rng.randbytes(rng.choice([0, 5, 16, 60])))])
    # the tables of long names
    T = [J(q, TABLE) for q in dirs if os.path.exists(f"{base.img[1][0]}/{J(q, TABLE)}")]
    old = [J(q, TABLE) for q in sorted(r for r in base.where[0] if base.where[0][r][0][1] == "d") if os.path.exists(f"{base.img[0][0]}/{J(q, TABLE)}")]
    for t in T:
        c = sqlite3.connect(f"{base.img[1][0]}/{t}"); c.text_factory = bytes
        tn = c.execute("select name from sqlite_master where type='table'").fetchall()[0][0].decode()
        rows = c.execute(f"select keyed_hash, encrypted_name from {tn}").fetchall()
        c.close()
        size = os.path.getsize(f"{base.img[1][0]}/{t}")
        out += [[("del", t)], [("raw", t, b"junk" * 50)], [("trunc", t, 0)], [("trunc", t, size // 2)], [("trunc", t, 100)], [("raw", t, bytes(size))]]
        out += [[("whole", t, 1, u)] for u in T if u != t] + [[("whole", t, 0, u)] for u in old]
        for _ in range(12): out.append([("flip", t, rng.randrange(size), rng.randrange(8))])
        up = f"update {tn} set encrypted_name = ? where keyed_hash = ?"
        out += [[("sql", t, [(f"delete from {tn}", ())])], [("sql", t, [(f"drop table {tn}", ())])], [("sql", t, [(f"alter table {tn} rename to other", ())])]]
        for h, v in rows:
            h, v = bytes(h), v.decode() if isinstance(v, bytes) else v
            for i in (0, 1, len(v) // 2, len(v) - 1): out.append([("sql", t, [(up, (v[:i] + rng.choice([c for c in B32 if c != v[i]]) + v[i + 1:], h))])])
            for w in (v[:-1], v[:27], v[:26], v[:3], "", v + "AA", v.lower(), "!" * 20, b"\xff\xfe" * 30, 5): out.append([("sql", t, [(up, (w, h))])])
            for h2, v2 in rows:
                if h2 != h: out += [[("sql", t, [(up, (v2.decode() if isinstance(v2, bytes) else v2, h))])], [("sql", t, [(up, (v2.decode() if isinstance(v2, bytes) else v2, h)), (up, (v, bytes(h2)))])]]
            out += [[("sql", t, [(f"delete from {tn} where keyed_hash = ?", (h,))])], [("sql", t, [(f"update {tn} set keyed_hash = ? where keyed_hash = ?", (h[:-1] + bytes([h[-1] ^ 1]), h))])]]
    # link targets
    links = [(r, os.readlink(f"{base.img[1][0]}/{r}")) for r in R if W[r][0][1] == "l"]
    older = [os.readlink(f"{base.img[0][0]}/{r}") for r in base.where[0] if base.where[0][r][0][1] == "l"]
    comps = sorted({c for t in [x for _, x in links] + older for c in t.split("/") if c} | {os.path.basename(r) for r in R if len(os.path.basename(r)) < 60 and not r.endswith(suf)})
    for r, t in links:
        for i in sorted({0, 1, 25, 26, 27, len(t) // 2, len(t) - 2, len(t) - 1} | {rng.randrange(len(t)) for _ in range(4)}):
            if 0 <= i < len(t): out.append([("lnk", r, t[:i] + rng.choice([c for c in B32 + "/" if c != t[i]]) + t[i + 1:])])
        out += [[("lnk", r, t[:k])] for k in (range(1, len(t)) if len(t) < 100 else sorted(rng.sample(range(1, len(t)), 30)))]
        out += [[("lnk", r, t[k:])] for k in sorted(rng.sample(range(1, len(t)), min(8, len(t) - 1)))]
        for w in [t + "A", t + "/A", t + "/" + t, t + "/", "/" + t, t.lower(), "A", "AA", "A" * 25, "A" * 26, "A" * 27, "A" * 40, "../../etc/passwd", "/etc/passwd", ".", "..", "/", "plain", "x" * 4000, "é", "\udcff", "A/B/C", "======", t[:10] + "/" + t[10:]] + [x for _, x in links if x != t] + older + comps:
            out.append([("lnk", r, w)])
        for _ in range(12): out.append([("lnk", r, "/".join(rng.choice(comps) for _ in range(rng.choice([2, 2, 3]))))])
    return out

def compose(b):
    """targets that are made of known components get aliases too"""
    comps = {c for t in TG.values() for c in t.split(b"/")} | set(b.names.real.values())
    b.targets = dict(b.targets, **{a: x for a, x in b.names.real.items()})
    if b.mount.o.get("legacy") or b.mount.o.get("thr") == 0: b.composed, b.comps = ["composed"], comps
def run(ck):
    full = [Mount("full", block=4096, store_time=1), Mount("full", block=64)]
    lite = [Mount("lite", block=64), Mount("lite", block=64, legacy=1), Mount("lite", block=64, thr=0, iv=16)]
    full += ck.n([], [Mount("full", block=64, legacy=1), Mount("full", block=64, pad=30, store_time=1), Mount("full", block=512, iv=32)])
    lite += ck.n([], [Mount("lite", block=64, thr=60, suf=".ln"), Mount("lite", block=64, pad=50)])
    full.append(Mount("full", block=64, cli=1)); lite.append(Mount("lite", block=64, cli=1))
    bases, S = [], []
    for bi, m in enumerate(full + lite, 1):
        tg = dict(TG)
        b = Base(m, names(m.fmt == "lite" and m.o.get("thr") != 0), *history(m), targets=tg, xnames=["user.x", "user.y", "user.z"], tag=m.desc())
        bases.append(b)
        if m.fmt == "lite": compose(b)
        rng = ck.rng("alter", bi)
        W = b.where[1]
        if b.full:
            kinds = {r: es[0][1] for r, es in W.items()}
            some_files = sorted(r for r in kinds if kinds[r] == "f" and not any(p[:1] == ["m"] for p, _, _ in W[r]))
            rels = sorted(r for r in kinds if kinds[r] != "f") + some_files + sorted(r for r in kinds if kinds[r] == "f" and r not in some_files)[:3]
            one = content_singles(b, rels, rng)
            moves = block_moves(b, rels, rng)
            # objects exchanged
            ex = [[("swap", r, q), ("swap", r + ".meta", q + ".meta")] for r in rels for q in rels if r < q]
            groups = [("object", one, ck.n(900, 100000)), ("pages", moves, ck.n(250, 30000)), ("exchange", ex, ck.n(100, 10000)), ("attribute", xattr_cases(b, rng), ck.n(250, 100000))]
        else:
            groups = [("name", name_cases(b, rng), ck.n(1100, 100000)), ("attribute", xattr_cases(b, rng), ck.n(250, 100000))]
        for label, L, k in groups:
            ck.count("alterations_known", len(L))
            if m.o.get("cli"): k = ck.n(k // 4, k)
            if len(L) > k: L = rng.sample(L, k)
            C = cases(ck, b, bi, L, ck.n(50, 2000), label)
            for c in C: c.after = AFTER
            S += C
    judge(ck, bases, S)

    # two things that the formats cannot tell (known findings), each by itself
    m = Mount("full", block=64)
    b = Base(m, plain_names("l", "a"), "create 1 a;release 1", "symlink t l", targets={"t": b"abcdefgh" * 25}, xnames=[], tag="linkcut")
    r = next(r for r, es in b.where[1].items() if es[0][1] == "l")
    known(ck, b, "linkcut", [("trunc", r, 128)])
    m = Mount("lite", block=64)
    b = Base(m, names(True), "create 1 a;release 1", "create 1 N0;release 1", targets={}, xnames=[], tag="suffixcut")
    r = next(r for r in b.where[1] if r.endswith("..."))
    known(ck, b, "suffixcut", [("mv", r, r[:-3])])
def known(ck, b, key, prims):
    judge(ck, [b], [Case(b, 1, key, lambda d: apply(b, d, prims))], key=key)
