"""Lite format namespace with long names.  Cases: (1) every transition of the exhaustively explored TreeMC model, the model's two or three
names mapped to short/short, short/long and long/long names, under several thresholds and suffixes; (2) seeded random scripts over
names of lengths around the threshold and up to 2000 bytes, snapshots and remounts, every name-handling mode; (3) corner scripts;
(4) data directories with foreign files.  Judged by TLC against FileTree."""
from common import *
from c02 import CORNERS, big_dir
LEVEL = "model_checking"
ASSUMPTIONS = ["with plain text names every file of the data directory is shown, the configuration file too if it is kept there", "the mode bits of symbolic links are not constrained", "a foreign file inside a directory makes removing that directory fail in the underlying file system; foreign files are only placed where no directory is removed",
               "long names below a missing parent are resolved by the kernel first"]
def namesets():
    return {"ss": Names({"a": b"a", "b": b"bb"}), "sl": Names({"a": b"a", "b": long_name("b", 200)}), "ll": Names({"a": long_name("a", 150), "b": long_name("b", 400)})}
LENS = {"d": [1, 5, 50, 90, 100, 110, 125, 126, 127, 128, 129, 130, 200, 255, 600], "t10": [1, 2, 8, 9, 10, 11, 12, 30, 100, 300], "leg": [1, 5, 16, 17, 50, 100, 130], "plain": [1, 5, 100, 128, 129, 200, 255]}
def modes():
    return [("d", Mount("lite", block=256)), ("t10", Mount("lite", block=256, thr=10, suf="..ln")), ("leg", Mount("lite", block=256, thr=-1)), ("leg", Mount("lite", block=256, thr=0, suf=".x")),
            ("d", Mount("lite", block=4096, suf=".verylongsuffix_0123456789")), ("plain", Mount("lite", block=256, plain=1)), ("t10", Mount("lite", block=256, thr=10, suf="_")), ("d", Mount("lite", block=256, pad=40)),
            ("d", Mount("lite", block=256, cli=1)), ("t10", Mount("lite", block=256, thr=10, suf="..ln", cli=1))]
FOREIGN = [b".securefs.json", b".securefs.pb", b"._x", b".DS_Store", b"foreign", b"FOREIGN.TXT", b"abcdefghij234567", b"x..securefs-long", b"x.securefs-long-name", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.ln",
           b"0", b"not base32!", b"z" * 200, b"mzxw6ytboi======", b".hidden", b"..long_names.db.swp"]
def run(ck):
    S = []
    ops = tset("mk", "mkdir", "symlink", "link", "unlink", "rmdir", "rename", "ls", "getattr", "readlink")
    base = dict(OpSet=ops, MaxNodes="2", Fmt='"lite"')
    deep = dict(OpSet=tset("mk", "mkdir", "link", "unlink", "rmdir", "rename"), MaxNodes="3", Fmt='"lite"')
    ns = namesets()
    S += tour_scripts(ck, "tree-sl3", deep, Mount("lite", block=256), ns["sl"])
    for k in ("ll", "ss"): S += tour_scripts(ck, f"tree-{k}", base if ck.quick else deep, Mount("lite", block=256) if k != "ss" else Mount("lite", block=256, thr=-1), ns[k])
    S += tour_scripts(ck, "tree-plain", base, Mount("lite", block=256, plain=1), ns["ss"])
    if not ck.quick:
        S += tour_scripts(ck, "tree-sl4", {**deep, "MaxNodes": "4"}, Mount("lite", block=256), ns["sl"])
        S += tour_scripts(ck, "tree-t10", deep, Mount("lite", block=256, thr=10, suf="..ln"), ns["sl"])
        S += tour_scripts(ck, "tree-sll", dict(NameSet=tset("a", "b", "c"), OpSet=tset("mk", "mkdir", "link", "unlink", "rmdir", "rename"), MaxNodes="2", Fmt='"lite"'), Mount("lite", block=256),
                          Names({"a": b"a", "b": long_name("b", 200), "c": long_name("c", 200)}))
    md = modes()
    for kind, m in md[:ck.n(6, 8)]:
        for lens in ({"d": [(1, 200, 129, 5), (300, 2, 200, 150)], "t10": [(1, 40, 60, 5), (40, 2, 100, 50)], "leg": [(1, 2, 3, 20)], "plain": [(1, 2, 200, 20)]}[kind]):
            nm = Names({x: long_name(x, n) if n > 1 else x.encode() for x, n in zip(("a", "b", "c", "mm"), lens)})
            S += handmade([m], nm, CORNERS, "corner" + "-".join(map(str, lens)))
    for i, n in enumerate(ck.n([60], [30, 120, 250])):
        for kind, m in (md[0], md[1]):
            t, names = big_dir(n, "rand")
            S += handmade([m], Names({"d": b"d", **{x: (long_name(x, 140 + j % 60) if j % 2 else x.encode()) for j, x in enumerate(names)}}), [t], f"big{n}", final="ls /;remount;ls /")
    for k, (kind, m) in enumerate(md):
        def names(m, rng, kind=kind):
            ls = rng.sample(LENS[kind], min(5, len(LENS[kind])))
            return long_names(sorted(ls), tag=f"{rng.randrange(1000)}")
        S += gen_scripts(ck, f"rand{k}", ck.n(70, 900), 70, [m], names, TREE_W, maxdepth=2 if kind in ("d", "leg") else 3)
    # foreign files in the root of the data directory
    F = []
    for k, (kind, m) in enumerate(md):
        if kind == "plain" or m.o.get("cli"): continue
        G = gen_scripts(ck, f"foreign{k}", ck.n(12, 120), 40, [m], lambda m, rng, kind=kind: long_names(sorted(rng.sample(LENS[kind], 4)), tag=f"{rng.randrange(1000)}"), {**TREE_W, "remount": 3, "ls": 12}, maxdepth=2)
        for j, s in enumerate(G):
            r = ck.rng("ff", k, j)
            picks = r.sample(FOREIGN, r.randrange(1, 8))
            def prep(d, seg, picks=picks, r=r):
                for x in picks:
                    p = os.path.join(os.fsencode(d), x)
                    if not os.path.lexists(p):
                        if len(x) % 5 == 0: os.mkdir(p)
                        else: open(p, "wb").write(b"foreign")
            s.prepare = prep
        F += G
    S += F
    ck.count("scripts_with_foreign_files", len(F))
    ck.scripts(S)
    # the table of long names of a directory is opened by its full path: SQLite refuses paths beyond 512 bytes (known finding)
    m, D = Mount("lite", block=256), Names({"d": long_name("d", 128), "e": long_name("e", 128), "x": long_name("x", 200), "s": b"s"})
    deep = handmade([m], D, ["mkdir d;mkdir d/e;create 1 d/e/s;release 1;ls d/e;create 1 d/e/x;release 1;ls d/e"], "deep")
    ck.scripts(deep, key="long-name-below-deep-directory")
    # an open directory handle keeps the path it was opened with (known finding)
    moved = handmade([m], Names({"d": b"d", "e": b"e", "x": long_name("x", 200), "y": b"y"}), ["mkdir d;create 1 d/x;release 1;create 1 d/y;release 1;opendir 2 d;rename d e;readdir 2;ls e"], "moved")
    ck.scripts(moved, key="readdir-after-rename-of-directory")
