"""Life of content and storage.  Cases: (1) every transition of the exhaustively explored TreeMC model with two handles over create, open, release, link, unlink, rename, mkdir, rmdir,
writes and reads through handles of removed files, counting the objects in the data directory after every step; (2) seeded random scripts in both formats that keep handles of removed, replaced and renamed
files open, create and remove many files (evicting the cache of closed ones), count the stored objects, remount, and finally remove everything, also with requests that the kernel would refuse itself; (3) link count ladders.
Judged by TLC against FileTree: an object is stored exactly while it is linked or open."""
from common import *
LEVEL = "model_checking"
ASSUMPTIONS = ["objects are counted when no operation is running", "in the lite format the storage of an open file without name belongs to the underlying file system and is not counted"]
def counted(sc, every=1):
    out = []
    for i, o in enumerate(sc.ops):
        out.append(o)
        if o["op"] in ("create", "mkdir", "symlink", "unlink", "rmdir", "rename", "release", "link", "open", "remount", "releasedir") and i % every == 0: out.append({"op": "objects"})
    sc.ops = out + [{"op": "objects"}]
    return sc
def churn(n, fmt):
    """many files at once: handles of some removed ones stay open while the others leave the cache"""
    t = ["mkdir d"]
    for i in range(n): t += [f"create {i + 1} d/f{i}", f"write {i + 1} 0 300 {i % 15 + 1}"] + ([f"release {i + 1}"] if i % 5 else [])
    t += ["objects"]
    for i in range(n): t += [f"unlink d/f{i}"] if i % 3 else [f"link d/f{i} g{i}", f"unlink d/f{i}"]
    t += ["objects"]
    for i in range(0, n, 5): t += [f"read {i + 1} 0 400", f"fgetattr {i + 1}", f"write {i + 1} 100 50 9"]
    for i in range(0, n, 5): t += [f"release {i + 1}"] if i % 2 == 0 else []
    t += ["objects", "snap", "remount", "objects"]
    for i in range(0, n, 3): t += [f"getattr g{i}", f"unlink g{i}"]
    t += ["objects", "rmdir d", "objects"]
    return ";".join(t), ["d"] + [f"f{i}" for i in range(n)] + [f"g{i}" for i in range(n)]
def run(ck):
    S = []
    ab = plain_names("a", "b")
    hops = tset("create", "open", "release", "unlink", "link", "rename", "read", "write", "fgetattr") if False else tset("create", "open", "release", "unlink", "link", "rename", "read", "write", "rmdir", "mkdir")
    for m in (Mount("full", block=256, store_time=1), Mount("full", block=256, legacy=1)):
        S += [counted(s) for s in tour_scripts(ck, "life" + str(m.o.get("legacy", 0)), dict(MaxDepth="1", OpSet=hops, MaxNodes="2", Handles="{1, 2}", MaxLen="1"), m, ab, unit=100)]
    S += [counted(s) for s in tour_scripts(ck, "lite", dict(MaxDepth="1", OpSet=hops, MaxNodes="2", Handles="{1, 2}", MaxLen="1", Fmt='"lite"'), Mount("lite", block=256), Names({"a": b"a", "b": long_name("b", 200)}), unit=100)]
    n0 = len(S)
    S += [counted(s) for s in tour_scripts(ck, "tree", dict(OpSet=tset("mk", "mkdir", "symlink", "link", "unlink", "rmdir", "rename"), MaxNodes=ck.n("3", "4")), Mount("full", block=256), ab)]
    for s in S[n0:]: s.pre = ["filter 2"]          # requests that the kernel would have answered itself reach the file system too
    W = dict(create=14, mkdir=5, open=8, read=8, write=8, ftruncate=3, release=8, unlink=12, rmdir=5, link=8, rename=12, symlink=4, getattr=5, fgetattr=5, setxattr=2, objects=4, remount=0.6, flush=1)
    ms = [Mount("full", block=256, store_time=1), Mount("full", block=256), Mount("lite", block=256), Mount("full", block=256, legacy=1), Mount("lite", block=256, thr=6, suf=".q"), Mount("full", block=256, uninorm=1)]
    def cleanup(s):
        """finally everything is removed"""
        ps = s.gen.sh.paths("fdl")
        ops = [dict(op="remount"), dict(op="objects")]
        for p in sorted(ps, key=lambda p: -len(p)):
            n = s.gen.sh.get(p)
            if n is not None: ops.append(dict(op="rmdir" if n.k == "d" else "unlink", p=p))
        s.ops += ops + [dict(op="objects"), dict(op="snap"), dict(op="remount"), dict(op="objects"), dict(op="snap")]
        return s
    for i in range(ck.n(700, 9000)):
        rng = ck.rng("rand", i)
        m = ms[i % len(ms)]
        nm = plain_names("a", "b", "c", "dd") if m.fmt == "full" or i % 2 else Names({"a": b"a", "b": long_name("b", 150), "c": long_name("c", 200), "d": long_name("d", 30)})
        g = Gen(rng, m, nm, W, xnames=["user.x"], targets={"t1": b"x"}, block=256, maxdepth=2, maxh=6)
        s = g.script(60, f"rand{i}", final=("objects", "snap"))
        s.gen = g
        if i % 3 == 2: s.pre = ["filter 2"]
        S.append(cleanup(s))
    for n in ck.n([30, 150], [30, 150, 700]):
        for m in ms[:4]:
            t, names = churn(n, m.fmt)
            S += handmade([m], plain_names(*names), [t], f"churn{n}")
    lad = ";".join(f"link n{i} n{i + 1};getattr n0" for i in range(40)) + ";" + ";".join(f"unlink n{i};objects;getattr n40;fgetattr 1" for i in range(40)) + ";write 1 0 10 1;unlink n40;objects;read 1 0 20;fgetattr 1;release 1;objects"
    S += handmade(ms, plain_names(*[f"n{i}" for i in range(41)]), ["create 1 n0;objects;" + lad], "ladder")
    R = ["mkdir a;mkdir b;create 1 a/c;write 1 0 99 1;rename a/c b/c;objects;create 2 a/c;write 2 0 50 2;objects;rename a/c b/c;objects;read 1 0 200;release 1;objects;release 2;objects;rmdir a;objects",
         "create 1 a;link a b;link a c;rename a b;objects;unlink a;unlink b;objects;rename c a;objects;unlink a;objects;read 1 0 9;release 1;objects",
         "create 1 a;unlink a;create 2 a;unlink a;create 3 a;objects;unlink a;objects;release 2;objects;release 1;objects;release 3;objects",
         "mkdir a;opendir 1 a;rmdir a;objects;readdir 1;releasedir 1;objects;create 1 b;rename b a;create 2 b;rename b a;unlink a;objects;release 1;release 2;objects",
         "symlink t1 a;link a b;objects;unlink a;readlink b;objects;symlink t2 a;rename b a;objects;readlink a;unlink a;objects"]
    S += handmade(ms, plain_names("a", "b", "c"), R, "hand")
    ck.scripts(S)
