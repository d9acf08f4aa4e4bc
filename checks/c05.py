"""Refused operations.  Cases: (1) every transition of the exhaustively explored TreeMC model in both formats, with a full snapshot
after every refused operation, both behind the kernel's own checks and with existence left to the code; the model itself is checked for
"refused operations change nothing"; (2) seeded random scripts biased to refusals (missing and existing names, occupied directories,
wrong kinds, names that do not fit, extended attribute conditions), a snapshot after every operation, and after a remount.
Judged by TLC against FileTree."""
from common import *
LEVEL = "model_checking"
ASSUMPTIONS = ["time stamps of directories are left out: a refused operation may move them",
               "kinds are checked by the kernel before the call (a directory is never passed to unlink)"]
def snapped(sc, every=1):
    ops = []
    for i, o in enumerate(sc.ops):
        ops.append(o)
        if o["op"] not in ("snap", "remount", "read", "readdir", "ls", "getattr", "readlink", "release", "releasedir") and i % every == 0: ops.append({"op": "snap"})
    sc.ops = ops
    return sc
def run(ck):
    S = []
    ab = plain_names("a", "b")
    shortlong = Names({"a": b"a", "b": long_name("bb", 200)})
    ops = tset("mk", "mkdir", "symlink", "link", "unlink", "rmdir", "rename", "readlink", "truncate")
    for m, nm in ((Mount("full", block=256, store_time=1), ab), (Mount("lite", block=256), shortlong)):
        for pre in ([], ["filter 2"]):
            S += tour_scripts(ck, f"tree-{m.fmt}", dict(OpSet=ops, MaxNodes=ck.n("2", "3"), Fmt=f'"{m.fmt}"', MaxLen="1"), m, nm, snap_refused=True, pre=pre)
        S += tour_scripts(ck, f"xattr-{m.fmt}", dict(NameSet=tset("a"), MaxDepth="1", OpSet=tset("mk", "mkdir", "unlink", "rmdir", "setxattr", "removexattr", "getxattr", "listxattr"), MaxNodes="1", XNames=tset("user.x", "user.y"),
                          XVals=tset("1", "2"), Fmt=f'"{m.fmt}"'), m, nm, snap_refused=True)
    W = dict(create=8, mkdir=8, symlink=5, link=8, rename=14, unlink=6, rmdir=10, open=3, write=2, ftruncate=1, truncate=2, release=3, setxattr=8, removexattr=6, getxattr=3, listxattr=2,
             chmod=2, chown=1, utimens=1, readlink=3, remount=0.4)
    def names(m, rng):
        if m.fmt == "full":
            nm = Names({"a": b"a", "b": b"b", "x255": long_name("x", 255), "x256": long_name("y", 256), "x300": long_name("z", 300)})
            m.toolong = ["x256", "x300"]
        else:
            leg = m.o.get("thr", 128) < 0
            nm = Names({"a": b"a", "b": b"b", "x100": long_name("x", 100), **({"x250": long_name("y", 250)} if leg else {"x200": long_name("y", 200), "x600": long_name("z", 600)})})
            m.toolong = ["x250"] if leg else []
        return nm
    ms = [Mount("full", block=256, store_time=1), Mount("lite", block=256), Mount("full", block=256), Mount("lite", block=256, thr=-1), Mount("lite", block=256, thr=4, suf=".x"), Mount("full", block=256, legacy=1)]
    R = gen_scripts(ck, "rand", ck.n(480, 9000), 26, ms, names, W, maxdepth=2, xnames=["user.x", "user.longer.y"])
    for i, s in enumerate(R):
        if i % 2: s.pre = ["filter 2"]
    S += [snapped(s) for s in R]
    ck.scripts(S)
