"""Attributes and times.  Cases: seeded random scripts over chmod, chown, utimens, writes, truncations, namespace changes and queries, under several callers,
with a virtual clock that advances with every operation, on repositories that keep times inside and ones that do not, with and without owner
overrides that change between mounts.  Judged by TLC against FileTree: each time stamp must lie in the set of values the history allows (a single value
wherever the property is definite)."""
from common import *
LEVEL = "model_checking"
ASSUMPTIONS = ["without stored times, modification times are those of the underlying file system: only explicitly set times are compared, until the next change"]
def run(ck):
    W = dict(create=7, mkdir=5, open=5, write=8, read=5, ftruncate=4, truncate=3, release=6, unlink=2, rmdir=1, link=2, rename=3, symlink=3, getattr=16, fgetattr=6, chmod=12, chown=10, utimens=12, setxattr=2, removexattr=1, remount=1.5, snap=2, ls=1, flush=1, fsync=1)
    S = []
    base = [Mount("full", block=256, store_time=1), Mount("full", block=256), Mount("lite", block=256), Mount("full", block=256, store_time=1, legacy=1), Mount("lite", block=256, pad=30), Mount("full", block=4096, iv=16, store_time=1),
            Mount("full", block=256, cli=1), Mount("lite", block=256, cli=1)]
    for i in range(ck.n(900, 12000)):
        m = base[i % len(base)]
        rng = ck.rng("rand", i)
        alts = [m.but(uid=1234), m.but(gid=77), m.but(uid=0, gid=5), m, m] if i % 3 == 0 else []
        start = rng.choice(alts) if alts else m
        g = Gen(rng, start, plain_names("a", "b", "c"), W, xnames=["user.x"], targets={"t1": b"x"}, block=m.o["block"], maxdepth=2, alts=alts, ctxs=((0, 0), (1000, 1000), (5, 6)) if m.fmt == "full" else ((0, 0),),
                ids=(0, 1, 1000, 65534, 100000, 2**31 - 1) if m.fmt == "full" else (0, 1, 1000, 65534, 100000))
        S.append(g.script(60, f"rand{i}"))
    S += tour_scripts(ck, "modes", dict(OpSet=tset("mk", "mkdir", "symlink", "link", "unlink", "rename", "chmod", "getattr"), MaxNodes="2", Modes="{256, 384, 511}"), Mount("full", block=256), plain_names("a", "b"))
    # mode bits: all of them, on files and directories
    t = ["create 1 a 644;release 1;mkdir d;" + ";".join(f"chmod a {m:o};getattr a;chmod d {m | 0o700:o};getattr d" for m in list(range(0o400, 0o1000, 7)))]
    S += handmade(base[:3], plain_names("a", "d"), t, "bits")
    # a directory whose index is rebuilt when its last handle closes, after its times were set
    for n in ck.n([150], [150, 400]):
        for left in (3, 10):
            t = ["mkdir d"] + [f"symlink t1 d/n{k}" for k in range(n)] + ["remount", "opendir 1 d"] + [f"unlink d/n{k}" for k in range(n - left)] + ["utimens d 100.500000000 200.250000000", "releasedir 1", "getattr d", "remount", "getattr d"]
            S += handmade(base[:4:3], plain_names("d", *[f"n{k}" for k in range(n)]), [";".join(t)], f"rebuilt{n}.{left}")
    ck.scripts(S)
