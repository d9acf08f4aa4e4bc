"""Full format namespace.  Cases: (1) every transition of the exhaustively explored TreeMC model (names, depth and inode bounds in the
evidence) replayed in the real code, refused operations included; (2) seeded random scripts over namespace operations with snapshots and
remounts; (3) handwritten corner scripts (renames onto links, into own subtree, replaced directories, big directories, link targets).
All traces are judged by TLC against FileTree.  A case is one script, non-trivial if it has operations after mounting."""
from common import *
LEVEL = "model_checking"
ASSUMPTIONS = ["the driver stands for the kernel: it resolves parents and rejects calls the VFS would never pass on (link of a directory, rename into own subtree, ...)"]
FMT = '"full"'
CORNERS = [
    "mkdir a; mkdir a/b; mkdir c; rename a c; ls c; rename c a; rename a/b c; rename a c/a; ls c",
    "create 1 a; release 1; link a b; rename a b; ls /; getattr a; getattr b; rename b a; unlink a; getattr b; unlink b",
    "mkdir a; create 1 a/b; release 1; mkdir c; rename c a; rmdir a; unlink a/b; rename c a; ls /; rmdir a; ls /",
    "mkdir a; mkdir b; create 1 b/c; write 1 0 10 1; rename a b; rmdir b; read 1 0 20; release 1; unlink b/c; rename a b; ls b; ls /",
    "create 1 a; write 1 0 100 1; create 2 b; write 2 0 50 2; rename a b; read 2 0 100; read 1 0 100; release 1; release 2; getattr b; ls /",
    "symlink t1 a; symlink t2 b; symlink t3 c; readlink a; readlink b; readlink c; link a mm; readlink mm; unlink a; readlink mm; getattr mm; rename b c; readlink c; ls /",
    "symlink t4 a; symlink t5 b; symlink t6 c; readlink a; readlink b; readlink c; getattr b; remount; readlink a; readlink b; readlink c",
    "mkdir a; mkdir a/a; mkdir a/a/a; create 1 a/a/a/b; release 1; rename a/a b; ls b/a; rename b a/b; rename a/b/a/b b; rmdir a/b/a; rmdir a/b; rmdir a; ls /",
    "create 1 a; release 1; mkdir b; rename a b; rename b a; mkdir a; rmdir a; unlink b; link b c; link a b/c; link a b/c; ls b; unlink a; getattr b/c",
    "create 1 a; create 2 a; mkdir a; symlink t1 a; link a a; release 1; ls /; open 3 a rw; unlink a; create 4 a; write 3 0 5 1; write 4 0 7 2; read 3 0 9; read 4 0 9; release 3; release 4; open 5 a r; read 5 0 9; release 5",
    "opendir 1 /; create 2 a; release 2; readdir 1; unlink a; readdir 1; mkdir b; readdir 1; releasedir 1",
]
def big_dir(n, order):
    """directories larger than one B-tree page, with removals in different orders"""
    names = [f"f{i:03d}" for i in range(n)]
    r = random.Random(f"{n}{order}")
    ops = [f"mkdir d"]
    a = list(names)
    if order == "rev": a.reverse()
    if order == "rand": r.shuffle(a)
    for i, x in enumerate(a):
        ops += [f"create 1 d/{x}", "release 1"] if i % 3 else [f"mkdir d/{x}"]
        if i % 40 == 39: ops += ["ls d"]
    ops += ["remount", "ls d"]
    dirs = {x for i, x in enumerate(a) if i % 3 == 0}
    b = list(names); r.shuffle(b)
    for i, x in enumerate(b):
        ops.append(f"rmdir d/{x}" if x in dirs else f"unlink d/{x}")
        if i % 25 == 24: ops += ["ls d"]
        if i % 60 == 59: ops += ["remount", "ls d"]
        if i % 31 == 5: ops += [f"create 1 d/{x}", "release 1", f"unlink d/{x}"]
    ops += ["ls d", "rmdir d"]
    return ";".join(ops), names
def run(ck):
    S = []
    three = plain_names("a", "b", "c")
    mts = [Mount("full", block=256, store_time=1), Mount("full", block=4096)]
    S += tour_scripts(ck, "tree2x2x3", dict(OpSet=tset("mk", "mkdir", "symlink", "link", "unlink", "rmdir", "rename", "ls", "getattr", "readlink"), MaxNodes="3"), mts[:1], plain_names("a", "b"))
    S += tour_scripts(ck, "tree3x1x3", dict(NameSet=tset("a", "b", "c"), MaxDepth="1", OpSet=tset("mk", "mkdir", "link", "unlink", "rmdir", "rename"), MaxNodes="3"), mts[1:], three)
    S += tour_scripts(ck, "handles", dict(MaxDepth="1", OpSet=tset("create", "open", "release", "unlink", "link", "rename", "mkdir", "rmdir"), MaxNodes="2", Handles="{1, 2}"), mts[:1], plain_names("a", "b"))
    if not ck.quick:
        S += tour_scripts(ck, "tree2x2x4", dict(OpSet=tset("mk", "mkdir", "symlink", "link", "unlink", "rmdir", "rename"), MaxNodes="4"), mts[:1], plain_names("a", "b"))
        S += tour_scripts(ck, "tree2x3x3", dict(MaxDepth="3", OpSet=tset("mk", "mkdir", "rmdir", "rename", "unlink"), MaxNodes="3"), mts[1:], plain_names("a", "b"))
        S += tour_scripts(ck, "tree3x2x2", dict(NameSet=tset("a", "b", "c"), OpSet=tset("mk", "mkdir", "link", "unlink", "rmdir", "rename"), MaxNodes="2"), mts[:1], three)
    S += handmade(full_mounts(True)[:ck.n(3, 7)], plain_names("a", "b", "c", "mm"), CORNERS, "corner")
    for n in ck.n([40, 180], [13, 40, 90, 180, 400]):
        for order in ("asc", "rev", "rand"):
            t, names = big_dir(n, order)
            S += handmade([mts[n % 2]], plain_names("d", *names), [t], f"big{n}{order}", final="ls /;remount;ls /")
    S += gen_scripts(ck, "rand", ck.n(600, 8000), 80, full_mounts(True), three, TREE_W)
    S += gen_scripts(ck, "command", ck.n(120, 1500), 80, [Mount("full", block=256, cli=1), Mount("full", block=4096, cli=1, noverify=1, iv=16), Mount("full", block=256, pad=20, cli=1, noxattr=1)], three, TREE_W)
    S += gen_scripts(ck, "wide", ck.n(200, 3000), 120, full_mounts(True), plain_names(*[f"n{i}" for i in range(12)]), TREE_W, maxdepth=4)
    ck.scripts(S)
