"""Persistence over clean unmounts.  Cases: seeded random scripts over every operation, remounted (in a new process, with open handles
released at shutdown) after every few operations, with complete snapshots before and after; scripts with more files than any cache holds; the TreeMC model's
transitions with a remount at the end of each tour.  Both formats, versions, block/IV/padding/time/name settings.  Judged by TLC against
FileTree: a remount is a step that changes nothing but closing handles."""
from common import *
LEVEL = "model_checking"
ASSUMPTIONS = ["all handles are released before shutdown, as the kernel does"]
MS = [Mount("full", block=256, store_time=1), Mount("lite", block=256), Mount("full", block=4096, iv=16), Mount("lite", block=256, thr=10, suf="..ln"), Mount("full", block=256, legacy=1), Mount("lite", block=512, pad=100),
      Mount("full", block=100, iv=32, store_time=1), Mount("lite", block=256, thr=-1), Mount("full", block=256, noverify=1), Mount("lite", block=300, plain=1), Mount("full", block=256, legacy=1, store_time=1), Mount("lite", block=64, iv=16),
      Mount("full", block=256, store_time=1, ci=1), Mount("full", block=256, uninorm=1),
      Mount("full", block=256, cli=1), Mount("lite", block=256, cli=1), Mount("full", block=256, cli=1, ci=1), Mount("lite", block=300, cli=1, thr=30, pad=20)]
def names(m, rng):
    d = {"a": b"a", "b": b"b", "c": b"c"}
    if m.fmt == "lite" and m.o.get("thr", 128) >= 0 and not m.o.get("plain"): d.update(L1=long_name("p", 200), L2=long_name("q", 150))
    else: d["x"] = long_name("x", 120 if m.fmt == "lite" else 255)
    return Names(d)
def many(n, seed):
    """n files, modified again after they left any cache"""
    r = random.Random(f"{n}/{seed}")
    t = ["mkdir d"]
    for i in range(n): t += [f"create {i + 1} d/f{i} {0o600 + i % 64:o}", f"write {i + 1} {r.randrange(600)} {r.randrange(1, 700)} {i % 15 + 1}", f"release {i + 1}"]
    for i in r.sample(range(n), n // 2):
        c = r.randrange(6)
        t += [[f"open 1 d/f{i} rw", f"write 1 {r.randrange(900)} 33 7", "release 1"], [f"chmod d/f{i} {r.randrange(64) + 0o400:o}"], [f"truncate d/f{i} {r.randrange(1000)}"], [f"setxattr d/f{i} user.x t1 {r.randrange(50)}"],
              [f"link d/f{i} d/g{i}"], [f"utimens d/f{i} 77.000000005 88.000000006"]][c]
    return ";".join(t), [f"f{i}" for i in range(n)] + [f"g{i}" for i in range(n)]
def evicted(rounds, nfill, seed):
    """a few tracked files modified while thousands of other files (created and removed outside the specification's view) pass through the caches"""
    r = random.Random(f"evict{seed}")
    n = 30
    t = ["mkdir d", "raw mkdir /fill 493"]
    for i in range(n): t += [f"create {i + 1} d/f{i} 644", f"write {i + 1} {r.randrange(600)} {r.randrange(1, 700)} {i % 15 + 1}", f"release {i + 1}"]
    for k in range(rounds):
        for j in range(nfill): t += [f"raw create 9999 /fill/{k}_{j} 420", "raw write 9999 0 10 3", "raw release 9999"]
        for i in r.sample(range(n), n // 2):
            c = r.randrange(6)
            t += [[f"open 1 d/f{i} rw", f"read 1 0 2000", f"write 1 {r.randrange(900)} 33 {k + 1}", "release 1"], [f"chmod d/f{i} {r.randrange(64) + 0o400:o}"], [f"truncate d/f{i} {r.randrange(1000)}"],
                  [f"setxattr d/f{i} user.x t1 {r.randrange(50)}"], [f"rename d/f{i} d/g{i}", f"rename d/g{i} d/f{i}"], [f"open 1 d/f{i} rw", f"ftruncate 1 {r.randrange(900)}", "release 1"]][c]
    for k in range(rounds):
        for j in range(nfill): t += [f"raw unlink /fill/{k}_{j}"]
    t += ["raw rmdir /fill"]
    return ";".join(t), [f"f{i}" for i in range(n)] + [f"g{i}" for i in range(n)]
def run(ck):
    W = dict(ALL_W, remount=5, getattr=1, ls=1, read=3, readdir=1, snap=2)
    S = gen_scripts(ck, "rand", ck.n(840, 9000), 60, MS, names, W, xnames=["user.a", "user.bb"], final=("snap", "remount", "snap", "remount", "snap"))
    for j, n in enumerate(ck.n([130], [130, 300])):
        for m in MS[:ck.n(4, 8)] + MS[-4:-2]:
            t, nm = many(n, m.desc())
            S += handmade([m], plain_names("d", *nm), [t], f"many{n}", xnames=["user.x"], final="snap;remount;snap;remount;snap")
    for m in (MS[2], MS[4], Mount("lite", block=4096))[:ck.n(2, 3)]:
        for seed in range(ck.n(1, 4)):
            t, nm = evicted(ck.n(2, 4), 1900, seed)
            S += handmade([m], plain_names("d", *nm), [t], f"evict{seed}", xnames=["user.x"], final="snap;remount;snap")
    if not ck.quick:
        for m in (MS[0], MS[1]):
            S += tour_scripts(ck, f"tree-{m.fmt}", dict(OpSet=tset("mk", "mkdir", "symlink", "link", "unlink", "rmdir", "rename", "truncate", "chmod", "setxattr"), MaxNodes="2", MaxLen="1", Modes="{256, 511}", XNames=tset("user.x"), XVals=tset("1"),
                              Fmt=f'"{m.fmt}"'), m, plain_names("a", "b"), maxlen=8)
    ck.scripts(S)
