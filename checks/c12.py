"""Interrupted operations on long names.  Cases: for every operation kind on long and short names in every combination (creating, removing, replacing, renaming in both directions and across directories, linking), under several name modes:
(1) the process dies before and after every storage call of the operation (data directory and lookup table alike); (2) every storage call fails once, or fails and keeps failing, with several errors; afterwards the tree is
compared completely, the operation repeated, the tree compared again, and again after a remount; (3) the same at random points of random histories.  The LongNames model is explored exhaustively by TLC (its crash points
are its steps).  Judged by TLC against CrashTrace: the tree is the one before or the one after the operation, and all later operations agree with that choice."""
from common import *
from crash import *
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["a storage call is atomic: it happened or it did not", "SQLite's own journal is trusted to be recovered by SQLite"]
NM = lambda n1=200, n2=150: Names({"s1": b"s1", "s2": b"s2", "L1": long_name("L1", n1), "L2": long_name("L2", n2), "D": long_name("D", 180), "d": b"d", "L3": long_name("L3", 220), "s3": b"s3"})
SETUP = "mkdir d;mkdir D;create 1 d/L1;write 1 0 300 1;release 1;create 1 d/s1;write 1 0 100 2;release 1;mkdir d/L3;create 1 D/L1;write 1 0 50 3;release 1;symlink t1 D/L2;create 1 L3;release 1"
OPS = ["create 5 d/L2", "create 5 d/s2", "mkdir d/L2", "symlink t1 d/L2", "unlink d/L1", "unlink d/s1", "unlink D/L2", "rmdir d/L3", "link d/L1 d/L2", "link d/s1 d/L2", "link d/L1 D/s2", "rename d/L1 d/L2", "rename d/L1 d/s2", "rename d/s1 d/L2",
       "rename d/L1 d/s1", "rename d/s1 d/L1", "rename d/L1 D/L1", "rename d/L1 D/L3", "rename d/L1 D/s3", "rename d/s1 D/L2", "rename d/L3 D/L3", "rename d/L3 d/s3", "rename D d/L2", "rename D s2", "rename d/L1 L3", "rename L3 d/L1", "create 5 L2", "mkdir L1", "unlink L3"]
def tail(op):
    w = op.split()
    return f"snap;{op.replace(' 5 ', ' 6 ')};snap;create 7 d/L2;release 7;ls d;ls D;objects;remount;snap;objects;" + CLEAN
CLEAN = ";".join(f"unlink {x}/{y}" for x in "dD" for y in ("L1", "L2", "L3", "s1", "s2", "s3")) + ";unlink d/L2/L1;unlink d/L2/L2;unlink s2/L1;unlink s2/L2;rmdir d/L3;rmdir d/L2;rmdir d/s3;rmdir D/L3;rmdir d;rmdir D;rmdir s2;rmdir L1;snap"
def run(ck):
    ck.model("LongNames", workers=4)
    ms = [Mount("lite", block=256), Mount("lite", block=256, pad=40, thr=20, suf=".zz")]
    bases = []
    for m in ms:
        for op in OPS:
            ops = ops_of(SETUP) + ops_of(op) + ops_of(tail(op))
            bases.append((Script(m, NM(), ops, targets=targets_for(m), tag=f"{op}-{m.desc()}"), len(ops_of(SETUP))))
    S, n = points(bases, ["crash", "crash-after", "fault 28 1 0", "fault 5 1 0"] + ck.n([], ["fault 28 1000 0", "fault 5 2 0", "fault 28 3 0", "fault 13 1 0"]))
    ck.count("storage_calls_interrupted", n)
    # random histories, interrupted at random calls, several times each
    W = dict(create=14, mkdir=8, unlink=10, rmdir=6, link=10, rename=25, symlink=6, release=10, ls=2, snap=1)
    for i in range(ck.n(250, 6000)):
        rng = ck.rng("rand", i)
        m = ms[i % 2]
        nm = Names({"a": b"a", "b": long_name("b", 160), "c": long_name("c", 230), "e": long_name("e", 25)})
        g = Gen(rng, m, nm, W, targets=targets_for(m), block=256, maxdepth=2)
        s = g.script(40, f"rand{i}")
        ks = [k for k, o in enumerate(s.ops) if o["op"] in ("create", "mkdir", "unlink", "rmdir", "link", "rename", "symlink")]
        for k in rng.sample(ks, min(len(ks), 5)):
            s.ops[k]["inj"] = rng.choice(["crash %d", "crash %d after", "fault %d 28 1 0", "fault %d 5 2 0"]) % rng.randint(1, 9)
        out = []
        for o in s.ops:
            out.append(o)
            if "inj" in o: out.append({"op": "snap"})
        s.ops = out
        S.append(s)
    ck.scripts(S, module="CrashTrace")
