"""Killed processes.  Cases, in both formats: (1) for every kind of operation (creating, removing, replacing, moving, linking, writing inside/at the end/past the end, truncating, attributes, flushing and closing
files with pending changes), the process dies before and after every storage call of the operation; the repository is then mounted by a new process, compared completely, used again, and compared again; (2) the same with
other files open, written and fsynced or flushed before; (3) random histories killed at random calls.  Judged by TLC against CrashTrace: everything that is neither written by the interrupted operation
nor has unflushed changes is exact; a file that was being written only yields bytes that were written there; in the lite format an interrupted namespace operation is done or not done."""
from common import *
from crash import *
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["a storage call is atomic (it happened or it did not) and calls take effect in program order: a killed process, not a power failure",
               "verification is on: without it a file whose block and checksum were written partially cannot be told from a complete one"]
NM = lambda: plain_names("a", "b", "c", "d", "e", "f", "g", "l", "m", "n", "o")
SETUP = ("mkdir d;mkdir e;mkdir d/m;create 1 a;write 1 0 700 1;release 1;create 1 d/b;write 1 0 1000 2;release 1;create 1 d/c;release 1;create 1 e/b;write 1 0 300 3;release 1;symlink t1 d/l;link d/b e/o;mkdir e/n;"
         "setxattr a user.x v 20;setxattr d/b user.x v 5;open 2 d/b rw")
OPS = ["create 5 f", "create 5 d/f", "mkdir d/f", "symlink t2 d/f", "unlink d/b", "unlink d/c", "unlink d/l", "unlink e/b", "rmdir d/m", "link a d/f", "link d/b e/f",
       "rename a d/b", "rename a f", "rename d/b d/f", "rename d/c d/b", "rename d e/n", "rename d/m e/n", "rename d f", "rename d/l e/b",
       "write 2 100 200 7", "write 2 900 600 7", "write 2 3000 10 7", "write 2 0 1000 7", "ftruncate 2 0", "ftruncate 2 300", "ftruncate 2 5000", "truncate a 100", "truncate a 0", "truncate d/b 1001", "open 5 a t", "open 5 d/b t",
       "setxattr a user.y w 30", "setxattr a user.x w 10", "removexattr a user.x", "removexattr d/b user.x", "chmod a 600", "chown a 3 4", "utimens a 100.500000000 200.250000000", "chmod d 700", "utimens d 5.000000000 6.000000000",
       "write 2 500 800 8|flush 2", "write 2 500 800 8|fsync 2", "write 2 500 800 8|release 2", "write 2 500 800 8|create 5 f", "write 2 500 800 8|flush 2|write 2 100 10 9",
       "write 2 500 800 8|fsync 2|create 5 f", "create 5 f|write 5 0 600 4|fsync 5|mkdir g", "create 5 f|write 5 0 600 4|flush 5|mkdir g", "create 5 d/f|write 5 0 600 4|release 5|rename d/f a", "create 5 f|write 5 0 2000 4|ftruncate 5 400|fsync 5|unlink d/c",
       "unlink d/b|write 2 0 10 3", "unlink d/b|unlink e/o", "unlink d/b|unlink e/o|release 2", "create 5 f|unlink f|release 5", "rename a d/c|write 2 10 10 1"]
def tail(full):
    return "snap;remount;snap;create 7 g;write 7 0 300 5;release 7;mkdir o;rename g o/g;create 8 o/h;release 8;snap;remount;snap".replace("o/h", "o/f")
def run(ck):
    ms = [Mount("full", block=256, store_time=1), Mount("full", block=256, legacy=1), Mount("lite", block=256), Mount("lite", block=512, pad=64)] + ck.n([], [Mount("full", block=4096), Mount("full", block=300, iv=16, store_time=1), Mount("lite", block=4096, thr=5)])
    bases = []
    for m in ms:
        for text in OPS:
            pre = ops_of(SETUP) + sum((ops_of(x) for x in text.split("|")[:-1]), [])
            ops = pre + ops_of(text.split("|")[-1]) + ops_of(tail(m.fmt == "full"))
            bases.append((Script(m, NM(), ops, targets=targets_for(m), xnames=["user.x", "user.y"], tag=f"{text}-{m.desc()}"), len(pre)))
    S, n = points(bases, ["crash", "crash-after"])
    ck.count("storage_calls_interrupted", n)
    W = dict(create=12, mkdir=6, open=6, write=22, ftruncate=5, truncate=4, release=9, unlink=8, rmdir=4, link=4, rename=12, symlink=4, chmod=2, setxattr=3, removexattr=2, flush=3, fsync=4, read=3)
    for i in range(ck.n(2500, 40000)):
        rng = ck.rng("rand", i)
        m = ms[i % len(ms)]
        g = Gen(rng, m, NM(), W, targets=targets_for(m), xnames=["user.x", "user.y"], block=m.o["block"], maxdepth=2, xsizes=(1, 20))
        g.nlist = ["a", "b", "c", "d", "e"]
        s = g.script(40, f"rand{i}", final=())
        k = rng.randrange(min(8, len(s.ops) - 1), len(s.ops))
        if s.ops[k]["op"] == "remount": continue
        s.ops[k]["inj"] = rng.choice(["crash %d", "crash %d after"]) % rng.randint(1, rng.choice([3, 8, 25]))
        s.ops = s.ops[:k + 1] + ops_of(tail(m.fmt == "full"))
        S.append(s)
    lost = []
    def trace(s):
        t = s.run()
        lost.extend(t["id"] for e in t["ev"] if e["op"] == "snap" and e["r"] == "mount:EPERM" and t["cfg"]["fmt"] == "full")
        return t
    ck.scripts(S, module="CrashTrace", trace=trace)
    if lost:
        ck.cov["root_directory_lost"] = len(lost)
        ck.violation(f"repository not mountable after the process died while writing the root directory: {lost[:5]}", {"cases": lost}, key="root-directory-written:mount:EPERM")
