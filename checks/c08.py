"""Altered content.  Bases: histories (overwriting, truncating, replacing, sparse files, several files of equal size) in both formats and several block, IV and padding sizes, with byte images of two moments.  Cases: (1) every
part of every block, header, identity and checksum list of every file: bits flipped, erased, replaced by every equally long part from other places, other files and the older image; cut and extended at every boundary; whole files
exchanged, rolled back, emptied, deleted; (2) blocks exchanged, copied, rolled back with everything that belongs to them or only part of it, identities exchanged with and without the blocks, blocks as far apart as every power of two; (3) random combinations.  After each the repository is mounted, every file
read completely and block by block, twice.  Judged by TLC against TamperTrace: a read fails or shows, block by block, what the history once stored at that position of that file; what was not altered is exact."""
from common import *
from tamper import *
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["alterations are made while the repository is not mounted", "cutting off the end of a file or adding zeros to it, and an earlier state of the same file or block, are not detectable by either format; in the lite format a stored file as a whole may stand in another's place",
               "cryptographic primitives are those of Crypto++; keys are not known to whoever alters"]
def history(m):
    B = m.o["block"]
    A = (f"create 1 a;write 1 0 {4 * B + 100} 1;release 1;create 1 b;write 1 0 {4 * B + 100} 2;release 1;create 1 c;write 1 0 50 3;release 1;create 1 e;release 1;create 1 s;write 1 {4 * B + 9} 60 4;release 1;"
         f"mkdir d;create 1 d/f;write 1 0 {2 * B} 5;release 1;create 1 z;write 1 0 {B} 0;write 1 {B} 20 8;release 1;create 1 q;write 1 0 {3 * B} 12;release 1"
         + (f";create 1 w;write 1 0 {160 * B} 13;release 1" if B == 64 else ""))
    Bp = (f"open 1 a rw;write 1 {B} {2 * B} 6;release 1;open 1 b rw;ftruncate 1 {2 * B + 10};write 1 {3 * B} {B + 100} 7;release 1;create 1 c2;write 1 0 50 9;release 1;rename c2 c;rename d/f d/g;"
          f"open 1 s rw;write 1 {B} {B} 10;release 1;truncate q {2 * B};create 1 n;write 1 0 {4 * B + 100} 11;release 1"
          + (f";open 1 w rw;write 1 {70 * B} {B} 14;write 1 {158 * B} {2 * B} 15;release 1" if B == 64 else ""))
    return A, Bp
NM = lambda: plain_names("a", "b", "c", "d", "e", "f", "g", "s", "z", "q", "n", "c2", "w")
def run(ck):
    ck.model("TamperMC", workers=1) if ck.quick else ck.model("TamperMC", "TamperMCDeep.cfg", workers=1, timeout=1500)
    ms = [Mount("lite", block=64), Mount("lite", block=128, pad=40, iv=16), Mount("full", block=64, store_time=1), Mount("full", block=128, iv=16)]
    ms += ck.n([], [Mount("lite", block=32, iv=32), Mount("lite", block=4096, pad=7), Mount("full", block=64, legacy=1), Mount("full", block=64, pad=30, store_time=1), Mount("full", block=4096)])
    ms += [Mount("lite", block=64, cli=1), Mount("full", block=64, cli=1)]
    bases = [Base(m, NM(), *history(m), targets=targets_for(m), xnames=["user.x"], tag=m.desc()) for m in ms]
    S = []
    for bi, b in enumerate(bases, 1):
        rng = ck.rng("alter", bi)
        rels = sorted(r for r, es in b.where[1].items() if es[0][1] == "f")
        one, two = content_singles(b, rels, rng), block_moves(b, rels, rng)
        ck.count("single_alterations_known", len(one) + len(two))
        k = ck.n(200 if b.mount.o.get("cli") else 800, 100000)
        if len(one) > k: one = rng.sample(one, k)
        if len(two) > k: two = rng.sample(two, k)
        S += cases(ck, b, bi, one, ck.n(150, 3000), "part") + cases(ck, b, bi, two, ck.n(150, 3000), "block")
    # blocks of a long file, as far apart as the powers of two
    for m in [Mount("lite", block=32), Mount("full", block=32, store_time=1)]:
        for top in ck.n([12], [9, 12, 16]):
            ks = [0] + [1 << i for i in range(top + 1)]
            text = f"create 1 a;write 1 0 {32 * (ks[-1] + 2)} 1;" + "".join(f"write 1 {32 * k} 32 {i % 13 + 2};" for i, k in enumerate(ks)) + "release 1"
            b = Base(m, NM(), text, f"open 1 a rw;write 1 {32 * 3} 32 15;release 1", targets=targets_for(m), xnames=["user.x"], tag=f"far{top}-{m.desc()}")
            bases.append(b)
            rel = next(r for r, es in b.where[1].items() if es[0][1] == "f")
            P = {}
            for q in parts(b, 1, rel):
                if q.role in ("iv", "ct", "mac"): P.setdefault(q.k, {})[q.role] = q
            far = [[("put", P[i][x].rel, P[i][x].off, 1, P[j][x].rel, P[j][x].off, P[j][x].len) for x in ("iv", "ct", "mac")] for i, j in [(0, k) for k in ks[1:]] + [(k, 0) for k in ks[1:]] + [(k, 2 * k) for k in ks[1:-1]] + [(5, 5 + k) for k in ks[1:-1]]]
            S += cases(ck, b, len(bases), far, 0, "far")
    judge(ck, bases, S)
