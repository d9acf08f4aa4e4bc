"""File contents.  Cases: (1) every pair (thorough: triple) of writes/truncations over offsets and lengths at block boundaries +-1,
each followed by whole reads, replayed on the real code for several block/IV/padding settings; (2) every transition of the TreeMC
model restricted to content operations through two handles and two names; (3) seeded random scripts of reads, writes,
truncations, extensions through several handles with remounts; (4) the same around positions of 2^31, 2^32, 2^33 and 2^40 bytes and
2^15, 2^16 and almost 2^31 blocks of sparse files.  All traces are judged by TLC against FileTree/Runs.  A case
is one script; non-trivial if it reached at least one operation after mounting; distinct by script."""
from common import *
LEVEL = "model_checking"
ASSUMPTIONS = ["contents are compared through 13-periodic tagged bytes: bytes displaced by a multiple of 13 inside one write are not told apart (block sizes are not multiples of 13)",
               "positions up to 2^40 bytes or 2^31 blocks, the format's limit (full format: 2^33) on sparse files; sizes near 2^63 not exercised"]

def boundary_ops(b, full):
    offs = [0, 1, b - 1, b, b + 1, 2 * b - 1, 2 * b, 3 * b + 1] if full else [0, 1, b - 1, b, b + 1, 2 * b]
    lens = [1, b - 1, b, b + 1, 2 * b, 2 * b + 1] if full else [1, b, b + 1, 2 * b]
    w = [("write", o, n) for o in offs for n in lens]
    t = [("ftruncate", n, 0) for n in ([0, 1, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 5 * b] if full else [0, 1, b - 1, b, b + 1, 2 * b, 3 * b - 1])]
    return w + t

def combos(ck, m, depth, full, label, per=40):
    """all sequences of `depth` boundary operations; several sequences share one script, each on a new file"""
    import itertools
    b = m.o["block"]
    seqs = list(itertools.product(boundary_ops(b, full), repeat=depth))
    out = []
    for k in range(0, len(seqs), per):
        ops = []
        for j, s in enumerate(seqs[k:k + per]):
            f = ["f"]
            ops.append(dict(op="create", h=1, p=f, m=0o644))
            for q, (o, a, n) in enumerate(s):
                if o == "write": ops.append(dict(op=o, h=1, off=a, len=n, tag=q + 1))
                else: ops.append(dict(op=o, h=1, n=a))
                ops.append(dict(op="read", h=1, off=0, len=8 * b))
            if j % 8 == 0: ops.append(dict(op="read", h=1, off=b - 1, len=b + 2))
            ops.append(dict(op="release", h=1))
            if j % 4 == 0: ops += [dict(op="open", h=2, p=f, flag="r"), dict(op="read", h=2, off=0, len=8 * b), dict(op="release", h=2)]
            ops.append(dict(op="unlink", p=f))
        out.append(Script(m, plain_names("f"), ops + [dict(op="snap")], tag=f"{label}-{m.desc()}-{k}"))
    return out

def run(ck):
    W = dict(create=2, open=6, write=20, read=16, ftruncate=8, truncate=4, release=4, fgetattr=3, getattr=2, flush=1, fsync=1, link=0.6, unlink=0.6, rename=0.6, remount=0.8, snap=0.5)
    S = []
    # (1) boundary sequences
    ms = [Mount("full", block=256), Mount("lite", block=256), Mount("lite", block=256, pad=70), Mount("full", block=60, iv=16, noverify=1), Mount("lite", block=60, iv=32, noverify=1),
          Mount("full", block=256, legacy=1, store_time=1)]
    for m in ms[:ck.n(4, 9)]: S += combos(ck, m, 2, True, "pairs")
    if not ck.quick:
        for m in (Mount("full", block=60), Mount("lite", block=60, pad=16)): S += combos(ck, m, 3, False, "triples", per=60)
    # (2) the model's transitions: two handles, two names, units of a block and of a block plus one
    mc = dict(NameSet='{"a", "b"}', MaxDepth="1", MaxNodes=ck.n("1", "2"), Handles="{1, 2}", MaxLen=ck.n("2", "3"), OpSet=tset("create", "open", "release", "write", "ftruncate", "truncate", "read", "link", "unlink", "rename"))
    for unit, mount in ((256, [Mount("full", block=256)]), (257, [Mount("lite", block=256)])):
        S += tour_scripts(ck, f"content{unit}", mc, mount, plain_names("a", "b"), unit=unit)
    # (3) random
    rm = [Mount("full", block=256), Mount("lite", block=256), Mount("full", block=4096, iv=16), Mount("lite", block=4096, pad=100), Mount("full", block=100, store_time=1, iv=24),
          Mount("lite", block=200, iv=16, pad=500), Mount("full", block=64, noverify=1), Mount("lite", block=64, noverify=1, iv=32), Mount("full", block=512, legacy=1), Mount("lite", block=1000, thr=-1),
          Mount("full", block=5000), Mount("lite", block=32, pad=3), Mount("full", block=16),
          Mount("full", block=256, cli=1), Mount("lite", block=256, cli=1), Mount("lite", block=512, pad=64, cli=1, iv=16)]
    S += gen_scripts(ck, "rand", ck.n(1560, 15000), 70, rm, plain_names("a", "b"), W, maxdepth=1)
    # positions around and beyond 2^31 and 2^32 bytes (and blocks): sparse files, the middle of which is left out of the specification's view
    for i in range(ck.n(160, 2500)):
        rng = ck.rng("stretch", i)
        m = [Mount("lite", block=4096), Mount("full", block=4096), Mount("lite", block=200, pad=30), Mount("full", block=8192, iv=16), Mount("lite", block=32), Mount("full", block=4096, store_time=1, legacy=1)][i % 6]
        b = m.o["block"]
        at = rng.choice([b, 2 * b, 3 * b - 1, b + 1, 2 * b + rng.randrange(b)])
        edge = rng.choice([2**31, 2**32, 2**32, 2**33] + ([b * 2**15, b * 2**16, 2**40] if m.fmt == "lite" else [b * 2**15, b * 2**16]))
        if m.fmt == "lite": edge = min(edge, b * (2**31 - 40))          # the format's limit (refused beyond)
        gap = edge - at - rng.choice([0, 1, b, rng.randrange(3 * b)]) if rng.random() < .75 else edge + rng.randrange(5 * b)
        S.append(Stretched.script(rng, m, plain_names(*"ab"[:rng.choice([1, 1, 2])]), at, gap, 40, f"stretch{i}"))
    # far offsets, large requests
    far = []
    for m in rm:
        b = m.o["block"]
        for i in range(ck.n(1, 6)):
            r = ck.rng("far", m.desc(), i)
            o = r.choice([1 << 16, 1 << 18, (1 << 20) - 7, (1 << 20) + b]) if b < 200 else r.choice([1 << 20, (1 << 22) - 7, (1 << 22) + b])
            t = [f"create 1 a; write 1 {o} {b + 3} 1; read 1 {max(0, o - 3 * b)} {5 * b}; read 1 0 {o + 2 * b}; write 1 {b} {b} 2; ftruncate 1 {o // 2 + 1}; read 1 0 {o}; ftruncate 1 {o}; read 1 0 {2 * o}; write 1 3 {200000 if b > 200 else 20000} 3; read 1 0 {2 * o}; release 1; open 2 a r; read 2 0 {2 * o}; release 2"]
            far += handmade([m], plain_names("a"), t, f"far{i}-")
    ck.scripts(S)
    ck.scripts(far)
