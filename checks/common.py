"""Workload pieces shared by the checks."""
from check import *
from tour import graph, tours, expand

TREE_W = dict(create=10, mkdir=8, open=3, release=6, unlink=6, rmdir=6, link=6, rename=12, symlink=5, readlink=3, getattr=3, ls=4, write=2, opendir=2, readdir=3, snap=1, remount=0.5)
ALL_W = dict(create=10, mkdir=6, open=6, write=12, read=10, ftruncate=4, truncate=3, release=6, unlink=5, rmdir=4, link=4, rename=8, symlink=3, readlink=2, getattr=4, ls=3, chmod=3,
             chown=3, utimens=3, setxattr=3, getxattr=3, listxattr=2, removexattr=2, snap=1, remount=1, opendir=2, readdir=2, fgetattr=2, flush=1, fsync=1)
LINKS = {"t1": b"x", "t2": b"../a/b", "t3": b"/" * 300, "t4": "ünï→code \n tab\t".encode(), "t5": b"/abs/" + b"q" * 3000, "t6": b"%s%d\xff\xfe\x01"}

def targets_for(m):
    """Link targets of at most 4095 bytes; the lite format base-encodes them in the link itself."""
    return LINKS if m.fmt == "full" else {k: v[:1800] for k, v in LINKS.items()}

def long_name(tag, n):
    """A name of exactly n bytes that starts with the tag."""
    r = random.Random(f"{tag}/{n}")
    s = tag + "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789 _-()") for _ in range(n))
    return s[:n].encode()
def long_names(lens, tag="L"):
    d = {}
    for i, n in enumerate(lens):
        d[f"n{n}" if f"n{n}" not in d else f"n{n}_{i}"] = long_name(f"{tag}{i}x", n) if n > 4 else bytes([97 + i]) * n
    return Names(d)

def full_mounts(rich=False):
    ms = [Mount("full", block=256, store_time=1), Mount("full", block=4096), Mount("full", block=512, iv=16, store_time=1), Mount("full", block=256, legacy=1)]
    if rich: ms += [Mount("full", block=300, store_time=1, noverify=1), Mount("full", block=128, iv=32), Mount("full", block=256, legacy=1, store_time=1)]
    return ms
def lite_mounts(rich=False):
    ms = [Mount("lite", block=256), Mount("lite", block=4096, thr=10, suf="..ln"), Mount("lite", block=256, thr=-1), Mount("lite", block=512, pad=64, thr=0)]
    if rich: ms += [Mount("lite", block=256, iv=16, pad=300), Mount("lite", block=256, plain=1), Mount("lite", block=300, noverify=1)]
    return ms

def gen_scripts(ck, label, count, n, mounts, names, weights, final=("snap", "remount", "snap"), **kw):
    out = []
    for i in range(count):
        rng = ck.rng(label, i)
        m = mounts[i % len(mounts)]
        nm = names(m, rng) if callable(names) else names
        k = dict(kw)
        k.setdefault("targets", targets_for(m))
        k.setdefault("block", m.o.get("block", 4096))
        g = Gen(rng, m, nm, weights, **k)
        out.append(g.script(n, f"{label}{i}", final=final))
    return out

def tour_scripts(ck, label, consts, mount, names, maxlen=60, snap_every=8, unit=1, timeout=900, snap_refused=False, pre=()):
    """consts: constants of TreeMC; names: list of byte strings for the model's names in order, or None for themselves."""
    g, ops = graph(ck, label, consts, timeout=timeout)
    paths, total = tours(g, ops, maxlen)
    ck.count("model_transitions_replayed", total * (len(mount) if isinstance(mount, list) else 1))
    ms = mount if isinstance(mount, list) else [mount]
    out = []
    for m in ms:
        for i, p in enumerate(paths):
            sc = Script(m, names, expand(p, snap_every, unit, snap_refused=snap_refused), targets={"t1": b"x"}, xnames=["user.x", "user.y"], tag=f"{label}-{m.desc()}-{i}{'-'.join(pre)}")
            sc.pre = list(pre)
            out.append(sc)
    return out
def tset(*a): return "{" + ", ".join(f'"{x}"' for x in a) + "}"

def handmade(mounts, names, texts, tag, targets=None, xnames=(), final="snap;remount;snap"):
    out = []
    for m in mounts:
        for i, t in enumerate(texts):
            out.append(Script(m, names, ops_of(t + ";" + final), targets=targets or targets_for(m), xnames=xnames, tag=f"{tag}{i}-{m.desc()}"))
    return out
