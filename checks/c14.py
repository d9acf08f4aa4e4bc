"""Extended attributes.  Cases: (1) every transition of the TreeMC model over set/get/list/remove with two attribute names, values and flags on two
objects; (2) seeded random scripts with many names, values of length 0..6000, every flag, and buffer sizes 0, exact, one less, one more, larger; remounts.
Both formats.  Judged by TLC against FileTree."""
from common import *
LEVEL = "model_checking"
ASSUMPTIONS = ["values up to what the scratch file system stores (about 6000 bytes together per object)", "links carry no extended attributes"]
def run(ck):
    W = dict(create=2, mkdir=2, link=1, rename=1, unlink=0.7, rmdir=0.4, release=3, setxattr=22, getxattr=18, listxattr=9, removexattr=10, symlink=0.3, remount=1, snap=1, write=1, chmod=0.5)
    S = []
    for fmt in ("full", "lite"):
        S += tour_scripts(ck, f"x-{fmt}", dict(NameSet=tset("a", "b"), MaxDepth="1", OpSet=tset("mk", "mkdir", "unlink", "link", "setxattr", "removexattr", "getxattr", "listxattr"), MaxNodes=ck.n("1", "2"), XNames=tset("user.x", "user.y"),
                          XVals=tset("1", "2"), Fmt=f'"{fmt}"'), Mount(fmt, block=256), plain_names("a", "b"))
    ms = [Mount("full", block=256), Mount("lite", block=256), Mount("full", block=256, store_time=1), Mount("lite", block=256, thr=-1, iv=16), Mount("full", block=256, legacy=1), Mount("lite", block=256, noverify=1), Mount("full", block=256, cli=1), Mount("lite", block=256, cli=1)]
    xs = ["user.a", "user.b", "user.bb", "user.longer.name.of.attribute", "user.A", "user." + "n" * 100, "user.ümlaut"]
    S += gen_scripts(ck, "rand", ck.n(600, 8000), 70, ms, plain_names("a", "b", "c"), W, maxdepth=2, xnames=xs[:6], xsizes=(0, 1, 2, 16, 27, 28, 29, 100, 255, 256, 300))
    S += gen_scripts(ck, "large", ck.n(120, 1500), 30, ms, plain_names("a", "b"), W, maxdepth=1, xnames=xs[:2], xsizes=(0, 1, 1000, 2400))
    ck.scripts(S)
