"""Name equivalence.  Cases: (1) every transition of the exhaustively explored TreeMC model whose names are two spellings of one class and another name, replayed on
full repositories that ignore case, normalization or both, and on lite mounts that fold or normalize (short and long names); (2) seeded random scripts over
Unicode samples (expanding folds, composed, decomposed and compatibility characters, combining order, Hangul, several scripts) where every step may use another spelling,
with the path query; (3) the same samples in sensitive repositories, where all of them are different names.  The classes are computed from Python's Unicode data, and judged by TLC against FileTree's name classes."""
from common import *
import unicodedata
LEVEL = "model_checking"
ASSUMPTIONS = ["uni_algo is replaced by an offline stand-in whose tables come from Python's Unicode data: errors inside uni_algo itself are out of sight",
               "names are valid UTF-8 in repositories that are not sensitive", "the stand-in for the kernel compares paths bytewise"]
SAMPLES = ["a", "A", "b", "B", "straße", "STRASSE", "strasse", "Straße", "é", "e\u0301", "É", "E\u0301", "Å", "\u212b", "A\u030a", "å", "ﬁle", "file", "FILE", "\u1e9e", "ss", "SS", "ß",
           "가", "\u1100\u1161", "한글", unicodedata.normalize("NFD", "한글"), "Σ", "σ", "ς", "ǆ", "ǅ", "Ǆ", "q\u0307\u0323", "q\u0323\u0307", "Ünïcode→ 漢字", "ünïcode→ 漢字", unicodedata.normalize("NFD", "Ünïcode→ 漢字"),
           "Привет", "ПРИВЕТ", "привет", "\U00010400x", "\U00010428x", "İ", "i\u0307", "i", "I", "ı", "name with space", "Name With Space", "x.TXT", "x.txt", "X.txt", "ͅ", "\u1fb3", "\u03b1\u03b9", "[a]", "[A]", "{a}", "@", "`", "K", "\u212a", "k"]
def nfc(s): return unicodedata.normalize("NFC", s)
def nfd(s): return unicodedata.normalize("NFD", s)
def cls(o):
    if o.get("ci") and o.get("uninorm"): return lambda s: nfd(s).casefold()
    if o.get("ci"): return lambda s: s.casefold()
    if o.get("uninorm"): return nfd
    if o.get("fold") and o.get("nfc"): return lambda s: nfc(s).casefold()
    if o.get("fold"): return lambda s: s.casefold()
    if o.get("nfc"): return nfc
    return lambda s: s
def classes(m, strings):
    """Names over the strings and the mount with the classes set."""
    f = cls(m.o)
    ss = list(dict.fromkeys(strings))
    if m.fmt == "lite": ss = list(dict.fromkeys(ss + [f(s) for s in ss]))
    alias = {s: f"w{i}" for i, s in enumerate(ss)}
    m = m.but()
    canon, first = {}, {}
    for s in ss:
        k = f(s)
        c = alias[k] if m.fmt == "lite" else first.setdefault(k, alias[s])
        if c != alias[s]: canon[alias[s]] = c
    m.canon = canon
    return m, Names({alias[s]: s for s in ss})
def run(ck):
    S = []
    ops = tset("mk", "mkdir", "symlink", "link", "unlink", "rmdir", "rename", "ls", "getattr")
    ci = dict(NameSet=tset("a", "A", "b"), MaxDepth="1", OpSet=ops, MaxNodes="2", CanonOf="CanonAbc")
    deep = dict(NameSet=tset("a", "A"), MaxDepth="2", OpSet=tset("mk", "mkdir", "link", "unlink", "rmdir", "rename"), MaxNodes="3", CanonOf="CanonAbc")
    def tour(label, c, m, real):
        m = m.but(); m.canon = {"A": "a"}
        return tour_scripts(ck, label, {**c, "Fmt": f'"{m.fmt}"', "DispC": "TRUE" if m.cfg(Names({}), (), [0, 0, 0])["dispc"] else "FALSE"}, m, Names(real))
    F = lambda **o: Mount("full", block=256, **o)
    L = lambda **o: Mount("lite", block=256, **o)
    la, lA, lb = long_name("x", 180), long_name("x", 180).upper(), long_name("y", 180)
    if la == lA or la.lower() != la: raise Broken("long name sample")
    two = {"a": "a", "A": "A", "b": "b"}
    S += tour("ci1", ci, F(ci=1), two)
    S += tour("ci2", deep, F(ci=1), two)
    S += tour("cinorm", deep, F(ci=1, uninorm=1, store_time=1), {"a": "Ünï", "A": nfd("üNÏ"), "b": "b"})
    S += tour("norm", ci, F(uninorm=1), {"a": "é", "A": "e\u0301", "b": "É"})
    S += tour("fold1", ci, L(fold=1), two)
    S += tour("fold2", deep, L(fold=1), {"a": la, "A": lA, "b": lb})
    S += tour("nfc", ci, L(nfc=1), {"a": nfc("Å" * 50 + "e"), "A": nfd("Å" * 50 + "e"), "b": "b"})
    if not ck.quick:
        S += tour("ci3", {**deep, "MaxNodes": "4"}, F(ci=1), two)
        S += tour("ci4", {**deep, "NameSet": tset("a", "A", "b"), "MaxNodes": "2"}, F(ci=1, legacy=1), two)
        S += tour("fold3", {**deep, "MaxNodes": "4"}, L(fold=1, nfc=1), {"a": "é", "A": nfd("É"), "b": "b"})
    W = {**TREE_W, "getpath": 0, "rename": 16, "getattr": 8, "link": 7, "remount": 0.7}
    ms = [F(ci=1), F(ci=1, uninorm=1), F(uninorm=1), F(ci=1, legacy=1, store_time=1), L(fold=1), L(nfc=1), L(fold=1, nfc=1), L(fold=1, thr=-1), L(fold=1, nfc=1, thr=10, suf="..x"), F(), L(), F(store_time=1), L(thr=-1), L(plain=1),
          F(ci=1, cli=1), F(uninorm=1, cli=1), F(ci=1, uninorm=1, cli=1), L(fold=1, cli=1), L(nfc=1, cli=1), L(fold=1, nfc=1, cli=1), F(cli=1), L(cli=1)]
    for i in range(ck.n(900, 12000)):
        rng = ck.rng("rand", i)
        base = ms[i % len(ms)]
        f = cls(base.o)
        # whole classes, so that several spellings of the same name meet
        by = {}
        for s in SAMPLES: by.setdefault(cls(dict(ci=1, uninorm=1))(s) if rng.random() < 0.5 else f(s), []).append(s)
        groups = list(by.values()); rng.shuffle(groups)
        pick = [s for g in sorted(groups[:rng.choice([2, 4, 8])], key=lambda g: -len(g)) for s in g][:12]
        if base.fmt == "lite" and rng.random() < 0.4 and base.o.get("thr", 128) >= 0 and not base.o.get("plain"):
            r = rng.choice([20, 60]); pick = [s + "-é" * r for s in pick]
        m, nm = classes(base, pick)
        w = dict(W)
        if base.o.get("ci"): w["getpath"] = 12
        g = Gen(rng, m, nm, w, targets={"t1": b"x"}, block=256, maxdepth=rng.choice([1, 2, 3]))
        S.append(g.script(60, f"rand{i}"))
    ck.scripts(S)
