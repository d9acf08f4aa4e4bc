"""Configurations.  Cases: (1) every transition of the abstract configuration machine (create, info, chpass; passwords with and without key files; current and legacy configuration files) replayed through the
program's command line in one process; (2) random histories over several repositories, similar passwords, key files that differ in one byte or late in a long file, all creation options and key
derivation settings, with the shown parameters compared with the ones asked for; (3) every storage call of create and chpass interrupted (process dies before, after or in the middle) or failing,
then opened with old and new credentials; (4) configuration files altered: every bit flipped, every field removed, shortened, extended, doubled or taken from another repository, every
truncation.  The protocol (temporary file, rename) is model checked with a crash between any two steps.  Judged by TLC against ConfigTrace."""
from config import *
from common import *
from lib_graph import tours_of
LEVEL = "model_checking"
ASSUMPTIONS = ["key derivation runs with small Argon2 costs", "a configuration in the legacy JSON format does not authenticate the fields other than the keys: only the keys are required to stay",
               "fields unknown to protobuf may be appended to a configuration without effect"]
def model(ck, design, expect):
    path = fresh_path("mc") + ".cfg"
    with open(path, "w") as f:
        f.write(f'SPECIFICATION Spec\nVIEW V\nINVARIANT Safe\nINVARIANT Finished\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Pws = {{"", "pw"}}\n  Kfs = {{"none", "k1"}}\n  Emit = FALSE\n  Design = "{design}"\n')
    out, rc = tlc("ConfigMC", path)
    if ("is violated" in out) == expect: raise Broken(f"ConfigMC {design}:\n" + out[-2000:])
    s, d = tlc_stats(out); ck.states += d; ck.transitions += s
    ck.cov.setdefault("models", {})["ConfigMC-" + design] = {"states": d, "transitions": s, "violated_as_it_should": not expect}
LEG = [("1/.securefs.argon2id.PASSWORD.json", ("abc", "none")), ("4/.securefs.scrypt.PASSWORD.json", ("abc", "none")), ("3/.securefs.argon2id.KEYFILE.json", ("", "ref")), ("2/.securefs.pkcs5-pbkdf2-hmac-sha256.PASSWORD_WITH_KEYFILE.json", ("abc", "ref")),
       ("4-padded/.securefs.argon2id.KEYFILE2.json", ("", "ref")), ("4-padded/.securefs.pkcs5-pbkdf2-hmac-sha256.PASSWORD_WITH_KEYFILE2.json", ("abc", "ref")), ("1-padded/.securefs.scrypt.KEYFILE.json", ("", "ref")),
       ("2-padded/.securefs.argon2id.PASSWORD.json", ("abc", "none"))]
def I(c, d="D", **k): return dict(op="info", dir=d, cred=c, **k)
def C(c, d="D", **k): return dict(op="create", dir=d, cred=c, **k)
def P(c, n, d="D", **k): return dict(op="chpass", dir=d, cred=c, new=n, **k)
def M(c, d="D", **k): return dict(op="mount", dir=d, cred=c, **k)
def run(ck):
    model(ck, "rename", True); model(ck, "inplace", False)
    # (1) transitions of the model
    path = fresh_path("mc") + ".cfg"
    with open(path, "w") as f:
        pws, kfs = ck.n(('{"", "pw"}', '{"none", "k1"}'), ('{"", "pw", "pw "}', '{"none", "k1", "k1x"}'))
        f.write(f'SPECIFICATION Spec\nVIEW V\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Pws = {pws}\n  Kfs = {kfs}\n  Emit = TRUE\n  Design = "none"\n')
    out = ck.model("ConfigMC", path); ck.cov["models"]["ConfigMC"] = ck.cov["models"].pop(path)
    S = []
    paths, total = tours_of(out)
    ck.count("model_transitions", total)
    for k, (init, p) in enumerate(paths):
        leg = {"D": (LEG[0][0], LEG[0][1])} if "good" in init else None
        ops = []
        for o in p:
            o = dict(o); o.pop("bad", None); o["dir"] = "D"
            o["cred"] = tuple(o["cred"])
            if "new" in o: o["new"] = tuple(o["new"])
            ops.append(o)
        S.append(ConfigScript(ops, legacy=leg, tag=f"tour{k}"))
    # (2) random histories
    for i in range(ck.n(500, 6000)):
        rng = ck.rng("hist", i)
        dirs = ["D", "E"]
        leg = {}
        if rng.random() < .4: x = LEG[i % len(LEG)]; leg["E"] = x
        pws, kfs = rng.sample(PWS, 3) + ["", "abc"], ["none"] + rng.sample(sorted(KFS), 2) + (["ref"] if leg else [])
        cred = lambda: rng.choice([c for c in itertools.product(pws, kfs) if c != ("", "none")])
        cur, ops = {d: None for d in dirs}, []
        for d in leg: cur[d] = leg[d][1]
        for _ in range(14):
            d = rng.choice(dirs); at = rng.choice(["auto"] * 5 + ["pb", "js"]) if d not in leg else "auto"
            k = rng.random()
            guess = cur[d] if cur[d] and rng.random() < .75 else cred()
            if k < (.2 if cur[d] else .8):
                o, ask = options(rng); c = cred()
                ops.append(C(c, d, opts=o, ask=ask, at="auto", argon=(rng.randint(1, 2), rng.choice([8, 16, 33]), 1)))
                if cur[d] is None: cur[d] = c
            elif k < .55:
                n = cred(); p = rng.choice([(1, 8, 1), (2, 16, 2), (1, 32, 1)])
                ops.append(P(guess, n, d, argon=p, at=at))
                if cur[d] and guess == cur[d] and at in ("auto",): cur[d] = n
                elif cur[d] and guess == cur[d]: cur[d] = None if False else cur[d]
            else: ops.append(I(guess, d, at=at))
        for d in dirs:
            if cur[d]: ops.append(I(cur[d], d))
        S.append(ConfigScript(ops, dirs, leg, tag=f"hist{i}"))
    # exhaustive pairs: created with one combination, opened with every other
    allc = [c for c in itertools.product(PWS[:ck.n(5, 8)] + [""], KFS) if c != ("", "none")]
    for c in allc:
        S.append(ConfigScript([C(c)] + [I(x) for x in allc] + [P(allc[(allc.index(c) + 1) % len(allc)], c), P(c, allc[0]), I(c), I(allc[0])], tag=f"pairs-{c[1]}"))
    for L in [64, 128, 256, 1000, 4096, 20000]:           # passwords that differ only at the end or in length
        ps = [("q" * L, "none"), ("q" * (L - 1) + "r", "none"), ("q" * (L + 1), "none"), ("q" * (L - 1), "k1")]
        for c in ps[:ck.n(2, 4)]: S.append(ConfigScript([C(c)] + [I(x) for x in ps] + [P(ps[2], c), P(c, ps[2]), I(c), I(ps[2])], tag=f"longpw-{L}"))
    # the program mounts what its other commands open
    for i in range(ck.n(60, 900)):
        rng = ck.rng("mount", i)
        leg = {"D": LEG[i // 3 % len(LEG)]} if i % 3 == 0 else {}
        pws, kfs = rng.sample(PWS, 2) + ["", "abc", "q" * 3000], ["none"] + rng.sample(sorted(KFS), 2) + (["ref"] if leg else [])
        cred = lambda: rng.choice([c for c in itertools.product(pws, kfs) if c != ("", "none")])
        cur = leg["D"][1] if leg else cred()
        ops = [] if leg else [M(cur), C(cur, opts=options(rng)[0])]
        for _ in range(12):
            k = rng.random()
            if k < .3:
                n = cred(); ops += [P(cur, n)] + ([M(cur)] if rng.random() < .5 else []); cur = n
            elif k < .4: ops.append(I(cur))
            else: ops.append(M(cur if rng.random() < .4 else cred()))
        S.append(ConfigScript(ops + [M(cur)], legacy=leg, tag=f"mount{i}"))
    ck.scripts(S, module="ConfigTrace")
    ck.part("histories")
    # (3) interruptions
    bases = [([C(("pw", "none"), opts=["--format", "full"])], 0, [("pw", "none")]), ([C(("", "k1"))], 0, [("", "k1")]),
             ([C(("pw", "none")), P(("pw", "none"), ("n", "k1"))], 1, [("pw", "none"), ("n", "k1")]),
             ([C(("pw", "none")), P(("pw", "none"), ("pw", "none"))], 1, [("pw", "none")]),
             ([P(("abc", "none"), ("n", "none"))], 0, [("abc", "none"), ("n", "none")]),
             ([C(("pw", "k1")), P(("pw", "k1"), ("n", "none"), at="pb")], 1, [("pw", "k1"), ("n", "none")])]
    S = []
    kinds = ["crash {}", "crash {} torn", "crash {} after", "fault {} 28 1 0", "fault {} 5 1 1", "fault {} 5 99 1", "fault {} 13 1 0", "fault {} 30 99 0"]
    for b, (ops, k, creds) in enumerate(bases):
        leg = {"D": LEG[0]} if ops[0]["op"] == "chpass" else None
        cs = ConfigScript([dict(o) for o in ops[:k]] + [dict(ops[k], inj="count")], legacy=leg); cs.run()
        n = cs.mutations
        ck.count("storage_calls_interrupted", n)
        for kind in kinds:
            for p in range(1, n + (4 if kind.endswith(" 1") else 1)):
                tail = [I(c) for c in creds] + [I(("zz", "none"))] + ([P(creds[-1], ("q", "none")), I(("q", "none"))] + [P(creds[0], ("q2", "none")), I(("q2", "none"))] + [I(c) for c in creds] if ops[k]["op"] == "chpass" else [dict(ops[k]), I(creds[-1])])
                S.append(ConfigScript([dict(o) for o in ops[:k]] + [I(creds[0])] * (k > 0) + [dict(ops[k], inj=kind.format(p))] + tail, legacy=leg, tag=f"break{b}-{kind.format(p)}"))
    ck.scripts(S, module="ConfigTrace")
    ck.part("interruptions")
    # (4) alterations
    S = []
    def altered(tag, mk, cred, leg=None, fns=(), pl="pb", other=None):
        for a in range(0, len(fns), 60):
            ops = list(mk)
            for fn in fns[a:a + 60]:
                ops += [dict(op="alter", dir="D", pl=pl, fn=fn), I(cred)] + ([I(other)] if other else [])
            ops += [dict(op="alter", dir="D", pl=pl), I(cred), I(("zz", "none"))]
            S.append(ConfigScript(ops, legacy=leg, tag=f"alter-{tag}-{a}"))
    def flip(i): return lambda b: b[:i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:] if i // 8 < len(b) else b
    def cut(n): return lambda b: b[:n]
    def fieldfn(k, g): return lambda b: (lambda f: g(b, *f[k]) if k < len(f) else b)(protofields(b))
    def setlen(b, s, e, n, w, p, new): return b[:s] + bytes([b[s]]) + vint(len(new)) + new + b[e:]
    def vint(n):
        r = b""
        while n > 127: r += bytes([n & 127 | 128]); n >>= 7
        return r + bytes([n])
    fns = [cut(n) for n in range(0, 232)]
    for k in range(5):
        fns.append(fieldfn(k, lambda b, s, e, n, w, p: b[:s] + b[e:]))                                       # removed
        for m in (0, 1, 2, 4, 8, 11, 12, 13, 15, 16, 17, 31, 33): fns.append(fieldfn(k, lambda b, s, e, n, w, p, m=m: setlen(b, s, e, n, w, p, (b[p:e] + b"\0" * 40)[:m])))     # shortened, extended
        fns.append(fieldfn(k, lambda b, s, e, n, w, p: setlen(b, s, e, n, w, p, b"\0" * (e - p))))
        fns.append(fieldfn(k, lambda b, s, e, n, w, p: b + b[s:e]))                                           # doubled, same
        fns.append(fieldfn(k, lambda b, s, e, n, w, p: b + setlen(b, s, e, n, w, p, bytes(x ^ 1 for x in b[p:e]))[s:]))
    for m in (0, 1, 4, 12, 16):                    # a changed ciphertext together with a cut MAC
        for at in (0, 3, 40):
            def both(b, m=m, at=at):
                f = {x[2]: x for x in protofields(b)}
                if 3 not in f or 4 not in f: return b
                c = bytearray(b[f[4][4]:f[4][1]]); c[at % len(c)] ^= 1
                return b[:f[3][0]] + (b"\x1a" + vint(m) + b[f[3][4]:f[3][4] + m] if m else b"") + b"\x22" + vint(len(c)) + bytes(c) + b[f[4][1]:]
            fns.append(both)
    for name, opts in (("lite", []), ("full", ["--format", "full", "--case", "insensitive"])):
        mk = [C(("pw", "none"), opts=opts), I(("pw", "none"))]
        n = 232 * 8 if name == "lite" else 130 * 8
        altered(name, mk, ("pw", "none"), fns=[flip(i) for i in range(0, n)] + fns, other=("zz", "none"))
    rngs = ck.rng("jsbits")
    for src, cred in LEG[:ck.n(3, 8)]:
        altered("legacy", [I(cred)], cred, leg={"D": (src, cred)}, pl="js", fns=[flip(rngs.randrange(8 * 380)) for _ in range(ck.n(150, 1500))] + [cut(n) for n in range(0, 420, 40)]
                + [lambda b, m=m: re.sub(rb'("MAC"\s*:\s*")([0-9a-f]*)"', lambda x: x.group(1) + x.group(2)[:m] + b'"', b) for m in (0, 2, 8, 30)]
                + [lambda b, m=m: re.sub(rb'("MAC"\s*:\s*")([0-9a-f]*)"', lambda x: x.group(1) + x.group(2)[:m] + b'"', re.sub(rb'("key"\s*:\s*")(..)', lambda x: x.group(1) + (b"00" if x.group(2) != b"00" else b"01"), b)) for m in (0, 2, 8, 32)])
    # the configuration of another repository with the same password, whole and in parts
    for k in range(1, 6):
        ops = [C(("pw", "none")), I(("pw", "none")), C(("pw", "none"), "E"), I(("pw", "none"), "E")]
        S.append(MixScript(ops + [dict(op="alter", dir="D", pl="pb", raw="", mix=k), I(("pw", "none")), dict(op="alter", dir="D", pl="pb"), I(("pw", "none"))], ["D", "E"], tag=f"mix{k}"))
    ck.scripts(S, module="ConfigTrace")
    ck.part("alterations")
class MixScript(ConfigScript):
    """The configuration of D with some fields taken from E's."""
    def run(self):
        for o in self.ops:
            if o.get("mix"):
                k = o["mix"]; o.pop("raw", None)
                def fn(b, k=k):
                    e = open(os.path.join(self.base, "E", PLACE["pb"]), "rb").read()
                    f, g = {x[2]: x for x in protofields(b)}, {x[2]: x for x in protofields(e)}
                    return b"".join((e[g[n][0]:g[n][1]] if (n == k) else b[f[n][0]:f[n][1]]) for n in sorted(f))
                o["fn"] = fn
        return super().run()
