------------------------------ MODULE TreeMatch ------------------------------
(* Comparison of what the real code answered with what FileTree expects. *)
EXTENDS FileTree

TimeOk(v, ts) == ts = {} \/ v = "?" \/ v \in ts
RepU(cfg, nd) == IF cfg.uo = -1 THEN nd.u ELSE cfg.uo
RepG(cfg, nd) == IF cfg.go = -1 THEN nd.g ELSE cfg.go
SizeOf(nd) == IF nd.k = "f" THEN LenR(nd.c) ELSE IF nd.k = "l" THEN nd.tl ELSE 0

\* o: observed attributes k m u g n s at mt ct;  result: names of the fields that differ
AttrDiff(fs, cfg, i, o) ==
    LET nd == fs.n[i] IN
    (IF o.k = nd.k THEN {} ELSE {"kind"})
    \cup (IF o.m = nd.m \/ nd.m = -1 THEN {} ELSE {"mode"})
    \cup (IF o.u = RepU(cfg, nd) THEN {} ELSE {"uid"})
    \cup (IF o.g = RepG(cfg, nd) THEN {} ELSE {"gid"})
    \cup (IF nd.k = "d" \/ o.n = Nlink(fs, i) THEN {} ELSE {"nlink"})
    \cup (IF nd.k = "d" \/ o.s = SizeOf(nd) THEN {} ELSE {"size"})
    \cup (IF TimeOk(o.at, nd.at) THEN {} ELSE {"atime"})
    \cup (IF TimeOk(o.mt, nd.mt) THEN {} ELSE {"mtime"})
    \cup (IF TimeOk(o.ct, nd.ct) THEN {} ELSE {"ctime"})

Listing(fs, i) == {<<fs.n[i].e[c].nm, fs.n[fs.n[i].e[c].i].k>> : c \in DOMAIN fs.n[i].e}
ListOk(fs, i, ls) == Len(ls) = Cardinality(DOMAIN fs.n[i].e) /\ {<<ls[j][1], ls[j][2]>> : j \in 1..Len(ls)} = Listing(fs, i)
XattrSet(nd) == {<<x, nd.x[x][1]>> : x \in DOMAIN nd.x}

\* resolution by displayed names only
RECURSIVE ShownFrom(_, _, _, _)
ShownFrom(fs, cfg, d, p) ==
    IF p = <<>> THEN d
    ELSE IF fs.n[d].k # "d" THEN 0
    ELSE LET c == Canon(cfg, p[1]) IN
         IF c \in DOMAIN fs.n[d].e /\ fs.n[d].e[c].nm = p[1] THEN ShownFrom(fs, cfg, fs.n[d].e[c].i, Tail(p)) ELSE 0

TreeSize(fs) == 1 + Cardinality(UNION {{<<d, c>> : c \in DOMAIN fs.n[d].e} : d \in Dirs(fs)})

EntryDiff(fs, cfg, o) ==
    LET i == ShownFrom(fs, cfg, Root, o.p) IN
    IF i = 0 THEN {<<o.p, "unexpected entry">>}
    ELSE LET nd == fs.n[i] IN
         {<<o.p, d>> : d \in AttrDiff(fs, cfg, i, o)}
         \cup (IF nd.k = "f" /\ o.k = "f" /\ o.d # nd.c THEN {<<o.p, "content">>} ELSE {})
         \cup (IF nd.k = "l" /\ o.k = "l" /\ o.t # nd.t THEN {<<o.p, "target">>} ELSE {})
         \cup (IF nd.k = "d" /\ o.k = "d" /\ ~ListOk(fs, i, o.ls) THEN {<<o.p, "listing">>} ELSE {})
         \cup (IF o.hasx /\ nd.k # "l" /\ ~(Len(o.x) = Cardinality(DOMAIN nd.x) /\ {<<o.x[j][1], o.x[j][2]>> : j \in 1..Len(o.x)} = XattrSet(nd))
               THEN {<<o.p, "xattr">>} ELSE {})

SnapDiff(fs, cfg, obs, errs) ==
    UNION {EntryDiff(fs, cfg, obs[j]) : j \in 1..Len(obs)}
    \cup {<<<<errs[j]>>, "error during walk">> : j \in 1..Len(errs)}
    \cup (IF Len(obs) = TreeSize(fs) THEN {} ELSE {<<<<>>, "number of entries">>})
    \cup LET pairs == {<<obs[j].ino, ShownFrom(fs, cfg, Root, obs[j].p)>> : j \in 1..Len(obs)} IN      \* same inode number iff same object
         IF /\ Cardinality({pr[1] : pr \in pairs}) = Cardinality(pairs)
            /\ Cardinality({pr[2] : pr \in pairs}) = Cardinality(pairs) THEN {} ELSE {<<<<>>, "identity">>}

\* C11: what the data directory holds.  Full format: one data and one attribute object for every file that is linked or open, and nothing
\* else.  Lite format: one object for every name, and tables of long names only inside directories that exist.
StoreDiff(fs, cfg, o) ==
    IF cfg.fmt = "full"
    THEN LET n == Cardinality(DOMAIN fs.n) IN
         IF o.data = n /\ o.meta = n /\ o.links = 0 /\ o.tables = 0 /\ o.empty = 0 /\ o.other = 0 THEN {} ELSE {<<"stored objects", o, "expected", n>>}
    ELSE LET pairs == UNION {{<<d, c>> : c \in DOMAIN fs.n[d].e} : d \in Dirs(fs)}
             N(k) == Cardinality({pr \in pairs : fs.n[fs.n[pr[1]].e[pr[2]].i].k = k})
         IN IF o.data = N("f") /\ o.links = N("l") /\ o.dirs = N("d") /\ o.meta = 0 /\ o.other = 0 /\ o.tables <= N("d") + 1 THEN {}
            ELSE {<<"stored objects", o, "expected", <<N("f"), N("l"), N("d")>>>>}

\* After an observation the time stamps are known exactly.
NarrowTo(fs, i, o) ==
    [fs EXCEPT !.n[i].at = IF @ = {} \/ o.at = "?" THEN @ ELSE {o.at},
               !.n[i].mt = IF @ = {} \/ o.mt = "?" THEN @ ELSE {o.mt},
               !.n[i].ct = IF @ = {} \/ o.ct = "?" THEN @ ELSE {o.ct}]
RECURSIVE NarrowAll(_, _, _, _)
NarrowAll(fs, cfg, obs, j) == IF j > Len(obs) THEN fs
                              ELSE NarrowAll(NarrowTo(fs, ShownFrom(fs, cfg, Root, obs[j].p), obs[j]), cfg, obs, j + 1)
\* The walk itself reads every regular file, directory and link.
ReadAll(fs, cfg, op) == [fs EXCEPT !.n = [i \in DOMAIN fs.n |-> [fs.n[i] EXCEPT !.at = May(cfg, @, op)]]]

\* Differences between the logged event e and the expected result r of Apply; {} means the step is allowed.
Diff(fs, cfg, e, r) ==
    IF e.r # "OK" THEN (IF e.r \in r.err THEN {} ELSE {<<"result", e.r, "expected", r.err>>})
    ELSE IF r.err # {} THEN {<<"result", "OK", "expected", r.err>>}
    ELSE CASE e.op = "read" -> (IF e.d = r.d THEN {} ELSE {<<"data", e.d, "expected", r.d>>})
           [] e.op = "write" -> (IF e.n = e.len THEN {} ELSE {<<"short write", e.n>>})
           [] e.op = "getattr" -> {<<"getattr", x>> : x \in AttrDiff(r.fs, cfg, r.i, e.o)}
           [] e.op = "fgetattr" -> {<<"fgetattr", x>> : x \in AttrDiff(r.fs, cfg, r.i, e.o)}
           [] e.op \in {"ls", "readdir"} -> (IF ListOk(r.fs, r.i, e.ls) THEN {} ELSE {<<"listing", e.ls, "expected", Listing(r.fs, r.i)>>})
           [] e.op = "readlink" -> (IF e.t = r.fs.n[r.i].t THEN {} ELSE {<<"target", e.t>>})
           [] e.op = "getpath" -> (IF ShownFrom(fs, cfg, Root, e.t) = r.i THEN {} ELSE {<<"path", e.t>>})
           [] e.op = "getxattr" -> (IF e.n = r.val[2] /\ (e.sz = 0 \/ e.v = r.val[1]) THEN {} ELSE {<<"value", e.n, "expected", r.val>>})
           [] e.op = "listxattr" -> (IF e.n = r.total /\ (e.sz = 0 \/ (Len(e.l) = Cardinality(r.names) /\ Range(e.l) = r.names)) THEN {}
                                     ELSE {<<"names", e.n, "expected", r.names>>})
           [] e.op = "objects" -> StoreDiff(r.fs, cfg, e.o)
           [] e.op = "snap" -> SnapDiff(ReadAll(r.fs, cfg, e), cfg, e.snap, e.errs)
           [] OTHER -> {}
After(fs, cfg, e, r) ==
    IF e.r # "OK" THEN r.fs
    ELSE IF e.op = "snap" THEN ReadAll(NarrowAll(r.fs, cfg, e.snap, 1), cfg, e)
    ELSE IF e.op \in {"getattr", "fgetattr"} THEN NarrowTo(r.fs, r.i, e.o)
    ELSE r.fs
=============================================================================
