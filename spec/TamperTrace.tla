---------------------------- MODULE TamperTrace ----------------------------
(* Judges what a repository shows after its stored form was altered without the keys.  BASES holds histories of the real code (judged by FileTree as they
   are replayed here); a trace names its base and says which stored things differ from what the history left behind (hits), then what was observed.
   An operation that meets an altered thing may fail; whatever it shows must be genuine: a value the repository once held at that very place.  Everything else
   is exact.  Hits:
     obj    full format: the object of p, its attributes or its block list differ: it is refused, or is an earlier state of the same object
     data   only the named blocks of the content differ (full format); file: the same in the lite format, where src are the files whose stored identity it has now
     name   the stored name of p is gone or different;  extra: the directory p holds stored names it had not
     table  the table of long names of the directory p differs (its entries may be missing altogether)
     link   the stored target of p differs;  x: the stored attributes of p differ
   The lite format binds neither a stored name, nor a link target, nor an attribute value to its place: these may be any the repository ever held. *)
EXTENDS TreeMatch, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
BaseRuns == ndJsonDeserialize(IOEnv.BASES)
VARIABLES tid, l, st, hit, bound, gone
vars == <<tid, l, st, hit, bound, gone>>

Ver(fs, i) == LET nd == fs.n[i] IN [k |-> nd.k, m |-> nd.m, u |-> nd.u, g |-> nd.g, c |-> nd.c, t |-> nd.t, x |-> XattrSet(nd), ls |-> Listing(fs, i)]
Log(h, fs) == [i \in DOMAIN h \cup DOMAIN fs.n |-> (IF i \in DOMAIN h THEN h[i] ELSE {}) \cup (IF i \in DOMAIN fs.n THEN {Ver(fs, i)} ELSE {})]
RECURSIVE RunBase(_, _, _)
RunBase(ev, k, s) ==
    IF k > Len(ev) \/ s.bad # {} THEN s
    ELSE LET e == ev[k] IN
         IF e.op = "mark" THEN RunBase(ev, k + 1, [s EXCEPT !.past = Append(@, s.fs)])
         ELSE LET r == Apply(s.fs, s.cfg, e)
                  d == Diff(s.fs, s.cfg, e, r)
                  f2 == After(s.fs, s.cfg, e, r)
              IN RunBase(ev, k + 1, [s EXCEPT !.fs = f2, !.bad = {<<k, x>> : x \in d}, !.hist = IF e.op \in {"snap", "read", "getattr", "release"} THEN @ ELSE Log(@, f2)])
Base(b) == LET f0 == InitFs(b.cfg) IN RunBase(b.ev, 1, [fs |-> f0, cfg |-> b.cfg, bad |-> {}, hist |-> Log([i \in {} |-> {}], f0), past |-> <<>>])
Bases == [b \in 1..Len(BaseRuns) |-> Base(BaseRuns[b])]
AllV(b) == UNION {b.hist[i] : i \in DOMAIN b.hist}
\* a name or (in the older form of the lite format) components of link targets and names can also stand where a target stands
Composed(b) == {BaseRuns[b].composed[j] : j \in 1..Len(BaseRuns[b].composed)}
Ever == [b \in 1..Len(BaseRuns) |-> LET V == AllV(Bases[b]) IN
            [v |-> V, names |-> UNION {{e[1] : e \in v.ls} : v \in V}, vals |-> UNION {{e[2] : e \in v.x} : v \in V}, attrs |-> UNION {{e[1] : e \in v.x} : v \in V},
             targets |-> {v.t : v \in {v \in V : v.k = "l"}} \cup IF Bases[b].cfg.fmt = "full" THEN {} ELSE UNION {{e[1] : e \in v.ls} : v \in V} \cup Composed(b), own |-> {<<v.m, v.u, v.g>> : v \in V}]]

T == Traces[tid]
B == Bases[T.base]
E == Ever[T.base]
cfg == B.cfg
fs == B.fs
Full == cfg.fmt = "full"
Heads(p) == {SubSeq(p, 1, k) : k \in 0..Len(p)}
Has(p, k) == \E j \in 1..Len(hit) : hit[j].p = p /\ hit[j].k = k
HitOf(p, k) == {hit[j] : j \in {j \in 1..Len(hit) : hit[j].p = p /\ hit[j].k = k}}
Hit(p) == \E j \in 1..Len(hit) : hit[j].p = p /\ hit[j].k # "extra"
\* the way to p leads over something altered
Cut(p) == \E q \in Heads(p) : Has(q, "name") \/ (q # p /\ Has(q, "obj"))
MayAppear(p) == \E q \in Heads(p) \ {p} : Has(q, "extra") \/ Has(q, "obj") \/ Has(q, "data") \/ Has(q, "name")
MayFail(p) == Hit(p) \/ Cut(p) \/ \E q \in Heads(p) \ {p} : Has(q, "data")
Ino(p) == ShownFrom(fs, cfg, Root, p)

Least(a, b) == IF a < b THEN a ELSE b
Everything == 1000000000
Zeros(r) == \A j \in 1..Len(r) : r[j][2] = 0
\* every block shown was stored at that position in one of the versions V (bs = 0: any alignment, byte by byte)
RECURSIVE Cuts(_, _)
Cuts(r, k) == IF r = <<>> THEN {} ELSE {k} \cup Cuts(Tail(r), k + r[1][1])
RECURSIVE At(_, _)
At(r, p) == IF r = <<>> THEN 0 ELSE IF p < r[1][1] THEN r[1][2] ELSE At(Tail(r), p - r[1][1])
\* d was shown for want bytes at off
Erased(p) == UNION {{h.zb[j] : j \in 1..Len(h.zb)} : h \in HitOf(p, "file")}
\* blocks Z were erased completely (-1: any block)
\* whole blocks at the beginning of d that are in one run there and in one run of some version: walked at once
RECURSIVE RunAt(_, _)
RunAt(r, p) == IF r = <<>> THEN <<0, 0>> ELSE IF p < r[1][1] THEN <<r[1][1] - p, r[1][2]>> ELSE RunAt(Tail(r), p - r[1][1])
Ahead(d, off, want, bs, V) ==
    IF off % bs # 0 \/ d[1][1] < 2 * bs THEN 0
    ELSE LET S == {LET a == RunAt(v.c, off) IN IF a[1] > 0 /\ a[2] = d[1][2] THEN (Least(Least(a[1], d[1][1]), want) \div bs) * bs ELSE 0 : v \in V}
         IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Genuine(_, _, _, _, _, _)
Genuine(d, off, want, bs, V, Z) ==
    IF d = <<>> THEN TRUE
    ELSE IF bs = 0 THEN \A p \in Cuts(d, 0) \cup UNION {{q - off : q \in Cuts(v.c, 0)} : v \in V} : p >= 0 /\ p < LenR(d) => At(d, p) = 0 \/ \E v \in V : At(v.c, off + p) = At(d, p)
    ELSE LET k == Ahead(d, off, want, bs, V) IN IF k > 0 THEN Genuine(DropR(d, k), off + k, want - k, bs, V, Z)
    ELSE LET n == Least(bs - (off % bs), want)
             x == TakeR(d, n)
         IN ((Zeros(x) /\ (-1 \in Z \/ off \div bs \in Z)) \/ \E v \in V : ReadR(v.c, off, n) = x) /\ Genuine(DropR(d, n), off + n, want - n, bs, V, Z)
\* the full format seals the list of blocks: what is shown comes from one single version (cut at a block boundary or among zeros, or longer by zeros)
RECURSIVE Follows(_, _, _, _, _)
Follows(d, off, want, bs, v) ==
    IF d = <<>> THEN TRUE
    ELSE LET k == Ahead(d, off, want, bs, {v}) IN IF k > 0 THEN Follows(DropR(d, k), off + k, want - k, bs, v)
    ELSE LET n == Least(bs - (off % bs), want)
             x == TakeR(d, n)
             y == ReadR(v.c, off, n)
         IN (y = x \/ (Zeros(x) /\ Zeros(TakeR(y, LenR(x))))) /\ Follows(DropR(d, n), off + n, want - n, bs, v)
Authentic(p, d, off, want, V) == IF Full /\ T.bs # 0 THEN d = <<>> \/ \E v \in V : v.k = "f" /\ Follows(d, off, want, T.bs, v) ELSE Genuine(d, off, want, T.bs, V, Erased(p))
Sources(p) ==      \* versions of the content the object at p may have
    IF Full THEN B.hist[Ino(p)]
    ELSE UNION {UNION {LET f == B.past[h.src[j].n] i == ShownFrom(f, cfg, Root, h.src[j].p) IN IF i = 0 THEN {} ELSE B.hist[i] : j \in 1..Len(h.src)} : h \in HitOf(p, "file")}
ContentHits(p) == HitOf(p, "file") \cup HitOf(p, "data") \cup HitOf(p, "obj")
Whole(p) == \E h \in ContentHits(p) : h.whole
Touched(p, off, len) == Whole(p) \/ \E h \in ContentHits(p) : \E j \in 1..Len(h.blocks) : h.bs = 0 \/ (h.blocks[j] * h.bs < off + len /\ off < (h.blocks[j] + 1) * h.bs)

ListLoose(p, i, ls) ==
    LET S == {<<ls[j][1], ls[j][2]>> : j \in 1..Len(ls)}
        keep == {x \in Listing(fs, i) : ~Has(Append(p, x[1]), "name")}
    IN (IF keep \subseteq S THEN {} ELSE {<<p, "entries not altered are missing", keep \ S>>})
       \cup {<<p, "name never stored", x>> : x \in {x \in S : x \notin Listing(fs, i) /\ ~((Has(p, "extra") \/ Has(Append(p, x[1]), "name")) /\ x[1] \in E.names)}}
\* an older state of the directory, or part of one
ListPart(p, V, ls) == {<<p, "entry never stored", ls[j]>> : j \in {j \in 1..Len(ls) : ~\E v \in V : <<ls[j][1], ls[j][2]>> \in v.ls}}
XattrOk(p, V, o) == \A j \in 1..Len(o.x) : o.x[j][1] \in E.attrs /\ (o.x[j][2] = "?21" \/ IF Full THEN \E v \in V : <<o.x[j][1], o.x[j][2]>> \in v.x ELSE o.x[j][1] \in E.attrs /\ o.x[j][2] \in E.vals)

\* something at a place whose name or directory was altered
Strange(o, bad) ==
    {<<o.p, "name never stored">> : k \in {k \in 1..Len(o.p) : o.p[k] \notin E.names}}
    \cup (IF o.k = "f" /\ o.d # <<<<-1, -1>>>> /\ ~Genuine(o.d, 0, Everything, T.bs, E.v, {-1}) THEN {<<o.p, "content never stored", o.d>>} ELSE {})
    \cup (IF o.k = "l" /\ o.t \notin E.targets /\ o.p \notin bad THEN {<<o.p, "target never stored", o.t>>} ELSE {})
    \cup (IF o.k = "d" /\ \E j \in 1..Len(o.ls) : o.ls[j][1] \notin E.names THEN {<<o.p, "names never stored", o.ls>>} ELSE {})
    \cup (IF o.hasx /\ ~XattrOk(o.p, E.v, o) THEN {<<o.p, "attribute never stored", o.x>>} ELSE {})
    \cup (IF Full /\ o.k # "l" /\ <<o.m, o.u, o.g>> \notin E.own THEN {<<o.p, "mode or owner never stored", o.m, o.u, o.g>>} ELSE {})
HitDiff(o, i, bad) ==
    LET V == B.hist[i]
        nd == fs.n[i]
        obj == Has(o.p, "obj")
    IN (IF o.k = nd.k THEN {} ELSE {<<o.p, "kind", o.k>>})
       \cup (IF obj THEN (IF o.k # "l" /\ ~\E v \in V : v.m = o.m /\ v.u = o.u /\ v.g = o.g THEN {<<o.p, "mode or owner never stored", o.m, o.u, o.g>>} ELSE {})
             ELSE {<<o.p, d>> : d \in AttrDiff(fs, cfg, i, o) \ ({"atime", "mtime", "ctime"} \cup IF ContentHits(o.p) # {} \/ Has(o.p, "link") THEN {"size"} ELSE {})})
       \cup (IF o.k = "f" /\ o.d # nd.c /\ ~(ContentHits(o.p) # {} /\ (o.d = <<<<-1, -1>>>> \/ Authentic(o.p, o.d, 0, Everything, Sources(o.p)))) THEN {<<o.p, "content never stored there", o.d>>} ELSE {})
       \cup (IF o.k = "l" /\ o.t # nd.t /\ ~(o.t = "" /\ o.p \in bad)
                /\ ~(IF Full THEN \E v \in V : v.t = o.t ELSE Has(o.p, "link") /\ o.t \in E.targets) THEN {<<o.p, "target never stored", o.t>>} ELSE {})
       \cup (IF o.k = "d" /\ nd.k = "d" /\ ~(o.p \in bad /\ o.ls = <<>>) THEN (IF obj \/ Has(o.p, "data") THEN ListPart(o.p, V, o.ls) ELSE ListLoose(o.p, i, o.ls)) ELSE {})
       \cup (IF o.hasx /\ nd.k # "l"
                /\ ~(Len(o.x) = Cardinality(DOMAIN nd.x) /\ {<<o.x[j][1], o.x[j][2]>> : j \in 1..Len(o.x)} = XattrSet(nd))
                /\ ~((Has(o.p, "x") \/ o.p \in bad) /\ XattrOk(o.p, V, o)) THEN {<<o.p, "attributes", o.x>>} ELSE {})
Entry(o, bad) ==
    LET i == Ino(o.p) IN
    IF Cut(o.p) THEN Strange(o, bad)
    ELSE IF i = 0 THEN (IF MayAppear(o.p) THEN Strange(o, bad) ELSE {<<o.p, "unexpected entry">>})
    ELSE IF Hit(o.p) THEN HitDiff(o, i, bad)
    ELSE IF fs.n[i].k = "d" /\ o.k = "d" THEN {x \in EntryDiff(fs, cfg, o) : x[2] # "listing"} \cup ListLoose(o.p, i, o.ls)
    ELSE EntryDiff(fs, cfg, o)
RECURSIVE Shows(_, _)
Shows(i, p) == {p} \cup (IF fs.n[i].k # "d" THEN {} ELSE UNION {Shows(fs.n[i].e[c].i, Append(p, fs.n[i].e[c].nm)) : c \in DOMAIN fs.n[i].e})
SnapBad(e) ==
    LET bad == {e.errp[j] : j \in 1..Len(e.errp)}
        seen == {e.snap[j].p : j \in 1..Len(e.snap)}
    IN UNION {Entry(e.snap[j], bad) : j \in 1..Len(e.snap)}
       \cup {<<p, "error reading what was not altered">> : p \in {p \in bad : ~MayFail(p) /\ ~(Ino(p) = 0 /\ MayAppear(p))}}
       \cup {<<p, "missing">> : p \in {p \in Shows(Root, <<>>) \ (seen \cup bad) : ~Cut(p) /\ ~\E q \in Heads(p) \ {p} : Has(q, "data") \/ (Has(q, "table") /\ q \in bad)}}

Bad(e) ==
    CASE e.op = "snap" -> (IF e.r = "OK" THEN SnapBad(e) ELSE IF (e.r \in {"mount:EPERM", "mount:EINVAL", "mount:EIO"}) /\ Full /\ (Has(<<>>, "obj") \/ Has(<<>>, "data")) THEN {} ELSE {<<"result", e.r>>})
      [] e.op = "open" -> (IF e.r = "OK" \/ MayFail(e.p) THEN {} ELSE {<<e.p, "cannot be opened", e.r>>})
      [] e.op = "read" -> (IF e.h \notin DOMAIN bound THEN {}
                           ELSE LET p == bound[e.h] IN
                                IF Cut(p) THEN (IF e.r # "OK" \/ Genuine(e.d, e.off, e.len, T.bs, E.v, {-1}) THEN {} ELSE {<<p, "content never stored", e.d>>})
                                ELSE IF ~Touched(p, e.off, e.len) THEN (IF e.r = "OK" /\ e.d = ReadR(fs.n[Ino(p)].c, e.off, e.len) THEN {} ELSE {<<p, "content that was not altered", e.r>>})
                                ELSE IF e.r # "OK" \/ Authentic(p, e.d, e.off, e.len, Sources(p)) THEN {} ELSE {<<p, "content never stored there", e.off, e.d>>})
      [] e.op = "readlink" -> (IF e.r # "OK" THEN (IF MayFail(e.p) THEN {} ELSE {<<e.p, "cannot be read", e.r>>})
                               ELSE IF ~Hit(e.p) /\ ~Cut(e.p) THEN (IF e.t = fs.n[Ino(e.p)].t THEN {} ELSE {<<e.p, "target", e.t>>})
                               ELSE IF e.t \in E.targets THEN {} ELSE {<<e.p, "target never stored", e.t>>})
      [] e.op \in {"remount", "release"} -> {}
      [] e.op = "getxattr" -> (IF e.r # "OK" \/ e.sz = 0 THEN (IF MayFail(e.p) THEN {} ELSE {<<e.p, "attribute cannot be read", e.r>>})
                               ELSE IF ~Hit(e.p) /\ ~Cut(e.p) THEN (IF <<e.x, e.v>> \in XattrSet(fs.n[Ino(e.p)]) THEN {} ELSE {<<e.p, "attribute", e.v>>})
                               ELSE IF (IF Full /\ ~Cut(e.p) THEN \E v \in B.hist[Ino(e.p)] : <<e.x, e.v>> \in v.x ELSE e.v \in E.vals) THEN {} ELSE {<<e.p, "value never stored", e.v>>})
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ hit = <<>> /\ bound = Empty /\ gone = FALSE
        /\ IF B.bad = {} THEN st = "run" ELSE st = "bad" /\ PrintT(<<"REJECT", tid, 1, ToString(<<"base", B.bad>>)>>)
Ev == T.ev
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, hit, bound, gone>>
Step == /\ l <= Len(Ev) /\ UNCHANGED <<tid, gone>>
        /\ LET e == Ev[l] IN
           IF e.op = "tamper" THEN hit' = e.hit /\ l' = l + 1 /\ UNCHANGED <<st, bound>>
           ELSE LET d == Bad(e) IN
                IF d = {} THEN /\ l' = l + 1 /\ UNCHANGED <<st, hit>>
                               /\ bound' = IF e.op = "open" /\ e.r = "OK" THEN Put(bound, e.h, e.p) ELSE IF e.op = "release" THEN Del(bound, e.h) ELSE IF e.op = "remount" THEN Empty ELSE bound
                ELSE st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(d)>>) /\ UNCHANGED <<l, hit, bound>>
Next == st = "run" /\ (Finish \/ Step)
Spec == Init /\ [][Next]_vars
=============================================================================
