----------------------------- MODULE LayoutTrace -----------------------------
(* The stored form carries the tree.  Traces are those of TreeTrace (operations, answers, snapshots by the real code), with further events:
     stored  the data directory as read by the independent reader of lib/layout.py (which knows only keys and Layout): it must show exactly the tree of the
             specification, every object being exactly as long as Layout says, directories in the order their readers search in;
   and operations that were not executed by the real code but put into the data directory by the independent writer: the tree the real code has to show. *)
EXTENDS TreeMatch, Layout, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, fs, st, cfg
vars == <<tid, l, fs, st, cfg>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg /\ fs = InitFs(Traces[tid].cfg) /\ st = "run"
Ev == Traces[tid].ev
Sz == Traces[tid].sizes     \* [bs, iv, st]
Rank == Traces[tid].rank
Sorted(s) == \A j \in 1..Len(s) - 1 : Rank[s[j]] < Rank[s[j + 1]]
PagesOk(n, entries) == n % PageLen = 0 /\ (entries > 0 => n > 0)
\* o: [p, k, stored, meta, pad, len (content of a directory), order]
ObjDiff(o) ==
    LET i == ShownFrom(fs, cfg, Root, o.p) IN
    IF i = 0 THEN {}        \* reported by SnapDiff
    ELSE LET nd == fs.n[i]
             n == IF nd.k = "d" THEN o.len ELSE SizeOf(nd)
         IN IF cfg.fmt = "full"
            THEN (IF o.stored = FullData(n, o.pad) THEN {} ELSE {<<o.p, "stored length", ToString(<<o.stored, FullData(n, o.pad)>>)>>})
                 \cup (IF o.meta = FullMeta(n, Sz.bs, Sz.iv, o.pad, Sz.st) THEN {} ELSE {<<o.p, "list length", ToString(<<o.meta, FullMeta(n, Sz.bs, Sz.iv, o.pad, Sz.st)>>)>>})
                 \cup (IF nd.k # "d" \/ PagesOk(o.len, Cardinality(DOMAIN nd.e)) THEN {} ELSE {<<o.p, "pages">>})
                 \cup (IF Sorted(o.order) THEN {} ELSE {<<o.p, "order of entries", ToString(o.order)>>})
            ELSE IF nd.k # "f" \/ o.stored = LiteLen(n, Sz.bs, Sz.iv, o.pad) \/ (n = 0 /\ o.stored = 0) THEN {} ELSE {<<o.p, "stored length", ToString(<<o.stored, LiteLen(n, Sz.bs, Sz.iv, o.pad)>>)>>}
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, fs, cfg>>
SetCfg == l <= Len(Ev) /\ Ev[l].op = "cfg" /\ cfg' = Ev[l].cfg /\ l' = l + 1 /\ UNCHANGED <<tid, fs, st>>
Reject(d) == st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(d)>>) /\ UNCHANGED <<tid, l, fs, cfg>>
Stored == /\ l <= Len(Ev) /\ Ev[l].op = "stored"
          /\ LET e == Ev[l]
                 d == (IF e.r = "OK" THEN {} ELSE {<<<<e.r>>, "unreadable">>}) \cup SnapDiff(fs, cfg, e.snap, e.errs) \cup UNION {ObjDiff(e.objs[j]) : j \in 1..Len(e.objs)}
             IN IF d = {} THEN l' = l + 1 /\ UNCHANGED <<tid, fs, st, cfg>> ELSE Reject(d)
Step == /\ l <= Len(Ev) /\ Ev[l].op \notin {"cfg", "stored"}
        /\ LET e == Ev[l]
               r == Apply(fs, cfg, e)
               d == Diff(fs, cfg, e, r)
           IN IF d = {} THEN fs' = After(fs, cfg, e, r) /\ l' = l + 1 /\ UNCHANGED <<tid, st, cfg>> ELSE Reject(d)
Next == st = "run" /\ (Finish \/ SetCfg \/ Stored \/ Step)
Spec == Init /\ [][Next]_vars
Inv == TreeInv(fs)
=============================================================================
