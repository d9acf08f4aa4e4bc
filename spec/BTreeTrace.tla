----------------------------- MODULE BTreeTrace -----------------------------
(* Judges recorded histories of one real directory index: {"id", "cfg": [M, ord: [name |-> rank]], "ev"}.  The state is the exact map
   from the rank of a name to <<name, id, type>>. *)
EXTENDS BTree, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, m, st
vars == <<tid, l, m, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ m = <<>> /\ st = "run"
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
Ord(nm) == IF nm \in DOMAIN Cfg.ord THEN Cfg.ord[nm] ELSE -1
Entries == {m[k] : k \in DOMAIN m}
If(c, s) == IF c THEN {} ELSE {s}
Diff(e) ==
    LET k == IF "n" \in DOMAIN e THEN Ord(e.n) ELSE 0
        has == k \in DOMAIN m
        B(x) == IF x THEN 1 ELSE 0
    IN CASE e.op = "add" -> If(e.r = B(~has), <<"answer", e.r>>)
         [] e.op = "del" -> If(e.r = B(has), <<"answer", e.r>>) \cup (IF has /\ e.r = 1 THEN If(<<e.id, e.t>> = <<m[k][2], m[k][3]>>, <<"identity or kind", e.id, e.t>>) ELSE {})
         [] e.op = "get" -> If(e.r = B(has), <<"answer", e.r>>) \cup (IF has /\ e.r = 1 THEN If(<<e.nm, e.id, e.t>> = m[k], <<"entry", e.nm, e.id, e.t>>) ELSE {})
         [] e.op = "empty" -> If(e.r = B(m = <<>>), <<"answer", e.r>>)
         [] e.op = "iter" -> If(e.r = 0, <<"answer", e.r>>) \cup (IF e.r # 0 THEN {} ELSE
                                If(Distinct(e.e), "enumerated twice") \cup If(Range(e.e) = Entries, <<"enumerates", Range(e.e) \ Entries, Entries \ Range(e.e)>>))
         [] e.op = "dump" -> If(e.r = 0, <<"answer", e.r>>) \cup (IF e.r # 0 THEN {} ELSE If(e.rest = 0, "a part of a page") \cup
                                LET bad == Problems(e, Cfg.M, Ord) IN
                                IF bad # {} THEN bad ELSE If(Range(Whole(e).e) = Entries, <<"stored", Range(Whole(e).e) \ Entries, Entries \ Range(Whole(e).e)>>))
         [] OTHER -> If(e.r = 0, <<"answer", e.r>>)
After(e) == LET k == IF "n" \in DOMAIN e THEN Ord(e.n) ELSE 0 IN
            CASE e.op = "add" /\ e.r = 1 -> (k :> <<e.n, e.tag, e.ty>>) @@ m
              [] e.op = "del" /\ e.r = 1 -> [x \in DOMAIN m \ {k} |-> m[x]]
              [] OTHER -> m
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, m>>
Step == /\ l <= Len(Ev)
        /\ LET e == Ev[l] d == Diff(e) IN
           IF d = {} THEN m' = After(e) /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
           ELSE st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(d)>>) /\ UNCHANGED <<tid, l, m>>
Next == st = "run" /\ (Finish \/ Step)
Spec == Init /\ [][Next]_vars
=============================================================================
