------------------------------ MODULE NonceTrace ------------------------------
(* What encryptions used and what became readable, recorded from everything the real code wrote.  An event is one operation of one process:
     ivs    nonces of the encryptions made: the value, its two halves, and the distance from the one before
     heads  beginnings of the cipher texts
     ids    identities, padding and salts drawn
     reuse  places where more different cipher texts than nonces were stored
     hits   plaintexts, names, targets, attributes or keys that can be read in what was written
   The repository and all its copies share one memory of what was used: a trace continues from an older copy of the data directory, in another process, with the event "branch". *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, used, st
vars == <<tid, l, used, st>>
Kinds == {"v", "a", "b", "d", "h", "i"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ used = [k \in Kinds |-> {}] /\ st = "run"
Ev == Traces[tid].ev
\* the values of one kind an event adds, as a sequence
Of(e, k) == CASE k = "v" -> [j \in 1..Len(e.ivs) |-> e.ivs[j][1]]
              [] k = "a" -> [j \in 1..Len(e.ivs) |-> e.ivs[j][2]]
              [] k = "b" -> [j \in 1..Len(e.ivs) |-> e.ivs[j][3]]
              [] k = "d" -> [j \in 1..Len(e.ivs) |-> e.ivs[j][4]]
              [] k = "h" -> e.heads
              [] k = "i" -> e.ids
Range(s) == {s[j] : j \in DOMAIN s}
What(k) == CASE k = "v" -> "nonce used before" [] k = "a" -> "first half of a nonce used before" [] k = "b" -> "last half of a nonce used before" [] k = "d" -> "nonces at the same distance as before"
             [] k = "h" -> "cipher text seen before" [] k = "i" -> "identity, padding or salt seen before"
Bad(e) == {<<What(k), ToString({x \in Range(Of(e, k)) : x \in used[k]})>> : k \in {k \in Kinds : \E x \in Range(Of(e, k)) : x \in used[k]}}
          \cup {<<What(k), "within one operation">> : k \in {k \in Kinds : Cardinality(Range(Of(e, k))) < Len(Of(e, k))}}
          \cup {<<"more cipher texts than nonces", e.reuse[j]>> : j \in 1..Len(e.reuse)}
          \cup {<<"readable", e.hits[j]>> : j \in 1..Len(e.hits)}
          \cup (IF e.r = "OK" THEN {} ELSE {<<"failed", e.r>>})
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, used>>
Step == /\ l <= Len(Ev)
        /\ LET e == Ev[l] d == Bad(e) IN
           IF d = {} THEN l' = l + 1 /\ used' = [k \in Kinds |-> used[k] \cup Range(Of(e, k))] /\ UNCHANGED <<tid, st>>
           ELSE st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(d)>>) /\ UNCHANGED <<tid, l, used>>
Next == st = "run" /\ (Finish \/ Step)
Spec == Init /\ [][Next]_vars
=============================================================================
