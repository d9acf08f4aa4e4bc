------------------------------- MODULE NonceMC -------------------------------
(* Where nonces may come from.  A repository of places, each holding one encryption (nonce, content); a mount that keeps what it knows in memory; histories of writes (of one or two places at once), mounting again, and going on
   from an older copy of the data directory (backup, synchronisation, two computers).  For each design TLC explores all histories and collects what goes wrong; the design "fresh" (a value nobody ever had, not
   restored by anything) must be free of it, and every other must be shown to repeat a nonce: those are what changes of the code look like. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANT MaxSteps
Places == {1, 2}
Vals == {1, 2}
None == <<"none", 0, 0>>
Designs == {"fresh", "memory", "stored", "place", "content", "placecontent", "once", "handle"}
VARIABLES design, disk, mem, copy, drawn, seals, steps, bad
vars == <<design, disk, mem, copy, drawn, seals, steps, bad>>
\* disk: [place -> encryption or None, cnt]; mem: counter since mounting; drawn: values ever drawn; seals: encryptions made
InitDisk == [at |-> [p \in Places |-> None], cnt |-> 0]
Init == design \in Designs /\ disk = InitDisk /\ mem = 0 /\ copy = InitDisk /\ drawn = 0 /\ seals = {} /\ steps = 0 /\ bad = FALSE
\* the nonce of the k-th encryption of an operation
Nonce(p, v, k) == CASE design = "fresh" -> <<"r", drawn + k, 0>>
                    [] design = "memory" -> <<"m", mem + k, 0>>                         \* counted from mounting on
                    [] design = "stored" -> <<"s", disk.cnt + k, 0>>                    \* counted in the repository
                    [] design = "place" -> <<"p", p, 0>>
                    [] design = "content" -> <<"v", v, 0>>
                    [] design = "placecontent" -> <<"pv", p, v>>
                    [] design = "once" -> <<"o", drawn + 1, 0>>                         \* drawn once for an operation
                    [] design = "handle" -> IF mem > 0 THEN <<"h", mem, 0>> ELSE <<"h", drawn + 1, 0>>   \* drawn when opened
\* instance: two encryptions with the same nonce are only the same if they are the same operation's
Write(P, v) ==
    LET seq == [k \in 1..Cardinality(P) |-> IF Cardinality(P) = 2 THEN k ELSE CHOOSE p \in P : TRUE]
        new == {[n |-> Nonce(seq[k], v, k), p |-> seq[k], v |-> v, t |-> steps] : k \in 1..Len(seq)}
    IN /\ seals' = seals \cup new
       /\ bad' = (bad \/ \E a \in new : (\E b \in seals : a.n = b.n) \/ (\E b \in new : b # a /\ a.n = b.n))
       /\ disk' = [at |-> [p \in Places |-> IF p \in P THEN (CHOOSE a \in new : a.p = p).n ELSE disk.at[p]], cnt |-> disk.cnt + Len(seq)]
       /\ mem' = IF design = "handle" THEN (IF mem > 0 THEN mem ELSE drawn + 1) ELSE mem + Len(seq)
       /\ drawn' = drawn + Len(seq) /\ UNCHANGED <<design, copy>>
Remount == mem > 0 /\ mem' = 0 /\ UNCHANGED <<design, disk, copy, drawn, seals, bad>>
Backup == copy # disk /\ copy' = disk /\ UNCHANGED <<design, disk, mem, drawn, seals, bad>>
Restore == copy # disk /\ disk' = copy /\ mem' = 0 /\ UNCHANGED <<design, copy, drawn, seals, bad>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Remount \/ Backup \/ Restore \/ \E P \in SUBSET Places \ {{}}, v \in Vals : Write(P, v))
Spec == Init /\ [][Next]_vars
Sound == design = "fresh" => ~bad
Note == ~bad \/ TLCSet(1, TLCGet(1) \cup {design})
Done == PrintT(<<"unsound", TLCGet(1)>>) /\ TLCGet(1) = Designs \ {"fresh"}
ASSUME TLCSet(1, {})
=============================================================================
