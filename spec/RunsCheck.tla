------------------------------ MODULE RunsCheck ------------------------------
(* Refinement check: every run operator agrees with the same operation on an explicit byte array, for all small files. *)
EXTENDS Runs, TLC, FiniteSets
CONSTANTS MaxSize, Tags
VARIABLES r, b     \* run-length file, and the same file as an array of tags

Explode(x) == [i \in 1..LenR(x) |-> LET RECURSIVE At(_, _)
                                        At(y, k) == IF k <= y[1][1] THEN y[1][2] ELSE At(Tail(y), k - y[1][1])
                                    IN At(x, i)]
WriteB(a, off, len, t) == IF len = 0 THEN a ELSE
    [i \in 1..(IF off + len > Len(a) THEN off + len ELSE Len(a)) |->
        IF i > off /\ i <= off + len THEN t ELSE IF i <= Len(a) THEN a[i] ELSE 0]
TruncB(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
ReadB(a, off, len) == [i \in 1..(IF off >= Len(a) THEN 0 ELSE IF off + len > Len(a) THEN Len(a) - off ELSE len) |-> a[off + i]]

Init == r = <<>> /\ b = <<>>
Next == \/ \E off \in 0..MaxSize, len \in 0..MaxSize, t \in Tags :
              off + len <= MaxSize /\ r' = WriteR(r, off, len, t) /\ b' = WriteB(b, off, len, t)
        \/ \E n \in 0..MaxSize : r' = TruncR(r, n) /\ b' = TruncB(b, n)
Spec == Init /\ [][Next]_<<r, b>>
Agree == /\ Explode(r) = b
         /\ LenR(r) = Len(b)
         /\ \A i \in 1..Len(r) : r[i][1] > 0 /\ (i > 1 => r[i][2] # r[i-1][2])     \* normal form: equality is canonical
         /\ \A off \in 0..MaxSize, len \in 0..MaxSize : Explode(ReadR(r, off, len)) = ReadB(b, off, len)
=============================================================================
