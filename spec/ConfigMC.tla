------------------------------ MODULE ConfigMC ------------------------------
(* Two things on Config within small constants:
   - every transition of complete operations, printed for replay in the real program (Emit);
   - the storage steps of a password change and of a creation with a crash or a failing call between any two of them: the
     protocol must leave a configuration that opens with the old or the new credentials and has its parameters.
   A file on disk is a record [cred, par]; Design = "inplace" is the protocol without the temporary file, which
   must fail (the check asserts that it does, so that the invariant is not vacuous). *)
EXTENDS Config, Json
CONSTANTS Pws, Kfs, Emit, Design
VARIABLES d, np, pc, disk, want
vars == <<d, np, pc, disk, want>>
Nothing == [cred |-> "absent", par |-> 0]
Empty == [cred |-> "empty", par |-> 0]
Torn == [cred |-> "torn", par |-> 0]
Old == [cred |-> "old", par |-> 1]
New == [cred |-> "new", par |-> 1]
Creds == {<<p, k>> : p \in Pws, k \in Kfs} \ {<<"", "none">>}
D0 == [pl \in Places |-> IF pl = "js" THEN Absent ELSE Absent]
LegacyCred == <<"abc", "none">>
Init == /\ d \in {D0, [D0 EXCEPT !["js"] = Cfg("good", LegacyCred, 1)]}
        /\ np = 1 /\ pc = "idle" /\ want = [op |-> "none"]
        /\ disk = [x \in {"real", "tmp"} |-> [cred |-> "absent", par |-> 0]]
Ats == {"auto"}
Ops == {[op |-> "create", at |-> a, cred |-> c, bad |-> FALSE] : a \in Ats, c \in Creds}
  \cup {[op |-> "info", at |-> a, cred |-> c] : a \in Ats, c \in Creds \cup {LegacyCred}}
  \cup {[op |-> "chpass", at |-> a, cred |-> c, new |-> n, bad |-> FALSE] : a \in Ats, c \in Creds \cup {LegacyCred}, n \in Creds}
\* ---- complete operations
Show(x) == [pl \in Places |-> <<x[pl].s, x[pl].cred>>]
Whole == /\ pc = "idle" /\ Design = "none"
         /\ \E op \in Ops : \E r \in Apply(d, op, 1) :
              /\ d' = r[2]
              /\ Emit => PrintT(<<"T", ToString(Show(d)), ToJson(op), ToString(Show(r[2])), r[1] = "OK">>)
         /\ UNCHANGED <<np, pc, disk, want>>
\* ---- storage steps (one configuration, old credentials <<"o","none">>, new <<"n","none">>)
Proto == Design \in {"rename", "inplace"}
Start == /\ Proto /\ pc = "idle"
         /\ \/ want' = [op |-> "chpass"] /\ disk' = [disk EXCEPT !["real"] = Old] /\ pc' = "open"
            \/ want' = [op |-> "create"] /\ disk' = disk /\ pc' = "open"
         /\ UNCHANGED <<d, np>>
File == IF want.op = "chpass" /\ Design = "rename" THEN "tmp" ELSE "real"
Open == /\ pc = "open" /\ disk' = [disk EXCEPT ![File] = Empty] /\ pc' = "write" /\ UNCHANGED <<d, np, want>>
Write == /\ pc = "write"
         /\ \/ disk' = [disk EXCEPT ![File] = New] /\ pc' = (IF File = "tmp" THEN "rename" ELSE "done")
            \/ disk' = [disk EXCEPT ![File] = Torn] /\ pc' = "dead"
         /\ UNCHANGED <<d, np, want>>
Rename == /\ pc = "rename" /\ disk' = [disk EXCEPT !["real"] = disk["tmp"], !["tmp"] = Nothing] /\ pc' = "done" /\ UNCHANGED <<d, np, want>>
Crash == /\ pc \in {"open", "write", "rename"} /\ pc' = "dead" /\ UNCHANGED <<d, np, disk, want>>
Fail == /\ pc \in {"open", "write", "rename"} /\ pc' = "dead" /\ disk' = [disk EXCEPT !["tmp"] = Nothing] /\ UNCHANGED <<d, np, want>>
Next == Whole \/ Start \/ Open \/ Write \/ Rename \/ Crash \/ Fail
Spec == Init /\ [][Next]_vars
V == <<Show(d), pc, disk, want>>
\* a password change never loses the configuration; at most the creation that was interrupted leaves an unusable file
Safe == want.op = "chpass" => disk["real"] \in {Old, New}
Finished == pc = "done" => disk["real"] = New /\ disk["tmp"] = Nothing
=============================================================================
