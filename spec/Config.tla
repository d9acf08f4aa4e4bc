------------------------------- MODULE Config -------------------------------
(* Repository configurations: who may open them, and what they say.
   A repository directory has two places for its configuration, "pb" (current) and "js" (the legacy file name); reading prefers pb.
   A place is Absent or a record
     s     "good" | "part" (creation was interrupted) | "alt" (somebody altered the file) | "junk" (not a configuration)
     cred  <<password, content of the key file>>
     par   the parameters it holds: number of the creation that made them
     dig   a number for the bytes of the file, 0 = not known (set by the trace specification) *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Absent == [s |-> "absent", cred |-> <<"", "">>, par |-> 0]
Cfg(s, c, p) == [s |-> s, cred |-> c, par |-> p]
\* Without a password and with a key file the program uses a single space as the password.
Norm(c) == IF c[1] = "" /\ c[2] # "none" THEN <<" ", c[2]>> ELSE c
Places == {"pb", "js"}
ReadPlace(d) == IF d["pb"].s # "absent" THEN "pb" ELSE IF d["js"].s # "absent" THEN "js" ELSE "none"
Place(d, op) == IF op.at = "auto" THEN ReadPlace(d) ELSE op.at
\* the answers an operation may give ("OK" or "NO") and the directory afterwards, as a set of <<answer, directory>>
Apply(d, op, nextpar) ==
    CASE op.op = "create" ->
            LET pl == IF op.at = "auto" THEN "pb" ELSE op.at
                taken == IF op.at = "auto" THEN ReadPlace(d) # "none" ELSE d[op.at].s # "absent"
            IN IF taken \/ op.bad THEN {<<"NO", d>>} ELSE {<<"OK", [d EXCEPT ![pl] = Cfg("good", Norm(op.cred), nextpar)]>>}
      [] op.op \in {"info", "mount"} ->
            LET pl == Place(d, op) IN
            IF pl = "none" THEN {<<"NO", d>>}
            ELSE LET c == d[pl] IN
                 IF c.s \in {"absent", "junk"} \/ c.cred # Norm(op.cred) THEN {<<"NO", d>>}
                 ELSE IF c.s = "good" THEN {<<"OK", d>>} ELSE {<<"OK", d>>, <<"NO", d>>}
      [] op.op = "chpass" ->
            LET pl == Place(d, op) IN
            IF pl = "none" THEN {<<"NO", d>>}
            ELSE LET c == d[pl]
                     new == [d EXCEPT ![pl] = Cfg("good", Norm(op.new), c.par)]
                 IN IF c.s \in {"absent", "junk"} \/ c.cred # Norm(op.cred) \/ op.bad THEN {<<"NO", d>>}
                    ELSE IF c.s = "good" THEN {<<"OK", new>>} ELSE {<<"OK", new>>, <<"NO", d>>}
\* the process died, or a storage call failed, somewhere within the operation
AfterBreak(d, op, nextpar) ==
    {d} \cup {r[2] : r \in Apply(d, op, nextpar)}
    \cup (IF op.op = "create" THEN {[r[2] EXCEPT ![IF op.at = "auto" THEN "pb" ELSE op.at].s = "part"] : r \in {r \in Apply(d, op, nextpar) : r[1] = "OK"}} ELSE {})
=============================================================================
