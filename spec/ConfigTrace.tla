----------------------------- MODULE ConfigTrace -----------------------------
(* Judges recorded histories of the command line program on repository configurations.
   Event fields: op, dir, at, cred (new), bad; r "OK"/"NO"/"CRASH"; par = the parameters shown by info (a record; key = number of the
   key material), ask = the options given to create; dig = number of the bytes of each place after the event (0 absent), junk = other
   files in the directory; fault = a storage call of the operation failed (it may have failed itself; lasting: all later ones failed too); alter = the check itself
   altered a file ("alter": place pl; k = "alt" or "junk"; back = 1: original bytes put back).
   "mount": the program mounts the repository and is unmounted at once; it must accept and refuse what info does.
   legacy = configurations written by earlier versions whose fields other than the keys are not authenticated. *)
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st, d, np, dig, bind, asked, keys, leg, junkok
vars == <<tid, l, st, d, np, dig, bind, asked, keys, leg, junkok>>
T == Traces[tid]
Ev == T.ev
Dirs == {T.dirs[i] : i \in 1..Len(T.dirs)}
Start(x) == [pl \in Places |-> LET y == T.init[x][pl] IN IF y.par = 0 THEN Absent ELSE Cfg("good", Norm(<<y.cred[1], y.cred[2]>>), y.par)]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
        /\ d = [x \in Dirs |-> Start(x)] /\ np = 100
        /\ dig = [x \in Dirs |-> [pl \in Places |-> T.init[x][pl].dig]]
        /\ bind = <<>> /\ asked = <<>> /\ keys = {} /\ leg = TRUE /\ junkok = [x \in Dirs |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
OpOf(e) == [op |-> IF e.op = "mount" THEN "info" ELSE e.op, at |-> e.at, cred |-> <<e.cred[1], e.cred[2]>>, new |-> IF e.op = "chpass" THEN <<e.new[1], e.new[2]>> ELSE <<"", "">>, bad |-> e.bad]
Digs(e, x) == [pl \in Places |-> e.dig[x][pl]]
pl2(op, x) == IF op.op = "create" THEN (IF op.at = "auto" THEN "pb" ELSE op.at) ELSE LET p == Place(d[x], op) IN IF p = "none" THEN "pb" ELSE p
\* the operation wrote its place (and then its bytes are new: fresh salt and nonce) or it did not; all other files are untouched
Files(e, x, pl, wrote) ==
    {<<"file changed", x, q>> : q \in {q \in Places : e.dig[x][q] # dig[x][q] /\ ~(wrote /\ q = pl)}}
    \cup (IF wrote /\ e.dig[x][pl] = dig[x][pl] THEN {<<"file not written anew", x, pl>>} ELSE {})
    \cup (IF e.dig[x][pl] = 0 /\ dig[x][pl] # 0 THEN {<<"file gone", x, pl>>} ELSE {})
\* what the configuration says agrees with what was asked for at creation, and never changes
ParDiff(e, par) ==
    IF e.r # "OK" \/ e.op # "info" THEN {}
    ELSE LET shown == [e.par EXCEPT !.key = 0]
             lgc == par < 100
         IN (IF par \in DOMAIN asked /\ asked[par] # shown THEN {<<"parameters differ from those asked for", asked[par], shown>>} ELSE {})
            \cup (IF par \in DOMAIN bind /\ (IF lgc /\ e.alt THEN bind[par].key # e.par.key ELSE bind[par] # e.par) THEN {<<"parameters changed", bind[par], e.par>>} ELSE {})
            \cup (IF par \notin DOMAIN bind /\ e.par.key \in keys THEN {<<"keys are not new">>} ELSE {})
ParOf(e) == LET pl == Place(d[e.dir], OpOf(e)) IN IF pl = "none" THEN 0 ELSE d[e.dir][pl].par
Outcomes(e) ==
    IF e.op = "alter"
    THEN {<<{}, [d[e.dir] EXCEPT ![e.pl].s = IF e.back = 1 THEN "good" ELSE IF @ = "absent" THEN @ ELSE e.k]>>}
    ELSE LET op == OpOf(e) x == e.dir pl == pl2(op, x)
             A == Apply(d[x], op, np)
             others == UNION {Files(e, y, "pb", FALSE) : y \in Dirs \ {x}}
             ext == IF e.junk > junkok[x] /\ ~e.lasting THEN {<<"files left behind", e.junk>>} ELSE {}
             broken == {<<others \cup Files(e, x, pl, FALSE), d[x]>>}
                       \cup {<<others \cup Files(e, x, pl, TRUE), d2>> : d2 \in AfterBreak(d[x], op, np)
                                                                        \ (IF e.op = "chpass" /\ op.cred = op.new THEN {} ELSE {d[x]})}
         IN IF e.r = "CRASH" THEN broken
            ELSE IF e.fault /\ e.r = "NO" THEN {<<b[1] \cup ext, b[2]>> : b \in broken}
            ELSE {<<others \cup ext \cup Files(e, x, pl, r[1] = "OK" /\ e.op \in {"create", "chpass"}) \cup ParDiff(e, ParOf(e)), r[2]>> : r \in {r \in A : r[1] = e.r}}
                 \cup (IF \A r \in A : r[1] # e.r THEN {<<{<<"answer", e.r>>}, d[x]>>} ELSE {})
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, d, np, dig, bind, asked, keys, leg, junkok>>
Good(e, d2) ==
    /\ d' = [d EXCEPT ![e.dir] = d2] /\ l' = l + 1 /\ np' = np + 1
    /\ dig' = [x \in Dirs |-> Digs(e, x)]
    /\ junkok' = [junkok EXCEPT ![e.dir] = IF e.op # "alter" /\ (e.r = "CRASH" \/ e.lasting) THEN e.junk ELSE @]
    /\ asked' = IF e.op = "create" /\ "fmt" \in DOMAIN e.ask THEN Put(asked, np, [e.ask EXCEPT !.key = 0]) ELSE asked
    /\ IF e.op = "info" /\ e.r = "OK" /\ ParOf(e) \notin DOMAIN bind
       THEN bind' = Put(bind, ParOf(e), e.par) /\ keys' = keys \cup {e.par.key} ELSE UNCHANGED <<bind, keys>>
    /\ UNCHANGED <<tid, st, leg>>
Step == /\ l <= Len(Ev)
        /\ LET e == Ev[l] O == Outcomes(e) good == {o \in O : o[1] = {}}
           IN IF good # {} THEN \E o \in good : Good(e, o[2])
              ELSE st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(UNION {o[1] : o \in O})>>) /\ UNCHANGED <<tid, l, d, np, dig, bind, asked, keys, leg, junkok>>
Next == st = "run" /\ (Finish \/ Step)
Spec == Init /\ [][Next]_vars
Inv == \A x \in Dirs, pl \in Places : d[x][pl].s = "absent" <=> d[x][pl].par = 0
=============================================================================
