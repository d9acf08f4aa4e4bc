---------------------------- MODULE MigrateTrace ----------------------------
(* Histories of a repository created, migrated to other long name suffixes and inspected by the command line program, and used between
   migrations.  The tree is that of FileTree; a migration that succeeds leaves it as it is, except the time stamps that the renaming of
   stored objects moves.  After a migration that failed or was interrupted by a fault the tree is only known again after a repetition. *)
EXTENDS TreeMatch, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, fs, st, cfg,
          par,      \* parameters: a record shown by info
          half      \* "" or the suffix of the interrupted migration
vars == <<tid, l, fs, st, cfg, par, half>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg /\ fs = InitFs(Traces[tid].cfg) /\ st = "run"
        /\ par = [fmt |-> ""] /\ half = ""
Ev == Traces[tid].ev
\* a suffix: its length, whether it contains a slash, and whether it has only characters of encrypted names
Suitable(s) == s.len \in 1..178 /\ ~s.slash /\ ~s.plain
HasLinks == \E i \in DOMAIN fs.n : fs.n[i].k = "l"
Legit(e) == /\ e.right /\ par.fmt = "lite"
            /\ IF par.thr > 0 THEN Suitable(e.s) ELSE (e.s.len = 0 \/ Suitable(e.s)) /\ ~HasLinks
Loosened == [fs EXCEPT !.n = [i \in DOMAIN fs.n |-> [fs.n[i] EXCEPT !.ct = {}, !.mt = IF fs.n[i].k = "d" THEN {} ELSE @, !.at = IF fs.n[i].k = "d" THEN {} ELSE @]]]
Sfx(s) == IF s = "" THEN ".." ELSE s      \* an empty suffix stands for the one of old versions
ParAfter(p, s, thr) == [p EXCEPT !.suf = s, !.thr = IF @ > 0 THEN @ ELSE thr]
\* differences and what follows: <<d, fs, par, half>>
Migration(e) ==
    IF e.r = "OK" THEN <<(IF Legit(e) THEN {} ELSE {<<"accepted">>}) \cup (IF half # "" /\ half # e.s.t THEN {<<"script">>} ELSE {}), Loosened, ParAfter(par, e.s.t, e.thr), "">>
    ELSE IF ~Legit(e) THEN <<(IF e.same THEN {} ELSE {<<"changed by a refused migration">>}) \cup (IF e.r = "NO" THEN {} ELSE {<<e.r>>}), fs, par, half>>
    ELSE IF e.r = "CRASH" \/ (e.fault /\ e.r = "NO") THEN <<{}, Loosened, par, e.s.t>>
    ELSE <<{<<"refused", e.r>>}, fs, par, half>>
InfoDiff(e) ==
    IF e.r # "OK" THEN {<<"info", e.r>>}
    ELSE LET want == {par} \cup (IF half = "" THEN {} ELSE {ParAfter(par, half, e.par.thr)})
         IN IF e.par \in want THEN {} ELSE {<<"parameters", e.par, "expected", want>>}
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, fs, cfg, par, half>>
Bad(d) == st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(d)>>) /\ UNCHANGED <<tid, l, fs, cfg, par, half>>
Step == /\ l <= Len(Ev)
        /\ LET e == Ev[l] IN
           CASE e.op = "made" -> par' = e.par /\ l' = l + 1 /\ UNCHANGED <<tid, fs, st, cfg, half>>
             [] e.op = "migrate" -> LET m == Migration(e) IN
                                    IF m[1] = {} THEN fs' = m[2] /\ par' = m[3] /\ half' = m[4] /\ l' = l + 1 /\ UNCHANGED <<tid, st, cfg>> ELSE Bad(m[1])
             [] e.op = "info" -> IF InfoDiff(e) = {} THEN l' = l + 1 /\ UNCHANGED <<tid, fs, st, cfg, par, half>> ELSE Bad(InfoDiff(e))
             [] OTHER -> LET r == Apply(fs, cfg, e) d == Diff(fs, cfg, e, r)
                         IN IF half # "" THEN Bad({<<"script">>})
                            ELSE IF d = {} THEN fs' = After(fs, cfg, e, r) /\ l' = l + 1 /\ UNCHANGED <<tid, st, cfg, par, half>> ELSE Bad(d)
Next == st = "run" /\ (Finish \/ Step)
Spec == Init /\ [][Next]_vars
Inv == TreeInv(fs)
=============================================================================
