------------------------------ MODULE LookTrace ------------------------------
(* Looking changes nothing.  A trace is one repository, looked at by a sequence of processes.  Events:
     image   the data directory byte by byte: sequence of <<name, kind, head, rest, meta>>, kind "d" directory, "l" link, "f" file, "m" metadata of the full format, "e" a file of the lite format without
             an identity yet; head is what holds the access time (the header of "m", everything of "e"), rest the other bytes, meta mode, owner and attributes
     view    what a mount shows: sequence of <<path, everything about it but the access time>>
     looks   a process that only looked: how it ended, what it reported for things that do not exist
   What was seen first remains. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, img, view, st
vars == <<tid, l, img, view, st>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ img = <<>> /\ view = <<>> /\ st = "run"
Ev == Traces[tid].ev
Range(s) == {s[j] : j \in DOMAIN s}
\* whether looking may rewrite headers: access times are recorded there, unless the mount is read-only
Times == Traces[tid].st /\ ~Traces[tid].ro
Same(a, b) == /\ a[1] = b[1] /\ a[4] = b[4] /\ a[5] = b[5]
              /\ \/ a[2] = b[2] /\ (a[3] = b[3] \/ (a[2] = "m" /\ Times))
                 \/ a[2] = "e" /\ b[2] = "f"
Names(s) == {s[j][1] : j \in DOMAIN s}
At(s, n) == s[CHOOSE j \in DOMAIN s : s[j][1] = n]
BadImage(e) == {<<"gone", n>> : n \in Names(img) \ Names(e.img)} \cup {<<"new", n>> : n \in Names(e.img) \ Names(img)}
               \cup {<<"changed", n>> : n \in {n \in Names(img) \cap Names(e.img) : ~Same(At(img, n), At(e.img, n))}}
BadView(e) == {<<"other", ToString(x)>> : x \in Range(e.view) \ Range(view)} \cup {<<"before", ToString(x)>> : x \in Range(view) \ Range(e.view)}
              \cup {<<"unreadable", e.errs[j]>> : j \in 1..Len(e.errs)}
Bad(e) == CASE e.op = "image" -> IF img = <<>> THEN {} ELSE BadImage(e)
            [] e.op = "view" -> IF view = <<>> THEN {<<"unreadable", e.errs[j]>> : j \in 1..Len(e.errs)} ELSE BadView(e)
            [] OTHER -> IF e.r = "OK" THEN {} ELSE {<<"failed", e.r>>}
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, img, view>>
Step == /\ l <= Len(Ev)
        /\ LET e == Ev[l] d == Bad(e) IN
           IF d = {} THEN /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
                          /\ img' = IF e.op = "image" THEN e.img ELSE img
                          /\ view' = IF e.op = "view" THEN e.view ELSE view
           ELSE st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(d)>>) /\ UNCHANGED <<tid, l, img, view>>
Next == st = "run" /\ (Finish \/ Step)
Spec == Init /\ [][Next]_vars
=============================================================================
