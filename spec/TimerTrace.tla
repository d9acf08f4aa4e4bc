----------------------------- MODULE TimerTrace -----------------------------
(* Judges recorded histories of the real timer (times in microseconds from the start of the trace).
   kind "timer": set(b, e, d): the deadline d was set by a call from b to e (one after another); kind "idle": act(b, e): an activity from b to e (any overlap),
   timeout: the idle time.  fire(b): the callback was entered; waited(b, e): the program waited in vain or until the callback; destroyed(b, e); end.
   The callback may come late by any scheduling delay: it is early only when at no instant before it the deadline in force had passed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, st
T == Traces[tid]
Of(ev, op) == {i \in 1..Len(ev) : ev[i].op = op}
Max(S) == CHOOSE m \in S : \A k \in S : k <= m
\* some instant t <= f at which the deadline set by the i-th event was in force (it is until the next set ends) and had passed
Passed(ev, i, f) == LET nxt == {j \in Of(ev, "set") : j > i} IN
    ev[i].d <= f /\ ev[i].b <= f /\ \A j \in nxt : (\A k \in nxt : k >= j) => ev[j].e >= ev[i].d
\* an instant t at which an idle period may have ended: some activity may be that old and none is known to have happened in (t - timeout, t]
Quiet(ev, timeout, t) == (\E i \in Of(ev, "act") : ev[i].b <= t - timeout) /\ \A i \in Of(ev, "act") : ev[i].b <= t - timeout \/ ev[i].e > t
Early(t, f) == IF t.kind = "timer" THEN ~\E i \in Of(t.ev, "set") : Passed(t.ev, i, f)
               ELSE ~\E c \in {f} \cup {t.ev[i].e - 1 : i \in Of(t.ev, "act")} : c <= f /\ Quiet(t.ev, t.timeout, c)
Due(t) == IF t.kind = "timer" THEN Max({t.ev[Max(Of(t.ev, "set"))].d, t.ev[Max(Of(t.ev, "set"))].e}) ELSE Max({t.ev[i].e : i \in Of(t.ev, "act")}) + t.timeout
Diff(t) ==
    LET ev == t.ev
        F == Of(ev, "fire")
        D == Of(ev, "destroyed")
        W == Of(ev, "waited")
    IN  {<<"fires early", ev[i].b>> : i \in {j \in F : Early(t, ev[j].b)}}
        \cup (IF Cardinality(F) > 1 THEN {<<"fires again">>} ELSE {})
        \cup {<<"fires although destroyed", ev[i].b>> : i \in {j \in F : \E k \in D : ev[j].b > ev[k].e}}
        \cup {<<"destruction hangs", ev[i].e - ev[i].b>> : i \in {j \in D : ev[j].e - ev[j].b > t.patience}}
        \* it was waited for long enough after the deadline
        \cup {<<"does not fire", Due(t)>> : i \in {j \in W : F = {} /\ (IF t.kind = "timer" THEN Of(ev, "set") # {} ELSE TRUE) /\ ev[j].e >= Due(t) + t.patience}}
        \cup {<<"fires late", ev[i].b>> : i \in {j \in F : ev[j].b > Due(t) + t.patience}}
Init == tid \in 1..Len(Traces) /\ st = "run"
Next == /\ st = "run" /\ UNCHANGED tid
        /\ IF Diff(T) = {} THEN st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(T.ev)>>)
           ELSE st' = "bad" /\ PrintT(<<"REJECT", tid, Len(T.ev), ToString(Diff(T))>>)
Spec == Init /\ [][Next]_<<tid, st>>
=============================================================================
