---------------------------- MODULE LockerTrace ----------------------------
(* Judges recorded histories of processes that mount, use and unmount one repository: who has it, whether a refusal has a reason, whether
   anything is stored by somebody who does not have it, and whether a lock remains.  Nothing is said about how the lock works.
   Events: try(p, ro), ok(p), no(p), change(p) (something other than the lock is about to be changed), leave(p), left(p), kill(p), look (is a lock file there?),
   seen(p, ok) (what the process found in the repository is all that earlier holders left there) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st, stat, met, stale
vars == <<tid, l, st, stat, met, stale>>
Procs(t) == {Traces[t].ev[i].p : i \in 1..Len(Traces[t].ev)}
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
        /\ stat = [p \in Procs(tid) |-> "out"] /\ met = [p \in Procs(tid) |-> FALSE]
        /\ stale = Traces[tid].stale                 \* a lock may be left by a process that was killed
Ev == Traces[tid].ev
Busy == {p \in DOMAIN stat : stat[p] \in {"try", "held", "leaving"}}
Held == {p \in DOMAIN stat : stat[p] = "held"}
Have == {p \in DOMAIN stat : stat[p] \in {"held", "leaving"}}
Diff(e) ==
    CASE e.op = "ok" -> IF stat[e.p] = "try" /\ Held # {} THEN {<<"mounted although", Held, "has the repository">>} ELSE {}
      [] e.op = "no" -> (IF stat[e.p] = "ro" /\ ~Traces[tid].fresh THEN {<<"a reader is refused", e.r>>} ELSE {}) \cup   \* in a new repository there may be nothing to read yet
                          (IF stat[e.p] = "try" /\ ~met[e.p] THEN {<<"refused although nobody else is there", e.r>>} ELSE {})
      [] e.op = "change" -> (IF stat[e.p] = "ro" THEN {<<"a reader changes", e.what>>} ELSE {})
                            \cup (IF stat[e.p] = "try" /\ Held # {} THEN {<<"changes", e.what, "although", Held, "has the repository">>} ELSE {})
                            \cup (IF stat[e.p] \in {"held", "leaving"} /\ Held \ {e.p} # {} THEN {<<"changes", e.what, "although", Held, "has the repository">>} ELSE {})
      [] e.op = "unlocks" -> IF stat[e.p] \in {"try", "ro", "held"} /\ Have \ {e.p} # {} THEN {<<"removes the lock of", Have>>} ELSE {}
      [] e.op = "look" -> IF e.r = "yes" /\ Busy = {} /\ ~stale THEN {<<"a lock remains">>}
                          ELSE IF e.r = "no" /\ Held # {} THEN {<<"no lock although mounted by", Held>>} ELSE {}
      [] e.op = "seen" -> IF e.r = "yes" THEN {} ELSE {<<"what an earlier holder stored is missing", e.what>>}
      [] e.op = "died" -> {<<"process died", e.r>>}
      [] OTHER -> {}
Become(e) ==
    CASE e.op = "try" -> IF e.ro THEN "ro" ELSE "try"
      [] e.op = "ok" -> IF stat[e.p] = "ro" THEN "ro" ELSE "held"
      [] e.op = "no" -> "out"
      [] e.op = "leave" -> IF stat[e.p] = "ro" THEN "ro" ELSE "leaving"
      [] e.op = "left" -> "out"
      [] e.op = "kill" -> "dead"
      [] OTHER -> IF e.p \in DOMAIN stat THEN stat[e.p] ELSE "out"
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, stat, met, stale>>
Step == /\ l <= Len(Ev)
        /\ LET e == Ev[l] IN
           IF Diff(e) # {} THEN st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(Diff(e))>>) /\ UNCHANGED <<tid, l, stat, met, stale>>
           ELSE /\ stat' = [stat EXCEPT ![e.p] = Become(e)]
                /\ met' = IF e.op = "try" /\ ~e.ro THEN [q \in DOMAIN met |-> IF q = e.p THEN Busy # {} ELSE IF q \in Busy THEN TRUE ELSE met[q]] ELSE met
                \* a process killed while it may have had the lock leaves one behind; the next to mount takes it over and removes it in the end
                /\ stale' = IF e.op = "kill" THEN (stale \/ stat[e.p] \in {"try", "held", "leaving"}) ELSE IF e.op = "left" /\ stat[e.p] = "leaving" THEN FALSE ELSE stale
                /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
Next == st = "run" /\ (Finish \/ Step)
Spec == Init /\ [][Next]_vars
Inv == Cardinality(Held) <= 1
=============================================================================
