------------------------------- MODULE Timer -------------------------------
(* The timer behind the idle shutdown: a worker waits under a lock until a captured deadline or until it is woken, looks again, and fires or waits on.
   Setters move the deadline (activities: they read the clock, then set clock + Timeout); an owner destroys it.
   Design: "good"; "lostwake" (a later deadline cancels a wake-up that was asked for and not yet taken), "nowake" (an earlier deadline does not wake),
   "nolook" (fires without looking at the deadline again), "restart" (a deadline set after it fired starts it again), "stale" (an activity may set a
   deadline computed from a clock reading that is older than another activity) *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Design, MaxTime, MaxSet, Timeout, Setters, Free
\* Free: setters choose any deadline; otherwise they are activities
VARIABLES now, dl, wake, exiting, gone, w, wd, fired, sets, pc, x, lastb, early
vars == <<now, dl, wake, exiting, gone, w, wd, fired, sets, pc, x, lastb, early>>
Init == /\ now = 0 /\ dl = -1 /\ wake = FALSE /\ exiting = FALSE /\ gone = FALSE /\ w = "none" /\ wd = -1 /\ fired = 0 /\ sets = 0
        /\ pc = [p \in Setters |-> "idle"] /\ x = [p \in Setters |-> -1] /\ lastb = -1 /\ early = FALSE
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<dl, wake, exiting, gone, w, wd, fired, sets, pc, x, lastb, early>>
SetTo(d) == /\ wake' = IF Design = "nowake" THEN FALSE ELSE IF Design = "lostwake" THEN d < dl ELSE (wake \/ d < dl)
            /\ dl' = d
            /\ w' = IF w = "none" \/ (w = "done" /\ Design = "restart") THEN "loop" ELSE w
Choose(p) == /\ Free /\ ~exiting /\ sets < MaxSet /\ sets' = sets + 1
             /\ \E d \in 0..(MaxTime + 3) : SetTo(d)
             /\ UNCHANGED <<now, exiting, gone, wd, fired, pc, x, lastb, early>>
\* an activity begins at x (its clock reading) and takes effect when the deadline is set; in the good design the reading is made under a lock
Begin(p) == /\ ~Free /\ ~exiting /\ pc[p] = "idle" /\ sets < MaxSet /\ sets' = sets + 1
            /\ Design = "stale" \/ \A q \in Setters : pc[q] = "idle"
            /\ pc' = [pc EXCEPT ![p] = "read"] /\ x' = [x EXCEPT ![p] = now]
            /\ UNCHANGED <<now, dl, wake, exiting, gone, w, wd, fired, lastb, early>>
End(p) == /\ pc[p] = "read" /\ SetTo(x[p] + Timeout) /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ lastb' = IF x[p] > lastb THEN x[p] ELSE lastb
          /\ UNCHANGED <<now, exiting, gone, wd, fired, sets, x, early>>
Loop == /\ w = "loop" /\ wd' = dl /\ w' = "wait" /\ UNCHANGED <<now, dl, wake, exiting, gone, fired, sets, pc, x, lastb, early>>
Look == /\ w = "wait" /\ (wake \/ exiting \/ now >= wd)
        /\ IF exiting THEN w' = "done" /\ UNCHANGED <<wake, early>>
           ELSE /\ wake' = FALSE
                /\ IF now >= dl \/ Design = "nolook" THEN w' = "fire" /\ early' = (early \/ now < dl \/ (~Free /\ now < lastb + Timeout)) ELSE w' = "loop" /\ UNCHANGED early
        /\ UNCHANGED <<now, dl, exiting, gone, wd, fired, sets, pc, x, lastb>>
Fire == w = "fire" /\ w' = "done" /\ fired' = fired + 1 /\ UNCHANGED <<now, dl, wake, exiting, gone, wd, sets, pc, x, lastb, early>>
Destroy == ~exiting /\ (\A p \in Setters : pc[p] = "idle") /\ exiting' = TRUE /\ UNCHANGED <<now, dl, wake, gone, w, wd, fired, sets, pc, x, lastb, early>>
Join == exiting /\ ~gone /\ w \in {"none", "done"} /\ gone' = TRUE /\ UNCHANGED <<now, dl, wake, exiting, w, wd, fired, sets, pc, x, lastb, early>>
Next == Tick \/ Loop \/ Look \/ Fire \/ Destroy \/ Join \/ \E p \in Setters : Choose(p) \/ Begin(p) \/ End(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Loop) /\ WF_vars(Look) /\ WF_vars(Fire) /\ WF_vars(Join)
NeverEarly == ~early
Once == fired <= 1
\* the worker never sleeps past the deadline in force
NeverLate == w = "wait" /\ ~wake /\ ~exiting => wd <= dl
Silent == gone => w \in {"none", "done"}
Destroyed == exiting ~> gone
Fires == [](dl >= 0 /\ dl <= MaxTime => <>(fired = 1 \/ exiting \/ dl > MaxTime))
=============================================================================
