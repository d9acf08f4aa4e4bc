------------------------------ MODULE TreeTrace ------------------------------
(* Trace validation: every line of TRACES is one recorded run of the real code, {"id", "cfg", "ev": [...]}.  Each event
   carries the operation, its arguments and the observed answer.  A step that FileTree does not allow prints REJECT and ends the
   trace; reaching the end prints ACCEPT. *)
EXTENDS TreeMatch, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, fs, st, cfg
vars == <<tid, l, fs, st, cfg>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ cfg = Traces[tid].cfg
        /\ fs = InitFs(Traces[tid].cfg)
        /\ st = "run"
Ev == Traces[tid].ev
Finish == /\ l > Len(Ev)
          /\ st' = "ok"
          /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>)
          /\ UNCHANGED <<tid, l, fs, cfg>>
SetCfg == /\ l <= Len(Ev) /\ Ev[l].op = "cfg"          \* the mount options changed
          /\ cfg' = Ev[l].cfg /\ l' = l + 1
          /\ UNCHANGED <<tid, fs, st>>
Step == /\ l <= Len(Ev) /\ Ev[l].op # "cfg"
        /\ LET e == Ev[l]
               r == Apply(fs, cfg, e)
               d == Diff(fs, cfg, e, r)
           IN IF d = {} THEN /\ fs' = After(fs, cfg, e, r)
                             /\ l' = l + 1
                             /\ UNCHANGED <<tid, st, cfg>>
              ELSE /\ st' = "bad"
                   /\ PrintT(<<"REJECT", tid, l, ToString(d)>>)
                   /\ UNCHANGED <<tid, l, fs, cfg>>
Next == st = "run" /\ (Finish \/ SetCfg \/ Step)
Spec == Init /\ [][Next]_vars
Inv == TreeInv(fs)
=============================================================================
