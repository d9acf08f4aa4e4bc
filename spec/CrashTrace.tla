----------------------------- MODULE CrashTrace -----------------------------
(* Judges histories in which operations were interrupted: an event "crash" carries the operation during which the process died; an
   operation with the field fault had one of its storage calls fail.  A trace is allowed when some choice of outcomes explains it. *)
EXTENDS Crash, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s, st, cfg
vars == <<tid, l, s, st, cfg>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg
        /\ s = S0(InitFs(Traces[tid].cfg)) /\ st = "run"
Ev == Traces[tid].ev
\* Known finding: the full format rewrites the root directory in place; when the process dies meanwhile, it no longer verifies and the
\* repository can only be mounted without verification.  Allowed exactly there; the check reports it as a known finding.
RootLost(x, c, e) == c.fmt = "full" /\ Root \in x.t /\ e.r = "mount:EPERM"
Contents(x, i) == (IF i \in DOMAIN x.v THEN x.v[i] ELSE {}) \cup {fs.n[i].c : fs \in {fs \in {x.a, x.b} : i \in DOMAIN fs.n}}
\* set of <<differences, next state>>
Steps(e) ==
    IF e.op = "crash" THEN {<<{}, x>> : x \in AfterCrash(s, cfg, e.of)}
    ELSE IF IsMixed(s)
    THEN LET seen == [s EXCEPT !.a = ReadAll(@, cfg, e), !.b = ReadAll(@, cfg, e)] IN
         IF e.op = "remount" THEN {<<{}, [s EXCEPT !.a = DoRemount(@, cfg, e).fs, !.b = DoRemount(@, cfg, e).fs]>>}
         ELSE IF e.op = "snap"
         THEN {<<IF e.r = "OK" THEN MixedSnap(seen, cfg, e.snap, e.errp)
                 ELSE IF RootLost(s, cfg, e) THEN {} ELSE {<<"result", e.r>>}, seen>>}
         ELSE LET ra == Apply(s.a, cfg, e) rb == Apply(s.b, cfg, e)
                  free == Targets(s.a, cfg, e) \cap s.t # {} \/ Targets(s.b, cfg, e) \cap s.t # {} \/ ("p" \in DOMAIN e /\ Below(s, cfg, e.p)) \/ ("q" \in DOMAIN e /\ Below(s, cfg, e.q))
              IN IF free THEN {<<IF e.op = "read" /\ e.r = "OK" /\ e.h \in DOMAIN s.a.h /\ ~Explained(e.d, {ReadR(x, e.off, e.len) : x \in Contents(s, s.a.h[e.h])}) THEN {<<"bytes never written there", e.d>>} ELSE {},
                                 [s EXCEPT !.v = [i \in DOMAIN @ |-> IF e.op \in WriteOps \cup {"open"} /\ i \in Targets(s.a, cfg, e) /\ i \in DOMAIN s.a.n
                                                                     THEN @[i] \cup {Apply([s.a EXCEPT !.n[i].c = x], cfg, e).fs.n[i].c : x \in @[i]} ELSE @[i]],
                                           !.a = IF e.r = "OK" \/ ra.err # {} THEN ra.fs ELSE Loosen(@, Written(@, cfg, e)),
                                           !.b = IF e.r = "OK" \/ rb.err # {} THEN rb.fs ELSE Loosen(@, Written(@, cfg, e))]>>}
                 ELSE {<<Diff(s.a, cfg, e, ra), [s EXCEPT !.a = After(s.a, cfg, e, ra), !.b = After(s.b, cfg, e, rb)]>>}
    ELSE LET r == Apply(s.a, cfg, e) d == Diff(s.a, cfg, e, r) IN
         IF "fault" \in DOMAIN e /\ e.r # "OK" /\ e.r \notin r.err THEN {<<{}, x>> : x \in AfterFault(s, cfg, e)}
         ELSE {<<d, Normal(s, cfg, e, After(s.a, cfg, e, r))>>}
Finish == l > Len(Ev) /\ st' = "ok" /\ PrintT(<<"ACCEPT", tid, Len(Ev)>>) /\ UNCHANGED <<tid, l, s, cfg>>
SetCfg == l <= Len(Ev) /\ Ev[l].op = "cfg" /\ cfg' = Ev[l].cfg /\ l' = l + 1 /\ UNCHANGED <<tid, s, st>>
Step == /\ l <= Len(Ev) /\ Ev[l].op # "cfg"
        /\ \E x \in Steps(Ev[l]) :
             IF x[1] = {} THEN s' = x[2] /\ l' = l + 1 /\ UNCHANGED <<tid, st, cfg>>
             ELSE st' = "bad" /\ PrintT(<<"REJECT", tid, l, ToString(x[1])>>) /\ UNCHANGED <<tid, l, s, cfg>>
Next == st = "run" /\ (Finish \/ SetCfg \/ Step)
Spec == Init /\ [][Next]_vars
Inv == IsMixed(s) \/ TreeInv(s.a)
=============================================================================
