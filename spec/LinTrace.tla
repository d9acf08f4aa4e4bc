------------------------------ MODULE LinTrace ------------------------------
(* Linearizability.  Every line of TRACES is one history of the real code, {"id", "cfg", "pre", "par", "post"}: pre and post are
   ordinary sequences of events; par holds the events of several threads, each with the moments s and e of its call and its return.
   The history is accepted (ACCEPT is printed) iff the concurrent operations can be put into an order that respects those moments and
   in which FileTree explains every answer and everything seen afterwards.  TLC's state space is the set of all such orders.

   An operation that names an object by its path and then acts on the object (not on the name) takes effect at two moments, both
   within the call: it finds the object (the object is pinned, like an open file), and later acts on it, whatever its name is by then.
   All operations on names (create, unlink, rename ...) are atomic. *)
EXTENDS TreeMatch, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, fs, done
vars == <<tid, l, fs, done>>
\* l: position in pre, then in post;  done: operations that have taken effect;  pins are handles Pin(i)
Cfg == Traces[tid].cfg
Pre == Traces[tid].pre
Par == Traces[tid].par
Post == Traces[tid].post
Pin(i) == 1000000 + i

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ done = {}
        /\ fs = InitFs(Traces[tid].cfg)

Before(i, j) == Par[i].e < Par[j].s                   \* i returned before j was called
Enabled(i) == i \notin done /\ \A j \in 1..Len(Par) : j \in done \/ ~Before(j, i)

OnObject == {"getattr", "open", "opendir", "truncate", "chmod", "chown", "utimens", "setxattr", "removexattr", "getxattr", "listxattr",
             "ls", "readlink", "link"}

NamesOf(e) == IF e.op \in {"rename", "link"} THEN {e.p, e.q} ELSE {e.p}
Touched(i) == UNION {NamesOf(Par[j]) : j \in {j \in 1..Len(Par) : j # i /\ ~Before(j, i) /\ ~Before(i, j)
                                                                  /\ Par[j].op \in {"create", "mkdir", "symlink", "link", "unlink", "rmdir", "rename"}}}
Writing(i) == \E j \in 1..Len(Par) : j # i /\ ~Before(j, i) /\ ~Before(i, j) /\ Par[j].op \in {"write", "truncate", "ftruncate", "open"}

\* What is not judged while other operations are under way:  a link count (an entry and the count change one after the other); in the
\* lite format, a size asked by path while contents change, and the names that are being added or removed in a listing.
ParDiff(i, e, r) ==
    IF e.r = "OK" /\ r.err = {} /\ e.op \in {"getattr", "fgetattr"}
    THEN (Diff(fs, Cfg, e, r) \ {<<e.op, "nlink">>}) \ (IF Cfg.fmt = "lite" /\ Writing(i) THEN {<<e.op, "size">>} ELSE {})
    ELSE IF e.r = "OK" /\ r.err = {} /\ e.op \in {"ls", "readdir"} /\ Cfg.fmt = "lite"
    THEN LET free == {Last_(p) : p \in {p \in Touched(i) : p # <<>>}}
             seen == {<<e.ls[j][1], e.ls[j][2]>> : j \in {j \in 1..Len(e.ls) : e.ls[j][1] \notin free}}
             have == {x \in Listing(r.fs, r.i) : x[1] \notin free}
         IN IF seen = have THEN {} ELSE {"listing"}
    ELSE Diff(fs, Cfg, e, r)

Forget(f, i) == Reap([f EXCEPT !.h = Del(@, Pin(i))])

PreStep == /\ done = {} /\ l <= Len(Pre)
           /\ LET e == Pre[l]
                  r == Apply(fs, Cfg, e)
              IN Diff(fs, Cfg, e, r) = {} /\ fs' = After(fs, Cfg, e, r)
           /\ l' = l + 1
           /\ UNCHANGED <<tid, done>>
Direct(i) == LET e == Par[i]
                 r == Apply(fs, Cfg, e)
             IN /\ Pin(i) \notin DOMAIN fs.h
                /\ ParDiff(i, e, r) = {}
                /\ fs' = r.fs
                /\ done' = done \cup {i}
Find(i) == LET w == Walk(fs, Cfg, Par[i].p)
           IN /\ Par[i].op \in OnObject /\ Pin(i) \notin DOMAIN fs.h
              /\ w.i # 0
              /\ fs' = [fs EXCEPT !.h = Put(@, Pin(i), w.i)]
              /\ UNCHANGED done
Act(i) == LET e == ("pin" :> Pin(i)) @@ Par[i]
              r == Apply(fs, Cfg, e)
          IN /\ Pin(i) \in DOMAIN fs.h
             /\ ParDiff(i, e, r) = {}
             /\ fs' = Forget(r.fs, i)
             /\ done' = done \cup {i}
ParStep == /\ l = Len(Pre) + 1
           /\ \E i \in 1..Len(Par) : Enabled(i) /\ (Direct(i) \/ Find(i) \/ Act(i))
           /\ UNCHANGED <<tid, l>>
PostStep == /\ Cardinality(done) = Len(Par) /\ l > Len(Pre) /\ l <= Len(Pre) + Len(Post)
            /\ LET e == Post[l - Len(Pre)]
                   r == Apply(fs, Cfg, e)
               IN Diff(fs, Cfg, e, r) = {} /\ fs' = After(fs, Cfg, e, r)
            /\ l' = l + 1
            /\ UNCHANGED <<tid, done>>
Finish == /\ Cardinality(done) = Len(Par) /\ l = Len(Pre) + Len(Post) + 1
          /\ l' = l + 1
          /\ PrintT(<<"ACCEPT", tid, Len(Par)>>)
          /\ UNCHANGED <<tid, fs, done>>
Next == PreStep \/ ParStep \/ PostStep \/ Finish
Spec == Init /\ [][Next]_vars
Inv == TreeInv(fs)
=============================================================================
