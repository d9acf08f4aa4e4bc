----------------------------- MODULE LongNames -----------------------------
(* The protocol for names that are too long for the underlying file system (lite format): the entry on disk carries a hash, the
   name itself is in a table of the directory.  Every operation is a sequence of steps; the process can die after any of them, and
   any of them can fail.  Directories are locked by the kernel while they are modified, so operations do not overlap here (their
   overlap is a matter of the Lin specification).
     pre    the mapping of a name that is about to exist is committed
     begin  the transaction starts; its changes are pending
     data   the entry itself is created, removed or renamed, atomically
     commit the pending changes become permanent (or are lost: an error here is only logged) *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Long, Short, MaxOps
Names == Long \cup Short
Dirs == {1, 2}
Ids == 1..2
VARIABLES data,      \* directory |-> name |-> object (0: none)
          tab,       \* directory |-> names with a committed mapping
          pend,      \* directory |-> names with a mapping in the open transaction
          pc, op,    \* the running operation and its next step
          before, after, n, done
vars == <<data, tab, pend, pc, op, before, after, n, done>>
None == [k |-> "none"]
Visible == [d \in Dirs |-> {x \in Names : data[d][x] # 0 /\ (x \in Long => x \in tab[d])}]
Put(t, d, x) == [t EXCEPT ![d] = @ \cup ({x} \cap Long)]
Cut(t, d, x) == [t EXCEPT ![d] = @ \ {x}]
Init == /\ data = [d \in Dirs |-> [x \in Names |-> 0]] /\ tab = [d \in Dirs |-> {}] /\ pend = tab
        /\ pc = "idle" /\ op = None /\ before = Visible /\ after = Visible /\ n = 0 /\ done = TRUE
\* what the operation means
Result(o) ==
    LET v == [d \in Dirs |-> {x \in Names : data[d][x] # 0}] IN
    CASE o.k = "make" -> [v EXCEPT ![o.d] = @ \cup {o.x}]
      [] o.k = "unlink" -> [v EXCEPT ![o.d] = @ \ {o.x}]
      [] o.k = "link" -> [v EXCEPT ![o.e] = @ \cup {o.y}]
      [] o.k = "rename" -> IF data[o.d][o.x] = data[o.e][o.y] THEN v ELSE [[v EXCEPT ![o.d] = @ \ {o.x}] EXCEPT ![o.e] = @ \cup {o.y}]
Ok(o) == CASE o.k = "make" -> data[o.d][o.x] = 0
           [] o.k = "unlink" -> data[o.d][o.x] # 0
           [] o.k = "link" -> data[o.d][o.x] # 0 /\ data[o.e][o.y] = 0
           [] o.k = "rename" -> data[o.d][o.x] # 0
Ops == [k : {"make"}, d : Dirs, x : Names, i : Ids] \cup [k : {"unlink"}, d : Dirs, x : Names]
       \cup [k : {"link", "rename"}, d : Dirs, x : Names, e : Dirs, y : Names]
MakesLong(o) == (o.k = "make" /\ o.x \in Long) \/ (o.k \in {"link", "rename"} /\ o.y \in Long)
Touches(o) == MakesLong(o) \/ (o.k \in {"unlink", "rename"} /\ o.x \in Long)
Target(o) == IF o.k = "make" THEN <<o.d, o.x>> ELSE <<o.e, o.y>>

Start == /\ pc = "idle" /\ n < MaxOps
         /\ \E o \in Ops :
              /\ op' = o /\ before' = Visible /\ after' = (IF Ok(o) THEN Result(o) ELSE Visible)
              /\ pc' = (IF MakesLong(o) THEN "pre" ELSE IF Touches(o) THEN "begin" ELSE "data")
         /\ n' = n + 1 /\ done' = FALSE /\ UNCHANGED <<data, tab, pend>>
Pre == /\ pc = "pre" /\ tab' = Put(tab, Target(op)[1], Target(op)[2]) /\ pc' = "begin" /\ UNCHANGED <<data, pend, op, before, after, n, done>>
Begin == /\ pc = "begin"
         /\ LET cut == IF op.k \in {"unlink", "rename"} THEN Cut(tab, op.d, op.x) ELSE tab
            IN pend' = IF MakesLong(op) THEN Put(cut, Target(op)[1], Target(op)[2]) ELSE cut
         /\ pc' = "data" /\ UNCHANGED <<data, tab, op, before, after, n, done>>
Same(o) == data[o.d][o.x] = data[o.e][o.y]     \* two names of one object: rename does nothing
Data == /\ pc = "data" /\ Ok(op)
        /\ data' = CASE op.k = "make" -> [data EXCEPT ![op.d][op.x] = op.i]
                     [] op.k = "unlink" -> [data EXCEPT ![op.d][op.x] = 0]
                     [] op.k = "link" -> [data EXCEPT ![op.e][op.y] = data[op.d][op.x]]
                     [] op.k = "rename" -> IF Same(op) THEN data ELSE [[data EXCEPT ![op.e][op.y] = data[op.d][op.x]] EXCEPT ![op.d][op.x] = 0]
        /\ pc' = (IF ~Touches(op) THEN "end" ELSE IF op.k = "rename" /\ Same(op) THEN "restore" ELSE "commit")
        /\ UNCHANGED <<tab, pend, op, before, after, n, done>>
Restore == pc = "restore" /\ pend' = Put(pend, op.d, op.x) /\ pc' = "commit" /\ UNCHANGED <<data, tab, op, before, after, n, done>>
Commit == pc = "commit" /\ tab' = pend /\ pc' = "end" /\ UNCHANGED <<data, pend, op, before, after, n, done>>
End == pc = "end" /\ done' = TRUE /\ pc' = "idle" /\ op' = None /\ UNCHANGED <<data, tab, pend, before, after, n>>
\* a step fails, or the process dies: the open transaction is undone
Abort == /\ pc \notin {"idle", "end"} /\ pend' = tab /\ pc' = "idle" /\ op' = None /\ UNCHANGED <<data, tab, before, after, n, done>>
Next == Start \/ Pre \/ Begin \/ Data \/ Restore \/ Commit \/ End \/ Abort
Spec == Init /\ [][Next]_vars

\* at every instant every object can be listed: so it is after a crash at any instant
NoOrphan == \A d \in Dirs : \A x \in Long : data[d][x] # 0 => x \in tab[d]
\* at every instant the visible tree is the one before or the one after the operation
Atomic == Visible \in {before, after}
Complete == (pc = "idle" /\ done) => Visible = after
=============================================================================
