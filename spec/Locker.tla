------------------------------- MODULE Locker -------------------------------
(* The protocol by which processes take and give back a repository: a lock file with the number of its holder, created exclusively or, when
   it is stale, taken over under an advisory lock.  Every step is one system call; processes can be killed between any two.  The table of
   files is opened (root) after the lock is taken and written back (flush) before it is given up.
     Design "good", or a deviation that must fail:
       "nolock"     no advisory lock around inspecting and replacing the recorded process
       "statfirst"  whether the file is still there is looked up before whether its holder is alive
       "nonlink"    a lock file removed meanwhile is not noticed
       "early"      the lock is given up before everything is written back
       "lateopen"   the repository is read before the lock is taken *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Procs, Design, MaxKill, MaxTry
None == 0
VARIABLES pc, fd,           \* process |-> inode of its lock file (0: none)
          name,             \* inode the name refers to (0: no such file)
          text,             \* inode |-> process recorded in it (0: nothing)
          flock,            \* inode |-> process holding the advisory lock (0)
          dead, kills, tries,
          ver, read,        \* version of the repository; process |-> version it has read
          seen,             \* process |-> it saw that the recorded process is alive
          met               \* process |-> another process was trying, holding or leaving during its attempt
vars == <<pc, fd, name, text, flock, dead, kills, tries, ver, read, met, seen>>
Inodes == 1..(Cardinality(Procs) * MaxTry)
Free == CHOOSE i \in Inodes : text[i] = -1
Init == /\ pc = [p \in Procs |-> "idle"] /\ fd = [p \in Procs |-> 0] /\ name = 0 /\ text = [i \in Inodes |-> -1] /\ flock = [i \in Inodes |-> 0]
        /\ dead = {} /\ kills = 0 /\ tries = [p \in Procs |-> 0] /\ ver = 0 /\ read = [p \in Procs |-> -1] /\ met = [p \in Procs |-> FALSE] /\ seen = met
Busy == {p \in Procs : pc[p] \notin {"idle", "refused", "dead"}}
Running(q) == q \in Procs /\ q \notin dead
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Start(p) == /\ pc[p] \in {"idle", "refused"} /\ tries[p] < MaxTry
            /\ tries' = [tries EXCEPT ![p] = @ + 1] /\ fd' = [fd EXCEPT ![p] = 0]
            /\ met' = [q \in Procs |-> IF q = p THEN Busy # {} ELSE IF q \in Busy THEN TRUE ELSE met[q]]
            /\ IF Design = "lateopen" THEN read' = [read EXCEPT ![p] = ver] ELSE UNCHANGED read
            /\ Go(p, "create") /\ UNCHANGED <<name, text, flock, dead, kills, ver, seen>>
Create(p) == /\ pc[p] = "create"
             /\ IF name = 0 THEN /\ name' = Free /\ text' = [text EXCEPT ![Free] = 0] /\ fd' = [fd EXCEPT ![p] = Free] /\ Go(p, "lock")
                ELSE /\ Go(p, "open") /\ UNCHANGED <<name, text, fd>>
             /\ UNCHANGED <<flock, dead, kills, tries, ver, read, met, seen>>
Open(p) == /\ pc[p] = "open"
           /\ IF name = 0 THEN Go(p, "refused") /\ UNCHANGED fd ELSE fd' = [fd EXCEPT ![p] = name] /\ Go(p, "look")
           /\ UNCHANGED <<name, text, flock, dead, kills, tries, ver, read, met, seen>>
Look(p) == /\ pc[p] = "look" /\ Go(p, IF Running(text[fd[p]]) THEN "refused" ELSE "lock") /\ UNCHANGED <<fd, name, text, flock, dead, kills, tries, ver, read, met, seen>>
Lock(p) == /\ pc[p] = "lock"
           /\ IF Design = "nolock" THEN UNCHANGED flock ELSE flock[fd[p]] = 0 /\ flock' = [flock EXCEPT ![fd[p]] = p]
           /\ Go(p, IF Design = "statfirst" THEN "stat" ELSE "alive") /\ UNCHANGED <<fd, name, text, dead, kills, tries, ver, read, met, seen>>
Drop(p) == IF flock[fd[p]] = p THEN [flock EXCEPT ![fd[p]] = 0] ELSE flock
\* is the recorded process alive?  is the file still there?  (in this order: a holder that is not alive removes nothing any more)
Alive(p) == /\ pc[p] = "alive" /\ seen' = [seen EXCEPT ![p] = Running(text[fd[p]])] /\ Go(p, IF Design = "statfirst" THEN "decide" ELSE "stat")
            /\ UNCHANGED <<fd, name, text, flock, dead, kills, tries, ver, read, met, seen>>
Stat(p) == /\ pc[p] = "stat"
           /\ IF name # fd[p] /\ Design # "nonlink" THEN flock' = Drop(p) /\ fd' = [fd EXCEPT ![p] = 0] /\ Go(p, "create")
              ELSE UNCHANGED <<flock, fd>> /\ Go(p, IF Design = "statfirst" THEN "alive" ELSE "decide")
           /\ UNCHANGED <<name, text, dead, kills, tries, ver, read, met, seen>>
Decide(p) == /\ pc[p] = "decide"
             /\ IF seen[p] THEN flock' = Drop(p) /\ Go(p, "refused") ELSE UNCHANGED flock /\ Go(p, "clear")
             /\ UNCHANGED <<fd, name, text, dead, kills, tries, ver, read, met, seen>>
Clear(p) == pc[p] = "clear" /\ text' = [text EXCEPT ![fd[p]] = 0] /\ Go(p, "write") /\ UNCHANGED <<fd, name, flock, dead, kills, tries, ver, read, met, seen>>
Write(p) == pc[p] = "write" /\ text' = [text EXCEPT ![fd[p]] = p] /\ Go(p, "unlock") /\ UNCHANGED <<fd, name, flock, dead, kills, tries, ver, read, met, seen>>
Unlock(p) == pc[p] = "unlock" /\ flock' = Drop(p) /\ Go(p, "root") /\ UNCHANGED <<fd, name, text, dead, kills, tries, ver, read, met, seen>>
Root(p) == pc[p] = "root" /\ read' = (IF Design = "lateopen" THEN read ELSE [read EXCEPT ![p] = ver]) /\ Go(p, "held") /\ UNCHANGED <<fd, name, text, flock, dead, kills, tries, ver, met, seen>>
Leave(p) == pc[p] = "held" /\ Go(p, IF Design = "early" THEN "remove" ELSE "flush") /\ UNCHANGED <<fd, name, text, flock, dead, kills, tries, ver, read, met, seen>>
Flush(p) == /\ pc[p] = "flush" /\ ver' = read[p] + 1 /\ read' = [read EXCEPT ![p] = read[p] + 1]
            /\ Go(p, IF Design = "early" THEN "gone" ELSE "remove") /\ UNCHANGED <<fd, name, text, flock, dead, kills, tries, met, seen>>
Remove(p) == pc[p] = "remove" /\ name' = 0 /\ Go(p, IF Design = "early" THEN "flush" ELSE "gone") /\ UNCHANGED <<fd, text, flock, dead, kills, tries, ver, read, met, seen>>
Gone(p) == pc[p] = "gone" /\ Go(p, "idle") /\ fd' = [fd EXCEPT ![p] = 0] /\ UNCHANGED <<name, text, flock, dead, kills, tries, ver, read, met, seen>>
Kill(p) == /\ pc[p] \notin {"idle", "refused", "dead"} /\ kills < MaxKill /\ kills' = kills + 1
           /\ dead' = dead \cup {p} /\ Go(p, "dead") /\ flock' = [i \in Inodes |-> IF flock[i] = p THEN 0 ELSE flock[i]]
           /\ UNCHANGED <<fd, name, text, tries, ver, read, met, seen>>
Next == \E p \in Procs : Start(p) \/ Create(p) \/ Open(p) \/ Look(p) \/ Lock(p) \/ Stat(p) \/ Alive(p) \/ Decide(p) \/ Clear(p) \/ Write(p) \/ Unlock(p) \/ Root(p)
                         \/ Leave(p) \/ Flush(p) \/ Remove(p) \/ Gone(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars
Using == {p \in Procs : pc[p] \in {"root", "held", "flush"}}
Mutex == Cardinality(Using) <= 1
\* nobody writes back what was read before another process wrote
Fresh == \A p \in Using : pc[p] = "root" \/ read[p] = ver
\* a refusal has a reason
Fair == \A p \in Procs : pc[p] = "refused" => met[p]
Intact == \A p \in Procs : pc[p] = "held" => name = fd[p] /\ text[fd[p]] = p
Clean == (Busy = {} /\ dead = {}) => name = 0
=============================================================================
