------------------------------ MODULE Migrate ------------------------------
(* Changing the suffix of long names in a lite repository: the walk over the directories, one transaction per lookup table, the
   renaming of the entries, and finally the configuration.  The process can die between any two steps, and any storage call can fail; then
   it is repeated.  Entries: 1 is a directory in the root, 2 a directory in 1, 3 a file in 2, 4 a file in 1, 5 a file in the root, 6 a
   stale mapping in 1 (its file does not exist).  All names are long.  Suffixes: 0 the old one, 1 the new one (which may end with the old
   one), 2 the new one put in place of the old at the end of the new.
     Design  "good"       deepest first, commit checked, changed entries told by their length
             "anyorder"   directories in the order in which they are listed
             "unchecked"  a failed commit does not stop the migration
             "twice"      changed entries told by the end of their names only
             "nonstale"   every mapping must have its entry
             "configfirst" the configuration is changed before the entries *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Design, MaxBreaks
Ent == 1..6
Dirs == 0..2                                       \* 0: the root;  1, 2: the entries of that number
Par(e) == CASE e = 1 -> 0 [] e = 2 -> 1 [] e = 3 -> 2 [] e = 4 -> 1 [] e = 5 -> 0 [] e = 6 -> 1
Real == Ent \ {6}
VARIABLES sfx,      \* entry |-> suffix of its name on disk
          row,      \* entry |-> suffixes under which its mapping is committed
          pend,     \* entry |-> the same inside the open transaction
          conf,     \* suffix in the configuration
          pc, todo, \* todo: directories left, with the path collected at the start
          cur, rows, breaks, ok
vars == <<sfx, row, pend, conf, pc, todo, cur, rows, breaks, ok>>
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Depth(d) == d
RECURSIVE PathOf(_, _)
PathOf(s, d) == IF d = 0 THEN <<>> ELSE Append(PathOf(s, Par(d)), s[d])
Orders == {f \in Perms(Dirs) : Design = "anyorder" \/ \A i, j \in 1..3 : i < j => Depth(f[i]) > Depth(f[j])}
Init == /\ sfx = [e \in Ent |-> 0] /\ row = [e \in Ent |-> {0}] /\ pend = row /\ conf = 0
        /\ pc = "idle" /\ todo = <<>> /\ cur = 0 /\ rows = {} /\ breaks = 0 /\ ok = FALSE
\* an attempt: nothing to do when the configuration has the new suffix already
Start == /\ pc = "idle" /\ ~ok
         /\ IF conf = 1 THEN ok' = TRUE /\ UNCHANGED <<todo, pc>>
            ELSE \E f \in Orders : todo' = [i \in 1..3 |-> [d |-> f[i], path |-> PathOf(sfx, f[i])]] /\ pc' = (IF Design = "configfirst" THEN "conf" ELSE "dir") /\ UNCHANGED ok
         /\ UNCHANGED <<sfx, row, pend, conf, cur, rows, breaks>>
\* which committed mappings still have to be changed, as <<entry, suffix>>
Old(e) == {r \in row[e] : r = 0 \/ (Design = "twice" /\ r = 1)}
Dir == /\ pc = "dir" /\ todo # <<>>
       /\ IF Head(todo).path = PathOf(sfx, Head(todo).d)
          THEN /\ cur' = Head(todo).d /\ pend' = row /\ pc' = "row"
               /\ rows' = UNION {{<<e, r>> : r \in Old(e)} : e \in {x \in Ent : Par(x) = Head(todo).d}}
          ELSE pc' = "stuck" /\ UNCHANGED <<cur, pend, rows>>
       /\ todo' = Tail(todo) /\ UNCHANGED <<sfx, row, conf, breaks, ok>>
Row == /\ pc = "row" /\ rows # {}
       /\ \E x \in rows : LET e == x[1] r == x[2] IN
            /\ pend' = [pend EXCEPT ![e] = (@ \ {r}) \cup {r + 1}]
            /\ IF e \in Real /\ sfx[e] = r THEN sfx' = [sfx EXCEPT ![e] = r + 1] /\ pc' = pc
               ELSE /\ UNCHANGED sfx
                    /\ pc' = (IF Design = "nonstale" THEN "stuck" ELSE pc)
            /\ rows' = rows \ {x}
       /\ UNCHANGED <<row, conf, todo, cur, breaks, ok>>
Commit == /\ pc = "row" /\ rows = {} /\ row' = pend /\ pc' = "dir" /\ UNCHANGED <<sfx, pend, conf, todo, cur, rows, breaks, ok>>
CommitFails == /\ pc = "row" /\ rows = {} /\ breaks < MaxBreaks /\ breaks' = breaks + 1
               /\ pc' = (IF Design = "unchecked" THEN "dir" ELSE "idle") /\ UNCHANGED <<sfx, row, pend, conf, todo, cur, rows, ok>>
Conf == /\ (pc = "dir" /\ todo = <<>>) \/ pc = "conf"
        /\ conf' = 1
        /\ IF pc = "conf" THEN pc' = "dir" /\ UNCHANGED ok ELSE pc' = "idle" /\ ok' = TRUE
        /\ UNCHANGED <<sfx, row, pend, todo, cur, rows, breaks>>
Break == /\ pc # "idle" /\ breaks < MaxBreaks /\ breaks' = breaks + 1
         /\ pend' = row /\ pc' = "idle" /\ todo' = <<>> /\ rows' = {} /\ cur' = 0 /\ UNCHANGED <<sfx, row, conf, ok>>
Next == Start \/ Dir \/ Row \/ Commit \/ CommitFails \/ Conf \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Dir \/ Row \/ Commit \/ Conf)
Seen(e) == sfx[e] = conf /\ conf \in row[e]
Complete == ok => conf = 1 /\ \A e \in Real : Seen(e)
NotStuck == pc # "stuck"
Finally == <>(ok \/ pc = "stuck")
=============================================================================
