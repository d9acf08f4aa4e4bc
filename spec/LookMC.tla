------------------------------- MODULE LookMC -------------------------------
(* Why looking may touch headers but nothing else.  Objects with times and a size; a cache of opened objects whose header is written back when they are flushed or evicted; readers that update the access time by the
   rule of the real code; a change now and then; processes that end.  The designs say what a reader does and what is written back:
     header    the header of the cache, with the access time by the rule        (full format, access times recorded)
     none      nothing                                                          (no times recorded, read-only)
     stale     the header as it was when the object was opened                  (undoes changes)
     mtime     all times are set
     extend    reading beyond the end materializes what was asked for
     nocache   every opener has a header of its own and writes it back          (undoes changes of the others)
   Only the first two keep what a user sees (logical), in the cache and in the store. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Objects, MaxTime
Designs == {"header", "none", "stale", "mtime", "extend", "nocache"}
VARIABLES design, disk, cache, own, now, logical, written
vars == <<design, disk, cache, own, now, logical, written>>
None == [at |-> 99, mt |-> 99, size |-> 99]
Free == [h |-> None, dirty |-> FALSE, open |-> {}, first |-> None]
First == [at |-> 0, mt |-> 1, size |-> 1]
View(h) == [mt |-> h.mt, size |-> h.size]
Init == /\ design \in Designs /\ disk = [o \in Objects |-> First] /\ cache = [o \in Objects |-> Free] /\ own = [o \in Objects |-> [k \in 1..2 |-> None]]
        /\ now = 2 /\ logical = [o \in Objects |-> View(First)] /\ written = FALSE
Cached(o) == cache[o].h # None
Open(o, k) == /\ k \notin cache[o].open
              /\ cache' = [cache EXCEPT ![o] = IF Cached(o) THEN [@ EXCEPT !.open = @ \cup {k}] ELSE [h |-> disk[o], dirty |-> FALSE, open |-> {k}, first |-> disk[o]]]
              /\ own' = [own EXCEPT ![o][k] = disk[o]]
              /\ UNCHANGED <<design, disk, now, logical, written>>
Touch(h) == IF design = "mtime" THEN [h EXCEPT !.at = now, !.mt = now] ELSE IF h.at < h.mt THEN [h EXCEPT !.at = now] ELSE h
Read(o, k) == /\ k \in cache[o].open
              /\ IF design = "none" THEN UNCHANGED <<cache, own, disk>>
                 ELSE /\ cache' = [cache EXCEPT ![o].h = Touch(@), ![o].dirty = @ \/ Touch(cache[o].h) # cache[o].h]
                      /\ own' = [own EXCEPT ![o][k] = Touch(@)]
                      /\ disk' = IF design = "extend" THEN [disk EXCEPT ![o].size = 2] ELSE disk
              /\ UNCHANGED <<design, now, logical, written>>
Change(o, k) == /\ ~written /\ k \in cache[o].open /\ written' = TRUE
                /\ cache' = [cache EXCEPT ![o].h.mt = now, ![o].h.size = 2, ![o].dirty = TRUE]
                /\ own' = [own EXCEPT ![o][k].mt = now, ![o][k].size = 2]
                /\ logical' = [logical EXCEPT ![o] = [mt |-> now, size |-> 2]]
                /\ UNCHANGED <<design, disk, now>>
Back(o) == IF ~cache[o].dirty THEN disk[o] ELSE IF design = "stale" THEN [cache[o].first EXCEPT !.at = cache[o].h.at] ELSE cache[o].h
Close(o, k) == /\ k \in cache[o].open
               /\ cache' = [cache EXCEPT ![o].open = @ \ {k}]
               /\ own' = [own EXCEPT ![o][k] = None]
               /\ disk' = IF design = "nocache" THEN [disk EXCEPT ![o] = own[o][k]] ELSE disk
               /\ UNCHANGED <<design, now, logical, written>>
Flush(o) == /\ design # "nocache" /\ Cached(o) /\ cache[o].dirty /\ disk' = [disk EXCEPT ![o] = Back(o)] /\ cache' = [cache EXCEPT ![o].dirty = FALSE] /\ UNCHANGED <<design, own, now, logical, written>>
Evict(o) == /\ Cached(o) /\ cache[o].open = {} /\ disk' = (IF design = "nocache" THEN disk ELSE [disk EXCEPT ![o] = Back(o)]) /\ cache' = [cache EXCEPT ![o] = Free] /\ UNCHANGED <<design, own, now, logical, written>>
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<design, disk, cache, own, logical, written>>
Next == Tick \/ \E o \in Objects : Flush(o) \/ Evict(o) \/ \E k \in 1..2 : Open(o, k) \/ Read(o, k) \/ Change(o, k) \/ Close(o, k)
Spec == Init /\ [][Next]_vars
Kept == \A o \in Objects : /\ (Cached(o) /\ design # "nocache") => View(cache[o].h) = logical[o]
                           /\ (~Cached(o) \/ ~cache[o].dirty) => View(disk[o]) = logical[o]
Sound == design \in {"header", "none"} => Kept
Note == Kept \/ TLCSet(1, TLCGet(1) \cup {design})
Done == PrintT(<<"unsound", TLCGet(1)>>) /\ TLCGet(1) = Designs \ {"header", "none"}
ASSUME TLCSet(1, {})
=============================================================================
