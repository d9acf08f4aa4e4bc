------------------------------- MODULE TreeMC -------------------------------
(* Exhaustive exploration of FileTree within small constants.  Checks TreeInv and the action properties below in every
   reachable state, and prints every transition once, so that the check can replay each of them in the real code
   (lib/tour.py walks the printed graph). *)
EXTENDS FileTree, Json
CONSTANTS NameSet,      \* names
          MaxDepth,     \* longest path
          MaxNodes,     \* inodes besides the root
          OpSet,        \* enabled operations
          MaxLen,       \* content lengths 0..MaxLen (in units)
          Handles,      \* handle numbers
          XNames, XVals, Modes,
          Fmt, CanonOf, LongNames, DispC, Emit
VARIABLE fs
c0 == [fmt |-> Fmt, st |-> FALSE, canon |-> CanonOf, toolong |-> LongNames, xlen |-> [x \in XNames |-> 6], uo |-> -1, go |-> -1, root |-> <<493, 0, 0>>, pad |-> FALSE, dispc |-> DispC]
CanonAbc == ("A" :> "a")
CanonNone == Empty
NoLong == <<>>

RECURSIVE PathsUpTo(_)
PathsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET s == PathsUpTo(n - 1) IN s \cup {Append(p, x) : p \in s, x \in NameSet}
AllPaths == PathsUpTo(MaxDepth) \ {<<>>}

Base == [u |-> 0, g |-> 0, now |-> "0"]
POps(o) == {[op |-> o, p |-> p] @@ Base : p \in AllPaths}
Ops ==
    UNION {CASE o \in {"unlink", "rmdir", "ls", "getattr", "readlink"} -> POps(o)
             [] o = "mk" -> {[op |-> "mk", p |-> p, h |-> 99, m |-> 420] @@ Base : p \in AllPaths}
             [] o = "create" -> {[op |-> "create", p |-> p, h |-> h, m |-> 420] @@ Base : p \in AllPaths, h \in Handles}
             [] o = "open" -> {[op |-> "open", p |-> p, h |-> h, trunc |-> t] @@ Base : p \in AllPaths, h \in Handles, t \in {FALSE, TRUE}}
             [] o = "release" -> {[op |-> "release", h |-> h] @@ Base : h \in Handles}
             [] o = "write" -> {[op |-> "write", h |-> h, off |-> of, len |-> 1, tag |-> 1] @@ Base : h \in Handles, of \in 0..(MaxLen - 1)}
             [] o = "ftruncate" -> {[op |-> "ftruncate", h |-> h, n |-> z] @@ Base : h \in Handles, z \in 0..MaxLen}
             [] o = "read" -> {[op |-> "read", h |-> h, off |-> 0, len |-> MaxLen] @@ Base : h \in Handles}
             [] o = "truncate" -> {[op |-> "truncate", p |-> p, n |-> z] @@ Base : p \in AllPaths, z \in 0..MaxLen}
             [] o = "mkdir" -> {[op |-> "mkdir", p |-> p, m |-> 493] @@ Base : p \in AllPaths}
             [] o = "symlink" -> {[op |-> "symlink", p |-> p, t |-> "t1", tl |-> 1] @@ Base : p \in AllPaths}
             [] o \in {"link", "rename"} -> {[op |-> o, p |-> p, q |-> q] @@ Base : p \in AllPaths, q \in AllPaths}
             [] o = "setxattr" -> {[op |-> "setxattr", p |-> p, x |-> x, v |-> v, vl |-> 1, fl |-> f] @@ Base : p \in AllPaths, x \in XNames, v \in XVals, f \in 0..2}
             [] o = "removexattr" -> {[op |-> "removexattr", p |-> p, x |-> x] @@ Base : p \in AllPaths, x \in XNames}
             [] o = "getxattr" -> {[op |-> "getxattr", p |-> p, x |-> x, sz |-> z] @@ Base : p \in AllPaths, x \in XNames, z \in {0, 1, 9}}
             [] o = "listxattr" -> {[op |-> "listxattr", p |-> p, sz |-> z] @@ Base : p \in AllPaths, z \in {0, 7, 99}}
             [] o = "chmod" -> {[op |-> "chmod", p |-> p, m |-> m] @@ Base : p \in AllPaths, m \in Modes}
           : o \in OpSet}

\* "mk" is create followed by release
Do(f, op) == IF op.op = "mk" THEN LET r == Apply(f, c0, [op EXCEPT !.op = "create"])
                                  IN IF r.err = {} THEN Apply(r.fs, c0, [op EXCEPT !.op = "release"]) ELSE r
             ELSE Apply(f, c0, op)
Enabled(f, op) ==
    CASE op.op \in {"release", "write", "ftruncate", "read"} -> op.h \in DOMAIN f.h
      [] op.op \in {"create", "open"} -> op.h \notin DOMAIN f.h
      [] OTHER -> TRUE

\* all paths of an inode, by displayed names
RECURSIVE PathsOf(_, _)
PathsOf(f, i) == IF i = Root THEN {<<>>}
                 ELSE UNION {{Append(p, f.n[pr[1]].e[pr[2]].nm) : p \in PathsOf(f, pr[1])} : pr \in Names(f, i)}
View(f) == {<<PathsOf(f, i), {h \in DOMAIN f.h : f.h[h] = i}, f.n[i].k, f.n[i].c, f.n[i].t, f.n[i].m,
              {<<x, f.n[i].x[x][1]>> : x \in DOMAIN f.n[i].x}>> : i \in DOMAIN f.n}
V == View(fs)

Init == fs = InitFs(c0)
Next == \E op \in Ops :
          /\ Enabled(fs, op)
          /\ LET r == Do(fs, op)
             IN /\ Cardinality(DOMAIN r.fs.n) <= MaxNodes + 1
                /\ fs' = r.fs
                /\ Emit => PrintT(<<"T", ToJson(V), ToJson(op), ToJson(View(r.fs)), r.err = {}>>)
Spec == Init /\ [][Next]_fs
Inv == TreeInv(fs)

-----------------------------------------------------------------------------
(* What the operations promise, stated independently of how Apply is written. *)
\* C05: whatever is refused leaves everything but time stamps as it was.
RefusedKeeps == \A op \in Ops : Enabled(fs, op) => LET r == Do(fs, op) IN r.err # {} => View(r.fs) = View(fs)
\* C02/C11: a content disappears only when neither named nor open, and content changes only through writes and size changes of that file.
OnlyOwn == \A op \in Ops : Enabled(fs, op) =>
    LET f2 == Do(fs, op).fs IN
    \A i \in DOMAIN fs.n :
       /\ i \notin DOMAIN f2.n => (Nlink(fs, i) <= 1 /\ op.op \in {"unlink", "rmdir", "rename", "release"})
       /\ (i \in DOMAIN f2.n /\ f2.n[i].c # fs.n[i].c) => op.op \in {"write", "ftruncate", "truncate", "open"}
       /\ (i \in DOMAIN f2.n /\ f2.n[i].x # fs.n[i].x) => op.op \in {"setxattr", "removexattr"}
\* names: an operation touches only the entries of the paths it was given
EntriesTouched == \A op \in Ops : Enabled(fs, op) =>
    LET f2 == Do(fs, op).fs
        args == (IF "p" \in DOMAIN op THEN {op.p} ELSE {}) \cup (IF "q" \in DOMAIN op THEN {op.q} ELSE {})
        dirs == {Dir(fs, c0, a).i : a \in args}
    IN \A i \in DOMAIN fs.n \cap DOMAIN f2.n : fs.n[i].e # f2.n[i].e =>
          /\ i \in dirs
          /\ \A c \in (DOMAIN fs.n[i].e) \cup (DOMAIN f2.n[i].e) :
                (c \in DOMAIN fs.n[i].e /\ c \in DOMAIN f2.n[i].e /\ fs.n[i].e[c] = f2.n[i].e[c]) \/ \E a \in args : Canon(c0, Last_(a)) = c
RenameKeepsNode == \A op \in Ops : op.op = "rename" /\ Enabled(fs, op) =>
    LET r == Do(fs, op) a == Walk(fs, c0, op.p).i IN
    r.err = {} => /\ a # 0 /\ a \in DOMAIN r.fs.n
                  /\ Walk(r.fs, c0, op.q).i = a
                  /\ (Canon(c0, Last_(op.p)) # Canon(c0, Last_(op.q)) \/ Front_(op.p) # Front_(op.q)) =>
                        (Walk(r.fs, c0, op.p).i = 0 \/ Walk(fs, c0, op.q).i = a)
=============================================================================
