------------------------------ MODULE FileTree ------------------------------
(* The abstract file system a securefs mount must present, in both formats: a tree of nodes, open handles, contents as
   byte runs, attributes, times and extended attributes.  Apply(fs, cfg, op) is the one source of truth: the effect, the
   set of acceptable errors and the expected answer of every operation.  The exhaustive configurations (TreeMC), trace
   validation (TreeTrace), linearizability (Lin) and the crash specifications (Crash) are all built on it.

   cfg  fmt     "full" or "lite"
        st      times are kept inside the repository and read the virtual clock (op.now)
        canon   equivalence class of a name (only names whose class differs from themselves)
        toolong names that do not fit
        xlen    byte length of each extended attribute name
        uo, go  owner override of the mount, -1 if none
        root    mode, uid, gid of the root directory
        dispc   names are shown by their class (lite mounts that fold or normalize), not as given
        pad     lite with padding: asking for the size reads the file, which moves the underlying access time
   fs   n       inode |-> node     h  handle |-> inode     next  next inode
   node k kind (f d l), m mode, u uid, g gid, c contents, t link target, tl its byte length,
        x  extended attributes name |-> <<value, length>>,  e  class |-> [i inode, nm displayed name]
        at mt ct  sets of acceptable time stamps; {} = not constrained *)
EXTENDS Runs, FiniteSets, TLC

Root == 1
Empty == [z \in {} |-> 0]
Range(s) == {s[i] : i \in DOMAIN s}
Del(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Put(f, k, v) == (k :> v) @@ f
Front_(p) == SubSeq(p, 1, Len(p) - 1)
Last_(p) == p[Len(p)]

Now(cfg, op) == IF cfg.st THEN {op.now} ELSE {}
\* time stamps: merge a further acceptable value into a set ({} stays unconstrained)
May(cfg, ts, op) == IF ~cfg.st \/ ts = {} THEN {} ELSE ts \cup {op.now}

Node(cfg, op, k, m, u, g) ==
    [k |-> k, m |-> m, u |-> u, g |-> g, c |-> <<>>, t |-> "", tl |-> 0, x |-> Empty, e |-> Empty,
     at |-> Now(cfg, op), mt |-> Now(cfg, op), ct |-> Now(cfg, op)]

InitFs(cfg) ==
    [n |-> (Root :> [k |-> "d", m |-> cfg.root[1], u |-> cfg.root[2], g |-> cfg.root[3], c |-> <<>>, t |-> "", tl |-> 0,
                     x |-> Empty, e |-> Empty, at |-> {}, mt |-> {}, ct |-> {}]),
     h |-> Empty, next |-> 2]

Canon(cfg, nm) == IF nm \in DOMAIN cfg.canon THEN cfg.canon[nm] ELSE nm
Shown(cfg, nm) == IF cfg.dispc THEN Canon(cfg, nm) ELSE nm
TooLong(cfg, nm) == nm \in Range(cfg.toolong)
Child(fs, cfg, d, nm) == LET c == Canon(cfg, nm) IN IF c \in DOMAIN fs.n[d].e THEN fs.n[d].e[c].i ELSE 0

\* Resolution of a path given as a sequence of names: inode, or 0 and the acceptable errors.
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(fs, cfg, d, p) ==
    IF p = <<>> THEN [i |-> d, err |-> {}]
    ELSE IF fs.n[d].k # "d" THEN [i |-> 0, err |-> {"ENOTDIR"}]
    ELSE LET c == Child(fs, cfg, d, p[1]) IN
         IF c = 0 THEN [i |-> 0, err |-> {"ENOENT"} \cup (IF TooLong(cfg, p[1]) THEN {"ENAMETOOLONG"} ELSE {})]
         ELSE WalkFrom(fs, cfg, c, Tail(p))
Walk(fs, cfg, p) == WalkFrom(fs, cfg, Root, p)
\* The directory that holds (or would hold) the last component.
Dir(fs, cfg, p) == LET w == Walk(fs, cfg, Front_(p)) IN
                   IF w.i # 0 /\ fs.n[w.i].k # "d" THEN [i |-> 0, err |-> {"ENOTDIR"}] ELSE w

\* What an operation acts on: the object its path leads to, or the one it found earlier (op.pin, see LinTrace).
Target(fs, cfg, op) == IF "pin" \in DOMAIN op THEN [i |-> fs.h[op.pin], err |-> {}] ELSE Walk(fs, cfg, op.p)

Dirs(fs) == {d \in DOMAIN fs.n : fs.n[d].k = "d"}
Names(fs, i) == UNION {{<<d, c>> : c \in {c \in DOMAIN fs.n[d].e : fs.n[d].e[c].i = i}} : d \in Dirs(fs)}
Linked(fs) == UNION {{fs.n[d].e[c].i : c \in DOMAIN fs.n[d].e} : d \in Dirs(fs)}
Nlink(fs, i) == Cardinality(Names(fs, i))
Open(fs, i) == \E h \in DOMAIN fs.h : fs.h[h] = i
\* Storage lives exactly while linked or open (C11).
Reap(fs) == LET dead == DOMAIN fs.n \ ({Root} \cup Linked(fs) \cup Range(fs.h))
            IN IF dead = {} THEN fs ELSE [fs EXCEPT !.n = [i \in DOMAIN fs.n \ dead |-> fs.n[i]]]
RECURSIVE Above(_, _, _)
Above(fs, a, b) ==        \* a is b or an ancestor of b
    a = b \/ \E pr \in Names(fs, b) : b # Root /\ Above(fs, a, pr[1])

\* Ghost: directories and links may have been read by any operation that walks paths.
Looked(fs, cfg, op) ==
    [fs EXCEPT !.n = [i \in DOMAIN fs.n |-> IF fs.n[i].k = "f" THEN fs.n[i]
                                            ELSE [fs.n[i] EXCEPT !.at = May(cfg, @, op)]]]
\* Without stored times the underlying file system keeps them: blocks and headers read behind the scenes may move the access time.
Touch(fs, cfg, i) == IF cfg.st THEN fs ELSE [fs EXCEPT !.n[i].at = {}]
Changed(fs, cfg, op, i) == [fs EXCEPT !.n[i].mt = Now(cfg, op), !.n[i].ct = Now(cfg, op)]
MetaChanged(fs, cfg, op, i) == [fs EXCEPT !.n[i].ct = Now(cfg, op)]
MayChange(fs, cfg, op, i) == [fs EXCEPT !.n[i].mt = May(cfg, @, op), !.n[i].ct = May(cfg, @, op)]

Ok(fs) == [err |-> {}, fs |-> fs]
\* A refused operation changes nothing but, possibly, the time stamps of the directories it looked at.
Refuse(fs, cfg, op, errs, dirs) ==
    [err |-> errs,
     fs |-> [fs EXCEPT !.n = [i \in DOMAIN fs.n |-> IF i \in dirs THEN [fs.n[i] EXCEPT !.mt = May(cfg, @, op), !.ct = May(cfg, @, op)]
                                                    ELSE fs.n[i]]]]

AddEntry(fs, cfg, op, d, nm, i) ==
    Changed([fs EXCEPT !.n[d].e = Put(@, Canon(cfg, nm), [i |-> i, nm |-> Shown(cfg, nm)])], cfg, op, d)
DelEntry(fs, cfg, op, d, nm) ==
    Changed([fs EXCEPT !.n[d].e = Del(@, Canon(cfg, nm))], cfg, op, d)

MakeNode(fs, cfg, op, nm, d, node) ==
    AddEntry([fs EXCEPT !.n = Put(@, fs.next, node), !.next = @ + 1], cfg, op, d, nm, fs.next)

\* create, mkdir, symlink: errors are those of the path, of the name, of an existing entry
MakeErrs(fs, cfg, d, nm) ==
    d.err \cup (IF d.i # 0 /\ Child(fs, cfg, d.i, nm) # 0 THEN {"EEXIST"} ELSE {})
          \cup (IF TooLong(cfg, nm) THEN {"ENAMETOOLONG"} ELSE {})

Owner(cfg, op) == IF cfg.fmt = "full" THEN <<op.u, op.g>> ELSE <<0, 0>>

DoCreate(fs, cfg, op) ==
    LET d == Dir(fs, cfg, op.p)
        es == MakeErrs(fs, cfg, d, Last_(op.p))
        o == Owner(cfg, op)
    IN IF es # {} THEN Refuse(fs, cfg, op, es, {d.i})
       ELSE LET f2 == MakeNode(fs, cfg, op, Last_(op.p), d.i, Node(cfg, op, "f", op.m, o[1], o[2]))
            IN Ok([f2 EXCEPT !.h = Put(@, op.h, fs.next)])
DoMkdir(fs, cfg, op) ==
    LET d == Dir(fs, cfg, op.p)
        es == MakeErrs(fs, cfg, d, Last_(op.p))
        o == Owner(cfg, op)
    IN IF es # {} THEN Refuse(fs, cfg, op, es, {d.i})
       ELSE Ok(MakeNode(fs, cfg, op, Last_(op.p), d.i, Node(cfg, op, "d", op.m, o[1], o[2])))
DoSymlink(fs, cfg, op) ==
    LET d == Dir(fs, cfg, op.p)
        es == MakeErrs(fs, cfg, d, Last_(op.p))
        o == Owner(cfg, op)
    IN IF es # {} THEN Refuse(fs, cfg, op, es, {d.i})
       ELSE Ok(MakeNode(fs, cfg, op, Last_(op.p), d.i,
                        [Node(cfg, op, "l", -1, o[1], o[2]) EXCEPT !.t = op.t, !.tl = op.tl]))

DoOpen(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF fs.n[w.i].k = "d" THEN Refuse(fs, cfg, op, {"EISDIR"}, {})
    ELSE IF fs.n[w.i].k = "l" THEN Refuse(fs, cfg, op, {"ELOOP"}, {})
    ELSE LET f2 == Touch([fs EXCEPT !.h = Put(@, op.h, w.i)], cfg, w.i) IN
         IF ~op.trunc THEN Ok(f2)
         ELSE LET f3 == [f2 EXCEPT !.n[w.i].c = <<>>] IN
              Ok(IF fs.n[w.i].c = <<>> THEN MayChange(f3, cfg, op, w.i) ELSE Changed(f3, cfg, op, w.i))
DoOpendir(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF fs.n[w.i].k # "d" THEN Refuse(fs, cfg, op, {"ENOTDIR"}, {})
    ELSE Ok([fs EXCEPT !.h = Put(@, op.h, w.i)])
DoRelease(fs, cfg, op) == Ok(Reap([fs EXCEPT !.h = Del(@, op.h)]))

DoRead(fs, cfg, op) ==
    LET i == fs.h[op.h] IN
    [err |-> {}, fs |-> [fs EXCEPT !.n[i].at = May(cfg, @, op)], d |-> ReadR(fs.n[i].c, op.off, op.len)]
DoWrite(fs, cfg, op) ==
    LET i == fs.h[op.h] IN
    Ok(Changed(Touch([fs EXCEPT !.n[i].c = WriteR(@, op.off, op.len, op.tag)], cfg, i), cfg, op, i))
SetSize(fs, cfg, op, i, n) ==
    LET f2 == [fs EXCEPT !.n[i].c = TruncR(@, n)] IN
    IF f2 = fs THEN MayChange(Touch(f2, cfg, i), cfg, op, i) ELSE Changed(Touch(f2, cfg, i), cfg, op, i)
DoFtruncate(fs, cfg, op) == Ok(SetSize(fs, cfg, op, fs.h[op.h], op.n))
DoTruncate(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF fs.n[w.i].k # "f" THEN Refuse(fs, cfg, op, {"EISDIR", "EINVAL"}, {})
    ELSE Ok(SetSize(fs, cfg, op, w.i, op.n))

DoUnlink(fs, cfg, op) ==
    LET d == Dir(fs, cfg, op.p)
        i == IF d.i = 0 THEN 0 ELSE Child(fs, cfg, d.i, Last_(op.p))
    IN IF d.i = 0 THEN Refuse(fs, cfg, op, d.err, {})
       ELSE IF i = 0 THEN Refuse(fs, cfg, op, Walk(fs, cfg, op.p).err, {d.i})
       ELSE IF fs.n[i].k = "d" THEN Refuse(fs, cfg, op, {"EISDIR", "EPERM"}, {d.i})
       ELSE LET f2 == DelEntry(fs, cfg, op, d.i, Last_(op.p))
            IN Ok(Reap([f2 EXCEPT !.n[i].ct = May(cfg, @, op)]))
DoRmdir(fs, cfg, op) ==
    LET d == Dir(fs, cfg, op.p)
        i == IF d.i = 0 THEN 0 ELSE Child(fs, cfg, d.i, Last_(op.p))
    IN IF d.i = 0 THEN Refuse(fs, cfg, op, d.err, {})
       ELSE IF i = 0 THEN Refuse(fs, cfg, op, Walk(fs, cfg, op.p).err, {d.i})
       ELSE IF fs.n[i].k # "d" THEN Refuse(fs, cfg, op, {"ENOTDIR"}, {d.i})
       ELSE IF fs.n[i].e # Empty THEN Refuse(fs, cfg, op, {"ENOTEMPTY", "EEXIST"}, {d.i, i})
       ELSE LET f2 == DelEntry(fs, cfg, op, d.i, Last_(op.p))
            IN Ok(Reap([f2 EXCEPT !.n[i].ct = May(cfg, @, op), !.n[i].mt = May(cfg, @, op)]))

DoLink(fs, cfg, op) ==
    LET w == Target(fs, cfg, op)
        d == Dir(fs, cfg, op.q)
        es == w.err \cup MakeErrs(fs, cfg, d, Last_(op.q))
              \cup (IF w.i # 0 /\ fs.n[w.i].k = "d" THEN {"EPERM"} ELSE {})
    IN IF es # {} THEN Refuse(fs, cfg, op, es, {d.i})
       ELSE Ok(MetaChanged(AddEntry(fs, cfg, op, d.i, Last_(op.q), w.i), cfg, op, w.i))

DoRename(fs, cfg, op) ==
    LET da == Dir(fs, cfg, op.p)
        db == Dir(fs, cfg, op.q)
        a == IF da.i = 0 THEN 0 ELSE Child(fs, cfg, da.i, Last_(op.p))
        b == IF db.i = 0 THEN 0 ELSE Child(fs, cfg, db.i, Last_(op.q))
        es == da.err \cup db.err
              \cup (IF da.i # 0 /\ a = 0 THEN Walk(fs, cfg, op.p).err ELSE {})
              \cup (IF TooLong(cfg, Last_(op.q)) THEN {"ENAMETOOLONG"} ELSE {})
              \cup (IF a # 0 /\ db.i # 0 /\ fs.n[a].k = "d" /\ ~(db.i = da.i /\ a = b) /\ Above(fs, a, db.i) THEN {"EINVAL"} ELSE {})
              \cup (IF a # 0 /\ b # 0 /\ a # b
                    THEN (IF fs.n[a].k = "d" /\ fs.n[b].k # "d" THEN {"ENOTDIR"} ELSE {})
                         \cup (IF fs.n[a].k # "d" /\ fs.n[b].k = "d" THEN {"EISDIR"} ELSE {})
                         \cup (IF fs.n[b].k = "d" /\ fs.n[b].e # Empty THEN {"ENOTEMPTY", "EEXIST"} ELSE {})
                    ELSE {})
        sameEntry == da.i = db.i /\ Canon(cfg, Last_(op.p)) = Canon(cfg, Last_(op.q))
    IN IF es # {} THEN Refuse(fs, cfg, op, es, {da.i, db.i})
       ELSE IF a = b /\ ~sameEntry
       THEN Ok(MayChange(MayChange([fs EXCEPT !.n[a].ct = May(cfg, @, op)], cfg, op, da.i), cfg, op, db.i))
       ELSE IF op.p = op.q THEN Ok(MayChange(fs, cfg, op, da.i))
       ELSE LET f2 == DelEntry(fs, cfg, op, da.i, Last_(op.p))
                f3 == IF b = 0 \/ sameEntry THEN f2
                      ELSE [DelEntry(f2, cfg, op, db.i, Last_(op.q)) EXCEPT !.n[b].ct = May(cfg, @, op)]
                f4 == AddEntry(f3, cfg, op, db.i, Last_(op.q), a)
            IN Ok(Reap([f4 EXCEPT !.n[a].ct = May(cfg, @, op)]))

DoChmod(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF fs.n[w.i].k = "l" THEN Refuse(fs, cfg, op, {"EOPNOTSUPP"}, {})
    ELSE LET f2 == [fs EXCEPT !.n[w.i].m = op.m] IN
         Ok(IF f2 = fs THEN [f2 EXCEPT !.n[w.i].ct = May(cfg, @, op)] ELSE MetaChanged(f2, cfg, op, w.i))
DoChown(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE LET f2 == [fs EXCEPT !.n[w.i].u = IF op.u2 = -1 THEN @ ELSE op.u2,
                              !.n[w.i].g = IF op.g2 = -1 THEN @ ELSE op.g2] IN
         Ok(IF f2 = fs THEN [f2 EXCEPT !.n[w.i].ct = May(cfg, @, op)] ELSE MetaChanged(f2, cfg, op, w.i))
DoUtimens(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF op.exp THEN Ok([fs EXCEPT !.n[w.i].at = IF cfg.pad THEN {} ELSE {op.a}, !.n[w.i].ct = Now(cfg, op),
                                      !.n[w.i].mt = IF ~cfg.st /\ fs.n[w.i].k = "d" /\ Open(fs, w.i) THEN {} ELSE {op.b}])
    ELSE Ok([fs EXCEPT !.n[w.i].at = Now(cfg, op), !.n[w.i].mt = Now(cfg, op), !.n[w.i].ct = Now(cfg, op)])

DoSetxattr(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF fs.n[w.i].k = "l" THEN Refuse(fs, cfg, op, {"EPERM", "EOPNOTSUPP"}, {})
    ELSE IF op.fl = 1 /\ op.x \in DOMAIN fs.n[w.i].x THEN Refuse(fs, cfg, op, {"EEXIST"}, {})
    ELSE IF op.fl = 2 /\ op.x \notin DOMAIN fs.n[w.i].x THEN Refuse(fs, cfg, op, {"ENODATA"}, {})
    ELSE Ok([fs EXCEPT !.n[w.i].x = Put(@, op.x, <<op.v, op.vl>>), !.n[w.i].ct = May(cfg, @, op)])
DoRemovexattr(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF op.x \notin DOMAIN fs.n[w.i].x THEN Refuse(fs, cfg, op, {"ENODATA"}, {})
    ELSE Ok([fs EXCEPT !.n[w.i].x = Del(@, op.x), !.n[w.i].ct = May(cfg, @, op)])
DoGetxattr(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF op.x \notin DOMAIN fs.n[w.i].x THEN Refuse(fs, cfg, op, {"ENODATA"}, {})
    ELSE LET v == fs.n[w.i].x[op.x] IN
         IF op.sz # 0 /\ op.sz < v[2] THEN Refuse(fs, cfg, op, {"ERANGE"}, {})
         ELSE [err |-> {}, fs |-> fs, val |-> v]
RECURSIVE SumLen(_, _)
SumLen(cfg, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN cfg.xlen[x] + 1 + SumLen(cfg, s \ {x})
DoListxattr(fs, cfg, op) ==
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE LET nms == DOMAIN fs.n[w.i].x
             total == SumLen(cfg, nms)
         IN IF op.sz # 0 /\ op.sz < total THEN Refuse(fs, cfg, op, {"ERANGE"}, {})
            ELSE [err |-> {}, fs |-> fs, names |-> nms, total |-> total]

DoQuery(fs, cfg, op) ==          \* getattr, readlink, ls, getpath: no effect
    LET w == Target(fs, cfg, op) IN
    IF w.i = 0 THEN Refuse(fs, cfg, op, w.err, {})
    ELSE IF op.op = "readlink" /\ fs.n[w.i].k # "l" THEN Refuse(fs, cfg, op, {"EINVAL"}, {})
    ELSE IF op.op = "ls" /\ fs.n[w.i].k # "d" THEN Refuse(fs, cfg, op, {"ENOTDIR"}, {})
    ELSE [err |-> {}, fs |-> fs, i |-> w.i]
DoHandleQuery(fs, cfg, op) == [err |-> {}, fs |-> fs, i |-> fs.h[op.h]]      \* fgetattr, readdir, flush, fsync
DoRemount(fs, cfg, op) == Ok(Reap([fs EXCEPT !.h = Empty]))

\* E9997 is the driver's answer when the handle was never opened, because the operation that should have opened it was refused.
HandleOps == {"release", "releasedir", "read", "write", "ftruncate", "fgetattr", "readdir", "flush", "fsync"}
ApplyRaw(fs, cfg, op) ==
    CASE op.op \in HandleOps /\ op.h \notin DOMAIN fs.h -> [err |-> {"E9997"}, fs |-> fs]
      [] op.op = "create" -> DoCreate(fs, cfg, op)
      [] op.op = "open" -> DoOpen(fs, cfg, op)
      [] op.op = "opendir" -> DoOpendir(fs, cfg, op)
      [] op.op \in {"release", "releasedir"} -> DoRelease(fs, cfg, op)
      [] op.op = "read" -> DoRead(fs, cfg, op)
      [] op.op = "write" -> DoWrite(fs, cfg, op)
      [] op.op = "ftruncate" -> DoFtruncate(fs, cfg, op)
      [] op.op = "truncate" -> DoTruncate(fs, cfg, op)
      [] op.op = "mkdir" -> DoMkdir(fs, cfg, op)
      [] op.op = "symlink" -> DoSymlink(fs, cfg, op)
      [] op.op = "unlink" -> DoUnlink(fs, cfg, op)
      [] op.op = "rmdir" -> DoRmdir(fs, cfg, op)
      [] op.op = "link" -> DoLink(fs, cfg, op)
      [] op.op = "rename" -> DoRename(fs, cfg, op)
      [] op.op = "chmod" -> DoChmod(fs, cfg, op)
      [] op.op = "chown" -> DoChown(fs, cfg, op)
      [] op.op = "utimens" -> DoUtimens(fs, cfg, op)
      [] op.op = "setxattr" -> DoSetxattr(fs, cfg, op)
      [] op.op = "removexattr" -> DoRemovexattr(fs, cfg, op)
      [] op.op = "getxattr" -> DoGetxattr(fs, cfg, op)
      [] op.op = "listxattr" -> DoListxattr(fs, cfg, op)
      [] op.op \in {"getattr", "readlink", "ls", "getpath"} -> DoQuery(fs, cfg, op)
      [] op.op \in {"fgetattr", "readdir", "flush", "fsync"} -> DoHandleQuery(fs, cfg, op)
      [] op.op = "remount" -> DoRemount(fs, cfg, op)
      [] op.op \in {"snap", "objects"} -> Ok(fs)
      [] OTHER -> [err |-> {"ENOSYS"}, fs |-> fs]
Apply(fs, cfg, op) == LET r == ApplyRaw(fs, cfg, op) IN [r EXCEPT !.fs = Looked(@, cfg, op)]

-----------------------------------------------------------------------------
(* Invariants of the abstract state itself (checked exhaustively in TreeMC and on every step of every trace). *)
RECURSIVE Reach(_, _)
Reach(fs, S) == LET T == S \cup UNION {{fs.n[d].e[c].i : c \in DOMAIN fs.n[d].e} : d \in {d \in S : fs.n[d].k = "d"}}
                IN IF T = S THEN S ELSE Reach(fs, T)
TreeInv(fs) ==
    /\ Root \in DOMAIN fs.n /\ fs.n[Root].k = "d"
    /\ LET linked == Linked(fs)
           toDirs == UNION {{<<d, c>> : c \in {c \in DOMAIN fs.n[d].e : fs.n[fs.n[d].e[c].i].k = "d"}} : d \in Dirs(fs)}
       IN /\ linked \subseteq DOMAIN fs.n                                                         \* nothing dangles
          /\ Cardinality(toDirs) = Cardinality(linked \cap Dirs(fs))                               \* directories have one name
          /\ DOMAIN fs.n = {Root} \cup linked \cup Range(fs.h)                                    \* nothing leaks, open content lives
          /\ Reach(fs, {Root}) \cap Dirs(fs) = {Root} \cup (linked \cap Dirs(fs))                 \* connected, acyclic
    /\ \A i \in DOMAIN fs.n : /\ fs.n[i].k # "d" => fs.n[i].e = Empty
                              /\ fs.n[i].k # "f" => fs.n[i].c = <<>>
=============================================================================
