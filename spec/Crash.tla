------------------------------- MODULE Crash -------------------------------
(* What may be found after an operation was interrupted (the process died, or a storage call failed) somewhere in the middle.
   A state is a record [a, b, t, v, d]:
     a, b   two trees: the one without and the one with the interrupted operation (equal when nothing is open)
     t      tainted inodes: objects the interrupted operation was writing, or that had changes not yet flushed
     v      inode |-> contents it had since it was last flushed
     d      inodes with changes that are not flushed (full format: objects with an open handle)
   In the lite format a namespace operation is done or not done: the state then goes on as one of the two trees, nothing tainted.
   A tainted file may fail to read, but whatever it yields was written there; objects that are not tainted are exact.  In the full
   format a tainted directory may lose or fail to show entries, but every entry it shows is one it has in a or in b. *)
EXTENDS TreeMatch

S0(fs) == [a |-> fs, b |-> fs, t |-> {}, v |-> Empty, d |-> {}]
Both(s, fs) == [s EXCEPT !.a = fs, !.b = fs]
IsMixed(s) == s.t # {} \/ s.a # s.b

WriteOps == {"write", "ftruncate", "truncate"}
MakeOps == {"create", "mkdir", "symlink"}
NameOps == MakeOps \cup {"link", "unlink", "rmdir", "rename"}
InoOps == {"chmod", "chown", "utimens", "setxattr", "removexattr"}
Z(S) == S \ {0}
\* the objects an operation may write
Targets(fs, cfg, op) ==
    CASE op.op \in HandleOps -> IF op.h \in DOMAIN fs.h THEN {fs.h[op.h]} ELSE {}
      [] op.op \in MakeOps -> Z({Dir(fs, cfg, op.p).i, fs.next})
      [] op.op \in {"unlink", "rmdir"} -> Z({Dir(fs, cfg, op.p).i, Walk(fs, cfg, op.p).i})
      [] op.op \in {"link", "rename"} -> Z({Dir(fs, cfg, op.p).i, Dir(fs, cfg, op.q).i, Walk(fs, cfg, op.p).i, Walk(fs, cfg, op.q).i})
      [] op.op \in {"truncate", "open"} \cup InoOps -> Z({Walk(fs, cfg, op.p).i})
      [] OTHER -> {}
\* the objects whose stored form it may rewrite: with stored time stamps, reading an object and walking through a directory rewrites them
RECURSIVE Chain(_, _, _)
Chain(fs, cfg, p) == IF p = <<>> THEN {Root} ELSE Z({Walk(fs, cfg, p).i}) \cup Chain(fs, cfg, Front_(p))
Written(fs, cfg, op) ==
    Targets(fs, cfg, op) \cup (IF cfg.fmt # "full" \/ ~cfg.st THEN {}
        ELSE (IF "p" \in DOMAIN op THEN Chain(fs, cfg, op.p) ELSE {}) \cup (IF "q" \in DOMAIN op THEN Chain(fs, cfg, op.q) ELSE {}))
\* after an ordinary operation: which objects have changes that are not flushed
Dirty(s, cfg, op, f2) ==
    IF cfg.fmt = "lite" THEN {}
    ELSE LET held == Range(f2.h) \ {Root}
             chg == IF op.op \in {"read", "fgetattr", "readdir", "getattr"} /\ ~cfg.st THEN {} ELSE IF op.op = "snap" THEN DOMAIN s.a.n ELSE Written(s.a, cfg, op)
             fl == IF op.op \in {"flush", "fsync"} THEN Targets(s.a, cfg, op) ELSE {}
         IN ((s.d \cup chg) \cap held) \ fl
Versions(s, d2, f2) == [i \in d2 \cap DOMAIN f2.n |->
                          (IF i \in DOMAIN s.v THEN s.v[i] ELSE IF i \in DOMAIN s.a.n THEN {s.a.n[i].c} ELSE {<<>>}) \cup {f2.n[i].c}]
Normal(s, cfg, op, f2) == LET d2 == Dirty(s, cfg, op, f2) IN [Both(s, f2) EXCEPT !.d = d2, !.v = Versions(s, d2, f2)]

\* time stamps of the objects an unfinished operation touched are not known
Loosen(fs, S) == [fs EXCEPT !.n = [i \in DOMAIN fs.n |-> IF i \in S THEN [fs.n[i] EXCEPT !.at = {}, !.mt = {}, !.ct = {}] ELSE fs.n[i]]]
\* the process died during op
AfterCrash(s, cfg, op) ==
    LET T == Written(s.a, cfg, op) \cup Written(s.b, cfg, op) \cup s.t
        r == Apply(s.b, cfg, op)
        A == [Loosen(DoRemount(s.a, cfg, op).fs, T) EXCEPT !.next = r.fs.next + 1]       \* later objects have the same, new number in both
        B == [Loosen(DoRemount(r.fs, cfg, op).fs, T) EXCEPT !.next = @ + 1]
        old(i) == IF i \in DOMAIN s.v THEN s.v[i] ELSE IF i \in DOMAIN s.a.n THEN {s.a.n[i].c} ELSE {}
        new(i) == IF i \in DOMAIN r.fs.n THEN {r.fs.n[i].c} ELSE {}
        V(X) == [i \in X |-> old(i) \cup new(i)]
    IN IF cfg.fmt = "full" THEN {[a |-> A, b |-> B, t |-> T \cup s.d, v |-> V(T \cup s.d), d |-> {}]}
       ELSE IF op.op \in WriteOps \/ IsMixed(s) THEN {[a |-> A, b |-> B, t |-> T, v |-> V(T), d |-> {}]}
       ELSE {S0(A), S0(B)}
\* a storage call of op failed and the operation reported an error: done or not done (a handle is not returned)
AfterFault(s, cfg, op) ==
    LET T == Targets(s.a, cfg, op)
        r == Apply(s.a, cfg, op)
        done == IF op.op \in {"create", "open", "opendir"} /\ op.h \in DOMAIN r.fs.h /\ op.h \notin DOMAIN s.a.h THEN Reap([r.fs EXCEPT !.h = Del(@, op.h)]) ELSE r.fs
    IN {S0(Loosen(s.a, T)), S0(Loosen(done, T))}

-----------------------------------------------------------------------------
\* Bytes of a file that was being written
RECURSIVE Cuts(_, _)
Cuts(r, k) == IF r = <<>> THEN {} ELSE {k} \cup Cuts(Tail(r), k + r[1][1])
RECURSIVE At(_, _)
At(r, p) == IF r = <<>> THEN -2 ELSE IF p < r[1][1] THEN r[1][2] ELSE At(Tail(r), p - r[1][1])
Explained(d, vs) ==
    LET len == LenR(d) IN
    /\ \E x \in vs : len <= LenR(x)
    /\ \A p \in UNION {Cuts(x, 0) : x \in vs \cup {d}} : p < len =>
          \/ \E x \in vs : At(x, p) = At(d, p)
          \/ At(d, p) = 0 /\ \E x \in vs : LenR(x) <= p

RECURSIVE Prefixes(_)
Prefixes(p) == IF p = <<>> THEN {<<>>} ELSE {p} \cup Prefixes(Front_(p))
Res(s, cfg, p) == Z({ShownFrom(s.a, cfg, Root, p), ShownFrom(s.b, cfg, Root, p)})
\* an object or one of the directories above it is tainted
Below(s, cfg, p) == \E q \in Prefixes(p) : Res(s, cfg, q) \cap s.t # {}
Under(s, cfg, p) == p # <<>> /\ Below(s, cfg, Front_(p))

ListSome(s, i, ls) ==
    LET L(fs) == IF i \in DOMAIN fs.n /\ fs.n[i].k = "d" THEN {<<fs.n[i].e[c].nm, fs.n[fs.n[i].e[c].i].k>> : c \in DOMAIN fs.n[i].e} ELSE {}
    IN /\ \A j \in 1..Len(ls) : <<ls[j][1], ls[j][2]>> \in L(s.a) \cup L(s.b)
       /\ Cardinality({ls[j][1] : j \in 1..Len(ls)}) = Len(ls)
TaintDiff(s, full, i, o) ==
    LET in == {fs \in {s.a, s.b} : i \in DOMAIN fs.n} IN
    IF i \notin DOMAIN s.a.n THEN (IF o.k = "f" /\ o.d # <<>> /\ ~Explained(o.d, s.v[i] \cup {<<>>}) THEN {<<o.p, "content of a new file">>} ELSE {})
    ELSE IF o.k = "?" /\ <<>> \in s.v[i] THEN {}            \* created, but its attributes were never flushed
    ELSE (IF \E fs \in in : o.k = fs.n[i].k THEN {} ELSE {<<o.p, "kind">>})
         \cup (IF o.k = "f" /\ o.d # <<<<-1, -1>>>> /\ ~Explained(o.d, s.v[i]) THEN {<<o.p, "bytes never written there", o.d, s.v[i]>>} ELSE {})
         \cup (IF o.k = "l" /\ ~\E fs \in in : o.t \in {fs.n[i].t, ""} THEN {<<o.p, "target">>} ELSE {})
         \cup (IF o.k = "d" /\ ~ListSome(s, i, o.ls) THEN {<<o.p, "listing">>} ELSE {})
         \cup (IF full \/ \E fs \in in : o.m = fs.n[i].m \/ fs.n[i].m = -1 THEN {} ELSE {<<o.p, "mode">>})
         \cup (IF o.hasx /\ ~full /\ ~\A j \in 1..Len(o.x) : \E fs \in in : <<o.x[j][1], o.x[j][2]>> \in XattrSet(fs.n[i]) \/ o.x[j][2] = "?21" THEN {<<o.p, "xattr">>} ELSE {})
MixedEntry(s, cfg, o) ==
    LET ia == ShownFrom(s.a, cfg, Root, o.p)
        ib == ShownFrom(s.b, cfg, Root, o.p)
        one(fs, i) == IF i = 0 THEN {<<o.p, "absent">>} ELSE IF i \in s.t THEN TaintDiff(s, cfg.fmt = "full", i, o) ELSE EntryDiff(fs, cfg, o)
    IN IF ia = 0 /\ ib = 0 THEN {<<o.p, "unexpected entry">>}
       ELSE IF one(s.a, ia) = {} \/ one(s.b, ib) = {} THEN {} ELSE IF ia # 0 THEN one(s.a, ia) ELSE one(s.b, ib)
RECURSIVE AllShown(_, _, _, _)
AllShown(fs, i, p, k) == {p} \cup (IF fs.n[i].k # "d" \/ k = 0 THEN {} ELSE UNION {AllShown(fs, fs.n[i].e[c].i, Append(p, fs.n[i].e[c].nm), k - 1) : c \in DOMAIN fs.n[i].e})
MixedSnap(s, cfg, obs, errp) ==
    LET seen == {obs[j].p : j \in 1..Len(obs)}
        bad == {errp[j] : j \in 1..Len(errp)}
    IN UNION {MixedEntry(s, cfg, obs[j]) : j \in 1..Len(obs)}
       \cup {<<p, "error reading an object that was not being changed">> : p \in {p \in bad : ~Below(s, cfg, p)}}
       \cup {<<p, "missing">> : p \in {p \in AllShown(s.a, Root, <<>>, 6) \cap AllShown(s.b, Root, <<>>, 6) : p \notin seen /\ p \notin bad /\ ~Under(s, cfg, p)}}
=============================================================================
