------------------------------ MODULE BTreeMC ------------------------------
(* The algorithm of the directory index: insertion with splitting, deletion by the predecessor with merging and rotation, pages
   taken from and given back to the list of free pages, rebuilding when too many are free.  Keys are renumbered 1..n after every
   step, so that the states are the shapes of the trees; all shapes with at most MaxKeys entries are explored, every one is valid,
   and every transition is printed so that the check can replay it in the real code. *)
EXTENDS BTree, Json
CONSTANTS M, MaxKeys, Emit
VARIABLE t     \* [pg, root, free, nfree, n]
NodeP(e, c) == [k |-> "node", e |-> e, c |-> c, next |-> None, prev |-> None]
FreeP(nx, pv) == [k |-> "free", e |-> <<>>, c |-> <<>>, next |-> nx, prev |-> pv]
Put(pg, p, x) == [pg EXCEPT ![p + 1] = x]

\* a page for a new node: the first free one, or one more; the result is <<tree, page>>
Alloc(x) == IF x.free = None THEN <<[x EXCEPT !.pg = Append(@, NodeP(<<>>, <<>>))], Len(x.pg)>>
            ELSE LET p == x.free nx == Pg(x.pg, p).next
                     pg1 == IF nx = None THEN x.pg ELSE Put(x.pg, nx, FreeP(Pg(x.pg, nx).next, None))
                 IN <<[x EXCEPT !.pg = Put(pg1, p, NodeP(<<>>, <<>>)), !.free = nx, !.nfree = @ - 1], p>>
Free(x, p) == LET pg1 == IF x.free = None THEN x.pg ELSE Put(x.pg, x.free, FreeP(Pg(x.pg, x.free).next, p))
              IN [x EXCEPT !.pg = Put(pg1, p, FreeP(x.free, None)), !.free = p, !.nfree = @ + 1]

Pos(es, k) == Cardinality({i \in 1..Len(es) : es[i][1] < k}) + 1               \* lower bound
Ins(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* the pages from the root to the one that holds k or is the leaf where k belongs
RECURSIVE Path(_, _, _)
Path(x, p, k) == LET n == Pg(x.pg, p) i == Pos(n.e, k) IN
                 IF (i <= Len(n.e) /\ n.e[i][1] = k) \/ n.c = <<>> THEN <<p>> ELSE <<p>> \o Path(x, n.c[i], k)
RECURSIVE RightMost(_, _)
RightMost(x, p) == LET n == Pg(x.pg, p) IN IF n.c = <<>> THEN <<p>> ELSE <<p>> \o RightMost(x, n.c[Len(n.c)])

\* insert entry e (and a child right of it) into the last page of the path
RECURSIVE InsUp(_, _, _, _)
InsUp(x, path, e, child) ==
    LET p == path[Len(path)]
        n == Pg(x.pg, p)
        i == Pos(n.e, e[1])
        es == Ins(n.e, i, e)
        cs == IF child = None THEN n.c ELSE Ins(n.c, i + 1, child)
    IN IF Len(es) <= M THEN [x EXCEPT !.pg = Put(@, p, NodeP(es, cs))]
       ELSE LET mid == Len(es) \div 2                               \* 1-based position of the entry that moves up
                a == Alloc(x) s == a[2]
                left == NodeP(SubSeq(es, 1, mid - 1), IF cs = <<>> THEN <<>> ELSE SubSeq(cs, 1, mid))
                right == NodeP(SubSeq(es, mid + 1, Len(es)), IF cs = <<>> THEN <<>> ELSE SubSeq(cs, mid + 1, Len(cs)))
                y == [a[1] EXCEPT !.pg = Put(Put(@, p, left), s, right)]
            IN IF Len(path) = 1
               THEN LET b == Alloc(y) IN [b[1] EXCEPT !.pg = Put(@, b[2], NodeP(<<es[mid]>>, <<p, s>>)), !.root = b[2]]
               ELSE InsUp(y, SubSeq(path, 1, Len(path) - 1), es[mid], s)
Insert(x, e) == IF x.root = None THEN LET a == Alloc(x) IN [a[1] EXCEPT !.pg = Put(@, a[2], NodeP(<<e>>, <<>>)), !.root = a[2]]
                ELSE InsUp(x, Path(x, x.root, e[1]), e, None)

\* repair the last page of the path after it lost an entry
RECURSIVE Balance(_, _)
Balance(x, path) ==
    LET p == path[Len(path)] n == Pg(x.pg, p) IN
    IF Len(path) = 1 THEN IF n.e = <<>> /\ n.c # <<>> THEN Free([x EXCEPT !.root = n.c[1]], p) ELSE x
    ELSE IF Len(n.e) >= M \div 2 THEN x
    ELSE LET pp == path[Len(path) - 1] par == Pg(x.pg, pp)
             ci == CHOOSE i \in 1..Len(par.c) : par.c[i] = p
             li == IF ci = Len(par.c) THEN ci - 1 ELSE ci            \* left one of the two siblings; separator par.e[li]
             lp == par.c[li] rp == par.c[li + 1]
             L == Pg(x.pg, lp) R == Pg(x.pg, rp)
             es == L.e \o <<par.e[li]>> \o R.e
             cs == L.c \o R.c
             up == SubSeq(path, 1, Len(path) - 1)
         IN IF Len(L.e) + Len(R.e) < M
            THEN Balance(Free([x EXCEPT !.pg = Put(Put(@, lp, NodeP(es, cs)), pp, NodeP(Del(par.e, li), Del(par.c, li + 1)))], rp), up)
            ELSE LET mid == Len(es) \div 2 + 1 IN
                 Balance([x EXCEPT !.pg = Put(Put(Put(@, lp, NodeP(SubSeq(es, 1, mid - 1), IF cs = <<>> THEN <<>> ELSE SubSeq(cs, 1, mid))),
                                                   rp, NodeP(SubSeq(es, mid + 1, Len(es)), IF cs = <<>> THEN <<>> ELSE SubSeq(cs, mid + 1, Len(cs)))),
                                              pp, NodeP([par.e EXCEPT ![li] = es[mid]], par.c))], up)
Remove(x, k) ==
    LET path == Path(x, x.root, k)
        p == path[Len(path)] n == Pg(x.pg, p)
        i == Pos(n.e, k)
    IN IF n.c = <<>> THEN Balance([x EXCEPT !.pg = Put(@, p, NodeP(Del(n.e, i), <<>>))], path)
       ELSE LET down == RightMost(x, n.c[i])
                lp == down[Len(down)] lf == Pg(x.pg, lp)
                y == [x EXCEPT !.pg = Put(Put(@, p, NodeP([n.e EXCEPT ![i] = lf.e[Len(lf.e)]], n.c)), lp, NodeP(SubSeq(lf.e, 1, Len(lf.e) - 1), <<>>))]
            IN Balance(y, path \o down)

Empty0 == [pg |-> <<>>, root |-> None, free |-> None, nfree |-> 0, n |-> 0]
RECURSIVE AddAll(_, _)
AddAll(x, es) == IF es = <<>> THEN x ELSE AddAll(Insert(x, es[1]), Tail(es))
NeedsRebuild(x) == x.nfree > 5 /\ 3 * x.nfree > 2 * Len(x.pg)
Flush(x) == IF NeedsRebuild(x) THEN [AddAll(Empty0, Whole(x).e) EXCEPT !.n = x.n] ELSE x

\* renumber: make room for rank r / close the gap at rank r
Shift(x, r, by) == [x EXCEPT !.pg = [j \in 1..Len(@) |-> [@[j] EXCEPT !.e = [i \in 1..Len(@) |-> IF @[i][1] >= r THEN <<@[i][1] + by>> ELSE @[i]]]]]
DoAdd(x, r) == [Insert(Shift(x, r, 1), <<r>>) EXCEPT !.n = @ + 1]
DoDel(x, r) == [Shift(Remove(x, r), r + 1, -1) EXCEPT !.n = @ - 1]

RECURSIVE Shape(_, _)
Shape(x, p) == IF p = None THEN <<>> ELSE LET n == Pg(x.pg, p) IN <<Len(n.e)>> \o [i \in 1..Len(n.c) |-> Shape(x, n.c[i])]
View(x) == <<Shape(x, x.root), IF x.nfree > 2 THEN 2 ELSE x.nfree>>
V == View(t)

Init == t = Empty0
Out(op, r, u) == Emit => PrintT(<<"T", ToJson(V), op, r, ToJson(View(u))>>)
Next == \/ \E r \in 1..(t.n + 1) : t.n < MaxKeys /\ t' = DoAdd(t, r) /\ Out("add", r, t')
        \/ \E r \in 1..t.n : t' = DoDel(t, r) /\ Out("del", r, t')
        \/ NeedsRebuild(t) /\ t' = Flush(t) /\ Out("flush", 0, t')
Spec == Init /\ [][Next]_t
Id(k) == k
Inv == /\ Problems(t, M, Id) = {}
       /\ Len(Whole(t).e) = t.n
       /\ \A i \in 1..t.n : Whole(t).e[i][1] = i
=============================================================================
