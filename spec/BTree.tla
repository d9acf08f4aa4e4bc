-------------------------------- MODULE BTree --------------------------------
(* What a valid directory index is: pages (dumped from the store after a flush, or held by the model BTreeMC), a root page and
   a list of free pages.  A page is [k: "node", c: child page numbers, e: entries] or [k: "free", next, prev]; page number p is
   pg[p + 1]; -1 stands for no page; an entry is <<key, ...>> whose place in the order is ord[key]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -1
IsPage(pg, p) == p >= 0 /\ p < Len(pg)
Pg(pg, p) == pg[p + 1]
IsNode(pg, p) == IsPage(pg, p) /\ Pg(pg, p).k = "node"

\* Everything below page p: [pages: sequence of pages, e: entries in order, d: heights of the leaves, bad: problems]
RECURSIVE Below(_, _, _), BelowAll(_, _, _, _)
Fault(s) == [pages |-> <<>>, e |-> <<>>, d |-> {}, bad |-> {s}]
Join(a, b) == [pages |-> a.pages \o b.pages, e |-> a.e \o b.e, d |-> a.d \cup b.d, bad |-> a.bad \cup b.bad]
Only(es) == [pages |-> <<>>, e |-> es, d |-> {}, bad |-> {}]
Below(pg, p, depth) ==
    IF depth > 32 THEN Fault("a loop in the tree")
    ELSE IF ~IsNode(pg, p) THEN Fault("a child is not a node")
    ELSE LET n == Pg(pg, p) IN
         IF n.c = <<>> THEN [pages |-> <<p>>, e |-> n.e, d |-> {depth}, bad |-> {}]
         ELSE IF Len(n.c) # Len(n.e) + 1 THEN Fault("the number of children does not fit the entries")
         ELSE Join([pages |-> <<p>>, e |-> <<>>, d |-> {}, bad |-> {}], BelowAll(pg, n, 1, depth))
BelowAll(pg, n, i, depth) ==
    LET b == Below(pg, n.c[i], depth + 1) IN
    IF i = Len(n.c) \/ b.bad # {} THEN b ELSE Join(b, Join(Only(<<n.e[i]>>), BelowAll(pg, n, i + 1, depth)))

Whole(d) == IF d.root = None THEN Only(<<>>) ELSE Below(d.pg, d.root, 0)

\* The free pages as a sequence, following next; at most nfree + 1 of them
RECURSIVE Chain(_, _, _)
Chain(d, p, k) == IF p = None \/ k < 0 \/ ~IsPage(d.pg, p) \/ Pg(d.pg, p).k # "free" THEN <<>> ELSE <<p>> \o Chain(d, Pg(d.pg, p).next, k - 1)

Range(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Range(s)) = Len(s)

\* All that is wrong with the structure
Problems(d, M, ord(_)) ==
    LET w == Whole(d)
        ch == Chain(d, d.free, d.nfree)
        used == w.pages
    IN w.bad \cup
       (IF w.bad # {} THEN {} ELSE
          (IF \A i \in 1..(Len(w.e) - 1) : ord(w.e[i][1]) < ord(w.e[i + 1][1]) THEN {} ELSE {"the entries are not in order"}) \cup
          (IF Cardinality(w.d) <= 1 THEN {} ELSE {"leaves at different depths"}) \cup
          (IF Distinct(used) THEN {} ELSE {"a page is used twice"}) \cup
          (IF \A p \in Range(used) : /\ Len(Pg(d.pg, p).e) <= M
                                     /\ p # d.root => Len(Pg(d.pg, p).e) >= M \div 2 THEN {} ELSE {"a node is too full or too empty"}) \cup
          (IF Len(ch) = d.nfree /\ (d.nfree = 0 => d.free = None) /\ (d.nfree > 0 => Pg(d.pg, ch[Len(ch)]).next = None) THEN {} ELSE {"the list of free pages is broken"}) \cup
          (IF \A i \in 1..Len(ch) : Pg(d.pg, ch[i]).prev = (IF i = 1 THEN None ELSE ch[i - 1]) THEN {} ELSE {"back links of the free pages"}) \cup
          (IF Distinct(ch) THEN {} ELSE {"a free page is listed twice"}) \cup
          (IF Range(used) \cap Range(ch) = {} THEN {} ELSE {"a page is both used and free"}) \cup
          (IF Range(used) \cup Range(ch) = 0..(Len(d.pg) - 1) THEN {} ELSE {"a page is neither used nor free"}))
=============================================================================
