------------------------------- MODULE Layout -------------------------------
(* Where everything stands in the stored form of the two formats (sizes in bytes).  These arrangements are what earlier and later builds of the same format version
   agree on; lib/layout.py turns the pieces into bytes (keys, cipher texts, MACs) and back. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
IdLen == 16          \* lite: identity of a file
MacLen == 16
SealLen == 32        \* full: HMAC over the list of a file
PageLen == 4096      \* full: page of a directory
MinOf(a, b) == IF a < b THEN a ELSE b
Blocks(n, bs) == (n + bs - 1) \div bs
BlockLen(n, bs, k) == MinOf(bs, n - k * bs)

\* ---- lite format: one stored file for n bytes of content: identity, padding, then IV | cipher text | MAC for every block
LiteUnit(bs, iv) == bs + iv + MacLen
LitePos(bs, iv, pad, k) == IdLen + pad + k * LiteUnit(bs, iv)
LiteLen(n, bs, iv, pad) == IF n = 0 THEN IdLen + pad ELSE LitePos(bs, iv, pad, Blocks(n, bs) - 1) + iv + BlockLen(n, bs, Blocks(n, bs) - 1) + MacLen
LitePieces(n, bs, iv, pad) ==
    {<<"id", 0, 0, IdLen>>, <<"pad", 0, IdLen, pad>>}
    \cup UNION {LET p == LitePos(bs, iv, pad, k) c == BlockLen(n, bs, k) IN {<<"iv", k, p, iv>>, <<"ct", k, p + iv, c>>, <<"mac", k, p + iv + c, MacLen>>} : k \in 0..Blocks(n, bs) - 1}
\* the content length follows from the stored length
LiteContent(s, bs, iv, pad) ==
    LET x == s - IdLen - pad  u == LiteUnit(bs, iv)  r == x % u IN
    (x \div u) * bs + (IF r > iv + MacLen THEN r - iv - MacLen ELSE 0)

\* ---- full format: the object's bytes p (padding first, then n bytes of content) as blocks in one file; in the other: seal, header (IV, MAC, cipher text), IV and MAC per block
HeaderLen(st) == IF st THEN 80 ELSE 32
FullData(n, pad) == pad + n
MetaPos(bs, iv, st, k) == SealLen + iv + MacLen + HeaderLen(st) + k * (iv + MacLen)
FullMeta(n, bs, iv, pad, st) == MetaPos(bs, iv, st, Blocks(FullData(n, pad), bs))
FullPieces(n, bs, iv, pad, st) ==
    {<<"seal", 0, 0, SealLen>>, <<"hiv", 0, SealLen, iv>>, <<"hmac", 0, SealLen + iv, MacLen>>, <<"header", 0, SealLen + iv + MacLen, HeaderLen(st)>>}
    \cup UNION {{<<"iv", k, MetaPos(bs, iv, st, k), iv>>, <<"mac", k, MetaPos(bs, iv, st, k) + iv, MacLen>>} : k \in 0..Blocks(FullData(n, pad), bs) - 1}

\* pieces neither overlap nor leave anything out
Covers(P, len) == \A x \in 0..len - 1 : Cardinality({q \in P : x >= q[3] /\ x < q[3] + q[4]}) = 1
=============================================================================
