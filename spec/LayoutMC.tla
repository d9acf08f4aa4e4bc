------------------------------ MODULE LayoutMC ------------------------------
(* The arrangements of Layout are sound: for all small sizes the pieces cover the stored bytes exactly once, the content length can be recovered, and growing a file moves
   no piece of a full block. *)
EXTENDS Layout, TLC
CONSTANTS Bs, Ivs, Pads, MaxN
VARIABLES bs, iv, pad, n
vars == <<bs, iv, pad, n>>
Init == bs \in Bs /\ iv \in Ivs /\ pad \in Pads /\ n = 0
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED <<bs, iv, pad>>
Spec == Init /\ [][Next]_vars
Exact == /\ Covers(LitePieces(n, bs, iv, pad), LiteLen(n, bs, iv, pad))
         /\ \A st \in BOOLEAN : Covers(FullPieces(n, bs, iv, pad, st), FullMeta(n, bs, iv, pad, st))
Recovered == LiteContent(LiteLen(n, bs, iv, pad), bs, iv, pad) = n
Full(P) == {q \in P : q[2] < n \div bs /\ q[1] \in {"iv", "ct", "mac"}}
Stable == [][/\ Full(LitePieces(n, bs, iv, pad)) \subseteq LitePieces(n', bs, iv, pad)
             /\ FullPieces(n, bs, iv, pad, TRUE) \subseteq FullPieces(n', bs, iv, pad, TRUE)]_vars
=============================================================================
