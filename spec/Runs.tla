-------------------------------- MODULE Runs --------------------------------
(* Byte contents of a file as a run-length sequence of <<length, tag>>.  Tag 0 is a zero byte; any other tag names
   the write that produced the byte.  The harness writes bytes from which tag and position can be recovered, so equality of
   run sequences is equality of byte arrays.  RunsCheck.tla verifies the operators against explicit byte functions. *)
EXTENDS Integers, Sequences

RECURSIVE LenR(_), TakeR(_, _), DropR(_, _)
LenR(r) == IF r = <<>> THEN 0 ELSE r[1][1] + LenR(Tail(r))
TakeR(r, n) == IF n <= 0 \/ r = <<>> THEN <<>>
               ELSE IF r[1][1] <= n THEN <<r[1]>> \o TakeR(Tail(r), n - r[1][1])
               ELSE << <<n, r[1][2]>> >>
DropR(r, n) == IF n <= 0 \/ r = <<>> THEN r
               ELSE IF r[1][1] <= n THEN DropR(Tail(r), n - r[1][1])
               ELSE << <<r[1][1] - n, r[1][2]>> >> \o Tail(r)
CatR(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE LET la == a[Len(a)] IN
                   IF la[2] = b[1][2] THEN SubSeq(a, 1, Len(a) - 1) \o << <<la[1] + b[1][1], la[2]>> >> \o Tail(b)
                   ELSE a \o b
RunR(n, tag) == IF n <= 0 THEN <<>> ELSE << <<n, tag>> >>
TruncR(r, n) == LET s == LenR(r) IN IF n <= s THEN TakeR(r, n) ELSE CatR(r, RunR(n - s, 0))
WriteR(r, off, len, tag) ==
    IF len = 0 THEN r
    ELSE LET s == LenR(r)
             base == IF off > s THEN CatR(r, RunR(off - s, 0)) ELSE r
         IN CatR(CatR(TakeR(base, off), RunR(len, tag)), DropR(base, off + len))
ReadR(r, off, len) == TakeR(DropR(r, off), len)
=============================================================================
