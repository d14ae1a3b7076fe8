-------------------------------- MODULE Brent --------------------------------
(***************************************************************************)
(* A bracketing minimizer: the points seen so far, best first, and the     *)
(* bracket (lo, hi) about the best of them.  The order of numbers is a     *)
(* parameter, so that the same specification is model checked on integers  *)
(* and compared with the code on reals.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Less(_, _)
Keep == 4
\* where a value y goes among points sorted by value: before its equals
Place(pts, y) == CHOOSE k \in 1..(Len(pts) + 1) : (\A j \in 1..(k - 1) : Less(pts[j][2], y)) /\ (k <= Len(pts) => ~Less(pts[k][2], y))
Insert(pts, p) == LET k == Place(pts, p[2])  all == SubSeq(pts, 1, k - 1) \o <<p>> \o SubSeq(pts, k, Len(pts)) IN
                  IF Len(all) > Keep THEN SubSeq(all, 1, Keep) ELSE all
\* a point may be asked for if it is inside the bracket and not the best point
Askable(b, x) == Less(b.lo, x) /\ Less(x, b.hi) /\ x # b.pts[1][1]
Add(b, x, y) ==
   LET best == b.pts[1]
       better == ~Less(best[2], y)
       left == Less(x, best[1]) IN
   [pts |-> Insert(b.pts, <<x, y>>),
    lo |-> IF better THEN (IF left THEN b.lo ELSE best[1]) ELSE IF left THEN x ELSE b.lo,
    hi |-> IF better THEN (IF left THEN best[1] ELSE b.hi) ELSE IF left THEN b.hi ELSE x,
    n |-> b.n + 1]
\* three points, the middle one lowest
Start(x, y) == LET a == <<x[1], y[1]>>  m == <<x[2], y[2]>>  c == <<x[3], y[3]>> IN
               [pts |-> IF Less(c[2], a[2]) THEN <<m, c, a>> ELSE <<m, a, c>>, lo |-> x[1], hi |-> x[3], n |-> 0]
Bracketed(b) == Less(b.lo, b.pts[1][1]) /\ Less(b.pts[1][1], b.hi)
=============================================================================
