------------------------------ MODULE BrentModel ------------------------------
(* Every history of points on a small grid, with every value. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES b, seen
vars == <<b, seen>>
Lt(p, q) == p < q
INSTANCE Brent WITH Less <- Lt
Xs == 0..7
Ys == 0..3
Init == \E x1, x2, x3 \in Xs, y1, y2, y3 \in Ys :
           /\ x1 < x2 /\ x2 < x3 /\ y2 < y1 /\ y2 < y3
           /\ b = Start(<<x1, x2, x3>>, <<y1, y2, y3>>) /\ seen = {<<x1, y1>>, <<x2, y2>>, <<x3, y3>>}
Next == \E x \in Xs, y \in Ys : Askable(b, x) /\ b' = Add(b, x, y) /\ seen' = seen \cup {<<x, y>>}
Inside == Bracketed(b)
Best == b.pts[1] \in seen /\ \A p \in seen : p[2] >= b.pts[1][2]
Sorted == \A k \in 1..(Len(b.pts) - 1) : b.pts[k][2] <= b.pts[k + 1][2]
FourBest == \A p \in seen : p \in {b.pts[k] : k \in DOMAIN b.pts} \/ (Len(b.pts) = 4 /\ p[2] >= b.pts[4][2])
\* nothing but the best point has been seen inside the bracket, so no point is ever asked for twice; the ends have been seen and are no lower
Ends == /\ \A p \in seen : p[1] = b.pts[1][1] \/ p[1] <= b.lo \/ p[1] >= b.hi
        /\ \A e \in {b.lo, b.hi} : \E p \in seen : p[1] = e /\ p[2] >= b.pts[1][2]
Narrower == [][b'.hi - b'.lo < b.hi - b.lo /\ b'.lo >= b.lo /\ b'.hi <= b.hi]_vars
Ends1 == [](~ENABLED Next => b.hi - b.lo = 2)
Spec == Init /\ [][Next]_vars
=============================================================================
