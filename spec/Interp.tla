------------------------------- MODULE Interp -------------------------------
(* Interpolation in tables (entries 0..n-1 at x = 0..n-1), and parabolas. *)
EXTENDS Dec
E(t, k) == t[k + 1]
(* cubic: through the entries, with slopes (t[k+1] - t[k-1]) / 2 at them *)
Cubic(t, x) ==
   LET f == DFloor(x)  n == Len(t)
       k == IF f < 1 THEN 1 ELSE IF f > n - 3 THEN n - 3 ELSE f
       z == DSub(x, Num(k))
       c == DDiv(DSub(E(t, k + 1), E(t, k - 1)), "2")
       d == DDiv(DSub(E(t, k + 2), E(t, k)), "2")
       y == DSub(E(t, k + 1), E(t, k))
       a == DSub(DAdd(c, d), DMul("2", y))
       b == DSub(DSub(y, a), c) IN
   [v |-> DPoly(<<E(t, k), c, b, a>>, z),
    err |-> IF f < 0 THEN -2 ELSE IF f = 0 THEN -1 ELSE IF f > n - 2 THEN -2 ELSE IF f > n - 3 THEN -1 ELSE 0]
(* Lagrange: the polynomial through the m entries nearest x *)
RECURSIVE Prod(_, _, _, _, _)
Prod(x, i, skip, j, m) == IF j = m THEN "1" ELSE IF j = i \/ j = skip THEN Prod(x, i, skip, j + 1, m)
                          ELSE DMul(DDiv(DSub(x, Num(j)), Num(i - j)), Prod(x, i, skip, j + 1, m))
Base(z, i, m) == Prod(z, i, -1, 0, m)
RECURSIVE SlopeSum(_, _, _, _)
SlopeSum(z, i, k, m) == IF k = m THEN "0" ELSE IF k = i THEN SlopeSum(z, i, k + 1, m)
                        ELSE DAdd(DDiv(Prod(z, i, k, 0, m), Num(i - k)), SlopeSum(z, i, k + 1, m))
Window(n, m, x) == LET w == DFloor(DSub(x, DDiv(Num(m), "2"))) + 1 IN IF w < 0 THEN 0 ELSE IF w > n - m THEN n - m ELSE w
Ws(m) == [k \in 1..m |-> k]
Lagrange(t, m, x) ==
   LET w == Window(Len(t), m, x)  z == DSub(x, Num(w))
       l == [k \in 1..m |-> Base(z, k - 1, m)]
       s == [k \in 1..m |-> SlopeSum(z, k - 1, 0, m)]
       e == SubSeq(t, w + 1, w + m)
       mag(f) == DDot([k \in 1..m |-> DAbs(f[k])], [k \in 1..m |-> DAdd("1", DAbs(e[k]))]) IN
   [v |-> DDot(l, e), d |-> DDot(s, e), vm |-> mag(l), dm |-> mag(s)]
OnGrid(t, x) == DInt(x) = DMul(x, "1") /\ DFloor(x) \in 0..(Len(t) - 1)
=============================================================================
