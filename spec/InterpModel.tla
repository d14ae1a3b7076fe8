----------------------------- MODULE InterpModel -----------------------------
(* Polynomials are their own interpolation; tables are met at their entries. *)
EXTENDS Interp, TLC
VARIABLES x, m, c
vars == <<x, m, c>>
N == 12
Coefs == {<<"1", "-2", "0.5">>, <<"0", "1">>, <<"3", "0", "0", "-0.25">>, <<"0", "0", "0", "0", "1">>}
Tab == [k \in 1..N |-> DPoly(c, Num(k - 1))]
Slope == [k \in 1..(Len(c) - 1) |-> DMul(Num(k), c[k + 1])]
Init == x = "-1.5" /\ m \in 2..7 /\ c \in Coefs
Next == DLt(x, "12.6") /\ x' = DAdd(x, "0.25") /\ UNCHANGED <<m, c>>
Exact == m >= Len(c) => LET l == Lagrange(Tab, m, x) IN DNear(l.v, DPoly(c, x), "1e-30") /\ DNear(l.d, DPoly(Slope, x), "1e-30")
Nodes == OnGrid(Tab, x) => LET k == DFloor(x) IN /\ (DNear(Cubic(Tab, x).v, E(Tab, k), "1e-30") \/ Cubic(Tab, x).err # 0)
                                                  /\ DNear(Lagrange(Tab, m, x).v, E(Tab, k), "1e-30")
CubicExact == Len(c) <= 3 => DNear(Cubic(Tab, x).v, DPoly(c, x), "1e-30")
Errs == Cubic(Tab, x).err = (IF DLt(x, "0") \/ DLe(Num(N - 1), x) THEN -2 ELSE IF DLt(x, "1") \/ DLe(Num(N - 2), x) THEN -1 ELSE 0)
Near5 == DLe(Num(Window(N, m, x)), DMax("0", x)) 
Spec == Init /\ [][Next]_vars
=============================================================================
