----------------------------- MODULE OrbitModel -----------------------------
(* Along every conic, energy, momentum and the eccentricity vector stay what the elements say. *)
EXTENDS Orbit, TLC
VARIABLES e, q, k
vars == <<e, q, k>>
Es == {"0", "0.01", "0.3", "0.89", "0.97", "0.999999", "0.9999999999999999", "1", "1.0000000000000002", "1.0001", "1.3", "7"}
Qs == {"0.005", "1", "30"}
Gm == "2.9591220828559115e-4"
El == [T |-> "0", q |-> q, e |-> e, i |-> "2.1", w |-> "4.4", n |-> "-0.7", gm |-> Gm]
Times == <<"-1e6", "-4000", "-300", "-20", "-1", "-0.01", "0", "0.02", "1", "15", "200", "3000", "2e5">>
Init == e \in Es /\ q \in Qs /\ k = 1
Next == k < Len(Times) /\ k' = k + 1 /\ UNCHANGED <<e, q>>
S == StateAt(El, Times[k])
Back == StateAt(El, DNeg(Times[k]))
EnergyKept == LET want == DDiv(DMul(Gm, DSub(e, "1")), DMul("2", q)) IN DNear(Energy(S, Gm), want, "1e-16")
MomentumKept == LET h == DSqrt(DMul(Gm, DMul(q, DAdd("1", e)))) IN VNear(Momentum(S), VScale(h, Pole(El)), "1e-16")
ShapeKept == VNear(EccVec(S, Gm), VScale(e, Perih(El)), "1e-13")
Symmetric == DNear(VNorm(S.r), VNorm(Back.r), DMul("1e-15", VNorm(S.r)))
\* a hair from the parabola is the parabola
Smooth == e \in {"0.9999999999999999", "1.0000000000000002"} =>
          VNear(S.r, StateAt([El EXCEPT !.e = "1"], Times[k]).r, DMul("1e-9", VNorm(S.r)))
Frame == DNear(DDot(Perih(El), Ahead(El)), "0", "1e-30") /\ DNear(VNorm(Ahead(El)), "1", "1e-30")
ASSUME AxisRanges == \A z \in {"2100000000", "3150000000"} : DNear(PackedAxis(z), PackedAxis(DAdd(z, "1e-9")), "1e-12")
Spec == Init /\ [][Next]_vars
=============================================================================
