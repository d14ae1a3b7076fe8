------------------------------ MODULE SkyModel ------------------------------
(* Frames compose, invert, agree with each other near 2000, and stay rigid; going by distance and angle comes back. *)
EXTENDS Sky, TLC
VARIABLES a, b, k
vars == <<a, b, k>>
Years == {"-8000", "-500", "1900", "1950", "1999.5", "2000", "2050", "2600", "12000"}
Places == << <<"0", "0">>, <<"1", "0.5">>, <<"3.1", "-1.5">>, <<"-2", "1.5707963267948966192313216916397514420986">>, <<"5", "1.2">>, <<"1", "-1.5707963267948966192313216916397514420986">> >>
Init == a \in Years /\ b \in Years /\ k = 1
Next == k < Len(Places) /\ k' = k + 1 /\ UNCHANGED <<a, b>>
Tiny == "1e-30"
P == Precession(a, b)
Rigid == k = 1 => MNear(MMul(P, Tr(P)), I3, Tiny)
Inverse == k = 1 => MNear(MMul(P, Precession(b, a)), I3, Tiny)
Composes == k = 1 => \A y \in {"1875", "2000", "3000"} : MNear(MMul(Precession(y, b), Precession(a, y)), P, Tiny)
\* the two ways of precessing agree near 2000 (a nanoradian in three years, as the code says; the bound is loose)
Agree == (k = 1 /\ a = "2000" /\ b \in {"1900", "1950", "1999.5", "2050"}) => MNear(P, EquFrom2000(Cen(b)), "3e-7")
Still == (k = 1 /\ a = b) => MNear(P, I3, Tiny)
Near == k = 1 => MNear(WithNutation(Cen(b), "0", "0"), EquFrom2000(Cen(b)), "2e-4")
\* nutation of the size it has
Sizes == (k = 1 /\ a = b) => LET n == NutationAt(Cen(a)) IN DLe(DAbs(n[1]), "40") /\ DLe(DAbs(n[2]), "20")
\* horizon and back, for every place as direction and observer
There(i, j) == LET p == Places[i]  lat == Places[j][2]  h == Horizon(p[1], p[2], lat)
                   alt == DAtan2(h[3], DSqrt(DAdd(DSq(h[1]), DSq(h[2]))))
                   az == IF DLt("1e-20", DAdd(DSq(h[1]), DSq(h[2]))) THEN DAdd(DAtan2(h[2], h[1]), DPi) ELSE "0" IN
               <<az, alt>>
HorizonBack == (a = "2000" /\ b = "2000") => \A j \in 1..Len(Places) : LET t == There(k, j) IN
               VNear(FromHorizon(t[2], t[1], Places[j][2]), Unit(Places[k][1], Places[k][2]), "1e-18")
OffsetBack == (a = "2000" /\ b = "2000") => \A j \in 1..Len(Places) :
               VNear(Reach(Places[k], Separation(Places[k], Places[j]), IF k = j THEN "0" ELSE PosnAngle(Places[k], Places[j])), Unit(Places[j][1], Places[j][2]), "1e-18")
FramesRigid == MNear(MMul(Galactic, Tr(Galactic)), I3, "1e-9") /\ MNear(MMul(Supergalactic, Tr(Supergalactic)), I3, "2e-8")
ASSUME FramesRigid
ASSUME DNear(DCos(Eps2000), "0.917482062069181825744000384639406458043", "1e-15")
Spec == Init /\ [][Next]_vars
=============================================================================
