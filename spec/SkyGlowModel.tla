----------------------------- MODULE SkyGlowModel -----------------------------
(* A night: the Sun goes down step by step, the Moon waxes, the gaze turns from the zenith to the horizon;
   what the sky does meanwhile.  And the colours of stars from blue to red. *)
EXTENDS SkyGlow, TLC
C == INSTANCE Colours
VARIABLES sun, moon, gaze, colour
vars == <<sun, moon, gaze, colour>>
Suns == <<"60", "80", "95", "102", "110", "130">>
Phases == <<"0", "60", "120", "180">>
Gazes == <<"0", "30", "60", "80", "88">>
S(a, m, g) == [zen |-> Rad(Gazes[g]), zmoon |-> Rad(IF m = 1 THEN "130" ELSE "50"), zsun |-> Rad(Suns[a]), elong |-> Rad(Phases[m]), dmoon |-> Rad("60"), dsun |-> Rad("90"),
               lat |-> Rad("35"), alt |-> "1000", temp |-> "10", hum |-> "40", year |-> "1998", month |-> "2"]
Now == S(sun, moon, gaze)
B(s) == Brightness(s, 3)
Init == sun = 1 /\ moon = 1 /\ gaze = 1 /\ colour = 0
Next == \/ colour = 0 /\ sun < Len(Suns) /\ sun' = sun + 1 /\ UNCHANGED <<moon, gaze, colour>>
        \/ colour = 0 /\ moon < Len(Phases) /\ moon' = moon + 1 /\ UNCHANGED <<sun, gaze, colour>>
        \/ colour = 0 /\ gaze < Len(Gazes) /\ gaze' = gaze + 1 /\ UNCHANGED <<sun, moon, colour>>
        \/ sun = 1 /\ moon = 1 /\ gaze = 1 /\ colour < 44 /\ colour' = colour + 1 /\ UNCHANGED <<sun, moon, gaze>>
Spec == Init /\ [][Next]_vars
Sky == colour = 0
MoonWashesOut == Sky /\ moon > 1 => DLt(B(S(sun, moon - 1, gaze)), B(Now))
\* a dark sky is of magnitude 21 or 22; one with the full Moon 17 to 20; stars of the sixth magnitude are seen in the one, of the fourth in the other
DarkNight == Sky /\ sun = 6 /\ gaze <= 3 => LET m == SurfaceMag(B(Now)) IN
   /\ moon = 1 => DLt("21", m) /\ DLt(m, "22.1")
   /\ moon = 4 => DLt("17", m) /\ DLt(m, "20")
   /\ LET f == Faintest(B(Now), Extinction(Now, 3)) IN (moon = 1 => DLt("5.5", f) /\ DLt(f, "7")) /\ (moon = 4 => DLt("3", f) /\ DLt(f, "5.3"))
DayAndNight == Sky => (sun > 2 => DLt(B(Now), B(S(sun - 1, moon, gaze)))) /\ (sun <= 2 => DLt(SurfaceMag(B(Now)), "5"))
HazeTakesMore == Sky => \A k \in Bands : DLt(K(Now, k), K([Now EXCEPT !.hum = "80"], k)) /\ DLt(K([Now EXCEPT !.alt = "3000"], k), K(Now, k))
                                   /\ (gaze > 1 => DLt(Extinction(S(sun, moon, gaze - 1), k), Extinction(Now, k)))
BlueSuffersMore == Sky => \A k \in 1..4 : DLt(K(Now, k + 1), K(Now, k))
\* the powers of the wavelength in the tables are of the bands' wavelengths 0.365, 0.44, 0.55, 0.7, 0.9
DustFirst == Sky => \A k \in Bands : LET r == DDiv("0.55", <<"0.365", "0.44", "0.55", "0.7", "0.9">>[k]) IN
   /\ DNear(DPow(r, "4"), ToFourth[k], "2e-6") /\ DNear(DPow(r, "1.3"), ToOneThird[k], "2e-6")
FaintestFollows == Sky /\ sun > 2 => DLt(Faintest(B(S(sun - 1, moon, gaze)), "0"), Faintest(B(Now), "0"))
\* air masses are one overhead, agree among themselves high up, and do not jump at the horizon of the Moon's light
Continuous == Sky => /\ DNear(AirMass("0"), "1", "1e-5") /\ DNear(GasMass("0"), "1", "1e-5") /\ DNear(DustMass("0"), "1", "1e-5") /\ OzoneMass("0") = "1"
                     /\ (gaze <= 3 => DNear(GasMass(Now.zen), DustMass(Now.zen), "0.02") /\ DNear(AirMass(Now.zen), GasMass(Now.zen), "0.02"))
                     /\ DNear(DDiv(AirMass(Rad("89.9999")), "40"), "1", "1e-4")
(* the colours: a star of V-I = colour / 11 - 0.2 *)
VI == DSub(DDiv(Num(colour), "11"), "0.2")
InverseRelations == ~Sky => \A n \in {"vi_bv", "vi_vr"} : LET r == C!Relations[n] IN
   C!Within(VI, r) => DLt(C!Color(VI, r), C!Color(DAdd(VI, "0.01"), r))
SameFromBoth == ~Sky => LET bv == C!Color(VI, C!Relations.vi_bv)  vr == C!Color(VI, C!Relations.vi_vr) IN
   /\ (colour \in 5..25 => DNear(C!Color(vr, C!Relations.vr_bv), bv, "0.07"))
   /\ (colour \in 5..15 => DNear(C!Color(bv, C!Relations.bv_vr), vr, "0.03"))
X == DSub(DDiv(Num(colour), "20"), "0.2")
TychoContinuous == ~Sky /\ colour < 40 => \A f \in {C!TychoBV(X), C!TychoBV(DAdd(X, "1e-9"))} : DNear(f, C!TychoBV(X), "2e-9")
TwoTycho == ~Sky /\ C!InTycho(X) => LET b == C!BessellAt(X) IN DNear(b[2], C!TychoBV(X), "0.06") /\ DNear(b[1], C!TychoV(X, "0"), "0.04")
Tables == ~Sky => LET b == C!BessellAt(DSub(DDiv(Num(colour), "20"), "0.25"))  row == C!Bessell[colour + 1] IN
   /\ DNear(b[1], DDiv(Num(row[1]), "1000"), "1e-20") /\ DNear(b[3], DDiv(Num(row[3]), "1000"), "1e-20")
   \* the columns vary smoothly: no point is off the line of its neighbours by more than they are rounded, and bent
   /\ (colour \in 1..43 => \A c \in 1..3 : LET d == C!Bessell[colour][c] + C!Bessell[colour + 2][c] - 2 * row[c] IN d \in -6..6)
================================================================================
