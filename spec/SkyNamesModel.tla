---------------------------- MODULE SkyNamesModel ----------------------------
(* The tables of SkyNames checked against what is known of them otherwise: going over the sky strip by strip, each constellation has the areas in   *)
(* print and its parts hang together; each variable has a designation of its own and is found by it; each catalogue is found by its name.          *)
EXTENDS SkyNames, Dec, SequencesExt

RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Sorted(s \ {m})
Cuts == Sorted({Segs[k][2] % 86400 : k \in DOMAIN Segs} \cup {(Segs[k][2] + Segs[k][3]) % 86400 : k \in DOMAIN Segs} \cup {0})
Heights == {Segs[k][1] : k \in DOMAIN Segs} \cup {0, 10800}
SinOf == [h \in Heights |-> IF h = 0 THEN "-1" ELSE IF h = 10800 THEN "1" ELSE DSin(Rad(DSub(DDiv(Num(h), "60"), "90")))]
\* a strip between two cuts, from the north: <<constellation, top, bottom>>
Strip(ra) ==
   LET gs == SelectSeq(Segs, LAMBDA g : Covers(g, ra))
       add(st, g) == IF g[4] = st[Len(st)][1] THEN st ELSE [st EXCEPT ![Len(st)][3] = g[1]] \o <<<<g[4], g[1], 0>>>> IN
   FoldLeft(add, <<<<"UMi", 10800, 0>>>>, gs)
VARIABLES col, areas, count, strip
vars == <<col, areas, count, strip>>
Init == col = 0 /\ count = 0 /\ strip = <<>> /\ areas = [a \in DOMAIN Index |-> "0"]
\* square degrees of a second of right ascension from pole to equator
PerSecond == DDiv(DDiv("180", DPi), "240")
Widths == Tup([k \in DOMAIN Cuts |-> (IF k < Len(Cuts) THEN Cuts[k + 1] ELSE 86400) - Cuts[k]])
Grown(had, st, w) == LET add(ar, x) == [ar EXCEPT ![x[1]] = DAdd(@, DMul(DMul(Num(w), PerSecond), DSub(SinOf[x[2]], SinOf[x[3]])))] IN FoldLeft(add, had, st)
NextStrip == /\ col < Len(Cuts) /\ col' = col + 1
             /\ \E ra \in {Cuts[col + 1]} : \E st \in {Strip(ra)} : \E w \in {Widths[col + 1]} : strip' = st /\ areas' = Grown(areas, st, w)
             /\ UNCHANGED count
NextVar == count < 400 /\ count' = count + 1 /\ UNCHANGED <<col, areas, strip>>
Next == IF col < Len(Cuts) THEN NextStrip ELSE NextVar
Spec == Init /\ [][Next]_vars
AreasRight == col = Len(Cuts) => \A a \in DOMAIN Index : DNear(areas[a], Areas[a], "0.0006")
\* the strip as found one place at a time
StripRight == strip # <<>> /\ count = 0 => \A ra \in {Cuts[col]} : \A k \in DOMAIN strip : \A h \in {strip[k][2] - 1, strip[k][3], (strip[k][2] + strip[k][3]) \div 2} : Place(ra, h) = strip[k][1]
VarsRight == count > 0 => /\ VarNumber(VarDesig(count)) = {count} /\ VarNumber(VarDesig(count) \o S(" Cyg")) = {count}
                      /\ (count > 334 => VarDesig(count) = S("V") \o Dec(count)) /\ (count \in 335..399 => Len(VarNames) = 334)
KnownVars == VarDesig(9) = S("Z") /\ VarDesig(10) = S("RR") /\ VarDesig(54) = S("ZZ") /\ VarDesig(55) = S("AA") /\ VarDesig(334) = S("QZ") /\ VarDesig(335) = S("V335")
CatsRight == /\ \A a, b \in DOMAIN Catalogues : a # b => CatEssence[a] # CatEssence[b]
             /\ \A a \in DOMAIN Catalogues : CatCode(Drop(S(Catalogues[a]), 1)) = At(S(Catalogues[a]), 0)
             /\ \A t \in {"Gaia DR1.0", "Gaia DR1", "Gaia-DR1", "Gaiadr1", "Gaia1"} : CatCode(S(t)) = C("U")
ASSUME KnownVars
ASSUME CatsRight
ASSUME Len(Abbrs) = 88 /\ Cardinality(DOMAIN Index) = 88
=============================================================================
