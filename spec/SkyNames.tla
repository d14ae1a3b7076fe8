------------------------------- MODULE SkyNames -------------------------------
(***************************************************************************)
(* Names by rule: the constellation a place is in, the designations of     *)
(* variable stars, and the one-letter codes of star catalogues.            *)
(***************************************************************************)
EXTENDS Text, ConstellData, FiniteSets, TLC
(* ---- constellations: whole seconds of right ascension and arcminutes from the south pole ---- *)
Covers(g, ra) == (g[2] <= ra /\ ra < g[2] + g[3]) \/ (g[2] <= ra + 86400 /\ ra + 86400 < g[2] + g[3])
\* the nearest line to the north that goes over the place
Place(ra, spd) ==
   LET ks == {k \in DOMAIN Segs : Segs[k][1] > spd /\ Covers(Segs[k], ra)} IN
   IF ks = {} THEN "UMi" ELSE Segs[CHOOSE k \in ks : \A j \in ks : Segs[k][1] <= Segs[j][1]][4]
Index == [a \in {Abbrs[k] : k \in DOMAIN Abbrs} |-> (CHOOSE k \in DOMAIN Abbrs : Abbrs[k] = a) - 1]

(* ---- variable stars, in the order they are named ---- *)
Letters == S("ABCDEFGHIKLMNOPQRSTUVWXYZ")                  \* (no J)
LateLetters == S("RSTUVWXYZ")
RECURSIVE Pairs(_, _)
Pairs(firsts, all) ==                                     \* each letter with itself and those after it
   IF firsts = <<>> THEN <<>> ELSE Tup([k \in DOMAIN all |-> <<firsts[1], all[k]>>]) \o Pairs(Tail(firsts), Tail(all))
VarNames == Tup([k \in 1..9 |-> <<LateLetters[k]>>]) \o Pairs(LateLetters, LateLetters) \o Pairs(Take(Letters, 16), Letters)
VarDesig(n) == IF n <= Len(VarNames) THEN VarNames[n] ELSE <<C("V")>> \o Dec(n)
VarIndex == [t \in {VarNames[k] : k \in DOMAIN VarNames} |-> CHOOSE k \in DOMAIN VarNames : VarNames[k] = t]
RECURSIVE WordEnd(_, _)
WordEnd(t, k) == IF k >= Len(t) \/ At(t, k) = SP THEN k ELSE WordEnd(t, k + 1)
\* the number of a designation (up to a blank; in either case); -1: none.  Single letters that variables do not have are Bayer's: 9201 on, and
\* 9101 on in lower case
VarNumber(s) ==
   LET t == Take(s, WordEnd(s, 0))  u == Tup([k \in DOMAIN t |-> ToUpper(t[k])]) IN
   IF Len(t) = 1 /\ t[1] \in C("A")..C("Q") THEN {9201 + t[1] - C("A")}
   ELSE IF Len(t) = 1 /\ (t[1] \in C("a")..C("q") \/ t[1] = C("u")) THEN {9101 + t[1] - C("a")}
   ELSE IF Len(t) < 3 THEN {IF u \in DOMAIN VarIndex THEN VarIndex[u] ELSE -1}
   ELSE IF u[1] # C("V") THEN {-1}
   ELSE IF DigitsFrom(u, 1) = Len(u) /\ Len(u) < 9 THEN {NumFrom(u, 1, 0)}
   ELSE Int                                               \* (V and something else: left open)

(* ---- star catalogues ---- *)
Catalogues == <<"aUSNO-A1", "bUSNO-SA1", "cUSNO-A2", "dUSNO-SA2", "eUCAC-1", "fTycho-1", "gTycho-2", "hGSC-1.0", "iGSC-1.1",
   "jGSC-1.2", "kGSC-2.2", "lACT", "mGSC-ACT", "nSDSS-DR8", "oUSNO-B1", "pPPM", "qUCAC-4", "rUCAC-2",
   "sUSNO-B2", "tPPMXL", "uUCAC-3", "vNOMAD", "wCMC-14", "xHIP-2", "yHIP-1", "zGSC-?", "AAC",
   "BSAO 1984", "CSAO", "DAGK 3", "EFK4", "FACRS", "GLick Gaspra Catalogue", "HIda93 Catalogue", "IPerth 70", "JCOSMOS/UKST Southern Sky Catalogue",
   "KYale", "L2MASS", "MGSC-2.3", "NSDSS-DR7", "OSST-RC1", "PMPOSC3", "QCMC-15", "RSST-RC4", "SURAT-1",
   "TURAT-2", "UGaia-DR1", "VGaia-DR2", "WGaia-DR3", "XGaia-EDR3", "XGaia-3E", "YUCAC-5", "ZATLAS-2">>
\* what of a name counts
RECURSIVE Essence(_, _)
Essence(s, k) ==
   IF k >= Len(s) THEN <<>>
   ELSE IF At(s, k) \in {45, SP} THEN Essence(s, k + 1)
   ELSE IF At(s, k) = 46 /\ At(s, k + 1) = 48 THEN Essence(s, k + 2)
   ELSE IF ToUpper(At(s, k)) = C("D") /\ ToUpper(At(s, k + 1)) = C("R") THEN Essence(s, k + 2)
   ELSE <<ToUpper(At(s, k))>> \o Essence(s, k + 1)
CatEssence == [k \in DOMAIN Catalogues |-> Essence(S(Catalogues[k]), 1)]
CatCode(name) == LET e == Take(Essence(name, 0), 79)  ks == {k \in DOMAIN Catalogues : CatEssence[k] = e} IN IF ks = {} THEN 63 ELSE At(S(Catalogues[CHOOSE k \in ks : TRUE]), 0)
CatName(code) == LET ks == {k \in DOMAIN Catalogues : At(S(Catalogues[k]), 0) = code} IN IF ks = {} THEN <<>> ELSE <<Drop(S(Catalogues[CHOOSE k \in ks : TRUE]), 1)>>
===============================================================================
