-------------------------------- MODULE Ades --------------------------------
(***************************************************************************)
(* Translation of ADES astrometry (PSV or XML, mixed with 80-column        *)
(* records) to 80-column lines.  State: the stack of open tags, the columns*)
(* of the PSV section in force, and the observation being assembled.  One  *)
(* transition per input line; its output is a sequence of lines and an     *)
(* error code.  An observation's lines depend on its own fields only.      *)
(* Domain: field values within ADES's length limits, at most one           *)
(* observation or header value completed per line, known tags in PSV       *)
(* headers.                                                                *)
(***************************************************************************)
EXTENDS Desig

TagNames == {
 "Location", "MPCID", "OffsetVal", "OpticalID", "OpticalRes", "OpticalResMag", "OpticalResiduals", "Photometry", "Precision",
 "RadarID", "RadarResiduals", "RadarValue", "ades", "aperture", "arrayScale", "artSat", "astCat", "astrometry", "band", "biasDec",
 "biasMag", "biasRA", "biasTime", "coinvestigators", "collaborators", "com", "comment", "ctr", "dec", "decStar", "delay", "deltaDec",
 "deltaRA", "deprecated", "design", "detector", "disc", "dist", "doppler", "exp", "fRatio", "filter", "fitOrder", "frq",
 "fundingSource", "institution", "line", "localUse", "logSNR", "mag", "measurers", "mode", "mpcCode", "nStars", "name", "notes",
 "nucMag", "objectDetection", "obsBlock", "obsCenter", "obsContext", "obsData", "obsID", "obsSubID", "obsTime", "observatory",
 "observers", "occultation", "offset", "optical", "opticalResidual", "orbID", "orbProd", "pa", "permID", "photAp", "photCat",
 "photMod", "photProd", "photometry", "pixelScale", "pos1", "pos2", "pos3", "posCov11", "posCov12", "posCov13", "posCov22",
 "posCov23", "posCov33", "precDec", "precRA", "precTime", "prog", "provID", "ra", "raStar", "radar", "radarResidual", "rcv", "ref",
 "remarks", "resDec", "resDelay", "resDoppler", "resMag", "resRA", "rmsCorr", "rmsDec", "rmsDelay", "rmsDist", "rmsDoppler",
 "rmsFit", "rmsMag", "rmsPA", "rmsRA", "rmsTime", "seeing", "selAst", "selDelay", "selDoppler", "selPhot", "shapeOcc", "sigCorr",
 "sigDec", "sigDelay", "sigDoppler", "sigMag", "sigRA", "sigTime", "software", "stn", "subFmt", "subFrm", "submitter", "sys",
 "telescope", "trkID", "trkMPC", "trkSub", "trx", "uncTime", "vel1", "vel2", "vel3"}
NONE == "(unknown)"
FindTag(t) == LET u == IF At(t, 0) = 47 THEN Tail(t) ELSE t IN
              IF StartsWith(u, S("ades")) THEN "ades" ELSE IF Len(u) < 20 /\ \A k \in DOMAIN u : IsAlnum(u[k]) THEN LET n == Str(u) IN IF n \in TagNames THEN n ELSE NONE ELSE NONE

(* ---- text helpers -------------------------------------------------------- *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, k, c) == IF k >= Len(s) THEN -1 ELSE IF At(s, k) = c THEN k ELSE IndexFrom(s, k + 1, c)
Contains(s, p) == \E k \in 0..(Len(s) - Len(p)) : SubSeq(s, k + 1, k + Len(p)) = p
RECURSIVE Split(_, _)
Split(s, c) == LET k == IndexFrom(s, 0, c) IN IF k < 0 THEN <<s>> ELSE <<Take(s, k)>> \o Split(Drop(s, k + 1), c)
WsStrip(s) == RStrip(Drop(s, SkipWs(s, 0)))
Put(line, col, t) == Tup([k \in 1..Len(line) |-> IF k > col /\ k <= col + Len(t) THEN t[k - col] ELSE line[k]])  \* col from 0
Set(line, col, c) == [line EXCEPT ![col + 1] = c]
Blank80 == Spaces(80)
Padded(t, n) == Take(t \o Spaces(n), n)
RightJust(t, n) == IF Len(t) >= n THEN t ELSE Spaces(n - Len(t)) \o t

(* ---- decimal numbers as text ---------------------------------------------- *)
RECURSIVE IncR(_, _)
IncR(d, k) == IF k = 0 THEN <<49>> \o d ELSE IF d[k] = 57 THEN IncR([d EXCEPT ![k] = 48], k - 1) ELSE [d EXCEPT ![k] = @ + 1]
Inc(d) == IncR(d, Len(d))
NoZeroes(d) == LET k == SkipFrom(d, 0, 48) IN IF k = Len(d) THEN <<48>> ELSE Drop(d, k)
\* an unsigned decimal number rounded to n places
Rounded(t, n) ==
   LET p == IndexFrom(t, 0, 46)
       ip == IF p < 0 THEN t ELSE Take(t, p)
       fp == IF p < 0 THEN <<>> ELSE Drop(t, p + 1)
       f == Take(fp \o Rep(48, n), n)
       d == ip \o f
       r == IF Len(fp) > n /\ fp[n + 1] >= 53 THEN Inc(d) ELSE d
   IN  NoZeroes(Take(r, Len(r) - n)) \o <<46>> \o Drop(r, Len(r) - n)
IsZeroNum(t) == \A k \in 1..Len(t) : t[k] \in {48, 46, 43, 45}

(* ---- references, catalogues, programs, modes ------------------------------- *)
PackRef(ref) ==
   LET len == Len(ref)  n == Atoi(ref, 4) IN
   IF len >= 12 /\ len <= 14 /\ StartsWith(ref, S("MPEC ")) /\ At(ref, 9) = 45
   THEN <<69, At(ref, 10)>> \o Drop(S("00") \o Drop(ref, 11), len - 12)
   ELSE IF StartsWith(ref, S("MPS "))
   THEN IF n < 260000 THEN <<97 + (n \div 10000)>> \o DecW(n % 10000, 4) ELSE <<126>> \o MH4(n - 260000)
   ELSE IF StartsWith(ref, S("MPC "))
   THEN IF n < 100000 THEN DecW(n, 5) ELSE IF n < 110000 THEN <<64>> \o DecW(n % 100000, 4) ELSE <<35>> \o MH4(n - 110000)
   ELSE IF At(ref, 0) = 33 THEN Padded(ref, 5)
   ELSE <<>>
NetCodes == << <<"a", "USNO-A1">>, <<"b", "USNO-SA1">>, <<"c", "USNO-A2">>, <<"d", "USNO-SA2">>, <<"e", "UCAC-1">>, <<"f", "Tycho-1">>, <<"g", "Tycho-2">>,
  <<"h", "GSC-1.0">>, <<"i", "GSC-1.1">>, <<"j", "GSC-1.2">>, <<"k", "GSC-2.2">>, <<"l", "ACT">>, <<"m", "GSC-ACT">>, <<"n", "SDSS-DR8">>, <<"o", "USNO-B1">>, <<"p", "PPM">>,
  <<"q", "UCAC-4">>, <<"r", "UCAC-2">>, <<"s", "USNO-B2">>, <<"t", "PPMXL">>, <<"u", "UCAC-3">>, <<"v", "NOMAD">>, <<"w", "CMC-14">>, <<"x", "HIP-2">>, <<"y", "HIP-1">>,
  <<"z", "GSC-?">>, <<"A", "AC">>, <<"B", "SAO 1984">>, <<"C", "SAO">>, <<"D", "AGK 3">>, <<"E", "FK4">>, <<"F", "ACRS">>, <<"G", "Lick Gaspra Catalogue">>,
  <<"H", "Ida93 Catalogue">>, <<"I", "Perth 70">>, <<"J", "COSMOS/UKST Southern Sky Catalogue">>, <<"K", "Yale">>, <<"L", "2MASS">>, <<"M", "GSC-2.3">>,
  <<"N", "SDSS-DR7">>, <<"O", "SST-RC1">>, <<"P", "MPOSC3">>, <<"Q", "CMC-15">>, <<"R", "SST-RC4">>, <<"S", "URAT-1">>, <<"T", "URAT-2">>, <<"U", "Gaia-DR1">>,
  <<"V", "Gaia-DR2">>, <<"W", "Gaia-DR3">>, <<"X", "Gaia-EDR3">>, <<"X", "Gaia-3E">>, <<"Y", "UCAC-5">>, <<"Z", "ATLAS-2">> >>
RECURSIVE Reduce(_)        \* names are compared without '-', blanks, ".0", "DR" and case
Reduce(t) == IF t = <<>> THEN <<>>
             ELSE IF t[1] \in {45, 32} THEN Reduce(Tail(t))
             ELSE IF At(t, 0) = 46 /\ At(t, 1) = 48 THEN Reduce(Drop(t, 2))
             ELSE IF At(t, 0) \in {68, 100} /\ At(t, 1) \in {82, 114} THEN Reduce(Drop(t, 2))
             ELSE <<ToUpper(t[1])>> \o Reduce(Tail(t))
NetReduced == [k \in DOMAIN NetCodes |-> Reduce(S(NetCodes[k][2]))]
NetCode(t) == LET r == Reduce(t)  m == {k \in DOMAIN NetCodes : NetReduced[k] = r} IN
              IF m = {} THEN 63 ELSE C(NetCodes[CHOOSE k \in m : \A j \in m : j <= k][1])
Programs == S("0123456789!\"#$%&'()*+,-./[\\]^_`{|}~")
Modes == << <<"C", "CCD">>, <<"B", "CMO">>, <<"n", "VID">>, <<"P", "PHO">>, <<"e", "ENC">>, <<"p", "PMT">>, <<"M", "MIC">>, <<"T", "MER">>, <<"C", "TDI">>,
            <<"E", "OCC">>, <<"?", "UNK">> >>
ModeCodes == [k \in DOMAIN Modes |-> S(Modes[k][2])]

(* ---- time ------------------------------------------------------------------ *)
\* days from 2000 Jan 1.5 (JD 2451545) to the noon-less day number of a Gregorian date
DayJ2000(y, m, d) == LET a == (14 - m) \div 12  yy == y + 4800 - a  mm == m + 12 * a - 3 IN
   (d + (153 * mm + 2) \div 5 + 365 * yy + yy \div 4 - yy \div 100 + yy \div 400) - 32045 - 2451545
\* YYYY-MM-DDTHH:MM:SS[.sss...][Z]: its 17 columns and, where those are not enough, the day as <<days, 10^-9 days>>
IsIso(t) == At(t, 4) = 45 /\ At(t, 7) = 45 /\ At(t, 10) = 84 /\ At(t, 13) = 58
RECURSIVE IsoCodes(_)
IsoCodes(t) == IF t = <<>> \/ At(t, 0) = 90 THEN <<>>
               ELSE (IF IsDigit(t[1]) THEN <<t[1]>> ELSE IF t[1] = 84 THEN <<58>> ELSE <<>>) \o IsoCodes(Tail(t))
Iso17(t) == <<MH((At(t, 0) - 48) * 10 + At(t, 1) - 48)>> \o IsoCodes(Drop(t, 2))
IsoDay(t) ==
   LET day == DayJ2000(Atoi(t, 0), QuickAtoi(t, 5), QuickAtoi(t, 8))
       sec == QuickAtoi(t, 11) * 3600 + QuickAtoi(t, 14) * 60 + QuickAtoi(t, 17)
       us  == IF At(t, 19) = 46 THEN QuickAtoi(Take(SubSeq(t, 21, DigitsFrom(t, 20)) \o Rep(48, 6), 6), 0) ELSE 0
       nd  == sec * 11574 + (sec * 2) \div 27 + (us * 5) \div 432       \* 10^-9 days after midnight
   IN  IF nd >= 500000000 THEN <<day, nd - 500000000>> ELSE <<day - 1, nd + 500000000>>

(* ---- an observation --------------------------------------------------------- *)
NoObs == [active |-> FALSE]
NewObs(ign) == [active |-> TRUE, ign |-> ign, line |-> Blank80, line2 |-> Blank80, has2 |-> FALSE, id |-> "", ctr |-> 399, day |-> <<>>,
           rmsRA |-> <<>>, rmsDec |-> <<>>, rmsCorr |-> <<>>, rmsMag |-> <<>>, rmsTime |-> <<>>, fullRA |-> <<>>, fullDec |-> <<>>,
           fullMag |-> <<>>, trkSub |-> <<>>, obsID |-> <<>>, trkID |-> <<>>, band |-> <<>>, notes |-> <<>>, prog |-> <<>>,
           vel |-> << <<>>, <<>>, <<>> >>]
\* RA or dec: nn.nnn in place, zero filled to the left; rounded to eight places if it has more than seven
Placed(t, lead) ==
   LET p == IndexFrom(t, 0, 46)  pl == IF p < 0 THEN Len(t) ELSE p IN
   IF Len(t) - pl > 8 THEN RightJust(Rounded(t, 8), IF lead = 2 THEN 11 ELSE 12) \o (IF lead = 2 THEN <<SP>> ELSE <<>>)
   ELSE Rep(48, lead - pl) \o t
TooLong(t) == LET p == IndexFrom(t, 0, 46) IN p >= 0 /\ Len(t) - p > 8
Signed(t) == IF At(t, 0) \in {43, 45} THEN t ELSE <<43>> \o t
Unsigned(t) == IF At(t, 0) \in {43, 45} THEN Tail(t) ELSE t
\* a coordinate of a spacecraft: sign, then digits around the point's column, never past its own twelve columns
SpacePos(o, k, v) ==
   LET sc == 34 + 12 * (k - 1)  s == Signed(v)  u == Unsigned(v)  d == IndexFrom(u, 0, 46)
       km == At(o.line2, 32) = 49
       pt == IF km THEN sc + 6 + (IF d >= 6 THEN 1 ELSE 0) + (IF d >= 7 THEN 1 ELSE 0) ELSE sc + 2 + (IF d = 2 THEN 1 ELSE 0)
       start == pt - d
       n == IF Len(u) > 10 THEN 10 ELSE Len(u)
       room == sc + 12 - start
   IN  Put(Set(o.line2, sc, s[1]), start, Take(u, IF n > room THEN room ELSE n))
RovePos(o, k, v) ==
   CASE k = 1 -> Put(o.line2, 37 - IndexFrom(v, 0, 46), v)
     [] k = 2 -> LET u == Unsigned(v) IN Put(Set(o.line2, 45, Signed(v)[1]), 48 - IndexFrom(u, 0, 46), u)
     [] k = 3 -> Put(o.line2, 61 - Len(v), v)

Field(o, tag, v) ==
   CASE tag = "stn"      -> [o EXCEPT !.line = Put(@, 77, Take(v, 3))]
     [] tag = "obsTime"  -> LET far == Atoi(v, 0) > 2099  c == IF IsIso(v) THEN Iso17(v) ELSE <<>>
                                l == Put(o.line, 15, Take(c, 17)) IN
                            [o EXCEPT !.line = IF far THEN Set(l, 15, 75) ELSE l,
                                      !.day = IF Len(c) > 17 \/ far THEN IsoDay(v) ELSE @]
     [] tag = "band"     -> LET b == IF (v[1] \in {80, 83} /\ In(At(v, 1), S("grizwy"))) \/ (v[1] = 65 /\ At(v, 1) \in {111, 99})
                                        \/ (v[1] = 71 /\ At(v, 1) \in {98, 114}) THEN v[2] ELSE v[1] IN
                            [o EXCEPT !.line = Set(@, 70, b), !.band = v]
     [] tag = "mode"     -> IF \E k \in DOMAIN ModeCodes : ModeCodes[k] = v
                            THEN [o EXCEPT !.line = Set(@, 14, C(Modes[CHOOSE k \in DOMAIN ModeCodes : ModeCodes[k] = v][1]))] ELSE o
     [] tag = "deprecated" -> [o EXCEPT !.line = Set(@, 14, 88)]
     [] tag = "disc"     -> IF v[1] = 42 THEN [o EXCEPT !.line = Set(@, 12, 42)] ELSE o
     [] tag = "ref"      -> [o EXCEPT !.line = Put(@, 72, PackRef(v))]
     [] tag = "prog"     -> LET n == Atoi(v, 0) IN
                            [o EXCEPT !.line = IF n >= 0 /\ n <= 34 THEN Set(@, 13, Programs[n + 1]) ELSE @, !.prog = v]
     [] tag = "notes"    -> [o EXCEPT !.line = Set(@, 13, v[1]), !.notes = v]
     [] tag = "sys"      -> LET r == v = S("WGS84") IN
                            [o EXCEPT !.has2 = TRUE, !.line2 = Set(Set(@, 14, IF r THEN 118 ELSE 115), 32, IF v = S("ICRF_AU") THEN 50 ELSE 49),
                                      !.line = Set(@, 14, IF r THEN 86 ELSE 83)]
     [] tag = "ctr"      -> [o EXCEPT !.ctr = Atoi(v, 0)]
     [] tag = "pos1"     -> [o EXCEPT !.line2 = IF At(o.line, 14) = 83 THEN SpacePos(o, 1, v) ELSE RovePos(o, 1, v)]
     [] tag = "pos2"     -> [o EXCEPT !.line2 = IF At(o.line, 14) = 83 THEN SpacePos(o, 2, v) ELSE RovePos(o, 2, v)]
     [] tag = "pos3"     -> [o EXCEPT !.line2 = IF At(o.line, 14) = 83 THEN SpacePos(o, 3, v) ELSE RovePos(o, 3, v)]
     [] tag = "vel1"     -> [o EXCEPT !.vel[1] = v]
     [] tag = "vel2"     -> [o EXCEPT !.vel[2] = v]
     [] tag = "vel3"     -> [o EXCEPT !.vel[3] = v]
     [] tag = "ra"       -> LET u == IF v[1] = 43 THEN Tail(v) ELSE v IN
                            [o EXCEPT !.line = Put(@, 32, Placed(u, 3)), !.fullRA = IF TooLong(u) THEN u ELSE @]
     [] tag = "dec"      -> LET u == Unsigned(v) IN
                            [o EXCEPT !.line = Put(Set(@, 44, Signed(v)[1]), 45, Placed(u, 2)),
                                      !.fullDec = IF TooLong(u) THEN Signed(v) ELSE @]
     [] tag = "astCat"   -> [o EXCEPT !.line = Set(@, 71, NetCode(v))]
     [] tag = "rmsRA"    -> [o EXCEPT !.rmsRA = v]
     [] tag = "rmsDec"   -> [o EXCEPT !.rmsDec = v]
     [] tag = "rmsCorr"  -> [o EXCEPT !.rmsCorr = v]
     [] tag = "rmsMag"   -> [o EXCEPT !.rmsMag = v]
     [] tag = "rmsTime"  -> [o EXCEPT !.rmsTime = v]
     [] tag \in {"provID", "permID"} ->
          IF tag = "provID" /\ o.id = "permID" THEN o
          ELSE LET n == IF \A k \in 1..Len(v) : IsDigit(v[k]) THEN <<40>> \o v \o <<41>> ELSE v IN
               [o EXCEPT !.line = Put(@, 0, PackText(n).out), !.id = tag]
     [] tag = "artSat"   -> IF o.id = "" /\ ~o.ign THEN [o EXCEPT !.id = tag, !.line = Put(@, 0, v)] ELSE o
     [] tag = "trkSub"   -> LET p == [o EXCEPT !.trkSub = v] IN
                            IF o.id = "" THEN [p EXCEPT !.id = tag, !.line = Put(@, IF Len(v) < 8 THEN 5 ELSE 12 - Len(v), v)] ELSE p
     [] tag = "trkID"    -> [o EXCEPT !.trkID = v]
     [] tag = "obsID"    -> [o EXCEPT !.obsID = v]
     [] tag = "mag"      -> [o EXCEPT !.line = Put(@, 65, Take(v, 5)), !.fullMag = IF Len(v) > 5 THEN v ELSE @]
     [] OTHER -> o

(* An expected line: exact text, and for full-precision times the day, whose decimals are compared as numbers. *)
Line(t) == [txt |-> t, day |-> <<>>]
Vel13(v, plus) == LET t == IF v = <<>> THEN <<48>> ELSE v
                      r == Rounded(Unsigned(t), 7)
                      s == IF At(t, 0) = 45 THEN <<45>> ELSE IF plus THEN <<43>> ELSE <<>>
                  IN  RightJust(s \o r, 13)
If(c, t) == IF c THEN t ELSE <<>>
Emit(o) ==
   If(o.rmsRA # <<>>, <<Line(S("COM Sigmas ") \o o.rmsRA
        \o If(o.rmsDec # <<>> /\ o.rmsDec # o.rmsRA, S("x") \o o.rmsDec \o If(o.rmsCorr # <<>> /\ ~IsZeroNum(o.rmsCorr), S(",") \o o.rmsCorr))
        \o If(o.rmsMag # <<>>, S(" m:") \o o.rmsMag) \o If(o.rmsTime # <<>>, S(" t:") \o o.rmsTime))>>)
   \o If(o.trkSub # <<>> \/ o.obsID # <<>> \/ o.trkID # <<>>, <<Line(S("COM IDs") \o If(o.trkSub # <<>>, S(" trkSub:") \o o.trkSub)
        \o If(o.obsID # <<>>, S(" obsID:") \o o.obsID) \o If(o.trkID # <<>>, S(" trkID:") \o o.trkID))>>)
   \o If(o.fullRA # <<>> \/ o.fullDec # <<>> \/ o.day # <<>>,
        << [txt |-> S("COM RA/dec ") \o (IF o.fullRA # <<>> THEN o.fullRA ELSE S("-")) \o S(" ") \o
                    (IF o.fullDec # <<>> THEN o.fullDec ELSE S("-")), day |-> o.day] >>)
   \o If(o.fullMag # <<>>, <<Line(S("COM full mag ") \o o.fullMag)>>)
   \o If(Len(o.band) > 1 \/ o.notes # <<>> \/ o.prog # <<>>, <<Line(S("COM ADES tags") \o If(Len(o.band) > 1, S(" band:") \o o.band)
        \o If(o.notes # <<>>, S(" notes:") \o o.notes) \o If(o.prog # <<>>, S(" progcode:") \o o.prog))>>)
   \o If(\E k \in 1..3 : o.vel[k] # <<>> /\ ~IsZeroNum(o.vel[k]),
        <<Line(S("COM vel (km/s) ") \o SubSeq(o.line, 16, 29) \o Spaces(2) \o Vel13(o.vel[1], TRUE) \o Vel13(o.vel[2], FALSE)
               \o Vel13(o.vel[3], FALSE) \o S(" ") \o SubSeq(o.line, 78, 80))>>)
   \o <<Line(o.line)>>
   \o If(o.has2, <<Line(LET a == Put(Put(o.line2, 0, Take(o.line, 12)), 15, SubSeq(o.line, 16, 32))
                            b == IF o.ctr # 399 THEN Put(a, 69, RightJust(Dec(o.ctr), 8)) ELSE a
                        IN  Put(b, 77, SubSeq(o.line, 78, 80)))>>)

(* ---- the stream ---------------------------------------------------------------- *)
MaxDepth == 20
Start(ign) == [ign |-> ign, depth |-> 0, tg |-> [k \in 0..(MaxDepth - 1) |-> "ades"], psv |-> <<>>, ob |-> NoObs]
Result(st, out, rc) == [st |-> st, out |-> out, rc |-> rc]

IsPsvHeader(L) == LET f == Split(L, 124) IN
   Len(f) >= 4 /\ \A k \in DOMAIN f : IsLower(At(f[k], SkipWs(f[k], 0)))
PsvTags(L) == LET f == Split(L, 124) IN
   [k \in DOMAIN f |-> LET g == Drop(f[k], SkipWs(f[k], 0))  e == IndexFrom(g, 0, SP) IN FindTag(IF e < 0 THEN g ELSE Take(g, e))]
RECURSIVE PsvFields(_, _, _, _)
PsvFields(o, tags, f, k) == IF k > Len(tags) THEN o
   ELSE LET v == WsStrip(f[k]) IN PsvFields(IF v = <<>> THEN o ELSE Field(o, tags[k], v), tags, f, k + 1)

HeaderLine(tag, parent, v) ==
   IF tag = "mpcCode" THEN S("COD ") \o v
   ELSE LET pre == CASE parent \in {"mpcCode", "comment"} -> S("COM ") [] parent = "observatory" -> S("COM Observatory name ")
                     [] parent = "observers" -> S("OBS ") [] parent = "measurers" -> S("MEA ") [] parent = "submitter" -> S("CON ")
                     [] OTHER -> S("COM Mangled '")
        IN  pre \o v \o If(parent \notin {"mpcCode", "comment", "observatory", "observers", "measurers", "submitter"}, S("'"))
Any == <<0>>        \* the second </optical> of two nested ones: what comes out is not specified
HeaderTags == {"mpcCode", "name", "line", "institution"}

\* records with two sigmas behind column 80
IsStdDate(t) == /\ \A k \in {0, 1, 2, 3, 5, 6, 8, 9} : IsDigit(At(t, k)) /\ At(t, 4) = SP /\ At(t, 7) = SP /\ At(t, 10) = 46
                /\ QuickAtoi(SubSeq(t, 6, 7), 0) \in 1..12
IsTholen(L) == /\ Len(L) = 92 /\ At(L, 82) = 46 /\ At(L, 88) = 46 /\ At(L, 80) = SP /\ At(L, 86) = SP
               /\ \A k \in 77..79 : At(L, k) > 32 /\ At(L, k) <= 122
               /\ At(L, 12) \in {32, 42, 45} /\ IsStdDate(SubSeq(L, 16, 32))
Tholen(L) == LET p == PackText(Take(L, 12)) IN
   <<Line(S("COM Sigmas ") \o SubSeq(L, 82, 86) \o If(SubSeq(L, 82, 86) # SubSeq(L, 88, 92), S("x") \o SubSeq(L, 88, 92))),
     Line(IF p.rc = 0 THEN Put(Take(L, 80), 0, p.out) ELSE Take(L, 80))>>

\* XML: x = [depth, tg, ob, rc, hdr (header line or <<>>), done]
RECURSIVE Xml(_, _, _)
Xml(L, p0, x) ==
   LET p == SkipWs(L, p0) IN
   IF p >= Len(L) \/ x.rc < 0 THEN x
   ELSE IF At(L, p) = 60
   THEN LET e == IndexFrom(L, p, 62) IN
        IF e < 0 THEN [x EXCEPT !.rc = -4]
        ELSE LET body == SubSeq(L, p + 2, e)  tag == FindTag(body)  close == At(body, 0) = 47 IN
             IF tag = NONE THEN Xml(L, e + 1, x)
             ELSE IF close
             THEN LET d == IF x.depth > 0 THEN x.depth - 1 ELSE 0
                      bad == x.depth = 0 \/ x.tg[d] # tag
                      y == [x EXCEPT !.depth = d, !.rc = IF bad THEN -2 ELSE @]
                  IN  Xml(L, e + 1, IF tag = "optical" /\ ~bad THEN [y EXCEPT !.done = x.ob.active, !.ghost = ~x.ob.active] ELSE y)
             ELSE LET y == IF x.depth < MaxDepth THEN [x EXCEPT !.tg[x.depth] = tag, !.depth = @ + 1] ELSE x
                      z == IF y.depth = MaxDepth THEN [y EXCEPT !.rc = -3] ELSE y
                  IN  Xml(L, e + 1, IF tag = "optical" THEN [z EXCEPT !.ob = NewObs(x.ign)] ELSE z)
   ELSE IF x.depth = 0 THEN x
   ELSE LET e0 == IndexFrom(L, p, 60)  e == IF e0 < 0 THEN Len(L) ELSE e0
            v == RStrip(SubSeq(L, p + 1, e))  tag == x.tg[x.depth - 1]
        IN  Xml(L, e, IF tag \in HeaderTags
                      THEN [x EXCEPT !.hdr = HeaderLine(tag, IF x.depth > 1 THEN x.tg[x.depth - 2] ELSE "", v)]
                      ELSE [x EXCEPT !.ob = IF @.active THEN Field(@, tag, v) ELSE @, !.hdr = <<>>])
Step0(st, L) ==      \* after the PSV columns have been looked at
   IF IsTholen(L) THEN Result([st EXCEPT !.ob = NoObs], Tholen(L), 0)
   ELSE LET hdr == At(L, 1) = SP /\ At(L, 0) \in {35, 33}
            w == Drop(L, 2)  e == IndexFrom(w, 0, SP)  tag == FindTag(IF e < 0 THEN w ELSE Take(w, e))
            v == IF e < 0 THEN <<>> ELSE Drop(w, SkipWs(w, e))
        IN
   IF hdr /\ tag # NONE /\ At(L, 0) = 35 THEN Result([st EXCEPT !.tg[1] = tag], <<>>, 0)
   ELSE LET s2 == IF hdr /\ tag # NONE THEN [st EXCEPT !.tg[2] = tag, !.depth = 0] ELSE st IN
   IF hdr /\ tag \in HeaderTags THEN Result(s2, <<Line(HeaderLine(tag, st.tg[1], v))>>, 0)
   ELSE IF s2.depth = 0 /\ ~Contains(L, S("<ades version")) THEN Result(s2, <<Line(L)>>, 0)
   ELSE LET x == Xml(L, 0, [ign |-> s2.ign, depth |-> s2.depth, tg |-> s2.tg, ob |-> s2.ob, rc |-> 0, hdr |-> <<>>, done |-> FALSE, ghost |-> FALSE])
            s3 == [s2 EXCEPT !.depth = x.depth, !.tg = x.tg, !.ob = x.ob]
        IN  IF x.rc < 0 THEN Result(s3, <<>>, x.rc)
            ELSE IF x.ghost THEN Result(s3, <<Line(Any)>>, 0)
            ELSE IF x.done THEN Result([s3 EXCEPT !.ob = NoObs], Emit(x.ob), 0)
            ELSE Result(s3, If(x.hdr # <<>>, <<Line(x.hdr)>>), 0)
Step(st, L) ==
   LET s1 == IF st.depth = 0 /\ Contains(L, S("<optical>")) THEN [st EXCEPT !.depth = 1] ELSE st IN
   IF IsPsvHeader(L) THEN Result([s1 EXCEPT !.depth = 1, !.psv = PsvTags(L)], <<>>, 0)
   ELSE IF s1.psv # <<>>
   THEN LET f == Split(L, 124) IN
        IF Len(f) = Len(s1.psv) THEN Result([s1 EXCEPT !.ob = NoObs], Emit(PsvFields(NewObs(s1.ign), s1.psv, f, 1)), 0)
        ELSE Step0([s1 EXCEPT !.psv = <<>>, !.depth = 0], L)
   ELSE Step0(s1, L)
=============================================================================
