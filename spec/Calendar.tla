------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The nine calendars of the library as day clocks.                        *)
(*                                                                         *)
(* A date is <<y, m, d>>; a day is its (integer) Julian Day number.  Each  *)
(* calendar is given by two rules stated independently of the code: the JD *)
(* of the first day of a year, and the lengths of the (up to 13) months.   *)
(* TLA+ \div and % are floor division and non-negative remainder, so the   *)
(* rules hold as they stand for years before the epoch.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils

GREG == 0  JUL == 1  HEB == 2  ISL == 3  REV == 4  PERS == 5
JG == 6    CHI == 7  MPERS == 8

B(b) == IF b THEN 1 ELSE 0

(* ---- Gregorian, Julian ------------------------------------------------ *)
GregLeap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
JulLeap(y)  == y % 4 = 0
GregNY(y) == 1721060 + 365 * y + (y + 3) \div 4 - (y + 99) \div 100 + (y + 399) \div 400
JulNY(y)  == 1721058 + 365 * y + (y + 3) \div 4
SolarMonths(leap) == <<31, IF leap THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 0>>

(* ---- Islamic (civil, tabular): leap years of the 30-year cycle -------- *)
IslLeaps == {2, 5, 7, 10, 13, 16, 18, 21, 24, 26, 29}
IslLeap(y) == (y % 30) \in IslLeaps
IslLeapsBefore == [k \in 1..30 |-> Cardinality({x \in IslLeaps : x < k})]
IslNY(y) == 1948440 + 10631 * ((y - 1) \div 30) + 354 * ((y - 1) % 30)
               + IslLeapsBefore[((y - 1) % 30) + 1]
IslMonths(y) == <<30, 29, 30, 29, 30, 29, 30, 29, 30, 29, 30, IF IslLeap(y) THEN 30 ELSE 29, 0>>

(* ---- Hebrew: molad of Tishri + the four postponements ------------------ *)
HebLeap(y) == (7 * y + 1) % 19 < 7
\* months elapsed before Tishri of year y
HebElapsedMonths(y) == 235 * ((y - 1) \div 19) + (235 * ((y - 1) % 19) + 1) \div 19
\* molad + noon rule + "not on Sunday, Wednesday, Friday"; 25920 lunations are exactly 765433 days
HebDelay1(y) == LET mo    == HebElapsedMonths(y)
                    g     == mo \div 25920
                    r     == mo % 25920
                    parts == 12084 + 13753 * r
                    day   == 765433 * g + 29 * r + parts \div 25920
                IN  IF (3 * ((day + 1) % 7)) % 7 < 3 THEN day + 1 ELSE day
\* year lengths that the calendar does not allow push the new year on
HebDelay2(y) == LET p == HebDelay1(y - 1)  c == HebDelay1(y)  n == HebDelay1(y + 1)
                IN  IF n - c = 356 THEN 2 ELSE IF c - p = 382 THEN 1 ELSE 0
HebNY(y) == 347998 + HebDelay1(y) + HebDelay2(y)
HebMonths(y) == LET len == HebNY(y + 1) - HebNY(y)  lp == HebLeap(y) IN
   <<30, IF len % 10 = 5 THEN 30 ELSE 29, IF len % 10 = 3 THEN 29 ELSE 30, 29, 30,
     IF lp THEN 30 ELSE 29, IF lp THEN 29 ELSE 0, 30, 29, 30, 29, 30, 29>>
HebLengths == {353, 354, 355, 383, 384, 385}

(* ---- French revolutionary: equinox-based leap years, as blocks of 683   *)
(*      leap years in 2820 with a phase per block.                          *)
RevBlocks == <<  <<-814, 405>>, <<-492, 439>>, <<-331, 498>>, <<-108, 469>>, <<0, 419>>,
                 <<144, 393>>, <<301, 322>>, <<487, 184>> >>
RevPhase(y) == LET S == {k \in 1..8 : y < RevBlocks[k][1]} IN
               IF S = {} THEN 92 ELSE RevBlocks[CHOOSE k \in S : \A j \in S : k <= j][2]
RevNY(y) == LET q == 683 * (y \div 2820)
                t == RevPhase(y) + 683 * (y % 2820)       \* phase + 683 y = 2820 q + t
            IN  2375475 + 365 * y + q + (IF y < 0 THEN (t + 2819) \div 2820 - 1 ELSE t \div 2820)
RevMonths(y) == <<30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, RevNY(y + 1) - RevNY(y) - 360>>

(* ---- Modern (arithmetic) Persian: 683 leap years in 2820 --------------- *)
MPersLeap(y) == ((((y - 474) % 2820) + 474 + 38) * 682) % 2816 < 682
MPersNY(y) == LET c == (y - 474) \div 2820  e == 474 + ((y - 474) % 2820)
              IN  1948321 + 1029983 * c + 365 * (e - 1) + (682 * e - 110) \div 2816
PersMonths(len) == <<31, 31, 31, 31, 31, 31, 30, 30, 30, 30, 30, len - 336, 0>>

(* ---- Jalaali Persian: blocks of 303 leap years in 1250, -1096..2327 ---- *)
PersLo == -1096   PersHi == 2327
PersBlocks == << <<-708, 1108>>, <<-221, 1047>>, <<-3, 984>>, <<6, 1249>>, <<394, 952>>, <<720, 891>>,
                 <<786, 930>>, <<1145, 866>>, <<1635, 869>>, <<1701, 844>>, <<1866, 848>>, <<2329, 852>> >>
PersPhase(y) == LET S == {k \in 1..12 : y < PersBlocks[k][1]} IN
                PersBlocks[CHOOSE k \in S : \A j \in S : k <= j][2]
PersNY(y) == LET x == PersPhase(y) + 303 * y
                 t == IF x >= 0 THEN x \div 1250 ELSE -((-x) \div 1250)
             IN  1947955 + 365 * y + t - (IF y < -3 THEN 1 ELSE 0)

(* ---- Chinese: a published table, one packed word per year -------------- *)
ChineseTable == ndJsonDeserialize(IOEnv.CHINESE)[1].words   \* data/chinese.ndjson
ChiLo == -363
ChiHi == ChiLo + Len(ChineseTable) - 1
ChiWord(y) == ChineseTable[y - ChiLo + 1]
ChiTop(y)  == ChiWord(y) \div 8192
ChiInter(y) == LET k == ChiTop(y) % 14 IN IF k = 0 THEN 0 ELSE k + 1
ChiNY(y) == 365 * y + (IF y >= 0 THEN y \div 4 ELSE -((-y) \div 4)) + 757862 + ChiTop(y) \div 14
Bit(w, k) == (w \div (2 ^ k)) % 2
ChiMonths(y) == [k \in 1..13 |-> IF k = 13 /\ ChiInter(y) = 0 THEN 0 ELSE 29 + Bit(ChiWord(y), k - 1)]

(* ---- All of them ------------------------------------------------------- *)
Cals == {GREG, JUL, HEB, ISL, REV, PERS, CHI, MPERS}
InRange(c, y) == CASE c = PERS -> y >= PersLo /\ y <= PersHi
                   [] c = CHI  -> y >= ChiLo /\ y <= ChiHi
                   [] OTHER    -> TRUE
NewYear(c, y) ==
   CASE c = GREG  -> GregNY(y)
     [] c = JUL   -> JulNY(y)
     [] c = HEB   -> HebNY(y)
     [] c = ISL   -> IslNY(y)
     [] c = REV   -> RevNY(y)
     [] c = PERS  -> PersNY(y)
     [] c = MPERS -> MPersNY(y)
     [] c = CHI   -> ChiNY(y)
Months(c, y) ==
   CASE c = GREG  -> SolarMonths(GregLeap(y))
     [] c = JUL   -> SolarMonths(JulLeap(y))
     [] c = HEB   -> HebMonths(y)
     [] c = ISL   -> IslMonths(y)
     [] c = REV   -> RevMonths(y)
     [] c = PERS  -> PersMonths(PersNY(y + 1) - PersNY(y))
     [] c = MPERS -> PersMonths(IF MPersLeap(y) THEN 366 ELSE 365)
     [] c = CHI   -> ChiMonths(y)

\* partial sums: MonthStarts(ml)[k] = days before month k
MonthStarts(ml) == LET f[k \in 0..13] == IF k = 0 THEN 0 ELSE f[k - 1] + ml[k] IN [k \in 1..14 |-> f[k - 1]]

(* ---- The combined Julian/Gregorian calendar ---------------------------- *)
LastJulianDay == 2299160           \* 4 October 1582 (Julian); the next day is 15 October (Gregorian)
DayOf(c, y, m, d) == NewYear(c, y) + MonthStarts(Months(c, y))[m] + d - 1
JGCal(y, m, d) == IF y > 1582 \/ (y = 1582 /\ (m > 10 \/ (m = 10 /\ d > 5))) THEN GREG ELSE JUL

=============================================================================
