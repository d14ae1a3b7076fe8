------------------------------ MODULE CalClock ------------------------------
(* The calendars as clocks: one action, Tomorrow, moves to the next day by  *)
(* the month-length rules alone; the invariants tie the clock to the closed *)
(* forms (year starts), so that the two statements of each calendar agree   *)
(* and every day has exactly one date.                                      *)
EXTENDS Calendar, Json, IOUtils, TLC

CONSTANT Years                \* years from which the clock is started
VARIABLES cal, y, jd, left    \* state at the start of a year; months are walked within the action
vars == <<cal, y, jd, left>>

Init == /\ cal \in Cals
        /\ y \in Years
        /\ InRange(cal, y)
        /\ jd = NewYear(cal, y)
        /\ left = 40
\* a year passes, month by month
YearPasses == /\ left > 0
              /\ InRange(cal, y + 1)
              /\ jd' = jd + MonthStarts(Months(cal, y))[14]
              /\ y' = y + 1 /\ left' = left - 1 /\ UNCHANGED cal
Next == YearPasses
Spec == Init /\ [][Next]_vars

\* the clock and the closed form agree
Agree == jd = NewYear(cal, y)
\* month lengths are those a calendar may have
Shapes == LET ml == Months(cal, y) IN
   CASE cal = HEB -> /\ MonthStarts(ml)[14] \in HebLengths
                     /\ (MonthStarts(ml)[14] > 370) = HebLeap(y)
                     /\ (jd + 1) % 7 \notin {0, 3, 5}        \* never Sunday, Wednesday, Friday
     [] cal = CHI -> /\ MonthStarts(ml)[14] \in 353..355 \cup 383..385
                     /\ ChiInter(y) = 0 \/ ChiInter(y) \in 2..13
     [] cal \in {PERS, MPERS, REV, GREG, JUL} -> MonthStarts(ml)[14] \in {365, 366}
     [] cal = ISL -> MonthStarts(ml)[14] \in {354, 355}
\* landmarks
ASSUME Landmarks ==
   /\ DayOf(GREG, 2000, 1, 1) = 2451545 /\ DayOf(JUL, 1582, 10, 4) = LastJulianDay
   /\ DayOf(GREG, 1582, 10, 15) = LastJulianDay + 1
   /\ NewYear(REV, 1) = DayOf(GREG, 1792, 9, 22)
   /\ {k \in 1..18 : RevNY(k + 1) - RevNY(k) = 366} = {3, 7, 11, 15}
   /\ DayOf(HEB, 5748, 12, 16) = DayOf(GREG, 1988, 7, 30)
   /\ DayOf(HEB, 5730, 8, 14) = DayOf(GREG, 1970, 4, 20)
   /\ DayOf(HEB, 5750, 1, 1) = DayOf(GREG, 1989, 9, 30)
   /\ DayOf(ISL, 1, 1, 1) = DayOf(JUL, 622, 7, 16)
   /\ DayOf(PERS, 1400, 1, 1) = DayOf(GREG, 2021, 3, 21)
   /\ DayOf(MPERS, 1400, 1, 1) = DayOf(GREG, 2021, 3, 21)
   /\ DayOf(CHI, 4637, 1, 1) = DayOf(GREG, 2000, 2, 5)

YearsQ == {40 * k : k \in -150..250}
YearsFar == {2820 * k : k \in {-1400, -700, -101, 101, 700, 1400}}
=============================================================================
