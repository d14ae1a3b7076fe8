------------------------------ MODULE CalTrace ------------------------------
(* Trace specification: what day_to_dmy / dmy_to_day / days_in_month were   *)
(* seen to do must be a run of the calendar clocks of Calendar.tla.         *)
EXTENDS Calendar, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, cal, jd, lo, hi        \* jd: the next day the clock must show
vars == <<i, cal, jd, lo, hi>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* runs <<first JD, month, first day of month, number of days, error of the way back>> of year y inside lo..hi
RunsOf(c, y) ==
   LET ml == Months(c, y)  ny == NewYear(c, y)  ms == MonthStarts(ml)
       st(k) == ny + ms[k]
       S == {k \in 1..13 : ml[k] > 0 /\ st(k) <= hi /\ st(k) + ml[k] > lo}
       F == IF S = {} THEN 1 ELSE CHOOSE k \in S : \A j \in S : k <= j
       \* months that exist: consecutive except the Hebrew month 7 of a common year
       Ks == SelectSeq([k \in 1..13 |-> k], LAMBDA k : k \in S)
   IN  [n \in 1..Len(Ks) |-> LET k == Ks[n]  a == Max(st(k), lo)  b == Min(st(k) + ml[k] - 1, hi)
                             IN  <<a, k, a - st(k) + 1, b - a + 1, 0>>]
Within(r) == r[4] > 0
Clip(r) == LET a == Max(r[1], lo)  b == Min(r[1] + r[4] - 1, hi) IN <<a, r[2], r[3] + a - r[1], b - a + 1, 0>>
Runs1582 == LET J(m) == <<DayOf(JUL, 1582, m, 1), m, 1, Months(JUL, 1582)[m], 0>>
                G(m) == <<DayOf(GREG, 1582, m, 1), m, 1, Months(GREG, 1582)[m], 0>>
                all == [m \in 1..9 |-> J(m)] \o << <<LastJulianDay - 3, 10, 1, 4, 0>>, <<LastJulianDay + 1, 10, 15, 17, 0>>, G(11), G(12)>>
            IN  SelectSeq([k \in 1..13 |-> Clip(all[k])], Within)
Expected(c, y) == IF c # JG THEN RunsOf(c, y)
                  ELSE IF y = 1582 THEN Runs1582
                  ELSE RunsOf(IF y < 1582 THEN JUL ELSE GREG, y)
ExpDim(c, y) == IF c # JG THEN Months(c, y) ELSE Months(IF y <= 1582 THEN JUL ELSE GREG, y)

Last(s) == s[Len(s)]
OutOfRange(c, a, b) ==       \* no year of the calendar touches a..b
   CASE c = PERS -> b < NewYear(PERS, PersLo) \/ a >= NewYear(PERS, PersHi) + MonthStarts(Months(PERS, PersHi))[14]
     [] c = CHI  -> b < NewYear(CHI, ChiLo) \/ a >= NewYear(CHI, ChiHi) + MonthStarts(Months(CHI, ChiHi))[14]
     [] OTHER    -> FALSE

Ok(e) == LET r == e.runs IN
   /\ r[1][1] = jd                                     \* the clock never skips a day
   /\ IF r[1][3] = -1
      THEN /\ Len(r) = 1 /\ OutOfRange(e.cal, jd, jd + r[1][4] - 1)     \* refused: outside the calendar's range
      ELSE /\ InRange(e.cal, e.y)
           /\ r = Expected(e.cal, e.y)
           /\ e.dim = ExpDim(e.cal, e.y)
           /\ (e.cal = JG /\ e.y = 1582) \/ \A k \in 1..13 : e.ext[k] = 0
           /\ e.ic = IF e.cal = CHI THEN <<ChiInter(e.y), ChiInter(e.y)>> ELSE <<0, 0>>

\* dates of years outside the table-driven calendars are refused: no day, no month lengths
OkRefuse(e) == ~InRange(e.cal, e.y) /\ e.jd = 0 /\ e.dim = 0

Init == i = 1 /\ cal = -1 /\ jd = 0 /\ lo = 0 /\ hi = 0
Open(e) == /\ "new" \in DOMAIN e
           /\ cal' = e.cal /\ jd' = e.jd0 /\ lo' = e.jd0 /\ hi' = e.jd1
\* the window before it must have been walked to its end
Closed == cal = -1 \/ jd = hi + 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i] IN
           IF "new" \in DOMAIN e
           THEN /\ IF Closed THEN TRUE ELSE PrintT(<<"REJECT", i - 1, "window not walked to its end", jd, hi>>)
                /\ Open(e)
           ELSE IF "refuse" \in DOMAIN e
           THEN /\ IF OkRefuse(e) THEN TRUE ELSE PrintT(<<"REJECT", i, "not refused">>)
                /\ cal' = -1 /\ UNCHANGED <<jd, lo, hi>>
           ELSE LET r == e.runs IN
                /\ IF Ok(e) THEN TRUE
                   ELSE PrintT(<<"REJECT", i, "clock at", jd, "expected", IF InRange(e.cal, e.y) /\ e.runs[1][3] # -1 THEN Expected(e.cal, e.y) ELSE <<>> >>)
                /\ jd' = Last(r)[1] + Last(r)[4]
                /\ UNCHANGED <<cal, lo, hi>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
