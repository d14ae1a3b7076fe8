----------------------------- MODULE TimeScales -----------------------------
(***************************************************************************)
(* The time scales: TD-UT1 (Delta-T), TD-UTC and TDB-TD at any time, given *)
(* the state of the library: a Delta-T definition set by the user, Earth   *)
(* orientation parameters loaded from a file, and the date at which leap   *)
(* seconds are taken to end.  Times are JDs, differences seconds (Dec).    *)
(***************************************************************************)
EXTENDS Dec

J2000 == "2451545"
YearOf(jd) == DAdd("2000", DDiv(DSub(jd, J2000), "365.25"))
(* ---- days: modified Julian days of the Gregorian calendar ------------------ *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Jan1(y) == 365 * y + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) - 678940
BeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
First(y, m) == Jan1(y) + BeforeMonth[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
\* the year a day is in
RECURSIVE FixY(_, _)
FixY(d, y) == IF Jan1(y) > d THEN FixY(d, y - 1) ELSE IF Jan1(y + 1) <= d THEN FixY(d, y + 1) ELSE y
YearOfDay(d) == FixY(d, 1858 + (d \div 366))

(* ---- Delta-T --------------------------------------------------------------------- *)
\* hundredths of a second, every other year from 1620
Table == << 12400, 11500, 10600, 9800, 9100, 8500, 7900, 7400, 7000, 6500, 6200, 5800, 5500, 5300, 5000, 4800, 4600, 4400, 4200, 4000, 3700,
   3500, 3300, 3100, 2800, 2600, 2400, 2200, 2000, 1800, 1600, 1400, 1300, 1200, 1100, 1000, 900, 900, 900, 900, 900, 900,
   900, 900, 1000, 1000, 1000, 1000, 1000, 1100, 1100, 1100, 1100, 1100, 1100, 1100, 1100, 1200, 1200, 1200, 1200, 1200, 1300,
   1300, 1300, 1300, 1400, 1400, 1400, 1500, 1500, 1500, 1500, 1600, 1600, 1600, 1600, 1600, 1700, 1700, 1700, 1700, 1700, 1700,
   1700, 1700, 1600, 1600, 1500, 1400, 1370, 1310, 1270, 1250, 1250, 1250, 1250, 1250, 1250, 1230, 1200, 1140, 1060, 960, 860,
   750, 660, 600, 570, 560, 570, 590, 620, 650, 680, 710, 730, 750, 770, 780, 790, 750, 640, 540, 290, 160,
   -100, -270, -360, -470, -540, -520, -550, -560, -580, -590, -620, -640, -610, -470, -270, 0, 260, 540, 770, 1050, 1340,
   1600, 1820, 2020, 2120, 2240, 2350, 2390, 2430, 2400, 2390, 2390, 2370, 2400, 2430, 2530, 2620, 2730, 2820, 2910, 3000, 3070,
   3140, 3220, 3310, 3400, 3500, 3650, 3830, 4020, 4220, 4450, 4650, 4850, 5050, 5220, 5380, 5490, 5580,
   5686, 5831, 5998, 6163, 6297, 6383, 6430, 6457, 6485, 6546, 6607, 6660, 6728, 6810, 6897, 6936, 6929, 6918 >>
Last == 1620 + 2 * (Len(Table) - 1)
Early == << [a |-> "-1e308", b |-> "-500", o |-> "1820", c |-> <<"-20", "0", "32">>],
            [a |-> "-500", b |-> "500", o |-> "0", c |-> <<"10583.6", "-1014.41", "33.78311", "-5.952053", "-.1798452", ".022174192", ".0090316521">>],
            [a |-> "500", b |-> "1600", o |-> "1000", c |-> <<"1574.2", "-556.01", "71.23472", ".319781", "-.8503463", "-.005050998", ".0083572073">>],
            [a |-> "1600", b |-> "1620", o |-> "1600", c |-> <<"120", "-98.08", "-153.2", "140.272">>] >>
Covers(g, y) == DLe(g.a, y) /\ DLt(y, g.b)
Piece(g, y) == DPoly(g.c, DDiv(DSub(y, g.o), "100"))
FirstIn(gs, y) == CHOOSE k \in DOMAIN gs : Covers(gs[k], y) /\ \A j \in 1..(k - 1) : ~Covers(gs[j], y)
Hundredths(n) == DDiv(Num(n), "100")
\* beyond the table: straight on from its last interval, and 32.5 s / century^2
FromTable(y) ==
   LET beyond == DLe(Num(Last), y)
       k == IF beyond THEN Len(Table) - 1 ELSE (DFloor(DDiv(DSub(y, "1620"), "2")) + 1)
       x == DDiv(DSub(y, Num(1620 + 2 * (k - 1))), "2")
       line == DAdd(Hundredths(Table[k]), DMul(x, Hundredths(Table[k + 1] - Table[k]))) IN
   IF beyond THEN DAdd(line, DMul("32.5", DSq(DDiv(DSub(y, Num(Last)), "100")))) ELSE line
\* gs: the user's own definition
DeltaT(gs, y) == IF \E k \in DOMAIN gs : Covers(gs[k], y) THEN Piece(gs[FirstIn(gs, y)], y)
                 ELSE IF DLt(y, "1620") THEN Piece(Early[FirstIn(Early, y)], y)
                 ELSE FromTable(y)

(* ---- Earth orientation parameters ----------------------------------------------- *)
\* eop = <<>>, or [d0, n, nn]: first day, days with polar motion and UT1, days with nutation.  In the file, UT1-UTC jumps with the leap seconds;
\* a point is interpolated in four values, two on each side of it
Cubic(t, x) ==          \* t[1..4], at 0 <= x < 1 between t[2] and t[3]: continuous, with a continuous derivative
   LET c == DDiv(DSub(t[3], t[1]), "2")
       y1 == DSub(t[3], t[2])
       a == DAdd(DSub(DDiv(DSub(t[4], t[2]), "2"), DMul("2", y1)), c)
       b == DSub(DSub(y1, a), c) IN
   DPoly(<<t[2], c, b, a>>, x)
InSpan(d0, n, jd) == LET k == DFloor(DSub(jd, DAdd(Num(d0), "2400000.5"))) IN k >= 1 /\ k <= n - 3
MjdOf(jd) == DSub(jd, "2400000.5")

(* ---- TD-UTC ----------------------------------------------------------------------- *)
TdTai == "32.184"
\* from, TAI-UTC at an epoch, the epoch, and rate (per day)
R(y, m, c, ey, r) == [from |-> First(y, m), c |-> c, e |-> Jan1(ey), r |-> r]
Rates == << R(1961, 1, "1.4228180", 1961, "0.0012960"), R(1961, 8, "1.3728180", 1961, "0.0012960"), R(1962, 1, "1.8458580", 1962, "0.0011232"),
            R(1963, 11, "1.9458580", 1962, "0.0011232"), R(1964, 1, "3.2401300", 1965, "0.0012960"), R(1964, 4, "3.3401300", 1965, "0.0012960"),
            R(1964, 9, "3.4401300", 1965, "0.0012960"), R(1965, 1, "3.5401300", 1965, "0.0012960"), R(1965, 3, "3.6401300", 1965, "0.0012960"),
            R(1965, 7, "3.7401300", 1965, "0.0012960"), R(1965, 9, "3.8401300", 1965, "0.0012960"), R(1966, 1, "4.3131700", 1966, "0.0025920"),
            R(1968, 2, "4.2131700", 1966, "0.0025920") >>
LeapDates == << <<1972, 1>>, <<1972, 7>>, <<1973, 1>>, <<1974, 1>>, <<1975, 1>>, <<1976, 1>>, <<1977, 1>>, <<1978, 1>>, <<1979, 1>>, <<1980, 1>>,
   <<1981, 7>>, <<1982, 7>>, <<1983, 7>>, <<1985, 7>>, <<1988, 1>>, <<1990, 1>>, <<1991, 1>>, <<1992, 7>>, <<1993, 7>>, <<1994, 7>>, <<1996, 1>>,
   <<1997, 7>>, <<1999, 1>>, <<2006, 1>>, <<2009, 1>>, <<2012, 7>>, <<2015, 7>>, <<2017, 1>> >>
LeapDays == [k \in DOMAIN LeapDates |-> First(LeapDates[k][1], LeapDates[k][2])]
Utc0 == 41317                   \* 1972 January 1
Predicted == 59549              \* 2021 December 1: from here on, whatever keeps UTC nearest to UT
Leaps(d) == CHOOSE k \in DOMAIN LeapDays : LeapDays[k] <= d /\ (k = Len(LeapDays) \/ LeapDays[k + 1] > d)
\* the middle of the half-year of day d, as a JD
MidHalf(d) == LET y == YearOfDay(d)  j == First(y, 7)  lo == IF d < j THEN Jan1(y) ELSE j  hi == IF d < j THEN j ELSE Jan1(y + 1) IN
              DAdd("2400000.5", DDiv(Num(lo + hi), "2"))
IntegralUtc(d) == DAdd(TdTai, Num(9 + Leaps(d)))
OldUtc(jd) == LET d == MjdOf(jd)
                  k == CHOOSE j \in DOMAIN Rates : DLe(Num(Rates[j].from), d) /\ (j = Len(Rates) \/ DLt(d, Num(Rates[j + 1].from))) IN
              DAdd(TdTai, DAdd(Rates[k].c, DMul(DSub(d, Num(Rates[k].e)), Rates[k].r)))
\* predicted leap seconds, given Delta-T in the middle of the half-year
PredictedUtc(dt) == DAdd(TdTai, DInt(DAdd(DSub(dt, TdTai), "0.5")))

(* ---- TDB-TD ------------------------------------------------------------------------- *)
Terms == << <<"1656.6894e-6", "628.30758494", "6.2400497">>, <<"22.4175e-6", "575.33848843", "4.2969771">>, <<"13.8399e-6", "1256.61516988", "6.1968995">>,
            <<"4.7701e-6", "52.96909651", "0.4444038">>, <<"4.6767e-6", "606.97767539", "4.0211937">>, <<"2.2566e-6", "21.32990954", "5.5431320">> >>
TdbTd(t) == LET s(k) == DMul(Terms[k][1], DSin(DAdd(DMul(Terms[k][2], t), Terms[k][3]))) IN
            DAdd(DAdd(DAdd(s(1), s(2)), DAdd(s(3), s(4))), DAdd(s(5), s(6)))
=============================================================================
