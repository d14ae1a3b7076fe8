------------------------------ MODULE TimeText ------------------------------
(***************************************************************************)
(* Times as text.  A time is <<D, s, u>>: civil day (its Julian day number *)
(* at noon), seconds and microseconds since midnight.  Show: a time as     *)
(* full_ctime() writes it.  Meaning: what a text typed by a user means,    *)
(* given the time that is current; texts are given as abstract syntax      *)
(* (records), TextOf says how they are written.                            *)
(***************************************************************************)
EXTENDS Calendar, Text

Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000 [] n = 6 -> 1000000
(* ---- time arithmetic ------------------------------------------------------ *)
Norm(D, s, u) == LET s1 == s + (u \div 1000000) IN <<D + (s1 \div 86400), s1 % 86400, u % 1000000>>
Add(t, e) == Norm(t[1] + e[1], t[2] + e[2], t[3] + e[3])
Times(n, e) == Norm(n * e[1], n * e[2], n * e[3])
\* within tol microseconds (tol < 1000000)
Near(a, b, tol) ==
   LET dd == a[1] - b[1] IN
   /\ dd \in -1..1
   /\ LET ds == dd * 86400 + a[2] - b[2] IN ds \in -1..1 /\ ds * 1000000 + a[3] - b[3] \in -tol..tol

(* ---- dates ------------------------------------------------------------------ *)
RECURSIVE FixYear(_, _, _)
FixYear(c, jd, y) == IF NewYear(c, y) > jd THEN FixYear(c, jd, y - 1)
                     ELSE IF NewYear(c, y + 1) <= jd THEN FixYear(c, jd, y + 1) ELSE y
Guess(c, jd) == CASE c = ISL -> ((jd - 1948440) * 30) \div 10631
                  [] c = HEB -> ((jd - 347998) * 100) \div 36525
                  [] c = CHI -> ((jd - 757862) * 100) \div 36525
                  [] c = REV -> ((jd - 2375475) * 100) \div 36525
                  [] c \in {PERS, MPERS} -> ((jd - 1947955) * 100) \div 36525
                  [] OTHER -> ((jd - 1721060) * 100) \div 36525
Single(c, jd) == IF c = JG THEN (IF jd > LastJulianDay THEN GREG ELSE JUL) ELSE c
DateOf(c0, jd) == LET c == Single(c0, jd)  y == FixYear(c, jd, Guess(c, jd))
                      st == MonthStarts(Months(c, y))  k == jd - NewYear(c, y)
                      m == CHOOSE j \in 1..13 : st[j] <= k /\ k < st[j + 1]
                  IN  [y |-> y, m |-> m, d |-> k - st[m] + 1]
DayNum(c, y, m, d) == DayOf(IF c = JG THEN JGCal(y, m, d) ELSE c, y, m, d)
DefaultMonths == << "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", "" >>
DefaultDays == << "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" >>
DefaultNames == [m |-> [k \in 1..13 |-> S(DefaultMonths[k])], w |-> [k \in 1..7 |-> S(DefaultDays[k])]]
DayOfWeek(jd) == (jd + 1) % 7                          \* 0 = Sunday

(* ---- writing a time ---------------------------------------------------------- *)
\* f: [cal, p, unit ("S" "M" "H" "D" "Y" "JD" "MJD"), yf, md, dig, tonly, lz, two, noy, dwf, dwl, nosp, rnd, nocol, doy]
Pad2(n, lz) == IF lz THEN DecW(n, 2) ELSE LET d == Dec(n) IN IF Len(d) < 2 THEN <<SP>> \o d ELSE d
Year4(y, lz) == IF lz THEN (IF y < 0 THEN <<45>> \o DecW(-y, 3) ELSE DecW(y, 4))
                ELSE LET d == Dec(y) IN IF Len(d) < 4 THEN Spaces(4 - Len(d)) \o d ELSE d
Half(unit, p) == LET b == CASE unit = "M" -> 30 [] unit = "H" -> 1800 [] unit = "D" -> 43200 [] OTHER -> 0 IN
                 IF unit = "S" THEN <<0, 0, 500000 \div Pow10(p)>>
                 ELSE <<0, b \div Pow10(p), (b % Pow10(p)) * Pow10(6 - p)>>
Guard(p) == <<0, 0, 50000 \div Pow10(p)>>               \* 0.05 of the last decimal of a second, so that exact times show as such
\* the p decimals of the unit at t
Decimals(t, unit, p) ==
   IF p = 0 THEN <<>>
   ELSE LET n == CASE unit = "S" -> t[3] \div Pow10(6 - p)
                   [] unit = "M" -> ((t[2] % 60) * 1000000 + t[3]) \div (60 * Pow10(6 - p))
                   [] unit = "H" -> LET x == (t[2] % 3600) * 100000 + (t[3] \div 10) IN
                                    IF p = 6 THEN x \div 360 ELSE x \div (360 * Pow10(6 - p))
                   [] unit = "D" -> (t[2] * 10000 + (t[3] \div 100)) \div (864 * Pow10(6 - p))
        IN  <<46>> \o DecW(n, p)
RECURSIVE Without(_, _)
Without(s, c) == IF s = <<>> THEN <<>> ELSE (IF s[1] = c THEN <<>> ELSE <<s[1]>>) \o Without(Tail(s), c)
NegTime(t) == Norm(-t[1], -t[2], -t[3])
\* decimals of a fraction r seconds + u microseconds of a unit of n seconds
RECURSIVE FracDigits(_, _, _, _)
FracDigits(r, u, n, p) == IF p = 0 THEN <<>>
   ELSE LET x == 10 * r + ((10 * u) \div 1000000) IN <<48 + (x \div n)>> \o FracDigits(x % n, (10 * u) % 1000000, n, p - 1)
\* Julian years of 365.25 days (31557600 s) since 2000 January 1.5, and 2000
YearText(t, f) ==
   LET q == 4 * (t[1] - 2451545) - 2 + (t[2] \div 21600)
       y == 2000 + (q \div 1461)
       r == (q % 1461) * 21600 + (t[2] % 21600)
       neg == y < 0
       whole == ~neg \/ (r = 0 /\ t[3] = 0)
       my == IF ~neg THEN y ELSE IF whole THEN -y ELSE -y - 1
       ms == IF ~neg \/ whole THEN <<r, t[3]>> ELSE IF t[3] = 0 THEN <<31557600 - r, 0>> ELSE <<31557599 - r, 1000000 - t[3]>>
       yt == (IF neg THEN <<45>> ELSE <<>>) \o Dec(my)
       w == IF Len(yt) >= 4 THEN yt ELSE Rep(IF f.lz THEN 48 ELSE SP, 4 - Len(yt)) \o yt
   IN  w \o (IF f.p = 0 THEN <<>> ELSE <<46>> \o FracDigits(ms[1], ms[2], 31557600, f.p))
HalfYear(p) == Norm(0, 15778800 \div Pow10(p), (15778800 % Pow10(p)) * Pow10(6 - p))
\* Julian day, or modified Julian day, to the nearest unit of the last decimal
JdText(t, f) ==
   LET v == IF f.unit = "MJD" THEN <<t[1] - 2400001, t[2], t[3]>> ELSE Norm(t[1] - 1, t[2] + 43200, t[3])
       neg == v[1] < 0
       a == IF neg THEN NegTime(v) ELSE v
       j == Norm(a[1], a[2] + (43200 \div Pow10(f.p)), a[3] + (43200 % Pow10(f.p)) * Pow10(6 - f.p))
   IN  (IF f.unit = "MJD" THEN S("MJD ") ELSE S("JD ")) \o (IF neg THEN <<45>> ELSE <<>>) \o Dec(j[1]) \o Decimals(j, "D", f.p)
Show(t0, f, names) ==
   IF f.unit = "Y" THEN YearText(Add(t0, IF f.rnd THEN HalfYear(f.p) ELSE Guard(f.p)), f)
   ELSE IF f.unit \in {"JD", "MJD"} THEN JdText(IF f.rnd THEN t0 ELSE Add(t0, Guard(f.p)), f)
   ELSE
   LET t == Add(t0, IF f.rnd THEN Half(f.unit, f.p) ELSE Guard(f.p))
       dt == DateOf(f.cal, t[1])
       dow == names.w[DayOfWeek(t[1]) + 1]
       mon == IF f.dig \/ names.m[dt.m] = <<>> THEN Pad2(dt.m, f.lz) ELSE names.m[dt.m]
       yr == IF f.two THEN DecW((IF dt.y < 0 THEN -dt.y ELSE dt.y) % 100, 2) ELSE Year4(dt.y, f.lz)
       fr == IF f.unit = "D" THEN Decimals(t, "D", f.p) ELSE <<>>
       day == Pad2(dt.d, f.lz) \o fr
       doy == DecW(t[1] - DayNum(f.cal, dt.y, 1, 1) + 1, 3) \o fr
       md == IF f.doy THEN doy ELSE IF f.md THEN mon \o <<SP>> \o day ELSE day \o <<SP>> \o mon
       date == (IF f.yf /\ ~f.noy THEN yr \o <<SP>> ELSE <<>>) \o md \o (IF ~f.yf /\ ~f.noy THEN <<SP>> \o yr ELSE <<>>)
       tod == CASE f.unit = "S" -> Pad2(t[2] \div 3600, f.lz) \o <<58>> \o DecW((t[2] \div 60) % 60, 2) \o <<58>> \o DecW(t[2] % 60, 2)
                [] f.unit = "M" -> Pad2(t[2] \div 3600, f.lz) \o <<58>> \o DecW((t[2] \div 60) % 60, 2)
                [] f.unit = "H" -> Pad2(t[2] \div 3600, f.lz)
                [] OTHER -> <<>>
       all == (IF f.dwf THEN dow \o <<SP>> ELSE <<>>)
              \o (IF f.tonly THEN <<>> ELSE date \o (IF f.unit # "D" THEN <<SP>> ELSE <<>>))
              \o (IF f.unit # "D" THEN tod \o Decimals(t, f.unit, f.p) ELSE <<>>)
              \o (IF f.dwl THEN <<SP>> \o dow ELSE <<>>)
       a == IF f.nosp THEN Without(all, SP) ELSE all
   IN  IF f.nocol THEN Without(a, 58) ELSE a
\* rounding an exact half may go either way
ShowOk(t, f, names, txt) == \/ txt = Show(t, f, names)
                            \/ (f.rnd \/ f.unit \in {"JD", "MJD"} \/ f.p < 5) /\ \E e \in {-1, 1} : txt = Show(Norm(t[1], t[2], t[3] + e), f, names)

(* ---- reading a time ------------------------------------------------------------ *)
\* tenths of each unit, in which offsets count
OffUnit(c) == CASE c = "s" -> <<0, 0, 100000>> [] c = "m" -> <<0, 6, 0>> [] c = "h" -> <<0, 360, 0>> [] c = "d" -> <<0, 8640, 0>>
                [] c = "w" -> <<0, 60480, 0>> [] c = "l" -> <<2, 82344, 287690>> [] c = "y" -> <<36, 45360, 0>> [] c = "" -> <<0, 8640, 0>> [] c = "c" -> <<3652, 43200, 0>>
NegOf(e) == <<-e[1], -e[2], -e[3]>>
RECURSIVE AddOffs(_, _, _)
AddOffs(t, offs, k) == IF k > Len(offs) THEN t
   ELSE LET o == offs[k]  e == Times(o.n, OffUnit(o.u)) IN
        AddOffs(IF o.neg THEN Norm(t[1] - e[1], t[2] - e[2], t[3] - e[3]) ELSE Add(t, e), offs, k + 1)
\* a number of days with up to four decimals (dec in 10^-nd)
FracDay(nd, dec) == IF nd = 0 THEN <<0, 0, 0>>
                    ELSE LET x == dec * Pow10(4 - nd) IN Norm(0, (x * 864) \div 100, ((x * 864) % 100) * 10000)
FracUnit(nd, dec, secs) == IF nd = 0 THEN <<0, 0, 0>> ELSE Norm(0, (secs * dec) \div Pow10(nd), ((secs * dec) % Pow10(nd)) * Pow10(6 - nd))
\* decimal year, two decimals: 365.25-day years from 2000 Jan 1.0
YearTime(y, nd, dec) == LET h == IF nd = 0 THEN 0 ELSE dec * Pow10(2 - nd) IN
   Add(<<2451545, 0, 0>>, Add(Norm((y - 2000) * 365, 0, 0), Add(Norm((y - 2000) \div 4, ((y - 2000) % 4) * 21600, 0), Times(h, <<3, 56376, 0>>))))

RECURSIVE LowerS(_)
LowerS(s) == IF s = <<>> THEN <<>> ELSE <<ToLower(s[1])>> \o LowerS(Tail(s))
Prefix3(s) == Take(LowerS(s), 3)
MatchName(s, list) == LET p == Prefix3(s)
                          m == {k \in DOMAIN list : list[k] # <<>> /\ StartsWith(LowerS(list[k]), p)} IN
                      IF m = {} THEN 0 ELSE CHOOSE k \in m : \A j \in m : k <= j

\* fields: [k |-> "n"/"m", v, nd, dec, w (zero-padded width), neg, txt]
Val(x, names) == IF x.k = "m" THEN MatchName(x.txt, names.m) ELSE IF x.neg THEN -x.v ELSE x.v
Big(x, names) == x.k = "n" /\ ~x.neg /\ (x.v > 32 \/ (x.v = 32 /\ x.nd > 0 /\ x.dec > 0))
\* which of three fields is what: <<year, month, day>> as indices
Who(F, f, names) ==
   LET I == DOMAIN F
       neg == {k \in I : F[k].neg}
       big == {k \in I : Big(F[k], names)}
       Y0 == IF neg # {} THEN CHOOSE k \in neg : \A j \in neg : k <= j
             ELSE IF big # {} THEN CHOOSE k \in big : \A j \in big : F[k].v > F[j].v \/ (F[k].v = F[j].v /\ k <= j) ELSE 0
       named == {k \in I : F[k].k = "m"}
       M0 == IF named = {} THEN 0 ELSE CHOOSE k \in named : \A j \in named : j <= k
       maxm == IF f.cal \in {HEB, CHI, REV} THEN 13 ELSE 12
       clear == {k \in I : k # Y0 /\ F[k].k = "n" /\ F[k].v < 32 /\ (F[k].v > maxm \/ (F[k].v = maxm /\ F[k].nd > 0 /\ F[k].dec > 0))}
       decs == {k \in I : k # Y0 /\ F[k].nd > 0}
       D0 == IF (Y0 # 0 \/ Len(F) = 2) /\ clear # {} THEN CHOOSE k \in clear : \A j \in clear : j <= k
             ELSE IF decs # {} THEN CHOOSE k \in decs : \A j \in decs : j <= k ELSE 0
   IN  [y |-> Y0, m |-> M0, d |-> D0]
Who3(F, f, names) ==
   LET w == Who(F, f, names)  yf == IF f.yf THEN 1 ELSE 3 IN
   CASE w.y # 0 /\ w.m # 0 -> [w EXCEPT !.d = 6 - w.y - w.m]
     [] w.y # 0 /\ w.m = 0 /\ w.d # 0 -> [w EXCEPT !.m = 6 - w.y - w.d]
     [] w.y # 0 /\ w.m = 0 /\ w.d = 0 ->
          LET first == IF w.y = 1 THEN 2 ELSE 1  second == 6 - w.y - first IN
          IF f.md THEN [w EXCEPT !.m = first, !.d = second] ELSE [w EXCEPT !.d = first, !.m = second]
     [] w.y = 0 /\ w.m # 0 /\ w.d # 0 -> [w EXCEPT !.y = 6 - w.m - w.d]
     [] w.y = 0 /\ w.m # 0 /\ w.d = 0 -> LET y == IF w.m = 2 THEN yf ELSE 4 - w.m IN [w EXCEPT !.y = y, !.d = 6 - y - w.m]
     [] w.y = 0 /\ w.m = 0 /\ w.d # 0 -> LET y == IF w.d = 2 THEN yf ELSE 4 - w.d IN [w EXCEPT !.y = y, !.m = 6 - y - w.d]
     [] OTHER -> LET d == (IF f.yf THEN 2 ELSE 1) + (IF f.md THEN 1 ELSE 0) IN [y |-> yf, d |-> d, m |-> 6 - yf - d]
\* the date part: [y, m, d, frac]
TwoDigit(y, f, bc, now) ==
   IF f.two /\ y > 0 /\ y < 100 /\ ~bc
   THEN LET cy == 1970 + (now \div 31557600)  y0 == y + 1900 IN IF y0 >= cy - 60 THEN y0 ELSE y0 + 100 * ((cy - 60 - y0 + 99) \div 100)
   ELSE y
FieldsYmd(F, f, bc, init, names, now) ==
   LET c == DateOf(f.cal, init[1])
       V(k) == Val(F[k], names)
       fr(k) == FracDay(F[k].nd, F[k].dec)
       none == <<0, 0, 0>>
       r == IF Len(F) = 3
            THEN LET w == Who3(F, f, names) IN [y |-> V(w.y), m |-> V(w.m), d |-> V(w.d), fr |-> fr(w.d)]
            ELSE LET w == Who(F, f, names) IN
                 IF w.m # 0 THEN LET o == 3 - w.m IN
                      IF V(o) >= 1 /\ V(o) < 32 THEN [y |-> c.y, m |-> V(w.m), d |-> V(o), fr |-> fr(o)] ELSE [y |-> V(o), m |-> V(w.m), d |-> c.d, fr |-> none]
                 ELSE IF w.y # 0 THEN LET o == 3 - w.y IN [y |-> V(w.y), m |-> 1, d |-> V(o), fr |-> fr(o)]
                 ELSE IF w.d # 0 THEN LET o == 3 - w.d IN [y |-> c.y, m |-> V(o), d |-> V(w.d), fr |-> fr(w.d)]
                 ELSE IF f.md THEN [y |-> c.y, m |-> V(1), d |-> V(2), fr |-> none] ELSE [y |-> c.y, m |-> V(2), d |-> V(1), fr |-> none]
       y2 == TwoDigit(r.y, f, bc, now)
   IN  [r EXCEPT !.y = IF bc THEN 1 - y2 ELSE y2]
FieldsDate(F, f, bc, init, names, now) ==
   LET r == FieldsYmd(F, f, bc, init, names, now) IN Add(<<DayNum(f.cal, r.y, r.m, r.d), 0, 0>>, r.fr)

\* a lone number of n digits (with decimals)
OneNumber(x, f, bc, init) ==
   LET c == DateOf(f.cal, init[1])  fr == FracDay(x.nd, x.dec)
       B1(y) == IF bc THEN 1 - y ELSE y
       n == Len(Dec(x.v)) IN
   CASE x.w <= 2 -> Add(<<DayNum(f.cal, B1(c.y), c.m, x.v), 0, 0>>, fr)
     [] x.w = 3 -> Add(<<DayNum(f.cal, B1(c.y), 1, x.v), 0, 0>>, fr)
     [] x.w \in {4, 5} -> IF x.nd > 0 /\ x.dec > 0 THEN YearTime(x.v, x.nd, x.dec) ELSE <<DayNum(f.cal, B1(x.v), 1, 1), 0, 0>>
     [] x.w = 7 -> Add(<<x.v, 43200, 0>>, fr)
     [] x.w \in {6, 8} -> LET y0 == x.v \div 10000  y == IF x.w = 6 THEN (IF y0 < 40 THEN y0 + 2000 ELSE y0 + 1900) ELSE y0 IN
                          Add(<<DayNum(f.cal, B1(y), (x.v \div 100) % 100, x.v % 100), 0, 0>>, fr)

\* the day of the given name nearest to the current one
Nearest(dow, init) == LET k == (dow - DayOfWeek(init[1])) % 7 IN init[1] + (IF k > 3 THEN k - 7 ELSE k)

\* time part: [k: "none", "hms", "ms", "keep"], h, ap (0 none, 1 am, 2 pm), mi, mnd, mdec, s, snd, sdec, nf (fields shown)
TimeOfDay(tm, init) ==
   LET h == IF tm.k = "ms" THEN init[2] \div 3600
            ELSE IF tm.ap = 1 /\ tm.h = 12 THEN 0 ELSE IF tm.ap = 2 /\ tm.h # 12 THEN tm.h + 12 ELSE tm.h
   IN  CASE tm.k = "none" -> <<0, 0, 0>>
         [] tm.k = "keep" -> <<0, init[2], init[3]>>
         [] OTHER -> Add(<<0, h * 3600 + tm.mi * 60 + tm.s, 0>>, Add(FracUnit(tm.mnd, tm.mdec, 60), FracUnit(tm.snd, tm.sdec, 1)))

(* ---- the moon ------------------------------------------------------------------- *)
SinTab == ndJsonDeserialize(IOEnv.SINTAB)[1].sin           \* sin of 0.0, 0.1, ... 90.0 degrees, in 10^-7
RECURSIVE Sin7(_)                                           \* sine (10^-7) of an angle in 10^-4 degrees
Sin7(a0) == LET a == a0 % 3600000 IN
   IF a >= 1800000 THEN -Sin7(a - 1800000)
   ELSE IF a > 900000 THEN Sin7(1800000 - a)
   ELSE LET k == a \div 1000  r == a % 1000  lo == SinTab[k + 1] IN
        IF r = 0 THEN lo ELSE lo + ((SinTab[k + 2] - lo) * r) \div 1000
\* a * q mod 360 degrees, a = ai + af / 10000 in 10^-4 degrees, q >= 0 or not
Ang(ai, af, q) == LET m == IF q < 0 THEN -q ELSE q
                      x == (((ai * 1000) % 3600000) * (m \div 1000) + ai * (m % 1000)) % 3600000
                      y == x + (af * m) \div 10000
                  IN  IF q < 0 THEN (-y) % 3600000 ELSE y % 3600000
Amps == << <<-40720, 17241, 1608, 1039, 739, -514, 208, -111, -57>>,
           <<-62801, 17172, 862, 804, 454, -1183, 204, -180, -70>>,
           <<-40614, 17302, 1614, 1043, 734, -515, 209, -111, -57>> >>        \* 10^-5 days
\* the mean phase as a time: T0 + q * 7.38264721325 days  (7 d 33060 s 719225 us)
PhaseAt(q) == Add(<<2451550, 51636, 960000>>, LET m == IF q < 0 THEN -q ELSE q
                                                  hi == Times(m \div 1000, <<7382, 55919, 224800>>)       \* 1000 quarters: 7382.64721325 days
                                                  lo == Times(m % 1000, <<7, 33060, 719225>>)
                                                  e == Add(hi, lo)
                                              IN  IF q < 0 THEN NegOf(e) ELSE e)
Correction(q) ==                    \* 10^-5 days
   LET ph == q % 4
       mm == (2015643 + Ang(964542, 3382, q)) % 3600000
       ms == (25534 + Ang(72763, 3917, q)) % 3600000
       ff == (1607108 + Ang(976676, 2569, q)) % 3600000
       a == Amps[IF ph = 0 THEN 1 ELSE IF ph = 2 THEN 3 ELSE 2]
       T(k, ang) == (a[k] * (Sin7(ang) \div 1000)) \div 100                            \* 10^-7 days
       sum == T(1, mm) + T(2, ms) + T(3, 2 * mm) + T(4, 2 * ff) + T(5, (mm - ms) % 3600000) + T(6, mm + ms) + T(7, 2 * ms)
              + T(8, (mm - 2 * ff) % 3600000) + T(9, mm + 2 * ff)
   IN  (sum \div 100) + (IF ph = 1 THEN 306 ELSE IF ph = 3 THEN -306 ELSE 0)
Phase(q) == LET c == Correction(q) IN Add(PhaseAt(q), IF c >= 0 THEN Norm(0, (c * 108) \div 125, 0) ELSE Norm(-1, 86400 - (((-c) * 108) \div 125), 0))
\* |t| in whole days: which quarter is nearest among those of the phase asked for
NearestQuarters(t, ph) == LET k0 == ((t[1] - 2451550) * 100) \div 2953 IN {4 * k + ph : k \in (k0 - 30)..(k0 + 30)}
DaysApart(a, b) == LET d == a[1] - b[1]  s == a[2] - b[2] IN d * 8640 + (s \div 10)      \* tens of seconds
Abs(x) == IF x < 0 THEN -x ELSE x
PhaseOk(base, ph, offs, res) ==
   IF base[1] \notin 2251545..2651545 THEN TRUE          \* the moon is specified near the present
   ELSE \E q \in NearestQuarters(base, ph) :
      /\ Abs(DaysApart(PhaseAt(q), base)) <= 127574       \* half a lunation, 127572.1
      /\ Abs(DaysApart(AddOffs(Phase(q), offs, 1), res)) <= 4

(* ---- a whole text ----------------------------------------------------------------- *)
\* a: [k, F, sep, tight, bc (0, 1 before, 2 behind, 3 AD behind, 4 between), tm, ph, offs, x, txt, pre]
IsUt(a) == IF a.ph >= 0 \/ a.k \in {"jd", "mjd"} \/ (a.k = "one" /\ a.x.w = 7 /\ a.x.k = "n") THEN 1 ELSE 0
Base(a, init0, f, names, now) ==
   LET init == IF a.now THEN Norm(2440588, now, 0) ELSE init0
       bc == a.bc \in {1, 2, 4}
       cur == <<init[1], 0, 0>>
       tod == TimeOfDay(a.tm, init) IN
   CASE a.k = "jd"   -> Add(<<a.x.v, 43200, 0>>, FracDay(a.x.nd, a.x.dec))
     [] a.k = "mjd"  -> Add(<<a.x.v + 2400001, 0, 0>>, FracDay(a.x.nd, a.x.dec))
     [] a.k = "y"    -> YearTime(a.x.v, a.x.nd, a.x.dec)
     [] a.k = "gps"  -> <<2444245 + 7 * (a.x.v \div 10) + (a.x.v % 10), 0, 0>>
     [] a.k = "unix" -> Norm(2440588, a.x.v, 0)
     [] a.k = "now"  -> Norm(2440588, now, 0)
     [] a.k = "none" -> init
     [] a.k = "date" -> Add(FieldsDate(a.F, f, bc, init, names, now), tod)
     [] a.k = "time" -> Add(cur, tod)
     [] a.k = "fits" -> Add(<<DayNum(f.cal, a.F[1].v, a.F[2].v, a.F[3].v), 0, 0>>, tod)
     [] a.k = "one"  ->
          IF a.x.k = "n" THEN (IF a.x.w = 7 \/ (a.x.w \in {4, 5} /\ a.x.nd > 0 /\ a.x.dec > 0) THEN OneNumber(a.x, f, bc, init)
                               ELSE Add(OneNumber(a.x, f, bc, init), tod))
          ELSE LET m == MatchName(a.x.txt, names.m)  c == DateOf(f.cal, init[1]) IN
               IF m # 0 THEN Add(<<DayNum(f.cal, IF bc THEN 1 - c.y ELSE c.y, m, c.d), 0, 0>>, tod)
               ELSE Add(<<Nearest(MatchName(a.x.txt, names.w) - 1, init), 0, 0>>, tod)

(* how it is written (lower case) *)
NumText(x) == (IF x.neg THEN <<45>> ELSE <<>>) \o DecW(x.v, x.w) \o (IF x.nd = 0 THEN <<>> ELSE <<46>> \o DecW(x.dec, x.nd))
FText(x) == IF x.k = "m" THEN LowerS(x.txt) ELSE NumText(x)
TimeText0(tm) ==
   LET mi == DecW(tm.mi, 2) \o (IF tm.mnd = 0 THEN <<>> ELSE <<46>> \o DecW(tm.mdec, tm.mnd))
       se == DecW(tm.s, 2) \o (IF tm.snd = 0 THEN <<>> ELSE <<46>> \o DecW(tm.sdec, tm.snd))
       ap == CASE tm.ap = 0 -> <<>> [] tm.ap = 1 -> S(tm.aps) [] OTHER -> S(tm.aps)
   IN  CASE tm.k = "none" -> <<>> [] tm.k = "keep" -> <<58>>
         [] tm.k = "ms" -> <<58>> \o mi \o (IF tm.nf = 2 THEN <<58>> \o se ELSE <<>>)
         [] OTHER -> DecW(tm.h, tm.hw) \o <<58>> \o (IF tm.nf > 1 THEN mi ELSE <<>>) \o (IF tm.nf > 2 THEN <<58>> \o se ELSE <<>>) \o ap
OffText(o) == (IF o.neg THEN <<45>> ELSE <<43>>) \o Dec(o.n \div 10) \o (IF o.n % 10 = 0 THEN <<>> ELSE <<46, 48 + (o.n % 10)>>) \o S(o.u)
RECURSIVE OffsText(_, _), Joined(_, _, _, _)
OffsText(offs, k) == IF k > Len(offs) THEN <<>> ELSE <<SP>> \o OffText(offs[k]) \o OffsText(offs, k + 1)
AlphaDigit(a, b) == (IsAlpha(a) /\ IsDigit(b)) \/ (IsDigit(a) /\ IsAlpha(b))
Joined(F, k, sep, tight) ==
   IF k = Len(F) THEN FText(F[k])
   ELSE LET a == FText(F[k])  b == Joined(F, k + 1, sep, tight) IN
        a \o (IF tight /\ sep = 32 /\ AlphaDigit(a[Len(a)], b[1]) THEN <<>> ELSE <<sep>>) \o b
Glue(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE a \o <<SP>> \o b
TextOf(a) ==
   LET tmt == TimeText0(a.tm)
       core == CASE a.k \in {"jd", "mjd", "y", "gps", "unix"} -> S(a.pre) \o NumText(a.x)
                 [] a.k \in {"none", "time"} -> <<>>
                 [] a.k = "date" -> IF a.bc = 4 THEN FText(a.F[1]) \o S(" bc ") \o Joined(Tail(a.F), 1, a.sep, a.tight) ELSE Joined(a.F, 1, a.sep, a.tight)
                 [] a.k = "fits" -> Joined(a.F, 1, 45, FALSE) \o S("t") \o tmt
                 [] a.k = "one" -> FText(a.x)
       ph == IF a.ph < 0 THEN <<>> ELSE S((<<"nm", "1q", "fm", "3q">>)[a.ph + 1])
       core1 == IF a.now THEN Glue(S("now"), core) ELSE core
       b0 == IF a.k = "fits" THEN core1 ELSE Glue(core1, tmt)
       b1 == CASE a.bc = 1 -> S("bc ") \o b0 [] a.bc = 2 -> b0 \o S(" bc") [] a.bc = 3 -> b0 \o S(" ad") [] OTHER -> b0
   IN  LStrip(Glue(b1, ph) \o OffsText(a.offs, 1))
RECURSIVE Squeeze(_)          \* spaces are not significant in number
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = SP /\ s[2] = SP THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))
Written(a, txt) == Squeeze(RStrip(LStrip(LowerS(txt)))) = Squeeze(TextOf(a))
NoMonth(a, init, f, names, now) == a.k = "date" /\ FieldsYmd(a.F, f, a.bc \in {1, 2, 4}, init, names, now).m > 13
HasLunations(a) == \E k \in DOMAIN a.offs : a.offs[k].u = "l"
Reads(a, init, f, names, now, res, ut) ==
   IF NoMonth(a, init, f, names, now) THEN IF a.ph >= 0 THEN ut \in {-1, 1} ELSE ut = -1 /\ res = init
   ELSE
   /\ ut = IsUt(a)
   /\ IF a.ph >= 0 THEN PhaseOk(Base(a, init, f, names, now), a.ph, a.offs, res)
      ELSE Near(AddOffs(Base(a, init, f, names, now), a.offs, 1), res, IF HasLunations(a) THEN 300 ELSE 3)
=============================================================================
