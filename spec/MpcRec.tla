-------------------------------- MODULE MpcRec --------------------------------
(***************************************************************************)
(* The time, right ascension and declination fields of 80-column records,  *)
(* as they are read (DateField, AngleField) and as angles are written      *)
(* (WriteAngle).  Times are <<civil day, s, us>> as in TimeText; an angle  *)
(* is <<whole 3600ths, millionths>> of an hour or degree.                  *)
(***************************************************************************)
EXTENDS TimeText

Digs(s, k, n) == \A j \in k..(k + n - 1) : IsDigit(At(s, j))            \* n digits at (zero-based) k
NumAt(s, k, n) == NumFrom(SubSeq(s, k + 1, k + n), 0, 0)
BlankFrom(s, k) == \A j \in k..(Len(s) - 1) : At(s, j) = SP
NDig(s, k) == DigitsFrom(s, k) - k

(* ---- times ------------------------------------------------------------- *)
\* day fraction of n decimals from column k: up to nine, as a time
RECURSIVE FracTime(_, _, _, _)
FracTime(s, k, r, u) ==            \* r seconds, u microseconds: size of the next decimal
   IF ~IsDigit(At(s, k)) THEN <<0, 0, 0>>
   ELSE LET d == At(s, k) - 48 IN Add(Norm(0, d * r, d * u), FracTime(s, k + 1, r \div 10, ((r % 10) * 100000) + (u \div 10)))
DayFrac(s, k) == FracTime(s, k, 8640, 0)
Year2(c, yy) == (c - 74) * 100 + 1900 + yy                              \* H I J K: 18th ... 21st century
StdDate(f) ==                      \* "YYYY MM DD.dddddd", blanks allowed for leading zeroes of month and day
   LET z(k) == IF At(f, k) = SP THEN 0 ELSE At(f, k) - 48 IN
   /\ Digs(f, 0, 4) /\ At(f, 4) = SP /\ At(f, 7) = SP /\ At(f, 10) = 46
   /\ At(f, 5) \in {SP} \cup 48..57 /\ IsDigit(At(f, 6)) /\ At(f, 8) \in {SP} \cup 48..57 /\ IsDigit(At(f, 9))
   /\ NDig(f, 11) <= 6 /\ BlankFrom(f, 11 + NDig(f, 11))
Century(f) == At(f, 0) \in 72..75 /\ Digs(f, 1, 6)
Tail7(f, c) == At(f, 7) = c /\ LET n == NDig(f, 8) IN BlankFrom(f, 8 + n)
\* [fmt, t] or fmt -1: not a date this field can hold; -2: left open
Date(f) ==
   LET bad == [fmt |-> -1, t |-> <<0, 0, 0>>]
       open == [fmt |-> -2, t |-> <<0, 0, 0>>]
       day(y, m, d) == <<DayNum(JG, y, m, d), 0, 0>> IN
   IF StdDate(f)
   THEN LET y == NumAt(f, 0, 4)  m == (IF At(f, 5) = SP THEN 0 ELSE 10 * (At(f, 5) - 48)) + At(f, 6) - 48
            d == (IF At(f, 8) = SP THEN 0 ELSE 10 * (At(f, 8) - 48)) + At(f, 9) - 48 IN
        IF m \notin 1..12 \/ d = 0 THEN open
        ELSE [fmt |-> NDig(f, 11), t |-> Add(day(y, m, d), DayFrac(f, 11))]
   ELSE IF Century(f)
   THEN LET y == Year2(At(f, 0), NumAt(f, 1, 2))  m == NumAt(f, 3, 2)  d == NumAt(f, 5, 2)  n == NDig(f, 8) IN
        IF m \notin 1..12 \/ d = 0 THEN open
        ELSE IF Tail7(f, 46) /\ n >= 2 THEN [fmt |-> 30 + n, t |-> Add(day(y, m, d), DayFrac(f, 8))]
        ELSE IF Tail7(f, 58) /\ n = 4 THEN [fmt |-> 50, t |-> Add(day(y, m, d), <<0, 3600 * NumAt(f, 8, 2) + 60 * NumAt(f, 10, 2), 0>>)]
        ELSE IF Tail7(f, 58) /\ n \in 6..9
             THEN [fmt |-> 14 + n, t |-> Norm(day(y, m, d)[1], 3600 * NumAt(f, 8, 2) + 60 * NumAt(f, 10, 2) + NumAt(f, 12, 2),
                                              IF n = 6 THEN 0 ELSE NumAt(f, 14, n - 6) * Pow10(12 - n))]
        ELSE open
   ELSE IF At(f, 7) = 46 /\ Digs(f, 1, 6) /\ NDig(f, 8) >= 2 /\ BlankFrom(f, 8 + NDig(f, 8)) /\ (At(f, 0) = 77 \/ IsDigit(At(f, 0)))
   THEN LET n == NDig(f, 8) IN
        IF At(f, 0) = 77 THEN [fmt |-> 40 + n, t |-> Add(<<2400001 + NumAt(f, 1, 6), 0, 0>>, DayFrac(f, 8))]
        ELSE [fmt |-> 10 + n, t |-> Add(<<NumAt(f, 0, 7), 43200, 0>>, DayFrac(f, 8))]
   ELSE IF \A k \in DOMAIN f : ~IsDigit(f[k]) THEN bad ELSE open
CodeOk(b) == \A k \in 77..79 : At(b, k) > 32 /\ At(b, k) <= 122
RecordOk(b) == Len(b) \in 80..82 /\ At(b, 12) \in {32, 42, 45} /\ CodeOk(b)
\* radar observations are given to the nearest second
Radar(b) == At(b, 14) \in {82, 114}
ToSecond(t) == Norm(t[1], t[2] + (IF t[3] >= 500000 THEN 1 ELSE 0), 0)
DateOk(b, fmt, zero, t) ==
   IF ~RecordOk(b) THEN zero = 1
   ELSE LET d == Date(SubSeq(b, 16, 32)) IN
        CASE d.fmt = -1 -> zero = 1
          [] d.fmt = -2 -> TRUE
          [] OTHER -> /\ fmt = d.fmt /\ zero = 0
                      /\ LET tol == IF d.t[1] < 4000000 THEN 60 ELSE 200 IN
                         IF Radar(b) THEN \E e \in {-tol, 0, tol} : Near(ToSecond(Norm(d.t[1], d.t[2], d.t[3] + e)), t, tol)
                         ELSE Near(d.t, t, tol)

(* ---- angles ------------------------------------------------------------- *)
NormA(a, u) == <<a + (u \div 1000000), u % 1000000>>
AddA(x, y) == NormA(x[1] + y[1], x[2] + y[2])
\* decimals of a unit of n 3600ths, from column k, at most nine and within the twelve characters
PlaceVal(s, k, j) == IF k + j >= 12 \/ k + j >= k + NDig(s, k) THEN 0 ELSE At(s, k + j) - 48
ThreeNum(s, k, j) == PlaceVal(s, k, j) * 100 + PlaceVal(s, k, j + 1) * 10 + PlaceVal(s, k, j + 2)
UnitFrac(s, k, n) ==
   LET hi == ThreeNum(s, k, 0)  lo == ThreeNum(s, k, 3) * 1000 + ThreeNum(s, k, 6) IN
   NormA((hi * n) \div 1000, ((hi * n) % 1000) * 1000 + (CASE n = 3600 -> (lo * 36) \div 10 [] n = 240 -> (lo * 24) \div 100 [] n = 60 -> (lo * 6) \div 100 [] OTHER -> lo \div 1000))
\* x / 15, x in arcseconds
Fifteenth(x) == NormA(x[1] \div 15, ((x[1] % 15) * 1000000 + x[2]) \div 15)
\* a right ascension (or, unsigned, a declination) field of twelve characters: [fmt, v, prec <<units, decimals>>], fmt -99 unreadable, -100 left open
Angle(s, isra) ==
   LET n == NDig(s, 0)
       open == [fmt |-> -100, v |-> <<0, 0>>, unit |-> 0, dec |-> 0]
       res(f, v, u, d) == [fmt |-> f, v |-> v, unit |-> u, dec |-> d] IN
   CASE n >= 7 -> IF BlankFrom(s, n) THEN res(300 + n, AddA(<<NumAt(s, 0, 2) * 3600 + NumAt(s, 2, 2) * 60 + NumAt(s, 4, 2), 0>>, UnitFrac(s, 6, 1)), 1, n - 6) ELSE open
     [] n = 2 /\ At(s, 2) = 46 -> LET d == NDig(s, 3) IN IF BlankFrom(s, 3 + d) THEN res(100 + d, AddA(<<NumAt(s, 0, 2) * 3600, 0>>, UnitFrac(s, 3, 3600)), 3600, d) ELSE open
     [] n = 3 /\ At(s, 3) = 46 /\ isra -> LET d == NDig(s, 4) IN IF BlankFrom(s, 4 + d) THEN res(200 + d, AddA(<<NumAt(s, 0, 3) * 240, 0>>, UnitFrac(s, 4, 240)), 240, d) ELSE open
     [] n = 2 /\ At(s, 2) = SP /\ Digs(s, 3, 2) ->
          LET hm == <<NumAt(s, 0, 2) * 3600 + NumAt(s, 3, 2) * 60, 0>> IN
          IF At(s, 5) = SP /\ Digs(s, 6, 2)
          THEN IF At(s, 8) = 46 \/ At(s, 8) = SP
               THEN LET d == IF At(s, 8) = 46 THEN NDig(s, 9) ELSE 0 IN
                    IF BlankFrom(s, 9 + d) THEN res(d, AddA(<<hm[1] + NumAt(s, 6, 2), 0>>, UnitFrac(s, 9, 1)), 1, d) ELSE open
               ELSE open
          ELSE IF BlankFrom(s, 5) THEN res(-1, hm, 60, 0)
          ELSE IF At(s, 5) = 46 THEN LET d == NDig(s, 6) IN IF BlankFrom(s, 6 + d) THEN res(-1 - d, AddA(hm, UnitFrac(s, 6, 60)), 60, d) ELSE open
          ELSE open
     [] n = 3 /\ At(s, 3) = SP /\ isra /\ Digs(s, 4, 2) /\ At(s, 6) = SP /\ Digs(s, 7, 2) ->
          LET d == IF At(s, 9) = 46 THEN NDig(s, 10) ELSE 0
              x == AddA(<<NumAt(s, 0, 3) * 3600 + NumAt(s, 4, 2) * 60 + NumAt(s, 7, 2), 0>>, IF d = 0 THEN <<0, 0>> ELSE UnitFrac(s, 10, 1)) IN
          IF (At(s, 9) = 46 /\ BlankFrom(s, 10 + d)) \/ BlankFrom(s, 9) THEN res(400 + d, Fifteenth(x), 0, d) ELSE open
     [] \A k \in DOMAIN s : s[k] = SP \/ IsAlpha(s[k]) -> [open EXCEPT !.fmt = -99]
     [] OTHER -> open
\* the precision, in arcseconds, as <<whole, billionths>>
Pow9(n) == IF n <= 6 THEN Pow10(n) ELSE 1000000 * Pow10(n - 6)
PrecOf(a, isra) == LET m == IF a.unit = 0 THEN 1 ELSE IF isra THEN 15 * a.unit ELSE a.unit IN <<m \div Pow9(a.dec), (m % Pow9(a.dec)) * Pow9(9 - a.dec)>>
NearA(x, y, tol) == LET d == x[1] - y[1] IN d \in -1..1 /\ d * 1000000 + x[2] - y[2] \in -tol..tol
PrecNear(p, q) == (p[1] = q[1] /\ p[2] - q[2] \in -2..2) \/ (p[1] = q[1] + 1 /\ p[2] = 0 /\ q[2] >= 999999998) \/ (q[1] = p[1] + 1 /\ q[2] = 0 /\ p[2] >= 999999998)
FieldOk(s, isra, fmt, neg, v, prec) ==
   LET sgn == At(s, 0) \in {43, 45}  body == IF sgn THEN Take(Tail(s), 12) ELSE Take(s, 12)  a == Angle(body, ~sgn) IN
   IF a.fmt = -100 \/ (isra = sgn) THEN TRUE
   ELSE IF a.fmt = -99 THEN fmt = -99
   ELSE fmt = a.fmt /\ NearA(a.v, v, 2) /\ PrecNear(PrecOf(a, isra), prec) /\ (neg = (At(s, 0) = 45) \/ v = <<0, 0>>)

(* writing: formats as for reading; v in 3600ths, hours or degrees *)
PadB(s, n) == IF Len(s) >= n THEN s ELSE s \o Spaces(n - Len(s))
\* half of n / 10^p 3600ths
RECURSIVE Down(_, _, _)
Down(r, u, k) == IF k = 0 THEN <<r, u>> ELSE Down(r \div 10, ((r % 10) * 100000) + (u \div 10), k - 1)
HalfOf(n, p) == Down(n \div 2, (n % 2) * 500000, p)
WriteAngle(v, fmt) ==
   IF fmt \in 100..109
   THEN LET p == fmt - 100  x == AddA(v, HalfOf(3600, p)) IN DecW(x[1] \div 3600, 2) \o <<46>> \o FracDigits(x[1] % 3600, x[2], 3600, p)
   ELSE IF fmt \in 200..208
   THEN LET p == fmt - 200  x == AddA(v, HalfOf(240, p)) IN DecW(x[1] \div 240, 3) \o <<46>> \o FracDigits(x[1] % 240, x[2], 240, p)
   ELSE IF fmt \in -7..-1
   THEN LET p == -1 - fmt  x == AddA(v, HalfOf(60, p)) IN
        DecW(x[1] \div 3600, 2) \o <<SP>> \o DecW((x[1] \div 60) % 60, 2) \o (IF p = 0 THEN <<>> ELSE <<46>> \o FracDigits(x[1] % 60, x[2], 60, p))
   ELSE LET ra400 == fmt >= 400
            v1 == IF ra400 THEN NormA(15 * v[1], 15 * v[2]) ELSE v
            p == IF ra400 THEN fmt - 400 ELSE IF fmt >= 307 THEN fmt - 306 ELSE fmt
            x == AddA(v1, HalfOf(1, p))
            sep == IF fmt \in 307..312 THEN <<>> ELSE <<SP>> IN
        DecW(x[1] \div 3600, IF ra400 THEN 3 ELSE 2) \o sep \o DecW((x[1] \div 60) % 60, 2) \o sep \o DecW(x[1] % 60, 2)
        \o (IF p = 0 THEN <<>> ELSE (IF fmt \in 307..312 THEN <<>> ELSE <<46>>) \o FracDigits(0, x[2], 1, p))
Width(fmt) == IF fmt \in 4..9 THEN 9 + fmt ELSE 12
Formats == (-7..9) \cup (100..109) \cup (200..208) \cup (307..312) \cup (400..402)
WriteOk(v, fmt, txt) == \E e \in {0, 1, -1} : LET w == NormA(v[1], v[2] + e) IN w[1] >= 0 /\ txt = PadB(WriteAngle(w, fmt), Width(fmt))
\* overlong decimal forms: nine decimals looked at
LongOk(v, fmt, txt) ==
   LET base == IF fmt >= 200 THEN 208 ELSE 109
       n == IF fmt >= 200 THEN 240 ELSE 3600
       p == fmt % 100
       W(x) == DecW(x[1] \div n, IF fmt >= 200 THEN 3 ELSE 2) \o <<46>> \o FracDigits(x[1] % n, x[2], n, base % 100) IN
   /\ Len(txt) = (IF fmt >= 200 THEN 4 ELSE 3) + p /\ \A k \in (Len(txt) - p + 1)..Len(txt) : IsDigit(txt[k])
   /\ \E e \in {0, 1, -1} : LET w == NormA(v[1], v[2] + e) IN w[1] >= 0 /\ StartsWith(txt, W(w))
=============================================================================
