----------------------------- MODULE MpcRecModel -----------------------------
(* Model checking of MpcRec itself: an angle that moves round the circle and *)
(* a time that moves on, written in every format and read again.             *)
EXTENDS MpcRec, TLC
VARIABLES v, fmt, t
vars == <<v, fmt, t>>
Readable == (-7..3) \cup (100..109) \cup (200..208) \cup (307..312) \cup (400..402)
Steps == {<<0, 1>>, <<0, 499999>>, <<3599, 999999>>, <<59, 950000>>, <<86399, 999999>>, <<0, 0>>, <<12345, 678901>>, <<239, 999500>>}
Init == v \in Steps /\ fmt \in Readable /\ t \in {<<D, s, 0>> : D \in {2451545, 2299160, 2299161, 2415021}, s \in {0, 86399}}
Next == /\ v[1] < 86400 * 4 /\ v' = AddA(v, <<17711, 987654>>) /\ t' = Add(t, <<397, 12321, 864000>>) /\ UNCHANGED fmt
V == <<v[1] % 86400, v[2]>>
HalfA == IF fmt >= 400 THEN Fifteenth(AddA(HalfOf(1, fmt - 400), <<0, 14>>))
        ELSE HalfOf(IF fmt \in 100..109 THEN 3600 ELSE IF fmt \in 200..208 THEN 240 ELSE IF fmt < 0 THEN 60 ELSE 1,
                    IF fmt < 0 THEN -1 - fmt ELSE IF fmt \in 307..312 THEN fmt - 306 ELSE fmt % 100)
Le(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Text12 == PadB(WriteAngle(V, fmt), 12)
Back == Angle(Text12, TRUE)
Fits == Len(Text12) = 12
FormatKept == Back.fmt = fmt
ValueKept == Le(V, AddA(Back.v, AddA(HalfA, <<0, 3>>))) /\ Le(Back.v, AddA(V, AddA(HalfA, <<0, 3>>)))
Again == WriteAngle(Back.v, fmt) = WriteAngle(V, fmt) \/ NearA(Back.v, V, 2) \/ fmt \in {109, 208, 312} \cup 200..208 \cup 400..402
(* times: the same time in the notations that hold it to the second *)
Dt == DateOf(JG, t[1])
Cent == LET c == Dt.y \div 100 IN <<c - 19 + 74>> \o DecW(Dt.y % 100, 2) \o DecW(Dt.m, 2) \o DecW(Dt.d, 2)
T0 == <<t[1], t[2], t[3] - (t[3] % 1000)>>
Pad17(s) == PadB(s, 17)
Colon == Pad17(Cent \o <<58>> \o DecW(T0[2] \div 3600, 2) \o DecW((T0[2] \div 60) % 60, 2) \o DecW(T0[2] % 60, 2) \o DecW(T0[3] \div 1000, 3))
Frac9 == FracDigits(T0[2], T0[3], 86400, 9)
Frac6 == SubSeq(Frac9, 1, 6)
Dec9 == Pad17(Cent \o <<46>> \o Frac9)
Std == Pad17(DecW(Dt.y, 4) \o <<SP>> \o DecW(Dt.m, 2) \o <<SP>> \o DecW(Dt.d, 2) \o <<46>> \o Frac6)
Mjd == Pad17(<<77>> \o DecW(t[1] - 2400001, 6) \o <<46>> \o Frac9)
Jd == LET x == Add(T0, <<0, 43200, 0>>) IN Pad17(DecW(x[1] - 1, 7) \o <<46>> \o FracDigits(x[2], x[3], 86400, 9))
Near1(a, b, tol) == Near(a, b, tol)
Notations == /\ (Dt.y \in 1700..2099 => LET c == Date(Colon)  d == Date(Dec9) IN c.fmt = 23 /\ c.t = T0 /\ d.fmt = 39 /\ Near1(d.t, T0, 90))
             /\ (t[1] > 2400001 => LET m == Date(Mjd) IN m.fmt = 49 /\ Near1(m.t, T0, 90))
             /\ LET j == Date(Jd)  s == Date(Std) IN j.fmt = 19 /\ Near1(j.t, T0, 90) /\ s.fmt = 6 /\ Near1(s.t, T0, 86405)
Spec == Init /\ [][Next]_vars
=============================================================================
