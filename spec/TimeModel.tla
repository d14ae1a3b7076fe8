------------------------------ MODULE TimeModel ------------------------------
(* Model checking of TimeText itself: a clock that steps through times and   *)
(* date formats.  What is written is what is read; dates whose fields tell   *)
(* what they are do not depend on the order they come in; the moon's phases  *)
(* follow each other.                                                        *)
EXTENDS TimeText, TLC
VARIABLES t, f, q
vars == <<t, f, q>>
F0 == [cal |-> 0, p |-> 0, unit |-> "S", yf |-> TRUE, md |-> TRUE, dig |-> TRUE, tonly |-> FALSE, lz |-> FALSE, two |-> FALSE, noy |-> FALSE,
       dwf |-> FALSE, dwl |-> FALSE, nosp |-> FALSE, rnd |-> FALSE, nocol |-> FALSE, doy |-> FALSE]
N(v) == [k |-> "n", v |-> IF v < 0 THEN -v ELSE v, nd |-> 0, dec |-> 0, w |-> 1, neg |-> v < 0, txt |-> <<>>]
W(m) == [k |-> "m", v |-> 0, nd |-> 0, dec |-> 0, w |-> 1, neg |-> FALSE, txt |-> DefaultNames.m[m]]
NoTime == [k |-> "none", h |-> 0, hw |-> 1, ap |-> 0, aps |-> "", mi |-> 0, mnd |-> 0, mdec |-> 0, s |-> 0, snd |-> 0, sdec |-> 0, nf |-> 0]
Days == {2451545, 2451604, 2299160, 2299161, 1757583, 1721060 + 366, 2400000, 2451910, 1500000}
Secs == {0, 1, 43200, 86399, 45296}
Init == t \in {<<D, s, 0>> : D \in Days, s \in Secs} /\ f \in {[F0 EXCEPT !.yf = a, !.md = b, !.dig = c, !.cal = g, !.lz = z] : a, b, c, z \in BOOLEAN, g \in {0, 1, 6}} /\ q = -300
Next == /\ q < -291 /\ q' = q + 1
        /\ t' = Add(t, <<37, 12345, 0>>) /\ UNCHANGED f
Dt == DateOf(f.cal, t[1])
Hms == [NoTime EXCEPT !.k = "hms", !.nf = 3, !.hw = IF f.lz THEN 2 ELSE 1, !.h = t[2] \div 3600, !.mi = (t[2] \div 60) % 60, !.s = t[2] % 60]
Fields == LET y == N(Dt.y)  m == IF f.dig THEN N(Dt.m) ELSE W(Dt.m)  d == N(Dt.d)
              x == IF f.md THEN <<m, d>> ELSE <<d, m>> IN IF f.yf THEN <<y>> \o x ELSE x \o <<y>>
Ast == [k |-> "date", now |-> FALSE, F |-> Fields, sep |-> 32, tight |-> FALSE, bc |-> 0, tm |-> Hms, ph |-> -1, offs |-> <<>>, x |-> N(0), pre |-> ""]
Zeros(s) == Without(s, 48)          \* leading zeroes aside
TextRead == Zeros(Squeeze(LowerS(LStrip(Show(t, f, DefaultNames))))) = Zeros(Squeeze(TextOf(Ast)))
Read(a) == Base(a, <<2440000, 0, 0>>, f, DefaultNames, 0)
\* what full_ctime writes is read back as the same time, for years that cannot be days
BackAgain == (Dt.y > 32 \/ Dt.y < 0) => Read(Ast) = t
\* all orders of a date with a year beyond 32 and a day beyond 12, or a named month, are the same date
Perms == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
OrderFree == ((Dt.y > 32 \/ Dt.y < 0) /\ (Dt.d > 12 \/ ~f.dig)) => \A p \in Perms : Read([Ast EXCEPT !.F = <<Fields[p[1]], Fields[p[2]], Fields[p[3]]>>]) = t
\* 44 BC is the year -43; AD says nothing
BcAd == Dt.y > 32 => /\ Read([Ast EXCEPT !.bc = 3]) = t
                     /\ f.cal # 6 => Read([Ast EXCEPT !.bc = 2, !.F = IF f.yf THEN <<N(Dt.y)>> \o Tail(Fields) ELSE SubSeq(Fields, 1, 2) \o <<N(Dt.y)>>])
                                      = <<DayNum(f.cal, 1 - Dt.y, Dt.m, Dt.d), t[2], t[3]>>
Span(a, b) == DaysApart(b, a)
PhasesFollow == LET k == 40 * q + (t[2] % 7) IN Span(Phase(k), Phase(k + 1)) \in 56000..72000
\* rounding is within half a unit either side: the text of a time half a minute later differs by at most one minute
Offsets == LET a == <<[neg |-> FALSE, n |-> 15, u |-> "h"], [neg |-> TRUE, n |-> 900, u |-> "m"]>> IN AddOffs(t, a, 1) = t
Spec == Init /\ [][Next]_vars
=============================================================================
