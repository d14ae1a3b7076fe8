---------------------------- MODULE OrbFileModel ----------------------------
(* The readers and writers of OrbFile agree with themselves: a line written under any order of columns reads back as the orbit it was     *)
(* written for, cut short it reads as nothing or as the same; every packed day is its own; a number written in a field is found there     *)
(* and a wrong one is not.                                                                                                                *)
EXTENDS OrbFile
Names == [q |-> S("q   "), e |-> S("e    "), Tp |-> S("Tp       "), i |-> S("i  ."), O |-> S("Om ."), o |-> S("om .")]
Values == [q |-> "1.5", e |-> "0.25", Tp |-> "20200229", i |-> "12.5", O |-> "77.5", o |-> "9.75"]
VARIABLES cols, mode, day
vars == <<cols, mode, day>>
PadTo(s, w) == s \o Spaces(IF Len(s) < w THEN w - Len(s) ELSE 0)
Width(c) == IF Len(Values[c]) > Len(Names[c]) THEN Len(Values[c]) ELSE Len(Names[c])
RECURSIVE HeadLine(_)
HeadLine(cs) == IF cs = <<>> THEN <<>> ELSE PadTo(Names[cs[1]], Width(cs[1])) \o <<124>> \o HeadLine(Tail(cs))
RECURSIVE RowLine(_)
RowLine(cs) == IF cs = <<>> THEN <<>> ELSE PadTo(S(Values[cs[1]]), Width(cs[1])) \o <<SP>> \o RowLine(Tail(cs))
Init == cols = <<>> /\ mode \in {"sof", "day"} /\ day = IF mode = "day" THEN Jdn(2019, 12, 1, TRUE) ELSE 0
Next == \/ mode = "sof" /\ \E c \in DOMAIN Names : c \notin {cols[k] : k \in DOMAIN cols} /\ cols' = Append(cols, c) /\ UNCHANGED <<mode, day>>
        \/ mode = "day" /\ day < Jdn(2024, 4, 1, TRUE) /\ day' = day + 1 /\ UNCHANGED <<mode, cols>>
Spec == Init /\ [][Next]_vars
Full == Len(cols) = 6
ReadLaw ==
   mode = "sof" /\ cols # <<>> =>
      LET h == HeadLine(cols)  l == RowLine(cols)  g == Sof(h, l) IN
      IF ~Full THEN ~g.ok
      ELSE /\ g.ok /\ g.q = "1.5" /\ g.e = "0.25" /\ DNear(g.T, "2458908.5", "0") /\ DNear(g.i, Rad("12.5"), "0") /\ DNear(g.n, Rad("77.5"), "0") /\ DNear(g.w, Rad("9.75"), "0")
           /\ \A k \in 0..Len(l) - Width(cols[6]) - 1 : ~Sof(h, Take(l, k)).ok
           /\ Sof(h, Append(l, 10)) = g /\ Sof(Append(h, 10), Append(l, 13)) = g
\* the day of each Julian day number, from counting on from the first of a known month
DateOf(n) == CHOOSE t \in {<<y, m>> \in (2019..2024) \X (1..12) : Jdn(y, m, 1, TRUE) <= n} : Jdn(t[1], t[2], 1, TRUE) + MonthLen(t[1], t[2], TRUE) > n
Ext(n) == IF n < 10 THEN 48 + n ELSE IF n < 36 THEN 55 + n ELSE 61 + n
DayLaw == mode = "day" =>
   LET t == DateOf(day)  d == day - Jdn(t[1], t[2], 1, TRUE) + 1
       p == <<Ext(t[1] \div 100), 48 + ((t[1] \div 10) % 10), 48 + (t[1] % 10), Ext(t[2]), Ext(d)>>  z == Dec(t[1]) \o DecW(t[2], 2) \o DecW(d, 2) IN
   RealDate(t[1], t[2], d) /\ ~RealDate(t[1], t[2], MonthLen(t[1], t[2], TRUE) + 1) /\ PackedDay(p) = day /\ DNear(YmdJd(z), Midnight(day), "0")
FieldLaw ==
   \A v \in {"0.123456789012345", "12.999999999999999", "359.87654321", "0"} : \A d \in {3, 10} : \A keep \in {0, 3} :
      LET t == S(DFix(v, d))  s == Spaces(d + 5 - Len(t)) \o t
          cutoff == Take(s, 5 + keep) \o Spaces(d - keep)
          worse == [cutoff EXCEPT ![IF keep = 0 THEN 4 ELSE 5 + keep] = IF @ = 53 THEN 52 ELSE 53] IN
      Field(cutoff, 0, d + 5, d, keep, v, FALSE) /\ (worse # cutoff => ~Field(worse, 0, d + 5, d, keep, v, FALSE))
ASSUME FieldLaw
=============================================================================
