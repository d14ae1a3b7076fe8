--------------------------- MODULE TimeScalesModel ---------------------------
(* Model checking of TimeScales itself: a calendar that steps from half-month *)
(* to half-month through the days of UTC.                                      *)
EXTENDS TimeScales, TLC, FiniteSets
VARIABLES d
Init == d \in {37300, Utc0, Predicted, -58577 - 182622}
Next == /\ d < 70000 /\ d' = d + 15
        /\ (d < Utc0 => d' < Utc0 + 15) /\ (d < Predicted => d' < Predicted + 15) /\ (d >= Predicted \/ d > -100000) 
Jd(n) == DAdd("2400000.5", Num(n))
Dt(n) == DeltaT(<<>>, YearOf(Jd(n)))
Utc(n) == IF n < Utc0 THEN OldUtc(Jd(n)) ELSE IF n >= Predicted THEN PredictedUtc(DeltaT(<<>>, YearOf(MidHalf(n)))) ELSE IntegralUtc(n)
Days == Jan1(1858) = -320 /\ Jan1(2000) = 51544 /\ First(1972, 1) = Utc0 /\ First(2021, 12) = Predicted /\ First(1961, 1) = 37300
        /\ (d > 0 => LET y == YearOfDay(d) IN Jan1(y) <= d /\ d < Jan1(y + 1))
\* UTC stays near UT; the table's straight lines leave a few tenths
NearUt == d >= 37300 => DNear(Dt(d), Utc(d), "1.3")
\* leap seconds only add, one at a time, until the predicted ones
OneLeap == (d >= Utc0 /\ d < Predicted - 200) => DSub(Utc(d + 15), Utc(d)) \in {"0", "1"}
PredictedSteps == d >= Predicted => DSub(Utc(d + 15), Utc(d)) \in {"-1", "0", "1"}
\* the steps of the sixties, and that into 1972
OldSteps == LET at(k) == DSub(OldUtc(Jd(Rates[k].from)), LET g == Rates[k - 1] IN DAdd(TdTai, DAdd(g.c, DMul(Num(Rates[k].from - g.e), g.r)))) IN
            /\ \A k \in 2..Len(Rates) : at(k) \in {"0", "0.1", "-0.05", "-0.1"}
            /\ DSub(IntegralUtc(Utc0), DAdd(TdTai, DAdd(Rates[13].c, DMul(Num(Utc0 - Rates[13].e), Rates[13].r)))) = "0.107758"
Pieces == \A y \in {-500, 500, 1600} : DNear(DeltaT(<<>>, DSub(Num(y), "1e-6")), DeltaT(<<>>, Num(y)), "5")
\* a definition of the user's comes first, in the order given
User == LET g == << [a |-> "1900", b |-> "2000", o |-> "1950", c |-> <<"7">>], [a |-> "1990", b |-> "2100", o |-> "2000", c |-> <<"1", "100">>] >> IN
        /\ DeltaT(g, "1995") = "7" /\ DeltaT(g, "2001") = "2" /\ DeltaT(g, "1899") = DeltaT(<<>>, "1899")
Smooth == Cubic(<<"1", "8", "27", "64">>, "0") = "8" /\ Cubic(<<"1", "4", "9", "16">>, "0.5") = "6.25"
OnceOnly == IF d = 37300 THEN OldSteps /\ Pieces /\ User /\ Smooth ELSE TRUE
TdbSmall == DLe(DAbs(TdbTd(DDiv(Num(d), "3652.5"))), "0.0018")
Spec == Init /\ [][Next]_d
=============================================================================
