------------------------------ MODULE Nutation ------------------------------
(***************************************************************************)
(* The IAU 1980 theory of nutation: multiples of D, M, M', F, Omega; sine  *)
(* coefficient of the longitude and its change per century, cosine         *)
(* coefficient of the obliquity and its change, in 0.0001 arcsecond.       *)
(***************************************************************************)
EXTENDS Dec
NutTerms == <<
   <<0, 0, 0, 0, 1, "-171996", "-174.2", "92025", "8.9">>, <<-2, 0, 0, 2, 2, "-13187", "-1.6", "5736", "-3.1">>, <<0, 0, 0, 2, 2, "-2274", "-0.2", "977", "-0.5">>,
   <<0, 0, 0, 0, 2, "2062", "0.2", "-895", "0.5">>, <<0, 1, 0, 0, 0, "1426", "-3.4", "54", "-0.1">>, <<0, 0, 1, 0, 0, "712", "0.1", "-7", "0">>,
   <<-2, 1, 0, 2, 2, "-517", "1.2", "224", "-0.6">>, <<0, 0, 0, 2, 1, "-386", "-0.4", "200", "0">>, <<0, 0, 1, 2, 2, "-301", "0", "129", "-0.1">>,
   <<-2, -1, 0, 2, 2, "217", "-0.5", "-95", "0.3">>, <<-2, 0, 1, 0, 0, "-158", "0", "0", "0">>, <<-2, 0, 0, 2, 1, "129", "0.1", "-70", "0">>,
   <<0, 0, -1, 2, 2, "123", "0", "-53", "0">>, <<2, 0, 0, 0, 0, "63", "0", "0", "0">>, <<0, 0, 1, 0, 1, "63", "0.1", "-33", "0">>,
   <<2, 0, -1, 2, 2, "-59", "0", "26", "0">>, <<0, 0, -1, 0, 1, "-58", "-0.1", "32", "0">>, <<0, 0, 1, 2, 1, "-51", "0", "27", "0">>,
   <<-2, 0, 2, 0, 0, "48", "0", "0", "0">>, <<0, 0, -2, 2, 1, "46", "0", "-24", "0">>, <<2, 0, 0, 2, 2, "-38", "0", "16", "0">>,
   <<0, 0, 2, 2, 2, "-31", "0", "13", "0">>, <<0, 0, 2, 0, 0, "29", "0", "0", "0">>, <<-2, 0, 1, 2, 2, "29", "0", "-12", "0">>,
   <<0, 0, 0, 2, 0, "26", "0", "0", "0">>, <<-2, 0, 0, 2, 0, "-22", "0", "0", "0">>, <<0, 0, -1, 2, 1, "21", "0", "-10", "0">>,
   <<0, 2, 0, 0, 0, "17", "-0.1", "0", "0">>, <<2, 0, -1, 0, 1, "16", "0", "-8", "0">>, <<-2, 2, 0, 2, 2, "-16", "0.1", "7", "0">>,
   <<0, 1, 0, 0, 1, "-15", "0", "9", "0">>, <<-2, 0, 1, 0, 1, "-13", "0", "7", "0">>, <<0, -1, 0, 0, 1, "-12", "0", "6", "0">>,
   <<0, 0, 2, -2, 0, "11", "0", "0", "0">>, <<2, 0, -1, 2, 1, "-10", "0", "5", "0">>, <<2, 0, 1, 2, 2, "-8", "0", "3", "0">>,
   <<0, 1, 0, 2, 2, "7", "0", "-3", "0">>, <<-2, 1, 1, 0, 0, "-7", "0", "0", "0">>, <<0, -1, 0, 2, 2, "-7", "0", "3", "0">>,
   <<2, 0, 0, 2, 1, "-7", "0", "3", "0">>, <<2, 0, 1, 0, 0, "6", "0", "0", "0">>, <<-2, 0, 2, 2, 2, "6", "0", "-3", "0">>,
   <<-2, 0, 1, 2, 1, "6", "0", "-3", "0">>, <<2, 0, -2, 0, 1, "-6", "0", "3", "0">>, <<2, 0, 0, 0, 1, "-6", "0", "3", "0">>,
   <<0, -1, 1, 0, 0, "5", "0", "0", "0">>, <<-2, -1, 0, 2, 1, "-5", "0", "3", "0">>, <<-2, 0, 0, 0, 1, "-5", "0", "3", "0">>,
   <<0, 0, 2, 2, 1, "-5", "0", "3", "0">>, <<0, 0, -2, 2, 2, "-3", "0", "0", "0">>, <<-2, 0, 2, 0, 1, "4", "0", "0", "0">>,
   <<-2, 1, 0, 2, 1, "4", "0", "0", "0">>, <<0, 0, 3, 2, 2, "-3", "0", "0", "0">>, <<2, -1, -1, 2, 2, "-3", "0", "0", "0">>,
   <<0, -1, 1, 2, 2, "-3", "0", "0", "0">>, <<2, -1, 0, 2, 2, "-3", "0", "0", "0">>, <<-1, -1, 1, 0, 0, "-3", "0", "0", "0">>,
   <<-1, 0, 1, 0, 0, "-4", "0", "0", "0">>, <<-2, 1, 0, 0, 0, "-4", "0", "0", "0">>, <<0, 0, 1, -2, 0, "4", "0", "0", "0">>,
   <<1, 0, 0, 0, 0, "-4", "0", "0", "0">>, <<0, 1, 1, 0, 0, "-3", "0", "0", "0">>, <<0, 0, 1, 2, 0, "3", "0", "0", "0">>,
   <<1, 0, 0, 2, 2, "2", "0", "-1", "0">>, <<0, 0, 2, 0, 1, "2", "0", "-1", "0">>, <<0, 1, 1, 2, 2, "2", "0", "-1", "0">>,
   <<-2, 0, -1, 2, 1, "-2", "0", "1", "0">>, <<-2, -2, 0, 2, 1, "-2", "0", "1", "0">>, <<4, 0, -1, 2, 2, "-2", "0", "1", "0">>,
   <<0, 0, -2, 0, 1, "-2", "0", "1", "0">>, <<0, 0, 1, 0, 2, "-2", "0", "1", "0">>, <<0, 0, 3, 0, 0, "2", "0", "0", "0">>,
   <<-2, 0, 2, 2, 1, "1", "0", "-1", "0">>, <<-2, 1, 1, 2, 2, "1", "0", "-1", "0">>, <<0, 0, -1, 0, 2, "1", "0", "-1", "0">>,
   <<2, 0, -2, 2, 2, "1", "0", "-1", "0">>, <<4, 0, -2, 2, 2, "-1", "0", "1", "0">>, <<2, 0, 1, 2, 1, "-1", "0", "1", "0">>,
   <<-4, 0, 1, 0, 0, "-1", "0", "0", "0">>, <<2, 0, 1, -2, 0, "-1", "0", "0", "0">>, <<0, 0, 0, -2, 1, "-1", "0", "0", "0">>,
   <<-2, 0, 1, -2, 0, "-1", "0", "0", "0">>, <<-4, 0, 2, 0, 0, "-1", "0", "0", "0">>, <<-1, 0, 0, 2, 2, "-1", "0", "0", "0">>,
   <<2, 1, 0, -2, 0, "-1", "0", "0", "0">>, <<2, 0, 1, 0, 1, "-1", "0", "0", "0">>, <<2, 1, 0, 0, 0, "-1", "0", "0", "0">>,
   <<2, 0, 2, 2, 2, "-1", "0", "0", "0">>, <<-2, 1, 0, 2, 0, "-1", "0", "0", "0">>, <<-2, 0, 1, 2, 0, "-1", "0", "0", "0">>,
   <<0, -1, 0, 2, 1, "-1", "0", "0", "0">>, <<4, 0, 0, 2, 2, "-1", "0", "0", "0">>, <<-2, 1, 1, 0, 1, "-1", "0", "0", "0">>,
   <<2, 0, 0, -2, 1, "1", "0", "0", "0">>, <<0, 1, 0, 2, 1, "1", "0", "0", "0">>, <<2, -1, -1, 0, 1, "1", "0", "0", "0">>,
   <<0, 0, 2, -2, 1, "1", "0", "0", "0">>, <<-2, -1, 1, 0, 0, "1", "0", "0", "0">>, <<-2, 0, 3, 2, 2, "1", "0", "0", "0">>,
   <<0, 0, -1, 4, 2, "1", "0", "0", "0">>, <<-2, 0, 0, 4, 2, "1", "0", "0", "0">>, <<0, 1, 0, 0, 2, "1", "0", "0", "0">>,
   <<2, 0, 2, 0, 0, "1", "0", "0", "0">>, <<1, 0, -1, 0, 1, "1", "0", "0", "0">>, <<-2, 1, 2, 0, 0, "1", "0", "0", "0">>,
   <<1, 1, 0, 0, 0, "1", "0", "0", "0">> >>
(* degrees: constant, per century, squared, one over the cubed one *)
NutArgs == << <<"297.85036", "445267.11148", "-0.0019142", "189474">>, <<"357.52772", "35999.05034", "-0.0001603", "-300000">>,
              <<"134.96298", "477198.867398", "0.0086972", "56250">>, <<"93.27191", "483202.017538", "-0.0036825", "327270">>,
              <<"125.04452", "-1934.136261", "0.0020708", "450000">> >>
NutArg(k, t) == LET a == NutArgs[k] IN Rad(DMod(DPoly(<<a[1], a[2], a[3], DDiv("1", a[4])>>, t), "360"))
(* FOUND IN THE LIBRARY (known_findings.jsonl): after the first term, which is right, its table of rates is taken by the wrong index, so that  *)
(* these are the rates it uses.  Its tests hold these values.                                                                                  *)
FoundRates == [lon |-> <<"-1.6", "-3.4", "-0.4", "0", "0", "-0.1">>, obl |-> <<"-3.1", "-0.1", "0">>]
NutTermsFound == [k \in 1..Len(NutTerms) |->
   LET r == NutTerms[k]  m == k - 1  at(f) == IF m <= Len(f) THEN f[m] ELSE "0" IN
   IF k = 1 THEN r ELSE <<r[1], r[2], r[3], r[4], r[5], r[6], at(FoundRates.lon), r[8], at(FoundRates.obl)>>] \o <<>>
RECURSIVE NutSum(_, _, _, _, _)
NutSum(terms, k, t, a, acc) ==
   IF k > Len(terms) THEN acc
   ELSE LET r == terms[k]
            ang == DDot(<<Num(r[1]), Num(r[2]), Num(r[3]), Num(r[4]), Num(r[5])>>, a)
            c == DMul(DAdd(r[6], DMul(r[7], t)), DSin(ang))
            o == IF r[8] = "0" THEN "0" ELSE DMul(DAdd(r[8], DMul(r[9], t)), DCos(ang)) IN
        NutSum(terms, k + 1, t, a, <<DAdd(acc[1], c), DAdd(acc[2], o)>>)
NutationBy(terms, t) == LET z == NutSum(terms, 1, t, [k \in 1..5 |-> NutArg(k, t)], <<"0", "0">>) IN <<DMul(z[1], "1e-4"), DMul(z[2], "1e-4")>>
(* <<longitude, obliquity>> in arcseconds, t in centuries since 2000 *)
NutationAt(t) == NutationBy(NutTerms, t)
=============================================================================
