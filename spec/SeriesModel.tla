----------------------------- MODULE SeriesModel -----------------------------
(* An evaluator that keeps the series it last read: the answers are those of the file asked, after any history.
   And what the sums promise: dropped terms cost no more than the limit, velocities are rates of change, lengths stay. *)
EXTENDS Series, TLC
VARIABLES keptFile, keptBody, keptSeries, answer, question
vars == <<keptFile, keptBody, keptSeries, answer, question>>
Files == 1..2
Bodies == 1..2
Times == {"0", "-13.7", "0.031", "8"}
Limits == {"0", "0.02", "0.5", "-0.02"}
Data(f, b) == [n \in 1..6 |-> IF ((n + f + b) % 3) = 0 THEN <<>> ELSE
   <<<<DDiv(Num(f + b), Num(n)), Num(n), "3.5">>, <<DDiv("-0.031", Num(n)), "1", Num(7 * b)>>, <<DDiv(Num(f), "300"), "0", "0">>>>]
Init == keptFile = 0 /\ keptBody = 0 /\ keptSeries = <<>> /\ answer = "0" /\ question = <<>>
Ask(f, b, t, lim) ==
   /\ IF keptFile = f /\ keptBody = b THEN UNCHANGED <<keptFile, keptBody, keptSeries>>
      ELSE keptFile' = f /\ keptBody' = b /\ keptSeries' = Data(f, b)
   /\ answer' = Vsop(keptSeries', t, lim).v /\ question' = <<f, b, t, lim>>
Next == \E f \in Files, b \in Bodies, t \in Times, lim \in Limits : Ask(f, b, t, lim)
Spec == Init /\ [][Next]_vars
Truthful == question # <<>> => answer = Vsop(Data(question[1], question[2]), question[3], question[4]).v
Dropped(f, b, t, lim) == LET tau == DDiv(t, "10") IN
   FoldLeft(LAMBDA a, n : a + Len(Data(f, b)[n]) - Len(VsopKept(Data(f, b)[n], tau, DAbs(lim), n - 1)), 0, <<1, 2, 3, 4, 5, 6>>)
LimitBounds == question # <<>> =>
   LET f == question[1]  b == question[2]  t == question[3]  lim == question[4] IN
   DLe(DAbs(DSub(answer, Vsop(Data(f, b), t, "0").v)), DAdd("1e-30", DMul(DAbs(lim), Num(Dropped(f, b, t, lim)))))
Block == [t0 |-> "2440000.5", dt |-> "400",
          secular |-> <<<<"1e9", "2e9", "-3e8", "5e7">>, <<"-4e8", "3e8", "1e8", "0">>, <<"0", "1", "-2e9", "7e8">>>>,
          groups |-> <<<<<<"0.017", <<"1e9", "-3e9", "2e8", "1", "0", "-5e8">>>>, <<"0.2", <<"1e7", "3e6", "-2e8", "6e8", "4", "-5e6">>>>>>, <<<<"0.03", <<"1e8", "3e8", "2e7", "1", "9e8", "5">>>>>>,
                       <<<<"0.11", <<"-1e7", "3e7", "2e7", "1e8", "-4e7", "-5e5">>>>>>>>]
RateOfChange == question # <<>> =>
   LET jd == DAdd("2440200.5", DMul("23", question[3]))  h == "1e-10"
       a == Ps1996(Block, DSub(jd, h)).pos  b == Ps1996(Block, DAdd(jd, h)).pos  v == Ps1996(Block, jd).vel IN
   \A c \in 1..3 : DNear(v[c], DDiv(DSub(b[c], a[c]), "2e-10"), "1e-17")
LengthsStay == question # <<>> =>
   LET t == question[3]  f == Frames(answer, "0.3", "1.5", t)  g == Frames2000(answer, "-0.2", "40", t) IN
   \A k \in 1..4 : DNear(VNorm(f[k]), "1.5", "1e-30") /\ DNear(VNorm(g[k]), "40", "1e-30")
Polys == <<<<"3.8", "8399.7", "-1e-4", "0", "0">>, <<"1.4", "71", "0", "0", "0">>, <<"2.2", "-33.8", "0", "0", "0">>, <<"1.75", "628.3", "0", "0", "0">>, <<"1.8", "0.0056", "0", "0", "0">>>>
Some == [k \in 1..36 |-> IF (k % 4) = 0 THEN <<>> ELSE <<<<900000 \div k, 77 * k, [z \in 1..11 |-> ((z * k) % 3) - 1]>>>>]
Fit(s, no) == LET n == Len(ElpBasis(ElpArgs(Polys, [k \in 1..7 |-> <<"1", "2">>], "0"), no \div 3)) IN [k \in DOMAIN s |-> <<s[k][1], s[k][2], SubSeq(s[k][3], 1, n)>>]
MoonLength == (question # <<>> /\ question[1] = 1 /\ question[2] = 1) =>
   LET p == ElpPlace(Polys, [k \in 1..7 |-> <<Num(k), "2">>], [k \in 1..36 |-> Fit(Some[k], k - 1)], question[3], question[4]) IN DNear(VNorm(p.xyz), p.r, "1e-25")
(* terms the Moon's limit drops are as small as the limit says *)
Terms == <<<<0, 0, 1, 0, 6288774, -20905355>>, <<2, -1, 0, 0, 4000, 3900>>, <<1, 2, -1, 0, 100, -3000>>, <<0, 1, 0, 2, -185116, 48888>>>>
MoonLimit == \A lim \in {0, 3000, 3958, 100000} :
   LET f == <<"1", "2", "3", "4", "5", "0.1", "0.2", "0.3", "0.5">>
       a == MoonLonDist(f, Terms, 0)  b == MoonLonDist(f, Terms, lim) IN
   DLe(DAbs(DSub(a.lon, b.lon)), DMul(Num(lim), "6e-6")) /\ DLe(DAbs(DSub(a.r, b.r)), DMul(Num(lim), "3e-3"))
==============================================================================
