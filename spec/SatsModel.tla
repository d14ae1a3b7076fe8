------------------------------ MODULE SatsModel ------------------------------
(* Satellites watched as a clock moves forth and back: they stay in their shells and go round at their mean motions, the right way;
   laws that the tables of the theories obey. *)
EXTENDS Sats, TLC, FiniteSets, SequencesExt
VARIABLES body, tick
vars == <<body, tick>>
\* place, mean distance, eccentricity (perturbations included), mean motion in degrees a day
SatA(n) == DMul(SMean[n + 1][1], PerSecond)
Bodies ==
   [i \in 1..4 |-> [who |-> "J", n |-> i, a |-> JRadii[i], e |-> <<"0.006", "0.011", "0.004", "0.0095">>[i], m |-> JRate[Mean(i)][2]]] \o
   [k \in 1..9 |-> [who |-> "S", n |-> k - 1, a |-> SatA(k - 1), e |-> <<"0.02", "0.006", "0.002", "0.004", "0.002", "0.032", "0.135", "0.033", "0.165">>[k], m |-> SMean[k][5]]] \o
   [k \in 1..5 |-> [who |-> "U", n |-> k - 1, a |-> DMul(<<"190930", "265980", "436280", "583450", "129870">>[k], DDiv("1", UAu)), e |-> "0.006",
                    m |-> DDiv(UMean[IF k = 5 THEN 1 ELSE k + 1][2], Rad("1"))]] \o
   <<[who |-> "T", n |-> 0, a |-> Sec("488.49"), e |-> "1e-9", m |-> "61.2588532"]>> \o
   [k \in 1..3 |-> [who |-> "C", n |-> k - 1, a |-> <<"0.0025204", "0.0019693", "0.0019693">>[k], e |-> "0.008", m |-> DDiv(C_rlamda[k], Rad("1"))]] \o
   [k \in DOMAIN Rocks |-> [who |-> "R", n |-> Rocks[k].id, a |-> Rocks[k].a, e |-> DAdd("1e-6", DSqrt(DAdd(DSq(Rocks[k].h), DSq(Rocks[k].k)))), m |-> DMul("86400", Rocks[k].motion)]]
At(b, jd) == CASE b.who = "J" -> JSat(b.n, jd) [] b.who = "S" -> SSat(b.n, jd) [] b.who = "U" -> USat(b.n, jd).r [] b.who = "T" -> Triton(jd)
               [] b.who = "C" -> CSat(b.n, jd).r [] OTHER -> Rock(b.n, jd)
Start == "2448000.5"
\* a tick is some forty degrees of the mean motion
Jd(b, k) == DAdd(Start, DDiv(Num(40 * k), DAbs(b.m)))
Init == body \in DOMAIN Bodies /\ tick = 0
Forward == tick < 3 /\ tick' = tick + 1 /\ UNCHANGED body
Backward == tick > -2 /\ tick' = tick - 1 /\ UNCHANGED body
Next == Forward \/ Backward
Spec == Init /\ [][Next]_vars
B == Bodies[body]
InItsShell == LET r == VNorm(At(B, Jd(B, tick))) IN
   /\ DLe(DMul(B.a, DSub("0.999", B.e)), r) /\ DLe(r, DMul(B.a, DAdd("1.001", B.e)))
Between(p, q) == LET c == VCross(p, q) IN DAtan2(VNorm(c), DDot(p, q))
GoesRound == LET p == At(B, Jd(B, tick))  q == At(B, Jd(B, tick + 1)) IN DNear(Between(p, q), Rad("40"), DAdd("0.004", DMul("2.2", B.e)))
\* velocities are what the places change by
Speed == B.who \in {"U", "C"} =>
   LET jd == Jd(B, tick)  h == "0.0001"  p == At(B, DSub(jd, h))  q == At(B, DAdd(jd, h))
       v == VScale(DDiv("1", DMul("2", h)), VSub(q, p))
       u == IF B.who = "U" THEN VScale("86400", USat(B.n, jd).v) ELSE CSat(B.n, jd).v IN
   VNear(u, v, DMul("0.002", VNorm(v)))
(* ---- laws of the tables ---- *)
Once == body = 1 /\ tick = 0
Turns(m) == LET f(k) == IF k \in {"g", "h", "b", "c", "S"} THEN 0 ELSE m[k]  ks == SetToSeq(DOMAIN m) IN FoldLeft(LAMBDA a, k : a + f(k), 0, ks)
Flatness(t) == \A k \in DOMAIN t : Turns(t[k][2]) = 0
\* angles appear in a sum in such multiples that it does not depend on where they are counted from
DAlembert == Once =>
   /\ \A i \in 1..4 : Flatness(JLon[i]) /\ Flatness(JLat[i]) /\ Flatness(JRad[i])
   /\ \A n \in 1..5 : Flatness(UMotion[n][2]) /\ Flatness(ULongitude[n][3]) /\ \A k \in DOMAIN UForced[n] : Turns(UForced[n][k][2]) = 1
\* an ellipse of small eccentricity e: 2 e sin M in longitude, -e cos M in distance
Apsides == Once =>
   \A i \in 1..4 : \A k \in DOMAIN JRad[i] : LET t == JRad[i][k]  li == Mean(i) IN
      (\E p \in {"p1", "p2", "p3", "p4"} : DOMAIN t[2] = {li, p} /\ t[2][li] = 1) /\ (t[1] >= 200 \/ t[1] <= -200) =>
         \E j \in DOMAIN JLon[i] : LET u == JLon[i][j]  z == Rad(DMul("1e-5", Num(u[1])))  r == DMul("1e-7", Num(t[1])) IN
            u[2] = t[2] /\ DNear(z, DMul("-2", r), DMul("0.2", DAbs(r)))
\* the equator's plane carries all four the same way
SameWay == Once => \A i \in 1..4 : \E k \in DOMAIN JLat[i] : LET t == JLat[i][k] IN t[2] = [L |-> 1, psi |-> -1] /\ t[1] < 0
Laplace == Once =>
   LET f(c) == Total(<<JRate.l1[c], DMul("-3", JRate.l2[c]), DMul("2", JRate.l3[c])>>) IN DNear(f(1), "-180", "0.001") /\ DNear(f(2), "0", "2e-9")
\* velocity coefficients are the derivative of the position's, to their rounding, those below 2 left out
Derivative == Once => \A s \in 0..2 : \A i \in DOMAIN CTerms[s + 1] : LET t == CTerms[s + 1][i]  m == CRate(i, s)  f(v, r) == DNear(Num(v), DMul(m, Num(r)), DAdd("0.51", DMul(IF r = 0 THEN "2" ELSE "0.51", DAbs(m)))) IN
   \A c \in 1..3 : f(t[4][c], t[3][c]) /\ f(t[5][c], -t[2][c])
\* Kepler's third law
Third(a, degs, gm, part) == LET n == Rad(degs) IN DNear(DDiv(DMul(DMul(a, DSq(a)), DSq(n)), gm), "1", part)
KeplersThird == Once =>
   /\ \A k \in DOMAIN Rocks : LET p == Rocks[k].id \div 100 IN
        Third(Rocks[k].a, Rocks[k].motion, CASE p = 4 -> "42828" [] p = 5 -> "126686500" [] p = 6 -> "37931200" [] p = 7 -> "5793950" [] OTHER -> "6835100", "0.04")
   /\ \A i \in 1..4 : Third(DMul("71398", JRadii[i]), DDiv(JRate[Mean(i)][2], "86400"), "126686500", "0.01")
   /\ \A n \in 0..8 : Third(DMul("149597870.7", SatA(n)), DDiv(SMean[n + 1][5], "86400"), "37931200", "0.025")
   /\ Third(DMul("149597870.7", Sec("488.49")), DDiv("61.2588532", "86400"), "6835100", "0.01")
   /\ \A s \in 0..4 : LET n == s + 1 IN DNear(DDiv(UMotion[n][1], ULongitude[n][2]), "1", "5e-4")
\* where the motion is slower than its mean, the orbit is wider (Hyperion's resonance with Titan)
Hyperion == Once => LET o == SMean[7]  dn == DDiv(DMul("9.142", Rad("0.5621071")), o[5])  da == DDiv("-0.00003509", SatA(6)) IN
   DNear(da, DMul(DDiv("-2", "3"), dn), "2e-5")
Orthonormal == Once => \A i \in 1..3, j \in 1..3 : DNear(DDot(UPlane[i], UPlane[j]), IF i = j THEN "1" ELSE "0", "1e-9")
OneRockEach == Once => \A i, j \in DOMAIN Rocks : Rocks[i].id = Rocks[j].id => i = j
==============================================================================
