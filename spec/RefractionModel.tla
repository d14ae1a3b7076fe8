--------------------------- MODULE RefractionModel ---------------------------
(* An observer changes the weather one step at a time, and looks lower and lower; what refraction does meanwhile. *)
EXTENDS Refraction, TLC
VARIABLES wx, look
vars == <<wx, look>>
Looks == <<"90", "70", "45", "20", "10", "5", "2", "0.5", "0">>
Temps == <<"250", "283", "305">>  Pressures == <<"600", "1010">>  Hums == <<"0", "80">>  Waves == <<"0.4", "0.574", "0.9">>  Alts == <<"0", "2500">>
W(v) == [lat |-> "0.7", alt |-> Alts[v[5]], wl |-> Waves[v[4]], hum |-> Hums[v[3]], t |-> Temps[v[1]], p |-> Pressures[v[2]]]
H(k) == Rad(Looks[k])
As(x) == DMul(Deg(x), "3600")                          \* in arcseconds
R(v, k) == As(Integral(W(v), H(k), 16))
Init == wx = <<2, 2, 1, 2, 1>> /\ look = 1
Lower == look < Len(Looks) /\ look' = look + 1 /\ UNCHANGED wx
Change == look = 1 /\ UNCHANGED look /\ \E k \in 1..5 : \E x \in 1..3 : x <= <<3, 2, 2, 3, 2>>[k] /\ wx' = [wx EXCEPT ![k] = x]
                   /\ \E j \in {3, 4} : wx'[j] = <<1, 1, 1, 2, 1>>[j]
Next == Lower \/ Change
Spec == Init /\ [][Next]_vars
Standard == <<2, 2, 1, 2, 1>>
ThumbRulesAgree == wx = Standard =>
   /\ DNear(As(Saemundsson(DSub(H(look), Bennett(H(look))))), As(Bennett(H(look))), "8")
   /\ DNear(As(Bennett(H(look))), "0", "2100") /\ (look = 1 => DNear(As(Bennett(H(1))), "0", "0.9"))
MoreAirLower == look > 1 => DLt(R(wx, look - 1), R(wx, look)) /\ (wx = Standard => DLt(Bennett(H(look - 1)), Bennett(H(look))))
\* more pressure, less heat: more bending
ThickAirMore == look \in {3, 7} => (wx[2] = 1 => DLt(R(wx, look), R([wx EXCEPT ![2] = 2], look))) /\ (wx[1] < 3 => DLt(R([wx EXCEPT ![1] = @ + 1], look), R(wx, look)))
Fine == look \in {5, 8, 9} => DNear(As(Integral(W(wx), H(look), 16)), As(Integral(W(wx), H(look), 32)), "0.1")
\* high up, all that matters is the air at the observer: (n - 1) tan z, less a little; Saastamoinen and the integral agree
NearZenith == look = 2 => LET a == Air(W(wx))  n == Below(a, a.r0).n IN DNear(DDiv(R(wx, 2), As(DMul(DSub(n, "1"), Cot(H(2))))), "1", "0.003")
ThumbAndIntegral == look \in 2..5 /\ wx[4] = 2 /\ wx[5] = 1 =>
   DNear(R(wx, look), As(Saastamoinen(H(look), W(wx).p, W(wx).t, DDiv(W(wx).hum, "100"))), IF look < 5 THEN "0.6" ELSE "3")
ColoursSpread == look \in {2, 6, 9} /\ wx[4] < 3 => DLt(R([wx EXCEPT ![4] = @ + 1], look), R(wx, look))
LightSeenIsLower == \A k \in 2..Len(Looks) : k = look => DLe("0", R(wx, look))
NoAirNoBend == look = 8 => DNear(Integral([W(wx) EXCEPT !.p = "0", !.hum = "0"], H(look), 4), "0", "0")
\* tables of the Pulkovo observatory: 57.1" at 45 degrees at 15 C, 760 mm; 34' at the horizon, nearly
Pulkovo == wx = Standard /\ look \in {3, 9} => DNear(As(Integral([W(wx) EXCEPT !.t = "288.15", !.p = "1013.25"], H(look), 32)), IF look = 3 THEN "57.1" ELSE "1960", IF look = 3 THEN "0.3" ELSE "40")
==============================================================================
