-------------------------------- MODULE Colours --------------------------------
(***************************************************************************)
(* One colour of a star from another: relations of Caldwell et al. (1993)  *)
(* between B-V, V-R and V-I, powers of a colour less one; lines of the     *)
(* Hipparcos catalogue from Tycho colours; Bessell's (2000) table.         *)
(***************************************************************************)
EXTENDS Dec, SequencesExt
Relations ==
 [vi_bv |-> [low |-> "-0.23", high |-> "3.70", c |-> <<"-0.6865072E-01", "0.8837997E+00", "-0.3889774E+00", "-0.4998126E-02", "0.3867544E+00", "-0.5422331E+00", "-0.8926476E-01", "0.5194797E+00", "-0.2044681E+00", "-0.1009025E+00", "0.9543256E-01", "-0.2567529E-01", "0.2393742E-02">>],
  vi_vr |-> [low |-> "-0.30", high |-> "4.00", c |-> <<"-0.4708373E+00", "0.5920728E+00", "-0.1095294E-01", "-0.2281118E+00", "-0.9372892E-01", "0.1931393E+00", "0.5077253E-01", "-0.9927284E-01", "0.8560631E-02", "0.1922702E-01", "-0.7201880E-02", "0.7743020E-03">>],
  vr_bv |-> [low |-> "-0.10", high |-> "1.75", c |-> <<"0.4860429E+00", "0.6904008E+00", "-0.1229411E+01", "0.2990030E+01", "0.7104513E+01", "-0.1637799E+02", "-0.2977123E+02", "0.4390751E+02", "0.6145810E+02", "-0.5265358E+02", "-0.6135921E+02", "0.2297835E+02", "0.2385013E+02">>],
  bv_vr |-> [low |-> "-0.23", high |-> "1.95", c |-> <<"-0.4140951E+00", "0.7357165E+00", "-0.5242979E-01", "-0.6293304E+00", "0.2332871E+01", "0.3812365E+01", "-0.5082941E+01", "-0.6520325E+01", "0.4817797E+01", "0.5065505E+01", "-0.1706011E+01", "-0.1568243E+01">>]]
\* the code compares with the binary numbers nearest these limits
Within(x, rel) == DLe(rel.low, x) /\ DLe(x, rel.high)
Color(x, rel) == DAdd("1", DPoly(rel.c, DSub(x, "1")))
(* straight lines between the points <<(B-V)T, correction>> *)
JohnsonBV == << <<"-0.2", "-0.006">>, <<"0.1", "0">>, <<"0.5", "0.046">>, <<"1.4", "-0.008">>, <<"1.8", "-0.032">> >>
JohnsonV == << <<"-0.2", "0.014">>, <<"0.1", "0">>, <<"0.5", "-0.005">>, <<"1.4", "-0.005">>, <<"1.8", "-0.015">> >>
Lines(pts, x) ==
   LET k == CHOOSE k \in 1..(Len(pts) - 1) : DLe(x, pts[k + 1][1]) /\ (k = 1 \/ DLt(pts[k][1], x)) IN
   DAdd(pts[k][2], DDiv(DMul(DSub(pts[k + 1][2], pts[k][2]), DSub(x, pts[k][1])), DSub(pts[k + 1][1], pts[k][1])))
TychoBV(x) == DAdd(DMul("0.85", x), Lines(JohnsonBV, x))
TychoV(x, vt) == DAdd(DSub(vt, DMul("0.09", x)), Lines(JohnsonV, x))
InTycho(x) == DLe("-0.2", x) /\ DLe(x, "1.8")
(* thousandths: V - VT, (B-V) - (B-V)T, V - Hp, for BT - VT = -0.25, -0.20, .. 2.00 *)
Bessell == <<
 <<38,31,66>>, <<30,21,51>>, <<22,11,36>>, <<15,5,21>>, <<8,2,6>>, <<1,-5,-11>>, <<-5,-10,-25>>, <<-12,-17,-38>>, <<-18,-20,-48>>, <<-24,-21,-58>>,
 <<-29,-23,-69>>, <<-35,-25,-79>>, <<-40,-25,-87>>, <<-45,-26,-94>>, <<-50,-30,-101>>, <<-54,-35,-108>>, <<-59,-45,-114>>, <<-64,-51,-120>>, <<-68,-60,-127>>, <<-72,-68,-131>>,
 <<-77,-76,-134>>, <<-81,-85,-137>>, <<-85,-94,-142>>, <<-89,-104,-147>>, <<-93,-113,-151>>, <<-98,-122,-155>>, <<-102,-131,-158>>, <<-106,-142,-157>>, <<-110,-154,-160>>, <<-115,-166,-162>>,
 <<-119,-178,-164>>, <<-124,-189,-166>>, <<-128,-199,-166>>, <<-133,-210,-165>>, <<-138,-222,-164>>, <<-143,-234,-161>>, <<-148,-245,-157>>, <<-154,-256,-153>>, <<-160,-266,-148>>, <<-165,-277,-143>>,
 <<-172,-288,-137>>, <<-178,-299,-131>>, <<-185,-309,-125>>, <<-191,-320,-119>>, <<-199,-331,-112>>, <<-206,-342,-106>> >>
InBessell(x) == DLe("-0.25", x) /\ DLe(x, "2")
\* the cubic through the two points before and the two points after (at the ends, the four nearest)
BessellRow(x, first, col) ==
   LET u == DSub(DDiv(DAdd(x, "0.25"), "0.05"), Num(first - 1))
       Node(j) == FoldLeft(LAMBDA p, i : IF i = j THEN p ELSE DMul(p, DDiv(DSub(u, Num(i)), Num(j - i))), "1", <<0, 1, 2, 3>>) IN
   DDot([j \in 1..4 |-> DMul("0.001", Num(Bessell[first + j - 1][col]))], [j \in 1..4 |-> Node(j - 1)])
FirstFor(x) == LET k == DFloor(DDiv(DAdd(x, "0.25"), "0.05"))  n == Len(Bessell) IN IF k < 1 THEN 1 ELSE IF k > n - 3 THEN n - 3 ELSE k
BessellAt(x) == LET f == FirstFor(x) IN <<BessellRow(x, f, 1), DAdd(x, BessellRow(x, f, 2)), BessellRow(x, f, 3)>>
================================================================================
