----------------------------- MODULE PlaceModel -----------------------------
(* Every way of writing a place is read as that place: compass letter before or after, degrees, minutes or seconds, either order, any separator; *)
(* points of a figure and back; the two kinds of observatory lines name the same place.                                                        *)
EXTENDS Place, TLC
VARIABLES la, lo, st
vars == <<la, lo, st>>
Lats == {<<S("44 1 12"), "44.02">>, <<S("0"), "0">>, <<S("90.0"), "90">>, <<S("7 30.6"), "7.51">>, <<S("12 0 3.6"), "12.001">>}
Lons == {<<S("69.9"), "69.9">>, <<S("0 0 0"), "0">>, <<S("359 59 60"), "360">>, <<S("100 6"), "100.1">>}
Sep == {S(" "), S(","), S(", ")}
Init == la \in Lats /\ lo \in Lons /\ st \in [a : BOOLEAN, b : BOOLEAN, swap : BOOLEAN, n : {78, 115}, e : {101, 87}, sep : Sep, h : {S(""), S(" 250m"), S(", alt. 100 ft")}]
Next == UNCHANGED vars
Side(t, c, before) == IF before THEN <<c>> \o t ELSE t \o <<c>>
P1 == Side(la[1], st.n, st.a)
P2 == Side(lo[1], st.e, st.b)
Written == (IF st.swap THEN P2 \o st.sep \o P1 ELSE P1 \o st.sep \o P2) \o st.h
R == LatLon(Written)
WantLat == IF st.n = 115 THEN DNeg(la[2]) ELSE la[2]
WantLon == East(IF st.e = 87 THEN DNeg(lo[2]) ELSE lo[2])
\* 'N44 69.9W': a number standing right after a blank goes on with the angle before it, so such a writing needs its comma or its letters between
Clear == LET secondBefore == IF st.swap THEN st.a ELSE st.b  firstBefore == IF st.swap THEN st.b ELSE st.a IN (secondBefore \/ ~firstBefore \/ st.sep # S(" ")) /\ (~secondBefore \/ st.h # S(" 250m"))
ReadBack == Clear =>
            /\ R.read /\ R.ok
            /\ DNear(R.lat, WantLat, "1e-30") /\ DNear(R.lon, WantLon, "1e-30")
            /\ DNear(R.alt, IF st.h = S("") THEN "100" ELSE IF st.h = S(" 250m") THEN "250" ELSE "30.48", "1e-30")
\* both letters of one kind is no place
OneKind == ~LatLon(Side(la[1], 78, st.a) \o st.sep \o Side(lo[1], 83, st.b)).read
\* the rover line and the comment of a temporary code say the same place
Rover == S("R12 ! ") \o Text2(lo[2]) \o S(" ") \o Text2(la[2]) \o S(" 250.0 ") \o Spaces(30)
Xxx == S("COM Long. ") \o lo[1] \o S(" E, Lat. ") \o la[1] \o S(" N, Alt. 250.0m")
SamePlace == LET a == CodeLine(Rover)  b == XxxLine(Xxx) IN a.r = 3 /\ b.r = 0 /\ DNear(a.lat, b.lat, "1e-30") /\ DNear(a.lon, b.lon, "1e-30") /\ DNear(a.alt, b.alt, "1e-30")
\* on every figure, going out along the vertical by h changes the distance to the foot by h
Figures == st.a => \A p \in 0..14 : \A h \in {"0", "1000"} :
              LET r == Radius(p)  lat == Rad(WantLat)  foot == Parallax(p, lat, "0")  up == Parallax(p, lat, h) IN
              DNear(DMul(r, VNorm(VSub(up, foot))), h, "1e-20") /\ DNear(DAdd(DSq(foot[1]), DSq(DDiv(foot[2], Flatness(p)))), "1", "1e-30")
Spec == Init /\ [][Next]_vars
=============================================================================
