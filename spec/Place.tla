-------------------------------- MODULE Place --------------------------------
(***************************************************************************)
(* Places: observatory code lines, latitudes and longitudes in text, and   *)
(* the figure of the Earth and planets between (latitude, altitude) and    *)
(* parallax constants.  Texts are sequences of character codes; a number   *)
(* read from text is a string of Dec.                                      *)
(***************************************************************************)
EXTENDS Text, Dec
NoNum == [ok |-> FALSE, v |-> "0", n |-> 0, int |-> FALSE]
(* a plain decimal at k, after blanks: an optional sign, digits, a point and digits; n: where it ends *)
Decimal(s, k) ==
   LET a == SkipFrom(s, k, SP)
       neg == At(s, a) = 45
       b == IF At(s, a) \in {43, 45} THEN a + 1 ELSE a
       c == DigitsFrom(s, b)
       point == At(s, c) = 46
       d == IF point THEN DigitsFrom(s, c + 1) ELSE c
       whole == Str(SubSeq(s, b + 1, c))  frac == IF point THEN Str(SubSeq(s, c + 2, d)) ELSE ""
       v == (IF whole = "" THEN "0" ELSE whole) \o (IF frac = "" THEN "" ELSE "." \o frac) IN
   [ok |-> whole # "" \/ frac # "", v |-> IF neg THEN DNeg(v) ELSE Num(v), n |-> d, int |-> ~point, lone |-> whole = "" /\ frac = "" /\ point]
(* what a reader of numbers that cannot fail makes of it *)
Value(s, k) == Decimal(s, k).v
(* ---- angles: up to three numbers, all but the last whole ---- *)
AngleNum(s, k) == LET a == SkipFrom(s, k, SP) IN IF IsDigit(At(s, a)) THEN Decimal(s, k) ELSE NoNum
Angle(s, k) ==
   LET n1 == AngleNum(s, k)
       n2 == IF n1.ok /\ n1.int THEN AngleNum(s, n1.n) ELSE NoNum
       n3 == IF n2.ok /\ n2.int THEN AngleNum(s, n2.n) ELSE NoNum
       bad == DLt("60", n2.v) \/ DLt("60", n3.v)
       last == IF n3.ok THEN n3.n ELSE IF n2.ok THEN n2.n ELSE n1.n IN
   IF ~n1.ok \/ bad THEN [n |-> 0, v |-> "0", next |-> k]
   ELSE [n |-> IF n3.ok THEN 3 ELSE IF n2.ok THEN 2 ELSE 1,
         v |-> DAdd(n1.v, DAdd(DDiv(n2.v, "60"), DDiv(n3.v, "3600"))),
         next |-> SkipFrom(s, last, SP)]
Compass == [c \in {110, 78, 115, 83, 101, 69, 119, 87} |-> IF c \in {110, 78} THEN <<"lat", "1">> ELSE IF c \in {115, 83} THEN <<"lat", "-1">> ELSE IF c \in {101, 69} THEN <<"lon", "1">> ELSE <<"lon", "-1">>]
Lower(s) == Tup([k \in 1..Len(s) |-> ToLower(s[k])])
(* one piece of a place at k: a latitude, a longitude, an altitude in metres, or none of these *)
Piece(s, k) ==
   LET a == SkipFrom(s, k, SP)
       pre == At(s, a) \in DOMAIN Compass
       b == IF pre THEN a + 1 ELSE a
       alt == Lower(SubSeq(s, b + 1, IF b + 3 > Len(s) THEN Len(s) ELSE b + 3)) = S("alt")
       c == IF alt THEN (IF At(s, b + 3) = 46 THEN b + 4 ELSE b + 3) ELSE b
       g == Angle(s, c)
       u == At(s, g.next)
       high == ~pre /\ g.n = 1
       metres == high /\ u = 109  feet == high /\ u = 102 /\ At(s, g.next + 1) = 116
       post == ~pre /\ u \in DOMAIN Compass
       way == IF pre THEN Compass[At(s, a)] ELSE IF post THEN Compass[u] ELSE <<"none", "0">>
       e == IF metres THEN g.next + 1 ELSE IF feet THEN g.next + 2 ELSE IF post THEN g.next + 1 ELSE g.next
       kind == IF g.n = 0 THEN "none" ELSE IF metres \/ feet THEN "alt" ELSE way[1] IN
   [kind |-> kind, v |-> IF kind = "alt" THEN (IF feet THEN DMul(g.v, "0.3048") ELSE g.v) ELSE IF kind = "none" THEN "0" ELSE DMul(way[2], g.v),
    next |-> IF At(s, e) = 44 THEN e + 1 ELSE e]
East(v) == IF DLt(v, "0") THEN DAdd(v, "360") ELSE v
(* a latitude and a longitude in either order, perhaps an altitude; degrees and metres *)
LatLon(s) ==
   LET p == Piece(s, 0)  q == IF p.kind \in {"lat", "lon"} THEN Piece(s, p.next) ELSE p
       both == {p.kind, q.kind} = {"lat", "lon"}
       lat == IF p.kind = "lat" THEN p.v ELSE q.v
       lon == East(IF p.kind = "lon" THEN p.v ELSE q.v)
       h == Piece(s, q.next) IN
   IF ~both THEN [ok |-> FALSE, read |-> FALSE]
   ELSE [read |-> TRUE, ok |-> DLe(DAbs(lat), "90") /\ DLe("0", lon) /\ DLe(lon, "360"), lat |-> lat, lon |-> lon, alt |-> IF h.kind = "alt" THEN h.v ELSE "100"]
Text2(t) == S(t)
RECURSIVE Find(_, _, _)
Find(s, t, k) == IF k + Len(t) > Len(s) THEN -1 ELSE IF SubSeq(s, k + 1, k + Len(t)) = t THEN k ELSE Find(s, t, k + 1)
(* the comment line of a temporary code *)
XxxLine(s) ==
   IF ~StartsWith(s, S("COM Long.")) THEN [r |-> -1]
   ELSE LET la == Find(s, S("Lat."), 0)  al == Find(s, S("Alt."), 0) IN
        IF la < 0 \/ al < 0 THEN [r |-> -2]
        ELSE LET p == Piece(s, 9)  q == Piece(s, la + 4) IN
             IF p.kind # "lon" \/ q.kind # "lat" THEN [r |-> -2]
             ELSE [r |-> 0, lat |-> q.v, lon |-> East(p.v), alt |-> Decimal(s, al + 4).v,
                   odd |-> At(s, Decimal(s, al + 4).n) \in {69, 101, 88, 120}]                 \* an exponent, perhaps: left open
(* ---- figures ---- *)
Radii == <<"695700000", "2440530", "6051800", "6378137", "3396190", "71492000", "60268000", "25559000", "24764000", "1188300", "1737400", "1821490", "1560800", "2631200", "2410300">>
Polar == <<"695700000", "2438260", "6051800", "6356752.314140347", "3376200", "66854000", "54364000", "24973000", "24341000">>
Radius(p) == IF p \in 0..14 THEN Radii[p + 1] ELSE "0"
Flatness(p) == IF p \in 0..8 THEN DDiv(Polar[p + 1], Radii[p + 1]) ELSE "1"
EarthRatio == Flatness(3)
(* the point at geodetic latitude lat (radians), height h above the ellipse with half axes a, b: <<x, y>> *)
OnFigure(a, b, lat, h) ==
   LET c == DCos(lat)  s == DSin(lat)  n == DSqrt(DAdd(DSq(DMul(a, c)), DSq(DMul(b, s)))) IN
   <<DAdd(DDiv(DMul(DSq(a), c), n), DMul(h, c)), DAdd(DDiv(DMul(DSq(b), s), n), DMul(h, s))>>
Parallax(p, lat, alt) == LET r == Radius(p) IN OnFigure("1", Flatness(p), lat, DDiv(alt, r))
(* ---- lines of the list of observatories ---- *)
Field(s, k, n) == Decimal(SubSeq(s, k + 1, k + n), 0).v
RECURSIVE Word(_, _)
Word(s, k) == IF At(s, k) > 32 /\ At(s, k) <= 126 /\ At(s, k) # 33 THEN Word(s, k + 1) ELSE k
Base60(v) == LET neg == DLt(v, "0")  m == DAbs(v)  w == DInt(m)  hi == DInt(DDiv(w, "10000"))  mid == DMod(DInt(DDiv(w, "100")), "100")  lo == DMod(w, "100")
                 r == DAdd(hi, DAdd(DDiv(mid, "60"), DDiv(DAdd(lo, DSub(m, w)), "3600"))) IN IF neg THEN DNeg(r) ELSE r
RECURSIVE CountDigits(_, _, _)
CountDigits(s, k, max) == IF max > 0 /\ IsDigit(At(s, k)) THEN 1 + CountDigits(s, k + 1, max - 1) ELSE 0
CodeLine(s) ==
   LET w == Word(s, 0)
       fits == w \in 3..4 /\ Len(s) >= 30
       code == LET t == Take(s, 4) IN IF At(s, 3) = SP THEN Take(t, 3) ELSE t
       n1 == Decimal(s, 5)  n2 == Decimal(s, n1.n)  n3 == Decimal(s, n2.n)
       sixty == DLt("361", DAbs(n1.v)) \/ DLt("91", DAbs(n2.v))
       at == Find(s, <<64>>, 4)
       body == IF at >= 0 THEN Atoi(s, at + 1) ELSE 3
       far == body > 9000
       bad == [code |-> code, r |-> -1, planet |-> 3, format |-> 0] IN
   IF ~fits THEN bad
   ELSE IF At(s, 4) = 33
   THEN IF ~n1.ok \/ ~n2.ok \/ ~n3.ok THEN bad
        ELSE LET lat == IF far THEN "0" ELSE IF sixty THEN Base60(n2.v) ELSE n2.v
                 lon == IF far THEN "0" ELSE IF sixty THEN Base60(n1.v) ELSE n1.v IN
             [code |-> code, r |-> body, planet |-> body, format |-> 2, name |-> IF Len(s) < 47 THEN Len(s) ELSE 47,
              lat |-> lat, lon |-> East(lon), alt |-> IF far THEN "0" ELSE n3.v, placed |-> ~(DNear(lat, "0", "0") /\ DNear(lon, "0", "0"))]
   ELSE IF At(s, 7) = 46 /\ At(s, 21) \in {32, 43, 45} /\ At(s, 14) = 46 /\ At(s, 23) = 46 /\ At(s, 3) = SP
   THEN [code |-> code, r |-> 3, planet |-> 3, format |-> 1, name |-> 30, lon |-> East(Field(s, 4, 9)), c |-> Field(s, 13, 8), s |-> Field(s, 21, 9),
         p1 |-> CountDigits(s, 8, 5), p2 |-> CountDigits(s, 15, 6)]
   ELSE IF SkipFrom(s, w, SP) = 30 THEN [code |-> code, r |-> -2, planet |-> -2, format |-> 3, name |-> 30]
   ELSE bad
(* ---- named regions: boxes of longitude and latitude, the first that holds the point inside ---- *)
Turn180(d) == DSub(DMod(DAdd(d, "180"), "360"), "180")
InBox(l, lat, lon) ==
   LET d1 == Turn180(DSub(Value(l, 0), lon))  w == Turn180(DSub(Value(l, 20), Value(l, 0)))  d2 == DAdd(d1, w)
       e1 == DSub(Value(l, 10), lat)  e2 == DSub(Value(l, 30), lat) IN
   DLt(DMul(d1, d2), "0") /\ DLt(DMul(e1, e2), "0")
RECURSIVE Region(_, _, _, _)
Region(ls, k, lat, lon) == IF k > Len(ls) THEN <<>> ELSE IF At(ls[k], 0) # 35 /\ InBox(ls[k], lat, lon) THEN Drop(ls[k], 40) ELSE Region(ls, k + 1, lat, lon)
=============================================================================
