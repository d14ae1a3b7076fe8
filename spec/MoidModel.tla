------------------------------ MODULE MoidModel ------------------------------
(* A search for the closest approach of two orbits that asks, in any order, how close single points come and keeps the best
   with the point it belongs to; what every answer obeys; laws of the table of mean orbits; feet of perpendiculars. *)
EXTENDS Moid, TLC, SequencesExt
VARIABLES pair, asked, best, bestAt
vars == <<pair, asked, best, bestAt>>
Orbits == << [q |-> "1", e |-> "0", i |-> "0", w |-> "0", n |-> "0"],
             [q |-> "0.6", e |-> "0.4", i |-> "0.3", w |-> "2", n |-> "-1"],
             [q |-> "2.2", e |-> "0.1", i |-> "2.9", w |-> "-2", n |-> "4"],
             [q |-> "0.98", e |-> "1.3", i |-> "0", w |-> "1", n |-> "0.2"] >>
Spots == [k \in 1..5 |-> DMul(DDiv(Num(k), "5"), DTwoPi)]
Elliptic(el) == DLt(el.e, "1")
Seen(el, f) == DLt("0.05", DAdd("1", DMul(el.e, DCos(f))))
\* the least distance of one point of the second orbit from a fine ring of the first
Least(p, k) == FoldLeft(LAMBDA m, u : LET d == VNorm(VSub(u, p)) IN IF DLt(d, m) THEN d ELSE m, "1e9", k)
Spot(z, g) == Least(PointAt(Orbits[z[2]], Spots[g]), Ring(Orbits[z[1]], 24))
Init == /\ pair \in {<<a, b>> : a \in {1, 2, 3}, b \in 1..4} /\ asked = {} /\ best = "1e9" /\ bestAt = 0
Ask(g) == /\ g \notin asked /\ Seen(Orbits[pair[2]], Spots[g])
          /\ asked' = asked \union {g} /\ UNCHANGED pair
          /\ LET d == Spot(pair, g) IN IF DLt(d, best) THEN best' = d /\ bestAt' = g ELSE UNCHANGED <<best, bestAt>>
Next == \E g \in DOMAIN Spots : Ask(g)
Spec == Init /\ [][Next]_vars
\* two asked spots are enough to see an order that matters
Bounded == Cardinality(asked) <= 3
TheDataIsTheBestOnes == bestAt # 0 => best = Spot(pair, bestAt) /\ \A g \in asked : DLe(best, Spot(pair, g))
\* no approach is closer than the shells the orbits live in are apart
Far(el) == DDiv(DMul(el.q, DAdd("1", el.e)), DSub("1", el.e))
Shells == bestAt # 0 => LET a == Orbits[pair[1]]  b == Orbits[pair[2]] IN
   /\ DLe(DSub(DSub(b.q, Far(a)), "1e-20"), best) /\ (Elliptic(b) => DLe(DSub(DSub(a.q, Far(b)), "1e-20"), best))
   /\ DLe(best, DAdd(Far(a), Radius(b, Spots[bestAt])))
\* positions and velocities on the orbit are those of motion along it
AlongTheOrbit == asked = {} => \A k \in 1..4 : LET el == Orbits[k]
      o == [q |-> el.q, e |-> el.e, i |-> el.i, w |-> el.w, n |-> el.n, T |-> "0", gm |-> SunGM]  s == StateAt(o, "0") IN
   VNear(s.r, PointAt(el, "0"), "1e-25") /\ VNear(s.v, VelocityAt(el, "0"), "1e-25")
\* periods and rates of mean longitude agree (Kepler's third law; masses of the planets make up to 5e-4 of it)
KeplersThird == asked = {} => \A n \in 1..9 : LET o == MeanOrbit(n, "0")  r == PlanetRates[n][6] IN
   DNear(DDiv(DMul(Rad(r), o.perDay), "36525"), "1", "1.2e-3")
Nested == asked = {} => \A n \in 1..7 : LET o == MeanOrbit(n, "0")  p == MeanOrbit(n + 1, "0") IN
   DLt(DMul(o.a, DAdd("1", o.e)), DMul(p.a, DSub("1", p.e)))
PlutoCrosses == asked = {} => LET o == MeanOrbit(8, "0")  p == MeanOrbit(9, "0") IN DLt(DMul(p.a, DSub("1", p.e)), DMul(o.a, DSub("1", o.e)))
PerihelionOfEarth == asked = {} => DNear(MeanOrbit(3, "0").T, "2451547.5", "3")
\* a point put outward of a spot of an ellipse has it as its foot
Feet == asked = {} => \A k \in DOMAIN Spots, b \in {"1", "0.8", "0.1"}, d \in {"0", "0.3", "20"} :
   LET c == <<DCos(Spots[k]), DMul(b, DSin(Spots[k]))>>  lat == DAtan2(DDiv(c[2], DSq(b)), c[1])
       p == <<DAdd(c[1], DMul(d, DCos(lat))), DAdd(c[2], DMul(d, DSin(lat)))>> IN
   /\ VNear(Foot(p, lat, d), c, "1e-25") /\ OnEllipse("1", b, Foot(p, lat, d), "1e-25") /\ Upright("1", b, c, lat, "1e-25")
   /\ NearestOn("1", b, p, d, 24, "1e-25") /\ (d # "0" => ~Inside("1", b, p))
==============================================================================
