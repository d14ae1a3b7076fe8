--------------------------------- MODULE Moid ---------------------------------
(***************************************************************************)
(* How close two orbits come; how close a point is to an ellipse; the mean *)
(* orbits of planets and large asteroids.  An orbit el: [q, e, i, w, n]    *)
(* and T, gm where a time matters (module Orbit).                          *)
(***************************************************************************)
EXTENDS Orbit, FiniteSets
SunGM == DSq("0.01720209895")
Axes(el) == LET p == Perih(el) IN [p |-> p, a |-> VCross(Pole(el), p)]
Radius(el, f) == DDiv(DMul(el.q, DAdd("1", el.e)), DAdd("1", DMul(el.e, DCos(f))))
PointOf(el, ax, f) == LET r == Radius(el, f) IN VAdd(VScale(DMul(r, DCos(f)), ax.p), VScale(DMul(r, DSin(f)), ax.a))
PointAt(el, f) == PointOf(el, Axes(el), f)
VelocityAt(el, f) == LET ax == Axes(el)  k == DSqrt(DDiv(SunGM, DMul(el.q, DAdd("1", el.e)))) IN
                     VAdd(VScale(DNeg(DMul(k, DSin(f))), ax.p), VScale(DMul(k, DAdd(el.e, DCos(f))), ax.a))
Apart(el1, f, el2, g) == VNorm(VSub(PointAt(el1, f), PointAt(el2, g)))
\* all around an ellipse, n points
Ring(el, n) == LET ax == Axes(el) IN [k \in 1..n |-> PointOf(el, ax, DMul(DDiv(Num(k), Num(n)), DTwoPi))]
Dist2(u, v) == LET d == VSub(u, v) IN DDot(d, d)
NoneCloser(el1, el2, n, limit) ==                          \* no two points of two rings closer than limit
   LET a == Ring(el1, n)  b == Ring(el2, n)  l2 == DSq(limit) IN DLe(limit, "0") \/ \A j \in 1..n : \A k \in 1..n : DLe(l2, Dist2(a[j], b[k]))
(* an ellipse of half axes a along x and b along y: a foot of the perpendicular from p, at the angle lat of the perpendicular, dist outward *)
Foot(p, lat, dist) == <<DSub(p[1], DMul(dist, DCos(lat))), DSub(p[2], DMul(dist, DSin(lat)))>>
OnEllipse(a, b, p, tol) == DNear(DSqrt(DAdd(DSq(DDiv(p[1], a)), DSq(DDiv(p[2], b)))), "1", tol)
\* the outward perpendicular at a point of the ellipse is at the angle lat
Upright(a, b, p, lat, tol) == LET gx == DDiv(p[1], DSq(a))  gy == DDiv(p[2], DSq(b))  n == DSqrt(DAdd(DSq(gx), DSq(gy))) IN
                              DNear(DDiv(gx, n), DCos(lat), tol) /\ DNear(DDiv(gy, n), DSin(lat), tol)
NearestOn(a, b, p, dist, n, tol) == \A k \in 1..n : LET z == DMul(DDiv(Num(k), Num(n)), DTwoPi) IN
   DLe(DSub(DAbs(dist), tol), VNorm(<<DSub(p[1], DMul(a, DCos(z))), DSub(p[2], DMul(b, DSin(z)))>>))
Inside(a, b, p) == DLt(DAdd(DSq(DDiv(p[1], a)), DSq(DDiv(p[2], b))), "1")
(* mean orbits: semimajor axis, eccentricity, inclination, longitude of perihelion, node at 2000 (degrees), mean longitude; and their rates
   a century (Keplerian elements for 1800 to 2050, JPL); asteroids' have arguments, not longitudes, of perihelion *)
PlanetOrbits == <<
 <<"0.38709927", "0.20563593", "7.00497902", "48.33076593", "77.45779628", "252.25032350">>,
 <<"0.72333566", "0.00677672", "3.39467605", "76.67984255", "131.60246718", "181.97909950">>,
 <<"1.00000261", "0.01671123", "-0.00001531", "0.0", "102.93768193", "100.46457166">>,
 <<"1.52371034", "0.09339410", "1.84969142", "49.55953891", "-23.94362959", "-4.55343205">>,
 <<"5.20288700", "0.04838624", "1.30439695", "100.47390909", "14.72847983", "34.39644051">>,
 <<"9.53667594", "0.05386179", "2.48599187", "113.66242448", "92.59887831", "49.95424423">>,
 <<"19.18916464", "0.04725744", "0.77263783", "74.01692503", "170.95427630", "313.23810451">>,
 <<"30.06992276", "0.00859048", "1.77004347", "131.78422574", "44.96476227", "-55.12002969">>,
 <<"39.48211675", "0.24882730", "17.14001206", "110.30393684", "224.06891629", "238.92903833">>>>
PlanetRates == <<
 <<"0.00000037", "0.00001906", "-0.00594749", "-0.12534081", "0.16047689", "149472.67411175">>,
 <<"0.00000390", "-0.00004107", "-0.00078890", "-0.27769418", "0.00268329", "58517.81538729">>,
 <<"0.00000562", "-0.00004392", "-0.01294668", "0.0", "0.32327364", "35999.37244981">>,
 <<"0.00001847", "0.00007882", "-0.00813131", "-0.29257343", "0.44441088", "19140.30268499">>,
 <<"-0.00011607", "-0.00013253", "-0.00183714", "0.20469106", "0.21252668", "3034.74612775">>,
 <<"-0.00125060", "-0.00050991", "0.00193609", "-0.28867794", "-0.41897216", "1222.49362201">>,
 <<"-0.00196176", "-0.00004397", "-0.00242939", "0.04240589", "0.40805281", "428.48202785">>,
 <<"0.00026291", "0.00005105", "0.00035372", "-0.00508664", "-0.32241464", "218.45945325">>,
 <<"-0.00031596", "0.00005170", "0.00004818", "-0.01183482", "-0.04062942", "145.20780515">>>>
AsteroidOrbits == <<
 <<"2.7664603", "0.0783638", "10.583360", "80.494464", "73.921341">>,
 <<"2.7723257", "0.2296435", "34.846130", "173.197757", "310.264059">>,
 <<"2.3615363", "0.0900245", "7.133918", "103.951631", "149.589094">>,
 <<"2.5543838", "0.0722511", "6.102741", "356.567840", "62.015715">>,
 <<"2.9204983", "0.1382234", "3.093382", "150.465894", "229.122381">>,
 <<"2.6437135", "0.1862108", "11.747399", "293.516504", "96.956836">>>>
NPlanets == 9
MeanOrbit(n, t) ==                                         \* T: a time of perihelion, modulo the period; asteroids' are left open
   IF n <= NPlanets
   THEN LET o == [k \in 1..6 |-> DAdd(PlanetOrbits[n][k], DMul(PlanetRates[n][k], t))]
            p == DSqrt(DDiv(DMul(o[1], DSq(o[1])), SunGM)) IN
        [a |-> o[1], e |-> o[2], i |-> Rad(o[3]), n |-> Rad(o[4]), w |-> Rad(DSub(o[5], o[4])), perDay |-> p,
         T |-> DSub(DAdd("2451545", DMul("36525", t)), DMul(p, Rad(DSub(o[6], o[5]))))]
   ELSE LET o == AsteroidOrbits[n - NPlanets] IN
        [a |-> o[1], e |-> o[2], i |-> Rad(o[3]), n |-> Rad(o[4]), w |-> Rad(o[5]), perDay |-> DSqrt(DDiv(DMul(o[1], DSq(o[1])), SunGM))]
===============================================================================
