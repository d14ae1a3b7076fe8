--------------------------------- MODULE Sky ---------------------------------
(***************************************************************************)
(* The sphere of the sky: frames, precession, nutation, sidereal time,     *)
(* horizon coordinates, separations.  Matrices are three rows of three.    *)
(***************************************************************************)
EXTENDS Nutation
I3 == <<<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>>>
(* turns of the axes by the angle a *)
R1(a) == LET c == DCos(a)  s == DSin(a) IN <<<<"1", "0", "0">>, <<"0", c, s>>, <<"0", DNeg(s), c>>>>
R2(a) == LET c == DCos(a)  s == DSin(a) IN <<<<c, "0", DNeg(s)>>, <<"0", "1", "0">>, <<s, "0", c>>>>
R3(a) == LET c == DCos(a)  s == DSin(a) IN <<<<c, s, "0">>, <<DNeg(s), c, "0">>, <<"0", "0", "1">>>>
Tr(m) == <<<<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>>>>
Row(r, tb) == <<DDot(r, tb[1]), DDot(r, tb[2]), DDot(r, tb[3])>>
MMul(a, b) == LET tb == Tr(b) IN <<Row(a[1], tb), Row(a[2], tb), Row(a[3], tb)>>
MVec(m, v) == <<DDot(m[1], v), DDot(m[2], v), DDot(m[3], v)>>
MNear(a, b, tol) == \A k \in 1..3 : VNear(a[k], b[k], tol)
Unit(lon, lat) == LET c == DCos(lat) IN <<DMul(DCos(lon), c), DMul(DSin(lon), c), DSin(lat)>>
Sec(x) == Rad(DDiv(x, "3600"))
(* ---- obliquity and precession; t in centuries since 2000 ---- *)
ObliqCoeffs == <<"84381.448", "-4680.93", "-1.55", "1999.25", "-51.38", "-249.67", "-39.05", "7.12", "27.87", "5.79", "2.45">>
Obliquity(t) == IF DLt("100", t) THEN Rad("22.611485556") ELSE IF DLt(t, "-100") THEN Rad("24.232841111") ELSE Sec(DPoly(ObliqCoeffs, DDiv(t, "100")))
Cen(year) == DDiv(DSub(year, "2000"), "100")
EclFrom2000(t) ==
   LET eta == Sec(DPoly(<<"0", "47.0029", "-0.03302", "6e-5">>, t))
       p == Sec(DPoly(<<"0", "5029.0966", "1.11113", "-6e-5">>, t))
       node == DAdd(Rad("174.876384"), Sec(DPoly(<<"0", "-869.8089", "0.03536">>, t))) IN
   MMul(R3(DNeg(DAdd(node, p))), MMul(R1(eta), R3(node)))
EclPrecession(y1, y2) == MMul(EclFrom2000(Cen(y2)), Tr(EclFrom2000(Cen(y1))))
Precession(y1, y2) == MMul(R1(DNeg(Obliquity(Cen(y2)))), MMul(EclPrecession(y1, y2), R1(Obliquity(Cen(y1)))))
EquFrom2000(t) ==
   LET zeta == Sec(DPoly(<<"0", "2306.2181", "0.30188", "0.017998">>, t))
       z == Sec(DPoly(<<"0", "2306.2181", "1.09468", "0.018203">>, t))
       theta == Sec(DPoly(<<"0", "2004.3109", "-0.42665", "-0.041833">>, t)) IN
   MMul(R3(DNeg(z)), MMul(R2(theta), R3(DNeg(zeta))))
(* to the true equator, the equinox put back; dl, de: measured corrections (radians) *)
WithNutationOf(n, t, dl, de) ==
   LET eps == Obliquity(t)  l == DAdd(Sec(n[1]), dl)  o == DAdd(Sec(n[2]), de) IN
   MMul(R3(DMul(l, DCos(eps))), MMul(R1(DNeg(DAdd(eps, o))), MMul(R3(DNeg(l)), MMul(R1(eps), EquFrom2000(t)))))
WithNutation(t, dl, de) == WithNutationOf(NutationAt(t), t, dl, de)
(* Greenwich mean sidereal time, radians *)
Sidereal(jd) ==
   LET d == DSub(jd, "2451545")  t == DDiv(d, "36525")  whole == DInt(d) IN
   Rad(DAdd(DAdd("280.46061837", DAdd(DMul("360.98564736629", DSub(d, whole)), DMul("0.98564736629", whole))), DMul(DSq(t), DSub("3.87933e-4", DDiv(t, "38710000")))))
(* the body of the Earth: p = [dX, dY, dPsi, dEps, dut] *)
EarthBody(nut, year, p) ==
   LET jd == DAdd("2451545", DMul(DSub(year, "2000"), "365.25")) IN
   MMul(R1(DNeg(p.dY)), MMul(R2(DNeg(p.dX)), MMul(R3(Sidereal(DSub(jd, DDiv(p.dut, "86400")))), WithNutationOf(nut, Cen(year), p.dPsi, p.dEps))))
(* ---- fixed frames ---- *)
Eps2000 == Rad(DDiv("84381.448", "3600"))
Galactic == <<<<"-.0548755604", "-.8734370902", "-.4838350155">>, <<".4941094279", "-.4448296300", ".7469822445">>, <<"-.8676661490", "-.1980763734", ".4559837762">>>>
Supergalactic == <<<<"0.37501548", "0.34135896", "0.86188018">>, <<"-0.89832046", "-0.09572714", "0.42878511">>, <<"0.22887497", "-0.93504565", "0.27075058">>>>
(* ---- horizon: ha = RA - sidereal time, azimuth from the south through west, or (rev) from the north through east ---- *)
Horizon(ha, dec, lat) ==
   LET cd == DCos(dec)  sd == DSin(dec)  cl == DCos(lat)  sl == DSin(lat)  ch == DCos(ha) IN
   <<DSub(DMul(DMul(ch, cd), sl), DMul(sd, cl)), DNeg(DMul(DSin(ha), cd)), DAdd(DMul(sl, sd), DMul(DMul(cl, cd), ch))>>
FromHorizon(alt, az, lat) ==
   LET ca == DCos(alt)  sa == DSin(alt)  cl == DCos(lat)  sl == DSin(lat)  cz == DCos(az) IN
   <<DSub(DMul(sa, cl), DMul(DMul(ca, cz), sl)), DMul(ca, DSin(az)), DAdd(DMul(sl, sa), DMul(DMul(cl, ca), cz))>>
EqEquinoxes(nut) == DMul(DCos(Eps2000), Sec(nut[1]))
(* ---- separations: [z, x, y] with z the cosine, x and y the sine times sine and cosine of the angle at p1 ---- *)
Offset(p1, p2) ==
   LET d == DSub(p2[1], p1[1])  c1 == DCos(p1[2])  s1 == DSin(p1[2])  c2 == DCos(p2[2])  s2 == DSin(p2[2])  cd == DCos(d) IN
   [x |-> DMul(DSin(d), c2), y |-> DSub(DMul(s2, c1), DMul(DMul(s1, c2), cd)), z |-> DAdd(DMul(DMul(cd, c1), c2), DMul(s1, s2))]
Separation(p1, p2) == LET o == Offset(p1, p2) IN DAtan2(DSqrt(DAdd(DSq(o.x), DSq(o.y))), o.z)
\* angles grow from north towards decreasing longitude
PosnAngle(p1, p2) == LET o == Offset(p1, p2) IN DAtan2(DNeg(o.x), o.y)
Reach(from, dist, pa) ==
   LET sd == DSin(dist)  cd == DCos(dist)  sl == DSin(from[2])  cl == DCos(from[2])
       x == DSub(DMul(cl, cd), DMul(sl, DMul(sd, DCos(pa))))
       y == DNeg(DMul(sd, DSin(pa)))
       z == DAdd(DMul(sl, cd), DMul(cl, DMul(sd, DCos(pa)))) IN
   MVec(R3(DNeg(from[1])), <<x, y, z>>)
=============================================================================
