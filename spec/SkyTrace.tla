------------------------------ MODULE SkyTrace ------------------------------
EXTENDS Sky, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Near12(u, v, size) == VNear(u, v, DMul("1e-12", size))
(* longitude and latitude of a direction that need not be quite of length one *)
Lands(o, v, tol) == LET h == DSqrt(DAdd(DSq(v[1]), DSq(v[2])))  z == DMax("-1", DMin("1", v[3])) IN
                    /\ DNear(DSin(o[2]), z, tol) /\ DLe(DAbs(o[2]), "1.5707963267948967")
                    /\ DLt("1e-6", h) => DNearAngle(o[1], DAtan2(v[2], v[1]), DDiv(tol, h))
PointTo(e) == CASE e.k = "mat" -> IF e.back = 1 THEN Tr(e.m) ELSE e.m
                [] e.k = "pre" -> Precession(e.a, e.b)
                [] e.k = "gal" -> IF e.back = 1 THEN Tr(Galactic) ELSE Galactic
                [] e.k = "sup" -> IF e.back = 1 THEN Tr(Supergalactic) ELSE Supergalactic
\* dates within 1e-5 year of each other may be taken as the same
PreTol(a, b) == IF DLt(DAbs(DSub(a, b)), "1.0001e-5") THEN "3e-9" ELSE "1e-12"
NutOk(e, n) == DNear(e.l, n[1], "1e-7") /\ DNear(e.o, n[2], "1e-7")
JdCen(jd) == DDiv(DSub(jd, "2451545"), "36525")
Variants == {NutTerms, NutTermsFound}
Ok(e) ==
   CASE e.op = "ecl" -> e.in = 1 /\ MNear(e.m, EclPrecession(e.a, e.b), PreTol(e.a, e.b))
     [] e.op = "pre" -> e.in = 1 /\ MNear(e.m, Precession(e.a, e.b), PreTol(e.a, e.b))
     [] e.op = "nut" -> e.in = 1 /\ \E v \in Variants : MNear(e.m, WithNutationOf(NutationBy(v, Cen(e.b)), Cen(e.b), e.l, e.o), "1e-12")
     [] e.op = "body" -> e.in = 1 /\ \E v \in Variants : MNear(e.m, EarthBody(NutationBy(v, Cen(e.b)), e.b, e.p), "1e-8")
     [] e.op = "obl" -> 
                        /\ DNear(e.e, Obliquity(e.t), "1e-14") /\ e.same = 1 /\ \E v \in Variants : NutOk(e, NutationBy(v, e.t))
                        /\ DNearAngle(e.st, Sidereal(e.jd), "1e-9")
     [] e.op = "vec" -> LET n == VNorm(e.v) IN
                        /\ Near12(e.ecl, MVec(R1(Eps2000), e.v), n) /\ Near12(e.equ, MVec(R1(DNeg(Eps2000)), e.v), n)
                        /\ Near12(e.r1, MVec(R1(DNeg(e.a)), e.v), n) /\ Near12(e.r2, MVec(R2(DNeg(e.a)), e.v), n) /\ Near12(e.r3, MVec(R3(DNeg(e.a)), e.v), n)
                        /\ Near12(e.pol, Unit(e.a, e.b), "1") /\ Near12(e.x, VCross(e.v, e.w), n) /\ DNear(e.dot, DDot(e.v, e.w), DMul("1e-12", n))
                        /\ DNear(e.len, n, DMul("1e-14", n)) /\ DNear(e.len2, n, DMul("1e-14", n))
                        /\ IF DLt("0", n) THEN Near12(e.n, VScale(DDiv("1", n), e.v), "1") ELSE VNear(e.n, e.v, "0")
                        /\ Near12(e.p, MVec(e.m, e.v), n) /\ Near12(e.d, MVec(Tr(e.m), e.v), n)
                        /\ MNear(e.inv, Tr(e.m), "0") /\ MNear(e.id, I3, "0")
     [] e.op = "pt" -> /\ Lands(e.o, MVec(PointTo(e), Unit(e.i[1], e.i[2])), IF e.k = "pre" THEN PreTol(e.a, e.b) ELSE "1e-13")
                       /\ DLe(DAbs(DSub(e.o[1], e.i[1])), DAdd(DPi, "1e-9"))
     [] e.op = "hor" -> LET y == DAdd("2000", DDiv(DSub(e.jd, "2451545"), "365.25"))
 IN
                        /\ IF e.k = 2 THEN VNear(e.rd, e.ep, "0") ELSE Lands(e.ep, MVec(Precession("2000", y), Unit(e.rd[1], e.rd[2])), PreTol("2000", y))
                        /\ \E v \in Variants : LET ha == DSub(DSub(e.ep[1], DAdd(Sidereal(e.jd), e.ll[1])), EqEquinoxes(NutationBy(v, JdCen(e.jd)))) IN
                              /\ e.ha = "7.25" \/ (DNearAngle(e.ha, ha, "1e-9") /\ DLe(DAbs(e.ha), DAdd(DPi, "1e-9")))
                              /\ VNear(Unit(e.aa[1], e.aa[2]), Horizon(ha, e.ep[2], e.ll[2]), "1e-9")
                        /\ DLe(DAbs(e.aa[2]), "1.5707963267948967") /\ DLe(DAbs(e.aa[1]), DAdd(DPi, "1e-9"))
     [] e.op = "roh" -> LET y == DAdd("2000", DDiv(DSub(e.jd, "2451545"), "365.25"))
                            v == FromHorizon(e.aa[2], e.aa[1], e.ll[2]) IN
                        \E nv \in Variants : LET turn == DAdd(DAdd(Sidereal(e.jd), e.ll[1]), EqEquinoxes(NutationBy(nv, JdCen(e.jd)))) IN
                        Lands(e.rd, MVec(Precession(y, "2000"), MVec(R3(DNeg(turn)), v)), "5e-9")
     [] e.op = "sep" -> LET d == Separation(e.a, e.b)  s == DSin(d) IN
                        /\ e.same = 1 /\ DNear(e.d, d, "3e-15") /\ DLe("0", e.p) /\ DLe(e.p, "6.2831853071795865")
                        /\ (e.a = e.b => e.r = -1 /\ DNear(e.d, "0", "0") /\ DNear(e.p, "0", "0"))
                        /\ (e.r = -1 => DLt(s, "1e-15")) /\ e.r \in {0, -1}
                        /\ (DLt("1e-14", s) => e.r = 0 /\ DNearAngle(e.p, PosnAngle(e.a, e.b), DDiv("3e-15", s)))
     [] e.op = "go" -> VNear(Unit(e.to[1], e.to[2]), Reach(e.a, e.d, e.p), "1e-14")
     [] OTHER -> FALSE
What(e) == CASE e.op = "ecl" -> EclPrecession(e.a, e.b) [] e.op = "pre" -> Precession(e.a, e.b) [] e.op = "obl" -> <<Obliquity(e.t), NutationAt(e.t), Sidereal(e.jd)>>
             [] e.op = "sep" -> <<Separation(e.a, e.b), PosnAngle(e.a, e.b)>> [] e.op = "pt" -> MVec(PointTo(e), Unit(e.i[1], e.i[2])) [] OTHER -> ""
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN 
           IF Ok(e) THEN (IF e.op = "obl" /\ ~NutOk(e, NutationAt(e.t)) THEN PrintT(<<"REJECT", i, "KNOWN nutation-rates">>) ELSE TRUE) ELSE PrintT(<<"REJECT", i, What(e)>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
