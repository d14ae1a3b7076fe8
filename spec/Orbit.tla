-------------------------------- MODULE Orbit --------------------------------
(***************************************************************************)
(* Two-body motion.  el: [T, q, e, i, w, n, gm]: time of perihelion,       *)
(* perihelion distance, eccentricity, inclination, argument of perihelion, *)
(* ascending node (radians), and the mass orbited.                         *)
(***************************************************************************)
EXTENDS Dec
DCbrt(x) == IF DLe(x, "0") THEN "0" ELSE DExp(DDiv(DLog(x), "3"))
DSinh(x) == DDiv(DSub(DExp(x), DExp(DNeg(x))), "2")
DCosh(x) == DDiv(DAdd(DExp(x), DExp(DNeg(x))), "2")
DAsinh(x) == DLog(DAdd(x, DSqrt(DAdd("1", DSq(x)))))
(* Kepler's equation: M = E - e sin E or e sinh E - E, for M >= 0, from above the root, where Newton's steps go straight to it *)
RECURSIVE Newton(_, _, _, _)
Newton(e, m, x, left) ==
   LET hyp == DLt("1", e)
       f == IF hyp THEN DSub(DSub(DMul(e, DSinh(x)), x), m) ELSE DSub(DSub(x, DMul(e, DSin(x))), m)
       d == IF hyp THEN DSub(DMul(e, DCosh(x)), "1") ELSE DSub("1", DMul(e, DCos(x)))
       s == DDiv(f, d) IN
   IF left = 0 \/ DLe(DAbs(s), DMul("1e-25", DAbs(x))) THEN DSub(x, s) ELSE Newton(e, m, DSub(x, s), left - 1)
Above(e, m) == IF DLt("1", e) THEN DMin(DCbrt(DDiv(DMul("6", m), e)), DMax("2.2", DAsinh(DDiv(DMul("2", m), e))))
               ELSE IF DLt(e, "0.01") THEN DAdd(m, e) ELSE DMin(DMin(DPi, DAdd(m, e)), DCbrt(DDiv(DMul("12", m), e)))
Anomaly(e, m) == IF DLe(DAbs(m), "0") THEN "0" ELSE IF DLt(m, "0") THEN DNeg(Newton(e, DNeg(m), Above(e, DNeg(m)), 80)) ELSE Newton(e, m, Above(e, m), 80)
\* into (-pi, pi]
Turn(m) == LET z == DMod(m, DTwoPi) IN IF DLt(DPi, z) THEN DSub(z, DTwoPi) ELSE z
(* in the plane of the orbit: <<x, y, vx, vy>>, dt after perihelion *)
Flat(q, e, gm, dt) ==
   IF DNear(e, "1", "0")
   THEN LET k == DSqrt(DDiv(gm, DMul("2", DMul(q, DSq(q)))))
            g == DMul("1.5", DMul(k, DAbs(dt)))
            y == DCbrt(DAdd(g, DSqrt(DAdd("1", DSq(g)))))
            s == DSub(y, DDiv("1", y))
            t == IF DLt(dt, "0") THEN DNeg(s) ELSE s
            r == DDiv(DMul(DMul("2", q), k), DAdd("1", DSq(t))) IN
        <<DMul(q, DSub("1", DSq(t))), DMul("2", DMul(q, t)), DNeg(DMul(r, t)), r>>
   ELSE LET hyp == DLt("1", e)
            a == DDiv(q, DAbs(DSub("1", e)))
            n == DSqrt(DDiv(gm, DMul(a, DSq(a))))
            m == DMul(n, dt)
            x == Anomaly(e, IF hyp THEN m ELSE Turn(m))
            b == DMul(a, DSqrt(DAbs(DSub("1", DSq(e)))))
            c == IF hyp THEN DCosh(x) ELSE DCos(x)
            s == IF hyp THEN DSinh(x) ELSE DSin(x)
            w == DDiv(n, DAbs(DSub("1", DMul(e, c)))) IN
        <<IF hyp THEN DMul(a, DSub(e, c)) ELSE DMul(a, DSub(c, e)), DMul(b, s), DNeg(DMul(DMul(a, s), w)), DMul(DMul(b, c), w)>>
(* the axes: towards perihelion, ahead of it, and the pole *)
Perih(el) == LET cw == DCos(el.w)  sw == DSin(el.w)  cn == DCos(el.n)  sn == DSin(el.n)  ci == DCos(el.i) IN
             <<DSub(DMul(cw, cn), DMul(DMul(sw, sn), ci)), DAdd(DMul(cw, sn), DMul(DMul(sw, cn), ci)), DMul(sw, DSin(el.i))>>
Pole(el) == <<DMul(DSin(el.n), DSin(el.i)), DNeg(DMul(DCos(el.n), DSin(el.i))), DCos(el.i)>>
Ahead(el) == VCross(Pole(el), Perih(el))
Place(el, x, y) == VAdd(VScale(x, Perih(el)), VScale(y, Ahead(el)))
StateAt(el, t) == LET f == Flat(el.q, el.e, el.gm, DSub(t, el.T)) IN [r |-> Place(el, f[1], f[2]), v |-> Place(el, f[3], f[4])]
(* the constants of the motion *)
Energy(s, gm) == DSub(DDiv(DDot(s.v, s.v), "2"), DDiv(gm, VNorm(s.r)))
Momentum(s) == VCross(s.r, s.v)
EccVec(s, gm) == VSub(VScale(DDiv("1", gm), VCross(s.v, Momentum(s))), VScale(DDiv("1", VNorm(s.r)), s.r))
(* the H-G phase function, in magnitudes *)
PhaseMag(p, g) ==
   LET tn == DDiv(DSin(DDiv(p, "2")), DCos(DDiv(p, "2")))
       pow(x, y) == IF DLe(x, "0") THEN "0" ELSE DExp(DMul(y, DLog(x)))
       f1 == DExp(DMul("-3.33", pow(tn, "0.63")))  f2 == DExp(DMul("-1.87", pow(tn, "1.22"))) IN
   DMul("-2.5", DDiv(DLog(DAdd(DMul(DSub("1", g), f1), DMul(g, f2))), DLog("10")))
(* compressed elements: semimajor axis in three ranges *)
PackedAxis(n) == LET a == DMul(n, "1e-8") IN
                 IF DLe(a, "21") THEN a ELSE IF DLe(a, "31.5") THEN DSub(DMul("4", a), "63") ELSE DDiv("63", DSub("4", DDiv(a, "10.5")))
=============================================================================
