------------------------------ MODULE MoidTrace ------------------------------
EXTENDS Moid, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
(* a search in steps of five degrees of the second orbit's true anomaly may see two minima within two steps of each other as one *)
Steps == Rad("10.01")
Found(e) ==
   LET tol == DMul("3e-7", DAdd("1", Radius(e.b, e.g0))) IN
   /\ DNear(Apart(e.a, e.f, e.b, e.g0), e.moid, tol)
   /\ \A k \in DOMAIN e.others : LET o == e.others[k] IN
        \/ DLe(DSub(e.moid, tol), Apart(e.a, o[1], e.b, o[2]))
        \/ DNearAngle(o[2], e.g0, Steps)
   /\ e.grid = 1 => NoneCloser(e.a, e.b, 40, DSub(e.moid, tol))
Timed(e) ==
   LET period == DMul(DTwoPi, DSqrt(DDiv(DPoly(<<"0", "0", "0", "1">>, DDiv(e.a.q, DSub("1", e.a.e))), SunGM)))
       s == StateAt([q |-> e.a.q, e |-> e.a.e, i |-> e.a.i, w |-> e.a.w, n |-> e.a.n, T |-> e.a.T, gm |-> SunGM], e.jd)
       p == PointAt(e.a, e.f) IN
   /\ DLe(DSub(e.a.T, "1e-8"), e.jd) /\ DLe(DSub(e.jd, e.a.T), DMul(period, "1.000000001"))
   /\ VNear(s.r, p, DAdd(DMul("1e-9", VNorm(p)), DMul("2e-9", VNorm(s.v))))
Fast(e) == LET v == VelocityAt(e.a, e.f)  u == VelocityAt(e.b, e.g0) IN
           DNear(VNorm(VSub(u, v)), e.speed, DMul("3e-4", DAdd(VNorm(u), VNorm(v))))
Orbiting(e) ==
   LET o == MeanOrbit(e.n, e.t)  tol == DMul("1e-13", DAdd("1", DAbs(e.t))) IN
   /\ DNear(o.e, e.e, tol) /\ DNear(DMul(o.a, DSub("1", o.e)), e.q, DMul("100", tol))
   /\ DNearAngle(o.i, e.i, tol) /\ DNearAngle(o.n, e.node, tol) /\ DNearAngle(o.w, e.w, tol)
   /\ (e.n <= NPlanets => DNearAngle(DDiv(DSub(o.T, e.T), o.perDay), "0", DAdd(DMul("1e-11", DAdd("1", DAbs(e.t))), DDiv("2e-9", o.perDay))))
Ok(e) ==
   CASE e.op = "moid" -> Found(e) /\ Timed(e) /\ Fast(e)
     [] e.op = "planet" -> IF e.n < 1 \/ e.n > 15 THEN e.rc = -1 ELSE e.rc = 0 /\ Orbiting(e)
     [] e.op = "ellipse" -> LET p == <<e.x, e.y>>  f == Foot(p, e.lat, e.dist)  tol == DMul("1e-14", DAdd(e.a, VNorm(p))) IN
          /\ OnEllipse(e.a, e.b, f, DMul("1e-14", DDiv(DAdd(e.a, VNorm(p)), e.b)))
          /\ Upright(e.a, e.b, f, e.lat, DMul(DMul("4e-14", DDiv(e.a, e.b)), DDiv(DAdd(e.a, VNorm(p)), e.b)))
          /\ NearestOn(e.a, e.b, p, e.dist, 24, tol)
          /\ (Inside(e.a, e.b, p) => DLe(e.dist, tol)) /\ (~Inside(e.a, e.b, p) => DLe(DNeg(tol), e.dist))
     [] OTHER -> FALSE
What(e) ==
   CASE e.op = "moid" -> <<Apart(e.a, e.f, e.b, e.g0), [k \in DOMAIN e.others |-> Apart(e.a, e.others[k][1], e.b, e.others[k][2])], VNorm(VSub(VelocityAt(e.a, e.f), VelocityAt(e.b, e.g0))), Found(e), Timed(e), Fast(e)>>
     [] e.op = "planet" -> IF e.n \in 1..15 THEN MeanOrbit(e.n, e.t) ELSE 0
     [] e.op = "ellipse" -> Foot(<<e.x, e.y>>, e.lat, e.dist)
     [] OTHER -> 0
Init == line = 1
Next == /\ line <= Len(Trace) /\ line' = line + 1
        /\ IF Ok(Trace[line]) THEN TRUE ELSE PrintT(<<"REJECT", line, What(Trace[line])>>)
Spec == Init /\ [][Next]_line
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
