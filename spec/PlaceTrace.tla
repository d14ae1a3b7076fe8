----------------------------- MODULE PlaceTrace -----------------------------
EXTENDS Place, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Deg(rad, deg) == DNear(rad, Rad(deg), DMul("1e-14", DAdd("3", DAbs(Rad(deg)))))
ParOk(p, lat, alt, c, s) == LET o == Parallax(p, lat, alt)  t == DMul("1e-13", DAdd("1", DAbs(DDiv(alt, Radius(p))))) IN DNear(c, o[1], t) /\ DNear(s, o[2], t)
EllTol(e) == DMul("1e-9", DAdd(e.a, DAdd(DAbs(e.x), DAbs(e.y))))
Angles == <<"0", "0.2", "0.4", "0.6", "0.8", "1", "1.2", "1.4", "1.57", "1.9", "2.3", "2.8", "3.14159">>
Ok(e) ==
   CASE e.op = "qn" -> LET d == Decimal(e.s, 0) IN
                       /\ DNear(e.v, IF d.ok THEN d.v ELSE "0", DMul("1e-14", DAbs(d.v)))
                       /\ (d.ok => e.n = d.n)
     [] e.op = "ll" -> LET w == LatLon(e.s) IN
                       /\ e.null = IF w.read THEN 0 ELSE -1
                       /\ e.r = IF w.ok THEN 0 ELSE -1
                       /\ w.ok => /\ Deg(e.lat, w.lat) /\ Deg(e.lon, w.lon) /\ DNear(e.alt, w.alt, DMul("1e-14", DAbs(w.alt)))
                                  /\ ParOk(3, e.lat, e.alt, e.pc, e.ps) /\ e.planet = 3 /\ e.format = 2 /\ e.code = S("Rov")
     [] e.op = "xxx" -> LET w == XxxLine(e.s) IN
                        /\ e.r = w.r
                        /\ w.r = 0 => /\ Deg(e.lat, w.lat) /\ Deg(e.lon, w.lon) /\ (w.odd \/ (DNear(e.alt, w.alt, DMul("1e-14", DAbs(w.alt))) /\ ParOk(3, e.lat, e.alt, e.pc, e.ps)))
                                      /\ e.planet = 3 /\ e.format = 2 /\ e.code = S("XXX")
     \* two numbers may be hours and minutes or degrees and minutes: left open
     [] e.op = "ra" -> LET g == Angle(e.s, 0)  v == IF g.n = 3 THEN DMul("15", g.v) ELSE g.v
                           is(x) == IF DLt("360", x) THEN e.n = 0 ELSE e.n = g.next /\ Deg(e.v, x) IN
                       IF g.n = 0 THEN e.n = 0 ELSE is(v) \/ (g.n = 2 /\ is(DMul("15", v)))
     [] e.op = "dec" -> LET g == Angle(e.s, 1) IN
                        IF At(e.s, 0) \notin {43, 45} \/ g.n = 0 \/ DLt("90", g.v) THEN e.n = 0
                        ELSE e.n = g.next /\ Deg(e.v, IF At(e.s, 0) = 45 THEN DNeg(g.v) ELSE g.v)
     [] e.op = "code" -> LET w == CodeLine(e.s) IN
                         /\ e.r = w.r /\ e.code = w.code
                         \* a body numbered -1 looks like a failure: left open
                         /\ (w.format = 2 /\ w.r = -1) \/ e.planet = w.planet
                         /\ CASE w.r = -1 /\ w.format = 0 -> e.name = -1 /\ DNear(e.pc, "0", "0") /\ DNear(e.ps, "0", "0")
                              [] w.format = 3 -> e.name = w.name /\ e.format = 3
                              [] w.format = 2 /\ w.r = -1 -> TRUE
                              [] w.format = 2 -> /\ e.name = w.name /\ e.format = 2 /\ Deg(e.lat, w.lat) /\ Deg(e.lon, w.lon) /\ DNear(e.alt, w.alt, DMul("1e-14", DAbs(w.alt)))
                                                 /\ IF w.placed THEN (w.planet \in 0..14 => ParOk(w.planet, e.lat, e.alt, e.pc, e.ps)) ELSE DNear(e.pc, "0", "0") /\ DNear(e.ps, "0", "0")
                              [] w.format = 1 -> /\ e.name = w.name /\ e.format = 1 /\ Deg(e.lon, w.lon) /\ DNear(e.pc, w.c, "1e-14") /\ DNear(e.ps, w.s, "1e-14") /\ e.p1 = w.p1 /\ e.p2 = w.p2
                                                 /\ IF DNear(w.c, "0", "0") /\ DNear(w.s, "0", "0") THEN DNear(e.lat, "0", "0") /\ DNear(e.alt, "0", "0")
                                                    \* the latitude and altitude are those of the constants
                                                    ELSE LET o == OnFigure("1", EarthRatio, e.lat, DDiv(e.alt, Radius(3))) IN DNear(o[1], w.c, "1e-11") /\ DNear(o[2], w.s, "1e-11")
                              [] OTHER -> FALSE
     [] e.op = "ell" -> DIsNum(e.lat) /\ DIsNum(e.d) /\ LET o == OnFigure(e.a, e.b, e.lat, e.d) IN
                        /\ DNear(o[1], e.x, EllTol(e)) /\ DNear(o[2], e.y, EllTol(e))
                        \* and no point of the ellipse is nearer
                        /\ \A k \in 1..Len(Angles) : LET dx == DSub(DAbs(e.x), DMul(e.a, DCos(Angles[k])))  dy == DSub(DAbs(e.y), DMul(e.b, DSin(Angles[k]))) IN
                              DLe(DAbs(e.d), DAdd(DSqrt(DAdd(DSq(dx), DSq(dy))), EllTol(e)))
     [] e.op = "par" -> LET o == OnFigure("1", DDiv(e.b, e.a), e.lat, DDiv(e.h, e.a)) IN DNear(e.pc, o[1], "1e-13") /\ DNear(e.ps, o[2], "1e-13")
     [] e.op = "rad" -> DNear(e.a, Radius(e.p), "1e-6") /\ DNear(e.f, Flatness(e.p), "1e-15")
     [] e.op = "reg" -> LET w == Region(e.lines, 1, e.lat, e.lon) IN e.name = w /\ e.r = IF w = <<>> THEN -2 ELSE 0
     [] OTHER -> FALSE
What(e) == CASE e.op = "ll" -> LatLon(e.s) [] e.op = "xxx" -> XxxLine(e.s) [] e.op = "code" -> CodeLine(e.s) [] e.op = "ra" -> Angle(e.s, 0) [] e.op = "dec" -> Angle(e.s, 1)
             [] e.op = "qn" -> Decimal(e.s, 0)  [] e.op = "reg" -> Region(e.lines, 1, e.lat, e.lon) [] OTHER -> ""
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", i, What(e)>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
