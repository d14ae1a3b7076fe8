---------------------------- MODULE OrbFileTrace ----------------------------
EXTENDS OrbFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Rel(a, b) == DNear(a, b, DMul("1e-14", DMax("1e-6", DAbs(b))))
Day(a, b) == b = "?" \/ DNear(a, b, "1e-9")                     \* (dates that are not: left open)
Gm(cen) == IF cen = 3 THEN DMul(SunGm, "3.003489614792921e-06") ELSE SunGm
Axis(q, e) == IF DNear(e, "1", "0") THEN "0" ELSE DDiv(q, DAbs(DSub("1", e)))
Ok(e) ==
   CASE e.op = "sof" -> LET x == Sof(e.h, e.l)  g == e.got IN
                        /\ x.ok <=> e.rc = 0
                        /\ x.ok => /\ \A f \in {"q", "e", "i", "n", "w", "H", "G"} : Rel(g[f], x[f])
                                   /\ Day(g.T, x.T) /\ Day(g.epoch, x.epoch) /\ g.cen = x.cen /\ Rel(g.gm, Gm(x.cen))
                                   /\ DNear(g.a, Axis(g.q, g.e), DMul("1e-14", Axis(g.q, g.e)))
                                   /\ e.ex # <<>> => Day(e.ex[1], x.first) /\ Day(e.ex[2], x.last) /\ Day(e.ex[3], x.written) /\ Rel(e.ex[4], x.rms)
     [] e.op = "mpcorb" -> IF ~IsMpcorb(e.l) THEN e.rc = 0
                           ELSE LET x == Mpcorb(e.l)  g == e.got IN
                                /\ DNear(g.q, x.q, DMul("1e-14", x.a)) /\ e.rc = x.day /\ \A f \in {"e", "a", "i", "n", "w", "M", "H", "G"} : Rel(g[f], x[f])
                                /\ DNear(g.T, x.T, DMul("1e-9", DAdd("1", DAbs(DMul("1e-5", DSub(x.T, x.epoch)))))) /\ DNear(g.epoch, x.epoch, "0") /\ g.ast /\ g.cen = 0 /\ Rel(g.gm, SunGm)
     [] e.op = "astorb" -> LET x == Astorb(e.l)  g == e.got IN
                           /\ DNear(g.q, x.q, DMul("1e-14", x.a)) /\ e.rc = x.day /\ \A f \in {"e", "a", "i", "n", "w", "M", "H", "G"} : Rel(g[f], x[f])
                           /\ DNear(g.T, x.T, DMul("1e-9", DAdd("1", DAbs(DMul("1e-5", DSub(x.T, x.epoch)))))) /\ DNear(g.epoch, x.epoch, "0") /\ g.ast /\ g.cen = 0 /\ Rel(g.gm, SunGm)
     [] e.op = "short" -> e.rc = 0
     [] e.op = "conv" -> LET a == SelectSeq(e.ast, IsMpcorb) IN
                         /\ e.rc = 0 /\ Len(e.out) = 1 + Len(a) + Len(e.com) /\ e.out[1] = SofHead
                         /\ \A k \in DOMAIN a : AstOut(a[k], e.out[1 + k])
                         /\ \A k \in DOMAIN e.com : ComOut(e.com[k], e.out[1 + Len(a) + k])
     [] e.op = "text" -> e.rc = Len(e.ls) /\ Elements(e.ls, e.id, e.el, e.p, e.com, e.ptime, e.nopq, e.nuc)
     [] OTHER -> FALSE
What(e) == IF e.op = "sof" THEN Sof(e.h, e.l) ELSE IF e.op = "mpcorb" THEN IF IsMpcorb(e.l) THEN Mpcorb(e.l) ELSE 0 ELSE IF e.op = "astorb" THEN Astorb(e.l) ELSE IF e.op = "conv" THEN LET a == SelectSeq(e.ast, IsMpcorb) IN IF Len(e.out) # 1 + Len(a) + Len(e.com) THEN 0 ELSE <<[k \in DOMAIN a |-> AstOut(a[k], e.out[1 + k])], [k \in DOMAIN e.com |-> ComOut(e.com[k], e.out[1 + Len(a) + k])]>> ELSE IF e.op = "text" THEN ElementLines(e.ls, e.id, e.el, e.p, e.com, e.ptime, e.nopq, e.nuc) ELSE 0
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ IF Ok(Trace[i]) THEN TRUE ELSE PrintT(<<"REJECT", i, What(Trace[i])>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
