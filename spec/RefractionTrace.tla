---------------------------- MODULE RefractionTrace ----------------------------
EXTENDS Refraction, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Exactly == DMul("1e-15", DAdd("1", "0"))
Steep(h) == DDiv("1e-15", DSq(DAdd(DSin(h), "0.02")))                     \* what an error of the last digit of the height makes of a cotangent
Hundredth == Seconds("0.01")
\* how much a correction of the height at which a function f is taken matters
Slope(F(_), h) == DAbs(DDiv(DSub(F(DAdd(h, "1e-4")), F(h)), "1e-4"))
Fixed(F(_), e, slack) == LET at == DAdd(e.h, e.r) IN DNear(F(at), e.r, DAdd("1e-14", slack))
\* one correction of the rule of thumb's answer is enough
Corrected(e) == LET F(h) == Saastamoinen(h, e.p, e.t, DDiv(e.hum, "100"))
                    off == DAbs(DSub(Saemundsson(e.h), e.r)) IN
                Fixed(F, e, DAdd(Hundredth, DMul(DMul("1.1", Slope(F, DAdd(e.h, DMin(e.r, Saemundsson(e.h))))), off)))
Air2(e) == [lat |-> e.lat, alt |-> e.alt, wl |-> e.wl, hum |-> e.hum, t |-> e.t, p |-> e.p]
Panels == 32
Ok(e) ==
   CASE e.op = "thumb" -> DNear(Bennett(e.h), e.r, DMul("1e-3", DMul("3", Steep(DAdd(e.h, Rad("1.5"))))))
     [] e.op = "unthumb" -> Fixed(Bennett, e, DMul("0.5", Hundredth))
     [] e.op = "formula" -> DNear(Saastamoinen(e.h, e.p, e.t, DDiv(e.hum, "100")), e.r, DMul("1e-3", Steep(e.h)))
     [] e.op = "unformula" -> Corrected(e)
     [] e.op = "integral" -> DNear(Integral(Air2(e), e.h, Panels), e.r, DAdd(Seconds("0.003"), DMul("2e-4", DAbs(e.r))))
     [] e.op = "unintegral" -> Fixed(LAMBDA h : Integral(Air2(e), h, Panels), e, DAdd(Seconds("0.1"), DMul("2e-4", DAbs(e.r))))
     [] OTHER -> FALSE
What(e) ==
   LET S(x) == DFix(DMul(Deg(x), "3600"), 5) IN
   <<S(e.r), DFix(Deg(e.h), 4),
   CASE e.op = "thumb" -> S(DSub(Bennett(e.h), e.r))
     [] e.op = "unthumb" -> S(DSub(Bennett(DAdd(e.h, e.r)), e.r))
     [] e.op = "formula" -> S(DSub(Saastamoinen(e.h, e.p, e.t, DDiv(e.hum, "100")), e.r))
     [] e.op = "unformula" -> S(DSub(Saastamoinen(DAdd(e.h, e.r), e.p, e.t, DDiv(e.hum, "100")), e.r))
     [] e.op = "integral" -> S(DSub(Integral(Air2(e), e.h, Panels), e.r))
     [] e.op = "unintegral" -> S(DSub(Integral(Air2(e), DAdd(e.h, e.r), Panels), e.r))
     [] OTHER -> "?">>
Init == line = 1
Next == /\ line <= Len(Trace) /\ line' = line + 1
        /\ IF IF DIsNum(Trace[line].r) THEN Ok(Trace[line]) ELSE FALSE THEN TRUE ELSE PrintT(<<"REJECT", line, IF DIsNum(Trace[line].r) THEN What(Trace[line]) ELSE <<>>>>)
Spec == Init /\ [][Next]_line
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
