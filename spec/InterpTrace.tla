----------------------------- MODULE InterpTrace -----------------------------
EXTENDS Interp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Tol(mag) == DMul(mag, "1e-13")
AllAbs(t) == DDot([k \in DOMAIN t |-> DAbs(t[k])], [k \in DOMAIN t |-> "1"])
Ok(e) == CASE e.op = "cubic" -> LET c == Cubic(e.t, e.x)  out == DMax("1", DAbs(e.x)) IN
                                e.err = c.err /\ DNear(c.v, e.v, DMul("1e-14", DMul(AllAbs(e.t), DMul(out, DMul(out, out)))))
           [] e.op = "lagr" -> IF OnGrid(e.t, e.x)
                               THEN /\ DNear(E(e.t, DFloor(e.x)), e.v, "0")
                                    /\ (e.hasd = 1 => LET l == Lagrange(e.t, e.m, DSub(e.x, "1e-20"))  r == Lagrange(e.t, e.m, DAdd(e.x, "1e-20"))
                                                        tol == DMul(DMax(l.dm, r.dm), "1e-4") IN
                                                    \* between the slopes of the two windows that meet here
                                                    DLe(DSub(DMin(l.d, r.d), tol), e.d) /\ DLe(e.d, DAdd(DMax(l.d, r.d), tol)))
                               ELSE LET l == Lagrange(e.t, e.m, e.x) IN
                                    /\ DNear(l.v, e.v, Tol(l.vm))
                                    /\ (e.hasd = 1 => DNear(l.d, e.d, DAdd(DMul("100", Tol(l.dm)), DDiv(DMul(l.vm, "1e-14"), e.gap))))
           [] e.op = "parab" -> \* through all three points
                LET at(k) == DAdd(e.c, DMul(e.x[k], DAdd(e.b, DMul(e.a, e.x[k]))))
                    mag == DAdd(DAbs(e.c), DMul("10", DAdd(DAbs(e.b), DMul("10", DAbs(e.a))))) IN
                \A k \in 1..3 : DNear(at(k), e.y[k], DMul("1e-12", DAdd("1", mag)))
           [] OTHER -> FALSE
What(e) == CASE e.op = "cubic" -> Cubic(e.t, e.x) [] e.op = "lagr" -> Lagrange(e.t, e.m, e.x) [] OTHER -> ""
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", i, What(e)>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
