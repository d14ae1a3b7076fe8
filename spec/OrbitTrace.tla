----------------------------- MODULE OrbitTrace -----------------------------
EXTENDS Orbit, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
(* how far a position and a velocity may be off: relative to their size, and what the rounding of times and elements comes to *)
Dt(el, t) == DMul("4e-16", DAdd(DAbs(t), DAbs(el.T)))
Close(el, t, s, r, v, c) ==
   LET lr == VNorm(s.r)  lv == VNorm(s.v)  dt == Dt(el, t) IN
   /\ VNear(s.r, r, DAdd(DMul(c, lr), DMul(lv, dt)))
   /\ VNear(s.v, v, DAdd(DMul(DMul("2", c), lv), DMul(dt, DDiv(DAdd(DSq(lv), DDiv(el.gm, lr)), lr))))
PosTol == "1e-12"
Ok(e) == CASE e.op = "pos" -> /\ e.same = 1
                              /\ Close(e.el, e.t, StateAt(e.el, e.t), e.r, e.v, PosTol)
                              /\ DNear(VNorm(e.r), e.d, DMul("1e-13", e.d))
           [] e.op = "kep" -> LET hyp == DLt("1", e.e)  z == IF hyp THEN e.m ELSE Turn(e.m)  x == DAdd(Anomaly(e.e, z), DSub(e.m, z)) IN
                              \/ DNear(x, e.x, DMul("1e-12", DAbs(x)))
                              \* anomalies many turns or digits away: as well as the equation can tell
                              \/ ~hyp /\ DNear(DSub(e.x, DMul(e.e, DSin(e.x))), e.m, DMul("4e-16", DAbs(e.m)))
           [] e.op = "cls" -> /\ e.kind # 99
                              /\ DLe("0", e.el.i) /\ DLe(e.el.i, DPi) /\ DLt("0", e.el.q) /\ DLe("0", e.el.e)
                              /\ LET s == [r |-> e.r, v |-> e.v] IN
                                 /\ Close(e.el, e.t, s, StateAt(e.el, e.t).r, StateAt(e.el, e.t).v, "1e-9")
                                 /\ Close(e.el, e.t, s, e.r1, e.v1, "1e-9") /\ Close(e.el, e.t, s, e.r2, e.v2, "1e-9")
           [] e.op = "phase" -> DNear(PhaseMag(e.p, e.g), e.m, "2e-6")
           [] e.op = "ast" -> LET deg(k) == Rad(DMul(e.z[k], "1e-7"))  a == PackedAxis(e.z[2])  ecc == DMul(e.z[3], "1e-8")
                                  rel(x, y) == DNear(x, y, DMul("1e-12", DAdd("1e-3", DAbs(x)))) IN
                              /\ rel(deg(1), e.M) /\ rel(deg(4), e.el.n) /\ rel(deg(5), e.el.w) /\ rel(deg(6), e.el.i) /\ rel(ecc, e.el.e) /\ DNear(e.ep, e.epoch, "0") /\ e.obj = 0
                              /\ DNear(a, e.a, DMul(DMul("1e-12", a), a)) /\ DNear(DMul(a, DSub("1", ecc)), e.el.q, DMul(DMul("1e-12", a), a))
                              /\ LET t0 == DSqrt(DDiv(DMul(a, DSq(a)), e.el.gm)) IN DNear(DSub(e.ep, DMul(deg(1), t0)), e.el.T, DMul(DMul("1e-9", a), t0))
           [] OTHER -> FALSE
What(e) == CASE e.op \in {"pos", "cls"} -> LET s == StateAt(e.el, e.t) IN <<s.r, s.v>> [] e.op = "phase" -> PhaseMag(e.p, e.g) [] e.op = "kep" -> Anomaly(e.e, Turn(e.m)) [] OTHER -> ""
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", i, What(e)>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
