--------------------------- MODULE TimeScalesTrace ---------------------------
(* What the library said, against TimeScales, as its state changes: *)
(* gs: Delta-T definition; eop: parameters loaded; hz: end of leap seconds. *)
EXTENDS TimeScales, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, gs, eop, hz
vars == <<i, gs, eop, hz>>
NoEop == [n |-> 0, nn |-> 0, d0 |-> 0]
Never == 2000000000
(* the file: first day d0, n days of UT1-UTC and polar motion, nn of nutation.  Delta-T starts at TD-UTC less the first UT1-UTC and moves *)
(* with rate r and wiggles w (all in 1e-7 s); the others repeat px, py (1e-6 arcsec), ps, pe (0.001 milliarcsec)                     *)
Wig(w, k) == w[(k % Len(w)) + 1]
EopDt(k) == DAdd(IntegralUtc(eop.base), DMul(Num(k * eop.r + Wig(eop.w, k) - eop.u0), "1e-7"))
Four(f(_), k) == <<f(k - 1), f(k), f(k + 1), f(k + 2)>>
K(jd) == DFloor(DSub(jd, DAdd(Num(eop.d0), "2400000.5")))
X(jd) == DSub(MjdOf(jd), Num(eop.d0 + K(jd)))
InEop(jd, n) == n > 0 /\ InSpan(eop.d0, n, jd)
AtEop(f(_), jd) == Cubic(Four(f, K(jd)), X(jd))
Arcsec == DDiv(DPi, "648000")
Px(k) == DMul(DMul(Num(Wig(eop.px, k)), "1e-6"), Arcsec)
Py(k) == DMul(DMul(Num(Wig(eop.py, k)), "1e-6"), Arcsec)
Ps(k) == DMul(DMul(Num(Wig(eop.ps, k)), "1e-6"), Arcsec)
Pe(k) == DMul(DMul(Num(Wig(eop.pe, k)), "1e-6"), Arcsec)
(* TD-UT: to a hair (1e-9 year) at the joints of a definition *)
UtAt(jd, e) == IF InEop(jd, eop.n) THEN AtEop(EopDt, jd) ELSE DeltaT(gs, DAdd(YearOf(jd), e))
Tol(v) == DAdd("1e-7", DMul("1e-11", DAbs(v)))
Hairs == {"0", "1e-9", "-1e-9"}
UtOk(jd, v) == DIsNum(v) /\ \E e \in Hairs : DNear(UtAt(jd, e), v, Tol(v))
UtcOk(jd, v) ==
   LET m == MjdOf(jd) IN
   IF DLt(m, "37300") THEN UtOk(jd, v)
   ELSE IF DLt(m, Num(Utc0)) THEN DNear(OldUtc(jd), v, "1e-8")
   ELSE LET d0 == DFloor(m)  d == IF d0 > hz THEN hz ELSE d0 IN
        IF d < Predicted THEN DNear(IntegralUtc(d), v, "1e-9")
        ELSE IF DLt("1e5", DAbs(v)) THEN DIsNum(v) /\ DNear(UtAt(MidHalf(d), "0"), v, DAdd("0.5", DMul("1e-9", DAbs(v))))
        ELSE \E e \in Hairs : DNear(PredictedUtc(DAdd(UtAt(MidHalf(d), "0"), e)), v, "1e-9")
OrientOk(e) ==
   LET has(b) == (e.mask \div b) % 2 = 1
       in3 == InEop(e.jd, eop.n)  in2 == InEop(e.jd, eop.nn)
       want(b, in, f(_), tol, v) == IF has(b) /\ in THEN DNear(AtEop(f, e.jd), v, tol) ELSE (b = 4 /\ has(4)) \/ DNear("0", v, "0")
       lost == (IF has(1) /\ ~in3 THEN 1 ELSE 0) + (IF has(2) /\ ~in3 THEN 2 ELSE 0) + (IF has(4) /\ ~in3 THEN 4 ELSE 0)
               + (IF has(8) /\ ~in2 THEN 8 ELSE 0) + (IF has(16) /\ ~in2 THEN 16 ELSE 0) IN
   /\ e.rc = (IF eop.n = 0 THEN -1 ELSE lost)
   /\ want(1, in3, Px, "1e-14", e.v[1]) /\ want(2, in3, Py, "1e-14", e.v[2])
   /\ want(8, in2, Ps, "1e-14", e.v[4]) /\ want(16, in2, Pe, "1e-14", e.v[5])
   /\ has(4) => UtOk(e.jd, e.v[3])
\* loading: the last day of parameters, or what is wrong; afterwards the old ones are gone either way
LoadOk(e) == CASE e.what = "good" -> /\ e.rc = e.d0 + e.n - 1 /\ e.obs = e.lasti /\ e.info = <<e.d0, e.d0 + e.n, e.d0 + e.nn>> /\ e.inforc = 0
               [] e.what = "none" -> e.rc = 0 /\ e.info = <<0, 0, 0>> /\ e.inforc = -1
               [] e.what = "missing" -> e.rc = -1 /\ e.info = <<0, 0, 0>> /\ e.inforc = -1
               [] OTHER -> e.rc = -2 /\ e.info = <<0, 0, 0>> /\ e.inforc = -1
Ok(e) == CASE e.op \in {"start", "def", "hz"} -> TRUE
           [] e.op = "eop" -> LoadOk(e)
           [] e.op = "ut" -> UtOk(e.jd, e.v)
           [] e.op = "utc" -> UtcOk(e.jd, e.v)
           [] e.op = "orient" -> OrientOk(e)
           [] e.op = "tdb" -> DNear(TdbTd(e.t), e.v, "1e-13")
           [] e.op = "tdbutc" -> UtcOk(e.jd, e.utc) /\ DNear(DAdd(e.utc, TdbTd(DDiv(DSub(e.jd, J2000), "36525"))), e.v, DAdd("1e-9", Tol(e.v)))
           [] OTHER -> FALSE
What(e) == CASE e.op = "ut" -> UtAt(e.jd, "0")
             [] e.op = "utc" -> LET m == MjdOf(e.jd) IN IF DLt(m, "37300") THEN UtAt(e.jd, "0") ELSE IF DLt(m, Num(Utc0)) THEN OldUtc(e.jd) ELSE MidHalf(DFloor(m))
             [] e.op = "orient" -> <<eop.n, IF eop.n > 0 THEN K(e.jd) ELSE 0>>
             [] e.op = "tdb" -> TdbTd(e.t)
             [] OTHER -> ""
Init == i = 1 /\ gs = <<>> /\ eop = NoEop /\ hz = Never
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN
           /\ IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", i, What(e)>>)
           /\ gs' = CASE e.op = "start" -> <<>> [] e.op = "def" -> e.g [] OTHER -> gs
           /\ hz' = CASE e.op = "start" -> Never [] e.op = "hz" -> e.d [] OTHER -> hz
           /\ eop' = CASE e.op = "start" -> NoEop [] e.op = "eop" -> (IF e.what = "good" THEN [base |-> IF e.d0 > hz THEN hz ELSE e.d0] @@ e ELSE NoEop) [] OTHER -> eop
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
