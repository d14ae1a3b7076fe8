----------------------------- MODULE SkyGlowTrace -----------------------------
EXTENDS SkyGlow, TLC, Json, IOUtils
C == INSTANCE Colours
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Like(a, b, rel) == DNear(a, b, DAdd("1e-300", DMul(rel, DAbs(b))))
\* bands asked for are as the sky is; the others are left alone
SkyOk(e) == \A k \in Bands :
   /\ Like(e.k[k], K(e, k), "2e-12")
   /\ IF e.lit[k] = 1 THEN Like(e.b[k], Brightness(e, k), "1e-10") ELSE e.b[k] = e.b0[k]
   /\ IF e.ext[k] = 1 THEN Like(e.x[k], Extinction(e, k), "1e-12") ELSE e.x[k] = e.x0[k]
FaintOk(e) == e.lim = 1 => \/ Like(e.faint, Faintest(e.b[3], e.x[3]), DAdd("1e-12", DDiv("1e-12", DAdd("0.1", DAbs(e.faint)))))
                           \/ DNear(DDiv(e.b[3], "1500e-15"), "1.11", "1e-9")
None(x) == IF DIsNum(x) THEN DLt("98", x) ELSE FALSE        \* what stands for no answer
Edge == "1e-14"
ColorOk(e) ==
   LET rel == C!Relations[e.rel] IN
   \/ ~(DLe(DAdd(rel.low, Edge), e.c) /\ DLe(e.c, DSub(rel.high, Edge))) /\ None(e.r)
   \/ /\ DLe(DSub(rel.low, Edge), e.c) /\ DLe(e.c, DAdd(rel.high, Edge))
      /\ DNear(e.r, C!Color(e.c, rel), DMul("1e-14", DAdd("1", DPoly([k \in DOMAIN rel.c |-> DAbs(rel.c[k])], DAbs(DSub(e.c, "1"))))))
UncolorOk(e) ==
   LET rel == C!Relations[e.rel]  lo == C!Color(rel.low, rel)  hi == C!Color(rel.high, rel)
       slack == "2e-12" IN
   \/ ~(DLe(DAdd(lo, slack), e.c) /\ DLe(e.c, DSub(hi, slack))) /\ None(e.r)
   \/ /\ DLe(DSub(lo, slack), e.c) /\ DLe(e.c, DAdd(hi, slack))
      /\ DIsNum(e.r) /\ DLe(DSub(rel.low, "1e-6"), e.r) /\ DLe(e.r, DAdd(rel.high, "1e-6"))
      /\ DLe(DSub(C!Color(DSub(e.r, "1.2e-6"), rel), slack), e.c) /\ DLe(e.c, DAdd(C!Color(DAdd(e.r, "1.2e-6"), rel), slack))
Clamp(x, lo, hi) == DMax(lo, DMin(x, hi))
TychoOk(e) ==
   \/ ~(DLe(DAdd("-0.2", Edge), e.c) /\ DLe(e.c, DSub("1.8", Edge))) /\ None(e.bv) /\ None(e.v)
   \/ /\ DLe(DSub("-0.2", Edge), e.c) /\ DLe(e.c, DAdd("1.8", Edge))
      /\ LET x == Clamp(e.c, "-0.2", "1.8") IN DNear(e.bv, C!TychoBV(x), "1e-13") /\ DNear(e.v, C!TychoV(x, e.vt), "1e-13")
BessellOk(e) ==
   \/ ~C!InBessell(e.c) /\ e.rc # 0 /\ e.v = <<"-7", "-7", "-7">>
   \/ C!InBessell(e.c) /\ e.rc = 0 /\ LET b == C!BessellAt(e.c) IN \A k \in 1..3 : DNear(e.v[k], b[k], "1e-13")
Ok(e) ==
   CASE e.op = "sky" -> SkyOk(e) /\ FaintOk(e)
     [] e.op = "color" -> ColorOk(e)
     [] e.op = "uncolor" -> UncolorOk(e)
     [] e.op = "tycho" -> TychoOk(e)
     [] e.op = "bessell" -> BessellOk(e)
     [] OTHER -> FALSE
What(e) ==
   CASE e.op = "sky" -> <<[k \in Bands |-> <<K(e, k), Brightness(e, k), Extinction(e, k)>>], IF e.lim = 1 THEN Faintest(e.b[3], e.x[3]) ELSE "0">>
     [] e.op = "color" -> <<C!Color(e.c, C!Relations[e.rel])>>
     [] e.op = "uncolor" -> <<C!Color(e.r, C!Relations[e.rel])>>
     [] e.op = "tycho" -> IF C!InTycho(e.c) THEN <<C!TychoBV(e.c), C!TychoV(e.c, e.vt)>> ELSE <<>>
     [] e.op = "bessell" -> IF C!InBessell(e.c) THEN C!BessellAt(e.c) ELSE <<>>
     [] OTHER -> <<>>
Init == line = 1
Next == /\ line <= Len(Trace) /\ line' = line + 1
        /\ IF Ok(Trace[line]) THEN TRUE ELSE PrintT(<<"REJECT", line, What(Trace[line])>>)
Spec == Init /\ [][Next]_line
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
