------------------------------ MODULE SatsTrace ------------------------------
EXTENDS Sats, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Rel == "3e-9"
Near(p, v) == VNear(p, v, DMul(Rel, VNorm(v)))
Zero == <<"0", "0", "0">>
IsZero(p) == \A k \in 1..3 : DLe(DAbs(p[k]), "0")
Wanted(m, i) == (m \div (2 ^ (i - 1))) % 2 = 1
Ok(e) ==
   CASE e.op = "jsat" -> /\ e.rc = e.want
                         /\ \A i \in 1..5 : IF Wanted(e.want, i) THEN Near(e.out[i], JSat(i, e.jd)) ELSE IsZero(e.out[i])
     [] e.op = "ssat" -> IF e.ask = 1 THEN e.rc = 1 /\ e.kept = 1 ELSE IF e.n \notin 0..8 THEN e.rc = -1 /\ e.kept = 1 ELSE e.rc = 0 /\ Near(e.out, SSat(e.n, e.jd))
     [] e.op = "usat" -> LET o == USat(e.s, e.jd) IN Near(e.r, o.r) /\ Near(e.v, o.v)
     [] e.op = "triton" -> Near(e.out, Triton(e.jd))
     [] e.op = "csat" -> IF e.s \notin 0..2 THEN e.rc = -1
                         ELSE LET o == CSat(e.s, e.jd) IN e.rc = 0 /\ Near(e.r, o.r) /\ (e.speed = 1 => Near(e.v, o.v))
     [] e.op = "rock" -> IF IsRock(e.id) THEN e.rc = 0 /\ Near(e.out, Rock(e.id, e.jd)) ELSE e.rc = -1
     [] OTHER -> FALSE
KnownMasses(e) == e.op = "usat" /\ LET o == USatMisplaced(e.s, e.jd) IN Near(e.r, o.r) /\ Near(e.v, o.v)
What(e) ==
   CASE e.op = "jsat" -> [i \in 1..5 |-> IF Wanted(e.want, i) THEN JSat(i, e.jd) ELSE Zero]
     [] e.op = "ssat" -> IF e.n \in 0..8 THEN SSat(e.n, e.jd) ELSE Zero
     [] e.op = "usat" -> USat(e.s, e.jd)
     [] e.op = "triton" -> Triton(e.jd)
     [] e.op = "csat" -> IF e.s \in 0..2 THEN CSat(e.s, e.jd) ELSE Zero
     [] e.op = "rock" -> IF IsRock(e.id) THEN Rock(e.id, e.jd) ELSE Zero
     [] OTHER -> 0
Init == line = 1
Next == /\ line <= Len(Trace) /\ line' = line + 1
        /\ IF Ok(Trace[line]) THEN TRUE ELSE PrintT(<<"REJECT", line, IF KnownMasses(Trace[line]) THEN "KNOWN gust86-masses" ELSE What(Trace[line])>>)
Spec == Init /\ [][Next]_line
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
