------------------------------ MODULE BrentTrace ------------------------------
EXTENDS Dec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, b, tol, ytol
vars == <<i, b, tol, ytol>>
B == INSTANCE Brent WITH Less <- DLt
Same(p, q) == DLe(p, q) /\ DLe(q, p)
Finite(s) == \A k \in DOMAIN s : DIsNum(s[k])
Done(c) == \/ c.n > 3 /\ DLe(DSub(c.pts[4][2], c.pts[1][2]), ytol)
           \/ DLt(DSub(c.hi, c.pts[1][1]), tol) /\ DLt(DSub(c.pts[1][1], c.lo), tol)
\* the difference the code rounds may be on the other side
NearDone(c) == \/ DNear(DSub(c.hi, c.pts[1][1]), tol, "1e-14") \/ DNear(DSub(c.pts[1][1], c.lo), tol, "1e-14")
               \/ c.n > 3 /\ DNear(DSub(c.pts[4][2], c.pts[1][2]), ytol, "1e-14")
\* functions with a single minimum, at e.c: it stays in the bracket, as far as the values tell
Single(e) == e.kind \in {0, 1, 9}
Slack(e) == IF e.kind = 1 THEN "0.02" ELSE "1e-6"
Ok(e) == CASE e.op = "init" -> LET s == B!Start(e.x, e.y) IN Same(e.lo, e.x[1]) /\ Same(e.hi, e.x[3]) /\ Same(e.bx[1], e.x[2]) /\ {e.bx[k] : k \in 1..3} = {e.x[k] : k \in 1..3}
           [] e.op = "step" -> /\ Finite(<<e.x, e.y>>) /\ B!Askable(b, e.x)
                               /\ LET c == B!Add(b, e.x, e.y) IN
                                  /\ B!Bracketed(c) /\ Same(c.lo, e.lo) /\ Same(c.hi, e.hi)
                                  /\ Same(c.pts[1][1], e.bx[1])
                                  /\ \A k \in 1..4 : Same(c.pts[k][2], e.by[k])
                                  /\ (e.done = 1) = Done(c) \/ NearDone(c)
           [] e.op = "done" -> Same(e.x, b.pts[1][1]) /\ (Done(b) \/ NearDone(b))
           [] e.op = "end" -> /\ e.n < 200 /\ Same(e.x, b.pts[1][1])
                              /\ (Single(e) => DLe(DSub(e.lo, Slack(e)), e.c) /\ DLe(e.c, DAdd(e.hi, Slack(e))))
           [] OTHER -> FALSE
Init == i = 1 /\ b = [n |-> 0] /\ tol = "0" /\ ytol = "0"
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN
           /\ IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", i, b>>)
           /\ b' = CASE e.op = "init" -> B!Start(e.x, e.y) [] e.op = "step" -> B!Add(b, e.x, e.y) [] OTHER -> b
           /\ tol' = IF e.op = "init" THEN e.tol ELSE tol
           /\ ytol' = IF e.op = "init" THEN e.ytol ELSE ytol
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
