------------------------------ MODULE FormTrace ------------------------------
EXTENDS Form, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Same(g, w, hf) == /\ IF w.rc < 0 THEN g.rc < 0 ELSE g.rc = w.rc
              /\ w.rc >= 0 => g.field = w.field /\ g.val = w.val /\ (hf => g.file = w.file)
\* calls stop at the first that is not 0; a multipart field that fills the buffer is left open
Ok(e) ==
   CASE e.op = "url" -> LET w == Fields(e.s, 0, e.mf, e.mb) IN
                        /\ Len(e.got) = Len(w) /\ \A k \in 1..Len(w) : LET g == e.got[k] IN Same(g, w[k], TRUE) /\ (w[k].rc >= 0 => g.pos = w[k].next)
     [] e.op = "session" -> LET w == Answers(e.r, e.mb) IN
                            /\ IF Kind(e.r) < 0 THEN e.rc < 0 ELSE e.rc = Kind(e.r)
                            /\ \A k \in 1..Len(w) : k <= Len(e.got) /\ ((Kind(e.r) # 3 \/ w[k].sure) => Same(e.got[k], w[k], e.hf))
                            /\ (Kind(e.r) # 3 \/ w[Len(w)].sure) => Len(e.got) = Len(w)
     [] OTHER -> FALSE
What(e) == IF e.op = "url" THEN Fields(e.s, 0, e.mf, e.mb) ELSE <<Kind(e.r), Answers(e.r, e.mb)>>
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ IF Ok(Trace[i]) THEN TRUE ELSE PrintT(<<"REJECT", i, What(Trace[i])>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
