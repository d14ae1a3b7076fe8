----------------------------- MODULE AdesTrace ------------------------------
(* Documents fed to the translator line by line, against Step of Ades.tla;  *)
(* then the same documents read through fgets_with_ades_xlation.            *)
EXTENDS Ades, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, acc

\* "<days>.<decimals>" within 2e-9 of the day
DayOk(t, d) ==
   LET p == IndexFrom(t, 0, 46)  n == IF At(t, 0) = 45 THEN 1 ELSE 0
       ip == NumFrom(t, n, 0)  fp == QuickAtoi(SubSeq(t, p + 2, p + 10), 0)
       days == IF n = 1 THEN -ip - 1 ELSE ip
       nd == IF n = 1 THEN 1000000000 - fp ELSE fp
   IN  /\ p > 0 /\ Len(t) = p + 16
       /\ \/ days = d[1] /\ nd - d[2] \in -3..3
          \/ days = d[1] + 1 /\ (nd + 1000000000) - d[2] \in -3..3 /\ nd < 4
          \/ days = d[1] - 1 /\ nd > 999999995 /\ d[2] < 4
LineOk(x, a) == IF x.day = <<>> THEN a = x.txt
                ELSE StartsWith(a, x.txt \o <<SP>>) /\ DayOk(Drop(a, Len(x.txt) + 1), x.day)
OutOk(xs, as) == IF Len(xs) = 1 /\ xs[1].txt = Any THEN TRUE ELSE Len(xs) = Len(as) /\ \A k \in DOMAIN xs : LineOk(xs[k], as[k])

Ok(e, r) ==
   CASE e.op = "start" -> TRUE
     [] e.op = "line"  -> e.rc = r.rc /\ (r.rc = 0 => OutOk(r.out, e.out))
     [] e.op = "end"   -> e.depth = st.depth
     [] e.op = "file"  -> e.out = acc
     [] OTHER -> FALSE
Init == i = 1 /\ st = Start(FALSE) /\ acc = <<>>
Next ==
   /\ i <= Len(Trace) /\ i' = i + 1
   /\ LET e == Trace[i]
          r == IF e.op = "line" THEN Step(st, e.in) ELSE Result(st, <<>>, 0) IN
      /\ st' = IF e.op = "start" THEN Start(e.ign = 1) ELSE r.st
      /\ acc' = IF e.op = "start" THEN <<>> ELSE IF e.op = "line" THEN acc \o e.out \o (IF e.rc < 0 THEN <<<<e.rc>>>> ELSE <<>>) ELSE acc
      /\ IF Ok(e, r) THEN TRUE ELSE PrintT(<<"REJECT", i, r.rc, r.out>>)
Spec == Init /\ [][Next]_<<i, st, acc>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
