----------------------------- MODULE CosparTrace -----------------------------
(* cur: what is loaded; disk: the default file, read when something is asked and nothing is loaded *)
EXTENDS Cospar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, cur, disk
vars == <<i, cur, disk>>
Nothing == [Start EXCEPT !.letter = -1]
Now == IF cur = Nothing THEN disk ELSE cur
D(e) == DSub(DAdd(e.jd, DDiv(e.dt, "86400")), "2451545")
\* the time itself is known to a few 1e-10 day; periodic terms may go by thousands of degrees a day
TolM(x, d) == DAdd("1e-8", DAdd(DMul("4e-11", DAbs(Rate(x))), DMul("1e-17", DAbs(DMul(Rate(x), d)))))
Ok(e, f) ==
   CASE e.op = "load" -> e.rc = (IF e.kind = "missing" THEN -1 ELSE 0) /\ (e.kind = "real" => LET p == Parse(e.lines) IN Fine(p) /\ AsPublished(p))
     [] e.op \in {"disk", "start"} -> TRUE
     [] e.op = "rate" -> LET o == The(f, e.no) IN IF f # Nothing /\ Has(f, e.no) /\ Spins(o, e.sys) # {} THEN DNear(e.v, Rate(Spin(o, e.sys)), "1e-12") ELSE DNear(e.v, "0", "0")
     [] e.op = "radii" -> IF f # Nothing /\ Has(f, e.no) THEN LET r == The(f, e.no).r IN e.rc = 0 /\ DNear(e.over, "7777", "0") /\ \A k \in 1..3 : DNear(e.v[k], IF k <= Len(r) THEN r[k] ELSE "0", "1e-10") ELSE e.rc = -1
     [] e.op = "earth" -> e.rc = 0 /\ \A k \in 1..9 : DNear(e.m[k], IF k \in 4..6 THEN DNeg(e.e[k]) ELSE e.e[k], "1e-12")
     [] e.op = "orient" -> IF f # Nothing /\ Has(f, e.no) /\ Orientable(The(f, e.no), e.sys)
                           THEN LET o == The(f, e.no) IN e.rc = 0 /\ LET w == Oriented(o, e.sys, D(e))  t == TolM(Spin(o, e.sys), D(e)) IN \A k \in 1..9 : DNear(e.m[k], w[k], t)
                           ELSE e.rc = -1 /\ Rigid(e.m)
     [] OTHER -> FALSE
What(e, f) == CASE e.op = "load" -> LET p == Parse(e.lines) IN <<Fine(p), AsPublished(p)>> [] f = Nothing -> "nothing loaded" [] e.op \in {"rate", "radii", "orient"} /\ ~Has(f, e.no) -> "no such body"
                [] e.op = "rate" -> The(f, e.no).w [] e.op = "radii" -> The(f, e.no).r
                [] e.op = "orient" -> IF Orientable(The(f, e.no), e.sys) THEN <<Oriented(The(f, e.no), e.sys, D(e)), The(f, e.no)>> ELSE "not orientable" [] OTHER -> ""
Init == i = 1 /\ cur = Nothing /\ disk = Nothing
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN
           /\ cur' = CASE e.op = "start" -> Nothing [] e.op = "load" -> IF e.kind \in {"missing", "free"} THEN Nothing ELSE Parse(e.lines)
                       [] e.op \in {"rate", "radii", "orient"} -> Now
                       [] OTHER -> cur
           /\ disk' = IF e.op = "start" THEN Nothing ELSE IF e.op = "disk" THEN (IF e.there = 1 THEN Parse(e.lines) ELSE Nothing) ELSE disk
           /\ IF Ok(e, Now) THEN TRUE ELSE PrintT(<<"REJECT", i, What(e, Now)>>)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
