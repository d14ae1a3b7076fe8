---------------------------- MODULE SkyNamesTrace ----------------------------
EXTENDS SkyNames, Dec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Turn == "360"
\* whole units a number may be taken for: on the line itself, either side
Whole(x) == {DFloor(DSub(x, "1e-7")), DFloor(DAdd(x, "1e-7"))}
Places(e) == {Place(ra % 86400, spd) : ra \in Whole(DMul(DMod(e.ra, Turn), "240")), spd \in Whole(DMul(DAdd(e.dec, "90"), "60"))}
Ok(e) ==
   CASE e.op = "con" -> \E p \in Places(e) : e.rc = Index[p] /\ (e.name = "" \/ e.name = p)
     [] e.op = "abbrs" -> e.all = Abbrs
     [] e.op = "make" -> e.out = VarDesig(e.n)
     [] e.op = "number" -> e.rc \in VarNumber(e.s)
     [] e.op = "catname" -> e.out = CatName(e.c)
     [] e.op = "catcode" -> e.rc = CatCode(e.s)
     [] OTHER -> FALSE
What(e) == CASE e.op = "con" -> Places(e) [] e.op = "make" -> VarDesig(e.n) [] e.op = "number" -> IF Cardinality(VarNumber(e.s)) = 1 THEN VarNumber(e.s) ELSE 0 [] e.op = "catcode" -> CatCode(e.s) [] OTHER -> 0
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ IF Ok(Trace[i]) THEN TRUE ELSE PrintT(<<"REJECT", i, What(Trace[i])>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
