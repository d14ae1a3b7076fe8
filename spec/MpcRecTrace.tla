----------------------------- MODULE MpcRecTrace -----------------------------
EXTENDS MpcRec, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Minus(neg) == IF neg THEN <<45>> ELSE <<43>>
\* written and read again: the same format, and the value to half a unit of the last decimal
Unit(fmt) == CASE fmt \in 100..109 -> 3600 [] fmt \in 200..208 -> 240 [] fmt \in -7..-1 -> 60 [] OTHER -> 1
Places(fmt) == CASE fmt \in -7..-1 -> -1 - fmt [] fmt \in 307..312 -> fmt - 306 [] OTHER -> fmt % 100
HalfTol(fmt) == LET h == IF fmt >= 400 THEN Fifteenth(AddA(HalfOf(1, Places(fmt)), <<0, 14>>)) ELSE HalfOf(Unit(fmt), Places(fmt)) IN AddA(h, <<0, 4>>)
Le(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
BackOk(e) == /\ e.fmt2 = e.fmt
             /\ Le(e.v, AddA(e.back, HalfTol(e.fmt))) /\ Le(e.back, AddA(e.v, HalfTol(e.fmt)))
Ok(e) == CASE e.op = "date" -> DateOk(e.b, e.fmt, e.zero, e.t) /\ e.same = 1
           [] e.op = "radec" -> /\ FieldOk(SubSeq(e.b, 33, 45), TRUE, e.rf, e.rn = 1, e.rv, e.rp)
                                /\ FieldOk(SubSeq(e.b, 45, 57), FALSE, e.df, e.dn = 1, e.dv, e.dp)
                                /\ e.rc = (IF e.rf = -99 THEN -1 ELSE 0) + (IF e.df = -99 THEN -2 ELSE 0)
                                /\ e.same = 1
           [] e.op = "write" -> IF e.fmt \in Formats THEN WriteOk(e.v, e.fmt, IF e.sg = 1 THEN Tail(e.txt) ELSE e.txt) /\ (e.sg = 1 => e.txt[1] = IF e.neg = 1 THEN 45 ELSE 43)
                                ELSE LongOk(e.v, e.fmt, IF e.sg = 1 THEN Tail(e.txt) ELSE e.txt)
           [] e.op = "back" -> BackOk(e)
           [] e.op = "any" -> TRUE
           [] OTHER -> FALSE
What(e) == CASE e.op = "date" -> IF RecordOk(e.b) THEN Date(SubSeq(e.b, 16, 32)) ELSE "no record"
             [] e.op = "radec" -> <<Angle(SubSeq(e.b, 33, 44), TRUE), Angle(SubSeq(e.b, 46, 57), FALSE)>>
             [] e.op = "write" -> IF e.fmt \in Formats THEN WriteAngle(e.v, e.fmt) ELSE <<>>
             [] OTHER -> <<>>
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", i, What(e)>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
