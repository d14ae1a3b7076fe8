---------------------------- MODULE StringsTrace ----------------------------
(* died: the program was ended; the operations for text that has to fit do that, and only if it does not *)
EXTENDS Strings, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Done(e, r) == e.died = 0 /\ e.rc = r.rc /\ e.after = r.buf
OrDie(e, r) == IF Fits(r, e.size) THEN Done(e, r) ELSE e.died = 1
Ok(e) ==
   CASE e.op = "copy" -> Done(e, Copy(e.before, e.size, e.src))
     [] e.op = "cat" -> Done(e, Cat(e.before, e.size, e.src))
     [] e.op = "append_trunc" -> Done(e, Cat(e.before, e.size, e.src))
     [] e.op \in {"copy_err", "print_err"} -> OrDie(e, Copy(e.before, e.size, e.src))
     [] e.op \in {"cat_err", "append"} -> OrDie(e, Cat(e.before, e.size, e.src))
     [] e.op = "replace" -> LET r == Replace(e.src, e.old, e.new) IN e.died = 0 /\ e.rc = r.rc /\ TextOf(e.after) = r.buf /\ Ends(e.after)
     [] OTHER -> FALSE
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", i, IF e.op = "replace" THEN Replace(e.src, e.old, e.new) ELSE IF e.op \in {"copy", "copy_err", "print_err"} THEN Copy(e.before, e.size, e.src) ELSE Cat(e.before, e.size, e.src)>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
