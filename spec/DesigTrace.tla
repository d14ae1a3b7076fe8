----------------------------- MODULE DesigTrace ------------------------------
(* What the library was seen to pack and unpack, record by record, against  *)
(* PackText, Unpack and Unaligned of Desig.tla.                             *)
EXTENDS Desig, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Expect(e) == CASE e.op = "pack"   -> PackText(e.in)
               [] e.op = "unpack" -> Unpack(Take(e.in, 12))
               [] e.op = "unal"   -> Unaligned(e.in)
               [] OTHER           -> <<>>
OkMh(e) ==
   CASE e.op = "mhc"  -> e.v = UnMH(e.c)                                    \* one character to a digit
     [] e.op = "mhi"  -> e.c = IF e.v >= 0 /\ e.v <= 61 THEN MH(e.v) ELSE 0 \* one digit to a character
     [] e.op = "mhn"  -> \* n digits written and read back; hi: what did not fit
          LET p == 62 ^ e.n IN
          /\ Len(e.s) = e.n /\ e.hi = e.v \div p /\ e.back = e.v % p
          /\ \A k \in 1..e.n : e.s[k] = MH((e.v \div (62 ^ (e.n - k))) % 62)
     [] e.op = "mhr"  -> e.v = UnMHs(e.s, 0)                                \* any characters read
     [] OTHER -> FALSE
Ok(e) == IF e.op \in {"pack", "unpack", "unal"}
         THEN /\ e.rc = Expect(e).rc /\ e.out = Expect(e).out
              /\ e.op = "unpack" => e.rcn = e.rc         \* asking for the class alone gives the same class
         ELSE OkMh(e)
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ IF Ok(Trace[i]) THEN TRUE ELSE PrintT(<<"REJECT", i, Expect(Trace[i])>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
