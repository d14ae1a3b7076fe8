---------------------------- MODULE StringsModel ----------------------------
(* What the operations promise together: a buffer always ends, holds the beginning of the text meant, nothing past its size is touched; replacing and counting agree. *)
EXTENDS Strings
VARIABLES buf, size, want
vars == <<buf, size, want>>
Texts == {<<>>, <<97>>, <<97, 98>>, <<98, 97, 97>>, <<97, 97, 97, 97>>}
Room == 7
Blank == [k \in 1..Room |-> 90]
\* want: the text that would be there if the buffer were endless
Init == size \in 1..Room - 1 /\ buf = Put(Blank, 0, <<0>>) /\ want = <<>>
Next == /\ Len(want) < 9
        /\ \E t \in Texts : \/ /\ buf' = Copy(buf, size, t).buf /\ want' = t
                            \/ /\ buf' = Cat(buf, size, t).buf /\ want' = (IF Len(want) < size THEN want \o t ELSE Take(want, size - 1) \o t)
        /\ UNCHANGED size
Holds == Ends(Take(buf, size)) /\ TextOf(buf) = Take(want, size - 1) /\ \A k \in size + 1..Room : buf[k] = 90
Count(s, old) == Replace(s, old, <<>>)
Replaced == \A old \in Texts, new \in {<<>>, <<99>>, <<97, 97>>} : LET r == Replace(want, old, new)  c == Count(want, old) IN
            /\ r.rc = c.rc /\ Len(r.buf) = Len(want) + r.rc * (Len(new) - Len(old)) /\ (old = <<>> => r.buf = want /\ r.rc = 0)
            /\ (new = <<99>> /\ old # <<>> => Replace(r.buf, new, old).buf = want)
            /\ (r.rc = 0 <=> old = <<>> \/ \A k \in 0..Len(want) - Len(old) : SubSeq(want, k + 1, k + Len(old)) # old)
Spec == Init /\ [][Next]_vars
=============================================================================
