------------------------------ MODULE Strings ------------------------------
(* Copying, appending and replacing text in buffers of a given size. A buffer is a sequence of bytes; text in it ends at the first 0. *)
EXTENDS Text, SequencesExt, TLC
Zeros(s) == {k \in 1..Len(s) : s[k] = 0}
Ends(s) == Zeros(s) # {}
TextOf(s) == IF Ends(s) THEN Take(s, (CHOOSE k \in Zeros(s) : \A j \in Zeros(s) : k <= j) - 1) ELSE s
Put(buf, k, t) == Take(buf, k) \o t \o Drop(buf, k + Len(t))                    \* t over buf from k (it fits)
Least(a, b) == IF a < b THEN a ELSE b
(* each gives [rc, buf]; the buffer after it *)
Copy(buf, size, src) == [rc |-> Len(src), buf |-> IF size = 0 THEN buf ELSE Put(buf, 0, Append(Take(src, size - 1), 0))]
Cat(buf, size, src) ==
   LET n == Least(size, Len(TextOf(buf))) IN
   [rc |-> n + Len(src), buf |-> IF n >= size THEN buf ELSE Put(buf, n, Append(Take(src, size - n - 1), 0))]
Fits(r, size) == r.rc < size
\* replaced from the left, what was put in not being looked at again
RECURSIVE Repl(_, _, _, _)
Repl(s, k, old, new) == IF old = <<>> \/ k + Len(old) > Len(s) THEN [rc |-> 0, buf |-> Drop(s, k)]
                        ELSE IF SubSeq(s, k + 1, k + Len(old)) = old THEN LET r == Repl(s, k + Len(old), old, new) IN [rc |-> r.rc + 1, buf |-> new \o r.buf]
                        ELSE LET r == Repl(s, k + 1, old, new) IN [rc |-> r.rc, buf |-> <<s[k + 1]>> \o r.buf]
Replace(s, old, new) == Repl(s, 0, old, new)
=============================================================================
