-------------------------------- MODULE Form --------------------------------
(* Form data sent to the programs used as web services: a URL-encoded line (of the request or of the input) or multipart input.           *)
(* A reading session goes: start (which kind?), then field after field, then the end. Bytes are character codes.                           *)
EXTENDS Text, SequencesExt, TLC

Hex(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
\* up to left bytes from k, to the byte e or the end of the line; rc: the byte met, or -1
RECURSIVE Piece(_, _, _, _, _)
Piece(s, k, left, acc, e) ==
   LET c == At(s, k) IN
   IF c <= 13 \/ left = 0 \/ c = e THEN [rc |-> c, val |-> acc, next |-> IF c = e THEN k + 1 ELSE k]
   ELSE IF c # 37 THEN Piece(s, k + 1, left - 1, Append(acc, IF c = 43 THEN SP ELSE c), e)
   ELSE LET a == Hex(At(s, k + 1))  b == Hex(At(s, k + 2)) IN
        IF a < 0 \/ b < 0 THEN [rc |-> -1, val |-> acc, next |-> k] ELSE Piece(s, k + 3, left - 1, Append(acc, 16 * a + b), e)
UpTo0(s) == LET RECURSIVE N(_) N(k) == IF k > Len(s) \/ s[k] = 0 THEN k - 1 ELSE N(k + 1) IN SubSeq(s, 1, N(1))       \* as C sees it
(* one field = value: rc 0, or 1 if the value was too long for the buffer, or -1 for none *)
Field(s, k, mf, mb) ==
   LET p == Piece(s, k, mf - 1, <<>>, 61)  v == Piece(s, p.next, mb - 1, <<>>, 38) IN
   IF p.rc # 61 \/ v.rc = -1 THEN [rc |-> -1, field |-> <<>>, val |-> <<>>, file |-> <<>>, next |-> k]
   ELSE [rc |-> IF v.rc = 38 \/ v.rc <= 13 THEN 0 ELSE 1, field |-> UpTo0(p.val), val |-> UpTo0(v.val), file |-> <<>>, next |-> v.next]
RECURSIVE Fields(_, _, _, _)
Fields(s, k, mf, mb) == LET f == Field(s, k, mf, mb) IN IF f.rc # 0 THEN <<f>> ELSE <<f>> \o Fields(s, f.next, mf, mb)
(* multipart: lines, with their ends *)
LinesOf(t) == LET F(a, c) == IF c = 10 THEN [done |-> Append(a.done, Append(a.cur, c)), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, c)]
                  r == FoldLeft(F, [done |-> <<>>, cur |-> <<>>], t) IN IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)
Visible(l) == LET RECURSIVE N(_) N(k) == IF At(l, k) \in 32..127 THEN N(k + 1) ELSE k IN Take(l, N(0))
FindAt(s, p) == LET hits == {k \in 0..Len(s) - Len(p) : SubSeq(s, k + 1, k + Len(p)) = p} IN IF hits = {} THEN -1 ELSE CHOOSE k \in hits : \A j \in hits : k <= j
Quoted(s, k) == LET rest == Drop(s, k)  q == FindAt(rest, <<34>>) IN IF q < 0 THEN <<>> ELSE <<Take(rest, q)>>
NameT == S("name=") \o <<34>>
FileT == S("filename=") \o <<34>>
MaxField == 30
RECURSIVE Chomp(_)
Chomp(s) == IF s # <<>> /\ s[Len(s)] \in {10, 13} THEN Chomp(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Flat(_, _)
Flat(ls, k) == IF k > Len(ls) THEN <<>> ELSE ls[k] \o Flat(ls, k + 1)
\* one part from line k: the header naming it, other header lines, a blank one, the data to the next boundary
Bad(rc, k) == [rc |-> rc, field |-> <<>>, val |-> <<>>, file |-> <<>>, next |-> k, sure |-> TRUE]
Part(ls, k, bnd, mx) ==
   LET h == IF k <= Len(ls) THEN ls[k] ELSE <<>>  n == FindAt(h, NameT)  f == FindAt(h, FileT)
       name == IF n < 0 THEN <<>> ELSE Quoted(h, n + 6)  file == IF f < 0 THEN <<>> ELSE Quoted(h, f + 10)
       blanks == {j \in k + 1..Len(ls) : At(ls[j], 0) < 32}  b == IF blanks = {} THEN Len(ls) + 1 ELSE CHOOSE j \in blanks : \A i \in blanks : j <= i
       ends == {j \in b + 1..Len(ls) : StartsWith(ls[j], bnd)}  z == IF ends = {} THEN Len(ls) + 1 ELSE CHOOSE j \in ends : \A i \in ends : j <= i
       data == Flat(SubSeq(ls, b + 1, z - 1), 1) IN
   IF Len(h) >= mx - 1 \/ \E j \in k + 1..(IF b <= Len(ls) THEN b ELSE Len(ls)) : Len(ls[j]) >= mx - 1 THEN [Bad(-3, k) EXCEPT !.sure = FALSE]        \* lines too long for the buffer
   ELSE IF n >= 4 /\ n = f + 4 THEN [Bad(-1, k) EXCEPT !.sure = FALSE]                                                   \* a file named, but no field: left open
   ELSE IF name = <<>> THEN Bad(-1, k) ELSE IF Len(name[1]) >= MaxField THEN Bad(-3, k)
   ELSE [rc |-> 0, field |-> name[1], val |-> Chomp(data), file |-> IF file = <<>> THEN <<>> ELSE file[1], next |-> z + 1,
         sure |-> Len(data) + (IF z <= Len(ls) THEN Len(ls[z]) ELSE 0) + 1 < mx]                                          \* all of it fits
RECURSIVE Parts(_, _, _, _)
Parts(ls, k, bnd, mx) == LET p == Part(ls, k, bnd, mx) IN IF p.rc # 0 \/ ~p.sure THEN <<p>> ELSE <<p>> \o Parts(ls, p.next, bnd, mx)
(* the session; what the server says of the request: query, type, length (absent: <<>>, present: <<text>>) *)
UrlT == S("application/x-www-form-urlencoded")
MultiT == S("multipart/form-data;")
Kind(r) == IF r.query # <<>> /\ r.query[1] # <<>> THEN 1
           ELSE IF r.type = <<>> THEN -1
           ELSE IF ~StartsWith(r.type[1], UrlT) /\ ~StartsWith(r.type[1], MultiT) THEN -2
           ELSE IF r.len = <<>> \/ Atoi(r.len[1], 0) <= 0 \/ r.input = <<>> THEN -3
           ELSE IF StartsWith(r.type[1], UrlT) THEN 2 ELSE 3
Answers(r, mx) ==
   LET ls == LinesOf(r.input) IN
   CASE Kind(r) = 1 -> Fields(r.query[1], 0, MaxField, mx)
     [] Kind(r) = 2 -> Fields(Take(ls[1], Atoi(r.len[1], 0)), 0, MaxField, mx)
     [] Kind(r) = 3 -> Parts(ls, 2, Visible(ls[1]), mx)
     [] OTHER -> <<[rc |-> -1, field |-> <<>>, val |-> <<>>, file |-> <<>>, next |-> 0, sure |-> TRUE]>>
=============================================================================
