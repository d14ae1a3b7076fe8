------------------------------ MODULE FormModel ------------------------------
(* Whatever fields a form has, and however a browser chooses to encode them, reading gives the same fields in the same order, then the end;  *)
(* reading stops for good at damage; a buffer is never given more than it holds.                                                             *)
EXTENDS Form
VARIABLES msg, how
vars == <<msg, how>>
Bytes == {97, 32, 38, 61, 37, 233, 43}
Texts == {<<>>} \cup {<<a>> : a \in Bytes} \cup {<<a, b>> : a \in {97, 38, 37, 13}, b \in {61, 233, 97, 10}}
Names == {<<110>>, <<61, 38>>, <<>>}
Msgs == {<<>>} \cup {<<<<n, v>>>> : n \in Names, v \in Texts} \cup {<<<<n, v>>, <<m, w>>>> : n \in {<<110>>, <<>>}, v \in Texts, m \in {<<109>>}, w \in {<<>>, <<97, 38>>, <<37>>}}
Digit(d, low) == IF d < 10 THEN 48 + d ELSE IF low THEN 87 + d ELSE 55 + d
Enc(t, h) == FlattenSeq([k \in 1..Len(t) |-> IF t[k] = 32 /\ h.plus THEN <<43>> ELSE IF IsAlnum(t[k]) /\ ~h.all THEN <<t[k]>> ELSE IF t[k] > 127 /\ h.raw THEN <<t[k]>> ELSE <<37, Digit(t[k] \div 16, h.low), Digit(t[k] % 16, h.low)>>])
Url(m, h) == FlattenSeq([k \in 1..Len(m) |-> (IF k > 1 THEN <<38>> ELSE <<>>) \o Enc(m[k][1], h) \o <<61>> \o Enc(m[k][2], h)]) \o IF h.eol THEN <<13, 10>> ELSE <<>>
E(h) == IF h.eol THEN <<13, 10>> ELSE <<10>>
Bnd == S("----b1x")
Multi(m, h) == Bnd \o E(h) \o FlattenSeq([k \in 1..Len(m) |-> S("Content-Disposition: form-data; name=") \o <<34>> \o m[k][1] \o <<34>> \o (IF h.raw THEN S("; filename=") \o <<34, 102, 34>> ELSE <<>>) \o E(h)
                  \o (IF h.plus THEN S("Content-Type: text/plain") \o E(h) ELSE <<>>) \o (IF h.all THEN S("X: y") \o E(h) ELSE <<>>) \o E(h) \o m[k][2] \o E(h) \o Bnd \o (IF k = Len(m) THEN <<45, 45>> ELSE <<>>) \o E(h)])
Init == msg \in Msgs /\ how \in [plus : BOOLEAN, all : BOOLEAN, low : BOOLEAN, raw : BOOLEAN, eol : BOOLEAN]
Next == UNCHANGED vars
Gives(got, file, strip) == /\ Len(got) = Len(msg) + 1 /\ got[Len(got)].rc = -1
                           /\ \A k \in 1..Len(msg) : got[k].rc = 0 /\ got[k].field = msg[k][1] /\ got[k].val = (IF strip THEN Chomp(msg[k][2]) ELSE msg[k][2]) /\ got[k].file = file
Rq == [query |-> <<>>, type |-> <<UrlT>>, len |-> <<S("500")>>, input |-> Url(msg, how)]
UrlRead == Gives(Fields(Url(msg, how), 0, 30, 30), <<>>, FALSE)
BodyRead == Url(msg, how) # <<>> => Gives(Answers(Rq, 300), <<>>, FALSE)
QueryRead == Url(msg, how) # <<>> => Gives(Answers([Rq EXCEPT !.query = <<Url(msg, how)>>, !.input = S("n=other")], 300), <<>>, FALSE)
MultiRead == ~how.low => Gives(Answers([Rq EXCEPT !.type = <<MultiT \o S(" boundary=--b1x")>>, !.input = Multi(msg, how)], 300), IF how.raw THEN <<102>> ELSE <<>>, TRUE)
\* a damaged escape ends the reading there
Damage == \A k \in 0..2 : LET f == Fields(Take(Url(msg, how), Len(Url(msg, how)) - k) \o <<37, 52, 122>>, 0, 30, 30) IN f[Len(f)].rc = -1 /\ \A j \in 1..Len(f) - 1 : f[j].rc = 0
Small == \A m \in 1..3 : LET f == Fields(Url(msg, how), 0, m, m) IN \A j \in 1..Len(f) : Len(f[j].field) < m /\ Len(f[j].val) < m
Spec == Init /\ [][Next]_vars
=============================================================================
