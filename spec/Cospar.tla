------------------------------- MODULE Cospar -------------------------------
(* The orientation file ("cospar.txt") and what it says of every body: sizes, direction of the pole, rotation. *)
(* A file is a sequence of lines, each a sequence of character codes.                                          *)
EXTENDS Text, Dec, SequencesExt, TLC

RemapT == S("Remap:")
PlanetT == S("Planet:")
ObjT == S("Obj:")
EndT == S("END")
SinT == S("sin")
CosT == S("cos")
Cut(l) == LET RECURSIVE E(_) E(k) == IF At(l, k) < 32 \/ At(l, k) = 35 THEN k ELSE E(k + 1) IN Take(l, E(0))           \* comments off
Dense(l) == SelectSeq(l, LAMBDA c : c # SP)
\* a number at k: where it ends
RECURSIVE Digs(_, _)
Digs(s, k) == DigitsFrom(s, k)
NumEnd(s, k) ==
   LET a == IF At(s, k) \in {43, 45} THEN k + 1 ELSE k  b == Digs(s, a)
       c == IF At(s, b) = 46 THEN Digs(s, b + 1) ELSE b
       sg == IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1 IN
   IF At(s, c) \in {69, 101} /\ IsDigit(At(s, sg)) THEN Digs(s, sg) ELSE c
NumAt(s, k) == LET t == SubSeq(s, k + 1, NumEnd(s, k)) IN Str(t)
Plain(s, k) == LET e == NumEnd(s, k) IN e > k /\ \E j \in k + 1..e : IsDigit(s[j])
(* an expression: a constant, then signed terms in d, d2, T, T2 or the sine or cosine of (a multiple of) a numbered angle *)
RECURSIVE Terms(_, _)
Terms(s, k) ==
   IF k >= Len(s) \/ At(s, k) = 40 THEN <<>>                               \* (a remark)
   ELSE LET e == NumEnd(s, k)  v == NumAt(s, k)  c == At(s, e)  sq == At(s, e + 1) = 50
            m == IF IsDigit(At(s, e + 3)) THEN At(s, e + 3) - 48 ELSE 1
            p == IF IsDigit(At(s, e + 3)) THEN e + 4 ELSE e + 3 IN
        IF ~Plain(s, k) \/ At(s, k) \notin {43, 45} THEN <<[bad |-> TRUE]>>
        ELSE IF c \in {100, 84} THEN <<[bad |-> FALSE, v |-> v, kind |-> IF c = 100 THEN "d" ELSE "T", pow |-> IF sq THEN 2 ELSE 1]>> \o Terms(s, e + IF sq THEN 2 ELSE 1)
        ELSE IF Len(s) > e + 4 /\ SubSeq(s, e + 1, e + 3) \in {SinT, CosT} /\ IsAlpha(At(s, p)) /\ IsDigit(At(s, p + 1))
             THEN <<[bad |-> FALSE, v |-> v, kind |-> IF c = 115 THEN "sin" ELSE "cos", mult |-> m, letter |-> At(s, p), idx |-> QuickAtoi(s, p + 1)]>> \o Terms(s, Digs(s, p + 1))
        ELSE <<[bad |-> TRUE]>>
After(s) == LET RECURSIVE E(_) E(k) == IF At(s, k) \in {61, 0} THEN k + 1 ELSE E(k + 1) IN E(0)
Expr(s) == LET k == After(s) IN [c |-> NumAt(s, k), ok |-> Plain(s, k), t |-> Terms(s, NumEnd(s, k))]
RECURSIVE Pairs(_, _)
Pairs(s, k) == LET a == SkipWs(s, k)  b == SkipWs(s, Digs(s, a)) IN
               IF IsDigit(At(s, a)) /\ IsDigit(At(s, b)) THEN <<<<QuickAtoi(s, a), QuickAtoi(s, b)>>>> \o Pairs(s, Digs(s, b)) ELSE <<>>
RECURSIVE Commas(_, _)
Commas(s, k) == <<NumAt(s, k)>> \o IF At(s, NumEnd(s, k)) = 44 THEN Commas(s, NumEnd(s, k) + 1) ELSE <<>>
(* reading, line by line; st: the section's letter, its angles, the object being described *)
NoOne == 99999999
Body(no, letter) == [no |-> no, letter |-> letter, r |-> <<>>, a |-> <<>>, d |-> <<>>, w |-> <<>>, angs |-> <<>>, first |-> 1, bad |-> FALSE]
Start == [letter |-> 0, cur |-> NoOne, angs |-> <<>>, first |-> 1, objs |-> <<>>, remap |-> <<>>, bad |-> FALSE]
Set(st, f) == [st EXCEPT !.objs[Len(st.objs)] = f]
Line(st, raw) ==
   LET cut == Cut(raw)  s == Dense(cut)  me == st.objs[Len(st.objs)]  x == Expr(s)  c == At(s, 0) IN
   IF cut = <<>> THEN st
   ELSE IF StartsWith(cut, RemapT) THEN [st EXCEPT !.remap = @ \o Pairs(cut, 6)]
   ELSE IF s = <<>> THEN st
   ELSE IF StartsWith(s, PlanetT) THEN [st EXCEPT !.letter = At(s, 7), !.cur = NoOne, !.angs = <<>>]
   ELSE IF StartsWith(s, ObjT) THEN [st EXCEPT !.cur = Atoi(s, 4), !.objs = Append(@, [Body(Atoi(s, 4), st.letter) EXCEPT !.angs = st.angs, !.first = st.first])]
   ELSE IF st.cur = NoOne THEN
        IF c = st.letter /\ IsDigit(At(s, 1)) /\ QuickAtoi(s, 1) = (IF st.angs = <<>> THEN QuickAtoi(s, 1) ELSE st.first + Len(st.angs)) /\ QuickAtoi(s, 1) \in 0..99
        THEN [st EXCEPT !.angs = Append(@, x), !.first = IF st.angs = <<>> THEN QuickAtoi(s, 1) ELSE @, !.bad = @ \/ ~x.ok \/ Len(x.t) # 1 \/ (Len(x.t) = 1 /\ (x.t[1].bad \/ x.t[1].kind \notin {"d", "T"}))]
        ELSE [st EXCEPT !.bad = TRUE]
   ELSE CASE c = 114 -> Set(st, [me EXCEPT !.r = Commas(s, 2)])
          [] c = 97  -> Set(st, [me EXCEPT !.a = <<x>>])
          [] c = 100 -> Set(st, [me EXCEPT !.d = <<x>>])
          [] c = 87  -> Set(st, [me EXCEPT !.w = Append(@, <<IF At(s, 1) = 61 THEN -1 ELSE At(s, 1) - 48, x>>)])
          [] OTHER   -> [st EXCEPT !.bad = TRUE]
UpToEnd(lines) == LET RECURSIVE N(_) N(k) == IF k > Len(lines) \/ StartsWith(lines[k], EndT) THEN k - 1 ELSE N(k + 1) IN SubSeq(lines, 1, N(1))     \* up to END
Parse(lines) == FoldLeft(Line, Start, UpToEnd(lines))
\* nothing in the file is left unread, and every angle used is declared
FineExpr(o, x) == x.ok /\ \A k \in 1..Len(x.t) : ~x.t[k].bad /\ (x.t[k].kind \in {"d", "T"} \/ (x.t[k].letter = o.letter /\ x.t[k].idx + 1 - o.first \in 1..Len(o.angs) /\ x.t[k].mult > 0))
Fine(file) == ~file.bad /\ \A j \in 1..Len(file.objs) : LET o == file.objs[j] IN
                 \A x \in {o.a[k] : k \in 1..Len(o.a)} \cup {o.d[k] : k \in 1..Len(o.d)} \cup {o.w[k][2] : k \in 1..Len(o.w)} : FineExpr(o, x)
(* the answers *)
Renumber(file, no) == IF no \in 10..999 /\ \E k \in 1..Len(file.remap) : file.remap[k][2] = no
                      THEN LET k == CHOOSE k \in 1..Len(file.remap) : file.remap[k][2] = no /\ \A j \in 1..k - 1 : file.remap[j][2] # no IN file.remap[k][1] ELSE no
Places(file, no) == {k \in 1..Len(file.objs) : file.objs[k].no = Renumber(file, no)}
Has(file, no) == Places(file, no) # {}
The(file, no) == file.objs[CHOOSE k \in Places(file, no) : \A j \in Places(file, no) : k <= j]
Spins(o, sys) == {k \in 1..Len(o.w) : o.w[k][1] \in {-1, sys}}
Spin(o, sys) == o.w[CHOOSE k \in Spins(o, sys) : \A j \in Spins(o, sys) : k <= j][2]
Day(o, k, d, tc) == LET x == o.angs[k + 1 - o.first] IN DAdd(x.c, DMul(x.t[1].v, IF x.t[1].kind = "d" THEN d ELSE tc))
TermAt(o, t, d, tc) ==
   LET u == IF t.kind = "d" THEN d ELSE tc IN
   IF t.kind \in {"d", "T"} THEN DMul(t.v, IF t.pow = 2 THEN DSq(u) ELSE u)
   ELSE LET ang == Rad(DMul(Num(t.mult), Day(o, t.idx, d, tc))) IN DMul(t.v, IF t.kind = "sin" THEN DSin(ang) ELSE DCos(ang))
RECURSIVE SumT(_, _, _, _, _)
SumT(o, ts, k, d, tc) == IF k > Len(ts) THEN "0" ELSE DAdd(TermAt(o, ts[k], d, tc), SumT(o, ts, k + 1, d, tc))
Value(o, x, d) == DAdd(x.c, SumT(o, x.t, 1, d, DDiv(d, "36525")))
LinearD(x) == {k \in 1..Len(x.t) : x.t[k].kind \in {"d", "T"} /\ x.t[k].pow = 1}
Rate(x) == IF LinearD(x) = {} THEN "0" ELSE LET t == x.t[CHOOSE k \in LinearD(x) : TRUE] IN IF t.kind = "d" THEN t.v ELSE DDiv(t.v, "36525")
Retro(x) == DLt(Rate(x), "0")
\* rows: latitude and longitude zero; longitude ninety, counted against the rotation as is usual for planets; north pole; prime meridian counted along the equator from its node on the J2000 equator
Matrix(ra, dec, w, retro) ==
   LET cr == DCos(ra)  sr == DSin(ra)  cd == DCos(dec)  sd == DSin(dec)  cw == DCos(w)  sw == DSin(w)
       z == <<DMul(cr, cd), DMul(sr, cd), sd>>
       node == <<DNeg(sr), cr, "0">>
       east == VCross(z, node)
       x == VAdd(VScale(cw, node), VScale(sw, east))
       y == VSub(VScale(cw, east), VScale(sw, node)) IN
   x \o (IF retro THEN y ELSE VScale("-1", y)) \o z
Oriented(o, sys, d) == LET x == Spin(o, sys) IN Matrix(Rad(Value(o, o.a[1], d)), Rad(Value(o, o.d[1], d)), Rad(Value(o, x, d)), Retro(x))
Orientable(o, sys) == Len(o.a) > 0 /\ Len(o.d) > 0 /\ Spins(o, sys) # {}
Rigid(m) == LET r(k) == SubSeq(m, 3 * k + 1, 3 * k + 3) IN
            \A j, k \in 0..2 : DNear(DDot(r(j), r(k)), IF j = k THEN "1" ELSE "0", "1e-9")
(* what the IAU working group (2015) says of some bodies; pole and prime meridian without periodic terms *)
Published == <<<<0, "286.13", "63.87", "84.176", "14.1844">>, <<2, "272.76", "67.16", "160.2", "-1.4813688">>, <<6, "40.589", "83.537", "38.9", "810.7939024">>,
               <<7, "257.311", "-15.175", "203.81", "-501.1600928">>, <<9, "132.993", "-6.163", "302.695", "56.3625225">>, <<1, "281.0103", "61.4155", "329.5988", "6.1385108">>,
               <<5, "268.056595", "64.495303", "284.95", "870.536">>, <<4, "317.269202", "54.432516", "176.049863", "350.891982443297">>, <<3001, "269.9949", "66.5392", "38.3213", "13.17635815">>>>
AsPublished(file) ==
   \A k \in 1..Len(Published) : LET p == Published[k]  o == The(file, p[1])  x == Spin(o, IF p[1] \in {5, 6} THEN 3 ELSE 0) IN
      Has(file, p[1]) /\ DNear(o.a[1].c, p[2], "0") /\ DNear(o.d[1].c, p[3], "0") /\ DNear(x.c, p[4], "0") /\ DNear(Rate(x), p[5], "0")
=============================================================================
