------------------------------- MODULE OrbFile -------------------------------
(***************************************************************************)
(* Orbits as text: lines of SOF files (columns named by a header), of      *)
(* MPCORB, of ASTORB and of JPL's ELEMENTS.COMET, and the eight-line form  *)
(* written for people.  A line is a sequence of character codes; numbers   *)
(* are those of module Dec.  Angles are degrees in files, radians in el.   *)
(***************************************************************************)
EXTENDS Text, Dec, FiniteSets, TLC

Up(a, b) == IF a > b THEN a ELSE b
Down(a, b) == IF a < b THEN a ELSE b
(* ---- dates ---- *)
Jdn(y, m, d, greg) == LET a == (14 - m) \div 12  yy == y + 4800 - a  mm == m + 12 * a - 3 IN
                      d + (153 * mm + 2) \div 5 + 365 * yy + yy \div 4 + (IF greg THEN -(yy \div 100) + yy \div 400 - 32045 ELSE -32083)
IsGreg(y, m, d) == y > 1582 \/ (y = 1582 /\ (m > 10 \/ (m = 10 /\ d >= 15)))
JG(y, m, d) == Jdn(y, m, d, IsGreg(y, m, d))
MonthLen(y, m, greg) == (IF m = 12 THEN Jdn(y + 1, 1, 1, greg) ELSE Jdn(y, m + 1, 1, greg)) - Jdn(y, m, 1, greg)
RealDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m, IsGreg(y, m, d)) /\ ~(y = 1582 /\ m = 10 /\ d > 4 /\ d < 15)
Midnight(j) == DSub(Num(j), "0.5")

(* ---- columns ---- *)
Cols(s, a, b) == SubSeq(s, a + 1, IF b < Len(s) THEN b ELSE Len(s))            \* [a, b), from 0
EndOf(s) == LET RECURSIVE N(_) N(k) == IF At(s, k) \in {0, 10, 13} THEN k ELSE N(k + 1) IN N(0)
Line(s) == Take(s, EndOf(s))
\* the number a column holds (blank: 0)
Spaced(s) == LET t == LStrip(s)  RECURSIVE N(_) N(k) == IF At(t, k) \in {0, SP} THEN k ELSE N(k + 1) IN Take(t, N(0))
Number(s) == LET t == Spaced(s) IN IF t = <<>> THEN "0" ELSE LET v == Str(t) IN IF DIsNum(v) THEN v ELSE "?"
DegCol(s) == Rad(Number(s))
\* YYYYMMDD, maybe with decimals: the Julian date
YmdJd(s) == LET t == Spaced(s) IN
            IF DigitsFrom(t, 0) # 8 THEN "?" ELSE
            DAdd(Midnight(Jdn(Atoi(Take(t, 4), 0), Atoi(Cols(t, 4, 6), 0), Atoi(Cols(t, 6, 8), 0), TRUE)),
                 IF At(t, 8) = 46 THEN Str(<<48>> \o Drop(t, 8)) ELSE "0")

(* ---- SOF ---- *)
\* the header's columns: <<name, from, to>>
RECURSIVE HeadFrom(_, _)
HeadFrom(h, k) ==
   IF At(h, k) < SP THEN <<>>
   ELSE LET RECURSIVE E(_) E(j) == IF At(h, j) < SP \/ At(h, j) = 124 THEN j ELSE E(j + 1)
            e == E(k) IN
        <<[name |-> Cols(h, k, e), from |-> k, to |-> e]>> \o HeadFrom(h, IF At(h, e) = 124 THEN e + 1 ELSE e)
HeadBad(hs, l) == \E k \in DOMAIN hs : (Len(hs[k].name) < 2 \/ Len(hs[k].name) >= 80) /\ \A j \in 1..k - 1 : hs[j].to < Len(l)
\* what a column is: its first letters
Named(n) == CASE At(n, 0) = C("T") -> SubSeq(Str(Take(n, 2)), 1, 2)
              [] Len(n) >= 3 /\ Take(n, 3) = S("rms") -> "rms"
              [] At(n, 1) = SP /\ At(n, 0) \in {C(x) : x \in {"q", "e", "i", "O", "o", "H", "G", "C"}} -> Str(Take(n, 1))
              [] At(n, 0) = C("O") -> "O" [] At(n, 0) = C("o") -> "o" [] OTHER -> "-"
Needed == {"q", "e", "Tp", "i", "O", "o"}
\* the last column of that name that the line reaches
ColOf(hs, l, nm) == LET ks == {k \in DOMAIN hs : Named(hs[k].name) = nm /\ hs[k].from < Len(l) /\ ~(\E j \in 1..k - 1 : hs[j].to >= Len(l))} IN
                    IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : \A y \in ks : y <= x IN <<Cols(l, hs[k].from, hs[k].to)>>
Sof(h, line) ==
   LET hs == HeadFrom(h, 0)  l == Line(line)
       col(nm) == ColOf(hs, l, nm)
       num(nm, dflt) == LET c == col(nm) IN IF c = <<>> THEN dflt ELSE Number(c[1])
       deg(nm) == Rad(num(nm, "0"))
       date(nm) == LET c == col(nm) IN IF c = <<>> \/ LStrip(c[1]) = <<>> THEN "0" ELSE YmdJd(c[1])
       cen == LET c == col("C") IN IF c = <<>> THEN 0 ELSE Atoi(c[1], 0) IN
   IF HeadBad(hs, l) \/ \E nm \in Needed : col(nm) = <<>> THEN [ok |-> FALSE]
   ELSE [ok |-> TRUE, q |-> num("q", "0"), e |-> num("e", "0"), i |-> deg("i"), n |-> deg("O"), w |-> deg("o"), T |-> date("Tp"), epoch |-> date("Te"),
         H |-> num("H", "0"), G |-> num("G", "0.15"), cen |-> cen, first |-> date("Tf"), last |-> date("Tl"), written |-> date("Tw"), rms |-> num("rms", "0")]

(* ---- MPCORB, ASTORB ---- *)
GaussK == "0.01720209895"
SunGm == DSq(GaussK)
PackDigit(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE c - 61
PackedDay(s) == Jdn(100 * PackDigit(At(s, 0)) + 10 * PackDigit(At(s, 1)) + PackDigit(At(s, 2)), PackDigit(At(s, 3)), PackDigit(At(s, 4)), TRUE)
\* the rest follows: perihelion is the one nearest the epoch
Completed(o) == LET m == IF DLt("180", o.M) THEN DSub(o.M, "360") ELSE o.M
                    n == DDiv(GaussK, DMul(o.a, DSqrt(o.a))) IN
                [day |-> o.day, epoch |-> Midnight(o.day), M |-> Rad(o.M), w |-> Rad(o.w), n |-> Rad(o.n), i |-> Rad(o.i), e |-> o.e, a |-> o.a,
                 q |-> DMul(o.a, DSub("1", o.e)), T |-> DSub(Midnight(o.day), DDiv(Rad(m), n)), H |-> o.H, G |-> o.G]
IsMpcorb(l) == Len(l) > 200 /\ At(l, 47) = SP /\ At(l, 82) = 46 /\ At(l, 25) = SP /\ At(l, 29) = 46 /\ At(l, 36) = SP
Mpcorb(l) == Completed([day |-> PackedDay(Drop(l, 20)), M |-> Number(Cols(l, 26, 35)), w |-> Number(Cols(l, 37, 46)), n |-> Number(Cols(l, 48, 57)),
                        i |-> Number(Cols(l, 59, 68)), e |-> Number(Cols(l, 70, 79)), a |-> Number(Cols(l, 92, 103)),
                        H |-> IF At(l, 10) = 46 THEN Number(Cols(l, 8, 13)) ELSE "0", G |-> IF At(l, 16) = 46 THEN Number(Cols(l, 14, 19)) ELSE "0"])
Astorb(l) == LET d == Drop(l, 106) IN
             Completed([day |-> Jdn(Atoi(Take(d, 4), 0), Atoi(Cols(d, 4, 6), 0), Atoi(Cols(d, 6, 8), 0), TRUE), M |-> Number(Cols(l, 115, 125)),
                        w |-> Number(Cols(l, 126, 136)), n |-> Number(Cols(l, 137, 147)), i |-> Number(Cols(l, 148, 157)), e |-> Number(Cols(l, 158, 168)),
                        a |-> Number(Cols(l, 169, 181)), H |-> Number(Cols(l, 42, 47)), G |-> Number(Cols(l, 48, 53))])

(* ---- from those to SOF (program mpc2sof) ---- *)
SofHead == S("Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^")
\* ELEMENTS.COMET
Comet(l) == [T |-> YmdJd(Cols(l, 105, 119)), epoch |-> DAdd(Number(Cols(l, 44, 51)), "2400000.5"), q |-> Number(Cols(l, 51, 63)), e |-> Number(Cols(l, 64, 74)),
             i |-> DegCol(Cols(l, 75, 84)), w |-> DegCol(Cols(l, 85, 94)), n |-> DegCol(Cols(l, 95, 104))]
Within(s, a) == LET x == {k \in 0..Len(s) - 1 : At(s, k) = SP /\ At(s, k + 1) = 40} IN IF x = {} THEN s ELSE Take(s, CHOOSE k \in x : \A j \in x : k <= j)
CometName(l) == LET nm == RStrip(Take(l, 44))  n == Len(nm) IN
                IF At(l, 2) = SP THEN RStrip(Within(Cols(l, 3, 15), 0))
                ELSE Take(l, 4) \o (IF At(nm, n - 2) = 45 THEN Drop(nm, n - 2) ELSE IF At(nm, n - 3) = 45 THEN Drop(nm, n - 3) ELSE <<>>)
AstName(l) == LET t == Cols(l, 166, 178) IN IF At(l, 173) = 41 THEN LStrip(SelectSeq(Cols(l, 166, 173), LAMBDA c : c # 40))
              ELSE RStrip(IF LStrip(Cols(l, 175, 187)) = <<>> THEN t ELSE Cols(l, 175, 187))
Sp(l, a, b) == Cols(l, a, b)
Digit(s) == s # <<>> /\ \A k \in DOMAIN s : IsDigit(s[k])
\* the SOF line o of an orbit x under the name nm
SameOrbit(x, o) ==
   LET g == Sof(SofHead, o) IN
   /\ g.ok /\ Len(Line(o)) = Len(SofHead)
   /\ DNear(g.T, x.T, "1.02e-7") /\ DNear(g.epoch, x.epoch, "0") /\ DNear(g.q, x.q, "0.6e-8") /\ DNear(g.e, x.e, "0.6e-8")
   /\ DNear(g.i, x.i, "1e-8") /\ DNear(g.n, x.n, "1e-8") /\ DNear(g.w, x.w, "1e-8")
AstOut(l, o) == LET x == Mpcorb(l)  g == Sof(SofHead, o)
                    arc == IF Cols(l, 132, 136) = S("days") THEN Atoi(Cols(l, 127, 131), 0)
                           ELSE 365 * (Atoi(Cols(l, 132, 136), 0) - Atoi(Cols(l, 127, 131), 0) + 1) IN
                /\ SameOrbit(x, o) /\ Spaced(LStrip(Cols(o, 0, 12))) # <<>> /\ LStrip(RStrip(Cols(o, 0, 12))) = LStrip(AstName(l))
                /\ DNear(g.H, x.H, "0") /\ DNear(g.G, x.G, "0") /\ Cols(o, 95, 99) = Cols(l, 137, 141) /\ Cols(o, 100, 105) = Cols(l, 117, 122)
                /\ Cols(o, 115, 123) = Cols(l, 194, 202) /\ Cols(o, 124, 131) = Cols(l, 142, 149)
                /\ DNear(g.first, DSub(g.last, Num(arc)), "0")
ComOut(l, o) == SameOrbit(Comet(l), o) /\ RStrip(Cols(o, 0, 12)) = CometName(l) /\ LStrip(Drop(Line(o), 95)) = <<>>

(* ---- the eight-line form ---- *)
\* el: T, q, e, i, w, n, epoch, M, a, t0, gm, H, G, ast, cen;  p: digits;  what fmt asks: ptime, nopq, nuclear
AuKm == "149597870.7"
Tiny(d) == "1e-" \o ToString(d)
Noise(v) == DMul("1e-14", DAdd("1", DAbs(v)))
\* %w.df at column k of s, the digits after the first keep blanked (or gone, where the line is cut)
Field(s, k, w, d, keep, v, plus) ==
   LET dot == k + w - d - 1  t == Cols(s, k, dot + 1 + keep)
       vv == DAbs(v)  u == LStrip(t) IN
   /\ At(s, dot) = 46 /\ (\A j \in 1..keep : IsDigit(At(s, dot + j))) /\ \A j \in keep + 1..d : At(s, dot + j) \in {0, SP}
   /\ LET g == IF At(u, 0) \in {43, 45} THEN Drop(u, 1) ELSE u IN IsDigit(At(g, 0)) /\ At(g, DigitsFrom(g, 0)) = 46 /\ (plus <=> At(u, 0) = 43 \/ (plus /\ At(u, 0) = 45))
   /\ LET x == Str(IF At(u, 0) = 43 THEN Drop(u, 1) ELSE u)
          eps == DAdd(Noise(v), DMul("0.5001", Tiny(d))) IN
      IF keep = d THEN DNear(x, v, eps)
      ELSE DLe(DAbs(x), DAdd(vv, eps)) /\ DLt(vv, DAdd(DAdd(DAbs(x), Tiny(keep)), eps)) /\ (DLt(vv, eps) \/ DLe("0", DMul(x, v)) \/ DLe(DAbs(x), "0"))
\* a distance, from column k; its end, or -1
HugeT == S(" <HUGE>")
KmT == S("km")
Distance(s, k, v, p, lead) ==
   IF DLt("999999", v) THEN LET t == IF lead THEN HugeT ELSE Drop(HugeT, 1) IN IF Cols(s, k, k + Len(t)) = t THEN k + Len(t) ELSE -1
   ELSE LET km == ~DLt(DDiv("999999", AuKm), v)  x == IF km THEN DMul(v, AuKm) ELSE v
            d == IF DLt("9999", v) THEN 15 ELSE IF km THEN 16 ELSE 18
            b == IF lead THEN SkipFrom(s, k, SP) ELSE k  e == DigitsFrom(s, b)  n == e - b
            dd == IF n >= p + 4 THEN 0 ELSE IF p + 4 - n < d THEN p + 4 - n ELSE d
            f == IF dd = 0 THEN e ELSE e + 1 + dd IN
        IF n >= 1 /\ (lead => b - k = (IF 22 - d > n THEN 22 - d - n ELSE 0)) /\ (dd = 0 \/ (At(s, e) = 46 /\ \A j \in e + 1..e + dd : IsDigit(At(s, j))))
           /\ LET t == Str(Cols(s, b, f))  eps == DAdd(DMul("1e-15", x), DMul("0.5001", Tiny(d))) IN
              IF dd = d THEN DNear(t, x, eps) ELSE DLe(t, DAdd(x, eps)) /\ DLt(x, DAdd(DAdd(t, IF dd = 0 THEN "1" ELSE Tiny(dd)), eps))
           /\ (km => Cols(s, f, f + 2) = KmT)
        THEN IF km THEN f + 2 ELSE f ELSE -1
PeriNames == <<"barion", "helion", "mercury", "venus", "gee", "mars", "jove", "saturn", "uranus", "neptune", "pluto", "lune">>
MonthNames == <<S("Jan"), S("Feb"), S("Mar"), S("Apr"), S("May"), S("Jun"), S("Jul"), S("Aug"), S("Sep"), S("Oct"), S("Nov"), S("Dec")>>
MonthOf(s) == LET x == {m \in 1..12 : MonthNames[m] = s} IN IF x = {} THEN 0 ELSE CHOOSE m \in x : TRUE
\* "2020 Jan 31.25" from k on, decimals d: [ok, jd, next]
DateText(s, k, d) ==
   LET a == SkipWs(s, k)  b == DigitsFrom(s, IF At(s, a) = 45 THEN a + 1 ELSE a)  m == MonthOf(Cols(s, b + 1, b + 4))
       c == SkipWs(s, b + 4)  e == DigitsFrom(s, c)  f == IF d = 0 THEN e ELSE e + 1 + d  y == Atoi(Cols(s, a, b), 0)  day == QuickAtoi(s, c)
       good == b > a /\ m > 0 /\ c < e /\ At(s, b) = SP /\ (d = 0 \/ (At(s, e) = 46 /\ \A j \in e + 1..f - 1 : IsDigit(At(s, j)))) /\ RealDate(y, m, day) IN
   [ok |-> good, next |-> f, jd |-> IF good THEN DAdd(Midnight(JG(y, m, day)), IF d = 0 THEN "0" ELSE Str(<<48>> \o Cols(s, e, f))) ELSE "0"]
TtT == S(" TT")
PeriLine(s, el, p, ptime) ==
   LET nm == S("   Peri") \o (IF el.cen \in -1..10 THEN S(PeriNames[el.cen + 2]) ELSE S("----")) \o <<SP>>
       d == DateText(s, Len(nm), p)  half == DAdd(DMul("0.5001", Tiny(p)), "1e-9")
       h == d.next + 3  RECURSIVE Num60(_, _, _)
       Num60(k, left, acc) == IF left = 0 THEN acc ELSE Num60(k + 3, left - 1, 60 * acc + Atoi(Cols(s, k, k + 2), 0))
       paren == {j \in h..Len(s) : At(s, j) = 40}  q == IF paren = {} THEN h ELSE CHOOSE j \in paren : \A x \in paren : j <= x
       sec == Cols(s, h + 9, q - 1)
       secs == DAdd(Num(Num60(h + 3, 3, 0)), IF At(s, h + 11) = 46 THEN Str(<<48>> \o Cols(s, h + 11, q - 1)) ELSE "0")
       unit == IF p > 5 THEN Tiny(p - 5) ELSE "1"
       tod == DMul("86400", DMod(DAdd(el.T, "0.5"), "1"))
       diff == DAbs(DSub(secs, tod)) IN
   /\ Take(s, Len(nm)) = nm /\ d.ok /\ DNear(d.jd, el.T, half) /\ Cols(s, d.next, h) = TtT
   /\ IF ~ptime THEN Len(s) = h
      ELSE /\ Cols(s, h, h + 3) = S(" = ") /\ At(s, h + 5) = 58 /\ At(s, h + 8) = 58
           /\ q - 1 = h + 11 + (IF p > 5 THEN p - 4 ELSE 0)
           /\ DLe(diff, DAdd(unit, "1e-4")) \/ DLe(DSub("86400", diff), DAdd(unit, "1e-4"))
           /\ Cols(s, q, q + 4) = S("(JD ") /\ s[Len(s)] = 41 /\ DNear(Str(Cols(s, q + 4, Len(s) - 1)), el.T, half)
EpochLine(s, el) ==
   LET eq == {j \in 0..Len(s) : Cols(s, j, j + 10) = S(" TT = JDT ")}  q == IF eq = {} THEN 0 ELSE CHOOSE j \in eq : TRUE
       jd == Drop(s, q + 10)  nd == Len(jd) - 1 - DigitsFrom(jd, 0)
       y == DateText(s, 6, nd)  w == DigitsFrom(s, IF At(s, SkipWs(s, 5)) = 45 THEN SkipWs(s, 5) + 1 ELSE SkipWs(s, 5)) IN
   /\ eq # {} /\ Take(s, 6) = S("Epoch ") /\ y.ok /\ y.next = q /\ nd \in 1..6 /\ At(jd, DigitsFrom(jd, 0)) = 46
   /\ (nd = 1 \/ s[Len(s)] # 48) /\ DNear(Str(jd), el.epoch, "0.7e-6") /\ DNear(y.jd, el.epoch, "0.7e-6") /\ DNear(y.jd, Str(jd), "0.11e-6")
   /\ q = w + 5 + 9 - (6 - nd) /\ (w >= 10)
\* the axes, on the equator of 2000
Obl == <<"0.917482062069181825744000384639406458043", "0.397777155931913701597179975942380896684">>
Equ(v) == <<v[1], DSub(DMul(v[2], Obl[1]), DMul(v[3], Obl[2])), DAdd(DMul(v[3], Obl[1]), DMul(v[2], Obl[2]))>>
Axes(el) ==
   LET cw == DCos(el.w)  sw == DSin(el.w)  cn == DCos(el.n)  sn == DSin(el.n)  ci == DCos(el.i)  si == DSin(el.i)
       p == <<DSub(DMul(cw, cn), DMul(DMul(sw, sn), ci)), DAdd(DMul(cw, sn), DMul(DMul(sw, cn), ci)), DMul(sw, si)>>
       z == <<DMul(sn, si), DNeg(DMul(cn, si)), ci>> IN [P |-> Equ(p), Q |-> Equ(VCross(z, p))]
Deg(r) == DDiv(DMul(r, "180"), DPi)
Deg360(r) == DMod(Deg(r), "360")
PqHead == S(" (2000.0)            P               Q")
\* "Peri." and the like at k, then a component of each axis; the line ends there
Tail3(s, k, name, deg, nopq, p, nd, P, Q) ==
   LET n2 == IF p > 13 THEN p ELSE 13  keep == Down(n2, p + n2 - nd) IN
   /\ Cols(s, k, k + 5) = name
   /\ IF nopq THEN Len(s) = k + 11 + p /\ Field(s, k + 5, nd + 6, nd, p, deg, FALSE)
      ELSE /\ Field(s, k + 5, nd + 6, nd, p, deg, FALSE)
           /\ Field(s, k + nd + 11, n2 + 3, n2, keep, P, TRUE) /\ Field(s, k + nd + n2 + 14, n2 + 3, n2, keep, Q, TRUE)
           /\ Len(s) = k + nd + 17 + 2 * n2
Blank(s, a, b) == \A j \in a..b - 1 : At(s, j) = SP
MagText(s, k, el, nuc, a, b) ==                       \* H or M(T) at k, G or K: the end
   IF el.ast THEN IF At(s, k) = 72 /\ Field(s, k + 1, 8, 2, 2, el.H, FALSE) /\ Cols(s, k + 9, k + 9 + Len(a)) = a /\ Field(s, k + 9 + Len(a), b, 2, 2, el.G, FALSE) THEN k + 9 + Len(a) + b ELSE -1
   ELSE LET kk == k + 9 + Len(a) IN
        IF Cols(s, k, k + 4) = (IF nuc THEN S("M(N)") ELSE S("M(T)")) /\ Field(s, k + 4, 5, 1, 1, el.H, FALSE) /\ Cols(s, k + 9, kk) = a /\ Field(s, kk, 5, 1, 1, el.G, FALSE) THEN kk + 5 ELSE -1
PeriodText(s, el) ==                                 \* the end
   LET yr == DMul(el.a, DSqrt(DDiv(DMul(el.a, SunGm), el.gm)))  dy == DMul(yr, "365.25") IN
   IF At(s, 0) # C("P") THEN -1
   ELSE IF el.cen <= 0 \/ DLt("1", yr)
   THEN IF DLt("99999999", yr) THEN IF Take(s, 9) = S("P!!!!!!! ") THEN 9 ELSE -1
        ELSE IF DLt("9999", yr) THEN LET t == Spaced(Drop(s, 1)) IN IF Digit(t) /\ DNear(DAdd(Str(t), "0.5"), yr, DAdd("0.5", DMul("1e-13", yr))) /\ At(s, Up(8, 1 + Len(t))) = SP THEN Up(8, 1 + Len(t)) + 1 ELSE -1
        ELSE IF DLt("999.9", dy) THEN IF Field(s, 1, 10, 5, 5, yr, FALSE) /\ Blank(s, 11, 18) THEN 18 ELSE -1
        ELSE IF Field(s, 1, 8, 3, 3, yr, FALSE) /\ At(s, 9) = 47 /\ Field(s, 10, 7, 3, 3, dy, FALSE) /\ At(s, 17) = C("d") THEN 18 ELSE -1
   ELSE IF DLt(DMul(dy, "1440"), "9999") THEN IF Field(s, 1, 8, 3, 3, DMul(dy, "1440"), FALSE) /\ Cols(s, 9, 11) = S("m/") /\ Field(s, 11, 5, 3, 3, dy, FALSE) /\ Cols(s, 16, 18) = S("d ") THEN 18 ELSE -1
        ELSE IF Field(s, 1, 9, 4, 4, dy, FALSE) /\ At(s, 10) = C("d") /\ Blank(s, 11, 18) THEN 18 ELSE -1
ElementLines(ls, id, el, p, com, ptime, nopq, nuc) ==
   LET nd == Up(p, 10)  parab == com \/ DLe("1", el.e)
       peri == DLt("2", el.T) /\ DLt(el.T, "3000000")
       x == IF peri THEN 1 ELSE 0  ax == Axes(el)
       L(k) == ls[k + x] IN
   IF Len(ls) # x + (IF parab THEN 6 ELSE 7) THEN <<FALSE>> ELSE <<
   (ls[1] = id /\ (peri => PeriLine(ls[2], el, p, ptime))),
   (EpochLine(L(2), el)),
   (LET s == L(3)
          e == IF parab THEN LET z == Distance(s, 1, el.q, p, TRUE) IN IF At(s, 0) = C("q") /\ z > 0 /\ Blank(s, z, nd + 9) THEN Up(z, nd + 9) ELSE -1
               ELSE IF At(s, 0) = C("M") /\ Field(s, 1, 20, 15, Down(p + 3, 15), Deg360(el.M), FALSE) THEN 21 ELSE -1 IN
      e > 0 /\ Drop(s, e) = (IF nopq THEN <<>> ELSE PqHead)),
   (LET s == L(4)
          ok == IF parab THEN IF DNear(el.H, "0", "0") THEN Blank(s, 0, nd + 9)
                              ELSE LET e == MagText(s, 0, el, nuc, IF el.ast THEN S(" G") ELSE S("  K"), 5) IN e > 0 /\ Blank(s, e, nd + 9)
                ELSE At(s, 0) = C("n") /\ Field(s, 1, nd + 8, nd + 3, p + 3, DDiv(Deg("1"), el.t0), FALSE) IN
      ok /\ Tail3(s, nd + 9, S("Peri."), Deg360(el.w), nopq, p, nd, ax.P[1], ax.Q[1])),
   (LET s == L(5)
          e == IF parab THEN IF DLt("-0.0011", el.a) \/ DLt(el.a, "-100000") THEN 0
                             ELSE IF At(s, 0) = C("z") /\ Field(s, 1, nd + 5, nd, nd, DDiv("1", el.a), FALSE) THEN nd + 6 ELSE -1
               ELSE IF At(s, 0) = C("a") THEN Distance(s, 1, el.a, p, TRUE) ELSE -1 IN
      e >= 0 /\ Blank(s, e, nd + 9) /\ Tail3(s, Up(e, nd + 9), S("Node "), Deg360(el.n), nopq, p, nd, ax.P[2], ax.Q[2])),
   (LET s == L(6) IN
      /\ IF com THEN Take(s, 19) = S("e   1.0            ") ELSE At(s, 0) = C("e") /\ Field(s, 1, nd + 8, nd + 3, p + 2, el.e, FALSE)
      /\ Tail3(s, IF com THEN 19 ELSE nd + 9, S("Incl."), Deg(el.i), nopq, p, nd, ax.P[3], ax.Q[3])),
   (~parab =>
        LET s == L(7)  a == PeriodText(s, el)
            b == IF DNear(el.H, "0", "0") THEN a ELSE IF a > 0 /\ At(s, a) = SP THEN MagText(s, a + 1, el, nuc, IF el.ast THEN S("    G ") ELSE S("    K "), 6) ELSE -1
            c == IF b > 0 /\ Cols(s, b, b + 5) = S("   q ") THEN Distance(s, b + 5, el.q, p, FALSE) ELSE -1
            d == IF c > 0 /\ Cols(s, c, c + 4) = S("  Q ") THEN Distance(s, c + 4, DDiv(DMul(el.q, DAdd("1", el.e)), DSub("1", el.e)), p, FALSE) ELSE -1 IN
        a > 0 /\ b > 0 /\ c > 0 /\ d = Len(s)) >>
Elements(ls, id, el, p, com, ptime, nopq, nuc) == LET g == ElementLines(ls, id, el, p, com, ptime, nopq, nuc) IN \A k \in DOMAIN g : g[k]
=============================================================================
