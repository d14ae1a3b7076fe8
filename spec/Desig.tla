-------------------------------- MODULE Desig --------------------------------
(***************************************************************************)
(* Designations of minor planets, comets, satellites and artificial        *)
(* objects.  Three views:                                                  *)
(*   - abstract designations (records), with Full(d) the readable form,    *)
(*     Packed(d) the twelve columns and Class(d);                          *)
(*   - PackText(t): what packing any text must give;                       *)
(*   - Unpack(p): what unpacking any twelve columns must give.             *)
(* The model checks that the views agree; the trace specification holds    *)
(* the code to PackText and Unpack.                                        *)
(***************************************************************************)
EXTENDS Text, FiniteSets

AST_PROV == 0  AST_NUM == 1  COM_PROV == 2  COM_NUM == 3  SAT_PROV == 4  SAT_NUM == 5  ARTSAT == 6  UNKNOWN == -1

(* ---- base 62 ----------------------------------------------------------- *)
MH(n) == IF n < 10 THEN 48 + n ELSE IF n < 36 THEN 55 + n ELSE 61 + n       \* 0..61 to character
UnMH(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE IF IsLower(c) THEN c - 61 ELSE -1
MH4(n) == <<MH(n \div 238328), MH((n \div 3844) % 62), MH((n \div 62) % 62), MH(n % 62)>>
P62_4 == 14776336                                                            \* 62^4
RECURSIVE UnMHs(_, _)
UnMHs(s, acc) == IF s = <<>> THEN acc
                 ELSE LET d == UnMH(s[1]) IN IF d < 0 THEN -1 ELSE UnMHs(Tail(s), 62 * acc + d)
MaxNumber == 620000 + P62_4

(* ---- Roman numerals ----------------------------------------------------- *)
RomD == << <<>>, S("I"), S("II"), S("III"), S("IV"), S("V"), S("VI"), S("VII"), S("VIII"), S("IX")>>
RomT == << <<>>, S("X"), S("XX"), S("XXX"), S("XL"), S("L"), S("LX"), S("LXX"), S("LXXX"), S("XC")>>
RomH == << <<>>, S("C"), S("CC"), S("CCC"), S("CD"), S("D"), S("DC"), S("DCC"), S("DCCC"), S("CM")>>
Roman(n) == RomH[(n \div 100) + 1] \o RomT[((n \div 10) % 10) + 1] \o RomD[(n % 10) + 1]
RomVal(c) == CASE c = 73 -> 1 [] c = 86 -> 5 [] c = 88 -> 10 [] c = 76 -> 50 [] c = 67 -> 100 [] c = 68 -> 500 [] c = 77 -> 1000 [] OTHER -> 0
RECURSIVE UnRomanR(_, _, _)
UnRomanR(s, k, acc) ==
   IF k >= Len(s) THEN acc
   ELSE LET c == At(s, k)  n == At(s, k + 1)
            neg == (c = 73 /\ n \in {86, 88}) \/ (c = 88 /\ n \in {76, 67}) \/ (c = 67 /\ n \in {68, 77})
        IN  IF RomVal(c) = 0 THEN -1 ELSE UnRomanR(s, k + 1, acc + (IF neg THEN -RomVal(c) ELSE RomVal(c)))
UnRoman(s) == UnRomanR(s, 0, 0)

Planets == <<S("Venus"), S("Earth"), S("Mars"), S("Jupiter"), S("Saturn"), S("Uranus"), S("Neptune"), S("Pluto")>>
PlanetLetters == S("MVEJSUNP")
Surveys == <<S("P-L"), S("T-1"), S("T-2"), S("T-3")>>
SurveysPacked == <<S("PLS"), S("T1S"), S("T2S"), S("T3S")>>
CometKinds == S("PCXDA")

(* ---- abstract designations ---------------------------------------------- *)
\* second letters A..Z without I
Letter25(k) == IF k < 8 THEN 65 + k ELSE 66 + k
Year4(y) == DecW(y, 4)
YearPacked(y) == <<MH(y \div 100)>> \o DecW(y % 100, 2)
CyclePacked(n) == <<MH(n \div 10), 48 + (n % 10)>>
OptNum(n) == IF n = 0 THEN <<>> ELSE Dec(n)

Full(d) ==
   CASE d.kind = "num"  -> S("(") \o Dec(d.n) \o S(")")
     [] d.kind = "prov" -> Year4(d.y) \o <<SP, d.h, Letter25(d.l)>> \o OptNum(d.n)
     [] d.kind = "comprov" -> <<d.k, 47>> \o Year4(d.y) \o <<SP, d.h>> \o (IF d.l >= 0 THEN <<Letter25(d.l)>> ELSE <<>>)
                               \o OptNum(d.n) \o (IF d.f > 0 THEN <<45, 64 + d.f>> ELSE <<>>)
     [] d.kind = "comnum" -> Dec(d.n) \o <<d.k>> \o (IF d.f = 0 THEN <<>> ELSE IF d.f <= 26 THEN <<45, 64 + d.f>>
                               ELSE <<45, 64 + d.f \div 27, 65 + (d.f % 26)>>)
     [] d.kind = "satnum" -> Planets[d.p] \o <<SP>> \o Roman(d.n)
     [] d.kind = "satprov" -> S("S/") \o Year4(d.y) \o <<SP, d.p, SP>> \o Dec(d.n)
     [] d.kind = "survey" -> Dec(d.n) \o <<SP>> \o Surveys[d.s]
     [] d.kind = "art" -> Year4(d.y) \o <<45>> \o DecW(d.n, 3) \o d.piece
Packed(d) ==
   CASE d.kind = "num"  -> IF d.n < 620000 THEN <<MH(d.n \div 10000)>> \o DecW(d.n % 10000, 4) \o Spaces(7)
                           ELSE <<126>> \o MH4(d.n - 620000) \o Spaces(7)
     [] d.kind = "prov" -> Spaces(5) \o (IF d.n < 620 THEN YearPacked(d.y) \o <<d.h>> \o CyclePacked(d.n) \o <<Letter25(d.l)>>
                                         ELSE <<95, MH(d.y - 2000), d.h>> \o MH4((d.n - 620) * 25 + d.l))
     [] d.kind = "comprov" -> Spaces(4) \o <<d.k>> \o YearPacked(d.y) \o <<d.h>> \o CyclePacked(d.n)
                               \o (IF d.l >= 0 THEN <<Letter25(d.l)>> ELSE IF d.f > 0 THEN <<96 + d.f>> ELSE <<48>>)
     [] d.kind = "comnum" -> DecW(d.n, 4) \o <<d.k>> \o Spaces(5) \o (IF d.f = 0 THEN Spaces(2) ELSE IF d.f <= 26 THEN <<SP, 96 + d.f>>
                               ELSE <<96 + d.f \div 27, 97 + (d.f % 26)>>)
     [] d.kind = "satnum" -> <<Planets[d.p][1]>> \o DecW(d.n, 3) \o S("S") \o Spaces(7)
     [] d.kind = "satprov" -> Spaces(4) \o S("S") \o YearPacked(d.y) \o <<d.p>> \o CyclePacked(d.n) \o S("0")
     [] d.kind = "survey" -> Spaces(5) \o SurveysPacked[d.s] \o Dec(d.n)
     [] d.kind = "art" -> Take(Year4(d.y) \o <<45>> \o DecW(d.n, 3) \o d.piece \o Spaces(12), 12)
Class(d) == CASE d.kind \in {"num"} -> AST_NUM [] d.kind \in {"prov", "survey"} -> AST_PROV
              [] d.kind = "comprov" -> IF d.k = 65 THEN AST_PROV ELSE COM_PROV
              [] d.kind = "comnum" -> COM_NUM [] d.kind = "satnum" -> SAT_NUM
              [] d.kind = "satprov" -> SAT_PROV [] d.kind = "art" -> ARTSAT

(* ---- packing any text ---------------------------------------------------- *)
Clamp(s, k) == \* the number read digit by digit, growing no further once too large to be a designation
   LET f[j \in 0..(DigitsFrom(s, k) - k)] == IF j = 0 THEN 0
             ELSE IF f[j - 1] < MaxNumber THEN 10 * f[j - 1] + s[k + j] - 48 ELSE f[j - 1]
   IN  f[DigitsFrom(s, k) - k]
MaxCycle == 620 + P62_4 \div 25
Fail == [rc |-> -1]

\* provisional designation: t the text, i the index of the half-month letter, cd the comet kind or 0
PackProv(t, number, i, cd, len) ==
   LET half == At(t, i)
       two  == IsUpper(At(t, i + 1))
       let  == IF two THEN At(t, i + 1) ELSE 48
       j    == IF two THEN i + 2 ELSE i + 1
       e    == DigitsFrom(t, j)
       nd   == e - j
       bad0 == (~two /\ cd = 0) \/ nd > 6
       cyc  == IF nd > 6 THEN 0 ELSE QuickAtoi(t, j)
       ext  == cyc >= 620
       n    == (cyc - 620) * 25 + (let - 65) - (IF let > 73 THEN 1 ELSE 0)
       bad1 == ext /\ ~(number >= 2000 /\ number < 2062 /\ cyc <= MaxCycle /\ IsUpper(let) /\ let # 73 /\ n < P62_4)
       frag == cd # 0 /\ At(t, e) = 45 /\ IsUpper(At(t, e + 1))
       bad2 == frag /\ (two \/ ext)
       last == IF frag THEN e + 2 ELSE e
       body == IF ext THEN <<95, MH(number - 2000), half>> \o MH4(n)
               ELSE <<MH(number \div 100), At(t, 2), At(t, 3), half>> \o CyclePacked(cyc) \o <<IF frag THEN At(t, e + 1) + 32 ELSE let>>
   IN  IF number >= 6200 \/ bad0 \/ bad1 \/ bad2 \/ last # len THEN Fail
       ELSE [rc |-> 0, out |-> Spaces(4) \o <<IF cd # 0 THEN cd ELSE SP>> \o body]

PackSatNum(t) == LET M == {p \in 1..8 : StartsWith(t, Planets[p] \o <<SP>>)} IN
   IF M = {} THEN Fail
   ELSE LET p == CHOOSE q \in M : TRUE  r == Drop(t, Len(Planets[p]) + 1)
            a == Atoi(r, 0)  n == IF a = 0 THEN UnRoman(r) ELSE a
        IN  IF n > 0 /\ n < 1000 THEN [rc |-> 0, out |-> <<t[1]>> \o DecW(n, 3) \o S("S") \o Spaces(7)] ELSE Fail
PackSatProv(t) ==
   IF At(t, 0) = 83 /\ At(t, 1) = 47 /\ Len(t) > 9 /\ At(t, 6) = SP /\ At(t, 8) = SP /\ In(At(t, 7), PlanetLetters)
   THEN LET y == Atoi(t, 2)  n == Atoi(t, 9) IN
        IF y > 1900 /\ y < 2100 /\ n > 0 /\ n < 620
        THEN [rc |-> 0, out |-> Spaces(4) \o S("S") \o YearPacked(y) \o <<At(t, 7)>> \o CyclePacked(n) \o S("0")]
        ELSE Fail
   ELSE Fail

PackText(raw) ==
   LET n1 == LStrip(raw)
       paren0 == At(n1, 0) = 40 /\ LET j == DigitsFrom(n1, 1) IN At(n1, j) = 41 /\ j + 1 = Len(n1)
       n2 == IF paren0 THEN Drop(n1, 1) ELSE n1
       isCom == At(n2, 1) = 47 /\ In(At(n2, 0), CometKinds)
       cd == IF isCom THEN At(n2, 0) ELSE 0
       t  == IF isCom THEN Drop(n2, 2) ELSE n2
       i0 == DigitsFrom(t, 0)
       number == Clamp(t, 0)
       len == RTrimLen(t, IF paren0 THEN Len(t) - 1 ELSE Len(t))
       paren == paren0 \/ (i0 = len /\ number > 0 /\ number < 1000000 /\ i0 >= 5)
       c0 == At(t, i0)
       fr1 == At(t, i0 + 1) = 45 /\ IsUpper(At(t, i0 + 2)) /\ Len(t) = i0 + 3
       fr2 == At(t, i0 + 1) = 45 /\ IsUpper(At(t, i0 + 2)) /\ IsUpper(At(t, i0 + 3)) /\ Len(t) = i0 + 4
       isComNum == number > 0 /\ number < 10000 /\ In(c0, S("PDI")) /\ (Len(t) = i0 + 1 \/ fr1 \/ fr2)
       i1 == IF i0 < len /\ c0 = SP THEN i0 + 1 ELSE i0
       sv == {k \in 1..4 : Drop(t, i1) = Surveys[k]}
       cf1 == At(t, i1) = 45 /\ IsUpper(At(t, i1 + 1)) /\ i1 + 2 = len
       cf2 == At(t, i1) = 45 /\ IsUpper(At(t, i1 + 1)) /\ IsUpper(At(t, i1 + 2)) /\ i1 + 3 = len
       res ==
         IF isComNum
         THEN [rc |-> 0, out |-> DecW(number, 4) \o <<c0>> \o Spaces(5) \o
                (IF fr2 THEN <<At(t, i0 + 2) + 32, At(t, i0 + 3) + 32>> ELSE IF fr1 THEN <<SP, At(t, i0 + 2) + 32>> ELSE Spaces(2))]
         ELSE IF number > 999 /\ number < 10000 /\ IsUpper(At(t, i1))
         THEN IF sv # {} THEN [rc |-> 0, out |-> Spaces(5) \o SurveysPacked[CHOOSE k \in sv : TRUE] \o Take(t, 4)]
              ELSE PackProv(t, number, i1, cd, len)
         ELSE IF paren /\ i1 = len /\ number > 0 /\ number < MaxNumber /\ cd = 0
         THEN [rc |-> 0, out |-> Packed([kind |-> "num", n |-> number])]
         ELSE IF number > 0 /\ number < 10000 /\ cd # 0
         THEN IF i1 = len \/ cf1 \/ cf2
              THEN [rc |-> 0, out |-> DecW(number, 4) \o <<cd>> \o Spaces(5) \o
                     (IF cf2 THEN <<At(t, i1 + 1) + 32, At(t, i1 + 2) + 32>> ELSE IF cf1 THEN <<SP, At(t, i1 + 1) + 32>> ELSE Spaces(2))]
              ELSE Fail
         ELSE IF number >= 1957 /\ number < 2100 /\ At(t, 4) = 45 /\ len >= 9 /\ len <= 11
         THEN IF IsDigit(At(t, 5)) /\ IsDigit(At(t, 6)) /\ IsDigit(At(t, 7)) /\ IsUpper(At(t, 8))
              THEN [rc |-> 0, out |-> Take(Take(t, len) \o Spaces(12), 12)] ELSE Fail
         ELSE LET a == PackSatNum(t) IN IF a.rc = 0 THEN a ELSE PackSatProv(t)
       lit == IF isCom THEN n2 ELSE t                       \* stored literally
       litlen == IF isCom THEN len + 2 ELSE len
   IN  IF res.rc = 0 THEN res
       ELSE [rc |-> -1, out |-> IF litlen <= 7 THEN Spaces(5) \o Take(Take(lit, litlen) \o Spaces(7), 7)
                                ELSE <<36>> \o Take(Take(lit, 11) \o Spaces(11), 11)]

(* ---- unpacking any twelve columns ----------------------------------------- *)
ProvText(q) ==      \* q: seven columns; <<>> if not a packed provisional designation
   IF q[1] = 95 /\ IsUpper(q[3])
   THEN LET y == UnMH(q[2])  n == UnMHs(SubSeq(q, 4, 7), 0) IN
        IF y < 0 \/ n < 0 THEN <<>>
        ELSE Dec(2000 + y) \o <<SP, q[3], Letter25(n % 25)>> \o Dec(620 + n \div 25)
   ELSE IF q[1] >= 71 /\ q[1] <= 75 /\ IsDigit(q[2]) /\ IsDigit(q[3]) /\ IsUpper(q[4]) /\ UnMH(q[5]) >= 0
           /\ IsDigit(q[6]) /\ (IsAlpha(q[7]) \/ q[7] = 48)
   THEN LET n == 10 * UnMH(q[5]) + q[6] - 48 IN
        Dec(q[1] - 55) \o <<q[2], q[3], SP, q[4]>> \o (IF IsUpper(q[7]) THEN <<q[7]>> ELSE <<>>) \o OptNum(n)
           \o (IF IsLower(q[7]) THEN <<45, q[7] - 32>> ELSE <<>>)
   ELSE <<>>

AllIn(p, K, P(_)) == \A k \in K : P(p[k + 1])
IsSp(c) == c = SP
RECURSIVE RTrimCtl(_)
RTrimCtl(s) == IF s # <<>> /\ s[Len(s)] <= SP THEN RTrimCtl(SubSeq(s, 1, Len(s) - 1)) ELSE s
IsArt(p) == \E k \in 0..3 : At(p, k + 4) = 45 /\ Atoi(Drop(p, k), 0) > 1956 /\ Atoi(Drop(p, k), 0) < 2100
                /\ IsDigit(At(p, k + 5)) /\ IsDigit(At(p, k + 6)) /\ IsDigit(At(p, k + 7)) /\ IsUpper(At(p, k + 8))

Unpack(p) ==       \* p: exactly twelve columns
   LET prov == ProvText(SubSeq(p, 6, 12))
       sp59 == AllIn(p, 5..9, IsSp)
       some59 == \E k \in 5..9 : p[k + 1] = SP
       num62 == UnMHs(SubSeq(p, 2, 5), 0)
       satn == p[5] = 83 /\ In(p[1], PlanetLetters) /\ AllIn(p, 1..3, IsDigit) /\ AllIn(p, 5..11, IsSp)
       satp == p[5] = 83 /\ In(p[9], PlanetLetters) /\ AllIn(p, {6, 7, 10, 11}, IsDigit)
               /\ {k \in 0..11 : p[k + 1] = SP} = 0..3 /\ UnMH(p[10]) >= 0 /\ p[12] = 48 /\ p[6] >= 72 /\ p[6] <= 90
       numb == IsAlnum(p[1]) /\ AllIn(p, 1..3, IsDigit) /\ (sp59 \/ prov # <<>>)
       comf == IF IsLower(p[12]) THEN <<45>> \o (IF IsLower(p[11]) THEN <<p[11] - 32>> ELSE <<>>) \o <<p[12] - 32>> ELSE <<>>
       z == LET a == SkipFrom(p, 0, 48) IN SubSeq(p, a + 1, DigitsFrom(p, a))
       survey == {k \in 0..11 : p[k + 1] = SP} = 0..4 /\ AllIn(p, 8..11, IsDigit)
                 /\ \E k \in 1..4 : SubSeq(p, 6, 8) = SurveysPacked[k]
       asis == RTrimCtl(LStrip(p))
   IN  IF p[1] = 36 THEN [rc |-> AST_NUM, out |-> Drop(p, 1)]
       ELSE IF p[1] = 126 /\ (sp59 \/ ~some59) /\ num62 >= 0
       THEN [rc |-> AST_NUM, out |-> S("(") \o Dec(620000 + num62) \o S(")") \o (IF prov # <<>> THEN <<SP>> \o prov ELSE <<>>)]
       ELSE IF satn
       THEN [rc |-> SAT_NUM, out |-> Planets[CHOOSE k \in 1..8 : Planets[k][1] = p[1]] \o <<SP>> \o Roman(QuickAtoi(p, 1))]
       ELSE IF satp
       THEN [rc |-> SAT_PROV, out |-> S("S/") \o Dec(p[6] - 55) \o <<p[7], p[8], SP, p[9], SP>> \o
                   (IF UnMH(p[10]) > 0 THEN Dec(UnMH(p[10])) ELSE <<>>) \o <<p[11]>>]
       ELSE IF numb /\ IsDigit(p[5])
       THEN [rc |-> AST_NUM, out |-> S("(") \o Dec(UnMH(p[1]) * 10000 + QuickAtoi(Take(p, 5), 1)) \o S(")") \o
                   (IF prov # <<>> THEN S(" = ") \o prov ELSE <<>>)]
       ELSE IF numb /\ In(p[5], S("PCDXAI"))
       THEN [rc |-> COM_NUM, out |-> z \o <<p[5]>> \o comf]
       ELSE IF AllIn(p, 0..3, IsSp) /\ In(p[5], S(" PCDXA")) /\ prov # <<>>
       THEN [rc |-> IF p[5] \in {SP, 65} THEN AST_PROV ELSE COM_PROV,
             out |-> (IF p[5] = SP THEN <<>> ELSE <<p[5], 47>>) \o prov]
       ELSE IF survey
       THEN [rc |-> AST_PROV, out |-> SubSeq(p, 9, 12) \o <<SP, p[6], 45, p[7]>>]
       ELSE [rc |-> IF IsArt(p) THEN ARTSAT ELSE UNKNOWN, out |-> asis]

(* the name as typed in a form: twelve columns are found for it first *)
RECURSIVE WordEnd(_, _)
WordEnd(s, k) == IF At(s, k) > SP /\ At(s, k) < 127 THEN WordEnd(s, k + 1) ELSE k
Unaligned(s) ==
   LET t == LStrip(s)  len == WordEnd(t, 0) IN
   IF len > 12 THEN [rc |-> UNKNOWN, out |-> Take(t, 12)]
   ELSE LET col == IF len \in {7, 8} THEN 12 - len ELSE 0
        IN  Unpack(Take(Spaces(col) \o Take(t, len) \o Spaces(12), 12))
=============================================================================
