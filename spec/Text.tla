-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of character codes, with the C idioms the formats   *)
(* of this library are described in.                                        *)
EXTENDS Integers, Sequences

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [x \in {SubSeq(Printable, k, k) : k \in 1..Len(Printable)} |->
             31 + (CHOOSE k \in 1..Len(Printable) : SubSeq(Printable, k, k) = x)]
Tup(f) == f \o <<>>                                        \* (TLC: evaluate now, not per element)
S(t) == Tup([k \in 1..Len(t) |-> CodeOf[SubSeq(t, k, k)]])   \* text to codes
RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN "" ELSE SubSeq(Printable, s[1] - 31, s[1] - 31) \o Str(Tail(s))   \* codes (printable) to text
C(t) == CodeOf[t]                                          \* one character

SP == 32
At(s, k) == IF k >= 0 /\ k < Len(s) THEN s[k + 1] ELSE 0   \* zero-based, NUL past the end
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
In(c, t) == \E k \in 1..Len(t) : t[k] = c                  \* c occurs in the code sequence t
Rep(c, n) == Tup([k \in 1..n |-> c])
Spaces(n) == Rep(SP, n)

RECURSIVE SkipFrom(_, _, _)
SkipFrom(s, k, c) == IF At(s, k) = c /\ k < Len(s) THEN SkipFrom(s, k + 1, c) ELSE k      \* first index >= k not c
LStrip(s) == Drop(s, SkipFrom(s, 0, SP))
RECURSIVE RTrimLen(_, _)
RTrimLen(s, n) == IF n > 0 /\ s[n] = SP THEN RTrimLen(s, n - 1) ELSE n
RStrip(s) == Take(s, RTrimLen(s, Len(s)))
RECURSIVE DigitsFrom(_, _)
DigitsFrom(s, k) == IF IsDigit(At(s, k)) THEN DigitsFrom(s, k + 1) ELSE k                 \* index after the digits
RECURSIVE NumFrom(_, _, _)
NumFrom(s, k, acc) == IF IsDigit(At(s, k)) THEN NumFrom(s, k + 1, 10 * acc + At(s, k) - 48) ELSE acc
QuickAtoi(s, k) == NumFrom(s, k, 0)
RECURSIVE SkipWs(_, _)
SkipWs(s, k) == IF IsSpace(At(s, k)) THEN SkipWs(s, k + 1) ELSE k
Atoi(s, k) == LET a == SkipWs(s, k)  c == At(s, a) IN
              IF c = 45 THEN -NumFrom(s, a + 1, 0) ELSE IF c = 43 THEN NumFrom(s, a + 1, 0) ELSE NumFrom(s, a, 0)
RECURSIVE DecR(_)
DecR(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecR(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o DecR(-n) ELSE DecR(n)                                   \* %d
DecW(n, w) == LET d == Dec(n) IN IF Len(d) >= w THEN d ELSE Rep(48, w - Len(d)) \o d      \* %0wd, n >= 0
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
=============================================================================
