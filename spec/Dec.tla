--------------------------------- MODULE Dec ---------------------------------
(***************************************************************************)
(* Real numbers for specifications of numerical code.  A number is a       *)
(* string holding a decimal ("-12.5", "6.02e23"); the operators below are  *)
(* the real functions of their names, evaluated by TLC to forty decimal    *)
(* digits (java/Dec.java) instead of the sixteen of the code being         *)
(* checked.  Comparisons are exact on what is given.  What is not a number *)
(* ("nan"), or has no value (1/0), stays so in whatever is computed from   *)
(* it, and every comparison with it is false.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Num(n) == CHOOSE x \in STRING : TRUE                  \* the integer n as a number
DAdd(a, b) == CHOOSE x \in STRING : TRUE
DSub(a, b) == CHOOSE x \in STRING : TRUE
DMul(a, b) == CHOOSE x \in STRING : TRUE
DDiv(a, b) == CHOOSE x \in STRING : TRUE
DSqrt(a) == CHOOSE x \in STRING : TRUE
DSin(a) == CHOOSE x \in STRING : TRUE
DCos(a) == CHOOSE x \in STRING : TRUE
DAtan2(y, x) == CHOOSE z \in STRING : TRUE            \* in (-pi, pi]
DExp(a) == CHOOSE x \in STRING : TRUE
DLog(a) == CHOOSE x \in STRING : TRUE
DPi == CHOOSE x \in STRING : TRUE
DLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
DLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
DFloor(a) == CHOOSE n \in Int : TRUE                  \* as an integer; the number must be within TLC's integers
DInt(a) == CHOOSE x \in STRING : TRUE                  \* the floor, as a number
DFix(a, n) == CHOOSE x \in STRING : TRUE              \* rounded to n decimals, in plain notation
DIsNum(a) == CHOOSE x \in BOOLEAN : TRUE              \* a finite number at all
\* sums of products: a[1]*b[1] + ... (short cuts, to make fewer strings)
DDot(a, b) == CHOOSE x \in STRING : TRUE
\* a[1] + a[2] x + a[3] x^2 + ...
DPoly(a, x) == CHOOSE z \in STRING : TRUE

DNeg(a) == DSub("0", a)
DAbs(a) == IF DLt(a, "0") THEN DNeg(a) ELSE a
DMax(a, b) == IF DLt(a, b) THEN b ELSE IF DLe(b, a) THEN a ELSE "nan"
DMin(a, b) == IF DLt(a, b) THEN a ELSE IF DLe(b, a) THEN b ELSE "nan"
DNear(a, b, tol) == DIsNum(a) /\ DIsNum(b) /\ DLe(DAbs(DSub(a, b)), tol)
DSq(a) == DMul(a, a)
\* a modulo m, in [0, m)
DMod(a, m) == DSub(a, DMul(m, DInt(DDiv(a, m))))
DTwoPi == DMul("2", DPi)
Rad(deg) == DDiv(DMul(deg, DPi), "180")
\* angles equal up to whole turns
DNearAngle(a, b, tol) == LET d == DMod(DSub(a, b), DTwoPi) IN DLe(d, tol) \/ DLe(DSub(DTwoPi, tol), d)
(* vectors *)
VSub(u, v) == [k \in DOMAIN u |-> DSub(u[k], v[k])]
VAdd(u, v) == [k \in DOMAIN u |-> DAdd(u[k], v[k])]
VScale(c, u) == [k \in DOMAIN u |-> DMul(c, u[k])]
VCross(u, v) == <<DSub(DMul(u[2], v[3]), DMul(u[3], v[2])), DSub(DMul(u[3], v[1]), DMul(u[1], v[3])), DSub(DMul(u[1], v[2]), DMul(u[2], v[1]))>>
VNorm(u) == DSqrt(DDot(u, u))
VNear(u, v, tol) == \A k \in DOMAIN u : DNear(u[k], v[k], tol)
=============================================================================
