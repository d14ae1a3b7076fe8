----------------------------- MODULE DesigModel ------------------------------
(* Design check: the three views of Desig agree on a grid of designations   *)
(* that touches every kind, every carry and every limit.                    *)
EXTENDS Desig, TLC
VARIABLE d
Nums == {1, 9, 10, 433, 9999, 10000, 99999, 100000, 359999, 360000, 619999, 620000, 620061, 620062, 620000 + 3843, 620000 + 3844,
         620000 + 238327, 620000 + 238328, MaxNumber - 1, 1234567, 3140113}
Cyc == {0, 1, 9, 10, 99, 100, 359, 360, 361, 619}
XCyc == {620, 621, 999, 1000, 6190, 100000, 591672}
Halves == {65, 72, 74, 89}
Frags == {0, 1, 5, 26}
Des == {[kind |-> "num", n |-> n] : n \in Nums}
  \cup {[kind |-> "prov", y |-> y, h |-> h, l |-> l, n |-> n] : y \in {1600, 1799, 1899, 1995, 2000, 2026, 2099}, h \in Halves, l \in {0, 7, 8, 24}, n \in Cyc}
  \cup {[kind |-> "prov", y |-> y, h |-> h, l |-> l, n |-> n] : y \in {2000, 2009, 2010, 2035, 2036, 2061}, h \in Halves, l \in {0, 7, 8, 24}, n \in XCyc}
  \cup {[kind |-> "comprov", k |-> k, y |-> y, h |-> h, l |-> -1, n |-> n, f |-> f] : k \in {80, 67, 88, 68, 65}, y \in {1680, 1995, 2018}, h \in Halves, n \in Cyc \ {0}, f \in Frags}
  \cup {[kind |-> "comprov", k |-> k, y |-> y, h |-> h, l |-> l, n |-> n, f |-> 0] : k \in {80, 67}, y \in {1995, 2018}, h \in Halves, l \in {0, 8, 24}, n \in Cyc}
  \cup {[kind |-> "comnum", k |-> k, n |-> n, f |-> f] : k \in {80, 68, 73}, n \in {1, 9, 41, 297, 999, 1000, 9999}, f \in Frags \cup {27, 28, 700}}
  \cup {[kind |-> "satnum", p |-> p, n |-> n] : p \in 1..8, n \in 1..999}
  \cup {[kind |-> "satprov", y |-> y, p |-> p, n |-> n] : y \in {1901, 1999, 2000, 2099}, p \in {69, 74, 78, 80, 83, 85}, n \in 1..619}
  \cup {[kind |-> "survey", n |-> n, s |-> s] : n \in {1000, 2040, 3141, 8999, 9000, 9512, 9999}, s \in 1..4}
  \cup {[kind |-> "art", y |-> y, n |-> n, piece |-> q] : y \in {1957, 1999, 2000, 2099}, n \in {0, 1, 44, 999}, q \in {S("A"), S("KH"), S("KHA")}}
Init == d \in Des
Next == UNCHANGED d
PacksTo   == PackText(Full(d)) = [rc |-> 0, out |-> Packed(d)]
Columns   == Len(Packed(d)) = 12
UnpacksTo == Unpack(Packed(d)) = [rc |-> Class(d), out |-> Full(d)]
NotOther  == Unpack(Packed(d)).rc # UNKNOWN
=============================================================================
