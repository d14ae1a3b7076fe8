----------------------------- MODULE AdesModel ------------------------------
(* The translator fed every short sequence of the lines below: the stack    *)
(* stays within bounds, a balanced document ends at depth zero, every       *)
(* observation yields one 80-column line, errors are the three documented   *)
(* ones, and the same observation in PSV and XML gives the same lines.      *)
EXTENDS Ades, TLC, IOUtils
VARIABLES st, n, last
MaxN == atoi(IOEnv.DEPTH)
Lines == {S("<ades version=1>"), S("</ades>"), S("<optical>"), S("</optical>"), S("<ra>1.5</ra>"), S("<rmsRA>0.5</rmsRA>"),
          S("<obsData><optical>"), S("<optical><stn>703</stn></optical>"), S("<foo"), S("</ra>"), S("plain"),
          S("stn|ra|dec|rmsRA"), S("703|1.5|-2.5|0.5"), S("C57|1.5|-2.5|"), S("# observatory"), S("! mpcCode 703"), S("! name X")}
Init == st = Start(FALSE) /\ n = 0 /\ last = Result(Start(FALSE), <<>>, 0)
Next == n < MaxN /\ n' = n + 1 /\ \E L \in Lines : LET r == Step(st, L) IN st' = r.st /\ last' = [r EXCEPT !.st = <<>>]
Spec == Init /\ [][Next]_<<st, n, last>>
IsRecord(l) == Len(l) = 80 /\ ~StartsWith(l, S("COM"))
Bounds == st.depth \in 0..MaxDepth
Errors == last.rc \in {0, -2, -3, -4} /\ (last.rc < 0 => last.out = <<>>)
OneRecord == Cardinality({k \in DOMAIN last.out : IsRecord(last.out[k].txt)}) <= 1
NoSectionLeft == st.psv # <<>> => st.depth = 1

Obs == << <<"provID", "2020 AB1">>, <<"stn", "703">>, <<"ra", "123.456789012">>, <<"dec", "-1.5">>, <<"rmsRA", "0.5">>, <<"rmsDec", "0.25">>, <<"mag", "18.5">>,
          <<"obsTime", "2020-01-02T03:04:05.6Z">>, <<"band", "V">>, <<"notes", "k">> >>
RECURSIVE PsvRow(_, _, _), XmlRow(_, _)
PsvRow(o, k, j) == If(k > 1, S("|")) \o S(o[k][j]) \o (IF k = Len(o) THEN <<>> ELSE PsvRow(o, k + 1, j))
XmlRow(o, k) == IF k > Len(o) THEN <<>> ELSE S("<") \o S(o[k][1]) \o S(">") \o S(o[k][2]) \o S("</") \o S(o[k][1]) \o S(">") \o XmlRow(o, k + 1)
ViaPsv(o) == Step(Step(Start(FALSE), PsvRow(o, 1, 1)).st, PsvRow(o, 1, 2)).out
ViaXml(o) == Step(Start(FALSE), S("<optical>") \o XmlRow(o, 1) \o S("</optical>")).out
Rotations == {[k \in DOMAIN Obs |-> Obs[(((k + r) % Len(Obs)) + 1)]] : r \in 0..(Len(Obs) - 1)}
ASSUME \A o \in Rotations : ViaPsv(o) = ViaXml(o) /\ ViaXml(o) = ViaXml(Obs)      \* columns in any order
=============================================================================
