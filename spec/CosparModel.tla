---------------------------- MODULE CosparModel ----------------------------
(* However the lines are spaced and commented the file says the same; orientations are rigid, mirrored for bodies turning backwards, and turn at the rate given;            *)
(* and an answer kept from the last time it was asked for is right after any history of loading, changing files on disk, failing, releasing, and a changed Delta-T.          *)
EXTENDS Cospar
VARIABLES how, disk, cur, dt, memo, said, n
vars == <<how, disk, cur, dt, memo, said, n>>
Nothing == [Start EXCEPT !.letter = -1]
Lay(h, l) == (IF h.lead THEN <<SP>> ELSE <<>>) \o (IF h.wide THEN FlattenSeq([k \in 1..Len(l) |-> IF l[k] \in {43, 45, 61} THEN <<SP, l[k], SP>> ELSE <<l[k]>>]) ELSE l) \o (IF h.note THEN S("  # W=1+2d") ELSE <<>>)
FileA == <<S("Remap: 5001 14 4002 12"), S("Planet: J"), S("J1=99.36+4850.4T"), S("J2=-175.9+1191.6d"), S("Obj:5"), S("r=71492,71492,66854"), S("a0=268.05-.009T+.25sinJ1"), S("d0=64.49+.002T-.5cos3J2"), S("W1=67.1+877.9d"), S("W=284.95+870.5d"),
           S("Obj:5001"), S("r=1821"), S("a0=3"), S("d0=4"), S("W=5-6d+.1sin2J2"), S("END"), S("Obj:7")>>
FileB == <<S("Planet: U"), S("Obj:7"), S("a0=257"), S("d0=-15"), S("W2=1-2d"), S("Obj:5"), S("a0=1"), S("d0=2"), S("W=3+4d+2T2")>>
\* the Remap and Planet lines keep their form; others may be laid out freely
Layout(h, f) == FlattenSeq([k \in 1..Len(f) |-> (IF h.gap THEN <<S("# gap"), <<>>, S("   # more")>> ELSE <<>>) \o <<IF f[k][1] \in {82, 69} \/ (f[k][1] = 79 /\ h.lead) \/ f[k][1] = 80 THEN f[k] ELSE Lay(h, f[k])>>])
A == Parse(FileA)
B == Parse(FileB)
HowFar == [lead : BOOLEAN, wide : BOOLEAN, note : BOOLEAN, gap : BOOLEAN]
Plainly == [lead |-> FALSE, wide |-> FALSE, note |-> FALSE, gap |-> FALSE]
Asked == {5, 7, 14}
Answer(f, no, sys, t) == IF f = Nothing \/ ~Has(f, no) \/ ~Orientable(The(f, no), sys) THEN <<>> ELSE <<The(f, no).no, Spin(The(f, no), sys).c, Rate(Spin(The(f, no), sys)), t>>
Init == how \in HowFar /\ disk \in {Nothing, A, B} /\ cur = Nothing /\ dt = 0 /\ memo = <<>> /\ said = <<>> /\ n = 0
\* loads are counted; the answer kept is used for the same question, the same instant (Delta-T included) and the same load only
Load(f) == cur' = f /\ n' = n + 1 /\ said' = <<>> /\ UNCHANGED <<how, disk, dt, memo>>
Swap(f) == disk' = f /\ said' = <<>> /\ UNCHANGED <<how, cur, dt, memo, n>>
Clock == dt' = 1 - dt /\ said' = <<>> /\ UNCHANGED <<how, disk, cur, memo, n>>
Ask(no, sys) ==
   LET now == IF cur = Nothing THEN disk ELSE cur
       hit == memo # <<>> /\ memo[1].no = no /\ memo[1].sys = sys /\ memo[1].dt = dt /\ memo[1].n = n
       ans == IF hit THEN memo[1].ans ELSE Answer(now, no, sys, dt) IN
   /\ said' = <<[no |-> no, sys |-> sys, ans |-> ans, right |-> Answer(now, no, sys, dt)]>>
   /\ memo' = IF ans = <<>> THEN memo ELSE <<[no |-> no, sys |-> sys, dt |-> dt, n |-> n, ans |-> ans]>>
   /\ cur' = now /\ UNCHANGED <<how, disk, dt, n>>
Next == how = Plainly /\ n < 3 /\ (\/ \E f \in {Nothing, A, B} : Load(f) \/ Swap(f)
                                  \/ Clock
                                  \/ \E no \in Asked, sys \in {1, 3} : Ask(no, sys))
Right == said # <<>> => said[1].ans = said[1].right
SameFile == n = 0 /\ said = <<>> => Parse(Layout(how, FileA)) = A /\ Parse(Layout(how, FileB)) = B /\ Fine(A) /\ Fine(B)
Told == n = 0 /\ said = <<>> =>
        /\ The(A, 14).no = 5001 /\ ~Has(A, 7) /\ ~Has(B, 14) /\ The(A, 5).r = <<"71492", "71492", "66854">>
        /\ Spin(The(A, 5), 1).c = "67.1" /\ Spin(The(A, 5), 3).c = "284.95" /\ ~Orientable(The(B, 7), 1) /\ Orientable(The(B, 7), 2) /\ Retro(Spin(The(B, 7), 2)) /\ ~Retro(Spin(The(B, 5), 2))
        /\ DNear(Value(The(B, 5), Spin(The(B, 5), 0), "73050"), DAdd("3", DAdd("292200", "8")), "1e-30")
Triad(m) == <<SubSeq(m, 1, 3), SubSeq(m, 4, 6), SubSeq(m, 7, 9)>>
Turning == n = 0 /\ said = <<>> /\ how = Plainly =>
           \A f \in {A, B} : \A j \in 1..Len(f.objs) : \A sys \in {1, 2, 3} : \A d \in {"0", "1000.25", "-54321"} :
              LET o == f.objs[j] IN Orientable(o, sys) =>
                 LET m == Oriented(o, sys, d)  t == Triad(m)  x == Spin(o, sys)  c == VCross(t[1], t[2])
                     h == "1e-8"  m2 == Triad(Oriented(o, sys, DAdd(d, h)))
                     \* how far the prime meridian went towards the east in a moment
                     east == VCross(t[3], t[1])  by == DDiv(DDot(VSub(m2[1], t[1]), east), h) IN
                 /\ Rigid(m)
                 /\ \A k \in 1..3 : DNear(c[k], IF Retro(x) THEN t[3][k] ELSE DNeg(t[3][k]), "1e-28")
                 /\ Len(x.t) = 1 => DLt(DAbs(DSub(by, Rad(Rate(x)))), "0.3")
Spec == Init /\ [][Next]_vars
=============================================================================
