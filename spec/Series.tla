-------------------------------- MODULE Series --------------------------------
(***************************************************************************)
(* Places of the planets and of the Moon as sums of series kept in data    *)
(* files: VSOP87 (long and short), the Moon of Meeus and of ELP 2000-82B,  *)
(* Pluto, PS-1996.  A place is a function of the data and of the time; the *)
(* operators return [v |-> the sum, m |-> the size of what was summed].    *)
(***************************************************************************)
EXTENDS Sky, SequencesExt

Total(s) == FoldLeft(DAdd, "0", s)
DegRad == DDiv(DPi, "180")
(* ---- VSOP87: six series of terms <<amplitude, phase, rate>>, for the powers 0..5 of the time in thousands of years ---- *)
Pow(x, n) == FoldLeft(LAMBDA a, b : DMul(a, x), "1", [z \in 1..n |-> 0])
VsopKept(series, tau, limit, n) ==
   LET bound == IF DNear(tau, "0", "0") THEN limit ELSE DDiv(limit, Pow(DAbs(tau), n)) IN
   SelectSeq(series, LAMBDA q : DLt(bound, DAbs(q[1])))
VsopTerms(series, tau) == Total([k \in DOMAIN series |-> DMul(series[k][1], DCos(DAdd(series[k][2], DMul(series[k][3], tau))))])
VsopSize(series, tau) == Total([k \in DOMAIN series |-> DMul(DAbs(series[k][1]), DAdd("1", DAdd(DAbs(series[k][2]), DAbs(DMul(series[k][3], tau)))))])
Vsop(six, t, limit) ==
   LET tau == DDiv(t, "10")
       kept == [n \in 1..6 |-> VsopKept(six[n], tau, DAbs(limit), n - 1)] IN
   [v |-> DPoly([n \in 1..6 |-> VsopTerms(kept[n], tau)], tau),
    m |-> DPoly([n \in 1..6 |-> VsopSize(kept[n], tau)], DAbs(tau))]

(* ---- the Moon in short: L', D, M, M', F as polynomials in degrees ---- *)
InTurn(x) == DMul(DMod(x, "360"), DegRad)
MoonArgs(polys, t) ==
   [k \in 1..5 |-> InTurn(DPoly(polys[k], t))] \o
   <<InTurn(DAdd("119.75", DMul("131.849", t))), InTurn(DAdd("53.09", DMul("479264.290", t))), InTurn(DAdd("313.45", DMul("481266.484", t))), t>>
\* the terms with the Sun's anomaly m times shrink with the Earth's eccentricity
Eccen(t, m) == Pow(DPoly(<<"1", "-0.002516", "-0.0000074">>, t), IF m < 0 THEN -m ELSE m)
MoonAngle(f, q) == DDot(<<f[2], f[3], f[4], f[5]>>, <<Num(q[1]), Num(q[2]), Num(q[3]), Num(q[4])>>)
IAbs(n) == IF n < 0 THEN -n ELSE n
\* q = <<d, m, m', f, longitude, distance>>
MoonLonDist(f, terms, limit) ==
   LET kept == SelectSeq(terms, LAMBDA q : (IAbs(q[5]) > limit) \/ (IAbs(q[6]) > limit))
       w(q, amp) == DMul(Num(amp), Eccen(f[9], q[2]))
       sl == Total([k \in DOMAIN kept |-> DMul(w(kept[k], kept[k][5]), DSin(MoonAngle(f, kept[k])))])
       sr == Total([k \in DOMAIN kept |-> DMul(w(kept[k], kept[k][6]), DCos(MoonAngle(f, kept[k])))])
       extra == IF limit >= 3959 THEN "0"
                ELSE DDot(<<"3958", "1962", "318">>, <<DSin(f[6]), DSin(DSub(f[1], f[5])), DSin(f[7])>>) IN
   [lon |-> DAdd(DDiv(f[1], DegRad), DMul(DAdd(sl, extra), "1e-6")),
    r |-> DAdd("385000.56", DDiv(sr, "1000")),
    m |-> Total([k \in DOMAIN kept |-> DAdd(DAbs(w(kept[k], kept[k][5])), DAbs(w(kept[k], kept[k][6])))])]
\* q = <<d, m, m', f, latitude>>
MoonLat(f, terms, limit) ==
   LET kept == SelectSeq(terms, LAMBDA q : IAbs(q[5]) > limit)
       w(q) == DMul(Num(q[5]), Eccen(f[9], q[2]))
       extra == IF limit >= 2236 THEN "0"
                ELSE DDot(<<"-2235", "382", "175", "175", "127", "-115">>,
                          <<DSin(f[1]), DSin(f[8]), DSin(DSub(f[6], f[5])), DSin(DAdd(f[6], f[5])), DSin(DSub(f[1], f[4])), DSin(DAdd(f[1], f[4]))>>) IN
   [v |-> DMul(DAdd(extra, Total([k \in DOMAIN kept |-> DMul(w(kept[k]), DSin(MoonAngle(f, kept[k])))])), "1e-6"),
    m |-> Total([k \in DOMAIN kept |-> DAbs(w(kept[k]))])]

(* ---- Pluto: seven large terms (P, 2P, .. 6P, J - P), and rows <<j, s, p, six amplitudes>>, sine and cosine of longitude, latitude, radius ---- *)
PlutoAmps(q) == <<q[4], q[5], q[6], q[7], q[8], q[9]>>
Pluto(large, rows, t, limit) ==
   LET jj == Rad(DAdd("34.35", DMul("3034.9057", t)))
       ss == Rad(DAdd("50.08", DMul("1222.1138", t)))
       pp == Rad(DAdd("238.96", DMul("144.96", t)))
       kept == SelectSeq(rows, LAMBDA q : \E k \in 4..9 : IAbs(q[k]) > limit)
       angles == [k \in 1..7 |-> IF k = 7 THEN DSub(jj, pp) ELSE DMul(Num(k), pp)] \o
                 [k \in DOMAIN kept |-> DDot(<<jj, ss, pp>>, <<Num(kept[k][1]), Num(kept[k][2]), Num(kept[k][3])>>)]
       amps == large \o [k \in DOMAIN kept |-> PlutoAmps(kept[k])]
       sn == [k \in DOMAIN angles |-> DSin(angles[k])]
       cs == [k \in DOMAIN angles |-> DCos(angles[k])]
       sum(c) == DMul("1e-6", Total([k \in DOMAIN angles |-> DAdd(DMul(Num(amps[k][c]), sn[k]), DMul(Num(amps[k][c + 1]), cs[k]))])) IN
   [lon |-> Rad(DAdd(DAdd("238.956785", DMul("144.96", t)), sum(1))),
    lat |-> Rad(DAdd("-3.908202", sum(3))),
    r |-> DDiv(DAdd("407.247248", sum(5)), "10")]

(* ---- a place in its five frames ---- *)
Frames(lon, lat, r, t) ==
   LET ecl == VScale(r, Unit(lon, lat))
       equ == MVec(R1(DNeg(Obliquity(t))), ecl)
       e2000 == MVec(Precession(DAdd("2000", DMul("100", t)), "2000"), equ) IN
   <<ecl, equ, e2000, MVec(R1(Eps2000), e2000)>>
\* Pluto's theory is referred to the ecliptic and equinox of 2000
Frames2000(lon, lat, r, t) ==
   LET ecl0 == VScale(r, Unit(lon, lat))
       e2000 == MVec(R1(DNeg(Eps2000)), ecl0)
       equ == MVec(Precession("2000", DAdd("2000", DMul("100", t))), e2000) IN
   <<MVec(R1(Obliquity(t)), equ), equ, e2000, ecl0>>

(* ---- PS-1996: one block of a planet.  secular: a cubic per axis; groups: for the powers 0..2 of the block's own
        time x in [-1, 1], terms <<rate, <<cosine and sine amplitudes of x, y, z>>>> ---- *)
PsX(b, jd) == DSub(DDiv(DMul("2", DSub(jd, b.t0)), b.dt), "1")
Ps1996(b, jd) ==
   LET x == PsX(b, jd)
       half == DDiv(b.dt, "2")
       ang == [m \in 1..3 |-> [k \in DOMAIN b.groups[m] |-> LET a == DMul(b.groups[m][k][1], DMul(x, half)) IN <<DCos(a), DSin(a)>>]]
       wave(m, c) == Total([k \in DOMAIN b.groups[m] |->
          DAdd(DMul(b.groups[m][k][2][2 * c - 1], ang[m][k][1]), DMul(b.groups[m][k][2][2 * c], ang[m][k][2]))])
       dwave(m, c) == Total([k \in DOMAIN b.groups[m] |-> DMul(b.groups[m][k][1],
          DSub(DMul(b.groups[m][k][2][2 * c], ang[m][k][1]), DMul(b.groups[m][k][2][2 * c - 1], ang[m][k][2])))])
       size == Total([m \in 1..3 |-> Total([k \in DOMAIN b.groups[m] |-> DMul(DAdd("1", DMul(DAbs(b.groups[m][k][1]), half)),
          Total([z \in 1..6 |-> DAbs(b.groups[m][k][2][z])]))])])
       fastest == FoldLeft(DMax, DDiv("1", half), FlattenSeq([m \in 1..3 |-> [k \in DOMAIN b.groups[m] |-> DAbs(b.groups[m][k][1])]])) IN
   [pos |-> [c \in 1..3 |-> DMul("1e-10", DAdd(DPoly(b.secular[c], x), DPoly([m \in 1..3 |-> wave(m, c)], x)))],
    vel |-> [c \in 1..3 |-> LET s == b.secular[c] IN
       DMul("1e-10", DAdd(DDiv(DAdd(DPoly(<<s[2], DMul("2", s[3]), DMul("3", s[4])>>, x), DPoly(<<wave(2, c), DMul("2", wave(3, c))>>, x)), half),
                          DPoly([m \in 1..3 |-> dwave(m, c)], x)))],
    m |-> DMul("1e-10", DAdd(size, Total([c \in 1..3 |-> Total([z \in 1..4 |-> DAbs(b.secular[c][z])])]))), w |-> fastest]
PsCovers(h, jd) == DLe(h.t0, jd) /\ DLt(jd, DAdd(h.t0, DMul(Num(h.blocks), h.dt)))
PsBlock(h, jd) == DFloor(DDiv(DSub(jd, h.t0), h.dt))

(* ---- ELP 2000-82B.  polys: the five mean longitudes (radians); planets: the seven planets' <<at 2000, per century>>.
        series: thirty-six lists, by decreasing size, of <<amplitude, phase, multipliers>>, amplitudes in 1e-5 arc seconds
        (1e-5 km for distances), phases in 1e-5 degrees ---- *)
Dms(d, m, s) == Rad(DAdd(d, DAdd(DDiv(m, "60"), DDiv(s, "3600"))))
ElpTime(t) == DSub(t, DMul(DDiv(DMul("0.000091", "2.1054"), DMul("86400", "36525")), DSq(DAdd("45", DMul("100", t)))))
Lin(c0, c1, t) == DAdd(c0, DMul(c1, t))
W10 == Dms("218", "18", "59.95571")
W11 == Sec("1732559343.73604")
W20 == Dms("83", "21", "11.67475")
W21 == Sec("14643420.2632")
W30 == Dms("125", "2", "40.39816")
W31 == Sec("-6967919.3622")
T0 == Dms("100", "27", "59.22059")
T1 == Sec("129597742.2758")
O0 == Dms("102", "56", "14.42753")
O1 == Sec("1161.2283")
ElpArgs(polys, planets, t) ==
   LET w1 == DPoly(polys[1], t)  w2 == DPoly(polys[2], t)  w3 == DPoly(polys[3], t)  te == DPoly(polys[4], t)  om == DPoly(polys[5], t) IN
   [w1 |-> w1,
    full |-> <<DAdd(DSub(w1, te), DPi), DSub(te, om), DSub(w1, w2), DSub(w1, w3)>>,               \* D, l', l, F
    lin |-> <<DAdd(Lin(DSub(W10, T0), DSub(W11, T1), t), DPi), Lin(DSub(T0, O0), DSub(T1, O1), t),
              Lin(DSub(W10, W20), DSub(W11, W21), t), Lin(DSub(W10, W30), DSub(W11, W31), t)>>,
    earth |-> Lin(T0, T1, t),
    zeta |-> Lin(W10, DAdd(W11, Sec("5029.0966")), t),
    planets |-> [k \in 1..7 |-> Lin(planets[k][1], planets[k][2], t)]]
\* what a term's multipliers multiply, by kind of series (0..11)
ElpBasis(a, kind) ==
   CASE kind = 0 -> a.full
     [] kind \in {1, 2} -> a.lin \o <<a.zeta>>
     [] kind \in {3, 4} -> <<a.planets[1], a.planets[2], a.earth, a.planets[3], a.planets[4], a.planets[5], a.planets[6], a.planets[7], a.lin[1], a.lin[3], a.lin[4]>>
     [] kind \in {5, 6} -> <<a.planets[1], a.planets[2], a.earth, a.planets[3], a.planets[4], a.planets[5], a.planets[6], a.lin[1], a.lin[2], a.lin[3], a.lin[4]>>
     [] OTHER -> a.lin
ElpTimes(kind, t) == IF kind \in {2, 4, 6, 8} THEN t ELSE IF kind = 11 THEN DSq(t) ELSE "1"
\* limit in radians: series are read up to the first term smaller than it
ElpLimit(no, limit) == DInt(DMul("100000", DMul(limit, IF no % 3 = 2 THEN "384747.980674" ELSE DDiv("648000", DPi))))
ElpKept(terms, lim) ==
   LET small == {k \in DOMAIN terms : DLt(DAbs(Num(terms[k][1])), lim)} IN
   IF small = {} THEN terms ELSE SubSeq(terms, 1, (CHOOSE k \in small : \A z \in small : k <= z) - 1)
ElpSum(a, no, terms, lim) ==
   LET kind == no \div 3
       basis == ElpBasis(a, kind)
       kept == ElpKept(terms, lim)
       angle(q) == DAdd(Rad(DDiv(Num(q[2]), "100000")), DDot(basis, [z \in DOMAIN basis |-> Num(q[3][z])])) IN
   DMul("1e-5", Total([k \in DOMAIN kept |-> DMul(Num(kept[k][1]), IF no = 2 THEN DCos(angle(kept[k])) ELSE DSin(angle(kept[k])))]))
ElpSize(terms) == DMul("1e-5", Total([k \in DOMAIN terms |-> DAbs(Num(terms[k][1]))]))
ElpPlace(polys, planets, series, tt, limit) ==
   LET t == ElpTime(tt)
       a == ElpArgs(polys, planets, t)
       add(c) == Total([z \in 1..12 |-> LET no == 3 * (z - 1) + c IN
                    IF Len(series[no + 1]) = 0 THEN "0" ELSE DMul(ElpTimes(z - 1, t), ElpSum(a, no, series[no + 1], ElpLimit(no, limit)))])
       lon == DAdd(a.w1, Sec(DAdd(DMul("22639.58578", DSin(a.full[3])), add(0))))
       lat == Sec(add(1))
       r == DAdd("385000.52719", add(2))
       p == DMul(t, DPoly(<<"0.10180391e-4", "0.47020439e-6", "-0.5417367e-9", "-0.2507948e-11", "0.463486e-14">>, t))
       q == DMul(t, DPoly(<<"-0.113469002e-3", "0.12372674e-6", "0.1265417e-8", "-0.1371808e-11", "-0.320334e-14">>, t))
       w == DMul("2", DSqrt(DSub("1", DAdd(DSq(p), DSq(q)))))
       pp == DMul("2", DSq(p))  qq == DMul("2", DSq(q))  pq == DMul("2", DMul(p, q)) IN
   [xyz |-> MVec(<<<<DSub("1", pp), pq, DMul(p, w)>>, <<pq, DSub("1", qq), DNeg(DMul(q, w))>>,
                   <<DNeg(DMul(p, w)), DMul(q, w), DSub(DSub("1", pp), qq)>>>>, VScale(r, Unit(lon, lat))), r |-> r]
===============================================================================
