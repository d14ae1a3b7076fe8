--------------------------------- MODULE Sats ---------------------------------
(***************************************************************************)
(* Places of satellites by their theories: Jupiter's four (Lieske's E5, as *)
(* abridged by Meeus), Saturn's nine (Dourneau), Uranus's five (GUST86),   *)
(* Triton, the Lagrangian three of Saturn (HTC20), and small inner ones    *)
(* (precessing ellipses).                                                  *)
(***************************************************************************)
EXTENDS Orbit, Sky, SatTables
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
Sum(n, F(_)) == FoldLeft(LAMBDA a, k : DAdd(a, F(k)), "0", [k \in 1..n |-> k])
Lin(a, b, t) == DAdd(a, DMul(b, t))
DegLin(a, b, t) == Rad(Lin(a, b, t))
Angle(m, v) == LET ks == SetToSeq(DOMAIN m) IN Sum(Len(ks), LAMBDA k : DMul(Num(m[ks[k]]), v[ks[k]]))
SinSum(terms, v) == Sum(Len(terms), LAMBDA k : DMul(Num(terms[k][1]), DSin(Angle(terms[k][2], v))))
CosSum(terms, v) == Sum(Len(terms), LAMBDA k : DMul(Num(terms[k][1]), DCos(Angle(terms[k][2], v))))
TurnX(a, v) == MVec(R1(DNeg(a)), v)                        \* turns of the vector
TurnZ(a, v) == MVec(R3(DNeg(a)), v)
D2000 == "2451545"
Century(jd) == DDiv(DSub(jd, D2000), "36525")
(* ---- Jupiter; radii of Jupiter, ecliptic and equinox of date ---- *)
JRate == [l1 |-> <<"106.07719", "203.488955790">>, l2 |-> <<"175.73161", "101.374724735">>, l3 |-> <<"120.55883", "50.317609207">>, l4 |-> <<"84.44459", "21.571071177">>,
          p1 |-> <<"97.0881", "0.16138586">>, p2 |-> <<"154.8663", "0.04726307">>, p3 |-> <<"188.1840", "0.00712734">>, p4 |-> <<"335.2868", "0.00184">>,
          w1 |-> <<"312.3346", "-0.13279386">>, w2 |-> <<"100.4411", "-0.03263064">>, w3 |-> <<"119.1942", "-0.00717703">>, w4 |-> <<"322.6168", "-0.00175934">>,
          psi |-> <<"316.5182", "-2.08e-6">>, P |-> <<"13.469942", "0">>, b |-> <<"199.6766", "0.17379190">>, g |-> <<"30.23756", "0.0830925701">>, h |-> <<"31.97853", "0.0334597339">>]
JAngles(t) ==
   LET gamma == DAdd(DMul(Rad("0.33033"), DSin(DegLin("163.679", "0.0010512", t))), DMul(Rad("0.03439"), DSin(DegLin("34.486", "-0.0161731", t))))
       plain == [k \in DOMAIN JRate |-> DegLin(JRate[k][1], JRate[k][2], t)] IN
   [plain EXCEPT !.g = DAdd(@, gamma)] @@ [c |-> Rad("0.001")]
Mean(i) == CASE i = 1 -> "l1" [] i = 2 -> "l2" [] i = 3 -> "l3" [] OTHER -> "l4"
JRadii == <<"5.90569", "9.39657", "14.98832", "26.36273">>
Shift(i, v) == Rad(DMul("1e-5", SinSum(JLon[i], v)))       \* perturbation of the longitude
JEquatorial(i, t) ==                                       \* longitude, tangent of latitude, radius
   LET v == JAngles(t)  d == Shift(i, v)  lon == DAdd(v[Mean(i)], d) IN
   <<lon, DMul("1e-7", SinSum(JLat[i], v @@ [L |-> lon, S |-> DMul("1e-4", d)])), DMul(JRadii[i], DAdd("1", DMul("1e-7", CosSum(JRad[i], v))))>>
ToEcliptic(jd, v) ==                                       \* from the plane of Jupiter's equator
   LET t == DSub(jd, "2443000.5")  c == Century(jd)
       p == DDiv(DSub(jd, "2433282.423"), "36525")
       moved == Rad(DPoly(<<"0", "1.3966626", "0.0003088">>, p))
       node == Rad(DPoly(<<"100.464407", "1.0209774", "0.00040315", "4.04e-7">>, c))
       incl == Rad(DPoly(<<"1.303267", "-0.0054965", "4.66e-6", "-2e-9">>, c))
       tilt == DegLin("3.120262", "0.0006", DDiv(DSub(jd, "2415020"), "36525"))
       psi == DegLin(JRate.psi[1], JRate.psi[2], t) IN
   TurnZ(node, TurnX(incl, TurnZ(DSub(DAdd(psi, moved), node), TurnX(tilt, v))))
JSat(i, jd) ==                                             \* 5: the pole of the equator
   IF i = 5 THEN ToEcliptic(jd, <<"0", "0", "1">>)
   ELSE LET t == DSub(jd, "2443000.5")  q == JEquatorial(i, t)  l == DSub(q[1], DegLin(JRate.psi[1], JRate.psi[2], t))
            s == DSqrt(DAdd("1", DSq(q[2]))) IN
        ToEcliptic(jd, VScale(DDiv(q[3], s), <<DCos(l), DSin(l), q[2]>>))
(* ---- Saturn; au, ecliptic and equinox of date ---- *)
Tilt0 == Rad("28.0817")
Node0 == Rad("168.8112")
PerSecond == DMul("9.538937", Sec("1"))                    \* arcseconds at Saturn's mean distance, in au
Epochs == <<"2411093", "2411093", "2411093", "2411093", "2411093", "2411368", "2415020", "2409786", "2433282.5">>
SMean == <<                                                \* a (arcsec), e, i, longitude and rate a day, node and rate a year, apse and rate a year
   <<"26.8180", "0.01905", "1.5630", "127.64", "381.994497", "54.5", "-365.072", "106.1", "365.549">>,
   <<"34.4301", "0.00485", "0.0262", "200.317", "262.7319002", "348", "-151.95", "309.107", "123.44121">>,
   <<"42.6393", "0", "1.0976", "285.306", "190.69791226", "111.33", "-72.2441", "0", "0">>,
   <<"54.5876", "0.002157", "0.0139", "254.712", "131.53493193", "232", "-30.27", "174.8", "30.82">>,
   <<"76.2277", "0.000265", "0.3469", "359.244", "79.6900472", "345", "-10.057", "276.59", "0.5118">>,
   <<"176.6041", "0.029092", "0.2960", "261.1582", "22.57697855", "42", "-0.5118", "276.59", "0.5118">>,
   <<"214.0790", "0.103458", "0.6435", "177.047", "16.91993829", "94.9", "-2.292", "69.898", "-18.67088">>,
   <<"514.8431", "0.028298", "0", "76.3852", "4.53795125", "143.198", "-0.03919", "352.91", "0.11710">>,
   <<"1872.0552", "0.16326", "0", "277.872", "-0.6541068", "245.998", "-0.41353", "280.165", "-0.19586">>>>
DegSin(c, x) == DMul(Rad(c), DSin(x))
DegCos(c, x) == DMul(Rad(c), DCos(x))
Add3(a, b, c) == DAdd(a, DAdd(b, c))
Total(s) == FoldLeft(LAMBDA a, x : DAdd(a, x), "0", s)
SElements(n, jd) ==                                        \* n: 0 Mimas ... 8 Phoebe; angles in radians; a in au
   LET m == SMean[n + 1]
       days == DSub(jd, Epochs[n + 1])
       y == DDiv(days, "365.25")
       o == [a |-> DMul(m[1], PerSecond), e |-> m[2], i |-> Rad(m[3]), l |-> DegLin(m[4], m[5], days), n |-> DegLin(m[6], m[7], y), p |-> DegLin(m[8], m[9], y)]
       wave == DMul(Rad("5.095"), DSub(DAdd(DDiv(DSub(jd, D2000), "365.25"), "2000"), "1866.39"))
       libration == Total(<<DegSin("-43.57", wave), DegSin("-0.7209", DMul("3", wave)), DegSin("-0.0205", DMul("5", wave))>>)
       resonance == DAdd(DDiv(DegSin("15.4", DegLin("74.4", "32.39", y)), "60"), DDiv(DegSin("12.59", DegLin("134.3", "92.62", y)), "60"))
       (* of Rhea, Titan: on a plane of their own; tilt and shift of the node from it, of Titan's node *)
       common == DMul("0.00151337", DSin(o.n))  g0 == "0.0060545"  s1 == "0.470730" IN
   CASE n = 0 -> [o EXCEPT !.l = DAdd(@, libration)]
     [] n = 1 -> [o EXCEPT !.l = DAdd(@, resonance)]
     [] n = 2 -> [o EXCEPT !.l = DSub(@, DDiv(libration, "21.12"))]
     [] n = 3 -> [o EXCEPT !.l = DSub(@, DDiv(resonance, "12"))]
     [] n = 4 -> LET nt == DegLin("42.02", "-0.5118", y)  own == DegLin("342.7", "10.057", y)
                     es == DAdd(DMul("0.000265", DSin(own)), DMul("0.001", DSin(o.p)))
                     ec == DAdd(DMul("0.000265", DCos(own)), DMul("0.001", DCos(o.p))) IN
                 [o EXCEPT !.l = DAdd(@, common), !.p = DAtan2(es, ec), !.e = DSqrt(DAdd(DSq(es), DSq(ec))),
                           !.i = Total(<<Tilt0, Rad("-0.0455"), DMul(g0, DCos(o.n)), DegCos("0.0193", nt)>>),
                           !.n = Total(<<Node0, Rad("-0.0078"), DDiv(DAdd(DMul(g0, DSin(o.n)), DegSin("0.0193", nt)), s1)>>)]
     [] n = 5 -> LET node == Total(<<Node0, Rad("-0.1420"), DDiv(DMul(g0, DSin(o.n)), s1)>>)
                     g == DMul("2", Add3(o.p, DNeg(node), Rad("-4.6")))  h == Rad("206.398") IN
                 [o EXCEPT !.l = DAdd(@, common), !.n = node, !.i = Total(<<Tilt0, Rad("-0.6303"), DMul(g0, DCos(o.n))>>),
                           !.e = DAdd(@, DMul(@, DMul(Rad("0.3752"), DSub(DCos(g), DCos(h))))),
                           !.p = DAdd(@, DMul(Rad("0.3752"), DSub(DSin(g), DSin(h))))]
     [] n = 6 -> LET t == DegLin("92.39", "0.5621071", days)  z == DegLin("148.19", "-19.18", y)  f == DegLin("-34.7", "-61.784", y)
                     u == DDiv(DSub(jd, "2442000.5"), "365.25")
                     nt == DegLin("42.02", "-0.5118", DDiv(DSub(jd, "2411368"), "365.25"))
                     ls == DegLin("176", "12.22", y)  bs == DegLin("8", "24.44", y)  ds == DAdd(bs, Rad("5"))
                     th == DegLin("184.8", "-35.41", u)  tp == DegLin("177.3", "-35.41", u)
                     zt == DAdd(z, t)  zm == DSub(z, t)  z2 == DMul("2", z)  z3 == DMul("3", z)
                     com == DMul(DMul(Rad("0.6435"), "0.248880"), DSin(o.n)) IN
                 [o EXCEPT
                   !.a = Total(<<@, DMul("-0.00003509", DCos(t)), DMul("-0.00000067", DCos(zt)), DMul("0.00000071", DCos(zm))>>),
                   !.e = Total(<<@, DMul("-0.004099", DCos(t)), DMul("-0.000167", DCos(zt)), DMul("0.000235", DCos(zm)), DMul("0.02303", DCos(z)),
                                 DMul("-0.00212", DCos(z2)), DMul("0.000151", DCos(z3)), DMul("0.00013", DCos(f))>>),
                   !.i = Total(<<Tilt0, Rad("-0.13"), DMul("0.011231", DCos(o.n)), DegCos("0.315", nt), DegCos("-0.018", ds), DegCos("0.018", th)>>),
                   !.n = Total(<<Node0, Rad("-0.747"), DDiv(Total(<<DMul("0.011231", DSin(o.n)), DegSin("0.315", nt), DegSin("-0.018", ds), DegSin("0.0168", tp)>>), "0.468727")>>),
                   !.l = Total(<<@, com, DegSin("9.142", t), DegSin("0.007", DMul("2", t)), DegSin("-0.014", DMul("3", t)), DegSin("-0.013", ls), DegSin("0.017", bs),
                                 DegSin("-0.0303", f), DegSin("0.2275", zt), DegSin("0.2112", zm), DegSin("-0.26", z), DegSin("-0.0098", z2)>>),
                   !.p = Total(<<@, com, DegSin("-0.4457", t), DegSin("-0.2419", z3), DegSin("-0.2657", zt), DegSin("-0.3573", zm), DegSin("-12.872", z), DegSin("1.668", z2)>>)]
     [] n = 7 -> LET c == DDiv(y, "100")  b == DDiv(DSub(jd, "2415020"), "36525")  d == DSub(jd, "2411368")
                     i == Rad(DPoly(<<"18.4602", "-0.9518", "-0.072", "0.0054">>, c))
                     e == DAdd(o.e, DMul("0.001156", c))
                     node == DAdd(o.n, Rad(DPoly(<<"0", "0", "0.116", "0.008">>, c)))
                     sun == DegLin("267.263", "1222.114", b)  sunp == DegLin("91.796", "0.562", b)  psi == DegLin("4.367", "-0.195", b)  th == DegLin("146.819", "-3.918", b)
                     tit == DegLin("261.319", "22.576974", d)  titp == DegLin("277.102", "0.001389", d)  phi == DegLin("60.47", "1.521", b)  big == DegLin("205.055", "-2.091", b)
                     l == DSub(o.l, o.p)
                     g == Total(<<o.p, DNeg(node), DNeg(psi)>>)  g1 == Total(<<o.p, DNeg(node), DNeg(phi)>>)
                     u5 == DMul("2", DSub(sun, th))                                       \* twice the Sun's distance from the common node
                     tt == DSub(tit, big)                                                 \* Titan's from its own
                     ls == DSub(sun, sunp)
                     u1 == DSub(DMul("2", DAdd(l, g)), u5)  u2 == DSub(DAdd(l, g1), tt)  u3 == DAdd(l, DSub(DMul("2", g), u5))  u4 == DSub(tt, g1)
                     gt == DSub(titp, big)  gg == DSub(g1, gt)  ug == DSub(u5, DMul("2", g))  lu == DAdd(l, u2)
                     all == Total(<<l, g1, tt, phi>>)  up == DAdd(u2, phi)  us == DAdd(u5, psi)
                     dp == Total(<<DegSin("0.08077", gg), DegSin("0.02139", ug), DegSin("-0.00676", u3), DegSin("0.0138", l), DegSin("0.01632", lu), DegSin("0.03547", u4)>>)
                     di == Total(<<DegCos("0.04204", us), DegCos("0.00235", all), DegCos("0.0036", up)>>)
                     dn == Total(<<DegSin("0.04204", us), DegSin("0.00235", all), DegSin("0.00358", up)>>)
                     de == Total(<<DMul("-140.97", DCos(gg)), DMul("37.33", DCos(ug)), DMul("11.8", DCos(u3)), DMul("24.08", DCos(l)), DMul("28.49", DCos(lu)), DMul("61.9", DCos(u4))>>)
                     dl == Total(<<DegSin("-0.04299", u2), DegSin("-0.00789", u1), DegSin("-0.06312", ls), DegSin("-0.00295", DMul("2", ls)), DegSin("-0.02231", u5), DegSin("0.0065", us)>>) IN
                 [o EXCEPT !.a = DMul(@, DAdd("1", DMul("1e-5", DAdd(DMul("7.87", DCos(u1)), DMul("98.79", DCos(u2)))))),
                           !.e = DAdd(e, DMul("1e-5", de)), !.i = DAdd(i, di), !.n = DAdd(node, DDiv(dn, DSin(i))), !.p = DAdd(@, DDiv(dp, e)), !.l = DAdd(@, dl)]
     [] OTHER -> [o EXCEPT !.i = DegLin("173.949", "-0.02", y), !.l = DSub(DMul("2", o.n), @), !.p = DSub(DMul("2", o.n), @)]
\* the inner four are reckoned in the plane of the equator, from its node
OnEquator(n) == n < 4
SPlace(n, o) ==
   LET z == IF OnEquator(n) THEN Node0 ELSE "0"
       el == [q |-> DMul(o.a, DSub("1", o.e)), e |-> o.e, i |-> o.i, n |-> DSub(o.n, z), w |-> DSub(o.p, o.n)]
       k == DDiv("1", DSqrt(DMul(o.a, DSq(o.a))))
       f == Flat(el.q, el.e, "1", DDiv(DSub(o.l, o.p), k))
       v == Place(el, f[1], f[2]) IN
   IF OnEquator(n) THEN TurnZ(Node0, TurnX(Tilt0, v)) ELSE v
SSat(n, jd) ==
   LET t == Century(jd)  v == TurnX(Rad("23.445792"), SPlace(n, SElements(n, jd))) IN
   TurnX(DNeg(Obliquity(t)), MVec(Precession("1950", DAdd("2000", DMul("100", t))), v))
(* ---- Uranus; au and au a second, equator of 2000.  0 Ariel ... 3 Oberon, 4 Miranda ---- *)
UMean == <<<<"-238051e-6", "4445190.550e-6">>, <<"3098046e-6", "2492952.519e-6">>, <<"2285402e-6", "1516148.111e-6">>, <<"856359e-6", "721718.509e-6">>, <<"-915592e-6", "466692.120e-6">>>>
UApse == <<<<"0.611392", "20.082">>, <<"2.408974", "6.217">>, <<"2.067774", "2.865">>, <<"0.735131", "2.078">>, <<"0.426767", "0.386">>>>
UNode == <<<<"5.702313", "-20.309">>, <<"0.395757", "-6.288">>, <<"0.589326", "-2.836">>, <<"1.746237", "-1.843">>, <<"4.206896", "-0.259">>>>
UMass == <<"86.1", "84.0", "230.0", "200.0", "4.4">>       \* km^3/s^2
USystem == "5794554.5"
UPlanet == DSub(USystem, Total(UMass))
UAngles(d) ==
   LET y == DDiv(d, "365.25")  a(k) == Lin(UMean[k][1], UMean[k][2], d)  e(k) == DAdd(UApse[k][1], Rad(DMul(UApse[k][2], y))) IN
   [a0 |-> a(1), a1 |-> a(2), a2 |-> a(3), a3 |-> a(4), a4 |-> a(5), e0 |-> e(1), e1 |-> e(2), e2 |-> e(3), e3 |-> e(4), e4 |-> e(5)]
UNodes(d) == [k \in 1..5 |-> DAdd(UNode[k][1], Rad(DMul(UNode[k][2], DDiv(d, "365.25"))))]
CosSumD(terms, v) == Sum(Len(terms), LAMBDA k : DMul(terms[k][1], DCos(Angle(terms[k][2], v))))
SinSumD(terms, v) == Sum(Len(terms), LAMBDA k : DMul(terms[k][1], DSin(Angle(terms[k][2], v))))
UElements(s, jd) ==                                        \* motion a day, longitude, k, h, q, p
   LET d == DSub(jd, "2444239.5")  v == UAngles(d)  w == UNodes(d)  E == <<v.e0, v.e1, v.e2, v.e3, v.e4>>  n == s + 1  u(x) == DMul("1e-6", x) IN
   [m |-> u(DAdd(UMotion[n][1], CosSumD(UMotion[n][2], v))),
    l |-> u(DAdd(Lin(ULongitude[n][1], ULongitude[n][2], d), SinSumD(ULongitude[n][3], v))),
    k |-> u(DAdd(Sum(5, LAMBDA j : DMul(UEcc[n][j], DCos(E[j]))), CosSumD(UForced[n], v))),
    h |-> u(DAdd(Sum(5, LAMBDA j : DMul(UEcc[n][j], DSin(E[j]))), SinSumD(UForced[n], v))),
    q |-> u(Sum(5, LAMBDA j : DMul(UIncl[n][j], DCos(w[j])))), p |-> u(Sum(5, LAMBDA j : DMul(UIncl[n][j], DSin(w[j]))))]
UPlane == <<<<"0.9753206898", "-0.2207422915", "0.0047321138">>, <<"0.0619432123", "0.2529905682", "-0.9654837185">>, <<"0.2119259083", "0.9419493686", "0.2604204221">>>>
UAu == "149597870"
USatOf(s, jd, mass) ==
   LET o == UElements(s, jd)  gm == DAdd(UPlanet, mass)
       mps == DDiv(o.m, "86400")                           \* motion a second
       a == DCbrt(DDiv(gm, DSq(mps)))
       e == DSqrt(DAdd(DSq(o.k), DSq(o.h)))  w == DAtan2(o.h, o.k)
       sn == DSqrt(DAdd(DSq(o.q), DSq(o.p)))  node == DAtan2(o.p, o.q)
       el == [q |-> DMul(a, DSub("1", e)), e |-> e, i |-> DMul("2", DAtan2(sn, DSqrt(DSub("1", DSq(sn))))), n |-> node, w |-> DSub(w, node)]
       f == Flat(el.q, el.e, gm, DDiv(DSub(o.l, w), mps))
       k == DDiv("1", UAu) IN
   [r |-> VScale(k, MVec(Tr(UPlane), Place(el, f[1], f[2]))), v |-> VScale(k, MVec(Tr(UPlane), Place(el, f[3], f[4])))]
USat(s, jd) == USatOf(s, jd, UMass[s + 1])
\* gust86.cpp has the five masses in another order, Miranda's first
Misplaced == <<"4.4", "86.1", "84.0", "230.0", "200.0">>
USatMisplaced(s, jd) == USatOf(s, jd, Misplaced[s + 1])
(* ---- Triton; au, equator of 2000; the node of the invariable plane is that on the equator of 1950 ---- *)
Triton(jd) ==
   LET n == DegLin("359.28", "54.308", Century(jd))  d == DSub(jd, "2433282.5")
       shift == DegLin("151.401", "0.57806", DDiv(d, "365.25"))
       l == DegLin("200.913", "61.2588532", d)  tilt == Rad("158.996")
       ra == Rad(Add3("298.72", DMul("2.58", DSin(n)), DMul("-0.04", DSin(DMul("2", n)))))
       dec == Rad(Add3("42.63", DMul("-1.9", DCos(n)), DMul("0.01", DCos(DMul("2", n)))))
       to2000 == Precession("1950", "2000")
       pole == MVec(Tr(to2000), <<DMul(DCos(dec), DCos(ra)), DMul(DCos(dec), DSin(ra)), DSin(dec)>>)
       node == DAdd(DAtan2(pole[2], pole[1]), Rad("90"))
       slope == DAtan2(DSqrt(DAdd(DSq(pole[1]), DSq(pole[2]))), pole[3])
       flat == TurnZ(shift, TurnX(tilt, <<DCos(l), DSin(l), "0">>)) IN
   VScale(Sec("488.49"), MVec(to2000, TurnZ(node, TurnX(slope, flat))))
(* ---- Helene, Telesto, Calypso; au and au a day, ecliptic of 2000 ---- *)
CAngle(i, s, d) == LET m == CTerms[s + 1][i][1] IN
   Total(<<DMul(Num(m[1]), Lin(C_phi1[s + 1], C_rnu1[s + 1], d)), DMul(Num(m[2]), Lin(C_phi2[s + 1], C_rnu2[s + 1], d)),
           DMul(Num(m[3]), Lin(C_phi3[s + 1], C_rnu3[s + 1], d)), DMul(Num(m[4]), Lin(C_theta[s + 1], C_rlamda[s + 1], d))>>)
CRate(i, s) == LET m == CTerms[s + 1][i][1] IN
   Total(<<DMul(Num(m[1]), C_rnu1[s + 1]), DMul(Num(m[2]), C_rnu2[s + 1]), DMul(Num(m[3]), C_rnu3[s + 1]), DMul(Num(m[4]), C_rlamda[s + 1])>>)
CSat(s, jd) ==
   LET d == DSub(jd, D2000)
       part(c, j) == DMul("1e-6", Sum(Len(CTerms[s + 1]), LAMBDA i : LET t == CTerms[s + 1][i]  x == CAngle(i, s, d) IN DAdd(DMul(Num(t[j][c]), DCos(x)), DMul(Num(t[j + 1][c]), DSin(x))))) IN
   [r |-> [c \in 1..3 |-> part(c, 2)], v |-> [c \in 1..3 |-> part(c, 4)]]
(* ---- small inner satellites; km, equator of 2000 ---- *)
IsRock(id) == \E k \in DOMAIN Rocks : Rocks[k].id = id
RockOf(id) == Rocks[CHOOSE k \in DOMAIN Rocks : Rocks[k].id = id]
Rock(id, jd) ==                                            \* the centre's equation to the second order
   LET o == RockOf(id)  s == DMul("86400", DSub(jd, o.jd))
       l == DegLin(o.l, o.motion, s)
       e == DSqrt(DAdd(DSq(o.h), DSq(o.k)))  w == DAdd(IF DLe(e, "0") THEN "0" ELSE DAtan2(o.h, o.k), Rad(DMul(o.apsis, s)))
       ti == DSqrt(DAdd(DSq(o.p), DSq(o.q)))  n == DAdd(IF DLe(ti, "0") THEN "0" ELSE DAtan2(o.p, o.q), Rad(DMul(o.node, s)))
       f == Total(<<DSub(l, w), DMul(DMul("2", e), DSin(DSub(l, w))), DMul(DMul("1.25", DSq(e)), DSin(DMul("2", DSub(l, w))))>>)
       r == DDiv(DMul(o.a, DSub("1", DSq(e))), DAdd("1", DMul(e, DCos(f))))
       u == DSub(DAdd(f, w), n) IN
   VScale(r, TurnZ(DAdd(Rad(o.ra), Rad("90")), TurnX(DSub(Rad("90"), Rad(o.dec)), TurnZ(n, TurnX(DMul("2", DAtan2(ti, "1")), <<DCos(u), DSin(u), "0">>)))))
===============================================================================
