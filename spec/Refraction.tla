------------------------------ MODULE Refraction ------------------------------
(***************************************************************************)
(* How air bends light: a rule of thumb (Bennett 1982, Saemundsson 1986),  *)
(* a formula with the weather in it (Saastamoinen), and the integral along *)
(* the ray through a troposphere with a constant lapse rate and a          *)
(* stratosphere of one temperature (Auer & Standish; Explanatory           *)
(* Supplement 3.28).  Angles in radians.                                   *)
(* Weather w: lat, alt (above the sea, metres), wl (microns), hum          *)
(* (percent), t (kelvins), p (millibars).                                  *)
(***************************************************************************)
EXTENDS Dec, SequencesExt
Deg(x) == DDiv(DMul(x, "180"), DPi)
Cot(x) == DDiv(DCos(x), DSin(x))
Minutes(x) == DDiv(Rad(x), "60")
Seconds(x) == DDiv(Rad(x), "3600")
(* by how much an object seen at h has been raised *)
Bennett(h) == LET r == Cot(DAdd(h, DDiv(Rad("7.31"), DAdd(Deg(h), "4.4")))) IN
              Minutes(DSub(r, DMul("0.06", DSin(Rad(DAdd(DMul("14.7", r), "13"))))))
(* by how much an object truly at h is raised *)
Saemundsson(h) == Minutes(DMul("1.02", Cot(DAdd(h, DDiv(Rad("10.3"), DAdd(Deg(h), "5.11"))))))
DPow(x, y) == DExp(DMul(y, DLog(x)))
VaporPressure(hum, t) == DMul(hum, DPow(DDiv(t, "247.1"), "18.36"))        \* hum a fraction
Saastamoinen(h, p, t, hum) ==
   LET tan == Cot(h)  tan2 == DSq(tan)  q == DDiv(DSub(p, DMul("0.156", VaporPressure(hum, t))), t) IN
   Seconds(DSub(DMul(DMul("16.271", DMul(q, tan)), DAdd("1", DMul(DMul("0.0000394", q), tan2))),
                DMul(DMul("0.0000749", p), DMul(tan, DAdd("1", tan2)))))
(* ---- the integral ---- *)
EarthRadius == "6378120"
Tropopause == DAdd(EarthRadius, "11000")
Top == DAdd(EarthRadius, "80000")
Lapse == "0.0065"
\* air at the observer, as constants of a profile
Air(w) ==
   LET r0 == DAdd(EarthRadius, w.alt)
       g == DMul("9.784", DSub(DSub("1", DMul("0.0026", DCos(DMul("2", w.lat)))), DMul("2.8e-7", w.alt)))
       c2 == DDiv(DMul(g, "28.966"), "8314.36")
       gamma == DDiv(c2, Lapse)
       pw == DMul(VaporPressure(DDiv(w.hum, "100"), w.t), "1")
       l2 == DSq(w.wl)
       a == DMul(DDiv("273.15e-6", "1013.25"), DAdd("287.604", DAdd(DDiv("1.6288", l2), DDiv("0.0136", DSq(l2)))))
       c5 == DDiv(DMul(pw, DMul(DSub("1", DDiv("18.016", "28.966")), gamma)), DSub("18.36", gamma))
       c6 == DDiv(DMul(a, DAdd(w.p, c5)), w.t)
       c7 == DDiv(DAdd(DMul(a, c5), DMul("11.2684e-6", pw)), w.t)
       tt == DSub(w.t, DMul(Lapse, DSub(Tropopause, r0))) IN
   [r0 |-> r0, c2 |-> c2, gamma |-> gamma, c6 |-> c6, c7 |-> c7, t |-> w.t, tt |-> tt]
\* refractive index and its gradient at r, below and above the tropopause
Below(a, r) ==
   LET f == DSub("1", DDiv(DMul(Lapse, DSub(r, a.r0)), a.t))
       l == DLog(f)
       dry == DMul(a.c6, DExp(DMul(DSub(a.gamma, "2"), l)))
       wet == DMul(a.c7, DExp(DMul("16.36", l)))
       k == DDiv(Lapse, a.t) IN
   [n |-> DAdd("1", DMul(f, DSub(dry, wet))),
    d |-> DMul(k, DSub(DMul("17.36", wet), DMul(DSub(a.gamma, "1"), dry)))]
Above(a, nt, r) ==
   LET k == DDiv(a.c2, a.tt)  x == DMul(DSub(nt, "1"), DExp(DMul(DNeg(k), DSub(r, Tropopause)))) IN
   [n |-> DAdd("1", x), d |-> DMul(DNeg(k), x)]
\* along a ray n r sin z is constant; the integral of r n' / (n + r n') over z, in two times n panels (Simpson), r found by Newton's method
Bend(Law(_), z0, r0, z1, r1, nrs, n) ==
   LET At(z, guess) ==
          LET Better(r) == LET q == Law(r) IN DSub(r, DDiv(DSub(DMul(q.n, r), DDiv(nrs, DSin(z))), DAdd(q.n, DMul(r, q.d))))
              r == Better(Better(Better(guess)))  q == Law(r)  rd == DMul(r, q.d) IN
          [r |-> r, y |-> DDiv(rd, DAdd(q.n, rd))]
       step == DDiv(DSub(z1, z0), Num(2 * n))
       Weight(k) == IF k = 0 \/ k = 2 * n THEN "1" ELSE IF k % 2 = 1 THEN "4" ELSE "2"
       all == FoldLeft(LAMBDA acc, k : LET v == At(DAdd(z0, DMul(Num(k - 1), step)), acc.r) IN
                                       [r |-> v.r, s |-> DAdd(acc.s, DMul(Weight(k - 1), v.y))],
                       [r |-> r0, s |-> "0"], [k \in 1..(2 * n + 1) |-> k]) IN
   DMul(all.s, DDiv(step, "3"))
Arcsin(s) == DAtan2(s, DSqrt(DSub("1", DSq(s))))
Integral(w, h, n) ==
   LET a == Air(w)
       z0 == DSub(DDiv(DPi, "2"), h)
       n0 == Below(a, a.r0).n
       nrs == DMul(DMul(n0, a.r0), DSin(z0))
       nt == Below(a, Tropopause).n
       zt == Arcsin(DDiv(nrs, DMul(nt, Tropopause)))
       ns == Above(a, nt, Top).n
       zs == Arcsin(DDiv(nrs, DMul(ns, Top))) IN
   IF DNear(z0, "0", "1e-30") THEN "0"
   ELSE DAdd(Bend(LAMBDA r : Below(a, r), z0, a.r0, zt, Tropopause, nrs, n),
             Bend(LAMBDA r : Above(a, nt, r), zt, Tropopause, zs, Top, nrs, n))
===============================================================================
