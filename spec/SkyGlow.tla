-------------------------------- MODULE SkyGlow --------------------------------
(***************************************************************************)
(* How bright the sky is, how much light the air takes, and how faint a    *)
(* star can be seen, in the bands U B V R I (Schaefer 1990, 1998;          *)
(* Krisciunas & Schaefer 1991).  A scene s: angles in radians from the     *)
(* zenith (zen, zmoon, zsun), of the Moon from the Sun (elong), from the   *)
(* direction looked in to Moon and Sun (dmoon, dsun); lat, alt (metres),   *)
(* temp (Celsius), hum (percent), year, month.                             *)
(***************************************************************************)
EXTENDS Dec, SequencesExt
Deg(x) == DDiv(DMul(x, "180"), DPi)
LnTen == DLog("10")
Ten(x) == IF DLt(x, "-400") THEN "0" ELSE DExp(DMul(LnTen, x))           \* what is too dim to write down is dark
Light(mag) == Ten(DMul("-0.4", mag))
Magnitude(b) == DMul("-2.5", DDiv(DLog(b), LnTen))
DPow(x, y) == DExp(DMul(y, DLog(x)))
(* air masses: of everything, of the Rayleigh scattering gas and of water, of dust, of ozone (a shell 20 km up) *)
AirMass(z) == LET c == DCos(z) IN IF DLt("0", c) THEN DDiv("1", DAdd(c, DMul("0.025", DExp(DMul("-11", c))))) ELSE "40"
GasMass(z) == LET c == DCos(z) IN DDiv("1", DAdd(c, DMul("0.0286", DExp(DMul("-10.5", c)))))
DustMass(z) == LET c == DCos(z) IN DDiv("1", DAdd(c, DMul("0.0123", DExp(DMul("-24.5", c)))))
OzoneMass(z) == LET t == DDiv(DSin(z), DAdd("1", DDiv("20", "6378"))) IN DDiv("1", DSqrt(DSub("1", DSq(t))))
(* magnitudes lost in one air mass *)
Bands == 1..5                                             \* U B V R I
ToFourth == <<"5.155601", "2.441406", "1", "0.381117", "0.139470">>                      \* (0.55/wavelength)^4
ToOneThird == <<"1.704083", "1.336543", "1", "0.730877", "0.527177">>                    \* (0.55/wavelength)^1.3
OzoneIn == <<"0", "0", "0.031", "0.008", "0">>
WaterIn == <<"0.074", "0.045", "0.031", "0.02", "0.015">>
Season(s) == DDiv(DMul(DSub(s.month, "3"), DPi), "6")
Thin(s, scale) == DExp(DDiv(DNeg(s.alt), scale))
Rayleigh(s, k) == DMul(DMul("0.1066", Thin(s, "8200")), ToFourth[k])
Swelling(hum) == IF DLe(hum, "0") THEN "1" ELSE IF DLe("100", hum) THEN DPow("1000000", "1.33")
                 ELSE DPow(DSub("1", DDiv("0.32", DLog(DDiv(hum, "100")))), "1.33")
Dust(s, k) == DMul(DMul(DMul("0.1", Thin(s, "1500")), DMul(Swelling(s.hum), DAdd("1", DMul(DSin(Season(s)), DSin(s.lat))))), ToOneThird[k])
Ozone(s, k) == DMul(DDiv(DAdd("3", DMul("0.4", DSub(DMul(s.lat, DCos(Season(s))), DCos(DMul("3", s.lat))))), "3"), OzoneIn[k])
Water(s, k) == DMul(DMul(DMul("0.94", DDiv(s.hum, "100")), DMul(DExp(DDiv(s.temp, "15")), Thin(s, "8200"))), WaterIn[k])
K(s, k) == DAdd(DAdd(Rayleigh(s, k), Dust(s, k)), DAdd(Ozone(s, k), Water(s, k)))
Extinction(s, k) == DAdd(DMul(DAdd(Rayleigh(s, k), Water(s, k)), GasMass(s.zen)), DAdd(DMul(Dust(s, k), DustMass(s.zen)), DMul(Ozone(s, k), OzoneMass(s.zen))))
(* the Moon: how far from full, in degrees; how bright *)
FromFull(s) == LET m == DMod(DAbs(DSub("180", Deg(s.elong))), "360") IN IF DLt("180", m) THEN DSub("360", m) ELSE m
MoonMag(s) == LET p == FromFull(s) IN DAdd("-12.73", DAdd(DMul("0.026", p), DMul("4e-9", DSq(DSq(p)))))
Cycle(s) == DAdd("1", DMul("0.3", DCos(DDiv(DMul(DTwoPi, DSub(s.year, "1992")), "11"))))
(* light of the sky *)
Scattering(d) == LET a == Deg(d) IN
   DAdd(DAdd(DDiv("6.2e7", DSq(a)), Ten(DSub("6.15", DDiv(a, "40")))), DMul("229086", DAdd("1.06", DSq(DCos(d)))))
Airglow == <<"8e-14", "7e-14", "1e-13", "1e-13", "3e-13">>
MoonColor == <<"1.36", "0.91", "0", "-0.76", "-1.17">>
SunMag == <<"-25.96", "-26.09", "-26.74", "-27.26", "-27.55">>
ZeroMag == <<"-10.93", "-10.45", "-11.05", "-11.90", "-12.70">>
\* what is scattered out of the direct beam of a body, once and more than once
Scattered(s, k, zbody, dist) == LET c == Light(DMul(K(s, k), AirMass(zbody))) IN
   DAdd(DMul(Scattering(dist), c), DMul("440000", DSub("1", c)))
Direct(s, k) == Light(DMul(K(s, k), AirMass(s.zen)))
NightPart(s, k) == DMul(DMul(Airglow[k], Cycle(s)), DMul(DAdd("0.4", DDiv("0.6", DSqrt(DSub("1", DMul("0.96", DSq(DSin(s.zen))))))), Direct(s, k)))
MoonPart(s, k) ==
   LET full == DMul(DMul(Light(DAdd(DSub(DAdd(MoonMag(s), MoonColor[k]), ZeroMag[k]), "43.27")), DSub("1", Direct(s, k))), Scattered(s, k, s.zmoon, s.dmoon))
       down == DSub(s.zmoon, DDiv(DPi, "2")) IN
   IF DLt("0", down) THEN DMul(full, DExp(DMul("-100", down))) ELSE full
DayPart(s, k) == DMul(DMul(Light(DAdd(DSub(SunMag[k], ZeroMag[k]), "43.27")), DSub("1", Direct(s, k))), Scattered(s, k, s.zsun, s.dsun))
TwilightPart(s, k) ==
   LET mag == DSub(DSub(DAdd(DSub(SunMag[k], ZeroMag[k]), "32.5"), DSub("90", Deg(s.zsun))), DDiv(s.zen, DMul(DTwoPi, K(s, k)))) IN
   DMul(DMul(Light(mag), DDiv("100", Deg(s.dsun))), DSub("1", Light(K(s, k))))
Brightness(s, k) == DAdd(DAdd(NightPart(s, k), MoonPart(s, k)), DMin(DayPart(s, k), TwilightPart(s, k)))
SurfaceMag(b) == DSub(Magnitude(b), "11.055")             \* per square arcsecond
(* the faintest star seen against a sky b through an extinction of x magnitudes *)
Faintest(b, x) ==
   LET nl == DDiv(b, "1.11e-15")                          \* nanolamberts
       day == DLt("1500", nl)
       c1 == IF day THEN "4.4668e-9" ELSE "1.5849e-10"
       c2 == IF day THEN "1.2589e-6" ELSE "1.2589e-2"
       th == DMul(c1, DSq(DAdd("1", DSqrt(DMul(c2, nl))))) IN
   DSub(DAdd("-16.57", Magnitude(th)), x)
================================================================================
