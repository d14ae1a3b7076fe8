----------------------------- MODULE ConstellData -----------------------------
(* The boundaries of the constellations along declinations (equinox B1875): <<distance from the south pole in arcminutes, first right ascension,
   width in seconds of time, the constellation just south>>, from north to south; what no line bounds to the north is Ursa Minor. The areas,
   in square degrees, are those in print, and are what the lines are checked by. *)
Abbrs == <<"And", "Ant", "Aps", "Aql", "Aqr", "Ara", "Ari", "Aur", "Boo", "Cae", "Cam", "Cap", "Car", "Cas", "Cen", "Cep", "Cet", "Cha", "Cir", "CMa", "CMi", "Cnc", "Col", "Com", "CrA", "CrB", "Crt", "Cru", "Crv", "CVn", "Cyg", "Del", "Dor", "Dra", "Equ", "Eri", "For", "Gem", "Gru", "Her", "Hor", "Hya", "Hyi", "Ind", "Lac", "Leo", "Lep", "Lib", "LMi", "Lup", "Lyn", "Lyr", "Men", "Mic", "Mon", "Mus", "Nor", "Oct", "Oph", "Ori", "Pav", "Peg", "Per", "Phe", "Pic", "PsA", "Psc", "Pup", "Pyx", "Ret", "Scl", "Sco", "Sct", "Ser", "Sex", "Sge", "Sgr", "Tau", "Tel", "TrA", "Tri", "Tuc", "UMa", "UMi", "Vel", "Vir", "Vol", "Vul">>
Areas == [And |-> "722.278", Ant |-> "238.901", Aps |-> "206.327", Aql |-> "652.473", Aqr |-> "979.854", Ara |-> "237.057", Ari |-> "441.395", Aur |-> "657.438", Boo |-> "906.831", Cae |-> "124.865", Cam |-> "756.828", Cap |-> "413.947", Car |-> "494.184", Cas |-> "598.407", Cen |-> "1060.422", Cep |-> "587.787", Cet |-> "1231.411", Cha |-> "131.592", Cir |-> "93.353", CMa |-> "380.118", CMi |-> "183.367", Cnc |-> "505.872", Col |-> "270.184", Com |-> "386.475", CrA |-> "127.696", CrB |-> "178.710", Crt |-> "282.398", Cru |-> "68.447", Crv |-> "183.801", CVn |-> "465.194", Cyg |-> "803.983", Del |-> "188.549", Dor |-> "179.173", Dra |-> "1082.952", Equ |-> "71.641", Eri |-> "1137.919", For |-> "397.502", Gem |-> "513.761", Gru |-> "365.513", Her |-> "1225.148", Hor |-> "248.885", Hya |-> "1302.844", Hyi |-> "243.035", Ind |-> "294.006", Lac |-> "200.688", Leo |-> "946.964", Lep |-> "290.291", Lib |-> "538.052", LMi |-> "231.956", Lup |-> "333.683", Lyn |-> "545.386", Lyr |-> "286.476", Men |-> "153.484", Mic |-> "209.513", Mon |-> "481.569", Mus |-> "138.355", Nor |-> "165.290", Oct |-> "291.045", Oph |-> "948.340", Ori |-> "594.120", Pav |-> "377.666", Peg |-> "1120.794", Per |-> "614.997", Phe |-> "469.319", Pic |-> "246.739", PsA |-> "245.375", Psc |-> "889.417", Pup |-> "673.434", Pyx |-> "220.833", Ret |-> "113.936", Scl |-> "474.764", Sco |-> "496.783", Sct |-> "109.114", Ser |-> "636.928", Sex |-> "313.515", Sge |-> "79.923", Sgr |-> "867.432", Tau |-> "797.249", Tel |-> "251.512", TrA |-> "109.978", Tri |-> "131.847", Tuc |-> "294.557", UMa |-> "1279.660", UMi |-> "255.864", Vel |-> "499.649", Vir |-> "1294.428", Vol |-> "141.354", Vul |-> "268.165"]
Segs == <<
   <<10680, 82800, 32400, "Cep">>, <<10590, 28800, 23400, "Cam">>, <<10570, 75600, 39600, "Cep">>, <<10560, 64800, 10800, "Dra">>, <<10500, 18000, 34200, "Cam">>, <<10320, 33000, 5400, "Dra">>,
   <<10200, 72600, 26430, "Cep">>, <<10200, 63000, 9600, "Dra">>, <<10200, 48900, 14100, "UMi">>, <<10200, 33000, 8400, "Dra">>, <<10200, 12630, 20370, "Cam">>, <<10020, 46800, 16200, "UMi">>,
   <<10020, 33000, 13800, "Dra">>, <<10020, 12300, 20700, "Cam">>, <<10020, 1200, 11100, "Cas">>, <<9900, 59520, 14880, "Dra">>, <<9810, 28680, 12120, "UMa">>, <<9600, 56400, 18000, "Dra">>,
   <<9600, 40800, 9600, "Dra">>, <<9480, 11160, 17520, "Cam">>, <<9420, 73500, 14100, "Cep">>, <<9390, 28680, 14520, "UMa">>, <<9360, 84900, 12660, "Cas">>, <<9360, 43200, 30300, "Dra">>,
   <<9240, 28680, 19920, "UMa">>, <<9180, 83400, 14160, "Cas">>, <<9180, 28680, 23220, "UMa">>, <<9120, 21960, 3240, "Lyn">>, <<9090, 72000, 11400, "Cep">>, <<9055, 73932, 228, "Cyg">>,
   <<9000, 21960, 8340, "Lyn">>, <<8970, 71160, 3000, "Cyg">>, <<8945, 82320, 15240, "Cas">>, <<8910, 6870, 1890, "Per">>, <<8880, 69900, 4260, "Cyg">>, <<8850, 6120, 2640, "Per">>,
   <<8820, 6120, 5280, "Per">>, <<8775, 80340, 1980, "Lac">>, <<8760, 18000, 3960, "Aur">>, <<8730, 68700, 5460, "Cyg">>, <<8730, 50520, 4380, "Boo">>, <<8700, 79680, 2640, "Lac">>,
   <<8700, 6120, 5880, "Per">>, <<8690, 68700, 10380, "Cyg">>, <<8640, 18000, 5400, "Aur">>, <<8640, 4920, 7080, "Per">>, <<8580, 50520, 6180, "Boo">>, <<8580, 43500, 5100, "CVn">>,
   <<8565, 79080, 3240, "Lac">>, <<8550, 82320, 1680, "And">>, <<8550, 16890, 6510, "Aur">>, <<8550, 4920, 11970, "Per">>, <<8490, 56700, 4500, "Her">>, <<8430, 56700, 8940, "Her">>,
   <<8430, 7350, 1710, "And">>, <<8400, 82320, 2580, "And">>, <<8400, 16890, 7590, "Aur">>, <<8400, 4020, 1980, "And">>, <<8310, 43500, 7020, "CVn">>, <<8280, 82320, 4680, "And">>,
   <<8280, 3120, 2880, "And">>, <<8250, 65430, 3570, "Lyr">>, <<8220, 24480, 8520, "Lyn">>, <<8220, 3120, 5940, "And">>, <<8160, 82320, 13140, "And">>, <<8100, 43200, 7320, "CVn">>,
   <<8070, 16890, 9630, "Aur">>, <<8040, 78870, 3450, "Lac">>, <<8025, 78750, 3570, "Lac">>, <<8010, 65430, 4410, "Lyr">>, <<7920, 34500, 2100, "LMi">>, <<7920, 26520, 7980, "Lyn">>,
   <<7800, 55560, 3240, "CrB">>, <<7800, 34500, 4320, "LMi">>, <<7785, 33300, 5520, "LMi">>, <<7605, 7200, 2040, "Tri">>, <<7590, 69690, 9060, "Cyg">>, <<7560, 78240, 960, "Peg">>,
   <<7560, 16200, 10320, "Aur">>, <<7530, 23520, 4380, "Gem">>, <<7500, 78240, 3900, "Peg">>, <<7500, 5070, 4170, "Tri">>, <<7470, 78240, 6360, "Peg">>, <<7440, 43200, 1200, "Com">>,
   <<7440, 33300, 6300, "LMi">>, <<7440, 5070, 4710, "Tri">>, <<7410, 33300, 2280, "Leo">>, <<7410, 28800, 4500, "Cnc">>, <<7410, 23520, 5280, "Gem">>, <<7380, 54660, 4140, "CrB">>,
   <<7380, 2580, 2490, "Psc">>, <<7325, 78240, 7260, "Peg">>, <<7320, 43200, 4500, "Com">>, <<7280, 78240, 8160, "Peg">>, <<7245, 50250, 4410, "Boo">>, <<7240, 12120, 4080, "Tau">>,
   <<7240, 8700, 3420, "Ari">>, <<7200, 69330, 8910, "Cyg">>, <<7200, 58800, 7320, "Her">>, <<7200, 12120, 4980, "Tau">>, <<7140, 70800, 4500, "Vul">>, <<7140, 42720, 4980, "Com">>,
   <<7140, 39600, 3120, "Leo">>, <<7110, 48600, 6060, "Boo">>, <<7110, 42720, 5880, "Com">>, <<7110, 33300, 4500, "Leo">>, <<7110, 12120, 9060, "Tau">>, <<7080, 77100, 9540, "Peg">>,
   <<7080, 70800, 6300, "Vul">>, <<7080, 28380, 4920, "Cnc">>, <<7080, 21180, 7200, "Gem">>, <<7080, 2580, 3420, "Psc">>, <<7050, 69330, 7770, "Vul">>, <<7035, 6900, 5220, "Ari">>,
   <<7020, 58200, 7920, "Her">>, <<6960, 57720, 10200, "Her">>, <<6960, 54300, 3420, "Ser">>, <<6930, 67920, 9180, "Vul">>, <<6930, 38700, 4020, "Leo">>, <<6900, 6000, 6120, "Ari">>,
   <<6825, 240, 2820, "And">>, <<6810, 76500, 10140, "Peg">>, <<6810, 33300, 9420, "Leo">>, <<6770, 20520, 660, "Ori">>, <<6720, 76500, 10410, "Peg">>, <<6720, 57300, 10620, "Her">>,
   <<6690, 20520, 1860, "Ori">>, <<6675, 71400, 1500, "Sge">>, <<6665, 67920, 1380, "Sge">>, <<6660, 510, 5490, "Psc">>, <<6630, 72900, 1140, "Del">>, <<6600, 28110, 5190, "Cnc">>,
   <<6570, 75780, 11130, "Peg">>, <<6570, 72900, 2880, "Del">>, <<6550, 67920, 4980, "Sge">>, <<6540, 11820, 8700, "Tau">>, <<6510, 67920, 480, "Aql">>, <<6480, 11820, 8940, "Tau">>,
   <<6450, 20760, 1950, "Ori">>, <<6370, 67920, 3480, "Aql">>, <<6360, 54300, 3600, "Ser">>, <<6360, 17880, 1320, "Ori">>, <<6345, 72510, 3270, "Del">>, <<6345, 67920, 4590, "Aql">>,
   <<6330, 16620, 3540, "Ori">>, <<6300, 46200, 2400, "Vir">>, <<6260, 62100, 3600, "Oph">>, <<6240, 42720, 5880, "Vir">>, <<6210, 27000, 1110, "CMi">>, <<6170, 60300, 5400, "Oph">>,
   <<6150, 76020, 780, "Equ">>, <<6150, 25200, 2910, "CMi">>, <<6150, 16620, 6090, "Ori">>, <<6150, 0, 6000, "Psc">>, <<6120, 67184, 5326, "Aql">>, <<6120, 60300, 6884, "Oph">>,
   <<6120, 22710, 2250, "Mon">>, <<6110, 75150, 1650, "Equ">>, <<6060, 41460, 7140, "Vir">>, <<6000, 85800, 6600, "Psc">>, <<6000, 25200, 3330, "CMi">>, <<6000, 22470, 2730, "Mon">>,
   <<5995, 85800, 7800, "Psc">>, <<5995, 7200, 4620, "Cet">>, <<5910, 67184, 5896, "Aql">>, <<5880, 41460, 12840, "Vir">>, <<5850, 81900, 11700, "Psc">>, <<5820, 34500, 4200, "Sex">>,
   <<5820, 29100, 5400, "Hya">>, <<5820, 25200, 3900, "CMi">>, <<5775, 65700, 2220, "Ser">>, <<5760, 75000, 1800, "Equ">>, <<5730, 22470, 2790, "Mon">>, <<5670, 60300, 6030, "Oph">>,
   <<5640, 58560, 7770, "Oph">>, <<5640, 54300, 4260, "Ser">>, <<5580, 65700, 2220, "Ser">>, <<5565, 77280, 720, "Aqr">>, <<5520, 79200, 2700, "Aqr">>, <<5520, 73920, 4080, "Aqr">>,
   <<5520, 66900, 7020, "Aql">>, <<5520, 1200, 10620, "Cet">>, <<5505, 73920, 7980, "Aqr">>, <<5490, 22470, 3450, "Mon">>, <<5400, 64200, 2700, "Ser">>, <<5400, 54300, 4260, "Ser">>,
   <<5400, 52800, 1500, "Lib">>, <<5400, 22470, 6630, "Mon">>, <<5400, 12900, 3900, "Eri">>, <<5295, 9540, 7260, "Eri">>, <<5205, 57300, 6900, "Oph">>, <<5205, 52800, 4500, "Lib">>,
   <<5160, 73920, 11880, "Aqr">>, <<5160, 65700, 2220, "Sct">>, <<5160, 57300, 7380, "Oph">>, <<5160, 21000, 8100, "Mon">>, <<5160, 9540, 8760, "Eri">>, <<5040, 38700, 3900, "Crt">>,
   <<4980, 85800, 10140, "Cet">>, <<4920, 57300, 1260, "Sco">>, <<4920, 51300, 6000, "Lib">>, <<4860, 76800, 1920, "Cap">>, <<4860, 72000, 1920, "Cap">>, <<4800, 63600, 2100, "Ser">>,
   <<4800, 61800, 1500, "Ser">>, <<4740, 42600, 3600, "Crv">>, <<4740, 30120, 8580, "Hya">>, <<4740, 26520, 3600, "Pup">>, <<4740, 22020, 4500, "CMa">>, <<4740, 17700, 4320, "Lep">>,
   <<4700, 61800, 3900, "Ser">>, <<4678, 67920, 4080, "Sgr">>, <<4530, 17400, 4620, "Lep">>, <<4500, 72000, 6720, "Cap">>, <<4440, 63360, 8640, "Sgr">>, <<4440, 58560, 4800, "Oph">>,
   <<4380, 30120, 780, "Pyx">>, <<4305, 57300, 1650, "Sco">>, <<4260, 32700, 6300, "Hya">>, <<4260, 30120, 2580, "Pyx">>, <<4245, 58560, 4800, "Oph">>, <<4200, 56400, 2160, "Sco">>,
   <<4080, 45300, 6000, "Hya">>, <<3960, 33720, 1380, "Ant">>, <<3960, 30120, 3600, "Pyx">>, <<3937, 6000, 7500, "For">>, <<3930, 35100, 18600, "Hya">>, <<3925, 56400, 3900, "Sco">>,
   <<3870, 82800, 9600, "Scl">>, <<3870, 76800, 6000, "PsA">>, <<3810, 33720, 3180, "Ant">>, <<3765, 18000, 4020, "Col">>, <<3765, 16920, 1080, "Cae">>, <<3720, 73200, 3600, "Mic">>,
   <<3720, 63360, 9840, "Sgr">>, <<3650, 33720, 4380, "Ant">>, <<3630, 53700, 3900, "Lup">>, <<3630, 45300, 8400, "Cen">>, <<3600, 57600, 6600, "Sco">>, <<3600, 16500, 1500, "Cae">>,
   <<3530, 33720, 5280, "Ant">>, <<3420, 44100, 9600, "Cen">>, <<3420, 23700, 6420, "Pup">>, <<3420, 18000, 5700, "Col">>, <<3300, 39600, 14100, "Cen">>, <<3300, 33720, 5880, "Ant">>,
   <<3240, 12600, 3900, "Eri">>, <<3195, 30120, 3600, "Vel">>, <<3180, 76800, 7200, "Gru">>, <<3180, 64200, 4800, "CrA">>, <<3180, 15360, 2640, "Cae">>, <<3025, 10800, 4560, "Eri">>,
   <<3015, 30120, 9480, "Vel">>, <<3000, 84000, 10800, "Phe">>, <<3000, 13920, 1440, "Hor">>, <<3000, 8400, 5520, "Eri">>, <<2880, 56400, 2715, "Nor">>, <<2880, 51000, 5400, "Lup">>,
   <<2820, 28800, 10800, "Vel">>, <<2820, 21600, 7200, "Pup">>, <<2820, 17400, 4200, "Pic">>, <<2760, 12300, 3060, "Hor">>, <<2670, 73200, 3600, "Ind">>, <<2670, 64800, 8400, "Tel">>,
   <<2670, 59115, 5685, "Ara">>, <<2640, 10800, 4560, "Hor">>, <<2610, 16200, 5400, "Pic">>, <<2520, 55200, 3915, "Nor">>, <<2510, 6600, 4200, "Eri">>, <<2460, 14700, 1500, "Dor">>,
   <<2460, 9600, 5100, "Hor">>, <<2400, 73200, 6000, "Ind">>, <<2355, 21600, 7800, "Car">>, <<2340, 13800, 2400, "Dor">>, <<2340, 8700, 5100, "Hor">>, <<2310, 5700, 3000, "Eri">>,
   <<2250, 16200, 6000, "Pic">>, <<2220, 22200, 8220, "Car">>, <<2210, 12600, 1800, "Ret">>, <<2190, 4800, 3900, "Eri">>, <<2160, 54180, 4935, "Nor">>, <<2160, 14400, 3600, "Dor">>,
   <<2160, 7800, 4800, "Hor">>, <<2130, 22200, 9600, "Car">>, <<2100, 52320, 2880, "Cir">>, <<2100, 46200, 6120, "Cen">>, <<2100, 42600, 3600, "Cru">>, <<2100, 18000, 5400, "Pic">>,
   <<2010, 23400, 17100, "Car">>, <<2010, 12600, 3000, "Ret">>, <<1980, 79200, 4800, "Tuc">>, <<1980, 63000, 10200, "Pav">>, <<1950, 15600, 4200, "Dor">>, <<1950, 11520, 4080, "Ret">>,
   <<1920, 19800, 4800, "Pic">>, <<1890, 79200, 12000, "Tuc">>, <<1890, 4800, 3000, "Hyi">>, <<1860, 11520, 4980, "Ret">>, <<1800, 63000, 13800, "Pav">>, <<1800, 55200, 3915, "TrA">>,
   <<1740, 54600, 5100, "TrA">>, <<1740, 16500, 5100, "Dor">>, <<1585, 53700, 6600, "TrA">>, <<1560, 48600, 5100, "Cir">>, <<1560, 40500, 8100, "Mus">>, <<1560, 23700, 8820, "Vol">>,
   <<1560, 16500, 7200, "Dor">>, <<1500, 53700, 6900, "TrA">>, <<1500, 40500, 8700, "Mus">>, <<1350, 76800, 7200, "Ind">>, <<1350, 61200, 3600, "Aps">>, <<1350, 53100, 8100, "TrA">>,
   <<1350, 4800, 11700, "Hyi">>, <<1200, 49200, 15600, "Aps">>, <<1200, 16500, 7200, "Men">>, <<900, 64800, 21600, "Oct">>, <<900, 27600, 21600, "Cha">>, <<900, 12600, 15000, "Men">>,
   <<900, 0, 2700, "Hyi">>, <<840, 0, 12600, "Hyi">>, <<450, 63300, 35700, "Oct">>, <<450, 27600, 35700, "Oct">>, <<300, 43200, 43200, "Oct">>, <<300, 0, 43200, "Oct">> >>
===============================================================================
