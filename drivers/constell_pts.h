/* corners of the boundaries of the constellations: arcminutes from the south pole, seconds of right ascension (from spec/ConstellData.tla) */
static const int corners[][2] = {
{10680,82800},{10680,28800}, {10590,28800},{10590,52200}, {10570,75600},{10570,28800}, {10560,64800},{10560,75600}, {10500,18000},{10500,52200}, {10320,33000},{10320,38400},
{10200,72600},{10200,12630}, {10200,63000},{10200,72600}, {10200,48900},{10200,63000}, {10200,33000},{10200,41400}, {10200,12630},{10200,33000}, {10020,46800},{10020,63000},
{10020,33000},{10020,46800}, {10020,12300},{10020,33000}, {10020,1200},{10020,12300}, {9900,59520},{9900,74400}, {9810,28680},{9810,40800}, {9600,56400},{9600,74400},
{9600,40800},{9600,50400}, {9480,11160},{9480,28680}, {9420,73500},{9420,1200}, {9390,28680},{9390,43200}, {9360,84900},{9360,11160}, {9360,43200},{9360,73500},
{9240,28680},{9240,48600}, {9180,83400},{9180,11160}, {9180,28680},{9180,51900}, {9120,21960},{9120,25200}, {9090,72000},{9090,83400}, {9055,73932},{9055,74160},
{9000,21960},{9000,30300}, {8970,71160},{8970,74160}, {8945,82320},{8945,11160}, {8910,6870},{8910,8760}, {8880,69900},{8880,74160}, {8850,6120},{8850,8760},
{8820,6120},{8820,11400}, {8775,80340},{8775,82320}, {8760,18000},{8760,21960}, {8730,68700},{8730,74160}, {8730,50520},{8730,54900}, {8700,79680},{8700,82320},
{8700,6120},{8700,12000}, {8690,68700},{8690,79080}, {8640,18000},{8640,23400}, {8640,4920},{8640,12000}, {8580,50520},{8580,56700}, {8580,43500},{8580,48600},
{8565,79080},{8565,82320}, {8550,82320},{8550,84000}, {8550,16890},{8550,23400}, {8550,4920},{8550,16890}, {8490,56700},{8490,61200}, {8430,56700},{8430,65640},
{8430,7350},{8430,9060}, {8400,82320},{8400,84900}, {8400,16890},{8400,24480}, {8400,4020},{8400,6000}, {8310,43500},{8310,50520}, {8280,82320},{8280,600},
{8280,3120},{8280,6000}, {8250,65430},{8250,69000}, {8220,24480},{8220,33000}, {8220,3120},{8220,9060}, {8160,82320},{8160,9060}, {8100,43200},{8100,50520},
{8070,16890},{8070,26520}, {8040,78870},{8040,82320}, {8025,78750},{8025,82320}, {8010,65430},{8010,69840}, {7920,34500},{7920,36600}, {7920,26520},{7920,34500},
{7800,55560},{7800,58800}, {7800,34500},{7800,38820}, {7785,33300},{7785,38820}, {7605,7200},{7605,9240}, {7590,69690},{7590,78750}, {7560,78240},{7560,79200},
{7560,16200},{7560,26520}, {7530,23520},{7530,27900}, {7500,78240},{7500,82140}, {7500,5070},{7500,9240}, {7470,78240},{7470,84600}, {7440,43200},{7440,44400},
{7440,33300},{7440,39600}, {7440,5070},{7440,9780}, {7410,33300},{7410,35580}, {7410,28800},{7410,33300}, {7410,23520},{7410,28800}, {7380,54660},{7380,58800},
{7380,2580},{7380,5070}, {7325,78240},{7325,85500}, {7320,43200},{7320,47700}, {7280,78240},{7280,0}, {7245,50250},{7245,54660}, {7240,12120},{7240,16200},
{7240,8700},{7240,12120}, {7200,69330},{7200,78240}, {7200,58800},{7200,66120}, {7200,12120},{7200,17100}, {7140,70800},{7140,75300}, {7140,42720},{7140,47700},
{7140,39600},{7140,42720}, {7110,48600},{7110,54660}, {7110,42720},{7110,48600}, {7110,33300},{7110,37800}, {7110,12120},{7110,21180}, {7080,77100},{7080,240},
{7080,70800},{7080,77100}, {7080,28380},{7080,33300}, {7080,21180},{7080,28380}, {7080,2580},{7080,6000}, {7050,69330},{7050,77100}, {7035,6900},{7035,12120},
{7020,58200},{7020,66120}, {6960,57720},{6960,67920}, {6960,54300},{6960,57720}, {6930,67920},{6930,77100}, {6930,38700},{6930,42720}, {6900,6000},{6900,12120},
{6825,240},{6825,3060}, {6810,76500},{6810,240}, {6810,33300},{6810,42720}, {6770,20520},{6770,21180}, {6720,76500},{6720,510}, {6720,57300},{6720,67920},
{6690,20520},{6690,22380}, {6675,71400},{6675,72900}, {6665,67920},{6665,69300}, {6660,510},{6660,6000}, {6630,72900},{6630,74040}, {6600,28110},{6600,33300},
{6570,75780},{6570,510}, {6570,72900},{6570,75780}, {6550,67920},{6550,72900}, {6540,11820},{6540,20520}, {6510,67920},{6510,68400}, {6480,11820},{6480,20760},
{6450,20760},{6450,22710}, {6370,67920},{6370,71400}, {6360,54300},{6360,57900}, {6360,17880},{6360,19200}, {6345,72510},{6345,75780}, {6345,67920},{6345,72510},
{6330,16620},{6330,20160}, {6300,46200},{6300,48600}, {6260,62100},{6260,65700}, {6240,42720},{6240,48600}, {6210,27000},{6210,28110}, {6170,60300},{6170,65700},
{6150,76020},{6150,76800}, {6150,25200},{6150,28110}, {6150,16620},{6150,22710}, {6150,0},{6150,6000}, {6120,67184},{6120,72510}, {6120,60300},{6120,67184},
{6120,22710},{6120,24960}, {6110,75150},{6110,76800}, {6060,41460},{6060,48600}, {6000,85800},{6000,6000}, {6000,25200},{6000,28530}, {6000,22470},{6000,25200},
{5995,85800},{5995,7200}, {5995,7200},{5995,11820}, {5910,67184},{5910,73080}, {5880,41460},{5880,54300}, {5850,81900},{5850,7200}, {5820,34500},{5820,38700},
{5820,29100},{5820,34500}, {5820,25200},{5820,29100}, {5775,65700},{5775,67920}, {5760,75000},{5760,76800}, {5730,22470},{5730,25260}, {5670,60300},{5670,66330},
{5640,58560},{5640,66330}, {5640,54300},{5640,58560}, {5580,65700},{5580,67920}, {5565,77280},{5565,78000}, {5520,79200},{5520,81900}, {5520,73920},{5520,78000},
{5520,66900},{5520,73920}, {5520,1200},{5520,11820}, {5505,73920},{5505,81900}, {5490,22470},{5490,25920}, {5400,64200},{5400,66900}, {5400,54300},{5400,58560},
{5400,52800},{5400,54300}, {5400,22470},{5400,29100}, {5400,12900},{5400,16800}, {5295,9540},{5295,16800}, {5205,57300},{5205,64200}, {5205,52800},{5205,57300},
{5160,73920},{5160,85800}, {5160,65700},{5160,67920}, {5160,57300},{5160,64680}, {5160,21000},{5160,29100}, {5160,9540},{5160,18300}, {5040,38700},{5040,42600},
{4980,85800},{4980,9540}, {4920,57300},{4920,58560}, {4920,51300},{4920,57300}, {4860,76800},{4860,78720}, {4860,72000},{4860,73920}, {4800,63600},{4800,65700},
{4800,61800},{4800,63300}, {4740,42600},{4740,46200}, {4740,30120},{4740,38700}, {4740,26520},{4740,30120}, {4740,22020},{4740,26520}, {4740,17700},{4740,22020},
{4700,61800},{4700,65700}, {4678,67920},{4678,72000}, {4530,17400},{4530,22020}, {4500,72000},{4500,78720}, {4440,63360},{4440,72000}, {4440,58560},{4440,63360},
{4380,30120},{4380,30900}, {4305,57300},{4305,58950}, {4260,32700},{4260,39000}, {4260,30120},{4260,32700}, {4245,58560},{4245,63360}, {4200,56400},{4200,58560},
{4080,45300},{4080,51300}, {3960,33720},{3960,35100}, {3960,30120},{3960,33720}, {3937,6000},{3937,13500}, {3930,35100},{3930,53700}, {3925,56400},{3925,60300},
{3870,82800},{3870,6000}, {3870,76800},{3870,82800}, {3810,33720},{3810,36900}, {3765,18000},{3765,22020}, {3765,16920},{3765,18000}, {3720,73200},{3720,76800},
{3720,63360},{3720,73200}, {3650,33720},{3650,38100}, {3630,53700},{3630,57600}, {3630,45300},{3630,53700}, {3600,57600},{3600,64200}, {3600,16500},{3600,18000},
{3530,33720},{3530,39000}, {3420,44100},{3420,53700}, {3420,23700},{3420,30120}, {3420,18000},{3420,23700}, {3300,39600},{3300,53700}, {3300,33720},{3300,39600},
{3240,12600},{3240,16500}, {3195,30120},{3195,33720}, {3180,76800},{3180,84000}, {3180,64200},{3180,69000}, {3180,15360},{3180,18000}, {3025,10800},{3025,15360},
{3015,30120},{3015,39600}, {3000,84000},{3000,8400}, {3000,13920},{3000,15360}, {3000,8400},{3000,13920}, {2880,56400},{2880,59115}, {2880,51000},{2880,56400},
{2820,28800},{2820,39600}, {2820,21600},{2820,28800}, {2820,17400},{2820,21600}, {2760,12300},{2760,15360}, {2670,73200},{2670,76800}, {2670,64800},{2670,73200},
{2670,59115},{2670,64800}, {2640,10800},{2640,15360}, {2610,16200},{2610,21600}, {2520,55200},{2520,59115}, {2510,6600},{2510,10800}, {2460,14700},{2460,16200},
{2460,9600},{2460,14700}, {2400,73200},{2400,79200}, {2355,21600},{2355,29400}, {2340,13800},{2340,16200}, {2340,8700},{2340,13800}, {2310,5700},{2310,8700},
{2250,16200},{2250,22200}, {2220,22200},{2220,30420}, {2210,12600},{2210,14400}, {2190,4800},{2190,8700}, {2160,54180},{2160,59115}, {2160,14400},{2160,18000},
{2160,7800},{2160,12600}, {2130,22200},{2130,31800}, {2100,52320},{2100,55200}, {2100,46200},{2100,52320}, {2100,42600},{2100,46200}, {2100,18000},{2100,23400},
{2010,23400},{2010,40500}, {2010,12600},{2010,15600}, {1980,79200},{1980,84000}, {1980,63000},{1980,73200}, {1950,15600},{1950,19800}, {1950,11520},{1950,15600},
{1920,19800},{1920,24600}, {1890,79200},{1890,4800}, {1890,4800},{1890,7800}, {1860,11520},{1860,16500}, {1800,63000},{1800,76800}, {1800,55200},{1800,59115},
{1740,54600},{1740,59700}, {1740,16500},{1740,21600}, {1585,53700},{1585,60300}, {1560,48600},{1560,53700}, {1560,40500},{1560,48600}, {1560,23700},{1560,32520},
{1560,16500},{1560,23700}, {1500,53700},{1500,60600}, {1500,40500},{1500,49200}, {1350,76800},{1350,84000}, {1350,61200},{1350,64800}, {1350,53100},{1350,61200},
{1350,4800},{1350,16500}, {1200,49200},{1200,64800}, {1200,16500},{1200,23700}, {900,64800},{900,0}, {900,27600},{900,49200}, {900,12600},{900,27600},
{900,0},{900,2700}, {840,0},{840,12600}, {450,63300},{450,12600}, {450,27600},{450,63300}, {300,43200},{300,0}, {300,0},{300,43200}};
