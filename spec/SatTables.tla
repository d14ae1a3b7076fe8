------------------------------ MODULE SatTables ------------------------------
EXTENDS Integers
(* Coefficients of the theories of satellites: E5 (Jupiter; longitudes in 1e-5 degrees, tangents of latitude and radii in 1e-7),
   GUST86 (Uranus, 1e-6), HTC20 (Helene, Telesto, Calypso; 1e-6 au), and precessing ellipses (km, degrees, degrees a second).
   A term: <<coefficient, multiples of angles>>; c: 0.001 degrees; S: 1e-4 of the perturbation of the longitude. *)
JLon == <<
  <<<<47259, [l1 |-> 2, l2 |-> -2]>>, <<-3478, [p3 |-> 1, p4 |-> -1]>>, <<1081, [l2 |-> 1, l3 |-> -2, p3 |-> 1]>>, <<738, [b |-> 1]>>, <<713, [l2 |-> 1, l3 |-> -2, p2 |-> 1]>>,
     <<-674, [p1 |-> 1, p3 |-> 1, P |-> -2, g |-> -2]>>, <<666, [l2 |-> 1, l3 |-> -2, p4 |-> 1]>>, <<445, [l1 |-> 1, p3 |-> -1]>>, <<-354, [l1 |-> 1, l2 |-> -1]>>,
     <<-317, [psi |-> 2, P |-> -2]>>, <<265, [l1 |-> 1, p4 |-> -1]>>, <<-186, [g |-> 1]>>, <<162, [p2 |-> 1, p3 |-> -1]>>, <<158, [l1 |-> 4, l2 |-> -4]>>, <<-155, [l1 |-> 1, l3 |-> -1]>>>>,
  <<<<106476, [l2 |-> 2, l3 |-> -2]>>, <<4256, [l1 |-> 1, l2 |-> -2, p3 |-> 1]>>, <<3581, [l2 |-> 1, p3 |-> -1]>>, <<2395, [l1 |-> 1, l2 |-> -2, p4 |-> 1]>>,
     <<1984, [l2 |-> 1, p4 |-> -1]>>, <<-1778, [b |-> 1]>>, <<1654, [l2 |-> 1, p2 |-> -1]>>, <<1334, [l2 |-> 1, l3 |-> -2, p2 |-> 1]>>, <<1294, [p3 |-> 1, p4 |-> -1]>>,
     <<-1142, [l2 |-> 1, l3 |-> -1]>>, <<-1057, [g |-> 1]>>, <<-775, [psi |-> 2, P |-> -2]>>, <<524, [l1 |-> 2, l2 |-> -2]>>, <<-460, [l1 |-> 1, l3 |-> -1]>>,
     <<316, [w3 |-> 1, psi |-> 1, P |-> -2, g |-> -2]>>, <<-203, [p1 |-> 1, p3 |-> 1, P |-> -2, g |-> -2]>>, <<146, [w3 |-> -1, psi |-> 1]>>, <<-145, [g |-> 2]>>,
     <<125, [w4 |-> -1, psi |-> 1]>>, <<-115, [l1 |-> 1, l3 |-> -2, p3 |-> 1]>>, <<-94, [l2 |-> 2, w2 |-> -2]>>>>,
  <<<<16490, [l3 |-> 1, p3 |-> -1]>>, <<9081, [l3 |-> 1, p4 |-> -1]>>, <<-6907, [l2 |-> 1, l3 |-> -1]>>, <<3784, [p3 |-> 1, p4 |-> -1]>>, <<1846, [l3 |-> 2, l4 |-> -2]>>,
     <<-1340, [g |-> 1]>>, <<-1014, [psi |-> 2, P |-> -2]>>, <<704, [l2 |-> 1, l3 |-> -2, p3 |-> 1]>>, <<-620, [l2 |-> 1, l3 |-> -2, p2 |-> 1]>>, <<-541, [l3 |-> 1, l4 |-> -1]>>,
     <<381, [l2 |-> 1, l3 |-> -2, p4 |-> 1]>>, <<235, [w3 |-> -1, psi |-> 1]>>, <<198, [w4 |-> -1, psi |-> 1]>>, <<176, [b |-> 1]>>, <<130, [l3 |-> 3, l4 |-> -3]>>,
     <<125, [l1 |-> 1, l3 |-> -1]>>, <<-119, [g |-> -2, h |-> 5, c |-> 52225]>>, <<109, [l1 |-> 1, l2 |-> -1]>>, <<-100, [l3 |-> 3, l4 |-> -7, p4 |-> 4]>>, <<91, [w3 |-> 1, w4 |-> -1]>>,
     <<80, [l3 |-> 3, l4 |-> -7, p3 |-> 1, p4 |-> 3]>>, <<-75, [l2 |-> 2, l3 |-> -3, p3 |-> 1]>>, <<72, [p1 |-> 1, p3 |-> 1, P |-> -2, g |-> -2]>>, <<69, [p4 |-> 1, P |-> -1]>>,
     <<-58, [l3 |-> 2, l4 |-> -3, p4 |-> 1]>>, <<-57, [l3 |-> 1, l4 |-> -2, p4 |-> 1]>>, <<56, [l3 |-> 1, p3 |-> 1, P |-> -2, g |-> -2]>>, <<-52, [l2 |-> 1, l3 |-> -2, p1 |-> 1]>>,
     <<-50, [p2 |-> 1, p3 |-> -1]>>>>,
  <<<<84287, [l4 |-> 1, p4 |-> -1]>>, <<3431, [p3 |-> -1, p4 |-> 1]>>, <<-3305, [psi |-> 2, P |-> -2]>>, <<-3211, [g |-> 1]>>, <<-1862, [l4 |-> 1, p3 |-> -1]>>,
     <<1186, [w4 |-> -1, psi |-> 1]>>, <<623, [l4 |-> 1, p4 |-> 1, P |-> -2, g |-> -2]>>, <<387, [l4 |-> 2, p4 |-> -2]>>, <<-284, [g |-> -2, h |-> 5, c |-> 52225]>>,
     <<-234, [p4 |-> -2, psi |-> 2]>>, <<-223, [l3 |-> 1, l4 |-> -1]>>, <<-208, [l4 |-> 1, P |-> -1]>>, <<178, [p4 |-> -2, w4 |-> 1, psi |-> 1]>>, <<134, [p4 |-> 1, P |-> -1]>>,
     <<125, [l4 |-> 2, P |-> -2, g |-> -2]>>, <<-117, [g |-> 2]>>, <<-112, [l3 |-> 2, l4 |-> -2]>>>>>>
JLat == <<
  <<<<6393, [w1 |-> -1, L |-> 1]>>, <<1825, [w2 |-> -1, L |-> 1]>>, <<329, [w3 |-> -1, L |-> 1]>>, <<-311, [psi |-> -1, L |-> 1]>>, <<93, [w4 |-> -1, L |-> 1]>>>>,
  <<<<81004, [w2 |-> -1, L |-> 1]>>, <<4512, [w3 |-> -1, L |-> 1]>>, <<-3284, [psi |-> -1, L |-> 1]>>, <<1160, [w4 |-> -1, L |-> 1]>>,
     <<272, [l1 |-> 1, l3 |-> -2, w2 |-> 1, S |-> 10146]>>, <<-144, [w1 |-> -1, L |-> 1]>>, <<143, [psi |-> 1, P |-> -2, g |-> -2, L |-> 1]>>>>,
  <<<<32402, [w3 |-> -1, L |-> 1]>>, <<-16911, [psi |-> -1, L |-> 1]>>, <<6847, [w4 |-> -1, L |-> 1]>>, <<-2797, [w2 |-> -1, L |-> 1]>>, <<321, [psi |-> 1, P |-> -2, g |-> -2, L |-> 1]>>,
     <<51, [psi |-> -1, g |-> 1, L |-> 1]>>, <<-45, [psi |-> -1, g |-> -1, L |-> 1]>>, <<-45, [psi |-> 1, P |-> -2, L |-> 1]>>>>,
  <<<<-76579, [psi |-> -1, L |-> 1]>>, <<44134, [w4 |-> -1, L |-> 1]>>, <<-5112, [w3 |-> -1, L |-> 1]>>, <<773, [psi |-> 1, P |-> -2, g |-> -2, L |-> 1]>>,
     <<104, [psi |-> -1, g |-> 1, L |-> 1]>>, <<-102, [psi |-> -1, g |-> -1, L |-> 1]>>, <<88, [psi |-> 1, P |-> -2, g |-> -3, L |-> 1]>>,
     <<-38, [psi |-> 1, P |-> -2, g |-> -1, L |-> 1]>>>>>>
JRad == <<
  <<<<-41339, [l1 |-> 2, l2 |-> -2]>>, <<-387, [l1 |-> 1, p3 |-> -1]>>, <<-214, [l1 |-> 1, p4 |-> -1]>>, <<170, [l1 |-> 1, l2 |-> -1]>>, <<-131, [l1 |-> 4, l2 |-> -4]>>,
     <<106, [l1 |-> 1, l3 |-> -1]>>>>,
  <<<<93848, [l1 |-> 1, l2 |-> -1]>>, <<-3116, [l2 |-> 1, p3 |-> -1]>>, <<-1744, [l2 |-> 1, p4 |-> -1]>>, <<-1442, [l2 |-> 1, p2 |-> -1]>>, <<553, [l2 |-> 1, l3 |-> -1]>>,
     <<523, [l1 |-> 1, l3 |-> -1]>>, <<-290, [l1 |-> 2, l2 |-> -2]>>, <<164, [l2 |-> 2, w2 |-> -2]>>, <<107, [l1 |-> 1, l3 |-> -2, p3 |-> 1]>>, <<-102, [l2 |-> 1, p1 |-> -1]>>,
     <<-91, [l1 |-> 2, l3 |-> -2]>>>>,
  <<<<-14388, [l3 |-> 1, p3 |-> -1]>>, <<-7919, [l3 |-> 1, p4 |-> -1]>>, <<6342, [l2 |-> 1, l3 |-> -1]>>, <<-1761, [l3 |-> 2, l4 |-> -2]>>, <<294, [l3 |-> 1, l4 |-> -1]>>,
     <<-156, [l3 |-> 3, l4 |-> -3]>>, <<156, [l1 |-> 1, l3 |-> -1]>>, <<-153, [l1 |-> 1, l2 |-> -1]>>, <<70, [l2 |-> 2, l3 |-> -3, p3 |-> 1]>>>>,
  <<<<-73546, [l4 |-> 1, p4 |-> -1]>>, <<1621, [l4 |-> 1, p3 |-> -1]>>, <<974, [l3 |-> 1, l4 |-> -1]>>, <<-543, [l4 |-> 1, p4 |-> 1, P |-> -2, g |-> -2]>>,
     <<-271, [l4 |-> 2, p4 |-> -2]>>, <<182, [l4 |-> 1, P |-> -1]>>, <<177, [l3 |-> 2, l4 |-> -2]>>, <<-167, [l4 |-> 2, w4 |-> -1, psi |-> -1]>>, <<167, [w4 |-> -1, psi |-> 1]>>,
     <<-155, [l4 |-> 2, P |-> -2, g |-> -2]>>, <<142, [l4 |-> 2, psi |-> -2]>>, <<105, [l1 |-> 1, l4 |-> -1]>>, <<92, [l2 |-> 1, l4 |-> -1]>>, <<-89, [l4 |-> 1, P |-> -1, g |-> -1]>>,
     <<-62, [l4 |-> 1, p4 |-> 1, P |-> -2, g |-> -3]>>, <<48, [l4 |-> 2, w4 |-> -2]>>>>>>
UMotion == <<
  <<"2492542.57", <<<<"2.55", [a0 |-> 1, a1 |-> -3, a2 |-> 2]>>, <<"-42.16", [a1 |-> 1, a2 |-> -1]>>, <<"-102.56", [a1 |-> 2, a2 |-> -2]>>>>>>,
  <<"1515954.90", <<<<"9.74", [a2 |-> 1, a3 |-> -2, e2 |-> 1]>>, <<"-106.00", [a1 |-> 1, a2 |-> -1]>>, <<"54.16", [a1 |-> 2, a2 |-> -2]>>, <<"-23.59", [a2 |-> 1, a3 |-> -1]>>,
     <<"-70.70", [a2 |-> 2, a3 |-> -2]>>, <<"-36.28", [a2 |-> 3, a3 |-> -3]>>>>>>,
  <<"721663.16", <<<<"-2.64", [a2 |-> 1, a3 |-> -2, e2 |-> 1]>>, <<"-2.16", [a3 |-> 2, a4 |-> -3, e4 |-> 1]>>, <<"6.45", [a3 |-> 2, a4 |-> -3, e3 |-> 1]>>,
     <<"-1.11", [a3 |-> 2, a4 |-> -3, e2 |-> 1]>>, <<"-62.23", [a1 |-> 1, a3 |-> -1]>>, <<"-56.13", [a2 |-> 1, a3 |-> -1]>>, <<"-39.94", [a3 |-> 1, a4 |-> -1]>>,
     <<"-91.85", [a3 |-> 2, a4 |-> -2]>>, <<"-58.31", [a3 |-> 3, a4 |-> -3]>>, <<"-38.60", [a3 |-> 4, a4 |-> -4]>>, <<"-26.18", [a3 |-> 5, a4 |-> -5]>>,
     <<"-18.06", [a3 |-> 6, a4 |-> -6]>>>>>>,
  <<"466580.54", <<<<"2.08", [a3 |-> 2, a4 |-> -3, e4 |-> 1]>>, <<"-6.22", [a3 |-> 2, a4 |-> -3, e3 |-> 1]>>, <<"1.07", [a3 |-> 2, a4 |-> -3, e2 |-> 1]>>,
     <<"-43.10", [a1 |-> 1, a4 |-> -1]>>, <<"-38.94", [a2 |-> 1, a4 |-> -1]>>, <<"-80.11", [a3 |-> 1, a4 |-> -1]>>, <<"59.06", [a3 |-> 2, a4 |-> -2]>>, <<"37.49", [a3 |-> 3, a4 |-> -3]>>,
     <<"24.82", [a3 |-> 4, a4 |-> -4]>>, <<"16.84", [a3 |-> 5, a4 |-> -5]>>>>>>,
  <<"4443522.67", <<<<"-34.92", [a0 |-> 1, a1 |-> -3, a2 |-> 2]>>, <<"8.47", [a0 |-> 2, a1 |-> -6, a2 |-> 4]>>, <<"1.31", [a0 |-> 3, a1 |-> -9, a2 |-> 6]>>,
     <<"-52.28", [a0 |-> 1, a1 |-> -1]>>, <<"-136.65", [a0 |-> 2, a1 |-> -2]>>>>>>>>
ULongitude == <<
  <<"3098046.41", "2492952.52", <<<<"-1860.50", [a0 |-> 1, a1 |-> -3, a2 |-> 2]>>, <<"219.99", [a0 |-> 2, a1 |-> -6, a2 |-> 4]>>, <<"23.10", [a0 |-> 3, a1 |-> -9, a2 |-> 6]>>,
     <<"4.30", [a0 |-> 4, a1 |-> -12, a2 |-> 8]>>, <<"-90.11", [a1 |-> 1, a2 |-> -1]>>, <<"-91.07", [a1 |-> 2, a2 |-> -2]>>, <<"-42.75", [a1 |-> 3, a2 |-> -3]>>,
     <<"-16.49", [a1 |-> 2, a3 |-> -2]>>>>>>,
  <<"2285401.69", "1516148.11", <<<<"660.57", [a0 |-> 1, a1 |-> -3, a2 |-> 2]>>, <<"-76.51", [a0 |-> 2, a1 |-> -6, a2 |-> 4]>>, <<"-8.96", [a0 |-> 3, a1 |-> -9, a2 |-> 6]>>,
     <<"-2.53", [a0 |-> 4, a1 |-> -12, a2 |-> 8]>>, <<"-52.91", [a2 |-> 1, a3 |-> -4, a4 |-> 3]>>, <<"-7.34", [a2 |-> 1, a3 |-> -2, e4 |-> 1]>>,
     <<"-1.83", [a2 |-> 1, a3 |-> -2, e3 |-> 1]>>, <<"147.91", [a2 |-> 1, a3 |-> -2, e2 |-> 1]>>, <<"-7.77", [a2 |-> 1, a3 |-> -2, e1 |-> 1]>>, <<"97.76", [a1 |-> 1, a2 |-> -1]>>,
     <<"73.13", [a1 |-> 2, a2 |-> -2]>>, <<"34.71", [a1 |-> 3, a2 |-> -3]>>, <<"18.89", [a1 |-> 4, a2 |-> -4]>>, <<"-67.89", [a2 |-> 1, a3 |-> -1]>>, <<"-82.86", [a2 |-> 2, a3 |-> -2]>>,
     <<"-33.81", [a2 |-> 3, a3 |-> -3]>>, <<"-15.79", [a2 |-> 4, a3 |-> -4]>>, <<"-10.21", [a2 |-> 1, a4 |-> -1]>>, <<"-17.08", [a2 |-> 2, a4 |-> -2]>>>>>>,
  <<"856358.79", "721718.51", <<<<"20.61", [a2 |-> 1, a3 |-> -4, a4 |-> 3]>>, <<"-2.07", [a2 |-> 1, a3 |-> -2, e4 |-> 1]>>, <<"-2.88", [a2 |-> 1, a3 |-> -2, e3 |-> 1]>>,
     <<"-40.79", [a2 |-> 1, a3 |-> -2, e2 |-> 1]>>, <<"2.11", [a2 |-> 1, a3 |-> -2, e1 |-> 1]>>, <<"-51.83", [a3 |-> 2, a4 |-> -3, e4 |-> 1]>>,
     <<"159.87", [a3 |-> 2, a4 |-> -3, e3 |-> 1]>>, <<"-35.05", [a3 |-> 2, a4 |-> -3, e2 |-> 1]>>, <<"-1.56", [a3 |-> 3, a4 |-> -4, e4 |-> 1]>>, <<"40.54", [a1 |-> 1, a3 |-> -1]>>,
     <<"46.17", [a2 |-> 1, a3 |-> -1]>>, <<"-317.76", [a3 |-> 1, a4 |-> -1]>>, <<"-305.59", [a3 |-> 2, a4 |-> -2]>>, <<"-148.36", [a3 |-> 3, a4 |-> -3]>>,
     <<"-82.92", [a3 |-> 4, a4 |-> -4]>>, <<"-49.98", [a3 |-> 5, a4 |-> -5]>>, <<"-31.56", [a3 |-> 6, a4 |-> -6]>>, <<"-20.56", [a3 |-> 7, a4 |-> -7]>>,
     <<"-13.69", [a3 |-> 8, a4 |-> -8]>>>>>>,
  <<"-915591.80", "466692.12", <<<<"-7.82", [a2 |-> 1, a3 |-> -4, a4 |-> 3]>>, <<"51.29", [a3 |-> 2, a4 |-> -3, e4 |-> 1]>>, <<"-158.24", [a3 |-> 2, a4 |-> -3, e3 |-> 1]>>,
     <<"34.51", [a3 |-> 2, a4 |-> -3, e2 |-> 1]>>, <<"47.51", [a1 |-> 1, a4 |-> -1]>>, <<"38.96", [a2 |-> 1, a4 |-> -1]>>, <<"359.73", [a3 |-> 1, a4 |-> -1]>>,
     <<"282.78", [a3 |-> 2, a4 |-> -2]>>, <<"138.60", [a3 |-> 3, a4 |-> -3]>>, <<"78.03", [a3 |-> 4, a4 |-> -4]>>, <<"47.29", [a3 |-> 5, a4 |-> -5]>>,
     <<"30.00", [a3 |-> 6, a4 |-> -6]>>, <<"19.62", [a3 |-> 7, a4 |-> -7]>>, <<"13.11", [a3 |-> 8, a4 |-> -8]>>>>>>,
  <<"-238051.58", "4445190.55", <<<<"25472.17", [a0 |-> 1, a1 |-> -3, a2 |-> 2]>>, <<"-3088.31", [a0 |-> 2, a1 |-> -6, a2 |-> 4]>>, <<"-318.10", [a0 |-> 3, a1 |-> -9, a2 |-> 6]>>,
     <<"-37.49", [a0 |-> 4, a1 |-> -12, a2 |-> 8]>>, <<"-57.85", [a0 |-> 1, a1 |-> -1]>>, <<"-62.32", [a0 |-> 2, a1 |-> -2]>>, <<"-27.95", [a0 |-> 3, a1 |-> -3]>>>>>>>>
UEcc == <<
  <<"-3.35", "1187.63", "861.59", "71.50", "55.59">>,
  <<"-0.21", "-227.95", "3904.69", "309.17", "221.92">>,
  <<"-0.02", "-1.29", "-324.51", "932.81", "1120.89">>,
  <<"0.00", "-0.35", "74.53", "-758.68", "1397.34">>,
  <<"1312.38", "71.81", "69.77", "6.75", "6.27">>>>
UIncl == <<
  <<"-121.75", "358.25", "290.08", "97.78", "33.97">>,
  <<"-10.86", "-81.51", "1113.36", "350.14", "106.50">>,
  <<"-1.43", "-1.06", "-140.13", "685.72", "378.32">>,
  <<"-0.44", "-0.31", "36.89", "-596.33", "451.69">>,
  <<"37871.71", "27.01", "30.76", "12.18", "5.37">>>>
UForced == <<
  <<<<"-84.60", [a1 |-> -1, a2 |-> 2]>>, <<"91.81", [a1 |-> -2, a2 |-> 3]>>, <<"20.03", [a1 |-> -1, a3 |-> 2]>>, <<"89.77", [a1 |-> 1]>>>>,
  <<<<"29.34", [a1 |-> 1]>>, <<"26.20", [a2 |-> 1]>>, <<"51.19", [a1 |-> -1, a2 |-> 2]>>, <<"-103.86", [a1 |-> -2, a2 |-> 3]>>, <<"-27.16", [a1 |-> -3, a2 |-> 4]>>,
     <<"-16.22", [a3 |-> 1]>>, <<"549.23", [a2 |-> -1, a3 |-> 2]>>, <<"34.70", [a2 |-> -2, a3 |-> 3]>>, <<"12.81", [a2 |-> -3, a3 |-> 4]>>, <<"21.81", [a2 |-> -1, a4 |-> 2]>>,
     <<"46.25", [a2 |-> 1]>>>>,
  <<<<"33.86", [a1 |-> 1]>>, <<"17.46", [a3 |-> 1]>>, <<"16.58", [a1 |-> -1, a3 |-> 2]>>, <<"28.89", [a2 |-> 1]>>, <<"-35.86", [a2 |-> -1, a3 |-> 2]>>, <<"-17.86", [a3 |-> 1]>>,
     <<"-32.10", [a4 |-> 1]>>, <<"-177.83", [a3 |-> -1, a4 |-> 2]>>, <<"793.43", [a3 |-> -2, a4 |-> 3]>>, <<"99.48", [a3 |-> -3, a4 |-> 4]>>, <<"44.83", [a3 |-> -4, a4 |-> 5]>>,
     <<"25.13", [a3 |-> -5, a4 |-> 6]>>, <<"15.43", [a3 |-> -6, a4 |-> 7]>>>>,
  <<<<"39.00", [a1 |-> 1]>>, <<"17.66", [a1 |-> -1, a4 |-> 2]>>, <<"32.42", [a2 |-> 1]>>, <<"79.75", [a3 |-> 1]>>, <<"75.66", [a4 |-> 1]>>, <<"134.04", [a3 |-> -1, a4 |-> 2]>>,
     <<"-987.26", [a3 |-> -2, a4 |-> 3]>>, <<"-126.09", [a3 |-> -3, a4 |-> 4]>>, <<"-57.42", [a3 |-> -4, a4 |-> 5]>>, <<"-32.41", [a3 |-> -5, a4 |-> 6]>>,
     <<"-19.99", [a3 |-> -6, a4 |-> 7]>>, <<"-12.94", [a3 |-> -7, a4 |-> 8]>>>>,
  <<<<"-123.31", [a0 |-> -1, a1 |-> 2]>>, <<"39.52", [a0 |-> -2, a1 |-> 3]>>, <<"194.10", [a0 |-> 1]>>>>>>
Rocks == <<
  [id |-> 401, jd |-> "2433282.50", a |-> "9.376164153345777e+03", h |-> "-5.689907327111091e-04", k |-> "1.508976478046249e-02", l |-> "8.889912565234037e+01",
     p |-> "-4.374861644190954e-03", q |-> "-8.303312581096576e-03", apsis |-> "5.037011787882128e-06", motion |-> "1.306533283449532e-02", node |-> "-5.043841563630776e-06",
     ra |-> "3.176707407767539e+02", dec |-> "5.289299367003886e+01"],
  [id |-> 402, jd |-> "2433282.50", a |-> "2.345766038183417e+04", h |-> "-2.390285567613731e-04", k |-> "6.518182753851608e-05", l |-> "2.505824379527014e+02",
     p |-> "6.477849519349295e-03", q |-> "1.419810985499536e-02", apsis |-> "2.076162603566793e-07", motion |-> "3.300484710930912e-03", node |-> "-2.091750616728367e-07",
     ra |-> "3.166569791010836e+02", dec |-> "5.352937471037383e+01"],
  [id |-> 505, jd |-> "2450000.500000000", a |-> "1.813655512465877e+05", h |-> "3.524243705442326e-04", k |-> "-3.060388597797567e-03", l |-> "3.088979995508090e+02",
     p |-> "-8.524633361449484e-04", q |-> "-3.277584681172060e-03", apsis |-> "2.908651473226303e-05", motion |-> "8.363792987058621e-03", node |-> "-2.898772964219916e-05",
     ra |-> "2.680573067077756e+02", dec |-> "6.449433514883954e+01"],
  [id |-> 514, jd |-> "2450000.500000000", a |-> "2.218882574500956e+05", h |-> "-1.707742712451856e-02", k |-> "-4.631931271882844e-03", l |-> "2.889925861272768e+02",
     p |-> "9.336528660574965e-03", q |-> "7.503268096368817e-05", apsis |-> "1.433399183927280e-05", motion |-> "6.177086242379696e-03", node |-> "-1.430832006152276e-05",
     ra |-> "2.680573566856980e+02", dec |-> "6.449436369487705e+01"],
  [id |-> 515, jd |-> "2450000.500000000", a |-> "1.289847619277409e+05", h |-> "7.733436951055491e-05", k |-> "-7.119915620542968e-04", l |-> "8.469076821476101e+01",
     p |-> "7.291459020134167e-04", q |-> "2.676849686756846e-04", apsis |-> "9.721724518582802e-05", motion |-> "1.396989430143032e-02", node |-> "-9.865593193437598e-05",
     ra |-> "2.680565964128937e+02", dec |-> "6.449530295172036e+01"],
  [id |-> 516, jd |-> "2450000.500000000", a |-> "1.279996083074168e+05", h |-> "4.232619343306958e-04", k |-> "-6.389823783865655e-04", l |-> "3.380483431923231e+02",
     p |-> "2.332741944310790e-04", q |-> "5.651570478951611e-04", apsis |-> "9.905391637419158e-05", motion |-> "1.413489189624821e-02", node |-> "-9.817915317723091e-05",
     ra |-> "2.680565964128937e+02", dec |-> "6.449530295172036e+01"],
  [id |-> 610, jd |-> "2444786.5", a |-> "1.514471646942220e+05", h |-> "-3.356112346396347e-03", k |-> "5.663424289609894e-03", l |-> "1.993639755564592e+02",
     p |-> "-1.210639146126198e-03", q |-> "8.350119519512047e-04", apsis |-> "2.378317712273239e-05", motion |-> "5.998806000756397e-03", node |-> "-2.367392401124433e-05",
     ra |-> "4.057999864473820e+01", dec |-> "8.353999955183330e+01"],
  [id |-> 611, jd |-> "2444786.5", a |-> "1.513991905498270e+05", h |-> "1.244955044467311e-02", k |-> "1.689723618147796e-03", l |-> "1.438890791888553e+02",
     p |-> "-1.212371038828309e-03", q |-> "2.571443713031926e-03", apsis |-> "2.379040740977320e-05", motion |-> "6.001665785000491e-03", node |-> "-2.367577385695356e-05",
     ra |-> "4.057999864473820e+01", dec |-> "8.353999955183330e+01"],
  [id |-> 612, jd |-> "2444786.5", a |-> "3.774166381879790e+05", h |-> "-9.353516152747377e-05", k |-> "1.583034918343283e-03", l |-> "1.006212707258068e+02",
     p |-> "3.230333151378729e-04", q |-> "1.710869900001995e-03", apsis |-> "-6.777890900303528e-07", motion |-> "1.522394989535369e-03", node |-> "-9.680289928992843e-07",
     ra |-> "4.057615013244320e+01", dec |-> "8.354534172579820e+01"],
  [id |-> 613, jd |-> "2444786.5", a |-> "2.946735826892260e+05", h |-> "-5.228888695475952e-04", k |-> "-6.853986134369704e-04", l |-> "2.150026475454563e+02",
     p |-> "8.124186851739944e-03", q |-> "-5.785202572889351e-03", apsis |-> "2.297061650453675e-06", motion |-> "2.207149546064677e-03", node |-> "-2.290176906415847e-06",
     ra |-> "4.057999864473820e+01", dec |-> "8.353999955183330e+01"],
  [id |-> 614, jd |-> "2444786.5", a |-> "2.946734418892560e+05", h |-> "2.900726601141678e-05", k |-> "-1.805642558770706e-04", l |-> "9.486345898172432e+01",
     p |-> "-6.373255324934580e-03", q |-> "-1.114711641632123e-02", apsis |-> "2.297022164277979e-06", motion |-> "2.207149553889344e-03", node |-> "-2.289705897532556e-06",
     ra |-> "4.057999864473820e+01", dec |-> "8.353999955183330e+01"],
  [id |-> 615, jd |-> "2444786.50", a |-> "1.376664620000000e+05", h |-> "0.000000000000000e+00", k |-> "0.000000000000000e+00", l |-> "1.865410967364615e+02",
     p |-> "0.000000000000000e+00", q |-> "0.000000000000000e+00", apsis |-> "3.334584985561025e-05", motion |-> "6.924845572071244e-03", node |-> "-3.318681015315788e-05",
     ra |-> "4.058861887893110e+01", dec |-> "8.352533375484340e+01"],
  [id |-> 616, jd |-> "2444940", a |-> "1.393776240e+5", h |-> "-1.870790e-3", k |-> "-4.319060e-4", l |-> "339.155", p |-> "0.0", q |-> "0.0", apsis |-> "3.191398148e-05",
     motion |-> "6.797308681e-03", node |-> "-3.191398148e-05", ra |-> "40.5955", dec |-> "83.53812"],
  [id |-> 617, jd |-> "2444940.0", a |-> "1.417131075e+05", h |-> "-7.853582898e-05", k |-> "4.499314628e-03", l |-> "96.023", p |-> "0.000000000e+00", q |-> "0.000000000e+00",
     apsis |-> "3.008501157e-05", motion |-> "6.629462963e-03", node |-> "-3.008501157e-05", ra |-> "40.5955", dec |-> "83.53812"],
  [id |-> 618, jd |-> "2451545.000000000", a |-> "1.335844767617734e+05", h |-> "6.573230396213189e-07", k |-> "-3.834742374741285e-06", l |-> "1.465930214018767e+02",
     p |-> "2.874273755616854e-06", q |-> "1.786179828249530e-06", apsis |-> "3.711667877073790e-05", motion |-> "7.245737665179854e-03", node |-> "-3.692848989739440e-05",
     ra |-> "4.058266021370071e+01", dec |-> "8.353762557532015e+01"],
  [id |-> 635, jd |-> "2451545.0", a |-> "1.365074939615504e+05", h |-> "-1.315672990237585e-05", k |-> "9.642045594783008e-06", l |-> "1.715596048001493e+02",
     p |-> "7.531461278368427e-06", q |-> "1.795515998708297e-07", apsis |-> "3.436668768688540e-05", motion |-> "7.013639183255008e-03", node |-> "-3.419991514627601e-05",
     ra |-> "4.058266021370071e+01", dec |-> "8.353762557532015e+01"],
  [id |-> 706, jd |-> "2446450.0", a |-> "4.975278376008903e+04", h |-> "3.397026389377096e-05", k |-> "-2.515254211787496e-04", l |-> "7.000215607027029e+01",
     p |-> "3.704615503525648e-04", q |-> "5.853261080355042e-04", apsis |-> "1.738799696981362e-05", motion |-> "1.243656183299048e-02", node |-> "-1.736377492435019e-05",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 707, jd |-> "2446450.0", a |-> "5.377236269476546e+04", h |-> "-2.150301507347647e-04", k |-> "-9.999740581692736e-03", l |-> "2.980775969867487e+02",
     p |-> "-2.020628913672490e-05", q |-> "-3.602825478615738e-04", apsis |-> "1.324712040631912e-05", motion |-> "1.106966008118268e-02", node |-> "-1.323133607399601e-05",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 708, jd |-> "2446450.0", a |-> "5.916601845295852e+04", h |-> "8.477231065799786e-04", k |-> "-1.956287335001066e-04", l |-> "2.399994222705358e+02",
     p |-> "1.589300498661261e-03", q |-> "6.379647873951716e-05", apsis |-> "9.467105548594393e-06", motion |-> "9.587823207439880e-03", node |-> "-9.457950543934906e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 709, jd |-> "2446450.0", a |-> "6.176701274125071e+04", h |-> "1.280325717493410e-04", k |-> "-3.492016953899938e-04", l |-> "1.744231642592986e+01",
     p |-> "-8.721221306573636e-05", q |-> "-5.691312570236423e-05", apsis |-> "8.142357893631056e-06", motion |-> "8.988222143978887e-03", node |-> "-8.135007925901379e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 710, jd |-> "2446450.0", a |-> "6.265802480732047e+04", h |-> "6.122707189532604e-05", k |-> "-7.493551564088767e-05", l |-> "3.140089739140928e+02",
     p |-> "-8.205209935503686e-04", q |-> "2.858562925749050e-04", apsis |-> "7.743633229159851e-06", motion |-> "8.796938545302438e-03", node |-> "-7.736867825787147e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 711, jd |-> "2446450.0", a |-> "6.435798256249492e+04", h |-> "5.727123336968831e-04", k |-> "2.769692434848892e-04", l |-> "3.086610831200759e+02", p |-> "1.979873455981514e-06",
     q |-> "-3.519679830363237e-04", apsis |-> "7.050789555402506e-06", motion |-> "8.450533525589351e-03", node |-> "-7.044928085318312e-06", ra |-> "7.731359116506646e+01",
     dec |-> "1.517445781731228e+01"],
  [id |-> 712, jd |-> "2446450.0", a |-> "6.609699016546280e+04", h |-> "-1.561120967532852e-05", k |-> "-1.037014963876101e-05", l |-> "3.408196917514196e+02",
     p |-> "-6.171045740059509e-04", q |-> "-3.299300587868204e-05", apsis |-> "6.422466432321616e-06", motion |-> "8.119056168010097e-03", node |-> "-6.417420983992342e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 713, jd |-> "2446450.0", a |-> "6.992700696485957e+04", h |-> "-1.403276497951949e-06", k |-> "-2.648962937429079e-04", l |-> "2.895216219202660e+02",
     p |-> "1.425386769737830e-04", q |-> "1.380714624815777e-03", apsis |-> "5.273919837749587e-06", motion |-> "7.460999947254308e-03", node |-> "-5.270264644406115e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 714, jd |-> "2446450.0", a |-> "7.525599298568144e+04", h |-> "-1.133077752423965e-04", k |-> "9.095450345916166e-05", l |-> "3.189638319876507e+02",
     p |-> "-2.319689561589446e-04", q |-> "1.836879475556537e-04", apsis |-> "4.080592112111099e-06", motion |-> "6.682410769071078e-03", node |-> "-4.078118716334471e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 715, jd |-> "2446450.0", a |-> "8.600500570186481e+04", h |-> "2.408105269975341e-05", k |-> "4.402601703153761e-05", l |-> "3.316332080099892e+02",
     p |-> "-2.920341971029460e-03", q |-> "-1.546045006884095e-04", apsis |-> "2.563927692592904e-06", motion |-> "5.469265726829639e-03", node |-> "-2.562898939602568e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 725, jd |-> "2453243.0", a |-> "7.724773127464541e+04", h |-> "1.390656943538988e-02", k |-> "3.764212415028709e-03", l |-> "3.595150462692501e+01",
     p |-> "-3.980139862871680e-03", q |-> "2.570818282326076e-03", apsis |-> "7.254635422562736e-06", motion |-> "6.530622640638519e-03", node |-> "-1.264570087799819e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 726, jd |-> "2453243.0", a |-> "9.775566743468499e+04", h |-> "-4.588659276539662e-03", k |-> "1.692530123450800e-04", l |-> "1.541172205352909e+02",
     p |-> "-6.759365158371933e-04", q |-> "1.062018029025279e-03", apsis |-> "2.045092348282713e-06", motion |-> "4.514456799305884e-03", node |-> "-1.920887916143170e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 727, jd |-> "2453243.0", a |-> "7.450315104822017e+04", h |-> "1.837706282342717e-03", k |-> "1.041837588715111e-03", l |-> "2.341997642137053e+02",
     p |-> "-2.742799982489807e-04", q |-> "-1.085742482179855e-03", apsis |-> "4.009533113969465e-06", motion |-> "6.799110491893427e-03", node |-> "-3.448340803322791e-06",
     ra |-> "7.731359116506646e+01", dec |-> "1.517445781731228e+01"],
  [id |-> 801, jd |-> "2447763.5", a |-> "3.547591460000000e+05", h |-> "2.183485420000000e-06", k |-> "-1.543648510000000e-05", l |-> "-7.672436890000000e+01",
     p |-> "-2.818138250000000e-02", q |-> "2.030103396000000e-01", apsis |-> "1.211953824000000e-08", motion |-> "-7.089961076000000e-04", node |-> "1.657793254000000e-08",
     ra |-> "2.989472940000000e+02", dec |-> "4.331890600000000e+01"],
  [id |-> 803, jd |-> "2447757.0", a |-> "4.822701435905355e+04", h |-> "3.620224770838396e-04", k |-> "1.156185304588290e-05", l |-> "6.810339767839658e+01", p |-> "3.452822063733985e-02",
     q |-> "2.290770169216655e-02", apsis |-> "1.964161049323076e-05", motion |-> "1.415326558087714e-02", node |-> "-1.985180471594082e-05", ra |-> "2.993634890000000e+02",
     dec |-> "4.344909600000000e+01"],
  [id |-> 804, jd |-> "2447757.0", a |-> "5.007495130640859e+04", h |-> "1.881434320556790e-04", k |-> "1.033517936279606e-04", l |-> "2.475810361721285e+02", p |-> "1.808988491806543e-03",
     q |-> "-2.572520444193769e-04", apsis |-> "1.745544005794959e-05", motion |-> "1.337678870805562e-02", node |-> "-1.746377282651943e-05", ra |-> "2.993634890000000e+02",
     dec |-> "4.344909600000000e+01"],
  [id |-> 805, jd |-> "2447757.0", a |-> "5.252607405757254e+04", h |-> "2.232930551031250e-04", k |-> "-1.115774312255063e-05", l |-> "9.311343295481528e+01",
     p |-> "1.944862825322830e-04", q |-> "-5.200679669272585e-04", apsis |-> "1.475565828888696e-05", motion |-> "1.245059755574818e-02", node |-> "-1.476785707594837e-05",
     ra |-> "2.993634890000000e+02", dec |-> "4.344909600000000e+01"],
  [id |-> 806, jd |-> "2447757.0", a |-> "6.195297903638693e+04", h |-> "1.674342888688514e-05", k |-> "-3.311081056771463e-05", l |-> "5.448813192644227e+01",
     p |-> "4.358773699437865e-04", q |-> "-3.132950150251619e-04", apsis |-> "8.264989830842901e-06", motion |-> "9.718285365249440e-03", node |-> "-8.284262531923991e-06",
     ra |-> "2.993634890000000e+02", dec |-> "4.344909600000000e+01"],
  [id |-> 807, jd |-> "2447757.0", a |-> "7.354791709303492e+04", h |-> "5.742600597431634e-04", k |-> "-1.269545891017604e-03", l |-> "1.926654222778896e+02",
     p |-> "5.395612235869184e-04", q |-> "1.702120710409934e-03", apsis |-> "4.526939181068548e-06", motion |-> "7.512183377052987e-03", node |-> "-4.555573945715664e-06",
     ra |-> "2.993634890000000e+02", dec |-> "4.344909600000000e+01"],
  [id |-> 808, jd |-> "2447757.0", a |-> "1.176468148802116e+05", h |-> "5.138756385126203e-04", k |-> "-1.319038194876358e-04", l |-> "2.214459710358717e+02",
     p |-> "6.691721009767980e-05", q |-> "-2.147144625701844e-04", apsis |-> "8.764111065373391e-07", motion |-> "3.712548540365151e-03", node |-> "-9.086814828264133e-07",
     ra |-> "2.993634890000000e+02", dec |-> "4.344909600000000e+01"]>>
C_rnu1 == <<"2.29427177", "3.32489098", "-3.32489617">>
C_rnu2 == <<"-0.00802443", "-0.00948045", "0.00946761">>
C_rnu3 == <<"2.29714724", "3.33170385", "-3.33170262">>
C_rlamda == <<"2.29571726", "3.32830561", "3.32830561">>
C_phi1 == <<"3.27342548", "6.2423359", "5.4138476">>
C_phi2 == <<"1.30770422", "4.62624497", "1.36874776">>
C_phi3 == <<"0.77232982", "0.04769409", "5.64157287">>
C_theta == <<"3.07410251", "3.24465053", "3.2507488">>
CTerms == <<
  <<<<<<0, 0, 0, 1>>, <<-2396, -399, 442>>, <<557, -2152, 1074>>, <<1278, -4939, 2466>>, <<5500, 916, -1015>>>>, <<<<0, 0, 1, 0>>, <<0, 0, 0>>, <<0, 5, 10>>, <<0, 11, 23>>, <<0, 0, 0>>>>,
     <<<<0, 1, 0, -1>>, <<-67, 264, -132>>, <<294, 48, -53>>, <<-677, -110, 123>>, <<-154, 608, -304>>>>, <<<<0, 1, 0, 1>>, <<-66, 265, -133>>, <<-295, -47, 53>>, <<-676, -107, 122>>,
     <<151, -607, 303>>>>, <<<<0, 2, 0, -1>>, <<15, 16, -10>>, <<19, -14, 6>>, <<-44, 33, -13>>, <<35, 38, -23>>>>, <<<<0, 2, 0, 1>>, <<15, 17, -10>>, <<-19, 14, -6>>, <<-44, 33, -13>>,
     <<-35, -38, 23>>>>, <<<<0, 3, 0, -1>>, <<2, 0, 0>>, <<0, -2, 0>>, <<-2, 4, -2>>, <<4, 2, 0>>>>, <<<<0, 3, 0, 1>>, <<2, 0, 0>>, <<0, 2, 0>>, <<-2, 4, -2>>, <<-4, -2, 0>>>>,
     <<<<1, -1, 0, 1>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 3, 0>>, <<-3, 0, 0>>>>, <<<<1, 0, 0, -1>>, <<-2, 8, -4>>, <<9, 0, -2>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0, 1>>, <<0, 2, 0>>,
     <<-3, 0, 0>>, <<-13, -2, 2>>, <<3, -11, 6>>>>, <<<<1, 1, 0, 1>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 3, 0>>, <<-3, 0, 0>>>>>>,
  <<<<<<0, 0, 0, 1>>, <<-1933, -253, 320>>, <<372, -1733, 873>>, <<1237, -5767, 2904>>, <<6432, 842, -1066>>>>, <<<<0, 0, 1, 0>>, <<0, 0, 0>>, <<2, 10, 19>>, <<7, 33, 63>>, <<0, 0, 0>>>>,
     <<<<0, 1, 0, -1>>, <<-6, 29, -15>>, <<32, 4, -5>>, <<-108, -14, 18>>, <<-21, 97, -49>>>>, <<<<0, 1, 0, 1>>, <<-6, 29, -15>>, <<-33, -4, 5>>, <<-108, -14, 18>>, <<20, -97, 49>>>>,
     <<<<1, 0, 0, -1>>, <<0, 7, -3>>, <<7, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0, 1>>, <<0, 2, 0>>, <<-2, 0, 0>>, <<-16, -2, 3>>, <<3, -14, 7>>>>>>,
  <<<<<<0, 0, 0, 1>>, <<651, 1615, -910>>, <<-1846, 652, -163>>, <<-6145, 2170, -542>>, <<-2166, -5375, 3030>>>>, <<<<0, 0, 1, 0>>, <<0, 0, 0>>, <<5, 27, 52>>, <<-17, -90, -173>>,
     <<0, 0, 0>>>>, <<<<0, 1, -1, 0>>, <<0, 0, -2>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 7>>>>, <<<<0, 1, 0, -1>>, <<-78, 27, -7>>, <<27, 68, -38>>, <<-89, -225, 127>>,
     <<-257, 89, -22>>>>, <<<<0, 1, 0, 1>>, <<-77, 28, -7>>, <<-28, -67, 38>>, <<-92, -225, 127>>, <<257, -92, 23>>>>, <<<<0, 1, 1, 0>>, <<0, 0, -2>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, -7>>>>, <<<<0, 2, 0, -1>>, <<-2, 0, 0>>, <<0, 2, 0>>, <<4, -6, 3>>, <<-7, -3, 2>>>>, <<<<0, 2, 0, 1>>, <<-2, 0, 0>>, <<0, -2, 0>>, <<4, -6, 3>>, <<7, 3, -2>>>>,
     <<<<1, -1, 0, -1>>, <<0, 0, 0>>, <<0, 0, 0>>, <<2, 0, 0>>, <<0, -2, 0>>>>, <<<<1, 0, 0, -1>>, <<-4, 0, 0>>, <<0, 3, -2>>, <<-9, -22, 12>>, <<-25, 9, -2>>>>, <<<<1, 0, 0, 1>>,
     <<-11, 4, 0>>, <<-4, -10, 6>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 1, 0, -1>>, <<0, 0, 0>>, <<0, 0, 0>>, <<2, 0, 0>>, <<0, -2, 0>>>>>>>>
=============================================================================
