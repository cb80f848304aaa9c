----------------------------- MODULE ExpDigamma -----------------------------
(* exp(digamma(x)) out of 250000 at x = 0, 0.01, .. 18 (a table computed with *)
(* an independent implementation), interpolated between.  The derivative of    *)
(* log Gamma under a Dirichlet prior is what mean-field estimation needs.      *)
EXTENDS Integers, Sequences
Table == <<
0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 7, 19,
40, 78, 137, 223, 343, 502, 706, 957, 1262, 1621, 2038, 2514,
3050, 3647, 4305, 5023, 5800, 6637, 7530, 8480, 9485, 10543, 11653, 12812,
14020, 15274, 16573, 17916, 19299, 20723, 22185, 23684, 25219, 26787, 28388, 30020,
31682, 33373, 35091, 36836, 38606, 40400, 42218, 44058, 45919, 47801, 49703, 51623,
53562, 55518, 57491, 59480, 61485, 63505, 65538, 67586, 69647, 71720, 73806, 75903,
78012, 80132, 82262, 84403, 86553, 88713, 90881, 93059, 95245, 97439, 99641, 101851,
104068, 106292, 108523, 110761, 113005, 115255, 117511, 119773, 122041, 124314, 126593, 128876,
131165, 133458, 135756, 138058, 140365, 142676, 144991, 147310, 149633, 151960, 154290, 156624,
158961, 161302, 163646, 165993, 168343, 170696, 173053, 175411, 177773, 180137, 182504, 184874,
187246, 189620, 191997, 194375, 196757, 199140, 201525, 203913, 206302, 208694, 211087, 213482,
215879, 218278, 220678, 223081, 225484, 227890, 230297, 232705, 235115, 237527, 239940, 242354,
244770, 247187, 249605, 252025, 254446, 256868, 259291, 261715, 264141, 266568, 268995, 271424,
273854, 276285, 278717, 281150, 283584, 286019, 288455, 290891, 293329, 295767, 298207, 300647,
303088, 305529, 307972, 310415, 312859, 315304, 317750, 320196, 322643, 325091, 327539, 329988,
332438, 334888, 337339, 339790, 342243, 344695, 347149, 349603, 352057, 354512, 356968, 359424,
361880, 364337, 366795, 369253, 371712, 374171, 376631, 379091, 381551, 384012, 386474, 388936,
391398, 393861, 396324, 398787, 401251, 403715, 406180, 408645, 411111, 413577, 416043, 418509,
420976, 423444, 425911, 428379, 430848, 433316, 435785, 438254, 440724, 443194, 445664, 448135,
450605, 453076, 455548, 458020, 460491, 462964, 465436, 467909, 470382, 472855, 475329, 477803,
480277, 482751, 485225, 487700, 490175, 492650, 495126, 497601, 500077, 502554, 505030, 507506,
509983, 512460, 514937, 517415, 519892, 522370, 524848, 527326, 529805, 532283, 534762, 537241,
539720, 542199, 544679, 547158, 549638, 552118, 554598, 557079, 559559, 562040, 564521, 567001,
569483, 571964, 574445, 576927, 579409, 581890, 584372, 586855, 589337, 591819, 594302, 596785,
599267, 601750, 604234, 606717, 609200, 611684, 614167, 616651, 619135, 621619, 624103, 626587,
629072, 631556, 634041, 636525, 639010, 641495, 643980, 646465, 648951, 651436, 653922, 656407,
658893, 661379, 663864, 666350, 668837, 671323, 673809, 676295, 678782, 681268, 683755, 686242,
688729, 691216, 693703, 696190, 698677, 701164, 703652, 706139, 708627, 711114, 713602, 716090,
718578, 721066, 723554, 726042, 728530, 731018, 733507, 735995, 738483, 740972, 743461, 745949,
748438, 750927, 753416, 755905, 758394, 760883, 763372, 765862, 768351, 770840, 773330, 775820,
778309, 780799, 783289, 785778, 788268, 790758, 793248, 795738, 798228, 800718, 803209, 805699,
808189, 810680, 813170, 815661, 818151, 820642, 823132, 825623, 828114, 830605, 833096, 835587,
838078, 840569, 843060, 845551, 848042, 850533, 853025, 855516, 858007, 860499, 862990, 865482,
867973, 870465, 872957, 875449, 877940, 880432, 882924, 885416, 887908, 890400, 892892, 895384,
897876, 900368, 902860, 905353, 907845, 910337, 912830, 915322, 917815, 920307, 922800, 925292,
927785, 930277, 932770, 935263, 937756, 940248, 942741, 945234, 947727, 950220, 952713, 955206,
957699, 960192, 962685, 965178, 967672, 970165, 972658, 975151, 977645, 980138, 982632, 985125,
987618, 990112, 992605, 995099, 997593, 1000086, 1002580, 1005074, 1007567, 1010061, 1012555, 1015049,
1017542, 1020036, 1022530, 1025024, 1027518, 1030012, 1032506, 1035000, 1037494, 1039988, 1042482, 1044977,
1047471, 1049965, 1052459, 1054953, 1057448, 1059942, 1062436, 1064931, 1067425, 1069919, 1072414, 1074908,
1077403, 1079897, 1082392, 1084886, 1087381, 1089876, 1092370, 1094865, 1097360, 1099854, 1102349, 1104844,
1107339, 1109833, 1112328, 1114823, 1117318, 1119813, 1122308, 1124803, 1127298, 1129793, 1132288, 1134783,
1137278, 1139773, 1142268, 1144763, 1147258, 1149753, 1152248, 1154744, 1157239, 1159734, 1162229, 1164725,
1167220, 1169715, 1172210, 1174706, 1177201, 1179697, 1182192, 1184687, 1187183, 1189678, 1192174, 1194669,
1197165, 1199660, 1202156, 1204652, 1207147, 1209643, 1212138, 1214634, 1217130, 1219625, 1222121, 1224617,
1227113, 1229608, 1232104, 1234600, 1237096, 1239591, 1242087, 1244583, 1247079, 1249575, 1252071, 1254567,
1257063, 1259559, 1262055, 1264550, 1267046, 1269543, 1272039, 1274535, 1277031, 1279527, 1282023, 1284519,
1287015, 1289511, 1292007, 1294503, 1297000, 1299496, 1301992, 1304488, 1306984, 1309481, 1311977, 1314473,
1316970, 1319466, 1321962, 1324458, 1326955, 1329451, 1331948, 1334444, 1336940, 1339437, 1341933, 1344430,
1346926, 1349423, 1351919, 1354415, 1356912, 1359409, 1361905, 1364402, 1366898, 1369395, 1371891, 1374388,
1376884, 1379381, 1381878, 1384374, 1386871, 1389368, 1391864, 1394361, 1396858, 1399354, 1401851, 1404348,
1406845, 1409341, 1411838, 1414335, 1416832, 1419328, 1421825, 1424322, 1426819, 1429316, 1431813, 1434310,
1436806, 1439303, 1441800, 1444297, 1446794, 1449291, 1451788, 1454285, 1456782, 1459279, 1461776, 1464273,
1466770, 1469267, 1471764, 1474261, 1476758, 1479255, 1481752, 1484249, 1486746, 1489243, 1491740, 1494237,
1496735, 1499232, 1501729, 1504226, 1506723, 1509220, 1511717, 1514215, 1516712, 1519209, 1521706, 1524203,
1526701, 1529198, 1531695, 1534192, 1536690, 1539187, 1541684, 1544182, 1546679, 1549176, 1551673, 1554171,
1556668, 1559165, 1561663, 1564160, 1566658, 1569155, 1571652, 1574150, 1576647, 1579145, 1581642, 1584139,
1586637, 1589134, 1591632, 1594129, 1596627, 1599124, 1601622, 1604119, 1606617, 1609114, 1611612, 1614109,
1616607, 1619104, 1621602, 1624099, 1626597, 1629094, 1631592, 1634090, 1636587, 1639085, 1641582, 1644080,
1646578, 1649075, 1651573, 1654070, 1656568, 1659066, 1661563, 1664061, 1666559, 1669056, 1671554, 1674052,
1676549, 1679047, 1681545, 1684043, 1686540, 1689038, 1691536, 1694034, 1696531, 1699029, 1701527, 1704025,
1706522, 1709020, 1711518, 1714016, 1716514, 1719011, 1721509, 1724007, 1726505, 1729003, 1731501, 1733998,
1736496, 1738994, 1741492, 1743990, 1746488, 1748986, 1751483, 1753981, 1756479, 1758977, 1761475, 1763973,
1766471, 1768969, 1771467, 1773965, 1776463, 1778961, 1781459, 1783957, 1786455, 1788953, 1791451, 1793949,
1796446, 1798944, 1801443, 1803941, 1806439, 1808937, 1811435, 1813933, 1816431, 1818929, 1821427, 1823925,
1826423, 1828921, 1831419, 1833917, 1836415, 1838913, 1841411, 1843909, 1846408, 1848906, 1851404, 1853902,
1856400, 1858898, 1861396, 1863894, 1866393, 1868891, 1871389, 1873887, 1876385, 1878883, 1881381, 1883880,
1886378, 1888876, 1891374, 1893872, 1896371, 1898869, 1901367, 1903865, 1906363, 1908862, 1911360, 1913858,
1916356, 1918855, 1921353, 1923851, 1926349, 1928848, 1931346, 1933844, 1936342, 1938841, 1941339, 1943837,
1946336, 1948834, 1951332, 1953830, 1956329, 1958827, 1961325, 1963824, 1966322, 1968820, 1971319, 1973817,
1976315, 1978814, 1981312, 1983810, 1986309, 1988807, 1991305, 1993804, 1996302, 1998801, 2001299, 2003797,
2006296, 2008794, 2011293, 2013791, 2016289, 2018788, 2021286, 2023785, 2026283, 2028781, 2031280, 2033778,
2036277, 2038775, 2041274, 2043772, 2046271, 2048769, 2051267, 2053766, 2056264, 2058763, 2061261, 2063760,
2066258, 2068757, 2071255, 2073754, 2076252, 2078751, 2081249, 2083748, 2086246, 2088745, 2091243, 2093742,
2096240, 2098739, 2101237, 2103736, 2106234, 2108733, 2111232, 2113730, 2116229, 2118727, 2121226, 2123724,
2126223, 2128721, 2131220, 2133719, 2136217, 2138716, 2141214, 2143713, 2146212, 2148710, 2151209, 2153707,
2156206, 2158705, 2161203, 2163702, 2166200, 2168699, 2171198, 2173696, 2176195, 2178694, 2181192, 2183691,
2186189, 2188688, 2191187, 2193685, 2196184, 2198683, 2201181, 2203680, 2206179, 2208677, 2211176, 2213675,
2216173, 2218672, 2221171, 2223669, 2226168, 2228667, 2231166, 2233664, 2236163, 2238662, 2241160, 2243659,
2246158, 2248656, 2251155, 2253654, 2256153, 2258651, 2261150, 2263649, 2266148, 2268646, 2271145, 2273644,
2276143, 2278641, 2281140, 2283639, 2286138, 2288636, 2291135, 2293634, 2296133, 2298631, 2301130, 2303629,
2306128, 2308627, 2311125, 2313624, 2316123, 2318622, 2321120, 2323619, 2326118, 2328617, 2331116, 2333615,
2336113, 2338612, 2341111, 2343610, 2346109, 2348607, 2351106, 2353605, 2356104, 2358603, 2361102, 2363600,
2366099, 2368598, 2371097, 2373596, 2376095, 2378593, 2381092, 2383591, 2386090, 2388589, 2391088, 2393587,
2396086, 2398584, 2401083, 2403582, 2406081, 2408580, 2411079, 2413578, 2416077, 2418575, 2421074, 2423573,
2426072, 2428571, 2431070, 2433569, 2436068, 2438567, 2441066, 2443564, 2446063, 2448562, 2451061, 2453560,
2456059, 2458558, 2461057, 2463556, 2466055, 2468554, 2471053, 2473552, 2476051, 2478549, 2481048, 2483547,
2486046, 2488545, 2491044, 2493543, 2496042, 2498541, 2501040, 2503539, 2506038, 2508537, 2511036, 2513535,
2516034, 2518533, 2521032, 2523531, 2526030, 2528529, 2531028, 2533527, 2536026, 2538525, 2541024, 2543523,
2546022, 2548521, 2551020, 2553519, 2556018, 2558517, 2561016, 2563515, 2566014, 2568513, 2571012, 2573511,
2576010, 2578509, 2581008, 2583507, 2586006, 2588505, 2591004, 2593503, 2596002, 2598501, 2601000, 2603499,
2605998, 2608497, 2610996, 2613495, 2615994, 2618494, 2620993, 2623492, 2625991, 2628490, 2630989, 2633488,
2635987, 2638486, 2640985, 2643484, 2645983, 2648482, 2650981, 2653480, 2655980, 2658479, 2660978, 2663477,
2665976, 2668475, 2670974, 2673473, 2675972, 2678471, 2680970, 2683470, 2685969, 2688468, 2690967, 2693466,
2695965, 2698464, 2700963, 2703462, 2705961, 2708461, 2710960, 2713459, 2715958, 2718457, 2720956, 2723455,
2725954, 2728454, 2730953, 2733452, 2735951, 2738450, 2740949, 2743448, 2745947, 2748447, 2750946, 2753445,
2755944, 2758443, 2760942, 2763441, 2765941, 2768440, 2770939, 2773438, 2775937, 2778436, 2780936, 2783435,
2785934, 2788433, 2790932, 2793431, 2795931, 2798430, 2800929, 2803428, 2805927, 2808426, 2810926, 2813425,
2815924, 2818423, 2820922, 2823422, 2825921, 2828420, 2830919, 2833418, 2835917, 2838417, 2840916, 2843415,
2845914, 2848413, 2850913, 2853412, 2855911, 2858410, 2860909, 2863409, 2865908, 2868407, 2870906, 2873406,
2875905, 2878404, 2880903, 2883402, 2885902, 2888401, 2890900, 2893399, 2895899, 2898398, 2900897, 2903396,
2905895, 2908395, 2910894, 2913393, 2915892, 2918392, 2920891, 2923390, 2925889, 2928389, 2930888, 2933387,
2935886, 2938386, 2940885, 2943384, 2945883, 2948383, 2950882, 2953381, 2955880, 2958380, 2960879, 2963378,
2965877, 2968377, 2970876, 2973375, 2975874, 2978374, 2980873, 2983372, 2985871, 2988371, 2990870, 2993369,
2995869, 2998368, 3000867, 3003366, 3005866, 3008365, 3010864, 3013364, 3015863, 3018362, 3020861, 3023361,
3025860, 3028359, 3030859, 3033358, 3035857, 3038356, 3040856, 3043355, 3045854, 3048354, 3050853, 3053352,
3055852, 3058351, 3060850, 3063349, 3065849, 3068348, 3070847, 3073347, 3075846, 3078345, 3080845, 3083344,
3085843, 3088343, 3090842, 3093341, 3095841, 3098340, 3100839, 3103339, 3105838, 3108337, 3110837, 3113336,
3115835, 3118335, 3120834, 3123333, 3125833, 3128332, 3130831, 3133331, 3135830, 3138329, 3140829, 3143328,
3145827, 3148327, 3150826, 3153325, 3155825, 3158324, 3160823, 3163323, 3165822, 3168321, 3170821, 3173320,
3175819, 3178319, 3180818, 3183318, 3185817, 3188316, 3190816, 3193315, 3195814, 3198314, 3200813, 3203312,
3205812, 3208311, 3210811, 3213310, 3215809, 3218309, 3220808, 3223307, 3225807, 3228306, 3230806, 3233305,
3235804, 3238304, 3240803, 3243302, 3245802, 3248301, 3250801, 3253300, 3255799, 3258299, 3260798, 3263297,
3265797, 3268296, 3270796, 3273295, 3275794, 3278294, 3280793, 3283293, 3285792, 3288291, 3290791, 3293290,
3295790, 3298289, 3300788, 3303288, 3305787, 3308287, 3310786, 3313285, 3315785, 3318284, 3320784, 3323283,
3325783, 3328282, 3330781, 3333281, 3335780, 3338280, 3340779, 3343278, 3345778, 3348277, 3350777, 3353276,
3355776, 3358275, 3360774, 3363274, 3365773, 3368273, 3370772, 3373272, 3375771, 3378270, 3380770, 3383269,
3385769, 3388268, 3390768, 3393267, 3395766, 3398266, 3400765, 3403265, 3405764, 3408264, 3410763, 3413262,
3415762, 3418261, 3420761, 3423260, 3425760, 3428259, 3430759, 3433258, 3435758, 3438257, 3440756, 3443256,
3445755, 3448255, 3450754, 3453254, 3455753, 3458253, 3460752, 3463252, 3465751, 3468250, 3470750, 3473249,
3475749, 3478248, 3480748, 3483247, 3485747, 3488246, 3490746, 3493245, 3495745, 3498244, 3500743, 3503243,
3505742, 3508242, 3510741, 3513241, 3515740, 3518240, 3520739, 3523239, 3525738, 3528238, 3530737, 3533237,
3535736, 3538236, 3540735, 3543235, 3545734, 3548234, 3550733, 3553232, 3555732, 3558231, 3560731, 3563230,
3565730, 3568229, 3570729, 3573228, 3575728, 3578227, 3580727, 3583226, 3585726, 3588225, 3590725, 3593224,
3595724, 3598223, 3600723, 3603222, 3605722, 3608221, 3610721, 3613220, 3615720, 3618219, 3620719, 3623218,
3625718, 3628217, 3630717, 3633216, 3635716, 3638215, 3640715, 3643214, 3645714, 3648213, 3650713, 3653212,
3655712, 3658211, 3660711, 3663211, 3665710, 3668210, 3670709, 3673209, 3675708, 3678208, 3680707, 3683207,
3685706, 3688206, 3690705, 3693205, 3695704, 3698204, 3700703, 3703203, 3705702, 3708202, 3710701, 3713201,
3715700, 3718200, 3720700, 3723199, 3725699, 3728198, 3730698, 3733197, 3735697, 3738196, 3740696, 3743195,
3745695, 3748194, 3750694, 3753194, 3755693, 3758193, 3760692, 3763192, 3765691, 3768191, 3770690, 3773190,
3775689, 3778189, 3780688, 3783188, 3785688, 3788187, 3790687, 3793186, 3795686, 3798185, 3800685, 3803184,
3805684, 3808184, 3810683, 3813183, 3815682, 3818182, 3820681, 3823181, 3825680, 3828180, 3830679, 3833179,
3835679, 3838178, 3840678, 3843177, 3845677, 3848176, 3850676, 3853176, 3855675, 3858175, 3860674, 3863174,
3865673, 3868173, 3870672, 3873172, 3875672, 3878171, 3880671, 3883170, 3885670, 3888169, 3890669, 3893169,
3895668, 3898168, 3900667, 3903167, 3905666, 3908166, 3910666, 3913165, 3915665, 3918164, 3920664, 3923163,
3925663, 3928163, 3930662, 3933162, 3935661, 3938161, 3940661, 3943160, 3945660, 3948159, 3950659, 3953158,
3955658, 3958158, 3960657, 3963157, 3965656, 3968156, 3970656, 3973155, 3975655, 3978154, 3980654, 3983154,
3985653, 3988153, 3990652, 3993152, 3995651, 3998151, 4000651, 4003150, 4005650, 4008149, 4010649, 4013149,
4015648, 4018148, 4020647, 4023147, 4025647, 4028146, 4030646, 4033145, 4035645, 4038145, 4040644, 4043144,
4045643, 4048143, 4050643, 4053142, 4055642, 4058141, 4060641, 4063141, 4065640, 4068140, 4070639, 4073139,
4075639, 4078138, 4080638, 4083138, 4085637, 4088137, 4090636, 4093136, 4095636, 4098135, 4100635, 4103134,
4105634, 4108134, 4110633, 4113133, 4115632, 4118132, 4120632, 4123131, 4125631, 4128131, 4130630, 4133130,
4135629, 4138129, 4140629, 4143128, 4145628, 4148128, 4150627, 4153127, 4155626, 4158126, 4160626, 4163125,
4165625, 4168125, 4170624, 4173124, 4175623, 4178123, 4180623, 4183122, 4185622, 4188122, 4190621, 4193121,
4195620, 4198120, 4200620, 4203119, 4205619, 4208119, 4210618, 4213118, 4215617, 4218117, 4220617, 4223116,
4225616, 4228116, 4230615, 4233115, 4235615, 4238114, 4240614, 4243114, 4245613, 4248113, 4250612, 4253112,
4255612, 4258111, 4260611, 4263111, 4265610, 4268110, 4270610, 4273109, 4275609, 4278108, 4280608, 4283108,
4285607, 4288107, 4290607, 4293106, 4295606, 4298106, 4300605, 4303105, 4305605, 4308104, 4310604, 4313104,
4315603, 4318103, 4320603, 4323102, 4325602, 4328101, 4330601, 4333101, 4335600, 4338100, 4340600, 4343099,
4345599, 4348099, 4350598, 4353098, 4355598, 4358097, 4360597, 4363097, 4365596, 4368096, 4370596, 4373095,
4375595
>>
\* v out of 250000
ED(v) == LET k == v \div 2500  r == v % 2500 IN Table[k + 1] + ((Table[k + 2] - Table[k + 1]) * r) \div 2500
\* it grows, ever faster but never by more than its argument, and approaches x - 1/2
ASSUME /\ Len(Table) = 1801
       /\ \A k \in 1..1800 : Table[k] <= Table[k + 1] /\ Table[k + 1] - Table[k] <= 2501
       /\ \A k \in 1..1799 : Table[k + 2] - Table[k + 1] >= Table[k + 1] - Table[k] - 1
       /\ \A k \in 100..1801 : LET x == (k - 1) * 2500 IN Table[k] >= x - 125000 /\ Table[k] - (x - 125000) <= 15790
=============================================================================
