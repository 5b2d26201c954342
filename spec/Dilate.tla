------------------------------- MODULE Dilate -------------------------------
(* Generated by tools/mktables.py.  The dilations L(u) of the affine Wigner        *)
(* distributions at u = j/32, j = 0..128, times 10^6: BertP[j+1] = L(u), BertN = L(-u)  *)
(* with L(u) = u / (1 - exp(-u)); UntP, UntN with L(u) = sqrt(1 + u^2/4) + u/2;         *)
(* FlaP, FlaN with L(u) = (1 + u/4)^2.  MuB = sqrt(L(u) L(-u)) for Bertrand.             *)
EXTENDS Integers, Sequences
BertP == <<
    1000000, 1015706, 1031575, 1047607, 1063802, 1080159, 1096678, 1113359, 1130203, 1147208,
    1164375, 1181703, 1199191, 1216841, 1234650, 1252619, 1270747, 1289034, 1307479, 1326082,
    1344842, 1363759, 1382831, 1402059, 1421441, 1440978, 1460667, 1480509, 1500503, 1520647,
    1540941, 1561385, 1581977, 1602716, 1623602, 1644633, 1665809, 1687129, 1708591, 1730195,
    1751939, 1773823, 1795845, 1818005, 1840301, 1862732, 1885297, 1907996, 1930825, 1953786,
    1976876, 2000094, 2023439, 2046910, 2070505, 2094224, 2118064, 2142026, 2166107, 2190307,
    2214624, 2239056, 2263603, 2288263, 2313035, 2337918, 2362910, 2388011, 2413218, 2438530,
    2463947, 2489467, 2515088, 2540810, 2566631, 2592549, 2618564, 2644675, 2670879, 2697176,
    2723564, 2750042, 2776609, 2803264, 2830005, 2856831, 2883741, 2910734, 2937808, 2964962,
    2992195, 3019506, 3046894, 3074357, 3101894, 3129505, 3157187, 3184940, 3212763, 3240654,
    3268613, 3296638, 3324728, 3352882, 3381099, 3409379, 3437719, 3466119, 3494578, 3523095,
    3551668, 3580298, 3608982, 3637720, 3666511, 3695354, 3724248, 3753192, 3782185, 3811227,
    3840316, 3869451, 3898632, 3927858, 3957128, 3986440, 4015796, 4045192, 4074629>>
BertN == <<
    1000000, 984456, 969075, 953857, 938802, 923909, 909178, 894609, 880203, 865958, 851875,
    837953, 824191, 810591, 797150, 783869, 770747, 757784, 744979, 732332, 719842, 707509,
    695331, 683309, 671441, 659728, 648167, 636759, 625503, 614397, 603441, 592635, 581977,
    571466, 561102, 550883, 540809, 530879, 521091, 511445, 501939, 492573, 483345, 474255,
    465301, 456482, 447797, 439246, 430825, 422536, 414376, 406344, 398439, 390660, 383005,
    375474, 368064, 360776, 353607, 346557, 339624, 332806, 326103, 319513, 313035, 306668,
    300410, 294261, 288218, 282280, 276447, 270717, 265088, 259560, 254131, 248799, 243564,
    238425, 233379, 228426, 223564, 218792, 214109, 209514, 205005, 200581, 196241, 191984,
    187808, 183712, 179695, 175756, 171894, 168107, 164394, 160755, 157187, 153690, 150263,
    146904, 143613, 140388, 137228, 134132, 131099, 128129, 125219, 122369, 119578, 116845,
    114168, 111548, 108982, 106470, 104011, 101604, 99248, 96942, 94685, 92477, 90316, 88201,
    86132, 84108, 82128, 80190, 78296, 76442, 74629>>
UntP == <<
    1000000, 1015747, 1031738, 1047973, 1064451, 1081172, 1098135, 1115339, 1132782, 1150464,
    1168383, 1186538, 1204926, 1223546, 1242396, 1261474, 1280776, 1300302, 1320048, 1340012,
    1360191, 1380582, 1401183, 1421990, 1443000, 1464211, 1485620, 1507222, 1529016, 1550997,
    1573162, 1595509, 1618034, 1640734, 1663604, 1686644, 1709847, 1733213, 1756737, 1780416,
    1804248, 1828228, 1852354, 1876622, 1901030, 1925575, 1950254, 1975063, 2000000, 2025062,
    2050246, 2075550, 2100971, 2126505, 2152151, 2177907, 2203768, 2229734, 2255801, 2281968,
    2308232, 2334591, 2361042, 2387584, 2414214, 2440930, 2467731, 2494614, 2521577, 2548619,
    2575738, 2602932, 2630199, 2657538, 2684947, 2712424, 2739968, 2767577, 2795250, 2822985,
    2850781, 2878637, 2906550, 2934521, 2962547, 2990628, 3018762, 3046947, 3075184, 3103470,
    3131805, 3160187, 3188616, 3217090, 3245609, 3274171, 3302776, 3331422, 3360109, 3388837,
    3417603, 3446407, 3475249, 3504128, 3533042, 3561992, 3590976, 3619994, 3649044, 3678127,
    3707242, 3736388, 3765564, 3794771, 3824006, 3853270, 3882562, 3911881, 3941228, 3970601,
    4000000, 4029424, 4058874, 4088348, 4117845, 4147367, 4176911, 4206479, 4236068>>
UntN == <<
    1000000, 984497, 969238, 954223, 939451, 924922, 910635, 896589, 882782, 869214, 855883,
    842788, 829926, 817296, 804896, 792724, 780776, 769052, 757548, 746262, 735191, 724332,
    713683, 703240, 693000, 682961, 673120, 663472, 654016, 644747, 635662, 626759, 618034,
    609484, 601104, 592894, 584847, 576963, 569237, 561666, 554248, 546978, 539854, 532872,
    526030, 519325, 512754, 506313, 500000, 493812, 487746, 481800, 475971, 470255, 464651,
    459157, 453768, 448484, 443301, 438218, 433232, 428341, 423542, 418834, 414214, 409680,
    405231, 400864, 396577, 392369, 388238, 384182, 380199, 376288, 372447, 368674, 364968,
    361327, 357750, 354235, 350781, 347387, 344050, 340771, 337547, 334378, 331262, 328197,
    325184, 322220, 319305, 316437, 313616, 310840, 308109, 305421, 302776, 300172, 297609,
    295087, 292603, 290157, 287749, 285378, 283042, 280742, 278476, 276244, 274044, 271877,
    269742, 267638, 265564, 263521, 261506, 259520, 257562, 255631, 253728, 251851, 250000,
    248174, 246374, 244598, 242845, 241117, 239411, 237729, 236068>>
FlaP == <<
    1000000, 1015686, 1031494, 1047424, 1063477, 1079651, 1095947, 1112366, 1128906, 1145569,
    1162354, 1179260, 1196289, 1213440, 1230713, 1248108, 1265625, 1283264, 1301025, 1318909,
    1336914, 1355042, 1373291, 1391663, 1410156, 1428772, 1447510, 1466370, 1485352, 1504456,
    1523682, 1543030, 1562500, 1582092, 1601807, 1621643, 1641602, 1661682, 1681885, 1702209,
    1722656, 1743225, 1763916, 1784729, 1805664, 1826721, 1847900, 1869202, 1890625, 1912170,
    1933838, 1955627, 1977539, 1999573, 2021729, 2044006, 2066406, 2088928, 2111572, 2134338,
    2157227, 2180237, 2203369, 2226624, 2250000, 2273499, 2297119, 2320862, 2344727, 2368713,
    2392822, 2417053, 2441406, 2465881, 2490479, 2515198, 2540039, 2565002, 2590088, 2615295,
    2640625, 2666077, 2691650, 2717346, 2743164, 2769104, 2795166, 2821350, 2847656, 2874084,
    2900635, 2927307, 2954102, 2981018, 3008057, 3035217, 3062500, 3089905, 3117432, 3145081,
    3172852, 3200745, 3228760, 3256897, 3285156, 3313538, 3342041, 3370667, 3399414, 3428284,
    3457275, 3486389, 3515625, 3544983, 3574463, 3604065, 3633789, 3663635, 3693604, 3723694,
    3753906, 3784241, 3814697, 3845276, 3875977, 3906799, 3937744, 3968811, 4000000>>
FlaN == <<
    1000000, 984436, 968994, 953674, 938477, 923401, 908447, 893616, 878906, 864319, 849854,
    835510, 821289, 807190, 793213, 779358, 765625, 752014, 738525, 725159, 711914, 698792,
    685791, 672913, 660156, 647522, 635010, 622620, 610352, 598206, 586182, 574280, 562500,
    550842, 539307, 527893, 516602, 505432, 494385, 483459, 472656, 461975, 451416, 440979,
    430664, 420471, 410400, 400452, 390625, 380920, 371338, 361877, 352539, 343323, 334229,
    325256, 316406, 307678, 299072, 290588, 282227, 273987, 265869, 257874, 250000, 242249,
    234619, 227112, 219727, 212463, 205322, 198303, 191406, 184631, 177979, 171448, 165039,
    158752, 152588, 146545, 140625, 134827, 129150, 123596, 118164, 112854, 107666, 102600,
    97656, 92834, 88135, 83557, 79102, 74768, 70557, 66467, 62500, 58655, 54932, 51331, 47852,
    44495, 41260, 38147, 35156, 32288, 29541, 26917, 24414, 22034, 19775, 17639, 15625, 13733,
    11963, 10315, 8789, 7385, 6104, 4944, 3906, 2991, 2197, 1526, 977, 549, 244, 61, 0>>
MuB == <<
    1000000, 999959, 999837, 999634, 999349, 998983, 998537, 998009, 997401, 996712, 995943,
    995093, 994165, 993156, 992069, 990903, 989659, 988337, 986937, 985461, 983908, 982279,
    980574, 978795, 976941, 975014, 973014, 970941, 968797, 966582, 964296, 961941, 959517,
    957025, 954466, 951841, 949149, 946393, 943573, 940690, 937745, 934739, 931672, 928546,
    925361, 922119, 918821, 915466, 912057, 908595, 905080, 901513, 897895, 894229, 890513,
    886750, 882941, 879086, 875186, 871244, 867259, 863233, 859167, 855061, 850918, 846738,
    842522, 838271, 833986, 829668, 825319, 820939, 816530, 812092, 807626, 803134, 798617,
    794075, 789510, 784923, 780314, 775685, 771037, 766370, 761685, 756985, 752269, 747538,
    742794, 738037, 733269, 728490, 723701, 718903, 714097, 709283, 704464, 699639, 694809,
    689975, 685138, 680300, 675459, 670619, 665778, 660938, 656100, 651264, 646432, 641603,
    636779, 631960, 627147, 622340, 617541, 612750, 607967, 603193, 598429, 593675, 588931,
    584200, 579480, 574773, 570078, 565397, 560731, 556078, 551441>>
DNear(a, b, tol) == (a - b) <= tol /\ (b - a) <= tol
\* L(u) - L(-u) = u for all three; the Unterberger dilations are inverse to each other
ASSUME \A j \in 0..128 : /\ DNear(BertP[j + 1] - BertN[j + 1], 31250 * j, 1)
                        /\ DNear(UntP[j + 1] - UntN[j + 1], 31250 * j, 1)
                        /\ DNear(FlaP[j + 1] - FlaN[j + 1], 31250 * j, 1)
ASSUME \A j \in 0..128 : DNear((UntP[j + 1] \div 100) * (UntN[j + 1] \div 100), 100000000, 80000)
ASSUME \A j \in 0..128 : DNear((MuB[j + 1] \div 100) * (MuB[j + 1] \div 100), (BertP[j + 1] \div 100) * (BertN[j + 1] \div 100), 60000)
=============================================================================
