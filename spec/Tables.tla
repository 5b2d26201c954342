------------------------------- MODULE Tables -------------------------------
(* Generated by tools/mktables.py.  Fixed-point tables:                       *)
(*   LnT[t]   = 125000 ln t,  SqrtT[t] = 125000 sqrt t,  Log2T[t] = 100000 log2 t *)
(*   TenT[j+1] = 10^4 10^(-2 (j/48)^2)                                         *)
(*   GaussT[s][j+1] = 10^4 exp(-j^2 / 2 s^2)                                   *)
(*   SinT[j+1]  = 10^6 sin(2 pi j / 720),  SinTurn[j+1] = 10^6 sin(2 pi j / 720) / 2 pi *)
(* The assumptions below are checked by TLC whenever the module is loaded.    *)
EXTENDS Integers, Sequences
LnT == <<
    0, 86643, 137327, 173287, 201180, 223970, 243239, 259930, 274653, 287823, 299737, 310613,
    320619, 329882, 338506, 346574, 354152, 361296, 368055, 374467, 380565, 386380, 391937,
    397257, 402359, 407262, 411980, 416526, 420912, 425150, 429248, 433217, 437063, 440795,
    444419, 447940, 451365, 454698, 457945, 461110, 464197, 467209, 470150, 473024, 475833,
    478580, 481268, 483900, 486478, 489003, 491478, 493905, 496286, 498623, 500917, 503169,
    505381, 507555, 509692, 511793, 513859, 515892, 517892, 519860, 521798, 523707, 525587,
    527438, 529263, 531062, 532835, 534583, 536307, 538008, 539686, 541342, 542976, 544589,
    546181, 547753, 549306, 550840, 552355, 553852, 555331, 556793, 558239, 559667, 561080,
    562476, 563857, 565224, 566575, 567912, 569235, 570544, 571839, 573121, 574390, 575646,
    576890, 578122, 579341, 580549, 581745, 582930, 584104, 585266, 586418, 587560, 588691,
    589812, 590923, 592025, 593117, 594199, 595272, 596336, 597390, 598436, 599474, 600503,
    601523, 602535, 603539, 604535, 605523, 606504, 607477, 608442, 609400, 610350, 611294,
    612230, 613159, 614082, 614998, 615907, 616809, 617705, 618595, 619478, 620356, 621227,
    622092, 622951, 623804, 624652, 625493, 626329, 627160, 627985, 628805, 629619, 630428,
    631232, 632031, 632824, 633613, 634397, 635176, 635950, 636719, 637483, 638243, 638998,
    639749, 640495, 641237, 641975, 642708, 643437, 644161, 644882, 645598, 646310, 647019,
    647723, 648423, 649120, 649812, 650501, 651186, 651867, 652544, 653218, 653889, 654555,
    655218, 655878, 656534, 657187, 657836, 658482, 659125, 659764, 660400, 661033, 661663,
    662290, 662913, 663533, 664151, 664765, 665376, 665985, 666590, 667192, 667792, 668388,
    668982, 669573, 670162, 670747, 671330, 671910, 672487, 673062, 673634, 674203, 674770,
    675335, 675896, 676456, 677013, 677567, 678119, 678668, 679215, 679760, 680302, 680842,
    681380, 681915, 682448, 682979, 683508, 684034, 684558, 685080, 685600, 686117, 686633,
    687146, 687657, 688166, 688674, 689179, 689682, 690183, 690682, 691179, 691674, 692167,
    692658, 693147, 693635, 694120, 694604, 695085, 695565, 696043, 696519, 696994, 697466,
    697937, 698406, 698873, 699339, 699803, 700265, 700725, 701184, 701641, 702096, 702550,
    703002, 703453, 703901, 704349, 704794, 705238, 705681, 706122, 706561, 706999, 707435,
    707870, 708303, 708735, 709165, 709594, 710022, 710447, 710872, 711295, 711717, 712137,
    712555, 712973>>
SqrtT == <<
    125000, 176777, 216506, 250000, 279508, 306186, 330719, 353553, 375000, 395285, 414578,
    433013, 450694, 467707, 484123, 500000, 515388, 530330, 544862, 559017, 572822, 586302,
    599479, 612372, 625000, 637377, 649519, 661438, 673146, 684653, 695971, 707107, 718070,
    728869, 739510, 750000, 760345, 770552, 780625, 790569, 800391, 810093, 819680, 829156,
    838525, 847791, 856957, 866025, 875000, 883883, 892679, 901388, 910014, 918559, 927025,
    935414, 943729, 951972, 960143, 968246, 976281, 984251, 992157, 1000000, 1007782, 1015505,
    1023169, 1030776, 1038328, 1045825, 1053269, 1060660, 1068000, 1075291, 1082532, 1089725,
    1096871, 1103970, 1111024, 1118034, 1125000, 1131923, 1138804, 1145644, 1152443, 1159202,
    1165922, 1172604, 1179248, 1185854, 1192424, 1198958, 1205456, 1211920, 1218349, 1224745,
    1231107, 1237437, 1243734, 1250000, 1256234, 1262438, 1268611, 1274755, 1280869, 1286954,
    1293010, 1299038, 1305038, 1311011, 1316957, 1322876, 1328768, 1334635, 1340476, 1346291,
    1352082, 1357848, 1363589, 1369306, 1375000, 1380670, 1386317, 1391941, 1397542, 1403122,
    1408678, 1414214, 1419727, 1425219, 1430690, 1436141, 1441570, 1446980, 1452369, 1457738,
    1463087, 1468418, 1473728, 1479020, 1484293, 1489547, 1494783, 1500000, 1505199, 1510381,
    1515544, 1520691, 1525819, 1530931, 1536026, 1541104, 1546165, 1551209, 1556237, 1561249,
    1566246, 1571226, 1576190, 1581139, 1586072, 1590990, 1595893, 1600781, 1605654, 1610512,
    1615356, 1620185, 1625000, 1629801, 1634587, 1639360, 1644118, 1648863, 1653595, 1658312,
    1663017, 1667708, 1672386, 1677051, 1681703, 1686342, 1690969, 1695582, 1700184, 1704773,
    1709349, 1713914, 1718466, 1723006, 1727534, 1732051, 1736555, 1741049, 1745530, 1750000,
    1754459, 1758906, 1763342, 1767767, 1772181, 1776584, 1780976, 1785357, 1789728, 1794088,
    1798437, 1802776, 1807104, 1811422, 1815730, 1820027, 1824315, 1828592, 1832860, 1837117,
    1841365, 1845603, 1849831, 1854050, 1858259, 1862458, 1866648, 1870829, 1875000, 1879162,
    1883315, 1887459, 1891593, 1895719, 1899836, 1903943, 1908042, 1912132, 1916214, 1920286,
    1924351, 1928406, 1932453, 1936492, 1940522, 1944544, 1948557, 1952562, 1956559, 1960548,
    1964529, 1968502, 1972467, 1976424, 1980372, 1984313, 1988247, 1992172, 1996090, 2000000,
    2003902, 2007797, 2011685, 2015564, 2019437, 2023302, 2027159, 2031010, 2034853, 2038688,
    2042517, 2046338, 2050152, 2053960, 2057760, 2061553, 2065339, 2069118, 2072890, 2076656,
    2080415, 2084167, 2087912, 2091650, 2095382, 2099107, 2102825, 2106537, 2110243, 2113942,
    2117634, 2121320, 2125000, 2128673, 2132340, 2136001, 2139655, 2143304, 2146946, 2150581,
    2154211, 2157835, 2161452, 2165064>>
Log2T == <<
    0, 100000, 158496, 200000, 232193, 258496, 280735, 300000, 316993, 332193, 345943, 358496,
    370044, 380735, 390689, 400000, 408746, 416993, 424793, 432193, 439232, 445943, 452356,
    458496, 464386, 470044, 475489, 480735, 485798, 490689, 495420, 500000, 504439, 508746,
    512928, 516993, 520945, 524793, 528540, 532193, 535755, 539232, 542626, 545943, 549185,
    552356, 555459, 558496, 561471, 564386, 567243, 570044, 572792, 575489, 578136, 580735,
    583289, 585798, 588264, 590689, 593074, 595420, 597728, 600000, 602237, 604439, 606609,
    608746, 610852, 612928, 614975, 616993, 618982, 620945, 622882, 624793, 626679, 628540,
    630378, 632193, 633985, 635755, 637504, 639232, 640939, 642626, 644294, 645943, 647573,
    649185, 650779, 652356, 653916, 655459, 656986, 658496, 659991, 661471, 662936, 664386,
    665821, 667243, 668650, 670044, 671425, 672792, 674147, 675489, 676818, 678136, 679442,
    680735, 682018, 683289, 684549, 685798, 687036, 688264, 689482, 690689, 691886, 693074,
    694251, 695420, 696578, 697728, 698868, 700000, 701123, 702237, 703342, 704439, 705528,
    706609, 707682, 708746, 709803, 710852, 711894, 712928, 713955, 714975, 715987, 716993,
    717991, 718982, 719967, 720945, 721917, 722882, 723840, 724793, 725739, 726679, 727612,
    728540, 729462, 730378, 731288, 732193, 733092, 733985, 734873, 735755, 736632, 737504,
    738370, 739232, 740088, 740939, 741785, 742626, 743463, 744294, 745121, 745943, 746761,
    747573, 748382, 749185, 749985, 750779, 751570, 752356, 753138, 753916, 754689, 755459,
    756224, 756986, 757743, 758496, 759246, 759991, 760733, 761471, 762205, 762936, 763662,
    764386, 765105, 765821, 766534, 767243, 767948, 768650, 769349, 770044, 770736, 771425,
    772110, 772792, 773471, 774147, 774819, 775489, 776155, 776818, 777479, 778136, 778790,
    779442, 780090, 780735, 781378, 782018, 782655, 783289, 783920, 784549, 785175, 785798,
    786419, 787036, 787652, 788264, 788874, 789482, 790087, 790689, 791289, 791886, 792481,
    793074, 793664, 794251, 794837, 795420, 796000, 796578, 797154, 797728, 798299, 798868,
    799435, 800000, 800562, 801123, 801681, 802237, 802791, 803342, 803892, 804439, 804985,
    805528, 806070, 806609, 807146, 807682, 808215, 808746, 809276, 809803, 810329, 810852,
    811374, 811894, 812412, 812928, 813443, 813955, 814466, 814975, 815482, 815987, 816491,
    816993, 817493, 817991, 818488, 818982, 819476, 819967, 820457, 820945, 821432, 821917,
    822400, 822882>>
Exp2T == <<
    10000, 10070, 10140, 10210, 10281, 10353, 10425, 10497, 10570, 10644, 10718, 10792, 10867,
    10943, 11019, 11096, 11173, 11251, 11329, 11408, 11487, 11567, 11647, 11728, 11810, 11892,
    11975, 12058, 12142, 12226, 12311, 12397, 12483, 12570, 12658, 12746, 12834, 12924, 13013,
    13104, 13195, 13287, 13379, 13472, 13566, 13660, 13755, 13851, 13947, 14044, 14142, 14241,
    14340, 14439, 14540, 14641, 14743, 14845, 14948, 15052, 15157, 15263, 15369, 15476, 15583,
    15692, 15801, 15911, 16021, 16133, 16245, 16358, 16472, 16586, 16702, 16818, 16935, 17053,
    17171, 17291, 17411, 17532, 17654, 17777, 17901, 18025, 18150, 18277, 18404, 18532, 18661,
    18790, 18921, 19053, 19185, 19319, 19453, 19588, 19725, 19862>>
SinT == <<
    0, 8727, 17452, 26177, 34899, 43619, 52336, 61049, 69756, 78459, 87156, 95846, 104528,
    113203, 121869, 130526, 139173, 147809, 156434, 165048, 173648, 182236, 190809, 199368,
    207912, 216440, 224951, 233445, 241922, 250380, 258819, 267238, 275637, 284015, 292372,
    300706, 309017, 317305, 325568, 333807, 342020, 350207, 358368, 366501, 374607, 382683,
    390731, 398749, 406737, 414693, 422618, 430511, 438371, 446198, 453990, 461749, 469472,
    477159, 484810, 492424, 500000, 507538, 515038, 522499, 529919, 537300, 544639, 551937,
    559193, 566406, 573576, 580703, 587785, 594823, 601815, 608761, 615661, 622515, 629320,
    636078, 642788, 649448, 656059, 662620, 669131, 675590, 681998, 688355, 694658, 700909,
    707107, 713250, 719340, 725374, 731354, 737277, 743145, 748956, 754710, 760406, 766044,
    771625, 777146, 782608, 788011, 793353, 798636, 803857, 809017, 814116, 819152, 824126,
    829038, 833886, 838671, 843391, 848048, 852640, 857167, 861629, 866025, 870356, 874620,
    878817, 882948, 887011, 891007, 894934, 898794, 902585, 906308, 909961, 913545, 917060,
    920505, 923880, 927184, 930418, 933580, 936672, 939693, 942641, 945519, 948324, 951057,
    953717, 956305, 958820, 961262, 963630, 965926, 968148, 970296, 972370, 974370, 976296,
    978148, 979925, 981627, 983255, 984808, 986286, 987688, 989016, 990268, 991445, 992546,
    993572, 994522, 995396, 996195, 996917, 997564, 998135, 998630, 999048, 999391, 999657,
    999848, 999962, 1000000, 999962, 999848, 999657, 999391, 999048, 998630, 998135, 997564,
    996917, 996195, 995396, 994522, 993572, 992546, 991445, 990268, 989016, 987688, 986286,
    984808, 983255, 981627, 979925, 978148, 976296, 974370, 972370, 970296, 968148, 965926,
    963630, 961262, 958820, 956305, 953717, 951057, 948324, 945519, 942641, 939693, 936672,
    933580, 930418, 927184, 923880, 920505, 917060, 913545, 909961, 906308, 902585, 898794,
    894934, 891007, 887011, 882948, 878817, 874620, 870356, 866025, 861629, 857167, 852640,
    848048, 843391, 838671, 833886, 829038, 824126, 819152, 814116, 809017, 803857, 798636,
    793353, 788011, 782608, 777146, 771625, 766044, 760406, 754710, 748956, 743145, 737277,
    731354, 725374, 719340, 713250, 707107, 700909, 694658, 688355, 681998, 675590, 669131,
    662620, 656059, 649448, 642788, 636078, 629320, 622515, 615661, 608761, 601815, 594823,
    587785, 580703, 573576, 566406, 559193, 551937, 544639, 537300, 529919, 522499, 515038,
    507538, 500000, 492424, 484810, 477159, 469472, 461749, 453990, 446198, 438371, 430511,
    422618, 414693, 406737, 398749, 390731, 382683, 374607, 366501, 358368, 350207, 342020,
    333807, 325568, 317305, 309017, 300706, 292372, 284015, 275637, 267238, 258819, 250380,
    241922, 233445, 224951, 216440, 207912, 199368, 190809, 182236, 173648, 165048, 156434,
    147809, 139173, 130526, 121869, 113203, 104528, 95846, 87156, 78459, 69756, 61049, 52336,
    43619, 34899, 26177, 17452, 8727, 0, -8727, -17452, -26177, -34899, -43619, -52336, -61049,
    -69756, -78459, -87156, -95846, -104528, -113203, -121869, -130526, -139173, -147809,
    -156434, -165048, -173648, -182236, -190809, -199368, -207912, -216440, -224951, -233445,
    -241922, -250380, -258819, -267238, -275637, -284015, -292372, -300706, -309017, -317305,
    -325568, -333807, -342020, -350207, -358368, -366501, -374607, -382683, -390731, -398749,
    -406737, -414693, -422618, -430511, -438371, -446198, -453990, -461749, -469472, -477159,
    -484810, -492424, -500000, -507538, -515038, -522499, -529919, -537300, -544639, -551937,
    -559193, -566406, -573576, -580703, -587785, -594823, -601815, -608761, -615661, -622515,
    -629320, -636078, -642788, -649448, -656059, -662620, -669131, -675590, -681998, -688355,
    -694658, -700909, -707107, -713250, -719340, -725374, -731354, -737277, -743145, -748956,
    -754710, -760406, -766044, -771625, -777146, -782608, -788011, -793353, -798636, -803857,
    -809017, -814116, -819152, -824126, -829038, -833886, -838671, -843391, -848048, -852640,
    -857167, -861629, -866025, -870356, -874620, -878817, -882948, -887011, -891007, -894934,
    -898794, -902585, -906308, -909961, -913545, -917060, -920505, -923880, -927184, -930418,
    -933580, -936672, -939693, -942641, -945519, -948324, -951057, -953717, -956305, -958820,
    -961262, -963630, -965926, -968148, -970296, -972370, -974370, -976296, -978148, -979925,
    -981627, -983255, -984808, -986286, -987688, -989016, -990268, -991445, -992546, -993572,
    -994522, -995396, -996195, -996917, -997564, -998135, -998630, -999048, -999391, -999657,
    -999848, -999962, -1000000, -999962, -999848, -999657, -999391, -999048, -998630, -998135,
    -997564, -996917, -996195, -995396, -994522, -993572, -992546, -991445, -990268, -989016,
    -987688, -986286, -984808, -983255, -981627, -979925, -978148, -976296, -974370, -972370,
    -970296, -968148, -965926, -963630, -961262, -958820, -956305, -953717, -951057, -948324,
    -945519, -942641, -939693, -936672, -933580, -930418, -927184, -923880, -920505, -917060,
    -913545, -909961, -906308, -902585, -898794, -894934, -891007, -887011, -882948, -878817,
    -874620, -870356, -866025, -861629, -857167, -852640, -848048, -843391, -838671, -833886,
    -829038, -824126, -819152, -814116, -809017, -803857, -798636, -793353, -788011, -782608,
    -777146, -771625, -766044, -760406, -754710, -748956, -743145, -737277, -731354, -725374,
    -719340, -713250, -707107, -700909, -694658, -688355, -681998, -675590, -669131, -662620,
    -656059, -649448, -642788, -636078, -629320, -622515, -615661, -608761, -601815, -594823,
    -587785, -580703, -573576, -566406, -559193, -551937, -544639, -537300, -529919, -522499,
    -515038, -507538, -500000, -492424, -484810, -477159, -469472, -461749, -453990, -446198,
    -438371, -430511, -422618, -414693, -406737, -398749, -390731, -382683, -374607, -366501,
    -358368, -350207, -342020, -333807, -325568, -317305, -309017, -300706, -292372, -284015,
    -275637, -267238, -258819, -250380, -241922, -233445, -224951, -216440, -207912, -199368,
    -190809, -182236, -173648, -165048, -156434, -147809, -139173, -130526, -121869, -113203,
    -104528, -95846, -87156, -78459, -69756, -61049, -52336, -43619, -34899, -26177, -17452,
    -8727>>
SinTurn == <<
    0, 1389, 2778, 4166, 5554, 6942, 8330, 9716, 11102, 12487, 13871, 15254, 16636, 18017,
    19396, 20774, 22150, 23525, 24897, 26268, 27637, 29004, 30368, 31730, 33090, 34447, 35802,
    37154, 38503, 39849, 41192, 42532, 43869, 45202, 46532, 47859, 49182, 50501, 51816, 53127,
    54434, 55737, 57036, 58330, 59620, 60906, 62187, 63463, 64734, 66000, 67262, 68518, 69769,
    71015, 72255, 73490, 74719, 75942, 77160, 78372, 79577, 80777, 81971, 83158, 84339, 85514,
    86682, 87843, 88998, 90146, 91288, 92422, 93549, 94669, 95782, 96887, 97986, 99076, 100159,
    101235, 102303, 103363, 104415, 105459, 106495, 107524, 108543, 109555, 110558, 111553,
    112540, 113517, 114486, 115447, 116399, 117341, 118275, 119200, 120116, 121022, 121920,
    122808, 123687, 124556, 125416, 126266, 127107, 127938, 128759, 129571, 130372, 131164,
    131945, 132717, 133479, 134230, 134971, 135702, 136422, 137133, 137832, 138521, 139200,
    139868, 140525, 141172, 141808, 142433, 143048, 143651, 144243, 144825, 145395, 145955,
    146503, 147040, 147566, 148081, 148584, 149076, 149557, 150026, 150484, 150930, 151365,
    151789, 152201, 152601, 152990, 153367, 153732, 154085, 154427, 154757, 155076, 155382,
    155677, 155960, 156231, 156490, 156737, 156972, 157195, 157407, 157606, 157793, 157969,
    158132, 158283, 158422, 158549, 158664, 158767, 158858, 158937, 159003, 159058, 159100,
    159131, 159149, 159155, 159149, 159131, 159100, 159058, 159003, 158937, 158858, 158767,
    158664, 158549, 158422, 158283, 158132, 157969, 157793, 157606, 157407, 157195, 156972,
    156737, 156490, 156231, 155960, 155677, 155382, 155076, 154757, 154427, 154085, 153732,
    153367, 152990, 152601, 152201, 151789, 151365, 150930, 150484, 150026, 149557, 149076,
    148584, 148081, 147566, 147040, 146503, 145955, 145395, 144825, 144243, 143651, 143048,
    142433, 141808, 141172, 140525, 139868, 139200, 138521, 137832, 137133, 136422, 135702,
    134971, 134230, 133479, 132717, 131945, 131164, 130372, 129571, 128759, 127938, 127107,
    126266, 125416, 124556, 123687, 122808, 121920, 121022, 120116, 119200, 118275, 117341,
    116399, 115447, 114486, 113517, 112540, 111553, 110558, 109555, 108543, 107524, 106495,
    105459, 104415, 103363, 102303, 101235, 100159, 99076, 97986, 96887, 95782, 94669, 93549,
    92422, 91288, 90146, 88998, 87843, 86682, 85514, 84339, 83158, 81971, 80777, 79577, 78372,
    77160, 75942, 74719, 73490, 72255, 71015, 69769, 68518, 67262, 66000, 64734, 63463, 62187,
    60906, 59620, 58330, 57036, 55737, 54434, 53127, 51816, 50501, 49182, 47859, 46532, 45202,
    43869, 42532, 41192, 39849, 38503, 37154, 35802, 34447, 33090, 31730, 30368, 29004, 27637,
    26268, 24897, 23525, 22150, 20774, 19396, 18017, 16636, 15254, 13871, 12487, 11102, 9716,
    8330, 6942, 5554, 4166, 2778, 1389, 0, -1389, -2778, -4166, -5554, -6942, -8330, -9716,
    -11102, -12487, -13871, -15254, -16636, -18017, -19396, -20774, -22150, -23525, -24897,
    -26268, -27637, -29004, -30368, -31730, -33090, -34447, -35802, -37154, -38503, -39849,
    -41192, -42532, -43869, -45202, -46532, -47859, -49182, -50501, -51816, -53127, -54434,
    -55737, -57036, -58330, -59620, -60906, -62187, -63463, -64734, -66000, -67262, -68518,
    -69769, -71015, -72255, -73490, -74719, -75942, -77160, -78372, -79577, -80777, -81971,
    -83158, -84339, -85514, -86682, -87843, -88998, -90146, -91288, -92422, -93549, -94669,
    -95782, -96887, -97986, -99076, -100159, -101235, -102303, -103363, -104415, -105459,
    -106495, -107524, -108543, -109555, -110558, -111553, -112540, -113517, -114486, -115447,
    -116399, -117341, -118275, -119200, -120116, -121022, -121920, -122808, -123687, -124556,
    -125416, -126266, -127107, -127938, -128759, -129571, -130372, -131164, -131945, -132717,
    -133479, -134230, -134971, -135702, -136422, -137133, -137832, -138521, -139200, -139868,
    -140525, -141172, -141808, -142433, -143048, -143651, -144243, -144825, -145395, -145955,
    -146503, -147040, -147566, -148081, -148584, -149076, -149557, -150026, -150484, -150930,
    -151365, -151789, -152201, -152601, -152990, -153367, -153732, -154085, -154427, -154757,
    -155076, -155382, -155677, -155960, -156231, -156490, -156737, -156972, -157195, -157407,
    -157606, -157793, -157969, -158132, -158283, -158422, -158549, -158664, -158767, -158858,
    -158937, -159003, -159058, -159100, -159131, -159149, -159155, -159149, -159131, -159100,
    -159058, -159003, -158937, -158858, -158767, -158664, -158549, -158422, -158283, -158132,
    -157969, -157793, -157606, -157407, -157195, -156972, -156737, -156490, -156231, -155960,
    -155677, -155382, -155076, -154757, -154427, -154085, -153732, -153367, -152990, -152601,
    -152201, -151789, -151365, -150930, -150484, -150026, -149557, -149076, -148584, -148081,
    -147566, -147040, -146503, -145955, -145395, -144825, -144243, -143651, -143048, -142433,
    -141808, -141172, -140525, -139868, -139200, -138521, -137832, -137133, -136422, -135702,
    -134971, -134230, -133479, -132717, -131945, -131164, -130372, -129571, -128759, -127938,
    -127107, -126266, -125416, -124556, -123687, -122808, -121920, -121022, -120116, -119200,
    -118275, -117341, -116399, -115447, -114486, -113517, -112540, -111553, -110558, -109555,
    -108543, -107524, -106495, -105459, -104415, -103363, -102303, -101235, -100159, -99076,
    -97986, -96887, -95782, -94669, -93549, -92422, -91288, -90146, -88998, -87843, -86682,
    -85514, -84339, -83158, -81971, -80777, -79577, -78372, -77160, -75942, -74719, -73490,
    -72255, -71015, -69769, -68518, -67262, -66000, -64734, -63463, -62187, -60906, -59620,
    -58330, -57036, -55737, -54434, -53127, -51816, -50501, -49182, -47859, -46532, -45202,
    -43869, -42532, -41192, -39849, -38503, -37154, -35802, -34447, -33090, -31730, -30368,
    -29004, -27637, -26268, -24897, -23525, -22150, -20774, -19396, -18017, -16636, -15254,
    -13871, -12487, -11102, -9716, -8330, -6942, -5554, -4166, -2778, -1389>>
TenT == <<
    10000, 9980, 9920, 9822, 9685, 9513, 9306, 9067, 8799, 8505, 8188, 7852, 7499, 7133, 6759,
    6378, 5995, 5612, 5233, 4860, 4495, 4142, 3801, 3474, 3162, 2867, 2589, 2329, 2087, 1862,
    1655, 1465, 1292, 1134, 992, 864, 750, 648, 558, 478, 408, 347, 294, 248, 209, 175, 146,
    121, 100, 82, 68, 55, 45, 36, 29, 24, 19, 15, 12, 10, 7, 6, 5, 4, 3, 2, 2, 1, 1, 1, 1, 0, 0>>
GaussT == <<<<>>, <<
    10000, 8825, 6065, 3247, 1353, 439, 111, 22, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0>>, <<
    10000, 9460, 8007, 6065, 4111, 2494, 1353, 657, 286, 111, 39, 12, 3, 1, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<
    10000, 9692, 8825, 7548, 6065, 4578, 3247, 2163, 1353, 796, 439, 228, 111, 51, 22, 9, 3, 1,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>
SinAt(j) == SinT[(j % 720) + 1]
CosAt(j) == SinT[((j + 180) % 720) + 1]
SinTurnAt(j) == SinTurn[(j % 720) + 1]

Within(a, b, tol) == (a - b) <= tol /\ (b - a) <= tol
ASSUME \A a \in 1..17 : \A b \in 1..17 : Within(LnT[a * b], LnT[a] + LnT[b], 2)
ASSUME \A a \in 1..17 : \A b \in 1..17 : Within(Log2T[a * b], Log2T[a] + Log2T[b], 2)
ASSUME \A j \in 0..49 : Within((Exp2T[j + 1] * Exp2T[j + 51]) \div 10000, (Exp2T[26 + j] * Exp2T[26 + j]) \div 10000, 4)
ASSUME \A a \in 1..17 : SqrtT[a * a] = 125000 * a
ASSUME \A a \in 1..298 : LnT[a] < LnT[a + 1] /\ (a > 1 => LnT[a + 1] - LnT[a] <= LnT[a] - LnT[a - 1])
ASSUME \A j \in 0..719 : SinAt(360 - j) = SinAt(j) /\ SinAt(-j) = -SinAt(j)
ASSUME SinAt(180) = 1000000 /\ SinAt(60) = 500000 /\ Within(SinTurnAt(180), 159155, 0)
ASSUME TenT[1] = 10000 /\ TenT[25] = 3162 /\ TenT[49] = 100
ASSUME GaussT[2][1] = 10000 /\ \A j \in 0..29 : Within(GaussT[2][j + 1], GaussT[4][2 * j + 1], 0)
ASSUME \A j \in 0..19 : GaussT[3][3 * j + 1] = GaussT[2][2 * j + 1]
ASSUME \A g \in 2..4 : \A j \in 1..12 : Within((GaussT[g][3 * j + 1] * GaussT[g][4 * j + 1]) \div 10000, GaussT[g][5 * j + 1], 1)
ASSUME \A j \in 0..719 : Within((SinAt(j) \div 100) * (SinAt(j) \div 100) + (CosAt(j) \div 100) * (CosAt(j) \div 100), 100000000, 40000)
=============================================================================
