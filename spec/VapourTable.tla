---------------------------- MODULE VapourTable -----------------------------
(* Vapour pressure at saturation after Buck (1981), over water and over ice,   *)
(* before enhancement for pressure, in millionths of hPa, from -80.0 to 65.0   *)
(* degrees in tenths.                                                          *)
EXTENDS Integers
WaterTab == <<
   1146, 1164, 1182, 1201, 1220, 1239, 1259, 1279, 1299, 1319,
   1340, 1361, 1382, 1404, 1426, 1448, 1471, 1494, 1517, 1540,
   1564, 1589, 1613, 1638, 1663, 1689, 1715, 1742, 1768, 1795,
   1823, 1851, 1879, 1908, 1937, 1967, 1997, 2027, 2058, 2089,
   2121, 2153, 2186, 2219, 2252, 2286, 2320, 2355, 2391, 2427,
   2463, 2500, 2537, 2575, 2614, 2653, 2692, 2732, 2773, 2814,
   2856, 2898, 2941, 2984, 3029, 3073, 3118, 3164, 3211, 3258,
   3306, 3354, 3403, 3453, 3503, 3554, 3606, 3659, 3712, 3766,
   3820, 3876, 3932, 3988, 4046, 4104, 4163, 4223, 4284, 4346,
   4408, 4471, 4535, 4600, 4665, 4732, 4799, 4868, 4937, 5007,
   5078, 5150, 5223, 5296, 5371, 5447, 5524, 5601, 5680, 5760,
   5841, 5922, 6005, 6089, 6174, 6260, 6348, 6436, 6525, 6616,
   6708, 6801, 6895, 6990, 7087, 7185, 7284, 7384, 7485, 7588,
   7692, 7798, 7905, 8013, 8122, 8233, 8345, 8459, 8574, 8690,
   8808, 8928, 9049, 9171, 9295, 9420, 9547, 9676, 9806, 9938,
   10071, 10207, 10343, 10482, 10622, 10764, 10907, 11053, 11200, 11349,
   11499, 11652, 11806, 11963, 12121, 12281, 12443, 12607, 12773, 12941,
   13111, 13283, 13458, 13634, 13812, 13993, 14176, 14360, 14548, 14737,
   14929, 15122, 15319, 15517, 15718, 15921, 16127, 16335, 16546, 16759,
   16974, 17193, 17413, 17637, 17863, 18091, 18322, 18556, 18793, 19033,
   19275, 19520, 19768, 20019, 20272, 20529, 20789, 21052, 21317, 21586,
   21858, 22133, 22411, 22693, 22977, 23265, 23557, 23851, 24149, 24450,
   24755, 25063, 25375, 25691, 26010, 26332, 26658, 26988, 27322, 27659,
   28000, 28345, 28694, 29047, 29404, 29765, 30130, 30499, 30872, 31250,
   31631, 32017, 32407, 32801, 33200, 33604, 34011, 34424, 34840, 35262,
   35688, 36119, 36554, 36995, 37440, 37890, 38345, 38805, 39270, 39741,
   40216, 40696, 41182, 41673, 42170, 42671, 43179, 43692, 44210, 44734,
   45263, 45799, 46340, 46887, 47440, 47999, 48563, 49134, 49711, 50294,
   50884, 51480, 52082, 52690, 53305, 53927, 54555, 55190, 55831, 56480,
   57135, 57797, 58467, 59143, 59826, 60517, 61215, 61920, 62632, 63353,
   64080, 64815, 65558, 66309, 67068, 67834, 68608, 69391, 70182, 70980,
   71788, 72603, 73427, 74259, 75100, 75950, 76808, 77676, 78552, 79437,
   80331, 81235, 82148, 83070, 84001, 84942, 85893, 86853, 87823, 88803,
   89793, 90793, 91803, 92823, 93853, 94894, 95946, 97008, 98081, 99164,
   100259, 101364, 102481, 103608, 104747, 105898, 107060, 108233, 109418, 110615,
   111824, 113045, 114278, 115523, 116781, 118051, 119333, 120628, 121936, 123257,
   124591, 125938, 127298, 128672, 130059, 131460, 132874, 134302, 135744, 137200,
   138671, 140155, 141654, 143168, 144696, 146239, 147797, 149371, 150959, 152563,
   154182, 155816, 157467, 159133, 160816, 162514, 164229, 165960, 167708, 169472,
   171253, 173052, 174867, 176700, 178550, 180417, 182303, 184206, 186127, 188067,
   190024, 192001, 193995, 196009, 198042, 200093, 202164, 204255, 206365, 208494,
   210644, 212814, 215004, 217214, 219445, 221697, 223970, 226263, 228579, 230915,
   233273, 235653, 238055, 240479, 242926, 245395, 247887, 250401, 252939, 255500,
   258084, 260693, 263325, 265981, 268661, 271366, 274095, 276849, 279629, 282433,
   285263, 288119, 291000, 293908, 296842, 299802, 302789, 305803, 308844, 311913,
   315009, 318133, 321284, 324464, 327673, 330910, 334176, 337471, 340796, 344150,
   347534, 350948, 354393, 357867, 361373, 364910, 368478, 372078, 375709, 379372,
   383068, 386796, 390557, 394351, 398178, 402039, 405933, 409862, 413825, 417822,
   421854, 425922, 430025, 434163, 438338, 442549, 446796, 451080, 455401, 459759,
   464155, 468589, 473062, 477572, 482122, 486710, 491338, 496006, 500714, 505462,
   510250, 515080, 519950, 524863, 529817, 534813, 539852, 544933, 550058, 555226,
   560437, 565693, 570994, 576339, 581729, 587164, 592645, 598173, 603747, 609367,
   615035, 620750, 626513, 632324, 638184, 644093, 650051, 656058, 662116, 668224,
   674382, 680592, 686853, 693166, 699531, 705949, 712420, 718944, 725522, 732154,
   738841, 745583, 752380, 759232, 766141, 773107, 780129, 787209, 794346, 801542,
   808796, 816109, 823482, 830915, 838408, 845961, 853576, 861253, 868991, 876792,
   884656, 892584, 900575, 908630, 916751, 924936, 933187, 941504, 949888, 958339,
   966857, 975444, 984099, 992823, 1001616, 1010479, 1019413, 1028417, 1037493, 1046641,
   1055861, 1065154, 1074521, 1083962, 1093476, 1103066, 1112732, 1122473, 1132291, 1142186,
   1152158, 1162209, 1172338, 1182547, 1192835, 1203204, 1213653, 1224184, 1234796, 1245491,
   1256269, 1267131, 1278077, 1289108, 1300224, 1311426, 1322715, 1334091, 1345554, 1357105,
   1368746, 1380476, 1392296, 1404207, 1416209, 1428302, 1440489, 1452768, 1465142, 1477609,
   1490172, 1502830, 1515585, 1528437, 1541386, 1554433, 1567580, 1580825, 1594171, 1607618,
   1621167, 1634817, 1648571, 1662428, 1676389, 1690455, 1704627, 1718905, 1733290, 1747783,
   1762384, 1777094, 1791914, 1806845, 1821887, 1837041, 1852307, 1867687, 1883182, 1898791,
   1914516, 1930357, 1946315, 1962392, 1978587, 1994901, 2011336, 2027892, 2044570, 2061370,
   2078293, 2095341, 2112513, 2129811, 2147236, 2164788, 2182469, 2200278, 2218217, 2236287,
   2254488, 2272821, 2291288, 2309888, 2328623, 2347494, 2366502, 2385647, 2404930, 2424352,
   2443914, 2463617, 2483462, 2503450, 2523581, 2543856, 2564277, 2584844, 2605558, 2626420,
   2647431, 2668592, 2689904, 2711368, 2732985, 2754755, 2776680, 2798760, 2820997, 2843391,
   2865944, 2888656, 2911529, 2934563, 2957760, 2981120, 3004644, 3028334, 3052190, 3076214,
   3100406, 3124768, 3149300, 3174003, 3198880, 3223930, 3249154, 3274555, 3300132, 3325887,
   3351821, 3377935, 3404230, 3430708, 3457368, 3484213, 3511244, 3538461, 3565867, 3593460,
   3621244, 3649220, 3677387, 3705748, 3734303, 3763054, 3792002, 3821148, 3850494, 3880039,
   3909787, 3939737, 3969891, 4000251, 4030816, 4061590, 4092572, 4123765, 4155168, 4186785,
   4218615, 4250660, 4282921, 4315400, 4348098, 4381016, 4414156, 4447518, 4481104, 4514916,
   4548954, 4583220, 4617715, 4652440, 4687398, 4722589, 4758014, 4793676, 4829575, 4865712,
   4902089, 4938708, 4975570, 5012675, 5050027, 5087625, 5125472, 5163568, 5201916, 5240517,
   5279371, 5318481, 5357848, 5397474, 5437359, 5477506, 5517916, 5558590, 5599530, 5640738,
   5682214, 5723960, 5765979, 5808271, 5850838, 5893681, 5936803, 5980204, 6023886, 6067851,
   6112100, 6156635, 6201458, 6246570, 6291972, 6337667, 6383656, 6429940, 6476521, 6523402,
   6570582, 6618065, 6665852, 6713944, 6762344, 6811052, 6860071, 6909402, 6959047, 7009008,
   7059287, 7109884, 7160802, 7212043, 7263609, 7315500, 7367720, 7420269, 7473150, 7526364,
   7579913, 7633800, 7688025, 7742590, 7797498, 7852750, 7908349, 7964295, 8020592, 8077240,
   8134241, 8191599, 8249313, 8307387, 8365823, 8424621, 8483785, 8543316, 8603215, 8663486,
   8724130, 8785149, 8846544, 8908319, 8970474, 9033013, 9095936, 9159247, 9222946, 9287037,
   9351521, 9416400, 9481676, 9547352, 9613429, 9679910, 9746797, 9814091, 9881795, 9949912,
   10018442, 10087390, 10156755, 10226542, 10296751, 10367385, 10438447, 10509938, 10581861, 10654218,
   10727011, 10800243, 10873916, 10948031, 11022592, 11097600, 11173058, 11248968, 11325333, 11402155,
   11479436, 11557178, 11635384, 11714056, 11793197, 11872809, 11952894, 12033455, 12114495, 12196015,
   12278017, 12360506, 12443482, 12526949, 12610908, 12695363, 12780316, 12865769, 12951725, 13038187,
   13125156, 13212636, 13300629, 13389137, 13478164, 13567711, 13657782, 13748379, 13839504, 13931161,
   14023351, 14116078, 14209344, 14303152, 14397504, 14492404, 14587853, 14683855, 14780413, 14877528,
   14975205, 15073445, 15172251, 15271626, 15371574, 15472096, 15573195, 15674875, 15777138, 15879988,
   15983426, 16087455, 16192080, 16297302, 16403124, 16509550, 16616582, 16724223, 16832476, 16941345,
   17050831, 17160939, 17271670, 17383029, 17495017, 17607639, 17720897, 17834794, 17949333, 18064518,
   18180351, 18296835, 18413974, 18531771, 18650229, 18769350, 18889139, 19009598, 19130731, 19252540,
   19375029, 19498202, 19622060, 19746609, 19871850, 19997787, 20124424, 20251763, 20379808, 20508563,
   20638030, 20768213, 20899116, 21030741, 21163092, 21296173, 21429987, 21564537, 21699826, 21835859,
   21972638, 22110167, 22248450, 22387490, 22527291, 22667855, 22809187, 22951291, 23094168, 23237825,
   23382263, 23527486, 23673499, 23820304, 23967905, 24116307, 24265512, 24415524, 24566347, 24717985,
   24870441, 25023720, 25177824, 25332758, 25488525, 25645130, 25802575, 25960866, 26120004, 26279996,
   26440843, 26602551, 26765123, 26928562, 27092874, 27258061, 27424128, 27591079, 27758917, 27927647,
   28097272, 28267797, 28439225, 28611561, 28784809, 28958972, 29134055, 29310063, 29486998, 29664865,
   29843668, 30023412, 30204101, 30385738, 30568328, 30751875, 30936383, 31121857, 31308301, 31495719,
   31684116, 31873495, 32063860, 32255218, 32447571, 32640923, 32835281, 33030647, 33227026, 33424422,
   33622841, 33822286, 34022761, 34224273, 34426824, 34630419, 34835063, 35040761, 35247516, 35455334,
   35664219, 35874176, 36085209, 36297323, 36510522, 36724812, 36940196, 37156680, 37374269, 37592966,
   37812777, 38033707, 38255760, 38478940, 38703254, 38928706, 39155299, 39383041, 39611934, 39841984,
   40073197, 40305576, 40539127, 40773855, 41009764, 41246861, 41485148, 41724633, 41965319, 42207212,
   42450317, 42694639, 42940183, 43186953, 43434956, 43684197, 43934680, 44186410, 44439394, 44693635,
   44949140, 45205913, 45463961, 45723287, 45983898, 46245798, 46508993, 46773489, 47039290, 47306403,
   47574832, 47844583, 48115661, 48388072, 48661821, 48936914, 49213356, 49491153, 49770310, 50050833,
   50332728, 50615999, 50900653, 51186695, 51474131, 51762966, 52053207, 52344858, 52637926, 52932417,
   53228335, 53525687, 53824479, 54124716, 54426404, 54729549, 55034157, 55340234, 55647785, 55956818,
   56267336, 56579347, 56892856, 57207870, 57524394, 57842434, 58161997, 58483088, 58805714, 59129880,
   59455593, 59782859, 60111684, 60442074, 60774035, 61107574, 61442696, 61779409, 62117718, 62457629,
   62799150, 63142285, 63487042, 63833427, 64181445, 64531105, 64882411, 65235371, 65589991, 65946277,
   66304236, 66663875, 67025199, 67388215, 67752931, 68119352, 68487485, 68857337, 69228915, 69602224,
   69977273, 70354066, 70732612, 71112917, 71494988, 71878831, 72264453, 72651861, 73041062, 73432063,
   73824871, 74219492, 74615934, 75014203, 75414306, 75816251, 76220044, 76625692, 77033203, 77442583,
   77853840, 78266981, 78682012, 79098941, 79517775, 79938521, 80361187, 80785779, 81212305, 81640773,
   82071188, 82503560, 82937894, 83374199, 83812482, 84252750, 84695011, 85139271, 85585539, 86033822,
   86484127, 86936462, 87390835, 87847253, 88305723, 88766253, 89228852, 89693525, 90160282, 90629129,
   91100075, 91573127, 92048293, 92525581, 93004998, 93486553, 93970253, 94456105, 94944119, 95434301,
   95926660, 96421204, 96917940, 97416877, 97918022, 98421384, 98926970, 99434789, 99944849, 100457158,
   100971724, 101488555, 102007659, 102529045, 103052721, 103578695, 104106975, 104637569, 105170487, 105705736,
   106243324, 106783260, 107325553, 107870211, 108417241, 108966654, 109518456, 110072658, 110629266, 111188291,
   111749739, 112313621, 112879944, 113448718, 114019950, 114593650, 115169827, 115748488, 116329644, 116913301,
   117499471, 118088160, 118679379, 119273136, 119869439, 120468299, 121069723, 121673721, 122280301, 122889473,
   123501246, 124115629, 124732631, 125352261, 125974528, 126599441, 127227010, 127857243, 128490151, 129125741,
   129764024, 130405009, 131048705, 131695121, 132344267, 132996152, 133650785, 134308177, 134968336, 135631272,
   136296994, 136965513, 137636837, 138310976, 138987940, 139667738, 140350381, 141035877, 141724236, 142415469,
   143109584, 143806593, 144506503, 145209326, 145915071, 146623748, 147335367, 148049938, 148767470, 149487974,
   150211460, 150937938, 151667417, 152399908, 153135422, 153873967, 154615554, 155360194, 156107897, 156858672,
   157612530, 158369481, 159129536, 159892705, 160658998, 161428426, 162200999, 162976727, 163755621, 164537691,
   165322948, 166111402, 166903064, 167697944, 168496054, 169297403, 170102002, 170909862, 171720994, 172535408,
   173353116, 174174127, 174998452, 175826103, 176657091, 177491425, 178329118, 179170179, 180014621, 180862453,
   181713687, 182568335, 183426406, 184287912, 185152864, 186021273, 186893151, 187768509, 188647357, 189529707,
   190415571, 191304959, 192197883, 193094354, 193994383, 194897983, 195805164, 196715938, 197630316, 198548309,
   199469930, 200395190, 201324100, 202256672, 203192918, 204132849, 205076477, 206023813, 206974870, 207929658,
   208888191, 209850479, 210816535, 211786370, 212759997, 213737426, 214718671, 215703743, 216692653, 217685415,
   218682040, 219682540, 220686927, 221695214, 222707413, 223723535, 224743593, 225767599, 226795566, 227827505,
   228863430, 229903352, 230947283, 231995237, 233047225, 234103261, 235163356, 236227523, 237295774, 238368122,
   239444581, 240525161, 241609877, 242698740, 243791763, 244888959, 245990341, 247095922, 248205714, 249319730,
   250437984
>>
IceTab == <<
   548, 557, 567, 576, 586, 595, 605, 615, 625, 635,
   646, 656, 667, 678, 689, 700, 712, 723, 735, 747,
   759, 772, 784, 797, 810, 823, 836, 849, 863, 877,
   891, 905, 920, 935, 950, 965, 980, 996, 1012, 1028,
   1044, 1061, 1078, 1095, 1112, 1130, 1148, 1166, 1184, 1203,
   1222, 1241, 1261, 1280, 1301, 1321, 1342, 1363, 1384, 1406,
   1427, 1450, 1472, 1495, 1518, 1542, 1566, 1590, 1615, 1640,
   1665, 1691, 1717, 1743, 1770, 1797, 1825, 1853, 1881, 1910,
   1939, 1969, 1999, 2029, 2060, 2092, 2123, 2156, 2188, 2222,
   2255, 2289, 2324, 2359, 2395, 2431, 2467, 2504, 2542, 2580,
   2619, 2658, 2698, 2738, 2779, 2820, 2862, 2905, 2948, 2992,
   3037, 3082, 3127, 3174, 3220, 3268, 3316, 3365, 3415, 3465,
   3516, 3568, 3620, 3673, 3727, 3781, 3837, 3893, 3950, 4007,
   4065, 4125, 4185, 4245, 4307, 4369, 4433, 4497, 4562, 4628,
   4694, 4762, 4830, 4900, 4970, 5042, 5114, 5187, 5261, 5337,
   5413, 5490, 5568, 5648, 5728, 5810, 5892, 5976, 6060, 6146,
   6233, 6321, 6411, 6501, 6593, 6685, 6779, 6875, 6971, 7069,
   7168, 7269, 7370, 7473, 7578, 7683, 7790, 7899, 8009, 8120,
   8233, 8347, 8462, 8580, 8698, 8818, 8940, 9064, 9188, 9315,
   9443, 9573, 9704, 9837, 9972, 10108, 10247, 10387, 10528, 10672,
   10817, 10965, 11114, 11265, 11418, 11573, 11729, 11888, 12049, 12212,
   12376, 12543, 12712, 12883, 13057, 13232, 13410, 13589, 13772, 13956,
   14142, 14331, 14523, 14716, 14912, 15111, 15312, 15515, 15721, 15930,
   16141, 16354, 16571, 16790, 17011, 17236, 17463, 17693, 17925, 18161,
   18399, 18641, 18885, 19132, 19382, 19636, 19892, 20151, 20414, 20680,
   20949, 21221, 21496, 21775, 22057, 22343, 22632, 22925, 23221, 23520,
   23823, 24130, 24441, 24755, 25073, 25394, 25720, 26049, 26383, 26720,
   27061, 27406, 27756, 28109, 28467, 28829, 29195, 29566, 29941, 30320,
   30704, 31092, 31485, 31882, 32284, 32691, 33103, 33519, 33940, 34366,
   34797, 35233, 35675, 36121, 36572, 37029, 37491, 37958, 38431, 38909,
   39393, 39882, 40377, 40877, 41384, 41896, 42414, 42938, 43468, 44004,
   44546, 45094, 45649, 46210, 46777, 47351, 47931, 48518, 49111, 49712,
   50319, 50932, 51553, 52181, 52816, 53458, 54107, 54764, 55428, 56099,
   56778, 57465, 58159, 58861, 59571, 60289, 61015, 61749, 62491, 63241,
   64000, 64767, 65542, 66327, 67119, 67921, 68732, 69551, 70380, 71217,
   72064, 72920, 73786, 74661, 75546, 76440, 77344, 78258, 79182, 80116,
   81061, 82015, 82981, 83956, 84942, 85939, 86947, 87965, 88995, 90036,
   91088, 92151, 93226, 94313, 95411, 96521, 97643, 98777, 99923, 101082,
   102253, 103436, 104632, 105841, 107063, 108298, 109546, 110807, 112082, 113370,
   114672, 115987, 117317, 118661, 120019, 121391, 122778, 124179, 125596, 127027,
   128473, 129935, 131411, 132904, 134412, 135935, 137475, 139031, 140603, 142191,
   143796, 145418, 147057, 148712, 150385, 152075, 153783, 155509, 157252, 159013,
   160793, 162591, 164407, 166243, 168097, 169970, 171863, 173775, 175706, 177658,
   179629, 181620, 183632, 185665, 187718, 189792, 191888, 194004, 196142, 198302,
   200484, 202688, 204915, 207163, 209435, 211730, 214047, 216389, 218753, 221142,
   223555, 225992, 228453, 230939, 233450, 235986, 238548, 241135, 243748, 246388,
   249053, 251745, 254464, 257210, 259983, 262784, 265613, 268470, 271355, 274268,
   277210, 280182, 283183, 286213, 289273, 292364, 295484, 298636, 301818, 305032,
   308277, 311554, 314863, 318204, 321578, 324985, 328426, 331899, 335407, 338948,
   342524, 346135, 349781, 353462, 357179, 360932, 364721, 368547, 372409, 376309,
   380247, 384222, 388235, 392288, 396379, 400509, 404679, 408889, 413139, 417430,
   421761, 426134, 430549, 435006, 439505, 444047, 448633, 453261, 457934, 462651,
   467413, 472219, 477072, 481970, 486914, 491905, 496942, 502028, 507161, 512342,
   517572, 522851, 528180, 533558, 538987, 544467, 549997, 555580, 561214, 566901,
   572641, 578434, 584281, 590182, 596138, 602150, 608217, 614340, 620520, 626756,
   633051, 639403, 645814, 652284, 658814, 665403, 672054, 678765, 685537, 692372,
   699269, 706229, 713253, 720341, 727494, 734712, 741995, 749345, 756762, 764246,
   771798, 779418, 787107, 794867, 802696, 810596, 818567, 826610, 834726, 842915,
   851177, 859514, 867926, 876413, 884976, 893616, 902334, 911129, 920003, 928956,
   937989, 947103, 956298, 965575, 974934, 984376, 993903, 1003513, 1013209, 1022991,
   1032859, 1042815, 1052859, 1062991, 1073212, 1083524, 1093926, 1104420, 1115007, 1125686,
   1136459, 1147326, 1158289, 1169347, 1180502, 1191755, 1203106, 1214556, 1226106, 1237756,
   1249508, 1261362, 1273319, 1285380, 1297545, 1309816, 1322193, 1334677, 1347269, 1359970,
   1372780, 1385701, 1398734, 1411878, 1425136, 1438507, 1451993, 1465596, 1479314, 1493150,
   1507105, 1521179, 1535373, 1549689, 1564126, 1578687, 1593372, 1608181, 1623117, 1638179,
   1653370, 1668689, 1684138, 1699718, 1715429, 1731274, 1747252, 1763365, 1779614, 1796000,
   1812524, 1829187, 1845991, 1862935, 1880021, 1897251, 1914625, 1932145, 1949811, 1967624,
   1985587, 2003699, 2021963, 2040378, 2058947, 2077670, 2096549, 2115585, 2134778, 2154131,
   2173644, 2193319, 2213156, 2233157, 2253323, 2273656, 2294156, 2314825, 2335664, 2356675,
   2377858, 2399215, 2420747, 2442456, 2464343, 2486408, 2508654, 2531082, 2553693, 2576488,
   2599469, 2622637, 2645994, 2669541, 2693279, 2717209, 2741334, 2765654, 2790171, 2814887,
   2839802, 2864918, 2890238, 2915761, 2941490, 2967426, 2993571, 3019926, 3046493, 3073273,
   3100268, 3127479, 3154908, 3182557, 3210426, 3238518, 3266834, 3295376, 3324146, 3353144,
   3382373, 3411835, 3441530, 3471462, 3501630, 3532038, 3562686, 3593577, 3624712, 3656093,
   3687721, 3719599, 3751728, 3784110, 3816747, 3849640, 3882792, 3916204, 3949878, 3983815,
   4018019, 4052490, 4087230, 4122242, 4157527, 4193087, 4228924, 4265041, 4301438, 4338118,
   4375083, 4412335, 4449876, 4487707, 4525832, 4564251, 4602968, 4641983, 4681300, 4720920,
   4760845, 4801078, 4841620, 4882474, 4923641, 4965125, 5006927, 5049049, 5091493, 5134263,
   5177359, 5220785, 5264542, 5308632, 5353059, 5397824, 5442930, 5488379, 5534173, 5580314,
   5626806, 5673649, 5720848, 5768404, 5816319, 5864597, 5913238, 5962247, 6011625, 6061376,
   6111500, 6162001, 6212882, 6264145, 6315793, 6367827, 6420252, 6473068, 6526280, 6579890,
   6633899, 6688312, 6743130, 6798357, 6853995, 6910047, 6966515, 7023402, 7080712, 7138447,
   7196609, 7255202, 7314228, 7373691, 7433593, 7493937, 7554726, 7615963, 7677651, 7739792,
   7802391, 7865449, 7928970, 7992957, 8057413, 8122341, 8187744, 8253625, 8319988, 8386835,
   8454170, 8521995, 8590315, 8659131, 8728449, 8798269, 8868597, 8939435, 9010787, 9082655,
   9155044, 9227956, 9301395, 9375365, 9449868, 9524909, 9600490, 9676615, 9753288, 9830512,
   9908291, 9986628, 10065527, 10144991, 10225024, 10305630, 10386812, 10468575, 10550920, 10633854,
   10717378, 10801497, 10886215, 10971536, 11057462, 11143999, 11231150, 11318919, 11407309, 11496325,
   11585971, 11676250, 11767167, 11858726, 11950930, 12043784, 12137291, 12231457, 12326284, 12421778,
   12517942, 12614781, 12712298, 12810498, 12909385, 13008964, 13109239, 13210214, 13311893, 13414281,
   13517382, 13621201, 13725742, 13831010, 13937009, 14043743, 14151218, 14259437, 14368405, 14478128,
   14588609, 14699853, 14811865, 14924650, 15038212, 15152556, 15267687, 15383610, 15500330, 15617850,
   15736178, 15855316, 15975271, 16096046, 16217648, 16340082, 16463351, 16587462, 16712419, 16838227,
   16964893, 17092420, 17220814, 17350081, 17480225, 17611252, 17743167, 17875976, 18009684, 18144296,
   18279818, 18416255, 18553613, 18691897, 18831113, 18971266, 19112362, 19254407, 19397406, 19541364,
   19686289, 19832185, 19979058, 20126914, 20275759, 20425598, 20576438, 20728285, 20881144, 21035022,
   21189924, 21345856, 21502826, 21660838, 21819898, 21980014, 22141191, 22303436, 22466754, 22631152,
   22796637, 22963214, 23130891, 23299673, 23469567, 23640580, 23812718, 23985987, 24160394, 24335947,
   24512650, 24690512, 24869539, 25049738, 25231115, 25413677, 25597431, 25782384, 25968544, 26155916,
   26344508, 26534327, 26725380, 26917674, 27111216, 27306014, 27502074, 27699405, 27898012, 28097904,
   28299088, 28501571, 28705360, 28910464, 29116889, 29324643, 29533734, 29744169, 29955956, 30169103,
   30383617, 30599506, 30816778, 31035441, 31255503, 31476971, 31699853, 31924158, 32149893, 32377067,
   32605687, 32835762, 33067300, 33300309, 33534798, 33770774, 34008247, 34247224, 34487713, 34729724,
   34973265, 35218344, 35464971, 35713152, 35962898, 36214217, 36467118, 36721609, 36977699, 37235398,
   37494714, 37755655, 38018232, 38282453, 38548327, 38815863, 39085071, 39355960, 39628538, 39902816,
   40178802, 40456507, 40735939, 41017107, 41300022, 41584694, 41871130, 42159342, 42449339, 42741131,
   43034727, 43330138, 43627373, 43926442, 44227355, 44530122, 44834754, 45141259, 45449650, 45759935,
   46072125, 46386230, 46702261, 47020229, 47340142, 47662013, 47985851, 48311667, 48639472, 48969277,
   49301091, 49634927, 49970794, 50308705, 50648669, 50990697, 51334801, 51680992, 52029281, 52379679,
   52732198, 53086848, 53443641, 53802588, 54163701, 54526992, 54892471, 55260151, 55630043, 56002159,
   56376510, 56753109, 57131967, 57513096, 57896508, 58282216, 58670231, 59060565, 59453231, 59848241,
   60245607, 60645341, 61047456, 61451965, 61858879, 62268212, 62679976, 63094184, 63510848, 63929982,
   64351598, 64775708, 65202327, 65631467, 66063141, 66497363, 66934145, 67373500, 67815443, 68259986,
   68707144, 69156928, 69609354, 70064433, 70522182, 70982612, 71445738, 71911573, 72380132, 72851428,
   73325476, 73802290, 74281883, 74764270, 75249466, 75737484, 76228339, 76722045, 77218618, 77718071,
   78220419, 78725677, 79233860, 79744982, 80259059, 80776106, 81296136, 81819167, 82345212, 82874287,
   83406407, 83941588, 84479844, 85021193, 85565648, 86113226, 86663943, 87217814, 87774854, 88335081,
   88898509, 89465155, 90035035, 90608165, 91184561, 91764240, 92347218, 92933512, 93523137, 94116111,
   94712449, 95312170, 95915289, 96521824, 97131791, 97745208, 98362091, 98982458, 99606325, 100233711,
   100864632, 101499105, 102137150, 102778782, 103424019, 104072880, 104725382, 105381543, 106041381, 106704913,
   107372159, 108043136, 108717862, 109396356, 110078635, 110764720, 111454627, 112148376, 112845985, 113547474,
   114252860, 114962163, 115675403, 116392597, 117113765, 117838926, 118568100, 119301307, 120038564, 120779893,
   121525312, 122274842, 123028501, 123786311, 124548291, 125314461, 126084840, 126859450, 127638311, 128421442,
   129208865, 130000599, 130796666, 131597086, 132401880, 133211069, 134024673, 134842714, 135665212, 136492190,
   137323667, 138159666, 139000209, 139845315, 140695008, 141549308, 142408238, 143271819, 144140074, 145013024,
   145890692, 146773099, 147660268, 148552222, 149448982, 150350572, 151257014, 152168331, 153084546, 154005681,
   154931760, 155862805, 156798841, 157739889, 158685974, 159637119, 160593348, 161554684, 162521150, 163492772,
   164469572, 165451575, 166438804, 167431285, 168429041, 169432096, 170440476, 171454205, 172473307, 173497807,
   174527730, 175563101, 176603946, 177650288, 178702154, 179759569, 180822558, 181891147, 182965362, 184045227,
   185130770, 186222015, 187318990, 188421719, 189530230, 190644549, 191764702, 192890715, 194022616, 195160430,
   196304186, 197453909, 198609627, 199771367, 200939156, 202113021, 203292991, 204479092, 205671352, 206869799,
   208074461, 209285366, 210502541, 211726016, 212955817, 214191975, 215434516, 216683471, 217938867, 219200733,
   220469098, 221743991, 223025442, 224313480, 225608133, 226909432, 228217406, 229532084, 230853497, 232181675,
   233516646, 234858443, 236207094, 237562630, 238925081, 240294479, 241670853, 243054235, 244444655, 245842145,
   247246735, 248658457, 250077343, 251503423, 252936729, 254377293, 255825148, 257280323, 258742853, 260212768,
   261690102, 263174886, 264667154, 266166937, 267674269, 269189182, 270711709, 272241884, 273779740, 275325309,
   276878626, 278439725, 280008638, 281585399, 283170044, 284762605, 286363117, 287971614, 289588130, 291212701,
   292845361, 294486144, 296135086, 297792221, 299457586, 301131214, 302813142, 304503405, 306202039, 307909080,
   309624563, 311348524, 313081001, 314822028, 316571644, 318329883, 320096783, 321872381, 323656713, 325449817,
   327251730, 329062489, 330882132, 332710696, 334548220, 336394740, 338250295, 340114924, 341988664, 343871553,
   345763631, 347664936, 349575507, 351495382, 353424602, 355363204, 357311229, 359268715, 361235704, 363212233,
   365198343, 367194075, 369199468, 371214562, 373239399, 375274018, 377318460, 379372767, 381436979, 383511137,
   385595283, 387689458, 389793704, 391908062, 394032574, 396167282, 398312229, 400467456, 402633006, 404808922,
   406995245, 409192020, 411399289, 413617096, 415845482, 418084493, 420334171, 422594561, 424865705, 427147649,
   429440436, 431744111, 434058718, 436384301, 438720906, 441068577, 443427359, 445797299, 448178440, 450570829,
   452974510
>>
Cold == -800
Hot == 650
Water(t) == WaterTab[t - Cold + 1]
Ice(t) == IceTab[t - Cold + 1]
=============================================================================
