------------------------------- MODULE ExpLn -------------------------------
(* Written by tools_expln.py; KernelMC checks the tables.                   *)
EXTENDS Integers
\* 100000 * exp(-k / 100), k = 0..1200
ExpTab == <<100000, 99005, 98020, 97045, 96079, 95123, 94176, 93239, 92312, 91393, 
  90484, 89583, 88692, 87810, 86936, 86071, 85214, 84366, 83527, 82696, 
  81873, 81058, 80252, 79453, 78663, 77880, 77105, 76338, 75578, 74826, 
  74082, 73345, 72615, 71892, 71177, 70469, 69768, 69073, 68386, 67706, 
  67032, 66365, 65705, 65051, 64404, 63763, 63128, 62500, 61878, 61263, 
  60653, 60050, 59452, 58860, 58275, 57695, 57121, 56553, 55990, 55433, 
  54881, 54335, 53794, 53259, 52729, 52205, 51685, 51171, 50662, 50158, 
  49659, 49164, 48675, 48191, 47711, 47237, 46767, 46301, 45841, 45384, 
  44933, 44486, 44043, 43605, 43171, 42741, 42316, 41895, 41478, 41066, 
  40657, 40252, 39852, 39455, 39063, 38674, 38289, 37908, 37531, 37158, 
  36788, 36422, 36059, 35701, 35345, 34994, 34646, 34301, 33960, 33622, 
  33287, 32956, 32628, 32303, 31982, 31664, 31349, 31037, 30728, 30422, 
  30119, 29820, 29523, 29229, 28938, 28650, 28365, 28083, 27804, 27527, 
  27253, 26982, 26714, 26448, 26185, 25924, 25666, 25411, 25158, 24908, 
  24660, 24414, 24171, 23931, 23693, 23457, 23224, 22993, 22764, 22537, 
  22313, 22091, 21871, 21654, 21438, 21225, 21014, 20805, 20598, 20393, 
  20190, 19989, 19790, 19593, 19398, 19205, 19014, 18825, 18637, 18452, 
  18268, 18087, 17907, 17728, 17552, 17377, 17204, 17033, 16864, 16696, 
  16530, 16365, 16203, 16041, 15882, 15724, 15567, 15412, 15259, 15107, 
  14957, 14808, 14661, 14515, 14370, 14227, 14086, 13946, 13807, 13670, 
  13534, 13399, 13266, 13134, 13003, 12873, 12745, 12619, 12493, 12369, 
  12246, 12124, 12003, 11884, 11765, 11648, 11533, 11418, 11304, 11192, 
  11080, 10970, 10861, 10753, 10646, 10540, 10435, 10331, 10228, 10127, 
  10026, 9926, 9827, 9730, 9633, 9537, 9442, 9348, 9255, 9163, 9072, 
  8982, 8892, 8804, 8716, 8629, 8543, 8458, 8374, 8291, 8208, 8127, 8046, 
  7966, 7887, 7808, 7730, 7654, 7577, 7502, 7427, 7353, 7280, 7208, 7136, 
  7065, 6995, 6925, 6856, 6788, 6721, 6654, 6587, 6522, 6457, 6393, 6329, 
  6266, 6204, 6142, 6081, 6020, 5961, 5901, 5843, 5784, 5727, 5670, 5613, 
  5558, 5502, 5448, 5393, 5340, 5287, 5234, 5182, 5130, 5079, 5029, 4979, 
  4929, 4880, 4832, 4783, 4736, 4689, 4642, 4596, 4550, 4505, 4460, 4416, 
  4372, 4328, 4285, 4243, 4200, 4159, 4117, 4076, 4036, 3996, 3956, 3916, 
  3877, 3839, 3801, 3763, 3725, 3688, 3652, 3615, 3579, 3544, 3508, 3474, 
  3439, 3405, 3371, 3337, 3304, 3271, 3239, 3206, 3175, 3143, 3112, 3081, 
  3050, 3020, 2990, 2960, 2930, 2901, 2872, 2844, 2816, 2788, 2760, 2732, 
  2705, 2678, 2652, 2625, 2599, 2573, 2548, 2522, 2497, 2472, 2448, 2423, 
  2399, 2375, 2352, 2328, 2305, 2282, 2260, 2237, 2215, 2193, 2171, 2149, 
  2128, 2107, 2086, 2065, 2045, 2024, 2004, 1984, 1964, 1945, 1925, 1906, 
  1887, 1869, 1850, 1832, 1813, 1795, 1777, 1760, 1742, 1725, 1708, 1691, 
  1674, 1657, 1641, 1624, 1608, 1592, 1576, 1561, 1545, 1530, 1515, 1500, 
  1485, 1470, 1455, 1441, 1426, 1412, 1398, 1384, 1370, 1357, 1343, 1330, 
  1317, 1304, 1291, 1278, 1265, 1253, 1240, 1228, 1216, 1203, 1191, 1180, 
  1168, 1156, 1145, 1133, 1122, 1111, 1100, 1089, 1078, 1067, 1057, 1046, 
  1036, 1025, 1015, 1005, 995, 985, 975, 966, 956, 947, 937, 928, 919, 
  910, 900, 892, 883, 874, 865, 857, 848, 840, 831, 823, 815, 807, 799, 
  791, 783, 775, 767, 760, 752, 745, 737, 730, 723, 715, 708, 701, 694, 
  687, 681, 674, 667, 660, 654, 647, 641, 635, 628, 622, 616, 610, 604, 
  598, 592, 586, 580, 574, 568, 563, 557, 552, 546, 541, 535, 530, 525, 
  520, 514, 509, 504, 499, 494, 489, 484, 480, 475, 470, 465, 461, 456, 
  452, 447, 443, 438, 434, 430, 425, 421, 417, 413, 409, 405, 401, 397, 
  393, 389, 385, 381, 377, 374, 370, 366, 362, 359, 355, 352, 348, 345, 
  341, 338, 335, 331, 328, 325, 321, 318, 315, 312, 309, 306, 303, 300, 
  297, 294, 291, 288, 285, 282, 279, 277, 274, 271, 269, 266, 263, 261, 
  258, 255, 253, 250, 248, 245, 243, 241, 238, 236, 233, 231, 229, 227, 
  224, 222, 220, 218, 215, 213, 211, 209, 207, 205, 203, 201, 199, 197, 
  195, 193, 191, 189, 187, 185, 184, 182, 180, 178, 176, 175, 173, 171, 
  170, 168, 166, 165, 163, 161, 160, 158, 156, 155, 153, 152, 150, 149, 
  147, 146, 144, 143, 142, 140, 139, 137, 136, 135, 133, 132, 131, 129, 
  128, 127, 126, 124, 123, 122, 121, 119, 118, 117, 116, 115, 114, 112, 
  111, 110, 109, 108, 107, 106, 105, 104, 103, 102, 101, 100, 99, 98, 97, 
  96, 95, 94, 93, 92, 91, 90, 89, 88, 88, 87, 86, 85, 84, 83, 83, 82, 81, 
  80, 79, 78, 78, 77, 76, 75, 75, 74, 73, 72, 72, 71, 70, 70, 69, 68, 68, 
  67, 66, 66, 65, 64, 64, 63, 62, 62, 61, 61, 60, 59, 59, 58, 58, 57, 56, 
  56, 55, 55, 54, 54, 53, 53, 52, 52, 51, 51, 50, 50, 49, 49, 48, 48, 47, 
  47, 46, 46, 45, 45, 44, 44, 44, 43, 43, 42, 42, 41, 41, 41, 40, 40, 39, 
  39, 39, 38, 38, 37, 37, 37, 36, 36, 36, 35, 35, 35, 34, 34, 34, 33, 33, 
  33, 32, 32, 32, 31, 31, 31, 30, 30, 30, 29, 29, 29, 29, 28, 28, 28, 27, 
  27, 27, 27, 26, 26, 26, 26, 25, 25, 25, 25, 24, 24, 24, 24, 23, 23, 23, 
  23, 22, 22, 22, 22, 22, 21, 21, 21, 21, 21, 20, 20, 20, 20, 20, 19, 19, 
  19, 19, 19, 18, 18, 18, 18, 18, 18, 17, 17, 17, 17, 17, 16, 16, 16, 16, 
  16, 16, 16, 15, 15, 15, 15, 15, 15, 14, 14, 14, 14, 14, 14, 14, 14, 13, 
  13, 13, 13, 13, 13, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 11, 11, 11, 
  11, 11, 11, 11, 11, 11, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 9, 9, 
  9, 9, 9, 9, 9, 9, 9, 9, 9, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 7, 7, 7, 
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 
  6, 6, 6, 6, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 
  4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 
  4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 
  3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 
  1, 1, 1, 1, 1, 1, 1, 1, 1>>
\* 10000 * ln(n), n = 1..2000
LnTab == <<0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 
  24849, 25649, 26391, 27081, 27726, 28332, 28904, 29444, 29957, 30445, 
  30910, 31355, 31781, 32189, 32581, 32958, 33322, 33673, 34012, 34340, 
  34657, 34965, 35264, 35553, 35835, 36109, 36376, 36636, 36889, 37136, 
  37377, 37612, 37842, 38067, 38286, 38501, 38712, 38918, 39120, 39318, 
  39512, 39703, 39890, 40073, 40254, 40431, 40604, 40775, 40943, 41109, 
  41271, 41431, 41589, 41744, 41897, 42047, 42195, 42341, 42485, 42627, 
  42767, 42905, 43041, 43175, 43307, 43438, 43567, 43694, 43820, 43944, 
  44067, 44188, 44308, 44427, 44543, 44659, 44773, 44886, 44998, 45109, 
  45218, 45326, 45433, 45539, 45643, 45747, 45850, 45951, 46052, 46151, 
  46250, 46347, 46444, 46540, 46634, 46728, 46821, 46913, 47005, 47095, 
  47185, 47274, 47362, 47449, 47536, 47622, 47707, 47791, 47875, 47958, 
  48040, 48122, 48203, 48283, 48363, 48442, 48520, 48598, 48675, 48752, 
  48828, 48903, 48978, 49053, 49127, 49200, 49273, 49345, 49416, 49488, 
  49558, 49628, 49698, 49767, 49836, 49904, 49972, 50039, 50106, 50173, 
  50239, 50304, 50370, 50434, 50499, 50562, 50626, 50689, 50752, 50814, 
  50876, 50938, 50999, 51059, 51120, 51180, 51240, 51299, 51358, 51417, 
  51475, 51533, 51591, 51648, 51705, 51761, 51818, 51874, 51930, 51985, 
  52040, 52095, 52149, 52204, 52257, 52311, 52364, 52417, 52470, 52523, 
  52575, 52627, 52679, 52730, 52781, 52832, 52883, 52933, 52983, 53033, 
  53083, 53132, 53181, 53230, 53279, 53327, 53375, 53423, 53471, 53519, 
  53566, 53613, 53660, 53706, 53753, 53799, 53845, 53891, 53936, 53982, 
  54027, 54072, 54116, 54161, 54205, 54250, 54293, 54337, 54381, 54424, 
  54467, 54510, 54553, 54596, 54638, 54681, 54723, 54765, 54806, 54848, 
  54889, 54931, 54972, 55013, 55053, 55094, 55134, 55175, 55215, 55255, 
  55294, 55334, 55373, 55413, 55452, 55491, 55530, 55568, 55607, 55645, 
  55683, 55722, 55759, 55797, 55835, 55872, 55910, 55947, 55984, 56021, 
  56058, 56095, 56131, 56168, 56204, 56240, 56276, 56312, 56348, 56384, 
  56419, 56454, 56490, 56525, 56560, 56595, 56630, 56664, 56699, 56733, 
  56768, 56802, 56836, 56870, 56904, 56937, 56971, 57004, 57038, 57071, 
  57104, 57137, 57170, 57203, 57236, 57268, 57301, 57333, 57366, 57398, 
  57430, 57462, 57494, 57526, 57557, 57589, 57621, 57652, 57683, 57714, 
  57746, 57777, 57807, 57838, 57869, 57900, 57930, 57961, 57991, 58021, 
  58051, 58081, 58111, 58141, 58171, 58201, 58230, 58260, 58289, 58319, 
  58348, 58377, 58406, 58435, 58464, 58493, 58522, 58551, 58579, 58608, 
  58636, 58665, 58693, 58721, 58749, 58777, 58805, 58833, 58861, 58889, 
  58916, 58944, 58972, 58999, 59026, 59054, 59081, 59108, 59135, 59162, 
  59189, 59216, 59243, 59269, 59296, 59322, 59349, 59375, 59402, 59428, 
  59454, 59480, 59506, 59532, 59558, 59584, 59610, 59636, 59661, 59687, 
  59713, 59738, 59764, 59789, 59814, 59839, 59865, 59890, 59915, 59940, 
  59965, 59989, 60014, 60039, 60064, 60088, 60113, 60137, 60162, 60186, 
  60210, 60234, 60259, 60283, 60307, 60331, 60355, 60379, 60403, 60426, 
  60450, 60474, 60497, 60521, 60544, 60568, 60591, 60615, 60638, 60661, 
  60684, 60707, 60730, 60753, 60776, 60799, 60822, 60845, 60868, 60890, 
  60913, 60936, 60958, 60981, 61003, 61026, 61048, 61070, 61092, 61115, 
  61137, 61159, 61181, 61203, 61225, 61247, 61269, 61291, 61312, 61334, 
  61356, 61377, 61399, 61420, 61442, 61463, 61485, 61506, 61527, 61549, 
  61570, 61591, 61612, 61633, 61654, 61675, 61696, 61717, 61738, 61759, 
  61779, 61800, 61821, 61841, 61862, 61883, 61903, 61924, 61944, 61964, 
  61985, 62005, 62025, 62046, 62066, 62086, 62106, 62126, 62146, 62166, 
  62186, 62206, 62226, 62246, 62265, 62285, 62305, 62324, 62344, 62364, 
  62383, 62403, 62422, 62442, 62461, 62480, 62500, 62519, 62538, 62558, 
  62577, 62596, 62615, 62634, 62653, 62672, 62691, 62710, 62729, 62748, 
  62766, 62785, 62804, 62823, 62841, 62860, 62879, 62897, 62916, 62934, 
  62953, 62971, 62989, 63008, 63026, 63044, 63063, 63081, 63099, 63117, 
  63135, 63154, 63172, 63190, 63208, 63226, 63244, 63261, 63279, 63297, 
  63315, 63333, 63351, 63368, 63386, 63404, 63421, 63439, 63456, 63474, 
  63491, 63509, 63526, 63544, 63561, 63578, 63596, 63613, 63630, 63648, 
  63665, 63682, 63699, 63716, 63733, 63750, 63767, 63784, 63801, 63818, 
  63835, 63852, 63869, 63886, 63902, 63919, 63936, 63953, 63969, 63986, 
  64003, 64019, 64036, 64052, 64069, 64085, 64102, 64118, 64135, 64151, 
  64167, 64184, 64200, 64216, 64232, 64249, 64265, 64281, 64297, 64313, 
  64329, 64345, 64362, 64378, 64394, 64409, 64425, 64441, 64457, 64473, 
  64489, 64505, 64520, 64536, 64552, 64568, 64583, 64599, 64615, 64630, 
  64646, 64661, 64677, 64693, 64708, 64723, 64739, 64754, 64770, 64785, 
  64800, 64816, 64831, 64846, 64862, 64877, 64892, 64907, 64922, 64938, 
  64953, 64968, 64983, 64998, 65013, 65028, 65043, 65058, 65073, 65088, 
  65103, 65117, 65132, 65147, 65162, 65177, 65191, 65206, 65221, 65236, 
  65250, 65265, 65280, 65294, 65309, 65323, 65338, 65352, 65367, 65381, 
  65396, 65410, 65425, 65439, 65453, 65468, 65482, 65497, 65511, 65525, 
  65539, 65554, 65568, 65582, 65596, 65610, 65624, 65639, 65653, 65667, 
  65681, 65695, 65709, 65723, 65737, 65751, 65765, 65779, 65793, 65806, 
  65820, 65834, 65848, 65862, 65876, 65889, 65903, 65917, 65930, 65944, 
  65958, 65971, 65985, 65999, 66012, 66026, 66039, 66053, 66067, 66080, 
  66093, 66107, 66120, 66134, 66147, 66161, 66174, 66187, 66201, 66214, 
  66227, 66241, 66254, 66267, 66280, 66294, 66307, 66320, 66333, 66346, 
  66359, 66373, 66386, 66399, 66412, 66425, 66438, 66451, 66464, 66477, 
  66490, 66503, 66516, 66529, 66542, 66554, 66567, 66580, 66593, 66606, 
  66619, 66631, 66644, 66657, 66670, 66682, 66695, 66708, 66720, 66733, 
  66746, 66758, 66771, 66783, 66796, 66809, 66821, 66834, 66846, 66859, 
  66871, 66884, 66896, 66908, 66921, 66933, 66946, 66958, 66970, 66983, 
  66995, 67007, 67020, 67032, 67044, 67056, 67069, 67081, 67093, 67105, 
  67117, 67130, 67142, 67154, 67166, 67178, 67190, 67202, 67214, 67226, 
  67238, 67250, 67262, 67274, 67286, 67298, 67310, 67322, 67334, 67346, 
  67358, 67370, 67382, 67393, 67405, 67417, 67429, 67441, 67452, 67464, 
  67476, 67488, 67499, 67511, 67523, 67534, 67546, 67558, 67569, 67581, 
  67593, 67604, 67616, 67627, 67639, 67650, 67662, 67673, 67685, 67696, 
  67708, 67719, 67731, 67742, 67754, 67765, 67776, 67788, 67799, 67811, 
  67822, 67833, 67845, 67856, 67867, 67878, 67890, 67901, 67912, 67923, 
  67935, 67946, 67957, 67968, 67979, 67991, 68002, 68013, 68024, 68035, 
  68046, 68057, 68068, 68079, 68090, 68101, 68112, 68123, 68134, 68145, 
  68156, 68167, 68178, 68189, 68200, 68211, 68222, 68233, 68244, 68255, 
  68265, 68276, 68287, 68298, 68309, 68320, 68330, 68341, 68352, 68363, 
  68373, 68384, 68395, 68405, 68416, 68427, 68437, 68448, 68459, 68469, 
  68480, 68491, 68501, 68512, 68522, 68533, 68544, 68554, 68565, 68575, 
  68586, 68596, 68607, 68617, 68628, 68638, 68648, 68659, 68669, 68680, 
  68690, 68701, 68711, 68721, 68732, 68742, 68752, 68763, 68773, 68783, 
  68794, 68804, 68814, 68824, 68835, 68845, 68855, 68865, 68876, 68886, 
  68896, 68906, 68916, 68926, 68937, 68947, 68957, 68967, 68977, 68987, 
  68997, 69007, 69017, 69027, 69037, 69048, 69058, 69068, 69078, 69088, 
  69098, 69108, 69117, 69127, 69137, 69147, 69157, 69167, 69177, 69187, 
  69197, 69207, 69217, 69226, 69236, 69246, 69256, 69266, 69276, 69285, 
  69295, 69305, 69315, 69324, 69334, 69344, 69354, 69363, 69373, 69383, 
  69393, 69402, 69412, 69422, 69431, 69441, 69451, 69460, 69470, 69479, 
  69489, 69499, 69508, 69518, 69527, 69537, 69546, 69556, 69565, 69575, 
  69584, 69594, 69603, 69613, 69622, 69632, 69641, 69651, 69660, 69670, 
  69679, 69689, 69698, 69707, 69717, 69726, 69735, 69745, 69754, 69763, 
  69773, 69782, 69791, 69801, 69810, 69819, 69829, 69838, 69847, 69856, 
  69866, 69875, 69884, 69893, 69903, 69912, 69921, 69930, 69939, 69948, 
  69958, 69967, 69976, 69985, 69994, 70003, 70012, 70022, 70031, 70040, 
  70049, 70058, 70067, 70076, 70085, 70094, 70103, 70112, 70121, 70130, 
  70139, 70148, 70157, 70166, 70175, 70184, 70193, 70202, 70211, 70220, 
  70229, 70238, 70246, 70255, 70264, 70273, 70282, 70291, 70300, 70309, 
  70317, 70326, 70335, 70344, 70353, 70361, 70370, 70379, 70388, 70397, 
  70405, 70414, 70423, 70432, 70440, 70449, 70458, 70466, 70475, 70484, 
  70493, 70501, 70510, 70519, 70527, 70536, 70544, 70553, 70562, 70570, 
  70579, 70588, 70596, 70605, 70613, 70622, 70630, 70639, 70648, 70656, 
  70665, 70673, 70682, 70690, 70699, 70707, 70716, 70724, 70733, 70741, 
  70750, 70758, 70767, 70775, 70783, 70792, 70800, 70809, 70817, 70825, 
  70834, 70842, 70851, 70859, 70867, 70876, 70884, 70892, 70901, 70909, 
  70917, 70926, 70934, 70942, 70951, 70959, 70967, 70975, 70984, 70992, 
  71000, 71009, 71017, 71025, 71033, 71041, 71050, 71058, 71066, 71074, 
  71082, 71091, 71099, 71107, 71115, 71123, 71131, 71140, 71148, 71156, 
  71164, 71172, 71180, 71188, 71196, 71204, 71213, 71221, 71229, 71237, 
  71245, 71253, 71261, 71269, 71277, 71285, 71293, 71301, 71309, 71317, 
  71325, 71333, 71341, 71349, 71357, 71365, 71373, 71381, 71389, 71397, 
  71405, 71412, 71420, 71428, 71436, 71444, 71452, 71460, 71468, 71476, 
  71483, 71491, 71499, 71507, 71515, 71523, 71531, 71538, 71546, 71554, 
  71562, 71570, 71577, 71585, 71593, 71601, 71608, 71616, 71624, 71632, 
  71639, 71647, 71655, 71663, 71670, 71678, 71686, 71694, 71701, 71709, 
  71717, 71724, 71732, 71740, 71747, 71755, 71763, 71770, 71778, 71785, 
  71793, 71801, 71808, 71816, 71824, 71831, 71839, 71846, 71854, 71861, 
  71869, 71877, 71884, 71892, 71899, 71907, 71914, 71922, 71929, 71937, 
  71944, 71952, 71959, 71967, 71974, 71982, 71989, 71997, 72004, 72012, 
  72019, 72027, 72034, 72041, 72049, 72056, 72064, 72071, 72079, 72086, 
  72093, 72101, 72108, 72116, 72123, 72130, 72138, 72145, 72152, 72160, 
  72167, 72174, 72182, 72189, 72196, 72204, 72211, 72218, 72226, 72233, 
  72240, 72248, 72255, 72262, 72269, 72277, 72284, 72291, 72298, 72306, 
  72313, 72320, 72327, 72335, 72342, 72349, 72356, 72363, 72371, 72378, 
  72385, 72392, 72399, 72406, 72414, 72421, 72428, 72435, 72442, 72449, 
  72457, 72464, 72471, 72478, 72485, 72492, 72499, 72506, 72513, 72521, 
  72528, 72535, 72542, 72549, 72556, 72563, 72570, 72577, 72584, 72591, 
  72598, 72605, 72612, 72619, 72626, 72633, 72640, 72647, 72654, 72661, 
  72668, 72675, 72682, 72689, 72696, 72703, 72710, 72717, 72724, 72731, 
  72738, 72745, 72752, 72759, 72766, 72772, 72779, 72786, 72793, 72800, 
  72807, 72814, 72821, 72828, 72834, 72841, 72848, 72855, 72862, 72869, 
  72876, 72882, 72889, 72896, 72903, 72910, 72917, 72923, 72930, 72937, 
  72944, 72951, 72957, 72964, 72971, 72978, 72984, 72991, 72998, 73005, 
  73011, 73018, 73025, 73032, 73038, 73045, 73052, 73059, 73065, 73072, 
  73079, 73085, 73092, 73099, 73106, 73112, 73119, 73126, 73132, 73139, 
  73146, 73152, 73159, 73165, 73172, 73179, 73185, 73192, 73199, 73205, 
  73212, 73218, 73225, 73232, 73238, 73245, 73251, 73258, 73265, 73271, 
  73278, 73284, 73291, 73297, 73304, 73311, 73317, 73324, 73330, 73337, 
  73343, 73350, 73356, 73363, 73369, 73376, 73382, 73389, 73395, 73402, 
  73408, 73415, 73421, 73428, 73434, 73441, 73447, 73454, 73460, 73467, 
  73473, 73479, 73486, 73492, 73499, 73505, 73512, 73518, 73524, 73531, 
  73537, 73544, 73550, 73556, 73563, 73569, 73576, 73582, 73588, 73595, 
  73601, 73607, 73614, 73620, 73626, 73633, 73639, 73645, 73652, 73658, 
  73664, 73671, 73677, 73683, 73690, 73696, 73702, 73709, 73715, 73721, 
  73727, 73734, 73740, 73746, 73753, 73759, 73765, 73771, 73778, 73784, 
  73790, 73796, 73803, 73809, 73815, 73821, 73827, 73834, 73840, 73846, 
  73852, 73859, 73865, 73871, 73877, 73883, 73889, 73896, 73902, 73908, 
  73914, 73920, 73926, 73933, 73939, 73945, 73951, 73957, 73963, 73969, 
  73976, 73982, 73988, 73994, 74000, 74006, 74012, 74018, 74025, 74031, 
  74037, 74043, 74049, 74055, 74061, 74067, 74073, 74079, 74085, 74091, 
  74097, 74103, 74110, 74116, 74122, 74128, 74134, 74140, 74146, 74152, 
  74158, 74164, 74170, 74176, 74182, 74188, 74194, 74200, 74206, 74212, 
  74218, 74224, 74230, 74236, 74242, 74248, 74254, 74260, 74265, 74271, 
  74277, 74283, 74289, 74295, 74301, 74307, 74313, 74319, 74325, 74331, 
  74337, 74343, 74348, 74354, 74360, 74366, 74372, 74378, 74384, 74390, 
  74396, 74401, 74407, 74413, 74419, 74425, 74431, 74437, 74442, 74448, 
  74454, 74460, 74466, 74472, 74478, 74483, 74489, 74495, 74501, 74507, 
  74512, 74518, 74524, 74530, 74536, 74541, 74547, 74553, 74559, 74565, 
  74570, 74576, 74582, 74588, 74593, 74599, 74605, 74611, 74616, 74622, 
  74628, 74634, 74639, 74645, 74651, 74657, 74662, 74668, 74674, 74679, 
  74685, 74691, 74697, 74702, 74708, 74714, 74719, 74725, 74731, 74736, 
  74742, 74748, 74753, 74759, 74765, 74770, 74776, 74782, 74787, 74793, 
  74799, 74804, 74810, 74816, 74821, 74827, 74832, 74838, 74844, 74849, 
  74855, 74861, 74866, 74872, 74877, 74883, 74889, 74894, 74900, 74905, 
  74911, 74916, 74922, 74928, 74933, 74939, 74944, 74950, 74955, 74961, 
  74967, 74972, 74978, 74983, 74989, 74994, 75000, 75005, 75011, 75016, 
  75022, 75027, 75033, 75038, 75044, 75049, 75055, 75060, 75066, 75071, 
  75077, 75082, 75088, 75093, 75099, 75104, 75110, 75115, 75121, 75126, 
  75132, 75137, 75143, 75148, 75153, 75159, 75164, 75170, 75175, 75181, 
  75186, 75191, 75197, 75202, 75208, 75213, 75219, 75224, 75229, 75235, 
  75240, 75246, 75251, 75256, 75262, 75267, 75273, 75278, 75283, 75289, 
  75294, 75299, 75305, 75310, 75316, 75321, 75326, 75332, 75337, 75342, 
  75348, 75353, 75358, 75364, 75369, 75374, 75380, 75385, 75390, 75396, 
  75401, 75406, 75412, 75417, 75422, 75427, 75433, 75438, 75443, 75449, 
  75454, 75459, 75464, 75470, 75475, 75480, 75486, 75491, 75496, 75501, 
  75507, 75512, 75517, 75522, 75528, 75533, 75538, 75543, 75549, 75554, 
  75559, 75564, 75570, 75575, 75580, 75585, 75590, 75596, 75601, 75606, 
  75611, 75616, 75622, 75627, 75632, 75637, 75642, 75648, 75653, 75658, 
  75663, 75668, 75673, 75679, 75684, 75689, 75694, 75699, 75704, 75710, 
  75715, 75720, 75725, 75730, 75735, 75740, 75746, 75751, 75756, 75761, 
  75766, 75771, 75776, 75781, 75787, 75792, 75797, 75802, 75807, 75812, 
  75817, 75822, 75827, 75832, 75838, 75843, 75848, 75853, 75858, 75863, 
  75868, 75873, 75878, 75883, 75888, 75893, 75898, 75903, 75909, 75914, 
  75919, 75924, 75929, 75934, 75939, 75944, 75949, 75954, 75959, 75964, 
  75969, 75974, 75979, 75984, 75989, 75994, 75999, 76004, 76009>>
\* 100000 * exp(-x / 10000)
ExpNeg(x) == LET i == x \div 100 IN
  IF i > 1200 THEN 0
  ELSE ExpTab[i + 1] - ((ExpTab[i + 1] - ExpTab[i + 2]) * (x % 100)) \div 100
Ln(n) == LnTab[n]
=============================================================================
