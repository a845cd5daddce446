-------------------------------- MODULE Trig --------------------------------
(* Angles are counted in quarters of a degree.  Written by tools_trig.py;    *)
(* TrigMC checks the tables against the identities which define them.       *)
EXTENDS Integers
\* 30000 * sin, from 0 to 90 degrees
SinTab == <<0, 131, 262, 393, 524, 654, 785, 916, 1047, 1178, 1309, 1439, 1570, 
  1701, 1831, 1962, 2093, 2223, 2354, 2484, 2615, 2745, 2875, 3006, 3136, 
  3266, 3396, 3526, 3656, 3786, 3916, 4046, 4175, 4305, 4434, 4564, 4693, 
  4822, 4951, 5080, 5209, 5338, 5467, 5596, 5724, 5853, 5981, 6109, 6237, 
  6365, 6493, 6621, 6749, 6876, 7003, 7131, 7258, 7385, 7511, 7638, 7765, 
  7891, 8017, 8143, 8269, 8395, 8520, 8646, 8771, 8896, 9021, 9146, 9271, 
  9395, 9519, 9643, 9767, 9891, 10014, 10138, 10261, 10384, 10506, 10629, 
  10751, 10873, 10995, 11117, 11238, 11359, 11481, 11601, 11722, 11842, 
  11962, 12082, 12202, 12322, 12441, 12560, 12679, 12797, 12915, 13033, 
  13151, 13269, 13386, 13503, 13620, 13736, 13852, 13968, 14084, 14200, 
  14315, 14430, 14544, 14659, 14773, 14886, 15000, 15113, 15226, 15339, 
  15451, 15563, 15675, 15786, 15898, 16008, 16119, 16229, 16339, 16449, 
  16558, 16667, 16776, 16884, 16992, 17100, 17207, 17314, 17421, 17527, 
  17634, 17739, 17845, 17950, 18054, 18159, 18263, 18367, 18470, 18573, 
  18675, 18778, 18880, 18981, 19082, 19183, 19284, 19384, 19483, 19583, 
  19682, 19780, 19879, 19976, 20074, 20171, 20268, 20364, 20460, 20555, 
  20651, 20745, 20840, 20934, 21027, 21120, 21213, 21306, 21398, 21489, 
  21580, 21671, 21761, 21851, 21941, 22030, 22118, 22207, 22294, 22382, 
  22469, 22555, 22641, 22727, 22812, 22897, 22981, 23065, 23149, 23232, 
  23314, 23397, 23478, 23560, 23640, 23721, 23801, 23880, 23959, 24038, 
  24116, 24193, 24271, 24347, 24423, 24499, 24575, 24649, 24724, 24798, 
  24871, 24944, 25017, 25089, 25160, 25231, 25302, 25372, 25441, 25511, 
  25579, 25647, 25715, 25782, 25849, 25915, 25981, 26046, 26111, 26175, 
  26239, 26302, 26365, 26427, 26488, 26550, 26610, 26671, 26730, 26789, 
  26848, 26906, 26964, 27021, 27078, 27134, 27189, 27244, 27299, 27353, 
  27406, 27459, 27512, 27564, 27615, 27666, 27716, 27766, 27816, 27864, 
  27913, 27960, 28007, 28054, 28100, 28146, 28191, 28235, 28279, 28323, 
  28366, 28408, 28450, 28491, 28532, 28572, 28612, 28651, 28689, 28727, 
  28765, 28801, 28838, 28874, 28909, 28944, 28978, 29011, 29044, 29077, 
  29109, 29140, 29171, 29201, 29231, 29260, 29289, 29317, 29344, 29371, 
  29398, 29424, 29449, 29474, 29498, 29521, 29544, 29567, 29589, 29610, 
  29631, 29651, 29670, 29690, 29708, 29726, 29743, 29760, 29776, 29792, 
  29807, 29822, 29836, 29849, 29862, 29874, 29886, 29897, 29908, 29918, 
  29927, 29936, 29944, 29952, 29959, 29965, 29971, 29977, 29982, 29986, 
  29990, 29993, 29995, 29997, 29999, 30000, 30000>>
\* 10^8 * sin^2 of half the angle, from 0 to 180 degrees
HavTab == <<0, 476, 1904, 4284, 7615, 11899, 17134, 23320, 30459, 38548, 47589, 
  57581, 68523, 80416, 93260, 107054, 121797, 137491, 154133, 171725, 
  190265, 209754, 230190, 251574, 273905, 297183, 321407, 346577, 372692, 
  399753, 427757, 456705, 486597, 517431, 549207, 581924, 615583, 650182, 
  685720, 722197, 759612, 797965, 837255, 877480, 918641, 960736, 
  1003765, 1047726, 1092620, 1138445, 1185200, 1232884, 1281497, 1331037, 
  1381504, 1432897, 1485214, 1538455, 1592618, 1647703, 1703709, 1760634, 
  1818477, 1877238, 1936915, 1997507, 2059013, 2121432, 2184762, 2249003, 
  2314152, 2380210, 2447174, 2515044, 2583817, 2653494, 2724071, 2795549, 
  2867925, 2941199, 3015369, 3090433, 3166391, 3243240, 3320979, 3399607, 
  3479122, 3559522, 3640807, 3722975, 3806023, 3889951, 3974757, 4060439, 
  4146996, 4234426, 4322727, 4411898, 4501936, 4592841, 4684611, 4777243, 
  4870736, 4965088, 5060298, 5156363, 5253282, 5351053, 5449674, 5549143, 
  5649458, 5750618, 5852620, 5955463, 6059144, 6163662, 6269015, 6375200, 
  6482215, 6590059, 6698730, 6808225, 6918542, 7029679, 7141635, 7254406, 
  7367992, 7482389, 7597595, 7713609, 7830428, 7948049, 8066472, 8185692, 
  8305709, 8426519, 8548121, 8670513, 8793691, 8917653, 9042398, 9167922, 
  9294224, 9421301, 9549150, 9677770, 9807157, 9937309, 10068224, 
  10199900, 10332333, 10465521, 10599462, 10734153, 10869592, 11005776, 
  11142702, 11280368, 11418771, 11557908, 11697778, 11838377, 11979702, 
  12121751, 12264521, 12408010, 12552214, 12697131, 12842759, 12989094, 
  13136133, 13283875, 13432315, 13581452, 13731281, 13881802, 14033010, 
  14184903, 14337478, 14490731, 14644661, 14799264, 14954537, 15110477, 
  15267081, 15424347, 15582271, 15740850, 15900082, 16059963, 16220490, 
  16381660, 16543470, 16705917, 16868998, 17032709, 17197049, 17362012, 
  17527598, 17693801, 17860620, 18028050, 18196089, 18364734, 18533980, 
  18703826, 18874268, 19045303, 19216926, 19389136, 19561929, 19735301, 
  19909249, 20083770, 20258861, 20434518, 20610737, 20787517, 20964852, 
  21142740, 21321178, 21500162, 21679688, 21859754, 22040355, 22221488, 
  22403151, 22585339, 22768048, 22951276, 23135020, 23319274, 23504037, 
  23689304, 23875072, 24061337, 24248096, 24435346, 24623082, 24811301, 
  25000000, 25189175, 25378822, 25568938, 25759519, 25950562, 26142062, 
  26334017, 26526422, 26719274, 26912569, 27106304, 27300475, 27495078, 
  27690109, 27885565, 28081443, 28277737, 28474445, 28671563, 28869087, 
  29067013, 29265338, 29464057, 29663168, 29862666, 30062547, 30262807, 
  30463444, 30664452, 30865828, 31067569, 31269670, 31472128, 31674939, 
  31878098, 32081603, 32285448, 32489631, 32694147, 32898993, 33104164, 
  33309657, 33515468, 33721592, 33928027, 34134767, 34341810, 34549150, 
  34756785, 34964710, 35172921, 35381415, 35590187, 35799233, 36008549, 
  36218132, 36427978, 36638081, 36848439, 37059048, 37269903, 37481000, 
  37692335, 37903905, 38115705, 38327732, 38539980, 38752447, 38965128, 
  39178019, 39391116, 39604415, 39817912, 40031603, 40245484, 40459550, 
  40673798, 40888224, 41102823, 41317591, 41532525, 41747620, 41962872, 
  42178277, 42393831, 42609529, 42825369, 43041345, 43257453, 43473690, 
  43690052, 43906533, 44123130, 44339839, 44556656, 44773577, 44990597, 
  45207712, 45424919, 45642213, 45859590, 46077045, 46294575, 46512176, 
  46729844, 46947573, 47165361, 47383202, 47601094, 47819031, 48037009, 
  48255025, 48473074, 48691153, 48909256, 49127380, 49345520, 49563673, 
  49781835, 50000000, 50218165, 50436327, 50654480, 50872620, 51090744, 
  51308847, 51526926, 51744975, 51962991, 52180969, 52398906, 52616798, 
  52834639, 53052427, 53270156, 53487824, 53705425, 53922955, 54140410, 
  54357787, 54575081, 54792288, 55009403, 55226423, 55443344, 55660161, 
  55876870, 56093467, 56309948, 56526310, 56742547, 56958655, 57174631, 
  57390471, 57606169, 57821723, 58037128, 58252380, 58467475, 58682409, 
  58897177, 59111776, 59326202, 59540450, 59754516, 59968397, 60182088, 
  60395585, 60608884, 60821981, 61034872, 61247553, 61460020, 61672268, 
  61884295, 62096095, 62307665, 62519000, 62730097, 62940952, 63151561, 
  63361919, 63572022, 63781868, 63991451, 64200767, 64409813, 64618585, 
  64827079, 65035290, 65243215, 65450850, 65658190, 65865233, 66071973, 
  66278408, 66484532, 66690343, 66895836, 67101007, 67305853, 67510369, 
  67714552, 67918397, 68121902, 68325061, 68527872, 68730330, 68932431, 
  69134172, 69335548, 69536556, 69737193, 69937453, 70137334, 70336832, 
  70535943, 70734662, 70932987, 71130913, 71328437, 71525555, 71722263, 
  71918557, 72114435, 72309891, 72504922, 72699525, 72893696, 73087431, 
  73280726, 73473578, 73665983, 73857938, 74049438, 74240481, 74431062, 
  74621178, 74810825, 75000000, 75188699, 75376918, 75564654, 75751904, 
  75938663, 76124928, 76310696, 76495963, 76680726, 76864980, 77048724, 
  77231952, 77414661, 77596849, 77778512, 77959645, 78140246, 78320312, 
  78499838, 78678822, 78857260, 79035148, 79212483, 79389263, 79565482, 
  79741139, 79916230, 80090751, 80264699, 80438071, 80610864, 80783074, 
  80954697, 81125732, 81296174, 81466020, 81635266, 81803911, 81971950, 
  82139380, 82306199, 82472402, 82637988, 82802951, 82967291, 83131002, 
  83294083, 83456530, 83618340, 83779510, 83940037, 84099918, 84259150, 
  84417729, 84575653, 84732919, 84889523, 85045463, 85200736, 85355339, 
  85509269, 85662522, 85815097, 85966990, 86118198, 86268719, 86418548, 
  86567685, 86716125, 86863867, 87010906, 87157241, 87302869, 87447786, 
  87591990, 87735479, 87878249, 88020298, 88161623, 88302222, 88442092, 
  88581229, 88719632, 88857298, 88994224, 89130408, 89265847, 89400538, 
  89534479, 89667667, 89800100, 89931776, 90062691, 90192843, 90322230, 
  90450850, 90578699, 90705776, 90832078, 90957602, 91082347, 91206309, 
  91329487, 91451879, 91573481, 91694291, 91814308, 91933528, 92051951, 
  92169572, 92286391, 92402405, 92517611, 92632008, 92745594, 92858365, 
  92970321, 93081458, 93191775, 93301270, 93409941, 93517785, 93624800, 
  93730985, 93836338, 93940856, 94044537, 94147380, 94249382, 94350542, 
  94450857, 94550326, 94648947, 94746718, 94843637, 94939702, 95034912, 
  95129264, 95222757, 95315389, 95407159, 95498064, 95588102, 95677273, 
  95765574, 95853004, 95939561, 96025243, 96110049, 96193977, 96277025, 
  96359193, 96440478, 96520878, 96600393, 96679021, 96756760, 96833609, 
  96909567, 96984631, 97058801, 97132075, 97204451, 97275929, 97346506, 
  97416183, 97484956, 97552826, 97619790, 97685848, 97750997, 97815238, 
  97878568, 97940987, 98002493, 98063085, 98122762, 98181523, 98239366, 
  98296291, 98352297, 98407382, 98461545, 98514786, 98567103, 98618496, 
  98668963, 98718503, 98767116, 98814800, 98861555, 98907380, 98952274, 
  98996235, 99039264, 99081359, 99122520, 99162745, 99202035, 99240388, 
  99277803, 99314280, 99349818, 99384417, 99418076, 99450793, 99482569, 
  99513403, 99543295, 99572243, 99600247, 99627308, 99653423, 99678593, 
  99702817, 99726095, 99748426, 99769810, 99790246, 99809735, 99828275, 
  99845867, 99862509, 99878203, 99892946, 99906740, 99919584, 99931477, 
  99942419, 99952411, 99961452, 99969541, 99976680, 99982866, 99988101, 
  99992385, 99995716, 99998096, 99999524, 100000000>>

Sin(a) == LET m == a % 1440 IN
  CASE m <= 360 -> SinTab[m + 1]
    [] m > 360 /\ m <= 720 -> SinTab[721 - m]
    [] m > 720 /\ m <= 1080 -> -SinTab[m - 719]
    [] OTHER -> -SinTab[1441 - m]
Cos(a) == Sin(a + 360)
Hav(a) == LET m == a % 1440 IN HavTab[(IF m <= 720 THEN m ELSE 1440 - m) + 1]

\* 10^8 * haversine of the great circle distance
Haversine(lon1, lat1, lon2, lat2) ==
  LET c == (Cos(lat1) * Cos(lat2)) \div 30000
      s == Hav(lon1 - lon2)
  IN Hav(lat1 - lat2) +
     (IF s < 70000 THEN (s * c) \div 30000
      ELSE IF s < 7000000 THEN ((s \div 100) * (c \div 3)) \div 100
      ELSE ((s \div 1000) * (c \div 3)) \div 10)
\* 10^8 * (distance/2)^2 on the unit sphere, below some 45 degrees
HalfDist2(h) ==
  LET k == h \div 10000
      h2 == k * k
      h3 == (h2 \div 10000) * k
  IN h + h2 \div 3 + (8 * (h3 \div 5)) \div 9
=============================================================================
