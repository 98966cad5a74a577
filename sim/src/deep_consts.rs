#[rustfmt::skip]
pub const LANE_H: [[[u32; 8]; 4]; 8] = [[[1350563715, 189129748, 107073539, 3075932602, 2216793421, 561696899, 798423235, 3020153123], [2312437570, 3561430457, 725874296, 146871754, 661555302, 2852858613, 328325527, 3331613156], [1210335331, 2647749201, 726339190, 1374283749, 1562933389, 1195841389, 823835563, 1626885406], [3867866675, 3669442607, 2355889298, 1509291104, 1939295829, 2357093141, 3510996043, 2119313175]], [[332368327, 1548792264, 2797770339, 3589297210, 787888704, 578118774, 3405222181, 3776669490], [3677052227, 373018571, 2309372902, 3575924337, 3349555551, 2338415913, 2892608444, 4219872529], [1812644430, 4278375535, 749708703, 2370263882, 3322379410, 3216932009, 2989248930, 4132350767], [2363611423, 4162311029, 3305974182, 2695273786, 4037233570, 2905282741, 3504118630, 2469409283]], [[2640355086, 3109873282, 1414464042, 1119596739, 1359276457, 952446381, 1647470042, 520812061], [115211399, 2398889137, 1552837766, 953227698, 3383805493, 1365247752, 1754272243, 3701073469], [827607125, 3846035680, 1055259946, 2139067844, 1650992724, 3505813526, 2225928020, 609577206], [3824545188, 3189744128, 4160095035, 84564008, 1407740599, 4111430860, 3349457741, 1336752522]], [[963069319, 581163588, 3175551165, 525363465, 569659167, 4154586756, 1603170582, 51166063], [1524412759, 1148384612, 883670994, 1820074480, 3576130350, 555306903, 90171595, 914176383], [1105675779, 3276044636, 4204686833, 780872822, 1488077916, 4265560158, 2609383865, 4267292270], [1399583370, 3154318133, 3646065328, 4228465830, 3980851762, 3611479956, 4039894390, 1540597894]], [[2157246481, 2577938709, 3287581794, 80536145, 1667458217, 1921049224, 1587844305, 2737354866], [1743669237, 1905289523, 3864028829, 2788611286, 1451197245, 3108834670, 1394375995, 3667452729], [3768894390, 2635974742, 1689196943, 3684763083, 2554711419, 1044662588, 3815421538, 943992675], [744554293, 1022425833, 3262684262, 2607149107, 505558827, 3168493278, 4279793183, 617020157]], [[564890642, 2991993028, 340182247, 3039016826, 1810357800, 4090522487, 3550620613, 1130976282], [3599316877, 1632951591, 2444510987, 838262901, 296045454, 444918622, 4120988592, 1899299943], [1300459257, 3344855992, 1859286085, 4027844323, 3240029662, 996949384, 245598708, 3529193539], [1143653011, 321011289, 3351951095, 2621527746, 64876570, 3855802332, 3314178797, 2653168833]], [[3917084832, 101250438, 3949672097, 2427843944, 1487989792, 1257907452, 2337461009, 807200126], [956992661, 958951174, 2363576143, 1924585563, 650104359, 577498265, 4115220454, 4074576887], [2703406575, 1156272741, 1522292915, 3969819715, 4283512280, 401266840, 2388135698, 1058155249], [2914340320, 298800937, 1836160185, 645641543, 3294830045, 1757704985, 1193773680, 631501123]], [[3655945266, 1525804238, 2708528168, 2626607986, 2658328643, 2663691467, 4186361294, 242575058], [1898507338, 1113313109, 4102963582, 76894906, 643003168, 1542297564, 1866333596, 3215518984], [3868260320, 1481924466, 211246561, 3536746582, 3312200383, 287390435, 3576564203, 1954713917], [1949367398, 2200287776, 1273961924, 675444411, 4290671668, 3450017099, 3869926963, 1556062816]]];
#[rustfmt::skip]
pub const SP_H: [[[[u32; 8]; 8]; 3]; 2] = [[[[2992468731, 3233479940, 405700189, 3031321025, 3633559780, 3122639129, 3295024866, 1445287107], [723001147, 3175381188, 3362512585, 3549948113, 4128141193, 860657038, 3823081957, 3714115522], [2109460376, 908324956, 2858150919, 1200651521, 1185306342, 3098520890, 4057454216, 42537341], [3456475210, 3000324341, 2056195825, 1924689460, 3346489563, 671988279, 1339112290, 1099194421], [2274478541, 3793965847, 4116552984, 1507911880, 1466393316, 2145035627, 2419413541, 3559804872], [1672638369, 1248091559, 1824912391, 3451954852, 23915458, 2710128323, 1260018965, 1120590886], [1828443582, 960983415, 3026577754, 767851325, 3704285910, 3835931709, 230475717, 2592461646], [2959147561, 2457549610, 3130611330, 1505877642, 3119905149, 2479762820, 2887723968, 3626260171]], [[86006882, 411713699, 363866034, 841947153, 3554409193, 2212882187, 2017086972, 384882272], [294390945, 1466727304, 174613966, 3107268230, 2345807461, 430517921, 3015370693, 3786537222], [1015606514, 3452307260, 3227456634, 3257811526, 1467742374, 465662572, 3249439486, 2926340904], [749298965, 211906634, 592153883, 2436979218, 1949734431, 1428370988, 1682246816, 1800090952], [4206994071, 104563683, 3549388008, 2635317339, 3276384224, 2017767990, 3904321093, 1053439932], [3901704685, 3534452977, 529004977, 3539408364, 2178146359, 3430785410, 817174768, 966176523], [1650266691, 3859796033, 3315361548, 1746068975, 1206746921, 2233826624, 1866804990, 1546924746], [2251989280, 285827420, 3242686691, 3029330835, 3494777196, 1104448158, 421696445, 927248797]], [[3765781226, 855698244, 363603514, 2299037803, 3435384441, 968826315, 2883639959, 1342486142], [3031358891, 2274466296, 3131652841, 285194444, 4160637197, 1321450007, 1775853095, 1191453955], [990936767, 3283137541, 1799955875, 1490698293, 2887250212, 723964495, 353996673, 3927644526], [379483808, 2261418351, 3240935123, 1236616894, 4129941840, 4060533177, 880906824, 147979670], [3387795369, 4236977488, 1955557287, 3490174684, 3014258096, 707308849, 579647319, 4284827153], [1512990453, 2952110074, 2973503895, 2369439726, 3462636139, 2925314783, 1891360100, 2130878112], [3331087913, 1389092159, 1986998297, 1497083382, 451044757, 3700941624, 1256394061, 3647624745], [2189997253, 1535607435, 1624858727, 1011472747, 3832252466, 1012389967, 2224708731, 1024835766]]], [[[3185473840, 195394706, 2467533387, 409491098, 329920546, 2463695872, 2735934580, 3682346860], [678862238, 1340021374, 4120671695, 1274808904, 3021356427, 937415534, 2108419178, 4244446900], [1516897332, 2946127808, 1574737500, 2357563909, 3242014834, 3710685332, 847197928, 2768181116], [1389913467, 4176771753, 2476638024, 2321357750, 3731796764, 1420093137, 4153222649, 1635123434], [1718180831, 3276354211, 877819039, 725958656, 2859813965, 694760312, 1413956719, 781490725], [1446908370, 2761663024, 87617149, 1809655469, 3781579370, 3198980074, 1928097833, 3806748017], [3328968212, 3699793336, 2915119206, 4198923772, 2299545577, 2455091342, 2332678368, 574481368], [2829931924, 2089908346, 276780032, 2468610908, 2319200853, 3284004037, 3656264304, 2454179973]], [[3262591818, 3128490413, 4125655735, 3807594222, 3688131265, 3405395122, 3900773519, 2513890209], [2624059266, 1713057897, 3066137054, 2030303733, 1168807786, 2391303878, 3266118244, 467139111], [440767745, 2985336777, 1525406375, 180890469, 221881015, 1369809708, 2055070424, 613378604], [1126157191, 959563818, 1114712290, 3869051539, 1667154595, 4202793147, 1866165066, 3240157892], [1760746461, 2261876481, 4239051449, 2290808437, 4271560576, 3739088596, 3133499712, 3834963972], [4091067611, 727407409, 1654477110, 2181906594, 896402259, 1376364159, 3106392213, 2661918229], [318522653, 2050226217, 2757906225, 2710052099, 2537061559, 322352419, 1687498135, 2454554196], [2284538347, 1936738924, 627497225, 898738095, 3993490123, 22058377, 3920389981, 1524697011]], [[3534372725, 142985781, 178272311, 2958061113, 1443138497, 3683713252, 647883534, 3603025008], [1003780862, 966606677, 479434656, 1545614565, 3203071853, 549158821, 653391669, 75046], [3225763472, 184386971, 1890897161, 856988231, 2955871280, 3602940402, 935111589, 469450670], [830277175, 2535165201, 3054699199, 2705134725, 110448637, 4026037564, 3017873365, 3974900967], [2578113943, 233502309, 1574254542, 3445221368, 124648192, 3689946896, 767019431, 2088402476], [651042101, 545817243, 763798412, 2399289999, 996959408, 736726403, 759770302, 1829810565], [265939468, 501375859, 36242715, 1476164919, 1605883956, 4030075031, 2949284199, 1242472575], [3150248495, 2320831911, 3157444234, 417891425, 4168197752, 1544296188, 2522129480, 498185968]]]];
