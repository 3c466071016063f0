// generated by tools/dump_tables.c
static const uint16_t D_m_uv_mode[416]={10137,8616,7390,7107,6782,6248,5713,4845,4524,2709,1827,807,0,0,0,0,23255,5887,5795,5722,5650,5104,5029,4944,
4409,3263,2968,972,0,0,0,0,22923,22853,4105,4064,4011,3988,3570,2946,2914,2004,991,739,0,0,0,0,
19129,18871,18597,7437,7162,7041,6815,5620,4191,2156,1413,275,0,0,0,0,23004,22933,22838,22814,7382,5715,4810,4620,
4525,1667,1024,405,0,0,0,0,20943,19179,19091,19048,17720,3555,3467,3310,3057,1607,1327,218,0,0,0,0,
18593,18369,16160,15947,15050,14993,4217,2568,2523,931,426,101,0,0,0,0,19883,19730,17790,17178,17095,17020,16592,3640,
3501,2125,807,307,0,0,0,0,20742,19107,18894,17463,17278,17042,16773,16495,4325,2380,2001,352,0,0,0,0,
13716,12928,12189,11852,11618,11301,10883,10049,9594,3907,2389,593,0,0,0,0,14141,13119,11794,11549,11276,10952,10569,9649,
9241,5715,1371,620,0,0,0,0,15742,13764,12771,12429,12182,11665,11419,10861,10286,6872,6227,949,0,0,0,0,
20644,19009,17809,17776,17761,17717,17690,17602,17513,17015,16729,16162,0,0,0,0,22361,21560,19868,19587,18945,18593,17869,17112,
16782,12682,11773,10313,8556,0,0,0,28236,12988,12711,12553,12340,11697,11569,11317,10669,8540,8075,5736,3296,0,0,0,
27495,27389,12591,12498,12383,12329,11819,11073,10994,9630,8512,8065,6089,0,0,0,26028,25601,25106,18616,18232,17983,17734,16027,
14397,11248,10562,9379,8586,0,0,0,27781,27400,26840,26700,13654,12453,10911,10515,10357,7857,7388,6741,6392,0,0,0,
27398,25879,25521,25375,23270,11654,11366,11015,10787,7988,7382,6251,5592,0,0,0,27952,27807,25564,25442,24003,23838,12599,12086,
11965,9580,9005,8313,7828,0,0,0,26160,26028,24239,23719,23511,23412,23033,13941,13709,10432,9564,8804,7975,0,0,0,
26770,25349,24987,23835,23513,23219,23015,22351,13870,10274,9629,8004,6779,0,0,0,22108,21470,20218,19811,19446,19144,18728,17764,
17234,12054,10979,9325,7907,0,0,0,22246,21238,20216,19805,19390,18989,18523,17533,16866,12666,10072,8994,6930,0,0,0,
22669,22077,20129,19719,19382,19103,18643,17605,17132,13092,12294,9249,7560,0,0,0,29624,27681,25386,25264,25175,25078,24967,24704,
24536,23520,22893,22247,3720,0,0,0,};
static const uint16_t D_m_partition[320]={4869,4549,4239,284,229,149,129,0,0,0,0,0,0,0,0,0,26161,25778,24500,708,549,430,397,0,
0,0,0,0,0,0,0,0,27339,26092,25646,741,541,237,186,0,0,0,0,0,0,0,0,0,
32057,31802,31596,320,230,151,104,0,0,0,0,0,0,0,0,0,12631,11221,9690,3202,2931,2507,2244,1876,
1044,0,0,0,0,0,0,0,26036,25278,23271,4824,4518,4253,3799,3138,2664,0,0,0,0,0,0,0,
26823,25105,24420,4085,3651,3019,2704,2470,530,0,0,0,0,0,0,0,31898,31556,31281,1570,1374,1194,1025,887,
436,0,0,0,0,0,0,0,14306,11848,9644,5121,4541,3719,3249,2590,1224,0,0,0,0,0,0,0,
25079,23708,20712,7776,7108,6586,5817,4727,3716,0,0,0,0,0,0,0,26753,23759,22706,8224,7359,6223,5697,5242,
721,0,0,0,0,0,0,0,31374,30560,29972,4154,3707,3302,2928,2583,869,0,0,0,0,0,0,0,
17171,11839,8197,6062,5104,3947,3167,2197,866,0,0,0,0,0,0,0,24843,21725,15983,10298,8797,7725,6117,4067,
2934,0,0,0,0,0,0,0,27354,19499,17657,12280,10408,8268,7231,6432,651,0,0,0,0,0,0,0,
30106,26406,24154,11908,9715,7990,6332,4939,1597,0,0,0,0,0,0,0,13636,7258,2376,0,0,0,0,0,
0,0,0,0,0,0,0,0,18840,12913,4228,0,0,0,0,0,0,0,0,0,0,0,0,0,
20246,9089,4139,0,0,0,0,0,0,0,0,0,0,0,0,0,22872,13985,6915,0,0,0,0,0,
0,0,0,0,0,0,0,0,};
static const uint16_t D_m_cfl_alpha[96]={25131,12049,1367,287,111,80,76,72,68,64,60,56,52,48,44,0,18403,9165,4633,1600,601,373,281,195,
148,121,100,96,92,88,84,0,21236,10388,4323,1408,419,245,184,119,95,91,87,83,79,75,71,0,
5778,1366,486,197,76,72,68,64,60,56,52,48,44,40,36,0,15520,6710,3864,2160,1463,891,642,447,
374,304,252,208,192,175,146,0,18030,11090,6989,4867,3744,2466,1788,925,624,355,248,174,146,112,108,0,
};
static const uint16_t D_m_txtp_inter1[32]={28310,27208,25073,23059,19438,17979,15231,12502,11264,9920,8834,7294,5041,3853,2137,0,31123,30195,27990,27057,24961,24146,22246,17411,
15094,12360,10251,7758,5652,3912,2019,0,};
static const uint16_t D_m_txtp_inter2[16]={31998,30347,27543,19861,16949,13841,11207,8679,6173,4242,2239,0,0,0,0,0,};
static const uint16_t D_m_txtp_intra1[208]={31233,24733,23307,20017,9301,4943,0,0,32204,29433,23059,21898,14625,4674,0,0,32096,29521,29092,20786,13353,9641,0,0,
27489,18883,17281,14724,9241,2516,0,0,28345,26694,24783,22352,7075,3470,0,0,31282,28527,23308,22106,16312,5074,0,0,
32329,29930,29246,26031,14710,9014,0,0,31578,28535,27913,21098,12487,8391,0,0,31723,28456,24121,22609,14124,3433,0,0,
32566,29034,28021,25470,15641,8752,0,0,32321,28456,25949,23884,16758,8910,0,0,32491,28399,27513,23863,16303,10497,0,0,
29359,27332,22169,17169,13081,8728,0,0,30898,19026,18238,16270,8998,5070,0,0,32442,23972,18136,17689,13496,5282,0,0,
32284,25192,25056,18325,13609,10177,0,0,31642,17428,16873,15745,11872,2489,0,0,32113,27914,27519,26855,10669,5630,0,0,
31469,26310,23883,23478,17917,7271,0,0,32457,27473,27216,25883,16661,10096,0,0,31885,24709,24498,21510,15479,11219,0,0,
32027,25188,23450,22423,16080,3722,0,0,32658,25362,24853,23573,16727,9439,0,0,32405,24794,23411,22095,17139,8294,0,0,
32615,25121,24656,22832,17461,12772,0,0,29257,26436,21603,17433,13445,9174,0,0,};
static const uint16_t D_m_txtp_intra2[312]={26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,
26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,
26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,
26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,
26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,
26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,
26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,
26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,
26214,19661,13107,6554,0,0,0,0,26214,19661,13107,6554,0,0,0,0,31641,19954,9996,5285,0,0,0,0,
32623,26007,20788,6101,0,0,0,0,32406,26881,21090,16043,0,0,0,0,32383,17555,14181,2075,0,0,0,0,
32743,29854,9634,4865,0,0,0,0,32708,28298,21019,8777,0,0,0,0,32731,29436,18257,11320,0,0,0,0,
32611,26448,19732,15329,0,0,0,0,32649,26049,19862,3372,0,0,0,0,32721,27231,20192,11269,0,0,0,0,
32499,26692,21510,9653,0,0,0,0,32685,27153,20767,15540,0,0,0,0,30800,27212,20745,14221,0,0,0,0,
};
static const uint16_t D_m_cfl_sign[8]={31350,30645,19428,14363,5796,4425,474,0,};
static const uint16_t D_m_angle_delta[64]={30588,27736,25201,9992,5779,2551,0,0,30467,27160,23967,9281,5794,2438,0,0,28988,21750,19069,13414,9685,1482,0,0,
28187,21542,17621,15630,10934,4371,0,0,31031,21841,18259,13180,10023,3945,0,0,30104,22592,20283,15118,11168,2273,0,0,
30528,21672,17315,12427,10207,3851,0,0,29163,22340,20309,15092,11524,2113,0,0,};
static const uint16_t D_m_filter_intra[8]={23819,19992,15557,3210,0,0,0,0,};
static const uint16_t D_m_seg_id[24]={27146,24875,16675,14535,4959,4395,235,0,18494,14538,10211,7833,2788,1917,424,0,5241,4281,4045,3878,371,121,89,0,
};
static const uint16_t D_m_pal_sz[112]={24816,19768,14619,11290,7241,3527,0,0,25629,21347,16573,13224,9102,4695,0,0,24980,20027,15443,12268,8453,4238,0,0,
24497,18704,14522,11204,7697,4235,0,0,20043,13588,10905,7929,5233,2648,0,0,23057,17880,15845,11716,7107,4893,0,0,
17828,11971,11090,8582,5735,3769,0,0,24055,12789,5640,3159,1437,496,0,0,26929,17195,9187,5821,2920,1068,0,0,
28342,21508,14769,11285,6905,3338,0,0,29540,23304,17775,14679,10245,5348,0,0,29000,23882,19677,14916,10273,5561,0,0,
30304,24317,19907,11136,7243,4213,0,0,31499,27333,22335,13805,11068,6903,0,0,};
static const uint16_t D_m_color_map[560]={4058,0,0,0,0,0,0,0,16384,0,0,0,0,0,0,0,22215,0,0,0,0,0,0,0,
5732,0,0,0,0,0,0,0,1165,0,0,0,0,0,0,0,4891,2278,0,0,0,0,0,0,
21236,7071,0,0,0,0,0,0,26224,2534,0,0,0,0,0,0,9750,4696,0,0,0,0,0,0,
853,383,0,0,0,0,0,0,7196,4722,2723,0,0,0,0,0,23290,11178,5512,0,0,0,0,0,
25520,5931,2944,0,0,0,0,0,13601,8282,4419,0,0,0,0,0,1368,943,518,0,0,0,0,0,
7989,5813,4192,2486,0,0,0,0,24099,12404,8695,4675,0,0,0,0,28513,5203,3391,1701,0,0,0,0,
12904,9094,6052,3238,0,0,0,0,1122,875,621,342,0,0,0,0,9636,7361,5798,4333,2695,0,0,0,
25325,15526,12051,8006,4786,0,0,0,26468,7906,5824,3984,2097,0,0,0,13852,9873,7501,5333,3116,0,0,0,
1498,1218,960,709,415,0,0,0,9663,7569,6304,5084,3837,2450,0,0,25818,17321,13816,10087,7201,4205,0,0,
25208,9294,7278,5565,3847,2060,0,0,14224,10395,8311,6573,4649,2723,0,0,1570,1317,1098,886,645,377,0,0,
11079,8885,7605,6416,5262,3941,2573,0,25876,17383,14928,11162,8481,6015,3564,0,27117,9586,7726,6250,4786,3376,1868,0,
13419,10190,8350,6774,5244,3737,2320,0,1740,1498,1264,1063,841,615,376,0,3679,0,0,0,0,0,0,0,
16384,0,0,0,0,0,0,0,24055,0,0,0,0,0,0,0,3511,0,0,0,0,0,0,0,
1158,0,0,0,0,0,0,0,7511,3623,0,0,0,0,0,0,20481,5475,0,0,0,0,0,0,
25735,4808,0,0,0,0,0,0,12623,7363,0,0,0,0,0,0,2160,1129,0,0,0,0,0,0,
8558,5593,2865,0,0,0,0,0,22880,10382,5554,0,0,0,0,0,26867,6715,3475,0,0,0,0,0,
14450,10616,4435,0,0,0,0,0,2309,1632,842,0,0,0,0,0,9788,7289,4987,2782,0,0,0,0,
24355,11360,7909,3894,0,0,0,0,30511,3319,2174,1170,0,0,0,0,13579,11566,6853,4148,0,0,0,0,
924,724,487,250,0,0,0,0,10551,8201,6131,4085,2220,0,0,0,25461,16362,13132,8136,4344,0,0,0,
28327,7704,5889,3826,1849,0,0,0,15558,12240,9449,6018,3186,0,0,0,2094,1815,1372,1033,561,0,0,0,
11529,9600,7724,5806,4063,2262,0,0,26223,17756,14764,10951,7265,4067,0,0,29320,6473,5331,4064,2642,1326,0,0,
16879,14445,11064,8070,5792,3078,0,0,1780,1564,1289,1034,785,443,0,0,11326,9480,8010,6522,5119,3788,2205,0,
26905,17835,15216,12100,9085,6357,3495,0,29353,6958,5891,4778,3545,2374,1150,0,14803,12684,10536,8794,6494,4366,2378,0,
1578,1439,1252,1089,943,742,446,0,};
static const uint16_t D_m_txsz[48]={12800,0,0,0,12800,0,0,0,8448,0,0,0,20496,2596,0,0,20496,2596,0,0,14091,1920,0,0,
19782,17588,0,0,19782,17588,0,0,8466,7166,0,0,26986,21293,0,0,26986,21293,0,0,15965,10009,0,0,
};
static const uint16_t D_m_delta_q[4]={4608,648,91,0,};
static const uint16_t D_m_delta_lf[20]={4608,648,91,0,4608,648,91,0,4608,648,91,0,4608,648,91,0,4608,648,91,0,};
static const uint16_t D_m_restore_switchable[4]={23355,10187,0,0,};
static const uint16_t D_m_restore_wiener[2]={21198,0,};
static const uint16_t D_m_restore_sgrproj[2]={15913,0,};
static const uint16_t D_m_txtp_inter3[8]={16384,0,28601,0,30770,0,32020,0,};
static const uint16_t D_m_use_filter_intra[44]={16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,10425,0,20012,0,14667,0,16384,0,18467,0,
20360,0,23374,0,22400,0,12539,0,20217,0,24902,0,26875,0,19998,0,26025,0,28147,0,};
static const uint16_t D_m_txpart[42]={4187,0,8922,0,11921,0,8453,0,14572,0,20635,0,13977,0,21881,0,21763,0,5589,0,12764,0,21487,0,
6219,0,13460,0,18544,0,4753,0,11222,0,18368,0,4603,0,10367,0,16680,0,};
static const uint16_t D_m_skip[6]={1097,0,16253,0,28192,0,};
static const uint16_t D_m_pal_y[42]={1092,0,29349,0,31507,0,856,0,29909,0,31788,0,945,0,29368,0,31987,0,738,0,29207,0,31864,0,
459,0,25431,0,31306,0,503,0,28753,0,31247,0,318,0,24822,0,32639,0,};
static const uint16_t D_m_pal_uv[4]={307,0,11280,0,};
static const uint16_t D_m_intrabc[2]={2237,0,};
static const uint16_t D_m_y_mode[64]={9967,9279,8475,8012,7167,6645,6162,5350,4823,3540,3083,2419,0,0,0,0,14095,12923,10137,9450,8818,8119,7241,5404,
4616,3067,2784,1916,0,0,0,0,12998,11789,9372,8829,8527,8114,7632,5695,4938,3408,3038,2109,0,0,0,0,
12613,11467,9930,9590,9507,9235,9065,7964,7416,6193,5752,4719,0,0,0,0,};
static const uint16_t D_m_wedge_idx[144]={30330,28328,26169,24105,21763,19894,17017,14674,12409,10406,8641,7066,5016,3318,1597,0,31962,29502,26763,26030,25550,25401,24997,18180,
16445,15401,14316,13346,9929,6641,3139,0,29989,29030,28085,25555,24993,24751,24113,18411,14829,11436,8248,5298,3312,2239,1112,0,
31084,29143,27093,25660,23466,21494,18339,15624,13605,11807,9884,8297,6049,4054,1891,0,31626,29277,26491,25454,24679,24413,23745,19144,
17399,16038,14654,13455,10247,6756,3218,0,30026,28573,27041,24733,23788,23432,22622,18644,15498,12235,9334,6796,4824,3198,1352,0,
31041,28820,26667,24972,22927,20424,17002,13824,12130,10730,8805,7457,5780,4002,1756,0,32614,31781,30843,30717,30680,30657,30617,9735,
9065,8484,7783,7084,5509,3885,1857,0,31633,31446,31275,30133,30072,30031,29998,11752,9833,7711,5517,3595,2679,1808,835,0,
};
static const uint16_t D_m_comp_inter_mode[64]={25008,18945,16960,15127,13612,12102,5877,0,22038,13316,11623,10019,8729,7637,4044,0,22104,12547,11180,9862,8473,7381,4332,0,
19470,15784,12297,8586,7701,7032,6346,0,13864,9443,7526,5336,4870,4510,2010,0,22043,15314,12644,9948,8573,7600,6722,0,
15643,8495,6954,5276,4554,4064,2176,0,19722,9554,8263,6826,5333,4326,3438,0,};
static const uint16_t D_m_filter[64]={833,48,0,0,27200,49,0,0,32346,29830,0,0,4524,160,0,0,1562,815,0,0,27906,647,0,0,
31998,31616,0,0,11879,7131,0,0,858,44,0,0,28648,56,0,0,32463,30521,0,0,5365,132,0,0,
1746,759,0,0,29805,675,0,0,32167,31825,0,0,17799,11370,0,0,};
static const uint16_t D_m_interintra_mode[16]={24576,16384,8192,0,30893,21686,5436,0,30295,22772,6380,0,28530,21231,6842,0,};
static const uint16_t D_m_motion_mode[88]={261,210,0,0,1890,1433,0,0,3870,2371,0,0,3252,2067,0,0,11089,5938,0,0,3026,1565,0,0,
12408,4706,0,0,6508,3652,0,0,21162,8460,0,0,6337,1994,0,0,3795,1174,0,0,27645,9162,0,0,
13349,5958,0,0,27377,7240,0,0,0,0,0,0,3969,1378,0,0,28030,8003,0,0,25117,8008,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,};
static const uint16_t D_m_skip_mode[6]={147,0,12060,0,24641,0,};
static const uint16_t D_m_newmv_mode[12]={8733,0,16138,0,17429,0,24382,0,20546,0,28092,0,};
static const uint16_t D_m_globalmv_mode[4]={30593,0,31714,0,};
static const uint16_t D_m_refmv_mode[12]={8794,0,8580,0,14920,0,4146,0,8456,0,12845,0,};
static const uint16_t D_m_drl_bit[6]={19664,0,8208,0,13823,0,};
static const uint16_t D_m_intra[8]={31962,0,16106,0,12582,0,6230,0,};
static const uint16_t D_m_comp[10]={5940,0,8733,0,20737,0,22128,0,29867,0,};
static const uint16_t D_m_comp_dir[10]={31570,0,30698,0,23602,0,25269,0,10293,0,};
static const uint16_t D_m_jnt_comp[12]={14524,0,19903,0,25715,0,19509,0,23434,0,28124,0,};
static const uint16_t D_m_mask_comp[12]={6161,0,9877,0,13928,0,8174,0,12834,0,10094,0,};
static const uint16_t D_m_wedge_comp[18]={9337,0,19597,0,21298,0,22998,0,23668,0,24535,0,26596,0,20948,0,25067,0,};
static const uint16_t D_m_ref[36]={27871,0,15795,0,3024,0,31213,0,16017,0,2489,0,28532,0,13121,0,1574,0,24118,0,7995,0,873,0,
31864,0,21754,0,5893,0,31324,0,17681,0,2464,0,};
static const uint16_t D_m_comp_fwd_ref[18]={27822,0,12877,0,2037,0,23300,0,10327,0,1709,0,31265,0,17608,0,5224,0,};
static const uint16_t D_m_comp_bwd_ref[12]={30533,0,15586,0,2162,0,31345,0,17593,0,2279,0,};
static const uint16_t D_m_comp_uni_ref[18]={27484,0,9616,0,994,0,28903,0,18595,0,7648,0,29640,0,17498,0,6058,0,};
static const uint16_t D_m_seg_pred[6]={16384,0,16384,0,16384,0,};
static const uint16_t D_m_interintra[14]={16384,0,5881,0,5171,0,2531,0,0,0,0,0,0,0,};
static const uint16_t D_m_interintra_wedge[14]={12732,0,7811,0,6064,0,5238,0,3204,0,3324,0,5896,0,};
static const uint16_t D_m_obmc[44]={130,0,1208,0,1754,0,2640,0,10685,0,5889,0,9945,0,6951,0,17626,0,11867,0,8760,0,18345,0,
15336,0,23467,0,0,0,9104,0,23397,0,22331,0,0,0,0,0,0,0,0,0,};
static const uint16_t D_coef0_eob_bin_16[32]={31928,31729,30788,27873,0,0,0,0,32398,32097,30885,28297,0,0,0,0,29521,27818,23080,18205,0,0,0,0,
30864,29414,25005,18121,0,0,0,0,};
static const uint16_t D_coef1_eob_bin_16[32]={30643,30217,27603,23822,0,0,0,0,32255,32003,30909,26429,0,0,0,0,25131,23270,18509,13660,0,0,0,0,
30271,28672,23902,15775,0,0,0,0,};
static const uint16_t D_coef2_eob_bin_16[32]={28752,27871,23887,17800,0,0,0,0,32052,31663,30122,22712,0,0,0,0,21629,19498,14527,9202,0,0,0,0,
29576,27736,22471,13013,0,0,0,0,};
static const uint16_t D_coef3_eob_bin_16[32]={26060,23810,18022,10635,0,0,0,0,31546,30694,27985,17358,0,0,0,0,13193,11002,6724,3059,0,0,0,0,
25471,22001,13495,4574,0,0,0,0,};
static const uint16_t D_coef0_eob_bin_32[32]={32368,32248,31791,30666,26226,0,0,0,32558,32363,31453,29442,25231,0,0,0,30132,28495,25180,20974,12367,0,0,0,
30982,29589,25866,21411,13714,0,0,0,};
static const uint16_t D_coef1_eob_bin_32[32]={31779,31519,30749,28617,21983,0,0,0,32455,32327,31669,29851,24206,0,0,0,24374,22416,18836,13913,6754,0,0,0,
30190,28644,24587,19098,8534,0,0,0,};
static const uint16_t D_coef2_eob_bin_32[32]={30253,29765,28316,24606,16727,0,0,0,32194,31947,30932,27679,19640,0,0,0,19300,16465,12407,7663,3487,0,0,0,
29226,27266,22353,16008,7124,0,0,0,};
static const uint16_t D_coef3_eob_bin_32[32]={28151,27059,24322,19184,9633,0,0,0,31612,31066,29093,23494,12229,0,0,0,10682,8486,5758,2998,1025,0,0,0,
25069,21871,11877,5842,1140,0,0,0,};
static const uint16_t D_coef0_eob_bin_64[32]={32439,32270,31667,30984,29503,25010,0,0,32433,32038,31309,27274,24013,19771,0,0,29263,27464,22682,18954,15084,9398,0,0,
31205,30068,27892,21857,18062,10288,0,0,};
static const uint16_t D_coef1_eob_bin_64[32]={31508,31322,30515,29056,26116,19399,0,0,32367,32163,31739,30205,26923,20142,0,0,24159,22156,18144,14054,10154,3744,0,0,
30845,29641,26901,23065,18491,5668,0,0,};
static const uint16_t D_coef2_eob_bin_64[32]={30394,29996,28185,25492,20480,13062,0,0,32271,31958,31453,29768,25764,17127,0,0,17718,15642,11358,7882,4612,2042,0,0,
28734,26478,22533,17786,11554,4277,0,0,};
static const uint16_t D_coef3_eob_bin_64[32]={26461,25227,20708,16410,10215,4903,0,0,31479,30448,28797,24842,18615,8477,0,0,8556,7060,4500,2733,1461,719,0,0,
24042,20390,13359,6318,2730,306,0,0,};
static const uint16_t D_coef0_eob_bin_128[32]={32549,32286,31628,30677,29088,26740,20182,0,32397,32069,31514,27938,23289,20206,15271,0,27523,25312,19888,16916,12735,8836,5160,0,
30714,29296,26899,18536,14526,12178,6016,0,};
static const uint16_t D_coef1_eob_bin_128[32]={32083,31835,31280,30054,28002,24206,13514,0,32551,32416,32150,30465,27507,22799,15296,0,24723,21568,17271,13173,8820,5360,1830,0,
30458,28608,25297,17771,14837,12000,2528,0,};
static const uint16_t D_coef2_eob_bin_128[32]={31402,31030,30241,27752,23413,16971,8125,0,32414,32210,31824,30008,25481,18731,10989,0,19141,16522,12595,8339,4820,2353,905,0,
26493,22879,17999,9604,4780,2275,496,0,};
static const uint16_t D_coef3_eob_bin_128[32]={29296,27883,25279,20287,14251,8232,3133,0,31882,31037,29497,24299,17199,10642,4385,0,8455,6706,4383,2661,1551,870,423,0,
23603,19486,11618,2482,874,197,56,0,};
static const uint16_t D_coef0_eob_bin_256[64]={32458,32184,30881,29179,26600,24157,21416,17116,0,0,0,0,0,0,0,0,31770,30918,29770,27164,15427,12880,9869,7185,
0,0,0,0,0,0,0,0,30248,29528,26816,23898,20191,15210,12814,8600,0,0,0,0,0,0,0,0,
30565,28638,25333,22029,12116,9087,7159,5507,0,0,0,0,0,0,0,0,};
static const uint16_t D_coef1_eob_bin_256[64]={31320,30659,28617,26505,23439,19508,14824,9468,0,0,0,0,0,0,0,0,32369,31749,31019,29730,22324,17222,10029,5474,
0,0,0,0,0,0,0,0,26366,24620,20145,17696,14040,9921,6321,3391,0,0,0,0,0,0,0,0,
31094,29516,27034,22609,10371,8966,7947,1828,0,0,0,0,0,0,0,0,};
static const uint16_t D_coef2_eob_bin_256[64]={29679,28848,26730,23308,18502,12887,7002,3592,0,0,0,0,0,0,0,0,31684,30410,29280,27646,21285,14665,6745,2969,
0,0,0,0,0,0,0,0,21254,18974,15288,12014,8407,5390,3276,1491,0,0,0,0,0,0,0,0,
26197,23158,17252,10942,3676,1939,926,60,0,0,0,0,0,0,0,0,};
static const uint16_t D_coef3_eob_bin_256[64]={27420,25655,20948,16844,10662,5991,2434,1011,0,0,0,0,0,0,0,0,30315,28294,26461,23991,16294,9793,3768,1221,
0,0,0,0,0,0,0,0,9658,8171,5628,3874,2601,1841,1376,674,0,0,0,0,0,0,0,0,
22770,15107,7590,4671,1460,730,365,73,0,0,0,0,0,0,0,0,};
static const uint16_t D_coef0_eob_bin_512[32]={32127,31785,29061,27338,22534,17810,13980,9356,6707,0,0,0,0,0,0,0,27673,26322,22772,19414,16751,14782,11849,6639,
3628,0,0,0,0,0,0,0,};
static const uint16_t D_coef1_eob_bin_512[32]={31538,30490,27733,24992,20897,17422,13178,8184,4019,0,0,0,0,0,0,0,25503,22789,16949,13518,10988,8922,6290,4372,
957,0,0,0,0,0,0,0,};
static const uint16_t D_coef2_eob_bin_512[32]={30144,28832,26288,23082,18789,15042,9501,4358,1690,0,0,0,0,0,0,0,20753,17999,13180,10716,8546,6956,5468,3549,
654,0,0,0,0,0,0,0,};
static const uint16_t D_coef3_eob_bin_512[32]={26841,24959,21845,18171,13329,8633,4312,1626,708,0,0,0,0,0,0,0,11675,9725,7026,5110,3671,3052,2695,1948,
812,0,0,0,0,0,0,0,};
static const uint16_t D_coef0_eob_bin_1024[32]={32375,32347,32017,31145,29608,26416,19423,14721,10197,6938,0,0,0,0,0,0,30903,30780,29838,28526,22235,16230,11414,5513,
4222,984,0,0,0,0,0,0,};
static const uint16_t D_coef1_eob_bin_1024[32]={32072,31820,29623,27066,23062,19551,14917,10912,7076,4734,0,0,0,0,0,0,30096,29177,23438,15684,10043,8484,6241,4741,
4391,1892,0,0,0,0,0,0,};
static const uint16_t D_coef2_eob_bin_1024[32]={29984,28937,25727,22247,17921,13924,9613,6086,3539,1723,0,0,0,0,0,0,23191,20302,15029,12018,10707,9553,8167,7285,
6925,712,0,0,0,0,0,0,};
static const uint16_t D_coef3_eob_bin_1024[32]={26070,24434,20807,17006,12582,8906,5334,3442,1686,718,0,0,0,0,0,0,12199,10342,7199,5909,4715,3855,3282,3044,
2961,198,0,0,0,0,0,0,};
static const uint16_t D_coef0_eob_base_tok[160]={14931,3713,0,0,3168,1322,0,0,1924,890,0,0,7842,3820,0,0,11403,2742,0,0,2256,345,0,0,
1110,147,0,0,3138,887,0,0,27051,6291,0,0,2277,1065,0,0,1218,610,0,0,3120,1277,0,0,
20160,4948,0,0,2088,543,0,0,1959,433,0,0,1469,345,0,0,30982,20156,0,0,2105,1143,0,0,
429,300,0,0,1620,935,0,0,13911,8903,0,0,1340,340,0,0,1024,395,0,0,993,242,0,0,
30981,30236,0,0,1936,1106,0,0,944,86,0,0,635,199,0,0,19017,10533,0,0,679,359,0,0,
5684,4848,0,0,3477,174,0,0,31043,29319,0,0,1666,833,0,0,311,155,0,0,356,119,0,0,
21845,10923,0,0,21845,10923,0,0,21845,10923,0,0,21845,10923,0,0,};
static const uint16_t D_coef1_eob_base_tok[160]={15208,2880,0,0,3097,1219,0,0,1761,712,0,0,5482,2762,0,0,6174,1556,0,0,1560,186,0,0,
933,131,0,0,2173,562,0,0,17529,2836,0,0,1453,673,0,0,638,334,0,0,1904,772,0,0,
6489,1800,0,0,1626,273,0,0,1055,228,0,0,839,174,0,0,30124,7570,0,0,730,317,0,0,
129,73,0,0,602,250,0,0,15581,5100,0,0,1054,218,0,0,485,90,0,0,838,205,0,0,
31724,30511,0,0,2013,845,0,0,560,75,0,0,524,153,0,0,11451,6561,0,0,3635,1900,0,0,
3457,1537,0,0,3111,1681,0,0,32290,30934,0,0,1763,781,0,0,451,44,0,0,1903,120,0,0,
21845,10923,0,0,21845,10923,0,0,21845,10923,0,0,21845,10923,0,0,};
static const uint16_t D_coef2_eob_base_tok[160]={12676,1994,0,0,2073,748,0,0,1637,665,0,0,4102,1898,0,0,5510,1673,0,0,964,145,0,0,
1005,240,0,0,1330,262,0,0,14719,2279,0,0,1062,482,0,0,605,295,0,0,1218,584,0,0,
5652,1926,0,0,797,170,0,0,680,192,0,0,701,104,0,0,19914,3675,0,0,496,210,0,0,
101,39,0,0,462,183,0,0,7292,2402,0,0,599,81,0,0,289,79,0,0,1095,134,0,0,
29959,13467,0,0,563,146,0,0,430,38,0,0,982,152,0,0,10031,3663,0,0,1958,406,0,0,
2754,141,0,0,2240,194,0,0,31833,29386,0,0,1979,859,0,0,302,12,0,0,1908,255,0,0,
21845,10923,0,0,21845,10923,0,0,21845,10923,0,0,21845,10923,0,0,};
static const uint16_t D_coef3_eob_base_tok[160]={10271,1570,0,0,1053,273,0,0,1162,431,0,0,2380,778,0,0,4891,1184,0,0,598,40,0,0,
613,80,0,0,549,66,0,0,11311,1725,0,0,817,285,0,0,615,206,0,0,1295,553,0,0,
5210,1617,0,0,748,128,0,0,671,193,0,0,526,49,0,0,12788,2177,0,0,549,171,0,0,
187,62,0,0,965,481,0,0,6295,2261,0,0,337,45,0,0,572,157,0,0,1180,240,0,0,
8121,2305,0,0,356,73,0,0,300,48,0,0,1499,245,0,0,4286,1263,0,0,616,67,0,0,
1036,170,0,0,1001,56,0,0,20410,7791,0,0,1437,383,0,0,134,12,0,0,2357,220,0,0,
21845,10923,0,0,21845,10923,0,0,21845,10923,0,0,21845,10923,0,0,};
static const uint16_t D_coef0_base_tok[1640]={28734,23838,20041,0,14686,3027,891,0,20172,6644,2275,0,23322,11650,5763,0,26460,17627,11489,0,30305,26411,22985,0,
12101,2222,839,0,19725,6645,2634,0,24617,14011,7990,0,27513,19929,14136,0,29948,25562,21607,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,17032,5215,2164,0,21558,8974,3981,0,26821,18894,13067,0,
28553,23445,18877,0,29935,26306,22709,0,13163,2375,1186,0,19245,6516,2520,0,24322,14146,8256,0,28950,22425,16794,0,
31287,28651,25972,0,10119,1466,578,0,17939,5641,2319,0,24455,15066,9464,0,29746,24467,19982,0,31232,28356,25584,0,
10414,2994,1396,0,18045,7296,3554,0,26095,19023,14106,0,30700,27002,23446,0,24576,16384,8192,0,26466,16324,11007,0,
9728,1230,293,0,17572,4316,1272,0,22748,9822,4254,0,26235,15906,9267,0,29230,22952,17692,0,8324,893,243,0,
16887,3844,1133,0,22846,9895,4302,0,26241,15802,9077,0,28654,21465,15548,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,12567,1998,559,0,18014,4697,1510,0,24390,12582,6251,0,26852,17469,10790,0,
28500,21185,14867,0,8407,743,187,0,14095,2663,825,0,22572,10524,5192,0,27273,18419,12351,0,30092,25353,21270,0,
8090,810,183,0,14139,2862,937,0,23404,12044,6453,0,28127,20450,14674,0,30010,25381,21189,0,7335,926,299,0,
13973,3479,1357,0,25124,15184,9176,0,29360,23754,17721,0,24576,16384,8192,0,28232,22696,18767,0,7309,1352,562,0,
16163,4720,1950,0,21760,9911,5049,0,25853,16500,10453,0,30143,25956,22231,0,8511,980,269,0,15888,3314,889,0,
20810,7714,2990,0,24852,14050,7684,0,29385,23991,19322,0,10048,1165,375,0,17808,4643,1433,0,23037,10558,4840,0,
26464,16936,10491,0,29858,24950,20602,0,12393,2141,637,0,18864,5484,1881,0,23400,11210,5624,0,26831,17802,11649,0,
30101,25543,21449,0,8798,1298,390,0,15595,3034,750,0,19973,7327,2803,0,23787,13088,6875,0,28040,21396,15866,0,
8481,971,329,0,16065,3623,1072,0,21935,9214,4043,0,26300,16202,9711,0,30353,26206,22490,0,6158,373,109,0,
14178,2270,651,0,20348,7012,2818,0,25129,14022,8058,0,29767,24682,20421,0,7692,704,188,0,14822,2640,740,0,
20744,7783,3390,0,25251,14378,8464,0,29525,23987,19437,0,26731,15997,10811,0,7994,1064,342,0,15938,4179,1712,0,
22166,9940,5008,0,26035,15939,9697,0,29518,23854,19212,0,7186,548,100,0,14109,2426,545,0,20222,6619,2253,0,
24348,12317,5967,0,28132,20348,14424,0,5187,406,129,0,13781,2685,790,0,21441,8520,3684,0,25504,15049,8648,0,
28773,22000,16599,0,6875,937,281,0,16191,4181,1389,0,22579,10020,4586,0,25936,15674,9212,0,29060,22658,17434,0,
6864,486,112,0,13047,1976,492,0,19949,6525,2357,0,24196,12154,5877,0,27404,18709,12301,0,6188,330,91,0,
11916,1543,428,0,20333,7068,2801,0,24077,11943,5792,0,28322,20559,15499,0,5418,339,72,0,11396,1791,496,0,
20095,7498,2915,0,23560,11843,6128,0,27750,19417,14036,0,5417,289,55,0,11370,1559,381,0,20606,7721,2926,0,
24872,14077,7449,0,28098,19886,13887,0,27281,22308,19060,0,11171,4465,2094,0,21731,10815,6292,0,24621,14806,9816,0,
27526,19707,14236,0,30879,27560,24586,0,5994,635,178,0,14924,3204,1001,0,21078,8330,3597,0,25226,14553,8309,0,
29775,24718,20449,0,4745,440,177,0,14117,2642,814,0,20604,7622,3179,0,25006,14238,7997,0,29276,23585,18848,0,
5177,760,277,0,15619,3915,1258,0,21283,8765,3908,0,25071,14682,8558,0,29693,24769,20550,0,4500,286,114,0,
13137,1717,364,0,18908,5508,1748,0,23163,11155,5174,0,27892,20606,14860,0,5520,452,192,0,13813,2311,693,0,
20944,8771,3973,0,25422,14572,8121,0,29365,23521,18657,0,3057,113,33,0,11599,1374,351,0,19281,5570,1811,0,
23940,11085,5154,0,28498,21317,15730,0,4060,190,37,0,12648,1527,286,0,19076,5218,1447,0,23350,10254,4329,0,
27769,19485,13306,0,27095,18466,13057,0,6517,2067,934,0,19986,8985,4965,0,23641,12111,6960,0,26400,16560,11306,0,
30303,25591,21946,0,2807,205,49,0,14450,2877,819,0,21407,8254,3411,0,24868,13165,7161,0,28766,22178,17222,0,
3131,458,173,0,14472,2855,959,0,22624,11253,5897,0,27410,18446,12374,0,29701,24406,19422,0,4116,298,92,0,
15230,1997,559,0,18844,5886,2274,0,22272,9931,4899,0,25532,16372,11147,0,2025,81,22,0,9762,1092,279,0,
18274,4940,1648,0,22594,9967,4416,0,26526,17487,11725,0,6951,525,48,0,14150,1401,443,0,18771,4450,890,0,
20513,6234,1385,0,23207,11180,4318,0,4580,133,44,0,10708,403,40,0,14666,2078,240,0,18572,3904,769,0,
20506,6976,1903,0,8592,659,140,0,14488,3087,805,0,22563,9065,3104,0,24879,12743,5092,0,26708,16025,8798,0,
27627,25672,24508,0,5582,3746,2979,0,26100,20200,17086,0,30596,26587,24130,0,31642,29389,28237,0,32325,31407,30514,0,
6685,1615,332,0,19282,8165,4285,0,26260,17928,12858,0,29382,23968,19482,0,31238,28446,25714,0,3129,688,220,0,
16871,5216,2478,0,24180,12721,7385,0,27879,19429,13499,0,30528,25897,22270,0,4603,571,251,0,12033,2341,1200,0,
18443,8097,5076,0,27649,20214,14963,0,30958,27327,24507,0,1556,44,20,0,9416,1002,223,0,18099,5198,1709,0,
24276,11874,5496,0,29124,22574,17564,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,30307,25755,23397,0,
8019,3168,1782,0,23302,13731,10351,0,29184,23488,18368,0,31263,28839,27335,0,32091,31268,30032,0,8781,2066,651,0,
19214,8197,3505,0,26557,18212,11613,0,29633,21796,17143,0,30333,25641,21341,0,1468,236,218,0,18011,2403,814,0,
28363,21156,14215,0,32188,28636,25446,0,31073,22599,18644,0,2760,486,177,0,13524,2660,1020,0,21588,8610,3213,0,
27118,17796,13559,0,30654,27659,24312,0,912,52,20,0,9756,1104,196,0,19074,6112,2132,0,24626,13260,6675,0,
28515,21813,16044,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,32167,31785,31457,0,14043,9362,4681,0,
27307,24576,21845,0,28987,17644,11343,0,30181,25007,20696,0,32662,32310,31958,0,10486,3058,874,0,24260,11842,6784,0,
29042,20055,14685,0,31148,25656,21875,0,32039,30532,29273,0,2605,294,84,0,14464,2304,768,0,21325,6242,3121,0,
26761,17476,11469,0,30534,26065,23831,0,1814,591,197,0,15405,3206,1692,0,23082,10304,5358,0,24576,16384,11378,0,
31013,24722,21504,0,1600,34,20,0,10282,1327,297,0,19935,7141,3030,0,25788,15389,9646,0,29657,23881,19289,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,};
static const uint16_t D_coef1_base_tok[1640]={26727,20914,16841,0,12442,1863,517,0,18604,5937,2043,0,23008,12121,6183,0,26352,17815,11549,0,29802,25617,21877,0,
9201,1394,514,0,17790,5352,1822,0,23334,12543,6514,0,26110,18210,12233,0,28852,24091,19779,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,14680,3223,1181,0,19706,6925,2695,0,23828,15941,10517,0,
25114,19548,14795,0,27035,22452,18312,0,9889,1380,654,0,17553,4775,1813,0,23371,13323,7790,0,29326,22955,17424,0,
31400,28832,26236,0,7274,735,362,0,15996,4805,2050,0,23349,14603,9508,0,30091,25267,20971,0,31252,28424,25598,0,
6212,1314,667,0,15640,5733,2660,0,24444,17424,12519,0,30865,27072,23299,0,24576,16384,8192,0,24313,13765,8400,0,
9205,747,164,0,16531,3322,833,0,22044,8769,3410,0,26043,15240,8352,0,28841,21841,15943,0,6455,480,134,0,
15338,2673,673,0,21652,8162,3089,0,25573,14384,7499,0,28042,19916,13453,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,9946,1120,285,0,16044,3135,839,0,22507,9735,4043,0,25739,14928,8240,0,
27901,18882,11266,0,7470,876,277,0,14959,3438,1256,0,23100,11439,6189,0,27994,19812,13792,0,30446,25738,21228,0,
7296,848,225,0,14811,3381,1136,0,23572,12175,6368,0,28088,20063,13566,0,29851,24312,19332,0,6297,709,194,0,
14310,2985,859,0,24368,13304,6812,0,28956,21795,15562,0,24576,16384,8192,0,25989,19025,15090,0,7962,971,311,0,
15152,3721,1396,0,21705,9593,4765,0,26247,16658,10444,0,30004,25264,21114,0,7502,401,131,0,13714,2215,593,0,
20629,7556,2961,0,25457,14606,8064,0,29371,23604,18694,0,6780,560,246,0,16515,3856,1242,0,23617,11381,5396,0,
27080,17853,11272,0,30051,25141,20764,0,9624,913,325,0,16698,4277,1443,0,24066,12301,6251,0,27525,18812,12401,0,
30147,25433,21201,0,6132,428,138,0,12778,1718,427,0,19525,6663,2453,0,24180,13247,6850,0,28051,21183,15464,0,
6924,476,186,0,13678,2133,671,0,20805,8222,3829,0,26550,16681,10414,0,30428,26160,22342,0,4722,192,74,0,
11590,1455,472,0,19282,6584,2898,0,25619,14897,9045,0,29935,24810,20509,0,5058,240,82,0,12094,1692,500,0,
20355,7813,3525,0,26092,15841,9671,0,29802,24435,19849,0,24129,13429,8339,0,8364,931,243,0,15771,3343,984,0,
21515,8534,3619,0,26017,15374,8740,0,29278,22938,17577,0,6485,297,54,0,13169,1600,326,0,19622,5814,1875,0,
24554,12180,5878,0,28069,19687,13468,0,4556,310,99,0,14174,2452,668,0,21549,8360,3534,0,25903,15112,8619,0,
29090,22406,16762,0,6943,632,152,0,15455,2915,747,0,21571,8297,3296,0,25821,14987,8363,0,29000,22108,16507,0,
5416,268,62,0,11918,1300,299,0,18747,5061,1635,0,23804,11020,4930,0,27331,18103,11581,0,6464,276,70,0,
12359,1388,383,0,19086,5546,2136,0,23794,11532,6083,0,28534,21103,15834,0,6495,411,57,0,12096,1526,327,0,
18596,5514,1866,0,22898,10870,5493,0,27604,19262,13498,0,6043,309,40,0,11777,1326,241,0,19697,6334,1957,0,
24584,12678,6026,0,27965,19513,12873,0,25213,17826,14267,0,8358,1590,481,0,18374,6030,2515,0,24355,13214,7573,0,
28002,19844,13983,0,30739,26962,23561,0,5992,404,105,0,14036,2801,837,0,21763,8982,3916,0,26302,15859,9258,0,
29724,24130,19349,0,3560,186,64,0,12700,1911,560,0,20765,7683,3173,0,25821,15018,8579,0,29523,23665,18761,0,
5409,303,99,0,13347,2154,594,0,20853,7758,3189,0,25818,15092,8694,0,29761,24295,19672,0,3766,92,33,0,
10666,919,192,0,18360,4759,1363,0,23741,11089,4837,0,28074,20090,14020,0,4552,240,86,0,11919,1504,450,0,
20012,6953,3017,0,25203,13967,7845,0,29259,23235,18291,0,2635,81,29,0,9705,858,253,0,18180,4717,1636,0,
23683,11119,5311,0,28507,21114,15504,0,3250,77,20,0,10317,809,155,0,17904,4046,1068,0,23073,9804,4052,0,
27836,19410,13266,0,26303,15810,11080,0,7569,1254,408,0,17994,5619,2161,0,23511,11330,5796,0,27045,17585,10886,0,
29618,23889,19037,0,5779,506,86,0,15372,2831,683,0,21381,7867,2984,0,25479,13947,7220,0,29034,22191,16682,0,
3040,267,73,0,15337,3067,865,0,22847,9942,4468,0,26872,17334,10700,0,29338,23122,18011,0,4154,257,63,0,
13404,2130,505,0,19639,6514,2366,0,24014,12284,6328,0,28390,21161,15658,0,2476,97,24,0,10988,1165,267,0,
18454,4939,1477,0,23157,10441,4505,0,27878,19681,13703,0,6906,201,35,0,11974,718,201,0,15525,2143,514,0,
19485,5140,1294,0,23099,10236,3850,0,5333,71,20,0,7846,378,54,0,11319,1264,232,0,16376,3039,936,0,
21076,7884,3692,0,8575,478,33,0,13859,1664,205,0,20532,5927,1365,0,24597,10928,3686,0,25544,15488,7493,0,
29690,25929,22878,0,18931,12318,8289,0,26854,18546,13440,0,28902,22501,18006,0,30156,25560,21726,0,31701,29777,27992,0,
6951,1122,239,0,19060,6430,2383,0,25440,14183,7898,0,28077,19688,13492,0,30943,27515,24416,0,3382,453,144,0,
15608,3767,1408,0,23166,10906,5372,0,26853,16996,10620,0,29982,24989,20721,0,3522,318,105,0,14072,2839,950,0,
22258,9399,4208,0,26539,16269,9643,0,30160,25320,21063,0,2015,58,20,0,11130,1281,265,0,19831,5914,1898,0,
24586,12172,5798,0,29131,22499,17271,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,27524,20618,15862,0,
12282,5910,3067,0,25012,14451,9033,0,29316,23512,19622,0,30748,27562,24539,0,30967,27775,24865,0,5717,910,237,0,
16780,5237,2149,0,23580,11284,6049,0,26495,15582,8968,0,29660,23413,18004,0,1692,248,88,0,14649,2731,918,0,
22524,9799,5296,0,28076,18691,13495,0,29074,21091,15212,0,2708,187,48,0,11757,1993,648,0,20837,7948,3479,0,
25649,15106,8412,0,28935,22062,16464,0,814,37,20,0,8855,1044,279,0,17248,4708,1482,0,21251,9760,4197,0,
26575,18260,12139,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,31733,29961,28612,0,19606,14630,11829,0,
30072,26135,24013,0,31395,28607,25915,0,31669,30022,28052,0,32428,31747,31169,0,9942,2349,633,0,22373,11006,5826,0,
28042,20361,15407,0,30321,25688,22175,0,31541,29051,26757,0,4612,1344,834,0,15853,5014,2395,0,23620,11778,6337,0,
26818,17253,11620,0,30276,25441,21242,0,2166,291,98,0,12742,2813,1200,0,21548,9140,4663,0,26116,15749,9795,0,
29704,24232,19725,0,999,44,20,0,10538,1881,395,0,20534,7689,3037,0,25442,13952,7415,0,28835,21861,16152,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,};
static const uint16_t D_coef2_base_tok[1640]={23872,16541,12138,0,9139,986,241,0,17595,5013,1447,0,22610,11535,5386,0,26348,17911,11210,0,29499,24613,20122,0,
7933,759,272,0,16259,4347,1189,0,21811,11254,5350,0,24887,16838,10672,0,27380,21808,16850,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,12023,1995,675,0,17568,5547,1907,0,19736,11895,7101,0,
20483,14105,9274,0,21205,15287,11279,0,6508,786,448,0,17371,4685,1668,0,23026,13551,7944,0,29507,23139,17406,0,
31288,28446,25269,0,5169,512,308,0,15911,5109,1994,0,23217,14478,9020,0,29716,23835,18665,0,30747,26858,22981,0,
3763,753,376,0,15091,5074,1905,0,23564,15412,9549,0,30365,25252,19954,0,24576,16384,8192,0,21960,10712,5872,0,
7029,455,92,0,15480,2565,547,0,21409,7890,2872,0,25819,15001,7875,0,28481,20972,14697,0,4888,247,63,0,
13730,1764,354,0,20204,6423,2000,0,24499,12821,5989,0,27094,18111,11094,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,7026,449,97,0,13211,1604,314,0,19387,6387,2013,0,22667,11302,6046,0,
23559,13118,5943,0,5661,851,336,0,14712,3875,1565,0,22568,11334,6004,0,28108,19855,13266,0,30400,25838,20264,0,
5808,610,155,0,14140,2763,737,0,22535,10326,4536,0,27297,18138,11252,0,29533,22001,15659,0,5072,328,76,0,
12736,1601,330,0,24068,11427,4326,0,27106,17937,10973,0,24576,16384,8192,0,23064,15474,11636,0,6006,490,135,0,
14386,3148,949,0,21877,9293,4045,0,26410,16185,9459,0,29520,23650,18627,0,5564,195,69,0,12950,1944,439,0,
20996,7648,2727,0,25773,14735,7729,0,29016,22326,16670,0,5546,512,209,0,17412,4369,1293,0,23947,12133,5711,0,
27257,18364,11529,0,29833,24546,19717,0,7893,648,239,0,17535,4503,1323,0,24163,12198,5836,0,27337,18355,11572,0,
29774,24427,19545,0,4567,164,68,0,11727,1322,312,0,19547,6555,2293,0,24513,13383,6731,0,27838,20183,13938,0,
4000,320,141,0,13063,2207,747,0,21196,9179,4548,0,27236,17734,11322,0,30308,25618,21312,0,2894,149,69,0,
11147,1697,567,0,20257,8021,3776,0,26487,16373,10020,0,29522,23490,18271,0,3053,143,56,0,11810,1757,485,0,
21535,9097,3962,0,26756,16640,9900,0,29341,22917,17354,0,21752,10657,5974,0,6822,411,91,0,14878,2316,516,0,
21090,7626,2952,0,26048,15234,8184,0,28538,21103,14948,0,4368,145,21,0,11604,1100,193,0,19196,5380,1586,0,
24534,12018,5410,0,27703,18713,11871,0,3787,221,63,0,14087,2225,529,0,21849,8693,3482,0,26337,15569,8691,0,
28949,22304,16150,0,5898,301,75,0,13727,1937,421,0,20974,7557,2752,0,25880,14749,7798,0,28398,20405,13776,0,
3190,98,24,0,9609,761,155,0,17453,4099,1092,0,23470,10161,3986,0,26624,16855,9800,0,4658,269,99,0,
11194,1831,753,0,20009,7950,4041,0,26223,16007,9726,0,29119,22171,15935,0,4605,216,40,0,10667,1299,304,0,
19608,7296,2625,0,25465,14084,7300,0,27527,18793,11813,0,4368,137,24,0,10664,975,165,0,19211,6197,1922,0,
25019,12907,6093,0,27895,18738,11534,0,22968,15133,11695,0,6615,883,241,0,17730,4916,1762,0,24050,12204,6282,0,
27640,18692,12254,0,30132,25202,20843,0,5217,264,67,0,14458,2714,668,0,22557,9348,3686,0,26546,15892,8852,0,
29306,22814,17270,0,2777,135,47,0,12885,2017,567,0,21627,8584,3483,0,26348,15828,8994,0,29376,23015,17650,0,
4303,152,56,0,12918,2066,524,0,21785,8744,3545,0,26474,15998,9186,0,29524,23485,18259,0,2745,51,20,0,
9828,736,142,0,18486,4840,1295,0,24206,11441,4854,0,27922,19375,12849,0,2787,178,73,0,12303,1805,602,0,
21289,9189,4573,0,26852,17120,10695,0,29737,24163,19370,0,1622,77,29,0,9662,1044,324,0,18985,6030,2329,0,
24916,13300,6961,0,28908,21644,15915,0,1754,44,20,0,9139,659,140,0,18021,4653,1365,0,24223,11526,5290,0,
28194,19987,13701,0,23583,13074,8080,0,6687,783,147,0,16753,3768,981,0,22226,9078,3562,0,26036,14823,8091,0,
28852,21729,16046,0,4544,202,24,0,13668,1630,283,0,20240,6148,1889,0,25027,12491,5883,0,28202,19923,13778,0,
2835,175,50,0,15098,2435,613,0,22383,9168,3859,0,26525,16532,10361,0,28792,22379,16751,0,4391,207,30,0,
13402,1593,286,0,19441,5593,1674,0,24510,11999,5625,0,28065,19570,13241,0,1682,62,20,0,9915,866,185,0,
18009,4582,1349,0,23484,10386,4420,0,27183,17576,10900,0,4477,116,22,0,12919,661,197,0,17934,5950,3554,0,
22462,10174,4096,0,26153,15384,9384,0,3821,164,23,0,7143,479,122,0,14010,4096,1365,0,22751,9338,4245,0,
25906,17499,10637,0,8835,259,29,0,12841,1273,137,0,20865,6745,2147,0,25742,12674,5516,0,26770,14662,8331,0,
28312,21494,17235,0,11549,3689,1152,0,21595,8994,4201,0,25486,14475,8505,0,27878,19482,13653,0,30878,27260,24109,0,
6117,632,121,0,18138,4514,1313,0,24052,11481,5373,0,27153,17437,10760,0,30093,25068,20618,0,2814,242,78,0,
16642,3786,1135,0,23738,11407,5416,0,27357,17975,11497,0,29825,24346,19605,0,3229,167,38,0,14643,2383,567,0,
22346,8678,3300,0,26300,15281,8330,0,29798,24115,19237,0,1856,53,20,0,12102,1395,271,0,20259,6128,1851,0,
24710,12139,5478,0,28537,20762,14716,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,22566,12135,7284,0,
5432,1323,416,0,20348,8384,4216,0,25120,14653,8912,0,27106,18427,12866,0,29157,22440,17378,0,1823,152,32,0,
14086,2263,515,0,21255,7432,2565,0,25319,13316,6620,0,28286,19717,13882,0,746,78,21,0,14190,2267,622,0,
21519,9400,4137,0,27123,15810,10610,0,27759,21324,16131,0,1411,58,20,0,11216,1274,264,0,18877,5091,1428,0,
23717,10670,4596,0,27578,19391,13282,0,404,28,20,0,7929,861,217,0,15608,3989,1072,0,20316,8631,3166,0,
26603,17379,10291,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,30193,25487,21691,0,18766,11902,7366,0,
26425,17712,13110,0,28294,20910,15727,0,29903,24469,20234,0,31424,28819,26377,0,8048,1529,309,0,20183,7412,2800,0,
25587,14522,8324,0,27743,19101,12883,0,30247,25464,21163,0,2860,516,184,0,15347,3612,1193,0,22879,10580,4986,0,
26890,17121,10645,0,29954,24103,19445,0,2585,200,55,0,14240,2573,719,0,21786,8162,3111,0,25811,14603,7537,0,
29260,22650,17300,0,1007,32,20,0,11727,1440,222,0,20200,6036,1602,0,24716,12048,5035,0,28432,20576,14372,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,};
static const uint16_t D_coef3_base_tok[1640]={25706,16296,10449,0,8230,507,94,0,19093,4727,989,0,24178,12094,5137,0,27083,18093,10755,0,29113,22870,17037,0,
6275,350,110,0,16392,3426,678,0,22174,10119,3798,0,24592,15598,8465,0,27163,20074,13629,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,8880,866,226,0,14156,3081,781,0,16523,7916,3519,0,
17003,10160,5209,0,12873,8069,5258,0,4367,556,311,0,17494,4943,1788,0,23404,14640,8436,0,30485,24575,17686,0,
31540,28796,24887,0,3313,299,148,0,14787,4523,1380,0,21847,12670,6528,0,29025,20939,14111,0,30394,23175,17053,0,
1700,302,133,0,12447,3196,797,0,21997,12513,5649,0,29973,22358,15407,0,24576,16384,8192,0,23448,10666,4928,0,
5711,304,44,0,16437,2500,459,0,22449,8833,3048,0,26579,16320,8662,0,29179,21884,13960,0,3742,144,20,0,
13542,1261,181,0,20076,5847,1565,0,25719,13236,5133,0,25041,17099,9516,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,4712,143,20,0,10385,693,99,0,17351,5670,1019,0,14641,6275,5578,0,
27307,16384,10923,0,4786,677,184,0,13723,2900,796,0,22371,10502,4836,0,26778,19071,11268,0,30976,25856,17664,0,
4570,267,50,0,11234,1247,199,0,21659,7551,2751,0,27097,17644,6617,0,28087,18725,14043,0,4080,188,27,0,
10192,689,107,0,22141,10627,4428,0,23406,18725,4681,0,24576,16384,8192,0,25014,15820,10626,0,7098,438,77,0,
17105,3543,774,0,22890,9480,3610,0,26349,15680,8432,0,28909,21765,15729,0,5206,173,43,0,15193,2180,369,0,
21949,7930,2459,0,25644,14082,6852,0,28289,20080,13428,0,4383,292,95,0,17462,3763,830,0,23831,11153,4446,0,
26786,17165,9982,0,29148,22501,16632,0,5488,304,101,0,17161,3608,764,0,23677,10633,4028,0,26536,16136,8748,0,
28721,21391,15096,0,3548,138,50,0,13118,1548,306,0,19718,6456,1941,0,23540,11898,5300,0,26622,17619,10797,0,
2599,287,145,0,15556,3457,1214,0,22857,11457,5886,0,28281,19454,12396,0,30198,24996,19879,0,1844,155,60,0,
13278,2562,661,0,21536,8770,3492,0,25999,14813,7733,0,28370,20145,13554,0,2159,141,46,0,13398,2186,481,0,
22311,9149,3359,0,26325,15131,7934,0,28123,19532,12662,0,24142,12497,6552,0,6061,362,57,0,15769,2439,482,0,
21323,7645,2482,0,26357,13940,7167,0,25967,20310,12520,0,2850,86,20,0,12119,1029,150,0,19889,4995,1187,0,
24872,11017,4524,0,27508,17898,9070,0,3516,175,37,0,15696,2308,474,0,22115,8625,3403,0,26232,15278,8785,0,
27839,19598,12683,0,4631,250,53,0,14597,1984,361,0,21331,7332,2309,0,25516,14234,6592,0,28642,19415,11790,0,
1606,42,20,0,9751,546,67,0,17139,3535,722,0,23381,10147,3288,0,25846,15152,7758,0,3930,503,154,0,
13067,2562,848,0,21554,10358,4835,0,27448,18591,9734,0,27719,19887,14941,0,5284,297,34,0,11692,1242,207,0,
20061,6465,1557,0,24599,11046,4549,0,26723,13362,5726,0,5015,196,23,0,11936,890,115,0,19518,5412,1094,0,
25050,11260,2910,0,25559,14418,7209,0,24892,15867,11027,0,8767,870,143,0,18239,4809,1317,0,24495,11950,5510,0,
27490,18095,11258,0,29785,23925,18729,0,4752,194,36,0,15297,2462,467,0,22544,8705,3040,0,26166,14814,7716,0,
28766,21183,15009,0,2578,134,29,0,15271,2486,498,0,22539,9039,3230,0,26424,15557,8328,0,28919,21579,15660,0,
4198,185,42,0,15247,2607,530,0,22615,9203,3390,0,26313,15427,8325,0,28861,21726,15744,0,2079,53,20,0,
11222,928,158,0,19221,5187,1309,0,23856,11011,4459,0,27220,17688,10722,0,1985,228,83,0,15228,3240,1100,0,
22608,11300,5985,0,28044,19375,12714,0,30066,24594,19666,0,1120,82,26,0,11814,1674,431,0,20348,7070,2589,0,
25464,13448,6520,0,28402,20507,13904,0,1187,45,20,0,11395,1182,243,0,20024,6143,1883,0,25337,12446,5818,0,
28076,19445,12657,0,24935,14399,8673,0,6118,495,66,0,16397,2807,577,0,21713,8686,3139,0,25876,14124,7368,0,
27762,19711,13528,0,2934,102,20,0,13191,1433,198,0,20515,6259,1646,0,24777,11996,5057,0,27091,16858,9709,0,
2659,236,48,0,16021,2602,516,0,22634,9226,3584,0,26977,16592,9212,0,28406,22354,15484,0,3276,142,20,0,
12874,1366,243,0,19826,5697,1899,0,24422,11552,5363,0,26196,15681,8909,0,733,33,20,0,9811,930,150,0,
18044,4196,996,0,22404,8769,3215,0,25764,14335,7113,0,5240,491,87,0,15809,1597,672,0,22282,9175,4806,0,
24576,16384,9557,0,23831,14895,11916,0,5053,766,153,0,17695,3277,1092,0,21504,8192,4096,0,30427,14043,9362,0,
25486,14564,7282,0,4221,555,111,0,11980,2995,529,0,25988,11299,2260,0,26810,17873,8937,0,16384,10923,5461,0,
26776,18464,13003,0,10156,1530,312,0,19312,5606,1681,0,24767,12706,6264,0,27600,18663,12004,0,30136,24997,20383,0,
5734,424,59,0,16918,3353,771,0,23274,9992,3927,0,26617,15938,8799,0,29307,22729,17046,0,2634,199,37,0,
17130,3346,823,0,23618,10903,4550,0,27121,17049,10092,0,29366,22996,17291,0,4238,182,33,0,15629,2470,476,0,
22568,8729,3083,0,26349,15094,7982,0,29224,22543,16944,0,1435,42,20,0,12150,1281,224,0,19867,5551,1536,0,
24144,11034,4597,0,27664,18577,12020,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,21562,11678,6207,0,
4009,489,97,0,18597,4816,1199,0,23025,9861,3627,0,25897,14882,7900,0,27808,19616,13453,0,1691,107,20,0,
13368,1573,253,0,20016,5910,1728,0,24398,10670,4177,0,27311,17395,10470,0,1071,62,20,0,14908,2111,435,0,
20258,7956,3507,0,26588,13644,8046,0,27727,19220,14809,0,1216,52,20,0,10860,999,145,0,18298,4567,1203,0,
23275,9786,4160,0,25910,15528,8631,0,225,16,12,0,8482,671,102,0,16810,3551,744,0,22561,8534,2810,0,
25839,14463,7116,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,28631,21921,17086,0,14944,5767,2710,0,
22564,9972,4477,0,26692,16833,10643,0,28916,21831,15952,0,30516,26444,22637,0,6928,752,106,0,17659,4500,1237,0,
23383,10537,4428,0,26686,16096,9289,0,29450,23341,18087,0,2174,194,50,0,15932,3216,909,0,23212,10226,4412,0,
26463,16043,9228,0,29392,22873,17584,0,3385,151,23,0,13877,1959,367,0,21080,6826,2081,0,25300,13299,6117,0,
28859,21410,15756,0,1204,32,20,0,11862,1157,168,0,19577,5147,1231,0,24000,10739,4092,0,27689,18659,11862,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,24576,16384,8192,0,
24576,16384,8192,0,24576,16384,8192,0,};
static const uint16_t D_coef0_br_tok[672]={18470,12050,8594,0,20232,13167,8979,0,24056,17717,13265,0,26598,21441,17334,0,28026,23842,20230,0,28965,25451,22222,0,
31072,29451,27897,0,18376,12817,10012,0,16790,9550,5950,0,20581,13294,8879,0,23592,17128,12509,0,25700,20113,15740,0,
27112,22326,18296,0,30188,27776,25524,0,20632,14719,11342,0,18984,12047,8287,0,21932,15147,10868,0,24396,18324,13921,0,
26245,20989,16768,0,27431,22870,19008,0,29734,26908,24306,0,16801,9863,6482,0,19234,12114,8189,0,23264,16676,12233,0,
25793,20200,15865,0,27404,22677,18748,0,28411,24398,20911,0,30262,27834,25550,0,9736,3953,1832,0,13228,6064,3049,0,
17610,9799,5671,0,21360,13903,9118,0,23883,17320,12518,0,25660,19915,15352,0,28537,24727,21288,0,12945,6278,3612,0,
13878,6839,3836,0,17108,9277,5335,0,20621,12992,8280,0,23040,15994,11119,0,24849,18491,13702,0,27328,22598,18583,0,
18362,11906,8354,0,20944,13861,9659,0,24511,18375,13965,0,26908,22021,17990,0,28293,24282,20784,0,29162,25814,22725,0,
31032,29358,27720,0,18338,12722,9886,0,17175,9869,6059,0,20666,13400,8957,0,23709,17184,12506,0,25769,20165,15720,0,
27084,22271,18215,0,29946,27330,24906,0,16983,11183,8409,0,14421,7539,4502,0,17794,10281,6379,0,21345,14087,9497,0,
23905,17418,12760,0,25615,19916,15490,0,29061,25732,22786,0,17308,11072,7299,0,20598,13519,9577,0,24045,17741,13436,0,
26340,21064,16894,0,27846,23476,19716,0,28629,25073,21758,0,30477,28260,26170,0,12912,5848,2940,0,14845,7479,3976,0,
18490,10800,6471,0,21858,14632,9818,0,24345,17953,13141,0,25997,20485,15994,0,28694,25018,21687,0,12916,6694,4096,0,
13397,6658,3779,0,16503,8895,5105,0,20010,12390,7816,0,22673,15670,10807,0,24518,18140,13317,0,27563,23023,19146,0,
22205,16535,13005,0,22974,16746,12964,0,26018,20823,17009,0,27805,23582,20016,0,28923,25333,22141,0,29717,26683,23934,0,
31457,30172,28938,0,21522,16364,13079,0,20453,13857,10037,0,22211,15673,11479,0,24632,18762,14519,0,26420,21294,17203,0,
27572,23113,19368,0,30419,28242,26181,0,19431,14038,11199,0,13462,6697,3886,0,16816,9228,5514,0,20359,12834,8338,0,
23008,16062,11379,0,24764,18548,13950,0,28630,24974,21807,0,21898,16084,11819,0,23104,17538,14088,0,25882,20659,17360,0,
27943,23868,20463,0,29138,25606,22454,0,29732,26339,23381,0,31097,29472,27828,0,18949,13609,9742,0,20784,13660,9648,0,
22078,15558,11105,0,24784,18614,14435,0,25900,20474,16644,0,27494,23774,19900,0,29780,26997,24344,0,13032,6121,3627,0,
13835,6698,3784,0,16989,9720,5568,0,20130,12707,8236,0,22076,15223,10548,0,23551,17517,12714,0,27690,23484,20174,0,
30437,29106,27524,0,29877,27997,26623,0,28170,25145,23039,0,29248,25923,23569,0,29351,26649,23444,0,30167,27356,25383,0,
32168,31595,31024,0,25096,19482,15299,0,28536,24976,21975,0,29853,27451,25371,0,30450,28412,26616,0,30641,28768,27214,0,
30918,29290,27493,0,31791,30835,29925,0,14488,8381,4779,0,16916,10097,6583,0,18923,11817,7979,0,21713,14802,10639,0,
23630,17346,12967,0,25314,19623,15312,0,29398,26375,23755,0,26926,23539,21930,0,30455,29277,28492,0,29770,26664,25272,0,
30348,25321,22900,0,29734,24273,21845,0,28692,23831,21793,0,31682,30398,29469,0,23054,15514,12324,0,24225,19070,15645,0,
27850,23761,20858,0,28639,25236,22215,0,30404,27235,24710,0,30934,29222,27205,0,31295,29860,28635,0,17363,11575,7149,0,
17077,10816,6207,0,19806,13574,8603,0,22496,14913,10639,0,24180,17498,12050,0,24086,18099,13268,0,27898,23132,19563,0,
};
static const uint16_t D_coef1_br_tok[672]={17773,11427,8019,0,19610,12479,8167,0,23827,17442,12892,0,26471,21227,16961,0,27951,23739,19992,0,29037,25495,22141,0,
30921,29151,27414,0,18296,13109,10425,0,15962,8606,5235,0,19868,12364,8055,0,23357,16656,11971,0,25712,20071,15620,0,
27224,22429,18308,0,29814,27064,24449,0,20304,14697,11414,0,17286,10240,6734,0,20698,13499,9144,0,23815,17362,12662,0,
25741,20038,15548,0,26881,21855,17628,0,28975,25490,22321,0,17197,10536,7019,0,18262,11193,7394,0,22579,15679,11199,0,
25452,19467,14853,0,26985,21856,17578,0,28008,23613,19680,0,29775,26802,23994,0,9344,3865,1990,0,11993,5102,2478,0,
16294,8358,4469,0,20297,12588,7781,0,23358,16281,11329,0,25232,19154,14239,0,27720,23182,19219,0,11678,5478,3012,0,
11972,5366,2742,0,14949,7283,3799,0,18908,10859,6306,0,21766,14274,9239,0,23815,16839,11871,0,26320,20850,16314,0,
16769,10560,7319,0,19718,12780,8646,0,24174,17904,13390,0,26735,21689,17530,0,28214,24085,20421,0,29096,25629,22431,0,
30868,28997,27192,0,16980,11428,8819,0,15943,8533,5010,0,19895,12366,7958,0,23178,16405,11674,0,25416,19559,15035,0,
26808,21779,17584,0,29536,26534,23761,0,17007,12052,9544,0,13450,6779,4009,0,17239,9674,5839,0,21106,13779,9127,0,
23813,17200,12402,0,25487,19662,15060,0,28520,24709,21328,0,17869,11551,8265,0,19249,12485,8721,0,23339,16802,12403,0,
26068,20413,16116,0,27680,23064,19052,0,28525,24614,21037,0,30066,27404,24907,0,10023,4380,2314,0,12533,5622,2846,0,
16872,9053,5131,0,20928,13418,8637,0,23646,16836,11888,0,25280,19187,14406,0,27654,23200,19398,0,11923,6215,3836,0,
11787,5396,2884,0,14987,7433,3983,0,19008,11060,6471,0,21793,14353,9403,0,23723,16979,12082,0,26638,21569,17345,0,
19219,13044,9610,0,20924,14386,10522,0,24849,19149,14995,0,27282,22625,18822,0,28602,24785,21444,0,29404,26262,23341,0,
31170,29608,28094,0,17487,11789,8987,0,17829,10649,6816,0,21405,14361,9956,0,24159,17911,13398,0,26031,20584,16288,0,
27262,22505,18506,0,29778,26982,24388,0,12519,7515,5351,0,11698,5250,2767,0,15914,8299,4694,0,19904,12282,7768,0,
22806,15790,10990,0,24694,18430,13720,0,28274,24289,20862,0,18808,13151,9939,0,21618,15427,11540,0,25618,19804,15578,0,
27437,22766,18901,0,28601,25024,21711,0,29288,26139,23122,0,30885,28984,27082,0,14016,7108,3856,0,15800,8182,4738,0,
19248,11713,7455,0,22315,15142,10488,0,24382,18263,13652,0,26026,20173,15760,0,28495,24628,21269,0,10648,4941,2535,0,
12205,5410,2873,0,15692,8124,4615,0,19406,11826,7459,0,21974,14803,10073,0,23754,17116,12449,0,27060,22256,18271,0,
27063,21838,17043,0,24822,20003,16653,0,25967,20645,16542,0,27306,22633,18568,0,28579,24757,21261,0,29577,26539,23360,0,
31711,30631,29556,0,22750,15701,11277,0,25388,20186,16315,0,26700,21923,18429,0,27670,23570,20213,0,28456,24758,21649,0,
29068,25802,22987,0,31075,29442,27881,0,14011,7838,4994,0,15120,8172,4951,0,18061,10716,6742,0,21048,13916,9476,0,
23411,16816,12243,0,24958,19015,14558,0,28889,25435,22440,0,24490,19526,16846,0,22221,16901,13849,0,23662,16926,12159,0,
25935,19761,15550,0,27957,23056,18845,0,28783,25416,21640,0,31080,29310,27506,0,19817,10907,6258,0,22980,16724,12492,0,
26459,21524,17898,0,27585,23419,20202,0,28379,24539,21276,0,29135,25823,22148,0,29168,25921,22861,0,11020,4631,2513,0,
13332,6187,3208,0,16409,8567,4815,0,18807,11075,6897,0,21224,14082,9446,0,23396,16306,11816,0,26630,21558,17378,0,
};
static const uint16_t D_coef2_br_tok[672]={16630,10545,7259,0,17421,10338,6436,0,23154,16032,11436,0,26168,20493,15861,0,27957,23344,19221,0,29020,24959,21348,0,
30514,28181,25878,0,17572,12484,9591,0,14451,7299,4317,0,18850,11117,6926,0,22716,15618,10773,0,25269,19138,14181,0,
26610,21351,16765,0,28754,24983,21516,0,17720,11701,8384,0,14566,7422,4215,0,18466,10749,6412,0,21929,14629,9602,0,
24053,17024,11962,0,25232,19192,14224,0,27355,22433,18270,0,15374,8267,4873,0,16879,9348,5583,0,21207,13635,8898,0,
24483,17956,12924,0,26272,20725,16218,0,27997,23194,19091,0,29165,25938,22624,0,11112,5064,2568,0,11444,4853,2257,0,
15441,7432,3771,0,19351,11387,6735,0,22636,15343,10430,0,24188,17752,13135,0,27074,21291,16357,0,8652,2988,1318,0,
8915,3073,1177,0,12683,5154,2340,0,17442,8433,4193,0,20954,13296,7958,0,22547,14157,8001,0,25079,18210,12447,0,
16554,10388,6998,0,18555,11464,7473,0,23555,16945,12313,0,26373,21010,16629,0,27989,23581,19702,0,28947,25267,21815,0,
30475,28201,25973,0,16909,11485,8948,0,14364,7166,4042,0,18443,10788,6562,0,22099,14831,10048,0,24471,18126,13321,0,
26022,20379,15875,0,28444,24517,20998,0,16236,11137,8293,0,12101,5618,3100,0,16040,8258,4593,0,19907,12123,7436,0,
22692,15407,10351,0,24373,17828,12805,0,27037,22085,17856,0,18335,11613,7830,0,18110,11052,7223,0,22845,15944,11211,0,
25786,19716,15047,0,27349,22265,17718,0,27916,23606,19754,0,29497,26373,23138,0,10558,4935,2659,0,12018,5400,2947,0,
15874,7940,4195,0,19521,11492,7011,0,22730,15503,10205,0,24181,17821,12441,0,27123,21397,17516,0,10741,5242,3054,0,
9670,3622,1547,0,12882,5427,2496,0,17159,9021,4722,0,20775,12703,7829,0,23131,14501,9097,0,25143,18967,13624,0,
18330,11970,8679,0,20147,13565,9671,0,24591,18643,14366,0,27094,22267,18312,0,28532,24529,21035,0,29321,26018,22962,0,
30782,28818,26904,0,16560,10669,7838,0,16231,8743,5183,0,19988,12387,7901,0,23001,16156,11352,0,25082,19030,14370,0,
26435,21154,16804,0,28827,25197,21932,0,9949,5346,3566,0,10544,4254,2047,0,15108,7335,3855,0,19194,11286,6766,0,
22139,14791,9830,0,24156,17470,12503,0,27161,22277,18172,0,19199,12968,9562,0,19640,12844,8899,0,24439,17927,13365,0,
26638,21792,17711,0,28086,23929,20250,0,29112,25359,22180,0,30191,27669,25356,0,10341,4084,2183,0,11855,5018,2629,0,
16928,8659,4934,0,20460,12739,8199,0,22552,15983,11310,0,24459,18565,13655,0,26725,21600,17461,0,9602,3867,1770,0,
10869,4363,2017,0,14355,6677,3325,0,17535,9654,5416,0,20085,12296,7480,0,22066,14509,9359,0,24643,18304,13542,0,
23728,17982,14408,0,22789,17050,13353,0,24855,18850,14457,0,26909,21879,17584,0,28175,24091,20258,0,28948,25372,21977,0,
31038,29297,27576,0,20965,14403,10059,0,21349,14710,10543,0,23350,16994,12525,0,25229,19443,15111,0,26535,21451,17384,0,
27631,23112,19223,0,29791,26994,24419,0,11561,5522,3128,0,13221,6190,3271,0,16599,8897,5078,0,19948,12310,7750,0,
22544,15436,10554,0,24242,17720,12884,0,27731,23358,19650,0,20429,15439,12628,0,19263,12873,9543,0,22921,15824,11204,0,
25488,19512,14420,0,28056,22759,18314,0,28407,24854,20291,0,29898,27140,24773,0,12707,7264,4242,0,17533,9890,6623,0,
19783,12810,8613,0,22986,16127,11365,0,23312,16408,12008,0,25913,19828,14211,0,27107,22204,17766,0,7112,2166,874,0,
10198,3661,1676,0,13851,6345,3227,0,16828,9119,5014,0,19965,12187,7549,0,21686,14073,9392,0,24829,18395,13763,0,
};
static const uint16_t D_coef3_br_tok[672]={14453,8479,5217,0,15914,8700,4933,0,22628,14841,9595,0,26046,19786,14501,0,28107,22942,18062,0,28936,24603,20474,0,
29973,26670,23523,0,15623,9442,6096,0,12035,5088,2460,0,16736,8307,4222,0,21115,12675,7687,0,23478,16339,10682,0,
24972,18170,12786,0,26266,20390,15327,0,11087,5036,2448,0,10379,3724,1507,0,13741,6037,2681,0,18029,9013,4144,0,
21410,11990,7257,0,21773,14695,8578,0,23606,17778,12151,0,11343,4816,2380,0,14706,6930,3734,0,20812,12887,7960,0,
25050,17768,11788,0,27066,21514,16625,0,27870,23680,15904,0,29089,25992,20861,0,9474,2608,1105,0,8371,2872,932,0,
13523,5640,2175,0,19566,12943,6364,0,21190,13471,8811,0,24695,19471,11398,0,27307,21845,13023,0,5401,2247,834,0,
7864,2097,828,0,9693,4308,1469,0,18368,9110,2351,0,18883,8886,4443,0,18022,9830,4915,0,27307,16384,5461,0,
14494,7955,4878,0,17231,9619,5765,0,23319,16028,10941,0,26068,20270,15507,0,27780,22902,18570,0,28532,24621,20866,0,
29901,26908,24114,0,15644,9597,6667,0,12372,5291,2620,0,16195,8139,4276,0,20019,11922,7094,0,22535,14890,9950,0,
24243,17436,12405,0,26485,21136,16513,0,12302,6257,3482,0,9709,3594,1577,0,13287,5505,2527,0,17310,9137,4631,0,
20352,12160,7075,0,22507,14757,9507,0,24752,18113,13102,0,15152,8182,4656,0,16959,9469,5613,0,22001,13878,8975,0,
25041,18513,13903,0,26639,20842,15886,0,28286,23064,17907,0,29491,25316,21246,0,9812,4217,2038,0,10044,3831,1807,0,
14301,6444,3188,0,19534,12055,7119,0,21587,15176,10287,0,24477,14410,8192,0,25200,20887,17784,0,7820,3767,1621,0,
7094,2149,617,0,11927,5975,3165,0,18099,8412,4102,0,21434,9175,4549,0,23846,18006,9895,0,24467,19224,12233,0,
15655,9035,5687,0,18629,11362,7316,0,24216,17766,12992,0,26897,21648,17390,0,28313,24152,20515,0,29299,25858,22382,0,
30513,28215,25986,0,14544,8392,5715,0,13478,6058,3154,0,17832,9777,5584,0,21530,13817,9006,0,23982,17151,12180,0,
25451,19540,14765,0,27667,23256,19275,0,10129,4546,2558,0,9552,3437,1461,0,13693,6006,2873,0,17754,9655,5311,0,
20830,12911,8016,0,22826,15488,10486,0,25601,19624,15016,0,16948,10030,6280,0,19238,11883,7552,0,24373,17238,12316,0,
26194,20447,16388,0,27415,22349,18200,0,28155,24322,20387,0,29328,25610,22865,0,8521,3717,1544,0,10650,4710,2399,0,
16270,8000,4379,0,19848,11593,6631,0,22038,14149,7416,0,22581,16489,9977,0,23458,18137,10641,0,7798,2210,711,0,
7967,2826,1070,0,10336,4315,1913,0,13714,7088,3188,0,18376,9732,4659,0,20273,11821,6118,0,20326,12442,6554,0,
20606,13983,10120,0,20019,13071,8962,0,24188,17471,12422,0,26599,21019,16225,0,27932,23377,19320,0,28947,25057,21155,0,
30540,28167,25698,0,16449,8043,4488,0,17070,9491,5600,0,20042,12400,7721,0,22856,15753,10792,0,24880,18548,13589,0,
25991,20484,15750,0,28276,24178,20516,0,9519,3864,1821,0,11718,4860,2256,0,15328,7428,3819,0,18709,10750,6227,0,
21480,13865,8870,0,23357,16426,11340,0,26490,21180,16824,0,18787,12701,9542,0,15846,9188,5985,0,21763,13729,8281,0,
25379,18550,12970,0,27170,21263,15562,0,26678,21555,17109,0,28948,25397,22649,0,11686,5843,3093,0,11506,4141,1640,0,
14376,6314,2331,0,17898,9858,5672,0,20148,13284,7860,0,23478,16215,9966,0,26100,18480,12764,0,5064,1713,819,0,
8059,2790,980,0,11100,3504,1111,0,14473,5800,2694,0,16369,8346,3455,0,18421,9742,4664,0,20398,12962,8291,0,
};
static const uint16_t D_coef0_eob_hi_bit[220]={16384,0,16384,0,15807,0,15545,0,25147,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
16384,0,13699,0,10243,0,19391,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
12367,0,15743,0,19923,0,19895,0,18674,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,12087,0,
12067,0,17518,0,17751,0,17840,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,8863,0,15574,0,
16598,0,15073,0,18942,0,16958,0,20732,0,16384,0,16384,0,16384,0,16384,0,8809,0,11969,0,13747,0,
16565,0,14882,0,18624,0,20758,0,16384,0,16384,0,16384,0,16384,0,5369,0,16441,0,14697,0,13184,0,
12047,0,14336,0,13208,0,22618,0,23963,0,16384,0,16384,0,7836,0,11935,0,20741,0,16098,0,12854,0,
17662,0,15106,0,18985,0,4012,0,16384,0,16384,0,9362,0,10923,0,14336,0,16384,0,15672,0,20207,0,
15448,0,10373,0,11398,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
16384,0,16384,0,};
static const uint16_t D_coef1_eob_hi_bit[220]={16384,0,16384,0,15297,0,12545,0,21411,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
16384,0,12433,0,11101,0,17950,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
12338,0,12106,0,17401,0,15798,0,18111,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,10651,0,
10740,0,14118,0,16726,0,16883,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,10359,0,11756,0,
17118,0,15373,0,17299,0,12563,0,13257,0,16384,0,16384,0,16384,0,16384,0,8548,0,10288,0,15031,0,
13852,0,13500,0,14356,0,13924,0,16384,0,16384,0,16384,0,16384,0,6777,0,12454,0,15037,0,13090,0,
14119,0,15461,0,10970,0,15219,0,17138,0,16384,0,16384,0,6183,0,11299,0,12336,0,15033,0,13488,0,
17533,0,12471,0,10297,0,3771,0,16384,0,16384,0,6163,0,21464,0,16042,0,16208,0,11902,0,9244,0,
12890,0,19299,0,9684,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
16384,0,16384,0,};
static const uint16_t D_coef2_eob_hi_bit[220]={16384,0,16384,0,13785,0,12256,0,17883,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
16384,0,12678,0,13324,0,15482,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
13629,0,11281,0,13809,0,11858,0,13679,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,12232,0,
12104,0,12143,0,13645,0,17906,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,12935,0,11266,0,
15283,0,12501,0,14415,0,9439,0,11290,0,16384,0,16384,0,16384,0,16384,0,10727,0,9334,0,12767,0,
12214,0,11817,0,12623,0,17206,0,16384,0,16384,0,16384,0,16384,0,9456,0,11161,0,16242,0,13811,0,
14734,0,13834,0,8521,0,15847,0,15688,0,16384,0,16384,0,6189,0,7858,0,14131,0,12968,0,12380,0,
22881,0,17126,0,2570,0,8047,0,16384,0,16384,0,5770,0,16031,0,14930,0,13846,0,13253,0,14132,0,
15435,0,16992,0,10110,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
16384,0,16384,0,};
static const uint16_t D_coef3_eob_hi_bit[220]={16384,0,16384,0,12591,0,11979,0,12506,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
16384,0,11352,0,11913,0,9358,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
12530,0,11711,0,13609,0,10431,0,12609,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,12643,0,
12209,0,11061,0,10472,0,15435,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,12827,0,12241,0,
11298,0,10281,0,13210,0,10414,0,12437,0,16384,0,16384,0,16384,0,16384,0,10016,0,7762,0,10693,0,
11192,0,15028,0,11078,0,13557,0,16384,0,16384,0,16384,0,16384,0,11326,0,10410,0,14265,0,12477,0,
12823,0,11474,0,11590,0,13368,0,22212,0,16384,0,16384,0,8120,0,7819,0,12060,0,8863,0,12267,0,
23210,0,23345,0,2403,0,13515,0,16384,0,16384,0,6704,0,10670,0,13155,0,12243,0,15173,0,16150,0,
12271,0,13779,0,17255,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,16384,0,
16384,0,16384,0,};
static const uint16_t D_coef0_skip[130]={919,0,26876,0,20656,0,10833,0,12479,0,5295,0,281,0,25114,0,13295,0,2784,0,22807,0,2526,0,
651,0,1220,0,31219,0,22638,0,16112,0,14177,0,6460,0,231,0,27365,0,14672,0,2765,0,16384,0,
16384,0,16384,0,2811,0,27377,0,14729,0,9202,0,10337,0,6946,0,571,0,28990,0,17432,0,3787,0,
16384,0,16384,0,16384,0,14848,0,30950,0,25486,0,7495,0,21845,0,1214,0,144,0,31402,0,17140,0,
2306,0,32622,0,27636,0,1111,0,26460,0,32651,0,31130,0,30607,0,16384,0,21845,0,2521,0,16384,0,
16384,0,16384,0,16384,0,16384,0,16384,0,};
static const uint16_t D_coef1_skip[130]={2397,0,25198,0,19613,0,12017,0,11799,0,5701,0,755,0,27273,0,14826,0,4488,0,16384,0,16384,0,
16384,0,986,0,30932,0,22079,0,15164,0,11146,0,5250,0,369,0,28349,0,16474,0,4423,0,16384,0,
16384,0,16384,0,867,0,22457,0,14721,0,7962,0,9480,0,4854,0,472,0,28553,0,17012,0,4427,0,
16384,0,16384,0,16384,0,6042,0,31723,0,21065,0,12178,0,14214,0,6798,0,830,0,27185,0,11455,0,
3378,0,32127,0,10503,0,1316,0,6184,0,32580,0,23921,0,8249,0,9830,0,2185,0,160,0,16384,0,
16384,0,16384,0,16384,0,16384,0,16384,0,};
static const uint16_t D_coef2_skip[130]={3154,0,23700,0,19844,0,13230,0,15031,0,8149,0,2126,0,28649,0,16742,0,7111,0,16384,0,16384,0,
16384,0,811,0,29538,0,21615,0,14645,0,12625,0,6232,0,782,0,29718,0,18165,0,7613,0,16384,0,
16384,0,16384,0,405,0,22076,0,13678,0,8411,0,8326,0,4456,0,599,0,29120,0,17078,0,5953,0,
16384,0,16384,0,16384,0,2099,0,28936,0,21105,0,13879,0,12986,0,9455,0,1438,0,27644,0,14049,0,
4300,0,29686,0,11786,0,3325,0,4195,0,29585,0,14966,0,6791,0,6091,0,4936,0,381,0,16384,0,
16384,0,16384,0,16384,0,16384,0,16384,0,};
static const uint16_t D_coef3_skip[130]={5881,0,26039,0,22407,0,15326,0,17723,0,10290,0,3696,0,30055,0,20907,0,11995,0,16384,0,16384,0,
16384,0,865,0,30724,0,25240,0,18150,0,16586,0,8600,0,1731,0,29982,0,21574,0,12613,0,16384,0,
16384,0,16384,0,258,0,24338,0,15450,0,8614,0,9094,0,3979,0,629,0,29328,0,19651,0,10066,0,
16384,0,16384,0,16384,0,1097,0,30712,0,21022,0,15916,0,14133,0,8053,0,1284,0,28112,0,16694,0,
8064,0,30962,0,18123,0,7432,0,1229,0,24335,0,12192,0,4864,0,4916,0,2742,0,327,0,16384,0,
16384,0,16384,0,16384,0,16384,0,16384,0,};
static const uint16_t D_coef0_dc_sign[12]={16768,0,19712,0,13952,0,17536,0,19840,0,15488,0,};
static const uint16_t D_coef1_dc_sign[12]={16768,0,19712,0,13952,0,17536,0,19840,0,15488,0,};
static const uint16_t D_coef2_dc_sign[12]={16768,0,19712,0,13952,0,17536,0,19840,0,15488,0,};
static const uint16_t D_coef3_dc_sign[12]={16768,0,19712,0,13952,0,17536,0,19840,0,15488,0,};
static const uint16_t D_mv_classes[16]={4096,1792,910,448,217,112,28,11,6,1,0,0,0,0,0,0,};
static const uint16_t D_mv_sign[2]={16384,0,};
static const uint16_t D_mv_class0[2]={5120,0,};
static const uint16_t D_mv_class0_fp[8]={16384,8192,6144,0,20480,11520,8640,0,};
static const uint16_t D_mv_class0_hp[2]={12288,0,};
static const uint16_t D_mv_classN[20]={15360,0,14848,0,13824,0,12288,0,10240,0,8192,0,4096,0,2816,0,2816,0,2048,0,};
static const uint16_t D_mv_classN_fp[4]={24576,15360,11520,0,};
static const uint16_t D_mv_classN_hp[2]={16384,0,};
static const uint16_t D_mv_joint[4]={28672,21504,13440,0,};
static const uint16_t D_kfym[400]={17180,15741,13430,12550,12086,11658,10943,9524,8579,4603,3675,2302,0,0,0,0,20752,14702,13252,12465,12049,11324,10880,9736,
8334,4110,2596,1359,0,0,0,0,22716,21997,10472,9980,9713,9529,8635,7148,6608,3432,2839,1201,0,0,0,0,
18677,17362,16326,13960,13632,13222,12770,10672,8022,3183,1810,306,0,0,0,0,20646,19503,17165,16267,14159,12735,10377,7185,
6331,2507,1695,293,0,0,0,0,22745,13183,11920,11328,10936,10008,9679,8745,7387,3754,2286,1332,0,0,0,0,
26785,8669,8208,7882,7702,6973,6855,6345,5158,2863,1492,974,0,0,0,0,25324,19987,12591,12040,11691,11161,10598,9363,
8299,4853,3678,2276,0,0,0,0,24231,18079,17336,15681,15360,14596,14360,12943,8119,3615,1672,558,0,0,0,0,
25225,18537,17272,16573,14863,12051,10784,8252,6767,3093,1787,774,0,0,0,0,20155,19177,11385,10764,10456,10191,9367,7713,
7039,3230,2463,691,0,0,0,0,23081,19298,14262,13538,13164,12621,12073,10706,9549,5025,3557,1861,0,0,0,0,
26585,26263,6744,6516,6402,6334,5686,4414,4213,2301,1974,682,0,0,0,0,22050,21034,17814,15544,15203,14844,14207,11245,
8890,3793,2481,516,0,0,0,0,23574,22910,16267,15505,14344,13597,11205,6807,6207,2696,2031,305,0,0,0,0,
20166,18369,17280,14387,13990,13453,13044,11349,7708,3072,1851,359,0,0,0,0,24565,18947,18244,15663,15329,14637,14364,13300,
7543,3283,1610,426,0,0,0,0,24317,23037,17764,15125,14756,14343,13698,11230,8163,3650,2690,750,0,0,0,0,
25054,23720,23252,16101,15951,15774,15615,14001,6025,2379,1232,240,0,0,0,0,23925,22488,21272,17451,16116,14825,13660,10050,
6999,2815,1785,283,0,0,0,0,20190,19097,16789,15934,13693,11855,9779,7319,6549,2554,1618,291,0,0,0,0,
23205,19142,17688,16876,15012,11905,10561,8532,7388,3115,1625,491,0,0,0,0,24412,23867,15152,14512,13418,12662,10170,6821,
6302,2868,2245,507,0,0,0,0,21933,20953,19644,16726,15750,14729,13821,10015,8153,3279,1885,286,0,0,0,0,
25150,24480,22909,22259,17382,14111,9865,3992,3588,1413,966,175,0,0,0,0,};
static const uint16_t T_dq[1536]={4,4,8,8,8,9,9,10,10,11,11,12,12,13,12,14,13,15,14,16,15,17,16,18,
17,19,18,20,19,21,19,22,20,23,21,24,22,25,23,26,24,27,25,28,26,29,26,30,
27,31,28,32,29,33,30,34,31,35,32,36,32,37,33,38,34,39,35,40,36,41,37,42,
38,43,38,44,39,45,40,46,41,47,42,48,43,49,43,50,44,51,45,52,46,53,47,54,
48,55,48,56,49,57,50,58,51,59,52,60,53,61,53,62,54,63,55,64,56,65,57,66,
57,67,58,68,59,69,60,70,61,71,62,72,62,73,63,74,64,75,65,76,66,77,66,78,
67,79,68,80,69,81,70,82,70,83,71,84,72,85,73,86,74,87,74,88,75,89,76,90,
77,91,78,92,78,93,79,94,80,95,81,96,81,97,82,98,83,99,84,100,85,101,85,102,
87,104,88,106,90,108,92,110,93,112,95,114,96,116,98,118,99,120,101,122,102,124,104,126,
105,128,107,130,108,132,110,134,111,136,113,138,114,140,116,142,117,144,118,146,120,148,121,150,
123,152,125,155,127,158,129,161,131,164,134,167,136,170,138,173,140,176,142,179,144,182,146,185,
148,188,150,191,152,194,154,197,156,200,158,203,161,207,164,211,166,215,169,219,172,223,174,227,
177,231,180,235,182,239,185,243,187,247,190,251,192,255,195,260,199,265,202,270,205,275,208,280,
211,285,214,290,217,295,220,300,223,305,226,311,230,317,233,323,237,329,240,335,243,341,247,347,
250,353,253,359,257,366,261,373,265,380,269,387,272,394,276,401,280,408,284,416,288,424,292,432,
296,440,300,448,304,456,309,465,313,474,317,483,322,492,326,501,330,510,335,520,340,530,344,540,
349,550,354,560,359,571,364,582,369,593,374,604,379,615,384,627,389,639,395,651,400,663,406,676,
411,689,417,702,423,715,429,729,435,743,441,757,447,771,454,786,461,801,467,816,475,832,482,848,
489,864,497,881,505,898,513,915,522,933,530,951,539,969,549,988,559,1007,569,1026,579,1046,590,1066,
602,1087,614,1108,626,1129,640,1151,654,1173,668,1196,684,1219,700,1243,717,1267,736,1292,755,1317,775,1343,
796,1369,819,1396,843,1423,869,1451,896,1479,925,1508,955,1537,988,1567,1022,1597,1058,1628,1098,1660,1139,1692,
1184,1725,1232,1759,1282,1793,1336,1828,4,4,9,9,10,11,13,13,15,16,17,18,20,21,22,24,
25,27,28,30,31,33,34,37,37,40,40,44,43,48,47,51,50,55,53,59,57,63,60,67,
64,71,68,75,71,79,75,83,78,88,82,92,86,96,90,100,93,105,97,109,101,114,105,118,
109,122,113,127,116,131,120,136,124,140,128,145,132,149,136,154,140,158,143,163,147,168,151,172,
155,177,159,181,163,186,166,190,170,195,174,199,178,204,182,208,185,213,189,217,193,222,197,226,
200,231,204,235,208,240,212,244,215,249,219,253,223,258,226,262,230,267,233,271,237,275,241,280,
244,284,248,289,251,293,255,297,259,302,262,306,266,311,269,315,273,319,276,324,280,328,283,332,
287,337,290,341,293,345,297,349,300,354,304,358,307,362,310,367,314,371,317,375,321,379,324,384,
327,388,331,392,334,396,337,401,343,409,350,417,356,425,362,433,369,441,375,449,381,458,387,466,
394,474,400,482,406,490,412,498,418,506,424,514,430,523,436,531,442,539,448,547,454,555,460,563,
466,571,472,579,478,588,484,596,490,604,499,616,507,628,516,640,525,652,533,664,542,676,550,688,
559,700,567,713,576,725,584,737,592,749,601,761,609,773,617,785,625,797,634,809,644,825,655,841,
666,857,676,873,687,889,698,905,708,922,718,938,729,954,739,970,749,986,759,1002,770,1018,782,1038,
795,1058,807,1078,819,1098,831,1118,844,1138,856,1158,868,1178,880,1198,891,1218,906,1242,920,1266,933,1290,
947,1314,961,1338,975,1362,988,1386,1001,1411,1015,1435,1030,1463,1045,1491,1061,1519,1076,1547,1090,1575,1105,1603,
1120,1631,1137,1663,1153,1695,1170,1727,1186,1759,1202,1791,1218,1823,1236,1859,1253,1895,1271,1931,1288,1967,1306,2003,
1323,2039,1342,2079,1361,2119,1379,2159,1398,2199,1416,2239,1436,2283,1456,2327,1476,2371,1496,2415,1516,2459,1537,2507,
1559,2555,1580,2603,1601,2651,1624,2703,1647,2755,1670,2807,1692,2859,1717,2915,1741,2971,1766,3027,1791,3083,1817,3143,
1844,3203,1871,3263,1900,3327,1929,3391,1958,3455,1990,3523,2021,3591,2054,3659,2088,3731,2123,3803,2159,3876,2197,3952,
2236,4028,2276,4104,2319,4184,2363,4264,2410,4348,2458,4432,2508,4516,2561,4604,2616,4692,2675,4784,2737,4876,2802,4972,
2871,5068,2944,5168,3020,5268,3102,5372,3188,5476,3280,5584,3375,5692,3478,5804,3586,5916,3702,6032,3823,6148,3953,6268,
4089,6388,4236,6512,4394,6640,4559,6768,4737,6900,4929,7036,5130,7172,5347,7312,4,4,12,13,18,19,25,27,
33,35,41,44,50,54,60,64,70,75,80,87,91,99,103,112,115,126,127,139,140,154,153,168,
166,183,180,199,194,214,208,230,222,247,237,263,251,280,266,297,281,314,296,331,312,349,327,366,
343,384,358,402,374,420,390,438,405,456,421,475,437,493,453,511,469,530,484,548,500,567,516,586,
532,604,548,623,564,642,580,660,596,679,611,698,627,716,643,735,659,753,674,772,690,791,706,809,
721,828,737,846,752,865,768,884,783,902,798,920,814,939,829,957,844,976,859,994,874,1012,889,1030,
904,1049,919,1067,934,1085,949,1103,964,1121,978,1139,993,1157,1008,1175,1022,1193,1037,1211,1051,1229,1065,1246,
1080,1264,1094,1282,1108,1299,1122,1317,1136,1335,1151,1352,1165,1370,1179,1387,1192,1405,1206,1422,1220,1440,1234,1457,
1248,1474,1261,1491,1275,1509,1288,1526,1302,1543,1315,1560,1329,1577,1342,1595,1368,1627,1393,1660,1419,1693,1444,1725,
1469,1758,1494,1791,1519,1824,1544,1856,1569,1889,1594,1922,1618,1954,1643,1987,1668,2020,1692,2052,1717,2085,1741,2118,
1765,2150,1789,2183,1814,2216,1838,2248,1862,2281,1885,2313,1909,2346,1933,2378,1957,2411,1992,2459,2027,2508,2061,2556,
2096,2605,2130,2653,2165,2701,2199,2750,2233,2798,2267,2847,2300,2895,2334,2943,2367,2992,2400,3040,2434,3088,2467,3137,
2499,3185,2532,3234,2575,3298,2618,3362,2661,3426,2704,3491,2746,3555,2788,3619,2830,3684,2872,3748,2913,3812,2954,3876,
2995,3941,3036,4005,3076,4069,3127,4149,3177,4230,3226,4310,3275,4390,3324,4470,3373,4550,3421,4631,3469,4711,3517,4791,
3565,4871,3621,4967,3677,5064,3733,5160,3788,5256,3843,5352,3897,5448,3951,5544,4005,5641,4058,5737,4119,5849,4181,5961,
4241,6073,4301,6185,4361,6297,4420,6410,4479,6522,4546,6650,4612,6778,4677,6906,4742,7034,4807,7162,4871,7290,4942,7435,
5013,7579,5083,7723,5153,7867,5222,8011,5291,8155,5367,8315,5442,8475,5517,8635,5591,8795,5665,8956,5745,9132,5825,9308,
5905,9484,5984,9660,6063,9836,6149,10028,6234,10220,6319,10412,6404,10604,6495,10812,6587,11020,6678,11228,6769,11437,6867,11661,
6966,11885,7064,12109,7163,12333,7269,12573,7376,12813,7483,13053,7599,13309,7715,13565,7832,13821,7958,14093,8085,14365,8214,14637,
8352,14925,8492,15213,8635,15502,8788,15806,8945,16110,9104,16414,9275,16734,9450,17054,9639,17390,9832,17726,10031,18062,10245,18414,
10465,18766,10702,19134,10946,19502,11210,19886,11482,20270,11776,20670,12081,21070,12409,21486,12750,21902,13118,22334,13501,22766,13913,23214,
14343,23662,14807,24126,15290,24590,15812,25070,16356,25551,16943,26047,17575,26559,18237,27071,18949,27599,19718,28143,20521,28687,21387,29247,
};
static const uint8_t T_qm0[480]={32,43,73,97,43,67,94,110,73,94,137,150,97,110,150,200,35,46,57,66,46,60,69,71,57,69,90,90,66,71,90,109,
32,41,69,92,41,63,88,103,69,88,127,140,92,103,140,184,33,45,56,64,45,58,66,69,56,66,86,87,64,69,87,105,
32,38,63,86,38,56,78,97,63,78,113,130,86,97,130,169,32,45,53,63,45,55,62,67,53,62,80,84,63,67,84,101,
32,37,58,81,37,54,72,91,58,72,102,121,81,91,121,156,32,45,51,61,45,54,59,65,51,59,75,81,61,65,81,97,
32,34,53,75,34,49,64,81,53,64,91,112,75,81,112,140,32,46,49,58,46,53,55,62,49,55,70,78,58,62,78,91,
32,34,49,72,34,48,60,79,49,60,82,104,72,79,104,134,32,46,47,57,46,53,54,60,47,54,66,75,57,60,75,89,
32,33,45,62,33,39,51,64,45,51,71,87,62,64,87,108,31,42,47,53,42,48,50,54,47,50,61,67,53,54,67,78,
32,33,42,55,33,38,46,57,42,46,63,75,55,57,75,92,31,41,46,51,41,48,48,51,46,48,58,62,51,51,62,71,
32,32,38,51,32,35,40,49,38,40,54,64,51,49,64,81,31,38,47,49,38,47,46,46,47,46,54,57,49,46,57,66,
32,32,35,43,32,34,37,43,35,37,48,54,43,43,54,65,31,37,47,47,37,44,47,45,47,47,53,53,47,45,53,59,
32,32,34,38,32,33,35,39,34,35,39,45,38,39,45,54,31,34,42,47,34,39,45,46,42,45,48,49,47,46,49,54,
32,32,32,35,32,32,33,35,32,33,35,38,35,35,38,46,31,32,38,46,32,34,41,46,38,41,47,47,46,46,47,52,
31,32,32,32,32,32,32,33,32,32,33,34,32,33,34,35,31,31,34,38,31,32,35,40,34,35,39,43,38,40,43,47,
31,31,31,32,31,32,32,32,31,32,32,32,32,32,32,33,31,31,31,34,31,31,31,35,31,31,32,35,34,35,35,39,
31,31,31,31,31,32,32,32,31,32,32,32,31,32,32,32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
};
static const uint8_t T_qm1[1920]={32,32,38,51,68,84,95,109,32,35,40,49,63,76,89,102,38,40,54,65,78,91,98,106,51,49,65,82,97,111,113,121,
68,63,78,97,117,134,138,142,84,76,91,111,134,152,159,168,95,89,98,113,138,159,183,199,109,102,106,121,142,168,199,220,
31,38,47,50,57,63,67,71,38,47,46,47,52,57,62,67,47,46,54,57,61,66,67,68,50,47,57,66,72,77,75,75,
57,52,61,72,82,88,86,84,63,57,66,77,88,96,95,95,67,62,67,75,86,95,104,107,71,67,68,75,84,95,107,113,
32,32,37,47,62,78,90,102,32,35,39,46,58,72,84,96,37,39,51,60,71,84,93,100,47,46,60,73,87,100,106,113,
62,58,71,87,105,121,129,132,78,72,84,100,121,140,148,155,90,84,93,106,129,148,169,183,102,96,100,113,132,155,183,201,
31,38,47,48,54,61,66,69,38,47,47,46,50,55,61,65,47,47,53,55,58,63,65,66,48,46,55,62,67,72,73,73,
54,50,58,67,76,83,84,82,61,55,63,72,83,91,92,92,66,61,65,73,84,92,101,103,69,65,66,73,82,92,103,109,
32,32,35,46,57,76,85,96,32,34,37,45,54,70,79,90,35,37,48,56,64,79,87,93,46,45,56,70,80,96,100,105,
57,54,64,80,93,111,121,122,76,70,79,96,111,134,138,144,85,79,87,100,121,138,156,168,96,90,93,105,122,144,168,184,
31,36,47,48,52,60,64,67,36,43,47,46,49,55,59,63,47,47,53,54,55,60,63,64,48,46,54,61,65,70,71,71,
52,49,55,65,71,78,81,79,60,55,60,70,78,89,89,89,64,59,63,71,81,89,97,99,67,63,64,71,79,89,99,104,
32,32,35,42,53,68,78,90,32,33,36,42,51,64,74,84,35,36,46,52,60,72,80,87,42,42,52,63,73,84,92,98,
53,51,60,73,86,100,109,114,68,64,72,84,100,117,128,133,78,74,80,92,109,128,140,155,90,84,87,98,114,133,155,168,
31,34,46,47,50,57,61,65,34,39,47,45,48,53,57,61,46,47,52,52,54,58,61,62,47,45,52,58,62,65,68,68,
50,48,54,62,68,73,77,76,57,53,58,65,73,82,86,86,61,57,61,68,77,86,91,95,65,61,62,68,76,86,95,100,
32,32,34,39,50,62,76,84,32,33,35,40,48,59,71,79,34,35,39,46,53,63,74,81,39,40,46,56,65,75,86,92,
50,48,53,65,78,90,101,106,62,59,63,75,90,105,118,123,76,71,74,86,101,118,134,142,84,79,81,92,106,123,142,153,
31,34,42,47,49,54,60,64,34,39,45,46,47,51,56,59,42,45,48,49,50,53,57,60,47,46,49,55,58,61,65,66,
49,47,50,58,65,69,73,74,54,51,53,61,69,76,82,83,60,56,57,65,73,82,89,92,64,59,60,66,74,83,92,96,
32,32,34,38,46,56,68,78,32,33,35,39,45,54,64,74,34,35,39,45,51,58,68,76,38,39,45,54,61,69,78,86,
46,45,51,61,71,80,90,99,56,54,58,69,80,92,103,113,68,64,68,78,90,103,117,128,78,74,76,86,99,113,128,140,
31,34,42,47,48,52,57,61,34,39,45,46,46,49,53,57,42,45,48,49,50,52,55,58,47,46,49,54,56,58,61,64,
48,46,50,56,61,65,68,71,52,49,52,58,65,71,75,79,57,53,55,61,68,75,82,86,61,57,58,64,71,79,86,91,
31,32,32,35,42,51,59,69,32,32,33,35,41,49,56,65,32,33,35,38,43,49,56,64,35,35,38,48,54,59,66,73,
42,41,43,54,63,71,77,85,51,49,49,59,71,81,89,97,59,56,56,66,77,89,98,108,69,65,64,73,85,97,108,119,
31,32,38,48,47,50,53,57,32,35,42,47,45,47,50,54,38,42,47,48,45,47,49,52,48,47,48,53,53,54,56,58,
47,45,45,53,58,61,63,65,50,47,47,54,61,66,69,72,53,50,49,56,63,69,73,77,57,54,52,58,65,72,77,82,
31,32,32,34,38,46,52,63,32,32,32,34,37,44,49,59,32,32,35,37,40,45,49,58,34,34,37,42,47,52,56,65,
38,37,40,47,54,60,65,73,46,44,45,52,60,69,75,84,52,49,49,56,65,75,82,92,63,59,58,65,73,84,92,105,
31,31,38,44,47,48,50,55,31,32,40,44,45,46,47,52,38,40,47,47,46,46,47,50,44,44,47,50,51,51,52,54,
47,45,46,51,54,56,57,60,48,46,46,51,56,61,63,66,50,47,47,52,57,63,66,70,55,52,50,54,60,66,70,76,
31,32,32,34,35,41,47,53,32,32,32,33,34,40,44,50,32,32,34,35,37,41,45,51,34,33,35,39,42,47,51,55,
35,34,37,42,48,53,57,61,41,40,41,47,53,60,65,70,47,44,45,51,57,65,71,77,53,50,51,55,61,70,77,85,
31,31,35,42,48,47,49,51,31,32,36,42,46,45,46,48,35,36,41,45,47,45,46,48,42,42,45,48,50,49,50,51,
48,46,47,50,53,53,54,54,47,45,45,49,53,57,59,60,49,46,46,50,54,59,61,64,51,48,48,51,54,60,64,68,
31,31,32,32,34,37,43,47,31,32,32,32,34,36,41,44,32,32,33,34,35,38,42,45,32,32,34,35,37,39,42,46,
34,34,35,37,41,45,49,52,37,36,38,39,45,51,56,59,43,41,42,42,49,56,63,67,47,44,45,46,52,59,67,71,
31,31,34,37,43,48,47,49,31,32,35,40,43,46,45,46,34,35,39,43,45,46,45,46,37,40,43,47,47,47,45,46,
43,43,45,47,49,50,50,50,48,46,46,47,50,53,55,55,47,45,45,45,50,55,58,60,49,46,46,46,50,55,60,61,
31,31,32,32,33,34,37,41,31,32,32,32,33,34,36,39,32,32,32,33,34,35,37,40,32,32,33,34,35,36,38,41,
33,33,34,35,37,39,41,44,34,34,35,36,39,43,46,49,37,36,37,38,41,46,51,54,41,39,40,41,44,49,54,58,
31,31,32,35,39,45,48,48,31,31,33,37,41,44,46,46,32,33,35,39,42,45,46,45,35,37,39,43,45,47,47,46,
39,41,42,45,47,48,48,47,45,44,45,47,48,50,51,51,48,46,46,47,48,51,53,54,48,46,45,46,47,51,54,56,
31,31,31,32,32,32,34,35,31,32,32,32,32,33,34,35,31,32,32,32,32,33,33,34,32,32,32,33,34,34,35,36,
32,32,32,34,35,35,36,38,32,33,33,34,35,36,38,40,34,34,33,35,36,38,39,42,35,35,34,36,38,40,42,48,
31,31,30,34,36,39,42,48,31,31,31,34,37,40,42,47,30,31,32,35,39,41,42,46,34,34,35,39,42,44,45,47,
36,37,39,42,46,47,47,47,39,40,41,44,47,47,48,49,42,42,42,45,47,48,48,50,48,47,46,47,47,49,50,53,
31,31,31,31,32,32,32,33,31,32,32,32,32,32,32,33,31,32,32,32,32,32,32,33,31,32,32,32,32,32,32,33,
32,32,32,32,33,33,34,35,32,32,32,32,33,34,34,35,32,32,32,32,34,34,35,36,33,33,33,33,35,35,36,38,
31,31,31,30,34,35,37,40,31,31,31,31,34,35,38,41,31,31,31,31,35,36,39,41,30,31,31,32,35,36,40,42,
34,34,35,35,39,40,43,44,35,35,36,36,40,41,44,45,37,38,39,40,43,44,47,47,40,41,41,42,44,45,47,48,
31,31,31,31,31,31,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,32,32,32,32,32,32,33,33,
31,31,31,31,30,31,33,33,31,31,31,31,31,32,34,34,31,31,31,31,31,32,34,34,31,31,31,31,31,32,35,35,
30,31,31,31,32,32,35,35,31,32,32,32,32,33,36,36,33,34,34,35,35,36,39,39,33,34,34,35,35,36,39,39,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,31,31,31,31,31,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,31,31,31,31,31,31,31,
};
static const uint8_t T_qm2[7680]={32,31,31,34,36,44,48,59,65,80,83,91,97,104,111,119,31,32,32,33,34,41,44,54,59,72,75,83,90,97,104,112,
31,32,33,35,36,42,45,54,59,71,74,81,86,93,100,107,34,33,35,39,42,47,51,58,63,74,76,81,84,90,97,105,
36,34,36,42,48,54,57,64,68,79,81,88,91,96,102,105,44,41,42,47,54,63,67,75,79,90,92,95,100,102,109,112,
48,44,45,51,57,67,71,80,85,96,99,107,108,111,117,120,59,54,54,58,64,75,80,92,98,110,113,115,116,122,125,130,
65,59,59,63,68,79,85,98,105,118,121,127,130,134,135,140,80,72,71,74,79,90,96,110,118,134,137,140,143,144,146,152,
83,75,74,76,81,92,99,113,121,137,140,151,152,155,158,165,91,83,81,81,88,95,107,115,127,140,151,159,166,169,173,179,
97,90,86,84,91,100,108,116,130,143,152,166,174,182,189,193,104,97,93,90,96,102,111,122,134,144,155,169,182,191,200,210,
111,104,100,97,102,109,117,125,135,146,158,173,189,200,210,220,119,112,107,105,105,112,120,130,140,152,165,179,193,210,220,231,
32,30,33,41,49,49,50,54,57,63,65,68,70,72,74,76,30,32,35,42,46,45,46,49,52,57,58,62,64,67,70,72,
33,35,39,45,47,45,46,49,51,56,57,60,62,64,66,69,41,42,45,48,50,49,50,52,53,57,58,59,60,61,64,67,
49,46,47,50,53,53,54,55,56,60,61,64,64,65,66,66,49,45,45,49,53,58,60,62,63,67,68,67,69,68,70,70,
50,46,46,50,54,60,61,65,67,71,71,74,73,73,74,74,54,49,49,52,55,62,65,71,73,78,79,78,77,78,78,78,
57,52,51,53,56,63,67,73,76,82,83,84,84,84,82,83,63,57,56,57,60,67,71,78,82,89,90,90,89,88,87,88,
65,58,57,58,61,68,71,79,83,90,91,94,93,93,92,93,68,62,60,59,64,67,74,78,84,90,94,98,99,98,98,98,
70,64,62,60,64,69,73,77,84,89,93,99,102,103,104,104,72,67,64,61,65,68,73,78,84,88,93,98,103,106,108,109,
74,70,66,64,66,70,74,78,82,87,92,98,104,108,111,112,76,72,69,67,66,70,74,78,83,88,93,98,104,109,112,116,
32,31,31,32,36,39,47,54,61,71,80,86,92,98,104,111,31,32,32,33,34,37,44,50,56,65,73,79,85,91,98,105,
31,32,33,34,36,39,45,50,56,64,71,77,82,88,94,100,32,33,34,36,40,42,47,51,57,65,71,76,80,85,91,98,
36,34,36,40,48,50,56,60,65,73,79,84,86,90,95,98,39,37,39,42,50,54,60,65,70,78,84,89,95,96,102,105,
47,44,45,47,56,60,69,75,81,89,95,100,102,104,109,112,54,50,50,51,60,65,75,82,89,97,104,109,110,114,117,121,
61,56,56,57,65,70,81,89,97,106,113,119,122,126,125,130,71,65,64,65,73,78,89,97,106,117,125,131,134,134,136,141,
80,73,71,71,79,84,95,104,113,125,134,140,142,145,146,152,86,79,77,76,84,89,100,109,119,131,140,147,154,157,160,165,
92,85,82,80,86,95,102,110,122,134,142,154,162,168,174,178,98,91,88,85,90,96,104,114,126,134,145,157,168,176,184,193,
104,98,94,91,95,102,109,117,125,136,146,160,174,184,193,201,111,105,100,98,98,105,112,121,130,141,152,165,178,193,201,210,
32,30,33,38,49,48,50,52,55,60,63,66,68,70,72,74,30,31,35,41,46,46,46,48,51,55,58,60,63,65,68,70,
33,35,39,44,47,46,46,47,50,53,56,58,60,62,65,67,38,41,44,47,49,48,47,48,50,53,55,58,58,60,62,65,
49,46,47,49,53,53,54,54,56,58,60,62,62,63,64,64,48,46,46,48,53,54,56,57,59,61,63,65,67,66,68,68,
50,46,46,47,54,56,61,63,65,68,70,72,71,71,72,72,52,48,47,48,54,57,63,66,69,72,75,76,75,76,76,76,
55,51,50,50,56,59,65,69,73,77,79,81,81,81,80,80,60,55,53,53,58,61,68,72,77,82,85,87,87,85,84,85,
63,58,56,55,60,63,70,75,79,85,89,91,91,90,89,90,66,60,58,58,62,65,72,76,81,87,91,94,96,95,95,95,
68,63,60,58,62,67,71,75,81,87,91,96,99,100,100,100,70,65,62,60,63,66,71,76,81,85,90,95,100,103,104,105,
72,68,65,62,64,68,72,76,80,84,89,95,100,104,107,108,74,70,67,65,64,68,72,76,80,85,90,95,100,105,108,111,
32,31,31,32,34,39,44,49,58,65,71,81,87,93,98,104,31,32,32,32,34,38,41,46,54,60,66,75,81,86,92,98,
31,32,33,34,36,39,42,46,53,59,64,73,78,83,88,94,32,32,34,35,37,40,42,46,52,58,63,71,75,80,86,92,
34,34,36,37,42,47,50,53,59,65,70,77,82,85,89,92,39,38,39,40,47,54,58,62,68,73,78,85,90,90,96,98,
44,41,42,42,50,58,63,68,74,79,84,91,96,98,102,104,49,46,46,46,53,62,68,73,81,87,92,99,103,107,109,112,
58,54,53,52,59,68,74,81,90,97,102,110,114,118,117,121,65,60,59,58,65,73,79,87,97,105,111,120,125,125,126,130,
71,66,64,63,70,78,84,92,102,111,117,127,133,134,136,141,81,75,73,71,77,85,91,99,110,120,127,137,143,145,148,152,
87,81,78,75,82,90,96,103,114,125,133,143,150,156,160,163,93,86,83,80,85,90,98,107,118,125,134,145,156,163,169,177,
98,92,88,86,89,96,102,109,117,126,136,148,160,169,176,184,104,98,94,92,92,98,104,112,121,130,141,152,163,177,184,191,
32,30,33,36,44,48,49,51,54,57,60,64,67,68,70,72,30,31,35,39,44,46,46,47,50,53,55,59,61,64,66,68,
33,35,39,43,46,46,45,47,49,51,53,57,59,61,63,65,36,39,43,47,47,46,45,46,48,50,52,55,57,58,61,63,
44,44,46,47,50,51,51,51,53,54,56,59,61,61,63,62,48,46,46,46,51,54,55,56,58,60,61,64,65,64,66,66,
49,46,45,45,51,55,58,60,62,63,65,68,69,69,69,69,51,47,47,46,51,56,60,62,65,67,69,72,73,74,73,73,
54,50,49,48,53,58,62,65,70,73,75,78,79,79,77,77,57,53,51,50,54,60,63,67,73,76,79,82,84,83,82,82,
60,55,53,52,56,61,65,69,75,79,82,86,88,87,86,87,64,59,57,55,59,64,68,72,78,82,86,90,93,92,91,92,
67,61,59,57,61,65,69,73,79,84,88,93,95,96,96,96,68,64,61,58,61,64,69,74,79,83,87,92,96,99,100,101,
70,66,63,61,63,66,69,73,77,82,86,91,96,100,103,104,72,68,65,63,62,66,69,73,77,82,87,92,96,101,104,106,
32,31,31,32,34,36,41,47,54,59,65,74,82,87,92,97,31,32,32,32,34,35,39,45,50,55,61,69,76,81,87,92,
31,32,33,33,35,36,40,44,49,54,59,67,73,78,83,88,32,32,33,35,37,38,41,45,49,53,58,65,71,75,80,86,
34,34,35,37,39,42,46,50,54,58,63,70,76,80,84,85,36,35,36,38,42,48,52,56,60,64,68,75,80,85,90,91,
41,39,40,41,46,52,57,62,67,71,75,83,88,92,95,97,47,45,44,45,50,56,62,69,75,79,84,91,97,100,102,104,
54,50,49,49,54,60,67,75,82,87,92,100,106,110,109,112,59,55,54,53,58,64,71,79,87,92,98,106,112,117,117,121,
65,61,59,58,63,68,75,84,92,98,105,114,120,125,126,130,74,69,67,65,70,75,83,91,100,106,114,123,131,135,137,140,
82,76,73,71,76,80,88,97,106,112,120,131,139,144,148,150,87,81,78,75,80,85,92,100,110,117,125,135,144,150,155,162,
92,87,83,80,84,90,95,102,109,117,126,137,148,155,162,168,97,92,88,86,85,91,97,104,112,121,130,140,150,162,168,174,
32,31,33,36,41,49,49,50,52,54,57,61,64,67,68,70,31,31,34,39,42,47,46,47,49,51,53,57,60,62,64,66,
33,34,37,42,44,47,46,46,47,49,51,55,57,59,61,63,36,39,42,47,47,48,46,46,47,48,50,53,55,57,59,61,
41,42,44,47,48,50,49,50,50,52,53,56,58,60,61,60,49,47,47,48,50,53,53,54,54,55,56,59,61,63,64,64,
49,46,46,46,49,53,55,57,59,60,61,64,66,67,67,67,50,47,46,46,50,54,57,61,63,64,66,69,70,72,71,71,
52,49,47,47,50,54,59,63,66,68,70,73,75,77,75,75,54,51,49,48,52,55,60,64,68,71,73,76,79,80,79,79,
57,53,51,50,53,56,61,66,70,73,76,80,82,84,83,84,61,57,55,53,56,59,64,69,73,76,80,84,87,89,88,88,
64,60,57,55,58,61,66,70,75,79,82,87,91,93,93,93,67,62,59,57,60,63,67,72,77,80,84,89,93,95,96,97,
68,64,61,59,61,64,67,71,75,79,83,88,93,96,99,100,70,66,63,61,60,64,67,71,75,79,84,88,93,97,100,102,
32,31,31,32,33,36,39,44,48,54,59,66,74,81,86,91,31,32,32,32,33,35,38,42,46,51,56,63,70,77,81,86,
31,32,32,33,34,35,38,41,45,49,54,60,67,73,77,82,32,32,33,34,36,37,40,42,45,49,53,59,66,71,75,80,
33,33,34,36,38,42,44,46,50,53,57,63,69,74,78,80,36,35,35,37,42,48,50,54,57,60,64,69,75,80,84,85,
39,38,38,40,44,50,54,58,61,65,69,74,80,85,89,91,44,42,41,42,46,54,58,63,67,71,75,80,86,91,95,97,
48,46,45,45,50,57,61,67,71,76,80,86,93,98,101,104,54,51,49,49,53,60,65,71,76,82,87,93,100,105,109,112,
59,56,54,53,57,64,69,75,80,87,92,99,106,112,116,120,66,63,60,59,63,69,74,80,86,93,99,107,115,121,125,129,
74,70,67,66,69,75,80,86,93,100,106,115,123,130,135,138,81,77,73,71,74,80,85,91,98,105,112,121,130,137,142,148,
86,81,77,75,78,84,89,95,101,109,116,125,135,142,147,153,91,86,82,80,80,85,91,97,104,112,120,129,138,148,153,159,
32,31,31,35,40,49,48,49,50,52,54,57,61,64,66,68,31,31,32,37,41,47,47,46,48,49,51,54,57,60,62,64,
31,32,34,39,43,46,46,45,46,47,49,52,55,57,59,61,35,37,39,44,46,47,46,45,46,47,48,51,53,56,57,59,
40,41,43,46,48,50,49,48,49,49,51,53,55,57,59,59,49,47,46,47,50,53,53,53,54,54,55,57,59,61,62,62,
48,47,46,46,49,53,54,55,56,57,58,60,62,64,65,65,49,46,45,45,48,53,55,58,60,61,62,64,66,68,69,69,
50,48,46,46,49,54,56,60,61,63,65,67,69,71,72,72,52,49,47,47,49,54,57,61,63,66,68,71,73,75,76,77,
54,51,49,48,51,55,58,62,65,68,71,74,76,78,80,81,57,54,52,51,53,57,60,64,67,71,74,77,80,83,84,85,
61,57,55,53,55,59,62,66,69,73,76,80,84,87,89,89,64,60,57,56,57,61,64,68,71,75,78,83,87,90,92,94,
66,62,59,57,59,62,65,69,72,76,80,84,89,92,94,96,68,64,61,59,59,62,65,69,72,77,81,85,89,94,96,98,
32,31,31,31,32,34,36,39,44,48,54,59,65,71,80,83,31,32,32,32,32,34,35,38,42,46,51,56,62,68,76,78,
31,32,32,32,32,33,34,37,41,44,49,54,59,65,72,75,31,32,32,33,34,35,36,39,42,45,50,54,59,64,71,74,
32,32,32,34,35,37,38,40,42,46,49,53,58,63,69,72,34,34,33,35,37,39,42,45,47,51,54,58,63,68,74,76,
36,35,34,36,38,42,48,50,54,57,60,64,68,73,79,81,39,38,37,39,40,45,50,54,58,61,65,69,73,78,84,86,
44,42,41,42,42,47,54,58,63,67,71,75,79,84,90,92,48,46,44,45,46,51,57,61,67,71,76,80,85,90,96,99,
54,51,49,50,49,54,60,65,71,76,82,87,92,97,104,106,59,56,54,54,53,58,64,69,75,80,87,92,98,103,110,113,
65,62,59,59,58,63,68,73,79,85,92,98,105,111,118,121,71,68,65,64,63,68,73,78,84,90,97,103,111,117,125,128,
80,76,72,71,69,74,79,84,90,96,104,110,118,125,134,137,83,78,75,74,72,76,81,86,92,99,106,113,121,128,137,140,
32,31,30,33,36,41,49,48,49,50,52,54,57,60,63,65,31,31,31,34,38,42,47,47,47,48,50,52,54,57,60,61,
30,31,32,35,40,42,46,45,45,46,47,49,52,54,57,58,33,34,35,39,43,45,47,46,45,46,47,49,51,53,56,57,
36,38,40,43,47,47,48,46,45,46,47,48,50,52,54,55,41,42,42,45,47,48,50,49,49,50,50,52,53,55,57,58,
49,47,46,47,48,50,53,53,53,54,54,55,56,58,60,61,48,47,45,46,46,49,53,54,55,56,57,58,60,61,63,64,
49,47,45,45,45,49,53,55,58,60,61,62,63,65,67,68,50,48,46,46,46,50,54,56,60,61,63,65,67,68,71,71,
52,50,47,47,47,50,54,57,61,63,66,68,70,72,75,75,54,52,49,49,48,52,55,58,62,65,68,71,73,75,78,79,
57,54,52,51,50,53,56,60,63,67,70,73,76,79,82,83,60,57,54,53,52,55,58,61,65,68,72,75,79,82,85,86,
63,60,57,56,54,57,60,63,67,71,75,78,82,85,89,90,65,61,58,57,55,58,61,64,68,71,75,79,83,86,90,91,
32,31,31,31,32,34,35,38,41,45,48,54,59,65,71,80,31,32,32,32,32,34,35,37,40,43,46,51,56,62,68,76,
31,32,32,32,32,33,34,36,38,41,44,49,54,59,65,72,31,32,32,33,34,35,36,38,40,42,45,50,54,59,64,71,
32,32,32,34,35,37,38,39,41,43,46,49,53,58,63,69,34,34,33,35,37,39,42,44,46,48,51,54,58,63,68,74,
35,35,34,36,38,42,46,48,50,53,55,59,62,67,72,78,38,37,36,38,39,44,48,51,54,57,59,63,67,71,76,82,
41,40,38,40,41,46,50,54,57,60,63,67,71,75,80,86,45,43,41,42,43,48,53,57,60,65,68,72,76,81,85,91,
48,46,44,45,46,51,55,59,63,68,71,76,80,85,90,96,54,51,49,50,49,54,59,63,67,72,76,82,87,92,97,104,
59,56,54,54,53,58,62,67,71,76,80,87,92,98,103,110,65,62,59,59,58,63,67,71,75,81,85,92,98,105,111,118,
71,68,65,64,63,68,72,76,80,85,90,97,103,111,117,125,80,76,72,71,69,74,78,82,86,91,96,104,110,118,125,134,
32,31,30,33,36,41,47,49,49,49,50,52,54,57,60,63,31,31,31,34,38,42,46,47,47,47,48,50,52,54,57,60,
30,31,32,35,40,42,45,46,45,45,46,47,49,52,54,57,33,34,35,39,43,45,47,46,46,45,46,47,49,51,53,56,
36,38,40,43,47,47,47,47,46,45,46,47,48,50,52,54,41,42,42,45,47,48,50,50,49,49,50,50,52,53,55,57,
47,46,45,47,47,50,52,52,52,52,53,53,55,56,58,60,49,47,46,46,47,50,52,53,54,55,55,56,57,58,60,62,
49,47,45,46,46,49,52,54,55,57,58,59,60,61,63,65,49,47,45,45,45,49,52,55,57,59,60,61,63,64,66,68,
50,48,46,46,46,50,53,55,58,60,61,63,65,67,68,71,52,50,47,47,47,50,53,56,59,61,63,66,68,70,72,75,
54,52,49,49,48,52,55,57,60,63,65,68,71,73,75,78,57,54,52,51,50,53,56,58,61,64,67,70,73,76,79,82,
60,57,54,53,52,55,58,60,63,66,68,72,75,79,82,85,63,60,57,56,54,57,60,62,65,68,71,75,78,82,85,89,
32,31,31,31,32,32,34,36,38,41,44,48,54,58,61,65,31,32,32,32,32,32,34,35,38,40,42,46,51,55,58,62,
31,32,32,32,32,32,33,34,37,38,41,44,49,53,56,59,31,32,32,33,33,33,35,36,38,40,42,45,49,53,56,59,
32,32,32,33,34,34,36,37,39,40,42,45,49,53,55,59,32,32,32,33,34,35,37,38,40,41,42,46,49,52,55,58,
34,34,33,35,36,37,39,42,44,46,47,51,54,57,60,63,36,35,34,36,37,38,42,48,50,52,54,57,60,63,65,68,
38,38,37,38,39,40,44,50,52,54,57,60,64,67,69,72,41,40,38,40,40,41,46,52,54,57,60,63,67,70,73,75,
44,42,41,42,42,42,47,54,57,60,63,67,71,74,77,79,48,46,44,45,45,46,51,57,60,63,67,71,76,79,82,85,
54,51,49,49,49,49,54,60,64,67,71,76,82,86,89,92,58,55,53,53,53,52,57,63,67,70,74,79,86,90,93,97,
61,58,56,56,55,55,60,65,69,73,77,82,89,93,97,101,65,62,59,59,59,58,63,68,72,75,79,85,92,97,101,105,
32,31,30,33,34,36,41,49,48,49,49,50,52,54,55,57,31,31,31,34,36,38,42,47,47,47,47,48,50,51,53,54,
30,31,32,34,37,40,42,46,45,45,45,46,47,49,50,52,33,34,34,37,40,42,44,47,46,46,45,46,47,49,50,51,
34,36,37,40,42,45,46,47,46,46,45,46,47,48,49,50,36,38,40,42,45,47,47,48,47,46,45,46,47,48,49,50,
41,42,42,44,46,47,48,50,50,49,49,50,50,51,52,53,49,47,46,47,47,48,50,53,53,53,53,54,54,55,56,56,
48,47,45,46,46,47,50,53,54,54,55,56,57,58,58,59,49,47,45,46,46,46,49,53,54,55,57,58,59,60,60,61,
49,47,45,45,45,45,49,53,55,57,58,60,61,62,63,63,50,48,46,46,46,46,50,54,56,58,60,61,63,65,66,67,
52,50,47,47,47,47,50,54,57,59,61,63,66,68,69,70,54,51,49,49,48,48,51,55,58,60,62,65,68,70,71,73,
55,53,50,50,49,49,52,56,58,60,63,66,69,71,73,74,57,54,52,51,50,50,53,56,59,61,63,67,70,73,74,76,
32,31,31,31,31,32,32,34,36,38,39,44,47,49,54,59,31,32,32,32,32,32,33,34,35,37,38,42,45,47,51,56,
31,32,32,32,32,32,33,33,34,36,37,41,44,46,50,54,31,32,32,32,32,33,33,34,35,36,38,41,44,45,49,54,
31,32,32,32,33,34,34,35,36,38,39,42,45,46,50,54,32,32,32,33,34,35,36,37,38,39,40,42,45,46,49,53,
32,33,33,33,34,36,36,38,40,41,42,44,47,48,51,55,34,34,33,34,35,37,38,39,42,44,45,47,50,51,54,58,
36,35,34,35,36,38,40,42,48,50,50,54,56,57,60,64,38,37,36,36,38,39,41,44,50,51,52,56,58,60,63,67,
39,38,37,38,39,40,42,45,50,52,54,58,60,62,65,69,44,42,41,41,42,42,44,47,54,56,58,63,66,68,71,75,
47,45,44,44,45,45,47,50,56,58,60,66,69,71,75,79,49,47,46,45,46,46,48,51,57,60,62,68,71,73,77,81,
54,51,50,49,50,49,51,54,60,63,65,71,75,77,82,87,59,56,54,54,54,53,55,58,64,67,69,75,79,81,87,92,
32,31,30,31,33,36,38,41,49,49,48,49,50,51,52,54,31,31,31,32,34,38,40,42,47,47,47,47,48,48,50,52,
30,31,31,32,35,39,41,42,46,46,46,45,46,47,48,50,31,32,32,33,36,40,41,43,46,46,45,45,46,46,47,49,
33,34,35,36,39,43,44,45,47,46,46,45,46,47,47,49,36,38,39,40,43,47,47,47,48,47,46,45,46,46,47,48,
38,40,41,41,44,47,47,48,49,48,48,47,47,47,48,49,41,42,42,43,45,47,48,48,50,50,49,49,50,50,50,52,
49,47,46,46,47,48,49,50,53,53,53,53,54,54,54,55,49,47,46,46,46,47,48,50,53,53,54,55,55,55,56,57,
48,47,46,45,46,46,48,49,53,54,54,55,56,56,57,58,49,47,45,45,45,45,47,49,53,55,55,58,59,60,61,62,
50,48,46,46,46,46,47,50,54,55,56,59,61,61,63,64,51,48,47,46,47,46,47,50,54,55,56,60,61,62,64,66,
52,50,48,47,47,47,48,50,54,56,57,61,63,64,66,68,54,52,50,49,49,48,49,52,55,57,58,62,64,66,68,71,
32,31,31,31,31,31,32,32,34,35,36,39,41,44,47,48,31,32,32,32,32,32,32,33,34,35,35,38,40,42,45,46,
31,32,32,32,32,32,32,33,34,34,35,38,39,42,45,45,31,32,32,32,32,32,32,33,33,34,34,37,38,41,44,44,
31,32,32,32,33,33,33,34,35,36,36,39,40,42,44,45,31,32,32,32,33,33,34,34,35,36,36,39,40,42,45,45,
32,32,32,32,33,34,35,36,37,38,38,40,41,42,45,46,32,33,33,33,34,34,36,36,38,39,40,42,43,44,47,47,
34,34,34,33,35,35,37,38,39,42,42,45,46,47,50,51,35,35,34,34,36,36,38,39,42,46,47,49,50,52,55,55,
36,35,35,34,36,36,38,40,42,47,48,50,52,54,56,57,39,38,38,37,39,39,40,42,45,49,50,54,55,58,60,61,
41,40,39,38,40,40,41,43,46,50,52,55,57,60,62,63,44,42,42,41,42,42,42,44,47,52,54,58,60,63,66,67,
47,45,45,44,44,45,45,47,50,55,56,60,62,66,69,70,48,46,45,44,45,45,46,47,51,55,57,61,63,67,70,71,
32,31,31,30,33,33,36,38,41,47,49,48,49,49,50,50,31,31,31,31,34,34,38,40,42,46,47,47,47,47,48,48,
31,31,31,31,34,35,39,40,42,46,47,46,46,46,47,47,30,31,31,32,34,35,40,41,42,45,46,45,45,45,46,46,
33,34,34,34,37,38,42,43,44,46,47,46,46,45,46,46,33,34,35,35,38,39,43,44,45,47,47,46,46,45,46,46,
36,38,39,40,42,43,47,47,47,47,48,46,46,45,46,46,38,40,40,41,43,44,47,47,48,48,49,48,47,47,47,47,
41,42,42,42,44,45,47,48,48,50,50,49,49,49,50,50,47,46,46,45,46,47,47,48,50,52,52,52,52,52,53,53,
49,47,47,46,47,47,48,49,50,52,53,53,53,53,54,54,48,47,46,45,46,46,46,48,49,52,53,54,55,55,56,56,
49,47,46,45,46,46,46,47,49,52,53,55,55,57,57,58,49,47,46,45,45,45,45,47,49,52,53,55,57,58,59,60,
50,48,47,46,46,46,46,47,50,53,54,56,57,59,61,61,50,48,47,46,46,46,46,47,50,53,54,56,58,60,61,61,
32,31,31,31,31,31,31,32,32,34,34,36,36,39,39,44,31,32,32,32,32,32,32,32,32,34,34,35,35,38,38,42,
31,32,32,32,32,32,32,32,32,34,34,35,35,38,38,42,31,32,32,32,32,32,32,32,32,33,33,34,34,37,37,41,
31,32,32,32,32,32,32,32,32,33,33,34,34,37,37,41,31,32,32,32,32,33,33,34,34,35,35,36,36,39,39,42,
31,32,32,32,32,33,33,34,34,35,35,36,36,39,39,42,32,32,32,32,32,34,34,35,35,37,37,38,38,40,40,42,
32,32,32,32,32,34,34,35,35,37,37,38,38,40,40,42,34,34,34,33,33,35,35,37,37,39,39,42,42,45,45,47,
34,34,34,33,33,35,35,37,37,39,39,42,42,45,45,47,36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,54,
36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,54,39,38,38,37,37,39,39,40,40,45,45,50,50,54,54,58,
39,38,38,37,37,39,39,40,40,45,45,50,50,54,54,58,44,42,42,41,41,42,42,42,42,47,47,54,54,58,58,63,
32,31,31,30,30,33,33,36,36,41,41,49,49,48,48,49,31,31,31,31,31,34,34,38,38,42,42,47,47,47,47,47,
31,31,31,31,31,34,34,38,38,42,42,47,47,47,47,47,30,31,31,32,32,35,35,40,40,42,42,46,46,45,45,45,
30,31,31,32,32,35,35,40,40,42,42,46,46,45,45,45,33,34,34,35,35,39,39,43,43,45,45,47,47,46,46,45,
33,34,34,35,35,39,39,43,43,45,45,47,47,46,46,45,36,38,38,40,40,43,43,47,47,47,47,48,48,46,46,45,
36,38,38,40,40,43,43,47,47,47,47,48,48,46,46,45,41,42,42,42,42,45,45,47,47,48,48,50,50,49,49,49,
41,42,42,42,42,45,45,47,47,48,48,50,50,49,49,49,49,47,47,46,46,47,47,48,48,50,50,53,53,53,53,53,
49,47,47,46,46,47,47,48,48,50,50,53,53,53,53,53,48,47,47,45,45,46,46,46,46,49,49,53,53,54,54,55,
48,47,47,45,45,46,46,46,46,49,49,53,53,54,54,55,49,47,47,45,45,45,45,45,45,49,49,53,53,55,55,58,
32,31,31,31,31,31,31,31,32,32,32,33,34,34,36,36,31,31,31,32,32,32,32,32,32,32,32,33,34,34,35,35,
31,31,32,32,32,32,32,32,32,32,32,33,34,34,35,35,31,32,32,32,32,32,32,32,32,32,32,33,34,34,35,35,
31,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,31,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,
31,32,32,32,32,32,33,33,33,33,33,34,35,35,36,36,31,32,32,32,32,32,33,33,33,34,34,35,35,36,36,36,
32,32,32,32,32,32,33,33,34,34,34,35,36,36,37,37,32,32,32,32,32,32,33,34,34,35,35,36,37,37,38,38,
32,32,32,32,32,32,33,34,34,35,35,36,37,37,38,38,33,33,33,33,33,33,34,35,35,36,36,38,39,40,42,42,
34,34,34,34,33,33,35,35,36,37,37,39,39,41,42,42,34,34,34,34,34,34,35,36,36,37,37,40,41,42,45,45,
36,35,35,35,34,34,36,36,37,38,38,42,42,45,48,48,36,35,35,35,34,34,36,36,37,38,38,42,42,45,48,48,
32,31,31,31,30,30,33,33,34,36,36,40,41,44,49,49,31,31,31,31,31,31,33,34,36,38,38,41,42,44,48,48,
31,31,31,31,31,31,34,34,36,38,38,41,42,44,47,47,31,31,31,31,31,31,34,35,36,39,39,41,42,44,47,47,
30,31,31,31,32,32,34,35,37,40,40,42,42,44,46,46,30,31,31,31,32,32,34,35,37,40,40,42,42,44,46,46,
33,33,34,34,34,34,37,38,40,42,42,44,44,45,47,47,33,34,34,35,35,35,38,39,40,43,43,44,45,46,47,47,
34,36,36,36,37,37,40,40,42,45,45,45,46,46,47,47,36,38,38,39,40,40,42,43,45,47,47,47,47,47,48,48,
36,38,38,39,40,40,42,43,45,47,47,47,47,47,48,48,40,41,41,41,42,42,44,44,45,47,47,48,48,49,50,50,
41,42,42,42,42,42,44,45,46,47,47,48,48,49,50,50,44,44,44,44,44,44,45,46,46,47,47,49,49,50,51,51,
49,48,47,47,46,46,47,47,47,48,48,50,50,51,53,53,49,48,47,47,46,46,47,47,47,48,48,50,50,51,53,53,
32,31,31,31,31,31,31,31,31,31,31,32,32,32,32,34,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,
31,32,32,32,32,32,32,32,33,33,33,33,33,33,34,35,31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,
31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,32,32,32,32,32,32,32,33,33,33,33,34,35,35,35,36,
32,32,32,32,32,32,32,33,33,34,34,35,35,35,36,37,32,32,32,32,32,32,32,33,33,34,34,35,35,35,36,37,
32,33,33,33,33,33,33,33,34,34,34,35,36,36,36,38,34,34,34,34,34,33,33,34,35,35,35,36,37,37,38,39,
32,31,31,31,31,30,30,31,33,33,33,35,36,36,38,41,31,31,31,31,31,31,31,31,33,34,34,36,37,37,39,42,
31,31,31,31,31,31,31,32,34,34,34,37,38,38,40,42,31,31,31,31,31,31,31,32,34,34,34,37,38,38,40,42,
31,31,31,31,31,31,31,32,34,35,35,37,39,39,40,42,30,31,31,31,31,32,32,32,34,35,35,38,40,40,41,42,
30,31,31,31,31,32,32,32,34,35,35,38,40,40,41,42,31,31,32,32,32,32,32,33,35,36,36,38,40,40,41,43,
33,33,34,34,34,34,34,35,37,38,38,41,42,42,43,44,33,34,34,34,35,35,35,36,38,39,39,41,43,43,44,45,
33,34,34,34,35,35,35,36,38,39,39,41,43,43,44,45,35,36,37,37,37,38,38,38,41,41,41,44,46,46,46,46,
36,37,38,38,39,40,40,40,42,43,43,46,47,47,47,47,36,37,38,38,39,40,40,40,42,43,43,46,47,47,47,47,
38,39,40,40,40,41,41,41,43,44,44,46,47,47,47,48,41,42,42,42,42,42,42,43,44,45,45,46,47,47,48,48,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,
32,31,31,31,31,31,31,30,30,30,30,31,33,33,33,33,31,31,31,31,31,31,31,31,30,30,30,32,33,34,34,34,
31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,31,31,31,31,31,31,31,31,31,31,31,32,34,34,34,34,
31,31,31,31,31,31,31,31,31,31,31,32,34,34,34,34,31,31,31,31,31,31,31,31,31,31,31,32,34,34,34,34,
31,31,31,31,31,31,31,31,31,31,31,33,34,35,35,35,30,31,31,31,31,31,31,31,31,31,31,33,34,35,35,35,
30,30,31,31,31,31,31,31,32,32,32,33,34,35,35,35,30,30,31,31,31,31,31,31,32,32,32,33,34,35,35,35,
30,30,31,31,31,31,31,31,32,32,32,33,34,35,35,35,31,32,32,32,32,32,33,33,33,33,33,34,36,37,37,37,
33,33,33,34,34,34,34,34,34,34,34,36,37,38,38,38,33,34,34,34,34,34,35,35,35,35,35,37,38,39,39,39,
33,34,34,34,34,34,35,35,35,35,35,37,38,39,39,39,33,34,34,34,34,34,35,35,35,35,35,37,38,39,39,39,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
32,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,32,
};
static const uint8_t T_qm3[30720]={32,31,31,31,31,32,34,35,36,39,44,46,48,54,59,62,65,71,80,81,83,88,91,94,97,101,104,107,111,115,119,123,
31,32,32,32,32,32,34,34,35,38,42,44,46,51,56,59,62,68,76,77,78,84,86,89,92,95,99,102,105,109,113,116,
31,32,32,32,32,32,33,34,34,37,41,42,44,49,54,56,59,65,72,73,75,80,83,86,90,93,97,101,104,108,112,116,
31,32,32,32,33,33,34,35,35,38,41,43,45,49,54,56,59,64,72,73,74,79,82,85,88,91,94,97,101,104,107,111,
31,32,32,33,33,34,35,36,36,39,42,44,45,50,54,56,59,64,71,72,74,78,81,84,86,89,93,96,100,104,107,111,
32,32,32,33,34,35,37,37,38,40,42,44,46,49,53,55,58,63,69,70,72,76,79,82,85,89,93,96,99,102,106,109,
34,34,33,34,35,37,39,41,42,45,47,49,51,54,58,60,63,68,74,75,76,80,81,82,84,87,90,93,97,101,105,110,
35,34,34,35,36,37,41,43,45,47,50,52,53,57,61,63,65,70,76,77,79,82,84,86,89,91,92,93,96,100,103,107,
36,35,34,35,36,38,42,45,48,50,54,55,57,60,64,66,68,73,79,80,81,85,88,90,91,93,96,99,102,103,105,107,
39,38,37,38,39,40,45,47,50,54,58,59,61,65,69,71,73,78,84,85,86,91,92,92,95,98,100,101,103,106,110,114,
44,42,41,41,42,42,47,50,54,58,63,65,67,71,75,77,79,84,90,91,92,95,95,97,100,101,102,105,109,111,112,114,
46,44,42,43,44,44,49,52,55,59,65,67,69,74,78,80,82,87,93,94,95,98,100,103,102,105,108,110,111,113,117,121,
48,46,44,45,45,46,51,53,57,61,67,69,71,76,80,83,85,90,96,97,99,103,107,105,108,111,111,113,117,119,120,122,
54,51,49,49,50,49,54,57,60,65,71,74,76,82,87,89,92,97,104,105,106,111,110,111,114,113,116,120,120,121,125,130,
59,56,54,54,54,53,58,61,64,69,75,78,80,87,92,95,98,103,110,111,113,115,115,119,116,120,122,122,125,129,130,130,
62,59,56,56,56,55,60,63,66,71,77,80,83,89,95,98,101,107,114,115,117,119,123,121,125,126,125,129,131,131,135,140,
65,62,59,59,59,58,63,65,68,73,79,82,85,92,98,101,105,111,118,119,121,126,127,128,130,130,134,133,135,140,140,140,
71,68,65,64,64,63,68,70,73,78,84,87,90,97,103,107,111,117,125,126,128,134,132,136,133,138,137,140,143,142,145,150,
80,76,72,72,71,69,74,76,79,84,90,93,96,104,110,114,118,125,134,135,137,139,140,139,143,142,144,146,146,151,152,151,
81,77,73,73,72,70,75,77,80,85,91,94,97,105,111,115,119,126,135,137,138,144,147,146,148,149,151,150,156,155,157,163,
83,78,75,74,74,72,76,79,81,86,92,95,99,106,113,117,121,128,137,138,140,147,151,156,152,157,155,161,158,162,165,164,
88,84,80,79,78,76,80,82,85,91,95,98,103,111,115,119,126,134,139,144,147,152,154,158,163,159,165,163,168,168,169,176,
91,86,83,82,81,79,81,84,88,92,95,100,107,110,115,123,127,132,140,147,151,154,159,161,166,171,169,173,173,176,179,177,
94,89,86,85,84,82,82,86,90,92,97,103,105,111,119,121,128,136,139,146,156,158,161,166,168,174,179,178,180,183,183,190,
97,92,90,88,86,85,84,89,91,95,100,102,108,114,116,125,130,133,143,148,152,163,166,168,174,176,182,187,189,188,193,191,
101,95,93,91,89,89,87,91,93,98,101,105,111,113,120,126,130,138,142,149,157,159,171,174,176,183,184,191,195,199,197,204,
104,99,97,94,93,93,90,92,96,100,102,108,111,116,122,125,134,137,144,151,155,165,169,179,182,184,191,193,200,204,210,206,
107,102,101,97,96,96,93,93,99,101,105,110,113,120,122,129,133,140,146,150,161,163,173,178,187,191,193,200,202,210,214,222,
111,105,104,101,100,99,97,96,102,103,109,111,117,120,125,131,135,143,146,156,158,168,173,180,189,195,200,202,210,212,220,224,
115,109,108,104,104,102,101,100,103,106,111,113,119,121,129,131,140,142,151,155,162,168,176,183,188,199,204,210,212,220,222,230,
119,113,112,107,107,106,105,103,105,110,112,117,120,125,130,135,140,145,152,157,165,169,179,183,193,197,210,214,220,222,231,232,
123,116,116,111,111,109,110,107,107,114,114,121,122,130,130,140,140,150,151,163,164,176,177,190,191,204,206,222,224,230,232,242,
32,31,30,32,33,36,41,45,49,48,49,50,50,52,54,56,57,60,63,64,65,67,68,69,70,71,72,73,74,75,76,78,
31,31,31,33,34,38,42,45,47,47,47,47,48,50,52,53,54,57,60,61,61,63,64,65,66,67,68,69,70,71,72,74,
30,31,32,33,35,40,42,44,46,45,45,45,46,47,49,51,52,54,57,58,58,61,62,63,64,66,67,68,70,71,72,74,
32,33,33,35,37,41,43,45,47,46,45,46,46,47,49,50,51,54,57,57,58,60,61,62,63,64,65,66,67,68,69,70,
33,34,35,37,39,43,45,46,47,46,45,46,46,47,49,50,51,53,56,57,57,59,60,61,62,63,64,65,66,68,69,70,
36,38,40,41,43,47,47,47,48,46,45,46,46,47,48,49,50,52,54,55,55,57,58,59,61,62,64,65,66,67,68,69,
41,42,42,43,45,47,48,49,50,49,49,49,50,50,52,52,53,55,57,58,58,60,59,59,60,61,61,63,64,66,67,69,
45,45,44,45,46,47,49,50,51,51,51,51,52,52,53,54,55,57,59,59,60,61,61,62,63,63,63,63,63,64,65,66,
49,47,46,47,47,48,50,51,53,53,53,54,54,54,55,56,56,58,60,61,61,63,64,64,64,64,65,66,66,66,66,66,
48,47,45,46,46,46,49,51,53,54,55,56,56,57,58,59,60,61,63,64,64,66,66,65,66,67,67,67,67,68,69,70,
49,47,45,45,45,45,49,51,53,55,58,59,60,61,62,63,63,65,67,67,68,69,67,68,69,68,68,69,70,70,70,70,
50,47,45,46,46,46,49,51,54,56,59,60,60,62,64,64,65,67,69,69,70,70,71,71,70,70,71,71,71,71,72,74,
50,48,46,46,46,46,50,52,54,56,60,60,61,63,65,66,67,68,71,71,71,73,74,72,73,74,73,73,74,74,74,74,
52,50,47,47,47,47,50,52,54,57,61,62,63,66,68,69,70,72,75,75,75,77,75,75,76,75,75,76,75,75,76,77,
54,52,49,49,49,48,52,53,55,58,62,64,65,68,71,72,73,75,78,78,79,79,78,79,77,78,78,77,78,79,78,78,
56,53,51,50,50,49,52,54,56,59,63,64,66,69,72,73,75,77,80,80,81,81,82,80,81,81,79,81,80,79,81,82,
57,54,52,51,51,50,53,55,56,60,63,65,67,70,73,75,76,79,82,82,83,85,84,83,84,83,84,82,82,84,83,82,
60,57,54,54,53,52,55,57,58,61,65,67,68,72,75,77,79,82,85,85,86,88,86,87,85,86,85,85,86,84,85,86,
63,60,57,57,56,54,57,59,60,63,67,69,71,75,78,80,82,85,89,89,90,90,90,89,89,88,88,88,87,88,88,87,
64,61,58,57,57,55,58,59,61,64,67,69,71,75,78,80,82,85,89,90,91,92,93,92,92,91,91,90,91,90,90,92,
65,61,58,58,57,55,58,60,61,64,68,70,71,75,79,81,83,86,90,91,91,94,94,96,93,94,93,94,92,93,93,92,
67,63,61,60,59,57,60,61,63,66,69,70,73,77,79,81,85,88,90,92,94,96,96,97,98,95,97,95,96,95,95,96,
68,64,62,61,60,58,59,61,64,66,67,71,74,75,78,82,84,86,90,93,94,96,98,98,99,100,98,99,98,98,98,97,
69,65,63,62,61,59,59,62,64,65,68,71,72,75,79,80,83,87,89,92,96,97,98,100,100,101,102,101,101,101,100,102,
70,66,64,63,62,61,60,63,64,66,69,70,73,76,77,81,84,85,89,92,93,98,99,100,102,102,103,104,104,103,104,102,
71,67,66,64,63,62,61,63,64,67,68,70,74,75,78,81,83,86,88,91,94,95,100,101,102,104,104,105,106,107,105,107,
72,68,67,65,64,64,61,63,65,67,68,71,73,75,78,79,84,85,88,91,93,97,98,102,103,104,106,106,108,108,109,107,
73,69,68,66,65,65,63,63,66,67,69,71,73,76,77,81,82,85,88,90,94,95,99,101,104,105,106,109,108,110,111,112,
74,70,70,67,66,66,64,63,66,67,70,71,74,75,78,80,82,86,87,91,92,96,98,101,104,106,108,108,111,111,112,113,
75,71,71,68,68,67,66,64,66,68,70,71,74,75,79,79,84,84,88,90,93,95,98,101,103,107,108,110,111,113,113,115,
76,72,72,69,69,68,67,65,66,69,70,72,74,76,78,81,83,85,88,90,93,95,98,100,104,105,109,111,112,113,116,115,
78,74,74,70,70,69,69,66,66,70,70,74,74,77,78,82,82,86,87,92,92,96,97,102,102,107,107,112,113,115,115,118,
32,31,31,31,31,32,32,34,36,38,39,44,47,49,54,59,61,65,71,76,80,83,86,89,92,95,98,101,104,108,111,114,
31,32,32,32,32,32,33,34,35,37,38,42,45,47,51,56,58,62,68,72,76,78,82,85,88,90,93,96,99,102,105,109,
31,32,32,32,32,32,33,33,34,36,37,41,44,46,50,54,56,60,65,70,73,76,79,82,85,88,91,95,98,101,105,109,
31,32,32,32,32,33,33,34,35,36,38,41,44,45,49,54,56,59,65,69,72,75,78,81,84,86,89,92,95,98,101,104,
31,32,32,32,33,34,34,35,36,38,39,42,45,46,50,54,56,59,64,68,71,74,77,79,82,85,88,91,94,97,100,104,
32,32,32,33,34,35,36,37,38,39,40,42,45,46,49,53,55,58,63,66,69,72,74,78,81,84,87,90,93,96,99,102,
32,33,33,33,34,36,36,38,40,41,42,44,47,48,51,55,57,60,65,68,71,73,76,78,80,82,85,88,91,95,98,102,
34,34,33,34,35,37,38,39,42,44,45,47,50,51,54,58,60,63,68,71,74,76,79,82,85,86,87,88,90,93,96,99,
36,35,34,35,36,38,40,42,48,50,50,54,56,57,60,64,65,68,73,76,79,81,84,86,86,88,90,93,95,97,98,100,
38,37,36,36,38,39,41,44,50,51,52,56,58,60,63,67,68,71,76,79,82,84,87,87,90,93,94,95,96,100,103,106,
39,38,37,38,39,40,42,45,50,52,54,58,60,62,65,69,70,73,78,81,84,86,89,92,95,95,96,99,102,104,105,106,
44,42,41,41,42,42,44,47,54,56,58,63,66,68,71,75,77,79,84,88,90,92,95,97,97,99,102,103,103,106,109,113,
47,45,44,44,45,45,47,50,56,58,60,66,69,71,75,79,81,84,89,92,95,97,100,100,102,105,104,106,109,111,112,113,
49,47,46,45,46,46,48,51,57,60,62,68,71,73,77,81,83,87,92,95,98,100,103,105,107,106,109,112,112,113,117,120,
54,51,50,49,50,49,51,54,60,63,65,71,75,77,82,87,89,92,97,101,104,106,109,112,110,113,114,114,117,121,121,121,
59,56,54,54,54,53,55,58,64,67,69,75,79,81,87,92,94,98,103,107,110,113,116,114,117,118,117,121,122,122,125,129,
61,58,56,56,56,55,57,60,65,68,70,77,81,83,89,94,97,101,106,110,113,116,119,120,122,121,126,124,125,130,130,130,
65,62,60,59,59,58,60,63,68,71,73,79,84,87,92,98,101,105,111,115,118,121,124,128,125,129,128,131,133,132,135,139,
71,68,65,65,64,63,65,68,73,76,78,84,89,92,97,103,106,111,117,122,125,128,131,131,134,132,134,136,136,140,141,140,
76,72,70,69,68,66,68,71,76,79,81,88,92,95,101,107,110,115,122,127,130,133,136,136,138,139,141,140,145,143,146,151,
80,76,73,72,71,69,71,74,79,82,84,90,95,98,104,110,113,118,125,130,134,137,140,146,142,146,145,149,146,150,152,151,
83,78,76,75,74,72,73,76,81,84,86,92,97,100,106,113,116,121,128,133,137,140,144,147,152,148,154,151,156,155,156,162,
86,82,79,78,77,74,76,79,84,87,89,95,100,103,109,116,119,124,131,136,140,144,147,150,154,159,157,160,160,162,165,162,
89,85,82,81,79,78,78,82,86,87,92,97,100,105,112,114,120,128,131,136,146,147,150,155,156,161,166,165,167,169,169,175,
92,88,85,84,82,81,80,85,86,90,95,97,102,107,110,117,122,125,134,138,142,152,154,156,162,163,168,173,174,174,178,176,
95,90,88,86,85,84,82,86,88,93,95,99,105,106,113,118,121,129,132,139,146,148,159,161,163,169,170,176,180,183,181,187,
98,93,91,89,88,87,85,87,90,94,96,102,104,109,114,117,126,128,134,141,145,154,157,166,168,170,176,178,184,188,193,188,
101,96,95,92,91,90,88,88,93,95,99,103,106,112,114,121,124,131,136,140,149,151,160,165,173,176,178,184,186,192,196,203,
104,99,98,95,94,93,91,90,95,96,102,103,109,112,117,122,125,133,136,145,146,156,160,167,174,180,184,186,193,194,201,204,
108,102,101,98,97,96,95,93,97,100,104,106,111,113,121,122,130,132,140,143,150,155,162,169,174,183,188,192,194,201,202,210,
111,105,105,101,100,99,98,96,98,103,105,109,112,117,121,125,130,135,141,146,152,156,165,169,178,181,193,196,201,202,210,211,
114,109,109,104,104,102,102,99,100,106,106,113,113,120,121,129,130,139,140,151,151,162,162,175,176,187,188,203,204,210,211,219,
32,31,30,31,33,36,38,41,49,49,48,49,50,51,52,54,55,57,60,62,63,65,66,67,68,69,70,71,72,73,74,75,
31,31,31,32,34,38,40,42,47,47,47,47,48,48,50,52,53,54,57,59,60,61,63,64,65,66,67,67,68,69,70,71,
30,31,31,32,35,39,41,42,46,46,46,45,46,47,48,50,51,52,55,57,58,59,60,62,63,64,65,67,68,69,70,71,
31,32,32,33,36,40,41,43,46,46,45,45,46,46,47,49,50,51,54,56,57,58,59,61,62,63,63,64,65,66,67,68,
33,34,35,36,39,43,44,45,47,46,46,45,46,47,47,49,50,51,53,55,56,57,58,59,60,61,62,63,65,66,67,68,
36,38,39,40,43,47,47,47,48,47,46,45,46,46,47,48,49,50,52,53,54,55,56,58,59,61,62,63,64,65,66,66,
38,40,41,41,44,47,47,48,49,48,48,47,47,47,48,49,50,51,53,54,55,56,58,58,58,59,60,61,62,64,65,66,
41,42,42,43,45,47,48,48,50,50,49,49,50,50,50,52,52,53,55,56,57,58,59,60,61,61,61,61,62,63,63,64,
49,47,46,46,47,48,49,50,53,53,53,53,54,54,54,55,56,56,58,59,60,61,62,63,62,62,63,64,64,64,64,64,
49,47,46,46,46,47,48,50,53,53,54,55,55,55,56,57,58,58,60,61,62,63,64,64,64,65,65,65,65,66,67,68,
48,47,46,45,46,46,48,49,53,54,54,55,56,56,57,58,59,60,61,63,63,64,65,66,67,66,66,67,68,68,68,68,
49,47,45,45,45,45,47,49,53,55,55,58,59,60,61,62,63,63,65,66,67,68,69,69,68,68,69,69,69,69,70,71,
50,48,46,46,46,46,47,50,54,55,56,59,61,61,63,64,65,66,68,69,70,71,72,71,71,72,71,71,72,72,72,71,
51,48,47,46,47,46,47,50,54,55,56,60,61,62,64,66,66,67,69,70,71,72,73,73,74,73,73,74,73,73,74,75,
52,50,48,47,47,47,48,50,54,56,57,61,63,64,66,68,69,70,72,74,75,75,76,77,75,76,76,75,76,77,76,75,
54,52,50,49,49,48,49,52,55,57,58,62,64,66,68,71,72,73,75,77,78,79,80,78,79,78,77,78,78,77,78,79,
55,53,51,50,50,49,50,52,56,58,59,63,65,66,69,72,73,74,77,78,79,80,81,81,81,80,81,80,80,81,80,79,
57,54,52,51,51,50,51,53,56,58,60,63,66,67,70,73,74,76,79,80,82,83,84,85,83,84,83,83,83,82,82,83,
60,57,55,54,53,52,53,55,58,60,61,65,68,69,72,75,77,79,82,84,85,86,87,86,87,85,85,85,84,86,85,84,
62,59,57,56,55,53,54,56,59,61,63,66,69,70,74,77,78,80,84,86,87,88,90,89,89,88,88,87,88,87,87,88,
63,60,58,57,56,54,55,57,60,62,63,67,70,71,75,78,79,82,85,87,89,90,91,93,91,91,90,91,89,90,90,89,
65,61,59,58,57,55,56,58,61,63,64,68,71,72,75,79,80,83,86,88,90,91,93,94,95,92,94,92,93,92,91,93,
66,63,60,59,58,56,58,59,62,64,65,69,72,73,76,80,81,84,87,90,91,93,94,95,96,97,95,95,95,95,95,93,
67,64,62,61,59,58,58,60,63,64,66,69,71,73,77,78,81,85,86,89,93,94,95,97,97,98,99,97,97,97,96,98,
68,65,63,62,60,59,58,61,62,64,67,68,71,74,75,79,81,83,87,89,91,95,96,97,99,98,100,100,100,99,100,98,
69,66,64,63,61,61,59,61,62,65,66,68,72,73,76,78,80,84,85,88,91,92,97,98,98,101,100,102,102,103,101,102,
70,67,65,63,62,62,60,61,63,65,66,69,71,73,76,77,81,83,85,88,90,94,95,99,100,100,103,102,104,104,105,103,
71,67,67,64,63,63,61,61,64,65,67,69,71,74,75,78,80,83,85,87,91,92,95,97,100,102,102,105,104,106,106,108,
72,68,68,65,65,64,62,62,64,65,68,69,72,73,76,78,80,83,84,88,89,93,95,97,100,102,104,104,107,106,108,108,
73,69,69,66,66,65,64,63,64,66,68,69,72,73,77,77,81,82,86,87,90,92,95,97,99,103,104,106,106,109,108,110,
74,70,70,67,67,66,65,63,64,67,68,70,72,74,76,78,80,82,85,87,90,91,95,96,100,101,105,106,108,108,111,110,
75,71,71,68,68,66,66,64,64,68,68,71,71,75,75,79,79,83,84,88,89,93,93,98,98,102,103,108,108,110,110,113,
32,31,31,31,31,32,32,34,34,36,39,41,44,48,49,54,58,59,65,69,71,80,81,83,87,90,93,95,98,101,104,107,
31,32,32,32,32,32,32,34,34,35,38,39,42,46,47,51,55,57,62,66,68,76,77,78,83,85,88,90,93,96,99,101,
31,32,32,32,32,32,32,33,34,34,38,39,41,45,46,50,54,55,60,64,66,73,75,76,81,83,86,89,92,95,98,101,
31,32,32,32,32,32,32,33,34,34,37,38,41,44,45,49,53,54,59,63,65,72,74,75,79,81,84,86,89,91,94,97,
31,32,32,32,33,33,34,35,36,36,39,40,42,45,46,50,53,54,59,63,64,71,73,74,78,80,83,85,88,91,94,97,
32,32,32,32,33,34,34,36,36,37,40,40,42,45,46,49,53,54,58,62,63,70,72,73,77,79,82,85,87,90,92,95,
32,32,32,32,34,34,35,37,37,38,40,41,42,45,46,49,52,54,58,61,63,69,71,72,75,78,80,83,86,89,92,95,
34,34,33,33,35,36,37,39,41,42,45,46,47,50,51,54,57,59,63,66,68,74,75,76,80,81,82,83,85,87,90,93,
34,34,34,34,36,36,37,41,42,45,47,48,50,53,53,56,59,61,65,68,70,76,77,78,82,83,85,88,89,90,92,93,
36,35,34,34,36,37,38,42,45,48,50,51,54,56,57,60,63,64,68,71,73,79,80,81,85,87,89,89,90,93,96,99,
39,38,38,37,39,40,40,45,47,50,54,55,58,61,62,65,68,69,73,76,78,84,85,86,90,89,90,93,96,97,98,99,
41,39,39,38,40,40,41,46,48,51,55,56,59,62,63,67,70,71,75,78,80,86,87,88,91,93,96,97,97,99,102,105,
44,42,41,41,42,42,42,47,50,54,58,59,63,66,68,71,74,75,79,83,84,90,91,92,96,98,98,99,102,104,104,105,
48,46,45,44,45,45,45,50,53,56,61,62,66,70,71,76,79,80,85,88,90,96,97,98,101,100,102,105,105,105,109,112,
49,47,46,45,46,46,46,51,53,57,62,63,68,71,73,77,81,82,87,90,92,98,99,100,103,106,107,106,109,112,112,112,
54,51,50,49,50,49,49,54,56,60,65,67,71,76,77,82,86,87,92,96,97,104,105,106,110,110,109,113,114,113,116,120,
58,55,54,53,53,53,52,57,59,63,68,70,74,79,81,86,90,91,97,100,102,109,110,111,114,114,118,116,117,121,121,120,
59,57,55,54,54,54,54,59,61,64,69,71,75,80,82,87,91,93,99,102,104,111,112,113,117,121,120,122,124,122,125,129,
65,62,60,59,59,58,58,63,65,68,73,75,79,85,87,92,97,99,105,109,111,118,120,121,125,124,125,127,126,130,130,129,
69,66,64,63,63,62,61,66,68,71,76,78,83,88,90,96,100,102,109,113,115,123,125,126,129,130,131,130,134,133,135,139,
71,68,66,65,64,63,63,68,70,73,78,80,84,90,92,97,102,104,111,115,117,125,127,128,133,136,134,139,136,139,141,140,
80,76,73,72,71,70,69,74,76,79,84,86,90,96,98,104,109,111,118,123,125,134,136,137,142,138,143,140,144,144,144,149,
81,77,75,74,73,72,71,75,77,80,85,87,91,97,99,105,110,112,120,125,127,136,137,139,143,148,145,148,148,150,152,149,
83,78,76,75,74,73,72,76,78,81,86,88,92,98,100,106,111,113,121,126,128,137,139,140,145,149,153,153,154,155,155,161,
87,83,81,79,78,77,75,80,82,85,90,91,96,101,103,110,114,117,125,129,133,142,143,145,150,151,156,159,160,160,163,161,
90,85,83,81,80,79,78,81,83,87,89,93,98,100,106,110,114,121,124,130,136,138,148,149,151,156,157,162,166,168,166,172,
93,88,86,84,83,82,80,82,85,89,90,96,98,102,107,109,118,120,125,131,134,143,145,153,156,157,163,164,169,172,177,172,
95,90,89,86,85,85,83,83,88,89,93,97,99,105,106,113,116,122,127,130,139,140,148,153,159,162,164,169,170,176,179,185,
98,93,92,89,88,87,86,85,89,90,96,97,102,105,109,114,117,124,126,134,136,144,148,154,160,166,169,170,176,177,184,186,
101,96,95,91,91,90,89,87,90,93,97,99,104,105,112,113,121,122,130,133,139,144,150,155,160,168,172,176,177,184,185,191,
104,99,98,94,94,92,92,90,92,96,98,102,104,109,112,116,121,125,130,135,141,144,152,155,163,166,177,179,184,185,191,192,
107,101,101,97,97,95,95,93,93,99,99,105,105,112,112,120,120,129,129,139,140,149,149,161,161,172,172,185,186,191,192,199,
32,31,30,30,33,35,36,41,44,49,48,48,49,50,51,52,54,55,57,59,60,63,64,65,67,68,68,69,70,71,72,73,
31,31,31,31,34,36,38,42,44,47,47,47,47,48,48,50,51,52,54,56,57,60,61,61,63,64,65,66,67,67,68,69,
30,31,31,31,35,37,39,42,44,47,46,46,46,47,47,48,50,51,53,54,55,58,59,60,61,63,64,65,66,67,68,69,
30,31,31,32,35,37,40,42,44,46,45,45,45,46,46,47,49,50,52,53,54,57,58,58,60,61,62,63,63,64,65,66,
33,34,35,35,39,41,43,45,46,47,46,46,45,46,47,47,49,49,51,53,53,56,57,57,59,60,61,62,63,64,65,66,
35,36,37,37,41,43,45,46,46,47,46,46,45,46,46,47,48,49,50,52,53,55,56,56,58,59,60,61,62,63,64,64,
36,38,39,40,43,45,47,47,47,48,46,46,45,46,46,47,48,48,50,51,52,54,55,55,57,58,58,59,61,62,63,64,
41,42,42,42,45,46,47,48,49,50,49,49,49,50,50,50,51,52,53,54,55,57,58,58,60,60,59,59,60,61,61,62,
44,44,44,44,46,46,47,49,50,51,51,51,51,51,51,52,53,53,54,56,56,59,59,59,61,61,61,62,63,62,62,62,
49,47,47,46,47,47,48,50,51,53,53,53,53,54,54,54,55,55,56,58,58,60,61,61,63,63,64,63,63,64,65,66,
48,47,46,45,46,46,46,49,51,53,54,54,55,56,56,57,58,59,60,61,61,63,64,64,65,65,64,65,66,66,66,66,
48,47,46,45,46,46,46,49,51,53,54,55,56,57,57,58,59,60,61,62,63,65,65,65,66,67,68,67,67,67,68,69,
49,47,46,45,45,45,45,49,51,53,55,56,58,59,60,61,62,62,63,65,65,67,68,68,69,70,69,69,69,70,69,69,
50,48,47,46,46,46,46,50,51,54,56,57,59,61,62,63,64,65,66,68,68,70,71,71,72,71,71,72,71,71,71,72,
51,48,47,46,47,46,46,50,51,54,56,57,60,62,62,64,65,66,67,69,69,71,72,72,73,74,74,72,73,74,73,73,
52,50,48,47,47,47,47,50,52,54,57,58,61,63,64,66,68,68,70,72,72,75,75,75,77,76,75,76,76,74,75,76,
54,51,50,49,49,48,48,51,53,55,58,59,62,64,65,68,70,70,73,74,75,77,78,78,79,78,79,78,77,78,77,77,
55,52,51,50,49,49,48,52,53,55,59,60,62,65,66,68,70,71,73,75,76,78,79,79,80,81,80,80,81,79,79,81,
57,54,53,52,51,50,50,53,54,56,60,61,63,66,67,70,73,73,76,78,79,82,82,83,84,83,83,83,82,83,82,81,
59,56,54,53,53,52,51,54,56,58,61,62,65,68,69,72,74,75,78,80,81,84,85,85,86,86,86,84,85,84,84,85,
60,57,55,54,53,53,52,55,56,58,61,63,65,68,69,72,75,76,79,81,82,85,86,86,88,88,87,88,86,87,87,85,
63,60,58,57,56,55,54,57,59,60,63,65,67,70,71,75,77,78,82,84,85,89,89,90,92,89,91,89,90,89,88,89,
64,61,59,58,57,56,55,58,59,61,64,65,68,71,72,75,78,79,82,85,86,89,90,91,93,94,92,92,91,91,92,90,
65,61,60,58,57,56,55,58,59,61,64,65,68,71,72,75,78,79,83,85,86,90,91,91,93,94,95,94,94,94,93,94,
67,63,61,60,59,58,57,60,61,63,65,66,69,72,73,77,79,80,84,86,88,92,93,93,95,95,96,97,96,95,96,94,
68,64,63,61,60,59,58,60,61,63,65,67,70,71,74,76,78,81,83,86,88,89,94,94,95,97,97,98,99,99,97,99,
68,65,64,62,61,60,58,59,61,64,64,68,69,71,74,75,79,80,83,86,87,91,92,95,96,97,99,99,100,100,101,99,
69,66,65,63,62,61,59,59,62,63,65,67,69,72,72,76,78,80,83,84,88,89,92,94,97,98,99,101,100,102,102,104,
70,67,66,63,63,62,61,60,63,63,66,67,69,71,73,76,77,81,82,85,86,90,91,94,96,99,100,100,103,102,104,104,
71,67,67,64,64,63,62,61,62,64,66,67,70,71,74,74,78,79,83,84,87,89,91,94,95,99,100,102,102,104,104,106,
72,68,68,65,65,64,63,61,62,65,66,68,69,71,73,75,77,79,82,84,87,88,92,93,96,97,101,102,104,104,106,106,
73,69,69,66,66,64,64,62,62,66,66,69,69,72,73,76,77,81,81,85,85,89,90,94,94,99,99,104,104,106,106,108,
32,31,31,31,31,31,32,32,34,35,36,39,41,44,47,48,54,56,59,64,65,71,74,80,82,83,87,90,92,95,97,100,
31,32,32,32,32,32,32,33,34,35,35,38,40,42,45,46,51,53,56,61,62,68,71,76,78,78,83,85,88,90,92,95,
31,32,32,32,32,32,32,33,34,34,35,38,39,42,45,45,50,52,55,60,61,67,69,74,76,77,81,84,87,89,92,95,
31,32,32,32,32,32,32,33,33,34,34,37,38,41,44,44,49,51,54,58,59,65,68,72,74,75,79,81,84,86,88,90,
31,32,32,32,33,33,33,34,35,36,36,39,40,42,44,45,49,51,54,58,59,64,67,71,73,74,78,80,83,85,88,90,
31,32,32,32,33,33,34,34,35,36,36,39,40,42,45,45,50,51,54,58,59,64,67,71,73,74,78,80,82,84,86,89,
32,32,32,32,33,34,35,36,37,38,38,40,41,42,45,46,49,51,53,57,58,63,65,69,71,72,75,78,80,83,86,89,
32,33,33,33,34,34,36,36,38,39,40,42,43,44,47,47,51,53,55,59,60,65,67,71,73,73,77,78,80,82,84,86,
34,34,34,33,35,35,37,38,39,42,42,45,46,47,50,51,54,56,58,62,63,68,70,74,76,76,80,82,84,85,85,86,
35,35,34,34,36,36,38,39,42,46,47,49,50,52,55,55,59,60,62,66,67,72,74,78,79,80,83,84,85,87,90,92,
36,35,35,34,36,36,38,40,42,47,48,50,52,54,56,57,60,61,64,67,68,73,75,79,80,81,85,87,90,91,91,92,
39,38,38,37,39,39,40,42,45,49,50,54,55,58,60,61,65,66,69,72,73,78,80,84,86,86,90,91,91,92,95,97,
41,40,39,38,40,40,41,43,46,50,52,55,57,60,62,63,67,69,71,75,75,80,83,86,88,89,92,93,95,97,97,98,
44,42,42,41,42,42,42,44,47,52,54,58,60,63,66,67,71,73,75,79,79,84,86,90,92,92,96,98,98,98,101,104,
47,45,45,44,44,45,45,47,50,55,56,60,62,66,69,70,75,77,79,83,84,89,91,95,97,97,100,99,102,105,104,104,
48,46,45,44,45,45,46,47,51,55,57,61,63,67,70,71,76,78,80,84,85,90,93,96,98,99,102,106,106,105,108,111,
54,51,50,49,49,50,49,51,54,59,60,65,67,71,75,76,82,84,87,91,92,97,100,104,106,106,110,108,109,112,112,111,
56,53,52,51,51,51,51,53,56,60,61,66,69,73,77,78,84,86,89,93,94,100,102,106,108,109,112,113,115,114,116,119,
59,56,55,54,54,54,53,55,58,62,64,69,71,75,79,80,87,89,92,97,98,103,106,110,112,113,117,118,117,121,121,119,
64,61,60,58,58,58,57,59,62,66,67,72,75,79,83,84,91,93,97,102,103,109,112,116,118,119,122,121,125,123,125,128,
65,62,61,59,59,59,58,60,63,67,68,73,75,79,84,85,92,94,98,103,105,111,114,118,120,121,125,129,126,129,130,129,
71,68,67,65,64,64,63,65,68,72,73,78,80,84,89,90,97,100,103,109,111,117,120,125,127,128,133,130,134,133,133,137,
74,71,69,68,67,67,65,67,70,74,75,80,83,86,91,93,100,102,106,112,114,120,123,128,131,131,135,137,137,138,140,137,
80,76,74,72,71,71,69,71,74,78,79,84,86,90,95,96,104,106,110,116,118,125,128,134,136,137,142,141,142,143,143,147,
82,78,76,74,73,73,71,73,76,79,80,86,88,92,97,98,106,108,112,118,120,127,131,136,139,139,144,147,148,147,150,148,
83,78,77,75,74,74,72,73,76,80,81,86,89,92,97,99,106,109,113,119,121,128,131,137,139,140,145,150,152,155,152,157,
87,83,81,79,78,78,75,77,80,83,85,90,92,96,100,102,110,112,117,122,125,133,135,142,144,145,150,151,155,158,162,158,
90,85,84,81,80,80,78,78,82,84,87,91,93,98,99,106,108,113,118,121,129,130,137,141,147,150,151,156,156,161,164,169,
92,88,87,84,83,82,80,80,84,85,90,91,95,98,102,106,109,115,117,125,126,134,137,142,148,152,155,156,162,162,168,170,
95,90,89,86,85,84,83,82,85,87,91,92,97,98,105,105,112,114,121,123,129,133,138,143,147,155,158,161,162,168,168,174,
97,92,92,88,88,86,86,84,85,90,91,95,97,101,104,108,112,116,121,125,130,133,140,143,150,152,162,164,168,168,174,175,
100,95,95,90,90,89,89,86,86,92,92,97,98,104,104,111,111,119,119,128,129,137,137,147,148,157,158,169,170,174,175,181,
32,31,31,30,33,33,36,38,41,47,49,48,49,49,50,50,52,53,54,56,57,60,61,63,64,65,67,67,68,69,70,71,
31,31,31,31,34,34,38,40,42,46,47,47,47,47,48,48,50,50,52,54,54,57,58,60,61,61,63,64,65,65,66,67,
31,31,31,31,34,35,39,40,42,46,47,46,46,46,47,47,49,50,51,53,53,56,57,59,60,60,62,63,64,65,66,67,
30,31,31,32,34,35,40,41,42,45,46,45,45,45,46,46,47,48,49,51,52,54,55,57,58,58,60,61,62,62,63,64,
33,34,34,34,37,38,42,43,44,46,47,46,46,45,46,46,47,48,49,51,51,53,55,56,57,57,59,60,61,62,63,64,
33,34,35,35,38,39,43,44,45,47,47,46,46,45,46,46,47,48,49,51,51,53,54,56,57,57,59,60,60,61,62,62,
36,38,39,40,42,43,47,47,47,47,48,46,46,45,46,46,47,47,48,49,50,52,53,54,55,55,57,58,59,60,61,62,
38,40,40,41,43,44,47,47,48,48,49,48,47,47,47,47,48,49,49,51,51,53,54,55,56,56,58,58,58,59,60,60,
41,42,42,42,44,45,47,48,48,50,50,49,49,49,50,50,50,51,52,53,53,55,56,57,58,58,60,61,61,61,60,60,
47,46,46,45,46,47,47,48,50,52,52,52,52,52,53,53,53,54,55,55,56,58,58,60,60,61,62,61,61,62,63,64,
49,47,47,46,47,47,48,49,50,52,53,53,53,53,54,54,54,55,55,56,56,58,59,60,61,61,63,63,64,64,64,64,
48,47,46,45,46,46,46,48,49,52,53,54,55,55,56,56,57,58,58,59,60,61,62,63,64,64,66,65,65,65,66,67,
49,47,46,45,46,46,46,47,49,52,53,55,55,57,57,58,59,59,60,61,61,63,64,65,66,66,67,67,67,68,67,67,
49,47,46,45,45,45,45,47,49,52,53,55,57,58,59,60,61,62,62,63,63,65,66,67,68,68,69,70,69,68,69,70,
50,48,47,46,46,46,46,47,50,53,54,56,57,59,61,61,63,64,64,66,66,68,69,70,70,71,72,70,71,72,71,70,
50,48,47,46,46,46,46,47,50,53,54,56,58,60,61,61,63,64,65,66,67,68,69,71,71,71,73,74,73,72,73,74,
52,50,49,47,47,47,47,48,50,53,54,57,59,61,63,63,66,67,68,70,70,72,73,75,75,75,77,75,75,76,75,74,
53,50,50,48,48,48,47,49,51,54,55,58,59,62,64,64,67,68,69,71,71,73,74,76,77,77,78,78,78,76,77,78,
54,52,51,49,49,49,48,49,52,55,55,58,60,62,64,65,68,69,71,73,73,75,76,78,79,79,80,80,79,80,79,78,
56,54,53,51,51,51,49,51,53,55,56,59,61,63,66,66,70,71,73,75,76,78,79,81,82,82,83,81,83,81,81,82,
57,54,53,52,51,51,50,51,53,56,56,60,61,63,66,67,70,71,73,76,76,79,80,82,82,83,84,85,83,84,84,82,
60,57,56,54,53,53,52,53,55,58,58,61,63,65,68,68,72,73,75,78,79,82,83,85,86,86,88,86,87,86,85,86,
61,58,57,55,55,54,53,54,56,58,59,62,64,66,69,69,73,74,76,79,80,83,84,86,87,88,89,89,88,88,88,86,
63,60,59,57,56,56,54,55,57,60,60,63,65,67,70,71,75,76,78,81,82,85,86,89,90,90,92,91,91,90,89,91,
64,61,60,58,57,57,55,56,58,60,61,64,66,68,70,71,75,77,79,82,82,86,87,90,91,91,93,93,93,92,93,91,
65,61,60,58,57,57,55,56,58,61,61,64,66,68,71,71,75,77,79,82,83,86,88,90,91,91,93,94,95,95,93,95,
67,63,62,60,59,59,57,58,60,62,63,66,67,69,72,73,77,78,80,83,84,88,89,92,93,93,95,95,96,96,97,95,
67,64,63,61,60,60,58,58,61,61,63,65,67,70,70,74,75,78,80,81,85,86,89,91,93,94,95,97,97,98,98,100,
68,65,64,62,61,60,59,58,61,61,64,65,67,69,71,73,75,78,79,83,83,87,88,91,93,95,96,97,99,98,100,100,
69,65,65,62,62,61,60,59,61,62,64,65,68,68,72,72,76,76,80,81,84,86,88,90,92,95,96,98,98,100,100,101,
70,66,66,63,63,62,61,60,60,63,64,66,67,69,71,73,75,77,79,81,84,85,88,89,93,93,97,98,100,100,102,101,
71,67,67,64,64,62,62,60,60,64,64,67,67,70,70,74,74,78,78,82,82,86,86,91,91,95,95,100,100,101,101,104,
32,31,31,31,31,31,32,32,33,34,36,36,39,41,44,46,48,52,54,58,59,65,66,71,74,80,81,83,86,89,91,93,
31,32,32,32,32,32,32,32,33,34,35,35,38,39,42,44,46,50,51,56,56,62,63,68,71,76,77,78,82,84,86,88,
31,32,32,32,32,32,32,32,33,34,35,35,38,39,42,44,46,49,51,55,56,61,63,67,70,75,77,78,81,84,86,88,
31,32,32,32,32,32,32,32,33,33,34,34,37,38,41,42,44,48,49,53,54,59,60,65,68,72,74,75,78,80,82,84,
31,32,32,32,32,33,33,33,34,34,35,35,38,39,41,43,45,48,49,53,54,59,60,65,67,72,73,74,77,80,82,84,
31,32,32,32,33,33,33,34,35,35,36,36,39,40,42,44,45,48,50,53,54,59,60,64,67,71,73,74,77,79,81,83,
32,32,32,32,33,33,34,35,36,36,37,38,40,40,42,44,45,48,49,53,53,58,59,63,66,70,71,72,75,78,80,83,
32,32,32,32,33,34,35,35,36,37,38,38,40,41,42,44,46,48,49,53,53,58,59,63,65,69,71,72,74,77,79,80,
33,33,33,33,34,35,36,36,38,39,42,42,44,45,46,48,50,52,53,57,57,62,63,67,69,73,74,75,78,79,80,81,
34,34,34,33,34,35,36,37,39,39,42,43,45,46,47,49,51,53,54,58,58,63,64,68,70,74,75,76,79,81,84,86,
36,35,35,34,35,36,37,38,42,42,48,48,50,51,54,55,57,59,60,63,64,68,69,73,75,79,80,81,84,85,85,86,
36,35,35,34,35,36,38,38,42,43,48,49,51,52,54,55,57,59,60,64,64,68,69,73,75,79,80,81,84,86,88,91,
39,38,38,37,38,39,40,40,44,45,50,51,54,55,58,59,61,64,65,68,69,73,74,78,80,84,85,86,89,91,91,91,
41,39,39,38,39,40,40,41,45,46,51,52,55,56,59,61,63,65,67,70,70,75,76,80,82,86,87,88,91,92,94,96,
44,42,42,41,41,42,42,42,46,47,54,54,58,59,63,65,67,70,71,75,75,79,80,84,86,90,91,92,95,97,97,97,
46,44,44,42,43,44,44,44,48,49,55,55,59,61,65,67,69,72,74,77,78,82,83,87,89,93,94,95,98,98,100,103,
48,46,46,44,45,45,45,46,50,51,57,57,61,63,67,69,71,74,76,80,80,85,86,90,93,96,98,99,101,104,104,103,
52,50,49,48,48,48,48,48,52,53,59,59,64,65,70,72,74,78,80,84,85,90,91,95,97,101,103,104,106,106,107,110,
54,51,51,49,49,50,49,49,53,54,60,60,65,67,71,74,76,80,82,86,87,92,93,97,100,104,105,106,109,112,112,110,
58,56,55,53,53,53,53,53,57,58,63,64,68,70,75,77,80,84,86,91,91,97,98,103,105,110,111,112,115,114,115,118,
59,56,56,54,54,54,53,53,57,58,64,64,69,70,75,78,80,85,87,91,92,98,99,103,106,110,112,113,116,119,120,119,
65,62,61,59,59,59,58,58,62,63,68,68,73,75,79,82,85,90,92,97,98,105,106,111,114,118,120,121,124,123,123,126,
66,63,63,60,60,60,59,59,63,64,69,69,74,76,80,83,86,91,93,98,99,106,107,112,115,119,121,122,125,128,129,126,
71,68,67,65,65,64,63,63,67,68,73,73,78,80,84,87,90,95,97,103,103,111,112,117,120,125,127,128,131,132,132,135,
74,71,70,68,67,67,66,65,69,70,75,75,80,82,86,89,93,97,100,105,106,114,115,120,123,128,130,131,135,135,138,136,
80,76,75,72,72,71,70,69,73,74,79,79,84,86,90,93,96,101,104,110,110,118,119,125,128,134,136,137,140,142,140,144,
81,77,77,74,73,73,71,71,74,75,80,80,85,87,91,94,98,103,105,111,112,120,121,127,130,136,137,139,142,145,148,144,
83,78,78,75,74,74,72,72,75,76,81,81,86,88,92,95,99,104,106,112,113,121,122,128,131,137,139,140,144,148,150,155,
86,82,81,78,77,77,75,74,78,79,84,84,89,91,95,98,101,106,109,115,116,124,125,131,135,140,142,144,147,149,153,155,
89,84,84,80,80,79,78,77,79,81,85,86,91,92,97,98,104,106,112,114,119,123,128,132,135,142,145,148,149,153,154,159,
91,86,86,82,82,81,80,79,80,84,85,88,91,94,97,100,104,107,112,115,120,123,129,132,138,140,148,150,153,154,159,159,
93,88,88,84,84,83,83,80,81,86,86,91,91,96,97,103,103,110,110,118,119,126,126,135,136,144,144,155,155,159,159,164,
32,31,31,30,31,33,35,36,40,41,49,49,48,48,49,50,50,52,52,54,54,57,57,60,61,63,64,65,66,67,68,69,
31,31,31,31,32,34,37,38,41,42,47,47,47,47,47,47,48,49,50,52,52,54,55,57,58,60,61,61,63,64,64,65,
31,31,31,31,32,35,37,39,41,42,47,47,47,46,46,47,48,49,49,51,51,54,54,56,57,59,60,61,62,63,64,65,
30,31,31,32,33,35,38,40,42,42,46,46,45,45,45,45,46,47,47,49,49,52,52,54,55,57,58,58,60,61,61,62,
31,32,32,33,34,37,39,41,43,43,46,46,46,45,45,46,46,47,47,49,49,51,52,54,55,57,57,58,59,60,61,62,
33,34,35,35,37,39,41,43,44,45,47,47,46,46,45,46,46,47,47,49,49,51,51,53,54,56,57,57,58,59,60,61,
35,37,37,38,39,41,44,46,46,46,47,47,46,46,45,46,46,47,47,48,48,50,51,52,53,55,56,56,57,58,59,61,
36,38,39,40,41,43,46,47,47,47,48,47,46,46,45,46,46,46,47,48,48,50,50,52,53,54,55,55,56,57,58,58,
40,41,41,42,43,44,46,47,48,48,50,49,49,49,48,49,49,49,49,51,51,52,53,54,55,57,57,58,59,59,59,59,
41,42,42,42,43,45,46,47,48,48,50,50,49,49,49,49,50,50,50,52,52,53,53,55,56,57,58,58,59,60,61,62,
49,47,47,46,46,47,47,48,50,50,53,53,53,53,53,54,54,54,54,55,55,56,57,58,59,60,61,61,62,62,62,62,
49,47,47,46,46,47,47,47,49,50,53,53,53,53,54,54,54,54,54,55,56,57,57,59,59,61,61,62,63,63,64,65,
48,47,47,45,46,46,46,46,49,49,53,53,54,54,55,56,56,57,57,58,58,60,60,61,62,63,64,64,65,66,65,65,
48,47,46,45,45,46,46,46,49,49,53,53,54,55,56,57,57,58,58,59,60,61,61,63,63,65,65,65,66,66,67,68,
49,47,46,45,45,45,45,45,48,49,53,54,55,56,58,59,60,61,61,62,62,63,64,65,66,67,68,68,69,70,69,68,
50,47,47,45,46,46,46,46,49,49,54,54,56,57,59,60,60,62,62,63,64,65,65,67,68,69,69,70,70,70,71,71,
50,48,48,46,46,46,46,46,49,50,54,54,56,57,60,60,61,63,63,65,65,67,67,68,69,71,71,71,72,73,72,71,
52,49,49,47,47,47,47,46,49,50,54,54,57,58,61,62,63,65,65,67,67,69,70,71,72,73,74,74,75,74,74,75,
52,50,49,47,47,47,47,47,49,50,54,54,57,58,61,62,63,65,66,68,68,70,71,72,73,75,75,75,76,77,77,75,
54,52,51,49,49,49,48,48,51,52,55,55,58,59,62,63,65,67,68,70,70,73,73,75,76,78,78,78,79,78,78,79,
54,52,51,49,49,49,48,48,51,52,55,56,58,60,62,64,65,67,68,70,71,73,74,75,76,78,78,79,80,81,81,79,
57,54,54,52,51,51,50,50,52,53,56,57,60,61,63,65,67,69,70,73,73,76,77,79,80,82,82,83,84,83,82,83,
57,55,54,52,52,51,51,50,53,53,57,57,60,61,64,65,67,70,71,73,74,77,77,79,80,82,83,83,84,85,85,83,
60,57,56,54,54,53,52,52,54,55,58,59,61,63,65,67,68,71,72,75,75,79,79,82,83,85,86,86,87,87,86,87,
61,58,57,55,55,54,53,53,55,56,59,59,62,63,66,68,69,72,73,76,76,80,80,83,84,86,87,88,89,89,89,87,
63,60,59,57,57,56,55,54,57,57,60,61,63,65,67,69,71,73,75,78,78,82,82,85,86,89,89,90,91,92,90,91,
64,61,60,58,57,57,56,55,57,58,61,61,64,65,68,69,71,74,75,78,78,82,83,86,87,89,90,91,92,93,94,91,
65,61,61,58,58,57,56,55,58,58,61,62,64,65,68,70,71,74,75,78,79,83,83,86,88,90,91,91,93,94,94,96,
66,63,62,60,59,58,57,56,59,59,62,63,65,66,69,70,72,75,76,79,80,84,84,87,89,91,92,93,94,94,96,96,
67,64,63,61,60,59,58,57,59,60,62,63,66,66,70,70,73,74,77,78,81,83,85,87,89,92,93,94,94,96,96,97,
68,64,64,61,61,60,59,58,59,61,62,64,65,67,69,71,72,74,77,78,81,82,85,86,89,90,94,94,96,96,98,97,
69,65,65,62,62,61,61,58,59,62,62,65,65,68,68,71,71,75,75,79,79,83,83,87,87,91,91,96,96,97,97,99,
32,31,31,31,31,31,31,32,32,34,34,36,36,39,39,44,44,48,48,54,54,59,59,65,65,71,71,80,80,83,83,87,
31,32,32,32,32,32,32,32,32,34,34,35,35,38,38,42,42,46,46,51,51,56,56,62,62,68,68,76,76,78,78,83,
31,32,32,32,32,32,32,32,32,34,34,35,35,38,38,42,42,46,46,51,51,56,56,62,62,68,68,76,76,78,78,83,
31,32,32,32,32,32,32,32,32,33,33,34,34,37,37,41,41,44,44,49,49,54,54,59,59,65,65,72,72,75,75,79,
31,32,32,32,32,32,32,32,32,33,33,34,34,37,37,41,41,44,44,49,49,54,54,59,59,65,65,72,72,75,75,79,
31,32,32,32,32,33,33,34,34,35,35,36,36,39,39,42,42,45,45,50,50,54,54,59,59,64,64,71,71,74,74,77,
31,32,32,32,32,33,33,34,34,35,35,36,36,39,39,42,42,45,45,50,50,54,54,59,59,64,64,71,71,74,74,77,
32,32,32,32,32,34,34,35,35,37,37,38,38,40,40,42,42,46,46,49,49,53,53,58,58,63,63,69,69,72,72,75,
32,32,32,32,32,34,34,35,35,37,37,38,38,40,40,42,42,46,46,49,49,53,53,58,58,63,63,69,69,72,72,75,
34,34,34,33,33,35,35,37,37,39,39,42,42,45,45,47,47,51,51,54,54,58,58,63,63,68,68,74,74,76,76,80,
34,34,34,33,33,35,35,37,37,39,39,42,42,45,45,47,47,51,51,54,54,58,58,63,63,68,68,74,74,76,76,80,
36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,54,54,57,57,60,60,64,64,68,68,73,73,79,79,81,81,84,
36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,54,54,57,57,60,60,64,64,68,68,73,73,79,79,81,81,84,
39,38,38,37,37,39,39,40,40,45,45,50,50,54,54,58,58,61,61,65,65,69,69,73,73,78,78,84,84,86,86,90,
39,38,38,37,37,39,39,40,40,45,45,50,50,54,54,58,58,61,61,65,65,69,69,73,73,78,78,84,84,86,86,90,
44,42,42,41,41,42,42,42,42,47,47,54,54,58,58,63,63,67,67,71,71,75,75,79,79,84,84,90,90,92,92,96,
44,42,42,41,41,42,42,42,42,47,47,54,54,58,58,63,63,67,67,71,71,75,75,79,79,84,84,90,90,92,92,96,
48,46,46,44,44,45,45,46,46,51,51,57,57,61,61,67,67,71,71,76,76,80,80,85,85,90,90,96,96,99,99,102,
48,46,46,44,44,45,45,46,46,51,51,57,57,61,61,67,67,71,71,76,76,80,80,85,85,90,90,96,96,99,99,102,
54,51,51,49,49,50,50,49,49,54,54,60,60,65,65,71,71,76,76,82,82,87,87,92,92,97,97,104,104,106,106,109,
54,51,51,49,49,50,50,49,49,54,54,60,60,65,65,71,71,76,76,82,82,87,87,92,92,97,97,104,104,106,106,109,
59,56,56,54,54,54,54,53,53,58,58,64,64,69,69,75,75,80,80,87,87,92,92,98,98,103,103,110,110,113,113,116,
59,56,56,54,54,54,54,53,53,58,58,64,64,69,69,75,75,80,80,87,87,92,92,98,98,103,103,110,110,113,113,116,
65,62,62,59,59,59,59,58,58,63,63,68,68,73,73,79,79,85,85,92,92,98,98,105,105,111,111,118,118,121,121,124,
65,62,62,59,59,59,59,58,58,63,63,68,68,73,73,79,79,85,85,92,92,98,98,105,105,111,111,118,118,121,121,124,
71,68,68,65,65,64,64,63,63,68,68,73,73,78,78,84,84,90,90,97,97,103,103,111,111,117,117,125,125,128,128,132,
71,68,68,65,65,64,64,63,63,68,68,73,73,78,78,84,84,90,90,97,97,103,103,111,111,117,117,125,125,128,128,132,
80,76,76,72,72,71,71,69,69,74,74,79,79,84,84,90,90,96,96,104,104,110,110,118,118,125,125,134,134,137,137,141,
80,76,76,72,72,71,71,69,69,74,74,79,79,84,84,90,90,96,96,104,104,110,110,118,118,125,125,134,134,137,137,141,
83,78,78,75,75,74,74,72,72,76,76,81,81,86,86,92,92,99,99,106,106,113,113,121,121,128,128,137,137,140,140,144,
83,78,78,75,75,74,74,72,72,76,76,81,81,86,86,92,92,99,99,106,106,113,113,121,121,128,128,137,137,140,140,144,
87,83,83,79,79,77,77,75,75,80,80,84,84,90,90,96,96,102,102,109,109,116,116,124,124,132,132,141,141,144,144,149,
32,31,31,30,30,33,33,36,36,41,41,49,49,48,48,49,49,50,50,52,52,54,54,57,57,60,60,63,63,65,65,67,
31,31,31,31,31,34,34,38,38,42,42,47,47,47,47,47,47,48,48,50,50,52,52,54,54,57,57,60,60,61,61,63,
31,31,31,31,31,34,34,38,38,42,42,47,47,47,47,47,47,48,48,50,50,52,52,54,54,57,57,60,60,61,61,63,
30,31,31,32,32,35,35,40,40,42,42,46,46,45,45,45,45,46,46,47,47,49,49,52,52,54,54,57,57,58,58,60,
30,31,31,32,32,35,35,40,40,42,42,46,46,45,45,45,45,46,46,47,47,49,49,52,52,54,54,57,57,58,58,60,
33,34,34,35,35,39,39,43,43,45,45,47,47,46,46,45,45,46,46,47,47,49,49,51,51,53,53,56,56,57,57,59,
33,34,34,35,35,39,39,43,43,45,45,47,47,46,46,45,45,46,46,47,47,49,49,51,51,53,53,56,56,57,57,59,
36,38,38,40,40,43,43,47,47,47,47,48,48,46,46,45,45,46,46,47,47,48,48,50,50,52,52,54,54,55,55,57,
36,38,38,40,40,43,43,47,47,47,47,48,48,46,46,45,45,46,46,47,47,48,48,50,50,52,52,54,54,55,55,57,
41,42,42,42,42,45,45,47,47,48,48,50,50,49,49,49,49,50,50,50,50,52,52,53,53,55,55,57,57,58,58,60,
41,42,42,42,42,45,45,47,47,48,48,50,50,49,49,49,49,50,50,50,50,52,52,53,53,55,55,57,57,58,58,60,
49,47,47,46,46,47,47,48,48,50,50,53,53,53,53,53,53,54,54,54,54,55,55,56,56,58,58,60,60,61,61,62,
49,47,47,46,46,47,47,48,48,50,50,53,53,53,53,53,53,54,54,54,54,55,55,56,56,58,58,60,60,61,61,62,
48,47,47,45,45,46,46,46,46,49,49,53,53,54,54,55,55,56,56,57,57,58,58,60,60,61,61,63,63,64,64,66,
48,47,47,45,45,46,46,46,46,49,49,53,53,54,54,55,55,56,56,57,57,58,58,60,60,61,61,63,63,64,64,66,
49,47,47,45,45,45,45,45,45,49,49,53,53,55,55,58,58,60,60,61,61,62,62,63,63,65,65,67,67,68,68,69,
49,47,47,45,45,45,45,45,45,49,49,53,53,55,55,58,58,60,60,61,61,62,62,63,63,65,65,67,67,68,68,69,
50,48,48,46,46,46,46,46,46,50,50,54,54,56,56,60,60,61,61,63,63,65,65,67,67,68,68,71,71,71,71,72,
50,48,48,46,46,46,46,46,46,50,50,54,54,56,56,60,60,61,61,63,63,65,65,67,67,68,68,71,71,71,71,72,
52,50,50,47,47,47,47,47,47,50,50,54,54,57,57,61,61,63,63,66,66,68,68,70,70,72,72,75,75,75,75,76,
52,50,50,47,47,47,47,47,47,50,50,54,54,57,57,61,61,63,63,66,66,68,68,70,70,72,72,75,75,75,75,76,
54,52,52,49,49,49,49,48,48,52,52,55,55,58,58,62,62,65,65,68,68,71,71,73,73,75,75,78,78,79,79,80,
54,52,52,49,49,49,49,48,48,52,52,55,55,58,58,62,62,65,65,68,68,71,71,73,73,75,75,78,78,79,79,80,
57,54,54,52,52,51,51,50,50,53,53,56,56,60,60,63,63,67,67,70,70,73,73,76,76,79,79,82,82,83,83,84,
57,54,54,52,52,51,51,50,50,53,53,56,56,60,60,63,63,67,67,70,70,73,73,76,76,79,79,82,82,83,83,84,
60,57,57,54,54,53,53,52,52,55,55,58,58,61,61,65,65,68,68,72,72,75,75,79,79,82,82,85,85,86,86,88,
60,57,57,54,54,53,53,52,52,55,55,58,58,61,61,65,65,68,68,72,72,75,75,79,79,82,82,85,85,86,86,88,
63,60,60,57,57,56,56,54,54,57,57,60,60,63,63,67,67,71,71,75,75,78,78,82,82,85,85,89,89,90,90,92,
63,60,60,57,57,56,56,54,54,57,57,60,60,63,63,67,67,71,71,75,75,78,78,82,82,85,85,89,89,90,90,92,
65,61,61,58,58,57,57,55,55,58,58,61,61,64,64,68,68,71,71,75,75,79,79,83,83,86,86,90,90,91,91,93,
65,61,61,58,58,57,57,55,55,58,58,61,61,64,64,68,68,71,71,75,75,79,79,83,83,86,86,90,90,91,91,93,
67,63,63,60,60,59,59,57,57,60,60,62,62,66,66,69,69,72,72,76,76,80,80,84,84,88,88,92,92,93,93,95,
32,31,31,31,31,31,31,32,32,32,34,34,35,36,38,39,41,44,45,48,48,53,54,57,59,62,65,67,71,72,80,80,
31,31,32,32,32,32,32,32,32,32,34,34,35,35,37,38,40,42,43,46,46,51,52,55,56,59,62,64,68,69,76,76,
31,32,32,32,32,32,32,32,32,32,34,34,35,35,37,38,40,42,43,46,46,51,51,55,56,59,62,64,68,69,76,76,
31,32,32,32,32,32,32,32,32,32,33,33,34,34,36,38,39,41,42,45,45,49,50,53,54,57,60,62,66,66,73,73,
31,32,32,32,32,32,32,32,32,33,33,33,34,34,36,37,38,41,41,44,44,49,49,52,54,56,59,61,65,65,72,72,
31,32,32,32,32,32,33,33,33,33,34,34,35,35,37,38,39,41,42,45,45,49,49,52,54,56,59,61,64,65,72,72,
31,32,32,32,32,33,33,33,34,34,35,35,36,36,38,39,40,42,42,45,45,49,50,52,54,56,59,60,64,65,71,71,
32,32,32,32,32,33,33,34,34,34,35,35,36,37,38,39,40,42,43,45,45,49,49,52,54,56,59,60,64,64,70,70,
32,32,32,32,32,33,34,34,35,35,37,37,38,38,39,40,41,42,43,46,46,49,49,52,53,55,58,59,63,63,69,69,
32,32,32,32,33,33,34,34,35,35,37,37,38,38,40,41,41,43,43,46,46,49,50,52,54,56,58,60,63,64,70,70,
34,34,34,33,33,34,35,35,37,37,39,39,42,42,44,45,46,47,48,51,51,54,54,57,58,60,63,64,68,68,74,74,
34,34,34,33,33,34,35,35,37,37,39,39,42,42,44,45,46,47,48,51,51,54,54,57,58,60,63,64,68,68,74,74,
35,35,35,34,34,35,36,36,38,38,42,42,46,47,48,49,50,52,53,55,55,58,59,61,62,64,67,68,72,72,78,78,
36,35,35,34,34,35,36,37,38,38,42,42,47,48,50,50,52,54,54,57,57,59,60,62,64,66,68,69,73,73,79,79,
38,37,37,36,36,37,38,38,39,40,44,44,48,50,51,52,54,56,57,59,59,62,63,65,67,69,71,72,76,76,82,82,
39,38,38,38,37,38,39,39,40,41,45,45,49,50,52,54,55,58,58,61,61,64,65,67,69,71,73,74,78,78,84,84,
41,40,40,39,38,39,40,40,41,41,46,46,50,52,54,55,57,60,60,63,63,67,67,70,71,73,75,77,80,81,86,86,
44,42,42,41,41,41,42,42,42,43,47,47,52,54,56,58,60,63,64,67,67,71,71,74,75,77,79,81,84,85,90,90,
45,43,43,42,41,42,42,43,43,43,48,48,53,54,57,58,60,64,65,68,68,72,72,75,76,78,81,82,85,86,91,91,
48,46,46,45,44,45,45,45,46,46,51,51,55,57,59,61,63,67,68,71,71,75,76,79,80,83,85,87,90,91,96,96,
48,46,46,45,44,45,45,45,46,46,51,51,55,57,59,61,63,67,68,71,71,75,76,79,80,83,85,87,90,91,96,96,
53,51,51,49,49,49,49,49,49,49,54,54,58,59,62,64,67,71,72,75,75,81,81,85,86,89,91,93,97,97,103,103,
54,52,51,50,49,49,50,49,49,50,54,54,59,60,63,65,67,71,72,76,76,81,82,85,87,89,92,94,97,98,104,104,
57,55,55,53,52,52,52,52,52,52,57,57,61,62,65,67,70,74,75,79,79,85,85,89,90,93,96,98,102,102,108,108,
59,56,56,54,54,54,54,54,53,54,58,58,62,64,67,69,71,75,76,80,80,86,87,90,92,95,98,99,103,104,110,110,
62,59,59,57,56,56,56,56,55,56,60,60,64,66,69,71,73,77,78,83,83,89,89,93,95,98,101,103,107,108,114,114,
65,62,62,60,59,59,59,59,58,58,63,63,67,68,71,73,75,79,81,85,85,91,92,96,98,101,105,106,111,111,118,118,
67,64,64,62,61,61,60,60,59,60,64,64,68,69,72,74,77,81,82,87,87,93,94,98,99,103,106,108,113,113,120,120,
71,68,68,66,65,64,64,64,63,63,68,68,72,73,76,78,80,84,85,90,90,97,97,102,103,107,111,113,117,118,125,125,
72,69,69,66,65,65,65,64,63,64,68,68,72,73,76,78,81,85,86,91,91,97,98,102,104,108,111,113,118,119,126,126,
80,76,76,73,72,72,71,70,69,70,74,74,78,79,82,84,86,90,91,96,96,103,104,108,110,114,118,120,125,126,134,134,
80,76,76,73,72,72,71,70,69,70,74,74,78,79,82,84,86,90,91,96,96,103,104,108,110,114,118,120,125,126,134,134,
32,31,31,30,30,32,33,34,36,37,41,41,47,49,49,48,49,49,49,50,50,52,52,54,54,56,57,58,60,60,63,63,
31,31,31,31,31,32,34,35,38,38,42,42,46,48,47,47,47,47,47,48,48,50,50,51,52,53,54,55,57,57,60,60,
31,31,31,31,31,33,34,35,38,39,42,42,46,47,47,47,47,47,47,48,48,49,50,51,52,53,54,55,57,57,60,60,
30,31,31,31,31,33,35,36,39,40,42,42,46,47,46,46,46,45,46,47,47,48,48,50,50,51,52,53,55,55,58,58,
30,31,31,31,32,33,35,36,40,40,42,42,45,46,46,45,45,45,45,46,46,47,47,49,49,51,52,52,54,54,57,57,
32,32,33,33,33,35,37,38,41,42,43,43,46,47,46,46,45,45,45,46,46,47,47,49,49,50,51,52,54,54,57,57,
33,34,34,35,35,37,39,40,43,43,45,45,47,47,46,46,46,45,45,46,46,47,47,49,49,50,51,52,53,54,56,56,
34,35,35,36,36,38,40,41,44,44,45,45,47,47,47,46,46,45,45,46,46,47,47,48,49,50,51,51,53,53,55,55,
36,38,38,39,40,41,43,44,47,47,47,47,47,48,47,46,46,45,45,46,46,46,47,48,48,49,50,50,52,52,54,54,
37,38,39,40,40,42,43,44,47,47,47,47,48,48,47,47,46,45,46,46,46,47,47,48,48,49,50,51,52,52,55,55,
41,42,42,42,42,43,45,45,47,47,48,48,50,50,50,49,49,49,49,50,50,50,50,51,52,52,53,54,55,55,57,57,
41,42,42,42,42,43,45,45,47,47,48,48,50,50,50,49,49,49,49,50,50,50,50,51,52,52,53,54,55,55,57,57,
47,46,46,46,45,46,47,47,47,48,50,50,52,52,52,52,52,52,52,53,53,53,53,54,55,55,56,56,58,58,60,60,
49,48,47,47,46,47,47,47,48,48,50,50,52,53,53,53,53,53,53,54,54,54,54,55,55,56,56,57,58,58,60,60,
49,47,47,46,46,46,46,47,47,47,50,50,52,53,53,54,54,55,55,55,55,56,56,57,57,58,58,59,60,60,62,62,
48,47,47,46,45,46,46,46,46,47,49,49,52,53,54,54,55,55,56,56,56,57,57,58,58,59,60,60,61,62,63,63,
49,47,47,46,45,45,46,46,46,46,49,49,52,53,54,55,55,57,57,58,58,59,59,60,60,61,61,62,63,63,65,65,
49,47,47,45,45,45,45,45,45,45,49,49,52,53,55,55,57,58,59,60,60,61,61,62,62,63,63,64,65,65,67,67,
49,47,47,46,45,45,45,45,45,46,49,49,52,53,55,56,57,59,59,60,60,61,61,62,63,63,64,65,66,66,68,68,
50,48,48,47,46,46,46,46,46,46,50,50,53,54,55,56,58,60,60,61,61,63,63,65,65,66,67,67,68,69,71,71,
50,48,48,47,46,46,46,46,46,46,50,50,53,54,55,56,58,60,60,61,61,63,63,65,65,66,67,67,68,69,71,71,
52,50,49,48,47,47,47,47,46,47,50,50,53,54,56,57,59,61,61,63,63,66,66,67,68,69,70,71,72,72,74,74,
52,50,50,48,47,47,47,47,47,47,50,50,53,54,56,57,59,61,61,63,63,66,66,68,68,69,70,71,72,73,75,75,
54,51,51,50,49,49,49,48,48,48,51,51,54,55,57,58,60,62,62,65,65,67,68,69,70,71,72,73,74,75,77,77,
54,52,52,50,49,49,49,49,48,48,52,52,55,55,57,58,60,62,63,65,65,68,68,70,71,72,73,74,75,76,78,78,
56,53,53,51,51,50,50,50,49,49,52,52,55,56,58,59,61,63,63,66,66,69,69,71,72,73,75,75,77,77,80,80,
57,54,54,52,52,51,51,51,50,50,53,53,56,56,58,60,61,63,64,67,67,70,70,72,73,75,76,77,79,79,82,82,
58,55,55,53,52,52,52,51,50,51,54,54,56,57,59,60,62,64,65,67,67,71,71,73,74,75,77,78,80,80,83,83,
60,57,57,55,54,54,53,53,52,52,55,55,58,58,60,61,63,65,66,68,68,72,72,74,75,77,79,80,82,82,85,85,
60,57,57,55,54,54,54,53,52,52,55,55,58,58,60,62,63,65,66,69,69,72,73,75,76,77,79,80,82,82,85,85,
63,60,60,58,57,57,56,55,54,55,57,57,60,60,62,63,65,67,68,71,71,74,75,77,78,80,82,83,85,85,89,89,
63,60,60,58,57,57,56,55,54,55,57,57,60,60,62,63,65,67,68,71,71,74,75,77,78,80,82,83,85,85,89,89,
32,31,31,31,31,31,31,31,32,32,32,33,34,34,36,36,38,39,41,44,44,47,48,50,54,54,58,59,61,65,65,70,
31,31,31,32,32,32,32,32,32,32,32,33,34,34,35,35,38,38,40,42,42,46,47,49,52,52,56,57,59,63,63,67,
31,31,32,32,32,32,32,32,32,32,32,33,34,34,35,35,38,38,40,42,42,45,46,48,51,51,55,56,58,62,62,67,
31,32,32,32,32,32,32,32,32,32,32,33,34,34,35,35,37,38,39,42,42,45,45,47,50,50,54,55,57,61,61,65,
31,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,37,37,38,41,41,44,44,46,49,49,53,54,56,59,59,64,
31,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,37,37,38,41,41,44,44,46,49,49,53,54,56,59,59,64,
31,32,32,32,32,32,33,33,33,33,33,34,35,35,36,36,38,39,40,42,42,44,45,47,49,49,53,54,56,59,59,63,
31,32,32,32,32,32,33,33,33,34,34,35,35,36,36,36,38,39,40,42,42,45,45,47,50,50,53,54,56,59,59,63,
32,32,32,32,32,32,33,33,34,34,34,35,36,36,37,37,39,39,40,42,42,45,45,47,49,49,53,54,55,59,59,63,
32,32,32,32,32,32,33,34,34,35,35,36,37,37,38,38,40,40,41,42,42,45,46,47,49,49,52,53,55,58,58,62,
32,32,32,32,32,32,33,34,34,35,35,36,37,37,38,38,40,40,41,42,42,45,46,47,49,49,52,53,55,58,58,62,
33,33,33,33,33,33,34,35,35,36,36,38,39,40,42,42,43,44,45,46,46,49,50,51,53,53,56,57,59,62,62,66,
34,34,34,34,33,33,35,35,36,37,37,39,39,41,42,42,44,45,46,47,47,50,51,52,54,54,57,58,60,63,63,67,
34,34,34,34,34,34,35,36,36,37,37,40,41,42,45,45,46,47,48,50,50,52,53,54,56,56,59,60,62,65,65,69,
36,35,35,35,34,34,36,36,37,38,38,42,42,45,48,48,50,50,52,54,54,56,57,58,60,60,63,64,65,68,68,72,
36,35,35,35,34,34,36,36,37,38,38,42,42,45,48,48,50,50,52,54,54,56,57,58,60,60,63,64,65,68,68,72,
38,38,38,37,37,37,38,38,39,40,40,43,44,46,50,50,52,53,54,57,57,59,60,61,64,64,67,68,69,72,72,76,
39,38,38,38,37,37,39,39,39,40,40,44,45,47,50,50,53,54,55,58,58,60,61,62,65,65,68,69,70,73,73,77,
41,40,40,39,38,38,40,40,40,41,41,45,46,48,52,52,54,55,57,60,60,62,63,65,67,67,70,71,73,75,75,79,
44,42,42,42,41,41,42,42,42,42,42,46,47,50,54,54,57,58,60,63,63,66,67,68,71,71,74,75,77,79,79,83,
44,42,42,42,41,41,42,42,42,42,42,46,47,50,54,54,57,58,60,63,63,66,67,68,71,71,74,75,77,79,79,83,
47,46,45,45,44,44,44,45,45,45,45,49,50,52,56,56,59,60,62,66,66,69,70,72,75,75,78,79,81,84,84,88,
48,47,46,45,44,44,45,45,45,46,46,50,51,53,57,57,60,61,63,67,67,70,71,73,76,76,79,80,82,85,85,89,
50,49,48,47,46,46,47,47,47,47,47,51,52,54,58,58,61,62,65,68,68,72,73,75,78,78,82,83,85,88,88,92,
54,52,51,50,49,49,49,50,49,49,49,53,54,56,60,60,64,65,67,71,71,75,76,78,82,82,86,87,89,92,92,96,
54,52,51,50,49,49,49,50,49,49,49,53,54,56,60,60,64,65,67,71,71,75,76,78,82,82,86,87,89,92,92,96,
58,56,55,54,53,53,53,53,53,52,52,56,57,59,63,63,67,68,70,74,74,78,79,82,86,86,90,91,93,97,97,101,
59,57,56,55,54,54,54,54,54,53,53,57,58,60,64,64,68,69,71,75,75,79,80,83,87,87,91,92,94,98,98,102,
61,59,58,57,56,56,56,56,55,55,55,59,60,62,65,65,69,70,73,77,77,81,82,85,89,89,93,94,97,101,101,105,
65,63,62,61,59,59,59,59,59,58,58,62,63,65,68,68,72,73,75,79,79,84,85,88,92,92,97,98,101,105,105,109,
65,63,62,61,59,59,59,59,59,58,58,62,63,65,68,68,72,73,75,79,79,84,85,88,92,92,97,98,101,105,105,109,
70,67,67,65,64,64,63,63,63,62,62,66,67,69,72,72,76,77,79,83,83,88,89,92,96,96,101,102,105,109,109,114,
32,31,31,31,30,30,33,33,34,36,36,40,41,44,49,49,48,48,49,49,49,50,50,51,52,52,54,54,55,57,57,59,
31,31,31,31,31,31,33,34,36,38,38,41,42,44,48,48,47,47,47,47,47,48,49,49,50,50,52,52,53,55,55,57,
31,31,31,31,31,31,34,34,36,38,38,41,42,44,47,47,47,47,47,47,47,48,48,49,50,50,51,52,53,54,54,56,
31,31,31,31,31,31,34,35,36,39,39,41,42,44,47,47,46,46,46,46,46,47,47,48,49,49,50,51,52,53,53,55,
30,31,31,31,32,32,34,35,37,40,40,42,42,44,46,46,45,45,45,45,45,46,46,47,47,47,49,49,50,52,52,54,
30,31,31,31,32,32,34,35,37,40,40,42,42,44,46,46,45,45,45,45,45,46,46,47,47,47,49,49,50,52,52,54,
33,33,34,34,34,34,37,38,40,42,42,44,44,45,47,47,46,46,46,45,45,46,46,47,47,47,49,49,50,51,51,53,
33,34,34,35,35,35,38,39,40,43,43,44,45,46,47,47,46,46,46,45,45,46,46,47,47,47,49,49,50,51,51,53,
34,36,36,36,37,37,40,40,42,45,45,45,46,46,47,47,46,46,46,45,45,46,46,47,47,47,48,49,49,50,50,52,
36,38,38,39,40,40,42,43,45,47,47,47,47,47,48,48,47,46,46,45,45,46,46,46,47,47,48,48,49,50,50,51,
36,38,38,39,40,40,42,43,45,47,47,47,47,47,48,48,47,46,46,45,45,46,46,46,47,47,48,48,49,50,50,51,
40,41,41,41,42,42,44,44,45,47,47,48,48,49,50,50,49,49,49,48,48,49,49,49,49,49,51,51,51,52,52,54,
41,42,42,42,42,42,44,45,46,47,47,48,48,49,50,50,50,49,49,49,49,50,50,50,50,50,51,52,52,53,53,55,
44,44,44,44,44,44,45,46,46,47,47,49,49,50,51,51,51,51,51,51,51,51,51,51,52,52,53,53,54,54,54,56,
49,48,47,47,46,46,47,47,47,48,48,50,50,51,53,53,53,53,53,53,53,54,54,54,54,54,55,55,56,56,56,58,
49,48,47,47,46,46,47,47,47,48,48,50,50,51,53,53,53,53,53,53,53,54,54,54,54,54,55,55,56,56,56,58,
48,47,47,46,45,45,46,46,46,47,47,49,50,51,53,53,54,54,54,55,55,56,56,56,57,57,58,58,58,59,59,60,
48,47,47,46,45,45,46,46,46,46,46,49,49,51,53,53,54,54,55,55,55,56,56,57,57,57,58,58,59,60,60,61,
49,47,47,46,45,45,46,46,46,46,46,49,49,51,53,53,54,55,55,57,57,57,58,58,59,59,60,60,60,61,61,63,
49,47,47,46,45,45,45,45,45,45,45,48,49,51,53,53,55,55,57,58,58,59,60,60,61,61,62,62,63,63,63,65,
49,47,47,46,45,45,45,45,45,45,45,48,49,51,53,53,55,55,57,58,58,59,60,60,61,61,62,62,63,63,63,65,
50,48,48,47,46,46,46,46,46,46,46,49,50,51,54,54,56,56,57,59,59,61,61,62,63,63,64,64,65,66,66,67,
50,49,48,47,46,46,46,46,46,46,46,49,50,51,54,54,56,56,58,60,60,61,61,62,63,63,65,65,66,67,67,68,
51,49,49,48,47,47,47,47,47,46,46,49,50,51,54,54,56,57,58,60,60,62,62,63,65,65,66,66,67,68,68,70,
52,50,50,49,47,47,47,47,47,47,47,49,50,52,54,54,57,57,59,61,61,63,63,65,66,66,68,68,69,70,70,72,
52,50,50,49,47,47,47,47,47,47,47,49,50,52,54,54,57,57,59,61,61,63,63,65,66,66,68,68,69,70,70,72,
54,52,51,50,49,49,49,49,48,48,48,51,51,53,55,55,58,58,60,62,62,64,65,66,68,68,70,70,71,73,73,74,
54,52,52,51,49,49,49,49,49,48,48,51,52,53,55,55,58,58,60,62,62,64,65,66,68,68,70,71,72,73,73,75,
55,53,53,52,50,50,50,50,49,49,49,51,52,54,56,56,58,59,60,63,63,65,66,67,69,69,71,72,73,74,74,76,
57,55,54,53,52,52,51,51,50,50,50,52,53,54,56,56,59,60,61,63,63,66,67,68,70,70,73,73,74,76,76,78,
57,55,54,53,52,52,51,51,50,50,50,52,53,54,56,56,59,60,61,63,63,66,67,68,70,70,73,73,74,76,76,78,
59,57,56,55,54,54,53,53,52,51,51,54,55,56,58,58,60,61,63,65,65,67,68,70,72,72,74,75,76,78,78,80,
32,31,31,31,31,31,31,31,31,32,32,32,32,34,34,35,36,36,38,39,39,42,44,44,47,48,49,53,54,55,59,59,
31,31,31,31,32,32,32,32,32,32,32,32,33,34,34,34,35,35,37,39,39,41,43,43,46,47,48,51,52,53,57,57,
31,31,32,32,32,32,32,32,32,32,32,32,33,34,34,34,35,35,37,38,38,41,42,43,45,46,47,51,51,53,56,56,
31,31,32,32,32,32,32,32,32,32,32,32,33,34,34,34,35,35,37,38,38,41,42,42,45,46,47,51,51,52,56,56,
31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,36,37,37,40,41,41,44,45,46,49,50,51,54,54,
31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,36,37,37,40,41,41,44,44,45,49,49,50,54,54,
31,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,35,36,38,38,40,41,41,44,45,45,49,49,50,54,54,
31,32,32,32,32,32,32,33,33,33,34,34,34,35,35,35,36,36,38,39,39,41,42,42,44,45,46,49,50,51,54,54,
31,32,32,32,32,32,32,33,33,33,34,34,34,35,35,36,36,36,38,39,39,41,42,42,45,45,46,49,50,51,54,54,
32,32,32,32,32,32,33,33,33,34,34,34,35,35,35,36,37,37,38,39,39,41,42,42,45,45,46,49,49,51,54,54,
32,32,32,32,32,32,33,34,34,34,35,35,36,37,37,37,38,38,39,40,40,42,42,43,45,46,46,49,49,50,53,53,
32,32,32,32,32,32,33,34,34,34,35,35,36,37,37,37,38,38,39,40,40,42,42,43,45,46,46,49,49,50,53,53,
32,33,33,33,33,33,33,34,34,35,36,36,36,38,38,39,40,40,41,42,42,44,44,45,47,47,48,51,51,52,55,55,
34,34,34,34,33,33,34,35,35,35,37,37,38,39,39,41,42,42,44,45,45,47,47,48,50,51,51,54,54,55,58,58,
34,34,34,34,33,33,34,35,35,35,37,37,38,39,39,41,42,42,44,45,45,47,47,48,50,51,51,54,54,55,58,58,
35,34,34,34,34,34,34,35,36,36,37,37,39,41,41,43,45,45,47,47,47,49,50,51,53,53,54,57,57,58,61,61,
36,35,35,35,34,34,35,36,36,37,38,38,40,42,42,45,48,48,50,50,50,53,54,54,56,57,57,59,60,61,64,64,
36,35,35,35,34,34,35,36,36,37,38,38,40,42,42,45,48,48,50,50,50,53,54,54,56,57,57,59,60,61,64,64,
38,37,37,37,36,36,36,38,38,38,39,39,41,44,44,47,50,50,51,52,52,55,56,56,58,59,60,62,63,64,67,67,
39,39,38,38,37,37,38,39,39,39,40,40,42,45,45,47,50,50,52,54,54,56,58,58,60,61,62,64,65,66,69,69,
39,39,38,38,37,37,38,39,39,39,40,40,42,45,45,47,50,50,52,54,54,56,58,58,60,61,62,64,65,66,69,69,
42,41,41,41,40,40,40,41,41,41,42,42,44,47,47,49,53,53,55,56,56,60,61,62,64,65,66,69,69,70,73,73,
44,43,42,42,41,41,41,42,42,42,42,42,44,47,47,50,54,54,56,58,58,61,63,64,66,67,68,71,71,72,75,75,
44,43,43,42,41,41,41,42,42,42,43,43,45,48,48,51,54,54,56,58,58,62,64,64,66,67,68,71,72,73,76,76,
47,46,45,45,44,44,44,44,45,45,45,45,47,50,50,53,56,56,58,60,60,64,66,66,69,70,71,74,75,76,79,79,
48,47,46,46,45,44,45,45,45,45,46,46,47,51,51,53,57,57,59,61,61,65,67,67,70,71,72,75,76,77,80,80,
49,48,47,47,46,45,45,46,46,46,46,46,48,51,51,54,57,57,60,62,62,66,68,68,71,72,73,77,77,78,81,81,
53,51,51,51,49,49,49,49,49,49,49,49,51,54,54,57,59,59,62,64,64,69,71,71,74,75,77,81,81,83,86,86,
54,52,51,51,50,49,49,50,50,49,49,49,51,54,54,57,60,60,63,65,65,69,71,72,75,76,77,81,82,83,87,87,
55,53,53,52,51,50,50,51,51,51,50,50,52,55,55,58,61,61,64,66,66,70,72,73,76,77,78,83,83,85,88,88,
59,57,56,56,54,54,54,54,54,54,53,53,55,58,58,61,64,64,67,69,69,73,75,76,79,80,81,86,87,88,92,92,
59,57,56,56,54,54,54,54,54,54,53,53,55,58,58,61,64,64,67,69,69,73,75,76,79,80,81,86,87,88,92,92,
32,31,31,31,30,30,31,33,33,34,36,36,38,41,41,45,49,49,49,48,48,49,49,49,50,50,51,52,52,53,54,54,
31,31,31,31,31,31,31,34,34,35,38,38,39,42,42,45,48,48,47,47,47,47,47,47,49,49,49,50,50,51,53,53,
31,31,31,31,31,31,32,34,34,35,38,38,40,42,42,45,47,47,47,47,47,47,47,47,48,48,48,49,50,50,52,52,
31,31,31,31,31,31,32,34,34,36,38,38,40,42,42,45,47,47,47,47,47,47,46,47,48,48,48,49,49,50,52,52,
30,31,31,31,31,31,32,35,35,36,39,39,41,42,42,44,46,46,46,46,46,45,45,45,46,47,47,48,48,48,50,50,
30,31,31,31,31,32,32,35,35,36,40,40,41,42,42,44,46,46,46,45,45,45,45,45,46,46,46,47,47,48,49,49,
31,31,32,32,32,32,33,35,36,37,40,40,41,43,43,44,46,46,46,45,45,45,45,45,46,46,46,47,47,48,49,49,
33,34,34,34,35,35,35,38,38,40,43,43,43,44,44,46,47,47,46,46,46,45,45,45,46,46,47,47,47,48,49,49,
33,34,34,34,35,35,36,38,39,40,43,43,44,45,45,46,47,47,46,46,46,45,45,45,46,46,47,47,47,48,49,49,
34,35,35,36,36,36,37,40,40,41,44,44,45,45,45,46,47,47,47,46,46,45,45,45,46,46,46,47,47,48,49,49,
36,38,38,38,39,40,40,43,43,44,47,47,47,47,47,47,48,48,47,46,46,45,45,45,46,46,46,46,47,47,48,48,
36,38,38,38,39,40,40,43,43,44,47,47,47,47,47,47,48,48,47,46,46,45,45,45,46,46,46,46,47,47,48,48,
38,39,40,40,41,41,41,43,44,45,47,47,47,48,48,48,49,49,48,48,48,47,47,47,47,47,47,48,48,48,49,49,
41,42,42,42,42,42,43,44,45,45,47,47,48,48,48,49,50,50,50,49,49,49,49,49,50,50,50,50,50,51,52,52,
41,42,42,42,42,42,43,44,45,45,47,47,48,48,48,49,50,50,50,49,49,49,49,49,50,50,50,50,50,51,52,52,
45,45,45,45,44,44,44,46,46,46,47,47,48,49,49,50,51,51,51,51,51,51,51,51,52,52,52,52,52,52,53,53,
49,48,47,47,46,46,46,47,47,47,48,48,49,50,50,51,53,53,53,53,53,53,53,53,54,54,54,54,54,54,55,55,
49,48,47,47,46,46,46,47,47,47,48,48,49,50,50,51,53,53,53,53,53,53,53,53,54,54,54,54,54,54,55,55,
49,47,47,47,46,46,46,46,46,47,47,47,48,50,50,51,53,53,53,54,54,54,55,55,55,55,55,56,56,56,57,57,
48,47,47,47,46,45,45,46,46,46,46,46,48,49,49,51,53,53,54,54,54,55,55,56,56,56,56,57,57,58,58,58,
48,47,47,47,46,45,45,46,46,46,46,46,48,49,49,51,53,53,54,54,54,55,55,56,56,56,56,57,57,58,58,58,
49,47,47,47,45,45,45,45,45,45,45,45,47,49,49,51,53,53,54,55,55,57,57,58,58,59,59,60,60,60,61,61,
49,47,47,46,45,45,45,45,45,45,45,45,47,49,49,51,53,53,55,55,55,57,58,58,59,60,60,61,61,61,62,62,
49,47,47,47,45,45,45,45,45,45,45,45,47,49,49,51,53,53,55,56,56,58,58,59,59,60,60,61,61,62,63,63,
50,49,48,48,46,46,46,46,46,46,46,46,47,50,50,52,54,54,55,56,56,58,59,59,61,61,61,63,63,63,64,64,
50,49,48,48,47,46,46,46,46,46,46,46,47,50,50,52,54,54,55,56,56,59,60,60,61,61,62,63,63,64,65,65,
51,49,48,48,47,46,46,47,47,46,46,46,47,50,50,52,54,54,55,56,56,59,60,60,61,62,62,64,64,64,66,66,
52,50,49,49,48,47,47,47,47,47,46,46,48,50,50,52,54,54,56,57,57,60,61,61,63,63,64,66,66,67,68,68,
52,50,50,49,48,47,47,47,47,47,47,47,48,50,50,52,54,54,56,57,57,60,61,61,63,63,64,66,66,67,68,68,
53,51,50,50,48,48,48,48,48,48,47,47,48,51,51,52,54,54,56,58,58,60,61,62,63,64,64,67,67,68,69,69,
54,53,52,52,50,49,49,49,49,49,48,48,49,52,52,53,55,55,57,58,58,61,62,63,64,65,66,68,68,69,71,71,
54,53,52,52,50,49,49,49,49,49,48,48,49,52,52,53,55,55,57,58,58,61,62,63,64,65,66,68,68,69,71,71,
32,31,31,31,31,31,31,31,31,31,31,32,32,32,32,34,34,34,35,36,36,38,39,39,41,44,44,45,47,48,48,51,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,34,35,35,35,37,39,39,40,43,43,44,46,47,47,50,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,35,35,35,37,38,38,40,42,42,43,45,46,46,49,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,35,35,35,37,38,38,40,42,42,43,45,46,46,49,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,36,38,38,39,42,42,42,45,45,45,48,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,36,37,37,38,41,41,41,44,44,44,47,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,36,37,37,38,41,41,41,44,44,44,47,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,35,35,36,38,38,39,41,41,42,44,45,45,47,
31,32,32,32,32,32,32,32,33,33,33,33,33,33,34,35,35,35,36,36,36,37,39,39,40,42,42,42,44,45,45,48,
31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,35,35,36,36,36,38,39,39,40,42,42,42,45,45,45,48,
31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,35,35,36,36,36,38,39,39,40,42,42,42,45,45,45,48,
32,32,32,32,32,32,32,33,33,33,33,34,35,35,35,36,36,36,37,37,37,39,40,40,41,42,42,43,45,45,45,48,
32,32,32,32,32,32,32,33,33,34,34,35,35,35,36,37,37,37,38,38,38,39,40,40,41,42,42,43,45,46,46,48,
32,32,32,32,32,32,32,33,33,34,34,35,35,35,36,37,37,37,38,38,38,39,40,40,41,42,42,43,45,46,46,48,
32,33,33,33,33,33,33,33,34,34,34,35,36,36,36,38,38,38,39,40,40,41,42,42,43,44,44,45,47,47,47,50,
34,34,34,34,34,33,33,34,35,35,35,36,37,37,38,39,39,40,42,42,42,44,45,45,46,47,47,48,50,51,51,53,
34,34,34,34,34,33,33,34,35,35,35,36,37,37,38,39,39,40,42,42,42,44,45,45,46,47,47,48,50,51,51,53,
34,34,34,34,34,34,34,34,35,35,35,36,37,37,38,40,40,41,43,44,44,45,46,46,47,49,49,49,51,52,52,54,
35,35,35,35,34,34,34,34,36,36,36,37,38,38,39,42,42,43,46,47,47,48,49,49,50,52,52,53,55,55,55,57,
36,35,35,35,35,34,34,35,36,36,36,37,38,38,40,42,42,44,47,48,48,50,50,50,52,54,54,54,56,57,57,58,
36,35,35,35,35,34,34,35,36,36,36,37,38,38,40,42,42,44,47,48,48,50,50,50,52,54,54,54,56,57,57,58,
38,37,37,37,36,36,36,36,37,38,38,39,39,39,41,44,44,45,48,50,50,51,52,52,54,56,56,57,58,59,59,61,
39,39,38,38,38,37,37,38,39,39,39,40,40,40,42,45,45,46,49,50,50,52,54,54,55,58,58,58,60,61,61,63,
39,39,38,38,38,37,37,38,39,39,39,40,40,40,42,45,45,46,49,50,50,52,54,54,55,58,58,58,60,61,61,63,
41,40,40,40,39,38,38,39,40,40,40,41,41,41,43,46,46,47,50,52,52,54,55,55,57,60,60,60,62,63,63,66,
44,43,42,42,42,41,41,41,42,42,42,42,42,42,44,47,47,49,52,54,54,56,58,58,60,63,63,64,66,67,67,69,
44,43,42,42,42,41,41,41,42,42,42,42,42,42,44,47,47,49,52,54,54,56,58,58,60,63,63,64,66,67,67,69,
45,44,43,43,42,41,41,42,42,42,42,43,43,43,45,48,48,49,53,54,54,57,58,58,60,64,64,65,67,68,68,70,
47,46,45,45,45,44,44,44,44,45,45,45,45,45,47,50,50,51,55,56,56,58,60,60,62,66,66,67,69,70,70,73,
48,47,46,46,45,44,44,45,45,45,45,45,46,46,47,51,51,52,55,57,57,59,61,61,63,67,67,68,70,71,71,74,
48,47,46,46,45,44,44,45,45,45,45,45,46,46,47,51,51,52,55,57,57,59,61,61,63,67,67,68,70,71,71,74,
51,50,49,49,48,47,47,47,48,48,48,48,48,48,50,53,53,54,57,58,58,61,63,63,66,69,69,70,73,74,74,77,
32,31,31,31,31,30,30,31,33,33,33,35,36,36,38,41,41,43,47,49,49,49,48,48,49,49,49,49,50,50,50,51,
31,31,31,31,31,31,31,31,33,34,34,36,37,37,39,42,42,43,47,48,48,48,47,47,47,47,47,48,49,49,49,50,
31,31,31,31,31,31,31,32,34,34,34,37,38,38,40,42,42,43,46,47,47,47,47,47,47,47,47,47,48,48,48,49,
31,31,31,31,31,31,31,32,34,34,34,37,38,38,40,42,42,43,46,47,47,47,47,47,47,47,47,47,48,48,48,49,
31,31,31,31,31,31,31,32,34,35,35,37,39,39,40,42,42,43,46,47,47,46,46,46,46,46,46,46,47,47,47,48,
30,31,31,31,31,32,32,32,34,35,35,38,40,40,41,42,42,43,45,46,46,46,45,45,45,45,45,45,46,46,46,47,
30,31,31,31,31,32,32,32,34,35,35,38,40,40,41,42,42,43,45,46,46,46,45,45,45,45,45,45,46,46,46,47,
31,31,32,32,32,32,32,33,35,36,36,38,40,40,41,43,43,43,46,46,46,46,45,45,45,45,45,45,46,46,46,47,
33,33,34,34,34,34,34,35,37,38,38,41,42,42,43,44,44,45,46,47,47,46,46,46,46,45,45,45,46,46,46,47,
33,34,34,34,35,35,35,36,38,39,39,41,43,43,44,45,45,45,47,47,47,46,46,46,46,45,45,45,46,46,46,47,
33,34,34,34,35,35,35,36,38,39,39,41,43,43,44,45,45,45,47,47,47,46,46,46,46,45,45,45,46,46,46,47,
35,36,37,37,37,38,38,38,41,41,41,44,46,46,46,46,46,46,47,47,47,47,46,46,46,45,45,45,46,46,46,47,
36,37,38,38,39,40,40,40,42,43,43,46,47,47,47,47,47,47,47,48,48,47,46,46,46,45,45,45,46,46,46,46,
36,37,38,38,39,40,40,40,42,43,43,46,47,47,47,47,47,47,47,48,48,47,46,46,46,45,45,45,46,46,46,46,
38,39,40,40,40,41,41,41,43,44,44,46,47,47,47,48,48,48,48,49,49,48,48,48,47,47,47,47,47,47,47,48,
41,42,42,42,42,42,42,43,44,45,45,46,47,47,48,48,48,49,50,50,50,50,49,49,49,49,49,49,50,50,50,50,
41,42,42,42,42,42,42,43,44,45,45,46,47,47,48,48,48,49,50,50,50,50,49,49,49,49,49,49,50,50,50,50,
43,43,43,43,43,43,43,43,45,45,45,46,47,47,48,49,49,49,50,51,51,50,50,50,50,50,50,50,50,50,50,51,
47,47,46,46,46,45,45,46,46,47,47,47,47,47,48,50,50,50,52,52,52,52,52,52,52,52,52,52,53,53,53,53,
49,48,47,47,47,46,46,46,47,47,47,47,48,48,49,50,50,51,52,53,53,53,53,53,53,53,53,53,54,54,54,54,
49,48,47,47,47,46,46,46,47,47,47,47,48,48,49,50,50,51,52,53,53,53,53,53,53,53,53,53,54,54,54,54,
49,48,47,47,46,46,46,46,46,46,46,47,47,47,48,50,50,50,52,53,53,53,54,54,54,55,55,55,55,55,55,56,
48,47,47,47,46,45,45,45,46,46,46,46,46,46,48,49,49,50,52,53,53,54,54,54,55,55,55,56,56,56,56,57,
48,47,47,47,46,45,45,45,46,46,46,46,46,46,48,49,49,50,52,53,53,54,54,54,55,55,55,56,56,56,56,57,
49,47,47,47,46,45,45,45,46,46,46,46,46,46,47,49,49,50,52,53,53,54,55,55,55,57,57,57,57,58,58,58,
49,47,47,47,46,45,45,45,45,45,45,45,45,45,47,49,49,50,52,53,53,55,55,55,57,58,58,59,59,60,60,60,
49,47,47,47,46,45,45,45,45,45,45,45,45,45,47,49,49,50,52,53,53,55,55,55,57,58,58,59,59,60,60,60,
49,48,47,47,46,45,45,45,45,45,45,45,45,45,47,49,49,50,52,53,53,55,56,56,57,59,59,59,60,60,60,61,
50,49,48,48,47,46,46,46,46,46,46,46,46,46,47,50,50,50,53,54,54,55,56,56,57,59,59,60,61,61,61,62,
50,49,48,48,47,46,46,46,46,46,46,46,46,46,47,50,50,50,53,54,54,55,56,56,58,60,60,60,61,61,61,63,
50,49,48,48,47,46,46,46,46,46,46,46,46,46,47,50,50,50,53,54,54,55,56,56,58,60,60,60,61,61,61,63,
51,50,49,49,48,47,47,47,47,47,47,47,46,46,48,50,50,51,53,54,54,56,57,57,58,60,60,61,62,63,63,64,
32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,33,34,34,34,35,36,36,36,37,39,39,39,41,44,44,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,37,39,39,39,41,43,43,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,37,38,38,38,40,42,42,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,37,38,38,38,40,42,42,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,37,38,38,38,40,42,42,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,36,38,38,38,39,41,41,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,36,37,37,37,39,41,41,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,36,37,37,37,39,41,41,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,36,37,37,37,39,41,41,
31,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,34,34,35,35,35,35,37,38,38,38,40,41,41,
31,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,35,35,35,36,36,36,36,38,39,39,39,40,42,42,
31,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,35,35,35,36,36,36,36,38,39,39,39,40,42,42,
31,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,35,35,35,36,36,36,36,38,39,39,39,40,42,42,
32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,35,36,36,36,36,37,37,37,38,40,40,40,41,42,42,
32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,36,37,37,37,37,38,38,38,39,40,40,40,41,42,42,
32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,36,37,37,37,37,38,38,38,39,40,40,40,41,42,42,
32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,36,37,37,37,37,38,38,38,39,40,40,40,41,42,42,
33,33,33,33,33,33,33,33,33,34,34,34,34,35,36,36,36,37,38,38,38,39,40,40,40,41,42,42,42,44,45,45,
34,34,34,34,34,34,33,33,33,34,35,35,35,36,37,37,37,38,39,39,39,41,42,42,42,44,45,45,45,46,47,47,
34,34,34,34,34,34,33,33,33,34,35,35,35,36,37,37,37,38,39,39,39,41,42,42,42,44,45,45,45,46,47,47,
34,34,34,34,34,34,33,33,33,34,35,35,35,36,37,37,37,38,39,39,39,41,42,42,42,44,45,45,45,46,47,47,
35,34,34,34,34,34,34,34,34,35,36,36,36,36,37,37,37,39,41,41,41,43,45,45,45,46,47,47,47,49,50,50,
36,35,35,35,35,35,34,34,34,35,36,36,36,37,38,38,38,40,42,42,42,45,48,48,48,49,50,50,50,52,54,54,
36,35,35,35,35,35,34,34,34,35,36,36,36,37,38,38,38,40,42,42,42,45,48,48,48,49,50,50,50,52,54,54,
36,35,35,35,35,35,34,34,34,35,36,36,36,37,38,38,38,40,42,42,42,45,48,48,48,49,50,50,50,52,54,54,
37,37,37,37,37,36,36,36,36,37,38,38,38,38,39,39,39,41,44,44,44,46,49,49,49,51,52,52,52,54,56,56,
39,39,38,38,38,38,37,37,37,38,39,39,39,40,40,40,40,42,45,45,45,47,50,50,50,52,54,54,54,56,58,58,
39,39,38,38,38,38,37,37,37,38,39,39,39,40,40,40,40,42,45,45,45,47,50,50,50,52,54,54,54,56,58,58,
39,39,38,38,38,38,37,37,37,38,39,39,39,40,40,40,40,42,45,45,45,47,50,50,50,52,54,54,54,56,58,58,
41,41,40,40,40,39,39,39,39,40,40,40,40,41,41,41,41,44,46,46,46,49,52,52,52,54,56,56,56,58,60,60,
44,43,42,42,42,41,41,41,41,41,42,42,42,42,42,42,42,45,47,47,47,50,54,54,54,56,58,58,58,60,63,63,
44,43,42,42,42,41,41,41,41,41,42,42,42,42,42,42,42,45,47,47,47,50,54,54,54,56,58,58,58,60,63,63,
32,31,31,31,31,31,30,30,30,32,33,33,33,35,36,36,36,39,41,41,41,45,49,49,49,49,48,48,48,49,49,49,
31,31,31,31,31,31,31,31,31,32,34,34,34,35,37,37,37,39,42,42,42,45,48,48,48,48,48,48,48,48,48,48,
31,31,31,31,31,31,31,31,31,33,34,34,34,36,38,38,38,40,42,42,42,45,47,47,47,47,47,47,47,47,47,47,
31,31,31,31,31,31,31,31,31,33,34,34,34,36,38,38,38,40,42,42,42,45,47,47,47,47,47,47,47,47,47,47,
31,31,31,31,31,31,31,31,31,33,34,34,34,36,38,38,38,40,42,42,42,45,47,47,47,47,47,47,47,47,47,47,
31,31,31,31,31,31,31,31,31,33,35,35,35,37,39,39,39,41,42,42,42,44,47,47,47,46,46,46,46,46,46,46,
30,31,31,31,31,31,32,32,32,33,35,35,35,37,40,40,40,41,42,42,42,44,46,46,46,46,45,45,45,45,45,45,
30,31,31,31,31,31,32,32,32,33,35,35,35,37,40,40,40,41,42,42,42,44,46,46,46,46,45,45,45,45,45,45,
30,31,31,31,31,31,32,32,32,33,35,35,35,37,40,40,40,41,42,42,42,44,46,46,46,46,45,45,45,45,45,45,
32,32,33,33,33,33,33,33,33,35,37,37,37,39,41,41,41,42,43,43,43,45,47,47,47,46,46,46,46,45,45,45,
33,34,34,34,34,35,35,35,35,37,39,39,39,41,43,43,43,44,45,45,45,46,47,47,47,47,46,46,46,46,45,45,
33,34,34,34,34,35,35,35,35,37,39,39,39,41,43,43,43,44,45,45,45,46,47,47,47,47,46,46,46,46,45,45,
33,34,34,34,34,35,35,35,35,37,39,39,39,41,43,43,43,44,45,45,45,46,47,47,47,47,46,46,46,46,45,45,
35,35,36,36,36,37,37,37,37,39,41,41,41,43,45,45,45,45,46,46,46,47,47,47,47,47,46,46,46,46,45,45,
36,37,38,38,38,39,40,40,40,41,43,43,43,45,47,47,47,47,47,47,47,47,48,48,48,47,46,46,46,46,45,45,
36,37,38,38,38,39,40,40,40,41,43,43,43,45,47,47,47,47,47,47,47,47,48,48,48,47,46,46,46,46,45,45,
36,37,38,38,38,39,40,40,40,41,43,43,43,45,47,47,47,47,47,47,47,47,48,48,48,47,46,46,46,46,45,45,
39,39,40,40,40,41,41,41,41,42,44,44,44,45,47,47,47,47,48,48,48,48,49,49,49,48,48,48,48,47,47,47,
41,42,42,42,42,42,42,42,42,43,45,45,45,46,47,47,47,48,48,48,48,49,50,50,50,50,49,49,49,49,49,49,
41,42,42,42,42,42,42,42,42,43,45,45,45,46,47,47,47,48,48,48,48,49,50,50,50,50,49,49,49,49,49,49,
41,42,42,42,42,42,42,42,42,43,45,45,45,46,47,47,47,48,48,48,48,49,50,50,50,50,49,49,49,49,49,49,
45,45,45,45,45,44,44,44,44,45,46,46,46,47,47,47,47,48,49,49,49,50,51,51,51,51,51,51,51,51,51,51,
49,48,47,47,47,47,46,46,46,47,47,47,47,47,48,48,48,49,50,50,50,51,53,53,53,53,53,53,53,53,53,53,
49,48,47,47,47,47,46,46,46,47,47,47,47,47,48,48,48,49,50,50,50,51,53,53,53,53,53,53,53,53,53,53,
49,48,47,47,47,47,46,46,46,47,47,47,47,47,48,48,48,49,50,50,50,51,53,53,53,53,53,53,53,53,53,53,
49,48,47,47,47,46,46,46,46,46,47,47,47,47,47,47,47,48,50,50,50,51,53,53,53,53,53,53,53,54,54,54,
48,48,47,47,47,46,45,45,45,46,46,46,46,46,46,46,46,48,49,49,49,51,53,53,53,53,54,54,54,55,55,55,
48,48,47,47,47,46,45,45,45,46,46,46,46,46,46,46,46,48,49,49,49,51,53,53,53,53,54,54,54,55,55,55,
48,48,47,47,47,46,45,45,45,46,46,46,46,46,46,46,46,48,49,49,49,51,53,53,53,53,54,54,54,55,55,55,
49,48,47,47,47,46,45,45,45,45,46,46,46,46,46,46,46,47,49,49,49,51,53,53,53,54,55,55,55,56,57,57,
49,48,47,47,47,46,45,45,45,45,45,45,45,45,45,45,45,47,49,49,49,51,53,53,53,54,55,55,55,57,58,58,
49,48,47,47,47,46,45,45,45,45,45,45,45,45,45,45,45,47,49,49,49,51,53,53,53,54,55,55,55,57,58,58,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,33,34,34,34,34,35,36,36,36,37,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,35,37,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,36,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,36,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,36,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,36,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,34,35,35,35,36,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,34,35,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,34,35,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,34,35,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,34,35,
31,31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,34,34,34,34,34,35,35,35,35,36,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,34,34,35,35,35,35,36,36,36,36,37,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,35,35,35,35,36,36,36,36,36,37,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,35,35,35,35,36,36,36,36,36,37,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,35,35,35,35,36,36,36,36,36,37,
32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,34,35,35,36,36,36,36,37,37,37,37,38,
32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,35,36,36,36,36,37,37,38,38,38,39,
32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,36,36,37,37,37,37,38,38,38,38,39,
32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,36,36,37,37,37,37,38,38,38,38,39,
32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,36,36,37,37,37,37,38,38,38,38,39,
32,32,33,33,33,33,33,33,33,33,33,33,34,34,34,34,35,35,36,36,36,36,37,38,38,38,38,39,40,40,40,41,
33,33,33,33,33,33,33,33,33,33,33,34,34,35,35,35,35,36,36,36,36,37,38,39,39,39,40,41,42,42,42,42,
34,34,34,34,34,34,34,33,33,33,33,34,35,35,35,35,36,36,37,37,37,38,39,39,39,39,41,42,42,42,42,43,
34,34,34,34,34,34,34,33,33,33,33,34,35,35,35,35,36,36,37,37,37,38,39,39,39,39,41,42,42,42,42,43,
34,34,34,34,34,34,34,33,33,33,33,34,35,35,35,35,36,36,37,37,37,38,39,39,39,39,41,42,42,42,42,43,
34,34,34,34,34,34,34,34,34,34,34,34,35,36,36,36,36,37,37,37,37,38,40,41,41,41,42,44,45,45,45,45,
35,35,35,35,35,35,34,34,34,34,34,35,36,36,36,36,37,37,38,38,38,39,41,42,42,42,44,46,47,47,47,48,
36,35,35,35,35,35,35,34,34,34,34,35,36,36,36,36,37,38,38,38,38,40,42,42,42,42,45,47,48,48,48,49,
36,35,35,35,35,35,35,34,34,34,34,35,36,36,36,36,37,38,38,38,38,40,42,42,42,42,45,47,48,48,48,49,
36,35,35,35,35,35,35,34,34,34,34,35,36,36,36,36,37,38,38,38,38,40,42,42,42,42,45,47,48,48,48,49,
37,37,36,36,36,36,36,35,35,35,35,36,37,37,37,37,38,39,39,39,39,41,42,43,43,43,45,48,49,49,49,50,
32,31,31,31,31,31,31,30,30,30,30,31,33,33,33,33,34,36,36,36,36,38,40,41,41,41,44,47,49,49,49,49,
31,31,31,31,31,31,31,31,30,30,30,32,33,34,34,34,35,36,37,37,37,39,41,42,42,42,44,47,48,48,48,48,
31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,36,37,38,38,38,39,41,42,42,42,44,46,48,48,48,47,
31,31,31,31,31,31,31,31,31,31,31,32,34,34,34,34,36,37,38,38,38,40,41,42,42,42,44,46,47,47,47,47,
31,31,31,31,31,31,31,31,31,31,31,32,34,34,34,34,36,37,38,38,38,40,41,42,42,42,44,46,47,47,47,47,
31,31,31,31,31,31,31,31,31,31,31,32,34,34,34,34,36,37,38,38,38,40,41,42,42,42,44,46,47,47,47,47,
31,31,31,31,31,31,31,31,31,31,31,33,34,35,35,35,36,38,39,39,39,40,41,42,42,42,44,46,47,47,47,47,
30,31,31,31,31,31,31,31,31,31,31,33,34,35,35,35,37,38,39,39,39,41,42,42,42,42,44,46,46,46,46,46,
30,30,31,31,31,31,31,31,32,32,32,33,34,35,35,35,37,39,40,40,40,41,42,42,42,42,44,45,46,46,46,46,
30,30,31,31,31,31,31,31,32,32,32,33,34,35,35,35,37,39,40,40,40,41,42,42,42,42,44,45,46,46,46,46,
30,30,31,31,31,31,31,31,32,32,32,33,34,35,35,35,37,39,40,40,40,41,42,42,42,42,44,45,46,46,46,46,
31,32,32,32,32,32,33,33,33,33,33,34,36,37,37,37,38,40,41,41,41,42,43,43,43,43,44,46,46,46,46,46,
33,33,33,34,34,34,34,34,34,34,34,36,37,38,38,38,40,41,42,42,42,43,44,44,44,44,45,46,47,47,47,46,
33,34,34,34,34,34,35,35,35,35,35,37,38,39,39,39,40,42,43,43,43,44,44,45,45,45,46,47,47,47,47,47,
33,34,34,34,34,34,35,35,35,35,35,37,38,39,39,39,40,42,43,43,43,44,44,45,45,45,46,47,47,47,47,47,
33,34,34,34,34,34,35,35,35,35,35,37,38,39,39,39,40,42,43,43,43,44,44,45,45,45,46,47,47,47,47,47,
34,35,36,36,36,36,36,37,37,37,37,38,40,40,40,40,42,44,45,45,45,45,45,46,46,46,46,47,47,47,47,47,
36,36,37,37,37,37,38,38,39,39,39,40,41,42,42,42,44,46,46,46,46,47,47,47,47,47,47,47,47,47,47,47,
36,37,38,38,38,38,39,39,40,40,40,41,42,43,43,43,45,46,47,47,47,47,47,47,47,47,47,47,48,48,48,47,
36,37,38,38,38,38,39,39,40,40,40,41,42,43,43,43,45,46,47,47,47,47,47,47,47,47,47,47,48,48,48,47,
36,37,38,38,38,38,39,39,40,40,40,41,42,43,43,43,45,46,47,47,47,47,47,47,47,47,47,47,48,48,48,47,
38,39,39,40,40,40,40,41,41,41,41,42,43,44,44,44,45,47,47,47,47,47,48,48,48,48,48,48,49,49,49,48,
40,41,41,41,41,41,41,42,42,42,42,43,44,44,44,44,45,47,47,47,47,48,48,48,48,48,49,49,50,50,50,49,
41,42,42,42,42,42,42,42,42,42,42,43,44,45,45,45,46,47,47,47,47,48,48,48,48,48,49,50,50,50,50,50,
41,42,42,42,42,42,42,42,42,42,42,43,44,45,45,45,46,47,47,47,47,48,48,48,48,48,49,50,50,50,50,50,
41,42,42,42,42,42,42,42,42,42,42,43,44,45,45,45,46,47,47,47,47,48,48,48,48,48,49,50,50,50,50,50,
44,44,44,44,44,44,44,44,44,44,44,44,45,46,46,46,46,47,47,47,47,48,49,49,49,49,50,51,51,51,51,51,
47,47,46,46,46,46,46,46,45,45,45,46,46,47,47,47,47,47,47,47,47,48,49,50,50,50,51,52,52,52,52,52,
49,48,48,47,47,47,47,46,46,46,46,46,47,47,47,47,47,47,48,48,48,49,50,50,50,50,51,52,53,53,53,53,
49,48,48,47,47,47,47,46,46,46,46,46,47,47,47,47,47,47,48,48,48,49,50,50,50,50,51,52,53,53,53,53,
49,48,48,47,47,47,47,46,46,46,46,46,47,47,47,47,47,47,48,48,48,49,50,50,50,50,51,52,53,53,53,53,
49,48,47,47,47,47,47,46,46,46,46,46,46,47,47,47,47,47,47,47,47,48,49,50,50,50,51,52,53,53,53,53,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,33,34,34,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,34,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,33,33,34,34,34,34,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,33,33,34,34,34,35,35,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,34,34,34,34,34,35,35,35,35,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,34,35,35,35,35,35,35,36,36,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,34,35,35,35,35,35,35,36,36,36,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,32,33,33,33,33,33,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,36,36,36,36,36,37,38,38,
33,33,33,33,33,33,33,33,33,33,33,33,33,33,33,34,34,35,35,35,35,35,35,36,36,36,36,36,37,38,38,38,
34,34,34,34,34,34,34,34,34,33,33,33,33,33,34,34,35,35,35,35,35,35,36,36,37,37,37,37,38,38,39,39,
34,34,34,34,34,34,34,34,34,33,33,33,33,33,34,34,35,35,35,35,35,35,36,36,37,37,37,37,38,38,39,39,
32,31,31,31,31,31,31,31,31,30,30,30,30,30,31,32,33,33,33,33,33,34,35,36,36,36,36,37,38,40,41,41,
31,31,31,31,31,31,31,31,31,31,30,30,30,30,31,32,33,34,34,34,34,35,36,37,37,37,37,37,39,40,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,34,35,36,37,37,37,37,38,39,40,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,34,34,34,34,34,35,36,38,38,38,38,38,40,41,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,34,34,35,37,38,38,38,38,39,40,41,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,34,34,35,37,38,38,38,38,39,40,41,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,34,34,35,37,38,38,38,38,39,40,41,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,34,34,36,37,38,38,38,38,39,40,41,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,35,35,35,35,36,37,38,39,39,39,39,40,41,42,42,
30,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,35,35,35,35,36,37,39,39,39,39,40,40,41,42,42,
30,30,31,31,31,31,31,31,31,31,32,32,32,32,32,33,34,35,35,35,35,36,38,39,40,40,40,40,41,42,42,42,
30,30,31,31,31,31,31,31,31,31,32,32,32,32,32,33,34,35,35,35,35,36,38,39,40,40,40,40,41,42,42,42,
30,30,31,31,31,31,31,31,31,31,32,32,32,32,32,33,34,35,35,35,35,36,38,39,40,40,40,40,41,42,42,42,
30,30,31,31,31,31,31,31,31,31,32,32,32,32,32,33,34,35,35,35,35,36,38,39,40,40,40,40,41,42,42,42,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,33,34,35,36,36,36,36,37,38,40,40,40,40,41,41,42,43,43,
32,32,32,32,33,33,33,33,33,33,33,33,33,33,34,35,36,37,37,37,37,38,39,41,41,41,41,42,42,43,43,43,
33,33,33,34,34,34,34,34,34,34,34,34,34,34,35,36,37,38,38,38,38,39,41,42,42,42,42,43,43,44,44,44,
33,34,34,34,34,34,34,34,35,35,35,35,35,35,36,37,38,39,39,39,39,40,41,43,43,43,43,43,44,44,45,45,
33,34,34,34,34,34,34,34,35,35,35,35,35,35,36,37,38,39,39,39,39,40,41,43,43,43,43,43,44,44,45,45,
33,34,34,34,34,34,34,34,35,35,35,35,35,35,36,37,38,39,39,39,39,40,41,43,43,43,43,43,44,44,45,45,
33,34,34,34,34,34,34,34,35,35,35,35,35,35,36,37,38,39,39,39,39,40,41,43,43,43,43,43,44,44,45,45,
34,35,35,35,35,35,35,36,36,36,36,36,36,36,37,38,39,40,40,40,40,41,42,44,44,44,44,44,45,45,45,45,
35,36,36,36,37,37,37,37,37,37,38,38,38,38,38,39,41,41,41,41,41,42,44,45,46,46,46,46,46,46,46,46,
36,37,37,38,38,38,38,38,38,39,39,39,39,39,40,41,42,43,43,43,43,44,45,46,47,47,47,47,47,47,47,47,
36,37,37,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,46,47,47,47,47,47,47,47,47,47,
36,37,37,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,46,47,47,47,47,47,47,47,47,47,
36,37,37,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,46,47,47,47,47,47,47,47,47,47,
37,37,38,38,39,39,39,39,39,40,40,40,40,40,41,42,43,43,43,43,43,44,46,47,47,47,47,47,47,47,47,47,
38,39,39,40,40,40,40,40,40,40,41,41,41,41,41,42,43,44,44,44,44,45,46,47,47,47,47,47,47,48,48,48,
40,40,40,41,41,41,41,41,41,41,42,42,42,42,42,43,44,44,44,44,44,45,46,47,47,47,47,47,48,48,48,48,
41,42,42,42,42,42,42,42,42,42,42,42,42,42,43,43,44,45,45,45,45,45,46,47,47,47,47,47,48,48,48,48,
41,42,42,42,42,42,42,42,42,42,42,42,42,42,43,43,44,45,45,45,45,45,46,47,47,47,47,47,48,48,48,48,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,33,
32,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,30,30,30,31,31,32,33,33,33,33,33,33,33,34,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,30,30,31,31,32,33,33,33,33,33,33,33,34,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,30,31,32,32,33,34,34,34,34,34,34,34,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,33,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,33,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,33,34,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,33,34,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,33,34,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,33,34,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,33,34,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,33,34,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,33,34,35,35,35,35,35,35,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,33,34,35,35,35,35,35,35,35,
30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,33,34,35,35,35,35,35,35,36,
30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,35,35,35,35,35,35,36,
30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,35,35,35,35,35,35,36,
30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,35,35,35,35,35,35,36,
30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,35,35,35,35,35,35,36,
30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,35,35,35,35,35,35,36,
30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,35,35,35,35,35,35,36,
30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,35,35,35,35,35,35,36,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,35,36,36,36,36,36,36,37,
31,31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,34,34,35,36,37,37,37,37,37,37,37,
32,32,32,33,33,33,33,33,33,33,33,33,33,33,34,34,34,34,34,34,34,34,35,36,37,37,37,37,37,37,37,38,
33,33,33,33,33,34,34,34,34,34,34,34,34,34,34,34,34,34,34,34,34,35,36,37,37,38,38,38,38,38,38,39,
33,33,34,34,34,34,34,34,34,34,34,35,35,35,35,35,35,35,35,35,35,36,37,37,38,39,39,39,39,39,39,40,
33,33,34,34,34,34,34,34,34,34,34,35,35,35,35,35,35,35,35,35,35,36,37,37,38,39,39,39,39,39,39,40,
33,33,34,34,34,34,34,34,34,34,34,35,35,35,35,35,35,35,35,35,35,36,37,37,38,39,39,39,39,39,39,40,
33,33,34,34,34,34,34,34,34,34,34,35,35,35,35,35,35,35,35,35,35,36,37,37,38,39,39,39,39,39,39,40,
33,33,34,34,34,34,34,34,34,34,34,35,35,35,35,35,35,35,35,35,35,36,37,37,38,39,39,39,39,39,39,40,
33,33,34,34,34,34,34,34,34,34,34,35,35,35,35,35,35,35,35,35,35,36,37,37,38,39,39,39,39,39,39,40,
34,34,34,35,35,35,35,35,35,35,35,35,35,36,36,36,36,36,36,36,36,37,37,38,39,40,40,40,40,40,40,40,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
30,30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
30,30,30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
30,30,30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,
30,30,30,30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,
};
static const uint8_t T_qm5[960]={32,33,37,49,65,80,91,104,42,42,58,71,84,97,100,112,75,69,84,103,125,142,145,146,91,86,91,110,128,152,178,190,
31,40,46,48,54,61,64,68,47,45,56,61,65,69,68,71,60,54,64,75,85,92,90,87,66,61,64,73,82,92,102,105,
32,33,36,46,60,75,86,98,42,42,56,67,79,92,95,105,69,64,77,93,112,130,136,136,88,83,88,105,122,144,167,177,
31,40,46,47,52,59,63,66,47,45,55,60,64,68,66,69,57,52,61,70,79,87,88,85,65,61,63,72,81,90,99,102,
32,32,34,44,54,72,82,92,38,40,51,61,69,84,89,98,62,58,68,85,98,118,129,127,86,80,85,101,117,136,157,165,
31,38,46,46,50,57,61,65,47,46,53,56,59,64,65,67,54,50,57,66,74,82,85,82,64,60,62,71,79,88,97,99,
32,32,34,41,51,65,75,86,35,36,47,53,61,73,81,92,59,57,65,78,92,108,117,119,83,78,82,97,111,129,148,154,
31,36,46,45,49,54,59,63,47,47,52,53,55,58,61,65,53,50,55,63,71,77,81,80,63,59,61,70,77,86,94,95,
32,32,34,38,48,60,72,81,35,36,42,51,59,68,79,86,51,50,54,67,80,92,104,112,77,72,75,87,103,119,135,144,
31,36,43,45,47,52,57,61,47,47,50,53,54,56,60,63,50,47,50,58,66,70,75,77,61,57,58,65,74,82,90,93,
32,32,34,37,45,54,65,75,35,36,42,50,56,63,73,81,51,50,54,65,76,87,97,106,75,71,73,84,96,110,125,136,
31,36,43,46,46,50,54,59,47,47,50,53,54,55,58,61,50,47,50,57,64,68,72,75,60,56,57,64,71,78,85,90,
32,32,33,35,41,49,57,66,34,34,37,43,48,54,60,68,43,42,44,54,64,71,78,86,62,59,58,68,79,91,101,111,
31,33,40,47,45,48,51,55,42,44,47,50,49,50,52,55,47,45,46,54,59,61,63,66,54,51,50,57,64,70,75,79,
32,32,32,34,38,44,50,61,32,33,35,37,40,45,50,58,42,41,42,50,58,66,71,79,56,53,52,59,68,78,86,97,
31,32,39,44,46,47,48,53,38,40,47,47,47,46,47,50,47,45,45,51,56,59,61,64,52,49,48,53,58,64,68,73,
32,32,32,34,35,40,46,52,32,33,34,37,38,42,46,51,37,36,38,44,49,55,59,64,52,49,49,54,60,69,76,83,
31,31,36,42,47,46,48,50,38,40,44,47,48,46,46,48,47,46,47,50,53,54,55,56,50,48,47,50,54,60,64,67,
31,32,32,32,34,37,42,46,32,33,34,35,37,40,43,46,35,34,36,38,43,49,53,56,43,41,42,42,49,56,63,67,
31,31,35,39,43,47,46,48,38,40,43,47,47,47,46,46,47,46,47,47,50,53,53,54,48,45,46,45,50,55,58,59,
31,32,32,32,33,34,37,40,32,32,33,33,34,36,38,40,34,34,34,36,38,41,44,46,39,38,38,40,42,47,52,56,
31,31,33,36,40,45,47,47,34,35,37,41,44,46,47,46,42,42,44,46,48,49,50,49,48,46,46,46,48,51,54,55,
31,32,32,32,32,33,34,35,31,32,32,32,33,33,34,34,32,32,33,34,35,36,37,38,35,35,34,36,38,40,42,48,
31,31,31,34,37,39,42,48,31,31,32,36,39,41,43,46,37,38,40,43,46,47,47,48,48,47,46,47,47,48,50,53,
31,31,32,32,32,32,32,33,31,32,32,32,32,32,33,33,32,32,32,32,33,34,34,35,32,32,32,33,34,34,35,36,
31,31,31,31,34,35,38,41,31,31,32,32,36,37,40,42,35,36,37,37,40,42,45,45,37,38,39,40,43,44,47,47,
31,31,31,31,31,31,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,
31,31,31,31,31,31,34,34,31,31,31,32,32,33,36,36,31,31,31,32,32,33,36,36,34,35,35,36,36,37,40,40,
31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,31,31,31,31,31,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,31,31,31,31,31,31,32,32,
};
static const uint8_t T_qm6[960]={32,42,75,91,33,42,69,86,37,58,84,91,49,71,103,110,65,84,125,128,80,97,142,152,91,100,145,178,104,112,146,190,
31,47,60,66,40,45,54,61,46,56,64,64,48,61,75,73,54,65,85,82,61,69,92,92,64,68,90,102,68,71,87,105,
32,42,69,88,33,42,64,83,36,56,77,88,46,67,93,105,60,79,112,122,75,92,130,144,86,95,136,167,98,105,136,177,
31,47,57,65,40,45,52,61,46,55,61,63,47,60,70,72,52,64,79,81,59,68,87,90,63,66,88,99,66,69,85,102,
32,38,62,86,32,40,58,80,34,51,68,85,44,61,85,101,54,69,98,117,72,84,118,136,82,89,129,157,92,98,127,165,
31,47,54,64,38,46,50,60,46,53,57,62,46,56,66,71,50,59,74,79,57,64,82,88,61,65,85,97,65,67,82,99,
32,35,59,83,32,36,57,78,34,47,65,82,41,53,78,97,51,61,92,111,65,73,108,129,75,81,117,148,86,92,119,154,
31,47,53,63,36,47,50,59,46,52,55,61,45,53,63,70,49,55,71,77,54,58,77,86,59,61,81,94,63,65,80,95,
32,35,51,77,32,36,50,72,34,42,54,75,38,51,67,87,48,59,80,103,60,68,92,119,72,79,104,135,81,86,112,144,
31,47,50,61,36,47,47,57,43,50,50,58,45,53,58,65,47,54,66,74,52,56,70,82,57,60,75,90,61,63,77,93,
32,35,51,75,32,36,50,71,34,42,54,73,37,50,65,84,45,56,76,96,54,63,87,110,65,73,97,125,75,81,106,136,
31,47,50,60,36,47,47,56,43,50,50,57,46,53,57,64,46,54,64,71,50,55,68,78,54,58,72,85,59,61,75,90,
32,34,43,62,32,34,42,59,33,37,44,58,35,43,54,68,41,48,64,79,49,54,71,91,57,60,78,101,66,68,86,111,
31,42,47,54,33,44,45,51,40,47,46,50,47,50,54,57,45,49,59,64,48,50,61,70,51,52,63,75,55,55,66,79,
32,32,42,56,32,33,41,53,32,35,42,52,34,37,50,59,38,40,58,68,44,45,66,78,50,50,71,86,61,58,79,97,
31,38,47,52,32,40,45,49,39,47,45,48,44,47,51,53,46,47,56,58,47,46,59,64,48,47,61,68,53,50,64,73,
32,32,37,52,32,33,36,49,32,34,38,49,34,37,44,54,35,38,49,60,40,42,55,69,46,46,59,76,52,51,64,83,
31,38,47,50,31,40,46,48,36,44,47,47,42,47,50,50,47,48,53,54,46,46,54,60,48,46,55,64,50,48,56,67,
31,32,35,43,32,33,34,41,32,34,36,42,32,35,38,42,34,37,43,49,37,40,49,56,42,43,53,63,46,46,56,67,
31,38,47,48,31,40,46,45,35,43,47,46,39,47,47,45,43,47,50,50,47,47,53,55,46,46,53,58,48,46,54,59,
31,32,34,39,32,32,34,38,32,33,34,38,32,33,36,40,33,34,38,42,34,36,41,47,37,38,44,52,40,40,46,56,
31,34,42,48,31,35,42,46,33,37,44,46,36,41,46,46,40,44,48,48,45,46,49,51,47,47,50,54,47,46,49,55,
31,31,32,35,32,32,32,35,32,32,33,34,32,32,34,36,32,33,35,38,33,33,36,40,34,34,37,42,35,34,38,48,
31,31,37,48,31,31,38,47,31,32,40,46,34,36,43,47,37,39,46,47,39,41,47,48,42,43,47,50,48,46,48,53,
31,31,32,32,31,32,32,32,32,32,32,32,32,32,32,33,32,32,33,34,32,32,34,34,32,33,34,35,33,33,35,36,
31,31,35,37,31,31,36,38,31,32,37,39,31,32,37,40,34,36,40,43,35,37,42,44,38,40,45,47,41,42,45,47,
31,31,31,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,33,32,32,32,33,32,32,32,33,
31,31,31,34,31,31,31,35,31,31,31,35,31,32,32,36,31,32,32,36,31,33,33,37,34,36,36,40,34,36,36,40,
31,31,31,31,31,31,31,31,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,30,31,32,32,
};
static const uint8_t T_qm7[3840]={32,31,32,34,36,44,48,58,65,79,82,91,97,103,110,118,32,33,34,37,38,43,46,54,58,70,72,80,86,93,100,107,
36,34,36,42,48,53,56,63,68,79,81,88,94,98,101,105,53,49,50,54,60,71,76,87,92,104,106,106,107,114,117,118,
65,59,59,63,68,79,85,98,105,118,121,130,128,131,138,136,87,78,77,79,84,95,102,116,124,141,144,148,157,150,161,157,
93,86,82,80,86,94,105,112,122,135,149,162,167,174,183,182,99,93,89,88,90,97,105,115,124,135,146,159,171,186,193,203,
32,30,33,42,49,49,50,54,57,63,64,68,70,72,74,76,37,40,43,47,48,46,46,49,50,55,56,59,62,64,67,69,
48,46,47,50,53,53,54,55,56,60,61,64,66,66,66,67,52,48,47,50,54,61,64,68,70,75,75,74,73,75,74,73,
57,52,51,53,57,64,67,73,76,82,83,86,83,83,84,82,66,60,59,60,62,69,73,80,84,92,93,94,96,92,94,91,
68,63,60,59,62,66,72,76,80,87,93,98,99,101,103,101,71,66,63,62,62,66,70,75,79,84,89,94,98,104,106,109,
32,31,32,32,36,39,47,53,61,71,79,86,92,98,104,110,32,32,34,35,37,40,45,50,56,64,70,76,82,88,94,100,
36,35,36,40,48,50,56,60,65,73,79,84,89,93,95,98,47,44,45,47,56,60,69,75,81,89,95,100,101,108,110,111,
65,60,59,60,68,73,84,92,100,111,118,124,121,124,129,127,79,72,71,71,78,84,95,103,113,125,133,140,148,141,151,147,
90,84,80,78,83,91,101,108,116,129,142,153,157,163,171,169,96,90,87,85,87,94,101,110,118,129,138,150,161,174,181,188,
32,30,33,39,49,48,50,52,55,60,63,66,68,70,72,74,35,38,41,46,48,46,46,47,49,53,55,58,60,62,65,67,
48,46,47,48,53,53,54,54,56,58,60,62,64,65,65,65,50,46,46,47,54,56,61,63,65,68,70,72,71,73,72,71,
57,52,51,51,57,60,66,71,74,79,82,84,81,81,82,79,63,58,56,55,60,64,70,75,79,85,89,91,94,89,92,89,
68,63,60,58,61,65,71,75,79,85,91,95,97,98,100,98,70,65,63,61,61,65,69,74,78,82,87,91,96,101,103,105,
32,31,32,32,34,39,44,49,57,65,71,81,87,92,98,103,32,32,33,34,36,39,42,46,53,59,64,72,77,83,88,94,
36,35,36,38,44,50,53,57,63,68,73,80,85,88,89,92,44,41,42,42,50,58,63,67,74,79,84,91,96,102,103,103,
58,54,53,52,59,68,74,81,90,97,102,110,114,117,121,119,79,73,71,69,75,84,90,97,108,118,125,135,140,133,141,137,
88,81,78,76,81,88,97,104,111,123,135,145,148,153,160,158,93,88,84,82,84,90,97,105,113,122,131,141,151,163,169,175,
32,31,33,37,44,48,49,51,54,57,60,64,66,68,70,72,34,36,40,44,46,46,45,47,49,51,53,57,59,61,63,65,
48,46,47,47,51,53,53,54,55,56,58,61,63,63,63,63,49,46,46,45,51,56,58,60,62,64,65,68,69,71,70,69,
54,50,49,48,53,58,62,65,70,73,75,78,79,79,80,77,63,58,56,54,59,64,67,71,77,82,85,89,91,87,89,86,
67,62,59,57,60,64,70,73,77,83,89,93,94,96,97,95,69,65,62,60,61,64,68,72,76,81,85,89,93,98,100,102,
32,31,31,32,34,36,41,47,53,58,65,74,82,87,92,97,31,32,33,34,35,36,40,44,50,54,59,67,73,78,83,88,
35,34,35,37,41,46,49,53,57,61,66,73,79,83,84,86,44,41,42,42,48,54,60,66,71,75,79,86,92,96,97,97,
53,50,49,49,54,60,67,75,82,87,92,100,105,110,114,111,65,61,59,58,63,68,76,84,92,98,105,113,120,125,132,128,
82,76,73,71,76,80,88,97,106,112,120,131,139,144,150,147,90,85,81,79,81,87,93,101,108,116,124,134,142,153,157,163,
32,31,33,37,42,49,48,50,52,54,57,61,64,66,68,70,33,34,37,43,44,47,46,46,47,49,51,55,57,59,61,63,
45,45,46,47,49,52,51,52,53,54,55,58,60,61,61,61,49,46,45,45,49,53,57,59,61,62,64,66,68,69,68,67,
52,49,47,47,50,54,59,63,66,68,70,73,75,77,77,75,57,53,51,50,53,57,61,66,71,73,76,80,83,84,86,83,
64,60,57,55,58,61,66,71,75,79,83,87,91,93,94,92,68,64,61,59,60,63,67,71,74,79,83,87,91,95,97,98,
32,31,31,32,33,36,39,44,48,53,58,66,74,81,86,91,31,32,32,33,34,35,38,41,45,49,54,60,67,73,78,82,
33,33,34,36,38,42,44,46,50,53,57,63,69,75,78,80,40,39,38,40,44,51,54,59,62,66,70,75,81,86,90,90,
51,49,47,48,52,58,63,69,74,79,84,90,97,102,106,103,65,61,59,58,62,68,73,79,85,92,98,106,113,120,124,119,
79,74,71,69,72,78,84,90,96,103,110,119,128,135,140,137,87,82,79,77,78,84,89,96,103,111,118,126,134,143,147,151,
32,31,31,35,41,49,48,49,50,52,54,57,61,64,66,68,32,33,35,39,43,47,46,45,46,48,50,52,55,58,59,61,
40,41,43,46,48,50,49,48,49,50,51,53,56,58,59,59,49,47,46,46,49,53,54,56,57,58,59,61,63,65,66,65,
51,49,47,47,49,54,57,61,63,65,67,69,72,73,75,72,57,54,51,50,52,57,60,64,67,71,73,77,80,82,84,81,
63,59,57,55,57,60,64,67,71,75,78,82,86,89,91,89,67,63,60,58,59,62,65,69,73,77,81,85,88,92,94,95,
32,31,31,32,32,34,36,39,44,48,53,58,65,71,79,82,31,32,32,32,33,34,34,37,41,45,49,54,60,65,72,75,
32,32,33,34,35,37,38,40,43,46,50,54,58,63,70,72,36,35,34,36,38,42,48,50,53,56,60,63,68,73,79,81,
44,42,41,42,42,48,54,58,63,67,71,75,79,84,90,92,53,51,49,50,49,54,60,65,71,76,82,87,92,97,104,106,
65,62,59,59,58,63,68,73,79,85,92,98,105,111,118,121,79,75,72,71,69,73,78,84,90,96,103,110,118,125,133,136,
32,31,30,33,37,42,49,48,49,50,52,54,57,60,63,64,31,31,32,36,40,43,46,46,45,46,48,50,52,54,57,59,
37,38,40,43,47,47,48,47,46,46,47,49,50,52,55,56,48,47,46,47,47,50,53,53,53,54,54,55,56,58,60,61,
49,47,45,46,45,49,53,56,58,59,61,62,64,65,67,68,52,50,48,47,47,50,54,57,61,64,66,68,70,72,75,75,
57,54,52,51,50,53,57,60,64,67,71,73,76,79,82,83,63,60,57,56,54,57,60,64,67,71,75,78,82,85,89,90,
32,31,31,32,32,34,35,38,41,44,48,53,58,65,71,79,31,32,32,32,33,34,34,36,39,42,45,49,54,60,65,72,
32,32,33,34,35,37,38,40,41,43,46,50,54,58,63,70,36,35,34,36,38,42,47,49,51,54,56,60,63,68,73,79,
44,42,41,42,42,48,52,56,60,64,67,71,75,79,84,90,53,51,49,50,49,54,59,63,67,72,76,82,87,92,97,104,
62,59,57,57,56,61,65,69,74,79,83,90,95,102,108,115,73,69,66,65,64,69,73,77,81,86,91,99,105,112,119,127,
32,31,30,33,37,42,47,48,48,49,50,52,54,57,60,63,31,31,32,36,40,43,46,46,45,45,46,48,50,52,54,57,
37,38,40,43,47,47,48,47,46,46,46,47,49,50,52,55,48,47,46,47,47,50,52,53,53,53,54,54,55,56,58,60,
49,47,45,46,45,49,53,55,57,58,59,61,62,64,65,67,52,50,48,47,47,50,53,56,59,62,64,66,68,70,72,75,
56,53,51,50,49,53,55,58,61,64,66,70,72,75,77,80,61,57,55,54,52,56,58,61,63,66,69,73,76,79,82,86,
32,31,31,31,32,32,34,36,38,41,44,48,53,57,61,65,31,32,32,32,32,33,34,34,37,39,41,45,49,53,56,60,
32,32,33,34,34,35,37,38,40,41,43,46,50,53,56,58,35,35,34,35,36,37,41,46,47,49,51,54,57,60,63,66,
39,38,37,38,39,40,44,50,52,54,57,60,64,67,69,72,44,42,41,42,42,42,48,54,57,60,63,67,71,74,77,79,
53,51,49,49,49,49,54,60,64,67,71,76,82,86,89,92,65,62,59,59,58,58,63,68,72,76,79,85,92,97,100,105,
32,31,30,33,35,37,42,49,48,48,49,50,52,54,55,57,31,31,32,35,37,40,43,46,46,45,45,46,48,49,51,52,
37,38,40,42,44,47,47,48,47,46,46,46,47,48,49,50,45,45,44,46,46,47,49,52,51,51,51,52,53,54,54,55,
48,47,45,46,46,47,50,53,54,54,55,56,57,58,58,59,49,47,45,45,45,45,49,53,55,57,58,59,61,62,63,64,
52,50,48,47,47,47,50,54,57,59,61,64,66,68,69,70,57,54,52,51,51,50,53,57,59,61,64,67,71,73,74,76,
32,31,31,31,32,32,32,34,36,38,39,44,47,49,53,58,31,32,32,32,32,33,33,34,34,36,37,41,44,46,49,54,
32,32,32,33,34,35,35,36,37,39,40,42,45,47,50,54,32,33,33,33,34,36,36,38,40,41,42,45,47,48,51,55,
36,35,35,35,36,38,40,42,48,49,50,53,56,57,60,63,44,42,41,41,42,42,44,48,54,56,58,63,66,67,71,75,
47,45,44,44,45,45,47,50,56,58,60,66,69,71,75,79,53,51,49,49,50,49,51,54,60,63,65,71,75,77,82,87,
32,31,30,31,33,37,39,42,49,48,48,49,50,51,52,54,31,31,32,33,36,40,41,43,46,46,46,45,46,47,48,50,
35,37,38,38,41,45,46,46,48,47,46,45,46,47,47,49,38,40,40,41,44,47,47,48,49,48,48,47,48,48,48,50,
48,47,46,46,47,47,48,50,53,53,53,53,54,54,54,55,49,47,45,45,46,45,47,49,53,55,56,58,59,60,61,62,
50,48,46,46,46,46,47,50,54,55,56,59,61,61,63,65,52,50,48,48,47,47,48,50,54,56,57,61,63,64,66,68,
32,31,31,31,31,32,32,32,34,35,36,39,41,44,47,48,31,32,32,32,32,32,33,33,34,34,34,37,39,41,44,45,
31,32,32,32,33,33,34,34,35,36,36,39,40,42,44,45,32,32,32,33,34,34,35,36,37,38,38,40,41,43,45,46,
35,35,34,34,35,36,37,39,41,45,46,48,49,51,53,54,36,35,35,34,36,36,38,40,42,47,48,50,51,53,56,56,
44,42,41,41,42,42,42,44,48,52,54,58,60,63,66,67,47,45,45,44,44,45,45,47,50,55,56,60,62,66,69,70,
32,31,31,30,33,33,37,39,42,47,49,48,48,49,50,50,31,31,32,32,35,36,40,41,43,46,46,46,45,45,46,46,
33,34,34,35,37,38,43,43,44,46,47,46,46,45,46,46,37,38,39,40,42,43,47,47,47,48,48,47,46,46,46,46,
45,45,45,44,46,46,47,48,49,51,52,51,51,51,52,52,48,47,46,46,47,47,47,48,50,52,53,53,53,53,54,54,
49,47,46,45,45,46,45,47,49,53,53,56,57,58,59,59,50,48,47,46,46,46,46,47,50,53,54,56,57,59,61,61,
32,31,31,31,31,32,32,32,32,34,34,36,36,39,39,44,31,32,32,32,32,32,32,33,33,34,34,34,34,37,37,41,
31,32,32,32,32,32,32,33,33,34,34,34,34,37,37,41,32,32,32,33,33,34,34,35,35,37,37,38,38,40,40,43,
32,32,32,33,33,34,34,35,35,37,37,38,38,40,40,43,36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,53,
36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,53,44,42,42,41,41,42,42,42,42,48,48,54,54,58,58,63,
32,31,31,30,30,33,33,37,37,42,42,49,49,48,48,49,31,31,31,32,32,36,36,40,40,43,43,46,46,46,46,45,
31,31,31,32,32,36,36,40,40,43,43,46,46,46,46,45,37,38,38,40,40,43,43,47,47,47,47,48,48,47,47,46,
37,38,38,40,40,43,43,47,47,47,47,48,48,47,47,46,48,47,47,46,46,47,47,47,47,50,50,53,53,53,53,53,
48,47,47,46,46,47,47,47,47,50,50,53,53,53,53,53,49,47,47,45,45,46,46,45,45,49,49,53,53,56,56,58,
32,31,31,31,31,31,31,32,32,32,32,33,34,34,36,36,31,32,32,32,32,32,32,32,32,32,32,33,34,34,35,35,
31,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,31,32,32,32,32,32,33,33,33,34,34,35,35,35,36,36,
32,32,32,32,33,33,34,34,34,35,35,36,37,37,38,38,32,32,32,32,33,33,34,34,34,35,35,36,37,37,38,38,
35,35,35,34,34,34,35,36,36,37,37,40,41,43,46,46,36,35,35,35,34,34,36,36,37,38,38,41,42,44,48,48,
32,31,31,31,30,30,33,33,35,37,37,41,42,44,49,49,31,31,31,31,32,32,34,35,37,39,39,42,42,44,47,47,
31,31,31,32,32,32,35,36,37,40,40,42,43,44,46,46,33,34,34,34,35,35,37,38,40,43,43,44,44,45,47,47,
37,38,38,39,40,40,42,43,44,47,47,47,47,47,48,48,37,38,38,39,40,40,42,43,44,47,47,47,47,47,48,48,
45,45,45,45,44,44,46,46,46,47,47,49,49,50,52,52,48,47,47,46,46,46,47,47,47,47,47,49,50,51,53,53,
32,31,31,31,31,31,31,31,31,32,32,32,32,32,32,34,31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,
31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,
31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,32,32,32,32,32,33,33,33,34,34,34,35,35,35,36,37,
32,32,32,32,32,33,33,33,34,34,34,35,35,35,36,37,32,33,33,33,33,33,33,33,34,34,34,35,36,36,36,38,
32,31,31,31,31,30,30,31,33,33,33,35,37,37,39,42,31,31,31,31,31,31,31,32,34,35,35,37,39,39,40,42,
31,31,31,31,32,32,32,33,35,36,36,38,40,40,41,43,31,31,31,31,32,32,32,33,35,36,36,38,40,40,41,43,
33,33,34,34,34,35,35,35,37,38,38,41,43,43,43,44,37,38,38,38,39,40,40,40,42,43,43,45,47,47,47,47,
37,38,38,38,39,40,40,40,42,43,43,45,47,47,47,47,38,39,40,40,40,41,41,41,43,44,44,46,47,47,47,48,
32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,
32,31,31,31,31,31,31,30,30,30,30,31,33,33,33,33,31,31,31,31,31,31,31,31,31,31,31,32,34,34,34,34,
31,31,31,31,31,31,31,31,32,32,32,33,34,35,35,35,31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,
31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,
33,33,34,34,34,34,34,34,35,35,35,36,37,38,38,38,35,36,36,37,37,37,37,38,38,38,38,39,40,41,41,41,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,
};
static const uint8_t T_qm8[3840]={32,32,36,53,65,87,93,99,31,33,34,49,59,78,86,93,32,34,36,50,59,77,82,89,34,37,42,54,63,79,80,88,
36,38,48,60,68,84,86,90,44,43,53,71,79,95,94,97,48,46,56,76,85,102,105,105,58,54,63,87,98,116,112,115,
65,58,68,92,105,124,122,124,79,70,79,104,118,141,135,135,82,72,81,106,121,144,149,146,91,80,88,106,130,148,162,159,
97,86,94,107,128,157,167,171,103,93,98,114,131,150,174,186,110,100,101,117,138,161,183,193,118,107,105,118,136,157,182,203,
32,37,48,52,57,66,68,71,30,40,46,48,52,60,63,66,33,43,47,47,51,59,60,63,42,47,50,50,53,60,59,62,
49,48,53,54,57,62,62,62,49,46,53,61,64,69,66,66,50,46,54,64,67,73,72,70,54,49,55,68,73,80,76,75,
57,50,56,70,76,84,80,79,63,55,60,75,82,92,87,84,64,56,61,75,83,93,93,89,68,59,64,74,86,94,98,94,
70,62,66,73,83,96,99,98,72,64,66,75,83,92,101,104,74,67,66,74,84,94,103,106,76,69,67,73,82,91,101,109,
32,32,36,47,65,79,90,96,31,32,35,44,60,72,84,90,32,34,36,45,59,71,80,87,32,35,40,47,60,71,78,85,
36,37,48,56,68,78,83,87,39,40,50,60,73,84,91,94,47,45,56,69,84,95,101,101,53,50,60,75,92,103,108,110,
61,56,65,81,100,113,116,118,71,64,73,89,111,125,129,129,79,70,79,95,118,133,142,138,86,76,84,100,124,140,153,150,
92,82,89,101,121,148,157,161,98,88,93,108,124,141,163,174,104,94,95,110,129,151,171,181,110,100,98,111,127,147,169,188,
32,35,48,50,57,63,68,70,30,38,46,46,52,58,63,65,33,41,47,46,51,56,60,63,39,46,48,47,51,55,58,61,
49,48,53,54,57,60,61,61,48,46,53,56,60,64,65,65,50,46,54,61,66,70,71,69,52,47,54,63,71,75,75,74,
55,49,56,65,74,79,79,78,60,53,58,68,79,85,85,82,63,55,60,70,82,89,91,87,66,58,62,72,84,91,95,91,
68,60,64,71,81,94,97,96,70,62,65,73,81,89,98,101,72,65,65,72,82,92,100,103,74,67,65,71,79,89,98,105,
32,32,36,44,58,79,88,93,31,32,35,41,54,73,81,88,32,33,36,42,53,71,78,84,32,34,38,42,52,69,76,82,
34,36,44,50,59,75,81,84,39,39,50,58,68,84,88,90,44,42,53,63,74,90,97,97,49,46,57,67,81,97,104,105,
57,53,63,74,90,108,111,113,65,59,68,79,97,118,123,122,71,64,73,84,102,125,135,131,81,72,80,91,110,135,145,141,
87,77,85,96,114,140,148,151,92,83,88,102,117,133,153,163,98,88,89,103,121,141,160,169,103,94,92,103,119,137,158,175,
32,34,48,49,54,63,67,69,31,36,46,46,50,58,62,65,33,40,47,46,49,56,59,62,37,44,47,45,48,54,57,60,
44,46,51,51,53,59,60,61,48,46,53,56,58,64,64,64,49,45,53,58,62,67,70,68,51,47,54,60,65,71,73,72,
54,49,55,62,70,77,77,76,57,51,56,64,73,82,83,81,60,53,58,65,75,85,89,85,64,57,61,68,78,89,93,89,
66,59,63,69,79,91,94,93,68,61,63,71,79,87,96,98,70,63,63,70,80,89,97,100,72,65,63,69,77,86,95,102,
32,31,35,44,53,65,82,90,31,32,34,41,50,61,76,85,31,33,35,42,49,59,73,81,32,34,37,42,49,58,71,79,
34,35,41,48,54,63,76,81,36,36,46,54,60,68,80,87,41,40,49,60,67,76,88,93,47,44,53,66,75,84,97,101,
53,50,57,71,82,92,106,108,58,54,61,75,87,98,112,116,65,59,66,79,92,105,120,124,74,67,73,86,100,113,131,134,
82,73,79,92,105,120,139,142,87,78,83,96,110,125,144,153,92,83,84,97,114,132,150,157,97,88,86,97,111,128,147,163,
32,33,45,49,52,57,64,68,31,34,45,46,49,53,60,64,33,37,46,45,47,51,57,61,37,43,47,45,47,50,55,59,
42,44,49,49,50,53,58,60,49,47,52,53,54,57,61,63,48,46,51,57,59,61,66,67,50,46,52,59,63,66,71,71,
52,47,53,61,66,71,75,74,54,49,54,62,68,73,79,79,57,51,55,64,70,76,83,83,61,55,58,66,73,80,87,87,
64,57,60,68,75,83,91,91,66,59,61,69,77,84,93,95,68,61,61,68,77,86,94,97,70,63,61,67,75,83,92,98,
32,31,33,40,51,65,79,87,31,32,33,39,49,61,74,82,31,32,34,38,47,59,71,79,32,33,36,40,48,58,69,77,
33,34,38,44,52,62,72,78,36,35,42,51,58,68,78,84,39,38,44,54,63,73,84,89,44,41,46,59,69,79,90,96,
48,45,50,62,74,85,96,103,53,49,53,66,79,92,103,111,58,54,57,70,84,98,110,118,66,60,63,75,90,106,119,126,
74,67,69,81,97,113,128,134,81,73,75,86,102,120,135,143,86,78,78,90,106,124,140,147,91,82,80,90,103,119,137,151,
32,32,40,49,51,57,63,67,31,33,41,47,49,54,59,63,31,35,43,46,47,51,57,60,35,39,46,46,47,50,55,58,
41,43,48,49,49,52,57,59,49,47,50,53,54,57,60,62,48,46,49,54,57,60,64,65,49,45,48,56,61,64,67,69,
50,46,49,57,63,67,71,73,52,48,50,58,65,71,75,77,54,50,51,59,67,73,78,81,57,52,53,61,69,77,82,85,
61,55,56,63,72,80,86,88,64,58,58,65,73,82,89,92,66,59,59,66,75,84,91,94,68,61,59,65,72,81,89,95,
32,31,32,36,44,53,65,79,31,32,32,35,42,51,62,75,31,32,33,34,41,49,59,72,32,32,34,36,42,50,59,71,
32,33,35,38,42,49,58,69,34,34,37,42,48,54,63,73,36,34,38,48,54,60,68,78,39,37,40,50,58,65,73,84,
44,41,43,53,63,71,79,90,48,45,46,56,67,76,85,96,53,49,50,60,71,82,92,103,58,54,54,63,75,87,98,110,
65,60,58,68,79,92,105,118,71,65,63,73,84,97,111,125,79,72,70,79,90,104,118,133,82,75,72,81,92,106,121,136,
32,31,37,48,49,52,57,63,31,31,38,47,47,50,54,60,30,32,40,46,45,48,52,57,33,36,43,47,46,47,51,56,
37,40,47,47,45,47,50,54,42,43,47,50,49,50,53,57,49,46,48,53,53,54,57,60,48,46,47,53,56,57,60,64,
49,45,46,53,58,61,64,67,50,46,46,54,59,64,67,71,52,48,47,54,61,66,71,75,54,50,49,55,62,68,73,78,
57,52,50,56,64,70,76,82,60,54,52,58,65,72,79,85,63,57,55,60,67,75,82,89,64,59,56,61,68,75,83,90,
32,31,32,36,44,53,62,73,31,32,32,35,42,51,59,69,31,32,33,34,41,49,57,66,32,32,34,36,42,50,57,65,
32,33,35,38,42,49,56,64,34,34,37,42,48,54,61,69,35,34,38,47,52,59,65,73,38,36,40,49,56,63,69,77,
41,39,41,51,60,67,74,81,44,42,43,54,64,72,79,86,48,45,46,56,67,76,83,91,53,49,50,60,71,82,90,99,
58,54,54,63,75,87,95,105,65,60,58,68,79,92,102,112,71,65,63,73,84,97,108,119,79,72,70,79,90,104,115,127,
32,31,37,48,49,52,56,61,31,31,38,47,47,50,53,57,30,32,40,46,45,48,51,55,33,36,43,47,46,47,50,54,
37,40,47,47,45,47,49,52,42,43,47,50,49,50,53,56,47,46,48,52,53,53,55,58,48,46,47,53,55,56,58,61,
48,45,46,53,57,59,61,63,49,45,46,53,58,62,64,66,50,46,46,54,59,64,66,69,52,48,47,54,61,66,70,73,
54,50,49,55,62,68,72,76,57,52,50,56,64,70,75,79,60,54,52,58,65,72,77,82,63,57,55,60,67,75,80,86,
32,31,32,35,39,44,53,65,31,32,32,35,38,42,51,62,31,32,33,34,37,41,49,59,31,32,34,35,38,42,49,59,
32,32,34,36,39,42,49,58,32,33,35,37,40,42,49,58,34,34,37,41,44,48,54,63,36,34,38,46,50,54,60,68,
38,37,40,47,52,57,64,72,41,39,41,49,54,60,67,76,44,41,43,51,57,63,71,79,48,45,46,54,60,67,76,85,
53,49,50,57,64,71,82,92,57,53,53,60,67,74,86,97,61,56,56,63,69,77,89,100,65,60,58,66,72,79,92,105,
32,31,37,45,48,49,52,57,31,31,38,45,47,47,50,54,30,32,40,44,45,45,48,52,33,35,42,46,46,45,47,51,
35,37,44,46,46,45,47,51,37,40,47,47,47,45,47,50,42,43,47,49,50,49,50,53,49,46,48,52,53,53,54,57,
48,46,47,51,54,55,57,59,48,45,46,51,54,57,59,61,49,45,46,51,55,58,61,64,50,46,46,52,56,59,64,67,
52,48,47,53,57,61,66,71,54,49,48,54,58,62,68,73,55,51,49,54,58,63,69,74,57,52,50,55,59,64,70,76,
32,31,32,32,36,44,47,53,31,32,32,33,35,42,45,51,31,32,32,33,35,41,44,49,31,32,33,33,35,41,44,49,
32,32,34,34,36,42,45,50,32,33,35,36,38,42,45,49,32,33,35,36,40,44,47,51,34,34,36,38,42,48,50,54,
36,34,37,40,48,54,56,60,38,36,39,41,49,56,58,63,39,37,40,42,50,58,60,65,44,41,42,45,53,63,66,71,
47,44,45,47,56,66,69,75,49,46,47,48,57,67,71,77,53,49,50,51,60,71,75,82,58,54,54,55,63,75,79,87,
32,31,35,38,48,49,50,52,31,31,37,40,47,47,48,50,30,32,38,40,46,45,46,48,31,33,38,41,46,45,46,48,
33,36,41,44,47,46,46,47,37,40,45,47,47,45,46,47,39,41,46,47,48,47,47,48,42,43,46,48,50,49,50,50,
49,46,48,49,53,53,54,54,48,46,47,48,53,55,55,56,48,46,46,48,53,56,56,57,49,45,45,47,53,58,59,61,
50,46,46,48,54,59,61,63,51,47,47,48,54,60,61,64,52,48,47,48,54,61,63,66,54,50,49,50,55,62,65,68,
32,31,31,32,35,36,44,47,31,32,32,32,35,35,42,45,31,32,32,32,34,35,41,45,31,32,32,33,34,34,41,44,
31,32,33,34,35,36,42,44,32,32,33,34,36,36,42,45,32,33,34,35,37,38,42,45,32,33,34,36,39,40,44,47,
34,34,35,37,41,42,48,50,35,34,36,38,45,47,52,55,36,34,36,38,46,48,54,56,39,37,39,40,48,50,58,60,
41,39,40,41,49,51,60,62,44,41,42,43,51,53,63,66,47,44,44,45,53,56,66,69,48,45,45,46,54,56,67,70,
32,31,33,37,45,48,49,50,31,31,34,38,45,47,47,48,31,32,34,39,45,46,46,47,30,32,35,40,44,46,45,46,
33,35,37,42,46,47,45,46,33,36,38,43,46,47,46,46,37,40,43,47,47,47,45,46,39,41,43,47,48,48,47,47,
42,43,44,47,49,50,49,50,47,46,46,48,51,52,53,53,49,46,47,48,52,53,53,54,48,46,46,47,51,53,56,56,
48,45,46,46,51,53,57,57,49,45,45,46,51,53,58,59,50,46,46,46,52,54,59,61,50,46,46,46,52,54,59,61,
32,31,31,32,32,36,36,44,31,32,32,32,32,35,35,42,31,32,32,32,32,35,35,42,31,32,32,33,33,34,34,41,
31,32,32,33,33,34,34,41,32,32,32,34,34,36,36,42,32,32,32,34,34,36,36,42,32,33,33,35,35,38,38,42,
32,33,33,35,35,38,38,42,34,34,34,37,37,42,42,48,34,34,34,37,37,42,42,48,36,34,34,38,38,48,48,54,
36,34,34,38,38,48,48,54,39,37,37,40,40,50,50,58,39,37,37,40,40,50,50,58,44,41,41,43,43,53,53,63,
32,31,31,37,37,48,48,49,31,31,31,38,38,47,47,47,31,31,31,38,38,47,47,47,30,32,32,40,40,46,46,45,
30,32,32,40,40,46,46,45,33,36,36,43,43,47,47,46,33,36,36,43,43,47,47,46,37,40,40,47,47,47,47,45,
37,40,40,47,47,47,47,45,42,43,43,47,47,50,50,49,42,43,43,47,47,50,50,49,49,46,46,48,48,53,53,53,
49,46,46,48,48,53,53,53,48,46,46,47,47,53,53,56,48,46,46,47,47,53,53,56,49,45,45,46,46,53,53,58,
32,31,31,31,32,32,35,36,31,32,32,32,32,32,35,35,31,32,32,32,32,32,35,35,31,32,32,32,32,32,34,35,
31,32,32,32,33,33,34,34,31,32,32,32,33,33,34,34,31,32,32,33,34,34,35,36,32,32,32,33,34,34,36,36,
32,32,32,33,34,34,36,37,32,32,33,34,35,35,37,38,32,32,33,34,35,35,37,38,33,33,33,35,36,36,40,41,
34,34,34,35,37,37,41,42,34,34,34,35,37,37,43,44,36,35,34,36,38,38,46,48,36,35,34,36,38,38,46,48,
32,31,31,33,37,37,45,48,31,31,31,34,38,38,45,47,31,31,31,34,38,38,45,47,31,31,32,34,39,39,45,46,
30,32,32,35,40,40,44,46,30,32,32,35,40,40,44,46,33,34,35,37,42,42,46,47,33,35,36,38,43,43,46,47,
35,37,37,40,44,44,46,47,37,39,40,43,47,47,47,47,37,39,40,43,47,47,47,47,41,42,42,44,47,47,49,49,
42,42,43,44,47,47,49,50,44,44,44,45,47,47,50,51,49,47,46,47,48,48,52,53,49,47,46,47,48,48,52,53,
32,31,31,31,31,32,32,32,31,31,32,32,32,32,32,33,31,32,32,32,32,32,32,33,31,32,32,32,32,32,32,33,
31,32,32,32,32,32,32,33,31,32,32,32,32,33,33,33,31,32,32,32,32,33,33,33,31,32,32,32,32,33,33,33,
31,32,32,32,33,34,34,34,32,32,32,32,33,34,34,34,32,32,32,32,33,34,34,34,32,32,32,32,33,35,35,35,
32,32,33,33,34,35,35,36,32,32,33,33,34,35,35,36,32,33,33,33,34,36,36,36,34,34,34,34,35,37,37,38,
32,31,31,31,33,37,37,38,31,31,31,31,33,38,38,39,31,31,31,31,34,38,38,40,31,31,31,31,34,38,38,40,
31,31,32,32,34,39,39,40,30,31,32,32,35,40,40,41,30,31,32,32,35,40,40,41,31,32,33,33,35,40,40,41,
33,34,35,35,37,42,42,43,33,35,36,36,38,43,43,44,33,35,36,36,38,43,43,44,35,37,38,38,41,45,45,46,
37,39,40,40,43,47,47,47,37,39,40,40,43,47,47,47,39,40,41,41,43,47,47,47,42,42,43,43,44,47,47,48,
32,31,31,31,31,31,31,32,31,31,31,31,31,31,32,32,31,31,32,32,32,32,32,32,31,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,33,33,
31,32,32,32,32,32,33,33,32,32,32,32,32,32,33,34,32,32,32,32,32,32,33,34,32,32,32,32,32,32,33,34,
32,31,31,31,31,31,33,35,31,31,31,31,31,31,33,36,31,31,31,31,31,31,34,36,31,31,31,31,31,31,34,37,
31,31,31,31,31,31,34,37,31,31,31,31,31,31,34,37,31,31,31,32,32,32,34,37,30,31,31,32,32,32,34,38,
30,31,32,32,32,32,35,38,30,31,32,32,32,32,35,38,30,31,32,32,32,32,35,38,31,32,33,33,33,33,36,39,
33,34,34,35,35,35,37,40,33,34,35,36,36,36,38,41,33,34,35,36,36,36,38,41,33,34,35,36,36,36,38,41,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,
31,31,31,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,32,32,32,31,31,31,31,31,32,32,32,30,31,31,31,31,32,32,32,30,31,31,31,32,32,32,32,
};
static const uint8_t T_qm9[15360]={32,31,31,31,32,32,34,35,36,39,44,46,48,53,58,61,65,71,79,81,82,88,91,94,97,100,103,107,110,114,118,122,
31,32,32,32,32,33,34,34,34,37,41,43,45,49,54,57,60,65,72,74,75,80,83,85,88,91,94,97,101,104,108,111,
32,32,33,33,34,35,37,37,38,40,43,44,46,50,54,56,58,63,70,71,72,77,80,83,86,89,93,96,100,104,107,111,
34,34,33,34,35,37,39,41,43,45,48,49,51,54,58,60,63,68,74,75,76,80,81,82,85,87,90,93,97,100,103,107,
36,35,34,35,36,38,42,45,48,50,53,55,56,60,63,66,68,73,79,80,81,85,88,91,94,97,98,100,101,103,105,107,
44,42,41,41,42,42,48,50,54,58,63,65,67,71,75,77,79,84,90,91,92,97,100,100,100,100,101,104,108,112,115,119,
53,51,49,49,50,49,54,57,60,65,71,73,76,82,87,89,92,97,104,105,106,108,106,105,107,111,114,117,117,117,118,119,
59,56,54,54,54,53,58,61,64,69,75,78,80,87,92,95,98,103,110,112,113,115,114,118,123,121,120,119,123,127,131,136,
65,62,59,59,59,58,63,65,68,73,79,82,85,92,98,101,105,111,118,119,121,126,130,131,128,127,131,136,138,137,136,136,
79,75,72,71,71,69,73,76,78,84,90,93,96,103,110,114,118,125,133,135,136,142,142,137,140,145,144,142,141,146,151,156,
87,82,78,78,77,75,79,82,84,89,95,98,102,109,116,120,124,132,141,142,144,149,148,153,157,152,150,155,161,159,157,156,
90,85,82,81,80,78,78,83,87,89,93,100,102,107,115,118,123,132,136,140,151,153,155,160,161,164,170,168,165,167,172,178,
93,88,86,84,82,82,80,84,86,91,94,98,105,107,112,119,122,130,135,140,149,153,162,165,167,173,174,177,183,185,182,179,
96,91,90,87,86,86,83,84,89,91,95,100,102,110,111,118,123,128,135,138,149,152,160,167,173,178,180,187,188,190,197,203,
99,94,93,90,89,89,88,87,90,93,97,99,105,107,115,116,124,127,135,139,146,152,159,166,171,182,186,191,193,201,203,204,
102,97,97,93,93,92,92,90,90,96,97,103,104,111,112,120,121,130,131,142,143,154,155,168,169,181,183,198,200,206,208,217,
32,31,30,32,33,37,42,45,49,48,49,49,50,52,54,55,57,60,63,64,64,67,68,69,70,71,72,73,74,75,76,77,
31,31,32,34,36,40,43,44,46,46,45,46,46,48,50,51,52,54,57,58,59,61,62,62,63,64,65,66,67,68,69,70,
37,38,40,41,43,47,47,47,48,47,46,46,46,47,49,49,50,52,55,55,56,58,59,60,62,63,64,65,67,68,69,70,
42,42,42,44,45,47,48,49,50,50,49,49,50,50,52,52,53,55,58,58,58,60,60,60,60,61,62,63,64,65,66,67,
48,47,46,46,47,47,50,51,53,53,53,53,54,54,55,56,56,58,60,61,61,63,64,65,66,67,66,66,66,66,67,67,
49,47,45,45,46,45,49,51,53,56,58,59,59,61,62,63,64,65,67,68,68,69,71,70,69,68,68,69,70,71,72,73,
52,50,48,48,47,47,50,52,54,57,61,62,64,66,68,69,70,72,75,75,75,76,74,72,73,74,75,75,74,74,73,73,
54,52,50,49,49,48,52,54,55,59,62,64,65,68,71,72,73,75,78,78,79,79,78,79,81,79,78,76,77,78,80,81,
57,54,52,51,51,50,53,55,57,60,64,65,67,71,73,75,76,79,82,82,83,85,86,85,83,82,83,84,84,83,82,81,
63,60,57,57,56,54,57,59,60,64,67,69,71,75,78,80,82,85,89,89,90,92,91,88,89,90,89,87,86,87,88,90,
66,63,60,59,59,57,60,61,62,66,69,71,73,77,80,82,84,88,92,92,93,95,94,95,96,93,92,93,94,93,91,90,
67,64,62,61,60,58,58,61,63,65,67,70,72,74,78,80,82,86,88,90,95,96,96,98,97,98,100,98,96,96,97,99,
68,65,63,62,60,60,59,61,62,65,66,68,72,73,76,79,80,84,87,89,93,94,98,99,99,102,101,102,103,103,101,99,
69,66,65,63,62,61,60,60,63,64,66,68,70,73,74,78,80,82,85,87,91,92,96,98,101,102,103,105,105,105,107,108,
71,67,66,64,63,62,62,61,62,64,66,67,70,71,75,76,79,81,84,86,89,91,94,97,98,102,104,106,106,109,109,108,
72,68,68,65,65,63,63,61,62,65,65,68,69,72,73,77,77,81,81,86,87,91,91,96,97,101,102,107,107,109,110,113,
32,31,31,31,32,32,32,34,36,38,39,44,47,49,53,58,61,65,71,76,79,82,86,89,92,95,98,101,104,107,110,114,
31,32,32,32,32,33,33,34,34,36,37,41,44,46,49,54,56,60,65,69,72,75,78,81,84,86,89,92,95,98,101,104,
32,32,32,33,34,35,35,36,37,39,40,42,45,47,50,54,56,59,64,68,70,73,76,79,82,85,88,91,94,97,100,104,
32,33,33,33,34,36,36,38,40,41,42,45,47,48,51,55,57,60,65,69,71,74,77,78,80,83,85,88,91,94,97,100,
36,35,35,35,36,38,40,42,48,49,50,53,56,57,60,63,65,68,73,76,79,81,84,87,89,92,93,94,95,96,98,100,
44,42,41,41,42,42,44,48,54,56,58,63,66,67,71,75,77,79,84,88,90,92,95,95,95,95,95,98,101,105,108,111,
47,45,44,44,45,45,47,50,56,58,60,66,69,71,75,79,81,84,89,92,95,97,100,99,101,105,108,110,110,110,111,111,
53,51,49,49,50,49,51,54,60,63,65,71,75,77,82,87,89,92,97,101,104,106,109,112,116,114,113,112,115,119,123,126,
65,62,60,59,59,58,60,63,68,71,73,79,84,86,92,98,100,105,111,115,118,121,124,124,121,120,124,128,129,128,127,127,
73,69,67,66,65,64,66,69,74,77,79,85,90,93,99,105,107,112,119,123,127,130,133,130,132,136,136,133,132,136,141,145,
79,75,72,71,71,69,71,73,78,81,84,90,95,97,103,110,113,118,125,130,133,136,140,145,148,143,141,146,151,149,147,145,
87,83,80,79,78,76,76,80,84,86,90,96,99,103,111,114,118,126,130,134,143,146,147,152,151,155,160,158,154,156,161,166,
90,86,84,82,80,80,78,82,83,88,91,94,101,103,108,114,116,124,129,134,142,145,153,156,157,163,163,166,171,173,169,166,
93,88,87,84,83,83,81,81,86,88,92,96,98,105,107,113,117,122,129,131,141,144,151,157,163,167,169,175,175,177,183,189,
96,91,90,87,87,86,85,84,87,90,94,96,101,102,110,111,118,121,129,132,138,144,150,156,161,171,174,179,181,188,188,190,
99,94,94,90,90,88,89,86,87,93,93,99,99,106,107,115,116,124,125,135,136,145,146,158,159,170,171,185,186,192,193,201,
32,31,30,31,33,37,39,42,49,48,48,49,50,51,52,54,55,57,60,62,63,64,66,67,68,69,70,71,72,73,74,75,
31,31,32,33,36,40,41,43,46,46,46,45,46,47,48,50,51,52,54,56,57,59,60,61,62,63,64,65,65,66,67,68,
35,37,38,38,41,45,46,46,48,47,46,45,46,47,47,49,49,50,53,54,55,56,58,59,60,61,62,64,65,66,67,68,
38,40,40,41,44,47,47,48,49,48,48,47,48,48,48,50,50,51,53,55,56,57,58,58,59,60,60,61,62,63,64,65,
48,47,46,46,47,47,48,50,53,53,53,53,54,54,54,55,56,56,58,60,60,61,62,63,64,65,65,65,65,65,65,65,
49,47,45,45,46,45,47,49,53,55,56,58,59,60,61,62,63,64,65,66,67,68,69,68,67,66,66,67,68,69,70,71,
50,48,46,46,46,46,47,50,54,55,56,59,61,61,63,65,65,66,68,69,70,71,72,71,71,72,73,73,72,72,71,71,
52,50,48,48,47,47,48,50,54,56,57,61,63,64,66,68,69,70,72,74,75,75,76,78,79,77,76,74,75,76,77,78,
57,54,52,52,51,50,51,53,57,58,60,64,66,68,71,73,74,76,79,81,82,83,84,83,81,80,81,82,82,81,79,78,
61,57,55,55,54,52,54,56,59,61,62,66,68,70,73,76,77,79,82,84,86,87,88,86,86,88,87,85,83,85,86,87,
63,60,58,57,56,54,55,57,60,62,64,67,70,71,75,78,79,82,85,87,89,90,91,93,94,91,89,90,92,90,89,87,
67,63,61,60,59,57,57,60,63,64,66,69,71,73,77,79,81,85,87,88,92,93,94,96,95,96,97,95,93,93,94,96,
68,64,63,61,60,59,58,60,61,64,65,67,71,72,75,78,79,83,85,87,91,92,95,96,97,99,98,99,100,100,98,96,
69,65,64,62,61,61,59,59,62,63,65,67,68,72,73,76,78,81,84,85,89,90,93,96,98,99,100,102,102,102,103,105,
70,66,65,63,63,62,61,60,61,63,65,66,69,70,74,74,78,79,82,84,87,89,91,94,96,100,101,103,103,105,105,105,
71,67,67,64,64,62,62,60,61,64,64,67,67,71,71,75,75,79,80,84,84,89,89,94,94,98,99,104,104,106,106,109,
32,31,31,31,32,32,32,34,34,36,39,40,44,47,49,53,57,59,65,69,71,79,81,82,87,90,92,95,98,100,103,106,
31,32,32,32,32,32,33,34,34,34,37,38,41,44,46,49,53,54,60,63,65,72,74,75,79,82,84,87,89,92,94,97,
32,32,32,32,33,34,34,35,36,37,39,40,42,45,46,50,53,54,59,62,64,71,72,73,77,80,83,85,88,91,94,97,
32,32,32,33,34,34,35,37,37,38,40,41,43,46,47,50,53,54,58,62,63,70,71,72,76,78,81,83,85,88,90,93,
36,35,35,34,36,37,38,42,44,48,50,51,53,56,57,60,63,64,68,71,73,79,80,81,85,87,88,88,89,90,92,93,
39,38,38,37,39,40,40,45,47,51,54,55,58,61,62,65,68,69,73,76,78,84,85,86,90,89,90,92,95,98,101,104,
44,42,41,41,42,42,42,48,50,54,58,59,63,66,67,71,74,75,79,83,84,90,91,92,96,99,102,103,103,103,103,104,
53,51,50,49,50,49,49,54,56,60,65,67,71,75,77,82,86,87,92,96,97,104,105,106,110,108,106,105,108,111,114,118,
58,55,54,53,53,53,52,57,59,63,68,70,74,79,81,86,90,91,97,100,102,109,110,111,114,113,117,120,121,120,119,118,
65,62,60,59,59,58,58,63,65,68,73,75,79,85,86,92,97,98,105,109,111,118,120,121,125,129,128,125,124,127,131,135,
79,75,73,72,71,70,69,73,75,78,84,85,90,95,97,103,108,111,118,122,125,133,135,136,140,135,133,137,141,139,137,135,
81,77,75,74,72,71,70,75,77,80,85,87,91,97,99,105,110,112,119,124,127,135,137,139,143,146,150,148,144,146,150,154,
88,83,81,79,78,77,76,79,81,85,88,91,97,99,104,109,111,119,123,127,135,137,145,147,148,153,153,155,160,161,158,155,
90,86,84,82,81,80,78,79,83,85,89,92,94,101,102,108,112,117,123,125,134,136,143,148,154,157,158,164,164,165,170,175,
93,88,88,84,84,83,82,81,84,86,90,92,97,98,105,106,113,115,122,125,131,136,141,147,151,160,163,168,169,175,175,176,
96,91,91,87,87,85,86,83,84,89,89,95,95,102,102,110,110,118,119,128,129,137,138,149,149,159,160,173,174,179,180,187,
32,31,31,30,33,35,37,42,44,49,48,48,49,50,51,52,54,54,57,59,60,63,64,64,66,67,68,69,70,71,72,73,
31,31,32,32,36,38,40,43,44,46,46,45,45,46,47,48,49,50,52,54,54,57,58,59,60,61,62,63,64,65,65,66,
34,35,36,36,40,42,44,45,46,47,46,46,45,46,47,47,49,49,51,52,53,56,57,57,59,60,61,62,63,64,65,66,
37,38,39,40,43,45,47,47,47,48,47,46,46,46,47,47,48,49,50,52,52,55,55,56,57,58,59,60,60,61,62,63,
48,47,46,46,47,47,47,50,51,53,53,53,53,54,54,54,55,55,56,58,58,60,61,61,63,63,63,63,63,63,63,63,
48,47,46,45,46,46,46,50,51,53,54,55,56,56,57,57,58,59,60,61,62,64,64,65,66,65,64,65,66,67,68,69,
49,47,46,45,46,45,45,49,51,53,56,56,58,59,60,61,62,62,64,65,65,67,68,68,69,70,71,71,70,70,69,69,
52,50,48,48,47,47,47,50,52,54,57,58,61,63,64,66,68,68,70,72,72,75,75,75,77,75,74,72,73,74,75,76,
54,51,50,49,49,48,48,51,53,55,58,59,62,65,65,68,70,70,73,74,75,77,78,78,79,78,79,80,80,78,77,76,
57,54,53,52,51,50,50,53,54,57,60,61,64,66,68,71,73,74,76,78,79,82,82,83,84,85,84,82,81,82,83,84,
63,60,58,57,56,55,54,57,59,60,64,65,67,70,71,75,77,78,82,84,85,89,89,90,91,88,87,88,89,88,86,84,
64,61,59,58,57,56,55,58,59,61,64,65,68,71,72,75,78,79,82,85,86,90,90,91,93,93,94,93,90,90,92,93,
67,63,62,60,59,58,57,59,60,63,64,66,70,70,73,76,77,81,83,85,89,90,93,94,94,96,96,96,97,97,95,93,
68,64,63,61,60,60,58,58,61,62,64,66,67,71,71,75,77,79,82,83,87,88,91,93,95,97,97,99,99,99,100,101,
69,65,65,62,62,61,60,59,61,62,64,65,68,68,72,73,76,77,81,82,85,87,89,92,93,97,98,100,100,102,102,101,
69,66,66,63,63,61,61,59,60,63,63,66,66,70,70,73,74,78,78,82,82,86,87,91,91,95,96,101,101,103,103,105,
32,31,31,31,31,32,32,32,34,35,36,39,41,44,47,48,53,55,58,63,65,71,74,79,82,82,87,89,92,94,97,99,
31,32,32,32,32,32,33,33,34,34,34,37,39,41,44,45,49,51,54,58,60,65,68,72,75,75,79,82,84,86,88,91,
31,32,32,32,33,33,34,34,35,36,36,39,40,42,44,45,50,51,54,58,59,64,67,71,73,74,78,81,83,85,88,91,
32,32,32,33,34,34,35,36,37,38,38,40,41,43,45,46,50,51,54,57,58,63,66,70,72,72,76,78,80,82,85,87,
35,35,34,34,35,36,37,39,41,45,46,48,49,51,53,54,57,59,61,65,66,71,73,77,79,79,83,83,84,85,86,87,
36,35,35,34,36,36,38,40,42,47,48,50,51,53,56,56,60,61,63,67,68,73,75,79,81,81,85,87,89,92,94,97,
44,42,41,41,42,42,42,44,48,52,54,58,60,63,66,67,71,72,75,78,79,84,86,90,92,92,96,97,97,97,97,97,
47,45,45,44,44,45,45,47,50,55,56,60,62,66,69,70,75,77,79,83,84,89,91,95,97,97,100,99,101,104,107,110,
53,51,50,49,49,50,49,51,54,59,60,65,67,71,75,76,82,84,87,91,92,97,100,104,105,106,110,113,114,112,111,110,
62,59,58,57,57,57,56,58,61,65,66,71,74,78,82,83,90,92,95,100,102,108,110,115,117,117,120,118,116,119,123,126,
65,62,61,59,59,59,58,60,63,67,68,73,76,79,84,85,92,94,98,103,105,111,113,118,120,121,125,128,132,130,128,126,
79,75,74,72,71,71,69,71,73,77,78,84,86,90,95,96,103,106,110,116,118,125,128,133,136,136,141,139,135,136,140,144,
82,78,76,74,73,73,71,73,76,79,80,86,88,92,97,98,106,108,112,118,120,127,131,136,139,139,144,145,150,151,147,144,
88,83,82,79,79,78,76,76,81,82,85,89,91,97,98,104,107,111,117,119,127,129,135,140,145,148,148,153,153,154,159,163,
90,86,85,82,81,80,79,78,81,83,87,88,93,94,101,101,108,110,116,119,124,129,134,139,142,150,153,157,157,163,163,163,
93,88,88,84,84,82,83,80,80,86,86,91,91,97,98,105,105,112,113,121,122,130,130,140,140,149,150,161,162,166,167,173,
32,31,31,30,33,33,37,39,42,47,49,48,48,49,50,50,52,53,54,56,57,60,61,63,64,64,66,67,68,69,70,70,
31,31,32,32,35,36,40,41,43,46,46,46,45,45,46,46,48,49,50,51,52,54,56,57,58,59,60,61,62,63,63,64,
33,34,34,35,37,38,43,43,44,46,47,46,46,45,46,46,47,48,49,51,51,54,55,56,57,58,59,60,61,62,63,64,
37,38,39,40,42,43,47,47,47,48,48,47,46,46,46,46,47,48,49,50,50,52,53,55,56,56,57,58,59,59,60,61,
45,45,45,44,46,46,47,48,49,51,52,51,51,51,52,52,53,53,54,55,55,57,58,59,60,60,61,61,61,61,61,61,
48,47,46,46,47,47,47,48,50,52,53,53,53,53,54,54,54,55,55,56,56,58,59,60,61,61,63,63,64,65,66,67,
49,47,46,45,45,46,45,47,49,53,53,56,57,58,59,59,61,61,62,63,64,65,66,67,68,68,69,69,68,68,67,67,
50,48,47,46,46,46,46,47,50,53,54,56,57,59,61,61,63,64,65,66,66,68,69,70,71,71,72,70,71,72,73,74,
52,50,49,48,47,47,47,48,50,53,54,57,59,61,63,64,66,67,68,70,70,72,73,75,75,75,77,78,77,76,75,74,
56,53,52,51,50,50,49,50,53,55,56,59,61,63,65,66,70,71,72,74,75,77,79,80,81,81,82,80,79,80,81,82,
57,54,53,52,51,51,50,51,53,56,57,60,61,64,66,67,71,72,73,76,76,79,80,82,83,83,84,85,86,85,83,82,
63,60,59,57,56,56,54,55,57,60,60,64,65,67,70,71,75,76,78,81,82,85,86,89,90,90,92,90,88,88,89,90,
64,61,60,58,57,57,55,56,58,61,61,64,66,68,71,71,75,77,79,82,83,86,87,90,91,91,93,93,94,94,92,90,
67,63,62,60,60,59,57,57,60,61,63,65,66,70,70,73,75,77,80,81,85,86,89,91,93,94,94,96,96,95,97,98,
68,64,64,61,61,60,59,58,60,61,63,64,67,67,71,71,74,75,79,80,83,85,87,89,91,94,95,97,97,99,98,98,
68,65,65,62,62,60,61,59,59,62,62,65,65,68,68,72,72,76,76,80,80,84,84,89,89,93,93,97,98,99,99,102,
32,31,31,31,31,32,32,32,33,34,36,36,39,40,44,46,48,52,53,58,58,65,66,71,74,79,81,82,86,88,91,93,
31,32,32,32,32,32,32,33,33,34,34,35,37,38,41,43,45,48,49,53,54,60,61,65,68,72,74,75,78,81,83,85,
31,32,32,32,32,33,33,33,34,34,35,35,38,39,41,43,45,48,49,53,54,59,60,65,67,72,73,74,78,80,82,85,
32,32,32,33,33,34,35,35,36,37,38,38,40,41,43,44,46,49,50,53,54,58,59,63,66,70,71,72,75,77,79,81,
33,33,33,33,34,35,36,36,38,39,42,42,44,45,46,48,50,52,53,57,57,62,63,67,69,73,75,75,78,80,80,81,
36,35,35,34,35,36,37,38,41,42,48,48,50,51,53,55,56,59,60,63,63,68,69,73,75,79,80,81,84,86,88,90,
40,39,39,38,38,39,40,41,44,45,51,51,54,56,59,60,62,65,66,69,70,74,75,79,81,85,86,87,90,90,90,90,
44,42,42,41,41,42,42,42,46,48,54,54,58,59,63,65,67,70,71,74,75,79,80,84,86,90,91,92,95,98,100,102,
51,49,49,47,47,48,48,48,52,53,58,59,63,65,69,72,74,78,79,83,84,89,90,94,97,101,102,103,106,105,103,103,
53,51,51,49,49,50,49,49,53,54,60,60,65,67,71,73,76,80,82,86,87,92,93,97,100,104,105,106,109,112,114,117,
65,62,61,59,59,59,58,58,62,63,68,68,73,75,79,82,85,90,92,97,98,105,106,111,113,118,120,121,124,122,119,117,
66,63,62,60,60,60,59,59,63,64,69,69,74,76,80,83,86,91,93,98,99,106,107,112,115,119,121,122,125,127,130,134,
79,75,74,72,71,71,69,69,72,73,78,79,84,85,90,93,96,101,103,109,110,118,119,125,128,133,135,136,140,140,137,134,
81,77,76,74,73,72,71,70,74,75,80,80,85,87,91,94,98,103,105,111,112,119,121,127,130,135,137,139,142,144,148,151,
87,83,82,79,79,78,77,75,78,80,84,85,89,90,96,97,103,105,111,113,118,122,126,131,134,141,143,147,147,152,151,152,
90,85,85,81,81,80,80,77,78,83,83,87,88,93,93,100,100,107,107,115,115,123,123,132,132,140,140,151,151,155,155,160,
32,31,31,30,31,33,35,37,41,42,49,49,48,48,49,49,50,51,52,54,54,57,57,60,61,63,64,64,66,67,68,68,
31,31,31,32,33,36,38,40,42,43,46,46,46,45,45,46,46,47,48,50,50,52,52,54,56,57,58,59,60,61,62,62,
32,33,33,33,35,37,39,41,43,43,47,47,46,46,45,46,46,47,48,49,50,52,52,54,55,57,58,58,59,60,61,62,
37,38,38,40,41,43,45,47,47,47,48,48,47,46,46,46,46,47,47,48,49,50,51,52,53,55,55,56,57,58,58,59,
40,41,41,42,43,44,46,47,48,48,50,50,49,49,48,49,49,49,50,51,51,52,53,55,56,57,58,58,59,59,59,59,
48,47,47,46,46,47,47,47,49,50,53,53,53,53,53,53,54,54,54,55,55,56,57,58,59,60,61,61,62,63,64,65,
49,47,47,45,46,46,46,46,49,49,53,53,54,55,56,57,57,58,58,59,59,60,61,62,63,64,65,65,66,66,65,65,
49,47,47,45,45,46,45,45,48,49,53,54,56,56,58,59,59,61,61,62,62,64,64,65,66,67,68,68,69,70,71,71,
51,49,49,47,47,47,47,46,49,50,54,54,57,58,61,62,63,64,65,67,67,69,69,71,72,73,73,74,75,74,72,71,
52,50,49,48,48,47,47,47,50,50,54,55,57,58,61,62,64,66,66,68,68,70,71,72,73,75,75,75,76,77,78,79,
57,54,54,52,51,51,50,50,52,53,57,57,60,61,64,65,67,69,71,73,73,76,77,79,80,82,82,83,84,82,81,79,
58,55,54,52,52,52,51,50,53,54,57,57,60,61,64,66,67,70,71,73,74,77,77,79,81,82,83,83,85,85,86,87,
63,60,59,57,57,56,55,54,57,57,60,61,64,65,67,69,71,73,75,77,78,82,82,85,86,89,89,90,91,91,89,87,
64,61,60,58,57,57,56,55,57,58,61,61,64,65,68,69,71,74,75,78,78,82,83,86,87,90,90,91,92,93,94,95,
67,63,63,60,60,59,58,57,59,60,62,63,65,66,69,70,73,74,77,78,81,83,85,87,88,92,92,94,94,96,95,95,
67,64,64,61,61,60,60,58,58,61,61,64,64,67,67,70,71,74,74,78,78,82,82,86,86,90,90,95,95,96,96,98,
32,31,31,31,31,32,32,32,32,34,34,36,36,39,39,44,44,48,48,53,53,58,58,65,65,71,71,79,79,82,82,87,
31,32,32,32,32,32,32,33,33,34,34,34,34,37,37,41,41,45,45,49,49,54,54,60,60,65,65,72,72,75,75,79,
31,32,32,32,32,32,32,33,33,34,34,34,34,37,37,41,41,45,45,49,49,54,54,60,60,65,65,72,72,75,75,79,
32,32,32,33,33,34,34,35,35,37,37,38,38,40,40,43,43,46,46,50,50,54,54,58,58,63,63,70,70,72,72,76,
32,32,32,33,33,34,34,35,35,37,37,38,38,40,40,43,43,46,46,50,50,54,54,58,58,63,63,70,70,72,72,76,
36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,53,53,56,56,60,60,63,63,68,68,73,73,79,79,81,81,84,
36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,53,53,56,56,60,60,63,63,68,68,73,73,79,79,81,81,84,
44,42,42,41,41,42,42,42,42,48,48,54,54,58,58,63,63,67,67,71,71,75,75,79,79,84,84,90,90,92,92,96,
44,42,42,41,41,42,42,42,42,48,48,54,54,58,58,63,63,67,67,71,71,75,75,79,79,84,84,90,90,92,92,96,
53,51,51,49,49,50,50,49,49,54,54,60,60,65,65,71,71,76,76,82,82,87,87,92,92,97,97,104,104,106,106,109,
53,51,51,49,49,50,50,49,49,54,54,60,60,65,65,71,71,76,76,82,82,87,87,92,92,97,97,104,104,106,106,109,
65,62,62,59,59,59,59,58,58,63,63,68,68,73,73,79,79,85,85,92,92,98,98,105,105,111,111,118,118,121,121,124,
65,62,62,59,59,59,59,58,58,63,63,68,68,73,73,79,79,85,85,92,92,98,98,105,105,111,111,118,118,121,121,124,
79,75,75,72,72,71,71,69,69,73,73,78,78,84,84,90,90,96,96,103,103,110,110,118,118,125,125,133,133,136,136,141,
79,75,75,72,72,71,71,69,69,73,73,78,78,84,84,90,90,96,96,103,103,110,110,118,118,125,125,133,133,136,136,141,
87,82,82,78,78,77,77,75,75,79,79,84,84,89,89,95,95,102,102,109,109,116,116,124,124,132,132,141,141,144,144,149,
32,31,31,30,30,33,33,37,37,42,42,49,49,48,48,49,49,50,50,52,52,54,54,57,57,60,60,63,63,64,64,66,
31,31,31,32,32,36,36,40,40,43,43,46,46,46,46,45,45,46,46,48,48,50,50,52,52,54,54,57,57,59,59,60,
31,31,31,32,32,36,36,40,40,43,43,46,46,46,46,45,45,46,46,48,48,50,50,52,52,54,54,57,57,59,59,60,
37,38,38,40,40,43,43,47,47,47,47,48,48,47,47,46,46,46,46,47,47,49,49,50,50,52,52,55,55,56,56,57,
37,38,38,40,40,43,43,47,47,47,47,48,48,47,47,46,46,46,46,47,47,49,49,50,50,52,52,55,55,56,56,57,
48,47,47,46,46,47,47,47,47,50,50,53,53,53,53,53,53,54,54,54,54,55,55,56,56,58,58,60,60,61,61,63,
48,47,47,46,46,47,47,47,47,50,50,53,53,53,53,53,53,54,54,54,54,55,55,56,56,58,58,60,60,61,61,63,
49,47,47,45,45,46,46,45,45,49,49,53,53,56,56,58,58,59,59,61,61,62,62,64,64,65,65,67,67,68,68,69,
49,47,47,45,45,46,46,45,45,49,49,53,53,56,56,58,58,59,59,61,61,62,62,64,64,65,65,67,67,68,68,69,
52,50,50,48,48,47,47,47,47,50,50,54,54,57,57,61,61,64,64,66,66,68,68,70,70,72,72,75,75,75,75,77,
52,50,50,48,48,47,47,47,47,50,50,54,54,57,57,61,61,64,64,66,66,68,68,70,70,72,72,75,75,75,75,77,
57,54,54,52,52,51,51,50,50,53,53,57,57,60,60,64,64,67,67,71,71,73,73,76,76,79,79,82,82,83,83,84,
57,54,54,52,52,51,51,50,50,53,53,57,57,60,60,64,64,67,67,71,71,73,73,76,76,79,79,82,82,83,83,84,
63,60,60,57,57,56,56,54,54,57,57,60,60,64,64,67,67,71,71,75,75,78,78,82,82,85,85,89,89,90,90,92,
63,60,60,57,57,56,56,54,54,57,57,60,60,64,64,67,67,71,71,75,75,78,78,82,82,85,85,89,89,90,90,92,
66,63,63,60,60,59,59,57,57,60,60,62,62,66,66,69,69,73,73,77,77,80,80,84,84,88,88,92,92,93,93,95,
32,31,31,31,31,31,32,32,32,32,34,34,35,36,38,39,41,44,44,48,48,53,53,57,58,61,65,67,71,72,79,79,
31,32,32,32,32,32,32,32,32,33,34,34,34,35,36,38,39,41,42,45,45,49,50,53,54,57,60,62,66,66,73,73,
31,32,32,32,32,32,32,32,33,33,34,34,34,34,36,37,39,41,42,45,45,49,49,52,54,57,60,61,65,66,72,72,
32,32,32,32,32,33,33,34,34,34,36,36,37,37,38,40,41,42,43,46,46,49,50,52,54,56,59,60,64,64,71,71,
32,32,32,32,33,33,34,34,35,35,37,37,38,38,40,40,41,43,43,46,46,49,50,52,54,56,58,60,63,64,70,70,
34,34,34,33,33,34,35,35,37,37,39,39,42,43,44,45,46,48,48,51,51,54,54,57,58,60,63,64,68,68,74,74,
36,35,35,35,34,35,36,37,38,39,42,42,47,48,49,50,51,53,54,56,56,59,60,62,63,66,68,69,73,73,79,79,
38,37,37,36,36,37,38,38,39,40,44,44,48,49,51,52,54,56,56,59,59,62,63,65,67,69,71,72,76,76,82,82,
44,42,42,41,41,41,42,42,42,43,48,48,52,54,56,58,60,63,64,67,67,71,71,74,75,77,79,81,84,85,90,90,
44,43,43,42,41,42,43,43,43,44,48,48,53,54,57,58,60,64,64,67,67,71,72,75,76,78,80,82,85,86,91,91,
53,51,51,50,49,49,50,49,49,50,54,54,59,60,63,65,67,71,72,76,76,81,82,85,87,89,92,94,97,98,104,104,
53,51,51,50,49,49,50,49,49,50,54,54,59,60,63,65,67,71,72,76,76,81,82,85,87,89,92,94,97,98,104,104,
62,60,59,58,57,57,57,56,56,56,61,61,65,66,69,71,74,78,79,83,83,89,90,94,95,98,102,103,108,108,115,115,
65,62,62,60,59,59,59,59,58,58,63,63,67,68,71,73,76,79,81,85,85,91,92,96,98,101,105,106,111,111,118,118,
73,70,69,67,66,66,65,65,64,64,69,69,73,74,77,79,81,85,86,91,91,98,99,103,105,108,112,114,119,119,127,127,
79,75,75,73,72,71,71,70,69,69,73,73,77,78,81,84,86,90,91,96,96,103,103,108,110,114,118,120,125,125,133,133,
32,31,31,30,30,32,33,34,37,37,42,42,47,49,48,48,48,49,49,50,50,52,52,53,54,55,57,58,60,60,63,63,
31,31,31,32,32,33,35,37,40,40,43,43,46,47,46,46,46,45,46,47,47,48,48,50,50,51,52,53,55,55,58,58,
31,31,31,32,32,34,36,37,40,40,43,43,46,46,46,46,45,45,45,46,46,48,48,49,50,51,52,53,54,55,57,57,
35,36,36,37,37,39,40,42,45,45,46,46,47,47,47,46,46,45,46,46,46,47,47,48,49,50,51,51,53,53,56,56,
37,38,38,39,40,41,43,44,47,47,47,47,48,48,47,47,46,46,46,46,46,47,47,48,49,49,50,51,52,53,55,55,
42,42,42,42,42,44,45,45,47,47,48,48,50,50,50,50,49,49,49,50,50,50,50,51,52,52,53,54,55,55,58,58,
48,47,47,46,46,46,47,47,47,48,50,50,52,53,53,53,53,53,53,54,54,54,54,55,55,56,56,57,58,59,60,60,
48,47,47,46,46,46,46,47,47,47,50,50,52,53,53,54,54,55,55,55,55,56,56,57,57,58,58,59,60,60,62,62,
49,47,47,46,45,45,46,45,45,46,49,49,53,53,55,56,57,58,58,59,59,61,61,62,62,63,64,64,65,65,67,67,
49,47,47,46,45,45,46,46,46,46,49,49,53,54,55,56,57,59,59,60,60,61,61,62,63,63,64,65,66,66,68,68,
52,50,50,48,48,48,47,47,47,47,50,50,53,54,56,57,59,61,62,64,64,66,66,68,68,69,70,71,72,73,75,75,
52,50,50,48,48,48,47,47,47,47,50,50,53,54,56,57,59,61,62,64,64,66,66,68,68,69,70,71,72,73,75,75,
56,54,53,52,51,51,50,50,49,49,53,53,55,56,58,59,61,63,64,66,66,69,70,71,72,74,75,76,77,78,80,80,
57,54,54,52,52,51,51,51,50,50,53,53,56,57,58,60,61,64,64,67,67,70,71,72,73,75,76,77,79,79,82,82,
61,58,57,56,55,54,54,53,52,53,56,56,58,59,61,62,63,66,66,69,69,72,73,75,76,78,79,80,82,83,86,86,
63,60,60,58,57,57,56,55,54,55,57,57,60,60,62,64,65,67,68,71,71,74,75,77,78,80,82,83,85,85,89,89,
32,31,31,31,31,31,31,32,32,32,32,33,34,34,36,36,38,39,41,44,44,47,48,50,53,53,57,58,61,65,65,70,
31,32,32,32,32,32,32,32,32,32,32,33,34,34,35,35,37,38,39,41,41,44,45,47,50,50,54,55,57,61,61,65,
31,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,37,37,39,41,41,44,45,46,49,49,53,54,56,60,60,64,
31,32,32,32,32,32,33,33,33,34,34,35,35,35,36,36,38,39,40,42,42,44,45,47,50,50,53,54,56,59,59,63,
32,32,32,32,33,33,34,34,34,35,35,36,37,37,38,38,40,40,41,43,43,45,46,47,50,50,53,54,56,58,58,62,
32,32,32,32,33,33,34,34,34,35,35,36,37,37,38,38,40,40,41,43,43,45,46,47,50,50,53,54,56,58,58,62,
35,35,35,34,34,34,35,36,36,37,37,40,41,43,46,46,47,48,49,51,51,53,54,55,57,57,60,61,63,66,66,70,
36,35,35,35,34,34,36,36,37,38,38,41,42,44,48,48,50,50,51,53,53,56,56,58,60,60,63,63,65,68,68,72,
39,38,38,37,37,37,38,38,39,40,40,43,44,46,50,50,52,53,54,57,57,59,60,61,64,64,67,68,69,72,72,76,
44,42,42,41,41,41,42,42,42,42,42,46,48,50,54,54,57,58,60,63,63,66,67,68,71,71,74,75,77,79,79,83,
44,42,42,41,41,41,42,42,42,42,42,46,48,50,54,54,57,58,60,63,63,66,67,68,71,71,74,75,77,79,79,83,
51,49,49,48,47,47,48,48,48,48,48,52,53,55,58,58,62,63,66,69,69,73,74,76,79,79,83,84,86,89,89,93,
53,52,51,50,49,49,49,50,49,49,49,53,54,56,60,60,64,65,67,71,71,75,76,78,82,82,86,87,89,92,92,96,
58,56,55,54,53,53,53,53,53,52,52,56,57,59,63,63,67,68,70,74,74,78,79,82,86,86,90,91,93,97,97,101,
65,63,62,61,59,59,59,59,58,58,58,62,63,65,68,68,72,73,76,79,79,84,85,88,92,92,97,98,100,105,105,109,
65,63,62,61,59,59,59,59,58,58,58,62,63,65,68,68,72,73,76,79,79,84,85,88,92,92,97,98,100,105,105,109,
32,31,31,31,30,30,33,33,35,37,37,41,42,44,49,49,48,48,48,49,49,50,50,51,52,52,54,54,55,57,57,59,
31,31,31,31,32,32,34,35,37,39,39,42,42,44,47,47,46,46,46,46,46,47,47,48,48,48,50,51,51,53,53,55,
31,31,31,32,32,32,35,36,37,40,40,42,43,44,46,46,46,46,45,45,45,46,46,47,48,48,49,50,51,52,52,54,
33,34,34,34,35,35,37,38,40,43,43,44,44,45,47,47,46,46,46,45,45,46,46,47,47,47,49,49,50,51,51,53,
37,38,38,39,40,40,42,43,44,47,47,47,47,47,48,48,47,47,46,46,46,46,46,47,47,47,48,49,49,50,50,52,
37,38,38,39,40,40,42,43,44,47,47,47,47,47,48,48,47,47,46,46,46,46,46,47,47,47,48,49,49,50,50,52,
45,45,45,45,44,44,46,46,46,47,47,49,49,50,52,52,51,51,51,51,51,52,52,52,53,53,54,54,54,55,55,57,
48,47,47,46,46,46,47,47,47,47,47,49,50,51,53,53,53,53,53,53,53,54,54,54,54,54,55,55,56,56,56,58,
48,47,47,46,45,45,46,46,46,47,47,49,50,51,53,53,54,54,54,55,55,56,56,56,57,57,58,58,58,59,59,61,
49,47,47,46,45,45,45,46,45,45,45,48,49,51,53,53,55,56,57,58,58,59,59,60,61,61,62,62,63,64,64,65,
49,47,47,46,45,45,45,46,45,45,45,48,49,51,53,53,55,56,57,58,58,59,59,60,61,61,62,62,63,64,64,65,
51,50,49,48,47,47,47,47,47,46,46,49,50,52,54,54,56,57,58,61,61,62,63,64,65,65,67,67,68,69,69,70,
52,50,50,49,48,48,47,47,47,47,47,50,50,52,54,54,57,57,59,61,61,63,64,65,66,66,68,68,69,70,70,72,
54,52,51,51,49,49,49,49,48,48,48,51,51,53,55,55,58,58,60,62,62,64,65,66,68,68,70,70,71,73,73,74,
57,55,54,53,52,52,51,51,51,50,50,52,53,54,57,57,59,60,61,64,64,66,67,68,71,71,73,73,74,76,76,78,
57,55,54,53,52,52,51,51,51,50,50,52,53,54,57,57,59,60,61,64,64,66,67,68,71,71,73,73,74,76,76,78,
32,31,31,31,31,31,31,32,32,32,32,32,32,34,34,35,36,36,38,39,39,42,44,44,47,48,49,53,53,55,58,58,
31,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,35,35,37,38,38,40,42,42,45,46,47,50,51,52,55,55,
31,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,36,37,37,40,41,41,44,45,46,49,49,51,54,54,
31,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,35,35,37,38,38,40,41,41,44,45,46,49,49,51,54,54,
32,32,32,32,32,32,33,33,34,34,35,35,35,36,36,37,37,37,39,40,40,42,42,43,45,46,47,49,50,51,54,54,
32,32,32,32,32,33,33,34,34,34,35,35,36,37,37,37,38,38,40,40,40,42,43,43,45,46,47,49,50,51,54,54,
32,33,33,33,33,33,33,34,34,35,36,36,36,38,38,39,40,40,41,42,42,44,45,45,47,48,48,51,51,53,55,55,
35,35,35,35,34,34,35,36,36,37,38,38,39,42,42,44,47,47,48,49,49,51,52,52,54,55,56,58,59,60,62,62,
36,35,35,35,35,34,35,36,36,37,38,38,40,42,42,45,48,48,49,50,50,52,53,54,56,56,57,59,60,61,63,63,
38,37,37,37,36,36,36,38,38,38,39,39,41,44,44,46,49,49,51,52,52,55,56,56,58,59,60,62,63,64,67,67,
44,43,42,42,41,41,41,42,42,42,42,42,44,48,48,50,54,54,56,58,58,61,63,63,66,67,67,71,71,72,75,75,
44,43,42,42,41,41,41,42,42,42,42,42,44,48,48,50,54,54,56,58,58,61,63,63,66,67,67,71,71,72,75,75,
47,46,45,45,44,44,44,45,45,45,45,45,47,50,50,53,56,56,58,60,60,64,66,66,69,70,71,74,75,76,79,79,
53,52,51,51,49,49,49,49,50,49,49,49,51,54,54,57,60,60,63,65,65,69,71,72,75,76,77,81,82,83,87,87,
53,52,51,51,49,49,49,49,50,49,49,49,51,54,54,57,60,60,63,65,65,69,71,72,75,76,77,81,82,83,87,87,
59,57,56,56,54,54,54,54,54,54,53,53,55,58,58,61,64,64,67,69,69,73,75,76,79,80,81,86,87,88,92,92,
32,31,31,31,30,30,31,33,33,34,37,37,39,42,42,45,49,49,48,48,48,49,49,49,50,50,51,52,52,53,54,54,
31,31,31,31,31,31,32,35,35,36,39,39,40,42,42,45,47,47,47,46,46,46,46,46,47,48,48,49,49,50,51,51,
31,31,31,31,32,32,33,35,36,37,40,40,41,43,43,44,46,46,46,46,46,45,45,45,46,46,47,48,48,48,50,50,
31,32,32,32,32,33,33,36,36,37,41,41,42,43,43,45,47,47,46,46,46,45,45,45,46,46,47,48,48,48,50,50,
35,36,37,37,38,38,38,41,41,42,45,45,46,46,46,47,48,48,47,46,46,46,45,46,46,46,47,47,47,48,49,49,
37,38,38,38,39,40,40,43,43,44,47,47,47,47,47,47,48,48,47,47,47,46,46,46,46,46,47,47,47,48,49,49,
38,39,40,40,40,41,41,43,44,45,47,47,47,48,48,48,49,49,48,48,48,47,47,47,48,48,48,48,48,49,50,50,
47,46,46,46,45,45,45,46,46,47,47,47,48,50,50,51,52,52,52,52,52,52,52,52,53,53,53,53,53,54,55,55,
48,47,47,47,46,46,46,47,47,47,47,47,48,50,50,51,53,53,53,53,53,53,53,53,54,54,54,54,54,54,55,55,
48,47,47,47,46,46,46,46,46,47,47,47,48,50,50,51,53,53,53,54,54,54,55,55,55,55,55,56,56,56,57,57,
49,48,47,47,45,45,45,45,46,45,45,45,47,49,49,51,53,53,55,56,56,57,58,58,59,59,60,61,61,61,62,62,
49,48,47,47,45,45,45,45,46,45,45,45,47,49,49,51,53,53,55,56,56,57,58,58,59,59,60,61,61,61,62,62,
50,49,48,48,46,46,46,46,46,46,46,46,47,50,50,52,54,54,55,56,56,58,59,60,61,61,61,63,63,63,65,65,
52,50,50,50,48,48,48,47,47,47,47,47,48,50,50,52,54,54,56,57,57,60,61,61,63,64,64,66,66,67,68,68,
52,50,50,50,48,48,48,47,47,47,47,47,48,50,50,52,54,54,56,57,57,60,61,61,63,64,64,66,66,67,68,68,
54,53,52,52,50,50,50,49,49,49,48,48,50,52,52,54,55,55,57,59,59,61,62,63,65,65,66,68,68,69,71,71,
32,31,31,31,31,31,31,31,31,32,32,32,32,32,32,34,34,34,35,36,36,38,39,39,41,44,44,44,47,48,48,51,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,35,35,35,37,38,38,40,42,42,43,45,46,46,49,
31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,34,36,37,37,39,41,41,42,44,45,45,47,
31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,34,36,37,37,39,41,41,42,44,45,45,47,
31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,35,35,36,36,36,37,39,39,40,42,42,42,44,45,45,48,
32,32,32,32,32,33,33,33,34,34,34,35,35,35,36,37,37,37,38,38,38,40,40,40,41,43,43,43,45,46,46,48,
32,32,32,32,32,33,33,33,34,34,34,35,35,35,36,37,37,37,38,38,38,40,40,40,41,43,43,43,45,46,46,48,
32,33,33,33,33,33,33,33,34,34,34,35,36,36,36,38,38,38,39,40,40,41,42,42,43,45,45,45,47,48,48,50,
35,35,35,35,34,34,34,34,35,36,36,37,37,37,39,41,41,42,45,46,46,47,48,48,49,51,51,51,53,54,54,56,
36,35,35,35,35,34,34,35,36,36,36,37,38,38,40,42,42,43,47,48,48,49,50,50,51,53,53,54,56,56,56,58,
36,35,35,35,35,34,34,35,36,36,36,37,38,38,40,42,42,43,47,48,48,49,50,50,51,53,53,54,56,56,56,58,
40,39,39,39,39,38,38,38,39,39,39,40,41,41,42,45,45,46,50,51,51,53,54,54,56,59,59,59,61,62,62,64,
44,43,42,42,41,41,41,41,42,42,42,42,42,42,44,48,48,49,52,54,54,56,58,58,60,63,63,64,66,67,67,69,
44,43,42,42,41,41,41,41,42,42,42,42,42,42,44,48,48,49,52,54,54,56,58,58,60,63,63,64,66,67,67,69,
47,46,45,45,45,44,44,44,44,45,45,45,45,45,47,50,50,51,55,56,56,58,60,60,62,66,66,67,69,70,70,73,
53,52,51,51,50,49,49,49,49,50,50,49,49,49,51,54,54,55,59,60,60,63,65,65,67,71,71,72,75,76,76,79,
32,31,31,31,31,30,30,31,33,33,33,35,37,37,39,42,42,43,47,49,49,48,48,48,48,49,49,49,50,50,50,51,
31,31,31,31,31,31,31,32,34,35,35,37,39,39,40,42,42,43,46,47,47,47,47,47,47,46,46,47,48,48,48,49,
31,31,31,31,32,32,32,33,35,36,36,38,40,40,41,43,43,43,46,46,46,46,46,46,45,45,45,45,46,46,46,47,
31,31,31,31,32,32,32,33,35,36,36,38,40,40,41,43,43,43,46,46,46,46,46,46,45,45,45,45,46,46,46,47,
33,33,34,34,34,35,35,35,37,38,38,41,43,43,43,44,44,45,46,47,47,46,46,46,46,45,45,45,46,46,46,47,
37,38,38,38,39,40,40,40,42,43,43,45,47,47,47,47,47,47,48,48,48,47,47,47,46,46,46,46,46,46,46,47,
37,38,38,38,39,40,40,40,42,43,43,45,47,47,47,47,47,47,48,48,48,47,47,47,46,46,46,46,46,46,46,47,
38,39,40,40,40,41,41,41,43,44,44,46,47,47,47,48,48,48,48,49,49,48,48,48,47,47,47,47,48,48,48,48,
45,45,45,45,45,44,44,45,46,46,46,47,47,47,48,49,49,50,51,52,52,52,51,51,51,51,51,52,52,52,52,52,
48,47,47,47,46,46,46,46,47,47,47,47,47,47,48,50,50,50,52,53,53,53,53,53,53,53,53,53,54,54,54,54,
48,47,47,47,46,46,46,46,47,47,47,47,47,47,48,50,50,50,52,53,53,53,53,53,53,53,53,53,54,54,54,54,
49,48,47,47,46,45,45,45,46,46,46,46,46,46,47,49,49,50,52,53,53,54,54,54,55,56,56,56,57,57,57,58,
49,48,47,47,46,45,45,45,45,46,46,45,45,45,47,49,49,50,53,53,53,55,56,56,57,58,58,58,59,59,59,60,
49,48,47,47,46,45,45,45,45,46,46,45,45,45,47,49,49,50,53,53,53,55,56,56,57,58,58,58,59,59,59,60,
50,49,48,48,47,46,46,46,46,46,46,46,46,46,47,50,50,50,53,54,54,55,56,56,57,59,59,60,61,61,61,62,
52,51,50,50,49,48,48,48,47,47,47,47,47,47,48,50,50,51,53,54,54,56,57,57,59,61,61,62,63,64,64,65,
32,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,34,35,36,36,36,37,39,39,39,41,44,44,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,35,35,37,38,38,38,40,42,42,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,34,34,36,37,37,37,39,41,41,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,34,34,36,37,37,37,39,41,41,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,34,34,36,37,37,37,39,41,41,
32,32,32,32,32,32,32,32,32,33,33,33,33,33,34,34,34,34,35,35,35,36,36,36,36,38,39,39,39,40,42,42,
32,32,32,32,32,32,33,33,33,33,34,34,34,34,35,35,35,36,37,37,37,37,38,38,38,39,40,40,40,42,43,43,
32,32,32,32,32,32,33,33,33,33,34,34,34,34,35,35,35,36,37,37,37,37,38,38,38,39,40,40,40,42,43,43,
32,32,32,32,32,32,33,33,33,33,34,34,34,34,35,35,35,36,37,37,37,37,38,38,38,39,40,40,40,42,43,43,
34,34,34,34,34,34,33,33,33,34,35,35,35,36,37,37,37,38,39,39,39,41,43,43,43,44,45,45,45,46,48,48,
36,35,35,35,35,35,34,34,34,35,36,36,36,37,38,38,38,40,42,42,42,45,48,48,48,49,50,50,50,52,53,53,
36,35,35,35,35,35,34,34,34,35,36,36,36,37,38,38,38,40,42,42,42,45,48,48,48,49,50,50,50,52,53,53,
36,35,35,35,35,35,34,34,34,35,36,36,36,37,38,38,38,40,42,42,42,45,48,48,48,49,50,50,50,52,53,53,
39,39,38,38,38,38,37,37,37,38,39,39,39,40,40,40,40,42,45,45,45,47,51,51,51,52,54,54,54,56,58,58,
44,43,42,42,42,41,41,41,41,41,42,42,42,42,42,42,42,45,48,48,48,50,54,54,54,56,58,58,58,60,63,63,
44,43,42,42,42,41,41,41,41,41,42,42,42,42,42,42,42,45,48,48,48,50,54,54,54,56,58,58,58,60,63,63,
32,31,31,31,31,31,30,30,30,32,33,33,33,35,37,37,37,39,42,42,42,45,49,49,49,48,48,48,48,48,49,49,
31,31,31,31,31,31,31,31,31,33,34,34,34,36,38,38,38,40,42,42,42,45,48,48,48,47,47,47,47,47,47,47,
31,31,31,31,31,32,32,32,32,34,36,36,36,38,40,40,40,41,43,43,43,44,46,46,46,46,46,46,46,45,45,45,
31,31,31,31,31,32,32,32,32,34,36,36,36,38,40,40,40,41,43,43,43,44,46,46,46,46,46,46,46,45,45,45,
31,31,31,31,31,32,32,32,32,34,36,36,36,38,40,40,40,41,43,43,43,44,46,46,46,46,46,46,46,45,45,45,
33,34,34,34,34,35,35,35,35,37,39,39,39,41,43,43,43,44,45,45,45,46,47,47,47,47,46,46,46,46,45,45,
37,37,38,38,38,39,40,40,40,41,43,43,43,45,47,47,47,47,47,47,47,47,48,48,48,47,47,47,47,46,46,46,
37,37,38,38,38,39,40,40,40,41,43,43,43,45,47,47,47,47,47,47,47,47,48,48,48,47,47,47,47,46,46,46,
37,37,38,38,38,39,40,40,40,41,43,43,43,45,47,47,47,47,47,47,47,47,48,48,48,47,47,47,47,46,46,46,
42,42,42,42,42,42,42,42,42,44,45,45,45,46,47,47,47,48,48,48,48,49,50,50,50,50,50,50,50,49,49,49,
48,47,47,47,47,46,46,46,46,46,47,47,47,47,47,47,47,49,50,50,50,51,53,53,53,53,53,53,53,53,53,53,
48,47,47,47,47,46,46,46,46,46,47,47,47,47,47,47,47,49,50,50,50,51,53,53,53,53,53,53,53,53,53,53,
48,47,47,47,47,46,46,46,46,46,47,47,47,47,47,47,47,49,50,50,50,51,53,53,53,53,53,53,53,53,53,53,
48,48,47,47,47,46,45,45,45,46,46,46,46,46,46,46,46,48,50,50,50,51,53,53,53,54,54,54,54,55,56,56,
49,48,47,47,47,46,45,45,45,45,46,46,46,45,45,45,45,47,49,49,49,51,53,53,53,54,56,56,56,57,58,58,
49,48,47,47,47,46,45,45,45,45,46,46,46,45,45,45,45,47,49,49,49,51,53,53,53,54,56,56,56,57,58,58,
32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,36,36,36,37,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,35,35,35,35,36,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,34,35,35,35,36,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,34,34,36,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,34,34,36,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,34,34,36,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,34,34,35,35,35,35,35,36,36,36,36,37,
32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,34,35,35,35,35,36,36,36,36,37,37,37,37,37,38,
32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,35,35,35,35,36,36,37,37,37,37,38,38,38,38,39,
32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,35,35,35,35,36,36,37,37,37,37,38,38,38,38,39,
32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,35,35,35,35,36,36,37,37,37,37,38,38,38,38,39,
33,33,33,33,33,33,33,33,33,33,33,34,34,35,35,35,35,36,36,36,36,37,38,39,39,39,40,41,42,42,42,42,
35,35,35,35,35,35,34,34,34,34,34,35,35,36,36,36,36,37,37,37,37,39,40,41,41,41,43,45,46,46,46,46,
36,35,35,35,35,35,35,35,34,34,34,35,36,36,36,36,37,38,38,38,38,40,41,42,42,42,44,47,48,48,48,49,
36,35,35,35,35,35,35,35,34,34,34,35,36,36,36,36,37,38,38,38,38,40,41,42,42,42,44,47,48,48,48,49,
36,35,35,35,35,35,35,35,34,34,34,35,36,36,36,36,37,38,38,38,38,40,41,42,42,42,44,47,48,48,48,49,
32,31,31,31,31,31,31,30,30,30,30,31,33,33,33,33,35,36,37,37,37,39,41,42,42,42,44,47,49,49,49,49,
31,31,31,31,31,31,31,31,31,31,31,32,34,34,34,34,36,37,38,38,38,39,41,42,42,42,44,46,48,48,48,48,
31,31,31,31,31,31,31,31,32,32,32,33,34,35,35,35,37,38,39,39,39,40,42,42,42,42,44,46,47,47,47,47,
31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,37,39,40,40,40,41,42,43,43,43,44,46,46,46,46,46,
31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,37,39,40,40,40,41,42,43,43,43,44,46,46,46,46,46,
31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,37,39,40,40,40,41,42,43,43,43,44,46,46,46,46,46,
33,33,34,34,34,34,34,34,35,35,35,36,37,38,38,38,40,42,43,43,43,43,44,44,44,44,45,46,47,47,47,47,
35,36,36,37,37,37,37,38,38,38,38,39,40,41,41,41,43,44,45,45,45,46,46,46,46,46,47,47,48,48,48,47,
37,37,38,38,38,38,39,39,40,40,40,41,42,43,43,43,44,46,47,47,47,47,47,47,47,47,47,48,48,48,48,47,
37,37,38,38,38,38,39,39,40,40,40,41,42,43,43,43,44,46,47,47,47,47,47,47,47,47,47,48,48,48,48,47,
37,37,38,38,38,38,39,39,40,40,40,41,42,43,43,43,44,46,47,47,47,47,47,47,47,47,47,48,48,48,48,47,
40,41,41,41,41,41,41,42,42,42,42,43,44,44,44,44,45,47,47,47,47,48,48,48,48,48,49,49,50,50,50,49,
45,45,45,45,45,45,45,44,44,44,44,45,46,46,46,46,46,47,47,47,47,48,49,49,49,49,50,51,52,52,52,52,
48,48,47,47,47,47,46,46,46,46,46,46,47,47,47,47,47,47,47,47,47,48,49,50,50,50,51,52,53,53,53,53,
48,48,47,47,47,47,46,46,46,46,46,46,47,47,47,47,47,47,47,47,47,48,49,50,50,50,51,52,53,53,53,53,
48,48,47,47,47,47,46,46,46,46,46,46,47,47,47,47,47,47,47,47,47,48,49,50,50,50,51,52,53,53,53,53,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,33,33,34,34,34,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,34,34,34,34,34,35,35,36,36,
32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,33,33,33,33,33,33,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,36,36,36,36,36,36,37,38,38,
34,34,34,34,34,34,34,34,34,33,33,33,33,33,34,34,35,35,35,35,35,35,36,36,37,37,37,37,38,38,39,39,
32,31,31,31,31,31,31,31,31,30,30,30,30,30,31,32,33,33,33,33,33,34,35,36,37,37,37,37,39,40,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,34,35,36,37,38,38,38,38,39,41,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,35,35,35,35,36,37,38,39,39,39,39,40,41,42,42,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,33,35,35,35,35,35,37,38,39,40,40,40,40,41,42,43,43,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,33,34,35,36,36,36,36,37,38,39,40,40,40,40,41,42,43,43,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,33,34,35,36,36,36,36,37,38,39,40,40,40,40,41,42,43,43,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,33,34,35,36,36,36,36,37,38,39,40,40,40,40,41,42,43,43,
31,31,32,32,32,32,32,32,32,32,33,33,33,33,33,34,35,36,36,36,36,37,39,40,41,41,41,41,42,42,43,43,
33,33,33,34,34,34,34,34,34,34,35,35,35,35,35,36,37,38,38,38,38,39,41,42,43,43,43,43,43,44,44,44,
35,35,35,36,36,36,36,36,36,37,37,37,37,37,38,39,40,40,40,40,40,42,43,44,45,45,45,45,45,45,46,46,
37,37,38,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,45,47,47,47,47,47,47,47,47,47,
37,37,38,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,45,47,47,47,47,47,47,47,47,47,
37,37,38,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,45,47,47,47,47,47,47,47,47,47,
37,37,38,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,45,47,47,47,47,47,47,47,47,47,
38,39,39,40,40,40,40,40,40,40,41,41,41,41,41,42,43,44,44,44,44,45,46,47,47,47,47,47,47,47,48,48,
42,42,42,42,42,42,42,42,42,42,42,42,42,42,43,44,44,45,45,45,45,45,46,47,47,47,47,47,48,48,48,48,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,33,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,34,34,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,34,34,34,34,34,34,34,34,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,30,30,31,31,32,33,33,33,33,33,33,33,34,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,33,34,34,34,34,34,34,34,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,33,34,35,35,35,35,35,35,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,35,35,35,35,35,35,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,33,33,33,33,33,33,34,35,35,36,37,37,37,37,37,37,38,
33,33,33,33,34,34,34,34,34,34,34,34,34,34,34,35,35,35,35,35,35,35,36,37,37,38,38,38,38,38,38,39,
34,34,34,35,35,35,35,35,35,35,35,35,36,36,36,36,36,36,36,36,36,37,37,38,39,40,40,40,40,40,40,40,
35,35,36,36,36,37,37,37,37,37,37,37,37,37,38,38,38,38,38,38,38,38,39,40,40,41,41,41,41,41,41,42,
37,37,37,38,38,38,38,38,38,38,38,38,39,39,39,40,40,40,40,40,40,40,41,41,42,43,43,43,43,43,43,44,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
};
static const uint8_t T_qm10[15360]={32,31,32,34,36,44,53,59,65,79,87,90,93,96,99,102,31,32,32,34,35,42,51,56,62,75,82,85,88,91,94,97,
31,32,33,33,34,41,49,54,59,72,78,82,86,90,93,97,31,32,33,34,35,41,49,54,59,71,78,81,84,87,90,93,
32,32,34,35,36,42,50,54,59,71,77,80,82,86,89,93,32,33,35,37,38,42,49,53,58,69,75,78,82,86,89,92,
34,34,37,39,42,48,54,58,63,73,79,78,80,83,88,92,35,34,37,41,45,50,57,61,65,76,82,83,84,84,87,90,
36,34,38,43,48,54,60,64,68,78,84,87,86,89,90,90,39,37,40,45,50,58,65,69,73,84,89,89,91,91,93,96,
44,41,43,48,53,63,71,75,79,90,95,93,94,95,97,97,46,43,44,49,55,65,73,78,82,93,98,100,98,100,99,103,
48,45,46,51,56,67,76,80,85,96,102,102,105,102,105,104,53,49,50,54,60,71,82,87,92,103,109,107,107,110,107,111,
58,54,54,58,63,75,87,92,98,110,116,115,112,111,115,112,61,57,56,60,66,77,89,95,101,114,120,118,119,118,116,120,
65,60,58,63,68,79,92,98,105,118,124,123,122,123,124,121,71,65,63,68,73,84,97,103,111,125,132,132,130,128,127,130,
79,72,70,74,79,90,104,110,118,133,141,136,135,135,135,131,81,74,71,75,80,91,105,112,119,135,142,140,140,138,139,142,
82,75,72,76,81,92,106,113,121,136,144,151,149,149,146,143,88,80,77,80,85,97,108,115,126,142,149,153,153,152,152,154,
91,83,80,81,88,100,106,114,130,142,148,155,162,160,159,155,94,85,83,82,91,100,105,118,131,137,153,160,165,167,166,168,
97,88,86,85,94,100,107,123,128,140,157,161,167,173,171,169,100,91,89,87,97,100,111,121,127,145,152,164,173,178,182,181,
103,94,93,90,98,101,114,120,131,144,150,170,174,180,186,183,107,97,96,93,100,104,117,119,136,142,155,168,177,187,191,198,
110,101,100,97,101,108,117,123,138,141,161,165,183,188,193,200,114,104,104,100,103,112,117,127,137,146,159,167,185,190,201,206,
118,108,107,103,105,115,118,131,136,151,157,172,182,197,203,208,122,111,111,107,107,119,119,136,136,156,156,178,179,203,204,217,
32,31,37,42,48,49,52,54,57,63,66,67,68,69,71,72,31,31,38,42,47,47,50,52,54,60,63,64,65,66,67,68,
30,32,40,42,46,45,48,50,52,57,60,62,63,65,66,68,32,34,41,44,46,45,48,49,51,57,59,61,62,63,64,65,
33,36,43,45,47,46,47,49,51,56,59,60,60,62,63,65,37,40,47,47,47,45,47,48,50,54,57,58,60,61,62,63,
42,43,47,48,50,49,50,52,53,57,60,58,59,60,62,63,45,44,47,49,51,51,52,54,55,59,61,61,61,60,61,61,
49,46,48,50,53,53,54,55,57,60,62,63,62,63,62,62,48,46,47,50,53,56,57,59,60,64,66,65,65,64,64,65,
49,45,46,49,53,58,61,62,64,67,69,67,66,66,66,65,49,46,46,49,53,59,62,64,65,69,71,70,68,68,67,68,
50,46,46,50,54,59,64,65,67,71,73,72,72,70,70,69,52,48,47,50,54,61,66,68,71,75,77,74,73,73,71,72,
54,50,49,52,55,62,68,71,73,78,80,78,76,74,75,73,55,51,49,52,56,63,69,72,75,80,82,80,79,78,76,77,
57,52,50,53,56,64,70,73,76,82,84,82,80,80,79,77,60,54,52,55,58,65,72,75,79,85,88,86,84,82,81,81,
63,57,55,58,60,67,75,78,82,89,92,88,87,85,84,81,64,58,55,58,61,68,75,78,82,89,92,90,89,87,86,86,
64,59,56,58,61,68,75,79,83,90,93,95,93,91,89,87,67,61,58,60,63,69,76,79,85,92,95,96,94,92,91,91,
68,62,59,60,64,71,74,78,86,91,94,96,98,96,94,91,69,62,60,60,65,70,72,79,85,88,95,98,99,98,97,96,
70,63,62,60,66,69,73,81,83,89,96,97,99,101,98,97,71,64,63,61,67,68,74,79,82,90,93,98,102,102,102,101,
72,65,64,62,66,68,75,78,83,89,92,100,101,103,104,102,73,66,65,63,66,69,75,76,84,87,93,98,102,105,106,107,
74,67,67,64,66,70,74,77,84,86,94,96,103,105,106,107,75,68,68,65,66,71,74,78,83,87,93,96,103,105,109,109,
76,69,69,66,67,72,73,80,82,88,91,97,101,107,109,110,77,70,70,67,67,73,73,81,81,90,90,99,99,108,108,113,
32,31,32,32,36,44,47,53,65,73,79,87,90,93,96,99,31,32,32,33,35,42,45,51,62,69,75,83,86,88,91,94,
31,32,32,33,35,41,44,49,60,67,72,80,84,87,90,94,31,32,33,33,35,41,44,49,59,66,71,79,82,84,87,90,
32,32,34,34,36,42,45,50,59,65,71,78,80,83,87,90,32,33,35,36,38,42,45,49,58,64,69,76,80,83,86,88,
32,33,35,36,40,44,47,51,60,66,71,76,78,81,85,89,34,34,36,38,42,48,50,54,63,69,73,80,82,81,84,86,
36,34,37,40,48,54,56,60,68,74,78,84,83,86,87,87,38,36,39,41,49,56,58,63,71,77,81,86,88,88,90,93,
39,37,40,42,50,58,60,65,73,79,84,90,91,92,94,93,44,41,42,45,53,63,66,71,79,85,90,96,94,96,96,99,
47,44,45,47,56,66,69,75,84,90,95,99,101,98,101,99,49,46,47,48,57,67,71,77,86,93,97,103,103,105,102,106,
53,49,50,51,60,71,75,82,92,99,103,111,108,107,110,107,58,54,54,55,63,75,79,87,98,105,110,114,114,113,111,115,
61,56,56,57,65,77,81,89,100,107,113,118,116,117,118,116,65,60,59,60,68,79,84,92,105,112,118,126,124,122,121,124,
71,65,64,65,73,84,89,97,111,119,125,130,129,129,129,125,76,69,68,69,76,88,92,101,115,123,130,134,134,131,132,135,
79,72,70,71,79,90,95,104,118,127,133,143,142,141,138,136,82,75,73,74,81,92,97,106,121,130,136,146,145,144,144,145,
86,78,76,77,84,95,100,109,124,133,140,147,153,151,150,146,89,81,79,78,87,95,99,112,124,130,145,152,156,157,156,158,
92,84,82,80,89,95,101,116,121,132,148,151,157,163,161,159,95,86,85,83,92,95,105,114,120,136,143,155,163,167,171,170,
98,89,88,85,93,95,108,113,124,136,141,160,163,169,174,171,101,92,91,88,94,98,110,112,128,133,146,158,166,175,179,185,
104,95,94,91,95,101,110,115,129,132,151,154,171,175,181,186,107,98,97,94,96,105,110,119,128,136,149,156,173,177,188,192,
110,101,100,97,98,108,111,123,127,141,147,161,169,183,188,193,114,104,104,100,100,111,111,126,127,145,145,166,166,189,190,201,
32,31,35,38,48,49,50,52,57,61,63,67,68,69,70,71,31,31,37,40,47,47,48,50,54,57,60,63,64,65,66,67,
30,32,38,40,46,45,46,48,52,55,58,61,63,64,65,67,31,33,38,41,46,45,46,48,52,55,57,60,61,62,63,64,
33,36,41,44,47,46,46,47,51,54,56,59,60,61,63,64,37,40,45,47,47,45,46,47,50,52,54,57,59,61,62,62,
39,41,46,47,48,47,47,48,51,54,55,57,58,59,61,62,42,43,46,48,50,49,50,50,53,56,57,60,60,59,60,60,
49,46,48,49,53,53,54,54,57,59,60,63,61,62,61,61,48,46,47,48,53,55,55,56,58,61,62,64,64,63,63,64,
48,46,46,48,53,56,56,57,60,62,64,66,65,65,65,64,49,45,45,47,53,58,59,61,64,66,67,69,67,67,66,67,
50,46,46,48,54,59,61,63,66,68,70,71,71,68,69,67,51,47,47,48,54,60,61,64,68,70,71,73,72,72,70,71,
52,48,47,48,54,61,63,66,71,73,75,77,75,73,74,71,54,50,49,50,55,62,65,68,73,76,78,79,78,76,74,75,
55,51,49,50,56,63,65,69,74,77,79,81,79,78,78,75,57,52,50,51,56,64,66,70,76,79,82,85,83,81,79,79,
60,54,53,53,58,65,68,72,79,82,85,87,85,84,82,80,62,56,54,55,60,66,69,74,81,84,87,88,87,85,84,84,
63,57,55,56,60,67,70,75,82,86,89,92,91,89,87,84,64,59,56,57,61,68,71,75,83,87,90,93,92,90,89,89,
66,60,58,58,62,69,72,76,84,88,91,94,95,93,91,89,67,61,59,58,63,68,71,78,83,86,93,96,96,96,94,94,
68,62,60,59,64,67,71,79,81,86,94,95,97,98,96,94,69,63,61,60,65,66,72,77,80,88,91,96,99,99,100,98,
70,64,62,60,65,66,73,76,81,87,89,97,98,100,101,99,71,65,64,61,65,67,73,74,82,85,90,95,99,102,103,104,
72,65,65,62,65,68,72,75,82,83,92,93,100,102,103,104,73,66,66,63,65,69,72,76,81,85,90,93,100,102,105,106,
74,67,67,64,65,70,71,77,79,86,89,94,98,103,105,106,75,68,68,65,65,71,71,78,78,87,87,96,96,105,105,109,
32,31,32,32,36,39,44,53,58,65,79,81,88,90,93,96,31,32,32,32,35,38,42,51,55,62,75,77,83,86,88,91,
31,32,32,32,35,38,41,50,54,60,73,75,81,84,88,91,31,32,32,33,34,37,41,49,53,59,72,74,79,82,84,87,
32,32,33,34,36,39,42,50,53,59,71,72,78,81,84,87,32,32,34,34,37,40,42,49,53,58,70,71,77,80,83,85,
32,33,34,35,38,40,42,49,52,58,69,70,76,78,82,86,34,34,35,37,42,45,48,54,57,63,73,75,79,79,81,83,
34,34,36,37,44,47,50,56,59,65,75,77,81,83,84,84,36,34,37,38,48,51,54,60,63,68,78,80,85,85,86,89,
39,37,39,40,50,54,58,65,68,73,84,85,88,89,90,89,40,38,40,41,51,55,59,67,70,75,85,87,91,92,92,95,
44,41,42,43,53,58,63,71,74,79,90,91,97,94,97,95,47,44,45,46,56,61,66,75,79,85,95,97,99,101,98,102,
49,46,46,47,57,62,67,77,81,86,97,99,104,102,105,102,53,49,50,50,60,65,71,82,86,92,103,105,109,108,106,110,
57,53,53,53,63,68,74,86,90,97,108,110,111,112,113,110,59,54,54,54,64,69,75,87,91,98,111,112,119,117,115,118,
65,60,59,58,68,73,79,92,97,105,118,119,123,123,122,119,69,63,62,62,71,76,83,96,100,109,122,124,127,125,125,128,
71,65,64,63,73,78,84,97,102,111,125,127,135,134,131,129,79,72,71,70,79,84,90,104,109,118,133,135,137,136,136,137,
81,74,72,71,80,85,91,105,110,120,135,137,145,143,141,138,82,75,73,72,81,86,92,106,111,121,136,139,147,148,147,149,
87,79,77,76,85,90,96,110,114,125,140,143,148,154,151,149,90,82,80,78,87,89,99,108,113,129,135,146,153,157,160,159,
92,84,83,81,88,90,102,106,117,128,133,150,153,158,163,160,95,87,85,83,88,92,103,105,120,125,137,148,155,164,168,173,
98,89,88,85,89,95,103,108,121,124,141,144,160,164,169,174,100,92,91,88,90,98,103,111,120,127,139,146,161,165,175,179,
103,94,94,90,92,101,103,114,119,131,137,150,158,170,175,180,106,97,97,93,93,104,104,118,118,135,135,154,155,175,176,187,
32,31,34,37,48,48,49,52,54,57,63,64,67,68,69,69,31,31,35,38,47,47,47,50,51,54,60,61,63,64,65,66,
31,32,36,39,46,46,46,48,50,53,58,59,62,63,65,66,30,32,36,40,46,45,45,48,49,52,57,58,60,61,62,63,
33,36,40,43,47,46,46,47,49,51,56,57,59,60,62,63,35,38,42,45,47,46,45,47,48,50,55,56,58,60,61,61,
37,40,44,47,47,46,45,47,48,50,54,55,57,58,60,61,42,43,45,47,50,50,49,50,51,53,57,58,59,58,59,59,
44,44,46,47,51,51,51,52,53,54,59,59,60,61,61,60,49,46,47,48,53,53,53,54,55,57,60,61,63,62,62,63,
48,46,46,47,53,54,56,57,58,60,64,64,64,64,64,63,48,45,46,46,53,55,56,58,59,61,65,65,66,66,65,66,
49,45,45,46,53,56,58,61,62,64,67,68,70,67,68,66,50,46,46,46,54,56,59,63,65,66,70,71,70,71,68,70,
51,47,47,47,54,57,60,64,65,68,71,72,73,71,72,70,52,48,47,47,54,57,61,66,68,71,75,75,76,75,73,73,
54,49,49,48,55,58,62,68,70,73,77,78,77,77,76,74,54,50,49,49,55,59,62,68,70,74,78,79,81,79,77,78,
57,52,51,50,56,60,64,70,73,76,82,82,83,82,81,78,59,54,52,52,58,61,65,72,74,78,84,85,85,83,82,82,
60,54,53,52,58,62,65,72,75,79,85,86,89,87,85,82,63,57,56,55,60,64,67,75,77,82,89,90,90,88,87,86,
64,58,57,55,61,64,68,75,78,82,89,90,93,91,89,87,64,59,57,56,61,65,68,75,78,83,90,91,94,93,92,91,
66,60,59,57,63,66,69,77,79,84,91,93,94,95,93,91,67,61,60,58,63,65,70,75,78,85,88,93,96,97,97,95,
68,62,61,59,63,64,71,74,79,84,87,94,96,97,98,96,69,63,62,60,63,65,71,72,80,82,88,93,96,99,100,101,
70,64,63,60,63,66,70,73,80,81,89,90,97,99,100,101,71,65,64,61,63,67,70,74,78,82,88,90,97,99,102,103,
72,65,65,62,63,68,69,75,77,83,86,92,95,100,102,103,73,66,66,63,63,69,69,76,76,84,84,93,93,101,101,105,
32,31,31,32,35,36,44,47,53,62,65,79,82,88,90,93,31,32,32,32,35,35,42,45,51,59,62,75,78,83,86,88,
31,32,32,32,34,35,41,45,50,58,61,74,76,82,85,88,31,32,32,33,34,34,41,44,49,57,59,72,74,79,82,84,
31,32,33,34,35,36,42,44,49,57,59,71,73,79,81,84,32,32,33,34,36,36,42,45,50,57,59,71,73,78,80,82,
32,33,34,35,37,38,42,45,49,56,58,69,71,76,79,83,32,33,34,36,39,40,44,47,51,58,60,71,73,76,78,80,
34,34,35,37,41,42,48,50,54,61,63,73,76,81,81,80,35,34,36,38,45,47,52,55,59,65,67,77,79,82,83,86,
36,34,36,38,46,48,54,56,60,66,68,78,80,85,87,86,39,37,39,40,48,50,58,60,65,71,73,84,86,89,88,91,
41,39,40,41,49,51,60,62,67,74,76,86,88,91,93,91,44,41,42,43,51,53,63,66,71,78,79,90,92,97,94,97,
47,44,44,45,53,56,66,69,75,82,84,95,97,98,101,98,48,45,45,46,54,56,67,70,76,83,85,96,98,104,101,105,
53,49,50,50,57,60,71,75,82,90,92,103,106,107,108,105,55,51,51,51,59,61,72,77,84,92,94,106,108,111,110,112,
58,54,54,54,61,63,75,79,87,95,98,110,112,117,116,113,63,58,58,57,65,67,78,83,91,100,103,116,118,119,119,121,
65,60,59,58,66,68,79,84,92,102,105,118,120,127,124,122,71,65,64,63,71,73,84,89,97,108,111,125,127,129,129,130,
74,68,67,66,73,75,86,91,100,110,113,128,131,135,134,130,79,72,71,70,77,79,90,95,104,115,118,133,136,140,139,140,
82,75,73,72,79,81,92,97,105,117,120,136,139,145,142,140,82,75,74,72,79,81,92,97,106,117,121,136,139,148,150,149,
87,79,78,76,83,85,96,100,110,120,125,141,144,148,153,150,89,82,81,78,83,87,97,99,113,118,128,139,145,153,157,161,
92,84,83,80,84,89,97,101,114,116,132,135,150,153,157,162,94,86,85,82,85,92,97,104,112,119,130,136,151,154,163,166,
97,88,88,85,86,94,97,107,111,123,128,140,147,159,163,167,99,91,91,87,87,97,97,110,110,126,126,144,144,163,163,173,
32,31,33,37,45,48,49,50,52,56,57,63,64,67,68,68,31,31,34,38,45,47,47,48,50,53,54,60,61,63,64,65,
31,32,34,39,45,46,46,47,49,52,53,59,60,62,64,65,30,32,35,40,44,46,45,46,48,51,52,57,58,60,61,62,
33,35,37,42,46,47,45,46,47,50,51,56,57,60,61,62,33,36,38,43,46,47,46,46,47,50,51,56,57,59,60,60,
37,40,43,47,47,47,45,46,47,49,50,54,55,57,59,61,39,41,43,47,48,48,47,47,48,50,51,55,56,57,58,59,
42,43,44,47,49,50,49,50,50,53,53,57,58,60,60,59,47,46,46,48,51,52,53,53,53,55,56,60,61,61,61,62,
49,46,47,48,52,53,53,54,54,56,57,60,61,63,63,62,48,46,46,47,51,53,56,56,57,59,60,64,64,65,64,65,
48,45,46,46,51,53,57,57,59,61,61,65,66,66,67,65,49,45,45,46,51,53,58,59,61,63,64,67,68,70,67,68,
50,46,46,46,52,54,59,61,63,65,66,70,71,70,71,68,50,46,46,46,52,54,59,61,64,66,67,71,71,73,71,72,
52,48,47,47,53,54,61,63,66,70,71,75,75,75,74,72,53,49,48,48,53,55,61,64,67,71,72,76,77,77,75,76,
54,50,49,49,54,55,62,65,68,72,73,78,79,80,79,76,56,51,51,50,55,56,63,66,70,74,76,81,82,81,80,80,
57,52,51,50,55,56,64,66,70,75,76,82,83,85,83,80,60,54,54,52,57,58,65,68,72,77,79,85,86,86,85,84,
61,56,55,53,58,59,66,69,73,79,80,86,87,89,87,84,63,57,56,55,59,60,67,70,75,80,82,89,90,91,89,89,
64,58,57,56,60,61,68,71,75,81,83,90,91,93,91,89,64,59,58,56,60,61,68,71,75,81,83,90,91,94,94,93,
66,60,59,57,61,63,69,72,77,82,84,92,93,94,95,93,67,61,60,58,61,63,69,70,78,80,85,90,93,96,97,97,
68,62,61,59,61,64,68,71,77,79,86,88,94,96,97,98,69,63,62,59,61,65,68,72,76,80,85,88,94,95,99,99,
70,63,63,60,61,66,67,73,75,81,83,89,92,97,98,99,70,64,64,61,61,67,67,74,74,82,82,90,90,98,98,102,
32,31,31,32,33,36,40,44,51,53,65,66,79,81,87,90,31,32,32,32,33,35,39,42,49,51,62,63,75,77,83,85,
31,32,32,32,33,35,39,42,49,51,61,62,74,76,82,85,31,32,32,33,33,34,38,41,47,49,59,60,72,74,79,81,
31,32,32,33,34,35,38,41,47,49,59,60,71,73,79,81,32,32,33,34,35,36,39,42,48,50,59,60,71,72,78,80,
32,32,33,35,36,37,40,42,48,49,58,59,69,71,77,80,32,33,33,35,36,38,41,42,48,49,58,59,69,70,75,77,
33,33,34,36,38,41,44,46,52,53,62,63,72,74,78,78,34,34,34,37,39,42,45,48,53,54,63,64,73,75,80,83,
36,34,35,38,42,48,51,54,58,60,68,69,78,80,84,83,36,35,35,38,42,48,51,54,59,60,68,69,79,80,85,87,
39,37,38,40,44,50,54,58,63,65,73,74,84,85,89,88,40,38,39,41,45,51,56,59,65,67,75,76,85,87,90,93,
44,41,41,43,46,53,59,63,69,71,79,80,90,91,96,93,46,43,43,44,48,55,60,65,72,73,82,83,93,94,97,100,
48,45,45,46,50,56,62,67,74,76,85,86,96,98,103,100,52,48,48,49,52,59,65,70,78,80,90,91,101,103,105,107,
53,49,49,50,53,60,66,71,79,82,92,93,103,105,111,107,58,53,53,53,57,63,69,74,83,86,97,98,109,111,113,115,
58,54,54,54,57,63,70,75,84,87,98,99,110,112,118,115,65,60,59,58,62,68,74,79,89,92,105,106,118,119,122,123,
66,61,60,59,63,69,75,80,90,93,106,107,119,121,126,123,71,65,65,63,67,73,79,84,94,97,111,112,125,127,131,132,
74,68,67,66,69,75,81,86,97,100,113,115,128,130,134,132,79,72,72,70,73,79,85,90,101,104,118,119,133,135,141,140,
81,74,73,71,75,80,86,91,102,105,120,121,135,137,143,140,82,75,74,72,75,81,87,92,103,106,121,122,136,139,147,151,
86,78,78,75,78,84,90,95,106,109,124,125,140,142,147,151,88,81,80,77,80,86,90,98,105,112,122,127,140,144,152,155,
91,83,82,79,80,88,90,100,103,114,119,130,137,148,151,155,93,85,85,81,81,90,90,102,103,117,117,134,134,151,152,160,
32,31,32,37,40,48,49,49,51,52,57,58,63,64,67,67,31,31,33,38,41,47,47,47,49,50,54,55,60,61,63,64,
31,31,33,38,41,47,47,47,49,49,54,54,59,60,63,64,30,32,33,40,42,46,45,45,47,48,52,52,57,58,60,61,
31,33,35,41,43,46,46,45,47,48,51,52,57,57,60,61,33,36,37,43,44,47,46,46,47,47,51,52,56,57,59,60,
35,38,39,45,46,47,46,45,47,47,50,51,55,56,58,60,37,40,41,47,47,47,46,45,46,47,50,50,54,55,57,58,
41,42,43,47,48,49,49,48,49,50,52,53,57,57,59,58,42,43,43,47,48,50,49,49,50,50,53,54,57,58,60,61,
49,46,47,48,50,53,53,53,54,54,57,57,60,61,62,61,49,46,47,48,50,53,53,54,54,55,57,57,61,61,63,64,
48,46,46,47,49,53,54,56,57,57,60,60,64,64,65,64,48,45,46,46,49,53,55,56,58,58,61,61,65,65,66,67,
49,45,45,46,48,53,56,58,61,61,64,64,67,68,69,67,49,46,46,46,49,53,57,59,62,62,65,66,69,69,70,70,
50,46,46,46,49,54,57,59,63,64,67,67,71,71,73,71,51,47,47,47,49,54,58,61,64,66,69,70,73,74,74,74,
52,48,48,47,50,54,58,61,65,66,71,71,75,75,77,74,54,50,49,48,51,55,59,62,67,68,73,73,77,78,78,78,
54,50,50,49,51,55,59,62,67,68,73,74,78,78,81,78,57,52,52,50,52,56,60,64,69,70,76,77,82,82,83,82,
57,52,52,51,53,57,61,64,69,71,77,77,82,83,85,82,60,54,54,52,55,58,62,65,71,72,79,79,85,86,87,86,
61,56,55,53,56,59,63,66,72,73,80,81,86,87,88,86,63,57,57,55,57,60,64,67,73,75,82,82,89,90,92,90,
64,58,58,55,58,61,65,68,73,75,82,83,89,90,92,90,64,59,58,56,58,61,65,68,74,75,83,83,90,91,94,95,
66,60,59,57,59,62,66,69,75,76,84,85,91,92,94,95,67,61,60,58,59,63,66,70,74,77,82,85,91,93,96,96,
68,62,61,58,59,64,65,71,72,78,81,86,89,94,95,96,68,62,62,59,59,65,65,71,71,79,79,87,87,95,95,98,
32,31,31,32,32,36,36,44,44,53,53,65,65,79,79,87,31,32,32,32,32,35,35,42,42,51,51,62,62,75,75,82,
31,32,32,32,32,35,35,42,42,51,51,62,62,75,75,82,31,32,32,33,33,34,34,41,41,49,49,59,59,72,72,78,
31,32,32,33,33,34,34,41,41,49,49,59,59,72,72,78,32,32,32,34,34,36,36,42,42,50,50,59,59,71,71,77,
32,32,32,34,34,36,36,42,42,50,50,59,59,71,71,77,32,33,33,35,35,38,38,42,42,49,49,58,58,69,69,75,
32,33,33,35,35,38,38,42,42,49,49,58,58,69,69,75,34,34,34,37,37,42,42,48,48,54,54,63,63,73,73,79,
34,34,34,37,37,42,42,48,48,54,54,63,63,73,73,79,36,34,34,38,38,48,48,54,54,60,60,68,68,78,78,84,
36,34,34,38,38,48,48,54,54,60,60,68,68,78,78,84,39,37,37,40,40,50,50,58,58,65,65,73,73,84,84,89,
39,37,37,40,40,50,50,58,58,65,65,73,73,84,84,89,44,41,41,43,43,53,53,63,63,71,71,79,79,90,90,95,
44,41,41,43,43,53,53,63,63,71,71,79,79,90,90,95,48,45,45,46,46,56,56,67,67,76,76,85,85,96,96,102,
48,45,45,46,46,56,56,67,67,76,76,85,85,96,96,102,53,49,49,50,50,60,60,71,71,82,82,92,92,103,103,109,
53,49,49,50,50,60,60,71,71,82,82,92,92,103,103,109,58,54,54,54,54,63,63,75,75,87,87,98,98,110,110,116,
58,54,54,54,54,63,63,75,75,87,87,98,98,110,110,116,65,60,60,58,58,68,68,79,79,92,92,105,105,118,118,124,
65,60,60,58,58,68,68,79,79,92,92,105,105,118,118,124,71,65,65,63,63,73,73,84,84,97,97,111,111,125,125,132,
71,65,65,63,63,73,73,84,84,97,97,111,111,125,125,132,79,72,72,70,70,79,79,90,90,104,104,118,118,133,133,141,
79,72,72,70,70,79,79,90,90,104,104,118,118,133,133,141,82,75,75,72,72,81,81,92,92,106,106,121,121,136,136,144,
82,75,75,72,72,81,81,92,92,106,106,121,121,136,136,144,87,79,79,76,76,84,84,96,96,109,109,124,124,141,141,149,
32,31,31,37,37,48,48,49,49,52,52,57,57,63,63,66,31,31,31,38,38,47,47,47,47,50,50,54,54,60,60,63,
31,31,31,38,38,47,47,47,47,50,50,54,54,60,60,63,30,32,32,40,40,46,46,45,45,48,48,52,52,57,57,60,
30,32,32,40,40,46,46,45,45,48,48,52,52,57,57,60,33,36,36,43,43,47,47,46,46,47,47,51,51,56,56,59,
33,36,36,43,43,47,47,46,46,47,47,51,51,56,56,59,37,40,40,47,47,47,47,45,45,47,47,50,50,54,54,57,
37,40,40,47,47,47,47,45,45,47,47,50,50,54,54,57,42,43,43,47,47,50,50,49,49,50,50,53,53,57,57,60,
42,43,43,47,47,50,50,49,49,50,50,53,53,57,57,60,49,46,46,48,48,53,53,53,53,54,54,57,57,60,60,62,
49,46,46,48,48,53,53,53,53,54,54,57,57,60,60,62,48,46,46,47,47,53,53,56,56,57,57,60,60,64,64,66,
48,46,46,47,47,53,53,56,56,57,57,60,60,64,64,66,49,45,45,46,46,53,53,58,58,61,61,64,64,67,67,69,
49,45,45,46,46,53,53,58,58,61,61,64,64,67,67,69,50,46,46,46,46,54,54,59,59,64,64,67,67,71,71,73,
50,46,46,46,46,54,54,59,59,64,64,67,67,71,71,73,52,48,48,47,47,54,54,61,61,66,66,71,71,75,75,77,
52,48,48,47,47,54,54,61,61,66,66,71,71,75,75,77,54,50,50,49,49,55,55,62,62,68,68,73,73,78,78,80,
54,50,50,49,49,55,55,62,62,68,68,73,73,78,78,80,57,52,52,50,50,56,56,64,64,70,70,76,76,82,82,84,
57,52,52,50,50,56,56,64,64,70,70,76,76,82,82,84,60,54,54,52,52,58,58,65,65,72,72,79,79,85,85,88,
60,54,54,52,52,58,58,65,65,72,72,79,79,85,85,88,63,57,57,55,55,60,60,67,67,75,75,82,82,89,89,92,
63,57,57,55,55,60,60,67,67,75,75,82,82,89,89,92,64,59,59,56,56,61,61,68,68,75,75,83,83,90,90,93,
64,59,59,56,56,61,61,68,68,75,75,83,83,90,90,93,66,60,60,57,57,63,63,69,69,77,77,84,84,92,92,95,
32,31,31,32,32,34,36,38,44,44,53,53,62,65,73,79,31,32,32,32,32,34,35,37,42,43,51,51,60,62,70,75,
31,32,32,32,32,34,35,37,42,43,51,51,59,62,69,75,31,32,32,32,32,33,35,36,41,42,50,50,58,60,67,73,
31,32,32,32,33,33,34,36,41,41,49,49,57,59,66,72,31,32,32,33,33,34,35,37,41,42,49,49,57,59,66,71,
32,32,32,33,34,35,36,38,42,43,50,50,57,59,65,71,32,32,32,34,34,35,37,38,42,43,49,49,56,59,65,70,
32,32,33,34,35,37,38,39,42,43,49,49,56,58,64,69,32,33,33,34,35,37,39,40,43,44,50,50,56,58,64,69,
34,34,34,36,37,39,42,44,48,48,54,54,61,63,69,73,34,34,34,36,37,39,42,44,48,48,54,54,61,63,69,73,
35,34,34,37,38,42,47,48,52,53,59,59,65,67,73,77,36,35,34,37,38,43,48,49,54,54,60,60,66,68,74,78,
38,36,36,38,40,44,49,51,56,57,63,63,69,71,77,81,39,38,37,40,40,45,50,52,58,58,65,65,71,73,79,84,
41,39,39,41,41,46,51,54,60,60,67,67,74,76,81,86,44,41,41,42,43,48,53,56,63,64,71,71,78,79,85,90,
44,42,42,43,43,48,54,56,64,64,72,72,79,81,86,91,48,45,45,46,46,51,56,59,67,67,76,76,83,85,91,96,
48,45,45,46,46,51,56,59,67,67,76,76,83,85,91,96,53,49,49,49,49,54,59,62,71,71,81,81,89,91,98,103,
53,50,49,50,50,54,60,63,71,72,82,82,90,92,99,103,57,53,52,52,52,57,62,65,74,75,85,85,94,96,103,108,
58,54,54,54,54,58,63,67,75,76,87,87,95,98,105,110,61,57,57,56,56,60,66,69,77,78,89,89,98,101,108,114,
65,60,60,59,58,63,68,71,79,80,92,92,102,105,112,118,67,62,61,60,60,64,69,72,81,82,94,94,103,106,114,120,
71,66,65,64,63,68,73,76,84,85,97,97,108,111,119,125,72,66,66,64,64,68,73,76,85,86,98,98,108,111,119,125,
79,73,72,71,70,74,79,82,90,91,104,104,115,118,127,133,79,73,72,71,70,74,79,82,90,91,104,104,115,118,127,133,
32,31,31,35,37,42,48,48,49,49,52,52,56,57,61,63,31,31,31,36,38,42,47,47,47,47,50,50,54,54,58,60,
31,31,31,36,38,42,47,47,47,47,50,50,53,54,57,60,30,32,32,37,39,42,46,46,46,46,48,48,52,52,56,58,
30,32,32,37,40,42,46,46,45,45,48,48,51,52,55,57,32,33,34,39,41,44,46,46,45,45,48,48,51,51,54,57,
33,35,36,40,43,45,47,46,46,46,47,47,50,51,54,56,34,37,37,42,44,45,47,47,45,46,47,47,50,51,53,55,
37,40,40,45,47,47,47,47,45,46,47,47,49,50,52,54,37,40,40,45,47,47,48,47,46,46,47,47,49,50,53,55,
42,43,43,46,47,48,50,50,49,49,50,50,53,53,56,57,42,43,43,46,47,48,50,50,49,49,50,50,53,53,56,57,
47,46,46,47,48,50,52,52,53,53,53,53,55,56,58,60,49,47,46,47,48,50,53,53,53,54,54,54,56,57,59,60,
48,46,46,47,47,50,53,53,55,55,56,56,58,58,61,62,48,46,46,46,47,50,53,54,56,56,57,57,59,60,62,64,
48,46,45,46,46,49,53,54,57,57,59,59,61,61,63,65,49,45,45,45,46,49,53,55,58,59,61,61,63,64,66,67,
49,46,45,46,46,49,53,55,58,59,62,62,64,64,66,68,50,47,46,46,46,50,54,55,59,60,64,64,66,67,69,71,
50,47,46,46,46,50,54,55,59,60,64,64,66,67,69,71,52,48,48,47,47,50,54,56,61,61,66,66,69,70,72,74,
52,48,48,47,47,50,54,56,61,61,66,66,70,71,73,75,53,50,49,48,48,51,55,57,62,62,68,68,71,72,75,77,
54,50,50,49,49,52,55,57,62,63,68,68,72,73,76,78,55,51,51,50,49,52,56,58,63,63,69,69,74,75,78,80,
57,52,52,51,50,53,56,58,64,64,70,70,75,76,79,82,58,53,53,51,51,54,57,59,64,65,71,71,76,77,80,83,
60,55,54,53,52,55,58,60,65,66,72,72,77,79,82,85,60,55,55,53,53,55,59,60,65,66,73,73,78,79,83,85,
63,58,57,56,55,58,60,62,67,68,75,75,80,82,86,89,63,58,57,56,55,58,60,62,67,68,75,75,80,82,86,89,
32,31,31,31,32,32,35,36,39,44,44,51,53,58,65,65,31,32,32,32,32,32,35,35,38,42,42,49,52,56,63,63,
31,32,32,32,32,32,35,35,38,42,42,49,51,55,62,62,31,32,32,32,32,32,34,35,37,41,41,48,50,54,61,61,
31,32,32,32,33,33,34,34,37,41,41,47,49,53,59,59,31,32,32,32,33,33,34,34,37,41,41,47,49,53,59,59,
31,32,32,33,34,34,35,36,38,42,42,48,49,53,59,59,32,32,32,33,34,34,36,36,38,42,42,48,50,53,59,59,
32,32,32,33,34,34,36,37,39,42,42,48,49,53,58,58,32,32,33,34,35,35,37,38,40,42,42,48,49,52,58,58,
32,32,33,34,35,35,37,38,40,42,42,48,49,52,58,58,33,33,33,35,36,36,40,41,43,46,46,52,53,56,62,62,
34,34,34,35,37,37,41,42,44,48,48,53,54,57,63,63,34,34,34,35,37,37,43,44,46,50,50,55,56,59,65,65,
36,35,34,36,38,38,46,48,50,54,54,58,60,63,68,68,36,35,34,36,38,38,46,48,50,54,54,58,60,63,68,68,
38,37,37,38,40,40,47,50,52,57,57,62,64,67,72,72,39,38,37,39,40,40,48,50,53,58,58,63,65,68,73,73,
41,39,39,40,41,41,49,51,54,60,60,66,67,70,76,76,44,41,41,42,43,43,51,53,57,63,63,69,71,74,79,79,
44,41,41,42,43,43,51,53,57,63,63,69,71,74,79,79,47,44,44,44,45,45,53,56,59,66,66,73,75,78,84,84,
48,45,45,45,46,46,54,56,60,67,67,74,76,79,85,85,50,47,46,47,47,47,55,58,61,68,68,76,78,82,88,88,
53,50,49,50,50,50,57,60,64,71,71,79,82,86,92,92,53,50,49,50,50,50,57,60,64,71,71,79,82,86,92,92,
57,54,53,53,53,53,60,63,67,74,74,83,86,90,97,97,58,55,54,54,54,54,61,63,68,75,75,84,87,91,98,98,
61,57,56,56,56,56,63,65,69,77,77,86,89,93,100,100,65,61,60,59,58,58,66,68,72,79,79,89,92,97,105,105,
65,61,60,59,58,58,66,68,72,79,79,89,92,97,105,105,70,65,64,63,62,62,70,72,76,83,83,93,96,101,109,109,
32,31,31,33,37,37,45,48,48,49,49,51,52,54,57,57,31,31,31,34,38,38,45,47,47,47,47,50,50,52,55,55,
31,31,31,34,38,38,45,47,47,47,47,49,50,51,54,54,31,31,32,34,39,39,45,46,46,46,46,48,49,51,53,53,
30,32,32,35,40,40,44,46,45,45,45,47,48,49,52,52,30,32,32,35,40,40,44,46,45,45,45,47,48,49,52,52,
33,34,35,37,42,42,46,47,46,45,45,47,47,49,51,51,33,35,36,38,43,43,46,47,46,46,46,47,47,49,51,51,
35,37,37,40,44,44,46,47,46,45,45,47,47,48,51,51,37,39,40,43,47,47,47,47,47,45,45,46,47,48,50,50,
37,39,40,43,47,47,47,47,47,45,45,46,47,48,50,50,41,42,42,44,47,47,49,49,49,48,48,49,50,51,52,52,
42,42,43,44,47,47,49,50,50,49,49,50,50,51,53,53,44,44,44,45,47,47,50,51,51,51,51,52,52,53,54,54,
49,47,46,47,48,48,52,53,53,53,53,54,54,55,57,57,49,47,46,47,48,48,52,53,53,53,53,54,54,55,57,57,
48,46,46,46,47,47,51,53,54,55,55,56,57,58,59,59,48,46,46,46,47,47,51,53,54,56,56,57,57,58,60,60,
48,46,45,46,46,46,51,53,54,57,57,58,59,60,61,61,49,46,45,45,46,46,51,53,55,58,58,61,61,62,64,64,
49,46,45,45,46,46,51,53,55,58,58,61,61,62,64,64,50,47,46,46,46,46,52,54,56,59,59,62,63,64,66,66,
50,47,46,46,46,46,52,54,56,59,59,63,64,65,67,67,51,48,47,47,47,47,52,54,56,60,60,64,65,66,68,68,
52,48,48,47,47,47,53,54,57,61,61,65,66,68,71,71,52,48,48,47,47,47,53,54,57,61,61,65,66,68,71,71,
54,50,49,49,48,48,54,55,58,62,62,67,68,70,73,73,54,51,50,49,49,49,54,55,58,62,62,67,68,70,73,73,
55,51,51,50,49,49,54,56,58,63,63,68,69,71,74,74,57,53,52,51,50,50,55,56,59,64,64,69,70,73,76,76,
57,53,52,51,50,50,55,56,59,64,64,69,70,73,76,76,59,55,54,53,52,52,57,58,61,65,65,70,72,74,78,78,
32,31,31,31,32,32,32,35,36,38,44,44,47,53,53,59,31,32,32,32,32,32,33,35,35,37,43,43,46,52,52,57,
31,32,32,32,32,32,33,35,35,37,42,42,45,51,51,56,31,32,32,32,32,32,33,35,35,37,42,42,45,51,51,56,
31,32,32,32,32,32,33,34,35,36,41,41,44,49,49,54,31,32,32,32,32,33,33,34,34,36,41,41,44,49,49,54,
31,32,32,32,33,33,33,35,35,36,41,41,44,49,49,54,32,32,32,32,33,34,34,36,36,38,42,42,45,49,49,54,
32,32,32,33,34,34,34,36,36,38,42,42,45,50,50,54,32,32,32,33,34,34,35,37,37,38,42,42,45,49,49,54,
32,32,33,33,35,35,36,38,38,39,42,42,45,49,49,53,32,32,33,33,35,35,36,38,38,39,42,42,45,49,49,53,
32,33,33,33,35,36,36,39,40,41,44,44,47,51,51,55,34,34,34,34,36,37,38,42,42,44,48,48,50,54,54,58,
34,34,34,34,36,37,38,42,42,44,48,48,50,54,54,58,35,34,34,34,37,37,39,44,45,46,50,50,53,57,57,61,
36,35,34,35,37,38,40,47,48,49,54,54,56,60,60,64,36,35,34,35,37,38,40,47,48,49,54,54,56,60,60,64,
38,37,36,37,39,40,41,48,49,51,56,56,58,63,63,67,39,38,37,38,40,40,42,49,50,52,58,58,60,65,65,69,
39,38,37,38,40,40,42,49,50,52,58,58,60,65,65,69,42,40,40,40,42,42,44,51,52,55,61,61,64,69,69,73,
44,42,41,41,42,43,45,52,53,56,63,63,66,71,71,75,44,42,41,41,43,43,45,52,54,56,63,63,66,72,72,76,
47,45,44,44,45,45,47,54,56,58,66,66,69,75,75,79,48,46,45,45,46,46,48,55,56,59,67,67,70,76,76,80,
49,47,46,46,47,47,48,56,57,60,67,67,71,77,77,81,53,50,49,49,49,49,51,58,59,62,71,71,74,81,81,86,
53,51,49,49,50,50,51,59,60,63,71,71,75,82,82,87,55,52,51,51,51,51,53,60,61,64,72,72,76,83,83,88,
58,55,54,54,54,54,55,62,63,67,75,75,79,87,87,92,58,55,54,54,54,54,55,62,63,67,75,75,79,87,87,92,
32,31,31,31,35,37,38,47,48,48,49,49,50,52,52,54,31,31,31,32,36,38,39,46,47,47,48,48,49,50,50,53,
31,31,31,32,37,38,40,46,47,47,47,47,48,50,50,52,31,31,31,32,37,38,40,46,47,47,47,47,48,50,50,52,
30,31,32,32,38,39,40,45,46,46,45,45,46,48,48,50,30,31,32,33,38,40,41,45,46,46,45,45,46,48,48,50,
31,32,33,33,38,40,41,45,46,46,45,45,46,48,48,50,33,35,35,36,41,43,43,46,47,46,45,45,46,47,47,49,
33,35,36,36,41,43,44,46,47,46,46,46,46,47,47,49,34,36,37,37,42,44,45,47,47,47,45,45,46,47,47,49,
37,39,40,41,45,47,47,47,47,47,45,45,46,47,47,48,37,39,40,41,45,47,47,47,47,47,45,45,46,47,47,48,
39,40,41,42,46,47,47,48,48,48,47,47,47,48,48,50,42,42,43,43,46,47,48,50,50,50,49,49,50,50,50,52,
42,42,43,43,46,47,48,50,50,50,49,49,50,50,50,52,45,45,44,45,47,47,48,51,51,51,51,51,52,52,52,54,
49,47,46,47,48,48,49,52,53,53,53,53,54,54,54,55,49,47,46,47,48,48,49,52,53,53,53,53,54,54,54,55,
48,47,46,46,47,47,48,52,53,53,55,55,55,56,56,57,48,46,46,46,46,47,48,52,53,54,56,56,56,57,57,59,
48,46,46,46,46,47,48,52,53,54,56,56,56,57,57,59,49,46,45,45,46,46,47,52,53,54,57,57,58,60,60,61,
49,46,45,45,45,46,47,52,53,55,58,58,59,61,61,62,49,46,45,45,46,46,47,52,53,55,58,58,60,61,61,63,
50,47,46,46,46,46,48,53,54,55,59,59,61,63,63,65,50,48,46,46,46,46,48,53,54,55,59,59,61,64,64,65,
51,48,47,47,47,47,48,53,54,55,60,60,61,64,64,66,52,49,48,48,47,47,48,53,54,56,61,61,63,66,66,68,
52,49,48,48,47,47,48,53,54,56,61,61,63,66,66,68,53,50,48,48,48,48,49,54,54,56,61,61,63,67,67,69,
54,51,50,50,49,49,50,55,55,57,62,62,65,68,68,71,54,51,50,50,49,49,50,55,55,57,62,62,65,68,68,71,
32,31,31,31,31,32,32,32,35,36,36,40,44,44,47,53,31,31,32,32,32,32,32,33,35,35,35,39,43,43,46,52,
31,32,32,32,32,32,32,33,35,35,35,39,42,42,45,51,31,32,32,32,32,32,32,33,35,35,35,39,42,42,45,51,
31,32,32,32,32,32,32,33,34,35,35,39,41,41,45,50,31,32,32,32,32,33,33,33,34,34,34,38,41,41,44,49,
31,32,32,32,32,33,33,33,34,34,34,38,41,41,44,49,31,32,32,32,32,33,33,33,34,35,35,38,41,41,44,49,
31,32,32,32,33,34,34,34,35,36,36,39,42,42,44,49,32,32,32,32,33,34,34,34,36,36,36,39,42,42,45,50,
32,32,32,32,33,34,34,34,36,36,36,39,42,42,45,50,32,32,32,32,33,35,35,35,37,37,37,40,42,42,45,49,
32,32,33,33,34,35,35,36,37,38,38,41,42,42,45,49,32,32,33,33,34,35,35,36,37,38,38,41,42,42,45,49,
32,33,33,33,34,36,36,36,39,40,40,42,44,44,47,51,34,34,34,34,35,37,37,38,41,42,42,45,48,48,50,54,
34,34,34,34,35,37,37,38,41,42,42,45,48,48,50,54,34,34,34,34,35,37,37,38,42,43,43,46,49,49,51,55,
35,35,34,34,36,38,38,39,45,47,47,50,52,52,55,59,36,35,34,34,36,38,38,40,46,48,48,51,54,54,56,60,
36,35,34,34,36,38,38,40,46,48,48,51,54,54,56,60,38,37,36,36,37,40,40,41,47,49,49,53,56,56,58,63,
39,38,37,37,39,40,40,42,48,50,50,54,58,58,60,65,39,38,37,37,39,40,40,42,48,50,50,54,58,58,60,65,
41,40,39,39,40,41,41,43,49,51,51,56,60,60,62,67,44,42,41,41,42,43,43,45,51,53,53,59,63,63,66,71,
44,42,41,41,42,43,43,45,51,53,53,59,63,63,66,71,44,43,42,42,42,43,43,45,51,54,54,59,64,64,67,72,
47,45,44,44,44,45,45,47,53,56,56,61,66,66,69,75,48,46,45,45,45,46,46,48,54,56,56,62,67,67,70,76,
48,46,45,45,45,46,46,48,54,56,56,62,67,67,70,76,51,49,47,47,48,48,48,50,56,58,58,64,69,69,73,79,
32,31,31,31,33,37,37,38,45,48,48,49,49,49,50,52,31,31,31,31,33,38,38,39,45,47,47,48,48,48,49,51,
31,31,31,31,34,38,38,40,45,47,47,47,47,47,48,50,31,31,31,31,34,38,38,40,45,47,47,47,47,47,48,50,
31,31,32,32,34,39,39,40,45,46,46,46,46,46,47,49,30,31,32,32,35,40,40,41,44,46,46,45,45,45,46,48,
30,31,32,32,35,40,40,41,44,46,46,45,45,45,46,48,31,32,33,33,35,40,40,41,45,46,46,45,45,45,46,48,
33,34,35,35,37,42,42,43,46,47,47,46,45,45,46,47,33,35,36,36,38,43,43,44,46,47,47,46,46,46,46,47,
33,35,36,36,38,43,43,44,46,47,47,46,46,46,46,47,35,37,38,38,41,45,45,46,47,47,47,46,45,45,46,47,
37,39,40,40,43,47,47,47,47,47,47,46,45,45,46,47,37,39,40,40,43,47,47,47,47,47,47,46,45,45,46,47,
39,40,41,41,43,47,47,47,48,48,48,47,47,47,47,48,42,42,43,43,44,47,47,48,49,50,50,49,49,49,50,50,
42,42,43,43,44,47,47,48,49,50,50,49,49,49,50,50,43,43,43,43,45,47,47,48,50,50,50,50,50,50,50,51,
47,46,46,46,46,48,48,48,51,52,52,52,53,53,53,53,49,47,46,46,47,48,48,49,52,53,53,53,53,53,54,54,
49,47,46,46,47,48,48,49,52,53,53,53,53,53,54,54,48,47,46,46,46,47,47,48,52,53,53,54,55,55,55,56,
48,47,46,46,46,47,47,48,51,53,53,54,56,56,56,57,48,47,46,46,46,47,47,48,51,53,53,54,56,56,56,57,
48,47,45,45,46,46,46,47,51,53,53,55,57,57,57,59,49,46,45,45,45,46,46,47,51,53,53,56,58,58,59,61,
49,46,45,45,45,46,46,47,51,53,53,56,58,58,59,61,49,47,45,45,45,46,46,47,52,53,53,56,58,58,60,62,
50,48,46,46,46,46,46,48,52,54,54,57,59,59,61,63,50,48,46,46,46,46,46,48,52,54,54,57,59,59,61,64,
50,48,46,46,46,46,46,48,52,54,54,57,59,59,61,64,51,49,47,47,47,47,47,48,52,54,54,58,60,60,62,65,
32,31,31,31,31,32,32,32,32,34,36,36,36,39,44,44,31,31,31,31,31,32,32,32,32,34,35,35,35,39,43,43,
31,32,32,32,32,32,32,32,32,34,35,35,35,38,42,42,31,32,32,32,32,32,32,32,32,34,35,35,35,38,42,42,
31,32,32,32,32,32,32,32,32,34,35,35,35,38,42,42,31,32,32,32,32,32,32,32,32,34,35,35,35,38,41,41,
31,32,32,32,32,32,33,33,33,33,34,34,34,37,41,41,31,32,32,32,32,32,33,33,33,33,34,34,34,37,41,41,
31,32,32,32,32,32,33,33,33,33,34,34,34,37,41,41,31,32,32,32,32,33,33,33,33,34,35,35,35,38,41,41,
32,32,32,32,32,33,34,34,34,35,36,36,36,39,42,42,32,32,32,32,32,33,34,34,34,35,36,36,36,39,42,42,
32,32,32,32,32,33,34,34,34,35,36,36,36,39,42,42,32,32,32,32,32,33,34,34,34,36,37,37,37,40,42,42,
32,32,33,33,33,34,35,35,35,37,38,38,38,40,42,42,32,32,33,33,33,34,35,35,35,37,38,38,38,40,42,42,
32,32,33,33,33,34,35,35,35,37,38,38,38,40,42,42,33,33,33,33,33,34,36,36,36,38,40,40,40,42,45,45,
34,34,34,34,34,35,37,37,37,39,42,42,42,45,48,48,34,34,34,34,34,35,37,37,37,39,42,42,42,45,48,48,
34,34,34,34,34,35,37,37,37,39,42,42,42,45,48,48,35,34,34,34,34,36,37,37,37,41,45,45,45,47,50,50,
36,35,34,34,34,36,38,38,38,43,48,48,48,51,54,54,36,35,34,34,34,36,38,38,38,43,48,48,48,51,54,54,
36,35,34,34,34,36,38,38,38,43,48,48,48,51,54,54,37,37,36,36,36,38,39,39,39,44,49,49,49,52,56,56,
39,38,37,37,37,39,40,40,40,45,50,50,50,54,58,58,39,38,37,37,37,39,40,40,40,45,50,50,50,54,58,58,
39,38,37,37,37,39,40,40,40,45,50,50,50,54,58,58,41,40,39,39,39,40,42,42,42,46,52,52,52,56,60,60,
44,42,41,41,41,42,43,43,43,48,53,53,53,58,63,63,44,42,41,41,41,42,43,43,43,48,53,53,53,58,63,63,
32,31,31,31,31,33,37,37,37,42,48,48,48,48,49,49,31,31,31,31,31,34,37,37,37,42,47,47,47,48,48,48,
31,31,31,31,31,34,38,38,38,42,47,47,47,47,47,47,31,31,31,31,31,34,38,38,38,42,47,47,47,47,47,47,
31,31,31,31,31,34,38,38,38,42,47,47,47,47,47,47,31,31,32,32,32,35,39,39,39,42,46,46,46,46,46,46,
30,31,32,32,32,35,40,40,40,42,46,46,46,45,45,45,30,31,32,32,32,35,40,40,40,42,46,46,46,45,45,45,
30,31,32,32,32,35,40,40,40,42,46,46,46,45,45,45,32,33,34,34,34,37,41,41,41,44,46,46,46,46,45,45,
33,34,36,36,36,39,43,43,43,45,47,47,47,46,46,46,33,34,36,36,36,39,43,43,43,45,47,47,47,46,46,46,
33,34,36,36,36,39,43,43,43,45,47,47,47,46,46,46,35,36,38,38,38,41,45,45,45,46,47,47,47,46,45,45,
37,38,40,40,40,43,47,47,47,47,47,47,47,46,45,45,37,38,40,40,40,43,47,47,47,47,47,47,47,46,45,45,
37,38,40,40,40,43,47,47,47,47,47,47,47,46,45,45,39,40,41,41,41,44,47,47,47,48,49,49,49,48,47,47,
42,42,43,43,43,45,47,47,47,48,50,50,50,50,49,49,42,42,43,43,43,45,47,47,47,48,50,50,50,50,49,49,
42,42,43,43,43,45,47,47,47,48,50,50,50,50,49,49,45,45,44,44,44,46,47,47,47,49,51,51,51,51,51,51,
49,48,46,46,46,47,48,48,48,50,53,53,53,53,53,53,49,48,46,46,46,47,48,48,48,50,53,53,53,53,53,53,
49,48,46,46,46,47,48,48,48,50,53,53,53,53,53,53,48,47,46,46,46,47,47,47,47,50,53,53,53,54,54,54,
48,47,46,46,46,46,47,47,47,50,53,53,53,54,56,56,48,47,46,46,46,46,47,47,47,50,53,53,53,54,56,56,
48,47,46,46,46,46,47,47,47,50,53,53,53,54,56,56,48,47,45,45,45,46,46,46,46,49,53,53,53,55,57,57,
49,47,45,45,45,45,46,46,46,49,53,53,53,56,58,58,49,47,45,45,45,45,46,46,46,49,53,53,53,56,58,58,
32,31,31,31,31,31,31,32,32,32,32,33,35,36,36,36,31,31,31,31,31,31,32,32,32,32,32,33,35,35,35,35,
31,31,32,32,32,32,32,32,32,32,32,33,35,35,35,35,31,32,32,32,32,32,32,32,32,32,32,33,35,35,35,35,
31,32,32,32,32,32,32,32,32,32,32,33,35,35,35,35,31,32,32,32,32,32,32,32,32,32,32,33,35,35,35,35,
31,32,32,32,32,32,32,32,32,32,32,33,34,35,35,35,31,32,32,32,32,32,32,32,32,32,32,33,34,35,35,35,
31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,
31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,31,32,32,32,32,32,33,33,33,33,33,34,35,35,35,35,
31,32,32,32,32,32,33,33,34,34,34,34,35,36,36,36,32,32,32,32,32,32,33,34,34,34,34,35,36,36,36,36,
32,32,32,32,32,32,33,34,34,34,34,35,36,36,36,36,32,32,32,32,32,32,33,34,34,34,34,35,36,36,36,36,
32,32,32,32,32,32,33,34,34,34,34,35,36,37,37,37,32,32,32,33,33,33,33,34,35,35,35,36,37,38,38,38,
32,32,32,33,33,33,34,35,35,35,35,36,37,38,38,38,32,32,32,33,33,33,34,35,35,35,35,36,37,38,38,38,
32,32,32,33,33,33,34,35,35,35,35,36,37,38,38,38,32,33,33,33,33,33,34,35,36,36,36,37,39,40,40,40,
33,33,33,33,33,33,35,36,36,36,36,38,40,41,41,41,34,34,34,34,34,34,35,36,37,37,37,39,41,42,42,42,
34,34,34,34,34,34,35,36,37,37,37,39,41,42,42,42,34,34,34,34,34,34,35,36,37,37,37,39,41,42,42,42,
34,34,34,34,34,34,35,37,37,37,37,40,43,44,44,44,35,35,34,34,34,34,36,37,38,38,38,41,45,47,47,47,
36,35,35,34,34,34,36,37,38,38,38,42,46,48,48,48,36,35,35,34,34,34,36,37,38,38,38,42,46,48,48,48,
36,35,35,34,34,34,36,37,38,38,38,42,46,48,48,48,37,36,36,36,36,36,37,38,39,39,39,42,46,49,49,49,
32,31,31,31,31,31,33,35,37,37,37,40,45,48,48,48,31,31,31,31,31,31,33,36,37,37,37,41,45,48,48,48,
31,31,31,31,31,31,34,36,38,38,38,41,45,47,47,47,31,31,31,31,31,31,34,37,38,38,38,41,45,47,47,47,
31,31,31,31,31,31,34,37,38,38,38,41,45,47,47,47,31,31,31,31,31,31,34,37,38,38,38,41,45,47,47,47,
31,31,31,32,32,32,34,37,39,39,39,41,45,46,46,46,30,31,31,32,32,32,34,38,39,39,39,42,44,46,46,46,
30,31,32,32,32,32,35,38,40,40,40,42,44,46,46,46,30,31,32,32,32,32,35,38,40,40,40,42,44,46,46,46,
30,31,32,32,32,32,35,38,40,40,40,42,44,46,46,46,31,32,33,33,33,33,36,39,41,41,41,43,45,46,46,46,
33,34,34,35,35,35,37,40,42,42,42,44,46,47,47,47,33,34,35,36,36,36,38,41,43,43,43,44,46,47,47,47,
33,34,35,36,36,36,38,41,43,43,43,44,46,47,47,47,33,34,35,36,36,36,38,41,43,43,43,44,46,47,47,47,
35,36,37,37,37,37,40,43,44,44,44,45,46,47,47,47,36,37,38,39,39,39,42,44,46,46,46,47,47,47,47,47,
37,38,39,40,40,40,43,45,47,47,47,47,47,47,47,47,37,38,39,40,40,40,43,45,47,47,47,47,47,47,47,47,
37,38,39,40,40,40,43,45,47,47,47,47,47,47,47,47,39,39,40,41,41,41,43,46,47,47,47,48,48,48,48,48,
41,41,42,42,42,42,44,46,47,47,47,48,49,49,49,49,42,42,42,43,43,43,44,46,47,47,47,48,49,50,50,50,
42,42,42,43,43,43,44,46,47,47,47,48,49,50,50,50,42,42,42,43,43,43,44,46,47,47,47,48,49,50,50,50,
44,44,44,44,44,44,45,47,47,47,47,49,50,51,51,51,47,46,46,46,46,46,46,47,48,48,48,49,51,52,52,52,
49,48,47,46,46,46,47,48,48,48,48,50,52,53,53,53,49,48,47,46,46,46,47,48,48,48,48,50,52,53,53,53,
49,48,47,46,46,46,47,48,48,48,48,50,52,53,53,53,49,48,47,46,46,46,47,47,47,47,47,49,52,53,53,53,
32,31,31,31,31,31,31,31,31,32,32,32,32,32,32,34,31,31,31,31,31,31,31,31,32,32,32,32,32,32,33,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,33,34,31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,
31,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,31,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,31,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,
31,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,31,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,
31,32,32,32,32,32,32,32,33,33,34,34,34,34,34,35,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,35,
32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,35,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,35,
32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,35,32,32,32,32,32,32,32,33,33,34,34,34,34,34,35,35,
32,32,32,32,32,32,32,33,33,34,35,35,35,35,35,36,32,32,32,32,33,33,33,33,33,34,35,35,35,35,36,36,
32,32,32,32,33,33,33,33,34,34,35,35,35,35,36,37,32,32,32,32,33,33,33,33,34,34,35,35,35,35,36,37,
32,32,32,32,33,33,33,33,34,34,35,35,35,35,36,37,32,32,32,33,33,33,33,33,34,34,35,35,35,35,36,37,
32,33,33,33,33,33,33,33,34,35,36,36,36,36,36,38,33,33,33,33,33,33,33,34,34,35,36,36,36,36,37,38,
34,34,34,34,34,34,34,34,35,36,37,37,37,37,38,39,34,34,34,34,34,34,34,34,35,36,37,37,37,37,38,39,
32,31,31,31,31,31,31,31,33,35,37,37,37,37,38,42,31,31,31,31,31,31,31,31,33,35,37,37,37,37,39,42,
31,31,31,31,31,31,31,32,33,35,38,38,38,38,39,42,31,31,31,31,31,31,31,32,34,36,38,38,38,38,40,42,
31,31,31,31,31,31,31,32,34,36,38,38,38,38,40,42,31,31,31,31,31,31,31,32,34,36,38,38,38,38,40,42,
31,31,31,31,31,31,31,32,34,36,38,38,38,38,40,42,31,31,31,31,31,31,31,32,34,36,38,38,38,38,40,42,
31,31,31,31,32,32,32,32,34,36,39,39,39,39,40,42,30,31,31,32,32,32,32,32,34,37,39,39,39,39,40,42,
30,31,31,32,32,32,32,33,35,37,40,40,40,40,41,42,30,31,31,32,32,32,32,33,35,37,40,40,40,40,41,42,
30,31,31,32,32,32,32,33,35,37,40,40,40,40,41,42,30,31,31,32,32,32,32,33,35,37,40,40,40,40,41,42,
31,31,32,32,33,33,33,33,35,38,40,40,40,40,41,43,32,32,33,33,34,34,34,34,36,39,41,41,41,41,42,44,
33,33,34,35,35,35,35,35,37,40,42,42,42,42,43,44,33,34,35,35,36,36,36,36,38,40,43,43,43,43,44,45,
33,34,35,35,36,36,36,36,38,40,43,43,43,43,44,45,33,34,35,35,36,36,36,36,38,40,43,43,43,43,44,45,
33,34,35,35,36,36,36,36,38,40,43,43,43,43,44,45,34,35,36,37,37,37,37,37,39,42,44,44,44,44,45,45,
35,36,37,38,38,38,38,39,41,43,45,45,45,45,46,46,36,37,38,39,39,39,39,40,42,44,47,47,47,47,47,47,
37,38,39,40,40,40,40,41,43,45,47,47,47,47,47,47,37,38,39,40,40,40,40,41,43,45,47,47,47,47,47,47,
37,38,39,40,40,40,40,41,43,45,47,47,47,47,47,47,37,38,39,40,40,40,40,41,43,45,47,47,47,47,47,47,
39,39,40,41,41,41,41,42,43,45,47,47,47,47,47,48,40,41,41,42,42,42,42,42,44,45,47,47,47,47,47,48,
42,42,42,43,43,43,43,43,44,46,47,47,47,47,48,48,42,42,42,43,43,43,43,43,44,46,47,47,47,47,48,48,
32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,33,31,31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,
32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,
32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,
32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,
32,31,31,31,31,31,31,31,31,31,31,32,33,34,35,37,31,31,31,31,31,31,31,31,31,31,31,32,33,34,35,37,
31,31,31,31,31,31,31,31,31,31,31,32,33,34,36,37,31,31,31,31,31,31,31,31,31,31,31,32,33,35,36,38,
31,31,31,31,31,31,31,31,31,31,31,32,34,35,36,38,31,31,31,31,31,31,31,31,31,31,31,33,34,35,37,38,
31,31,31,31,31,31,31,31,31,31,31,33,34,35,37,38,31,31,31,31,31,31,31,31,31,31,31,33,34,35,37,38,
31,31,31,31,31,31,31,31,31,31,31,33,34,35,37,38,31,31,31,31,31,31,31,31,31,31,31,33,34,35,37,38,
31,31,31,31,31,31,31,31,31,31,31,33,34,35,37,38,31,31,31,31,31,31,31,31,31,31,31,33,34,35,37,38,
31,31,31,31,31,32,32,32,32,32,32,33,34,36,37,39,31,31,31,31,31,32,32,32,32,32,32,33,34,36,37,39,
30,31,31,31,31,32,32,32,32,32,32,33,34,36,38,39,30,31,31,31,32,32,32,32,32,32,32,33,35,36,38,40,
30,31,31,31,32,32,32,32,32,32,32,33,35,36,38,40,30,31,31,31,32,32,32,32,32,32,32,33,35,36,38,40,
30,31,31,31,32,32,32,32,32,32,32,33,35,36,38,40,30,31,31,31,32,32,32,32,32,32,32,33,35,36,38,40,
30,31,31,31,32,32,32,32,32,32,32,33,35,36,38,40,31,31,31,32,32,33,33,33,33,33,33,34,35,37,38,40,
31,32,32,33,33,33,33,33,33,33,33,35,36,37,39,41,32,32,33,33,34,34,34,34,34,34,34,35,37,38,40,41,
33,33,34,34,34,35,35,35,35,35,35,36,37,39,40,42,33,34,34,35,35,36,36,36,36,36,36,37,38,40,41,43,
33,34,34,35,35,36,36,36,36,36,36,37,38,40,41,43,33,34,34,35,35,36,36,36,36,36,36,37,38,40,41,43,
33,34,34,35,35,36,36,36,36,36,36,37,38,40,41,43,33,34,34,35,35,36,36,36,36,36,36,37,38,40,41,43,
33,34,34,35,35,36,36,36,36,36,36,37,38,40,41,43,34,34,35,35,36,36,36,36,36,36,36,38,39,40,42,44,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,30,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,
30,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,30,30,31,31,31,31,31,31,32,32,32,32,32,32,32,32,
30,30,31,31,31,31,31,31,32,32,32,32,32,32,32,32,30,30,31,31,31,31,31,31,32,32,32,32,32,32,32,32,
};
static const uint8_t T_qm13[1920]={31,32,32,34,34,41,45,54,60,72,75,83,88,94,101,108,44,41,42,48,54,63,67,75,79,90,92,100,100,101,108,115,
79,72,71,73,78,90,96,110,118,133,136,142,140,144,141,151,96,90,86,83,89,95,102,111,123,135,149,160,173,180,188,197,
31,32,36,43,46,45,46,50,52,57,59,62,63,65,67,69,49,45,46,49,53,58,59,62,64,67,68,71,69,68,70,72,
63,57,56,57,60,67,71,78,82,89,90,91,89,89,86,88,69,65,62,60,63,66,70,74,80,85,91,96,101,103,105,107,
31,32,32,33,34,37,44,49,56,65,72,78,84,89,95,101,44,41,42,44,54,58,66,71,77,84,90,95,95,95,101,108,
73,67,65,66,74,79,90,99,107,119,127,133,132,136,132,141,93,87,83,81,86,92,98,107,117,129,141,151,163,169,175,183,
31,32,36,41,46,46,46,48,51,54,57,60,62,64,65,67,49,45,46,47,53,56,59,61,63,65,67,69,67,66,68,70,
61,55,54,54,59,62,68,73,77,82,86,88,86,87,83,86,69,64,61,59,62,65,68,73,78,84,89,93,98,100,102,103,
31,32,32,33,34,37,41,46,53,60,65,74,79,84,89,94,39,38,39,40,47,54,58,62,68,73,78,85,90,90,95,101,
65,60,59,58,65,73,79,86,97,105,111,120,125,128,124,131,90,84,81,78,83,89,94,102,112,123,134,143,154,158,164,170,
31,32,36,40,44,46,45,47,49,52,54,58,60,62,64,65,48,46,46,46,51,54,56,57,58,60,62,64,66,64,66,68,
57,53,51,50,54,60,64,68,73,76,79,82,84,84,81,83,68,63,60,58,61,64,67,71,77,82,87,91,95,97,99,100,
31,32,32,33,34,34,39,44,49,54,60,68,75,79,84,88,36,35,36,38,42,48,51,56,60,63,68,75,81,85,89,94,
62,58,57,56,61,66,74,82,90,95,102,110,117,120,116,123,88,82,79,76,81,85,91,98,107,117,127,135,145,148,153,159,
31,32,35,40,43,46,45,46,48,50,52,56,58,60,62,63,48,46,47,47,50,53,53,54,54,55,56,59,61,63,64,66,
56,52,50,49,53,56,61,65,70,72,75,79,81,82,79,81,67,62,60,57,60,63,66,70,75,80,85,89,93,94,96,97,
31,32,32,32,33,34,37,41,45,49,54,61,68,74,78,83,36,35,35,37,41,48,50,53,56,60,63,69,75,80,84,88,
53,51,49,49,53,60,65,71,76,82,87,93,100,105,109,114,81,76,73,71,74,80,85,91,98,105,112,121,130,137,142,148,
31,31,33,38,42,46,46,45,46,48,50,52,56,58,60,62,48,47,46,47,49,53,53,53,54,54,55,57,59,61,62,64,
52,49,48,47,50,54,57,61,64,66,68,71,73,75,76,78,64,60,57,56,57,61,64,68,71,75,78,83,87,90,92,94,
31,32,32,32,33,34,34,37,41,45,49,54,60,65,72,75,36,35,34,36,38,42,48,50,53,56,60,63,68,73,79,81,
53,51,49,50,49,54,60,65,71,76,82,87,92,97,104,106,79,75,72,71,69,73,78,84,90,96,103,110,118,125,133,136,
31,31,32,36,40,43,46,46,45,46,48,50,52,54,57,59,48,47,46,47,47,50,53,53,53,54,54,55,56,58,60,61,
52,50,48,47,47,50,54,57,61,64,66,68,70,72,75,75,63,60,57,56,54,57,60,64,67,71,75,78,82,85,89,90,
31,32,32,32,32,34,34,36,39,42,45,50,54,60,66,73,34,34,33,35,37,39,42,44,46,48,51,54,58,63,68,74,
44,43,41,43,43,48,53,57,60,64,67,72,76,80,85,91,65,62,59,59,58,63,67,71,76,81,85,92,98,105,111,118,
31,31,32,35,40,43,46,46,46,46,47,48,50,52,55,58,42,42,42,45,47,48,50,50,49,49,50,50,52,53,55,58,
49,47,45,46,46,49,53,55,57,59,60,61,63,64,66,68,57,54,52,51,50,53,56,58,61,64,67,71,73,76,79,82,
31,32,32,32,32,32,34,35,37,39,41,45,50,54,57,61,32,32,33,34,34,35,37,38,40,41,43,46,50,53,56,58,
44,42,41,42,42,42,48,54,57,60,63,67,71,74,77,79,58,55,53,53,53,52,57,63,67,70,74,79,86,90,93,97,
31,31,32,34,37,39,42,47,46,46,46,47,48,50,51,53,37,38,40,42,44,47,47,48,47,46,46,46,47,48,49,50,
49,47,45,45,45,45,49,53,55,57,58,59,61,62,63,64,54,51,49,49,48,48,51,55,58,60,62,65,68,70,71,73,
31,32,32,32,32,32,33,34,35,37,38,42,45,47,51,55,32,32,32,33,34,35,36,37,38,40,40,43,45,47,50,54,
38,37,36,36,38,39,41,44,49,51,52,56,58,60,63,67,53,51,49,49,50,49,51,54,60,63,65,71,75,77,82,87,
31,31,31,32,35,39,40,42,47,47,46,46,47,48,49,51,37,38,39,40,43,47,47,47,48,47,47,46,46,47,47,49,
48,47,46,46,46,47,48,50,53,53,54,55,55,55,56,57,52,50,48,48,47,47,48,50,54,56,57,61,63,64,66,68,
31,32,32,32,32,32,32,33,34,35,35,38,40,42,45,46,32,32,32,33,34,34,35,36,37,38,38,40,41,43,45,46,
36,35,35,34,36,36,38,40,42,47,48,50,51,53,56,56,44,42,41,41,42,42,42,44,48,52,54,58,60,63,66,67,
31,31,31,31,34,35,39,40,42,46,47,47,47,46,48,48,37,38,39,40,42,43,47,47,47,48,48,47,46,46,46,46,
48,47,46,46,47,47,47,48,50,52,53,53,53,53,54,54,49,47,46,45,45,46,45,47,49,53,53,56,57,58,59,59,
31,32,32,32,32,32,32,32,32,34,34,35,35,38,38,42,32,32,32,32,32,33,33,34,34,35,35,36,36,39,39,42,
34,34,34,33,33,35,35,37,37,39,39,43,43,45,45,48,39,38,38,37,37,39,39,40,40,45,45,51,51,54,54,58,
31,31,31,31,31,34,34,38,38,42,42,48,48,47,47,47,33,34,34,35,35,39,39,43,43,45,45,47,47,46,46,45,
42,42,42,42,42,45,45,47,47,48,48,50,50,50,50,49,48,47,47,45,45,46,46,46,46,50,50,53,53,54,54,56,
31,31,32,32,32,32,32,32,32,32,32,33,34,34,35,35,31,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,
32,32,32,32,33,33,34,34,34,35,35,36,37,37,38,38,36,35,35,35,34,34,36,36,37,38,38,41,42,44,48,48,
31,31,31,31,31,31,34,34,36,38,38,41,42,44,48,48,31,31,31,32,32,32,35,36,37,40,40,42,43,44,46,46,
37,38,38,39,40,40,42,43,44,47,47,47,47,47,48,48,48,47,47,46,46,46,47,47,47,47,47,49,50,51,53,53,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,34,31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,
32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,36,32,32,32,32,32,33,33,33,34,34,34,35,35,35,36,37,
31,31,31,31,31,31,31,31,33,34,34,36,38,38,39,42,31,31,31,31,32,32,32,33,35,36,36,38,40,40,41,43,
35,35,36,36,36,37,37,38,40,40,40,43,45,45,45,46,37,38,38,38,39,40,40,40,42,43,43,45,47,47,47,47,
31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,
31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,
31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,34,34,35,35,35,35,36,36,36,36,36,37,39,40,40,40,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,
};
static const uint8_t T_qm14[1920]={31,44,79,96,32,41,72,90,32,42,71,86,34,48,73,83,34,54,78,89,41,63,90,95,45,67,96,102,54,75,110,111,
60,79,118,123,72,90,133,135,75,92,136,149,83,100,142,160,88,100,140,173,94,101,144,180,101,108,141,188,108,115,151,197,
31,49,63,69,32,45,57,65,36,46,56,62,43,49,57,60,46,53,60,63,45,58,67,66,46,59,71,70,50,62,78,74,
52,64,82,80,57,67,89,85,59,68,90,91,62,71,91,96,63,69,89,101,65,68,89,103,67,70,86,105,69,72,88,107,
31,44,73,93,32,41,67,87,32,42,65,83,33,44,66,81,34,54,74,86,37,58,79,92,44,66,90,98,49,71,99,107,
56,77,107,117,65,84,119,129,72,90,127,141,78,95,133,151,84,95,132,163,89,95,136,169,95,101,132,175,101,108,141,183,
31,49,61,69,32,45,55,64,36,46,54,61,41,47,54,59,46,53,59,62,46,56,62,65,46,59,68,68,48,61,73,73,
51,63,77,78,54,65,82,84,57,67,86,89,60,69,88,93,62,67,86,98,64,66,87,100,65,68,83,102,67,70,86,103,
31,39,65,90,32,38,60,84,32,39,59,81,33,40,58,78,34,47,65,83,37,54,73,89,41,58,79,94,46,62,86,102,
53,68,97,112,60,73,105,123,65,78,111,134,74,85,120,143,79,90,125,154,84,90,128,158,89,95,124,164,94,101,131,170,
31,48,57,68,32,46,53,63,36,46,51,60,40,46,50,58,44,51,54,61,46,54,60,64,45,56,64,67,47,57,68,71,
49,58,73,77,52,60,76,82,54,62,79,87,58,64,82,91,60,66,84,95,62,64,84,97,64,66,81,99,65,68,83,100,
31,36,62,88,32,35,58,82,32,36,57,79,33,38,56,76,34,42,61,81,34,48,66,85,39,51,74,91,44,56,82,98,
49,60,90,107,54,63,95,117,60,68,102,127,68,75,110,135,75,81,117,145,79,85,120,148,84,89,116,153,88,94,123,159,
31,48,56,67,32,46,52,62,35,47,50,60,40,47,49,57,43,50,53,60,46,53,56,63,45,53,61,66,46,54,65,70,
48,54,70,75,50,55,72,80,52,56,75,85,56,59,79,89,58,61,81,93,60,63,82,94,62,64,79,96,63,66,81,97,
31,36,53,81,32,35,51,76,32,35,49,73,32,37,49,71,33,41,53,74,34,48,60,80,37,50,65,85,41,53,71,91,
45,56,76,98,49,60,82,105,54,63,87,112,61,69,93,121,68,75,100,130,74,80,105,137,78,84,109,142,83,88,114,148,
31,48,52,64,31,47,49,60,33,46,48,57,38,47,47,56,42,49,50,57,46,53,54,61,46,53,57,64,45,53,61,68,
46,54,64,71,48,54,66,75,50,55,68,78,52,57,71,83,56,59,73,87,58,61,75,90,60,62,76,92,62,64,78,94,
31,36,53,79,32,35,51,75,32,34,49,72,32,36,50,71,33,38,49,69,34,42,54,73,34,48,60,78,37,50,65,84,
41,53,71,90,45,56,76,96,49,60,82,103,54,63,87,110,60,68,92,118,65,73,97,125,72,79,104,133,75,81,106,136,
31,48,52,63,31,47,50,60,32,46,48,57,36,47,47,56,40,47,47,54,43,50,50,57,46,53,54,60,46,53,57,64,
45,53,61,67,46,54,64,71,48,54,66,75,50,55,68,78,52,56,70,82,54,58,72,85,57,60,75,89,59,61,75,90,
31,34,44,65,32,34,43,62,32,33,41,59,32,35,43,59,32,37,43,58,34,39,48,63,34,42,53,67,36,44,57,71,
39,46,60,76,42,48,64,81,45,51,67,85,50,54,72,92,54,58,76,98,60,63,80,105,66,68,85,111,73,74,91,118,
31,42,49,57,31,42,47,54,32,42,45,52,35,45,46,51,40,47,46,50,43,48,49,53,46,50,53,56,46,50,55,58,
46,49,57,61,46,49,59,64,47,50,60,67,48,50,61,71,50,52,63,73,52,53,64,76,55,55,66,79,58,58,68,82,
31,32,44,58,32,32,42,55,32,33,41,53,32,34,42,53,32,34,42,53,32,35,42,52,34,37,48,57,35,38,54,63,
37,40,57,67,39,41,60,70,41,43,63,74,45,46,67,79,50,50,71,86,54,53,74,90,57,56,77,93,61,58,79,97,
31,37,49,54,31,38,47,51,32,40,45,49,34,42,45,49,37,44,45,48,39,47,45,48,42,47,49,51,47,48,53,55,
46,47,55,58,46,46,57,60,46,46,58,62,47,46,59,65,48,47,61,68,50,48,62,70,51,49,63,71,53,50,64,73,
31,32,38,53,32,32,37,51,32,32,36,49,32,33,36,49,32,34,38,50,32,35,39,49,33,36,41,51,34,37,44,54,
35,38,49,60,37,40,51,63,38,40,52,65,42,43,56,71,45,45,58,75,47,47,60,77,51,50,63,82,55,54,67,87,
31,37,48,52,31,38,47,50,31,39,46,48,32,40,46,48,35,43,46,47,39,47,47,47,40,47,48,48,42,47,50,50,
47,48,53,54,47,47,53,56,46,47,54,57,46,46,55,61,47,46,55,63,48,47,55,64,49,47,56,66,51,49,57,68,
31,32,36,44,32,32,35,42,32,32,35,41,32,33,34,41,32,34,36,42,32,34,36,42,32,35,38,42,33,36,40,44,
34,37,42,48,35,38,47,52,35,38,48,54,38,40,50,58,40,41,51,60,42,43,53,63,45,45,56,66,46,46,56,67,
31,37,48,49,31,38,47,47,31,39,46,46,31,40,46,45,34,42,47,45,35,43,47,46,39,47,47,45,40,47,48,47,
42,47,50,49,46,48,52,53,47,48,53,53,47,47,53,56,47,46,53,57,46,46,53,58,48,46,54,59,48,46,54,59,
31,32,34,39,32,32,34,38,32,32,34,38,32,32,33,37,32,32,33,37,32,33,35,39,32,33,35,39,32,34,37,40,
32,34,37,40,34,35,39,45,34,35,39,45,35,36,43,51,35,36,43,51,38,39,45,54,38,39,45,54,42,42,48,58,
31,33,42,48,31,34,42,47,31,34,42,47,31,35,42,45,31,35,42,45,34,39,45,46,34,39,45,46,38,43,47,46,
38,43,47,46,42,45,48,50,42,45,48,50,48,47,50,53,48,47,50,53,47,46,50,54,47,46,50,54,47,45,49,56,
31,31,32,36,31,32,32,35,32,32,32,35,32,32,32,35,32,32,33,34,32,32,33,34,32,32,34,36,32,32,34,36,
32,32,34,37,32,33,35,38,32,33,35,38,33,33,36,41,34,34,37,42,34,34,37,44,35,34,38,48,35,34,38,48,
31,31,37,48,31,31,38,47,31,31,38,47,31,32,39,46,31,32,40,46,31,32,40,46,34,35,42,47,34,36,43,47,
36,37,44,47,38,40,47,47,38,40,47,47,41,42,47,49,42,43,47,50,44,44,47,51,48,46,48,53,48,46,48,53,
31,31,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,32,32,32,33,32,32,32,33,32,32,33,33,
32,32,33,34,32,32,33,34,32,32,33,34,32,32,34,35,32,33,34,35,32,33,34,35,33,33,35,36,34,34,36,37,
31,31,35,37,31,31,35,38,31,31,36,38,31,31,36,38,31,32,36,39,31,32,37,40,31,32,37,40,31,33,38,40,
33,35,40,42,34,36,40,43,34,36,40,43,36,38,43,45,38,40,45,47,38,40,45,47,39,41,45,47,42,43,46,47,
31,31,31,32,31,31,31,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,
31,32,32,32,31,32,32,32,31,32,32,32,32,32,32,33,32,32,32,33,32,32,32,33,32,32,32,33,32,32,32,33,
31,31,31,34,31,31,31,34,31,31,31,35,31,31,31,35,31,31,31,35,31,31,31,35,31,32,32,36,31,32,32,36,
31,32,32,36,31,32,32,36,31,32,32,36,32,33,33,37,33,35,35,39,34,36,36,40,34,36,36,40,34,36,36,40,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,
31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,31,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,31,31,32,32,31,31,32,32,30,31,32,32,
};
static const uint8_t T_qm15[7680]={32,31,31,31,32,32,34,35,36,39,44,46,48,53,58,61,65,71,79,81,82,88,91,94,97,100,103,107,110,114,118,122,
32,32,33,33,34,35,37,37,38,40,43,44,46,50,54,56,58,63,70,71,72,77,80,83,86,89,93,96,100,104,107,111,
36,35,34,35,36,38,42,45,48,50,53,55,56,60,63,66,68,73,79,80,81,85,88,91,94,97,98,100,101,103,105,107,
53,51,49,49,50,49,54,57,60,65,71,73,76,82,87,89,92,97,104,105,106,108,106,105,107,111,114,117,117,117,118,119,
65,62,59,59,59,58,63,65,68,73,79,82,85,92,98,101,105,111,118,119,121,126,130,131,128,127,131,136,138,137,136,136,
87,82,78,78,77,75,79,82,84,89,95,98,102,109,116,120,124,132,141,142,144,149,148,153,157,152,150,155,161,159,157,156,
93,88,86,84,82,82,80,84,86,91,94,98,105,107,112,119,122,130,135,140,149,153,162,165,167,173,174,177,183,185,182,179,
99,94,93,90,89,89,88,87,90,93,97,99,105,107,115,116,124,127,135,139,146,152,159,166,171,182,186,191,193,201,203,204,
32,31,30,32,33,37,42,45,49,48,49,49,50,52,54,55,57,60,63,64,64,67,68,69,70,71,72,73,74,75,76,77,
37,38,40,41,43,47,47,47,48,47,46,46,46,47,49,49,50,52,55,55,56,58,59,60,62,63,64,65,67,68,69,70,
48,47,46,46,47,47,50,51,53,53,53,53,54,54,55,56,56,58,60,61,61,63,64,65,66,67,66,66,66,66,67,67,
52,50,48,48,47,47,50,52,54,57,61,62,64,66,68,69,70,72,75,75,75,76,74,72,73,74,75,75,74,74,73,73,
57,54,52,51,51,50,53,55,57,60,64,65,67,71,73,75,76,79,82,82,83,85,86,85,83,82,83,84,84,83,82,81,
66,63,60,59,59,57,60,61,62,66,69,71,73,77,80,82,84,88,92,92,93,95,94,95,96,93,92,93,94,93,91,90,
68,65,63,62,60,60,59,61,62,65,66,68,72,73,76,79,80,84,87,89,93,94,98,99,99,102,101,102,103,103,101,99,
71,67,66,64,63,62,62,61,62,64,66,67,70,71,75,76,79,81,84,86,89,91,94,97,98,102,104,106,106,109,109,108,
32,31,31,31,32,32,32,34,36,38,39,44,47,49,53,58,61,65,71,76,79,82,86,89,92,95,98,101,104,107,110,114,
32,32,32,33,34,35,35,36,37,39,40,42,45,47,50,54,56,59,64,68,70,73,76,79,82,85,88,91,94,97,100,104,
36,35,35,35,36,38,40,42,48,49,50,53,56,57,60,63,65,68,73,76,79,81,84,87,89,92,93,94,95,96,98,100,
47,45,44,44,45,45,47,50,56,58,60,66,69,71,75,79,81,84,89,92,95,97,100,99,101,105,108,110,110,110,111,111,
65,62,60,59,59,58,60,63,68,71,73,79,84,86,92,98,100,105,111,115,118,121,124,124,121,120,124,128,129,128,127,127,
79,75,72,71,71,69,71,73,78,81,84,90,95,97,103,110,113,118,125,130,133,136,140,145,148,143,141,146,151,149,147,145,
90,86,84,82,80,80,78,82,83,88,91,94,101,103,108,114,116,124,129,134,142,145,153,156,157,163,163,166,171,173,169,166,
96,91,90,87,87,86,85,84,87,90,94,96,101,102,110,111,118,121,129,132,138,144,150,156,161,171,174,179,181,188,188,190,
32,31,30,31,33,37,39,42,49,48,48,49,50,51,52,54,55,57,60,62,63,64,66,67,68,69,70,71,72,73,74,75,
35,37,38,38,41,45,46,46,48,47,46,45,46,47,47,49,49,50,53,54,55,56,58,59,60,61,62,64,65,66,67,68,
48,47,46,46,47,47,48,50,53,53,53,53,54,54,54,55,56,56,58,60,60,61,62,63,64,65,65,65,65,65,65,65,
50,48,46,46,46,46,47,50,54,55,56,59,61,61,63,65,65,66,68,69,70,71,72,71,71,72,73,73,72,72,71,71,
57,54,52,52,51,50,51,53,57,58,60,64,66,68,71,73,74,76,79,81,82,83,84,83,81,80,81,82,82,81,79,78,
63,60,58,57,56,54,55,57,60,62,64,67,70,71,75,78,79,82,85,87,89,90,91,93,94,91,89,90,92,90,89,87,
68,64,63,61,60,59,58,60,61,64,65,67,71,72,75,78,79,83,85,87,91,92,95,96,97,99,98,99,100,100,98,96,
70,66,65,63,63,62,61,60,61,63,65,66,69,70,74,74,78,79,82,84,87,89,91,94,96,100,101,103,103,105,105,105,
32,31,31,31,32,32,32,34,34,36,39,40,44,47,49,53,57,59,65,69,71,79,81,82,87,90,92,95,98,100,103,106,
32,32,32,32,33,34,34,35,36,37,39,40,42,45,46,50,53,54,59,62,64,71,72,73,77,80,83,85,88,91,94,97,
36,35,35,34,36,37,38,42,44,48,50,51,53,56,57,60,63,64,68,71,73,79,80,81,85,87,88,88,89,90,92,93,
44,42,41,41,42,42,42,48,50,54,58,59,63,66,67,71,74,75,79,83,84,90,91,92,96,99,102,103,103,103,103,104,
58,55,54,53,53,53,52,57,59,63,68,70,74,79,81,86,90,91,97,100,102,109,110,111,114,113,117,120,121,120,119,118,
79,75,73,72,71,70,69,73,75,78,84,85,90,95,97,103,108,111,118,122,125,133,135,136,140,135,133,137,141,139,137,135,
88,83,81,79,78,77,76,79,81,85,88,91,97,99,104,109,111,119,123,127,135,137,145,147,148,153,153,155,160,161,158,155,
93,88,88,84,84,83,82,81,84,86,90,92,97,98,105,106,113,115,122,125,131,136,141,147,151,160,163,168,169,175,175,176,
32,31,31,30,33,35,37,42,44,49,48,48,49,50,51,52,54,54,57,59,60,63,64,64,66,67,68,69,70,71,72,73,
34,35,36,36,40,42,44,45,46,47,46,46,45,46,47,47,49,49,51,52,53,56,57,57,59,60,61,62,63,64,65,66,
48,47,46,46,47,47,47,50,51,53,53,53,53,54,54,54,55,55,56,58,58,60,61,61,63,63,63,63,63,63,63,63,
49,47,46,45,46,45,45,49,51,53,56,56,58,59,60,61,62,62,64,65,65,67,68,68,69,70,71,71,70,70,69,69,
54,51,50,49,49,48,48,51,53,55,58,59,62,65,65,68,70,70,73,74,75,77,78,78,79,78,79,80,80,78,77,76,
63,60,58,57,56,55,54,57,59,60,64,65,67,70,71,75,77,78,82,84,85,89,89,90,91,88,87,88,89,88,86,84,
67,63,62,60,59,58,57,59,60,63,64,66,70,70,73,76,77,81,83,85,89,90,93,94,94,96,96,96,97,97,95,93,
69,65,65,62,62,61,60,59,61,62,64,65,68,68,72,73,76,77,81,82,85,87,89,92,93,97,98,100,100,102,102,101,
32,31,31,31,31,32,32,32,34,35,36,39,41,44,47,48,53,55,58,63,65,71,74,79,82,82,87,89,92,94,97,99,
31,32,32,32,33,33,34,34,35,36,36,39,40,42,44,45,50,51,54,58,59,64,67,71,73,74,78,81,83,85,88,91,
35,35,34,34,35,36,37,39,41,45,46,48,49,51,53,54,57,59,61,65,66,71,73,77,79,79,83,83,84,85,86,87,
44,42,41,41,42,42,42,44,48,52,54,58,60,63,66,67,71,72,75,78,79,84,86,90,92,92,96,97,97,97,97,97,
53,51,50,49,49,50,49,51,54,59,60,65,67,71,75,76,82,84,87,91,92,97,100,104,105,106,110,113,114,112,111,110,
65,62,61,59,59,59,58,60,63,67,68,73,76,79,84,85,92,94,98,103,105,111,113,118,120,121,125,128,132,130,128,126,
82,78,76,74,73,73,71,73,76,79,80,86,88,92,97,98,106,108,112,118,120,127,131,136,139,139,144,145,150,151,147,144,
90,86,85,82,81,80,79,78,81,83,87,88,93,94,101,101,108,110,116,119,124,129,134,139,142,150,153,157,157,163,163,163,
32,31,31,30,33,33,37,39,42,47,49,48,48,49,50,50,52,53,54,56,57,60,61,63,64,64,66,67,68,69,70,70,
33,34,34,35,37,38,43,43,44,46,47,46,46,45,46,46,47,48,49,51,51,54,55,56,57,58,59,60,61,62,63,64,
45,45,45,44,46,46,47,48,49,51,52,51,51,51,52,52,53,53,54,55,55,57,58,59,60,60,61,61,61,61,61,61,
49,47,46,45,45,46,45,47,49,53,53,56,57,58,59,59,61,61,62,63,64,65,66,67,68,68,69,69,68,68,67,67,
52,50,49,48,47,47,47,48,50,53,54,57,59,61,63,64,66,67,68,70,70,72,73,75,75,75,77,78,77,76,75,74,
57,54,53,52,51,51,50,51,53,56,57,60,61,64,66,67,71,72,73,76,76,79,80,82,83,83,84,85,86,85,83,82,
64,61,60,58,57,57,55,56,58,61,61,64,66,68,71,71,75,77,79,82,83,86,87,90,91,91,93,93,94,94,92,90,
68,64,64,61,61,60,59,58,60,61,63,64,67,67,71,71,74,75,79,80,83,85,87,89,91,94,95,97,97,99,98,98,
32,31,31,31,31,32,32,32,33,34,36,36,39,40,44,46,48,52,53,58,58,65,66,71,74,79,81,82,86,88,91,93,
31,32,32,32,32,33,33,33,34,34,35,35,38,39,41,43,45,48,49,53,54,59,60,65,67,72,73,74,78,80,82,85,
33,33,33,33,34,35,36,36,38,39,42,42,44,45,46,48,50,52,53,57,57,62,63,67,69,73,75,75,78,80,80,81,
40,39,39,38,38,39,40,41,44,45,51,51,54,56,59,60,62,65,66,69,70,74,75,79,81,85,86,87,90,90,90,90,
51,49,49,47,47,48,48,48,52,53,58,59,63,65,69,72,74,78,79,83,84,89,90,94,97,101,102,103,106,105,103,103,
65,62,61,59,59,59,58,58,62,63,68,68,73,75,79,82,85,90,92,97,98,105,106,111,113,118,120,121,124,122,119,117,
79,75,74,72,71,71,69,69,72,73,78,79,84,85,90,93,96,101,103,109,110,118,119,125,128,133,135,136,140,140,137,134,
87,83,82,79,79,78,77,75,78,80,84,85,89,90,96,97,103,105,111,113,118,122,126,131,134,141,143,147,147,152,151,152,
32,31,31,30,31,33,35,37,41,42,49,49,48,48,49,49,50,51,52,54,54,57,57,60,61,63,64,64,66,67,68,68,
32,33,33,33,35,37,39,41,43,43,47,47,46,46,45,46,46,47,48,49,50,52,52,54,55,57,58,58,59,60,61,62,
40,41,41,42,43,44,46,47,48,48,50,50,49,49,48,49,49,49,50,51,51,52,53,55,56,57,58,58,59,59,59,59,
49,47,47,45,46,46,46,46,49,49,53,53,54,55,56,57,57,58,58,59,59,60,61,62,63,64,65,65,66,66,65,65,
51,49,49,47,47,47,47,46,49,50,54,54,57,58,61,62,63,64,65,67,67,69,69,71,72,73,73,74,75,74,72,71,
57,54,54,52,51,51,50,50,52,53,57,57,60,61,64,65,67,69,71,73,73,76,77,79,80,82,82,83,84,82,81,79,
63,60,59,57,57,56,55,54,57,57,60,61,64,65,67,69,71,73,75,77,78,82,82,85,86,89,89,90,91,91,89,87,
67,63,63,60,60,59,58,57,59,60,62,63,65,66,69,70,73,74,77,78,81,83,85,87,88,92,92,94,94,96,95,95,
32,31,31,31,31,32,32,32,32,34,34,36,36,39,39,44,44,48,48,53,53,58,58,65,65,71,71,79,79,82,82,87,
31,32,32,32,32,32,32,33,33,34,34,34,34,37,37,41,41,45,45,49,49,54,54,60,60,65,65,72,72,75,75,79,
32,32,32,33,33,34,34,35,35,37,37,38,38,40,40,43,43,46,46,50,50,54,54,58,58,63,63,70,70,72,72,76,
36,35,35,34,34,36,36,38,38,42,42,48,48,50,50,53,53,56,56,60,60,63,63,68,68,73,73,79,79,81,81,84,
44,42,42,41,41,42,42,42,42,48,48,54,54,58,58,63,63,67,67,71,71,75,75,79,79,84,84,90,90,92,92,96,
53,51,51,49,49,50,50,49,49,54,54,60,60,65,65,71,71,76,76,82,82,87,87,92,92,97,97,104,104,106,106,109,
65,62,62,59,59,59,59,58,58,63,63,68,68,73,73,79,79,85,85,92,92,98,98,105,105,111,111,118,118,121,121,124,
79,75,75,72,72,71,71,69,69,73,73,78,78,84,84,90,90,96,96,103,103,110,110,118,118,125,125,133,133,136,136,141,
32,31,31,30,30,33,33,37,37,42,42,49,49,48,48,49,49,50,50,52,52,54,54,57,57,60,60,63,63,64,64,66,
31,31,31,32,32,36,36,40,40,43,43,46,46,46,46,45,45,46,46,48,48,50,50,52,52,54,54,57,57,59,59,60,
37,38,38,40,40,43,43,47,47,47,47,48,48,47,47,46,46,46,46,47,47,49,49,50,50,52,52,55,55,56,56,57,
48,47,47,46,46,47,47,47,47,50,50,53,53,53,53,53,53,54,54,54,54,55,55,56,56,58,58,60,60,61,61,63,
49,47,47,45,45,46,46,45,45,49,49,53,53,56,56,58,58,59,59,61,61,62,62,64,64,65,65,67,67,68,68,69,
52,50,50,48,48,47,47,47,47,50,50,54,54,57,57,61,61,64,64,66,66,68,68,70,70,72,72,75,75,75,75,77,
57,54,54,52,52,51,51,50,50,53,53,57,57,60,60,64,64,67,67,71,71,73,73,76,76,79,79,82,82,83,83,84,
63,60,60,57,57,56,56,54,54,57,57,60,60,64,64,67,67,71,71,75,75,78,78,82,82,85,85,89,89,90,90,92,
32,31,31,31,31,31,32,32,32,32,34,34,35,36,38,39,41,44,44,48,48,53,53,57,58,61,65,67,71,72,79,79,
31,32,32,32,32,32,32,32,33,33,34,34,34,34,36,37,39,41,42,45,45,49,49,52,54,57,60,61,65,66,72,72,
32,32,32,32,33,33,34,34,35,35,37,37,38,38,40,40,41,43,43,46,46,49,50,52,54,56,58,60,63,64,70,70,
36,35,35,35,34,35,36,37,38,39,42,42,47,48,49,50,51,53,54,56,56,59,60,62,63,66,68,69,73,73,79,79,
44,42,42,41,41,41,42,42,42,43,48,48,52,54,56,58,60,63,64,67,67,71,71,74,75,77,79,81,84,85,90,90,
53,51,51,50,49,49,50,49,49,50,54,54,59,60,63,65,67,71,72,76,76,81,82,85,87,89,92,94,97,98,104,104,
62,60,59,58,57,57,57,56,56,56,61,61,65,66,69,71,74,78,79,83,83,89,90,94,95,98,102,103,108,108,115,115,
73,70,69,67,66,66,65,65,64,64,69,69,73,74,77,79,81,85,86,91,91,98,99,103,105,108,112,114,119,119,127,127,
32,31,31,30,30,32,33,34,37,37,42,42,47,49,48,48,48,49,49,50,50,52,52,53,54,55,57,58,60,60,63,63,
31,31,31,32,32,34,36,37,40,40,43,43,46,46,46,46,45,45,45,46,46,48,48,49,50,51,52,53,54,55,57,57,
37,38,38,39,40,41,43,44,47,47,47,47,48,48,47,47,46,46,46,46,46,47,47,48,49,49,50,51,52,53,55,55,
48,47,47,46,46,46,47,47,47,48,50,50,52,53,53,53,53,53,53,54,54,54,54,55,55,56,56,57,58,59,60,60,
49,47,47,46,45,45,46,45,45,46,49,49,53,53,55,56,57,58,58,59,59,61,61,62,62,63,64,64,65,65,67,67,
52,50,50,48,48,48,47,47,47,47,50,50,53,54,56,57,59,61,62,64,64,66,66,68,68,69,70,71,72,73,75,75,
56,54,53,52,51,51,50,50,49,49,53,53,55,56,58,59,61,63,64,66,66,69,70,71,72,74,75,76,77,78,80,80,
61,58,57,56,55,54,54,53,52,53,56,56,58,59,61,62,63,66,66,69,69,72,73,75,76,78,79,80,82,83,86,86,
32,31,31,31,31,31,31,32,32,32,32,33,34,34,36,36,38,39,41,44,44,47,48,50,53,53,57,58,61,65,65,70,
31,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,37,37,39,41,41,44,45,46,49,49,53,54,56,60,60,64,
32,32,32,32,33,33,34,34,34,35,35,36,37,37,38,38,40,40,41,43,43,45,46,47,50,50,53,54,56,58,58,62,
35,35,35,34,34,34,35,36,36,37,37,40,41,43,46,46,47,48,49,51,51,53,54,55,57,57,60,61,63,66,66,70,
39,38,38,37,37,37,38,38,39,40,40,43,44,46,50,50,52,53,54,57,57,59,60,61,64,64,67,68,69,72,72,76,
44,42,42,41,41,41,42,42,42,42,42,46,48,50,54,54,57,58,60,63,63,66,67,68,71,71,74,75,77,79,79,83,
53,52,51,50,49,49,49,50,49,49,49,53,54,56,60,60,64,65,67,71,71,75,76,78,82,82,86,87,89,92,92,96,
65,63,62,61,59,59,59,59,58,58,58,62,63,65,68,68,72,73,76,79,79,84,85,88,92,92,97,98,100,105,105,109,
32,31,31,31,30,30,33,33,35,37,37,41,42,44,49,49,48,48,48,49,49,50,50,51,52,52,54,54,55,57,57,59,
31,31,31,32,32,32,35,36,37,40,40,42,43,44,46,46,46,46,45,45,45,46,46,47,48,48,49,50,51,52,52,54,
37,38,38,39,40,40,42,43,44,47,47,47,47,47,48,48,47,47,46,46,46,46,46,47,47,47,48,49,49,50,50,52,
45,45,45,45,44,44,46,46,46,47,47,49,49,50,52,52,51,51,51,51,51,52,52,52,53,53,54,54,54,55,55,57,
48,47,47,46,45,45,46,46,46,47,47,49,50,51,53,53,54,54,54,55,55,56,56,56,57,57,58,58,58,59,59,61,
49,47,47,46,45,45,45,46,45,45,45,48,49,51,53,53,55,56,57,58,58,59,59,60,61,61,62,62,63,64,64,65,
52,50,50,49,48,48,47,47,47,47,47,50,50,52,54,54,57,57,59,61,61,63,64,65,66,66,68,68,69,70,70,72,
57,55,54,53,52,52,51,51,51,50,50,52,53,54,57,57,59,60,61,64,64,66,67,68,71,71,73,73,74,76,76,78,
32,31,31,31,31,31,31,32,32,32,32,32,32,34,34,35,36,36,38,39,39,42,44,44,47,48,49,53,53,55,58,58,
31,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,36,37,37,40,41,41,44,45,46,49,49,51,54,54,
32,32,32,32,32,32,33,33,34,34,35,35,35,36,36,37,37,37,39,40,40,42,42,43,45,46,47,49,50,51,54,54,
32,33,33,33,33,33,33,34,34,35,36,36,36,38,38,39,40,40,41,42,42,44,45,45,47,48,48,51,51,53,55,55,
36,35,35,35,35,34,35,36,36,37,38,38,40,42,42,45,48,48,49,50,50,52,53,54,56,56,57,59,60,61,63,63,
44,43,42,42,41,41,41,42,42,42,42,42,44,48,48,50,54,54,56,58,58,61,63,63,66,67,67,71,71,72,75,75,
47,46,45,45,44,44,44,45,45,45,45,45,47,50,50,53,56,56,58,60,60,64,66,66,69,70,71,74,75,76,79,79,
53,52,51,51,49,49,49,49,50,49,49,49,51,54,54,57,60,60,63,65,65,69,71,72,75,76,77,81,82,83,87,87,
32,31,31,31,30,30,31,33,33,34,37,37,39,42,42,45,49,49,48,48,48,49,49,49,50,50,51,52,52,53,54,54,
31,31,31,31,32,32,33,35,36,37,40,40,41,43,43,44,46,46,46,46,46,45,45,45,46,46,47,48,48,48,50,50,
35,36,37,37,38,38,38,41,41,42,45,45,46,46,46,47,48,48,47,46,46,46,45,46,46,46,47,47,47,48,49,49,
38,39,40,40,40,41,41,43,44,45,47,47,47,48,48,48,49,49,48,48,48,47,47,47,48,48,48,48,48,49,50,50,
48,47,47,47,46,46,46,47,47,47,47,47,48,50,50,51,53,53,53,53,53,53,53,53,54,54,54,54,54,54,55,55,
49,48,47,47,45,45,45,45,46,45,45,45,47,49,49,51,53,53,55,56,56,57,58,58,59,59,60,61,61,61,62,62,
50,49,48,48,46,46,46,46,46,46,46,46,47,50,50,52,54,54,55,56,56,58,59,60,61,61,61,63,63,63,65,65,
52,50,50,50,48,48,48,47,47,47,47,47,48,50,50,52,54,54,56,57,57,60,61,61,63,64,64,66,66,67,68,68,
32,31,31,31,31,31,31,31,31,32,32,32,32,32,32,34,34,34,35,36,36,38,39,39,41,44,44,44,47,48,48,51,
31,32,32,32,32,32,32,32,32,32,32,32,33,33,33,34,34,34,34,34,34,36,37,37,39,41,41,42,44,45,45,47,
31,32,32,32,32,32,32,32,33,33,33,33,34,34,34,35,35,35,36,36,36,37,39,39,40,42,42,42,44,45,45,48,
32,32,32,32,32,33,33,33,34,34,34,35,35,35,36,37,37,37,38,38,38,40,40,40,41,43,43,43,45,46,46,48,
35,35,35,35,34,34,34,34,35,36,36,37,37,37,39,41,41,42,45,46,46,47,48,48,49,51,51,51,53,54,54,56,
36,35,35,35,35,34,34,35,36,36,36,37,38,38,40,42,42,43,47,48,48,49,50,50,51,53,53,54,56,56,56,58,
44,43,42,42,41,41,41,41,42,42,42,42,42,42,44,48,48,49,52,54,54,56,58,58,60,63,63,64,66,67,67,69,
47,46,45,45,45,44,44,44,44,45,45,45,45,45,47,50,50,51,55,56,56,58,60,60,62,66,66,67,69,70,70,73,
32,31,31,31,31,30,30,31,33,33,33,35,37,37,39,42,42,43,47,49,49,48,48,48,48,49,49,49,50,50,50,51,
31,31,31,31,32,32,32,33,35,36,36,38,40,40,41,43,43,43,46,46,46,46,46,46,45,45,45,45,46,46,46,47,
33,33,34,34,34,35,35,35,37,38,38,41,43,43,43,44,44,45,46,47,47,46,46,46,46,45,45,45,46,46,46,47,
37,38,38,38,39,40,40,40,42,43,43,45,47,47,47,47,47,47,48,48,48,47,47,47,46,46,46,46,46,46,46,47,
45,45,45,45,45,44,44,45,46,46,46,47,47,47,48,49,49,50,51,52,52,52,51,51,51,51,51,52,52,52,52,52,
48,47,47,47,46,46,46,46,47,47,47,47,47,47,48,50,50,50,52,53,53,53,53,53,53,53,53,53,54,54,54,54,
49,48,47,47,46,45,45,45,45,46,46,45,45,45,47,49,49,50,53,53,53,55,56,56,57,58,58,58,59,59,59,60,
50,49,48,48,47,46,46,46,46,46,46,46,46,46,47,50,50,50,53,54,54,55,56,56,57,59,59,60,61,61,61,62,
32,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,34,35,36,36,36,37,39,39,39,41,44,44,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,34,34,36,37,37,37,39,41,41,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,34,34,36,37,37,37,39,41,41,
32,32,32,32,32,32,33,33,33,33,34,34,34,34,35,35,35,36,37,37,37,37,38,38,38,39,40,40,40,42,43,43,
32,32,32,32,32,32,33,33,33,33,34,34,34,34,35,35,35,36,37,37,37,37,38,38,38,39,40,40,40,42,43,43,
36,35,35,35,35,35,34,34,34,35,36,36,36,37,38,38,38,40,42,42,42,45,48,48,48,49,50,50,50,52,53,53,
36,35,35,35,35,35,34,34,34,35,36,36,36,37,38,38,38,40,42,42,42,45,48,48,48,49,50,50,50,52,53,53,
44,43,42,42,42,41,41,41,41,41,42,42,42,42,42,42,42,45,48,48,48,50,54,54,54,56,58,58,58,60,63,63,
32,31,31,31,31,31,30,30,30,32,33,33,33,35,37,37,37,39,42,42,42,45,49,49,49,48,48,48,48,48,49,49,
31,31,31,31,31,32,32,32,32,34,36,36,36,38,40,40,40,41,43,43,43,44,46,46,46,46,46,46,46,45,45,45,
31,31,31,31,31,32,32,32,32,34,36,36,36,38,40,40,40,41,43,43,43,44,46,46,46,46,46,46,46,45,45,45,
37,37,38,38,38,39,40,40,40,41,43,43,43,45,47,47,47,47,47,47,47,47,48,48,48,47,47,47,47,46,46,46,
37,37,38,38,38,39,40,40,40,41,43,43,43,45,47,47,47,47,47,47,47,47,48,48,48,47,47,47,47,46,46,46,
48,47,47,47,47,46,46,46,46,46,47,47,47,47,47,47,47,49,50,50,50,51,53,53,53,53,53,53,53,53,53,53,
48,47,47,47,47,46,46,46,46,46,47,47,47,47,47,47,47,49,50,50,50,51,53,53,53,53,53,53,53,53,53,53,
49,48,47,47,47,46,45,45,45,45,46,46,46,45,45,45,45,47,49,49,49,51,53,53,53,54,56,56,56,57,58,58,
32,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,34,34,34,34,35,36,36,36,37,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,34,34,34,35,35,35,36,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,34,34,36,
31,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,34,34,35,35,35,35,35,36,36,36,36,37,
32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,35,35,35,35,36,36,37,37,37,37,38,38,38,38,39,
32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,35,35,35,35,36,36,37,37,37,37,38,38,38,38,39,
35,35,35,35,35,35,34,34,34,34,34,35,35,36,36,36,36,37,37,37,37,39,40,41,41,41,43,45,46,46,46,46,
36,35,35,35,35,35,35,35,34,34,34,35,36,36,36,36,37,38,38,38,38,40,41,42,42,42,44,47,48,48,48,49,
32,31,31,31,31,31,31,30,30,30,30,31,33,33,33,33,35,36,37,37,37,39,41,42,42,42,44,47,49,49,49,49,
31,31,31,31,31,31,31,31,32,32,32,33,34,35,35,35,37,38,39,39,39,40,42,42,42,42,44,46,47,47,47,47,
31,31,31,31,31,31,32,32,32,32,32,33,35,36,36,36,37,39,40,40,40,41,42,43,43,43,44,46,46,46,46,46,
33,33,34,34,34,34,34,34,35,35,35,36,37,38,38,38,40,42,43,43,43,43,44,44,44,44,45,46,47,47,47,47,
37,37,38,38,38,38,39,39,40,40,40,41,42,43,43,43,44,46,47,47,47,47,47,47,47,47,47,48,48,48,48,47,
37,37,38,38,38,38,39,39,40,40,40,41,42,43,43,43,44,46,47,47,47,47,47,47,47,47,47,48,48,48,48,47,
45,45,45,45,45,45,45,44,44,44,44,45,46,46,46,46,46,47,47,47,47,48,49,49,49,49,50,51,52,52,52,52,
48,48,47,47,47,47,46,46,46,46,46,46,47,47,47,47,47,47,47,47,47,48,49,50,50,50,51,52,53,53,53,53,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,33,34,34,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,34,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,
31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,34,34,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,
32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,34,34,34,34,34,34,35,35,35,35,35,35,36,36,37,37,
32,33,33,33,33,33,33,33,33,33,33,33,33,33,33,34,34,34,34,34,34,35,35,36,36,36,36,36,36,37,38,38,
32,31,31,31,31,31,31,31,31,30,30,30,30,30,31,32,33,33,33,33,33,34,35,36,37,37,37,37,39,40,42,42,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,35,35,35,35,36,37,38,39,39,39,39,40,41,42,42,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,33,34,35,36,36,36,36,37,38,39,40,40,40,40,41,42,43,43,
31,31,31,31,31,31,31,31,32,32,32,32,32,32,33,34,35,36,36,36,36,37,38,39,40,40,40,40,41,42,43,43,
33,33,33,34,34,34,34,34,34,34,35,35,35,35,35,36,37,38,38,38,38,39,41,42,43,43,43,43,43,44,44,44,
37,37,38,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,45,47,47,47,47,47,47,47,47,47,
37,37,38,38,38,38,38,38,39,39,40,40,40,40,40,41,42,43,43,43,43,44,45,47,47,47,47,47,47,47,47,47,
38,39,39,40,40,40,40,40,40,40,41,41,41,41,41,42,43,44,44,44,44,45,46,47,47,47,47,47,47,47,48,48,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,
31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,33,33,33,33,33,33,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,33,33,33,33,34,34,34,34,34,34,34,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,30,30,31,31,32,33,33,33,33,33,33,33,34,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,33,34,34,34,34,34,34,34,35,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,33,34,34,35,35,35,35,35,35,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,33,33,34,35,36,36,36,36,36,36,36,
33,33,33,33,34,34,34,34,34,34,34,34,34,34,34,35,35,35,35,35,35,35,36,37,37,38,38,38,38,38,38,39,
35,35,36,36,36,37,37,37,37,37,37,37,37,37,38,38,38,38,38,38,38,38,39,40,40,41,41,41,41,41,41,42,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,30,30,30,30,30,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,32,32,32,32,32,
};
static const uint8_t T_qm16[7680]={32,32,36,53,65,87,93,99,31,32,35,51,62,82,88,94,31,33,34,49,59,78,86,93,31,33,35,49,59,78,84,90,
32,34,36,50,59,77,82,89,32,35,38,49,58,75,82,89,34,37,42,54,63,79,80,88,35,37,45,57,65,82,84,87,
36,38,48,60,68,84,86,90,39,40,50,65,73,89,91,93,44,43,53,71,79,95,94,97,46,44,55,73,82,98,98,99,
48,46,56,76,85,102,105,105,53,50,60,82,92,109,107,107,58,54,63,87,98,116,112,115,61,56,66,89,101,120,119,116,
65,58,68,92,105,124,122,124,71,63,73,97,111,132,130,127,79,70,79,104,118,141,135,135,81,71,80,105,119,142,140,139,
82,72,81,106,121,144,149,146,88,77,85,108,126,149,153,152,91,80,88,106,130,148,162,159,94,83,91,105,131,153,165,166,
97,86,94,107,128,157,167,171,100,89,97,111,127,152,173,182,103,93,98,114,131,150,174,186,107,96,100,117,136,155,177,191,
110,100,101,117,138,161,183,193,114,104,103,117,137,159,185,201,118,107,105,118,136,157,182,203,122,111,107,119,136,156,179,204,
32,37,48,52,57,66,68,71,31,38,47,50,54,63,65,67,30,40,46,48,52,60,63,66,32,41,46,48,51,59,62,64,
33,43,47,47,51,59,60,63,37,47,47,47,50,57,60,62,42,47,50,50,53,60,59,62,45,47,51,52,55,61,61,61,
49,48,53,54,57,62,62,62,48,47,53,57,60,66,65,64,49,46,53,61,64,69,66,66,49,46,53,62,65,71,68,67,
50,46,54,64,67,73,72,70,52,47,54,66,71,77,73,71,54,49,55,68,73,80,76,75,55,49,56,69,75,82,79,76,
57,50,56,70,76,84,80,79,60,52,58,72,79,88,84,81,63,55,60,75,82,92,87,84,64,55,61,75,82,92,89,86,
64,56,61,75,83,93,93,89,67,58,63,76,85,95,94,91,68,59,64,74,86,94,98,94,69,60,65,72,85,95,99,97,
70,62,66,73,83,96,99,98,71,63,67,74,82,93,102,102,72,64,66,75,83,92,101,104,73,65,66,75,84,93,102,106,
74,67,66,74,84,94,103,106,75,68,66,74,83,93,103,109,76,69,67,73,82,91,101,109,77,70,67,73,81,90,99,108,
32,32,36,47,65,79,90,96,31,32,35,45,62,75,86,91,31,32,35,44,60,72,84,90,31,33,35,44,59,71,82,87,
32,34,36,45,59,71,80,87,32,35,38,45,58,69,80,86,32,35,40,47,60,71,78,85,34,36,42,50,63,73,82,84,
36,37,48,56,68,78,83,87,38,39,49,58,71,81,88,90,39,40,50,60,73,84,91,94,44,42,53,66,79,90,94,96,
47,45,56,69,84,95,101,101,49,47,57,71,86,97,103,102,53,50,60,75,92,103,108,110,58,54,63,79,98,110,114,111,
61,56,65,81,100,113,116,118,65,59,68,84,105,118,124,121,71,64,73,89,111,125,129,129,76,68,76,92,115,130,134,132,
79,70,79,95,118,133,142,138,82,73,81,97,121,136,145,144,86,76,84,100,124,140,153,150,89,79,87,99,124,145,156,156,
92,82,89,101,121,148,157,161,95,85,92,105,120,143,163,171,98,88,93,108,124,141,163,174,101,91,94,110,128,146,166,179,
104,94,95,110,129,151,171,181,107,97,96,110,128,149,173,188,110,100,98,111,127,147,169,188,114,104,100,111,127,145,166,190,
32,35,48,50,57,63,68,70,31,37,47,48,54,60,64,66,30,38,46,46,52,58,63,65,31,38,46,46,52,57,61,63,
33,41,47,46,51,56,60,63,37,45,47,46,50,54,59,62,39,46,48,47,51,55,58,61,42,46,50,50,53,57,60,60,
49,48,53,54,57,60,61,61,48,47,53,55,58,62,64,63,48,46,53,56,60,64,65,65,49,45,53,59,64,67,67,66,
50,46,54,61,66,70,71,69,51,47,54,61,68,71,72,70,52,47,54,63,71,75,75,74,54,49,55,65,73,78,78,74,
55,49,56,65,74,79,79,78,57,50,56,66,76,82,83,79,60,53,58,68,79,85,85,82,62,54,60,69,81,87,87,84,
63,55,60,70,82,89,91,87,64,56,61,71,83,90,92,89,66,58,62,72,84,91,95,91,67,59,63,71,83,93,96,94,
68,60,64,71,81,94,97,96,69,61,65,72,80,91,99,100,70,62,65,73,81,89,98,101,71,64,65,73,82,90,99,103,
72,65,65,72,82,92,100,103,73,66,65,72,81,90,100,105,74,67,65,71,79,89,98,105,75,68,65,71,78,87,96,105,
32,32,36,44,58,79,88,93,31,32,35,42,55,75,83,88,31,32,35,41,54,73,81,88,31,32,34,41,53,72,79,84,
32,33,36,42,53,71,78,84,32,34,37,42,53,70,77,83,32,34,38,42,52,69,76,82,34,35,42,48,57,73,79,81,
34,36,44,50,59,75,81,84,36,37,48,54,63,78,85,86,39,39,50,58,68,84,88,90,40,40,51,59,70,85,91,92,
44,42,53,63,74,90,97,97,47,45,56,66,79,95,99,98,49,46,57,67,81,97,104,105,53,50,60,71,86,103,109,106,
57,53,63,74,90,108,111,113,59,54,64,75,91,111,119,115,65,59,68,79,97,118,123,122,69,62,71,83,100,122,127,125,
71,64,73,84,102,125,135,131,79,71,79,90,109,133,137,136,81,72,80,91,110,135,145,141,82,73,81,92,111,136,147,147,
87,77,85,96,114,140,148,151,90,80,87,99,113,135,153,160,92,83,88,102,117,133,153,163,95,85,88,103,120,137,155,168,
98,88,89,103,121,141,160,169,100,91,90,103,120,139,161,175,103,94,92,103,119,137,158,175,106,97,93,104,118,135,155,176,
32,34,48,49,54,63,67,69,31,35,47,47,51,60,63,65,31,36,46,46,50,58,62,65,30,36,46,45,49,57,60,62,
33,40,47,46,49,56,59,62,35,42,47,45,48,55,58,61,37,44,47,45,48,54,57,60,42,45,50,49,51,57,59,59,
44,46,51,51,53,59,60,61,49,47,53,53,55,60,63,62,48,46,53,56,58,64,64,64,48,46,53,56,59,65,66,65,
49,45,53,58,62,67,70,68,50,46,54,59,65,70,70,68,51,47,54,60,65,71,73,72,52,47,54,61,68,75,76,73,
54,49,55,62,70,77,77,76,54,49,55,62,70,78,81,77,57,51,56,64,73,82,83,81,59,52,58,65,74,84,85,82,
60,53,58,65,75,85,89,85,63,56,60,67,77,89,90,87,64,57,61,68,78,89,93,89,64,57,61,68,78,90,94,92,
66,59,63,69,79,91,94,93,67,60,63,70,78,88,96,97,68,61,63,71,79,87,96,98,69,62,63,71,80,88,96,100,
70,63,63,70,80,89,97,100,71,64,63,70,78,88,97,102,72,65,63,69,77,86,95,102,73,66,63,69,76,84,93,101,
32,31,35,44,53,65,82,90,31,32,35,42,51,62,78,86,31,32,34,41,50,61,76,85,31,32,34,41,49,59,74,82,
31,33,35,42,49,59,73,81,32,33,36,42,50,59,73,80,32,34,37,42,49,58,71,79,32,34,39,44,51,60,73,78,
34,35,41,48,54,63,76,81,35,36,45,52,59,67,79,83,36,36,46,54,60,68,80,87,39,39,48,58,65,73,86,88,
41,40,49,60,67,76,88,93,44,42,51,63,71,79,92,94,47,44,53,66,75,84,97,101,48,45,54,67,76,85,98,101,
53,50,57,71,82,92,106,108,55,51,59,72,84,94,108,110,58,54,61,75,87,98,112,116,63,58,65,78,91,103,118,119,
65,59,66,79,92,105,120,124,71,64,71,84,97,111,127,129,74,67,73,86,100,113,131,134,79,71,77,90,104,118,136,139,
82,73,79,92,105,120,139,142,82,74,79,92,106,121,139,150,87,78,83,96,110,125,144,153,89,81,83,97,113,128,145,157,
92,83,84,97,114,132,150,157,94,85,85,97,112,130,151,163,97,88,86,97,111,128,147,163,99,91,87,97,110,126,144,163,
32,33,45,49,52,57,64,68,31,34,45,47,50,54,61,64,31,34,45,46,49,53,60,64,30,35,44,45,48,52,58,61,
33,37,46,45,47,51,57,61,33,38,46,46,47,51,57,60,37,43,47,45,47,50,55,59,39,43,48,47,48,51,56,58,
42,44,49,49,50,53,58,60,47,46,51,53,53,56,61,61,49,47,52,53,54,57,61,63,48,46,51,56,57,60,64,64,
48,46,51,57,59,61,66,67,49,45,51,58,61,64,68,67,50,46,52,59,63,66,71,71,50,46,52,59,64,67,71,71,
52,47,53,61,66,71,75,74,53,48,53,61,67,72,77,75,54,49,54,62,68,73,79,79,56,51,55,63,70,76,82,80,
57,51,55,64,70,76,83,83,60,54,57,65,72,79,86,85,61,55,58,66,73,80,87,87,63,56,59,67,75,82,90,89,
64,57,60,68,75,83,91,91,64,58,60,68,75,83,91,94,66,59,61,69,77,84,93,95,67,60,61,69,78,85,93,97,
68,61,61,68,77,86,94,97,69,62,61,68,76,85,94,99,70,63,61,67,75,83,92,98,70,64,61,67,74,82,90,98,
32,31,33,40,51,65,79,87,31,32,33,39,49,62,75,83,31,32,33,39,49,61,74,82,31,32,33,38,47,59,72,79,
31,32,34,38,47,59,71,79,32,33,35,39,48,59,71,78,32,33,36,40,48,58,69,77,32,33,36,41,48,58,69,75,
33,34,38,44,52,62,72,78,34,34,39,45,53,63,73,80,36,35,42,51,58,68,78,84,36,35,42,51,59,68,79,85,
39,38,44,54,63,73,84,89,40,39,45,56,65,75,85,90,44,41,46,59,69,79,90,96,46,43,48,60,72,82,93,97,
48,45,50,62,74,85,96,103,52,48,52,65,78,90,101,105,53,49,53,66,79,92,103,111,58,53,57,69,83,97,109,113,
58,54,57,70,84,98,110,118,65,59,62,74,89,105,118,122,66,60,63,75,90,106,119,126,71,65,67,79,94,111,125,131,
74,67,69,81,97,113,128,134,79,72,73,85,101,118,133,141,81,73,75,86,102,120,135,143,82,74,75,87,103,121,136,147,
86,78,78,90,106,124,140,147,88,80,80,90,105,122,140,152,91,82,80,90,103,119,137,151,93,85,81,90,103,117,134,152,
32,32,40,49,51,57,63,67,31,33,41,47,49,54,60,63,31,33,41,47,49,54,59,63,30,33,42,45,47,52,57,60,
31,35,43,46,47,51,57,60,33,37,44,46,47,51,56,59,35,39,46,46,47,50,55,58,37,41,47,46,46,50,54,57,
41,43,48,49,49,52,57,59,42,43,48,49,50,53,57,60,49,47,50,53,54,57,60,62,49,47,50,53,54,57,61,63,
48,46,49,54,57,60,64,65,48,46,49,55,58,61,65,66,49,45,48,56,61,64,67,69,49,46,49,57,62,65,69,70,
50,46,49,57,63,67,71,73,51,47,49,58,64,69,73,74,52,48,50,58,65,71,75,77,54,49,51,59,67,73,77,78,
54,50,51,59,67,73,78,81,57,52,52,60,69,76,82,83,57,52,53,61,69,77,82,85,60,54,55,62,71,79,85,87,
61,55,56,63,72,80,86,88,63,57,57,64,73,82,89,92,64,58,58,65,73,82,89,92,64,58,58,65,74,83,90,94,
66,59,59,66,75,84,91,94,67,60,59,66,74,82,91,96,68,61,59,65,72,81,89,95,68,62,59,65,71,79,87,95,
32,31,32,36,44,53,65,79,31,32,32,35,42,51,62,75,31,32,32,35,42,51,62,75,31,32,33,34,41,49,59,72,
31,32,33,34,41,49,59,72,32,32,34,36,42,50,59,71,32,32,34,36,42,50,59,71,32,33,35,38,42,49,58,69,
32,33,35,38,42,49,58,69,34,34,37,42,48,54,63,73,34,34,37,42,48,54,63,73,36,34,38,48,54,60,68,78,
36,34,38,48,54,60,68,78,39,37,40,50,58,65,73,84,39,37,40,50,58,65,73,84,44,41,43,53,63,71,79,90,
44,41,43,53,63,71,79,90,48,45,46,56,67,76,85,96,48,45,46,56,67,76,85,96,53,49,50,60,71,82,92,103,
53,49,50,60,71,82,92,103,58,54,54,63,75,87,98,110,58,54,54,63,75,87,98,110,65,60,58,68,79,92,105,118,
65,60,58,68,79,92,105,118,71,65,63,73,84,97,111,125,71,65,63,73,84,97,111,125,79,72,70,79,90,104,118,133,
79,72,70,79,90,104,118,133,82,75,72,81,92,106,121,136,82,75,72,81,92,106,121,136,87,79,76,84,96,109,124,141,
32,31,37,48,49,52,57,63,31,31,38,47,47,50,54,60,31,31,38,47,47,50,54,60,30,32,40,46,45,48,52,57,
30,32,40,46,45,48,52,57,33,36,43,47,46,47,51,56,33,36,43,47,46,47,51,56,37,40,47,47,45,47,50,54,
37,40,47,47,45,47,50,54,42,43,47,50,49,50,53,57,42,43,47,50,49,50,53,57,49,46,48,53,53,54,57,60,
49,46,48,53,53,54,57,60,48,46,47,53,56,57,60,64,48,46,47,53,56,57,60,64,49,45,46,53,58,61,64,67,
49,45,46,53,58,61,64,67,50,46,46,54,59,64,67,71,50,46,46,54,59,64,67,71,52,48,47,54,61,66,71,75,
52,48,47,54,61,66,71,75,54,50,49,55,62,68,73,78,54,50,49,55,62,68,73,78,57,52,50,56,64,70,76,82,
57,52,50,56,64,70,76,82,60,54,52,58,65,72,79,85,60,54,52,58,65,72,79,85,63,57,55,60,67,75,82,89,
63,57,55,60,67,75,82,89,64,59,56,61,68,75,83,90,64,59,56,61,68,75,83,90,66,60,57,63,69,77,84,92,
32,31,32,36,44,53,62,73,31,32,32,35,42,51,60,70,31,32,32,35,42,51,59,69,31,32,32,35,41,50,58,67,
31,32,33,34,41,49,57,66,31,32,33,35,41,49,57,66,32,32,34,36,42,50,57,65,32,32,34,37,42,49,56,65,
32,33,35,38,42,49,56,64,32,33,35,39,43,50,56,64,34,34,37,42,48,54,61,69,34,34,37,42,48,54,61,69,
35,34,38,47,52,59,65,73,36,34,38,48,54,60,66,74,38,36,40,49,56,63,69,77,39,37,40,50,58,65,71,79,
41,39,41,51,60,67,74,81,44,41,43,53,63,71,78,85,44,42,43,54,64,72,79,86,48,45,46,56,67,76,83,91,
48,45,46,56,67,76,83,91,53,49,49,59,71,81,89,98,53,49,50,60,71,82,90,99,57,52,52,62,74,85,94,103,
58,54,54,63,75,87,95,105,61,57,56,66,77,89,98,108,65,60,58,68,79,92,102,112,67,61,60,69,81,94,103,114,
71,65,63,73,84,97,108,119,72,66,64,73,85,98,108,119,79,72,70,79,90,104,115,127,79,72,70,79,90,104,115,127,
32,31,37,48,49,52,56,61,31,31,38,47,47,50,54,58,31,31,38,47,47,50,53,57,30,32,39,46,46,48,52,56,
30,32,40,46,45,48,51,55,32,34,41,46,45,48,51,54,33,36,43,47,46,47,50,54,34,37,44,47,45,47,50,53,
37,40,47,47,45,47,49,52,37,40,47,48,46,47,49,53,42,43,47,50,49,50,53,56,42,43,47,50,49,50,53,56,
47,46,48,52,53,53,55,58,49,46,48,53,53,54,56,59,48,46,47,53,55,56,58,61,48,46,47,53,56,57,59,62,
48,45,46,53,57,59,61,63,49,45,46,53,58,61,63,66,49,45,46,53,58,62,64,66,50,46,46,54,59,64,66,69,
50,46,46,54,59,64,66,69,52,48,47,54,61,66,69,72,52,48,47,54,61,66,70,73,53,49,48,55,62,68,71,75,
54,50,49,55,62,68,72,76,55,51,49,56,63,69,74,78,57,52,50,56,64,70,75,79,58,53,51,57,64,71,76,80,
60,54,52,58,65,72,77,82,60,55,53,59,65,73,78,83,63,57,55,60,67,75,80,86,63,57,55,60,67,75,80,86,
32,31,32,35,39,44,53,65,31,32,32,35,38,42,52,63,31,32,32,35,38,42,51,62,31,32,32,34,37,41,50,61,
31,32,33,34,37,41,49,59,31,32,33,34,37,41,49,59,31,32,34,35,38,42,49,59,32,32,34,36,38,42,50,59,
32,32,34,36,39,42,49,58,32,33,35,37,40,42,49,58,32,33,35,37,40,42,49,58,33,33,36,40,43,46,53,62,
34,34,37,41,44,48,54,63,34,34,37,43,46,50,56,65,36,34,38,46,50,54,60,68,36,34,38,46,50,54,60,68,
38,37,40,47,52,57,64,72,39,37,40,48,53,58,65,73,41,39,41,49,54,60,67,76,44,41,43,51,57,63,71,79,
44,41,43,51,57,63,71,79,47,44,45,53,59,66,75,84,48,45,46,54,60,67,76,85,50,46,47,55,61,68,78,88,
53,49,50,57,64,71,82,92,53,49,50,57,64,71,82,92,57,53,53,60,67,74,86,97,58,54,54,61,68,75,87,98,
61,56,56,63,69,77,89,100,65,60,58,66,72,79,92,105,65,60,58,66,72,79,92,105,70,64,62,70,76,83,96,109,
32,31,37,45,48,49,52,57,31,31,38,45,47,47,50,55,31,31,38,45,47,47,50,54,31,32,39,45,46,46,49,53,
30,32,40,44,45,45,48,52,30,32,40,44,45,45,48,52,33,35,42,46,46,45,47,51,33,36,43,46,46,46,47,51,
35,37,44,46,46,45,47,51,37,40,47,47,47,45,47,50,37,40,47,47,47,45,47,50,41,42,47,49,49,48,50,52,
42,43,47,49,50,49,50,53,44,44,47,50,51,51,52,54,49,46,48,52,53,53,54,57,49,46,48,52,53,53,54,57,
48,46,47,51,54,55,57,59,48,46,47,51,54,56,57,60,48,45,46,51,54,57,59,61,49,45,46,51,55,58,61,64,
49,45,46,51,55,58,61,64,50,46,46,52,56,59,63,66,50,46,46,52,56,59,64,67,51,47,47,52,56,60,65,68,
52,48,47,53,57,61,66,71,52,48,47,53,57,61,66,71,54,49,48,54,58,62,68,73,54,50,49,54,58,62,68,73,
55,51,49,54,58,63,69,74,57,52,50,55,59,64,70,76,57,52,50,55,59,64,70,76,59,54,52,57,61,65,72,78,
32,31,32,32,36,44,47,53,31,32,32,33,35,43,46,52,31,32,32,33,35,42,45,51,31,32,32,33,35,42,45,51,
31,32,32,33,35,41,44,49,31,32,32,33,34,41,44,49,31,32,33,33,35,41,44,49,32,32,33,34,36,42,45,49,
32,32,34,34,36,42,45,50,32,32,34,35,37,42,45,49,32,33,35,36,38,42,45,49,32,33,35,36,38,42,45,49,
32,33,35,36,40,44,47,51,34,34,36,38,42,48,50,54,34,34,36,38,42,48,50,54,35,34,37,39,45,50,53,57,
36,34,37,40,48,54,56,60,36,34,37,40,48,54,56,60,38,36,39,41,49,56,58,63,39,37,40,42,50,58,60,65,
39,37,40,42,50,58,60,65,42,40,42,44,52,61,64,69,44,41,42,45,53,63,66,71,44,41,43,45,54,63,66,72,
47,44,45,47,56,66,69,75,48,45,46,48,56,67,70,76,49,46,47,48,57,67,71,77,53,49,49,51,59,71,74,81,
53,49,50,51,60,71,75,82,55,51,51,53,61,72,76,83,58,54,54,55,63,75,79,87,58,54,54,55,63,75,79,87,
32,31,35,38,48,49,50,52,31,31,36,39,47,48,49,50,31,31,37,40,47,47,48,50,31,31,37,40,47,47,48,50,
30,32,38,40,46,45,46,48,30,32,38,41,46,45,46,48,31,33,38,41,46,45,46,48,33,35,41,43,47,45,46,47,
33,36,41,44,47,46,46,47,34,37,42,45,47,45,46,47,37,40,45,47,47,45,46,47,37,40,45,47,47,45,46,47,
39,41,46,47,48,47,47,48,42,43,46,48,50,49,50,50,42,43,46,48,50,49,50,50,45,44,47,48,51,51,52,52,
49,46,48,49,53,53,54,54,49,46,48,49,53,53,54,54,48,46,47,48,53,55,55,56,48,46,46,48,53,56,56,57,
48,46,46,48,53,56,56,57,49,45,46,47,53,57,58,60,49,45,45,47,53,58,59,61,49,45,46,47,53,58,60,61,
50,46,46,48,54,59,61,63,50,46,46,48,54,59,61,64,51,47,47,48,54,60,61,64,52,48,47,48,54,61,63,66,
52,48,47,48,54,61,63,66,53,48,48,49,54,61,63,67,54,50,49,50,55,62,65,68,54,50,49,50,55,62,65,68,
32,31,31,32,35,36,44,47,31,32,32,32,35,35,43,46,31,32,32,32,35,35,42,45,31,32,32,32,35,35,42,45,
31,32,32,32,34,35,41,45,31,32,32,33,34,34,41,44,31,32,32,33,34,34,41,44,31,32,32,33,34,35,41,44,
31,32,33,34,35,36,42,44,32,32,33,34,36,36,42,45,32,32,33,34,36,36,42,45,32,32,33,35,37,37,42,45,
32,33,34,35,37,38,42,45,32,33,34,35,37,38,42,45,32,33,34,36,39,40,44,47,34,34,35,37,41,42,48,50,
34,34,35,37,41,42,48,50,34,34,35,37,42,43,49,51,35,34,36,38,45,47,52,55,36,34,36,38,46,48,54,56,
36,34,36,38,46,48,54,56,38,36,37,40,47,49,56,58,39,37,39,40,48,50,58,60,39,37,39,40,48,50,58,60,
41,39,40,41,49,51,60,62,44,41,42,43,51,53,63,66,44,41,42,43,51,53,63,66,44,42,42,43,51,54,64,67,
47,44,44,45,53,56,66,69,48,45,45,46,54,56,67,70,48,45,45,46,54,56,67,70,51,47,48,48,56,58,69,73,
32,31,33,37,45,48,49,50,31,31,33,38,45,47,48,49,31,31,34,38,45,47,47,48,31,31,34,38,45,47,47,48,
31,32,34,39,45,46,46,47,30,32,35,40,44,46,45,46,30,32,35,40,44,46,45,46,31,33,35,40,45,46,45,46,
33,35,37,42,46,47,45,46,33,36,38,43,46,47,46,46,33,36,38,43,46,47,46,46,35,38,41,45,47,47,45,46,
37,40,43,47,47,47,45,46,37,40,43,47,47,47,45,46,39,41,43,47,48,48,47,47,42,43,44,47,49,50,49,50,
42,43,44,47,49,50,49,50,43,43,45,47,50,50,50,50,47,46,46,48,51,52,53,53,49,46,47,48,52,53,53,54,
49,46,47,48,52,53,53,54,48,46,46,47,52,53,55,55,48,46,46,47,51,53,56,56,48,46,46,47,51,53,56,56,
48,45,46,46,51,53,57,57,49,45,45,46,51,53,58,59,49,45,45,46,51,53,58,59,49,45,45,46,52,53,58,60,
50,46,46,46,52,54,59,61,50,46,46,46,52,54,59,61,50,46,46,46,52,54,59,61,51,47,47,47,52,54,60,62,
32,31,31,32,32,36,36,44,31,31,31,32,32,35,35,43,31,32,32,32,32,35,35,42,31,32,32,32,32,35,35,42,
31,32,32,32,32,35,35,42,31,32,32,32,32,35,35,41,31,32,32,33,33,34,34,41,31,32,32,33,33,34,34,41,
31,32,32,33,33,34,34,41,31,32,32,33,33,35,35,41,32,32,32,34,34,36,36,42,32,32,32,34,34,36,36,42,
32,32,32,34,34,36,36,42,32,32,32,34,34,37,37,42,32,33,33,35,35,38,38,42,32,33,33,35,35,38,38,42,
32,33,33,35,35,38,38,42,33,33,33,36,36,40,40,45,34,34,34,37,37,42,42,48,34,34,34,37,37,42,42,48,
34,34,34,37,37,42,42,48,35,34,34,37,37,45,45,50,36,34,34,38,38,48,48,54,36,34,34,38,38,48,48,54,
36,34,34,38,38,48,48,54,37,36,36,39,39,49,49,56,39,37,37,40,40,50,50,58,39,37,37,40,40,50,50,58,
39,37,37,40,40,50,50,58,41,39,39,42,42,52,52,60,44,41,41,43,43,53,53,63,44,41,41,43,43,53,53,63,
32,31,31,37,37,48,48,49,31,31,31,37,37,47,47,48,31,31,31,38,38,47,47,47,31,31,31,38,38,47,47,47,
31,31,31,38,38,47,47,47,31,32,32,39,39,46,46,46,30,32,32,40,40,46,46,45,30,32,32,40,40,46,46,45,
30,32,32,40,40,46,46,45,32,34,34,41,41,46,46,45,33,36,36,43,43,47,47,46,33,36,36,43,43,47,47,46,
33,36,36,43,43,47,47,46,35,38,38,45,45,47,47,45,37,40,40,47,47,47,47,45,37,40,40,47,47,47,47,45,
37,40,40,47,47,47,47,45,39,41,41,47,47,49,49,47,42,43,43,47,47,50,50,49,42,43,43,47,47,50,50,49,
42,43,43,47,47,50,50,49,45,44,44,47,47,51,51,51,49,46,46,48,48,53,53,53,49,46,46,48,48,53,53,53,
49,46,46,48,48,53,53,53,48,46,46,47,47,53,53,54,48,46,46,47,47,53,53,56,48,46,46,47,47,53,53,56,
48,46,46,47,47,53,53,56,48,45,45,46,46,53,53,57,49,45,45,46,46,53,53,58,49,45,45,46,46,53,53,58,
32,31,31,31,32,32,35,36,31,31,31,32,32,32,35,35,31,32,32,32,32,32,35,35,31,32,32,32,32,32,35,35,
31,32,32,32,32,32,35,35,31,32,32,32,32,32,35,35,31,32,32,32,32,32,34,35,31,32,32,32,32,32,34,35,
31,32,32,32,33,33,34,34,31,32,32,32,33,33,34,34,31,32,32,32,33,33,34,34,31,32,32,33,33,33,35,35,
31,32,32,33,34,34,35,36,32,32,32,33,34,34,36,36,32,32,32,33,34,34,36,36,32,32,32,33,34,34,36,36,
32,32,32,33,34,34,36,37,32,32,33,33,35,35,37,38,32,32,33,34,35,35,37,38,32,32,33,34,35,35,37,38,
32,32,33,34,35,35,37,38,32,33,33,34,36,36,39,40,33,33,33,35,36,36,40,41,34,34,34,35,37,37,41,42,
34,34,34,35,37,37,41,42,34,34,34,35,37,37,41,42,34,34,34,35,37,37,43,44,35,34,34,36,38,38,45,47,
36,35,34,36,38,38,46,48,36,35,34,36,38,38,46,48,36,35,34,36,38,38,46,48,37,36,36,37,39,39,46,49,
32,31,31,33,37,37,45,48,31,31,31,33,37,37,45,48,31,31,31,34,38,38,45,47,31,31,31,34,38,38,45,47,
31,31,31,34,38,38,45,47,31,31,31,34,38,38,45,47,31,31,32,34,39,39,45,46,30,31,32,34,39,39,44,46,
30,32,32,35,40,40,44,46,30,32,32,35,40,40,44,46,30,32,32,35,40,40,44,46,31,33,33,36,41,41,45,46,
33,34,35,37,42,42,46,47,33,35,36,38,43,43,46,47,33,35,36,38,43,43,46,47,33,35,36,38,43,43,46,47,
35,37,37,40,44,44,46,47,36,38,39,42,46,46,47,47,37,39,40,43,47,47,47,47,37,39,40,43,47,47,47,47,
37,39,40,43,47,47,47,47,39,40,41,43,47,47,48,48,41,42,42,44,47,47,49,49,42,42,43,44,47,47,49,50,
42,42,43,44,47,47,49,50,42,42,43,44,47,47,49,50,44,44,44,45,47,47,50,51,47,46,46,46,48,48,51,52,
49,47,46,47,48,48,52,53,49,47,46,47,48,48,52,53,49,47,46,47,48,48,52,53,49,47,46,47,47,47,52,53,
32,31,31,31,31,32,32,32,31,31,31,31,32,32,32,33,31,31,32,32,32,32,32,33,31,32,32,32,32,32,32,33,
31,32,32,32,32,32,32,33,31,32,32,32,32,32,32,33,31,32,32,32,32,32,32,33,31,32,32,32,32,32,32,33,
31,32,32,32,32,32,32,33,31,32,32,32,32,32,32,33,31,32,32,32,32,33,33,33,31,32,32,32,32,33,33,33,
31,32,32,32,32,33,33,33,31,32,32,32,32,33,33,33,31,32,32,32,32,33,33,33,31,32,32,32,33,33,33,34,
31,32,32,32,33,34,34,34,32,32,32,32,33,34,34,34,32,32,32,32,33,34,34,34,32,32,32,32,33,34,34,34,
32,32,32,32,33,34,34,34,32,32,32,32,33,34,34,35,32,32,32,32,33,35,35,35,32,32,33,33,33,35,35,36,
32,32,33,33,34,35,35,36,32,32,33,33,34,35,35,36,32,32,33,33,34,35,35,36,32,32,33,33,34,35,35,36,
32,33,33,33,34,36,36,36,33,33,33,33,34,36,36,37,34,34,34,34,35,37,37,38,34,34,34,34,35,37,37,38,
32,31,31,31,33,37,37,38,31,31,31,31,33,37,37,39,31,31,31,31,33,38,38,39,31,31,31,31,34,38,38,40,
31,31,31,31,34,38,38,40,31,31,31,31,34,38,38,40,31,31,31,31,34,38,38,40,31,31,31,31,34,38,38,40,
31,31,32,32,34,39,39,40,30,31,32,32,34,39,39,40,30,31,32,32,35,40,40,41,30,31,32,32,35,40,40,41,
30,31,32,32,35,40,40,41,30,31,32,32,35,40,40,41,31,32,33,33,35,40,40,41,32,33,34,34,36,41,41,42,
33,34,35,35,37,42,42,43,33,35,36,36,38,43,43,44,33,35,36,36,38,43,43,44,33,35,36,36,38,43,43,44,
33,35,36,36,38,43,43,44,34,36,37,37,39,44,44,45,35,37,38,38,41,45,45,46,36,38,39,39,42,47,47,47,
37,39,40,40,43,47,47,47,37,39,40,40,43,47,47,47,37,39,40,40,43,47,47,47,37,39,40,40,43,47,47,47,
39,40,41,41,43,47,47,47,40,41,42,42,44,47,47,47,42,42,43,43,44,47,47,48,42,42,43,43,44,47,47,48,
32,31,31,31,31,31,31,32,31,31,31,31,31,31,32,32,31,31,31,31,31,31,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,32,
31,32,32,32,32,32,32,32,31,32,32,32,32,32,32,33,31,32,32,32,32,32,33,33,31,32,32,32,32,32,33,33,
31,32,32,32,32,32,33,33,32,32,32,32,32,32,33,34,32,32,32,32,32,32,33,34,32,32,32,32,32,32,33,34,
32,32,32,32,32,32,33,34,32,32,32,32,32,32,33,34,32,32,32,32,32,32,33,34,32,32,32,32,32,32,33,34,
32,31,31,31,31,31,33,35,31,31,31,31,31,31,33,35,31,31,31,31,31,31,33,36,31,31,31,31,31,31,33,36,
31,31,31,31,31,31,34,36,31,31,31,31,31,31,34,37,31,31,31,31,31,31,34,37,31,31,31,31,31,31,34,37,
31,31,31,31,31,31,34,37,31,31,31,31,31,31,34,37,31,31,31,31,31,31,34,37,31,31,31,31,31,31,34,37,
31,31,31,32,32,32,34,37,31,31,31,32,32,32,34,37,30,31,31,32,32,32,34,38,30,31,32,32,32,32,35,38,
30,31,32,32,32,32,35,38,30,31,32,32,32,32,35,38,30,31,32,32,32,32,35,38,30,31,32,32,32,32,35,38,
30,31,32,32,32,32,35,38,31,31,32,33,33,33,35,38,31,32,33,33,33,33,36,39,32,33,34,34,34,34,37,40,
33,34,34,35,35,35,37,40,33,34,35,36,36,36,38,41,33,34,35,36,36,36,38,41,33,34,35,36,36,36,38,41,
33,34,35,36,36,36,38,41,33,34,35,36,36,36,38,41,33,34,35,36,36,36,38,41,34,35,36,36,36,36,39,42,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,32,31,31,31,32,32,32,32,32,
31,31,31,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,31,31,32,32,32,32,32,32,
32,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,
31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,32,32,32,
31,31,31,31,31,32,32,32,31,31,31,31,31,32,32,32,31,31,31,31,31,32,32,32,30,31,31,31,31,32,32,32,
30,31,31,31,31,32,32,32,30,31,31,31,32,32,32,32,30,31,31,31,32,32,32,32,30,31,31,31,32,32,32,32,
};
static const uint16_t T_scan0[16]={0,4,1,2,5,8,12,9,6,3,7,10,13,14,11,15,};
static const uint16_t T_scan1[64]={0,8,1,2,9,16,24,17,10,3,4,11,18,25,32,40,33,26,19,12,5,6,13,20,
27,34,41,48,56,49,42,35,28,21,14,7,15,22,29,36,43,50,57,58,51,44,37,30,
23,31,38,45,52,59,60,53,46,39,47,54,61,62,55,63,};
static const uint16_t T_scan2[256]={0,16,1,2,17,32,48,33,18,3,4,19,34,49,64,80,65,50,35,20,5,6,21,36,
51,66,81,96,112,97,82,67,52,37,22,7,8,23,38,53,68,83,98,113,128,144,129,114,
99,84,69,54,39,24,9,10,25,40,55,70,85,100,115,130,145,160,176,161,146,131,116,101,
86,71,56,41,26,11,12,27,42,57,72,87,102,117,132,147,162,177,192,208,193,178,163,148,
133,118,103,88,73,58,43,28,13,14,29,44,59,74,89,104,119,134,149,164,179,194,209,224,
240,225,210,195,180,165,150,135,120,105,90,75,60,45,30,15,31,46,61,76,91,106,121,136,
151,166,181,196,211,226,241,242,227,212,197,182,167,152,137,122,107,92,77,62,47,63,78,93,
108,123,138,153,168,183,198,213,228,243,244,229,214,199,184,169,154,139,124,109,94,79,95,110,
125,140,155,170,185,200,215,230,245,246,231,216,201,186,171,156,141,126,111,127,142,157,172,187,
202,217,232,247,248,233,218,203,188,173,158,143,159,174,189,204,219,234,249,250,235,220,205,190,
175,191,206,221,236,251,252,237,222,207,223,238,253,254,239,255,};
static const uint16_t T_scan3[1024]={0,32,1,2,33,64,96,65,34,3,4,35,66,97,128,160,129,98,67,36,5,6,37,68,
99,130,161,192,224,193,162,131,100,69,38,7,8,39,70,101,132,163,194,225,256,288,257,226,
195,164,133,102,71,40,9,10,41,72,103,134,165,196,227,258,289,320,352,321,290,259,228,197,
166,135,104,73,42,11,12,43,74,105,136,167,198,229,260,291,322,353,384,416,385,354,323,292,
261,230,199,168,137,106,75,44,13,14,45,76,107,138,169,200,231,262,293,324,355,386,417,448,
480,449,418,387,356,325,294,263,232,201,170,139,108,77,46,15,16,47,78,109,140,171,202,233,
264,295,326,357,388,419,450,481,512,544,513,482,451,420,389,358,327,296,265,234,203,172,141,110,
79,48,17,18,49,80,111,142,173,204,235,266,297,328,359,390,421,452,483,514,545,576,608,577,
546,515,484,453,422,391,360,329,298,267,236,205,174,143,112,81,50,19,20,51,82,113,144,175,
206,237,268,299,330,361,392,423,454,485,516,547,578,609,640,672,641,610,579,548,517,486,455,424,
393,362,331,300,269,238,207,176,145,114,83,52,21,22,53,84,115,146,177,208,239,270,301,332,
363,394,425,456,487,518,549,580,611,642,673,704,736,705,674,643,612,581,550,519,488,457,426,395,
364,333,302,271,240,209,178,147,116,85,54,23,24,55,86,117,148,179,210,241,272,303,334,365,
396,427,458,489,520,551,582,613,644,675,706,737,768,800,769,738,707,676,645,614,583,552,521,490,
459,428,397,366,335,304,273,242,211,180,149,118,87,56,25,26,57,88,119,150,181,212,243,274,
305,336,367,398,429,460,491,522,553,584,615,646,677,708,739,770,801,832,864,833,802,771,740,709,
678,647,616,585,554,523,492,461,430,399,368,337,306,275,244,213,182,151,120,89,58,27,28,59,
90,121,152,183,214,245,276,307,338,369,400,431,462,493,524,555,586,617,648,679,710,741,772,803,
834,865,896,928,897,866,835,804,773,742,711,680,649,618,587,556,525,494,463,432,401,370,339,308,
277,246,215,184,153,122,91,60,29,30,61,92,123,154,185,216,247,278,309,340,371,402,433,464,
495,526,557,588,619,650,681,712,743,774,805,836,867,898,929,960,992,961,930,899,868,837,806,775,
744,713,682,651,620,589,558,527,496,465,434,403,372,341,310,279,248,217,186,155,124,93,62,31,
63,94,125,156,187,218,249,280,311,342,373,404,435,466,497,528,559,590,621,652,683,714,745,776,
807,838,869,900,931,962,993,994,963,932,901,870,839,808,777,746,715,684,653,622,591,560,529,498,
467,436,405,374,343,312,281,250,219,188,157,126,95,127,158,189,220,251,282,313,344,375,406,437,
468,499,530,561,592,623,654,685,716,747,778,809,840,871,902,933,964,995,996,965,934,903,872,841,
810,779,748,717,686,655,624,593,562,531,500,469,438,407,376,345,314,283,252,221,190,159,191,222,
253,284,315,346,377,408,439,470,501,532,563,594,625,656,687,718,749,780,811,842,873,904,935,966,
997,998,967,936,905,874,843,812,781,750,719,688,657,626,595,564,533,502,471,440,409,378,347,316,
285,254,223,255,286,317,348,379,410,441,472,503,534,565,596,627,658,689,720,751,782,813,844,875,
906,937,968,999,1000,969,938,907,876,845,814,783,752,721,690,659,628,597,566,535,504,473,442,411,
380,349,318,287,319,350,381,412,443,474,505,536,567,598,629,660,691,722,753,784,815,846,877,908,
939,970,1001,1002,971,940,909,878,847,816,785,754,723,692,661,630,599,568,537,506,475,444,413,382,
351,383,414,445,476,507,538,569,600,631,662,693,724,755,786,817,848,879,910,941,972,1003,1004,973,
942,911,880,849,818,787,756,725,694,663,632,601,570,539,508,477,446,415,447,478,509,540,571,602,
633,664,695,726,757,788,819,850,881,912,943,974,1005,1006,975,944,913,882,851,820,789,758,727,696,
665,634,603,572,541,510,479,511,542,573,604,635,666,697,728,759,790,821,852,883,914,945,976,1007,
1008,977,946,915,884,853,822,791,760,729,698,667,636,605,574,543,575,606,637,668,699,730,761,792,
823,854,885,916,947,978,1009,1010,979,948,917,886,855,824,793,762,731,700,669,638,607,639,670,701,
732,763,794,825,856,887,918,949,980,1011,1012,981,950,919,888,857,826,795,764,733,702,671,703,734,
765,796,827,858,889,920,951,982,1013,1014,983,952,921,890,859,828,797,766,735,767,798,829,860,891,
922,953,984,1015,1016,985,954,923,892,861,830,799,831,862,893,924,955,986,1017,1018,987,956,925,894,
863,895,926,957,988,1019,1020,989,958,927,959,990,1021,1022,991,1023,};
static const uint16_t T_scan5[32]={0,8,1,16,9,2,24,17,10,3,25,18,11,4,26,19,12,5,27,20,13,6,28,21,
14,7,29,22,15,30,23,31,};
static const uint16_t T_scan6[32]={0,1,4,2,5,8,3,6,9,12,7,10,13,16,11,14,17,20,15,18,21,24,19,22,
25,28,23,26,29,27,30,31,};
static const uint16_t T_scan7[128]={0,16,1,32,17,2,48,33,18,3,64,49,34,19,4,80,65,50,35,20,5,96,81,66,
51,36,21,6,112,97,82,67,52,37,22,7,113,98,83,68,53,38,23,8,114,99,84,69,
54,39,24,9,115,100,85,70,55,40,25,10,116,101,86,71,56,41,26,11,117,102,87,72,
57,42,27,12,118,103,88,73,58,43,28,13,119,104,89,74,59,44,29,14,120,105,90,75,
60,45,30,15,121,106,91,76,61,46,31,122,107,92,77,62,47,123,108,93,78,63,124,109,
94,79,125,110,95,126,111,127,};
static const uint16_t T_scan8[128]={0,1,8,2,9,16,3,10,17,24,4,11,18,25,32,5,12,19,26,33,40,6,13,20,
27,34,41,48,7,14,21,28,35,42,49,56,15,22,29,36,43,50,57,64,23,30,37,44,
51,58,65,72,31,38,45,52,59,66,73,80,39,46,53,60,67,74,81,88,47,54,61,68,
75,82,89,96,55,62,69,76,83,90,97,104,63,70,77,84,91,98,105,112,71,78,85,92,
99,106,113,120,79,86,93,100,107,114,121,87,94,101,108,115,122,95,102,109,116,123,103,110,
117,124,111,118,125,119,126,127,};
static const uint16_t T_scan9[512]={0,32,1,64,33,2,96,65,34,3,128,97,66,35,4,160,129,98,67,36,5,192,161,130,
99,68,37,6,224,193,162,131,100,69,38,7,256,225,194,163,132,101,70,39,8,288,257,226,
195,164,133,102,71,40,9,320,289,258,227,196,165,134,103,72,41,10,352,321,290,259,228,197,
166,135,104,73,42,11,384,353,322,291,260,229,198,167,136,105,74,43,12,416,385,354,323,292,
261,230,199,168,137,106,75,44,13,448,417,386,355,324,293,262,231,200,169,138,107,76,45,14,
480,449,418,387,356,325,294,263,232,201,170,139,108,77,46,15,481,450,419,388,357,326,295,264,
233,202,171,140,109,78,47,16,482,451,420,389,358,327,296,265,234,203,172,141,110,79,48,17,
483,452,421,390,359,328,297,266,235,204,173,142,111,80,49,18,484,453,422,391,360,329,298,267,
236,205,174,143,112,81,50,19,485,454,423,392,361,330,299,268,237,206,175,144,113,82,51,20,
486,455,424,393,362,331,300,269,238,207,176,145,114,83,52,21,487,456,425,394,363,332,301,270,
239,208,177,146,115,84,53,22,488,457,426,395,364,333,302,271,240,209,178,147,116,85,54,23,
489,458,427,396,365,334,303,272,241,210,179,148,117,86,55,24,490,459,428,397,366,335,304,273,
242,211,180,149,118,87,56,25,491,460,429,398,367,336,305,274,243,212,181,150,119,88,57,26,
492,461,430,399,368,337,306,275,244,213,182,151,120,89,58,27,493,462,431,400,369,338,307,276,
245,214,183,152,121,90,59,28,494,463,432,401,370,339,308,277,246,215,184,153,122,91,60,29,
495,464,433,402,371,340,309,278,247,216,185,154,123,92,61,30,496,465,434,403,372,341,310,279,
248,217,186,155,124,93,62,31,497,466,435,404,373,342,311,280,249,218,187,156,125,94,63,498,
467,436,405,374,343,312,281,250,219,188,157,126,95,499,468,437,406,375,344,313,282,251,220,189,
158,127,500,469,438,407,376,345,314,283,252,221,190,159,501,470,439,408,377,346,315,284,253,222,
191,502,471,440,409,378,347,316,285,254,223,503,472,441,410,379,348,317,286,255,504,473,442,411,
380,349,318,287,505,474,443,412,381,350,319,506,475,444,413,382,351,507,476,445,414,383,508,477,
446,415,509,478,447,510,479,511,};
static const uint16_t T_scan10[512]={0,1,16,2,17,32,3,18,33,48,4,19,34,49,64,5,20,35,50,65,80,6,21,36,
51,66,81,96,7,22,37,52,67,82,97,112,8,23,38,53,68,83,98,113,128,9,24,39,
54,69,84,99,114,129,144,10,25,40,55,70,85,100,115,130,145,160,11,26,41,56,71,86,
101,116,131,146,161,176,12,27,42,57,72,87,102,117,132,147,162,177,192,13,28,43,58,73,
88,103,118,133,148,163,178,193,208,14,29,44,59,74,89,104,119,134,149,164,179,194,209,224,
15,30,45,60,75,90,105,120,135,150,165,180,195,210,225,240,31,46,61,76,91,106,121,136,
151,166,181,196,211,226,241,256,47,62,77,92,107,122,137,152,167,182,197,212,227,242,257,272,
63,78,93,108,123,138,153,168,183,198,213,228,243,258,273,288,79,94,109,124,139,154,169,184,
199,214,229,244,259,274,289,304,95,110,125,140,155,170,185,200,215,230,245,260,275,290,305,320,
111,126,141,156,171,186,201,216,231,246,261,276,291,306,321,336,127,142,157,172,187,202,217,232,
247,262,277,292,307,322,337,352,143,158,173,188,203,218,233,248,263,278,293,308,323,338,353,368,
159,174,189,204,219,234,249,264,279,294,309,324,339,354,369,384,175,190,205,220,235,250,265,280,
295,310,325,340,355,370,385,400,191,206,221,236,251,266,281,296,311,326,341,356,371,386,401,416,
207,222,237,252,267,282,297,312,327,342,357,372,387,402,417,432,223,238,253,268,283,298,313,328,
343,358,373,388,403,418,433,448,239,254,269,284,299,314,329,344,359,374,389,404,419,434,449,464,
255,270,285,300,315,330,345,360,375,390,405,420,435,450,465,480,271,286,301,316,331,346,361,376,
391,406,421,436,451,466,481,496,287,302,317,332,347,362,377,392,407,422,437,452,467,482,497,303,
318,333,348,363,378,393,408,423,438,453,468,483,498,319,334,349,364,379,394,409,424,439,454,469,
484,499,335,350,365,380,395,410,425,440,455,470,485,500,351,366,381,396,411,426,441,456,471,486,
501,367,382,397,412,427,442,457,472,487,502,383,398,413,428,443,458,473,488,503,399,414,429,444,
459,474,489,504,415,430,445,460,475,490,505,431,446,461,476,491,506,447,462,477,492,507,463,478,
493,508,479,494,509,495,510,511,};
static const uint16_t T_scan13[64]={0,16,1,32,17,2,48,33,18,3,49,34,19,4,50,35,20,5,51,36,21,6,52,37,
22,7,53,38,23,8,54,39,24,9,55,40,25,10,56,41,26,11,57,42,27,12,58,43,
28,13,59,44,29,14,60,45,30,15,61,46,31,62,47,63,};
static const uint16_t T_scan14[64]={0,1,4,2,5,8,3,6,9,12,7,10,13,16,11,14,17,20,15,18,21,24,19,22,
25,28,23,26,29,32,27,30,33,36,31,34,37,40,35,38,41,44,39,42,45,48,43,46,
49,52,47,50,53,56,51,54,57,60,55,58,61,59,62,63,};
static const uint16_t T_scan15[256]={0,32,1,64,33,2,96,65,34,3,128,97,66,35,4,160,129,98,67,36,5,192,161,130,
99,68,37,6,224,193,162,131,100,69,38,7,225,194,163,132,101,70,39,8,226,195,164,133,
102,71,40,9,227,196,165,134,103,72,41,10,228,197,166,135,104,73,42,11,229,198,167,136,
105,74,43,12,230,199,168,137,106,75,44,13,231,200,169,138,107,76,45,14,232,201,170,139,
108,77,46,15,233,202,171,140,109,78,47,16,234,203,172,141,110,79,48,17,235,204,173,142,
111,80,49,18,236,205,174,143,112,81,50,19,237,206,175,144,113,82,51,20,238,207,176,145,
114,83,52,21,239,208,177,146,115,84,53,22,240,209,178,147,116,85,54,23,241,210,179,148,
117,86,55,24,242,211,180,149,118,87,56,25,243,212,181,150,119,88,57,26,244,213,182,151,
120,89,58,27,245,214,183,152,121,90,59,28,246,215,184,153,122,91,60,29,247,216,185,154,
123,92,61,30,248,217,186,155,124,93,62,31,249,218,187,156,125,94,63,250,219,188,157,126,
95,251,220,189,158,127,252,221,190,159,253,222,191,254,223,255,};
static const uint16_t T_scan16[256]={0,1,8,2,9,16,3,10,17,24,4,11,18,25,32,5,12,19,26,33,40,6,13,20,
27,34,41,48,7,14,21,28,35,42,49,56,15,22,29,36,43,50,57,64,23,30,37,44,
51,58,65,72,31,38,45,52,59,66,73,80,39,46,53,60,67,74,81,88,47,54,61,68,
75,82,89,96,55,62,69,76,83,90,97,104,63,70,77,84,91,98,105,112,71,78,85,92,
99,106,113,120,79,86,93,100,107,114,121,128,87,94,101,108,115,122,129,136,95,102,109,116,
123,130,137,144,103,110,117,124,131,138,145,152,111,118,125,132,139,146,153,160,119,126,133,140,
147,154,161,168,127,134,141,148,155,162,169,176,135,142,149,156,163,170,177,184,143,150,157,164,
171,178,185,192,151,158,165,172,179,186,193,200,159,166,173,180,187,194,201,208,167,174,181,188,
195,202,209,216,175,182,189,196,203,210,217,224,183,190,197,204,211,218,225,232,191,198,205,212,
219,226,233,240,199,206,213,220,227,234,241,248,207,214,221,228,235,242,249,215,222,229,236,243,
250,223,230,237,244,251,231,238,245,252,239,246,253,247,254,255,};
static const int8_t T_subpel[720]={0,1,-3,63,4,-1,0,0,0,1,-5,61,9,-2,0,0,0,1,-6,58,14,-4,1,0,0,1,-7,55,19,-5,1,0,
0,1,-7,51,24,-6,1,0,0,1,-8,47,29,-6,1,0,0,1,-7,42,33,-6,1,0,0,1,-7,38,38,-7,1,0,
0,1,-6,33,42,-7,1,0,0,1,-6,29,47,-8,1,0,0,1,-6,24,51,-7,1,0,0,1,-5,19,55,-7,1,0,
0,1,-4,14,58,-6,1,0,0,0,-2,9,61,-5,1,0,0,0,-1,4,63,-3,1,0,0,1,14,31,17,1,0,0,
0,0,13,31,18,2,0,0,0,0,11,31,20,2,0,0,0,0,10,30,21,3,0,0,0,0,9,29,22,4,0,0,
0,0,8,28,23,5,0,0,0,-1,8,27,24,6,0,0,0,-1,7,26,26,7,-1,0,0,0,6,24,27,8,-1,0,
0,0,5,23,28,8,0,0,0,0,4,22,29,9,0,0,0,0,3,21,30,10,0,0,0,0,2,20,31,11,0,0,
0,0,2,18,31,13,0,0,0,0,1,17,31,14,1,0,-1,1,-3,63,4,-1,1,0,-1,3,-6,62,8,-3,2,-1,
-1,4,-9,60,13,-5,3,-1,-2,5,-11,58,19,-7,3,-1,-2,5,-11,54,24,-9,4,-1,-2,5,-12,50,30,-10,4,-1,
-2,5,-12,45,35,-11,5,-1,-2,6,-12,40,40,-12,6,-2,-1,5,-11,35,45,-12,5,-2,-1,4,-10,30,50,-12,5,-2,
-1,4,-9,24,54,-11,5,-2,-1,3,-7,19,58,-11,5,-2,-1,3,-5,13,60,-9,4,-1,-1,2,-3,8,62,-6,3,-1,
0,1,-1,4,63,-3,1,-1,0,0,-2,63,4,-1,0,0,0,0,-4,61,9,-2,0,0,0,0,-5,58,14,-3,0,0,
0,0,-6,55,19,-4,0,0,0,0,-6,51,24,-5,0,0,0,0,-7,47,29,-5,0,0,0,0,-6,42,33,-5,0,0,
0,0,-6,38,38,-6,0,0,0,0,-5,33,42,-6,0,0,0,0,-5,29,47,-7,0,0,0,0,-5,24,51,-6,0,0,
0,0,-4,19,55,-6,0,0,0,0,-3,14,58,-5,0,0,0,0,-2,9,61,-4,0,0,0,0,-1,4,63,-2,0,0,
0,0,15,31,17,1,0,0,0,0,13,31,18,2,0,0,0,0,11,31,20,2,0,0,0,0,10,30,21,3,0,0,
0,0,9,29,22,4,0,0,0,0,8,28,23,5,0,0,0,0,7,27,24,6,0,0,0,0,6,26,26,6,0,0,
0,0,6,24,27,7,0,0,0,0,5,23,28,8,0,0,0,0,4,22,29,9,0,0,0,0,3,21,30,10,0,0,
0,0,2,20,31,11,0,0,0,0,2,18,31,13,0,0,0,0,1,17,31,15,0,0,0,0,0,60,4,0,0,0,
0,0,0,56,8,0,0,0,0,0,0,52,12,0,0,0,0,0,0,48,16,0,0,0,0,0,0,44,20,0,0,0,
0,0,0,40,24,0,0,0,0,0,0,36,28,0,0,0,0,0,0,32,32,0,0,0,0,0,0,28,36,0,0,0,
0,0,0,24,40,0,0,0,0,0,0,20,44,0,0,0,0,0,0,16,48,0,0,0,0,0,0,12,52,0,0,0,
0,0,0,8,56,0,0,0,0,0,0,4,60,0,0,0,};
static const int8_t T_warp[1544]={0,0,127,1,0,0,0,0,0,-1,127,2,0,0,0,0,1,-3,127,4,-1,0,0,0,1,-4,126,6,-2,1,0,0,
1,-5,126,8,-3,1,0,0,1,-6,125,11,-4,1,0,0,1,-7,124,13,-4,1,0,0,2,-8,123,15,-5,1,0,0,
2,-9,122,18,-6,1,0,0,2,-10,121,20,-6,1,0,0,2,-11,120,22,-7,2,0,0,2,-12,119,25,-8,2,0,0,
3,-13,117,27,-8,2,0,0,3,-13,116,29,-9,2,0,0,3,-14,114,32,-10,3,0,0,3,-15,113,35,-10,2,0,0,
3,-15,111,37,-11,3,0,0,3,-16,109,40,-11,3,0,0,3,-16,108,42,-12,3,0,0,4,-17,106,45,-13,3,0,0,
4,-17,104,47,-13,3,0,0,4,-17,102,50,-14,3,0,0,4,-17,100,52,-14,3,0,0,4,-18,98,55,-15,4,0,0,
4,-18,96,58,-15,3,0,0,4,-18,94,60,-16,4,0,0,4,-18,91,63,-16,4,0,0,4,-18,89,65,-16,4,0,0,
4,-18,87,68,-17,4,0,0,4,-18,85,70,-17,4,0,0,4,-18,82,73,-17,4,0,0,4,-18,80,75,-17,4,0,0,
4,-18,78,78,-18,4,0,0,4,-17,75,80,-18,4,0,0,4,-17,73,82,-18,4,0,0,4,-17,70,85,-18,4,0,0,
4,-17,68,87,-18,4,0,0,4,-16,65,89,-18,4,0,0,4,-16,63,91,-18,4,0,0,4,-16,60,94,-18,4,0,0,
3,-15,58,96,-18,4,0,0,4,-15,55,98,-18,4,0,0,3,-14,52,100,-17,4,0,0,3,-14,50,102,-17,4,0,0,
3,-13,47,104,-17,4,0,0,3,-13,45,106,-17,4,0,0,3,-12,42,108,-16,3,0,0,3,-11,40,109,-16,3,0,0,
3,-11,37,111,-15,3,0,0,2,-10,35,113,-15,3,0,0,3,-10,32,114,-14,3,0,0,2,-9,29,116,-13,3,0,0,
2,-8,27,117,-13,3,0,0,2,-8,25,119,-12,2,0,0,2,-7,22,120,-11,2,0,0,1,-6,20,121,-10,2,0,0,
1,-6,18,122,-9,2,0,0,1,-5,15,123,-8,2,0,0,1,-4,13,124,-7,1,0,0,1,-4,11,125,-6,1,0,0,
1,-3,8,126,-5,1,0,0,1,-2,6,126,-4,1,0,0,0,-1,4,127,-3,1,0,0,0,0,2,127,-1,0,0,0,
0,0,0,127,1,0,0,0,0,0,-1,127,2,0,0,0,0,1,-3,127,4,-2,1,0,0,1,-5,127,6,-2,1,0,
0,2,-6,126,8,-3,1,0,-1,2,-7,126,11,-4,2,-1,-1,3,-8,125,13,-5,2,-1,-1,3,-10,124,16,-6,3,-1,
-1,4,-11,123,18,-7,3,-1,-1,4,-12,122,20,-7,3,-1,-1,4,-13,121,23,-8,3,-1,-2,5,-14,120,25,-9,4,-1,
-1,5,-15,119,27,-10,4,-1,-1,5,-16,118,30,-11,4,-1,-2,6,-17,116,33,-12,5,-1,-2,6,-17,114,35,-12,5,-1,
-2,6,-18,113,38,-13,5,-1,-2,7,-19,111,41,-14,6,-2,-2,7,-19,110,43,-15,6,-2,-2,7,-20,108,46,-15,6,-2,
-2,7,-20,106,49,-16,6,-2,-2,7,-21,104,51,-16,7,-2,-2,7,-21,102,54,-17,7,-2,-2,8,-21,100,56,-18,7,-2,
-2,8,-22,98,59,-18,7,-2,-2,8,-22,96,62,-19,7,-2,-2,8,-22,94,64,-19,7,-2,-2,8,-22,91,67,-20,8,-2,
-2,8,-22,89,69,-20,8,-2,-2,8,-22,87,72,-21,8,-2,-2,8,-21,84,74,-21,8,-2,-2,8,-22,82,77,-21,8,-2,
-2,8,-21,79,79,-21,8,-2,-2,8,-21,77,82,-22,8,-2,-2,8,-21,74,84,-21,8,-2,-2,8,-21,72,87,-22,8,-2,
-2,8,-20,69,89,-22,8,-2,-2,8,-20,67,91,-22,8,-2,-2,7,-19,64,94,-22,8,-2,-2,7,-19,62,96,-22,8,-2,
-2,7,-18,59,98,-22,8,-2,-2,7,-18,56,100,-21,8,-2,-2,7,-17,54,102,-21,7,-2,-2,7,-16,51,104,-21,7,-2,
-2,6,-16,49,106,-20,7,-2,-2,6,-15,46,108,-20,7,-2,-2,6,-15,43,110,-19,7,-2,-2,6,-14,41,111,-19,7,-2,
-1,5,-13,38,113,-18,6,-2,-1,5,-12,35,114,-17,6,-2,-1,5,-12,33,116,-17,6,-2,-1,4,-11,30,118,-16,5,-1,
-1,4,-10,27,119,-15,5,-1,-1,4,-9,25,120,-14,5,-2,-1,3,-8,23,121,-13,4,-1,-1,3,-7,20,122,-12,4,-1,
-1,3,-7,18,123,-11,4,-1,-1,3,-6,16,124,-10,3,-1,-1,2,-5,13,125,-8,3,-1,-1,2,-4,11,126,-7,2,-1,
0,1,-3,8,126,-6,2,0,0,1,-2,6,127,-5,1,0,0,1,-2,4,127,-3,1,0,0,0,0,2,127,-1,0,0,
0,0,0,1,127,0,0,0,0,0,0,-1,127,2,0,0,0,0,1,-3,127,4,-1,0,0,0,1,-4,126,6,-2,1,
0,0,1,-5,126,8,-3,1,0,0,1,-6,125,11,-4,1,0,0,1,-7,124,13,-4,1,0,0,2,-8,123,15,-5,1,
0,0,2,-9,122,18,-6,1,0,0,2,-10,121,20,-6,1,0,0,2,-11,120,22,-7,2,0,0,2,-12,119,25,-8,2,
0,0,3,-13,117,27,-8,2,0,0,3,-13,116,29,-9,2,0,0,3,-14,114,32,-10,3,0,0,3,-15,113,35,-10,2,
0,0,3,-15,111,37,-11,3,0,0,3,-16,109,40,-11,3,0,0,3,-16,108,42,-12,3,0,0,4,-17,106,45,-13,3,
0,0,4,-17,104,47,-13,3,0,0,4,-17,102,50,-14,3,0,0,4,-17,100,52,-14,3,0,0,4,-18,98,55,-15,4,
0,0,4,-18,96,58,-15,3,0,0,4,-18,94,60,-16,4,0,0,4,-18,91,63,-16,4,0,0,4,-18,89,65,-16,4,
0,0,4,-18,87,68,-17,4,0,0,4,-18,85,70,-17,4,0,0,4,-18,82,73,-17,4,0,0,4,-18,80,75,-17,4,
0,0,4,-18,78,78,-18,4,0,0,4,-17,75,80,-18,4,0,0,4,-17,73,82,-18,4,0,0,4,-17,70,85,-18,4,
0,0,4,-17,68,87,-18,4,0,0,4,-16,65,89,-18,4,0,0,4,-16,63,91,-18,4,0,0,4,-16,60,94,-18,4,
0,0,3,-15,58,96,-18,4,0,0,4,-15,55,98,-18,4,0,0,3,-14,52,100,-17,4,0,0,3,-14,50,102,-17,4,
0,0,3,-13,47,104,-17,4,0,0,3,-13,45,106,-17,4,0,0,3,-12,42,108,-16,3,0,0,3,-11,40,109,-16,3,
0,0,3,-11,37,111,-15,3,0,0,2,-10,35,113,-15,3,0,0,3,-10,32,114,-14,3,0,0,2,-9,29,116,-13,3,
0,0,2,-8,27,117,-13,3,0,0,2,-8,25,119,-12,2,0,0,2,-7,22,120,-11,2,0,0,1,-6,20,121,-10,2,
0,0,1,-6,18,122,-9,2,0,0,1,-5,15,123,-8,2,0,0,1,-4,13,124,-7,1,0,0,1,-4,11,125,-6,1,
0,0,1,-3,8,126,-5,1,0,0,1,-2,6,126,-4,1,0,0,0,-1,4,127,-3,1,0,0,0,0,2,127,-1,0,
0,0,0,0,2,127,-1,0,};
static const int8_t T_resize[512]={0,0,0,-128,0,0,0,0,0,0,1,-128,-2,1,0,0,0,-1,3,-127,-4,2,-1,0,0,-1,4,-127,-6,3,-1,0,
0,-2,6,-126,-8,3,-1,0,0,-2,7,-125,-11,4,-1,0,1,-2,8,-125,-13,5,-2,0,1,-3,9,-124,-15,6,-2,0,
1,-3,10,-123,-18,6,-2,1,1,-3,11,-122,-20,7,-3,1,1,-4,12,-121,-22,8,-3,1,1,-4,13,-120,-25,9,-3,1,
1,-4,14,-118,-28,9,-3,1,1,-4,15,-117,-30,10,-4,1,1,-5,16,-116,-32,11,-4,1,1,-5,16,-114,-35,12,-4,1,
1,-5,17,-112,-38,12,-4,1,1,-5,18,-111,-40,13,-5,1,1,-5,18,-109,-43,14,-5,1,1,-6,19,-107,-45,14,-5,1,
1,-6,19,-105,-48,15,-5,1,1,-6,19,-103,-51,16,-5,1,1,-6,20,-101,-53,16,-6,1,1,-6,20,-99,-56,17,-6,1,
1,-6,20,-97,-58,17,-6,1,1,-6,20,-95,-61,18,-6,1,2,-7,20,-93,-64,18,-6,2,2,-7,20,-91,-66,19,-6,1,
2,-7,20,-88,-69,19,-6,1,2,-7,20,-86,-71,19,-6,1,2,-7,20,-84,-74,20,-7,2,2,-7,20,-81,-76,20,-7,1,
2,-7,20,-79,-79,20,-7,2,1,-7,20,-76,-81,20,-7,2,2,-7,20,-74,-84,20,-7,2,1,-6,19,-71,-86,20,-7,2,
1,-6,19,-69,-88,20,-7,2,1,-6,19,-66,-91,20,-7,2,2,-6,18,-64,-93,20,-7,2,1,-6,18,-61,-95,20,-6,1,
1,-6,17,-58,-97,20,-6,1,1,-6,17,-56,-99,20,-6,1,1,-6,16,-53,-101,20,-6,1,1,-5,16,-51,-103,19,-6,1,
1,-5,15,-48,-105,19,-6,1,1,-5,14,-45,-107,19,-6,1,1,-5,14,-43,-109,18,-5,1,1,-5,13,-40,-111,18,-5,1,
1,-4,12,-38,-112,17,-5,1,1,-4,12,-35,-114,16,-5,1,1,-4,11,-32,-116,16,-5,1,1,-4,10,-30,-117,15,-4,1,
1,-3,9,-28,-118,14,-4,1,1,-3,9,-25,-120,13,-4,1,1,-3,8,-22,-121,12,-4,1,1,-3,7,-20,-122,11,-3,1,
1,-2,6,-18,-123,10,-3,1,0,-2,6,-15,-124,9,-3,1,0,-2,5,-13,-125,8,-2,1,0,-1,4,-11,-125,7,-2,0,
0,-1,3,-8,-126,6,-2,0,0,-1,3,-6,-127,4,-1,0,0,-1,2,-4,-127,3,-1,0,0,0,1,-2,-128,1,0,0,
};
static const uint8_t T_smw[128]={0,0,255,128,255,149,85,64,255,197,146,105,73,50,37,32,255,225,196,170,145,123,102,84,68,54,43,33,26,20,17,16,
255,240,225,210,196,182,169,157,145,133,122,111,101,92,83,74,66,59,52,45,39,34,29,25,21,17,14,12,10,9,8,8,
255,248,240,233,225,218,210,203,196,189,182,176,169,163,156,150,144,138,133,127,121,116,111,106,101,96,91,86,82,77,73,69,
65,61,57,54,50,47,44,41,38,35,32,29,27,25,22,20,18,16,15,13,12,10,9,8,7,6,6,5,5,4,4,4,
};
static const uint16_t T_drd[44]={0,1023,0,547,372,0,0,273,215,0,178,151,0,132,116,0,102,0,90,80,0,71,64,0,
57,51,0,45,0,40,35,0,31,27,0,23,19,0,15,0,11,0,7,3,};
static const int8_t T_fi[320]={-6,10,-5,2,-3,1,-3,1,-4,6,-3,2,-3,2,-3,1,0,0,10,0,1,10,1,2,0,0,6,0,2,6,2,2,
0,12,0,9,0,7,10,5,0,2,0,2,0,2,6,3,0,0,0,0,0,0,0,0,12,0,9,0,7,0,5,0,
-10,16,-6,0,-4,0,-2,0,-10,16,-6,0,-4,0,-2,0,0,0,16,0,0,16,0,0,0,0,16,0,0,16,0,0,
0,10,0,6,0,4,16,2,0,0,0,0,0,0,16,0,0,0,0,0,0,0,0,0,10,0,6,0,4,0,2,0,
-8,8,-8,0,-8,0,-8,0,-4,4,-4,0,-4,0,-4,0,0,0,8,0,0,8,0,0,0,0,4,0,0,4,0,0,
0,16,0,16,0,16,8,16,0,0,0,0,0,0,4,0,0,0,0,0,0,0,0,0,16,0,16,0,16,0,16,0,
-2,8,-1,3,-1,2,0,1,-1,4,-1,3,-1,2,-1,2,0,0,8,0,3,8,2,3,0,0,4,0,3,4,2,3,
0,10,0,6,0,4,8,2,0,3,0,4,0,4,4,3,0,0,0,0,0,0,0,0,10,0,6,0,4,0,3,0,
-12,14,-10,0,-9,0,-8,0,-10,12,-9,1,-8,0,-7,0,0,0,14,0,0,14,0,0,0,0,12,0,0,12,0,1,
0,14,0,12,0,11,14,10,0,0,0,0,0,1,12,1,0,0,0,0,0,0,0,0,14,0,12,0,11,0,9,0,
};
static const uint8_t T_obmc[64]={0,0,19,0,25,14,5,0,28,22,16,11,7,3,0,0,30,27,24,21,18,15,12,10,8,6,4,3,0,0,0,0,
31,29,28,26,24,23,21,20,19,17,16,14,13,12,11,9,8,7,6,5,4,4,3,2,0,0,0,0,0,0,0,0,
};
static const int16_t T_gauss[2048]={56,568,-180,172,124,-84,172,-64,-900,24,820,224,1248,996,272,-8,-916,-388,-732,-104,-188,800,112,-652,
-320,-376,140,-252,492,-168,44,-788,588,-584,500,-228,12,680,272,-476,972,-100,652,368,432,-196,-720,-192,
1000,-332,652,-136,-552,-604,-4,192,-220,-136,1000,-52,372,-96,-624,124,-24,396,540,-12,-104,640,464,244,
-208,-84,368,-528,-740,248,-968,-848,608,376,-60,-292,-40,-156,252,-292,248,224,-280,400,-244,244,-60,76,
-80,212,532,340,128,-36,824,-352,-60,-264,-96,-612,416,-704,220,-204,640,-160,1220,-408,900,336,20,-336,
-96,-792,304,48,-28,-1232,-1172,-448,104,-292,-520,244,60,-948,0,-708,268,108,356,-548,488,-344,-136,488,
-196,-224,656,-236,-1128,60,4,140,276,-676,-376,168,-108,464,8,564,64,240,308,-300,-400,-456,-136,56,
120,-408,-116,436,504,-232,328,844,-164,-84,784,-168,232,-224,348,-376,128,568,96,-1244,-288,276,848,832,
-360,656,464,-384,-332,-356,728,-388,160,-192,468,296,224,140,-776,-100,280,4,196,44,-36,-648,932,16,
1428,28,528,808,772,20,268,88,-332,-284,124,-384,-448,208,-228,-1044,-328,660,380,-148,-300,588,240,540,
28,136,-88,-436,256,296,-1000,1400,0,-48,1056,-136,264,-528,-1108,632,-484,-592,-344,796,124,-668,-768,388,
1296,-232,-188,-200,-288,-4,308,100,-168,256,-500,204,-508,648,-136,372,-272,-120,-1004,-552,-548,-384,548,-296,
428,-108,-8,-912,-324,-224,-88,-112,-220,-100,996,-796,548,360,-216,180,428,-200,-212,148,96,148,284,216,
-412,-320,120,-300,-384,-604,-572,-332,-8,-180,-176,696,116,-88,628,76,44,-516,240,-208,-40,100,-592,344,
-308,-452,-228,20,916,-1752,-136,-340,-804,140,40,512,340,248,184,-492,896,-156,932,-628,328,-688,-448,-616,
-752,-100,560,-1020,180,-800,-64,76,576,1068,396,660,552,-108,-28,320,-628,312,-92,-92,-472,268,16,560,
516,-672,-52,492,-100,260,384,284,292,304,-148,88,-152,1012,1064,-228,164,-376,-684,592,-392,156,196,-524,
-64,-884,160,-176,636,648,404,-396,-436,864,424,-728,988,-604,904,-592,296,-224,536,-176,-920,436,-48,1176,
-884,416,-776,-824,-884,524,-548,-564,-68,-164,-96,692,364,-692,-1012,-68,260,-480,876,-1116,452,-332,-352,892,
-1088,1220,-676,12,-292,244,496,372,-32,280,200,112,-440,-96,24,-644,-184,56,-432,224,-980,272,-260,144,
-436,420,356,364,-528,76,172,-744,-368,404,-752,-416,684,-688,72,540,416,92,444,480,-72,-1416,164,-1172,
-68,24,424,264,1040,128,-912,-524,-356,64,876,-12,4,-88,532,272,-524,320,276,-508,940,24,-400,-120,
756,60,236,-412,100,376,-484,400,-100,-740,-108,-260,328,-268,224,-200,-416,184,-604,-564,-20,296,60,892,
-888,60,164,68,-760,216,-296,904,-336,-28,404,-356,-568,-208,-1480,-512,296,328,-360,-164,-1560,-776,1156,-428,
164,-504,-112,120,-216,-148,-264,308,32,64,-72,72,116,176,-64,-272,460,-536,-784,-280,348,108,-752,-132,
524,-540,-776,116,-296,-1196,-288,-560,1040,-472,116,-848,-1116,116,636,696,284,-176,1016,204,-864,-648,-248,356,
972,-584,-204,264,880,528,-24,-184,116,448,-144,828,524,212,-212,52,12,200,268,-488,-404,-880,824,-672,
-40,908,-248,500,716,-576,492,-576,16,720,-108,384,124,344,280,576,-500,252,104,-308,196,-188,-8,1268,
296,1032,-1196,436,316,372,-432,-200,-660,704,-224,596,-132,268,32,-452,884,104,-1008,424,-1348,-280,4,-1168,
368,476,696,300,-8,24,180,-592,-196,388,304,500,724,-160,244,-84,272,-256,-420,320,208,-144,-156,156,
364,452,28,540,316,220,-644,-248,464,72,360,32,-388,496,-680,-48,208,-116,-408,60,-604,-392,548,-840,
784,-460,656,-544,-388,-264,908,-800,-628,-612,-568,572,-220,164,288,-16,-308,308,-112,-636,-760,280,-668,432,
364,240,-196,604,340,384,196,592,-44,-500,432,-580,-132,636,-76,392,4,-412,540,508,328,-356,-36,16,
-220,-64,-248,-60,24,-192,368,1040,92,-24,-1044,-32,40,104,148,192,-136,-520,56,-816,-224,732,392,356,
212,-80,-424,-1008,-324,588,-1496,576,460,-816,-848,56,-580,-92,-1372,-112,-496,200,364,52,-140,48,-48,-60,
84,72,40,132,-356,-268,-104,-284,-404,732,-520,164,-304,-540,120,328,-76,-460,756,388,588,236,-436,-72,
-176,-404,-316,-148,716,-604,404,-72,-88,-888,-68,944,88,-220,-344,960,472,460,-232,704,120,832,-228,692,
-508,132,-476,844,-748,-364,-44,1116,-1104,-1056,76,428,552,-692,60,356,96,-384,-188,-612,-576,736,508,892,
352,-1132,504,-24,-352,324,332,-600,-312,292,508,-144,-8,484,48,284,-260,-240,256,-100,-292,-204,-44,472,
-204,908,-188,-1000,-256,92,1164,-392,564,356,652,-28,-884,256,484,-192,760,-176,376,-524,-452,-436,860,-736,
212,124,504,-476,468,76,-472,552,-692,-944,-620,740,-240,400,132,20,192,-196,264,-668,-1012,-60,296,-316,
-828,76,-156,284,-768,-448,-832,148,248,652,616,1236,288,-328,-400,-124,588,220,520,-696,1032,768,-740,-92,
-272,296,448,-464,412,-200,392,440,-200,264,-152,-260,320,1032,216,320,-8,-64,156,-1016,1084,1172,536,484,
-432,132,372,-52,-256,84,116,-352,48,116,304,-384,412,924,-300,528,628,180,648,44,-980,-220,1320,48,
332,748,524,-268,-720,540,-276,564,-344,-208,-196,436,896,88,-392,132,80,-964,-288,568,56,-48,-456,888,
8,552,-156,-292,948,288,128,-716,-292,1192,-152,876,352,-600,-260,-812,-468,-28,-120,-32,-44,1284,496,192,
464,312,-76,-516,-380,-456,-1012,-48,308,-156,36,492,-156,-808,188,1652,68,-120,-116,316,160,-140,352,808,
-416,592,316,-480,56,528,-204,-568,372,-232,752,-344,744,-4,324,-416,-600,768,268,-248,-88,-132,-420,-432,
80,-288,404,-316,-1216,-588,520,-108,92,-320,368,-480,-216,-92,1688,-300,180,1020,-176,820,-68,-228,-260,436,
-904,20,40,-508,440,-736,312,332,204,760,-372,728,96,-20,-632,-520,-560,336,1076,-64,-532,776,584,192,
396,-728,-520,276,-188,80,-52,-612,-252,-48,648,212,-688,228,-52,-260,428,-412,-272,-404,180,816,-796,48,
152,484,-88,-216,988,696,188,-528,648,-116,-180,316,476,12,-564,96,476,-252,-364,-376,-392,556,-256,-576,
260,-352,120,-16,-136,-260,-492,72,556,660,580,616,772,436,424,-32,-324,-1268,416,-324,-80,920,160,228,
724,32,-516,64,384,68,-128,136,240,248,-204,-68,252,-932,-120,-480,-628,-84,192,852,-404,-288,-132,204,
100,168,-68,-196,-868,460,1080,380,-80,244,0,484,-888,64,184,352,600,460,164,604,-196,320,-64,588,
-184,228,12,372,48,-848,-344,224,208,-200,484,128,-20,272,-468,-840,384,256,-720,-520,-464,-580,112,-120,
644,-356,-208,-608,-528,704,560,-424,392,828,40,84,200,-152,0,-144,584,280,-120,80,-556,-972,-196,-472,
724,80,168,-32,88,160,-688,0,160,356,372,-776,740,-128,676,-248,-480,4,-364,96,544,232,-1032,956,
236,356,20,-40,300,24,-676,-596,132,1120,-104,532,-1096,568,648,444,508,380,188,-376,-604,1488,424,24,
756,-220,-192,716,120,920,688,168,44,-460,568,284,1144,1160,600,424,888,656,-356,-320,220,316,-176,-724,
-188,-816,-628,-348,-228,-380,1012,-452,-660,736,928,404,-696,-72,-268,-892,128,184,-344,-780,360,336,400,344,
428,548,-112,136,-228,-216,-820,-516,340,92,-136,116,-300,376,-244,100,-316,-520,-284,-12,824,164,-548,-180,
-128,116,-924,-828,268,-368,-580,620,192,160,0,-1676,1068,424,-56,-360,468,-156,720,288,-528,556,-364,548,
-148,504,316,152,-648,-620,-684,-24,-376,-384,-108,-920,-1032,768,180,-264,-508,-1268,-260,-60,300,-240,988,724,
-376,-576,-212,-736,556,192,1092,-620,-880,376,-56,-4,-216,-32,836,268,396,1332,864,-600,100,56,-412,-92,
356,180,884,-468,-436,292,-388,-804,-704,-840,368,-348,140,-724,1536,940,372,112,-372,436,-480,1136,296,-32,
-228,132,-48,-220,868,-1016,-60,-1044,-464,328,916,244,12,-736,-296,360,468,-376,-108,-92,788,368,-56,544,
400,-672,-420,728,16,320,44,-284,-380,-796,488,132,204,-596,-372,88,-152,-908,-636,-572,-624,-116,-692,-200,
-56,276,-88,484,-324,948,864,1000,-456,-184,-276,292,-296,156,676,320,160,908,-84,-1236,-288,-116,260,-372,
-644,732,-756,-96,84,344,-520,348,-688,240,-84,216,-1044,-136,-676,-396,-1500,960,-40,176,168,1516,420,-504,
-344,-364,-360,1216,-940,-380,-212,252,-660,-708,484,-444,-152,928,-120,1112,476,-260,560,-148,-344,108,-196,228,
-288,504,560,-328,-88,288,-1008,460,-228,468,-836,-196,76,388,232,412,-1168,-716,-644,756,-172,-356,-504,116,
432,528,48,476,-168,-608,448,160,-532,-272,28,-676,-12,828,980,456,520,104,-104,256,-344,-4,-28,-368,
-52,-524,-572,-556,-200,768,1124,-208,-512,176,232,248,-148,-888,604,-600,-304,804,-156,-212,488,-192,-804,-256,
368,-360,-916,-328,228,-240,-448,-472,856,-556,-364,572,-12,-156,-368,-340,432,252,-752,-152,288,268,-580,-848,
-592,108,-76,244,312,-716,592,-80,436,360,4,-248,160,516,584,732,44,-468,-280,-292,-156,-588,28,308,
912,24,124,156,180,-252,944,-924,-772,-520,-428,-624,300,-212,-1144,32,-724,800,-1128,-212,-1288,-848,180,-416,
440,192,-576,-792,-76,-1080,80,-532,-352,-132,380,-820,148,1112,128,164,456,700,-924,144,-668,-384,648,-832,
508,552,-52,-100,-656,208,-568,748,-88,680,232,300,192,-408,-1012,-152,-252,-268,272,-876,-664,-648,-332,-136,
16,12,1152,-28,332,-536,320,-672,-460,-316,532,-260,228,-40,1052,-816,180,88,-496,-556,-672,-368,428,92,
356,404,-408,252,196,-176,-556,792,268,32,372,40,96,-332,328,120,372,-900,-40,472,-264,-592,952,128,
656,112,664,-232,420,4,-344,-464,556,244,-416,-32,252,0,-412,188,-696,508,-476,324,-1096,656,-312,560,
264,-136,304,160,-64,-580,248,336,-720,560,-348,-288,-276,-196,-500,852,-544,-236,-1128,-992,-776,116,56,52,
860,884,212,-12,168,1020,512,-552,924,-148,716,188,164,-340,-520,-184,880,-152,-680,-208,-1156,-300,-528,-472,
364,100,-744,-1056,-32,540,280,144,-676,-32,-232,-280,-224,96,568,-76,172,148,148,104,32,-296,-32,788,
-80,32,-16,280,288,944,428,-484,};
static const uint16_t T_sgr[32]={140,3236,112,2158,93,1618,80,1438,70,1295,58,1177,47,1079,37,996,30,925,25,863,0,2589,0,1618,
0,1177,0,925,56,0,22,0,};
static const int8_t T_cdefdir[24]={12,24,12,23,-11,-22,1,-10,1,2,1,14,13,26,12,25,12,24,12,23,-11,-22,1,-10,};
static const uint8_t T_imctx[13]={0,1,2,3,4,4,4,4,3,0,1,2,0,};
static const uint8_t T_skipctx[25]={1,2,2,2,3,2,4,4,4,5,2,4,4,4,5,2,4,4,4,5,3,5,5,5,6,};
static const uint8_t T_loctx[75]={0,1,6,6,21,1,6,6,21,21,6,6,21,21,21,6,21,21,21,21,21,21,21,21,21,0,16,6,6,21,16,16,
6,21,21,16,16,21,21,21,16,16,21,21,21,16,16,21,21,21,0,11,11,11,11,11,11,11,11,11,6,6,21,21,
21,6,21,21,21,21,21,21,21,21,21,};
static const uint8_t T_wedgectx[22]={0,0,0,0,0,0,0,6,5,8,0,4,3,2,0,7,1,0,0,0,0,0,};
