---------------------------------- MODULE Names ----------------------------------
(* Generated by tools/gen_names.py: the named one-character correspondences and   *)
(* the character each converts from (its Unicode name, save for eleven).          *)
EXTENDS Sets, CjkData

DigitsNames == [
  DIGIT_ZERO |-> 65296,
  DIGIT_ONE |-> 65297,
  DIGIT_TWO |-> 65298,
  DIGIT_THREE |-> 65299,
  DIGIT_FOUR |-> 65300,
  DIGIT_FIVE |-> 65301,
  DIGIT_SIX |-> 65302,
  DIGIT_SEVEN |-> 65303,
  DIGIT_EIGHT |-> 65304,
  DIGIT_NINE |-> 65305
]

AlphabetsNames == [
  CAPITAL_LETTER_A |-> 65313,
  CAPITAL_LETTER_B |-> 65314,
  CAPITAL_LETTER_C |-> 65315,
  CAPITAL_LETTER_D |-> 65316,
  CAPITAL_LETTER_E |-> 65317,
  CAPITAL_LETTER_F |-> 65318,
  CAPITAL_LETTER_G |-> 65319,
  CAPITAL_LETTER_H |-> 65320,
  CAPITAL_LETTER_I |-> 65321,
  CAPITAL_LETTER_J |-> 65322,
  CAPITAL_LETTER_K |-> 65323,
  CAPITAL_LETTER_L |-> 65324,
  CAPITAL_LETTER_M |-> 65325,
  CAPITAL_LETTER_N |-> 65326,
  CAPITAL_LETTER_O |-> 65327,
  CAPITAL_LETTER_P |-> 65328,
  CAPITAL_LETTER_Q |-> 65329,
  CAPITAL_LETTER_R |-> 65330,
  CAPITAL_LETTER_S |-> 65331,
  CAPITAL_LETTER_T |-> 65332,
  CAPITAL_LETTER_U |-> 65333,
  CAPITAL_LETTER_V |-> 65334,
  CAPITAL_LETTER_W |-> 65335,
  CAPITAL_LETTER_X |-> 65336,
  CAPITAL_LETTER_Y |-> 65337,
  CAPITAL_LETTER_Z |-> 65338,
  SMALL_LETTER_A |-> 65345,
  SMALL_LETTER_B |-> 65346,
  SMALL_LETTER_C |-> 65347,
  SMALL_LETTER_D |-> 65348,
  SMALL_LETTER_E |-> 65349,
  SMALL_LETTER_F |-> 65350,
  SMALL_LETTER_G |-> 65351,
  SMALL_LETTER_H |-> 65352,
  SMALL_LETTER_I |-> 65353,
  SMALL_LETTER_J |-> 65354,
  SMALL_LETTER_K |-> 65355,
  SMALL_LETTER_L |-> 65356,
  SMALL_LETTER_M |-> 65357,
  SMALL_LETTER_N |-> 65358,
  SMALL_LETTER_O |-> 65359,
  SMALL_LETTER_P |-> 65360,
  SMALL_LETTER_Q |-> 65361,
  SMALL_LETTER_R |-> 65362,
  SMALL_LETTER_S |-> 65363,
  SMALL_LETTER_T |-> 65364,
  SMALL_LETTER_U |-> 65365,
  SMALL_LETTER_V |-> 65366,
  SMALL_LETTER_W |-> 65367,
  SMALL_LETTER_X |-> 65368,
  SMALL_LETTER_Y |-> 65369,
  SMALL_LETTER_Z |-> 65370
]

PunctuationsNames == [
  EXCLAMATION_MARK |-> 65281,
  QUOTATION_MARK |-> 8221,
  SHARP |-> 65283,
  DOLLER_SIGN |-> 65284,
  PERCENT_SIGN |-> 65285,
  AMPERSAND |-> 65286,
  APOSTROPHE |-> 8217,
  LEFT_PARENTHESIS |-> 65288,
  RIGHT_PARENTHESIS |-> 65289,
  ASTERISK |-> 65290,
  PLUS_SIGN |-> 65291,
  COMMA |-> 65292,
  HYPHEN_MINUS |-> 65293,
  FULL_STOP |-> 65294,
  SLASH |-> 65295,
  COLON |-> 65306,
  SEMI_COLON |-> 65307,
  LESS_THAN_SIGN |-> 65308,
  EQUAL_SIGN |-> 65309,
  GREATER_THAN_SIGN |-> 65310,
  QUESTION_MARK |-> 65311,
  AT_SIGN |-> 65312,
  LEFT_SQUARE_BRACKET |-> 65339,
  BACKSLASH |-> 65340,
  RIGHT_SQUARE_BRACKET |-> 65341,
  CIRCUMFLEX_ACCENT |-> 65342,
  LOW_LINE |-> 65343,
  GRAVE_ACCENT |-> 65344,
  LEFT_CURLY_BRACKET |-> 65371,
  VERTICAL_BAR |-> 65372,
  RIGHT_CURLY_BRACKET |-> 65373,
  YEN_SIGN |-> 65509,
  TILDE |-> 12316
]

KanasNames == [
  IDEOGRAPHIC_FULL_STOP |-> 65377,
  LEFT_CORNER_BRACKET |-> 65378,
  RIGHT_CORNER_BRACKET |-> 65379,
  IDEOGRAPHIC_COMMA |-> 65380,
  KATAKANA_MIDDLE_DOT |-> 65381,
  KATAKANA_LETTER_WO |-> 65382,
  KATAKANA_LETTER_SMALL_A |-> 65383,
  KATAKANA_LETTER_SMALL_I |-> 65384,
  KATAKANA_LETTER_SMALL_U |-> 65385,
  KATAKANA_LETTER_SMALL_E |-> 65386,
  KATAKANA_LETTER_SMALL_O |-> 65387,
  KATAKANA_LETTER_SMALL_YA |-> 65388,
  KATAKANA_LETTER_SMALL_YU |-> 65389,
  KATAKANA_LETTER_SMALL_YO |-> 65390,
  KATAKANA_LETTER_SMALL_TU |-> 65391,
  KATAKANA_LETTER_A |-> 65393,
  KATAKANA_LETTER_I |-> 65394,
  KATAKANA_LETTER_U |-> 65395,
  KATAKANA_LETTER_E |-> 65396,
  KATAKANA_LETTER_O |-> 65397,
  KATAKANA_LETTER_KA |-> 65398,
  KATAKANA_LETTER_KI |-> 65399,
  KATAKANA_LETTER_KU |-> 65400,
  KATAKANA_LETTER_KE |-> 65401,
  KATAKANA_LETTER_KO |-> 65402,
  KATAKANA_LETTER_SA |-> 65403,
  KATAKANA_LETTER_SI |-> 65404,
  KATAKANA_LETTER_SU |-> 65405,
  KATAKANA_LETTER_SE |-> 65406,
  KATAKANA_LETTER_SO |-> 65407,
  KATAKANA_LETTER_TA |-> 65408,
  KATAKANA_LETTER_TI |-> 65409,
  KATAKANA_LETTER_TU |-> 65410,
  KATAKANA_LETTER_TE |-> 65411,
  KATAKANA_LETTER_TO |-> 65412,
  KATAKANA_LETTER_NA |-> 65413,
  KATAKANA_LETTER_NI |-> 65414,
  KATAKANA_LETTER_NU |-> 65415,
  KATAKANA_LETTER_NE |-> 65416,
  KATAKANA_LETTER_NO |-> 65417,
  KATAKANA_LETTER_HA |-> 65418,
  KATAKANA_LETTER_HI |-> 65419,
  KATAKANA_LETTER_HU |-> 65420,
  KATAKANA_LETTER_HE |-> 65421,
  KATAKANA_LETTER_HO |-> 65422,
  KATAKANA_LETTER_MA |-> 65423,
  KATAKANA_LETTER_MI |-> 65424,
  KATAKANA_LETTER_MU |-> 65425,
  KATAKANA_LETTER_ME |-> 65426,
  KATAKANA_LETTER_MO |-> 65427,
  KATAKANA_LETTER_YA |-> 65428,
  KATAKANA_LETTER_YU |-> 65429,
  KATAKANA_LETTER_YO |-> 65430,
  KATAKANA_LETTER_RA |-> 65431,
  KATAKANA_LETTER_RI |-> 65432,
  KATAKANA_LETTER_RU |-> 65433,
  KATAKANA_LETTER_RE |-> 65434,
  KATAKANA_LETTER_RO |-> 65435,
  KATAKANA_LETTER_WA |-> 65436,
  KATAKANA_LETTER_N |-> 65437,
  IDEOGRAPHIC_SPACE |-> 12288
]

CjkNames == [
  SQUARE_APAATO |-> 13056,
  SQUARE_ARUHUA |-> 13057,
  SQUARE_ANPEA |-> 13058,
  SQUARE_AARU |-> 13059,
  SQUARE_ININGU |-> 13060,
  SQUARE_INTI |-> 13061,
  SQUARE_UON |-> 13062,
  SQUARE_ESUKUUDO |-> 13063,
  SQUARE_EEKAA |-> 13064,
  SQUARE_ONSU |-> 13065,
  SQUARE_OOMU |-> 13066,
  SQUARE_KAIRI |-> 13067,
  SQUARE_KARATTO |-> 13068,
  SQUARE_KARORII |-> 13069,
  SQUARE_GARON |-> 13070,
  SQUARE_GANMA |-> 13071,
  SQUARE_GIGA |-> 13072,
  SQUARE_GINII |-> 13073,
  SQUARE_KYURII |-> 13074,
  SQUARE_GIRUDAA |-> 13075,
  SQUARE_KIRO |-> 13076,
  SQUARE_KIROGURAMU |-> 13077,
  SQUARE_KIROMEETORU |-> 13078,
  SQUARE_KIROWATTO |-> 13079,
  SQUARE_GURAMU |-> 13080,
  SQUARE_GURAMUTON |-> 13081,
  SQUARE_KURUZEIRO |-> 13082,
  SQUARE_KUROONE |-> 13083,
  SQUARE_KEESU |-> 13084,
  SQUARE_KORUNA |-> 13085,
  SQUARE_KOOPO |-> 13086,
  SQUARE_SAIKURU |-> 13087,
  SQUARE_SANTIIMU |-> 13088,
  SQUARE_SIRINGU |-> 13089,
  SQUARE_SENTI |-> 13090,
  SQUARE_SENTO |-> 13091,
  SQUARE_DAASU |-> 13092,
  SQUARE_DESI |-> 13093,
  SQUARE_DORU |-> 13094,
  SQUARE_TON |-> 13095,
  SQUARE_NANO |-> 13096,
  SQUARE_NOTTO |-> 13097,
  SQUARE_HAITU |-> 13098,
  SQUARE_PAASENTO |-> 13099,
  SQUARE_PAATU |-> 13100,
  SQUARE_BAARERU |-> 13101,
  SQUARE_PIASUTORU |-> 13102,
  SQUARE_PIKURU |-> 13103,
  SQUARE_PIKO |-> 13104,
  SQUARE_BIRU |-> 13105,
  SQUARE_HUARADDO |-> 13106,
  SQUARE_HUIITO |-> 13107,
  SQUARE_BUSSYERU |-> 13108,
  SQUARE_HURAN |-> 13109,
  SQUARE_HEKUTAARU |-> 13110,
  SQUARE_PESO |-> 13111,
  SQUARE_PENIHI |-> 13112,
  SQUARE_HERUTU |-> 13113,
  SQUARE_PENSU |-> 13114,
  SQUARE_PEEZI |-> 13115,
  SQUARE_BEETA |-> 13116,
  SQUARE_POINTO |-> 13117,
  SQUARE_BORUTO |-> 13118,
  SQUARE_HON |-> 13119,
  SQUARE_PONDO |-> 13120,
  SQUARE_HOORU |-> 13121,
  SQUARE_HOON |-> 13122,
  SQUARE_MAIKURO |-> 13123,
  SQUARE_MAIRU |-> 13124,
  SQUARE_MAHHA |-> 13125,
  SQUARE_MARUKU |-> 13126,
  SQUARE_MANSYON |-> 13127,
  SQUARE_MIKURON |-> 13128,
  SQUARE_MIRI |-> 13129,
  SQUARE_MIRIBAARU |-> 13130,
  SQUARE_MEGA |-> 13131,
  SQUARE_MEGATON |-> 13132,
  SQUARE_MEETORU |-> 13133,
  SQUARE_YAADO |-> 13134,
  SQUARE_YAARU |-> 13135,
  SQUARE_YUAN |-> 13136,
  SQUARE_RITTORU |-> 13137,
  SQUARE_RIRA |-> 13138,
  SQUARE_RUPII |-> 13139,
  SQUARE_RUUBURU |-> 13140,
  SQUARE_REMU |-> 13141,
  SQUARE_RENTOGEN |-> 13142,
  SQUARE_WATTO |-> 13143,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO |-> 13144,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE |-> 13145,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO |-> 13146,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE |-> 13147,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR |-> 13148,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE |-> 13149,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX |-> 13150,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN |-> 13151,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT |-> 13152,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE |-> 13153,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN |-> 13154,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN |-> 13155,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE |-> 13156,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN |-> 13157,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN |-> 13158,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN |-> 13159,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN |-> 13160,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN |-> 13161,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN |-> 13162,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN |-> 13163,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY |-> 13164,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE |-> 13165,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO |-> 13166,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE |-> 13167,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR |-> 13168,
  SQUARE_HPA |-> 13169,
  SQUARE_DA |-> 13170,
  SQUARE_AU |-> 13171,
  SQUARE_BAR |-> 13172,
  SQUARE_OV |-> 13173,
  SQUARE_PC |-> 13174,
  SQUARE_DM |-> 13175,
  SQUARE_DM_SQUARED |-> 13176,
  SQUARE_DM_CUBED |-> 13177,
  SQUARE_IU |-> 13178,
  SQUARE_ERA_NAME_HEISEI |-> 13179,
  SQUARE_ERA_NAME_SYOUWA |-> 13180,
  SQUARE_ERA_NAME_TAISYOU |-> 13181,
  SQUARE_ERA_NAME_MEIZI |-> 13182,
  SQUARE_CORPORATION |-> 13183,
  SQUARE_PA_AMPS |-> 13184,
  SQUARE_NA |-> 13185,
  SQUARE_MU_A |-> 13186,
  SQUARE_MA |-> 13187,
  SQUARE_KA |-> 13188,
  SQUARE_KB |-> 13189,
  SQUARE_MB |-> 13190,
  SQUARE_GB |-> 13191,
  SQUARE_CAL |-> 13192,
  SQUARE_KCAL |-> 13193,
  SQUARE_PF |-> 13194,
  SQUARE_NF |-> 13195,
  SQUARE_MU_F |-> 13196,
  SQUARE_MU_G |-> 13197,
  SQUARE_MG |-> 13198,
  SQUARE_KG |-> 13199,
  SQUARE_HZ |-> 13200,
  SQUARE_KHZ |-> 13201,
  SQUARE_MHZ |-> 13202,
  SQUARE_GHZ |-> 13203,
  SQUARE_THZ |-> 13204,
  SQUARE_MU_L |-> 13205,
  SQUARE_ML |-> 13206,
  SQUARE_DL |-> 13207,
  SQUARE_KL |-> 13208,
  SQUARE_FM |-> 13209,
  SQUARE_NM |-> 13210,
  SQUARE_MU_M |-> 13211,
  SQUARE_MM |-> 13212,
  SQUARE_CM |-> 13213,
  SQUARE_KM |-> 13214,
  SQUARE_MM_SQUARED |-> 13215,
  SQUARE_CM_SQUARED |-> 13216,
  SQUARE_M_SQUARED |-> 13217,
  SQUARE_KM_SQUARED |-> 13218,
  SQUARE_MM_CUBED |-> 13219,
  SQUARE_CM_CUBED |-> 13220,
  SQUARE_M_CUBED |-> 13221,
  SQUARE_KM_CUBED |-> 13222,
  SQUARE_M_OVER_S |-> 13223,
  SQUARE_M_OVER_S_SQUARED |-> 13224,
  SQUARE_PA |-> 13225,
  SQUARE_KPA |-> 13226,
  SQUARE_MPA |-> 13227,
  SQUARE_GPA |-> 13228,
  SQUARE_RAD |-> 13229,
  SQUARE_RAD_OVER_S |-> 13230,
  SQUARE_RAD_OVER_S_SQUARED |-> 13231,
  SQUARE_PS |-> 13232,
  SQUARE_NS |-> 13233,
  SQUARE_MU_S |-> 13234,
  SQUARE_MS |-> 13235,
  SQUARE_PV |-> 13236,
  SQUARE_NV |-> 13237,
  SQUARE_MU_V |-> 13238,
  SQUARE_MV |-> 13239,
  SQUARE_KV |-> 13240,
  SQUARE_MV_MEGA |-> 13241,
  SQUARE_PW |-> 13242,
  SQUARE_NW |-> 13243,
  SQUARE_MU_W |-> 13244,
  SQUARE_MW |-> 13245,
  SQUARE_KW |-> 13246,
  SQUARE_MW_MEGA |-> 13247,
  SQUARE_K_OHM |-> 13248,
  SQUARE_M_OHM |-> 13249,
  SQUARE_AM |-> 13250,
  SQUARE_BQ |-> 13251,
  SQUARE_CC |-> 13252,
  SQUARE_CD |-> 13253,
  SQUARE_C_OVER_KG |-> 13254,
  SQUARE_CO |-> 13255,
  SQUARE_DB |-> 13256,
  SQUARE_GY |-> 13257,
  SQUARE_HA |-> 13258,
  SQUARE_HP |-> 13259,
  SQUARE_IN |-> 13260,
  SQUARE_KK |-> 13261,
  SQUARE_KM_CAPITAL |-> 13262,
  SQUARE_KT |-> 13263,
  SQUARE_LM |-> 13264,
  SQUARE_LN |-> 13265,
  SQUARE_LOG |-> 13266,
  SQUARE_LX |-> 13267,
  SQUARE_MB_SMALL |-> 13268,
  SQUARE_MIL |-> 13269,
  SQUARE_MOL |-> 13270,
  SQUARE_PH |-> 13271,
  SQUARE_PM |-> 13272,
  SQUARE_PPM |-> 13273,
  SQUARE_PR |-> 13274,
  SQUARE_SR |-> 13275,
  SQUARE_SV |-> 13276,
  SQUARE_WB |-> 13277,
  SQUARE_V_OVER_M |-> 13278,
  SQUARE_A_OVER_M |-> 13279,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE |-> 13280,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO |-> 13281,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE |-> 13282,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR |-> 13283,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE |-> 13284,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX |-> 13285,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN |-> 13286,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT |-> 13287,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE |-> 13288,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN |-> 13289,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN |-> 13290,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE |-> 13291,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN |-> 13292,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN |-> 13293,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN |-> 13294,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN |-> 13295,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN |-> 13296,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN |-> 13297,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN |-> 13298,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY |-> 13299,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE |-> 13300,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO |-> 13301,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE |-> 13302,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR |-> 13303,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE |-> 13304,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX |-> 13305,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN |-> 13306,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT |-> 13307,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE |-> 13308,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY |-> 13309,
  IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE |-> 13310,
  SQUARE_GAL |-> 13311
]

NamesOf(set) == CASE set = "digits" -> DigitsNames [] set = "alphabets" -> AlphabetsNames
                  [] set = "punctuations" -> PunctuationsNames [] set = "kanas" -> KanasNames
                  [] set = "cjk" -> CjkNames
Target(c) == IF c >= CjkFirst /\ c < CjkFirst + 256 THEN CjkTargets[c - CjkFirst + 1] ELSE <<PresetMap[c]>>
NamedItem(set, n) == << <<NamesOf(set)[n]>>, Target(NamesOf(set)[n]) >>

\* the names of a set are as many as its pairs, and convert from all its sources
ASSUME NamesShape ==
    /\ \A s \in {<<DigitsNames, DigitMap>>, <<AlphabetsNames, AlphabetMap>>, <<PunctuationsNames, PunctuationMap>>, <<KanasNames, KanaMap>>} :
         Cardinality(DOMAIN s[1]) = Cardinality(DOMAIN s[2]) /\ {s[1][n] : n \in DOMAIN s[1]} = DOMAIN s[2]
    /\ Cardinality(DOMAIN CjkNames) = 256 /\ {CjkNames[n] : n \in DOMAIN CjkNames} = CjkFirst..(CjkFirst + 255)
===================================================================================
