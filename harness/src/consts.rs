// Generated by tools/gen_names.py.
use chanoma::characters_set::prelude::*;
use chanoma::{Corr, Item};

pub const CONSTS: &[(&str, &str, fn() -> Vec<Item>)] = &[
    ("digits", "DIGIT_ZERO", || Digits::DIGIT_ZERO.items()),
    ("digits", "DIGIT_ONE", || Digits::DIGIT_ONE.items()),
    ("digits", "DIGIT_TWO", || Digits::DIGIT_TWO.items()),
    ("digits", "DIGIT_THREE", || Digits::DIGIT_THREE.items()),
    ("digits", "DIGIT_FOUR", || Digits::DIGIT_FOUR.items()),
    ("digits", "DIGIT_FIVE", || Digits::DIGIT_FIVE.items()),
    ("digits", "DIGIT_SIX", || Digits::DIGIT_SIX.items()),
    ("digits", "DIGIT_SEVEN", || Digits::DIGIT_SEVEN.items()),
    ("digits", "DIGIT_EIGHT", || Digits::DIGIT_EIGHT.items()),
    ("digits", "DIGIT_NINE", || Digits::DIGIT_NINE.items()),
    ("alphabets", "CAPITAL_LETTER_A", || Alphabets::CAPITAL_LETTER_A.items()),
    ("alphabets", "CAPITAL_LETTER_B", || Alphabets::CAPITAL_LETTER_B.items()),
    ("alphabets", "CAPITAL_LETTER_C", || Alphabets::CAPITAL_LETTER_C.items()),
    ("alphabets", "CAPITAL_LETTER_D", || Alphabets::CAPITAL_LETTER_D.items()),
    ("alphabets", "CAPITAL_LETTER_E", || Alphabets::CAPITAL_LETTER_E.items()),
    ("alphabets", "CAPITAL_LETTER_F", || Alphabets::CAPITAL_LETTER_F.items()),
    ("alphabets", "CAPITAL_LETTER_G", || Alphabets::CAPITAL_LETTER_G.items()),
    ("alphabets", "CAPITAL_LETTER_H", || Alphabets::CAPITAL_LETTER_H.items()),
    ("alphabets", "CAPITAL_LETTER_I", || Alphabets::CAPITAL_LETTER_I.items()),
    ("alphabets", "CAPITAL_LETTER_J", || Alphabets::CAPITAL_LETTER_J.items()),
    ("alphabets", "CAPITAL_LETTER_K", || Alphabets::CAPITAL_LETTER_K.items()),
    ("alphabets", "CAPITAL_LETTER_L", || Alphabets::CAPITAL_LETTER_L.items()),
    ("alphabets", "CAPITAL_LETTER_M", || Alphabets::CAPITAL_LETTER_M.items()),
    ("alphabets", "CAPITAL_LETTER_N", || Alphabets::CAPITAL_LETTER_N.items()),
    ("alphabets", "CAPITAL_LETTER_O", || Alphabets::CAPITAL_LETTER_O.items()),
    ("alphabets", "CAPITAL_LETTER_P", || Alphabets::CAPITAL_LETTER_P.items()),
    ("alphabets", "CAPITAL_LETTER_Q", || Alphabets::CAPITAL_LETTER_Q.items()),
    ("alphabets", "CAPITAL_LETTER_R", || Alphabets::CAPITAL_LETTER_R.items()),
    ("alphabets", "CAPITAL_LETTER_S", || Alphabets::CAPITAL_LETTER_S.items()),
    ("alphabets", "CAPITAL_LETTER_T", || Alphabets::CAPITAL_LETTER_T.items()),
    ("alphabets", "CAPITAL_LETTER_U", || Alphabets::CAPITAL_LETTER_U.items()),
    ("alphabets", "CAPITAL_LETTER_V", || Alphabets::CAPITAL_LETTER_V.items()),
    ("alphabets", "CAPITAL_LETTER_W", || Alphabets::CAPITAL_LETTER_W.items()),
    ("alphabets", "CAPITAL_LETTER_X", || Alphabets::CAPITAL_LETTER_X.items()),
    ("alphabets", "CAPITAL_LETTER_Y", || Alphabets::CAPITAL_LETTER_Y.items()),
    ("alphabets", "CAPITAL_LETTER_Z", || Alphabets::CAPITAL_LETTER_Z.items()),
    ("alphabets", "SMALL_LETTER_A", || Alphabets::SMALL_LETTER_A.items()),
    ("alphabets", "SMALL_LETTER_B", || Alphabets::SMALL_LETTER_B.items()),
    ("alphabets", "SMALL_LETTER_C", || Alphabets::SMALL_LETTER_C.items()),
    ("alphabets", "SMALL_LETTER_D", || Alphabets::SMALL_LETTER_D.items()),
    ("alphabets", "SMALL_LETTER_E", || Alphabets::SMALL_LETTER_E.items()),
    ("alphabets", "SMALL_LETTER_F", || Alphabets::SMALL_LETTER_F.items()),
    ("alphabets", "SMALL_LETTER_G", || Alphabets::SMALL_LETTER_G.items()),
    ("alphabets", "SMALL_LETTER_H", || Alphabets::SMALL_LETTER_H.items()),
    ("alphabets", "SMALL_LETTER_I", || Alphabets::SMALL_LETTER_I.items()),
    ("alphabets", "SMALL_LETTER_J", || Alphabets::SMALL_LETTER_J.items()),
    ("alphabets", "SMALL_LETTER_K", || Alphabets::SMALL_LETTER_K.items()),
    ("alphabets", "SMALL_LETTER_L", || Alphabets::SMALL_LETTER_L.items()),
    ("alphabets", "SMALL_LETTER_M", || Alphabets::SMALL_LETTER_M.items()),
    ("alphabets", "SMALL_LETTER_N", || Alphabets::SMALL_LETTER_N.items()),
    ("alphabets", "SMALL_LETTER_O", || Alphabets::SMALL_LETTER_O.items()),
    ("alphabets", "SMALL_LETTER_P", || Alphabets::SMALL_LETTER_P.items()),
    ("alphabets", "SMALL_LETTER_Q", || Alphabets::SMALL_LETTER_Q.items()),
    ("alphabets", "SMALL_LETTER_R", || Alphabets::SMALL_LETTER_R.items()),
    ("alphabets", "SMALL_LETTER_S", || Alphabets::SMALL_LETTER_S.items()),
    ("alphabets", "SMALL_LETTER_T", || Alphabets::SMALL_LETTER_T.items()),
    ("alphabets", "SMALL_LETTER_U", || Alphabets::SMALL_LETTER_U.items()),
    ("alphabets", "SMALL_LETTER_V", || Alphabets::SMALL_LETTER_V.items()),
    ("alphabets", "SMALL_LETTER_W", || Alphabets::SMALL_LETTER_W.items()),
    ("alphabets", "SMALL_LETTER_X", || Alphabets::SMALL_LETTER_X.items()),
    ("alphabets", "SMALL_LETTER_Y", || Alphabets::SMALL_LETTER_Y.items()),
    ("alphabets", "SMALL_LETTER_Z", || Alphabets::SMALL_LETTER_Z.items()),
    ("punctuations", "EXCLAMATION_MARK", || Punctuations::EXCLAMATION_MARK.items()),
    ("punctuations", "QUOTATION_MARK", || Punctuations::QUOTATION_MARK.items()),
    ("punctuations", "SHARP", || Punctuations::SHARP.items()),
    ("punctuations", "DOLLER_SIGN", || Punctuations::DOLLER_SIGN.items()),
    ("punctuations", "PERCENT_SIGN", || Punctuations::PERCENT_SIGN.items()),
    ("punctuations", "AMPERSAND", || Punctuations::AMPERSAND.items()),
    ("punctuations", "APOSTROPHE", || Punctuations::APOSTROPHE.items()),
    ("punctuations", "LEFT_PARENTHESIS", || Punctuations::LEFT_PARENTHESIS.items()),
    ("punctuations", "RIGHT_PARENTHESIS", || Punctuations::RIGHT_PARENTHESIS.items()),
    ("punctuations", "ASTERISK", || Punctuations::ASTERISK.items()),
    ("punctuations", "PLUS_SIGN", || Punctuations::PLUS_SIGN.items()),
    ("punctuations", "COMMA", || Punctuations::COMMA.items()),
    ("punctuations", "HYPHEN_MINUS", || Punctuations::HYPHEN_MINUS.items()),
    ("punctuations", "FULL_STOP", || Punctuations::FULL_STOP.items()),
    ("punctuations", "SLASH", || Punctuations::SLASH.items()),
    ("punctuations", "COLON", || Punctuations::COLON.items()),
    ("punctuations", "SEMI_COLON", || Punctuations::SEMI_COLON.items()),
    ("punctuations", "LESS_THAN_SIGN", || Punctuations::LESS_THAN_SIGN.items()),
    ("punctuations", "EQUAL_SIGN", || Punctuations::EQUAL_SIGN.items()),
    ("punctuations", "GREATER_THAN_SIGN", || Punctuations::GREATER_THAN_SIGN.items()),
    ("punctuations", "QUESTION_MARK", || Punctuations::QUESTION_MARK.items()),
    ("punctuations", "AT_SIGN", || Punctuations::AT_SIGN.items()),
    ("punctuations", "LEFT_SQUARE_BRACKET", || Punctuations::LEFT_SQUARE_BRACKET.items()),
    ("punctuations", "BACKSLASH", || Punctuations::BACKSLASH.items()),
    ("punctuations", "RIGHT_SQUARE_BRACKET", || Punctuations::RIGHT_SQUARE_BRACKET.items()),
    ("punctuations", "CIRCUMFLEX_ACCENT", || Punctuations::CIRCUMFLEX_ACCENT.items()),
    ("punctuations", "LOW_LINE", || Punctuations::LOW_LINE.items()),
    ("punctuations", "GRAVE_ACCENT", || Punctuations::GRAVE_ACCENT.items()),
    ("punctuations", "LEFT_CURLY_BRACKET", || Punctuations::LEFT_CURLY_BRACKET.items()),
    ("punctuations", "VERTICAL_BAR", || Punctuations::VERTICAL_BAR.items()),
    ("punctuations", "RIGHT_CURLY_BRACKET", || Punctuations::RIGHT_CURLY_BRACKET.items()),
    ("punctuations", "YEN_SIGN", || Punctuations::YEN_SIGN.items()),
    ("punctuations", "TILDE", || Punctuations::TILDE.items()),
    ("kanas", "IDEOGRAPHIC_FULL_STOP", || Kanas::IDEOGRAPHIC_FULL_STOP.items()),
    ("kanas", "LEFT_CORNER_BRACKET", || Kanas::LEFT_CORNER_BRACKET.items()),
    ("kanas", "RIGHT_CORNER_BRACKET", || Kanas::RIGHT_CORNER_BRACKET.items()),
    ("kanas", "IDEOGRAPHIC_COMMA", || Kanas::IDEOGRAPHIC_COMMA.items()),
    ("kanas", "KATAKANA_MIDDLE_DOT", || Kanas::KATAKANA_MIDDLE_DOT.items()),
    ("kanas", "KATAKANA_LETTER_WO", || Kanas::KATAKANA_LETTER_WO.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_A", || Kanas::KATAKANA_LETTER_SMALL_A.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_I", || Kanas::KATAKANA_LETTER_SMALL_I.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_U", || Kanas::KATAKANA_LETTER_SMALL_U.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_E", || Kanas::KATAKANA_LETTER_SMALL_E.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_O", || Kanas::KATAKANA_LETTER_SMALL_O.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_YA", || Kanas::KATAKANA_LETTER_SMALL_YA.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_YU", || Kanas::KATAKANA_LETTER_SMALL_YU.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_YO", || Kanas::KATAKANA_LETTER_SMALL_YO.items()),
    ("kanas", "KATAKANA_LETTER_SMALL_TU", || Kanas::KATAKANA_LETTER_SMALL_TU.items()),
    ("kanas", "KATAKANA_LETTER_A", || Kanas::KATAKANA_LETTER_A.items()),
    ("kanas", "KATAKANA_LETTER_I", || Kanas::KATAKANA_LETTER_I.items()),
    ("kanas", "KATAKANA_LETTER_U", || Kanas::KATAKANA_LETTER_U.items()),
    ("kanas", "KATAKANA_LETTER_E", || Kanas::KATAKANA_LETTER_E.items()),
    ("kanas", "KATAKANA_LETTER_O", || Kanas::KATAKANA_LETTER_O.items()),
    ("kanas", "KATAKANA_LETTER_KA", || Kanas::KATAKANA_LETTER_KA.items()),
    ("kanas", "KATAKANA_LETTER_KI", || Kanas::KATAKANA_LETTER_KI.items()),
    ("kanas", "KATAKANA_LETTER_KU", || Kanas::KATAKANA_LETTER_KU.items()),
    ("kanas", "KATAKANA_LETTER_KE", || Kanas::KATAKANA_LETTER_KE.items()),
    ("kanas", "KATAKANA_LETTER_KO", || Kanas::KATAKANA_LETTER_KO.items()),
    ("kanas", "KATAKANA_LETTER_SA", || Kanas::KATAKANA_LETTER_SA.items()),
    ("kanas", "KATAKANA_LETTER_SI", || Kanas::KATAKANA_LETTER_SI.items()),
    ("kanas", "KATAKANA_LETTER_SU", || Kanas::KATAKANA_LETTER_SU.items()),
    ("kanas", "KATAKANA_LETTER_SE", || Kanas::KATAKANA_LETTER_SE.items()),
    ("kanas", "KATAKANA_LETTER_SO", || Kanas::KATAKANA_LETTER_SO.items()),
    ("kanas", "KATAKANA_LETTER_TA", || Kanas::KATAKANA_LETTER_TA.items()),
    ("kanas", "KATAKANA_LETTER_TI", || Kanas::KATAKANA_LETTER_TI.items()),
    ("kanas", "KATAKANA_LETTER_TU", || Kanas::KATAKANA_LETTER_TU.items()),
    ("kanas", "KATAKANA_LETTER_TE", || Kanas::KATAKANA_LETTER_TE.items()),
    ("kanas", "KATAKANA_LETTER_TO", || Kanas::KATAKANA_LETTER_TO.items()),
    ("kanas", "KATAKANA_LETTER_NA", || Kanas::KATAKANA_LETTER_NA.items()),
    ("kanas", "KATAKANA_LETTER_NI", || Kanas::KATAKANA_LETTER_NI.items()),
    ("kanas", "KATAKANA_LETTER_NU", || Kanas::KATAKANA_LETTER_NU.items()),
    ("kanas", "KATAKANA_LETTER_NE", || Kanas::KATAKANA_LETTER_NE.items()),
    ("kanas", "KATAKANA_LETTER_NO", || Kanas::KATAKANA_LETTER_NO.items()),
    ("kanas", "KATAKANA_LETTER_HA", || Kanas::KATAKANA_LETTER_HA.items()),
    ("kanas", "KATAKANA_LETTER_HI", || Kanas::KATAKANA_LETTER_HI.items()),
    ("kanas", "KATAKANA_LETTER_HU", || Kanas::KATAKANA_LETTER_HU.items()),
    ("kanas", "KATAKANA_LETTER_HE", || Kanas::KATAKANA_LETTER_HE.items()),
    ("kanas", "KATAKANA_LETTER_HO", || Kanas::KATAKANA_LETTER_HO.items()),
    ("kanas", "KATAKANA_LETTER_MA", || Kanas::KATAKANA_LETTER_MA.items()),
    ("kanas", "KATAKANA_LETTER_MI", || Kanas::KATAKANA_LETTER_MI.items()),
    ("kanas", "KATAKANA_LETTER_MU", || Kanas::KATAKANA_LETTER_MU.items()),
    ("kanas", "KATAKANA_LETTER_ME", || Kanas::KATAKANA_LETTER_ME.items()),
    ("kanas", "KATAKANA_LETTER_MO", || Kanas::KATAKANA_LETTER_MO.items()),
    ("kanas", "KATAKANA_LETTER_YA", || Kanas::KATAKANA_LETTER_YA.items()),
    ("kanas", "KATAKANA_LETTER_YU", || Kanas::KATAKANA_LETTER_YU.items()),
    ("kanas", "KATAKANA_LETTER_YO", || Kanas::KATAKANA_LETTER_YO.items()),
    ("kanas", "KATAKANA_LETTER_RA", || Kanas::KATAKANA_LETTER_RA.items()),
    ("kanas", "KATAKANA_LETTER_RI", || Kanas::KATAKANA_LETTER_RI.items()),
    ("kanas", "KATAKANA_LETTER_RU", || Kanas::KATAKANA_LETTER_RU.items()),
    ("kanas", "KATAKANA_LETTER_RE", || Kanas::KATAKANA_LETTER_RE.items()),
    ("kanas", "KATAKANA_LETTER_RO", || Kanas::KATAKANA_LETTER_RO.items()),
    ("kanas", "KATAKANA_LETTER_WA", || Kanas::KATAKANA_LETTER_WA.items()),
    ("kanas", "KATAKANA_LETTER_N", || Kanas::KATAKANA_LETTER_N.items()),
    ("kanas", "IDEOGRAPHIC_SPACE", || Kanas::IDEOGRAPHIC_SPACE.items()),
    ("cjk", "SQUARE_APAATO", || SQUARE_APAATO.items()),
    ("cjk", "SQUARE_ARUHUA", || SQUARE_ARUHUA.items()),
    ("cjk", "SQUARE_ANPEA", || SQUARE_ANPEA.items()),
    ("cjk", "SQUARE_AARU", || SQUARE_AARU.items()),
    ("cjk", "SQUARE_ININGU", || SQUARE_ININGU.items()),
    ("cjk", "SQUARE_INTI", || SQUARE_INTI.items()),
    ("cjk", "SQUARE_UON", || SQUARE_UON.items()),
    ("cjk", "SQUARE_ESUKUUDO", || SQUARE_ESUKUUDO.items()),
    ("cjk", "SQUARE_EEKAA", || SQUARE_EEKAA.items()),
    ("cjk", "SQUARE_ONSU", || SQUARE_ONSU.items()),
    ("cjk", "SQUARE_OOMU", || SQUARE_OOMU.items()),
    ("cjk", "SQUARE_KAIRI", || SQUARE_KAIRI.items()),
    ("cjk", "SQUARE_KARATTO", || SQUARE_KARATTO.items()),
    ("cjk", "SQUARE_KARORII", || SQUARE_KARORII.items()),
    ("cjk", "SQUARE_GARON", || SQUARE_GARON.items()),
    ("cjk", "SQUARE_GANMA", || SQUARE_GANMA.items()),
    ("cjk", "SQUARE_GIGA", || SQUARE_GIGA.items()),
    ("cjk", "SQUARE_GINII", || SQUARE_GINII.items()),
    ("cjk", "SQUARE_KYURII", || SQUARE_KYURII.items()),
    ("cjk", "SQUARE_GIRUDAA", || SQUARE_GIRUDAA.items()),
    ("cjk", "SQUARE_KIRO", || SQUARE_KIRO.items()),
    ("cjk", "SQUARE_KIROGURAMU", || SQUARE_KIROGURAMU.items()),
    ("cjk", "SQUARE_KIROMEETORU", || SQUARE_KIROMEETORU.items()),
    ("cjk", "SQUARE_KIROWATTO", || SQUARE_KIROWATTO.items()),
    ("cjk", "SQUARE_GURAMU", || SQUARE_GURAMU.items()),
    ("cjk", "SQUARE_GURAMUTON", || SQUARE_GURAMUTON.items()),
    ("cjk", "SQUARE_KURUZEIRO", || SQUARE_KURUZEIRO.items()),
    ("cjk", "SQUARE_KUROONE", || SQUARE_KUROONE.items()),
    ("cjk", "SQUARE_KEESU", || SQUARE_KEESU.items()),
    ("cjk", "SQUARE_KORUNA", || SQUARE_KORUNA.items()),
    ("cjk", "SQUARE_KOOPO", || SQUARE_KOOPO.items()),
    ("cjk", "SQUARE_SAIKURU", || SQUARE_SAIKURU.items()),
    ("cjk", "SQUARE_SANTIIMU", || SQUARE_SANTIIMU.items()),
    ("cjk", "SQUARE_SIRINGU", || SQUARE_SIRINGU.items()),
    ("cjk", "SQUARE_SENTI", || SQUARE_SENTI.items()),
    ("cjk", "SQUARE_SENTO", || SQUARE_SENTO.items()),
    ("cjk", "SQUARE_DAASU", || SQUARE_DAASU.items()),
    ("cjk", "SQUARE_DESI", || SQUARE_DESI.items()),
    ("cjk", "SQUARE_DORU", || SQUARE_DORU.items()),
    ("cjk", "SQUARE_TON", || SQUARE_TON.items()),
    ("cjk", "SQUARE_NANO", || SQUARE_NANO.items()),
    ("cjk", "SQUARE_NOTTO", || SQUARE_NOTTO.items()),
    ("cjk", "SQUARE_HAITU", || SQUARE_HAITU.items()),
    ("cjk", "SQUARE_PAASENTO", || SQUARE_PAASENTO.items()),
    ("cjk", "SQUARE_PAATU", || SQUARE_PAATU.items()),
    ("cjk", "SQUARE_BAARERU", || SQUARE_BAARERU.items()),
    ("cjk", "SQUARE_PIASUTORU", || SQUARE_PIASUTORU.items()),
    ("cjk", "SQUARE_PIKURU", || SQUARE_PIKURU.items()),
    ("cjk", "SQUARE_PIKO", || SQUARE_PIKO.items()),
    ("cjk", "SQUARE_BIRU", || SQUARE_BIRU.items()),
    ("cjk", "SQUARE_HUARADDO", || SQUARE_HUARADDO.items()),
    ("cjk", "SQUARE_HUIITO", || SQUARE_HUIITO.items()),
    ("cjk", "SQUARE_BUSSYERU", || SQUARE_BUSSYERU.items()),
    ("cjk", "SQUARE_HURAN", || SQUARE_HURAN.items()),
    ("cjk", "SQUARE_HEKUTAARU", || SQUARE_HEKUTAARU.items()),
    ("cjk", "SQUARE_PESO", || SQUARE_PESO.items()),
    ("cjk", "SQUARE_PENIHI", || SQUARE_PENIHI.items()),
    ("cjk", "SQUARE_HERUTU", || SQUARE_HERUTU.items()),
    ("cjk", "SQUARE_PENSU", || SQUARE_PENSU.items()),
    ("cjk", "SQUARE_PEEZI", || SQUARE_PEEZI.items()),
    ("cjk", "SQUARE_BEETA", || SQUARE_BEETA.items()),
    ("cjk", "SQUARE_POINTO", || SQUARE_POINTO.items()),
    ("cjk", "SQUARE_BORUTO", || SQUARE_BORUTO.items()),
    ("cjk", "SQUARE_HON", || SQUARE_HON.items()),
    ("cjk", "SQUARE_PONDO", || SQUARE_PONDO.items()),
    ("cjk", "SQUARE_HOORU", || SQUARE_HOORU.items()),
    ("cjk", "SQUARE_HOON", || SQUARE_HOON.items()),
    ("cjk", "SQUARE_MAIKURO", || SQUARE_MAIKURO.items()),
    ("cjk", "SQUARE_MAIRU", || SQUARE_MAIRU.items()),
    ("cjk", "SQUARE_MAHHA", || SQUARE_MAHHA.items()),
    ("cjk", "SQUARE_MARUKU", || SQUARE_MARUKU.items()),
    ("cjk", "SQUARE_MANSYON", || SQUARE_MANSYON.items()),
    ("cjk", "SQUARE_MIKURON", || SQUARE_MIKURON.items()),
    ("cjk", "SQUARE_MIRI", || SQUARE_MIRI.items()),
    ("cjk", "SQUARE_MIRIBAARU", || SQUARE_MIRIBAARU.items()),
    ("cjk", "SQUARE_MEGA", || SQUARE_MEGA.items()),
    ("cjk", "SQUARE_MEGATON", || SQUARE_MEGATON.items()),
    ("cjk", "SQUARE_MEETORU", || SQUARE_MEETORU.items()),
    ("cjk", "SQUARE_YAADO", || SQUARE_YAADO.items()),
    ("cjk", "SQUARE_YAARU", || SQUARE_YAARU.items()),
    ("cjk", "SQUARE_YUAN", || SQUARE_YUAN.items()),
    ("cjk", "SQUARE_RITTORU", || SQUARE_RITTORU.items()),
    ("cjk", "SQUARE_RIRA", || SQUARE_RIRA.items()),
    ("cjk", "SQUARE_RUPII", || SQUARE_RUPII.items()),
    ("cjk", "SQUARE_RUUBURU", || SQUARE_RUUBURU.items()),
    ("cjk", "SQUARE_REMU", || SQUARE_REMU.items()),
    ("cjk", "SQUARE_RENTOGEN", || SQUARE_RENTOGEN.items()),
    ("cjk", "SQUARE_WATTO", || SQUARE_WATTO.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR.items()),
    ("cjk", "SQUARE_HPA", || SQUARE_HPA.items()),
    ("cjk", "SQUARE_DA", || SQUARE_DA.items()),
    ("cjk", "SQUARE_AU", || SQUARE_AU.items()),
    ("cjk", "SQUARE_BAR", || SQUARE_BAR.items()),
    ("cjk", "SQUARE_OV", || SQUARE_OV.items()),
    ("cjk", "SQUARE_PC", || SQUARE_PC.items()),
    ("cjk", "SQUARE_DM", || SQUARE_DM.items()),
    ("cjk", "SQUARE_DM_SQUARED", || SQUARE_DM_SQUARED.items()),
    ("cjk", "SQUARE_DM_CUBED", || SQUARE_DM_CUBED.items()),
    ("cjk", "SQUARE_IU", || SQUARE_IU.items()),
    ("cjk", "SQUARE_ERA_NAME_HEISEI", || SQUARE_ERA_NAME_HEISEI.items()),
    ("cjk", "SQUARE_ERA_NAME_SYOUWA", || SQUARE_ERA_NAME_SYOUWA.items()),
    ("cjk", "SQUARE_ERA_NAME_TAISYOU", || SQUARE_ERA_NAME_TAISYOU.items()),
    ("cjk", "SQUARE_ERA_NAME_MEIZI", || SQUARE_ERA_NAME_MEIZI.items()),
    ("cjk", "SQUARE_CORPORATION", || SQUARE_CORPORATION.items()),
    ("cjk", "SQUARE_PA_AMPS", || SQUARE_PA_AMPS.items()),
    ("cjk", "SQUARE_NA", || SQUARE_NA.items()),
    ("cjk", "SQUARE_MU_A", || SQUARE_MU_A.items()),
    ("cjk", "SQUARE_MA", || SQUARE_MA.items()),
    ("cjk", "SQUARE_KA", || SQUARE_KA.items()),
    ("cjk", "SQUARE_KB", || SQUARE_KB.items()),
    ("cjk", "SQUARE_MB", || SQUARE_MB.items()),
    ("cjk", "SQUARE_GB", || SQUARE_GB.items()),
    ("cjk", "SQUARE_CAL", || SQUARE_CAL.items()),
    ("cjk", "SQUARE_KCAL", || SQUARE_KCAL.items()),
    ("cjk", "SQUARE_PF", || SQUARE_PF.items()),
    ("cjk", "SQUARE_NF", || SQUARE_NF.items()),
    ("cjk", "SQUARE_MU_F", || SQUARE_MU_F.items()),
    ("cjk", "SQUARE_MU_G", || SQUARE_MU_G.items()),
    ("cjk", "SQUARE_MG", || SQUARE_MG.items()),
    ("cjk", "SQUARE_KG", || SQUARE_KG.items()),
    ("cjk", "SQUARE_HZ", || SQUARE_HZ.items()),
    ("cjk", "SQUARE_KHZ", || SQUARE_KHZ.items()),
    ("cjk", "SQUARE_MHZ", || SQUARE_MHZ.items()),
    ("cjk", "SQUARE_GHZ", || SQUARE_GHZ.items()),
    ("cjk", "SQUARE_THZ", || SQUARE_THZ.items()),
    ("cjk", "SQUARE_MU_L", || SQUARE_MU_L.items()),
    ("cjk", "SQUARE_ML", || SQUARE_ML.items()),
    ("cjk", "SQUARE_DL", || SQUARE_DL.items()),
    ("cjk", "SQUARE_KL", || SQUARE_KL.items()),
    ("cjk", "SQUARE_FM", || SQUARE_FM.items()),
    ("cjk", "SQUARE_NM", || SQUARE_NM.items()),
    ("cjk", "SQUARE_MU_M", || SQUARE_MU_M.items()),
    ("cjk", "SQUARE_MM", || SQUARE_MM.items()),
    ("cjk", "SQUARE_CM", || SQUARE_CM.items()),
    ("cjk", "SQUARE_KM", || SQUARE_KM.items()),
    ("cjk", "SQUARE_MM_SQUARED", || SQUARE_MM_SQUARED.items()),
    ("cjk", "SQUARE_CM_SQUARED", || SQUARE_CM_SQUARED.items()),
    ("cjk", "SQUARE_M_SQUARED", || SQUARE_M_SQUARED.items()),
    ("cjk", "SQUARE_KM_SQUARED", || SQUARE_KM_SQUARED.items()),
    ("cjk", "SQUARE_MM_CUBED", || SQUARE_MM_CUBED.items()),
    ("cjk", "SQUARE_CM_CUBED", || SQUARE_CM_CUBED.items()),
    ("cjk", "SQUARE_M_CUBED", || SQUARE_M_CUBED.items()),
    ("cjk", "SQUARE_KM_CUBED", || SQUARE_KM_CUBED.items()),
    ("cjk", "SQUARE_M_OVER_S", || SQUARE_M_OVER_S.items()),
    ("cjk", "SQUARE_M_OVER_S_SQUARED", || SQUARE_M_OVER_S_SQUARED.items()),
    ("cjk", "SQUARE_PA", || SQUARE_PA.items()),
    ("cjk", "SQUARE_KPA", || SQUARE_KPA.items()),
    ("cjk", "SQUARE_MPA", || SQUARE_MPA.items()),
    ("cjk", "SQUARE_GPA", || SQUARE_GPA.items()),
    ("cjk", "SQUARE_RAD", || SQUARE_RAD.items()),
    ("cjk", "SQUARE_RAD_OVER_S", || SQUARE_RAD_OVER_S.items()),
    ("cjk", "SQUARE_RAD_OVER_S_SQUARED", || SQUARE_RAD_OVER_S_SQUARED.items()),
    ("cjk", "SQUARE_PS", || SQUARE_PS.items()),
    ("cjk", "SQUARE_NS", || SQUARE_NS.items()),
    ("cjk", "SQUARE_MU_S", || SQUARE_MU_S.items()),
    ("cjk", "SQUARE_MS", || SQUARE_MS.items()),
    ("cjk", "SQUARE_PV", || SQUARE_PV.items()),
    ("cjk", "SQUARE_NV", || SQUARE_NV.items()),
    ("cjk", "SQUARE_MU_V", || SQUARE_MU_V.items()),
    ("cjk", "SQUARE_MV", || SQUARE_MV.items()),
    ("cjk", "SQUARE_KV", || SQUARE_KV.items()),
    ("cjk", "SQUARE_MV_MEGA", || SQUARE_MV_MEGA.items()),
    ("cjk", "SQUARE_PW", || SQUARE_PW.items()),
    ("cjk", "SQUARE_NW", || SQUARE_NW.items()),
    ("cjk", "SQUARE_MU_W", || SQUARE_MU_W.items()),
    ("cjk", "SQUARE_MW", || SQUARE_MW.items()),
    ("cjk", "SQUARE_KW", || SQUARE_KW.items()),
    ("cjk", "SQUARE_MW_MEGA", || SQUARE_MW_MEGA.items()),
    ("cjk", "SQUARE_K_OHM", || SQUARE_K_OHM.items()),
    ("cjk", "SQUARE_M_OHM", || SQUARE_M_OHM.items()),
    ("cjk", "SQUARE_AM", || SQUARE_AM.items()),
    ("cjk", "SQUARE_BQ", || SQUARE_BQ.items()),
    ("cjk", "SQUARE_CC", || SQUARE_CC.items()),
    ("cjk", "SQUARE_CD", || SQUARE_CD.items()),
    ("cjk", "SQUARE_C_OVER_KG", || SQUARE_C_OVER_KG.items()),
    ("cjk", "SQUARE_CO", || SQUARE_CO.items()),
    ("cjk", "SQUARE_DB", || SQUARE_DB.items()),
    ("cjk", "SQUARE_GY", || SQUARE_GY.items()),
    ("cjk", "SQUARE_HA", || SQUARE_HA.items()),
    ("cjk", "SQUARE_HP", || SQUARE_HP.items()),
    ("cjk", "SQUARE_IN", || SQUARE_IN.items()),
    ("cjk", "SQUARE_KK", || SQUARE_KK.items()),
    ("cjk", "SQUARE_KM_CAPITAL", || SQUARE_KM_CAPITAL.items()),
    ("cjk", "SQUARE_KT", || SQUARE_KT.items()),
    ("cjk", "SQUARE_LM", || SQUARE_LM.items()),
    ("cjk", "SQUARE_LN", || SQUARE_LN.items()),
    ("cjk", "SQUARE_LOG", || SQUARE_LOG.items()),
    ("cjk", "SQUARE_LX", || SQUARE_LX.items()),
    ("cjk", "SQUARE_MB_SMALL", || SQUARE_MB_SMALL.items()),
    ("cjk", "SQUARE_MIL", || SQUARE_MIL.items()),
    ("cjk", "SQUARE_MOL", || SQUARE_MOL.items()),
    ("cjk", "SQUARE_PH", || SQUARE_PH.items()),
    ("cjk", "SQUARE_PM", || SQUARE_PM.items()),
    ("cjk", "SQUARE_PPM", || SQUARE_PPM.items()),
    ("cjk", "SQUARE_PR", || SQUARE_PR.items()),
    ("cjk", "SQUARE_SR", || SQUARE_SR.items()),
    ("cjk", "SQUARE_SV", || SQUARE_SV.items()),
    ("cjk", "SQUARE_WB", || SQUARE_WB.items()),
    ("cjk", "SQUARE_V_OVER_M", || SQUARE_V_OVER_M.items()),
    ("cjk", "SQUARE_A_OVER_M", || SQUARE_A_OVER_M.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY.items()),
    ("cjk", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE", || IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE.items()),
    ("cjk", "SQUARE_GAL", || SQUARE_GAL.items()),
];
