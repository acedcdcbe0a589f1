//! Written by lib/gen_sets.py: every constant of the preset tables by name.
use chanoma::{Corr, Item};
pub fn consts() -> Vec<(&'static str, Vec<Item>)> {
    vec![
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_A", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_A.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_B", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_B.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_C", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_C.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_D", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_D.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_E", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_E.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_F", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_F.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_G", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_G.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_H", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_H.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_I", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_I.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_J", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_J.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_K", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_K.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_L", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_L.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_M", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_M.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_N", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_N.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_O", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_O.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_P", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_P.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_Q", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_Q.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_R", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_R.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_S", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_S.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_T", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_T.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_U", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_U.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_V", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_V.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_W", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_W.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_X", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_X.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_Y", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_Y.items()),
        ("characters_set::alphabets::Alphabets::CAPITAL_LETTER_Z", chanoma::characters_set::alphabets::Alphabets::CAPITAL_LETTER_Z.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_A", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_A.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_B", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_B.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_C", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_C.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_D", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_D.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_E", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_E.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_F", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_F.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_G", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_G.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_H", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_H.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_I", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_I.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_J", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_J.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_K", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_K.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_L", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_L.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_M", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_M.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_N", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_N.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_O", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_O.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_P", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_P.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_Q", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_Q.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_R", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_R.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_S", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_S.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_T", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_T.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_U", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_U.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_V", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_V.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_W", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_W.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_X", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_X.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_Y", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_Y.items()),
        ("characters_set::alphabets::Alphabets::SMALL_LETTER_Z", chanoma::characters_set::alphabets::Alphabets::SMALL_LETTER_Z.items()),
        ("characters_set::cjk_compatibilities::SQUARE_APAATO", chanoma::characters_set::cjk_compatibilities::SQUARE_APAATO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ARUHUA", chanoma::characters_set::cjk_compatibilities::SQUARE_ARUHUA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ANPEA", chanoma::characters_set::cjk_compatibilities::SQUARE_ANPEA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_AARU", chanoma::characters_set::cjk_compatibilities::SQUARE_AARU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ININGU", chanoma::characters_set::cjk_compatibilities::SQUARE_ININGU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_INTI", chanoma::characters_set::cjk_compatibilities::SQUARE_INTI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_UON", chanoma::characters_set::cjk_compatibilities::SQUARE_UON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ESUKUUDO", chanoma::characters_set::cjk_compatibilities::SQUARE_ESUKUUDO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_EEKAA", chanoma::characters_set::cjk_compatibilities::SQUARE_EEKAA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ONSU", chanoma::characters_set::cjk_compatibilities::SQUARE_ONSU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_OOMU", chanoma::characters_set::cjk_compatibilities::SQUARE_OOMU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KAIRI", chanoma::characters_set::cjk_compatibilities::SQUARE_KAIRI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KARATTO", chanoma::characters_set::cjk_compatibilities::SQUARE_KARATTO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KARORII", chanoma::characters_set::cjk_compatibilities::SQUARE_KARORII.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GARON", chanoma::characters_set::cjk_compatibilities::SQUARE_GARON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GANMA", chanoma::characters_set::cjk_compatibilities::SQUARE_GANMA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GIGA", chanoma::characters_set::cjk_compatibilities::SQUARE_GIGA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GINII", chanoma::characters_set::cjk_compatibilities::SQUARE_GINII.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KYURII", chanoma::characters_set::cjk_compatibilities::SQUARE_KYURII.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GIRUDAA", chanoma::characters_set::cjk_compatibilities::SQUARE_GIRUDAA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KIRO", chanoma::characters_set::cjk_compatibilities::SQUARE_KIRO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KIROGURAMU", chanoma::characters_set::cjk_compatibilities::SQUARE_KIROGURAMU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KIROMEETORU", chanoma::characters_set::cjk_compatibilities::SQUARE_KIROMEETORU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KIROWATTO", chanoma::characters_set::cjk_compatibilities::SQUARE_KIROWATTO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GURAMU", chanoma::characters_set::cjk_compatibilities::SQUARE_GURAMU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GURAMUTON", chanoma::characters_set::cjk_compatibilities::SQUARE_GURAMUTON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KURUZEIRO", chanoma::characters_set::cjk_compatibilities::SQUARE_KURUZEIRO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KUROONE", chanoma::characters_set::cjk_compatibilities::SQUARE_KUROONE.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KEESU", chanoma::characters_set::cjk_compatibilities::SQUARE_KEESU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KORUNA", chanoma::characters_set::cjk_compatibilities::SQUARE_KORUNA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KOOPO", chanoma::characters_set::cjk_compatibilities::SQUARE_KOOPO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_SAIKURU", chanoma::characters_set::cjk_compatibilities::SQUARE_SAIKURU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_SANTIIMU", chanoma::characters_set::cjk_compatibilities::SQUARE_SANTIIMU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_SIRINGU", chanoma::characters_set::cjk_compatibilities::SQUARE_SIRINGU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_SENTI", chanoma::characters_set::cjk_compatibilities::SQUARE_SENTI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_SENTO", chanoma::characters_set::cjk_compatibilities::SQUARE_SENTO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DAASU", chanoma::characters_set::cjk_compatibilities::SQUARE_DAASU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DESI", chanoma::characters_set::cjk_compatibilities::SQUARE_DESI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DORU", chanoma::characters_set::cjk_compatibilities::SQUARE_DORU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_TON", chanoma::characters_set::cjk_compatibilities::SQUARE_TON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_NANO", chanoma::characters_set::cjk_compatibilities::SQUARE_NANO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_NOTTO", chanoma::characters_set::cjk_compatibilities::SQUARE_NOTTO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HAITU", chanoma::characters_set::cjk_compatibilities::SQUARE_HAITU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PAASENTO", chanoma::characters_set::cjk_compatibilities::SQUARE_PAASENTO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PAATU", chanoma::characters_set::cjk_compatibilities::SQUARE_PAATU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_BAARERU", chanoma::characters_set::cjk_compatibilities::SQUARE_BAARERU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PIASUTORU", chanoma::characters_set::cjk_compatibilities::SQUARE_PIASUTORU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PIKURU", chanoma::characters_set::cjk_compatibilities::SQUARE_PIKURU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PIKO", chanoma::characters_set::cjk_compatibilities::SQUARE_PIKO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_BIRU", chanoma::characters_set::cjk_compatibilities::SQUARE_BIRU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HUARADDO", chanoma::characters_set::cjk_compatibilities::SQUARE_HUARADDO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HUIITO", chanoma::characters_set::cjk_compatibilities::SQUARE_HUIITO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_BUSSYERU", chanoma::characters_set::cjk_compatibilities::SQUARE_BUSSYERU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HURAN", chanoma::characters_set::cjk_compatibilities::SQUARE_HURAN.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HEKUTAARU", chanoma::characters_set::cjk_compatibilities::SQUARE_HEKUTAARU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PESO", chanoma::characters_set::cjk_compatibilities::SQUARE_PESO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PENIHI", chanoma::characters_set::cjk_compatibilities::SQUARE_PENIHI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HERUTU", chanoma::characters_set::cjk_compatibilities::SQUARE_HERUTU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PENSU", chanoma::characters_set::cjk_compatibilities::SQUARE_PENSU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PEEZI", chanoma::characters_set::cjk_compatibilities::SQUARE_PEEZI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_BEETA", chanoma::characters_set::cjk_compatibilities::SQUARE_BEETA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_POINTO", chanoma::characters_set::cjk_compatibilities::SQUARE_POINTO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_BORUTO", chanoma::characters_set::cjk_compatibilities::SQUARE_BORUTO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HON", chanoma::characters_set::cjk_compatibilities::SQUARE_HON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PONDO", chanoma::characters_set::cjk_compatibilities::SQUARE_PONDO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HOORU", chanoma::characters_set::cjk_compatibilities::SQUARE_HOORU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HOON", chanoma::characters_set::cjk_compatibilities::SQUARE_HOON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MAIKURO", chanoma::characters_set::cjk_compatibilities::SQUARE_MAIKURO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MAIRU", chanoma::characters_set::cjk_compatibilities::SQUARE_MAIRU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MAHHA", chanoma::characters_set::cjk_compatibilities::SQUARE_MAHHA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MARUKU", chanoma::characters_set::cjk_compatibilities::SQUARE_MARUKU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MANSYON", chanoma::characters_set::cjk_compatibilities::SQUARE_MANSYON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MIKURON", chanoma::characters_set::cjk_compatibilities::SQUARE_MIKURON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MIRI", chanoma::characters_set::cjk_compatibilities::SQUARE_MIRI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MIRIBAARU", chanoma::characters_set::cjk_compatibilities::SQUARE_MIRIBAARU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MEGA", chanoma::characters_set::cjk_compatibilities::SQUARE_MEGA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MEGATON", chanoma::characters_set::cjk_compatibilities::SQUARE_MEGATON.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MEETORU", chanoma::characters_set::cjk_compatibilities::SQUARE_MEETORU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_YAADO", chanoma::characters_set::cjk_compatibilities::SQUARE_YAADO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_YAARU", chanoma::characters_set::cjk_compatibilities::SQUARE_YAARU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_YUAN", chanoma::characters_set::cjk_compatibilities::SQUARE_YUAN.items()),
        ("characters_set::cjk_compatibilities::SQUARE_RITTORU", chanoma::characters_set::cjk_compatibilities::SQUARE_RITTORU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_RIRA", chanoma::characters_set::cjk_compatibilities::SQUARE_RIRA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_RUPII", chanoma::characters_set::cjk_compatibilities::SQUARE_RUPII.items()),
        ("characters_set::cjk_compatibilities::SQUARE_RUUBURU", chanoma::characters_set::cjk_compatibilities::SQUARE_RUUBURU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_REMU", chanoma::characters_set::cjk_compatibilities::SQUARE_REMU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_RENTOGEN", chanoma::characters_set::cjk_compatibilities::SQUARE_RENTOGEN.items()),
        ("characters_set::cjk_compatibilities::SQUARE_WATTO", chanoma::characters_set::cjk_compatibilities::SQUARE_WATTO.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HPA", chanoma::characters_set::cjk_compatibilities::SQUARE_HPA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DA", chanoma::characters_set::cjk_compatibilities::SQUARE_DA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_AU", chanoma::characters_set::cjk_compatibilities::SQUARE_AU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_BAR", chanoma::characters_set::cjk_compatibilities::SQUARE_BAR.items()),
        ("characters_set::cjk_compatibilities::SQUARE_OV", chanoma::characters_set::cjk_compatibilities::SQUARE_OV.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PC", chanoma::characters_set::cjk_compatibilities::SQUARE_PC.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DM", chanoma::characters_set::cjk_compatibilities::SQUARE_DM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DM_SQUARED", chanoma::characters_set::cjk_compatibilities::SQUARE_DM_SQUARED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DM_CUBED", chanoma::characters_set::cjk_compatibilities::SQUARE_DM_CUBED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_IU", chanoma::characters_set::cjk_compatibilities::SQUARE_IU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ERA_NAME_HEISEI", chanoma::characters_set::cjk_compatibilities::SQUARE_ERA_NAME_HEISEI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ERA_NAME_SYOUWA", chanoma::characters_set::cjk_compatibilities::SQUARE_ERA_NAME_SYOUWA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ERA_NAME_TAISYOU", chanoma::characters_set::cjk_compatibilities::SQUARE_ERA_NAME_TAISYOU.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ERA_NAME_MEIZI", chanoma::characters_set::cjk_compatibilities::SQUARE_ERA_NAME_MEIZI.items()),
        ("characters_set::cjk_compatibilities::SQUARE_CORPORATION", chanoma::characters_set::cjk_compatibilities::SQUARE_CORPORATION.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PA_AMPS", chanoma::characters_set::cjk_compatibilities::SQUARE_PA_AMPS.items()),
        ("characters_set::cjk_compatibilities::SQUARE_NA", chanoma::characters_set::cjk_compatibilities::SQUARE_NA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MU_A", chanoma::characters_set::cjk_compatibilities::SQUARE_MU_A.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MA", chanoma::characters_set::cjk_compatibilities::SQUARE_MA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KA", chanoma::characters_set::cjk_compatibilities::SQUARE_KA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KB", chanoma::characters_set::cjk_compatibilities::SQUARE_KB.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MB", chanoma::characters_set::cjk_compatibilities::SQUARE_MB.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GB", chanoma::characters_set::cjk_compatibilities::SQUARE_GB.items()),
        ("characters_set::cjk_compatibilities::SQUARE_CAL", chanoma::characters_set::cjk_compatibilities::SQUARE_CAL.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KCAL", chanoma::characters_set::cjk_compatibilities::SQUARE_KCAL.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PF", chanoma::characters_set::cjk_compatibilities::SQUARE_PF.items()),
        ("characters_set::cjk_compatibilities::SQUARE_NF", chanoma::characters_set::cjk_compatibilities::SQUARE_NF.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MU_F", chanoma::characters_set::cjk_compatibilities::SQUARE_MU_F.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MU_G", chanoma::characters_set::cjk_compatibilities::SQUARE_MU_G.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MG", chanoma::characters_set::cjk_compatibilities::SQUARE_MG.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KG", chanoma::characters_set::cjk_compatibilities::SQUARE_KG.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HZ", chanoma::characters_set::cjk_compatibilities::SQUARE_HZ.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KHZ", chanoma::characters_set::cjk_compatibilities::SQUARE_KHZ.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MHZ", chanoma::characters_set::cjk_compatibilities::SQUARE_MHZ.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GHZ", chanoma::characters_set::cjk_compatibilities::SQUARE_GHZ.items()),
        ("characters_set::cjk_compatibilities::SQUARE_THZ", chanoma::characters_set::cjk_compatibilities::SQUARE_THZ.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MU_L", chanoma::characters_set::cjk_compatibilities::SQUARE_MU_L.items()),
        ("characters_set::cjk_compatibilities::SQUARE_ML", chanoma::characters_set::cjk_compatibilities::SQUARE_ML.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DL", chanoma::characters_set::cjk_compatibilities::SQUARE_DL.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KL", chanoma::characters_set::cjk_compatibilities::SQUARE_KL.items()),
        ("characters_set::cjk_compatibilities::SQUARE_FM", chanoma::characters_set::cjk_compatibilities::SQUARE_FM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_NM", chanoma::characters_set::cjk_compatibilities::SQUARE_NM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MU_M", chanoma::characters_set::cjk_compatibilities::SQUARE_MU_M.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MM", chanoma::characters_set::cjk_compatibilities::SQUARE_MM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_CM", chanoma::characters_set::cjk_compatibilities::SQUARE_CM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KM", chanoma::characters_set::cjk_compatibilities::SQUARE_KM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MM_SQUARED", chanoma::characters_set::cjk_compatibilities::SQUARE_MM_SQUARED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_CM_SQUARED", chanoma::characters_set::cjk_compatibilities::SQUARE_CM_SQUARED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_M_SQUARED", chanoma::characters_set::cjk_compatibilities::SQUARE_M_SQUARED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KM_SQUARED", chanoma::characters_set::cjk_compatibilities::SQUARE_KM_SQUARED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MM_CUBED", chanoma::characters_set::cjk_compatibilities::SQUARE_MM_CUBED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_CM_CUBED", chanoma::characters_set::cjk_compatibilities::SQUARE_CM_CUBED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_M_CUBED", chanoma::characters_set::cjk_compatibilities::SQUARE_M_CUBED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KM_CUBED", chanoma::characters_set::cjk_compatibilities::SQUARE_KM_CUBED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_M_OVER_S", chanoma::characters_set::cjk_compatibilities::SQUARE_M_OVER_S.items()),
        ("characters_set::cjk_compatibilities::SQUARE_M_OVER_S_SQUARED", chanoma::characters_set::cjk_compatibilities::SQUARE_M_OVER_S_SQUARED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PA", chanoma::characters_set::cjk_compatibilities::SQUARE_PA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KPA", chanoma::characters_set::cjk_compatibilities::SQUARE_KPA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MPA", chanoma::characters_set::cjk_compatibilities::SQUARE_MPA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GPA", chanoma::characters_set::cjk_compatibilities::SQUARE_GPA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_RAD", chanoma::characters_set::cjk_compatibilities::SQUARE_RAD.items()),
        ("characters_set::cjk_compatibilities::SQUARE_RAD_OVER_S", chanoma::characters_set::cjk_compatibilities::SQUARE_RAD_OVER_S.items()),
        ("characters_set::cjk_compatibilities::SQUARE_RAD_OVER_S_SQUARED", chanoma::characters_set::cjk_compatibilities::SQUARE_RAD_OVER_S_SQUARED.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PS", chanoma::characters_set::cjk_compatibilities::SQUARE_PS.items()),
        ("characters_set::cjk_compatibilities::SQUARE_NS", chanoma::characters_set::cjk_compatibilities::SQUARE_NS.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MU_S", chanoma::characters_set::cjk_compatibilities::SQUARE_MU_S.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MS", chanoma::characters_set::cjk_compatibilities::SQUARE_MS.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PV", chanoma::characters_set::cjk_compatibilities::SQUARE_PV.items()),
        ("characters_set::cjk_compatibilities::SQUARE_NV", chanoma::characters_set::cjk_compatibilities::SQUARE_NV.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MU_V", chanoma::characters_set::cjk_compatibilities::SQUARE_MU_V.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MV", chanoma::characters_set::cjk_compatibilities::SQUARE_MV.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KV", chanoma::characters_set::cjk_compatibilities::SQUARE_KV.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MV_MEGA", chanoma::characters_set::cjk_compatibilities::SQUARE_MV_MEGA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PW", chanoma::characters_set::cjk_compatibilities::SQUARE_PW.items()),
        ("characters_set::cjk_compatibilities::SQUARE_NW", chanoma::characters_set::cjk_compatibilities::SQUARE_NW.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MU_W", chanoma::characters_set::cjk_compatibilities::SQUARE_MU_W.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MW", chanoma::characters_set::cjk_compatibilities::SQUARE_MW.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KW", chanoma::characters_set::cjk_compatibilities::SQUARE_KW.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MW_MEGA", chanoma::characters_set::cjk_compatibilities::SQUARE_MW_MEGA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_K_OHM", chanoma::characters_set::cjk_compatibilities::SQUARE_K_OHM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_M_OHM", chanoma::characters_set::cjk_compatibilities::SQUARE_M_OHM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_AM", chanoma::characters_set::cjk_compatibilities::SQUARE_AM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_BQ", chanoma::characters_set::cjk_compatibilities::SQUARE_BQ.items()),
        ("characters_set::cjk_compatibilities::SQUARE_CC", chanoma::characters_set::cjk_compatibilities::SQUARE_CC.items()),
        ("characters_set::cjk_compatibilities::SQUARE_CD", chanoma::characters_set::cjk_compatibilities::SQUARE_CD.items()),
        ("characters_set::cjk_compatibilities::SQUARE_C_OVER_KG", chanoma::characters_set::cjk_compatibilities::SQUARE_C_OVER_KG.items()),
        ("characters_set::cjk_compatibilities::SQUARE_CO", chanoma::characters_set::cjk_compatibilities::SQUARE_CO.items()),
        ("characters_set::cjk_compatibilities::SQUARE_DB", chanoma::characters_set::cjk_compatibilities::SQUARE_DB.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GY", chanoma::characters_set::cjk_compatibilities::SQUARE_GY.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HA", chanoma::characters_set::cjk_compatibilities::SQUARE_HA.items()),
        ("characters_set::cjk_compatibilities::SQUARE_HP", chanoma::characters_set::cjk_compatibilities::SQUARE_HP.items()),
        ("characters_set::cjk_compatibilities::SQUARE_IN", chanoma::characters_set::cjk_compatibilities::SQUARE_IN.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KK", chanoma::characters_set::cjk_compatibilities::SQUARE_KK.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KM_CAPITAL", chanoma::characters_set::cjk_compatibilities::SQUARE_KM_CAPITAL.items()),
        ("characters_set::cjk_compatibilities::SQUARE_KT", chanoma::characters_set::cjk_compatibilities::SQUARE_KT.items()),
        ("characters_set::cjk_compatibilities::SQUARE_LM", chanoma::characters_set::cjk_compatibilities::SQUARE_LM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_LN", chanoma::characters_set::cjk_compatibilities::SQUARE_LN.items()),
        ("characters_set::cjk_compatibilities::SQUARE_LOG", chanoma::characters_set::cjk_compatibilities::SQUARE_LOG.items()),
        ("characters_set::cjk_compatibilities::SQUARE_LX", chanoma::characters_set::cjk_compatibilities::SQUARE_LX.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MB_SMALL", chanoma::characters_set::cjk_compatibilities::SQUARE_MB_SMALL.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MIL", chanoma::characters_set::cjk_compatibilities::SQUARE_MIL.items()),
        ("characters_set::cjk_compatibilities::SQUARE_MOL", chanoma::characters_set::cjk_compatibilities::SQUARE_MOL.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PH", chanoma::characters_set::cjk_compatibilities::SQUARE_PH.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PM", chanoma::characters_set::cjk_compatibilities::SQUARE_PM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PPM", chanoma::characters_set::cjk_compatibilities::SQUARE_PPM.items()),
        ("characters_set::cjk_compatibilities::SQUARE_PR", chanoma::characters_set::cjk_compatibilities::SQUARE_PR.items()),
        ("characters_set::cjk_compatibilities::SQUARE_SR", chanoma::characters_set::cjk_compatibilities::SQUARE_SR.items()),
        ("characters_set::cjk_compatibilities::SQUARE_SV", chanoma::characters_set::cjk_compatibilities::SQUARE_SV.items()),
        ("characters_set::cjk_compatibilities::SQUARE_WB", chanoma::characters_set::cjk_compatibilities::SQUARE_WB.items()),
        ("characters_set::cjk_compatibilities::SQUARE_V_OVER_M", chanoma::characters_set::cjk_compatibilities::SQUARE_V_OVER_M.items()),
        ("characters_set::cjk_compatibilities::SQUARE_A_OVER_M", chanoma::characters_set::cjk_compatibilities::SQUARE_A_OVER_M.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY.items()),
        ("characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE", chanoma::characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE.items()),
        ("characters_set::cjk_compatibilities::SQUARE_GAL", chanoma::characters_set::cjk_compatibilities::SQUARE_GAL.items()),
        ("characters_set::digits::Digits::DIGIT_ZERO", chanoma::characters_set::digits::Digits::DIGIT_ZERO.items()),
        ("characters_set::digits::Digits::DIGIT_ONE", chanoma::characters_set::digits::Digits::DIGIT_ONE.items()),
        ("characters_set::digits::Digits::DIGIT_TWO", chanoma::characters_set::digits::Digits::DIGIT_TWO.items()),
        ("characters_set::digits::Digits::DIGIT_THREE", chanoma::characters_set::digits::Digits::DIGIT_THREE.items()),
        ("characters_set::digits::Digits::DIGIT_FOUR", chanoma::characters_set::digits::Digits::DIGIT_FOUR.items()),
        ("characters_set::digits::Digits::DIGIT_FIVE", chanoma::characters_set::digits::Digits::DIGIT_FIVE.items()),
        ("characters_set::digits::Digits::DIGIT_SIX", chanoma::characters_set::digits::Digits::DIGIT_SIX.items()),
        ("characters_set::digits::Digits::DIGIT_SEVEN", chanoma::characters_set::digits::Digits::DIGIT_SEVEN.items()),
        ("characters_set::digits::Digits::DIGIT_EIGHT", chanoma::characters_set::digits::Digits::DIGIT_EIGHT.items()),
        ("characters_set::digits::Digits::DIGIT_NINE", chanoma::characters_set::digits::Digits::DIGIT_NINE.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_A", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_A.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_A", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_A.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_I", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_I.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_I", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_I.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_U", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_U.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_U", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_U.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_E", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_E.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_E", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_E.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_O", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_O.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_O", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_O.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_KA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_KA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_KI", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_KI.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_KU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_KU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_KE", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_KE.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_KO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_KO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SI", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SI.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SE", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SE.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_TA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_TA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_TI", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_TI.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_TU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_TU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_TU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_TU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_TE", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_TE.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_TO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_TO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_NA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_NA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_NI", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_NI.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_NU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_NU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_NE", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_NE.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_NO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_NO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_HA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_HA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_HI", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_HI.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_HU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_HU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_HE", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_HE.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_HO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_HO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_MA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_MA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_MI", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_MI.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_MU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_MU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_ME", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_ME.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_MO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_MO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_YA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_YA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_YU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_YU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_YO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_YO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_RA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_RA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_RI", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_RI.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_RU", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_RU.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_RE", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_RE.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_RO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_RO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_WA", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_WA.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_WO", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_WO.items()),
        ("characters_set::kanas::Kanas::KATAKANA_LETTER_N", chanoma::characters_set::kanas::Kanas::KATAKANA_LETTER_N.items()),
        ("characters_set::kanas::Kanas::IDEOGRAPHIC_COMMA", chanoma::characters_set::kanas::Kanas::IDEOGRAPHIC_COMMA.items()),
        ("characters_set::kanas::Kanas::IDEOGRAPHIC_FULL_STOP", chanoma::characters_set::kanas::Kanas::IDEOGRAPHIC_FULL_STOP.items()),
        ("characters_set::kanas::Kanas::KATAKANA_MIDDLE_DOT", chanoma::characters_set::kanas::Kanas::KATAKANA_MIDDLE_DOT.items()),
        ("characters_set::kanas::Kanas::LEFT_CORNER_BRACKET", chanoma::characters_set::kanas::Kanas::LEFT_CORNER_BRACKET.items()),
        ("characters_set::kanas::Kanas::RIGHT_CORNER_BRACKET", chanoma::characters_set::kanas::Kanas::RIGHT_CORNER_BRACKET.items()),
        ("characters_set::kanas::Kanas::IDEOGRAPHIC_SPACE", chanoma::characters_set::kanas::Kanas::IDEOGRAPHIC_SPACE.items()),
        ("characters_set::punctuations::Punctuations::EXCLAMATION_MARK", chanoma::characters_set::punctuations::Punctuations::EXCLAMATION_MARK.items()),
        ("characters_set::punctuations::Punctuations::QUOTATION_MARK", chanoma::characters_set::punctuations::Punctuations::QUOTATION_MARK.items()),
        ("characters_set::punctuations::Punctuations::SHARP", chanoma::characters_set::punctuations::Punctuations::SHARP.items()),
        ("characters_set::punctuations::Punctuations::DOLLER_SIGN", chanoma::characters_set::punctuations::Punctuations::DOLLER_SIGN.items()),
        ("characters_set::punctuations::Punctuations::PERCENT_SIGN", chanoma::characters_set::punctuations::Punctuations::PERCENT_SIGN.items()),
        ("characters_set::punctuations::Punctuations::AMPERSAND", chanoma::characters_set::punctuations::Punctuations::AMPERSAND.items()),
        ("characters_set::punctuations::Punctuations::APOSTROPHE", chanoma::characters_set::punctuations::Punctuations::APOSTROPHE.items()),
        ("characters_set::punctuations::Punctuations::LEFT_PARENTHESIS", chanoma::characters_set::punctuations::Punctuations::LEFT_PARENTHESIS.items()),
        ("characters_set::punctuations::Punctuations::RIGHT_PARENTHESIS", chanoma::characters_set::punctuations::Punctuations::RIGHT_PARENTHESIS.items()),
        ("characters_set::punctuations::Punctuations::ASTERISK", chanoma::characters_set::punctuations::Punctuations::ASTERISK.items()),
        ("characters_set::punctuations::Punctuations::PLUS_SIGN", chanoma::characters_set::punctuations::Punctuations::PLUS_SIGN.items()),
        ("characters_set::punctuations::Punctuations::COMMA", chanoma::characters_set::punctuations::Punctuations::COMMA.items()),
        ("characters_set::punctuations::Punctuations::HYPHEN_MINUS", chanoma::characters_set::punctuations::Punctuations::HYPHEN_MINUS.items()),
        ("characters_set::punctuations::Punctuations::FULL_STOP", chanoma::characters_set::punctuations::Punctuations::FULL_STOP.items()),
        ("characters_set::punctuations::Punctuations::SLASH", chanoma::characters_set::punctuations::Punctuations::SLASH.items()),
        ("characters_set::punctuations::Punctuations::COLON", chanoma::characters_set::punctuations::Punctuations::COLON.items()),
        ("characters_set::punctuations::Punctuations::SEMI_COLON", chanoma::characters_set::punctuations::Punctuations::SEMI_COLON.items()),
        ("characters_set::punctuations::Punctuations::LESS_THAN_SIGN", chanoma::characters_set::punctuations::Punctuations::LESS_THAN_SIGN.items()),
        ("characters_set::punctuations::Punctuations::EQUAL_SIGN", chanoma::characters_set::punctuations::Punctuations::EQUAL_SIGN.items()),
        ("characters_set::punctuations::Punctuations::GREATER_THAN_SIGN", chanoma::characters_set::punctuations::Punctuations::GREATER_THAN_SIGN.items()),
        ("characters_set::punctuations::Punctuations::QUESTION_MARK", chanoma::characters_set::punctuations::Punctuations::QUESTION_MARK.items()),
        ("characters_set::punctuations::Punctuations::AT_SIGN", chanoma::characters_set::punctuations::Punctuations::AT_SIGN.items()),
        ("characters_set::punctuations::Punctuations::LEFT_SQUARE_BRACKET", chanoma::characters_set::punctuations::Punctuations::LEFT_SQUARE_BRACKET.items()),
        ("characters_set::punctuations::Punctuations::BACKSLASH", chanoma::characters_set::punctuations::Punctuations::BACKSLASH.items()),
        ("characters_set::punctuations::Punctuations::YEN_SIGN", chanoma::characters_set::punctuations::Punctuations::YEN_SIGN.items()),
        ("characters_set::punctuations::Punctuations::RIGHT_SQUARE_BRACKET", chanoma::characters_set::punctuations::Punctuations::RIGHT_SQUARE_BRACKET.items()),
        ("characters_set::punctuations::Punctuations::CIRCUMFLEX_ACCENT", chanoma::characters_set::punctuations::Punctuations::CIRCUMFLEX_ACCENT.items()),
        ("characters_set::punctuations::Punctuations::LOW_LINE", chanoma::characters_set::punctuations::Punctuations::LOW_LINE.items()),
        ("characters_set::punctuations::Punctuations::GRAVE_ACCENT", chanoma::characters_set::punctuations::Punctuations::GRAVE_ACCENT.items()),
        ("characters_set::punctuations::Punctuations::LEFT_CURLY_BRACKET", chanoma::characters_set::punctuations::Punctuations::LEFT_CURLY_BRACKET.items()),
        ("characters_set::punctuations::Punctuations::VERTICAL_BAR", chanoma::characters_set::punctuations::Punctuations::VERTICAL_BAR.items()),
        ("characters_set::punctuations::Punctuations::RIGHT_CURLY_BRACKET", chanoma::characters_set::punctuations::Punctuations::RIGHT_CURLY_BRACKET.items()),
        ("characters_set::punctuations::Punctuations::TILDE", chanoma::characters_set::punctuations::Punctuations::TILDE.items()),
    ]
}
