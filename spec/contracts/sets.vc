## written by lib/gen_sets.py from spec/tables.json
#impl characters_set::digits::Digits@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { table_of(|x: ItemV| in_digits(x)) }
    open spec fn vx_fact(&self) -> bool { is_table(self.vx_items(), |x: ItemV| in_digits(x)) }
#fn characters_set::digits::Digits@Corr::items (r)
#attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
#start
    hide(crate::sp::is_union); hide(crate::sp::strictly_asc); broadcast use {lemma_has_union, lemma_has_one, lemma_union_asc};
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] has(ivs(vx_r@), x) == in_digits(x) by {}
        lemma_table_has(ivs(vx_r@), |x: ItemV| in_digits(x));
    }
#fn characters_set::digits::Digits::new (r)
#fn characters_set::digits::Digits::corr (r)
    ensures r.inner == self,
#fn characters_set::digits::DIGITS (r)
#fn characters_set::digits::Digits::DIGIT_ZERO (r)
    ensures r.inner.vx_items() == seq![("０"@, "0"@)],
#fn characters_set::digits::Digits::DIGIT_ONE (r)
    ensures r.inner.vx_items() == seq![("１"@, "1"@)],
#fn characters_set::digits::Digits::DIGIT_TWO (r)
    ensures r.inner.vx_items() == seq![("２"@, "2"@)],
#fn characters_set::digits::Digits::DIGIT_THREE (r)
    ensures r.inner.vx_items() == seq![("３"@, "3"@)],
#fn characters_set::digits::Digits::DIGIT_FOUR (r)
    ensures r.inner.vx_items() == seq![("４"@, "4"@)],
#fn characters_set::digits::Digits::DIGIT_FIVE (r)
    ensures r.inner.vx_items() == seq![("５"@, "5"@)],
#fn characters_set::digits::Digits::DIGIT_SIX (r)
    ensures r.inner.vx_items() == seq![("６"@, "6"@)],
#fn characters_set::digits::Digits::DIGIT_SEVEN (r)
    ensures r.inner.vx_items() == seq![("７"@, "7"@)],
#fn characters_set::digits::Digits::DIGIT_EIGHT (r)
    ensures r.inner.vx_items() == seq![("８"@, "8"@)],
#fn characters_set::digits::Digits::DIGIT_NINE (r)
    ensures r.inner.vx_items() == seq![("９"@, "9"@)],
#impl characters_set::punctuations::Punctuations@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { table_of(|x: ItemV| in_punctuations(x)) }
    open spec fn vx_fact(&self) -> bool { is_table(self.vx_items(), |x: ItemV| in_punctuations(x)) }
#fn characters_set::punctuations::Punctuations@Corr::items (r)
#attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
#start
    hide(crate::sp::is_union); hide(crate::sp::strictly_asc); broadcast use {lemma_has_union, lemma_has_one, lemma_union_asc};
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] has(ivs(vx_r@), x) == in_punctuations(x) by {}
        lemma_table_has(ivs(vx_r@), |x: ItemV| in_punctuations(x));
    }
#fn characters_set::punctuations::Punctuations::new (r)
#fn characters_set::punctuations::Punctuations::corr (r)
    ensures r.inner == self,
#fn characters_set::punctuations::PUNCTUATIONS (r)
#fn characters_set::punctuations::Punctuations::EXCLAMATION_MARK (r)
    ensures r.inner.vx_items() == seq![("！"@, "!"@)],
#fn characters_set::punctuations::Punctuations::QUOTATION_MARK (r)
    ensures r.inner.vx_items() == seq![("”"@, "\""@)],
#fn characters_set::punctuations::Punctuations::SHARP (r)
    ensures r.inner.vx_items() == seq![("＃"@, "#"@)],
#fn characters_set::punctuations::Punctuations::DOLLER_SIGN (r)
    ensures r.inner.vx_items() == seq![("＄"@, "$"@)],
#fn characters_set::punctuations::Punctuations::PERCENT_SIGN (r)
    ensures r.inner.vx_items() == seq![("％"@, "%"@)],
#fn characters_set::punctuations::Punctuations::AMPERSAND (r)
    ensures r.inner.vx_items() == seq![("＆"@, "&"@)],
#fn characters_set::punctuations::Punctuations::APOSTROPHE (r)
    ensures r.inner.vx_items() == seq![("’"@, "'"@)],
#fn characters_set::punctuations::Punctuations::LEFT_PARENTHESIS (r)
    ensures r.inner.vx_items() == seq![("（"@, "("@)],
#fn characters_set::punctuations::Punctuations::RIGHT_PARENTHESIS (r)
    ensures r.inner.vx_items() == seq![("）"@, ")"@)],
#fn characters_set::punctuations::Punctuations::ASTERISK (r)
    ensures r.inner.vx_items() == seq![("＊"@, "*"@)],
#fn characters_set::punctuations::Punctuations::PLUS_SIGN (r)
    ensures r.inner.vx_items() == seq![("＋"@, "+"@)],
#fn characters_set::punctuations::Punctuations::COMMA (r)
    ensures r.inner.vx_items() == seq![("，"@, ","@)],
#fn characters_set::punctuations::Punctuations::HYPHEN_MINUS (r)
    ensures r.inner.vx_items() == seq![("－"@, "-"@)],
#fn characters_set::punctuations::Punctuations::FULL_STOP (r)
    ensures r.inner.vx_items() == seq![("．"@, "."@)],
#fn characters_set::punctuations::Punctuations::SLASH (r)
    ensures r.inner.vx_items() == seq![("／"@, "/"@)],
#fn characters_set::punctuations::Punctuations::COLON (r)
    ensures r.inner.vx_items() == seq![("："@, ":"@)],
#fn characters_set::punctuations::Punctuations::SEMI_COLON (r)
    ensures r.inner.vx_items() == seq![("；"@, ";"@)],
#fn characters_set::punctuations::Punctuations::LESS_THAN_SIGN (r)
    ensures r.inner.vx_items() == seq![("＜"@, "<"@)],
#fn characters_set::punctuations::Punctuations::EQUAL_SIGN (r)
    ensures r.inner.vx_items() == seq![("＝"@, "="@)],
#fn characters_set::punctuations::Punctuations::GREATER_THAN_SIGN (r)
    ensures r.inner.vx_items() == seq![("＞"@, ">"@)],
#fn characters_set::punctuations::Punctuations::QUESTION_MARK (r)
    ensures r.inner.vx_items() == seq![("？"@, "?"@)],
#fn characters_set::punctuations::Punctuations::AT_SIGN (r)
    ensures r.inner.vx_items() == seq![("＠"@, "@"@)],
#fn characters_set::punctuations::Punctuations::LEFT_SQUARE_BRACKET (r)
    ensures r.inner.vx_items() == seq![("［"@, "["@)],
#fn characters_set::punctuations::Punctuations::BACKSLASH (r)
    ensures r.inner.vx_items() == seq![("＼"@, "\\"@)],
#fn characters_set::punctuations::Punctuations::YEN_SIGN (r)
    ensures r.inner.vx_items() == seq![("￥"@, "¥"@)],
#fn characters_set::punctuations::Punctuations::RIGHT_SQUARE_BRACKET (r)
    ensures r.inner.vx_items() == seq![("］"@, "]"@)],
#fn characters_set::punctuations::Punctuations::CIRCUMFLEX_ACCENT (r)
    ensures r.inner.vx_items() == seq![("＾"@, "^"@)],
#fn characters_set::punctuations::Punctuations::LOW_LINE (r)
    ensures r.inner.vx_items() == seq![("＿"@, "_"@)],
#fn characters_set::punctuations::Punctuations::GRAVE_ACCENT (r)
    ensures r.inner.vx_items() == seq![("｀"@, "`"@)],
#fn characters_set::punctuations::Punctuations::LEFT_CURLY_BRACKET (r)
    ensures r.inner.vx_items() == seq![("｛"@, "{"@)],
#fn characters_set::punctuations::Punctuations::VERTICAL_BAR (r)
    ensures r.inner.vx_items() == seq![("｜"@, "|"@)],
#fn characters_set::punctuations::Punctuations::RIGHT_CURLY_BRACKET (r)
    ensures r.inner.vx_items() == seq![("｝"@, "}"@)],
#fn characters_set::punctuations::Punctuations::TILDE (r)
    ensures r.inner.vx_items() == seq![("〜"@, "~"@)],
#impl characters_set::alphabets::Alphabets@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { table_of(|x: ItemV| in_alphabets(x)) }
    open spec fn vx_fact(&self) -> bool { is_table(self.vx_items(), |x: ItemV| in_alphabets(x)) }
#fn characters_set::alphabets::Alphabets@Corr::items (r)
#attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
#start
    hide(crate::sp::is_union); hide(crate::sp::strictly_asc); broadcast use {lemma_has_union, lemma_has_one, lemma_union_asc};
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] has(ivs(vx_r@), x) == in_alphabets(x) by {}
        lemma_table_has(ivs(vx_r@), |x: ItemV| in_alphabets(x));
    }
#fn characters_set::alphabets::Alphabets::new (r)
#fn characters_set::alphabets::Alphabets::corr (r)
    ensures r.inner == self,
#fn characters_set::alphabets::ALPHABETS (r)
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_A (r)
    ensures r.inner.vx_items() == seq![("Ａ"@, "A"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_B (r)
    ensures r.inner.vx_items() == seq![("Ｂ"@, "B"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_C (r)
    ensures r.inner.vx_items() == seq![("Ｃ"@, "C"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_D (r)
    ensures r.inner.vx_items() == seq![("Ｄ"@, "D"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_E (r)
    ensures r.inner.vx_items() == seq![("Ｅ"@, "E"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_F (r)
    ensures r.inner.vx_items() == seq![("Ｆ"@, "F"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_G (r)
    ensures r.inner.vx_items() == seq![("Ｇ"@, "G"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_H (r)
    ensures r.inner.vx_items() == seq![("Ｈ"@, "H"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_I (r)
    ensures r.inner.vx_items() == seq![("Ｉ"@, "I"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_J (r)
    ensures r.inner.vx_items() == seq![("Ｊ"@, "J"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_K (r)
    ensures r.inner.vx_items() == seq![("Ｋ"@, "K"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_L (r)
    ensures r.inner.vx_items() == seq![("Ｌ"@, "L"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_M (r)
    ensures r.inner.vx_items() == seq![("Ｍ"@, "M"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_N (r)
    ensures r.inner.vx_items() == seq![("Ｎ"@, "N"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_O (r)
    ensures r.inner.vx_items() == seq![("Ｏ"@, "O"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_P (r)
    ensures r.inner.vx_items() == seq![("Ｐ"@, "P"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_Q (r)
    ensures r.inner.vx_items() == seq![("Ｑ"@, "Q"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_R (r)
    ensures r.inner.vx_items() == seq![("Ｒ"@, "R"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_S (r)
    ensures r.inner.vx_items() == seq![("Ｓ"@, "S"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_T (r)
    ensures r.inner.vx_items() == seq![("Ｔ"@, "T"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_U (r)
    ensures r.inner.vx_items() == seq![("Ｕ"@, "U"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_V (r)
    ensures r.inner.vx_items() == seq![("Ｖ"@, "V"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_W (r)
    ensures r.inner.vx_items() == seq![("Ｗ"@, "W"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_X (r)
    ensures r.inner.vx_items() == seq![("Ｘ"@, "X"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_Y (r)
    ensures r.inner.vx_items() == seq![("Ｙ"@, "Y"@)],
#fn characters_set::alphabets::Alphabets::CAPITAL_LETTER_Z (r)
    ensures r.inner.vx_items() == seq![("Ｚ"@, "Z"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_A (r)
    ensures r.inner.vx_items() == seq![("ａ"@, "a"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_B (r)
    ensures r.inner.vx_items() == seq![("ｂ"@, "b"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_C (r)
    ensures r.inner.vx_items() == seq![("ｃ"@, "c"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_D (r)
    ensures r.inner.vx_items() == seq![("ｄ"@, "d"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_E (r)
    ensures r.inner.vx_items() == seq![("ｅ"@, "e"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_F (r)
    ensures r.inner.vx_items() == seq![("ｆ"@, "f"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_G (r)
    ensures r.inner.vx_items() == seq![("ｇ"@, "g"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_H (r)
    ensures r.inner.vx_items() == seq![("ｈ"@, "h"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_I (r)
    ensures r.inner.vx_items() == seq![("ｉ"@, "i"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_J (r)
    ensures r.inner.vx_items() == seq![("ｊ"@, "j"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_K (r)
    ensures r.inner.vx_items() == seq![("ｋ"@, "k"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_L (r)
    ensures r.inner.vx_items() == seq![("ｌ"@, "l"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_M (r)
    ensures r.inner.vx_items() == seq![("ｍ"@, "m"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_N (r)
    ensures r.inner.vx_items() == seq![("ｎ"@, "n"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_O (r)
    ensures r.inner.vx_items() == seq![("ｏ"@, "o"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_P (r)
    ensures r.inner.vx_items() == seq![("ｐ"@, "p"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_Q (r)
    ensures r.inner.vx_items() == seq![("ｑ"@, "q"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_R (r)
    ensures r.inner.vx_items() == seq![("ｒ"@, "r"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_S (r)
    ensures r.inner.vx_items() == seq![("ｓ"@, "s"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_T (r)
    ensures r.inner.vx_items() == seq![("ｔ"@, "t"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_U (r)
    ensures r.inner.vx_items() == seq![("ｕ"@, "u"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_V (r)
    ensures r.inner.vx_items() == seq![("ｖ"@, "v"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_W (r)
    ensures r.inner.vx_items() == seq![("ｗ"@, "w"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_X (r)
    ensures r.inner.vx_items() == seq![("ｘ"@, "x"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_Y (r)
    ensures r.inner.vx_items() == seq![("ｙ"@, "y"@)],
#fn characters_set::alphabets::Alphabets::SMALL_LETTER_Z (r)
    ensures r.inner.vx_items() == seq![("ｚ"@, "z"@)],
#impl characters_set::kanas::Kanas@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { table_of(|x: ItemV| in_kanas(x)) }
    open spec fn vx_fact(&self) -> bool { is_table(self.vx_items(), |x: ItemV| in_kanas(x)) }
#fn characters_set::kanas::Kanas@Corr::items (r)
#attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
#start
    hide(crate::sp::is_union); hide(crate::sp::strictly_asc); broadcast use {lemma_has_union, lemma_has_one, lemma_union_asc};
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] has(ivs(vx_r@), x) == in_kanas(x) by {}
        lemma_table_has(ivs(vx_r@), |x: ItemV| in_kanas(x));
    }
#fn characters_set::kanas::Kanas::new (r)
#fn characters_set::kanas::Kanas::corr (r)
    ensures r.inner == self,
#fn characters_set::kanas::KANAS (r)
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_A (r)
    ensures r.inner.vx_items() == seq![("ｧ"@, "ァ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_A (r)
    ensures r.inner.vx_items() == seq![("ｱ"@, "ア"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_I (r)
    ensures r.inner.vx_items() == seq![("ｨ"@, "ィ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_I (r)
    ensures r.inner.vx_items() == seq![("ｲ"@, "イ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_U (r)
    ensures r.inner.vx_items() == seq![("ｩ"@, "ゥ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_U (r)
    ensures r.inner.vx_items() == seq![("ｳ"@, "ウ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_E (r)
    ensures r.inner.vx_items() == seq![("ｪ"@, "ェ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_E (r)
    ensures r.inner.vx_items() == seq![("ｴ"@, "エ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_O (r)
    ensures r.inner.vx_items() == seq![("ｫ"@, "ォ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_O (r)
    ensures r.inner.vx_items() == seq![("ｵ"@, "オ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_KA (r)
    ensures r.inner.vx_items() == seq![("ｶ"@, "カ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_KI (r)
    ensures r.inner.vx_items() == seq![("ｷ"@, "キ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_KU (r)
    ensures r.inner.vx_items() == seq![("ｸ"@, "ク"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_KE (r)
    ensures r.inner.vx_items() == seq![("ｹ"@, "ケ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_KO (r)
    ensures r.inner.vx_items() == seq![("ｺ"@, "コ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SA (r)
    ensures r.inner.vx_items() == seq![("ｻ"@, "サ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SI (r)
    ensures r.inner.vx_items() == seq![("ｼ"@, "シ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SU (r)
    ensures r.inner.vx_items() == seq![("ｽ"@, "ス"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SE (r)
    ensures r.inner.vx_items() == seq![("ｾ"@, "セ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SO (r)
    ensures r.inner.vx_items() == seq![("ｿ"@, "ソ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_TA (r)
    ensures r.inner.vx_items() == seq![("ﾀ"@, "タ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_TI (r)
    ensures r.inner.vx_items() == seq![("ﾁ"@, "チ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_TU (r)
    ensures r.inner.vx_items() == seq![("ｯ"@, "ッ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_TU (r)
    ensures r.inner.vx_items() == seq![("ﾂ"@, "ツ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_TE (r)
    ensures r.inner.vx_items() == seq![("ﾃ"@, "テ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_TO (r)
    ensures r.inner.vx_items() == seq![("ﾄ"@, "ト"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_NA (r)
    ensures r.inner.vx_items() == seq![("ﾅ"@, "ナ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_NI (r)
    ensures r.inner.vx_items() == seq![("ﾆ"@, "ニ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_NU (r)
    ensures r.inner.vx_items() == seq![("ﾇ"@, "ヌ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_NE (r)
    ensures r.inner.vx_items() == seq![("ﾈ"@, "ネ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_NO (r)
    ensures r.inner.vx_items() == seq![("ﾉ"@, "ノ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_HA (r)
    ensures r.inner.vx_items() == seq![("ﾊ"@, "ハ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_HI (r)
    ensures r.inner.vx_items() == seq![("ﾋ"@, "ヒ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_HU (r)
    ensures r.inner.vx_items() == seq![("ﾌ"@, "フ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_HE (r)
    ensures r.inner.vx_items() == seq![("ﾍ"@, "ヘ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_HO (r)
    ensures r.inner.vx_items() == seq![("ﾎ"@, "ホ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_MA (r)
    ensures r.inner.vx_items() == seq![("ﾏ"@, "マ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_MI (r)
    ensures r.inner.vx_items() == seq![("ﾐ"@, "ミ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_MU (r)
    ensures r.inner.vx_items() == seq![("ﾑ"@, "ム"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_ME (r)
    ensures r.inner.vx_items() == seq![("ﾒ"@, "メ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_MO (r)
    ensures r.inner.vx_items() == seq![("ﾓ"@, "モ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YA (r)
    ensures r.inner.vx_items() == seq![("ｬ"@, "ャ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_YA (r)
    ensures r.inner.vx_items() == seq![("ﾔ"@, "ヤ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YU (r)
    ensures r.inner.vx_items() == seq![("ｭ"@, "ュ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_YU (r)
    ensures r.inner.vx_items() == seq![("ﾕ"@, "ユ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_SMALL_YO (r)
    ensures r.inner.vx_items() == seq![("ｮ"@, "ョ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_YO (r)
    ensures r.inner.vx_items() == seq![("ﾖ"@, "ヨ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_RA (r)
    ensures r.inner.vx_items() == seq![("ﾗ"@, "ラ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_RI (r)
    ensures r.inner.vx_items() == seq![("ﾘ"@, "リ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_RU (r)
    ensures r.inner.vx_items() == seq![("ﾙ"@, "ル"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_RE (r)
    ensures r.inner.vx_items() == seq![("ﾚ"@, "レ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_RO (r)
    ensures r.inner.vx_items() == seq![("ﾛ"@, "ロ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_WA (r)
    ensures r.inner.vx_items() == seq![("ﾜ"@, "ワ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_WO (r)
    ensures r.inner.vx_items() == seq![("ｦ"@, "ヲ"@)],
#fn characters_set::kanas::Kanas::KATAKANA_LETTER_N (r)
    ensures r.inner.vx_items() == seq![("ﾝ"@, "ン"@)],
#fn characters_set::kanas::Kanas::IDEOGRAPHIC_COMMA (r)
    ensures r.inner.vx_items() == seq![("､"@, "、"@)],
#fn characters_set::kanas::Kanas::IDEOGRAPHIC_FULL_STOP (r)
    ensures r.inner.vx_items() == seq![("｡"@, "。"@)],
#fn characters_set::kanas::Kanas::KATAKANA_MIDDLE_DOT (r)
    ensures r.inner.vx_items() == seq![("･"@, "・"@)],
#fn characters_set::kanas::Kanas::LEFT_CORNER_BRACKET (r)
    ensures r.inner.vx_items() == seq![("｢"@, "「"@)],
#fn characters_set::kanas::Kanas::RIGHT_CORNER_BRACKET (r)
    ensures r.inner.vx_items() == seq![("｣"@, "」"@)],
#fn characters_set::kanas::Kanas::IDEOGRAPHIC_SPACE (r)
    ensures r.inner.vx_items() == seq![("　"@, " "@)],
#impl characters_set::cjk_compatibilities::CjkCompatibilities@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { table_of(|x: ItemV| in_cjk_compatibilities(x)) }
    open spec fn vx_fact(&self) -> bool { is_table(self.vx_items(), |x: ItemV| in_cjk_compatibilities(x)) }
#fn characters_set::cjk_compatibilities::CjkCompatibilities@Corr::items (r)
#attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
#start
    hide(crate::sp::is_union); hide(crate::sp::strictly_asc); broadcast use {lemma_has_union, lemma_has_one, lemma_union_asc};
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] has(ivs(vx_r@), x) == in_cjk_compatibilities(x) by {}
        lemma_table_has(ivs(vx_r@), |x: ItemV| in_cjk_compatibilities(x));
    }
#fn characters_set::cjk_compatibilities::CjkCompatibilities::new (r)
#fn characters_set::cjk_compatibilities::CjkCompatibilities::corr (r)
    ensures r.inner == self,
#fn characters_set::cjk_compatibilities::CJK_COMPATIBILITIES (r)
#fn characters_set::cjk_compatibilities::SQUARE_APAATO (r)
    ensures r.inner.vx_items() == seq![("㌀"@, "アパート"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ARUHUA (r)
    ensures r.inner.vx_items() == seq![("㌁"@, "アルファ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ANPEA (r)
    ensures r.inner.vx_items() == seq![("㌂"@, "アンペア"@)],
#fn characters_set::cjk_compatibilities::SQUARE_AARU (r)
    ensures r.inner.vx_items() == seq![("㌃"@, "アール"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ININGU (r)
    ensures r.inner.vx_items() == seq![("㌄"@, "イニング"@)],
#fn characters_set::cjk_compatibilities::SQUARE_INTI (r)
    ensures r.inner.vx_items() == seq![("㌅"@, "インチ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_UON (r)
    ensures r.inner.vx_items() == seq![("㌆"@, "ウォン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ESUKUUDO (r)
    ensures r.inner.vx_items() == seq![("㌇"@, "エスクード"@)],
#fn characters_set::cjk_compatibilities::SQUARE_EEKAA (r)
    ensures r.inner.vx_items() == seq![("㌈"@, "エーカー"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ONSU (r)
    ensures r.inner.vx_items() == seq![("㌉"@, "オンス"@)],
#fn characters_set::cjk_compatibilities::SQUARE_OOMU (r)
    ensures r.inner.vx_items() == seq![("㌊"@, "オーム"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KAIRI (r)
    ensures r.inner.vx_items() == seq![("㌋"@, "カイリ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KARATTO (r)
    ensures r.inner.vx_items() == seq![("㌌"@, "カラット"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KARORII (r)
    ensures r.inner.vx_items() == seq![("㌍"@, "カロリー"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GARON (r)
    ensures r.inner.vx_items() == seq![("㌎"@, "ガロン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GANMA (r)
    ensures r.inner.vx_items() == seq![("㌏"@, "ガンマ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GIGA (r)
    ensures r.inner.vx_items() == seq![("㌐"@, "ギガ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GINII (r)
    ensures r.inner.vx_items() == seq![("㌑"@, "ギニー"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KYURII (r)
    ensures r.inner.vx_items() == seq![("㌒"@, "キュリー"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GIRUDAA (r)
    ensures r.inner.vx_items() == seq![("㌓"@, "ギルダー"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KIRO (r)
    ensures r.inner.vx_items() == seq![("㌔"@, "キロ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KIROGURAMU (r)
    ensures r.inner.vx_items() == seq![("㌕"@, "キログラム"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KIROMEETORU (r)
    ensures r.inner.vx_items() == seq![("㌖"@, "キロメートル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KIROWATTO (r)
    ensures r.inner.vx_items() == seq![("㌗"@, "キロワット"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GURAMU (r)
    ensures r.inner.vx_items() == seq![("㌘"@, "グラム"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GURAMUTON (r)
    ensures r.inner.vx_items() == seq![("㌙"@, "グラムトン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KURUZEIRO (r)
    ensures r.inner.vx_items() == seq![("㌚"@, "クルゼイロ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KUROONE (r)
    ensures r.inner.vx_items() == seq![("㌛"@, "クローネ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KEESU (r)
    ensures r.inner.vx_items() == seq![("㌜"@, "ケース"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KORUNA (r)
    ensures r.inner.vx_items() == seq![("㌝"@, "コルナ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KOOPO (r)
    ensures r.inner.vx_items() == seq![("㌞"@, "コーポ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_SAIKURU (r)
    ensures r.inner.vx_items() == seq![("㌟"@, "サイクル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_SANTIIMU (r)
    ensures r.inner.vx_items() == seq![("㌠"@, "サンチーム"@)],
#fn characters_set::cjk_compatibilities::SQUARE_SIRINGU (r)
    ensures r.inner.vx_items() == seq![("㌡"@, "シリング"@)],
#fn characters_set::cjk_compatibilities::SQUARE_SENTI (r)
    ensures r.inner.vx_items() == seq![("㌢"@, "センチ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_SENTO (r)
    ensures r.inner.vx_items() == seq![("㌣"@, "セント"@)],
#fn characters_set::cjk_compatibilities::SQUARE_DAASU (r)
    ensures r.inner.vx_items() == seq![("㌤"@, "ダース"@)],
#fn characters_set::cjk_compatibilities::SQUARE_DESI (r)
    ensures r.inner.vx_items() == seq![("㌥"@, "デシ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_DORU (r)
    ensures r.inner.vx_items() == seq![("㌦"@, "ドル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_TON (r)
    ensures r.inner.vx_items() == seq![("㌧"@, "トン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_NANO (r)
    ensures r.inner.vx_items() == seq![("㌨"@, "ナノ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_NOTTO (r)
    ensures r.inner.vx_items() == seq![("㌩"@, "ノット"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HAITU (r)
    ensures r.inner.vx_items() == seq![("㌪"@, "ハイツ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PAASENTO (r)
    ensures r.inner.vx_items() == seq![("㌫"@, "パーセント"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PAATU (r)
    ensures r.inner.vx_items() == seq![("㌬"@, "パーツ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_BAARERU (r)
    ensures r.inner.vx_items() == seq![("㌭"@, "バーレル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PIASUTORU (r)
    ensures r.inner.vx_items() == seq![("㌮"@, "ピアストル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PIKURU (r)
    ensures r.inner.vx_items() == seq![("㌯"@, "ピクル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PIKO (r)
    ensures r.inner.vx_items() == seq![("㌰"@, "ピコ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_BIRU (r)
    ensures r.inner.vx_items() == seq![("㌱"@, "ビル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HUARADDO (r)
    ensures r.inner.vx_items() == seq![("㌲"@, "ファラッド"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HUIITO (r)
    ensures r.inner.vx_items() == seq![("㌳"@, "フィート"@)],
#fn characters_set::cjk_compatibilities::SQUARE_BUSSYERU (r)
    ensures r.inner.vx_items() == seq![("㌴"@, "ブッシェル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HURAN (r)
    ensures r.inner.vx_items() == seq![("㌵"@, "フラン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HEKUTAARU (r)
    ensures r.inner.vx_items() == seq![("㌶"@, "ヘクタール"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PESO (r)
    ensures r.inner.vx_items() == seq![("㌷"@, "ペソ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PENIHI (r)
    ensures r.inner.vx_items() == seq![("㌸"@, "ペニヒ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HERUTU (r)
    ensures r.inner.vx_items() == seq![("㌹"@, "ヘルツ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PENSU (r)
    ensures r.inner.vx_items() == seq![("㌺"@, "ペンス"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PEEZI (r)
    ensures r.inner.vx_items() == seq![("㌻"@, "ページ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_BEETA (r)
    ensures r.inner.vx_items() == seq![("㌼"@, "ベータ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_POINTO (r)
    ensures r.inner.vx_items() == seq![("㌽"@, "ポイント"@)],
#fn characters_set::cjk_compatibilities::SQUARE_BORUTO (r)
    ensures r.inner.vx_items() == seq![("㌾"@, "ボルト"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HON (r)
    ensures r.inner.vx_items() == seq![("㌿"@, "ホン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PONDO (r)
    ensures r.inner.vx_items() == seq![("㍀"@, "ポンド"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HOORU (r)
    ensures r.inner.vx_items() == seq![("㍁"@, "ホール"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HOON (r)
    ensures r.inner.vx_items() == seq![("㍂"@, "ホーン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MAIKURO (r)
    ensures r.inner.vx_items() == seq![("㍃"@, "マイクロ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MAIRU (r)
    ensures r.inner.vx_items() == seq![("㍄"@, "マイル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MAHHA (r)
    ensures r.inner.vx_items() == seq![("㍅"@, "マッハ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MARUKU (r)
    ensures r.inner.vx_items() == seq![("㍆"@, "マルク"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MANSYON (r)
    ensures r.inner.vx_items() == seq![("㍇"@, "マンション"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MIKURON (r)
    ensures r.inner.vx_items() == seq![("㍈"@, "ミクロン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MIRI (r)
    ensures r.inner.vx_items() == seq![("㍉"@, "ミリ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MIRIBAARU (r)
    ensures r.inner.vx_items() == seq![("㍊"@, "ミリバール"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MEGA (r)
    ensures r.inner.vx_items() == seq![("㍋"@, "メガ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MEGATON (r)
    ensures r.inner.vx_items() == seq![("㍌"@, "メガトン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MEETORU (r)
    ensures r.inner.vx_items() == seq![("㍍"@, "メートル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_YAADO (r)
    ensures r.inner.vx_items() == seq![("㍎"@, "ヤード"@)],
#fn characters_set::cjk_compatibilities::SQUARE_YAARU (r)
    ensures r.inner.vx_items() == seq![("㍏"@, "ヤール"@)],
#fn characters_set::cjk_compatibilities::SQUARE_YUAN (r)
    ensures r.inner.vx_items() == seq![("㍐"@, "ユアン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_RITTORU (r)
    ensures r.inner.vx_items() == seq![("㍑"@, "リットル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_RIRA (r)
    ensures r.inner.vx_items() == seq![("㍒"@, "リラ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_RUPII (r)
    ensures r.inner.vx_items() == seq![("㍓"@, "ルピー"@)],
#fn characters_set::cjk_compatibilities::SQUARE_RUUBURU (r)
    ensures r.inner.vx_items() == seq![("㍔"@, "ルーブル"@)],
#fn characters_set::cjk_compatibilities::SQUARE_REMU (r)
    ensures r.inner.vx_items() == seq![("㍕"@, "レム"@)],
#fn characters_set::cjk_compatibilities::SQUARE_RENTOGEN (r)
    ensures r.inner.vx_items() == seq![("㍖"@, "レントゲン"@)],
#fn characters_set::cjk_compatibilities::SQUARE_WATTO (r)
    ensures r.inner.vx_items() == seq![("㍗"@, "ワット"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO (r)
    ensures r.inner.vx_items() == seq![("㍘"@, "0点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE (r)
    ensures r.inner.vx_items() == seq![("㍙"@, "1点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO (r)
    ensures r.inner.vx_items() == seq![("㍚"@, "2点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE (r)
    ensures r.inner.vx_items() == seq![("㍛"@, "3点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR (r)
    ensures r.inner.vx_items() == seq![("㍜"@, "4点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE (r)
    ensures r.inner.vx_items() == seq![("㍝"@, "5点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX (r)
    ensures r.inner.vx_items() == seq![("㍞"@, "6点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN (r)
    ensures r.inner.vx_items() == seq![("㍟"@, "7点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT (r)
    ensures r.inner.vx_items() == seq![("㍠"@, "8点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE (r)
    ensures r.inner.vx_items() == seq![("㍡"@, "9点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN (r)
    ensures r.inner.vx_items() == seq![("㍢"@, "10点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN (r)
    ensures r.inner.vx_items() == seq![("㍣"@, "11点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE (r)
    ensures r.inner.vx_items() == seq![("㍤"@, "12点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN (r)
    ensures r.inner.vx_items() == seq![("㍥"@, "13点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN (r)
    ensures r.inner.vx_items() == seq![("㍦"@, "14点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN (r)
    ensures r.inner.vx_items() == seq![("㍧"@, "15点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN (r)
    ensures r.inner.vx_items() == seq![("㍨"@, "16点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN (r)
    ensures r.inner.vx_items() == seq![("㍩"@, "17点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN (r)
    ensures r.inner.vx_items() == seq![("㍪"@, "18点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN (r)
    ensures r.inner.vx_items() == seq![("㍫"@, "19点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY (r)
    ensures r.inner.vx_items() == seq![("㍬"@, "20点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE (r)
    ensures r.inner.vx_items() == seq![("㍭"@, "21点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO (r)
    ensures r.inner.vx_items() == seq![("㍮"@, "22点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE (r)
    ensures r.inner.vx_items() == seq![("㍯"@, "23点"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR (r)
    ensures r.inner.vx_items() == seq![("㍰"@, "24点"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HPA (r)
    ensures r.inner.vx_items() == seq![("㍱"@, "hPa"@)],
#fn characters_set::cjk_compatibilities::SQUARE_DA (r)
    ensures r.inner.vx_items() == seq![("㍲"@, "da"@)],
#fn characters_set::cjk_compatibilities::SQUARE_AU (r)
    ensures r.inner.vx_items() == seq![("㍳"@, "AU"@)],
#fn characters_set::cjk_compatibilities::SQUARE_BAR (r)
    ensures r.inner.vx_items() == seq![("㍴"@, "bar"@)],
#fn characters_set::cjk_compatibilities::SQUARE_OV (r)
    ensures r.inner.vx_items() == seq![("㍵"@, "oV"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PC (r)
    ensures r.inner.vx_items() == seq![("㍶"@, "pc"@)],
#fn characters_set::cjk_compatibilities::SQUARE_DM (r)
    ensures r.inner.vx_items() == seq![("㍷"@, "dm"@)],
#fn characters_set::cjk_compatibilities::SQUARE_DM_SQUARED (r)
    ensures r.inner.vx_items() == seq![("㍸"@, "dm2"@)],
#fn characters_set::cjk_compatibilities::SQUARE_DM_CUBED (r)
    ensures r.inner.vx_items() == seq![("㍹"@, "dm3"@)],
#fn characters_set::cjk_compatibilities::SQUARE_IU (r)
    ensures r.inner.vx_items() == seq![("㍺"@, "IU"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ERA_NAME_HEISEI (r)
    ensures r.inner.vx_items() == seq![("㍻"@, "平成"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ERA_NAME_SYOUWA (r)
    ensures r.inner.vx_items() == seq![("㍼"@, "昭和"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ERA_NAME_TAISYOU (r)
    ensures r.inner.vx_items() == seq![("㍽"@, "大正"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ERA_NAME_MEIZI (r)
    ensures r.inner.vx_items() == seq![("㍾"@, "明治"@)],
#fn characters_set::cjk_compatibilities::SQUARE_CORPORATION (r)
    ensures r.inner.vx_items() == seq![("㍿"@, "株式会社"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PA_AMPS (r)
    ensures r.inner.vx_items() == seq![("㎀"@, "pA"@)],
#fn characters_set::cjk_compatibilities::SQUARE_NA (r)
    ensures r.inner.vx_items() == seq![("㎁"@, "nA"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MU_A (r)
    ensures r.inner.vx_items() == seq![("㎂"@, "µA"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MA (r)
    ensures r.inner.vx_items() == seq![("㎃"@, "mA"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KA (r)
    ensures r.inner.vx_items() == seq![("㎄"@, "kA"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KB (r)
    ensures r.inner.vx_items() == seq![("㎅"@, "KB"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MB (r)
    ensures r.inner.vx_items() == seq![("㎆"@, "MB"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GB (r)
    ensures r.inner.vx_items() == seq![("㎇"@, "GB"@)],
#fn characters_set::cjk_compatibilities::SQUARE_CAL (r)
    ensures r.inner.vx_items() == seq![("㎈"@, "cal"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KCAL (r)
    ensures r.inner.vx_items() == seq![("㎉"@, "kcal"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PF (r)
    ensures r.inner.vx_items() == seq![("㎊"@, "pF"@)],
#fn characters_set::cjk_compatibilities::SQUARE_NF (r)
    ensures r.inner.vx_items() == seq![("㎋"@, "nF"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MU_F (r)
    ensures r.inner.vx_items() == seq![("㎌"@, "µF"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MU_G (r)
    ensures r.inner.vx_items() == seq![("㎍"@, "µg"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MG (r)
    ensures r.inner.vx_items() == seq![("㎎"@, "mg"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KG (r)
    ensures r.inner.vx_items() == seq![("㎏"@, "kg"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HZ (r)
    ensures r.inner.vx_items() == seq![("㎐"@, "Hz"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KHZ (r)
    ensures r.inner.vx_items() == seq![("㎑"@, "kHz"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MHZ (r)
    ensures r.inner.vx_items() == seq![("㎒"@, "MHz"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GHZ (r)
    ensures r.inner.vx_items() == seq![("㎓"@, "GHz"@)],
#fn characters_set::cjk_compatibilities::SQUARE_THZ (r)
    ensures r.inner.vx_items() == seq![("㎔"@, "THz"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MU_L (r)
    ensures r.inner.vx_items() == seq![("㎕"@, "µl"@)],
#fn characters_set::cjk_compatibilities::SQUARE_ML (r)
    ensures r.inner.vx_items() == seq![("㎖"@, "ml"@)],
#fn characters_set::cjk_compatibilities::SQUARE_DL (r)
    ensures r.inner.vx_items() == seq![("㎗"@, "dl"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KL (r)
    ensures r.inner.vx_items() == seq![("㎘"@, "kl"@)],
#fn characters_set::cjk_compatibilities::SQUARE_FM (r)
    ensures r.inner.vx_items() == seq![("㎙"@, "fm"@)],
#fn characters_set::cjk_compatibilities::SQUARE_NM (r)
    ensures r.inner.vx_items() == seq![("㎚"@, "nm"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MU_M (r)
    ensures r.inner.vx_items() == seq![("㎛"@, "µm"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MM (r)
    ensures r.inner.vx_items() == seq![("㎜"@, "mm"@)],
#fn characters_set::cjk_compatibilities::SQUARE_CM (r)
    ensures r.inner.vx_items() == seq![("㎝"@, "cm"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KM (r)
    ensures r.inner.vx_items() == seq![("㎞"@, "km"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MM_SQUARED (r)
    ensures r.inner.vx_items() == seq![("㎟"@, "mm2"@)],
#fn characters_set::cjk_compatibilities::SQUARE_CM_SQUARED (r)
    ensures r.inner.vx_items() == seq![("㎠"@, "cm2"@)],
#fn characters_set::cjk_compatibilities::SQUARE_M_SQUARED (r)
    ensures r.inner.vx_items() == seq![("㎡"@, "m2"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KM_SQUARED (r)
    ensures r.inner.vx_items() == seq![("㎢"@, "km2"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MM_CUBED (r)
    ensures r.inner.vx_items() == seq![("㎣"@, "mm3"@)],
#fn characters_set::cjk_compatibilities::SQUARE_CM_CUBED (r)
    ensures r.inner.vx_items() == seq![("㎤"@, "cm3"@)],
#fn characters_set::cjk_compatibilities::SQUARE_M_CUBED (r)
    ensures r.inner.vx_items() == seq![("㎥"@, "m3"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KM_CUBED (r)
    ensures r.inner.vx_items() == seq![("㎦"@, "km3"@)],
#fn characters_set::cjk_compatibilities::SQUARE_M_OVER_S (r)
    ensures r.inner.vx_items() == seq![("㎧"@, "m/s"@)],
#fn characters_set::cjk_compatibilities::SQUARE_M_OVER_S_SQUARED (r)
    ensures r.inner.vx_items() == seq![("㎨"@, "m/s2"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PA (r)
    ensures r.inner.vx_items() == seq![("㎩"@, "Pa"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KPA (r)
    ensures r.inner.vx_items() == seq![("㎪"@, "kPa"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MPA (r)
    ensures r.inner.vx_items() == seq![("㎫"@, "MPa"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GPA (r)
    ensures r.inner.vx_items() == seq![("㎬"@, "GPa"@)],
#fn characters_set::cjk_compatibilities::SQUARE_RAD (r)
    ensures r.inner.vx_items() == seq![("㎭"@, "rad"@)],
#fn characters_set::cjk_compatibilities::SQUARE_RAD_OVER_S (r)
    ensures r.inner.vx_items() == seq![("㎮"@, "rad/s"@)],
#fn characters_set::cjk_compatibilities::SQUARE_RAD_OVER_S_SQUARED (r)
    ensures r.inner.vx_items() == seq![("㎯"@, "rad/s2"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PS (r)
    ensures r.inner.vx_items() == seq![("㎰"@, "ps"@)],
#fn characters_set::cjk_compatibilities::SQUARE_NS (r)
    ensures r.inner.vx_items() == seq![("㎱"@, "ns"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MU_S (r)
    ensures r.inner.vx_items() == seq![("㎲"@, "µs"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MS (r)
    ensures r.inner.vx_items() == seq![("㎳"@, "ms"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PV (r)
    ensures r.inner.vx_items() == seq![("㎴"@, "pV"@)],
#fn characters_set::cjk_compatibilities::SQUARE_NV (r)
    ensures r.inner.vx_items() == seq![("㎵"@, "nV"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MU_V (r)
    ensures r.inner.vx_items() == seq![("㎶"@, "µV"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MV (r)
    ensures r.inner.vx_items() == seq![("㎷"@, "mV"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KV (r)
    ensures r.inner.vx_items() == seq![("㎸"@, "kV"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MV_MEGA (r)
    ensures r.inner.vx_items() == seq![("㎹"@, "MV"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PW (r)
    ensures r.inner.vx_items() == seq![("㎺"@, "pW"@)],
#fn characters_set::cjk_compatibilities::SQUARE_NW (r)
    ensures r.inner.vx_items() == seq![("㎻"@, "nW"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MU_W (r)
    ensures r.inner.vx_items() == seq![("㎼"@, "µW"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MW (r)
    ensures r.inner.vx_items() == seq![("㎽"@, "mW"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KW (r)
    ensures r.inner.vx_items() == seq![("㎾"@, "kW"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MW_MEGA (r)
    ensures r.inner.vx_items() == seq![("㎿"@, "MW"@)],
#fn characters_set::cjk_compatibilities::SQUARE_K_OHM (r)
    ensures r.inner.vx_items() == seq![("㏀"@, "kΩ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_M_OHM (r)
    ensures r.inner.vx_items() == seq![("㏁"@, "MΩ"@)],
#fn characters_set::cjk_compatibilities::SQUARE_AM (r)
    ensures r.inner.vx_items() == seq![("㏂"@, "a.m."@)],
#fn characters_set::cjk_compatibilities::SQUARE_BQ (r)
    ensures r.inner.vx_items() == seq![("㏃"@, "Bq"@)],
#fn characters_set::cjk_compatibilities::SQUARE_CC (r)
    ensures r.inner.vx_items() == seq![("㏄"@, "cc"@)],
#fn characters_set::cjk_compatibilities::SQUARE_CD (r)
    ensures r.inner.vx_items() == seq![("㏅"@, "cd"@)],
#fn characters_set::cjk_compatibilities::SQUARE_C_OVER_KG (r)
    ensures r.inner.vx_items() == seq![("㏆"@, "C/kg"@)],
#fn characters_set::cjk_compatibilities::SQUARE_CO (r)
    ensures r.inner.vx_items() == seq![("㏇"@, "Co."@)],
#fn characters_set::cjk_compatibilities::SQUARE_DB (r)
    ensures r.inner.vx_items() == seq![("㏈"@, "dB"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GY (r)
    ensures r.inner.vx_items() == seq![("㏉"@, "Gy"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HA (r)
    ensures r.inner.vx_items() == seq![("㏊"@, "ha"@)],
#fn characters_set::cjk_compatibilities::SQUARE_HP (r)
    ensures r.inner.vx_items() == seq![("㏋"@, "HP"@)],
#fn characters_set::cjk_compatibilities::SQUARE_IN (r)
    ensures r.inner.vx_items() == seq![("㏌"@, "in"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KK (r)
    ensures r.inner.vx_items() == seq![("㏍"@, "K.K."@)],
#fn characters_set::cjk_compatibilities::SQUARE_KM_CAPITAL (r)
    ensures r.inner.vx_items() == seq![("㏎"@, "KM"@)],
#fn characters_set::cjk_compatibilities::SQUARE_KT (r)
    ensures r.inner.vx_items() == seq![("㏏"@, "kt"@)],
#fn characters_set::cjk_compatibilities::SQUARE_LM (r)
    ensures r.inner.vx_items() == seq![("㏐"@, "lm"@)],
#fn characters_set::cjk_compatibilities::SQUARE_LN (r)
    ensures r.inner.vx_items() == seq![("㏑"@, "ln"@)],
#fn characters_set::cjk_compatibilities::SQUARE_LOG (r)
    ensures r.inner.vx_items() == seq![("㏒"@, "log"@)],
#fn characters_set::cjk_compatibilities::SQUARE_LX (r)
    ensures r.inner.vx_items() == seq![("㏓"@, "lx"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MB_SMALL (r)
    ensures r.inner.vx_items() == seq![("㏔"@, "mb"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MIL (r)
    ensures r.inner.vx_items() == seq![("㏕"@, "mil"@)],
#fn characters_set::cjk_compatibilities::SQUARE_MOL (r)
    ensures r.inner.vx_items() == seq![("㏖"@, "mol"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PH (r)
    ensures r.inner.vx_items() == seq![("㏗"@, "pH"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PM (r)
    ensures r.inner.vx_items() == seq![("㏘"@, "p.m."@)],
#fn characters_set::cjk_compatibilities::SQUARE_PPM (r)
    ensures r.inner.vx_items() == seq![("㏙"@, "ppm"@)],
#fn characters_set::cjk_compatibilities::SQUARE_PR (r)
    ensures r.inner.vx_items() == seq![("㏚"@, "PR"@)],
#fn characters_set::cjk_compatibilities::SQUARE_SR (r)
    ensures r.inner.vx_items() == seq![("㏛"@, "sr"@)],
#fn characters_set::cjk_compatibilities::SQUARE_SV (r)
    ensures r.inner.vx_items() == seq![("㏜"@, "Sv"@)],
#fn characters_set::cjk_compatibilities::SQUARE_WB (r)
    ensures r.inner.vx_items() == seq![("㏝"@, "Wb"@)],
#fn characters_set::cjk_compatibilities::SQUARE_V_OVER_M (r)
    ensures r.inner.vx_items() == seq![("㏞"@, "V/m"@)],
#fn characters_set::cjk_compatibilities::SQUARE_A_OVER_M (r)
    ensures r.inner.vx_items() == seq![("㏟"@, "A/m"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE (r)
    ensures r.inner.vx_items() == seq![("㏠"@, "1日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO (r)
    ensures r.inner.vx_items() == seq![("㏡"@, "2日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE (r)
    ensures r.inner.vx_items() == seq![("㏢"@, "3日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR (r)
    ensures r.inner.vx_items() == seq![("㏣"@, "4日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE (r)
    ensures r.inner.vx_items() == seq![("㏤"@, "5日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX (r)
    ensures r.inner.vx_items() == seq![("㏥"@, "6日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN (r)
    ensures r.inner.vx_items() == seq![("㏦"@, "7日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT (r)
    ensures r.inner.vx_items() == seq![("㏧"@, "8日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE (r)
    ensures r.inner.vx_items() == seq![("㏨"@, "9日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN (r)
    ensures r.inner.vx_items() == seq![("㏩"@, "10日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN (r)
    ensures r.inner.vx_items() == seq![("㏪"@, "11日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE (r)
    ensures r.inner.vx_items() == seq![("㏫"@, "12日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN (r)
    ensures r.inner.vx_items() == seq![("㏬"@, "13日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN (r)
    ensures r.inner.vx_items() == seq![("㏭"@, "14日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN (r)
    ensures r.inner.vx_items() == seq![("㏮"@, "15日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN (r)
    ensures r.inner.vx_items() == seq![("㏯"@, "16日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN (r)
    ensures r.inner.vx_items() == seq![("㏰"@, "17日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN (r)
    ensures r.inner.vx_items() == seq![("㏱"@, "18日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN (r)
    ensures r.inner.vx_items() == seq![("㏲"@, "19日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY (r)
    ensures r.inner.vx_items() == seq![("㏳"@, "20日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE (r)
    ensures r.inner.vx_items() == seq![("㏴"@, "21日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO (r)
    ensures r.inner.vx_items() == seq![("㏵"@, "22日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE (r)
    ensures r.inner.vx_items() == seq![("㏶"@, "23日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR (r)
    ensures r.inner.vx_items() == seq![("㏷"@, "24日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE (r)
    ensures r.inner.vx_items() == seq![("㏸"@, "25日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX (r)
    ensures r.inner.vx_items() == seq![("㏹"@, "26日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN (r)
    ensures r.inner.vx_items() == seq![("㏺"@, "27日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT (r)
    ensures r.inner.vx_items() == seq![("㏻"@, "28日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE (r)
    ensures r.inner.vx_items() == seq![("㏼"@, "29日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY (r)
    ensures r.inner.vx_items() == seq![("㏽"@, "30日"@)],
#fn characters_set::cjk_compatibilities::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE (r)
    ensures r.inner.vx_items() == seq![("㏾"@, "31日"@)],
#fn characters_set::cjk_compatibilities::SQUARE_GAL (r)
    ensures r.inner.vx_items() == seq![("㏿"@, "gal"@)],
#impl characters_set::All@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { all_items() }
    open spec fn vx_fact(&self) -> bool { is_table(all_items(), |x: ItemV| in_all(x)) }
#fn characters_set::All@Corr::items (r)
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] ivs(vx_r@).contains(x) == in_all(x) by {}
        lemma_table_of(ivs(vx_r@), |x: ItemV| in_all(x));
    }
#fn characters_set::All::new (r)
#fn characters_set::All::corr (r)
    ensures r.inner == self,
#fn characters_set::ALL (r)
    ensures r.inner == (crate::characters_set::All{}),
