## ---------------------------------------------------------------- dispatch over the kinds of modifiers
#impl modifier_kind::ModifierKind@Modifier
    open spec fn vx_wf(&self) -> bool {
        match self {
            ModifierKind::CharacterConverter(x) => x.vx_wf(),
            ModifierKind::CharacterEliminator(x) => x.vx_wf(),
            ModifierKind::ConsecutiveCharacterReducer(x) => x.vx_wf(),
            ModifierKind::DottedSpaceEliminator(x) => x.vx_wf(),
            ModifierKind::LigatureTranslator(x) => x.vx_wf(),
            ModifierKind::Trim(x) => x.vx_wf(),
            ModifierKind::Neologdn(x) => x.vx_wf(),
        }
    }
    open spec fn vx_text(&self, s: Seq<char>) -> Seq<char> {
        match self {
            ModifierKind::CharacterConverter(x) => x.vx_text(s),
            ModifierKind::CharacterEliminator(x) => x.vx_text(s),
            ModifierKind::ConsecutiveCharacterReducer(x) => x.vx_text(s),
            ModifierKind::DottedSpaceEliminator(x) => x.vx_text(s),
            ModifierKind::LigatureTranslator(x) => x.vx_text(s),
            ModifierKind::Trim(x) => x.vx_text(s),
            ModifierKind::Neologdn(x) => x.vx_text(s),
        }
    }
    open spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV> {
        match self {
            ModifierKind::CharacterConverter(x) => x.vx_pos(s),
            ModifierKind::CharacterEliminator(x) => x.vx_pos(s),
            ModifierKind::ConsecutiveCharacterReducer(x) => x.vx_pos(s),
            ModifierKind::DottedSpaceEliminator(x) => x.vx_pos(s),
            ModifierKind::LigatureTranslator(x) => x.vx_pos(s),
            ModifierKind::Trim(x) => x.vx_pos(s),
            ModifierKind::Neologdn(x) => x.vx_pos(s),
        }
    }
    open spec fn vx_kind(&self) -> ModifierKind { *self }
#fn modifier_kind::ModifierKind@Modifier::modify
#fn modifier_kind::ModifierKind@Modifier::modify_with_positions

## ---------------------------------------------------------------- neologdn
#impl modifier::neologdn::Neologdn@Modifier
    open spec fn vx_wf(&self) -> bool {
        &&& self.character_converter.items_map@ == tmap(neologdn_items())
        &&& self.consecutive.c == 'ー'
        &&& forall|c: char| #[trigger] self.character_eliminator.chars@.contains(c) == is_tilde(c)
        &&& is_kana_map(self.ligature_translator.map@)
    }
    open spec fn vx_text(&self, s: Seq<char>) -> Seq<char> {
        neologdn(self.character_converter.items_map@, self.character_eliminator.chars@, self.ligature_translator.map@, s)
    }
    open spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV> { Seq::empty() }
    open spec fn vx_kind(&self) -> ModifierKind { ModifierKind::Neologdn(*self) }
#fn modifier::neologdn::Neologdn@Modifier::modify
#fn modifier::neologdn::Neologdn@Modifier::modify_with_positions
#tail
    proof { lemma_neologdn_last(self.character_converter.items_map@, self.character_eliminator.chars@, self.ligature_translator.map@, input@); }
#impl modifier::neologdn::Neologdn@Default
    open spec fn vx_default_ok(r: Self) -> bool { r.vx_wf() }
#fn modifier::neologdn::Neologdn@Default::default (r)
#fn modifier::neologdn::Neologdn::new (r)
    ensures r.vx_wf(),
#loop 0
    kana_upto(map@, vx_it0.pos(), 0),
    vx_it0.seq().len() == 42,
    forall|i: int| 0 <= i < 42 ==> ((#[trigger] vx_it0.seq()[i]).0@, vx_it0.seq()[i].1@) == kana_ten(i),
#begin
    proof { lemma_kana_ten(map@, vx_it0.pos()); }
#loop 1
    kana_upto(map@, 42, vx_it1.pos()),
    vx_it1.seq().len() == 10,
    forall|i: int| 0 <= i < 10 ==> ((#[trigger] vx_it1.seq()[i]).0@, vx_it1.seq()[i].1@) == kana_maru(i),
#begin
    proof { lemma_kana_maru(map@, vx_it1.pos()); }
#tail
    broadcast use {lemma_diff_contains, lemma_one, lemma_tables_one};
    proof {
        assert forall|x: ItemV| #[trigger] table.vx_items().contains(x) == in_neologdn(x) by {}
        lemma_table_of(table.vx_items(), |x: ItemV| in_neologdn(x));
    }
#fn modifier::neologdn::KANA_TEN (r)
    ensures forall|i: int| 0 <= i < 42 ==> ((#[trigger] r@[i]).0@, r@[i].1@) == kana_ten(i),
#fn modifier::neologdn::KANA_MARU (r)
    ensures forall|i: int| 0 <= i < 10 ==> ((#[trigger] r@[i]).0@, r@[i].1@) == kana_maru(i),
#fn modifier::neologdn::TILDES (r)
    ensures forall|c: char| #[trigger] r@.contains(c) == is_tilde(c),
#fn modifier::neologdn::CHOONPUS (r)
    ensures forall|x: ItemV| #[trigger] r.inner.vx_items().contains(x) == in_choonpus(x),
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] vx_r.inner.vx_items().contains(x) == in_choonpus(x) by {
            lemma_unification(vx_r.inner, x);
            reveal_with_fuel(any_from, 13);
        }
    }
#fn modifier::neologdn::HYPHENS (r)
    ensures forall|x: ItemV| #[trigger] r.inner.vx_items().contains(x) == in_hyphens(x),
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] vx_r.inner.vx_items().contains(x) == in_hyphens(x) by {
            lemma_unification(vx_r.inner, x);
            reveal_with_fuel(any_from, 13);
        }
    }

## ---------------------------------------------------------------- Chanoma
#mod chanoma
    impl Chanoma {
        pub open spec fn vx_wf(&self) -> bool { forall|i: int| 0 <= i < self.modifiers@.len() ==> (#[trigger] self.modifiers@[i]).vx_wf() }
    }
#impl chanoma::Chanoma@Default
    open spec fn vx_default_ok(r: Self) -> bool { r.modifiers@.len() == 0 }
#fn chanoma::Chanoma@Default::default (r)
#fn chanoma::Chanoma::new (r)
    ensures r.modifiers@.len() == 0, r.vx_wf(),
#fn chanoma::Chanoma::preset (r)
    ensures r.vx_wf(), r.modifiers@.len() == 1, is_converter(r.modifiers@[0], tmap(all_items())),
#fn chanoma::Chanoma::use_preset (r)
    requires old(self).vx_wf(),
    ensures *final(self) == *final(r), r.vx_wf(), pushed(old(self).modifiers@, r.modifiers@), is_converter(r.modifiers@.last(), tmap(all_items())),
#fn chanoma::Chanoma::neologdn (r)
    ensures r.vx_wf(), r.modifiers@.len() == 1, r.modifiers@[0] is Neologdn,
#fn chanoma::Chanoma::use_neologdn (r)
    requires old(self).vx_wf(),
    ensures *final(self) == *final(r), r.vx_wf(), pushed(old(self).modifiers@, r.modifiers@), r.modifiers@.last() is Neologdn,
#fn chanoma::Chanoma::from_table (r)
    ensures r.vx_wf(), r.modifiers@.len() == 1, is_converter(r.modifiers@[0], tmap(table.vx_items())),
#start
    broadcast use {lemma_tables_one, lemma_union_empty};
#fn chanoma::Chanoma::add_table (r)
    requires old(self).vx_wf(),
    ensures *final(self) == *final(r), r.vx_wf(), pushed(old(self).modifiers@, r.modifiers@), is_converter(r.modifiers@.last(), tmap(table.vx_items())),
#start
    broadcast use {lemma_tables_one, lemma_union_empty};
#fn chanoma::Chanoma::all_characters_set (r)
    ensures is_converter(r, tmap(all_items())),
#start
    broadcast use {lemma_tables_one, lemma_union_empty};
#fn chanoma::Chanoma::normalize (r)
    requires self.vx_wf(),
    ensures r@ == pipeline(self.modifiers@, text@, self.modifiers@.len() as int),
#loop 0
    vx_o0@ == pipeline(self.modifiers@, text@, vx_it0.pos()),
#fn chanoma::Chanoma::normalize_with_positions (r)
    requires self.vx_wf(),
    ensures
        r.text@ == pipeline(self.modifiers@, text@, self.modifiers@.len() as int),
        r.records@.len() == self.modifiers@.len(),
        forall|i: int| 0 <= i < r.records@.len() ==> step_record(#[trigger] r.records@[i], self.modifiers@, text@, i),
#start
    let ghost vx_t = text@;
#loop 0
    text@ == pipeline(self.modifiers@, vx_t, vx_it0.pos()),
    v@.len() == vx_it0.pos(),
    forall|i: int| 0 <= i < v@.len() ==> step_record(#[trigger] v@[i], self.modifiers@, vx_t, i),

#impl modifier::trim::ModifierKind@From<Trim>
    open spec fn vx_from_ok(t: Trim, r: ModifierKind) -> bool { r == ModifierKind::Trim(t) }
#fn modifier::trim::ModifierKind@From<Trim>::from (r)
#impl modifier::character_converter::ModifierKind@From<CharacterConverter>
    open spec fn vx_from_ok(t: CharacterConverter, r: ModifierKind) -> bool { r == ModifierKind::CharacterConverter(t) }
#fn modifier::character_converter::ModifierKind@From<CharacterConverter>::from (r)
#impl modifier::neologdn::ModifierKind@From<Neologdn>
    open spec fn vx_from_ok(t: Neologdn, r: ModifierKind) -> bool { r == ModifierKind::Neologdn(t) }
#fn modifier::neologdn::ModifierKind@From<Neologdn>::from (r)
#impl modifier::character_eliminator::ModifierKind@From<CharacterEliminator>
    open spec fn vx_from_ok(t: CharacterEliminator, r: ModifierKind) -> bool { r == ModifierKind::CharacterEliminator(t) }
#fn modifier::character_eliminator::ModifierKind@From<CharacterEliminator>::from (r)
#impl modifier::consecutive_character_reducer::ModifierKind@From<ConsecutiveCharacterReducer>
    open spec fn vx_from_ok(t: ConsecutiveCharacterReducer, r: ModifierKind) -> bool { r == ModifierKind::ConsecutiveCharacterReducer(t) }
#fn modifier::consecutive_character_reducer::ModifierKind@From<ConsecutiveCharacterReducer>::from (r)
#impl modifier::dotted_space_eliminator::ModifierKind@From<DottedSpaceEliminator>
    open spec fn vx_from_ok(t: DottedSpaceEliminator, r: ModifierKind) -> bool { r == ModifierKind::DottedSpaceEliminator(t) }
#fn modifier::dotted_space_eliminator::ModifierKind@From<DottedSpaceEliminator>::from (r)
#impl modifier::ligature_translator::ModifierKind@From<LigatureTranslator>
    open spec fn vx_from_ok(t: LigatureTranslator, r: ModifierKind) -> bool { r == ModifierKind::LigatureTranslator(t) }
#fn modifier::ligature_translator::ModifierKind@From<LigatureTranslator>::from (r)
#impl modifier::trim::Trim@Default
    open spec fn vx_default_ok(r: Self) -> bool { true }
#fn modifier::trim::Trim@Default::default (r)
#impl modifier::dotted_space_eliminator::DottedSpaceEliminator@Default
    open spec fn vx_default_ok(r: Self) -> bool { true }
#fn modifier::dotted_space_eliminator::DottedSpaceEliminator@Default::default (r)
