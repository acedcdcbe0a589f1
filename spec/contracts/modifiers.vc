## ---------------------------------------------------------------- the trait
#trait modifier::Modifier
    /// holds for every value that the crate's constructors make
    spec fn vx_wf(&self) -> bool;
    spec fn vx_text(&self, s: Seq<char>) -> Seq<char>;
    spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV>;
    spec fn vx_kind(&self) -> ModifierKind;
#fn modifier::Modifier::modify (r)
    requires self.vx_wf(),
    ensures r@ == self.vx_text(text@),
#fn modifier::Modifier::modify_with_positions (r)
    requires self.vx_wf(),
    ensures r.text@ == self.vx_text(text@), pvs(r.positions@) == self.vx_pos(text@), r.kind == self.vx_kind(),

#fn modifier::ModifiedRecord::new (r)
    ensures r.kind == kind, r.text == text, r.positions == positions,
#fn modifier::ModifiedRecords::new (r)
    ensures r.records == records, r.text == text,
#fn modifier::ModifiedRecords::text (r)
    ensures r@ == self.text@,
#fn modifier::ModifiedRecords::modified_records (r)
    ensures *r == self.records,

#fn position::Position::new (r)
    ensures from.vx_into_ok(r.from), to.vx_into_ok(r.to), r.index == index, r.utf8_index == utf8_index, r.length == length, r.utf8_length == utf8_length,
#fn position::Position@Ord::cmp (r)
    ensures r == cmp_usize(self.index, other.index),
#fn position::Position@PartialOrd::partial_cmp (r)
    ensures r == Some(cmp_usize(self.index, other.index)),
#fn position::Position@PartialEq::eq (r)
    ensures r == (self.index == other.index),

## ---------------------------------------------------------------- trim
#impl modifier::trim::Trim@Modifier
    open spec fn vx_wf(&self) -> bool { true }
    open spec fn vx_text(&self, s: Seq<char>) -> Seq<char> { trim_s(s, ' ') }
    open spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV> { trim_pos(s) }
    open spec fn vx_kind(&self) -> ModifierKind { ModifierKind::Trim(*self) }
#fn modifier::trim::Trim@Modifier::modify
#tail
    proof { assert(self.vx_text(input@) == trim_s(input@, ' ')); }
#fn modifier::trim::Trim@Modifier::modify_with_positions (r)
#start
    proof { lemma_trim_bytes(input@); }
#tail
    proof { lemma_trim_pos(input@); assert(pvs(positions@) =~= trim_pos(input@)); }
#fn modifier::trim::Trim::new (r)

## ---------------------------------------------------------------- eliminator
#impl modifier::character_eliminator::CharacterEliminator@Modifier
    open spec fn vx_wf(&self) -> bool { true }
    open spec fn vx_text(&self, s: Seq<char>) -> Seq<char> { elim(self.chars@, s, s.len() as int) }
    open spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV> { Seq::empty() }
    open spec fn vx_kind(&self) -> ModifierKind { ModifierKind::CharacterEliminator(*self) }
#fn modifier::character_eliminator::CharacterEliminator@Modifier::modify
#loop 0
    s@ == elim(self.chars@, input@, vx_it0.pos()),
#after
    proof { assert(s@ == self.vx_text(input@)); }
#fn modifier::character_eliminator::CharacterEliminator@Modifier::modify_with_positions
#tail
    proof { assert(pvs(positions@) =~= Seq::<PosV>::empty()); }
#fn modifier::character_eliminator::CharacterEliminator::from_char (r)
    ensures r.chars@ == Set::<char>::empty().insert(c),
#fn modifier::character_eliminator::CharacterEliminator::from_chars (r)
    ensures r.chars@ == chs@.to_set(),
#loop 0
    chars@ =~= chs@.take(vx_it0.pos()).to_set(),
#end
    proof { lemma_take_set(chs@, vx_it0.pos()); }
#after
    proof { assert(chs@.take(chs@.len() as int) =~= chs@); }

## ---------------------------------------------------------------- reducer
#impl modifier::consecutive_character_reducer::ConsecutiveCharacterReducer@Modifier
    open spec fn vx_wf(&self) -> bool { true }
    open spec fn vx_text(&self, s: Seq<char>) -> Seq<char> { reduce(self.c, s, s.len() as int) }
    open spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV> { reduce_pos(self.c, s) }
    open spec fn vx_kind(&self) -> ModifierKind { ModifierKind::ConsecutiveCharacterReducer(*self) }
#fn modifier::consecutive_character_reducer::ConsecutiveCharacterReducer@Modifier::modify
#loop 0
    consecutive == (vx_it0.pos() > 0 && input@[vx_it0.pos() - 1] == self.c),
    text@ == reduce(self.c, input@, vx_it0.pos()),
#end
    proof { assert(text@ =~= reduce(self.c, input@, vx_it0.pos())); }
#after
    proof { assert(text@ == self.vx_text(input@)); }
#alt
#loop 0
    vx_prev == (if vx_it0.pos() > 0 { Some(input@[vx_it0.pos() - 1]) } else { None::<char> }),
    vx_text@ == reduce(self.c, input@, vx_it0.pos()),
#end
    proof { assert(vx_text@ =~= reduce(self.c, input@, vx_it0.pos())); }
#after
    proof { assert(vx_text@ == self.vx_text(input@)); }
#alt
#loop 0
    vx_prev == (vx_it0.pos() == 0 || input@[vx_it0.pos() - 1] != self.c),
    vx_text@ == reduce(self.c, input@, vx_it0.pos()),
#end
    proof { assert(vx_text@ =~= reduce(self.c, input@, vx_it0.pos())); }
#after
    proof { assert(vx_text@ == self.vx_text(input@)); }
#alt
#loop 0
    vx_n == vx_it0.pos() - run_start(self.c, input@, vx_it0.pos()),
    vx_text@ == reduce(self.c, input@, vx_it0.pos()),
#begin
    let ghost n0 = vx_it0.pos();
    proof { lemma_run(self.c, input@, n0); }
#end
    proof { assert(vx_text@ =~= reduce(self.c, input@, vx_it0.pos())); }
#after
    proof { assert(vx_text@ == self.vx_text(input@)); }
#alt
#loop 0
    vx_text@ == reduce(self.c, input@, vx_it0.pos()),
    vx_it0.pos() > 0 ==> reduce(self.c, input@, vx_it0.pos()).len() > 0 && reduce(self.c, input@, vx_it0.pos()).last() == input@[vx_it0.pos() - 1],
#end
    proof { assert(vx_text@ =~= reduce(self.c, input@, vx_it0.pos())); }
#after
    proof { assert(vx_text@ == self.vx_text(input@)); }
#fn modifier::consecutive_character_reducer::ConsecutiveCharacterReducer@Modifier::modify_with_positions
#loop 0
    c_len == clen(self.c),
    counter == vx_it0.pos() - run_start(self.c, input@, vx_it0.pos()),
    counter > 0 ==> start.0 == blen(input@, run_start(self.c, input@, vx_it0.pos())) && start.1 == run_start(self.c, input@, vx_it0.pos()),
    text@ == reduce(self.c, input@, vx_it0.pos()),
    pvs(positions@) == run_pos(self.c, input@, vx_it0.pos()),
#begin
    let ghost n0 = vx_it0.pos();
    proof { lemma_run(self.c, input@, n0); lemma_blen_mono(input@, n0, input@.len() as int); }
#end
    proof {
        assert(text@ =~= reduce(self.c, input@, vx_it0.pos()));
        assert(pvs(positions@) =~= run_pos(self.c, input@, vx_it0.pos()));
    }
#after
    proof { lemma_run(self.c, input@, input@.len() as int); }
#tail
    proof { assert(pvs(positions@) =~= reduce_pos(self.c, input@)); }
#fn modifier::consecutive_character_reducer::ConsecutiveCharacterReducer::new (r)
    ensures r.c == c,

## ---------------------------------------------------------------- dotted space
#impl modifier::dotted_space_eliminator::DottedSpaceEliminator@Modifier
    open spec fn vx_wf(&self) -> bool { true }
    open spec fn vx_text(&self, s: Seq<char>) -> Seq<char> { dotted(s, s.len() as int) }
    open spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV> { Seq::empty() }
    open spec fn vx_kind(&self) -> ModifierKind { ModifierKind::DottedSpaceEliminator(*self) }
#fn modifier::dotted_space_eliminator::DottedSpaceEliminator@Modifier::modify
#loop 0
    prev == (if vx_it0.pos() > 0 { input@[vx_it0.pos() - 1] } else { ' ' }),
    space == (vx_it0.pos() > 0 && input@[vx_it0.pos() - 1] == ' ' && last_ns(input@, vx_it0.pos()) >= 0 && alnum(input@[last_ns(input@, vx_it0.pos())])),
    last_ns(input@, vx_it0.pos()) < vx_it0.pos(),
    text@ == dotted(input@, vx_it0.pos()),
#end
    proof { assert(text@ =~= dotted(input@, vx_it0.pos())); }
#after
    proof { assert(text@ == self.vx_text(input@)); }
#alt
#loop 0
    vx_last == (if last_ns(input@, vx_it0.pos()) >= 0 { Some(input@[last_ns(input@, vx_it0.pos())]) } else { None::<char> }),
    vx_pending == (vx_it0.pos() > 0 && input@[vx_it0.pos() - 1] == ' '),
    last_ns(input@, vx_it0.pos()) < vx_it0.pos(),
    vx_text@ == dotted(input@, vx_it0.pos()),
#end
    proof { assert(vx_text@ =~= dotted(input@, vx_it0.pos())); }
#after
    proof { assert(vx_text@ == self.vx_text(input@)); }
#alt
#loop 0
    vx_prev == (if vx_it0.pos() > 0 { Some(input@[vx_it0.pos() - 1]) } else { None::<char> }),
    vx_space == (vx_it0.pos() > 0 && input@[vx_it0.pos() - 1] == ' ' && last_ns(input@, vx_it0.pos()) >= 0 && alnum(input@[last_ns(input@, vx_it0.pos())])),
    last_ns(input@, vx_it0.pos()) < vx_it0.pos(),
    vx_text@ == dotted(input@, vx_it0.pos()),
#end
    proof { assert(vx_text@ =~= dotted(input@, vx_it0.pos())); }
#after
    proof { assert(vx_text@ == self.vx_text(input@)); }
#fn modifier::dotted_space_eliminator::DottedSpaceEliminator@Modifier::modify_with_positions
#tail
    proof { assert(pvs(positions@) =~= Seq::<PosV>::empty()); }
#fn modifier::dotted_space_eliminator::DottedSpaceEliminator::new

## ---------------------------------------------------------------- ligature
#impl modifier::ligature_translator::LigatureTranslator@Modifier
    open spec fn vx_wf(&self) -> bool { true }
    open spec fn vx_text(&self, s: Seq<char>) -> Seq<char> { ligature(self.map@, s) }
    open spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV> { Seq::empty() }
    open spec fn vx_kind(&self) -> ModifierKind { ModifierKind::LigatureTranslator(*self) }
#fn modifier::ligature_translator::LigatureTranslator@Modifier::modify
#start
    let ghost mut vx_p: Seq<(Seq<char>, Seq<char>)> = Seq::empty();
    let ghost mut vx_e: Seq<(&String, &String)> = Seq::empty();
#loop 0
    vx_p.len() == vx_s0.len(),
    forall|i: int| 0 <= i < vx_p.len() ==> #[trigger] vx_p[i] == (vx_s0[i].0@, vx_s0[i].1@),
    text@ == lig(vx_p, input@, vx_it0.pos()),
#before
    proof {
        vx_p = pair_views(vx_it0.seq());
        lemma_sorted_entries(vx_it0.seq(), self.map@);
    }
#after
    proof { lemma_entries_unique(vx_p, self.map@); assert(text@ == self.vx_text(input@)); }
#alt
    let ghost mut vx_p: Seq<(Seq<char>, Seq<char>)> = Seq::empty();
#loop 0
    vx_p.len() == vx_s0.len(),
    forall|i: int| 0 <= i < vx_p.len() ==> #[trigger] vx_p[i] == (vx_s0[i].0@, vx_s0[i].1@),
    vx_text@ == lig(vx_p, input@, vx_it0.pos()),
#before
    proof {
        vx_p = pair_views(vx_it0.seq());
        lemma_sorted_entries(vx_it0.seq(), self.map@);
    }
#after
    proof { lemma_entries_unique(vx_p, self.map@); assert(vx_text@ == self.vx_text(input@)); }
#fn modifier::ligature_translator::LigatureTranslator@Modifier::modify_with_positions
#tail
    proof { assert(pvs(positions@) =~= Seq::<PosV>::empty()); }
#fn modifier::ligature_translator::LigatureTranslator::from_map (r)
    ensures r.map == map,

## ---------------------------------------------------------------- converter
#mod modifier::character_converter
    pub open spec fn cp_ok(m: HashMap<char, CharPos>, s: Seq<char>, n: int) -> bool {
        &&& forall|c: char| #[trigger] m@.contains_key(c) <==> occ(s, n, c).len() > 0
        &&& forall|c: char| #[trigger] m@.contains_key(c) ==> m@[c].indices@ == occ(s, n, c) && m@[c].utf8_indices@ == occb(s, n, c) && m@[c].length == clen(c)
    }
#impl modifier::character_converter::CharacterConverter@Modifier
    open spec fn vx_wf(&self) -> bool { true }
    open spec fn vx_text(&self, s: Seq<char>) -> Seq<char> { conv(self.items_map@, s) }
    open spec fn vx_pos(&self, s: Seq<char>) -> Seq<PosV> { conv_pos(self.items_map@, s) }
    open spec fn vx_kind(&self) -> ModifierKind { ModifierKind::CharacterConverter(*self) }
#fn modifier::character_converter::CharPos::new (r)
    ensures r.length == length, r.indices@.len() == 0, r.utf8_indices@.len() == 0,
#fn modifier::character_converter::CharPos::push_indexes
    ensures final(self).length == old(self).length, final(self).indices@ == old(self).indices@.push(index), final(self).utf8_indices@ == old(self).utf8_indices@.push(utf8_index),
#fn modifier::character_converter::CharPos::UTF8_LEN (r)
    ensures r == 1,
#fn modifier::character_converter::CharacterConverter@Modifier::modify
#loop 0
    refs@ == input@.take(vx_it0.pos()),
    idx_ok(map, input@, vx_it0.pos()),
#end
    proof {
        lemma_idx_step(input@, vx_it0.pos());
        assert(map@.contains_key(input@[vx_it0.pos() - 1]));
        assert(map@[input@[vx_it0.pos() - 1]]@ == occ(input@, vx_it0.pos() - 1, input@[vx_it0.pos() - 1]).push((vx_it0.pos() - 1) as usize));
        assert(idx_ok(map, input@, vx_it0.pos()));
    }
#loop 1
    refs@.len() == input@.len(),
    forall|i: int, j: int| 0 <= i < refs@.len() && 0 <= j < vx_it1.pos() && (#[trigger] vx_s1[j]).0 == input@[i] ==> #[trigger] refs@[i] == conv1(self.items_map@, input@[i]),
    forall|i: int| 0 <= i < refs@.len() ==> refs@[i] == conv1(self.items_map@, input@[i]) || #[trigger] refs@[i] == input@[i],
#begin
    let ghost refs0 = refs@;
    proof { lemma_occ_sound(input@, input@.len() as int, *vx_s1[vx_it1.pos()].0); }
#loop 2
    refs@.len() == input@.len(),
    forall|i: int| 0 <= i < refs@.len() && input@[i] != *c ==> #[trigger] refs@[i] == refs0[i],
    forall|j: int| 0 <= j < vx_it2.pos() ==> refs@[(#[trigger] indices@[j]) as int] == *to,
    forall|i: int| 0 <= i < refs@.len() && input@[i] == *c ==> #[trigger] refs@[i] == refs0[i] || refs@[i] == *to,
#tail
    proof {
        assert forall|i: int| 0 <= i < refs@.len() implies #[trigger] refs@[i] == conv1(self.items_map@, input@[i]) by {
            lemma_occ_sound(input@, input@.len() as int, input@[i]);
            assert(map@.contains_key(input@[i]));
        }
        assert(refs@ =~= conv(self.items_map@, input@));
        assert(refs@ == self.vx_text(input@));
    }
#alt
#loop 0
    vx_acc@ == conv(self.items_map@, input@.take(vx_it0.pos())),
#end
    proof { assert(input@.take(vx_it0.pos()) =~= input@.take(vx_it0.pos() - 1).push(input@[vx_it0.pos() - 1])); }
    proof { assert(vx_acc@ =~= conv(self.items_map@, input@.take(vx_it0.pos()))); }
#after
    proof { assert(input@.take(input@.len() as int) =~= input@); }
#alt
#loop 0
    vx_acc@ == input@.take(vx_it0.pos()),
#end
    proof { assert(input@.take(vx_it0.pos()) =~= input@.take(vx_it0.pos() - 1).push(input@[vx_it0.pos() - 1])); }
#after
    proof { assert(input@.take(input@.len() as int) =~= input@); }
#loop 1
    vx_acc2@ == conv(self.items_map@, input@.take(vx_it1.pos())),
    vx_s1 == input@,
#end
    proof { assert(input@.take(vx_it1.pos()) =~= input@.take(vx_it1.pos() - 1).push(input@[vx_it1.pos() - 1])); }
    proof { assert(vx_acc2@ =~= conv(self.items_map@, input@.take(vx_it1.pos()))); }
#fn modifier::character_converter::CharacterConverter@Modifier::modify_with_positions (r)
#start
    let ghost mut vx_idx: Seq<int> = Seq::empty();
    let ghost mut vx_pre: Seq<Position> = Seq::empty();
    let ghost vx_m = self.items_map@;
#loop 0
    refs@ == input@.take(vx_it0.pos()),
    cp_ok(map, input@, vx_it0.pos()),
#begin
    proof { lemma_blen_mono(input@, vx_it0.pos(), input@.len() as int); }
    proof { lemma_occ_sound(input@, vx_it0.pos(), input@[vx_it0.pos()]); }
#end
    proof {
        lemma_idx_step(input@, vx_it0.pos());
        assert(map@.contains_key(input@[vx_it0.pos() - 1]));
        assert(map@[input@[vx_it0.pos() - 1]].indices@ == occ(input@, vx_it0.pos() - 1, input@[vx_it0.pos() - 1]).push((vx_it0.pos() - 1) as usize));
        assert(map@[input@[vx_it0.pos() - 1]].utf8_indices@ == occb(input@, vx_it0.pos() - 1, input@[vx_it0.pos() - 1]).push(blen(input@, vx_it0.pos() - 1) as usize));
        assert(cp_ok(map, input@, vx_it0.pos()));
    }
#loop 1
    refs@.len() == input@.len(),
    forall|i: int, j: int| 0 <= i < refs@.len() && 0 <= j < vx_it1.pos() && (#[trigger] vx_s1[j]).0 == input@[i] ==> #[trigger] refs@[i] == conv1(self.items_map@, input@[i]),
    forall|i: int| 0 <= i < refs@.len() ==> refs@[i] == conv1(self.items_map@, input@[i]) || #[trigger] refs@[i] == input@[i],
    entries_at(positions@, vx_idx, vx_m, input@),
    forall|k: int| 0 <= k < vx_idx.len() ==> exists|j: int| 0 <= j < vx_it1.pos() && *(#[trigger] vx_s1[j]).0 == input@[#[trigger] vx_idx[k]],
    forall|i: int, j: int| 0 <= i < input@.len() && 0 <= j < vx_it1.pos() && *(#[trigger] vx_s1[j]).0 == #[trigger] input@[i] && vx_m.contains_key(input@[i]) ==> vx_idx.contains(i),
#begin
    let ghost refs0 = refs@;
    let ghost idx0 = vx_idx;
    let ghost c0 = *vx_s1[vx_it1.pos()].0;
    let ghost o = occ(input@, input@.len() as int, c0);
    proof { lemma_occ_sound(input@, input@.len() as int, c0); }
#end
    proof {
        assert forall|i: int, j: int| 0 <= i < input@.len() && 0 <= j < vx_it1.pos() && *(#[trigger] vx_s1[j]).0 == #[trigger] input@[i] && vx_m.contains_key(input@[i]) implies vx_idx.contains(i) by {
            if j == vx_it1.pos() - 1 {
                let l = choose|l: int| 0 <= l < o.len() && o[l] == i;
                assert(vx_idx[idx0.len() + l] == i);
            } else {
                assert(idx0.contains(i));
                let l = choose|l: int| 0 <= l < idx0.len() && idx0[l] == i;
                assert(vx_idx[l] == i);
            }
        }
        assert forall|k: int| 0 <= k < vx_idx.len() implies exists|j: int| 0 <= j < vx_it1.pos() && *(#[trigger] vx_s1[j]).0 == input@[#[trigger] vx_idx[k]] by {
            if k < idx0.len() {
                assert(vx_idx[k] == idx0[k]);
                let j = choose|j: int| 0 <= j < vx_it1.pos() - 1 && *(#[trigger] vx_s1[j]).0 == input@[idx0[k]];
                assert(*vx_s1[j].0 == input@[vx_idx[k]]);
            } else {
                assert(*vx_s1[vx_it1.pos() - 1].0 == input@[vx_idx[k]]);
            }
        }
    }
#loop 2
    refs@.len() == input@.len(),
    forall|i: int| 0 <= i < refs@.len() && input@[i] != *c ==> #[trigger] refs@[i] == refs0[i],
    forall|j: int| 0 <= j < vx_it2.pos() ==> refs@[(#[trigger] o[j]) as int] == *to,
    forall|i: int| 0 <= i < refs@.len() && input@[i] == *c ==> #[trigger] refs@[i] == refs0[i] || refs@[i] == *to,
    char_pos.indices@ == o, char_pos.utf8_indices@ == occb(input@, input@.len() as int, c0),
    vx_idx == idx0 + Seq::new(vx_it2.pos() as nat, |k: int| o[k] as int),
    entries_at(positions@, vx_idx, vx_m, input@),
#end
    proof {
        let j0 = vx_it2.pos() - 1;
        let i0 = o[j0] as int;
        let idx1 = vx_idx;
        vx_idx = idx0 + Seq::new(vx_it2.pos() as nat, |k: int| o[k] as int);
        assert(vx_idx =~= idx1.push(i0));
        lemma_blen_mono(input@, i0, input@.len() as int);
        assert(blen(input@, i0 + 1) == blen(input@, i0) + clen(input@[i0]));
        assert(pv(positions@[idx1.len() as int]) =~= posat(input@, i0, i0 + 1, seq![vx_m[input@[i0]]]));
        assert forall|k: int, l: int| 0 <= k < l < vx_idx.len() implies (#[trigger] vx_idx[k]) != (#[trigger] vx_idx[l]) by {
            if l == idx1.len() {
                if k < idx0.len() {
                    let j = choose|j: int| 0 <= j < vx_it1.pos() - 1 && *(#[trigger] vx_s1[j]).0 == input@[idx0[k]];
                    assert(*vx_s1[j].0 != *vx_s1[vx_it1.pos() - 1].0);
                } else { assert(o[k - idx0.len()] < o[j0]); }
            } else { assert(idx1[k] != idx1[l]); }
        }
    }
#before
    proof { assert(Seq::new(0nat, |k: int| o[k] as int) =~= Seq::<int>::empty()); assert(idx0 + Seq::<int>::empty() =~= idx0); }
#loop 1
#after
    proof {
        vx_pre = positions@;
        assert forall|i: int| 0 <= i < refs@.len() implies #[trigger] refs@[i] == conv1(self.items_map@, input@[i]) by {
            lemma_occ_sound(input@, input@.len() as int, input@[i]);
            assert(map@.contains_key(input@[i]));
        }
        assert(refs@ =~= conv(self.items_map@, input@));
        assert forall|i: int| 0 <= i < input@.len() && vx_m.contains_key(#[trigger] input@[i]) implies vx_idx.contains(i) by {
            lemma_occ_sound(input@, input@.len() as int, input@[i]);
            assert(map@.contains_key(input@[i]));
        }
    }
#tail
    proof { lemma_conv_sorted(vx_pre, positions@, vx_idx, vx_m, input@); assert(refs@ == self.vx_text(input@)); assert(pvs(positions@) == self.vx_pos(input@)); }
#fn modifier::character_converter::CharacterConverter::from_map (r)
    ensures r.items_map == items_map,
