## ---------------------------------------------------------------- items and correspondences
#trait corr::Corr
    /// the items, in order
    spec fn vx_items(&self) -> Seq<ItemV>;
    /// what is known of them once they have been listed
    spec fn vx_fact(&self) -> bool;
#fn corr::Corr::items (r)
    ensures ivs(r@) == self.vx_items(), self.vx_fact(),
#fn corr::Corr::corr (r)
#free
    ensures r.inner == vx_self,
#fn corr::Corr::synthesize (r)
#free
    ensures r.inner.vx_items() == vx_self.vx_items(),
#fn corr::item::Item::new (r)
    ensures from.vx_into_ok(r.from), to.vx_into_ok(r.to),
#impl corr::Synthesized@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { ivs(self.items@) }
    open spec fn vx_fact(&self) -> bool { true }
#fn corr::Synthesized@Corr::items (r)
#fn corr::Synthesized::new (r)
    ensures r.items == items,
#fn corr::Synthesized::corr (r)
    ensures r.inner == self,
#impl corr::Synthesized@Default
    open spec fn vx_default_ok(r: Self) -> bool { r.items@.len() == 0 }
#fn corr::Synthesized@Default::default (r)
#impl corr::Correspondence@Default
    open spec fn vx_default_ok(r: Self) -> bool { Synthesized::vx_default_ok(r.inner) }
#fn corr::Correspondence@Default::default (r)
#fn corr::Correspondence::new (r)
    ensures r.inner == inner,
#fn corr::Correspondence@Deref::deref (r)
    ensures *r == self.inner,
#mod corr
    impl<T: Corr> Correspondence<T> {
        /// method calls reach the inner value through Deref
        pub fn items(&self) -> (r: Vec<Item>) ensures ivs(r@) == self.inner.vx_items(), self.inner.vx_fact() { self.deref().items() }
    }
#type corr::item::Item
    #[derive(PartialEq, Eq, Hash)]
#fn corr::Correspondence@PartialEq::eq (r)
    ensures r == (self.inner.vx_items() == other.inner.vx_items()),
#impl corr::Correspondence@AsRef<Correspondence<T>>
    open spec fn vx_as_ref_ok(&self, r: &Correspondence<T>) -> bool { r == self }
#fn corr::Correspondence@AsRef<Correspondence<T>>::as_ref (r)
#impl corr::Synthesized@From<Correspondence<T>>
    open spec fn vx_from_ok(t: Correspondence<T>, r: Self) -> bool { r.vx_items() == t.inner.vx_items() }
#fn corr::Synthesized@From<Correspondence<T>>::from (r)
#impl corr::Synthesized@From<&Correspondence<T>>
    open spec fn vx_from_ok(t: &Correspondence<T>, r: Self) -> bool { r.vx_items() == t.inner.vx_items() }
#fn corr::Synthesized@From<&Correspondence<T>>::from (r)
#fn corr::Correspondence@Add<&Correspondence<U>>::add (r)
    ensures is_union(r.inner.vx_items(), self.inner.vx_items(), rhs.inner.vx_items()), rhs.inner.vx_fact(), self.inner.vx_fact(),
#start
    let ghost vx_a = self.inner.vx_items();
    let ghost vx_b = rhs.inner.vx_items();
    let ghost mut vx_set: Set<Item> = Set::empty();
    let ghost mut vx_pre: Seq<Item> = Seq::empty();
#loop 0
    ivs(vx_s0) == vx_a,
    set_is(items@, vx_a, vx_it0.pos(), vx_b, 0),
#begin
    proof { assert(iv(vx_s0[vx_it0.pos()]) == ivs(vx_s0)[vx_it0.pos()]); lemma_set_is_step(items@, vx_a, vx_it0.pos(), vx_b, 0, vx_s0[vx_it0.pos()]); }
#after
    proof { lemma_ivs_exist(vx_s0); }
#loop 1
    ivs(vx_s1) == vx_b,
    set_is(items@, vx_a, vx_a.len() as int, vx_b, vx_it1.pos()),
#begin
    proof { assert(iv(vx_s1[vx_it1.pos()]) == ivs(vx_s1)[vx_it1.pos()]); lemma_set_is_step(items@, vx_a, vx_a.len() as int, vx_b, vx_it1.pos(), vx_s1[vx_it1.pos()]); }
#after
    proof { vx_set = items@; lemma_ivs_exist(vx_s1); }
#ret vx_r
    proof { lemma_union(vx_r.inner.items@, vx_set, vx_a, vx_b); }
#fn corr::Correspondence@AddAssign<&Correspondence<T>>::add_assign (r)
    ensures is_union(final(self).inner.vx_items(), old(self).inner.vx_items(), rhs.inner.vx_items()), rhs.inner.vx_fact(),
#start
    let ghost vx_a = self.inner.vx_items();
    let ghost vx_b = rhs.inner.vx_items();
    let ghost mut vx_set: Set<Item> = Set::empty();
    let ghost mut vx_pre: Seq<Item> = Seq::empty();
#loop 0
    ivs(vx_s0) == vx_a,
    set_is(items@, vx_a, vx_it0.pos(), vx_b, 0),
#begin
    proof { assert(iv(vx_s0[vx_it0.pos()]) == ivs(vx_s0)[vx_it0.pos()]); lemma_set_is_step(items@, vx_a, vx_it0.pos(), vx_b, 0, vx_s0[vx_it0.pos()]); }
#after
    proof { lemma_ivs_exist(vx_s0); }
#loop 1
    ivs(vx_s1) == vx_b,
    set_is(items@, vx_a, vx_a.len() as int, vx_b, vx_it1.pos()),
#begin
    proof { assert(iv(vx_s1[vx_it1.pos()]) == ivs(vx_s1)[vx_it1.pos()]); lemma_set_is_step(items@, vx_a, vx_a.len() as int, vx_b, vx_it1.pos(), vx_s1[vx_it1.pos()]); }
#after
    proof { vx_set = items@; lemma_ivs_exist(vx_s1); }
#tail
    proof { lemma_union(self.inner.items@, vx_set, vx_a, vx_b); }
#fn corr::Correspondence@Sub<&Correspondence<U>>::sub (r)
    ensures is_diff(r.inner.vx_items(), self.inner.vx_items(), rhs.inner.vx_items()), rhs.inner.vx_fact(), self.inner.vx_fact(),
#start
    let ghost vx_a = self.inner.vx_items();
    let ghost vx_b = rhs.inner.vx_items();
    let ghost mut vx_set: Set<Item> = Set::empty();
    let ghost mut vx_pre: Seq<Item> = Seq::empty();
#loop 0
    ivs(vx_s0) == vx_a, ivs(comp_items@) == vx_b,
    ivs(items@) == without(vx_a, vx_b, vx_it0.pos()),
#begin
    proof { lemma_ivs_contains(comp_items@, vx_s0[vx_it0.pos()]); }
#end
    proof { assert(ivs(items@) =~= without(vx_a, vx_b, vx_it0.pos())); }
#after
    proof { vx_pre = items@; }
#ret vx_r
    proof { lemma_diff(vx_pre, vx_r.inner.items@); }
#fn corr::Correspondence@SubAssign<&Correspondence<T>>::sub_assign (r)
    ensures is_diff(final(self).inner.vx_items(), old(self).inner.vx_items(), rhs.inner.vx_items()), rhs.inner.vx_fact(),
#start
    let ghost vx_a = self.inner.vx_items();
    let ghost vx_b = rhs.inner.vx_items();
    let ghost mut vx_set: Set<Item> = Set::empty();
    let ghost mut vx_pre: Seq<Item> = Seq::empty();
#loop 0
    ivs(vx_s0) == vx_a, ivs(comp_items@) == vx_b,
    ivs(items@) == without(vx_a, vx_b, vx_it0.pos()),
#begin
    proof { lemma_ivs_contains(comp_items@, vx_s0[vx_it0.pos()]); }
#end
    proof { assert(ivs(items@) =~= without(vx_a, vx_b, vx_it0.pos())); }
#after
    proof { vx_pre = items@; }
#tail
    proof { lemma_diff(vx_pre, self.inner.items@); }

#impl corr::linear::CharacterToCharacter@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { seq![(self.from@, self.to@)] }
    open spec fn vx_fact(&self) -> bool { true }
#fn corr::linear::CharacterToCharacter@Corr::items (r)
#fn corr::linear::CharacterToCharacter::new (r)
    ensures r.from == from, r.to == to,
#fn corr::linear::CharacterToCharacter::corr (r)
    ensures r.inner == self,
#impl corr::unification::NCharactersToCharacter@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { Seq::new(self.froms@.len(), |i: int| (self.froms@[i]@, self.to@)) }
    open spec fn vx_fact(&self) -> bool { true }
#fn corr::unification::NCharactersToCharacter@Corr::items (r)
#loop 0
    vx_o0@.len() == vx_it0.pos(),
    forall|i: int| 0 <= i < vx_o0@.len() ==> iv(#[trigger] vx_o0@[i]) == (vx_s0[i]@, self.to@),
#after
    proof { assert(ivs(vx_o0@) =~= self.vx_items()); }
#fn corr::unification::NCharactersToCharacter::new (r)
    ensures r.froms == froms, r.to == to,
#fn corr::unification::NCharactersToCharacter::corr (r)
    ensures r.inner == self,

## ---------------------------------------------------------------- tables
#mod table
    impl Table { pub open spec fn vx_items(&self) -> Seq<ItemV> { self.corr.inner.vx_items() } }
    impl TableBuilder { pub open spec fn vx_items(&self) -> Seq<ItemV> { self.table.corr.inner.vx_items() } }
#impl table::Table@Default
    open spec fn vx_default_ok(r: Self) -> bool { r.vx_items().len() == 0 && r.origin is New }
#fn table::Table@Default::default (r)
#fn table::Table::new (r)
    ensures r.vx_items().len() == 0, r.origin is New,
#fn table::Table::builder (r)
    ensures r.table == self,
#fn table::Table::from_corr (r)
    ensures r.corr == corr, r.origin == origin,
#fn table::Table::add
    ensures is_union(final(self).vx_items(), old(self).vx_items(), corr.inner.vx_items()), corr.inner.vx_fact(), final(self).origin == old(self).origin,
#fn table::Table::remove
    ensures is_diff(final(self).vx_items(), old(self).vx_items(), corr.inner.vx_items()), corr.inner.vx_fact(), final(self).origin == old(self).origin,
#fn table::Table::corr (r)
    ensures r.inner.vx_items() == self.vx_items(),
#fn table::Table::items (r)
    ensures ivs(r@) == self.vx_items(),
#impl table::TableBuilder@Default
    open spec fn vx_default_ok(r: Self) -> bool { r.vx_items().len() == 0 }
#fn table::TableBuilder@Default::default (r)
#fn table::TableBuilder::new (r)
    ensures r.vx_items().len() == 0,
#fn table::TableBuilder::from_table (r)
    ensures r.table == table,
#fn table::TableBuilder::preset (r)
    ensures *final(self) == *final(r), is_union(r.vx_items(), old(self).vx_items(), (crate::characters_set::All{}).vx_items()), (crate::characters_set::All{}).vx_fact(),
#fn table::TableBuilder::add_corr (r)
    ensures *final(self) == *final(r), is_union(r.vx_items(), old(self).vx_items(), corr.inner.vx_items()), corr.inner.vx_fact(),
#fn table::TableBuilder::remove_corr (r)
    ensures *final(self) == *final(r), is_diff(r.vx_items(), old(self).vx_items(), corr.inner.vx_items()), corr.inner.vx_fact(),
#fn table::TableBuilder::build (r)
    ensures r == self.table,

#fn modifier::character_converter::CharacterConverter::from_tables (r)
    ensures r.items_map@ == tables_map(tables@, tables@.len() as int),
#loop 0
    items_map@ == tables_map(tables@, vx_it0.pos()),
#begin
    let ghost vx_m0 = items_map@;
#loop 1
    ivs_ref(vx_s1) == vx_s0[vx_it0.pos() - 1].vx_items(),
    items_map@ == tmap_on(vx_m0, vx_s0[vx_it0.pos() - 1].vx_items(), vx_it1.pos()),
#alt
#loop 0
    vx_map@ == tables_map(tables@, vx_it0.pos()),
#begin
    let ghost vx_m0 = vx_map@;
#loop 1
    ivs(vx_s1) == vx_s0[vx_it0.pos() - 1].vx_items(),
    vx_map@ == tmap_on(vx_m0, vx_s0[vx_it0.pos() - 1].vx_items(), vx_it1.pos()),
#alt
#loop 0
    vx_map@ == tables_map(tables@, vx_it0.pos()),
#begin
    let ghost vx_m0 = vx_map@;
#loop 1
    ivs_ref(vx_s1) == vx_s0[vx_it0.pos() - 1].vx_items(),
    vx_map@ == tmap_on(vx_m0, vx_s0[vx_it0.pos() - 1].vx_items(), vx_it1.pos()),
