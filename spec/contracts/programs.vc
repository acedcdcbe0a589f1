## ---------------------------------------------------------------- the program chanoma
#fn bin_main::main
    requires old(vx_io)@ == (IoV { out: Seq::empty(), read: 0, may_exit: rc_config().is_none() }),
    ensures rc_config().is_some(),
        match Opts::vx_args().input {
            Some(s) => cli_out(final(vx_io)@.out, s@, Opts::vx_args().preset, Opts::vx_args().neologdn),
            None => match stdin_line(0) {
                Some(l) => cli_out(final(vx_io)@.out, trim_end_s(l, '\n'), Opts::vx_args().preset, Opts::vx_args().neologdn),
                None => true,
            },
        },
#start
    broadcast use {lemma_mods_push, lemma_empty_add};
## ---------------------------------------------------------------- the program output
#fn bin_output::Format::from_str (r)
    ensures r is Yaml <==> f@ == "yaml"@,
#fn bin_output::Format::output (r)
    requires old(vx_io)@.out.len() == 0,
    ensures r.is_ok(),
        *self is Csv ==> loads_csv(final(vx_io)@.out, table.vx_items()),
        *self is Yaml ==> loads_yaml(final(vx_io)@.out, table.vx_items()),
#start
    broadcast use {lemma_loads_csv, lemma_loads_yaml, lemma_empty_add};
    proof { assert(old(vx_io)@.out =~= Seq::empty()); }
#fn bin_output::main
    requires old(vx_io)@ == (IoV { out: Seq::empty(), read: 0, may_exit: false }),
    ensures exists|v: Seq<ItemV>| #[trigger] preset_items(v) && (if Opts::vx_args().format@ == "yaml"@ { loads_yaml(final(vx_io)@.out, v) } else { loads_csv(final(vx_io)@.out, v) }),
#start
    broadcast use lemma_preset_union;
## ---------------------------------------------------------------- the Python module
#mod py
    pub open spec fn piv(i: Item) -> ItemV { (i.from@, i.to@) }
    pub open spec fn pivs(s: Seq<Item>) -> Seq<ItemV> { Seq::new(s.len(), |i: int| piv(s[i])) }
    pub open spec fn pivs_ref(s: Seq<&Item>) -> Seq<ItemV> { Seq::new(s.len(), |i: int| piv(*s[i])) }
    impl ToString for crate::error::Error {
        uninterp spec fn vx_ts(&self) -> Seq<char>;
        #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    }
#fn py::Chanoma::new (r)
    ensures r.is_ok() == py_config(configfile, rc).is_some(),
        r.is_err() ==> r->Err_0.is_os(),
        r.is_ok() ==> r->Ok_0.c.vx_wf() && mods_are(r->Ok_0.c.modifiers@, py_desc(py_config(configfile, rc).unwrap(), if table.is_some() { Some(table.unwrap().t.vx_items()) } else { None }, preset, neologdn)),
#start
    broadcast use lemma_mods_push;
#fn py::Chanoma::normalize (r)
    requires self.c.vx_wf(),
    ensures r@ == pipeline(self.c.modifiers@, text@, self.c.modifiers@.len() as int),
#fn py::Item::new (r)
    ensures r.from == from, r.to == to,
#impl py::Item@From<&crate::Item>
    open spec fn vx_from_ok(t: &crate::Item, r: Self) -> bool { piv(r) == iv(*t) }
#fn py::Item@From<&crate::Item>::from (r)
#impl py::Item@From<&Item>
    open spec fn vx_from_ok(t: &Item, r: crate::Item) -> bool { iv(r) == piv(*t) }
#fn py::Item@From<&Item>::from (r)
#fn py::Correspondence::new (r)
    ensures r.items == items,
#fn py::CorrespondenceExtraction::items (r)
    ensures r@ == self.items@,
#impl py::Correspondence@From<&CorrespondenceExtraction>
    open spec fn vx_from_ok(t: &CorrespondenceExtraction, r: crate::Correspondence<crate::Synthesized>) -> bool { r.inner.vx_items() == pivs(t.items@) }
#fn py::Correspondence@From<&CorrespondenceExtraction>::from (r)
#loop 0
    pivs_ref(vx_s0) == pivs(f.items@), ivs(vx_o0@) == pivs_ref(vx_s0).take(vx_it0.pos()),
#end
    proof { assert(ivs(vx_o0@) =~= pivs_ref(vx_s0).take(vx_it0.pos())); }
#after
    proof { assert(pivs_ref(vx_s0).take(vx_it0.pos()) =~= pivs_ref(vx_s0)); }
#fn py::Table::new (r)
    ensures r.is_ok() == (opt_csv(csv).is_some() && opt_yaml(yaml).is_some()),
        r.is_err() ==> r->Err_0.is_os(),
        r.is_ok() ==> py_table(r->Ok_0.t.vx_items(), preset, csv, yaml),
#fn py::Table::add (r)
    ensures r.is_ok() == corr.vx_items().is_some(),
        r.is_ok() ==> is_union(final(self).t.vx_items(), old(self).t.vx_items(), corr.vx_items().unwrap()),
        r.is_err() ==> *final(self) == *old(self),
#mod py::characters_set
    use super::{piv, pivs};
#fn py::characters_set::Alphabets::new (r)
    ensures strictly_asc(pivs(r.items@)), forall|x: ItemV| #[trigger] pivs(r.items@).contains(x) == in_alphabets(x),
#start
    broadcast use lemma_iter_ivs;
#loop 0
    strictly_asc(ivs_ref(vx_s0)), forall|x: ItemV| #[trigger] ivs_ref(vx_s0).contains(x) == in_alphabets(x),
    pivs(vx_o0@) == ivs_ref(vx_s0).take(vx_it0.pos()),
#end
    proof { assert(pivs(vx_o0@) =~= ivs_ref(vx_s0).take(vx_it0.pos())); }
#after
    proof { assert(ivs_ref(vx_s0).take(vx_it0.pos()) =~= ivs_ref(vx_s0)); }
#fn py::characters_set::Digits::new (r)
    ensures strictly_asc(pivs(r.items@)), forall|x: ItemV| #[trigger] pivs(r.items@).contains(x) == in_digits(x),
#start
    broadcast use lemma_iter_ivs;
#loop 0
    strictly_asc(ivs_ref(vx_s0)), forall|x: ItemV| #[trigger] ivs_ref(vx_s0).contains(x) == in_digits(x),
    pivs(vx_o0@) == ivs_ref(vx_s0).take(vx_it0.pos()),
#end
    proof { assert(pivs(vx_o0@) =~= ivs_ref(vx_s0).take(vx_it0.pos())); }
#after
    proof { assert(ivs_ref(vx_s0).take(vx_it0.pos()) =~= ivs_ref(vx_s0)); }
#fn py::characters_set::Punctuations::new (r)
    ensures strictly_asc(pivs(r.items@)), forall|x: ItemV| #[trigger] pivs(r.items@).contains(x) == in_punctuations(x),
#start
    broadcast use lemma_iter_ivs;
#loop 0
    strictly_asc(ivs_ref(vx_s0)), forall|x: ItemV| #[trigger] ivs_ref(vx_s0).contains(x) == in_punctuations(x),
    pivs(vx_o0@) == ivs_ref(vx_s0).take(vx_it0.pos()),
#end
    proof { assert(pivs(vx_o0@) =~= ivs_ref(vx_s0).take(vx_it0.pos())); }
#after
    proof { assert(ivs_ref(vx_s0).take(vx_it0.pos()) =~= ivs_ref(vx_s0)); }
#fn py::characters_set::Kanas::new (r)
    ensures strictly_asc(pivs(r.items@)), forall|x: ItemV| #[trigger] pivs(r.items@).contains(x) == in_kanas(x),
#start
    broadcast use lemma_iter_ivs;
#loop 0
    strictly_asc(ivs_ref(vx_s0)), forall|x: ItemV| #[trigger] ivs_ref(vx_s0).contains(x) == in_kanas(x),
    pivs(vx_o0@) == ivs_ref(vx_s0).take(vx_it0.pos()),
#end
    proof { assert(pivs(vx_o0@) =~= ivs_ref(vx_s0).take(vx_it0.pos())); }
#after
    proof { assert(ivs_ref(vx_s0).take(vx_it0.pos()) =~= ivs_ref(vx_s0)); }
#fn py::characters_set::CjkCompatibilities::new (r)
    ensures strictly_asc(pivs(r.items@)), forall|x: ItemV| #[trigger] pivs(r.items@).contains(x) == in_cjk_compatibilities(x),
#start
    broadcast use lemma_iter_ivs;
#loop 0
    strictly_asc(ivs_ref(vx_s0)), forall|x: ItemV| #[trigger] ivs_ref(vx_s0).contains(x) == in_cjk_compatibilities(x),
    pivs(vx_o0@) == ivs_ref(vx_s0).take(vx_it0.pos()),
#end
    proof { assert(pivs(vx_o0@) =~= ivs_ref(vx_s0).take(vx_it0.pos())); }
#after
    proof { assert(ivs_ref(vx_s0).take(vx_it0.pos()) =~= ivs_ref(vx_s0)); }
