## ---------------------------------------------------------------- kinds of files
#fn file_extension::FileExtension@FromStr::from_str (r)
    ensures r.is_ok() == (ext_kind(ext@).is_some() || dot_kind(ext@).is_some()),
        r.is_ok() && ext_kind(ext@).is_some() ==> r.unwrap() == ext_kind(ext@).unwrap(),
#start
    proof { lemma_kinds(ext@); }
#impl file_extension::FileExtension@ToString
    open spec fn vx_ts(&self) -> Seq<char> { match self { FileExtension::Csv => "csv"@, FileExtension::Yaml => "yaml"@ } }
#fn file_extension::FileExtension@ToString::to_string (r)
#fn file_extension::FileExtension::from_path (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == path_kind(q@).is_some() && (r.is_ok() ==> r.unwrap() == path_kind(q@).unwrap()),
#start
    broadcast use ax_ext_nodot;
## ---------------------------------------------------------------- YAML values
#fn modifier::yaml_str (r)
    ensures r.is_ok() == ystr(value@).is_some(), r.is_ok() ==> r.unwrap()@ == ystr(value@).unwrap(),
#fn modifier::yaml_char (r)
    ensures r.is_ok() == ychar(value@).is_some(), r.is_ok() ==> r.unwrap() == ychar(value@).unwrap(),
#fn modifier::first_char (r)
    ensures r.is_ok() == (s@.len() > 0), r.is_ok() ==> r.unwrap() == s@[0],
#fn file::yaml_str (r)
    ensures r.is_ok() == ystr(value@).is_some(), r.is_ok() ==> r.unwrap()@ == ystr(value@).unwrap(),
#trait modifier::ModifierFromYamlValue
    spec fn vx_yaml(v: YV) -> Option<ModV>;
    spec fn vx_is(&self, d: ModV) -> bool;
#fn modifier::ModifierFromYamlValue::from_yaml_value (r)
    ensures r.is_ok() == Self::vx_yaml(value@).is_some(), r.is_ok() ==> r.unwrap().vx_is(Self::vx_yaml(value@).unwrap()),
#impl modifier::trim::Trim@ModifierFromYamlValue
    open spec fn vx_yaml(v: YV) -> Option<ModV> { null_v(v, ModV::Trim) }
    open spec fn vx_is(&self, d: ModV) -> bool { mod_is(ModifierKind::Trim(*self), d) }
#fn modifier::trim::Trim@ModifierFromYamlValue::from_yaml_value (r)
#impl modifier::dotted_space_eliminator::DottedSpaceEliminator@ModifierFromYamlValue
    open spec fn vx_yaml(v: YV) -> Option<ModV> { null_v(v, ModV::Dotted) }
    open spec fn vx_is(&self, d: ModV) -> bool { mod_is(ModifierKind::DottedSpaceEliminator(*self), d) }
#fn modifier::dotted_space_eliminator::DottedSpaceEliminator@ModifierFromYamlValue::from_yaml_value (r)
#impl modifier::neologdn::Neologdn@ModifierFromYamlValue
    open spec fn vx_yaml(v: YV) -> Option<ModV> { null_v(v, ModV::Neo) }
    open spec fn vx_is(&self, d: ModV) -> bool { mod_is(ModifierKind::Neologdn(*self), d) }
#fn modifier::neologdn::Neologdn@ModifierFromYamlValue::from_yaml_value (r)
#impl modifier::consecutive_character_reducer::ConsecutiveCharacterReducer@ModifierFromYamlValue
    open spec fn vx_yaml(v: YV) -> Option<ModV> { reduce_v(v) }
    open spec fn vx_is(&self, d: ModV) -> bool { mod_is(ModifierKind::ConsecutiveCharacterReducer(*self), d) }
#fn modifier::consecutive_character_reducer::ConsecutiveCharacterReducer@ModifierFromYamlValue::from_yaml_value (r)
#fn modifier::consecutive_character_reducer::ConsecutiveCharacterReducer@FromStr::from_str (r)
    ensures r.is_ok() == (s@.len() > 0), r.is_ok() ==> r.unwrap().c == s@[0],
#impl modifier::character_eliminator::CharacterEliminator@ModifierFromYamlValue
    open spec fn vx_yaml(v: YV) -> Option<ModV> { elim_v(v) }
    open spec fn vx_is(&self, d: ModV) -> bool { mod_is(ModifierKind::CharacterEliminator(*self), d) }
#fn modifier::character_eliminator::CharacterEliminator@ModifierFromYamlValue::from_yaml_value (r)
#loop 0
    value@ is Seq, yvr(vx_s0) == value@->Seq_0,
    chars_upto(vx_o0@, value@->Seq_0, vx_it0.pos()),
#begin
    proof { lemma_yvr(vx_s0, vx_it0.pos()); }
#after
    proof { lemma_elim(vx_o0@, value@->Seq_0); }
#impl modifier::character_converter::CharacterConverter@ModifierFromYamlValue
    open spec fn vx_yaml(v: YV) -> Option<ModV> { conv_v(v) }
    open spec fn vx_is(&self, d: ModV) -> bool { mod_is(ModifierKind::CharacterConverter(*self), d) }
#fn modifier::character_converter::CharacterConverter@ModifierFromYamlValue::from_yaml_value (r)
#loop 0
    vx_v0 is Map, yps(vx_s0) == vx_v0->Map_0,
    conv_upto(vx_o0@, vx_v0->Map_0, vx_it0.pos()),
#begin
    proof { lemma_yps(vx_s0, vx_it0.pos()); }
#after
    proof { lemma_conv_v(vx_o0@, vx_v0->Map_0); }
#start
    let ghost vx_v0 = value@;
#impl modifier::ligature_translator::LigatureTranslator@ModifierFromYamlValue
    open spec fn vx_yaml(v: YV) -> Option<ModV> { lig_v(v) }
    open spec fn vx_is(&self, d: ModV) -> bool { mod_is(ModifierKind::LigatureTranslator(*self), d) }
#fn modifier::ligature_translator::LigatureTranslator@ModifierFromYamlValue::from_yaml_value (r)
#loop 0
    vx_v0 is Map, yps(vx_s0) == vx_v0->Map_0,
    lig_upto(vx_o0@, vx_v0->Map_0, vx_it0.pos()),
#begin
    proof { lemma_yps(vx_s0, vx_it0.pos()); }
#after
    proof { lemma_lig_v(vx_o0@, vx_v0->Map_0); }
#start
    let ghost vx_v0 = value@;
#fn modifier_kind::ModifierKind::from_yaml_key_value (r)
    ensures r.is_ok() == kv_mod(key@, value@).is_some(), r.is_ok() ==> mod_is(r.unwrap(), kv_mod(key@, value@).unwrap()),
## ---------------------------------------------------------------- files
#fn file::table_from_csv_path (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == csv_file(q@).is_some() && (r.is_ok() ==> r.unwrap().vx_items() == csv_file(q@).unwrap()),
#loop 0
    csv_items(vx_rows, vx_it0.pos()) == Some(ivs(items@)),
    rows_are(vx_s0, vx_rows),
#before
    let ghost vx_rows = csv_rows(path@, csv_opt());
#begin
    let ghost vx_n = vx_it0.pos() + 1;
    let ghost vx_pre = ivs(items@);
    proof { lemma_csv_none(vx_rows, vx_n, vx_rows.len() as int); }
#loop 1
    ivs(items@) == vx_pre + rec_items(record@).take(vx_it1.pos()),
#end
    proof { let l = items@.last(); assert(iv(l) == rec_items(record@)[vx_it1.pos() - 1]); assert(ivs(items@) =~= ivs(vx_i1).push(iv(l))); assert(ivs(items@) =~= vx_pre + rec_items(record@).take(vx_it1.pos())); }
#begin
    let ghost vx_i1 = items@;
#loop 0
#end
    proof { assert(rec_items(record@).take(record@.len() - 1) =~= rec_items(record@)); }
#fn file::table_from_yaml_path (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == yaml_file(q@).is_some() && (r.is_ok() ==> r.unwrap().vx_items() == yaml_file(q@).unwrap()),
#start
    broadcast use ax_f_text;
#loop 0
    value@ is Seq, yvr(vx_s0) == value@->Seq_0,
    list_items(value@->Seq_0, vx_it0.pos()) == Some(ivs(items@)),
#begin
    let ghost vx_i0 = items@;
    proof { lemma_yvr(vx_s0, vx_it0.pos()); lemma_list_none(value@->Seq_0, vx_it0.pos() + 1, vx_s0.len() as int); }
#end
    proof { assert(ivs(items@) =~= ivs(vx_i0).push(iv(items@.last()))); }
#loop 1
    vx_m0 is Map, yps(vx_s1) == vx_m0->Map_0,
    map_items(vx_m0->Map_0, vx_it1.pos()) == Some(ivs(items@)),
#before
    let ghost vx_m0 = value@;
#begin
    let ghost vx_i1 = items@;
    proof { lemma_yps(vx_s1, vx_it1.pos()); lemma_map_none(vx_m0->Map_0, vx_it1.pos() + 1, vx_s1.len() as int); }
#end
    proof { if value@ is Str { assert(ivs(items@) =~= ivs(vx_i1) + seq![iv(items@.last())]); } }
#loop 2
    value@ is Seq, yvr(vx_s2) == value@->Seq_0,
    from_items(value@->Seq_0, to@, vx_it2.pos()).is_some(),
    ivs(items@) == ivs(vx_i1) + from_items(value@->Seq_0, to@, vx_it2.pos()).unwrap(),
#begin
    let ghost vx_i2 = items@;
    proof { lemma_yvr(vx_s2, vx_it2.pos()); lemma_from_none(value@->Seq_0, to@, vx_it2.pos() + 1, vx_s2.len() as int); }
#end
    proof { assert(ivs(items@) =~= ivs(vx_i2).push(iv(items@.last()))); assert(ivs(items@) =~= ivs(vx_i1) + from_items(value@->Seq_0, to@, vx_it2.pos()).unwrap()); }
#fn file::modifiers_from_yaml_path (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == mods_file(q@).is_some() && (r.is_ok() ==> mods_are(r.unwrap()@, mods_file(q@).unwrap())),
#start
    broadcast use ax_f_text;
#loop 0
    vx_m0 is Map, yps(vx_s0) == vx_m0->Map_0,
    kv_mods(vx_m0->Map_0, vx_it0.pos()).is_some(),
    mods_are(modifiers@, kv_mods(vx_m0->Map_0, vx_it0.pos()).unwrap()),
#before
    let ghost vx_m0 = value@;
#begin
    proof { lemma_yps(vx_s0, vx_it0.pos()); lemma_mods_none(vx_m0->Map_0, vx_it0.pos() + 1, vx_s0.len() as int); }
#fn configuration::Configuration::load_items_to_character_converter (r)
    ensures r.is_ok() == items_file(path@, *ext).is_some(), r.is_ok() ==> r.unwrap().items_map@ == tmap(items_file(path@, *ext).unwrap()),
#start
    broadcast use {lemma_tables_one, lemma_union_empty};
#fn configuration::Configuration::load_modifiers (r)
    ensures r.is_ok() == (*ext is Csv || mods_file(path@).is_some()),
        r.is_ok() && *ext is Yaml ==> mods_are(r.unwrap()@, mods_file(path@).unwrap()),
        r.is_ok() && *ext is Csv ==> r.unwrap()@.len() == 0,
#fn configuration::Configuration::load_file_with_ext (r)
    ensures r.is_ok() == file_config(path@).is_some(), r.is_ok() ==> mods_are(r.unwrap()@, file_config(path@).unwrap()),
#fn configuration::Configuration::from_path (r)
    ensures r.is_ok() == file_config(path@).is_some(), r.is_ok() ==> mods_are(r.unwrap()@, file_config(path@).unwrap()),
#fn configuration::Configuration::ENV_NAME (r)
    ensures r@ == "CHANOMARC"@,
#fn configuration::Configuration::FILE_NAMES (r)
    ensures r@.len() == 2, r@[0]@ == "chanomarc"@, r@[1]@ == ".chanomarc"@,
#fn configuration::auto_load_dirs (r)
    ensures paths_v(r@) == dirs_of(),
#tail
    proof { assert(paths_v(paths@) =~= dirs_of()); }
#fn configuration::auto_load_paths_from_dir (r)
    ensures paths_v(r@) == base_cands(dir@),
#loop 0
    paths_v(vx_o0@) == cross(dir@, vx_it0.pos()),
    vx_s0.len() == 2, vx_s0[0]@ == "chanomarc"@, vx_s0[1]@ == ".chanomarc"@,
#begin
    let ghost vx_o = vx_o0@;
#loop 1
    paths_v(vx_o1@) == with_exts(dir@, vx_x0@, vx_it1.pos()),
    vx_s1 == seq![FileExtension::Csv, FileExtension::Yaml],
#begin
    let ghost vx_p1 = vx_o1@;
#end
    proof { assert(vx_o1@.drop_last() == vx_p1); assert(ext.vx_ts() == ext_at(vx_it1.pos() - 1)); assert(vx_o1@.last()@ == p_with_ext(p_join(dir@, p_of(vx_x0@)), ext_at(vx_it1.pos() - 1)));
    assert(paths_v(vx_o1@) =~= paths_v(vx_p1).push(vx_o1@.last()@));
    assert(paths_v(vx_o1@) =~= with_exts(dir@, vx_x0@, vx_it1.pos())); }
#loop 2
    vx_o0@ == vx_o + vx_s2.take(vx_it2.pos()),
#end
    proof { assert(vx_o0@ =~= vx_o + vx_s2.take(vx_it2.pos())); }
#after
    proof { assert(paths_v(vx_o0@) =~= paths_v(vx_o) + paths_v(vx_s2)); lemma_cross(dir@); assert(paths_v(vx_o0@) == cross(dir@, vx_it0.pos())); }
#loop 0
#after
    proof { lemma_cross(dir@); assert(vx_it0.pos() == 2); assert(paths_v(vx_o0@) == base_cands(dir@)); }
#fn configuration::auto_load_paths_with_yml_from_dir (r)
    ensures paths_v(r@) == cands(dir@),
#loop 0
    paths_v(vx_s0) == base_cands(dir@),
    paths_v(paths@) == with_yml(base_cands(dir@), vx_it0.pos()),
#begin
    proof { assert(paths_v(vx_s0)[vx_it0.pos()] == vx_s0[vx_it0.pos()]@); }
#end
    proof { assert(paths_v(paths@) =~= with_yml(base_cands(dir@), vx_it0.pos())); }
#after
    proof { assert(paths_v(vx_s0).len() == 4); lemma_with_yml(dir@); }
#fn configuration::Configuration::file_paths (r)
    ensures r.is_ok() == config_files().is_some(), r.is_ok() ==> paths_v(r.unwrap()@) == config_files().unwrap(),
#loop 0
    env_var("CHANOMARC"@).is_none(),
    pref_v(vx_s0) == dirs_of(),
    paths_v(vx_o0@) == all_cands(dirs_of(), vx_it0.pos()),
#begin
    let ghost vx_o = vx_o0@;
    proof { assert(pref_v(vx_s0)[vx_it0.pos()] == vx_s0[vx_it0.pos()]@); }
#loop 1
    vx_o0@ == vx_o + vx_s1.take(vx_it1.pos()),
#end
    proof { assert(vx_o0@ =~= vx_o + vx_s1.take(vx_it1.pos())); }
#after
    proof { assert(paths_v(vx_o0@) =~= paths_v(vx_o) + paths_v(vx_s1)); }
#loop 2
    paths_v(vx_s2) == all_cands(dirs_of(), dirs_of().len() as int),
    paths_v(vx_o2@) == files_in(paths_v(vx_s2), vx_it2.pos()),
#end
    proof { assert(paths_v(vx_o2@) =~= files_in(paths_v(vx_s2), vx_it2.pos())); }
#fn configuration::Configuration::load (r)
    ensures r.is_ok() == rc_config().is_some(), r.is_ok() ==> mods_are(r.unwrap()@, rc_config().unwrap()),
#loop 0
    pref_v(vx_s0) == config_files().unwrap(),
    loaded_upto(vx_o0@, config_files().unwrap(), vx_it0.pos()),
#begin
    proof { assert(pref_v(vx_s0)[vx_it0.pos()] == vx_s0[vx_it0.pos()]@); }
#after
    proof { lemma_load(vx_o0@, config_files().unwrap()); }
#type error::Error
    #[derive(Debug)]

## ---------------------------------------------------------------- tables from files
#fn table::TableBuilder::from_csv_path (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == csv_file(q@).is_some() && (r.is_ok() ==> r.unwrap().vx_items() == csv_file(q@).unwrap()),
#start
    broadcast use ax_canon;
#fn table::TableBuilder::from_yaml_path (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == yaml_file(q@).is_some() && (r.is_ok() ==> r.unwrap().vx_items() == yaml_file(q@).unwrap()),
#start
    broadcast use {ax_canon, ax_f_text};
#fn table::TableBuilder::add_from_csv (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == csv_file(q@).is_some()
            && (r.is_ok() ==> *final(self) == *final(r->Ok_0) && is_union((*r->Ok_0).vx_items(), old(self).vx_items(), csv_file(q@).unwrap()))
            && (r.is_err() ==> final(self).vx_items() == old(self).vx_items()),
#fn table::TableBuilder::add_from_yaml (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == yaml_file(q@).is_some()
            && (r.is_ok() ==> *final(self) == *final(r->Ok_0) && is_union((*r->Ok_0).vx_items(), old(self).vx_items(), yaml_file(q@).unwrap()))
            && (r.is_err() ==> final(self).vx_items() == old(self).vx_items()),
#fn chanoma::Chanoma::from_config_file (r)
    ensures exists|q: &Path| #[trigger] path.vx_as_ref_ok(q) && r.is_ok() == file_config(q@).is_some() && (r.is_ok() ==> r.unwrap().vx_wf() && mods_are(r.unwrap().modifiers@, file_config(q@).unwrap())),
#ret vx_r
    proof { if vx_r.is_ok() { lemma_mods_wf(vx_r->Ok_0.modifiers@); } }
#fn chanoma::Chanoma::load_rc (r)
    ensures r.is_ok() == rc_config().is_some(), r.is_ok() ==> r.unwrap().vx_wf() && mods_are(r.unwrap().modifiers@, rc_config().unwrap()),
#ret vx_r
    proof { if vx_r.is_ok() { lemma_mods_wf(vx_r->Ok_0.modifiers@); } }
## ---------------------------------------------------------------- export
#fn corr::Synthesized::item_map (r)
    ensures grouped(r@, self.vx_items(), self.vx_items().len() as int),
#loop 0
    ivs_ref(vx_s0) == self.vx_items(),
    grouped(m@, self.vx_items(), vx_it0.pos()),
#begin
    let ghost vx_m0 = m@;
    proof { assert(iv(*vx_s0[vx_it0.pos()]) == ivs_ref(vx_s0)[vx_it0.pos()]); }
#end
    proof {
        let it = *vx_s0[vx_it0.pos() - 1];
        assert(m@ == vx_m0.insert(&it.to, m@[&it.to]));
        assert(m@[&it.to]@ == so_far(vx_m0, &it.to).push(&it.from));
        lemma_grouped(vx_m0, m@, self.vx_items(), vx_it0.pos());
    }
#fn file::to_csv_writer (r)
    ensures export_rows(r@, corr.inner.vx_items()), csv_back(r@, corr.inner.vx_items()), r.opt() == (WriteOpt { flexible: true, ..write_default() }), r.sink() == writer,
#start
    let ghost vx_v = corr.inner.vx_items();
    let ghost mut vx_g: Map<&String, Vec<&String>> = Map::empty();
#loop 0
    grouped(vx_g, vx_v, vx_v.len() as int), sorted_map(vx_s0.vx_grp(), vx_g),
    wtr@.len() == vx_it0.pos(), wtr.sink() == writer, wtr.opt() == (WriteOpt { flexible: true, ..write_default() }),
    forall|i: int| 0 <= i < wtr@.len() ==> row_of(#[trigger] wtr@[i], vx_s0.vx_grp()[i].0@, vx_v),
#before
    proof { vx_g = choose|g: Map<&String, Vec<&String>>| grouped(g, vx_v, vx_v.len() as int) && #[trigger] sorted_map(vx_it0.seq().vx_grp(), g); }
#begin
    let ghost vx_k = vx_s0.vx_grp()[vx_it0.pos()].0;
    let ghost vx_l = vx_s0.vx_grp()[vx_it0.pos()].1;
    proof { assert(vx_g.contains_key(vx_k)); }
#end
    proof {
        assert(wtr@.last() =~= strs(vx_l@).push(vx_k@));
        assert(wtr@.last().drop_last() =~= strs(vx_l@));
    }
#after
    proof { lemma_export(wtr@, vx_s0.vx_grp(), vx_g, vx_v); lemma_csv_back(wtr@, vx_v); }
#impl file::SerializedCorr@From<&Correspondence<T>>
    open spec fn vx_from_ok(t: &Correspondence<T>, r: Self) -> bool { export_map(r.items@, t.inner.vx_items()) && yaml_back(r.items@, t.inner.vx_items()) }
#fn file::SerializedCorr@From<&Correspondence<T>>::from (r)
#start
    let ghost vx_v = corr.inner.vx_items();
    let ghost mut vx_g: Map<&String, Vec<&String>> = Map::empty();
#loop 0
    grouped(vx_g, vx_v, vx_v.len() as int), sorted_map(vx_s0.vx_grp(), vx_g),
    export_upto(b@, vx_s0.vx_grp(), vx_it0.pos()),
#before
    proof { vx_g = choose|g: Map<&String, Vec<&String>>| grouped(g, vx_v, vx_v.len() as int) && #[trigger] sorted_map(vx_it0.seq().vx_grp(), g); }
#begin
    let ghost vx_k = vx_s0.vx_grp()[vx_it0.pos()].0;
    let ghost vx_l = vx_s0.vx_grp()[vx_it0.pos()].1;
    let ghost vx_b = b@;
#end
    proof { lemma_export_step(vx_b, b@, vx_s0.vx_grp(), vx_g, vx_it0.pos()); }
#after
    proof { lemma_export_map(b@, vx_s0.vx_grp(), vx_g, vx_v); lemma_yaml_back(b@, vx_v); }
#loop 1
    strvs(vx_o1@) == strs(vx_l@).take(vx_it1.pos()),
#begin
    proof { assert(strs(vx_l@)[vx_it1.pos()] == (*vx_s1[vx_it1.pos()])@); }
#end
    proof { assert(strvs(vx_o1@) =~= strs(vx_l@).take(vx_it1.pos())); }
#after
    proof { assert(strvs(vx_o1@) =~= strs(vx_l@)); }
#fn file::to_serialized_corr (r)
    ensures export_map(r.items@, corr.inner.vx_items()), yaml_back(r.items@, corr.inner.vx_items()),
