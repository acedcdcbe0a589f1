// What configuration files mean: the oracle of the loading, discovery and export properties.
use crate::modifier_kind::ModifierKind;
use crate::file_extension::FileExtension;
use crate::modifier::Modifier;
broadcast use crate::vx::vx_axioms;

// ---- CSV ------------------------------------------------------------------------------------------------
/// a record replaces each of its fields but the last by the last
pub open spec fn rec_items(r: Seq<Seq<char>>) -> Seq<ItemV> { Seq::new((r.len() - 1) as nat, |i: int| (r[i], r.last())) }
pub open spec fn csv_items(rows: Seq<Option<Seq<Seq<char>>>>, n: int) -> Option<Seq<ItemV>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match (csv_items(rows, n - 1), rows[n - 1]) { (Some(a), Some(r)) => Some(a + rec_items(r)), _ => None } }
}
/// rows of different lengths are accepted, the first row is a header
pub open spec fn csv_opt() -> CsvOpt { CsvOpt { flexible: true, ..csv_default() } }
/// the items of a CSV file, None when it cannot be read
pub open spec fn csv_file(p: PathV) -> Option<Seq<ItemV>> {
    if f_opens(p) { csv_items(csv_rows(p, csv_opt()), csv_rows(p, csv_opt()).len() as int) } else { None }
}

// ---- YAML -----------------------------------------------------------------------------------------------
pub open spec fn ystr(v: YV) -> Option<Seq<char>> { match v { YV::Str(s) => Some(s), _ => None } }
pub open spec fn ychar(v: YV) -> Option<char> { match v { YV::Str(s) => if s.len() > 0 { Some(s[0]) } else { None }, _ => None } }
pub open spec fn entry_item(e: YV) -> Option<ItemV> {
    match (yget(e, "from"@), yget(e, "to"@)) { (Some(YV::Str(f)), Some(YV::Str(t))) => Some((f, t)), _ => None }
}
/// a list of mappings with the keys from and to
pub open spec fn list_items(s: Seq<YV>, n: int) -> Option<Seq<ItemV>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match (list_items(s, n - 1), entry_item(s[n - 1])) { (Some(a), Some(i)) => Some(a.push(i)), _ => None } }
}
pub open spec fn from_items(s: Seq<YV>, to: Seq<char>, n: int) -> Option<Seq<ItemV>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match (from_items(s, to, n - 1), s[n - 1]) { (Some(a), YV::Str(f)) => Some(a.push((f, to))), _ => None } }
}
/// one entry of a mapping: the replacement, and what it replaces (one string or a list of strings)
pub open spec fn pair_items(k: YV, v: YV) -> Option<Seq<ItemV>> {
    match (k, v) {
        (YV::Str(to), YV::Str(f)) => Some(seq![(f, to)]),
        (YV::Str(to), YV::Seq(s)) => from_items(s, to, s.len() as int),
        _ => None,
    }
}
pub open spec fn map_items(m: Seq<(YV, YV)>, n: int) -> Option<Seq<ItemV>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match (map_items(m, n - 1), pair_items(m[n - 1].0, m[n - 1].1)) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
pub open spec fn yaml_items(v: YV) -> Option<Seq<ItemV>> {
    match yget(v, "items"@) {
        None => Some(Seq::empty()),
        Some(YV::Seq(s)) => list_items(s, s.len() as int),
        Some(YV::Map(m)) => map_items(m, m.len() as int),
        _ => None,
    }
}
/// the document of a YAML file, None when it cannot be read
pub open spec fn yaml_doc(p: PathV) -> Option<YV> { match f_text(p) { None => None, Some(t) => yaml_parse(t) } }
pub open spec fn yaml_file(p: PathV) -> Option<Seq<ItemV>> { match yaml_doc(p) { None => None, Some(v) => yaml_items(v) } }

// ---- modifiers in YAML --------------------------------------------------------------------------------------
pub enum ModV { Conv(Map<char, char>), Elim(Set<char>), Reduce(char), Dotted, Lig(Map<Seq<char>, Seq<char>>), Trim, Neo }
/// a later key with the same first character replaces an earlier one
pub open spec fn conv_map(m: Seq<(YV, YV)>, n: int) -> Option<Map<char, char>> decreases n {
    if n <= 0 { Some(Map::empty()) } else { match (conv_map(m, n - 1), ychar(m[n - 1].0), ychar(m[n - 1].1)) { (Some(a), Some(k), Some(v)) => Some(a.insert(k, v)), _ => None } }
}
pub open spec fn elim_set(s: Seq<YV>, n: int) -> Option<Set<char>> decreases n {
    if n <= 0 { Some(Set::empty()) } else { match (elim_set(s, n - 1), ychar(s[n - 1])) { (Some(a), Some(c)) => Some(a.insert(c)), _ => None } }
}
pub open spec fn lig_map(m: Seq<(YV, YV)>, n: int) -> Option<Map<Seq<char>, Seq<char>>> decreases n {
    if n <= 0 { Some(Map::empty()) } else { match (lig_map(m, n - 1), m[n - 1]) { (Some(a), (YV::Str(k), YV::Str(v))) => Some(a.insert(k, v)), _ => None } }
}
pub open spec fn conv_v(v: YV) -> Option<ModV> { match v { YV::Map(m) => match conv_map(m, m.len() as int) { Some(x) => Some(ModV::Conv(x)), None => None }, _ => None } }
pub open spec fn elim_v(v: YV) -> Option<ModV> { match v { YV::Seq(s) => match elim_set(s, s.len() as int) { Some(x) => Some(ModV::Elim(x)), None => None }, _ => None } }
pub open spec fn reduce_v(v: YV) -> Option<ModV> { match ychar(v) { Some(c) => Some(ModV::Reduce(c)), None => None } }
pub open spec fn lig_v(v: YV) -> Option<ModV> { match v { YV::Map(m) => match lig_map(m, m.len() as int) { Some(x) => Some(ModV::Lig(x)), None => None }, _ => None } }
pub open spec fn null_v(v: YV, d: ModV) -> Option<ModV> { if v is Null { Some(d) } else { None } }
/// the modifier that an entry of `modifiers` describes
pub open spec fn kv_mod(k: YV, v: YV) -> Option<ModV> {
    match k {
        YV::Str(n) =>
            if n == "character_converter"@ { conv_v(v) }
            else if n == "character_eliminator"@ { elim_v(v) }
            else if n == "consecutive_character_reducer"@ { reduce_v(v) }
            else if n == "ligature_translator"@ { lig_v(v) }
            else if n == "dotted_space_eliminator"@ { null_v(v, ModV::Dotted) }
            else if n == "trim"@ { null_v(v, ModV::Trim) }
            else if n == "neologdn"@ { null_v(v, ModV::Neo) }
            else { None },
        _ => None,
    }
}
pub open spec fn kv_mods(m: Seq<(YV, YV)>, n: int) -> Option<Seq<ModV>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match (kv_mods(m, n - 1), kv_mod(m[n - 1].0, m[n - 1].1)) { (Some(a), Some(d)) => Some(a.push(d)), _ => None } }
}
pub open spec fn yaml_mods(v: YV) -> Option<Seq<ModV>> {
    match yget(v, "modifiers"@) { None => Some(Seq::empty()), Some(YV::Map(m)) => kv_mods(m, m.len() as int), _ => None }
}
pub open spec fn mods_file(p: PathV) -> Option<Seq<ModV>> { match yaml_doc(p) { None => None, Some(v) => yaml_mods(v) } }
pub open spec fn lig_is(m: Map<String, String>, d: Map<Seq<char>, Seq<char>>) -> bool {
    forall|e: (Seq<char>, Seq<char>)| #[trigger] has_entry(m, e) <==> d.contains_key(e.0) && d[e.0] == e.1
}
pub open spec fn mod_is(m: ModifierKind, d: ModV) -> bool {
    match (m, d) {
        (ModifierKind::CharacterConverter(x), ModV::Conv(t)) => x.items_map@ == t,
        (ModifierKind::CharacterEliminator(x), ModV::Elim(t)) => x.chars@ == t,
        (ModifierKind::ConsecutiveCharacterReducer(x), ModV::Reduce(c)) => x.c == c,
        (ModifierKind::LigatureTranslator(x), ModV::Lig(t)) => lig_is(x.map@, t),
        (ModifierKind::DottedSpaceEliminator(x), ModV::Dotted) => true,
        (ModifierKind::Trim(x), ModV::Trim) => true,
        (ModifierKind::Neologdn(x), ModV::Neo) => x.vx_wf(),
        _ => false,
    }
}
pub open spec fn mods_are(v: Seq<ModifierKind>, d: Seq<ModV>) -> bool { v.len() == d.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] mod_is(v[i], d[i]) }

// ---- files --------------------------------------------------------------------------------------------------
pub open spec fn ext_kind(s: Seq<char>) -> Option<FileExtension> {
    if s == "csv"@ { Some(FileExtension::Csv) } else if s == "yaml"@ || s == "yml"@ { Some(FileExtension::Yaml) } else { None }
}
pub open spec fn path_kind(p: PathV) -> Option<FileExtension> {
    match p_ext(p) { None => None, Some(o) => match os_str(o) { None => None, Some(s) => ext_kind(s) } }
}
/// what a configuration file configures: its modifiers in file order, then the converter of its items
pub open spec fn file_config(p: PathV) -> Option<Seq<ModV>> {
    match path_kind(p) {
        None => None,
        Some(FileExtension::Csv) => match csv_file(p) { None => None, Some(it) => Some(seq![ModV::Conv(tmap(it))]) },
        Some(FileExtension::Yaml) => match (yaml_file(p), mods_file(p)) { (Some(it), Some(m)) => Some(m.push(ModV::Conv(tmap(it)))), _ => None },
    }
}
pub open spec fn files_config(ps: Seq<PathV>, n: int) -> Option<Seq<ModV>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match (files_config(ps, n - 1), file_config(ps[n - 1])) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
pub open spec fn dot_kind(s: Seq<char>) -> Option<FileExtension> { if s.len() > 0 && s[0] == '.' { ext_kind(s.skip(1)) } else { None } }
pub open spec fn items_file(p: PathV, e: FileExtension) -> Option<Seq<ItemV>> { match e { FileExtension::Csv => csv_file(p), FileExtension::Yaml => yaml_file(p) } }
pub proof fn lemma_kinds(s: Seq<char>)
    ensures (s == ".csv"@ || s == ".yaml"@ || s == ".yml"@) == dot_kind(s).is_some(),
        ext_kind(s).is_some() ==> dot_kind(s).is_none(),
        "csv"@ != "yaml"@, "csv"@ != "yml"@,
        "."@ == seq!['.'],
        forall|p: Seq<char>| p.len() == 1 ==> #[trigger] sub_at(s, p, 0) == (s.len() > 0 && s[0] == p[0]),
{
    reveal_strlit(".");
    assert("."@ =~= seq!['.']);
    assert forall|p: Seq<char>| p.len() == 1 implies #[trigger] sub_at(s, p, 0) == (s.len() > 0 && s[0] == p[0]) by {
        if s.len() > 0 && s[0] == p[0] { assert(s.subrange(0, 1) =~= p); }
        if sub_at(s, p, 0) { assert(s.subrange(0, 1) == p); assert(s.subrange(0, 1)[0] == s[0]); }
    }
    reveal_strlit(".csv"); reveal_strlit(".yaml"); reveal_strlit(".yml"); reveal_strlit("csv"); reveal_strlit("yaml"); reveal_strlit("yml");
    assert(".csv"@ =~= seq!['.'] + "csv"@);
    assert(".yaml"@ =~= seq!['.'] + "yaml"@);
    assert(".yml"@ =~= seq!['.'] + "yml"@);
    if s.len() > 0 && s[0] == '.' { assert(s =~= seq!['.'] + s.skip(1)); }
    assert(".csv"@.skip(1) =~= "csv"@);
    assert(".yaml"@.skip(1) =~= "yaml"@);
    assert(".yml"@.skip(1) =~= "yml"@);
    assert("csv"@[0] == 'c' && "yaml"@[0] == 'y' && "yml"@[0] == 'y');
}
pub open spec fn yvr(s: Seq<&serde_yaml::Value>) -> Seq<YV> { Seq::new(s.len(), |i: int| s[i]@) }
pub proof fn lemma_yvr(s: Seq<&serde_yaml::Value>, i: int) requires 0 <= i < s.len() ensures yvr(s)[i] == s[i]@, yvr(s).len() == s.len() {}
pub proof fn lemma_yps(s: Seq<(&serde_yaml::Value, &serde_yaml::Value)>, i: int) requires 0 <= i < s.len() ensures yps(s)[i] == (s[i].0@, s[i].1@), yps(s).len() == s.len() {}
pub open spec fn rows_are(s: Seq<Result<csv::StringRecord, csv::Error>>, rows: Seq<Option<Seq<Seq<char>>>>) -> bool {
    s.len() == rows.len() && forall|i: int| #![trigger s[i]] #![trigger rows[i]] 0 <= i < s.len() ==> s[i].is_ok() == rows[i].is_some() && (s[i].is_ok() ==> s[i].unwrap()@ == rows[i].unwrap() && s[i].unwrap()@.len() > 0)
}
pub proof fn lemma_csv_none(r: Seq<Option<Seq<Seq<char>>>>, n: int, m: int) requires 0 <= n <= m ensures csv_items(r, n).is_none() ==> csv_items(r, m).is_none() decreases m { if n < m { lemma_csv_none(r, n, m - 1); } }
pub proof fn lemma_list_none(r: Seq<YV>, n: int, m: int) requires 0 <= n <= m ensures list_items(r, n).is_none() ==> list_items(r, m).is_none() decreases m { if n < m { lemma_list_none(r, n, m - 1); } }
pub proof fn lemma_from_none(r: Seq<YV>, t: Seq<char>, n: int, m: int) requires 0 <= n <= m ensures from_items(r, t, n).is_none() ==> from_items(r, t, m).is_none() decreases m { if n < m { lemma_from_none(r, t, n, m - 1); } }
pub proof fn lemma_map_none(r: Seq<(YV, YV)>, n: int, m: int) requires 0 <= n <= m ensures map_items(r, n).is_none() ==> map_items(r, m).is_none() decreases m { if n < m { lemma_map_none(r, n, m - 1); } }
pub proof fn lemma_mods_none(r: Seq<(YV, YV)>, n: int, m: int) requires 0 <= n <= m ensures kv_mods(r, n).is_none() ==> kv_mods(r, m).is_none() decreases m { if n < m { lemma_mods_none(r, n, m - 1); } }
pub proof fn lemma_files_none(r: Seq<PathV>, n: int, m: int) requires 0 <= n <= m ensures files_config(r, n).is_none() ==> files_config(r, m).is_none() decreases m { if n < m { lemma_files_none(r, n, m - 1); } }
/// what the loop over the elements has collected so far
pub open spec fn chars_upto<E>(o: Seq<Result<char, E>>, s: Seq<YV>, n: int) -> bool {
    o.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] ok_is(o[i], ychar(s[i]))
}
pub open spec fn ok_is<T, E>(r: Result<T, E>, o: Option<T>) -> bool { r.is_ok() == o.is_some() && (r.is_ok() ==> r->Ok_0 == o->Some_0) }
pub open spec fn conv_upto<E>(o: Seq<Result<(char, char), E>>, m: Seq<(YV, YV)>, n: int) -> bool {
    o.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] ok_is(o[i], ypair(m[i]))
}
pub open spec fn ypair(p: (YV, YV)) -> Option<(char, char)> { match (ychar(p.0), ychar(p.1)) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
pub open spec fn lig_ok<E>(r: Result<(String, String), E>, p: (YV, YV)) -> bool {
    r.is_ok() == (p.0 is Str && p.1 is Str) && (r.is_ok() ==> (r->Ok_0).0@ == p.0->Str_0 && (r->Ok_0).1@ == p.1->Str_0)
}
pub open spec fn lig_upto<E>(o: Seq<Result<(String, String), E>>, m: Seq<(YV, YV)>, n: int) -> bool {
    o.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] lig_ok(o[i], m[i])
}
proof fn lemma_elim_n<E>(o: Seq<Result<char, E>>, s: Seq<YV>, n: int)
    requires chars_upto(o, s, s.len() as int), 0 <= n <= s.len()
    ensures elim_set(s, n).is_some() == (forall|i: int| 0 <= i < n ==> (#[trigger] o[i]).is_ok()),
        elim_set(s, n).is_some() ==> elim_set(s, n).unwrap() =~= ok_vals(o).take(n).to_set()
    decreases n
{
    if n > 0 {
        lemma_elim_n(o, s, n - 1);
        assert(ok_is(o[n - 1], ychar(s[n - 1])));
        if elim_set(s, n).is_some() {
            let a = ok_vals(o).take(n - 1);
            let b = ok_vals(o).take(n);
            assert(b =~= a.push(ok_vals(o)[n - 1]));
            assert forall|c: char| b.to_set().contains(c) == a.to_set().insert(ok_vals(o)[n - 1]).contains(c) by {
                if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert(b[i] == c); }
                if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; if i < n - 1 { assert(a[i] == c); } }
                assert(b[n - 1] == ok_vals(o)[n - 1]);
            }
        }
    } else { assert(ok_vals(o).take(0).to_set() =~= Set::<char>::empty()); }
}
pub proof fn lemma_elim<E>(o: Seq<Result<char, E>>, s: Seq<YV>)
    requires chars_upto(o, s, s.len() as int)
    ensures elim_set(s, s.len() as int).is_some() == all_ok(o), all_ok(o) ==> elim_set(s, s.len() as int) == Some(ok_vals(o).to_set())
{
    lemma_elim_n(o, s, s.len() as int);
    assert(ok_vals(o).take(s.len() as int) =~= ok_vals(o));
}
proof fn lemma_conv_n<E>(o: Seq<Result<(char, char), E>>, m: Seq<(YV, YV)>, n: int)
    requires conv_upto(o, m, m.len() as int), 0 <= n <= m.len()
    ensures conv_map(m, n).is_some() == (forall|i: int| 0 <= i < n ==> (#[trigger] o[i]).is_ok()),
        conv_map(m, n).is_some() ==> conv_map(m, n).unwrap() =~= map_of(ok_vals(o), n)
    decreases n
{
    if n > 0 { lemma_conv_n(o, m, n - 1); assert(ok_is(o[n - 1], ypair(m[n - 1]))); }
}
pub proof fn lemma_conv_v<E>(o: Seq<Result<(char, char), E>>, m: Seq<(YV, YV)>)
    requires conv_upto(o, m, m.len() as int)
    ensures conv_map(m, m.len() as int).is_some() == all_ok(o), all_ok(o) ==> conv_map(m, m.len() as int) == Some(map_of(ok_vals(o), m.len() as int))
{ lemma_conv_n(o, m, m.len() as int); }
proof fn lemma_lig_n<E>(o: Seq<Result<(String, String), E>>, m: Seq<(YV, YV)>, n: int)
    requires lig_upto(o, m, m.len() as int), 0 <= n <= m.len()
    ensures lig_map(m, n).is_some() == (forall|i: int| 0 <= i < n ==> (#[trigger] o[i]).is_ok()),
        lig_map(m, n).is_some() ==> lig_is(map_of(ok_vals(o), n), lig_map(m, n).unwrap())
    decreases n
{
    if n > 0 {
        lemma_lig_n(o, m, n - 1);
        assert(lig_ok(o[n - 1], m[n - 1]));
        if lig_map(m, n).is_some() {
            broadcast use ax_string_ext;
            let a = map_of(ok_vals(o), n - 1);
            let b = map_of(ok_vals(o), n);
            let x = ok_vals(o)[n - 1];
            let d = lig_map(m, n).unwrap();
            let d0 = lig_map(m, n - 1).unwrap();
            assert(b == a.insert(x.0, x.1));
            assert forall|e: (Seq<char>, Seq<char>)| #[trigger] has_entry(b, e) <==> d.contains_key(e.0) && d[e.0] == e.1 by {
                assert(has_entry(a, e) <==> d0.contains_key(e.0) && d0[e.0] == e.1);
                if e.0 == x.0@ {
                    assert(b.contains_key(x.0));
                    if has_entry(b, e) { let k = choose|k: String| #[trigger] b.contains_key(k) && k@ == e.0 && b[k]@ == e.1; assert(k == x.0); }
                } else {
                    if has_entry(b, e) { let k = choose|k: String| #[trigger] b.contains_key(k) && k@ == e.0 && b[k]@ == e.1; assert(a.contains_key(k) && a[k]@ == e.1); }
                    if has_entry(a, e) { let k = choose|k: String| #[trigger] a.contains_key(k) && k@ == e.0 && a[k]@ == e.1; assert(b.contains_key(k) && b[k]@ == e.1); }
                }
            }
        }
    } else {
        assert(map_of(ok_vals(o), 0) =~= Map::<String, String>::empty());
    }
}
pub proof fn lemma_lig_v<E>(o: Seq<Result<(String, String), E>>, m: Seq<(YV, YV)>)
    requires lig_upto(o, m, m.len() as int)
    ensures lig_map(m, m.len() as int).is_some() == all_ok(o), all_ok(o) ==> lig_is(map_of(ok_vals(o), m.len() as int), lig_map(m, m.len() as int).unwrap())
{ lemma_lig_n(o, m, m.len() as int); }

// ---- discovery ------------------------------------------------------------------------------------------------
pub open spec fn paths_v(s: Seq<Path>) -> Seq<PathV> { Seq::new(s.len(), |i: int| s[i]@) }
/// $HOME/.config/chanoma, $HOME and the current directory
pub open spec fn dirs_of() -> Seq<PathV> {
    (match home_of() { Some(h) => seq![p_join(h, p_of(".config/chanoma"@)), h], None => Seq::empty() })
        + (match cwd_of() { Some(c) => seq![c], None => Seq::empty() })
}
pub open spec fn in_dir(d: PathV, n: Seq<char>) -> PathV { p_join(d, p_of(n)) }
/// the names of a configuration file in a directory, in the order in which they are loaded
pub open spec fn cands(d: PathV) -> Seq<PathV> {
    seq![in_dir(d, "chanomarc.csv"@), in_dir(d, "chanomarc.yaml"@), in_dir(d, "chanomarc.yml"@),
        in_dir(d, ".chanomarc.csv"@), in_dir(d, ".chanomarc.yaml"@), in_dir(d, ".chanomarc.yml"@)]
}
pub open spec fn all_cands(ds: Seq<PathV>, n: int) -> Seq<PathV> decreases n { if n <= 0 { Seq::empty() } else { all_cands(ds, n - 1) + cands(ds[n - 1]) } }
pub open spec fn files_in(s: Seq<PathV>, n: int) -> Seq<PathV> decreases n {
    if n <= 0 { Seq::empty() } else if p_is_file(s[n - 1]) { files_in(s, n - 1).push(s[n - 1]) } else { files_in(s, n - 1) }
}
/// the files to load: the one CHANOMARC names (an error when it is none), else every candidate that is a file
pub open spec fn config_files() -> Option<Seq<PathV>> {
    match env_var("CHANOMARC"@) {
        Some(v) => if p_is_file(p_of(v)) && path_kind(p_of(v)).is_some() { Some(seq![p_of(v)]) } else { None },
        None => { let c = all_cands(dirs_of(), dirs_of().len() as int); Some(files_in(c, c.len() as int)) },
    }
}
pub open spec fn rc_config() -> Option<Seq<ModV>> { match config_files() { None => None, Some(ps) => files_config(ps, ps.len() as int) } }
pub open spec fn base_cands(d: PathV) -> Seq<PathV> {
    seq![in_dir(d, "chanomarc.csv"@), in_dir(d, "chanomarc.yaml"@), in_dir(d, ".chanomarc.csv"@), in_dir(d, ".chanomarc.yaml"@)]
}
pub open spec fn ext_at(i: int) -> Seq<char> { if i == 0 { "csv"@ } else { "yaml"@ } }
pub open spec fn with_exts(d: PathV, f: Seq<char>, n: int) -> Seq<PathV> { Seq::new(n as nat, |i: int| p_with_ext(p_join(d, p_of(f)), ext_at(i))) }
pub open spec fn cross(d: PathV, n: int) -> Seq<PathV> decreases n {
    if n <= 0 { Seq::empty() } else { cross(d, n - 1) + with_exts(d, if n == 1 { "chanomarc"@ } else { ".chanomarc"@ }, 2) }
}
pub open spec fn with_yml(s: Seq<PathV>, n: int) -> Seq<PathV> decreases n {
    if n <= 0 { Seq::empty() }
    else if is_yaml(s[n - 1]) { with_yml(s, n - 1).push(s[n - 1]).push(p_with_ext(s[n - 1], "yml"@)) }
    else { with_yml(s, n - 1).push(s[n - 1]) }
}
pub open spec fn is_yaml(p: PathV) -> bool { match p_ext(p) { None => false, Some(o) => os_str(o) == Some("yaml"@) } }
proof fn lemma_names()
    ensures simple_name("chanomarc"@), simple_name(".chanomarc"@), simple_ext("csv"@), simple_ext("yaml"@), simple_ext("yml"@), "csv"@ != "yaml"@,
        dotted_name("chanomarc"@, "csv"@) == "chanomarc.csv"@, dotted_name("chanomarc"@, "yaml"@) == "chanomarc.yaml"@, dotted_name("chanomarc"@, "yml"@) == "chanomarc.yml"@,
        dotted_name(".chanomarc"@, "csv"@) == ".chanomarc.csv"@, dotted_name(".chanomarc"@, "yaml"@) == ".chanomarc.yaml"@, dotted_name(".chanomarc"@, "yml"@) == ".chanomarc.yml"@,
{
    reveal_strlit("chanomarc"); reveal_strlit(".chanomarc"); reveal_strlit("csv"); reveal_strlit("yaml"); reveal_strlit("yml");
    reveal_strlit("chanomarc.csv"); reveal_strlit("chanomarc.yaml"); reveal_strlit("chanomarc.yml");
    reveal_strlit(".chanomarc.csv"); reveal_strlit(".chanomarc.yaml"); reveal_strlit(".chanomarc.yml");
    assert("csv"@[0] == 'c' && "yaml"@[0] == 'y');
    assert(dotted_name("chanomarc"@, "csv"@) =~= "chanomarc.csv"@);
    assert(dotted_name("chanomarc"@, "yaml"@) =~= "chanomarc.yaml"@);
    assert(dotted_name("chanomarc"@, "yml"@) =~= "chanomarc.yml"@);
    assert(dotted_name(".chanomarc"@, "csv"@) =~= ".chanomarc.csv"@);
    assert(dotted_name(".chanomarc"@, "yaml"@) =~= ".chanomarc.yaml"@);
    assert(dotted_name(".chanomarc"@, "yml"@) =~= ".chanomarc.yml"@);
}
pub proof fn lemma_cross(d: PathV) ensures cross(d, 2) == base_cands(d) {
    lemma_names();
    ax_with_ext(d, "chanomarc"@, "csv"@); ax_with_ext(d, "chanomarc"@, "yaml"@);
    ax_with_ext(d, ".chanomarc"@, "csv"@); ax_with_ext(d, ".chanomarc"@, "yaml"@);
    reveal_with_fuel(cross, 3);
    assert(cross(d, 2) =~= base_cands(d));
}
pub proof fn lemma_with_yml(d: PathV) ensures with_yml(base_cands(d), 4) == cands(d) {
    broadcast use ax_os_str;
    lemma_names();
    ax_ext(d, "chanomarc"@, "csv"@); ax_ext(d, "chanomarc"@, "yaml"@); ax_ext(d, ".chanomarc"@, "csv"@); ax_ext(d, ".chanomarc"@, "yaml"@);
    ax_with_ext2(d, "chanomarc"@, "yaml"@, "yml"@); ax_with_ext2(d, ".chanomarc"@, "yaml"@, "yml"@);
    reveal_with_fuel(with_yml, 5);
    assert(with_yml(base_cands(d), 4) =~= cands(d));
}

pub open spec fn pref_v(s: Seq<&Path>) -> Seq<PathV> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn load_ok<E>(r: Result<Vec<ModifierKind>, E>, c: Option<Seq<ModV>>) -> bool { r.is_ok() == c.is_some() && (r.is_ok() ==> mods_are((r->Ok_0)@, c.unwrap())) }
pub open spec fn loaded_upto<E>(o: Seq<Result<Vec<ModifierKind>, E>>, ps: Seq<PathV>, n: int) -> bool {
    o.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] load_ok(o[i], file_config(ps[i]))
}
proof fn lemma_load_n<E>(o: Seq<Result<Vec<ModifierKind>, E>>, ps: Seq<PathV>, n: int)
    requires loaded_upto(o, ps, ps.len() as int), 0 <= n <= ps.len()
    ensures files_config(ps, n).is_some() == (forall|i: int| 0 <= i < n ==> (#[trigger] o[i]).is_ok()),
        files_config(ps, n).is_some() ==> mods_are(flat(ok_vals(o).take(n)), files_config(ps, n).unwrap())
    decreases n
{
    if n > 0 {
        lemma_load_n(o, ps, n - 1);
        assert(load_ok(o[n - 1], file_config(ps[n - 1])));
        let v = ok_vals(o);
        assert(v.take(n).drop_last() =~= v.take(n - 1));
        assert(v.take(n).last() == v[n - 1]);
        if files_config(ps, n).is_some() {
            let a = flat(v.take(n - 1));
            let x = files_config(ps, n - 1).unwrap();
            let y = file_config(ps[n - 1]).unwrap();
            let b = v[n - 1]@;
            assert(flat(v.take(n)) == a + b);
            assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] mod_is((a + b)[i], (x + y)[i]) by {
                if i < a.len() { assert(mod_is(a[i], x[i])); } else { assert(mod_is(b[i - a.len()], y[i - a.len()])); }
            }
        }
    } else { assert(ok_vals(o).take(0).len() == 0); }
}
pub proof fn lemma_load<E>(o: Seq<Result<Vec<ModifierKind>, E>>, ps: Seq<PathV>)
    requires loaded_upto(o, ps, ps.len() as int)
    ensures files_config(ps, ps.len() as int).is_some() == all_ok(o), all_ok(o) ==> mods_are(flat(ok_vals(o)), files_config(ps, ps.len() as int).unwrap())
{
    lemma_load_n(o, ps, ps.len() as int);
    assert(ok_vals(o).take(ps.len() as int) =~= ok_vals(o));
}

proof fn lemma_mod_wf(m: ModifierKind, d: ModV) requires mod_is(m, d) ensures m.vx_wf() {}
pub proof fn lemma_mods_wf(m: Seq<ModifierKind>)
    ensures forall|d: Seq<ModV>| #[trigger] mods_are(m, d) ==> forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).vx_wf()
{
    assert forall|d: Seq<ModV>| #[trigger] mods_are(m, d) implies forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).vx_wf() by {
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).vx_wf() by { assert(mod_is(m[i], d[i])); lemma_mod_wf(m[i], d[i]); }
    }
}

// ---- export -----------------------------------------------------------------------------------------------------
/// the sources of the first n items whose target is `to`, in order
pub open spec fn froms_of(v: Seq<ItemV>, to: Seq<char>, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else if v[n - 1].1 == to { froms_of(v, to, n - 1).push(v[n - 1].0) } else { froms_of(v, to, n - 1) }
}
pub open spec fn strs(s: Seq<&String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn grouped(m: Map<&String, Vec<&String>>, v: Seq<ItemV>, n: int) -> bool {
    &&& forall|k: &String| #[trigger] m.contains_key(k) <==> froms_of(v, k@, n).len() > 0
    &&& forall|k: &String| #[trigger] m.contains_key(k) ==> strs(m[k]@) == froms_of(v, k@, n)
    &&& forall|x: int| #![trigger v[x]] 0 <= x < n ==> exists|k: &String| #[trigger] m.contains_key(k) && k@ == v[x].1
}
pub open spec fn so_far<'a>(a: Map<&'a String, Vec<&'a String>>, k: &'a String) -> Seq<&'a String> { if a.contains_key(k) { a[k]@ } else { Seq::empty() } }
pub proof fn lemma_grouped(a: Map<&String, Vec<&String>>, b: Map<&String, Vec<&String>>, v: Seq<ItemV>, n: int)
    requires 0 < n <= v.len(), grouped(a, v, n - 1),
        exists|k: &String, f: &String, l: Vec<&String>| k@ == v[n - 1].1 && f@ == v[n - 1].0 && b == #[trigger] a.insert(k, l) && l@ == #[trigger] so_far(a, k).push(f)
    ensures grouped(b, v, n)
{
    broadcast use ax_string_ext;
    let (k, f, l) = choose|k: &String, f: &String, l: Vec<&String>| k@ == v[n - 1].1 && f@ == v[n - 1].0 && b == #[trigger] a.insert(k, l) && l@ == #[trigger] so_far(a, k).push(f);
    assert forall|j: &String| #[trigger] b.contains_key(j) implies strs(b[j]@) == froms_of(v, j@, n) by {
        if j@ == k@ {
            if a.contains_key(k) { assert(strs(b[j]@) =~= strs(a[k]@).push(f@)); } else { assert(froms_of(v, k@, n - 1).len() == 0); assert(strs(b[j]@) =~= froms_of(v, k@, n - 1).push(f@)); }
        } else { assert(a.contains_key(j)); }
    }
    assert forall|x: int| #![trigger v[x]] 0 <= x < n implies exists|j: &String| #[trigger] b.contains_key(j) && j@ == v[x].1 by {
        if x == n - 1 { assert(b.contains_key(k)); } else { let j = choose|j: &String| #[trigger] a.contains_key(j) && j@ == v[x].1; assert(b.contains_key(j)); }
    }
    assert forall|j: &String| #[trigger] b.contains_key(j) <==> froms_of(v, j@, n).len() > 0 by { if j@ != k@ { assert(a.contains_key(j) <==> froms_of(v, j@, n - 1).len() > 0); } }
}
/// one record per target, ascending by target: its sources in order, then the target
pub open spec fn has_row(r: Seq<Seq<Seq<char>>>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).last() == t }
pub open spec fn export_rows(r: Seq<Seq<Seq<char>>>, v: Seq<ItemV>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() >= 2 && r[i].drop_last() == froms_of(v, r[i].last(), v.len() as int)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> str_lt((#[trigger] r[i]).last(), (#[trigger] r[j]).last())
    &&& forall|x: int| 0 <= x < v.len() ==> has_row(r, (#[trigger] v[x]).1)
}
pub open spec fn export_map(m: Map<String, Vec<String>>, v: Seq<ItemV>) -> bool {
    &&& forall|k: String| #[trigger] m.contains_key(k) <==> froms_of(v, k@, v.len() as int).len() > 0
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> strvs(m[k]@) == froms_of(v, k@, v.len() as int)
}
pub open spec fn strvs(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }

pub open spec fn row_of(r: Seq<Seq<char>>, to: Seq<char>, v: Seq<ItemV>) -> bool { r.len() >= 2 && r.last() == to && r.drop_last() == froms_of(v, to, v.len() as int) }
proof fn lemma_group_sorted(s: Seq<(&String, Vec<&String>)>, g: Map<&String, Vec<&String>>)
    requires sorted_map(s, g)
    ensures forall|i: int, j: int| 0 <= i < j < s.len() ==> str_lt((#[trigger] s[i]).0@, (#[trigger] s[j]).0@)
{
    broadcast use ax_string_ext;
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies str_lt((#[trigger] s[i]).0@, (#[trigger] s[j]).0@) by {
        assert(s[i].0 != s[j].0 && s[i].0.vx_le(&s[j].0));
        if s[i].0@ == s[j].0@ { assert(*s[i].0 == *s[j].0); }
    }
}
/// the key of every item's target is there
proof fn lemma_group_all(s: Seq<(&String, Vec<&String>)>, g: Map<&String, Vec<&String>>, v: Seq<ItemV>, t: String)
    requires grouped(g, v, v.len() as int), sorted_map(s, g), froms_of(v, t@, v.len() as int).len() > 0
    ensures exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == &t
{ assert(g.contains_key(&t)); }
pub proof fn lemma_export(r: Seq<Seq<Seq<char>>>, s: Seq<(&String, Vec<&String>)>, g: Map<&String, Vec<&String>>, v: Seq<ItemV>)
    requires grouped(g, v, v.len() as int), sorted_map(s, g), r.len() == s.len(), forall|i: int| 0 <= i < r.len() ==> row_of(#[trigger] r[i], s[i].0@, v)
    ensures export_rows(r, v)
{
    lemma_group_sorted(s, g);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies str_lt((#[trigger] r[i]).last(), (#[trigger] r[j]).last()) by {
        assert(row_of(r[i], s[i].0@, v) && row_of(r[j], s[j].0@, v));
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() >= 2 && r[i].drop_last() == froms_of(v, r[i].last(), v.len() as int) by { assert(row_of(r[i], s[i].0@, v)); }
    assert forall|x: int| 0 <= x < v.len() implies has_row(r, (#[trigger] v[x]).1) by {
        let t = choose|k: &String| #[trigger] g.contains_key(k) && k@ == v[x].1;
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t;
        assert(row_of(r[i], s[i].0@, v));
        assert(r[i].last() == v[x].1);
    }
    assert(export_rows(r, v));
}
pub open spec fn export_upto(b: Map<String, Vec<String>>, s: Seq<(&String, Vec<&String>)>, n: int) -> bool {
    &&& forall|k: String| #[trigger] b.contains_key(k) ==> exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == k
    &&& forall|i: int| 0 <= i < n ==> b.contains_key(*(#[trigger] s[i]).0) && strvs(b[*s[i].0]@) == strs(s[i].1@)
}
pub proof fn lemma_export_step(a: Map<String, Vec<String>>, b: Map<String, Vec<String>>, s: Seq<(&String, Vec<&String>)>, g: Map<&String, Vec<&String>>, n: int)
    requires 0 < n <= s.len(), export_upto(a, s, n - 1), sorted_map(s, g),
        exists|k: String, l: Vec<String>| k@ == s[n - 1].0@ && strvs(l@) == strs(s[n - 1].1@) && b == #[trigger] a.insert(k, l)
    ensures export_upto(b, s, n)
{
    broadcast use ax_string_ext;
    let (k, l) = choose|k: String, l: Vec<String>| k@ == s[n - 1].0@ && strvs(l@) == strs(s[n - 1].1@) && b == #[trigger] a.insert(k, l);
    assert(k == *s[n - 1].0);
    assert forall|i: int| 0 <= i < n implies b.contains_key(*(#[trigger] s[i]).0) && strvs(b[*s[i].0]@) == strs(s[i].1@) by {
        if i < n - 1 { assert(s[i].0 != s[n - 1].0); }
    }
    assert forall|j: String| #[trigger] b.contains_key(j) implies exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == j by {
        if j == k { assert(*s[n - 1].0 == j); } else { assert(a.contains_key(j)); let i = choose|i: int| 0 <= i < n - 1 && *(#[trigger] s[i]).0 == j; assert(*s[i].0 == j); }
    }
}
pub proof fn lemma_export_map(b: Map<String, Vec<String>>, s: Seq<(&String, Vec<&String>)>, g: Map<&String, Vec<&String>>, v: Seq<ItemV>)
    requires grouped(g, v, v.len() as int), sorted_map(s, g), export_upto(b, s, s.len() as int)
    ensures export_map(b, v), targets_in(b, v)
{
    assert forall|x: int| 0 <= x < v.len() implies has_target(b, (#[trigger] v[x]).1) by {
        let t = choose|k: &String| #[trigger] g.contains_key(k) && k@ == v[x].1;
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t;
        assert(b.contains_key(*s[i].0));
    }
    assert forall|k: String| #[trigger] b.contains_key(k) implies froms_of(v, k@, v.len() as int).len() > 0 && strvs(b[k]@) == froms_of(v, k@, v.len() as int) by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
        assert(g.contains_key(s[i].0));
    }
    assert forall|k: String| froms_of(v, k@, v.len() as int).len() > 0 implies #[trigger] b.contains_key(k) by {
        lemma_group_all(s, g, v, k);
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == &k;
        assert(*s[i].0 == k);
    }
}

/// the pairs that iterating an item map yields, by value or by reference
pub trait Grp<'a> { spec fn vx_grp(self) -> Seq<(&'a String, Vec<&'a String>)>; }
impl<'a> Grp<'a> for Seq<(&'a String, Vec<&'a String>)> { open spec fn vx_grp(self) -> Seq<(&'a String, Vec<&'a String>)> { self } }
impl<'a, 'b> Grp<'a> for Seq<(&'b &'a String, &'b Vec<&'a String>)> { open spec fn vx_grp(self) -> Seq<(&'a String, Vec<&'a String>)> { derefs(self) } }
impl<'a, 'b> Grp<'a> for Seq<(&'b &'a String, &'b mut Vec<&'a String>)> { open spec fn vx_grp(self) -> Seq<(&'a String, Vec<&'a String>)> { derefs_mut(self) } }

// ---- what was exported reads back ---------------------------------------------------------------------------------
/// how often x is among the first n items
pub open spec fn cnt(s: Seq<ItemV>, x: ItemV, n: int) -> nat decreases n { if n <= 0 { 0 } else if s[n - 1] == x { cnt(s, x, n - 1) + 1 } else { cnt(s, x, n - 1) } }
/// the same items, each as often, in any order
pub open spec fn same_items(a: Seq<ItemV>, b: Seq<ItemV>) -> bool { forall|x: ItemV| #[trigger] cnt(a, x, a.len() as int) == cnt(b, x, b.len() as int) }
pub open spec fn somes(r: Seq<Seq<Seq<char>>>) -> Seq<Option<Seq<Seq<char>>>> { Seq::new(r.len(), |i: int| Some(r[i])) }
/// loading these records as CSV gives the items v again
pub open spec fn csv_back(r: Seq<Seq<Seq<char>>>, v: Seq<ItemV>) -> bool {
    match csv_items(somes(r), r.len() as int) { Some(w) => same_items(w, v), None => false }
}
/// the serialized form of an exported map: its entries in any order
pub open spec fn yaml_of(m: Map<String, Vec<String>>, d: Seq<(YV, YV)>) -> bool {
    &&& ymap_ok(d)
    &&& forall|i: int| 0 <= i < d.len() ==> yaml_entry(m, #[trigger] d[i])
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> has_key(d, k@)
}
pub open spec fn yaml_entry(m: Map<String, Vec<String>>, e: (YV, YV)) -> bool { exists|k: String| #[trigger] m.contains_key(k) && e == (YV::Str(k@), YV::Seq(ystrs(strvs(m[k]@)))) }
pub open spec fn has_key(d: Seq<(YV, YV)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == YV::Str(k) }
pub open spec fn ystrs(s: Seq<Seq<char>>) -> Seq<YV> { Seq::new(s.len(), |i: int| YV::Str(s[i])) }
/// loading the document that has this map under the key items gives the items v again
pub open spec fn yaml_back(m: Map<String, Vec<String>>, v: Seq<ItemV>) -> bool {
    forall|d: Seq<(YV, YV)>| #[trigger] yaml_of(m, d) ==> match yaml_items(YV::Map(seq![(YV::Str("items"@), YV::Map(d))])) { Some(w) => same_items(w, v), None => false }
}
pub open spec fn with_to(f: Seq<Seq<char>>, to: Seq<char>) -> Seq<ItemV> { Seq::new(f.len(), |i: int| (f[i], to)) }
proof fn lemma_cnt_cat(a: Seq<ItemV>, b: Seq<ItemV>, x: ItemV, n: int)
    requires 0 <= n <= b.len()
    ensures cnt(a + b, x, a.len() + n) == cnt(a, x, a.len() as int) + cnt(b, x, n)
    decreases n
{
    if n > 0 { lemma_cnt_cat(a, b, x, n - 1); assert((a + b)[a.len() + n - 1] == b[n - 1]); }
    else { lemma_cnt_pre(a, a + b, x, a.len() as int); }
}
proof fn lemma_cnt_pre(a: Seq<ItemV>, b: Seq<ItemV>, x: ItemV, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures cnt(a, x, n) == cnt(b, x, n)
    decreases n
{ if n > 0 { lemma_cnt_pre(a, b, x, n - 1); } }
proof fn lemma_cnt_to(v: Seq<ItemV>, to: Seq<char>, x: ItemV, n: int)
    requires 0 <= n <= v.len()
    ensures ({ let w = with_to(froms_of(v, to, n), to); cnt(w, x, w.len() as int) == (if x.1 == to { cnt(v, x, n) } else { 0 }) })
    decreases n
{
    let w = with_to(froms_of(v, to, n), to);
    if n > 0 {
        lemma_cnt_to(v, to, x, n - 1);
        let w0 = with_to(froms_of(v, to, n - 1), to);
        if v[n - 1].1 == to {
            assert(w =~= w0.push(v[n - 1]));
            lemma_cnt_pre(w0, w, x, w0.len() as int);
        }
    }
}
proof fn lemma_no_to(v: Seq<ItemV>, x: ItemV, n: int)
    requires 0 <= n <= v.len(), forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).1 != x.1
    ensures cnt(v, x, n) == 0
    decreases n
{ if n > 0 { lemma_no_to(v, x, n - 1); } }
pub open spec fn seen(r: Seq<Seq<Seq<char>>>, t: Seq<char>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] r[i]).last() == t }
proof fn lemma_csv_back_n(r: Seq<Seq<Seq<char>>>, v: Seq<ItemV>, x: ItemV, n: int)
    requires export_rows(r, v), 0 <= n <= r.len()
    ensures csv_items(somes(r), n).is_some(), ({ let w = csv_items(somes(r), n).unwrap(); cnt(w, x, w.len() as int) == (if seen(r, x.1, n) { cnt(v, x, v.len() as int) } else { 0 }) })
    decreases n
{
    if n > 0 {
        lemma_csv_back_n(r, v, x, n - 1);
        let a = csv_items(somes(r), n - 1).unwrap();
        let row = r[n - 1];
        let to = row.last();
        let b = rec_items(row);
        assert(somes(r)[n - 1] == Some(row));
        assert(row.drop_last() == froms_of(v, to, v.len() as int));
        assert(b =~= with_to(froms_of(v, to, v.len() as int), to)) by { assert forall|i: int| 0 <= i < b.len() implies b[i] == with_to(froms_of(v, to, v.len() as int), to)[i] by { assert(row[i] == row.drop_last()[i]); } }
        lemma_cnt_to(v, to, x, v.len() as int);
        lemma_cnt_cat(a, b, x, b.len() as int);
        assert((a + b).len() == a.len() + b.len());
        if x.1 == to {
            assert(!seen(r, to, n - 1)) by { if seen(r, to, n - 1) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] r[i]).last() == to; assert(str_lt(r[i].last(), r[n - 1].last())); lemma_lt_irrefl(to); } }
            assert(seen(r, x.1, n)) by { assert(r[n - 1].last() == to); }
        } else {
            if seen(r, x.1, n) { let i = choose|i: int| 0 <= i < n && (#[trigger] r[i]).last() == x.1; assert(i < n - 1); assert(seen(r, x.1, n - 1)); }
            if seen(r, x.1, n - 1) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] r[i]).last() == x.1; assert(seen(r, x.1, n)); }
        }
    }
}
proof fn lemma_lt_irrefl(a: Seq<char>) ensures !str_lt(a, a) decreases a.len() { if a.len() > 0 { lemma_lt_irrefl(a.skip(1)); } }
pub proof fn lemma_csv_back(r: Seq<Seq<Seq<char>>>, v: Seq<ItemV>) requires export_rows(r, v) ensures csv_back(r, v)
{
    let n = r.len() as int;
    assert forall|x: ItemV| csv_items(somes(r), n).is_some() && #[trigger] cnt(csv_items(somes(r), n).unwrap(), x, csv_items(somes(r), n).unwrap().len() as int) == cnt(v, x, v.len() as int) by {
        lemma_csv_back_n(r, v, x, n);
        if !seen(r, x.1, n) {
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).1 != x.1 by { assert(has_row(r, v[i].1)); if v[i].1 == x.1 { let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).last() == v[i].1; assert(seen(r, x.1, n)); } }
            lemma_no_to(v, x, v.len() as int);
        }
    }
    lemma_csv_back_n(r, v, (Seq::empty(), Seq::empty()), n);
}
pub open spec fn yseen(d: Seq<(YV, YV)>, t: Seq<char>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] d[i]).0 == YV::Str(t) }
proof fn lemma_from_all(f: Seq<Seq<char>>, to: Seq<char>, n: int)
    requires 0 <= n <= f.len()
    ensures from_items(ystrs(f), to, n) == Some(with_to(f, to).take(n))
    decreases n
{
    if n > 0 { lemma_from_all(f, to, n - 1); assert(with_to(f, to).take(n) =~= with_to(f, to).take(n - 1).push((f[n - 1], to))); }
    else { assert(with_to(f, to).take(0) =~= Seq::<ItemV>::empty()); }
}
proof fn lemma_yaml_back_n(m: Map<String, Vec<String>>, d: Seq<(YV, YV)>, v: Seq<ItemV>, x: ItemV, n: int)
    requires export_map(m, v), yaml_of(m, d), 0 <= n <= d.len()
    ensures map_items(d, n).is_some(), ({ let w = map_items(d, n).unwrap(); cnt(w, x, w.len() as int) == (if yseen(d, x.1, n) { cnt(v, x, v.len() as int) } else { 0 }) })
    decreases n
{
    if n > 0 {
        lemma_yaml_back_n(m, d, v, x, n - 1);
        let a = map_items(d, n - 1).unwrap();
        assert(yaml_entry(m, d[n - 1]));
        let k = choose|k: String| #[trigger] m.contains_key(k) && d[n - 1] == (YV::Str(k@), YV::Seq(ystrs(strvs(m[k]@))));
        let to = k@;
        let f = froms_of(v, to, v.len() as int);
        assert(strvs(m[k]@) == f);
        lemma_from_all(f, to, f.len() as int);
        let b = with_to(f, to);
        assert(b.take(f.len() as int) =~= b);
        assert(ystrs(f).len() == f.len());
        assert(pair_items(d[n - 1].0, d[n - 1].1) == Some(b));
        lemma_cnt_to(v, to, x, v.len() as int);
        lemma_cnt_cat(a, b, x, b.len() as int);
        assert((a + b).len() == a.len() + b.len());
        if x.1 == to {
            assert(!yseen(d, to, n - 1)) by { if yseen(d, to, n - 1) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] d[i]).0 == YV::Str(to); assert(d[i].0 != d[n - 1].0); } }
            assert(yseen(d, x.1, n)) by { assert(d[n - 1].0 == YV::Str(to)); }
        } else {
            if yseen(d, x.1, n) { let i = choose|i: int| 0 <= i < n && (#[trigger] d[i]).0 == YV::Str(x.1); assert(i < n - 1); assert(yseen(d, x.1, n - 1)); }
            if yseen(d, x.1, n - 1) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] d[i]).0 == YV::Str(x.1); assert(yseen(d, x.1, n)); }
        }
    }
}
/// every target is the target of some item, so that the map has its key
pub open spec fn targets_in(m: Map<String, Vec<String>>, v: Seq<ItemV>) -> bool { forall|x: int| 0 <= x < v.len() ==> has_target(m, (#[trigger] v[x]).1) }
pub open spec fn has_target(m: Map<String, Vec<String>>, t: Seq<char>) -> bool { exists|k: String| #[trigger] m.contains_key(k) && k@ == t }
pub proof fn lemma_yaml_back(m: Map<String, Vec<String>>, v: Seq<ItemV>) requires export_map(m, v), targets_in(m, v) ensures yaml_back(m, v)
{
    assert forall|d: Seq<(YV, YV)>| #[trigger] yaml_of(m, d) implies match yaml_items(YV::Map(seq![(YV::Str("items"@), YV::Map(d))])) { Some(w) => same_items(w, v), None => false } by {
        let n = d.len() as int;
        let doc = seq![(YV::Str("items"@), YV::Map(d))];
        assert(ymap_get(doc, "items"@, 1) == Some(YV::Map(d)));
        assert(doc.len() == 1);
        lemma_yaml_back_n(m, d, v, (Seq::empty(), Seq::empty()), n);
        let w = map_items(d, n).unwrap();
        assert(yaml_items(YV::Map(doc)) == Some(w));
        assert forall|x: ItemV| #[trigger] cnt(w, x, w.len() as int) == cnt(v, x, v.len() as int) by {
            lemma_yaml_back_n(m, d, v, x, n);
            if !yseen(d, x.1, n) {
                assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).1 != x.1 by {
                    assert(has_target(m, v[i].1));
                    if v[i].1 == x.1 { let k = choose|k: String| #[trigger] m.contains_key(k) && k@ == v[i].1; assert(has_key(d, k@)); let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == YV::Str(k@); assert(yseen(d, x.1, n)); }
                }
                lemma_no_to(v, x, v.len() as int);
            }
        }
    }
}

// ---- programs -------------------------------------------------------------------------------------------------
/// one more modifier when asked for
pub open spec fn and_if(d: Seq<ModV>, on: bool, m: ModV) -> Seq<ModV> { if on { d.push(m) } else { d } }
/// the modifiers of the configuration, then the preset, then neologdn, the latter two when asked for
pub open spec fn cli_desc(preset: bool, neologdn: bool) -> Seq<ModV> {
    and_if(and_if(rc_config().unwrap(), preset, ModV::Conv(tmap(all_items()))), neologdn, ModV::Neo)
}
/// one line with the normalized text t
pub open spec fn cli_out(out: Seq<char>, t: Seq<char>, preset: bool, neologdn: bool) -> bool {
    exists|ms: Seq<ModifierKind>| mods_are(ms, cli_desc(preset, neologdn)) && out == #[trigger] pipeline(ms, t, ms.len() as int) + seq!['\n']
}
pub broadcast proof fn lemma_mods_push(a: Seq<ModifierKind>, b: Seq<ModifierKind>, d: Seq<ModV>)
    requires #[trigger] mods_are(a, d), #[trigger] pushed(a, b)
    ensures
        forall|t: Map<char, char>| #[trigger] is_converter(b.last(), t) ==> mods_are(b, d.push(ModV::Conv(t))),
        b.last() is Neologdn && b.last().vx_wf() ==> mods_are(b, d.push(ModV::Neo)),
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] b[i] by { assert(b.drop_last()[i] == b[i]); }
    assert forall|t: Map<char, char>| #[trigger] is_converter(b.last(), t) implies mods_are(b, d.push(ModV::Conv(t))) by {
        let e = d.push(ModV::Conv(t));
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] mod_is(b[i], e[i]) by { if i < a.len() { assert(mod_is(a[i], d[i])); } }
    }
    if b.last() is Neologdn && b.last().vx_wf() {
        let e = d.push(ModV::Neo);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] mod_is(b[i], e[i]) by { if i < a.len() { assert(mod_is(a[i], d[i])); } }
    }
}
pub broadcast proof fn lemma_empty_add(s: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + s) == s { assert(Seq::<char>::empty() + s =~= s); }
/// whatever file holds this text loads as the items v
pub open spec fn loads_csv(out: Seq<char>, v: Seq<ItemV>) -> bool {
    forall|p: PathV| #![trigger csv_file(p)] f_text(p) == Some(out) ==> match csv_file(p) { Some(w) => same_items(w, v), None => false }
}
pub open spec fn loads_yaml(out: Seq<char>, v: Seq<ItemV>) -> bool {
    forall|p: PathV| #![trigger yaml_file(p)] f_text(p) == Some(out) ==> match yaml_file(p) { Some(w) => same_items(w, v), None => false }
}
pub broadcast proof fn lemma_loads_csv(r: Seq<Seq<Seq<char>>>, v: Seq<ItemV>)
    requires #[trigger] export_rows(r, v), csv_back(r, v)
    ensures loads_csv("from,to\n"@ + csv_text(r, (WriteOpt { flexible: true, ..write_default() })) + seq!['\n'], v)
{
    let out = "from,to\n"@ + csv_text(r, (WriteOpt { flexible: true, ..write_default() })) + seq!['\n'];
    assert forall|p: PathV| f_text(p) == Some(out) implies match #[trigger] csv_file(p) { Some(w) => same_items(w, v), None => false } by {
        ax_csv_text(p, r);
        assert(csv_rows(p, csv_opt()) == somes(r));
    }
}
pub broadcast proof fn lemma_loads_yaml(t: Seq<char>, m: Map<String, Vec<String>>, d: Seq<(YV, YV)>, v: Seq<ItemV>)
    requires #[trigger] yaml_of(m, d), #[trigger] yaml_back(m, v), #[trigger] yaml_parse(t + seq!['\n']) == Some(YV::Map(seq![(YV::Str("items"@), YV::Map(d))]))
    ensures loads_yaml(t + seq!['\n'], v)
{
    broadcast use ax_f_text;
}
/// the pairs of the full preset, each once, ascending
pub open spec fn preset_items(v: Seq<ItemV>) -> bool { strictly_asc(v) && forall|x: ItemV| #[trigger] v.contains(x) == in_all(x) }
pub broadcast proof fn lemma_preset_union(r: Seq<ItemV>, e: Seq<ItemV>)
    requires e.len() == 0, #[trigger] is_union(r, e, crate::corr::Corr::vx_items(&crate::characters_set::All{})), crate::corr::Corr::vx_fact(&crate::characters_set::All{})
    ensures preset_items(r)
{}

// ---- the Python module ----------------------------------------------------------------------------------------
/// what Chanoma(..) starts from
pub open spec fn py_config(configfile: Option<&str>, rc: bool) -> Option<Seq<ModV>> {
    match configfile { Some(f) => file_config(p_of(f@)), None => if rc { rc_config() } else { Some(Seq::empty()) } }
}
/// the configuration, then the table, the preset and neologdn
pub open spec fn py_desc(cfg: Seq<ModV>, t: Option<Seq<ItemV>>, preset: bool, neologdn: bool) -> Seq<ModV> {
    let a = match t { Some(t) => cfg.push(ModV::Conv(tmap(t))), None => cfg };
    and_if(and_if(a, preset, ModV::Conv(tmap(all_items()))), neologdn, ModV::Neo)
}
pub open spec fn opt_csv(f: Option<&str>) -> Option<Seq<ItemV>> { match f { Some(f) => csv_file(p_of(f@)), None => Some(Seq::empty()) } }
pub open spec fn opt_yaml(f: Option<&str>) -> Option<Seq<ItemV>> { match f { Some(f) => yaml_file(p_of(f@)), None => Some(Seq::empty()) } }
/// the preset and the items of both files
pub open spec fn py_table(v: Seq<ItemV>, preset: bool, csv: Option<&str>, yaml: Option<&str>) -> bool {
    &&& strictly_asc(v)
    &&& forall|x: ItemV| #[trigger] v.contains(x) <==> (preset && in_all(x)) || opt_csv(csv).unwrap().contains(x) || opt_yaml(yaml).unwrap().contains(x)
}
pub broadcast proof fn lemma_iter_ivs<'a>(v: &'a Vec<crate::corr::item::Item>, r: VxIter<&'a crate::corr::item::Item>)
    requires #[trigger] v.vx_iter_ok(r),
    ensures ivs_ref(r.seq()) == ivs(v@),
{ assert(ivs_ref(r.seq()) =~= ivs(v@)); }
