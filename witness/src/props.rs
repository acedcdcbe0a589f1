//! One search and one oracle per property.
use crate::case::Case;
use crate::gen::{self, texts, SPECIAL};
use crate::oracle::{self as o, Pos};
use crate::{config, Ctx};
use chanoma::verif_hooks::*;
use chanoma::{Chanoma, Corr, Correspondence, Item, Synthesized, Table, TableBuilder};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

pub type R = Result<bool, String>;

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {}, expected {}", cut(&got), cut(&want))) }
}
fn cut<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    if s.chars().count() > 600 { s.chars().take(600).collect::<String>() + "…" } else { s }
}
fn ch(s: &str) -> char { s.chars().next().unwrap() }
fn cmap(l: &[(String, String)]) -> HashMap<char, char> { l.iter().map(|(a, b)| (ch(a), ch(b))).collect() }
fn smap(l: &[(String, String)]) -> HashMap<String, String> { l.iter().cloned().collect() }
fn pos(p: &[chanoma::Position]) -> Vec<Pos> {
    p.iter().map(|p| Pos { from: p.from.clone(), to: p.to.clone(), index: p.index, length: p.length, utf8_index: p.utf8_index, utf8_length: p.utf8_length }).collect()
}
pub fn item(p: &(String, String)) -> Item { Item::new(p.0.clone(), p.1.clone()) }
pub fn corr(l: &[(String, String)]) -> Correspondence<Synthesized> { Correspondence::new(Synthesized::new(l.iter().map(item).collect())) }
pub fn pairs(v: &[Item]) -> Vec<(String, String)> { v.iter().map(|i| (i.from.clone(), i.to.clone())).collect() }
pub fn table(l: &[(String, String)]) -> Table { Table::from_corr(corr(l), chanoma::table::Origin::New) }

/// the modifier a case names
fn kind_of(c: &Case) -> ModifierKind {
    let l = c.lists.first().map(|l| l.as_slice()).unwrap_or(&[]);
    match c.strs.first().map(|s| s.as_str()).unwrap_or("") {
        "converter" => CharacterConverter::from_map(cmap(l)).into(),
        "eliminator" => CharacterEliminator::from_chars(l.iter().map(|p| ch(&p.0)).collect()).into(),
        "reducer" => ConsecutiveCharacterReducer::new(ch(&l[0].0)).into(),
        "dotted" => DottedSpaceEliminator::new().into(),
        "ligature" => LigatureTranslator::from_map(smap(l)).into(),
        "trim" => Trim::new().into(),
        "neologdn" => Neologdn::new().into(),
        x => panic!("no modifier {x}"),
    }
}

pub fn run(c: &Case, scratch: &Path) -> R {
    let t = c.text.as_str();
    let l = c.lists.first().map(|l| l.as_slice()).unwrap_or(&[]);
    match c.kind.as_str() {
        "converter" => {
            let m = cmap(l);
            let want = o::convert(&m, t);
            eq("modify", CharacterConverter::from_map(m).modify(t), want.clone())?;
            ways(c, want)
        }
        "eliminator" => {
            let k: Vec<char> = l.iter().map(|p| ch(&p.0)).collect();
            let want = o::eliminate(&k, t);
            eq("modify", CharacterEliminator::from_chars(k).modify(t), want.clone())?;
            ways(c, want)
        }
        "reducer" => {
            let want = o::reduce(ch(&l[0].0), t);
            eq("modify", ConsecutiveCharacterReducer::new(ch(&l[0].0)).modify(t), want.clone())?;
            ways(c, want)
        }
        "dotted" => {
            let want = o::dotted(t);
            eq("modify", DottedSpaceEliminator::new().modify(t), want.clone())?;
            ways(c, want)
        }
        "trim" => {
            let want = o::trim(t);
            eq("modify", Trim::new().modify(t), want.clone())?;
            ways(c, want)
        }
        "ligature" => {
            let b: BTreeMap<String, String> = l.iter().cloned().collect();
            let want = o::ligature(&b, t);
            for _ in 0..3 { eq("modify", LigatureTranslator::from_map(smap(l)).modify(t), want.clone())?; }
            ways(c, want)
        }
        "positions" => positions(c),
        "same" => same(c, scratch),
        "pipeline" => pipeline(c, scratch),
        "neologdn" => {
            thread_local! { static N: (HashMap<char, char>, BTreeMap<String, String>, Chanoma) = (o::neologdn_map(), o::neologdn_kana(), Chanoma::neologdn()); }
            N.with(|(m, k, n)| {
                let want = o::neologdn(m, k, t);
                eq("normalize", n.normalize(t), want.clone())?;
                if c.flag {
                    eq("neologdn().normalize", Chanoma::neologdn().normalize(t), want.clone())?;
                    let mut u = Chanoma::new();
                    u.use_neologdn();
                    eq("use_neologdn().normalize", u.normalize(t), want.clone())?;
                    eq("normalize_with_positions", n.normalize_with_positions(t).text().to_string(), want.clone())?;
                }
                Ok(want != t)
            })
        }
        "algebra" => algebra(c),
        "preset" => preset(c),
        _ => config::run(c, scratch),
    }
}

/// the other ways to the same text: as one of several kinds, and with positions
fn ways(c: &Case, want: String) -> R {
    let t = c.text.as_str();
    // on part of the cases
    let h = t.bytes().fold(t.len() as u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32));
    if t.len() < 4 || h % 8 == 0 {
        let k = kind_of(c);
        eq("ModifierKind::modify", k.modify(t), want.clone())?;
        eq("text of modify_with_positions", k.modify_with_positions(t).text, want.clone())?;
        if c.strs[0] == "eliminator" && c.lists[0].len() == 1 { eq("from_char", CharacterEliminator::from_char(ch(&c.lists[0][0].0)).modify(t), want.clone())?; }
    }
    Ok(want != t)
}

fn positions(c: &Case) -> R {
    let t = c.text.as_str();
    let l = c.lists.first().map(|l| l.as_slice()).unwrap_or(&[]);
    let r = kind_of(c).modify_with_positions(t);
    let got = pos(&r.positions);
    let want = match c.strs[0].as_str() {
        "converter" => o::convert_pos(&cmap(l), t),
        "reducer" => o::reduce_pos(ch(&l[0].0), t),
        "trim" => o::trim_pos(t),
        _ => return Ok(false),
    };
    let n = want.len();
    if got != want {
        // the first entry that differs
        for i in 0..n.max(got.len()) {
            if got.get(i) != want.get(i) { return Err(format!("position {i} of {n}: got {:?} (of {}), expected {:?}", got.get(i), got.len(), want.get(i))); }
        }
    }
    // what the entries say, applied to the input, gives the output
    let mut out = String::new();
    let mut at = 0;
    for p in &want {
        let (a, b) = (p.index, p.index + p.length);
        if t.get(a..b) != Some(p.from.as_str()) { return Err(format!("{p:?} does not name a part of the input")); }
        out.push_str(&t[at..a]);
        out.push_str(&p.to);
        at = b;
    }
    out.push_str(&t[at..]);
    eq("text of modify_with_positions", r.text, out)?;
    Ok(n > 0)
}

fn same_of(k: &ModifierKind, t: &str) -> Result<ModifiedRecord, String> {
    let r = k.modify_with_positions(t);
    eq("text of modify_with_positions against modify", r.text.clone(), k.modify(t))?;
    if &r.kind != k { return Err(format!("kind of the record: got {:?}, expected {:?}", cut(&r.kind), cut(k))); }
    Ok(r)
}

fn same(c: &Case, scratch: &Path) -> R {
    if c.strs.first().map_or(true, |s| s != "ops") {
        let k = kind_of(c);
        let r = same_of(&k, &c.text)?;
        return Ok(r.text != c.text);
    }
    let (n, kinds) = build(c, scratch)?;
    log::set_max_level(if c.flag { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    let r = n.normalize_with_positions(&c.text);
    let plain = n.normalize(&c.text);
    log::set_max_level(log::LevelFilter::Off);
    eq("normalize_with_positions().text() against normalize", r.text().to_string(), plain)?;
    eq("number of records", r.modified_records().len(), kinds.len())?;
    let mut cur = c.text.clone();
    for (i, (rec, k)) in r.modified_records().iter().zip(&kinds).enumerate() {
        if &rec.kind != k { return Err(format!("record {i}: got kind {}, expected {}", cut(&rec.kind), cut(k))); }
        let want = k.modify_with_positions(&cur);
        eq(&format!("record {i}"), rec.text.clone(), want.text.clone())?;
        eq(&format!("positions of record {i}"), pos(&rec.positions), pos(&want.positions))?;
        cur = rec.text.clone();
    }
    eq("text() against the last record", r.text().to_string(), cur.clone())?;
    Ok(cur != c.text)
}

/// The pipeline of a case (strs[1..]) and the modifiers it should consist of.
fn build(c: &Case, scratch: &Path) -> Result<(Chanoma, Vec<ModifierKind>), String> {
    thread_local! {
        static PRE: ModifierKind = { let mut b = TableBuilder::new(); b.preset(); CharacterConverter::from_tables(vec![b.build()]).into() };
        static NEO: ModifierKind = Neologdn::new().into();
    }
    let pre = || PRE.with(|k| k.clone());
    let neo = || NEO.with(|k| k.clone());
    let tab = |k: &str| -> Table { table(c.lists.get(k.parse::<usize>().unwrap()).map(|l| l.as_slice()).unwrap_or(&[])) };
    let mut n = Chanoma::new();
    let mut kinds: Vec<ModifierKind> = vec![];
    for (i, op) in c.strs[1..].iter().enumerate() {
        let (name, arg) = op.split_once(':').unwrap_or((op, ""));
        match name {
            "preset" => { if i == 0 && c.flag { n = Chanoma::preset(); } else { n.use_preset(); } kinds.push(pre()); }
            "neologdn" => { if i == 0 && c.flag { n = Chanoma::neologdn(); } else { n.use_neologdn(); } kinds.push(neo()); }
            "table" => { if i == 0 && c.flag { n = Chanoma::from_table(tab(arg)); } else { n.add_table(tab(arg)); } kinds.push(CharacterConverter::from_tables(vec![tab(arg)]).into()); }
            "file" => {
                if i > 0 { continue; }
                let p = scratch.join("pipeline.yaml");
                std::fs::write(&p, arg).unwrap();
                n = Chanoma::from_config_file(&p).map_err(|e| format!("from_config_file: {e}"))?;
                kinds = Configuration::from_path(&p).map_err(|e| format!("from_path: {e}"))?;
            }
            _ => panic!("no op {op}"),
        }
    }
    Ok((n, kinds))
}

fn pipeline(c: &Case, scratch: &Path) -> R {
    let (n, kinds) = build(c, scratch)?;
    let mut want = c.text.clone();
    for k in &kinds { want = k.modify(&want); }
    eq("normalize", n.normalize(&c.text), want.clone())?;
    if kinds.is_empty() { eq("normalize of nothing", want.clone(), c.text.clone())?; }
    let recs = n.normalize_with_positions(&c.text);
    let got: Vec<ModifierKind> = recs.modified_records().iter().map(|r| r.kind.clone()).collect();
    if got != kinds { return Err(format!("modifiers: got {}, expected {}", cut(&got), cut(&kinds))); }
    // once more: normalizing changes nothing about the normalizer
    eq("normalize again", n.normalize(&c.text), want.clone())?;
    Ok(want != c.text)
}

type L = Vec<(String, String)>;
fn algebra(c: &Case) -> R {
    let e: L = vec![];
    let a = c.lists.first().unwrap_or(&e);
    let b = c.lists.get(1).unwrap_or(&e);
    let d = c.lists.get(2).unwrap_or(&e);
    let (ca, cb, cd) = (corr(a), corr(b), corr(d));
    eq("items", pairs(&ca.items()), a.clone())?;
    let u = o::union(a, b);
    let m = o::minus(a, b);
    eq("a + b", pairs(&(ca.clone() + &cb).items()), u.clone())?;
    eq("b + a", pairs(&(cb.clone() + &ca).items()), u.clone())?;
    eq("a - b", pairs(&(ca.clone() - &cb).items()), m.clone())?;
    eq("a + b - d", pairs(&(ca.clone() + &cb - &cd).items()), o::minus(&u, d))?;
    let mut x = ca.clone();
    x += &cb;
    eq("a += b", pairs(&x.items()), u.clone())?;
    x -= &cd;
    eq("(a += b) -= d", pairs(&x.items()), o::minus(&u, d))?;
    let mut x = ca.clone();
    x -= &cb;
    eq("a -= b", pairs(&x.items()), m.clone())?;
    // tables
    let mut t = table(a);
    eq("Table::items", pairs(&t.items()), a.clone())?;
    t.add(&cb);
    eq("Table::add", pairs(&t.items()), u.clone())?;
    t.remove(&cd);
    eq("Table::remove", pairs(&t.items()), o::minus(&u, d))?;
    eq("Table::corr", pairs(&t.corr().items()), o::minus(&u, d))?;
    let mut tb = TableBuilder::from_table(table(a));
    tb.add_corr(&cb).remove_corr(&cd);
    eq("TableBuilder", pairs(&tb.build().items()), o::minus(&u, d))?;
    let mut tb = table(a).builder();
    tb.remove_corr(&cb).add_corr(&cd);
    eq("Table::builder", pairs(&tb.build().items()), o::union(&m, d))?;
    // as a converter
    let tables = vec![a.clone(), b.clone(), d.clone()];
    let map = o::table_map(&tables);
    let conv = CharacterConverter::from_tables(tables.iter().map(|t| table(t)).collect());
    let text: String = tables.iter().flatten().flat_map(|(f, t)| f.chars().chain(t.chars())).chain("zあ".chars()).collect();
    eq("from_tables", conv.modify(&text), o::convert(&map, &text))?;
    let one = o::table_map(&[a.clone()]);
    eq("Chanoma::from_table", Chanoma::from_table(table(a)).normalize(&text), o::convert(&one, &text))?;
    // single and many-to-one correspondences
    if let Some((f, t)) = a.first() {
        eq("Item", pairs(&[item(&(f.clone(), t.clone()))]), vec![(f.clone(), t.clone())])?;
        let (sf, st): (&'static str, &'static str) = (leak(f), leak(t));
        let lin = chanoma::corr::Linear::new(sf, st).corr();
        eq("Linear", pairs(&lin.items()), vec![(f.clone(), t.clone())])?;
        eq("b + linear", pairs(&(cb.clone() + &lin).items()), o::union(b, &[(f.clone(), t.clone())]))?;
        eq("b - linear", pairs(&(cb.clone() - &lin).items()), o::minus(b, &[(f.clone(), t.clone())]))?;
        if a.len() <= 3 {
            let froms: &'static [&'static str] = Box::leak(a.iter().map(|p| leak(&p.0)).collect::<Vec<_>>().into_boxed_slice());
            let uni = chanoma::corr::Unification::new(froms, st).corr();
            eq("Unification", pairs(&uni.items()), a.iter().map(|p| (p.0.clone(), t.clone())).collect::<L>())?;
        }
    }
    Ok(u != *a || m != *a)
}
fn leak(s: &str) -> &'static str {
    use std::cell::RefCell;
    thread_local! { static S: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()); }
    S.with(|m| *m.borrow_mut().entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str())))
}

fn preset(c: &Case) -> R {
    use chanoma::characters_set::prelude::*;
    let rows = if c.text == "text" { vec![] } else { crate::tables::rows() };
    let sorted = |f: &dyn Fn(&str) -> bool| -> L { let mut v: L = rows.iter().filter(|r| f(&r.set)).map(|r| (r.from.clone(), r.to.clone())).collect(); v.sort(); v };
    match c.text.as_str() {
        "consts" => {
            let k = crate::consts::consts();
            eq("number of constants", k.len(), rows.len())?;
            for ((name, got), row) in k.iter().zip(&rows) { eq(name, pairs(got), vec![(row.from.clone(), row.to.clone())])?; }
        }
        "digits" => eq("DIGITS", pairs(&DIGITS.items()), sorted(&|s| s == "digits"))?,
        "punctuations" => eq("PUNCTUATIONS", pairs(&PUNCTUATIONS.items()), sorted(&|s| s == "punctuations"))?,
        "alphabets" => eq("ALPHABETS", pairs(&ALPHABETS.items()), sorted(&|s| s == "alphabets"))?,
        "kanas" => eq("KANAS", pairs(&KANAS.items()), sorted(&|s| s == "kanas"))?,
        "cjk" => eq("CJK_COMPATIBILITIES", pairs(&CJK_COMPATIBILITIES.items()), sorted(&|s| s == "cjk_compatibilities"))?,
        "all" => eq("ALL", pairs(&ALL.items()), sorted(&|s| s != "cjk_compatibilities"))?,
        "builder" => { let mut b = TableBuilder::new(); b.preset(); eq("TableBuilder::preset", pairs(&b.build().items()), sorted(&|s| s != "cjk_compatibilities"))?; }
        _ => {
            // every text through the preset
            thread_local! { static P: Chanoma = Chanoma::preset(); static M: HashMap<char, char> = o::table_map(&[crate::tables::preset()]); }
            let t = &c.strs[0];
            let want = M.with(|m| o::convert(m, t));
            P.with(|p| eq("preset().normalize", p.normalize(t), want.clone()))?;
            if c.flag { let mut n = Chanoma::new(); n.use_preset(); eq("use_preset().normalize", n.normalize(t), want.clone())?; }
            return Ok(want != *t);
        }
    }
    Ok(true)
}

// ------------------------------------------------------------------------------------------------ searches
fn p1(c: char) -> (String, String) { (c.to_string(), String::new()) }
fn p2(a: char, b: char) -> (String, String) { (a.to_string(), b.to_string()) }
fn pstr(a: &str, b: &str) -> (String, String) { (a.to_string(), b.to_string()) }

/// the parameters under which a modifier is tried, with the characters that matter for them
fn params(ctx: &mut Ctx, which: &str) -> Vec<(L, Vec<char>)> {
    let mut v: Vec<(L, Vec<char>)> = match which {
        "converter" => vec![
            (vec![p2('Ａ', 'A'), p2('ｶ', 'カ'), p2('a', '😀')], vec!['Ａ', 'ｶ', 'a', 'A', 'é']),
            (vec![p2('a', 'b'), p2('b', 'a')], vec!['a', 'b', 'あ']),
            (vec![p2('a', 'b'), p2('b', 'c'), p2('c', 'c')], vec!['a', 'b', 'c']),
            (vec![p2('😀', 'x'), p2('\0', '\n'), p2(' ', '_'), p2('é', 'e')], vec!['😀', '\0', ' ', 'é']),
            (vec![], vec!['a', 'あ']),
        ],
        "eliminator" => vec![
            (vec![p1('~'), p1('〜'), p1('😀')], vec!['~', '〜', '😀', 'a', 'あ']),
            (vec![p1('a')], vec!['a', 'b']),
            (vec![p1(' '), p1('\n'), p1('é'), p1('é')], vec![' ', '\n', 'é', 'x']),
            (vec![], vec!['a', 'あ']),
        ],
        "reducer" => "ーa éー😀゛-\0".chars().map(|c| (vec![p1(c)], vec![c, if c == 'a' { 'b' } else { 'a' }, 'あ'])).collect(),
        "dotted" => vec![(vec![], vec![' ', 'a', 'あ', '9']), (vec![], vec!['Z', ' ', '\u{3000}', '0', 'é']), (vec![], vec![' ', 'z', '\t', '@', 'Ａ'])],
        "trim" => vec![(vec![], vec![' ', 'a', 'あ']), (vec![], vec![' ', '\u{3000}', '\n', '\t', 'é'])],
        "ligature" => vec![
            (vec![pstr("ハ゜", "パ"), pstr("カ゛", "ガ")], vec!['ハ', '゜', 'カ', '゛']),
            (vec![pstr("a", "b"), pstr("b", "c"), pstr("c", "a")], vec!['a', 'b', 'c']),
            (vec![pstr("ab", "b"), pstr("bb", "a"), pstr("aa", "")], vec!['a', 'b']),
            (vec![pstr("aa", "a"), pstr("aba", "x"), pstr("x", "aa")], vec!['a', 'b', 'x']),
            (vec![pstr("", "-"), pstr("a", "")], vec!['a', 'b', '-']),
            (vec![pstr("b", "1"), pstr("ab", "2"), pstr("abc", "3"), pstr("B", "4"), pstr("é", "b"), pstr("あ", "ab")], vec!['a', 'b', 'c', 'é', 'あ']),
            (vec![], vec!['a', 'あ']),
        ],
        _ => vec![(vec![], neo_chars())],
    };
    let n = if ctx.thorough { 60 } else { 12 };
    if matches!(which, "converter" | "eliminator" | "reducer" | "ligature") {
        for _ in 0..n {
            let mut pool: Vec<char> = (0..5).map(|_| if ctx.rng.chance(3) && !ctx.chars.is_empty() { let i = ctx.rng.below(ctx.chars.len()); ctx.chars[i] } else if ctx.rng.chance(4) { ctx.rng.any_char() } else { *ctx.rng.pick(SPECIAL) }).collect();
            pool.dedup();
            let k = 1 + ctx.rng.below(pool.len());
            let l: L = match which {
                "converter" => { let m = 1 + ctx.rng.below(12); (0..m).map(|i| { let a = if i < k { pool[i] } else { ctx.rng.any_char() }; let b = *ctx.rng.pick(&pool); p2(a, b) }).collect() }
                "eliminator" => (0..k).map(|i| p1(pool[i])).collect(),
                "reducer" => vec![p1(pool[0])],
                _ => { let m = 1 + ctx.rng.below(7); let p3 = &pool[..pool.len().min(3)]; (0..m).map(|_| { let mut f = ctx.rng.text(p3, 3); if f.is_empty() && !ctx.rng.chance(5) { f = p3[0].to_string(); } let t = ctx.rng.text(p3, 3); (f, t) }).collect() }
            };
            let mut seen = std::collections::HashSet::new();
            let l: L = if which == "eliminator" { l } else { l.into_iter().filter(|p| seen.insert(p.0.clone())).collect() };
            pool.truncate(4);
            v.push((l, pool));
        }
    }
    v
}
fn neo_chars() -> Vec<char> { vec![' ', 'a', 'ー', '゛', 'カ', '~'] }

/// parameters of many sizes and of one kind of character each
fn sized_search(ctx: &mut Ctx, kind: &str, which: &str, share: f64) {
    let full = ctx.limit;
    let start = ctx.start;
    ctx.start = std::time::Instant::now();
    ctx.limit = full.mul_f64(share);
    let pools: Vec<Vec<char>> = vec![
        (0x21u8..0x7f).map(|c| c as char).collect(), (0x20u32..0x800).filter_map(char::from_u32).collect(), (0x3041u32..0x30ff).filter_map(char::from_u32).collect(),
        (0x4e00u32..0x5e00).filter_map(char::from_u32).collect(), (0x1f300u32..0x20300).filter_map(char::from_u32).collect(),
        (0..1500u32).filter_map(|i| char::from_u32([0x21 + i % 0x5e, 0xa1 + i, 0x3041 + i, 0x10000 + i * 7][(i % 4) as usize])).collect(), ctx.chars.clone(),
    ];
    let mut ls: Vec<usize> = gen::lengths(ctx).into_iter().filter(|l| *l <= 1200).collect();
    if !ctx.thorough { ls.retain(|l| *l <= 34 || l % 10 == 0 || *l <= 1030); }
    'all: for l in ls {
        for pool in &pools {
            if ctx.over() || ctx.start.elapsed() > ctx.limit { break 'all; }
            let mut pool = pool.clone();
            pool.dedup();
            if l > pool.len() || l == 0 { continue; }
            // the first ones, and a random choice
            for way in 0..2 {
                if way == 1 { for i in 0..l { let j = i + ctx.rng.below(pool.len() - i); pool.swap(i, j); } }
                let m = &pool[..l];
                let set: std::collections::HashSet<char> = m.iter().copied().collect();
                let list: L = match which {
                    "eliminator" => m.iter().map(|c| p1(*c)).collect(),
                    "converter" => set.iter().enumerate().map(|(i, c)| { let mut b = (*c, m[(i * 7 + 1) % l]); if i % 5 == 0 { b.1 = 'x'; } p2(b.0, b.1) }).collect(),
                    _ => { let mut seen = std::collections::HashSet::new(); (0..l).map(|i| { let (a, b) = (m[i], m[(i * 3 + 1) % l]); (if i % 3 == 0 { format!("{a}") } else { format!("{a}{b}") }, if i % 4 == 0 { String::new() } else { m[(i * 5 + 2) % l].to_string() }) }).filter(|p| seen.insert(p.0.clone())).collect() }
                };
                let others: String = pool[l..].iter().take(200).chain(SPECIAL).chain((0x20u8..0x7f).map(|c| c as char).collect::<Vec<_>>().iter()).collect();
                let own: String = m.iter().take(300).collect();
                let mixed: String = own.chars().zip(others.chars().cycle()).flat_map(|(a, b)| [a, b]).collect();
                for t in [own, others, mixed] { ctx.run(Case::new(kind).text(&t).strs(vec![which.to_string()]).lists(vec![list.clone()])); }
            }
        }
    }
    ctx.start = start;
    ctx.limit = full;
    ctx.stopped = false;
}

fn modifier_search(ctx: &mut Ctx, kind: &str, which: &str, share: f64) {
    let sized = if matches!(which, "converter" | "eliminator" | "ligature") { 0.2 } else { 0.0 };
    if sized > 0.0 { sized_search(ctx, kind, which, share * sized); }
    modifier_search_texts(ctx, kind, which, share * (1.0 - sized));
}
fn modifier_search_texts(ctx: &mut Ctx, kind: &str, which: &str, share: f64) {
    let ps = params(ctx, which);
    let end = ctx.start.elapsed().as_secs_f64() + ctx.limit.as_secs_f64() * share;
    let full = ctx.limit;
    let n = ps.len();
    for (i, (l, set)) in ps.into_iter().enumerate() {
        // every parameter gets its part of the remaining time
        let now = ctx.start.elapsed().as_secs_f64();
        if now >= end || ctx.stopped { break; }
        let part = (end - now) / (n - i) as f64 * if i < 2 { 2.0 } else { 1.0 };
        let saved = (ctx.start, ctx.evals);
        ctx.start = std::time::Instant::now();
        ctx.limit = std::time::Duration::from_secs_f64(part.min(end - now));
        // long ones
        if i < 2 { for &x in set.iter().take(2) { for n in [1usize << 16, (1 << 16) + 1, 70_000] {
            let s: String = std::iter::repeat(x).take(n).collect();
            for t in [format!("あ{s}a{x}{x}"), s] { ctx.run(Case::new(kind).text(&t).strs(vec![which.to_string()]).lists(vec![l.clone()])); }
        } } }
        texts(ctx, &set, &mut |ctx, t| {
            let c = Case::new(kind).text(t).strs(vec![which.to_string()]).lists(vec![l.clone()]);
            ctx.run(c);
        });
        ctx.start = saved.0;
        ctx.limit = full;
        ctx.stopped = false;
    }
}

fn rand_items(ctx: &mut Ctx, max: usize) -> L {
    let n = if ctx.rng.chance(12) { ctx.rng.below(60) } else { ctx.rng.below(max + 1) };
    let wild = ctx.rng.chance(5);
    (0..n).map(|_| {
        let pool: &[char] = if wild { SPECIAL } else { &['a', 'b', 'あ', 'Ａ'] };
        let (x, y) = (if ctx.rng.chance(12) { 3 } else { 1 }, if ctx.rng.chance(12) { 3 } else { 1 });
        let s = |ctx: &mut Ctx, m: usize| -> String { if ctx.rng.chance(20) { String::new() } else { let k = 1 + ctx.rng.below(m); (0..k).map(|_| *ctx.rng.pick(pool)).collect() } };
        (s(ctx, x), s(ctx, y))
    }).collect()
}

pub fn rand_yaml(ctx: &mut Ctx) -> String {
    let mut mods = vec![
        "  character_converter:\n    \"a\": \"b\"\n    \"ｶ\": \"カ\"\n", "  character_eliminator: [\"~\", \"〜\"]\n", "  consecutive_character_reducer: \"ー\"\n",
        "  dotted_space_eliminator:\n", "  ligature_translator:\n    \"カ゛\": \"ガ\"\n    \"b\": \"c\"\n", "  trim:\n", "  neologdn:\n",
    ];
    let mut s = String::from("modifiers:\n");
    let n = 1 + ctx.rng.below(mods.len());
    for _ in 0..n { let i = ctx.rng.below(mods.len()); s.push_str(mods.remove(i)); }
    if ctx.rng.chance(2) { s.push_str("items:\n  - from: \"c\"\n    to: \"d\"\n  - from: \"　\"\n    to: \" \"\n"); }
    s
}

fn ops_search(ctx: &mut Ctx, kind: &str) {
    let set = vec![' ', 'a', 'ー', '゛', 'カ', 'ｶ', '~', '＝', 'Ａ', 'b', 'c', '　'];
    let fixed: Vec<Vec<&str>> = vec![vec![], vec!["preset"], vec!["neologdn"], vec!["preset", "neologdn"], vec!["neologdn", "preset"], vec!["table:0"], vec!["table:0", "table:1"], vec!["table:1", "table:0"],
        vec!["preset", "table:0", "neologdn"], vec!["table:0", "preset", "table:1"], vec!["preset", "preset"], vec!["table:0", "table:1", "table:2", "table:0"],
        vec!["table:9"], vec!["table:9", "table:9"], vec!["table:0", "table:9", "table:1"], vec!["table:0", "table:0"], vec!["neologdn", "neologdn"], vec!["table:3"], vec!["neologdn", "table:1", "neologdn"]];
    let lists = vec![vec![p2('a', 'b'), p2('c', 'a')], vec![p2('b', 'c')], vec![p2(' ', 'ー'), p2('c', ' ')], vec![p2('a', 'a')]];
    // many modifiers
    let mut ls = gen::lengths(ctx);
    ls.retain(|&l| l <= 1100);
    for l in ls {
        let mut strs = vec!["ops".to_string()];
        strs.extend((0..l).map(|i| format!("table:{}", i % 3)));
        ctx.run(Case::new(kind).text("abc a").strs(strs).lists(lists.clone()));
    }
    for f in &fixed {
        for flag in [false, true] {
            let mut strs = vec!["ops".to_string()];
            strs.extend(f.iter().map(|s| s.to_string()));
            gen::exhaustive(&['a', 'b', 'c'], 3, &mut |t| { ctx.run(Case::new(kind).text(t).strs(strs.clone()).lists(lists.clone()).flag(flag)); true });
            for t in ["", "ｶﾞａー ーー ~ b", "カ゛＝ a  b ", "  ａ  ｂ  "] { ctx.run(Case::new(kind).text(t).strs(strs.clone()).lists(lists.clone()).flag(flag)); }
        }
    }
    let ls = gen::lengths(ctx);
    for l in ls {
        if l > 20000 || ctx.over_now() { break; }
        ctx.run(Case::new(kind).text(&"aｶ ".repeat(l)).strs(vec!["ops".into(), "table:0".into(), "preset".into()]).lists(lists.clone()));
    }
    while !ctx.over_now() {
        let mut strs = vec!["ops".to_string()];
        if ctx.rng.chance(3) { let y = rand_yaml(ctx); strs.push(format!("file:{y}")); }
        let n = ctx.rng.below(6);
        let nl = 3;
        for _ in 0..n { strs.push(match ctx.rng.below(60) { 0 => "preset".into(), 1 => "neologdn".into(), _ => format!("table:{}", ctx.rng.below(nl)) }); }
        let lists: Vec<L> = (0..nl).map(|_| { let n = ctx.rng.below(5); (0..n).map(|_| { let (a, b) = (*ctx.rng.pick(&set), *ctx.rng.pick(&set)); p2(a, b) }).collect() }).collect();
        for _ in 0..4 { let t = ctx.rng.text(&set, 14); let flag = ctx.rng.chance(2); ctx.run(Case::new(kind).text(&t).strs(strs.clone()).lists(lists.clone()).flag(flag)); }
    }
}

pub fn search(ctx: &mut Ctx) {
    match ctx.prop.clone().as_str() {
        "C01" => modifier_search(ctx, "converter", "converter", 1.0),
        "C02" => modifier_search(ctx, "eliminator", "eliminator", 1.0),
        "C03" => modifier_search(ctx, "reducer", "reducer", 1.0),
        "C04" => modifier_search(ctx, "dotted", "dotted", 1.0),
        "C05" => {
            let full = ctx.limit;
            let start = ctx.start;
            ctx.limit = full.mul_f64(0.2);
            order_search(ctx);
            ctx.limit = full;
            ctx.stopped = false;
            ctx.start = start;
            modifier_search(ctx, "ligature", "ligature", 1.0);
        }
        "C06" => modifier_search(ctx, "trim", "trim", 1.0),
        "C07" => ops_search(ctx, "pipeline"),
        "C08" => {
            for m in ["converter", "eliminator", "reducer", "dotted", "ligature", "trim", "neologdn"] { modifier_search(ctx, "same", m, 0.11); }
            ops_search(ctx, "same");
        }
        "C09" => for m in ["converter", "reducer", "trim"] { modifier_search(ctx, "positions", m, 0.33); },
        "C10" => neologdn_search(ctx),
        "C11" => algebra_search(ctx),
        "C12" => preset_search(ctx),
        _ => config::search(ctx),
    }
}

/// strings whose order depends on what is compared: characters, bytes, UTF-16 units, lengths, case
fn order_strings() -> Vec<String> {
    let mut v: Vec<String> = SPECIAL.iter().map(|c| c.to_string()).collect();
    let set = ['a', 'B', 'あ', '\u{ff5e}', '😀'];
    gen::exhaustive(&set, 2, &mut |s| { if !s.is_empty() { v.push(s.to_string()); } true });
    v.extend(["aaa", "aab", "aaあ", "ああa", "10", "9", "010", "Ab", "aB", "e\u{301}", "\u{301}"].map(String::from));
    v.sort();
    v.dedup();
    v
}
/// for every two of them: the pair that comes first decides what the other one finds
fn order_search(ctx: &mut Ctx) {
    let v = order_strings();
    for (i, x) in v.iter().enumerate() { for y in &v[i + 1..] {
        if ctx.stopped { return; }
        let t = format!("{x}|{y}");
        ctx.run(Case::new("ligature").text(&t).strs(vec!["ligature".into()]).lists(vec![vec![pstr(x, y), pstr(y, "q")]]));
        ctx.run(Case::new("ligature").text(&t).strs(vec!["ligature".into()]).lists(vec![vec![pstr(y, x), pstr(x, "q")]]));
    } }
}

fn neologdn_search(ctx: &mut Ctx) {
    let m = o::neologdn_map();
    let k = o::neologdn_kana();
    let mut flag = 0usize;
    let mut f = |ctx: &mut Ctx, t: &str| { flag += 1; ctx.run(Case::new("neologdn").text(t).flag(flag % 4096 == 1)); };
    // every character of the map, every kana pair, in several surroundings
    let mut cs: Vec<char> = m.keys().copied().collect();
    cs.extend("~∼∾〜〰～＝ー゛゜".chars());
    cs.sort();
    for c in &cs { for s in [format!("{c}"), format!("{c}{c}"), format!("a {c} b"), format!("{c} {c}"), format!("か{c}゛"), format!("ー{c}ー")] { f(ctx, &s); } }
    for (p, t) in &k { for s in [p.clone(), format!("{p}{p}"), format!("{p}゛"), format!("a {p} {t} b"), format!("{t}゛{t}゜"), p.chars().rev().collect::<String>()] { f(ctx, &s); } }
    for a in 0x20u32..0x3100 { if let Some(c) = char::from_u32(a) { f(ctx, &format!("a{c}b")); } }
    for a in 0xff00u32..0x10000 { if let Some(c) = char::from_u32(a) { f(ctx, &format!("a{c}ー")); } }
    let full = ctx.limit;
    let start = ctx.start;
    for set in [vec![' ', 'a', 'ー', '~'], vec!['カ', '゛', '゜', ' ', 'ハ'], vec!['ｶ', 'ﾞ', 'ﾊ', 'ﾟ', ' '], vec!['－', 'ｰ', ' ', 'Ａ', '〜'], vec!['ー', '―', ' ', '9', '＝']] {
        ctx.start = std::time::Instant::now();
        ctx.limit = full / 5;
        ctx.evals = ctx.evals.min(300_000);
        texts(ctx, &set, &mut f);
    }
    ctx.start = start;
    ctx.limit = full;
}

fn algebra_search(ctx: &mut Ctx) {
    let u = vec![pstr("a", "x"), pstr("b", "x"), pstr("a", "y"), pstr("", "x")];
    // all triples of lists of at most two items over four
    let mut small: Vec<L> = vec![vec![]];
    for a in &u { small.push(vec![a.clone()]); for b in &u { small.push(vec![a.clone(), b.clone()]); } }
    for a in &small { for b in &small { for d in small.iter().take(if ctx.thorough { 99 } else { 9 }) { ctx.run(Case::new("algebra").lists(vec![a.clone(), b.clone(), d.clone()])); } } }
    // every two strings, as sources and as targets of the same source
    let v = order_strings();
    for (i, x) in v.iter().enumerate() { for y in &v[i + 1..] {
        if ctx.start.elapsed() > ctx.limit.mul_f64(0.3) { break; }
        let (a, b): (L, L) = if i % 3 == 0 { (vec![pstr("k", y)], vec![pstr("k", x)]) } else { (vec![pstr(y, "k")], vec![pstr(x, "k")]) };
        ctx.run(Case::new("algebra").lists(vec![a, b, vec![]]));
    } }
    // many items
    for n in gen::lengths(ctx) {
        if n > 3000 || ctx.over_now() { break; }
        let big: L = (0..n).map(|i| (char::from_u32(0x4e00 + (i * 7 % 3001) as u32).unwrap().to_string(), if i % 2 == 0 { "x".into() } else { "y".into() })).collect();
        let half: L = big.iter().step_by(2).cloned().collect();
        let dup: L = big.iter().chain(half.iter()).cloned().collect();
        if n <= 300 || n % 64 == 0 { ctx.run(Case::new("algebra").lists(vec![big.clone(), half.clone(), vec![]])); ctx.run(Case::new("algebra").lists(vec![dup, half, big])); }
    }
    while !ctx.over_now() {
        let mut l: Vec<L> = (0..3).map(|_| rand_items(ctx, 6)).collect();
        if ctx.rng.chance(2) { let k = ctx.rng.below(l[0].len() + 1); let x: L = l[0][..k].to_vec(); l[1].extend(x.clone()); if ctx.rng.chance(2) { l[2].extend(x); } }
        ctx.run(Case::new("algebra").lists(l));
    }
}

fn preset_search(ctx: &mut Ctx) {
    for t in ["consts", "digits", "punctuations", "alphabets", "kanas", "cjk", "all", "builder"] { ctx.run(Case::new("preset").text(t)); }
    let mut k = 0;
    let mut f = |ctx: &mut Ctx, s: String| { k += 1; ctx.run(Case::new("preset").text("text").strs(vec![s]).flag(k % 8192 == 7)); };
    for c in (0..0x110000u32).filter_map(char::from_u32) { if c as u32 > 0x3400 && (c as u32) < 0xf000 || c as u32 > 0x10100 { if c as u32 % 97 != 0 { continue; } } f(ctx, c.to_string()); }
    let set: Vec<char> = crate::tables::rows().iter().filter_map(|r| o::first(&r.from)).collect();
    while !ctx.over_now() { let s = ctx.rng.text(&set, 30); f(ctx, s); if ctx.evals > 150_000 && !ctx.thorough { break; } }
}
