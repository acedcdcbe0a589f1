//! What the operations of chanoma should do, written for this harness alone.
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub struct Pos { pub from: String, pub to: String, pub index: usize, pub length: usize, pub utf8_index: usize, pub utf8_length: usize }

pub fn pos_at(s: &[char], a: usize, b: usize, to: &str) -> Pos {
    let bl = |n: usize| s[..n].iter().map(|c| c.len_utf8()).sum::<usize>();
    Pos { from: s[a..b].iter().collect(), to: to.to_string(), index: bl(a), length: bl(b) - bl(a), utf8_index: a, utf8_length: b - a }
}
pub fn convert(m: &HashMap<char, char>, s: &str) -> String { s.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect() }
pub fn convert_pos(m: &HashMap<char, char>, s: &str) -> Vec<Pos> {
    let mut byte = 0;
    s.chars().enumerate().filter_map(|(i, c)| {
        let at = byte;
        byte += c.len_utf8();
        m.get(&c).map(|t| Pos { from: c.to_string(), to: t.to_string(), index: at, length: c.len_utf8(), utf8_index: i, utf8_length: 1 })
    }).collect()
}
pub fn eliminate(k: &[char], s: &str) -> String { s.chars().filter(|c| !k.contains(c)).collect() }
pub fn reduce(c: char, s: &str) -> String {
    let mut r = String::new();
    let mut prev = None;
    for x in s.chars() { if !(x == c && prev == Some(c)) { r.push(x); } prev = Some(x); }
    r
}
pub fn reduce_pos(c: char, s: &str) -> Vec<Pos> {
    let v: Vec<char> = s.chars().collect();
    let mut r = vec![];
    let mut i = 0;
    let mut byte = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == c { j += 1; }
        let n = j - i;
        if n >= 2 { r.push(Pos { from: v[i..j].iter().collect(), to: c.to_string(), index: byte, length: n * c.len_utf8(), utf8_index: i, utf8_length: n }); }
        if n == 0 { byte += v[i].len_utf8(); i += 1; } else { byte += n * c.len_utf8(); i = j; }
    }
    r
}
fn an(c: char) -> bool { matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9') }
pub fn dotted(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut r = String::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] != ' ' { r.push(v[i]); i += 1; continue; }
        let mut j = i;
        while j < v.len() && v[j] == ' ' { j += 1; }
        if i > 0 && j < v.len() && an(v[i - 1]) && an(v[j]) { r.push(' '); }
        i = j;
    }
    r
}
pub fn replace(s: &[char], f: &[char], t: &[char]) -> Vec<char> {
    let mut r = vec![];
    if f.is_empty() {
        r.extend(t);
        for c in s { r.push(*c); r.extend(t); }
        return r;
    }
    let mut i = 0;
    while i < s.len() {
        if s.len() - i >= f.len() && s[i..i + f.len()] == *f { r.extend(t); i += f.len(); } else { r.push(s[i]); i += 1; }
    }
    r
}
pub fn ligature(m: &BTreeMap<String, String>, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for (f, t) in m {
        v = replace(&v, &f.chars().collect::<Vec<_>>(), &t.chars().collect::<Vec<_>>());
    }
    v.into_iter().collect()
}
pub fn trim(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let a = v.iter().take_while(|c| **c == ' ').count();
    let b = v.iter().rev().take_while(|c| **c == ' ').count();
    if a == v.len() { String::new() } else { v[a..v.len() - b].iter().collect() }
}
pub fn trim_pos(s: &str) -> Vec<Pos> {
    let v: Vec<char> = s.chars().collect();
    let a = v.iter().take_while(|c| **c == ' ').count();
    let mut r = vec![];
    if a > 0 { r.push(pos_at(&v, 0, a, "")); }
    if a < v.len() {
        let b = v.iter().rev().take_while(|c| **c == ' ').count();
        if b > 0 { r.push(pos_at(&v, v.len() - b, v.len(), "")); }
    }
    r
}
pub fn first(s: &str) -> Option<char> { s.chars().next() }
/// the character map of a list of items
pub fn table_map(tables: &[Vec<(String, String)>]) -> HashMap<char, char> {
    let mut m = HashMap::new();
    for t in tables { for (f, to) in t { if let (Some(f), Some(to)) = (first(f), first(to)) { m.insert(f, to); } } }
    m
}
pub fn union(a: &[(String, String)], b: &[(String, String)]) -> Vec<(String, String)> {
    let s: std::collections::BTreeSet<(String, String)> = a.iter().chain(b).cloned().collect();
    s.into_iter().collect()
}
pub fn minus(a: &[(String, String)], b: &[(String, String)]) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = a.iter().filter(|x| !b.contains(x)).cloned().collect();
    v.sort();
    v
}
pub fn neologdn_map() -> HashMap<char, char> {
    let mut t: Vec<(String, String)> = crate::tables::preset().into_iter().filter(|(f, _)| f != "＝").collect();
    for c in "﹣ｰ—―─━".chars() { t.push((c.to_string(), "ー".into())); }
    for c in "˗֊‐‑‒–⁃⁻₋−－".chars() { t.push((c.to_string(), "-".into())); }
    t.sort();
    table_map(&[t])
}
pub fn neologdn_kana() -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let a = "かきくけこさしすせそたちつてとはひふへほうカキクケコサシスセソタチツテトハヒフヘホウ";
    let b = "がぎぐげござじずぜぞだぢづでどばびぶべぼゔガギグゲゴザジズゼゾダヂヅデドバビブベボヴ";
    for (x, y) in a.chars().zip(b.chars()) { m.insert(format!("{x}゛"), y.to_string()); }
    for (x, y) in "ハヒフヘホはひふへほ".chars().zip("パピプペポぱぴぷぺぽ".chars()) { m.insert(format!("{x}゜"), y.to_string()); }
    m
}
pub fn neologdn(m: &HashMap<char, char>, k: &BTreeMap<String, String>, s: &str) -> String {
    let s = convert(m, s);
    let s = reduce('ー', &s);
    let s = dotted(&s);
    let s = eliminate(&['~', '∼', '∾', '〜', '〰', '～'], &s);
    dotted(&ligature(k, &s))
}
