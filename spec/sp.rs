// Specification functions: what the operations of chanoma mean. They are the oracle of the properties.
use vstd::prelude::*;
use crate::ext::*;
use crate::vx::*;

// ---- UTF-8 lengths ------------------------------------------------------------------------------------
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// bytes in the first n characters
pub open spec fn blen(s: Seq<char>, n: int) -> nat decreases n { if n <= 0 { 0 } else { blen(s, n - 1) + clen(s[n - 1]) } }
pub open spec fn slen_ok(s: Seq<char>) -> bool { s.len() <= isize::MAX && blen(s, s.len() as int) <= isize::MAX }
pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { rep(s, (n - 1) as nat) + s } }
pub open spec fn alnum(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') }

// ---- order on strings (by code point, which is the order of their UTF-8 bytes) ------------------------------
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) }
    else { str_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn pair_lt(a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)) -> bool { str_lt(a.0, b.0) || (a.0 == b.0 && str_lt(a.1, b.1)) }
pub open spec fn pair_le(a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)) -> bool { a == b || pair_lt(a, b) }

// ---- modifiers ------------------------------------------------------------------------------------------
/// character converter: every character that is a key becomes its value, every other character stays
pub open spec fn conv1(m: Map<char, char>, c: char) -> char { if m.contains_key(c) { m[c] } else { c } }
pub open spec fn conv(m: Map<char, char>, s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| conv1(m, s[i])) }
/// character eliminator
pub open spec fn elim(k: Set<char>, s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else if k.contains(s[n - 1]) { elim(k, s, n - 1) } else { elim(k, s, n - 1).push(s[n - 1]) }
}
/// consecutive character reducer: of a run of c only the first character stays
pub open spec fn reduce(c: char, s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else if s[n - 1] == c && n >= 2 && s[n - 2] == c { reduce(c, s, n - 1) } else { reduce(c, s, n - 1).push(s[n - 1]) }
}
/// where the run of c that ends right before n starts (n when there is none)
pub open spec fn run_start(c: char, s: Seq<char>, n: int) -> int decreases n {
    if n <= 0 { 0 } else if s[n - 1] == c { run_start(c, s, n - 1) } else { n }
}
/// the last character among the first n that is no space (-1 when there is none)
pub open spec fn last_ns(s: Seq<char>, n: int) -> int decreases n {
    if n <= 0 { -1 } else if s[n - 1] != ' ' { n - 1 } else { last_ns(s, n - 1) }
}
/// dotted space eliminator: a run of spaces between two ASCII letters or digits becomes one space, every other space goes
pub open spec fn dotted(s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() }
    else if s[n - 1] == ' ' { dotted(s, n - 1) }
    else if n >= 2 && s[n - 2] == ' ' && alnum(s[n - 1]) && last_ns(s, n - 1) >= 0 && alnum(s[last_ns(s, n - 1)]) { dotted(s, n - 1).push(' ').push(s[n - 1]) }
    else { dotted(s, n - 1).push(s[n - 1]) }
}
/// replace every occurrence of f, from left to right without overlap
pub open spec fn repl(s: Seq<char>, f: Seq<char>, t: Seq<char>) -> Seq<char> decreases s.len() {
    if f.len() == 0 { if s.len() == 0 { t } else { t + seq![s[0]] + repl(s.skip(1), f, t) } }
    else if s.len() < f.len() { s }
    else if s.take(f.len() as int) == f { t + repl(s.skip(f.len() as int), f, t) }
    else { seq![s[0]] + repl(s.skip(1), f, t) }
}
pub open spec fn lig(p: Seq<(Seq<char>, Seq<char>)>, s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { s } else { repl(lig(p, s, n - 1), p[n - 1].0, p[n - 1].1) }
}
pub open spec fn has_entry(m: Map<String, String>, e: (Seq<char>, Seq<char>)) -> bool { exists|k: String| #[trigger] m.contains_key(k) && k@ == e.0 && m[k]@ == e.1 }
/// p is the list of the entries of m, ascending by key
pub open spec fn sorted_entries(p: Seq<(Seq<char>, Seq<char>)>, m: Map<String, String>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> str_lt((#[trigger] p[i]).0, (#[trigger] p[j]).0)
    &&& forall|i: int| 0 <= i < p.len() ==> has_entry(m, #[trigger] p[i])
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> p.contains((k@, m[k]@))
}
pub open spec fn entries(m: Map<String, String>) -> Seq<(Seq<char>, Seq<char>)> { choose|p: Seq<(Seq<char>, Seq<char>)>| sorted_entries(p, m) }
pub open spec fn ligature(m: Map<String, String>, s: Seq<char>) -> Seq<char> { lig(entries(m), s, entries(m).len() as int) }
/// how many characters c there are at the start / at the end
pub open spec fn lead(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() > 0 && s[0] == c { 1 + lead(s.skip(1), c) } else { 0 } }
pub open spec fn trail(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() > 0 && s.last() == c { 1 + trail(s.drop_last(), c) } else { 0 } }
pub open spec fn trim_start_s(s: Seq<char>, c: char) -> Seq<char> { s.skip(lead(s, c) as int) }
pub open spec fn trim_end_s(s: Seq<char>, c: char) -> Seq<char> { s.take(s.len() - trail(s, c)) }
pub open spec fn trim_s(s: Seq<char>, c: char) -> Seq<char> { trim_end_s(trim_start_s(s, c), c) }

// ---- positions -------------------------------------------------------------------------------------------
#[verifier::ext_equal]
pub struct PosV { pub from: Seq<char>, pub to: Seq<char>, pub index: int, pub length: int, pub utf8_index: int, pub utf8_length: int }
pub open spec fn pv(p: crate::position::Position) -> PosV {
    PosV { from: p.from@, to: p.to@, index: p.index as int, length: p.length as int, utf8_index: p.utf8_index as int, utf8_length: p.utf8_length as int }
}
pub open spec fn pvs(v: Seq<crate::position::Position>) -> Seq<PosV> { Seq::new(v.len(), |i: int| pv(v[i])) }
/// the entry for the characters a..b of s, replaced by `to`: byte offset and length, character offset and length
pub open spec fn posat(s: Seq<char>, a: int, b: int, to: Seq<char>) -> PosV {
    PosV { from: s.subrange(a, b), to: to, index: blen(s, a) as int, length: blen(s, b) - blen(s, a), utf8_index: a, utf8_length: b - a }
}
/// the characters that are converted, in the order in which they occur
pub open spec fn conv_idx(m: Map<char, char>, s: Seq<char>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if m.contains_key(s[n - 1]) { conv_idx(m, s, n - 1).push(n - 1) } else { conv_idx(m, s, n - 1) }
}
pub open spec fn conv_pos(m: Map<char, char>, s: Seq<char>) -> Seq<PosV> {
    Seq::new(conv_idx(m, s, s.len() as int).len(), |k: int| { let i = conv_idx(m, s, s.len() as int)[k]; posat(s, i, i + 1, seq![m[s[i]]]) })
}
/// the runs of two or more c that end within the first n characters
pub open spec fn run_pos(c: char, s: Seq<char>, n: int) -> Seq<PosV> decreases n {
    if n <= 0 { Seq::empty() }
    else if s[n - 1] == c { run_pos(c, s, n - 1) }
    else { close_run(c, s, n - 1, run_pos(c, s, n - 1)) }
}
pub open spec fn close_run(c: char, s: Seq<char>, n: int, p: Seq<PosV>) -> Seq<PosV> {
    if n - run_start(c, s, n) >= 2 { p.push(posat(s, run_start(c, s, n), n, seq![c])) } else { p }
}
pub open spec fn reduce_pos(c: char, s: Seq<char>) -> Seq<PosV> { close_run(c, s, s.len() as int, run_pos(c, s, s.len() as int)) }
/// the trimmed spaces: at most one entry for the start and one for the end
pub open spec fn trim_pos(s: Seq<char>) -> Seq<PosV> {
    let a = lead(s, ' ') as int;
    let b = s.len() - trail(trim_start_s(s, ' '), ' ');
    (if a > 0 { seq![posat(s, 0, a, Seq::empty())] } else { Seq::empty() })
        + (if b < s.len() { seq![posat(s, b, s.len() as int, Seq::empty())] } else { Seq::empty() })
}
pub open spec fn occ(s: Seq<char>, n: int, c: char) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else if s[n-1] == c { occ(s, n-1, c).push((n-1) as usize) } else { occ(s, n-1, c) }
}
pub open spec fn occb(s: Seq<char>, n: int, c: char) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else if s[n-1] == c { occb(s, n-1, c).push(blen(s, n-1) as usize) } else { occb(s, n-1, c) }
}
pub proof fn lemma_occ_sound(s: Seq<char>, n: int, c: char)
    requires 0 <= n <= s.len(), s.len() <= usize::MAX
    ensures 
      occ(s,n,c).len() == occb(s,n,c).len(),
      forall|j: int| 0 <= j < occ(s,n,c).len() ==> (#[trigger] occ(s,n,c)[j]) < n && s[occ(s,n,c)[j] as int] == c,
      forall|j: int| 0 <= j < occ(s,n,c).len() ==> (#[trigger] occb(s,n,c)[j]) == blen(s, occ(s,n,c)[j] as int) as usize,
      forall|j: int, k: int| 0 <= j < k < occ(s,n,c).len() ==> (#[trigger] occ(s,n,c)[j]) < (#[trigger] occ(s,n,c)[k]),
      forall|i: int| 0 <= i < n && #[trigger] s[i] == c ==> exists|j: int| 0 <= j < occ(s,n,c).len() && occ(s,n,c)[j] == i,
    decreases n
{
    if n > 0 { 
       lemma_occ_sound(s, n-1, c); 
       let o = occ(s,n,c); let p = occ(s,n-1,c);
       assert forall|i: int| 0 <= i < n && #[trigger] s[i] == c implies exists|j: int| 0 <= j < o.len() && o[j] == i by {
          if i == n-1 { assert(o[o.len()-1] == i); } else {
             let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
             assert(o[j] == i);
          }
       }
    }
}
pub open spec fn idx_ok(m: HashMap<char, Vec<usize>>, s: Seq<char>, n: int) -> bool {
    &&& forall|c: char| #[trigger] m@.contains_key(c) <==> occ(s, n, c).len() > 0
    &&& forall|c: char| #[trigger] m@.contains_key(c) ==> m@[c]@ == occ(s, n, c)
}
pub open spec fn cmp_usize(a: usize, b: usize) -> std::cmp::Ordering { if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }

// ---- tables ------------------------------------------------------------------------------------------------
pub type ItemV = (Seq<char>, Seq<char>);
pub open spec fn iv(i: crate::corr::item::Item) -> ItemV { (i.from@, i.to@) }
pub open spec fn ivs(v: Seq<crate::corr::item::Item>) -> Seq<ItemV> { Seq::new(v.len(), |i: int| iv(v[i])) }
/// strictly ascending: in particular no item occurs twice
pub open spec fn strictly_asc(v: Seq<ItemV>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> pair_lt(v[i], v[j]) }
pub open spec fn asc_le(v: Seq<ItemV>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> pair_le(v[i], v[j]) }
/// r holds exactly the items of a and of b, each once, in ascending order
pub open spec fn is_union(r: Seq<ItemV>, a: Seq<ItemV>, b: Seq<ItemV>) -> bool {
    strictly_asc(r) && forall|x: ItemV| #[trigger] r.contains(x) <==> a.contains(x) || b.contains(x)
}
pub open spec fn union_items(a: Seq<ItemV>, b: Seq<ItemV>) -> Seq<ItemV> { choose|r: Seq<ItemV>| is_union(r, a, b) }
/// the items of a that are not in b, in their order
pub open spec fn without(a: Seq<ItemV>, b: Seq<ItemV>, n: int) -> Seq<ItemV> decreases n {
    if n <= 0 { Seq::empty() } else if b.contains(a[n - 1]) { without(a, b, n - 1) } else { without(a, b, n - 1).push(a[n - 1]) }
}
/// r holds exactly the items of a that are not in b, as often as a does, in ascending order
pub open spec fn is_diff(r: Seq<ItemV>, a: Seq<ItemV>, b: Seq<ItemV>) -> bool {
    asc_le(r) && perm_of(without(a, b, a.len() as int), r)
}
/// the character map of a list of items: first character to first character, items with an empty side do not count, a later item replaces an earlier one
pub open spec fn tmap_on(m: Map<char, char>, v: Seq<ItemV>, n: int) -> Map<char, char> decreases n {
    if n <= 0 { m }
    else if v[n - 1].0.len() > 0 && v[n - 1].1.len() > 0 { tmap_on(m, v, n - 1).insert(v[n - 1].0[0], v[n - 1].1[0]) }
    else { tmap_on(m, v, n - 1) }
}
pub open spec fn tmap(v: Seq<ItemV>) -> Map<char, char> { tmap_on(Map::empty(), v, v.len() as int) }
/// the items for which `has` holds, each once, in ascending order
pub open spec fn is_table(r: Seq<ItemV>, has: spec_fn(ItemV) -> bool) -> bool { strictly_asc(r) && forall|x: ItemV| #[trigger] r.contains(x) == has(x) }
pub open spec fn table_of(has: spec_fn(ItemV) -> bool) -> Seq<ItemV> { choose|r: Seq<ItemV>| is_table(r, has) }
pub open spec fn ivs_ref(v: Seq<&crate::corr::item::Item>) -> Seq<ItemV> { Seq::new(v.len(), |i: int| iv(*v[i])) }
pub open spec fn tables_map(t: Seq<crate::table::Table>, n: int) -> Map<char, char> decreases n {
    if n <= 0 { Map::empty() } else { tmap_on(tables_map(t, n - 1), t[n - 1].vx_items(), t[n - 1].vx_items().len() as int) }
}

// ---- pipelines ------------------------------------------------------------------------------------------------
/// the text after the first n modifiers
pub open spec fn pipeline(m: Seq<crate::modifier_kind::ModifierKind>, s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { s } else { crate::modifier::Modifier::vx_text(&m[n - 1], pipeline(m, s, n - 1)) }
}
/// record i describes what modifier i did with the text that modifiers 0..i left
pub open spec fn step_record(r: crate::modifier::ModifiedRecord, m: Seq<crate::modifier_kind::ModifierKind>, s: Seq<char>, i: int) -> bool {
    &&& r.text@ == pipeline(m, s, i + 1)
    &&& pvs(r.positions@) == crate::modifier::Modifier::vx_pos(&m[i], pipeline(m, s, i))
    &&& r.kind == m[i]
}
pub open spec fn is_converter(m: crate::modifier_kind::ModifierKind, map: Map<char, char>) -> bool {
    match m { crate::modifier_kind::ModifierKind::CharacterConverter(c) => c.items_map@ == map, _ => false }
}
/// one more modifier at the end, the others as before
pub open spec fn pushed(a: Seq<crate::modifier_kind::ModifierKind>, b: Seq<crate::modifier_kind::ModifierKind>) -> bool {
    b.len() == a.len() + 1 && b.drop_last() =~= a
}
/// neologdn: convert, reduce ー, drop dotted spaces, drop tildes, join kana with their marks, drop dotted spaces
pub open spec fn neologdn(m: Map<char, char>, tildes: Set<char>, kanas: Map<String, String>, s: Seq<char>) -> Seq<char> {
    let a = conv(m, s);
    let b = reduce('ー', a, a.len() as int);
    let c = dotted(b, b.len() as int);
    let d = elim(tildes, c, c.len() as int);
    let e = ligature(kanas, d);
    dotted(e, e.len() as int)
}
