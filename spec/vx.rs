// The library model: contracts of the std functions that the extracted code calls. Everything marked
// external_body / axiom / assume_specification in this file is trusted (listed in DESIGN.md and in the evidence).
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use crate::sp::*;
use crate::ext::*;

// ---- hashing: derived / std Hash+Eq are structural ------------------------------------------------
pub broadcast axiom fn ax_char_key() ensures #[trigger] obeys_key_model::<char>();
pub broadcast axiom fn ax_string_key() ensures #[trigger] obeys_key_model::<String>();
//@needs corr::item::Item: Hash, PartialEq, Eq
pub broadcast axiom fn ax_item_key() ensures #[trigger] obeys_key_model::<crate::corr::item::Item>();
//@end
/// a String is its characters
pub broadcast axiom fn ax_string_ext(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
/// a String never exceeds isize::MAX bytes
pub broadcast axiom fn ax_string_len(a: String) ensures slen_ok(#[trigger] a@);
pub broadcast axiom fn ax_str_len(a: &str) ensures slen_ok(#[trigger] a@);
pub broadcast group vx_axioms { ax_char_key, ax_string_key, ax_item_key, lemma_rest0, ax_uni_num, ax_uni_alpha, ax_uni_white }
pub broadcast proof fn lemma_rest0<T>(it: VxIter<T>) requires it.pos() == 0 ensures #[trigger] it.rest() == it.seq() { assert(it.rest() =~= it.seq()); }

// ---- iterators: an iterator is the finite sequence of what it will still yield ------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { v: std::vec::IntoIter<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn rest(&self) -> Seq<T> { self.seq().skip(self.pos()) }
    #[verifier::external_body]
    pub fn vx_has_next(&self) -> (r: bool)
        ensures 0 <= self.pos() <= self.seq().len(), r == (self.pos() < self.seq().len())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_step(&mut self) -> (r: T)
        requires old(self).pos() < old(self).seq().len(),
        ensures final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos() + 1,
            0 <= old(self).pos(), r == old(self).seq()[old(self).pos()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<T>)
        ensures final(self).seq() == old(self).seq(), 0 <= old(self).pos() <= old(self).seq().len(),
            r.is_some() == (old(self).pos() < old(self).seq().len()),
            r.is_some() ==> final(self).pos() == old(self).pos() + 1 && r.unwrap() == old(self).seq()[old(self).pos()],
            r.is_none() ==> final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_last(self) -> (r: Option<T>)
        ensures 0 <= self.pos() <= self.seq().len(),
            r.is_some() == (self.pos() < self.seq().len()),
            r.is_some() ==> r.unwrap() == self.seq().last()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize)
        ensures r == self.seq().len() - self.pos()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>)
        ensures r.pos() == 0, r.seq().len() == self.seq().len() - self.pos(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 == i && r.seq()[i].1 == self.seq()[self.pos() + i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == self.rest().reverse()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain(self, o: VxIter<T>) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == self.rest() + o.rest()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == (if n <= self.rest().len() { self.rest().take(n as int) } else { self.rest() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == (if n <= self.rest().len() { self.rest().skip(n as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_nth(&mut self, n: usize) -> (r: Option<T>)
        ensures final(self).seq() == old(self).seq(), 0 <= old(self).pos() <= old(self).seq().len(),
            r.is_some() == (old(self).pos() + n < old(self).seq().len()),
            r.is_some() ==> final(self).pos() == old(self).pos() + n + 1 && r.unwrap() == old(self).seq()[old(self).pos() + n],
            r.is_none() ==> final(self).pos() == old(self).seq().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip<U, I: VxIntoIter<Item = U>>(self, o: I) -> (r: VxIter<(T, U)>)
        ensures r.pos() == 0, exists|i: VxIter<U>| #[trigger] o.vx_into_iter_ok(i)
            && r.seq().len() == (if self.rest().len() <= i.rest().len() { self.rest().len() } else { i.rest().len() })
            && forall|k: int| 0 <= k < r.seq().len() ==> #[trigger] r.seq()[k] == (self.rest()[k], i.rest()[k])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peekable(self) -> (r: Self)
        ensures r == self
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peek(&mut self) -> (r: Option<&T>)
        ensures *final(self) == *old(self), 0 <= old(self).pos() <= old(self).seq().len(),
            r.is_some() == (old(self).pos() < old(self).seq().len()),
            r.is_some() ==> *r.unwrap() == old(self).seq()[old(self).pos()],
    { unimplemented!() }
    pub fn vx_collect<C: VxCollect<T>>(self) -> (r: C)
        ensures C::vx_collect_ok(self.rest(), r)
    { C::vx_from_iter(self) }
}
impl<T> VxIter<Vec<T>> {
    #[verifier::external_body]
    pub fn vx_flatten(self) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == flat(self.rest())
    { unimplemented!() }
}
pub open spec fn flat<T>(s: Seq<Vec<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ }
}
pub trait VxOptRef<T> { 
    spec fn vx_or(self) -> Option<T>;
    fn vx_copied(self) -> (r: Option<T>) where Self: Sized ensures r == self.vx_or();
    fn vx_cloned(self) -> (r: Option<T>) where Self: Sized ensures r == self.vx_or();
}
impl<'a, T> VxOptRef<T> for Option<&'a T> {
    open spec fn vx_or(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
}
impl<'a, T> VxIter<&'a T> {
    /// Clone of the types that are iterated over is structural
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: VxIter<T>) where T: Clone
        ensures r.pos() == 0, r.seq().len() == self.rest().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == *self.rest()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: VxIter<T>) where T: Copy
        ensures r.pos() == 0, r.seq().len() == self.rest().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == *self.rest()[i]
    { unimplemented!() }
}
pub trait VxCollect<T>: Sized {
    spec fn vx_collect_ok(s: Seq<T>, c: Self) -> bool;
    fn vx_from_iter(it: VxIter<T>) -> (r: Self) ensures Self::vx_collect_ok(it.rest(), r);
}
impl VxCollect<char> for String {
    open spec fn vx_collect_ok(s: Seq<char>, c: String) -> bool { c@ == s }
    #[verifier::external_body]
    fn vx_from_iter(it: VxIter<char>) -> (r: String) { unimplemented!() }
}
impl<T> VxCollect<T> for Vec<T> {
    open spec fn vx_collect_ok(s: Seq<T>, c: Vec<T>) -> bool { c@ == s }
    #[verifier::external_body]
    fn vx_from_iter(it: VxIter<T>) -> (r: Vec<T>) { unimplemented!() }
}
impl<K, V> VxCollect<(K, V)> for HashMap<K, V> {
    open spec fn vx_collect_ok(s: Seq<(K, V)>, c: HashMap<K, V>) -> bool { obeys_key_model::<K>() ==> c@ == map_of(s, s.len() as int) }
    #[verifier::external_body]
    fn vx_from_iter(it: VxIter<(K, V)>) -> (r: HashMap<K, V>) { unimplemented!() }
}
impl<K> VxCollect<K> for HashSet<K> {
    open spec fn vx_collect_ok(s: Seq<K>, c: HashSet<K>) -> bool { obeys_key_model::<K>() ==> c@ == s.to_set() }
    #[verifier::external_body]
    fn vx_from_iter(it: VxIter<K>) -> (r: HashSet<K>) { unimplemented!() }
}
/// collecting pairs into a map: a later pair replaces an earlier one with the same key
pub open spec fn map_of<K, V>(s: Seq<(K, V)>, n: int) -> Map<K, V> decreases n {
    if n <= 0 { Map::empty() } else { map_of(s, n - 1).insert(s[n - 1].0, s[n - 1].1) }
}
/// collecting Results: the first error, or all values
pub open spec fn all_ok<T, E>(s: Seq<Result<T, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_ok() }
pub open spec fn ok_vals<T, E>(s: Seq<Result<T, E>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i]->Ok_0) }
impl<T, E, C: VxCollect<T>> VxCollect<Result<T, E>> for Result<C, E> {
    open spec fn vx_collect_ok(s: Seq<Result<T, E>>, c: Result<C, E>) -> bool {
        &&& c.is_ok() == all_ok(s)
        &&& c.is_ok() ==> C::vx_collect_ok(ok_vals(s), c->Ok_0)
    }
    #[verifier::external_body]
    fn vx_from_iter(it: VxIter<Result<T, E>>) -> (r: Result<C, E>) { unimplemented!() }
}

pub trait VxExtend<T> {
    spec fn vx_ext_ok(self, i: Seq<T>, r: Self) -> bool;
    fn vx_extend<I: VxIntoIter<Item = T>>(&mut self, i: I)
        ensures exists|x: VxIter<T>| x.pos() == 0 && #[trigger] i.vx_into_iter_ok(x) && (*old(self)).vx_ext_ok(x.seq(), *final(self));
}
impl<T> VxExtend<T> for Vec<T> {
    open spec fn vx_ext_ok(self, i: Seq<T>, r: Self) -> bool { r@ == self@ + i }
    #[verifier::external_body]
    fn vx_extend<I: VxIntoIter<Item = T>>(&mut self, i: I) { unimplemented!() }
}
impl VxExtend<char> for String {
    open spec fn vx_ext_ok(self, i: Seq<char>, r: Self) -> bool { r@ == self@ + i }
    #[verifier::external_body]
    fn vx_extend<I: VxIntoIter<Item = char>>(&mut self, i: I) { unimplemented!() }
}
impl<K: Eq + std::hash::Hash> VxExtend<K> for HashSet<K> {
    open spec fn vx_ext_ok(self, i: Seq<K>, r: Self) -> bool { obeys_key_model::<K>() ==> r@ == self@.union(i.to_set()) }
    #[verifier::external_body]
    fn vx_extend<I: VxIntoIter<Item = K>>(&mut self, i: I) { unimplemented!() }
}
impl<T> VxIntoIter for VxIter<T> { type Item = T;
    open spec fn vx_into_iter_ok(self, r: VxIter<T>) -> bool { r.seq() == self.rest() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();

pub trait VxIterable<'a> { type Item;
    spec fn vx_iter_ok(&'a self, r: VxIter<Self::Item>) -> bool;
    fn vx_iter(&'a self) -> (r: VxIter<Self::Item>) ensures r.pos() == 0, self.vx_iter_ok(r);
}
impl<'a, T: 'a> VxIterable<'a> for Vec<T> { type Item = &'a T;
    open spec fn vx_iter_ok(&'a self, r: VxIter<&'a T>) -> bool { r.seq().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i] }
    #[verifier::external_body]
    fn vx_iter(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<'a, T: 'a> VxIterable<'a> for [T] { type Item = &'a T;
    open spec fn vx_iter_ok(&'a self, r: VxIter<&'a T>) -> bool { r.seq().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i] }
    #[verifier::external_body]
    fn vx_iter(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<'a, T: 'a, const N: usize> VxIterable<'a> for [T; N] { type Item = &'a T;
    open spec fn vx_iter_ok(&'a self, r: VxIter<&'a T>) -> bool { r.seq().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i] }
    #[verifier::external_body]
    fn vx_iter(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
/// iterating a hash map yields every entry once, in an unspecified order
impl<'a, K: 'a, V: 'a> VxIterable<'a> for HashMap<K, V> { type Item = (&'a K, &'a V);
    open spec fn vx_iter_ok(&'a self, r: VxIter<(&'a K, &'a V)>) -> bool { obeys_key_model::<K>() ==> enum_map(r.seq(), self@) }
    #[verifier::external_body]
    fn vx_iter(&'a self) -> (r: VxIter<(&'a K, &'a V)>) { unimplemented!() }
}
pub open spec fn enum_map<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
}
pub trait VxIntoIter { type Item;
    spec fn vx_into_iter_ok(self, r: VxIter<Self::Item>) -> bool;
    fn vx_into_iter(self) -> (r: VxIter<Self::Item>) where Self: Sized ensures r.pos() == 0, self.vx_into_iter_ok(r);
}
impl<T> VxIntoIter for Vec<T> { type Item = T;
    open spec fn vx_into_iter_ok(self, r: VxIter<T>) -> bool { r.seq() == self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a Vec<T> { type Item = &'a T;
    open spec fn vx_into_iter_ok(self, r: VxIter<&'a T>) -> bool { r.seq().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i] }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a [T] { type Item = &'a T;
    open spec fn vx_into_iter_ok(self, r: VxIter<&'a T>) -> bool { r.seq().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i] }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<'a, K> VxIntoIter for &'a HashSet<K> { type Item = &'a K;
    open spec fn vx_into_iter_ok(self, r: VxIter<&'a K>) -> bool { obeys_key_model::<K>() ==> r.seq().no_duplicates() && (forall|k: K| #[trigger] self@.contains(k) <==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]) == k) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a K>) { unimplemented!() }
}
impl<'a, K, V> VxIntoIter for &'a HashMap<K, V> { type Item = (&'a K, &'a V);
    open spec fn vx_into_iter_ok(self, r: VxIter<(&'a K, &'a V)>) -> bool { obeys_key_model::<K>() ==> enum_map(r.seq(), self@) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<(&'a K, &'a V)>) { unimplemented!() }
}
impl<K> VxIntoIter for HashSet<K> { type Item = K;
    open spec fn vx_into_iter_ok(self, r: VxIter<K>) -> bool { obeys_key_model::<K>() ==> r.seq().no_duplicates() && r.seq().to_set() == self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<K>) { unimplemented!() }
}
impl VxIntoIter for std::ops::Range<usize> { type Item = usize;
    open spec fn vx_into_iter_ok(self, r: VxIter<usize>) -> bool {
        r.seq().len() == (if self.start <= self.end { self.end - self.start } else { 0 })
        && forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == self.start + i
    }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<usize>) { unimplemented!() }
}

// ---- strings -----------------------------------------------------------------------------------------
/// a pattern argument of the str functions: a char or a string
pub trait VxPat { spec fn vx_pat(&self) -> Seq<char>; }
impl VxPat for char { open spec fn vx_pat(&self) -> Seq<char> { seq![*self] } }
impl VxPat for &str { open spec fn vx_pat(&self) -> Seq<char> { (*self)@ } }
impl VxPat for &String { open spec fn vx_pat(&self) -> Seq<char> { (*self)@ } }

/// p stands in s at i
pub open spec fn sub_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub trait VxStr {
    spec fn vx_sv(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: VxIter<char>) ensures slen_ok(self.vx_sv()), r.seq() == self.vx_sv(), r.pos() == 0;
    fn vx_char_indices(&self) -> (r: VxIter<(usize, char)>) ensures slen_ok(self.vx_sv()), r.pos() == 0, r.seq().len() == self.vx_sv().len(),
        forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 == blen(self.vx_sv(), i) && r.seq()[i].1 == self.vx_sv()[i];
    fn vx_len(&self) -> (r: usize) ensures slen_ok(self.vx_sv()), r == blen(self.vx_sv(), self.vx_sv().len() as int);
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vx_sv().len() == 0);
    fn vx_trim_matches(&self, p: char) -> (r: &str) ensures slen_ok(self.vx_sv()), r@ == trim_s(self.vx_sv(), p);
    fn vx_trim_start_matches(&self, p: char) -> (r: &str) ensures slen_ok(self.vx_sv()), r@ == trim_start_s(self.vx_sv(), p);
    fn vx_trim_end_matches(&self, p: char) -> (r: &str) ensures slen_ok(self.vx_sv()), r@ == trim_end_s(self.vx_sv(), p);
    fn vx_repeat(&self, n: usize) -> (r: String)
        requires blen(self.vx_sv(), self.vx_sv().len() as int) * n <= isize::MAX
        ensures r@ == rep(self.vx_sv(), n as nat);
    fn vx_replace<A: VxPat, B: VxPat>(&self, from: A, to: B) -> (r: String) ensures r@ == repl(self.vx_sv(), from.vx_pat(), to.vx_pat());
    fn vx_as_str(&self) -> (r: &str) ensures r@ == self.vx_sv();
    fn vx_contains<A: VxPat>(&self, p: A) -> (r: bool) ensures r == (exists|i: int| #[trigger] sub_at(self.vx_sv(), p.vx_pat(), i));
    fn vx_starts_with<A: VxPat>(&self, p: A) -> (r: bool) ensures r == sub_at(self.vx_sv(), p.vx_pat(), 0);
    fn vx_ends_with<A: VxPat>(&self, p: A) -> (r: bool) ensures r == sub_at(self.vx_sv(), p.vx_pat(), self.vx_sv().len() - p.vx_pat().len());
}
impl VxStr for str {
    open spec fn vx_sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_char_indices(&self) -> (r: VxIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_matches(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<A: VxPat, B: VxPat>(&self, from: A, to: B) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<A: VxPat>(&self, p: A) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<A: VxPat>(&self, p: A) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<A: VxPat>(&self, p: A) -> (r: bool) { unimplemented!() }
}
impl VxStr for String {
    open spec fn vx_sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_char_indices(&self) -> (r: VxIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_matches(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<A: VxPat, B: VxPat>(&self, from: A, to: B) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<A: VxPat>(&self, p: A) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<A: VxPat>(&self, p: A) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<A: VxPat>(&self, p: A) -> (r: bool) { unimplemented!() }
}
pub trait VxString {
    fn vx_push_str(&mut self, s: &str);
    fn vx_add_assign(&mut self, s: &str);
}
impl VxString for String {
    #[verifier::external_body]
    fn vx_push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn vx_add_assign(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
// the Unicode classes, known only within ASCII
pub uninterp spec fn uni_num(c: char) -> bool;
pub uninterp spec fn uni_alpha(c: char) -> bool;
pub uninterp spec fn uni_white(c: char) -> bool;
pub open spec fn uni_alnum(c: char) -> bool { uni_alpha(c) || uni_num(c) }
pub broadcast axiom fn ax_uni_num(c: char) ensures (c as int) < 128 ==> (#[trigger] uni_num(c) == ('0' <= c <= '9'));
pub broadcast axiom fn ax_uni_alpha(c: char) ensures (c as int) < 128 ==> (#[trigger] uni_alpha(c) == ('a' <= c <= 'z' || 'A' <= c <= 'Z'));
pub broadcast axiom fn ax_uni_white(c: char) ensures (c as int) < 128 ==> (#[trigger] uni_white(c) == (c == ' ' || 9 <= c as int <= 13));
pub trait VxChar {
    spec fn vx_cv(&self) -> char;
    fn vx_len_utf8(&self) -> (r: usize) ensures r == clen(self.vx_cv());
    fn vx_encode_utf8<'a>(&self, b: &'a mut [u8; 4]) -> (r: &'a str) ensures r@ == seq![self.vx_cv()];
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == alnum(self.vx_cv());
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == ('0' <= self.vx_cv() <= '9');
    fn vx_is_ascii_uppercase(&self) -> (r: bool) ensures r == ('A' <= self.vx_cv() <= 'Z');
    fn vx_is_ascii_lowercase(&self) -> (r: bool) ensures r == ('a' <= self.vx_cv() <= 'z');
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == ('a' <= self.vx_cv() <= 'z' || 'A' <= self.vx_cv() <= 'Z');
    fn vx_is_ascii(&self) -> (r: bool) ensures r == ((self.vx_cv() as int) < 128);
    fn vx_is_ascii_whitespace(&self) -> (r: bool) ensures r == (self.vx_cv() == ' ' || self.vx_cv() == '\t' || self.vx_cv() == '\n' || self.vx_cv() == '\r' || self.vx_cv() == '\x0c');
    fn vx_is_ascii_graphic(&self) -> (r: bool) ensures r == ('!' <= self.vx_cv() <= '~');
    fn vx_is_ascii_punctuation(&self) -> (r: bool) ensures r == ('!' <= self.vx_cv() <= '~' && !alnum(self.vx_cv()));
    fn vx_is_ascii_control(&self) -> (r: bool) ensures r == ((self.vx_cv() as int) < 32 || self.vx_cv() as int == 127);
    fn vx_is_alphanumeric(&self) -> (r: bool) ensures r == uni_alnum(self.vx_cv());
    fn vx_is_alphabetic(&self) -> (r: bool) ensures r == uni_alpha(self.vx_cv());
    fn vx_is_numeric(&self) -> (r: bool) ensures r == uni_num(self.vx_cv());
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == uni_white(self.vx_cv());
    fn vx_is_control(&self) -> (r: bool) ensures r == ((self.vx_cv() as int) < 32 || 127 <= (self.vx_cv() as int) < 160);
}
impl VxChar for char {
    open spec fn vx_cv(&self) -> char { *self }
    #[verifier::external_body] fn vx_len_utf8(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_encode_utf8<'a>(&self, b: &'a mut [u8; 4]) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_graphic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_punctuation(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_control(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_numeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_control(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_err_into<A, B>(a: A) -> (r: B) { unimplemented!() }
#[verifier::external_body]
pub fn vx_log_enabled() -> (r: bool) { unimplemented!() }
/// reaching a panic is an error
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }

// ---- vectors ------------------------------------------------------------------------------------------
pub trait VxVec<T> {
    spec fn vx_vv(&self) -> Seq<T>;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vx_vv().len() == 0);
    fn vx_len(&self) -> (r: usize) ensures r == self.vx_vv().len();
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vx_vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
}
/// p lists each of 0..n once
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
    &&& forall|k: int| 0 <= k < n ==> p.contains(k)
}
pub open spec fn perm_of<T>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && exists|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]]
}
/// sorting rearranges the elements so that they ascend in the element type's Ord
pub open spec fn ascending<T: VxOrd>(s: Seq<T>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].vx_le(&s[j]) }
pub trait VxOrd { spec fn vx_le(&self, o: &Self) -> bool; }
pub trait VxSort<T: VxOrd> {
    spec fn vx_so(&self) -> Seq<T>;
    fn vx_sort(&mut self)
        ensures
            perm_of(old(self).vx_so(), final(self).vx_so()),
            ascending(final(self).vx_so());
}
impl<T: VxOrd> VxSort<T> for Vec<T> {
    open spec fn vx_so(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
}
/// the contracts of its own cmp and partial_cmp say the same
//@needs position::Position: !PartialOrd, !Ord
impl VxOrd for crate::position::Position { open spec fn vx_le(&self, o: &Self) -> bool { self.index <= o.index } }
//@end
impl<'a> VxOrd for (&'a String, &'a String) { open spec fn vx_le(&self, o: &Self) -> bool { pair_le((self.0@, self.1@), (o.0@, o.1@)) } }
//@needs corr::item::Item: PartialOrd, Ord
impl VxOrd for crate::corr::item::Item { open spec fn vx_le(&self, o: &Self) -> bool { pair_le(FIELD_ORDER(corr::item::Item; from, to)) } }
//@end
pub trait VxContains<T> { 
    fn vx_contains(&self, x: &T) -> (r: bool);
}
impl<T: Eq + std::hash::Hash> VxContains<T> for HashSet<T> {
    #[verifier::external_body]
    fn vx_contains(&self, x: &T) -> (r: bool) ensures obeys_key_model::<T>() ==> r == self@.contains(*x) { unimplemented!() }
}
impl VxContains<char> for Vec<char> {
    #[verifier::external_body]
    fn vx_contains(&self, x: &char) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
}
impl VxContains<String> for Vec<String> {
    #[verifier::external_body]
    fn vx_contains(&self, x: &String) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
}
impl<const N: usize> VxContains<char> for [char; N] {
    #[verifier::external_body]
    fn vx_contains(&self, x: &char) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
}
//@needs corr::item::Item: PartialEq
impl VxContains<crate::corr::item::Item> for Vec<crate::corr::item::Item> {
    #[verifier::external_body]
    fn vx_contains(&self, x: &crate::corr::item::Item) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
}
//@end
pub assume_specification<T>[ std::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);
pub trait VxToVec<T> {
    fn vx_to_vec(&self) -> (r: Vec<T>);
}
impl<T: Copy, const N: usize> VxToVec<T> for [T; N] {
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
/// m.entry(k).or_insert(v)
pub trait VxOrInsert<K, V> {
    spec fn vx_map(&self) -> Map<K, V>;
    fn vx_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures
            obeys_key_model::<K>() ==> *r == (if old(self).vx_map().contains_key(k) { old(self).vx_map()[k] } else { v }),
            obeys_key_model::<K>() ==> final(self).vx_map() == old(self).vx_map().insert(k, *final(r));
}
impl<K: Eq + std::hash::Hash, V> VxOrInsert<K, V> for HashMap<K, V> {
    open spec fn vx_map(&self) -> Map<K, V> { self@ }
    #[verifier::external_body] fn vx_or_insert(&mut self, k: K, v: V) -> (r: &mut V) { self.entry(k).or_insert(v) }
}

// ---- further std functions, exactly as documented -------------------------------------------------------
impl Default for String { open spec fn vx_default_ok(r: String) -> bool { r@ == Seq::<char>::empty() } #[verifier::external_body] fn default() -> (r: String) { unimplemented!() } }
impl<T> Default for Vec<T> { open spec fn vx_default_ok(r: Vec<T>) -> bool { r@ == Seq::<T>::empty() } #[verifier::external_body] fn default() -> (r: Vec<T>) { unimplemented!() } }
impl<K, V> Default for HashMap<K, V> { open spec fn vx_default_ok(r: HashMap<K, V>) -> bool { r@ == Map::<K, V>::empty() } #[verifier::external_body] fn default() -> (r: HashMap<K, V>) { unimplemented!() } }
impl<T> Default for Option<T> { open spec fn vx_default_ok(r: Option<T>) -> bool { r.is_none() } fn default() -> (r: Option<T>) { None } }
impl Default for usize { open spec fn vx_default_ok(r: usize) -> bool { r == 0 } fn default() -> (r: usize) { 0 } }
impl Default for bool { open spec fn vx_default_ok(r: bool) -> bool { !r } fn default() -> (r: bool) { false } }
impl Default for &str { open spec fn vx_default_ok(r: &str) -> bool { r@ == Seq::<char>::empty() } #[verifier::external_body] fn default() -> (r: &'static str) { unimplemented!() } }
pub trait VxOption<T>: Sized {
    spec fn vx_ov(self) -> Option<T>;
    fn vx_or(self, o: Option<T>) -> (r: Option<T>) ensures r == (if self.vx_ov().is_some() { self.vx_ov() } else { o });
    fn vx_xor(self, o: Option<T>) -> (r: Option<T>) ensures r == (if self.vx_ov().is_some() && o.is_none() { self.vx_ov() } else if self.vx_ov().is_none() && o.is_some() { o } else { None });
    fn vx_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>) ensures r == (if self.vx_ov().is_some() && o.is_some() { Some((self.vx_ov()->0, o->0)) } else { None });
}
impl<T> VxOption<T> for Option<T> {
    open spec fn vx_ov(self) -> Option<T> { self }
    #[verifier::external_body] fn vx_or(self, o: Option<T>) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_xor(self, o: Option<T>) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>) { unimplemented!() }
}
pub trait VxOptionMut<T> {
    fn vx_take(&mut self) -> (r: Option<T>);
    fn vx_replace(&mut self, v: T) -> (r: Option<T>);
}
impl<T> VxOptionMut<T> for Option<T> {
    #[verifier::external_body] fn vx_take(&mut self) -> (r: Option<T>) ensures r == *old(self), *final(self) == None::<T> { unimplemented!() }
    #[verifier::external_body] fn vx_replace(&mut self, v: T) -> (r: Option<T>) ensures r == *old(self), *final(self) == Some(v) { unimplemented!() }
}
pub trait VxOptionRef<T> {
    fn vx_as_ref(&self) -> (r: Option<&T>);
}
impl<T> VxOptionRef<T> for Option<T> {
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: Option<&T>) ensures r == (match *self { Some(x) => Some(&x), None => None }) { unimplemented!() }
}
pub trait VxUnwrapOr<T>: Sized {
    spec fn vx_uo(self, d: T) -> T;
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == self.vx_uo(d);
}
impl<T> VxUnwrapOr<T> for Option<T> {
    open spec fn vx_uo(self, d: T) -> T { match self { Some(x) => x, None => d } }
    #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
impl<T, E> VxUnwrapOr<T> for Result<T, E> {
    open spec fn vx_uo(self, d: T) -> T { match self { Ok(x) => x, Err(_) => d } }
    #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
impl<T> VxIntoIter for Option<T> { type Item = T;
    open spec fn vx_into_iter_ok(self, r: VxIter<T>) -> bool { r.seq() == (match self { Some(x) => seq![x], None => Seq::empty() }) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_once<T>(x: T) -> (r: VxIter<T>) ensures r.pos() == 0, r.seq() == seq![x] { unimplemented!() }

// ranges of other integers
impl VxIntoIter for std::ops::Range<u32> { type Item = u32;
    open spec fn vx_into_iter_ok(self, r: VxIter<u32>) -> bool {
        r.seq().len() == (if self.start <= self.end { self.end - self.start } else { 0 }) && forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == self.start + i
    }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<u32>) { unimplemented!() }
}
impl VxIntoIter for std::ops::Range<i32> { type Item = i32;
    open spec fn vx_into_iter_ok(self, r: VxIter<i32>) -> bool {
        r.seq().len() == (if self.start <= self.end { self.end - self.start } else { 0 }) && forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == self.start + i
    }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<i32>) { unimplemented!() }
}

// characters
pub uninterp spec fn uni_upper(c: char) -> bool;
pub uninterp spec fn uni_lower(c: char) -> bool;
pub open spec fn asc_upper(c: char) -> char { if 'a' <= c <= 'z' { ((c as int) - 32) as char } else { c } }
pub open spec fn asc_lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as int) + 32) as char } else { c } }
pub trait VxChar2 {
    spec fn vx_c2(&self) -> char;
    fn vx_is_uppercase(&self) -> (r: bool) ensures r == uni_upper(self.vx_c2()), (self.vx_c2() as int) < 128 ==> r == ('A' <= self.vx_c2() <= 'Z');
    fn vx_is_lowercase(&self) -> (r: bool) ensures r == uni_lower(self.vx_c2()), (self.vx_c2() as int) < 128 ==> r == ('a' <= self.vx_c2() <= 'z');
    fn vx_to_ascii_uppercase(&self) -> (r: char) ensures r == asc_upper(self.vx_c2());
    fn vx_to_ascii_lowercase(&self) -> (r: char) ensures r == asc_lower(self.vx_c2());
    fn vx_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) ensures r == (asc_lower(self.vx_c2()) == asc_lower(*o));
    fn vx_is_ascii_hexdigit(&self) -> (r: bool) ensures r == ('0' <= self.vx_c2() <= '9' || 'a' <= self.vx_c2() <= 'f' || 'A' <= self.vx_c2() <= 'F');
    fn vx_is_digit(&self, radix: u32) -> (r: bool) requires radix == 10 ensures r == ('0' <= self.vx_c2() <= '9');
    fn vx_to_digit(&self, radix: u32) -> (r: Option<u32>) requires radix == 10 ensures r == (if '0' <= self.vx_c2() <= '9' { Some(((self.vx_c2() as u32) - 48) as u32) } else { None });
    fn vx_len_utf16(&self) -> (r: usize) ensures r == (if (self.vx_c2() as int) < 0x10000 { 1int } else { 2 });
}
impl VxChar2 for char {
    open spec fn vx_c2(&self) -> char { *self }
    #[verifier::external_body] fn vx_is_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_hexdigit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_digit(&self, radix: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_digit(&self, radix: u32) -> (r: Option<u32>) { unimplemented!() }
    #[verifier::external_body] fn vx_len_utf16(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_from_u32(n: u32) -> (r: Option<char>)
    ensures r.is_some() == (n < 0xd800 || 0xe000 <= n <= 0x10ffff), r.is_some() ==> r.unwrap() as u32 == n
{ unimplemented!() }

// strings
pub open spec fn u16len(s: Seq<char>, n: int) -> nat decreases n { if n <= 0 { 0 } else { u16len(s, n - 1) + (if (s[n - 1] as int) < 0x10000 { 1nat } else { 2 }) } }
/// the first place where p stands in s
pub open spec fn first_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { sub_at(s, p, i) && forall|j: int| 0 <= j < i ==> !#[trigger] sub_at(s, p, j) }
pub open spec fn last_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { sub_at(s, p, i) && forall|j: int| i < j ==> !#[trigger] sub_at(s, p, j) }
/// how many white space characters there are at the start / at the end
pub open spec fn lead_w(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && uni_white(s[0]) { 1 + lead_w(s.skip(1)) } else { 0 } }
pub open spec fn trail_w(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && uni_white(s.last()) { 1 + trail_w(s.drop_last()) } else { 0 } }
pub open spec fn trim_start_w(s: Seq<char>) -> Seq<char> { s.skip(lead_w(s) as int) }
pub open spec fn trim_end_w(s: Seq<char>) -> Seq<char> { s.take(s.len() - trail_w(s)) }
pub trait VxStr2 {
    spec fn vx_s2(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures slen_ok(self.vx_s2()), r@ == trim_end_w(trim_start_w(self.vx_s2()));
    fn vx_trim_start(&self) -> (r: &str) ensures slen_ok(self.vx_s2()), r@ == trim_start_w(self.vx_s2());
    fn vx_trim_end(&self) -> (r: &str) ensures slen_ok(self.vx_s2()), r@ == trim_end_w(self.vx_s2());
    fn vx_strip_prefix<A: VxPat>(&self, p: A) -> (r: Option<&str>)
        ensures r.is_some() == sub_at(self.vx_s2(), p.vx_pat(), 0), r.is_some() ==> r.unwrap()@ == self.vx_s2().skip(p.vx_pat().len() as int);
    fn vx_strip_suffix<A: VxPat>(&self, p: A) -> (r: Option<&str>)
        ensures r.is_some() == sub_at(self.vx_s2(), p.vx_pat(), self.vx_s2().len() - p.vx_pat().len()), r.is_some() ==> r.unwrap()@ == self.vx_s2().take(self.vx_s2().len() - p.vx_pat().len());
    fn vx_find<A: VxPat>(&self, p: A) -> (r: Option<usize>)
        ensures slen_ok(self.vx_s2()), r.is_none() ==> forall|i: int| !#[trigger] sub_at(self.vx_s2(), p.vx_pat(), i),
            r.is_some() ==> exists|i: int| #[trigger] first_at(self.vx_s2(), p.vx_pat(), i) && r.unwrap() == blen(self.vx_s2(), i);
    fn vx_rfind<A: VxPat>(&self, p: A) -> (r: Option<usize>)
        ensures slen_ok(self.vx_s2()), r.is_none() ==> forall|i: int| !#[trigger] sub_at(self.vx_s2(), p.vx_pat(), i),
            r.is_some() ==> exists|i: int| #[trigger] last_at(self.vx_s2(), p.vx_pat(), i) && r.unwrap() == blen(self.vx_s2(), i);
    fn vx_is_ascii(&self) -> (r: bool) ensures r == (forall|i: int| 0 <= i < self.vx_s2().len() ==> (#[trigger] self.vx_s2()[i] as int) < 128);
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.vx_s2();
    fn vx_bytes(&self) -> (r: VxIter<u8>) ensures r.pos() == 0, slen_ok(self.vx_s2()), r.seq().len() == blen(self.vx_s2(), self.vx_s2().len() as int);
    fn vx_encode_utf16(&self) -> (r: VxIter<u16>) ensures r.pos() == 0, slen_ok(self.vx_s2()), r.seq().len() == u16len(self.vx_s2(), self.vx_s2().len() as int);
}
impl VxStr2 for str {
    open spec fn vx_s2(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<A: VxPat>(&self, p: A) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<A: VxPat>(&self, p: A) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_find<A: VxPat>(&self, p: A) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<A: VxPat>(&self, p: A) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: VxIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_encode_utf16(&self) -> (r: VxIter<u16>) { unimplemented!() }
}
impl VxStr2 for String {
    open spec fn vx_s2(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<A: VxPat>(&self, p: A) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<A: VxPat>(&self, p: A) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_find<A: VxPat>(&self, p: A) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<A: VxPat>(&self, p: A) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: VxIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_encode_utf16(&self) -> (r: VxIter<u16>) { unimplemented!() }
}
/// the strings one after the other
pub open spec fn cat_strs<T: VxStr + ?Sized>(s: Seq<&T>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat_strs(s.drop_last()) + s.last().vx_sv() } }
pub open spec fn cat_strings(s: Seq<String>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat_strings(s.drop_last()) + s.last()@ } }
pub open spec fn join_strings(s: Seq<String>, sep: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0]@ } else { join_strings(s.drop_last(), sep) + sep + s.last()@ } }
impl<'a> VxCollect<&'a char> for String {
    open spec fn vx_collect_ok(s: Seq<&'a char>, c: String) -> bool { c@ == Seq::new(s.len(), |i: int| *s[i]) }
    #[verifier::external_body] fn vx_from_iter(it: VxIter<&'a char>) -> (r: String) { unimplemented!() }
}
impl<'a> VxCollect<&'a str> for String {
    open spec fn vx_collect_ok(s: Seq<&'a str>, c: String) -> bool { c@ == cat_strs(s) }
    #[verifier::external_body] fn vx_from_iter(it: VxIter<&'a str>) -> (r: String) { unimplemented!() }
}
impl VxCollect<String> for String {
    open spec fn vx_collect_ok(s: Seq<String>, c: String) -> bool { c@ == cat_strings(s) }
    #[verifier::external_body] fn vx_from_iter(it: VxIter<String>) -> (r: String) { unimplemented!() }
}
pub trait VxJoin {
    spec fn vx_jv(&self) -> Seq<String>;
    fn vx_concat(&self) -> (r: String) ensures r@ == cat_strings(self.vx_jv());
    fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == join_strings(self.vx_jv(), sep@);
}
impl VxJoin for Vec<String> {
    open spec fn vx_jv(&self) -> Seq<String> { self@ }
    #[verifier::external_body] fn vx_concat(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
impl<'a> VxExtend<&'a char> for String {
    open spec fn vx_ext_ok(self, i: Seq<&'a char>, r: Self) -> bool { r@ == self@ + Seq::new(i.len(), |k: int| *i[k]) }
    #[verifier::external_body] fn vx_extend<I: VxIntoIter<Item = &'a char>>(&mut self, i: I) { unimplemented!() }
}
impl VxExtend<String> for String {
    open spec fn vx_ext_ok(self, i: Seq<String>, r: Self) -> bool { r@ == self@ + cat_strings(i) }
    #[verifier::external_body] fn vx_extend<I: VxIntoIter<Item = String>>(&mut self, i: I) { unimplemented!() }
}
impl<K: Eq + std::hash::Hash, V> VxExtend<(K, V)> for HashMap<K, V> {
    open spec fn vx_ext_ok(self, i: Seq<(K, V)>, r: Self) -> bool { obeys_key_model::<K>() ==> r@ == ins_all(self@, i, i.len() as int) }
    #[verifier::external_body] fn vx_extend<I: VxIntoIter<Item = (K, V)>>(&mut self, i: I) { unimplemented!() }
}
pub open spec fn ins_all<K, V>(m: Map<K, V>, s: Seq<(K, V)>, n: int) -> Map<K, V> decreases n {
    if n <= 0 { m } else { ins_all(m, s, n - 1).insert(s[n - 1].0, s[n - 1].1) }
}

// vectors and maps
pub trait VxEnds<T> {
    spec fn vx_ev(&self) -> Seq<T>;
    fn vx_first(&self) -> (r: Option<&T>) ensures r == (if self.vx_ev().len() > 0 { Some(&self.vx_ev()[0]) } else { None });
    fn vx_last(&self) -> (r: Option<&T>) ensures r == (if self.vx_ev().len() > 0 { Some(&self.vx_ev()[self.vx_ev().len() - 1]) } else { None });
}
impl<T> VxEnds<T> for Vec<T> {
    open spec fn vx_ev(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
}
pub trait VxSortU<T: VxOrd> {
    spec fn vx_su(&self) -> Seq<T>;
    fn vx_sort_unstable(&mut self) ensures perm_of(old(self).vx_su(), final(self).vx_su()), ascending(final(self).vx_su());
}
impl<T: VxOrd> VxSortU<T> for Vec<T> {
    open spec fn vx_su(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort_unstable(&mut self) { unimplemented!() }
}
pub open spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool { a == b || str_lt(a, b) }
impl<'a> VxOrd for &'a str { open spec fn vx_le(&self, o: &Self) -> bool { str_le((*self)@, (*o)@) } }
impl VxOrd for char { open spec fn vx_le(&self, o: &Self) -> bool { *self <= *o } }
impl VxOrd for usize { open spec fn vx_le(&self, o: &Self) -> bool { *self <= *o } }
pub assume_specification<T>[ <[T]>::reverse ](v: &mut [T]) ensures final(v)@ == old(v)@.reverse();
pub assume_specification<T>[ <[T]>::swap ](v: &mut [T], a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len()
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub trait VxMapLen<K, V> {
    spec fn vx_ml(&self) -> Map<K, V>;
    fn vx_len(&self) -> (r: usize) ensures obeys_key_model::<K>() ==> r == self.vx_ml().dom().len();
    fn vx_is_empty(&self) -> (r: bool) ensures obeys_key_model::<K>() ==> r == (self.vx_ml() =~= Map::empty());
    fn vx_keys<'a>(&'a self) -> (r: VxIter<&'a K>) ensures r.pos() == 0, obeys_key_model::<K>() ==> {
            &&& forall|i: int| 0 <= i < r.seq().len() ==> self.vx_ml().contains_key(*(#[trigger] r.seq()[i]))
            &&& forall|k: K| #[trigger] self.vx_ml().contains_key(k) ==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]) == k
            &&& forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> *(#[trigger] r.seq()[i]) != *(#[trigger] r.seq()[j]) };
    fn vx_values<'a>(&'a self) -> (r: VxIter<&'a V>) ensures r.pos() == 0, obeys_key_model::<K>() ==> exists|e: Seq<(&K, &V)>| #[trigger] enum_map(e, self.vx_ml())
            && e.len() == r.seq().len() && forall|i: int| 0 <= i < e.len() ==> *(#[trigger] r.seq()[i]) == *e[i].1;
}
impl<K, V> VxMapLen<K, V> for HashMap<K, V> {
    open spec fn vx_ml(&self) -> Map<K, V> { self@ }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_keys<'a>(&'a self) -> (r: VxIter<&'a K>) { unimplemented!() }
    #[verifier::external_body] fn vx_values<'a>(&'a self) -> (r: VxIter<&'a V>) { unimplemented!() }
}
pub trait VxSetLen<K> {
    spec fn vx_sl(&self) -> Set<K>;
    fn vx_len(&self) -> (r: usize) ensures obeys_key_model::<K>() ==> r == self.vx_sl().len();
    fn vx_is_empty(&self) -> (r: bool) ensures obeys_key_model::<K>() ==> r == (self.vx_sl() =~= Set::empty());
}
impl<K> VxSetLen<K> for HashSet<K> {
    open spec fn vx_sl(&self) -> Set<K> { self@ }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T> VxVec<T> for [T] {
    open spec fn vx_vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
}
impl<T, const N: usize> VxVec<T> for [T; N] {
    open spec fn vx_vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
}
pub assume_specification[ String::reserve ](s: &mut String, n: usize) ensures final(s)@ == old(s)@;
pub assume_specification[ String::shrink_to_fit ](s: &mut String) ensures final(s)@ == old(s)@;
pub assume_specification[ String::capacity ](s: &String) -> (r: usize);
