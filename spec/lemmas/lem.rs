// Proved lemmas (no axioms here).
pub proof fn lemma_take_set(s: Seq<char>, n: int)
    requires 0 < n <= s.len()
    ensures s.take(n).to_set() =~= s.take(n - 1).to_set().insert(s[n - 1])
{
    let a = s.take(n); let b = s.take(n - 1);
    assert forall|x: char| a.to_set().contains(x) == b.to_set().insert(s[n - 1]).contains(x) by {
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i] == x); }
        if x == s[n - 1] { assert(a[n - 1] == x); }
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; if i < n - 1 { assert(b[i] == x); } }
    }
}
pub proof fn lemma_idx_step(s: Seq<char>, n: int)
    requires 0 < n <= s.len(),
    ensures
        forall|c: char| c != s[n - 1] ==> #[trigger] occ(s, n, c) == occ(s, n - 1, c),
        occ(s, n, s[n - 1]) == occ(s, n - 1, s[n - 1]).push((n - 1) as usize),
        forall|c: char| c != s[n - 1] ==> #[trigger] occb(s, n, c) == occb(s, n - 1, c),
        occb(s, n, s[n - 1]) == occb(s, n - 1, s[n - 1]).push(blen(s, n - 1) as usize),
{ }
pub proof fn lemma_blen_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures blen(s, a) + (b - a) <= blen(s, b), blen(s, b) <= blen(s, a) + 4 * (b - a)
    decreases b
{ if b > a { lemma_blen_mono(s, a, b - 1); } }
pub proof fn lemma_blen_skip(s: Seq<char>, a: int, k: int)
    requires 0 <= a, 0 <= k, a + k <= s.len()
    ensures blen(s.skip(a), k) == blen(s, a + k) - blen(s, a)
    decreases k
{ if k > 0 { lemma_blen_skip(s, a, k - 1); assert(s.skip(a)[k - 1] == s[a + k - 1]); } }
pub proof fn lemma_blen_take(s: Seq<char>, n: int, k: int)
    requires 0 <= k <= n <= s.len()
    ensures blen(s.take(n), k) == blen(s, k)
    decreases k
{ if k > 0 { lemma_blen_take(s, n, k - 1); assert(s.take(n)[k - 1] == s[k - 1]); } }
/// k copies of one character: what it looks like and how many bytes it has
pub proof fn lemma_rep1(c: char, k: nat)
    ensures rep(seq![c], k).len() == k, forall|i: int| 0 <= i < k ==> rep(seq![c], k)[i] == c
    decreases k
{ if k > 0 { lemma_rep1(c, (k - 1) as nat); } }
pub proof fn lemma_const_run(c: char, s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> s[i] == c
    ensures blen(s, b) - blen(s, a) == clen(c) * (b - a), s.subrange(a, b) == rep(seq![c], (b - a) as nat),
    decreases b - a
{
    lemma_rep1(c, (b - a) as nat);
    assert(s.subrange(a, b) =~= rep(seq![c], (b - a) as nat));
    if b > a {
        lemma_const_run(c, s, a, b - 1);
        assert(clen(c) * (b - a) == clen(c) * (b - 1 - a) + clen(c)) by(nonlinear_arith);
    } else { assert(clen(c) * 0 == 0) by(nonlinear_arith); }
}
pub proof fn lemma_run_start(c: char, s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures 0 <= run_start(c, s, n) <= n, forall|i: int| run_start(c, s, n) <= i < n ==> s[i] == c,
    decreases n
{ if n > 0 && s[n - 1] == c { lemma_run_start(c, s, n - 1); } }
pub proof fn lemma_run(c: char, s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures
        0 <= run_start(c, s, n) <= n,
        blen(s, n) - blen(s, run_start(c, s, n)) == clen(c) * (n - run_start(c, s, n)),
        s.subrange(run_start(c, s, n), n) == rep(seq![c], (n - run_start(c, s, n)) as nat),
        blen(seq![c], 1) == clen(c),
        run_start(c, s, n) < n <==> (n > 0 && s[n - 1] == c),
        blen(s, n) <= blen(s, s.len() as int),
{
    lemma_run_start(c, s, n);
    if n > 0 { lemma_run_start(c, s, n - 1); }
    lemma_const_run(c, s, run_start(c, s, n), n);
    lemma_blen_mono(s, n, s.len() as int);
    assert(blen(seq![c], 1) == clen(c)) by { assert(blen(seq![c], 0) == 0); }
}
// ---- trim
pub proof fn lemma_lead(s: Seq<char>, c: char)
    ensures lead(s, c) <= s.len(), forall|i: int| 0 <= i < lead(s, c) ==> s[i] == c, lead(s, c) < s.len() ==> s[lead(s, c) as int] != c,
    decreases s.len()
{
    if s.len() > 0 && s[0] == c {
        let t = s.skip(1);
        lemma_lead(t, c);
        assert forall|i: int| 0 <= i < lead(s, c) implies s[i] == c by { if i > 0 { assert(t[i - 1] == s[i]); } }
        if lead(s, c) < s.len() { assert(t[lead(t, c) as int] == s[lead(s, c) as int]); }
    }
}
pub proof fn lemma_trail(s: Seq<char>, c: char)
    ensures trail(s, c) <= s.len(), forall|i: int| s.len() - trail(s, c) <= i < s.len() ==> s[i] == c, trail(s, c) < s.len() ==> s[s.len() - trail(s, c) - 1] != c,
    decreases s.len()
{
    if s.len() > 0 && s.last() == c {
        let t = s.drop_last();
        lemma_trail(t, c);
        assert forall|i: int| s.len() - trail(s, c) <= i < s.len() implies s[i] == c by { if i < s.len() - 1 { assert(t[i] == s[i]); } }
    }
}
pub proof fn lemma_trim_bytes(s: Seq<char>)
    ensures
        " "@ == seq![' '], ""@ == Seq::<char>::empty(), blen(" "@, 1) == 1,
        ({
            let a = lead(s, ' ') as int; let t = trim_start_s(s, ' '); let n = s.len() as int; let k = trail(t, ' ') as int; let x = trim_end_s(t, ' ');
            &&& 0 <= a <= n && t.len() == n - a && 0 <= k <= t.len() && x.len() == t.len() - k
            &&& blen(s, a) == a
            &&& blen(t, t.len() as int) == blen(s, n) - a
            &&& blen(x, x.len() as int) == blen(t, t.len() as int) - k
            &&& blen(s, n) - blen(s, n - k) == k
            &&& blen(s, n - k) == blen(s, n) - k
            &&& k <= n && n <= blen(s, n)
            &&& s.subrange(0, a) == rep(seq![' '], a as nat)
            &&& s.subrange(n - k, n) == rep(seq![' '], k as nat)
            &&& (a > 0 <==> t != s)
            &&& (k > 0 <==> x != t)
        }),
{
    reveal_strlit(" "); reveal_strlit("");
    assert(" "@ =~= seq![' ']);
    assert(""@ =~= Seq::<char>::empty());
    assert(blen(" "@, 1) == 1) by { assert(blen(" "@, 0) == 0); }
    let a = lead(s, ' ') as int; let t = trim_start_s(s, ' '); let n = s.len() as int;
    lemma_lead(s, ' '); lemma_trail(t, ' ');
    let k = trail(t, ' ') as int; let x = trim_end_s(t, ' ');
    assert(blen(s, 0) == 0);
    lemma_const_run(' ', s, 0, a);
    assert forall|i: int| n - k <= i < n implies s[i] == ' ' by { assert(t[i - a] == s[i]); }
    lemma_const_run(' ', s, n - k, n);
    lemma_blen_skip(s, a, n - a);
    lemma_blen_skip(s, a, n - a - k);
    lemma_blen_take(t, t.len() - k, t.len() - k);
    lemma_blen_mono(s, 0, n);
    if a == 0 { assert(t =~= s); }
    if k == 0 { assert(x =~= t); }
}
pub proof fn lemma_trim_pos(s: Seq<char>)
    ensures true
{ }
// ---- order
pub proof fn lemma_str_lt_irrefl(a: Seq<char>)
    ensures !str_lt(a, a)
    decreases a.len()
{ if a.len() > 0 { lemma_str_lt_irrefl(a.skip(1)); } }
pub proof fn lemma_str_lt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires str_lt(a, b), str_lt(b, c)
    ensures str_lt(a, c)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_str_lt_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
pub proof fn lemma_str_lt_asym(a: Seq<char>, b: Seq<char>)
    requires str_lt(a, b)
    ensures !str_lt(b, a)
{ if str_lt(b, a) { lemma_str_lt_trans(a, b, a); lemma_str_lt_irrefl(a); } }
/// two ascending lists of the same elements are the same list
pub proof fn lemma_ascending_unique<T>(a: Seq<T>, b: Seq<T>, lt: spec_fn(T, T) -> bool)
    requires
        forall|x: T, y: T| #[trigger] lt(x, y) ==> !lt(y, x),
        forall|i: int, j: int| 0 <= i < j < a.len() ==> lt(#[trigger] a[i], #[trigger] a[j]),
        forall|i: int, j: int| 0 <= i < j < b.len() ==> lt(#[trigger] b[i], #[trigger] b[j]),
        forall|x: T| a.contains(x) <==> b.contains(x),
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a[0]));
        let x = a.last(); let y = b.last();
        assert(a.contains(x)); 
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        assert(b.contains(y));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
        assert(x == y) by {
            if j < b.len() - 1 {
                assert(lt(b[j], b[b.len() - 1]));
                if i < a.len() - 1 { assert(lt(a[i], a[a.len() - 1])); } else { assert(lt(x, x)); }
            }
        }
        let c = a.drop_last(); let d = b.drop_last();
        assert forall|z: T| c.contains(z) <==> d.contains(z) by {
            if c.contains(z) {
                let k = choose|k: int| 0 <= k < c.len() && c[k] == z;
                assert(a[k] == z); assert(a.contains(z)); assert(b.contains(z));
                let l = choose|l: int| 0 <= l < b.len() && b[l] == z;
                assert(lt(a[k], a[a.len() - 1]));
                if l == b.len() - 1 { assert(lt(z, z)); }
                assert(d[l] == z);
            }
            if d.contains(z) {
                let k = choose|k: int| 0 <= k < d.len() && d[k] == z;
                assert(b[k] == z); assert(b.contains(z)); assert(a.contains(z));
                let l = choose|l: int| 0 <= l < a.len() && a[l] == z;
                assert(lt(b[k], b[b.len() - 1]));
                if l == a.len() - 1 { assert(lt(z, z)); }
                assert(c[l] == z);
            }
        }
        assert forall|k: int, l: int| 0 <= k < l < c.len() implies lt(#[trigger] c[k], #[trigger] c[l]) by { assert(lt(a[k], a[l])); }
        assert forall|k: int, l: int| 0 <= k < l < d.len() implies lt(#[trigger] d[k], #[trigger] d[l]) by { assert(lt(b[k], b[l])); }
        lemma_ascending_unique(c, d, lt);
        assert(a =~= c.push(x)); assert(b =~= d.push(y));
    }
}
// ---- permutations
pub proof fn lemma_perm_contains<T>(a: Seq<T>, b: Seq<T>, x: T)
    requires perm_of(a, b)
    ensures a.contains(x) == b.contains(x)
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]];
    if a.contains(x) {
        let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
        assert(p.contains(k));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == k;
        assert(b[i] == x);
    }
    if b.contains(x) {
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        assert(a[p[i]] == x);
    }
}
pub broadcast proof fn lemma_enum_perm<K, V>(a: Seq<(&K, &V)>, b: Seq<(&K, &V)>, m: Map<K, V>)
    requires #[trigger] enum_map(a, m), #[trigger] perm_of(a, b)
    ensures enum_map(b, m)
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]];
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < b.len() && *(#[trigger] b[i]).0 == k by {
        let j = choose|j: int| 0 <= j < a.len() && *(#[trigger] a[j]).0 == k;
        assert(p.contains(j));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == j;
        assert(*b[i].0 == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies *(#[trigger] b[i]).0 != *(#[trigger] b[j]).0 by {
        assert(b[i] == a[p[i]] && b[j] == a[p[j]]);
        assert(p[i] != p[j]);
        if p[i] < p[j] { assert(*a[p[i]].0 != *a[p[j]].0); } else { assert(*a[p[j]].0 != *a[p[i]].0); }
    }
}
// ---- ligature
pub open spec fn pair_views(s: Seq<(&String, &String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@)) }
pub proof fn lemma_sorted_entries(s: Seq<(&String, &String)>, m: Map<String, String>)
    requires enum_map(s, m), ascending(s),
    ensures sorted_entries(pair_views(s), m)
{
    let p = pair_views(s);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies str_lt((#[trigger] p[i]).0, (#[trigger] p[j]).0) by {
        assert(s[i].vx_le(&s[j]));
        assert(*s[i].0 != *s[j].0);
        if p[i].0 == p[j].0 { ax_string_ext(*s[i].0, *s[j].0); }
    }
    assert forall|i: int| 0 <= i < p.len() implies has_entry(m, #[trigger] p[i]) by {
        assert(m.contains_key(*s[i].0));
    }
    assert forall|k: String| #[trigger] m.contains_key(k) implies p.contains((k@, m[k]@)) by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
        assert(p[i] == (k@, m[k]@));
    }
}
pub proof fn lemma_entries_unique(p: Seq<(Seq<char>, Seq<char>)>, m: Map<String, String>)
    requires sorted_entries(p, m)
    ensures p == entries(m), sorted_entries(entries(m), m)
{
    let q = entries(m);
    let lt = |x: (Seq<char>, Seq<char>), y: (Seq<char>, Seq<char>)| str_lt(x.0, y.0);
    assert(sorted_entries(q, m));
    assert forall|x: (Seq<char>, Seq<char>), y: (Seq<char>, Seq<char>)| #[trigger] lt(x, y) implies !lt(y, x) by { lemma_str_lt_asym(x.0, y.0); }
    assert forall|x: (Seq<char>, Seq<char>)| p.contains(x) <==> q.contains(x) by {
        if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(p[i] == x); }
        if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(q[i] == x); }
    }
    lemma_ascending_unique(p, q, lt);
}
// ---- converter positions
pub proof fn lemma_conv_idx(m: Map<char, char>, s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures
        forall|k: int| 0 <= k < conv_idx(m, s, n).len() ==> 0 <= (#[trigger] conv_idx(m, s, n)[k]) < n && m.contains_key(s[conv_idx(m, s, n)[k]]),
        forall|k: int, l: int| 0 <= k < l < conv_idx(m, s, n).len() ==> (#[trigger] conv_idx(m, s, n)[k]) < (#[trigger] conv_idx(m, s, n)[l]),
        forall|i: int| 0 <= i < n && m.contains_key(#[trigger] s[i]) ==> conv_idx(m, s, n).contains(i),
    decreases n
{
    if n > 0 {
        lemma_conv_idx(m, s, n - 1);
        let a = conv_idx(m, s, n); let b = conv_idx(m, s, n - 1);
        assert forall|i: int| 0 <= i < n && m.contains_key(#[trigger] s[i]) implies a.contains(i) by {
            if i == n - 1 { assert(a[a.len() - 1] == i); }
            else { let k = choose|k: int| 0 <= k < b.len() && b[k] == i; assert(a[k] == i); }
        }
    }
}
/// the collected entries: one per index in idx
pub open spec fn entries_at(v: Seq<crate::position::Position>, idx: Seq<int>, m: Map<char, char>, s: Seq<char>) -> bool {
    &&& v.len() == idx.len()
    &&& forall|k: int| 0 <= k < v.len() ==> 0 <= (#[trigger] idx[k]) < s.len() && m.contains_key(s[idx[k]])
    &&& forall|k: int| 0 <= k < v.len() ==> pv(#[trigger] v[k]) == posat(s, idx[k], idx[k] + 1, seq![m[s[idx[k]]]])
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> (#[trigger] idx[k]) != (#[trigger] idx[l])
}
pub proof fn lemma_conv_sorted(a: Seq<crate::position::Position>, b: Seq<crate::position::Position>, idx: Seq<int>, m: Map<char, char>, s: Seq<char>)
    requires
        perm_of(a, b), ascending(b), entries_at(a, idx, m, s),
        forall|i: int| 0 <= i < s.len() && m.contains_key(#[trigger] s[i]) ==> idx.contains(i),
    ensures pvs(b) == conv_pos(m, s)
{
    let n = s.len() as int;
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]];
    let q = Seq::new(b.len(), |i: int| idx[p[i]]);
    let ci = conv_idx(m, s, n);
    lemma_conv_idx(m, s, n);
    let lt = |x: int, y: int| x < y;
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies lt(#[trigger] q[i], #[trigger] q[j]) by {
        assert(b[i].vx_le(&b[j]));
        assert(b[i] == a[p[i]] && b[j] == a[p[j]]);
        assert(pv(a[p[i]]).index == blen(s, q[i]) && pv(a[p[j]]).index == blen(s, q[j]));
        assert(p[i] != p[j]);
        if p[i] < p[j] { assert(idx[p[i]] != idx[p[j]]); } else { assert(idx[p[j]] != idx[p[i]]); }
        if q[j] < q[i] { lemma_blen_mono(s, q[j], q[i]); }
    }
    assert forall|x: int| q.contains(x) <==> ci.contains(x) by {
        if q.contains(x) {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
            assert(idx[p[i]] == x);
            assert(m.contains_key(s[x]));
        }
        if ci.contains(x) {
            let k = choose|k: int| 0 <= k < ci.len() && ci[k] == x;
            assert(m.contains_key(s[x]));
            assert(idx.contains(x));
            let l = choose|l: int| 0 <= l < idx.len() && idx[l] == x;
            assert(p.contains(l));
            let i = choose|i: int| 0 <= i < p.len() && p[i] == l;
            assert(q[i] == x);
        }
    }
    lemma_ascending_unique(q, ci, lt);
    assert forall|i: int| 0 <= i < b.len() implies pv(#[trigger] b[i]) == conv_pos(m, s)[i] by {
        assert(b[i] == a[p[i]]);
        assert(pv(a[p[i]]) == posat(s, q[i], q[i] + 1, seq![m[s[q[i]]]]));
    }
    assert(pvs(b) =~= conv_pos(m, s));
}

// ---- tables ----------------------------------------------------------------------------------------------
pub open spec fn set_is(m: Set<crate::corr::item::Item>, a: Seq<ItemV>, n: int, b: Seq<ItemV>, k: int) -> bool {
    forall|x: crate::corr::item::Item| #[trigger] m.contains(x) <==> (exists|i: int| 0 <= i < n && #[trigger] a[i] == iv(x)) || (exists|i: int| 0 <= i < k && #[trigger] b[i] == iv(x))
}
pub proof fn lemma_item_ext(a: crate::corr::item::Item, b: crate::corr::item::Item)
    requires iv(a) == iv(b)
    ensures a == b
{ broadcast use ax_string_ext; }
pub proof fn lemma_ivs_contains(v: Seq<crate::corr::item::Item>, x: crate::corr::item::Item)
    ensures v.contains(x) == ivs(v).contains(iv(x))
{
    if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(ivs(v)[i] == iv(x)); }
    if ivs(v).contains(iv(x)) {
        let i = choose|i: int| 0 <= i < ivs(v).len() && ivs(v)[i] == iv(x);
        lemma_item_ext(v[i], x);
        assert(v[i] == x);
    }
}
pub proof fn lemma_ivs_mem(v: Seq<crate::corr::item::Item>, e: ItemV)
    requires ivs(v).contains(e)
    ensures exists|i: int| 0 <= i < v.len() && iv(#[trigger] v[i]) == e
{
    let i = choose|i: int| 0 <= i < ivs(v).len() && ivs(v)[i] == e;
    assert(iv(v[i]) == e);
}
/// the elements of the set in ascending order are the union
pub proof fn lemma_union(v: Seq<crate::corr::item::Item>, m: Set<crate::corr::item::Item>, a: Seq<ItemV>, b: Seq<ItemV>)
    requires
        exists|p: Seq<crate::corr::item::Item>| #[trigger] perm_of(p, v) && p.no_duplicates() && p.to_set() == m,
        ascending(v),
        set_is(m, a, a.len() as int, b, b.len() as int),
        forall|x: ItemV| a.contains(x) ==> exists|i: crate::corr::item::Item| iv(i) == x,
        forall|x: ItemV| b.contains(x) ==> exists|i: crate::corr::item::Item| iv(i) == x,
    ensures is_union(ivs(v), a, b)
{
    let p = choose|p: Seq<crate::corr::item::Item>| #[trigger] perm_of(p, v) && p.no_duplicates() && p.to_set() == m;
    let q = choose|q: Seq<int>| #[trigger] is_perm(q, p.len() as int) && forall|i: int| 0 <= i < q.len() ==> #[trigger] v[i] == p[q[i]];
    let r = ivs(v);
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies pair_lt(r[i], r[j]) by {
        assert(v[i].vx_le(&v[j]));
        assert(q[i] != q[j]);
        assert(v[i] == p[q[i]] && v[j] == p[q[j]]);
        assert(v[i] != v[j]);
        if iv(v[i]) == iv(v[j]) { lemma_item_ext(v[i], v[j]); }
    }
    assert forall|x: ItemV| #[trigger] r.contains(x) <==> a.contains(x) || b.contains(x) by {
        if r.contains(x) {
            lemma_ivs_mem(v, x);
            let i = choose|i: int| 0 <= i < v.len() && iv(#[trigger] v[i]) == x;
            assert(v[i] == p[q[i]]);
            assert(p.to_set().contains(v[i]));
            assert(m.contains(v[i]));
        }
        if a.contains(x) || b.contains(x) {
            let e = choose|e: crate::corr::item::Item| iv(e) == x;
            if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a[i] == iv(e)); }
            if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(b[i] == iv(e)); }
            assert(m.contains(e));
            assert(p.to_set().contains(e));
            lemma_perm_contains(p, v, e);
            assert(v.contains(e));
            lemma_ivs_contains(v, e);
        }
    }
}
pub proof fn lemma_ivs_exist(v: Seq<crate::corr::item::Item>)
    ensures forall|x: ItemV| ivs(v).contains(x) ==> exists|i: crate::corr::item::Item| iv(i) == x
{
    assert forall|x: ItemV| ivs(v).contains(x) implies exists|i: crate::corr::item::Item| iv(i) == x by {
        lemma_ivs_mem(v, x);
        let i = choose|i: int| 0 <= i < v.len() && iv(#[trigger] v[i]) == x;
        assert(iv(v[i]) == x);
    }
}
pub proof fn lemma_perm_ivs(a: Seq<crate::corr::item::Item>, b: Seq<crate::corr::item::Item>)
    requires perm_of(a, b)
    ensures perm_of(ivs(a), ivs(b))
{
    let q = choose|q: Seq<int>| #[trigger] is_perm(q, a.len() as int) && forall|i: int| 0 <= i < q.len() ==> #[trigger] b[i] == a[q[i]];
    assert(is_perm(q, ivs(a).len() as int));
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] ivs(b)[i] == ivs(a)[q[i]] by { assert(b[i] == a[q[i]]); }
}
pub proof fn lemma_diff(pre: Seq<crate::corr::item::Item>, v: Seq<crate::corr::item::Item>)
    requires perm_of(pre, v), ascending(v)
    ensures asc_le(ivs(v)), perm_of(ivs(pre), ivs(v))
{
    lemma_perm_ivs(pre, v);
    assert forall|i: int, j: int| #![trigger ivs(v)[i], ivs(v)[j]] 0 <= i < j < v.len() implies pair_le(ivs(v)[i], ivs(v)[j]) by { assert(v[i].vx_le(&v[j])); }
}
pub proof fn lemma_set_is_step(m: Set<crate::corr::item::Item>, a: Seq<ItemV>, n: int, b: Seq<ItemV>, k: int, x: crate::corr::item::Item)
    requires set_is(m, a, n, b, k), 0 <= n, 0 <= k
    ensures
        n < a.len() && a[n] == iv(x) ==> set_is(m.insert(x), a, n + 1, b, k),
        k < b.len() && b[k] == iv(x) ==> set_is(m.insert(x), a, n, b, k + 1),
{
    if n < a.len() && a[n] == iv(x) {
        assert forall|y: crate::corr::item::Item| #[trigger] m.insert(x).contains(y) <==> (exists|i: int| 0 <= i < n + 1 && #[trigger] a[i] == iv(y)) || (exists|i: int| 0 <= i < k && #[trigger] b[i] == iv(y)) by {
            if iv(y) == iv(x) { lemma_item_ext(x, y); assert(a[n] == iv(y)); }
            if m.contains(y) {
                if exists|i: int| 0 <= i < n && #[trigger] a[i] == iv(y) { let i = choose|i: int| 0 <= i < n && #[trigger] a[i] == iv(y); assert(0 <= i < n + 1 && a[i] == iv(y)); }
            }
        }
    }
    if k < b.len() && b[k] == iv(x) {
        assert forall|y: crate::corr::item::Item| #[trigger] m.insert(x).contains(y) <==> (exists|i: int| 0 <= i < n && #[trigger] a[i] == iv(y)) || (exists|i: int| 0 <= i < k + 1 && #[trigger] b[i] == iv(y)) by {
            if iv(y) == iv(x) { lemma_item_ext(x, y); assert(b[k] == iv(y)); }
            if m.contains(y) {
                if exists|i: int| 0 <= i < k && #[trigger] b[i] == iv(y) { let i = choose|i: int| 0 <= i < k && #[trigger] b[i] == iv(y); assert(0 <= i < k + 1 && b[i] == iv(y)); }
            }
        }
    }
}
pub proof fn lemma_table_of(r: Seq<ItemV>, has: spec_fn(ItemV) -> bool)
    requires is_table(r, has)
    ensures table_of(has) == r
{
    let q = table_of(has);
    assert(is_table(q, has));
    lemma_asc_unique(q, r);
}
pub proof fn lemma_asc_unique(q: Seq<ItemV>, r: Seq<ItemV>)
    requires strictly_asc(q), strictly_asc(r), forall|x: ItemV| q.contains(x) <==> r.contains(x)
    ensures q == r
{
    let lt = |x: ItemV, y: ItemV| pair_lt(x, y);
    assert forall|x: ItemV, y: ItemV| #[trigger] lt(x, y) implies !lt(y, x) by { lemma_pair_lt_asym(x, y); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies lt(#[trigger] q[i], #[trigger] q[j]) by { }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt(#[trigger] r[i], #[trigger] r[j]) by { }
    lemma_ascending_unique(q, r, lt);
}
pub proof fn lemma_pair_lt_asym(a: ItemV, b: ItemV) requires pair_lt(a, b) ensures !pair_lt(b, a)
{
    lemma_str_lt_irrefl(a.0); lemma_str_lt_irrefl(a.1);
    if str_lt(a.0, b.0) { lemma_str_lt_asym(a.0, b.0); }
    if str_lt(b.0, a.0) { lemma_str_lt_asym(b.0, a.0); }
    if str_lt(a.1, b.1) { lemma_str_lt_asym(a.1, b.1); }
}
/// membership under a name of its own: it keeps the long unions of the preset tables linear for the solver
#[verifier::opaque] pub open spec fn has(v: Seq<ItemV>, x: ItemV) -> bool { v.contains(x) }
pub broadcast proof fn lemma_has_union(r: Seq<ItemV>, a: Seq<ItemV>, b: Seq<ItemV>, x: ItemV)
    requires #[trigger] is_union(r, a, b) ensures (#[trigger] has(r, x)) == (has(a, x) || has(b, x)) { reveal(has); }
pub broadcast proof fn lemma_has_one(p: ItemV, x: ItemV) ensures #[trigger] has(seq![p], x) == (x == p)
{ reveal(has); lemma_one(p, x); }
pub broadcast proof fn lemma_union_asc(r: Seq<ItemV>, a: Seq<ItemV>, b: Seq<ItemV>)
    requires #[trigger] is_union(r, a, b) ensures strictly_asc(r) {}
pub proof fn lemma_table_has(r: Seq<ItemV>, f: spec_fn(ItemV) -> bool)
    requires strictly_asc(r), forall|x: ItemV| #[trigger] has(r, x) == f(x)
    ensures table_of(f) == r, is_table(r, f)
{
    reveal(has);
    assert forall|x: ItemV| #[trigger] r.contains(x) == f(x) by { assert(has(r, x) == r.contains(x)); }
    lemma_table_of(r, f);
}
pub broadcast proof fn lemma_one(p: ItemV, x: ItemV) ensures #[trigger] (seq![p].contains(x)) == (x == p)
{ if x == p { assert(seq![p][0] == x); } }

pub proof fn lemma_without_contains(a: Seq<ItemV>, b: Seq<ItemV>, n: int, x: ItemV)
    requires 0 <= n <= a.len(),
    ensures without(a, b, n).contains(x) <==> a.take(n).contains(x) && !b.contains(x), decreases n
{
    if n > 0 {
        lemma_without_contains(a, b, n - 1, x);
        let w = without(a, b, n - 1);
        assert(a.take(n) =~= a.take(n - 1).push(a[n - 1]));
        assert forall|s: Seq<ItemV>, e: ItemV| #[trigger] s.push(e).contains(x) == (s.contains(x) || e == x) by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(e)[i] == x); }
            if e == x { assert(s.push(e)[s.len() as int] == x); }
        }
    }
}
pub broadcast proof fn lemma_diff_contains(r: Seq<ItemV>, a: Seq<ItemV>, b: Seq<ItemV>, x: ItemV)
    requires #[trigger] is_diff(r, a, b),
    ensures #[trigger] r.contains(x) <==> a.contains(x) && !b.contains(x),
{
    let w = without(a, b, a.len() as int);
    lemma_without_contains(a, b, a.len() as int, x);
    assert(a.take(a.len() as int) =~= a);
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, w.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] r[i] == w[p[i]];
    if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(w[p[i]] == x); }
    if w.contains(x) { let k = choose|k: int| 0 <= k < w.len() && w[k] == x; assert(p.contains(k)); let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(r[i] == x); }
}

/// adding to an empty list of items leaves a table
pub broadcast proof fn lemma_union_empty(r: Seq<ItemV>, a: Seq<ItemV>, b: Seq<ItemV>)
    requires #[trigger] is_union(r, a, b), a.len() == 0, strictly_asc(b),
    ensures r == b,
{
    assert forall|x: ItemV| r.contains(x) <==> #[trigger] b.contains(x) by {}
    lemma_asc_unique(r, b);
}
pub broadcast proof fn lemma_tables_one(t: Seq<crate::table::Table>)
    ensures t.len() == 1 ==> #[trigger] tables_map(t, 1) == tmap(t[0].vx_items()),
{ reveal_with_fuel(tables_map, 3); }
pub open spec fn any_from(s: Seq<&str>, n: int, y: Seq<char>) -> bool decreases n { if n <= 0 { false } else { s[n - 1]@ == y || any_from(s, n - 1, y) } }
pub proof fn lemma_any_from(s: Seq<&str>, n: int, y: Seq<char>)
    requires 0 <= n <= s.len(),
    ensures any_from(s, n, y) <==> exists|i: int| 0 <= i < n && (#[trigger] s[i])@ == y, decreases n
{ if n > 0 { lemma_any_from(s, n - 1, y); } }
pub proof fn lemma_unification(u: crate::corr::unification::NCharactersToCharacter, x: ItemV)
    ensures crate::corr::Corr::vx_items(&u).contains(x) <==> x.1 == u.to@ && any_from(u.froms@, u.froms@.len() as int, x.0),
{
    lemma_any_from(u.froms@, u.froms@.len() as int, x.0);
    let v = crate::corr::Corr::vx_items(&u);
    if x.1 == u.to@ && any_from(u.froms@, u.froms@.len() as int, x.0) {
        let i = choose|i: int| 0 <= i < u.froms@.len() && (#[trigger] u.froms@[i])@ == x.0;
        assert(v[i] == x);
    }
}
