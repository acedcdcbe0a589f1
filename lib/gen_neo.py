"""Write spec/lemmas/neo.rs: the documented tables of the neologdn modifier (kana + dakuten / handakuten, tildes,
choonpus, hyphens), and the facts about them. Run by hand; the result is committed."""
import os, unicodedata
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
TEN = "かきくけこさしすせそたちつてとはひふへほう" "カキクケコサシスセソタチツテトハヒフヘホウ"
MARU = "ハヒフヘホ" "はひふへほ"
ten = [(k + "゛", unicodedata.normalize("NFC", k + "\u3099")) for k in TEN]
maru = [(k + "゜", unicodedata.normalize("NFC", k + "\u309a")) for k in MARU]
assert len(ten) == 42 and len(maru) == 10 and all(len(b) == 1 for _, b in ten + maru)
TILDES = "~∼∾〜〰～"
CHOONPUS = "﹣ｰ—―─━"
HYPHENS = "˗֊‐‑‒–⁃⁻₋−－"


def lit(s):
    return '"%s"@' % s


def pair(p):
    return "(%s, %s)" % (lit(p[0]), lit(p[1]))


o = ["// written by lib/gen_neo.py: the tables of the neologdn modifier"]
for name, rows in (("kana_ten", ten), ("kana_maru", maru)):
    o.append("pub open spec fn %s(i: int) -> ItemV {" % name)
    o.append("    " + "\n    else ".join("if i == %d { %s }" % (i, pair(p)) for i, p in enumerate(rows)) + "\n    else { (Seq::empty(), Seq::empty()) }")
    o.append("}")
o.append("pub open spec fn is_tilde(c: char) -> bool { " + " || ".join("c == '%s'" % c for c in TILDES) + " }")
for name, cs, to in (("in_choonpus", CHOONPUS, "ー"), ("in_hyphens", HYPHENS, "-")):
    o.append("pub open spec fn %s(x: ItemV) -> bool {" % name)
    o += ["    ||| x == (%s, %s)" % (lit(c), lit(to)) for c in cs]
    o.append("}")
o.append("""pub open spec fn in_neologdn(x: ItemV) -> bool { (in_all(x) && x != ("＝"@, "="@)) || in_choonpus(x) || in_hyphens(x) }
pub open spec fn neologdn_items() -> Seq<ItemV> { table_of(|x: ItemV| in_neologdn(x)) }
/// no space, letter or digit
pub open spec fn plain(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != ' ' && !alnum(s[i]) }
pub proof fn lemma_kana_plain(i: int)
    ensures 0 <= i < 42 ==> plain(kana_ten(i).0) && plain(kana_ten(i).1),
        0 <= i < 10 ==> plain(kana_maru(i).0) && plain(kana_maru(i).1),
{""")
for name, rows in (("kana_ten", ten), ("kana_maru", maru)):
    for i, p in enumerate(rows):
        o.append("    if i == %d { reveal_strlit(\"%s\"); reveal_strlit(\"%s\"); assert(plain(%s(%d).0)); assert(plain(%s(%d).1)); }" % (i, p[0], p[1], name, i, name, i))
o.append("}")
o.append("""/// the entries a map of kana has after the first n and k pairs
pub open spec fn kana_has(n: int, k: int, x: ItemV) -> bool {
    (exists|i: int| 0 <= i < n && x == #[trigger] kana_ten(i)) || (exists|i: int| 0 <= i < k && x == #[trigger] kana_maru(i))
}
pub open spec fn kana_key(n: int, k: int, x: Seq<char>) -> bool {
    (exists|i: int| 0 <= i < n && x == (#[trigger] kana_ten(i)).0) || (exists|i: int| 0 <= i < k && x == (#[trigger] kana_maru(i)).0)
}
pub open spec fn kana_upto(m: Map<String, String>, n: int, k: int) -> bool {
    &&& 0 <= n <= 42 && 0 <= k <= 10
    &&& forall|s: String| #[trigger] m.contains_key(s) ==> kana_has(n, k, (s@, m[s]@))
    &&& forall|s: String| kana_key(n, k, s@) ==> #[trigger] m.contains_key(s)
}
pub open spec fn is_kana_map(m: Map<String, String>) -> bool { kana_upto(m, 42, 10) }
pub proof fn lemma_kana_ten(m: Map<String, String>, n: int)
    requires kana_upto(m, n, 0), n < 42,
    ensures forall|f: String, t: String| (f@, t@) == kana_ten(n) ==> kana_upto(#[trigger] m.insert(f, t), n + 1, 0),
{
  assert forall|f: String, t: String| (f@, t@) == kana_ten(n) implies kana_upto(#[trigger] m.insert(f, t), n + 1, 0) by {
    let q = m.insert(f, t);
    assert forall|s: String| #[trigger] q.contains_key(s) implies kana_has(n + 1, 0, (s@, q[s]@)) by {
        if s == f { assert((s@, q[s]@) == kana_ten(n)); }
        else { assert(m.contains_key(s)); assert(kana_has(n, 0, (s@, m[s]@))); }
    }
    assert forall|s: String| kana_key(n + 1, 0, s@) implies #[trigger] q.contains_key(s) by {
        broadcast use ax_string_ext;
        if s@ == f@ { assert(s == f); }
        else { assert(kana_key(n, 0, s@)); assert(m.contains_key(s)); }
    }
  }
}
pub proof fn lemma_kana_maru(m: Map<String, String>, k: int)
    requires kana_upto(m, 42, k), k < 10,
    ensures forall|f: String, t: String| (f@, t@) == kana_maru(k) ==> kana_upto(#[trigger] m.insert(f, t), 42, k + 1),
{
  assert forall|f: String, t: String| (f@, t@) == kana_maru(k) implies kana_upto(#[trigger] m.insert(f, t), 42, k + 1) by {
    let q = m.insert(f, t);
    assert forall|s: String| #[trigger] q.contains_key(s) implies kana_has(42, k + 1, (s@, q[s]@)) by {
        if s == f { assert((s@, q[s]@) == kana_maru(k)); }
        else { assert(m.contains_key(s)); assert(kana_has(42, k, (s@, m[s]@))); }
    }
    assert forall|s: String| kana_key(42, k + 1, s@) implies #[trigger] q.contains_key(s) by {
        broadcast use ax_string_ext;
        if s@ == f@ { assert(s == f); }
        else { assert(kana_key(42, k, s@)); assert(m.contains_key(s)); }
    }
  }
}
pub proof fn lemma_kana_entries(m: Map<String, String>, i: int)
    requires is_kana_map(m), sorted_entries(entries(m), m), 0 <= i < entries(m).len(),
    ensures plain(entries(m)[i].0), plain(entries(m)[i].1),
{
    let e = entries(m)[i];
    assert(has_entry(m, e));
    let s = choose|s: String| #[trigger] m.contains_key(s) && s@ == e.0 && m[s]@ == e.1;
    assert(kana_has(42, 10, (s@, m[s]@)));
    if exists|i: int| 0 <= i < 42 && e == #[trigger] kana_ten(i) { lemma_kana_plain(choose|i: int| 0 <= i < 42 && e == #[trigger] kana_ten(i)); }
    else { lemma_kana_plain(choose|i: int| 0 <= i < 10 && e == #[trigger] kana_maru(i)); }
}

// ---- every map has a list of its entries, ascending -----------------------------------------------------------------
pub proof fn lemma_str_total(a: Seq<char>, b: Seq<char>)
    ensures str_lt(a, b) || a == b || str_lt(b, a), decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() > 0 && a[0] == b[0] {
        lemma_str_total(a.skip(1), b.skip(1));
        if a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    }
}
pub proof fn lemma_place(p: Seq<ItemV>, x: Seq<char>) -> (i: int)
    requires forall|i: int, j: int| 0 <= i < j < p.len() ==> str_lt((#[trigger] p[i]).0, (#[trigger] p[j]).0),
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 != x,
    ensures 0 <= i <= p.len(), forall|j: int| 0 <= j < i ==> str_lt((#[trigger] p[j]).0, x), forall|j: int| i <= j < p.len() ==> str_lt(x, (#[trigger] p[j]).0),
    decreases p.len()
{
    if p.len() == 0 { 0 } else {
        let q = p.drop_last();
        lemma_str_total(p.last().0, x);
        if str_lt(p.last().0, x) {
            assert forall|j: int| 0 <= j < p.len() implies str_lt((#[trigger] p[j]).0, x) by { if j < p.len() - 1 { assert(str_lt(p[j].0, p[p.len() - 1].0)); lemma_str_lt_trans(p[j].0, p.last().0, x); } }
            p.len() as int
        } else { let i = lemma_place(q, x); assert forall|j: int| i <= j < p.len() implies str_lt(x, (#[trigger] p[j]).0) by { if j < q.len() { assert(q[j] == p[j]); } } assert forall|j: int| 0 <= j < i implies str_lt((#[trigger] p[j]).0, x) by { assert(q[j] == p[j]); } i }
    }
}
pub proof fn lemma_sorted_exists(m: Map<String, String>) -> (p: Seq<ItemV>)
    ensures sorted_entries(p, m), sorted_entries(entries(m), m),
    decreases m.dom().len()
{
    broadcast use ax_string_ext;
    if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); let p = Seq::<ItemV>::empty(); assert(sorted_entries(p, m)); p }
    else {
        let k = m.dom().choose();
        let r = m.remove(k);
        let q = lemma_sorted_exists(r);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 != k@ by {
            assert(has_entry(r, q[i]));
        }
        let i = lemma_place(q, k@);
        let e = (k@, m[k]@);
        let p = q.insert(i, e);
        assert forall|a: int, b: int| 0 <= a < b < p.len() implies str_lt((#[trigger] p[a]).0, (#[trigger] p[b]).0) by {
            if a < i { assert(p[a] == q[a]); } else if a > i { assert(p[a] == q[a - 1]); }
            if b < i { assert(p[b] == q[b]); } else if b > i { assert(p[b] == q[b - 1]); }
        }
        assert forall|a: int| 0 <= a < p.len() implies has_entry(m, #[trigger] p[a]) by {
            if a == i { assert(m.contains_key(k) && k@ == e.0 && m[k]@ == e.1); }
            else {
                let x = if a < i { q[a] } else { q[a - 1] };
                assert(p[a] == x); assert(has_entry(r, x));
                let y = choose|y: String| #[trigger] r.contains_key(y) && y@ == x.0 && r[y]@ == x.1;
                assert(m.contains_key(y) && y@ == x.0 && m[y]@ == x.1);
            }
        }
        assert forall|y: String| #[trigger] m.contains_key(y) implies p.contains((y@, m[y]@)) by {
            if y == k { assert(p[i] == e); }
            else {
                assert(r.contains_key(y)); let x = (y@, r[y]@); assert(q.contains(x));
                let a = choose|a: int| 0 <= a < q.len() && q[a] == x;
                if a < i { assert(p[a] == x); } else { assert(p[a + 1] == x); }
            }
        }
        p
    }
}

// ---- the last step of neologdn changes nothing -------------------------------------------------------------------
/// every space has a letter or digit on both sides (b: what is left of s is one)
pub open spec fn nice(b: bool, s: Seq<char>) -> bool decreases s.len() {
    s.len() == 0 || ((s[0] == ' ' ==> b && s.len() > 1 && alnum(s[1])) && nice(alnum(s[0]), s.skip(1)))
}
pub open spec fn nice_i(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == ' ' ==> 0 < i && alnum(s[i - 1]) && i + 1 < s.len() && alnum(s[i + 1])
}
pub proof fn lemma_nice_of(b: bool, s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == ' ' ==> (if i == 0 { b } else { alnum(s[i - 1]) }) && i + 1 < s.len() && alnum(s[i + 1]),
    ensures nice(b, s), decreases s.len()
{
    if s.len() > 0 {
        let q = s.skip(1);
        assert forall|i: int| 0 <= i < q.len() && #[trigger] q[i] == ' ' implies (if i == 0 { alnum(s[0]) } else { alnum(q[i - 1]) }) && i + 1 < q.len() && alnum(q[i + 1]) by { assert(s[i + 1] == ' '); }
        lemma_nice_of(alnum(s[0]), q);
    }
}
pub proof fn lemma_nice_to(b: bool, s: Seq<char>)
    requires nice(b, s),
    ensures forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == ' ' ==> (if i == 0 { b } else { alnum(s[i - 1]) }) && i + 1 < s.len() && alnum(s[i + 1]),
    decreases s.len()
{
    if s.len() > 0 {
        let q = s.skip(1);
        lemma_nice_to(alnum(s[0]), q);
        assert forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == ' ' implies (if i == 0 { b } else { alnum(s[i - 1]) }) && i + 1 < s.len() && alnum(s[i + 1]) by {
            if i > 0 { assert(q[i - 1] == ' '); if i > 1 { assert(q[i - 2] == s[i - 1]); } assert(q[i] == s[i + 1]); }
        }
    }
}
pub proof fn lemma_nice_mono(s: Seq<char>) requires nice(false, s) ensures nice(true, s) {}
pub proof fn lemma_nice_skip(b: bool, s: Seq<char>, k: int)
    requires nice(b, s), 0 < k <= s.len(),
    ensures nice(alnum(s[k - 1]), s.skip(k)), decreases k
{
    if k > 1 { lemma_nice_skip(alnum(s[0]), s.skip(1), k - 1); assert(s.skip(1).skip(k - 1) =~= s.skip(k)); }
}
pub proof fn lemma_nice_cat(b: bool, t: Seq<char>, r: Seq<char>)
    requires nice(false, r), t.len() == 0 || plain(t),
    ensures nice(b, t + r), decreases t.len()
{
    if t.len() == 0 { assert(t + r =~= r); lemma_nice_mono2(b, r); }
    else {
        assert((t + r).skip(1) =~= t.skip(1) + r);
        assert(t.skip(1).len() > 0 ==> plain(t.skip(1)));
        lemma_nice_cat(false, t.skip(1), r);
        assert(t[0] != ' ' && !alnum(t[0]));
    }
}
pub proof fn lemma_nice_mono2(b: bool, s: Seq<char>) requires nice(false, s) ensures nice(b, s) {}
pub proof fn lemma_nice_repl(b: bool, s: Seq<char>, f: Seq<char>, t: Seq<char>)
    requires nice(b, s), plain(f), plain(t),
    ensures nice(b, repl(s, f, t)), s.len() > 0 && alnum(s[0]) ==> repl(s, f, t).len() > 0 && repl(s, f, t)[0] == s[0],
    decreases s.len()
{
    if s.len() < f.len() {}
    else if s.take(f.len() as int) == f {
        let k = f.len() as int;
        assert(s.take(k)[k - 1] == f[k - 1]);
        assert(!alnum(s[k - 1]));
        assert(s.take(k)[0] == f[0]);
        lemma_nice_skip(b, s, k);
        lemma_nice_repl(false, s.skip(k), f, t);
        lemma_nice_cat(b, t, repl(s.skip(k), f, t));
    } else {
        lemma_nice_repl(alnum(s[0]), s.skip(1), f, t);
        let r = repl(s.skip(1), f, t);
        let q = seq![s[0]] + r;
        assert(q.skip(1) =~= r);
        assert(q[0] == s[0]);
        if s[0] == ' ' { assert(s.skip(1)[0] == s[1]); assert(q[1] == r[0]); }
    }
}
pub proof fn lemma_nice_lig(m: Map<String, String>, s: Seq<char>, n: int)
    requires is_kana_map(m), sorted_entries(entries(m), m), nice(false, s), n <= entries(m).len(),
    ensures nice(false, lig(entries(m), s, n)), decreases n
{
    if n > 0 { lemma_nice_lig(m, s, n - 1); lemma_kana_entries(m, n - 1); lemma_nice_repl(false, lig(entries(m), s, n - 1), entries(m)[n - 1].0, entries(m)[n - 1].1); }
}
pub proof fn lemma_dotted_nice(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures nice_i(dotted(s, n)),
        dotted(s, n).len() > 0 <==> last_ns(s, n) >= 0,
        last_ns(s, n) < n,
        dotted(s, n).len() > 0 ==> dotted(s, n).last() == s[last_ns(s, n)],
        last_ns(s, n) >= 0 ==> s[last_ns(s, n)] != ' ',
    decreases n
{
    if n > 0 {
        lemma_dotted_nice(s, n - 1);
        let p = dotted(s, n - 1); let r = dotted(s, n);
        if s[n - 1] == ' ' { }
        else if n >= 2 && s[n - 2] == ' ' && alnum(s[n - 1]) && last_ns(s, n - 1) >= 0 && alnum(s[last_ns(s, n - 1)]) {
            assert(r =~= p.push(' ').push(s[n - 1]));
            assert forall|i: int| 0 <= i < r.len() && #[trigger] r[i] == ' ' implies 0 < i && alnum(r[i - 1]) && i + 1 < r.len() && alnum(r[i + 1]) by {
                if i < p.len() { assert(p[i] == ' '); assert(p[i + 1] == r[i + 1]); } else { assert(i == p.len()); assert(r[i - 1] == p.last()); }
            }
        } else {
            assert(r =~= p.push(s[n - 1]));
            assert forall|i: int| 0 <= i < r.len() && #[trigger] r[i] == ' ' implies 0 < i && alnum(r[i - 1]) && i + 1 < r.len() && alnum(r[i + 1]) by {
                assert(i < p.len()); assert(p[i] == ' '); assert(p[i + 1] == r[i + 1]);
            }
        }
    }
}
pub proof fn lemma_dotted_same(s: Seq<char>, n: int)
    requires nice_i(s), 0 <= n <= s.len(),
    ensures dotted(s, n) == (if n > 0 && s[n - 1] == ' ' { s.take(n - 1) } else { s.take(n) }),
        n > 0 ==> last_ns(s, n) == (if s[n - 1] == ' ' { n - 2 } else { n - 1 }),
    decreases n
{
    if n > 0 {
        lemma_dotted_same(s, n - 1);
        if s[n - 1] == ' ' { assert(alnum(s[n - 2])); }
        else if n >= 2 && s[n - 2] == ' ' { assert(s.take(n) =~= s.take(n - 2).push(' ').push(s[n - 1])); assert(alnum(s[n - 2 + 1])); assert(alnum(s[n - 3])); }
        else { assert(s.take(n) =~= s.take(n - 1).push(s[n - 1])); }
    } else { assert(s.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_elim_nice(k: Set<char>, s: Seq<char>, n: int)
    requires nice_i(s), 0 <= n <= s.len(), forall|c: char| #[trigger] k.contains(c) ==> c != ' ' && !alnum(c),
    ensures
        forall|i: int| 0 <= i < elim(k, s, n).len() && #[trigger] elim(k, s, n)[i] == ' ' ==> 0 < i && alnum(elim(k, s, n)[i - 1]) && (i + 1 < elim(k, s, n).len() ==> alnum(elim(k, s, n)[i + 1])),
        elim(k, s, n).len() > 0 && elim(k, s, n).last() == ' ' ==> n > 0 && s[n - 1] == ' ',
        n > 0 && alnum(s[n - 1]) ==> elim(k, s, n).len() > 0 && elim(k, s, n).last() == s[n - 1],
    decreases n
{
    if n > 0 {
        lemma_elim_nice(k, s, n - 1);
        let p = elim(k, s, n - 1); let r = elim(k, s, n);
        if k.contains(s[n - 1]) {
            if p.len() > 0 && p.last() == ' ' { assert(s[n - 2] == ' '); assert(alnum(s[n - 2 + 1])); }
        } else {
            assert(r =~= p.push(s[n - 1]));
            assert forall|i: int| 0 <= i < r.len() && #[trigger] r[i] == ' ' implies 0 < i && alnum(r[i - 1]) && (i + 1 < r.len() ==> alnum(r[i + 1])) by {
                if i < p.len() { assert(p[i] == ' '); if i + 1 == p.len() { assert(s[n - 2] == ' '); assert(alnum(s[n - 2 + 1])); } else { assert(p[i + 1] == r[i + 1]); } }
                else { assert(s[n - 1] == ' '); assert(n >= 2 && alnum(s[n - 2])); }
            }
        }
    }
}
pub proof fn lemma_neologdn_last(m: Map<char, char>, tildes: Set<char>, kanas: Map<String, String>, s: Seq<char>)
    requires is_kana_map(kanas), forall|c: char| #[trigger] tildes.contains(c) == is_tilde(c),
    ensures ({
        let a = conv(m, s);
        let b = reduce('ー', a, a.len() as int);
        let c = dotted(b, b.len() as int);
        let d = elim(tildes, c, c.len() as int);
        ligature(kanas, d) == neologdn(m, tildes, kanas, s)
    })
{
    let a = conv(m, s);
    let b = reduce('ー', a, a.len() as int);
    let c = dotted(b, b.len() as int);
    let d = elim(tildes, c, c.len() as int);
    let e = ligature(kanas, d);
    lemma_dotted_nice(b, b.len() as int);
    lemma_elim_nice(tildes, c, c.len() as int);
    assert(nice_i(d)) by {
        assert forall|i: int| 0 <= i < d.len() && #[trigger] d[i] == ' ' implies 0 < i && alnum(d[i - 1]) && i + 1 < d.len() && alnum(d[i + 1]) by {
            if i + 1 == d.len() { assert(d.last() == ' '); assert(c[c.len() - 1] == ' '); }
        }
    }
    let _ = lemma_sorted_exists(kanas);
    lemma_nice_of(false, d);
    lemma_nice_lig(kanas, d, entries(kanas).len() as int);
    lemma_nice_to(false, e);
    assert(nice_i(e));
    lemma_dotted_same(e, e.len() as int);
    if e.len() > 0 && e[e.len() - 1] == ' ' { assert(false); }
    assert(e.take(e.len() as int) =~= e);
}""")
open(os.path.join(SPEC, "lemmas", "neo.rs"), "w", encoding="utf-8").write("\n".join(o) + "\n")
