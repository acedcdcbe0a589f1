"""Write spec/contracts/sets.vc from spec/tables.json (the documented pairs of the preset tables).

Run by hand when tables.json changes; the result is committed. The pairs are the ones the doc comments of
/repo/src/characters_set state; all but the listed exceptions are also the Unicode NFKC mapping.
"""
import json, os, unicodedata

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
T = json.load(open(os.path.join(SPEC, "tables.json"), encoding="utf-8"))
# where the documented pair is not the NFKC mapping
NOT_NFKC = {"”", "’", "〜", "㏗", "㏙", "㏍"}


def lit(s):
    return '"%s"@' % s.replace("\\", "\\\\").replace('"', '\\"')


SETS = [("digits", "Digits", "DIGITS"), ("punctuations", "Punctuations", "PUNCTUATIONS"),
        ("alphabets", "Alphabets", "ALPHABETS"), ("kanas", "Kanas", "KANAS"),
        ("cjk_compatibilities", "CjkCompatibilities", "CJK_COMPATIBILITIES")]
seen = {}
for t in T:
    f, to = t["from"], t["to"]
    assert len(f) == 1 and to, t
    assert f not in seen, t
    seen[f] = to
    n = unicodedata.normalize("NFKC", f)
    n = n.replace("\u2044", "/").replace("\u2215", "/").replace("\u03bc", "\u00b5")
    assert n == to or f in NOT_NFKC, (t, n)

o = ["## written by lib/gen_sets.py from spec/tables.json"]
sp = ["// written by lib/gen_sets.py from spec/tables.json: the documented pairs of the preset tables",
      ]
for mod, ty, const in SETS:
    rows = [t for t in T if t["set"] == mod]
    sp.append("/// the %d documented pairs of %s" % (len(rows), const))
    sp.append("pub open spec fn in_%s(x: ItemV) -> bool {" % mod)
    sp.append("\n".join("    ||| x == (%s, %s)" % (lit(t["from"]), lit(t["to"])) for t in rows))
    sp.append("}")
    o.append("#impl characters_set::%s::%s@Corr" % (mod, ty))
    o.append("    open spec fn vx_items(&self) -> Seq<ItemV> { table_of(|x: ItemV| in_%s(x)) }" % mod)
    o.append("    open spec fn vx_fact(&self) -> bool { is_table(self.vx_items(), |x: ItemV| in_%s(x)) }" % mod)
    o.append("#fn characters_set::%s::%s@Corr::items (r)" % (mod, ty))
    o.append("#attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]")
    o.append("#start")
    o.append("    hide(crate::sp::is_union); hide(crate::sp::strictly_asc); broadcast use {lemma_has_union, lemma_has_one, lemma_union_asc};")
    o.append("#ret vx_r")
    o.append("    proof {")
    o.append("        assert forall|x: ItemV| #[trigger] has(ivs(vx_r@), x) == in_%s(x) by {}" % mod)
    o.append("        lemma_table_has(ivs(vx_r@), |x: ItemV| in_%s(x));" % mod)
    o.append("    }")
    for k in ("new", "corr"):
        o.append("#fn characters_set::%s::%s::%s (r)" % (mod, ty, k))
        if k == "corr":
            o.append("    ensures r.inner == self,")
    o.append("#fn characters_set::%s::%s (r)" % (mod, const))
    for t in rows:
        o.append("#fn %s (r)" % t["key"])
        o.append("    ensures r.inner.vx_items() == seq![(%s, %s)]," % (lit(t["from"]), lit(t["to"])))
sp.append("/// the preset: every set but the CJK compatibility characters, whose targets are longer than one character")
sp.append("pub open spec fn in_all(x: ItemV) -> bool { in_digits(x) || in_punctuations(x) || in_alphabets(x) || in_kanas(x) }")
sp.append("pub open spec fn all_items() -> Seq<ItemV> { table_of(|x: ItemV| in_all(x)) }")
o.append("""#impl characters_set::All@Corr
    open spec fn vx_items(&self) -> Seq<ItemV> { all_items() }
    open spec fn vx_fact(&self) -> bool { is_table(all_items(), |x: ItemV| in_all(x)) }
#fn characters_set::All@Corr::items (r)
#ret vx_r
    proof {
        assert forall|x: ItemV| #[trigger] ivs(vx_r@).contains(x) == in_all(x) by {}
        lemma_table_of(ivs(vx_r@), |x: ItemV| in_all(x));
    }
#fn characters_set::All::new (r)
#fn characters_set::All::corr (r)
    ensures r.inner == self,
#fn characters_set::ALL (r)
    ensures r.inner == (crate::characters_set::All{}),""")
open(os.path.join(SPEC, "contracts", "sets.vc"), "w", encoding="utf-8").write("\n".join(o) + "\n")
open(os.path.join(SPEC, "lemmas", "tables.rs"), "w", encoding="utf-8").write("\n".join(sp) + "\n")
r = ["//! Written by lib/gen_sets.py: every constant of the preset tables by name.", "use chanoma::{Corr, Item};",
     "pub fn consts() -> Vec<(&'static str, Vec<Item>)> {", "    vec!["]
r += ['        ("%s", chanoma::%s.items()),' % (t["key"], t["key"]) for t in T]
r += ["    ]", "}"]
open(os.path.join(os.path.dirname(SPEC), "witness", "src", "consts.rs"), "w", encoding="utf-8").write("\n".join(r) + "\n")
