"""Assemble one Verus file from the code extracted from /repo and the contracts in /verif/spec.

The executable text of every function comes from `vx` (run on /repo on every check); this file only adds
specification text around and between the extracted statements.
"""
import difflib, hashlib, json, os, re, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
VX_BIN = os.path.join(VERIF, "vx", "target", "release", "vx")


# ------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, key, ret, where):
        self.key, self.ret, self.src = key, ret, where
        self.spec, self.start, self.tail = [], [], []
        self.loops = {}          # n -> {inv,begin,end,after,before}
        self.attrs = []
        self.skip = False
        self.trusted = False
        self.isolate = False
        self.retname, self.retproof = None, []   # name and proof text for the value of the tail expression
        self.alts = []           # other annotations for the same contract, for other ways to write the body
        self.free = False        # a default method of a trait, verified as a function over every implementor


def parse_contracts(text, src, out):
    """out: dict fns, traits, impls, mods, types"""
    cur = None
    buf = out["_"]
    loop = None
    for ln, line in enumerate(text.split("\n"), 1):
        if line.startswith("##") or not line.startswith("#") or line.startswith("#["):
            if line.startswith("##"):
                continue
            buf.append(line)
            continue
        w = line[1:].split()
        k = w[0]
        if k == "fn":
            key = w[1]
            ret = w[2].strip("()") if len(w) > 2 else "vx_r"
            cur = Contract(key, ret, "%s:%d" % (src, ln))
            if key in out["fns"]:
                raise Exception("duplicate contract " + key)
            out["fns"][key] = cur
            top = cur
            buf = cur.spec
        elif k == "alt":
            cur = Contract(top.key, top.ret, "%s:%d" % (src, ln))
            top.alts.append(cur)
            buf = cur.start
        elif k in ("trait", "impl", "mod", "type"):
            buf = out[k + "s"].setdefault(w[1] if len(w) > 1 else "", [])
        elif k == "start":
            buf = cur.start
        elif k == "tail":
            buf = cur.tail
        elif k == "loop":
            loop = cur.loops.setdefault(int(w[1]), {"inv": [], "begin": [], "end": [], "after": [], "before": []})
            buf = loop["inv"]
        elif k in ("begin", "end", "after", "before", "inv"):
            buf = loop[k]
        elif k == "attr":
            cur.attrs.append(line[len("#attr "):])
        elif k == "skip":
            cur.skip = True
        elif k == "ret":
            cur.retname = w[1]
            buf = cur.retproof
        elif k == "free":
            cur.free = True
        elif k == "isolate":
            cur.isolate = True
        elif k == "trusted":
            cur.trusted = True
        else:
            raise Exception("%s:%d: unknown section %s" % (src, ln, k))


def load_contracts():
    out = {"fns": {}, "traits": {}, "impls": {}, "mods": {}, "types": {}, "_": []}
    d = os.path.join(SPEC, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".vc"):
            parse_contracts(open(os.path.join(d, f), encoding="utf-8").read(), f, out)
            out["_"] = []
    return out


# ------------------------------------------------------------------ names
def strip_vx(n):
    return re.sub(r"_vx\d+$", "", n)


def align_names(base, cur):
    """base, cur: lists of [name, init] in order. Returns a renaming of base names to current names
    (only those which changed); names are matched by position in the longest common alignment."""
    ren = {}
    bn = [(strip_vx(n), norm_init(i)) for n, i in base]
    cn = [(strip_vx(n), norm_init(i)) for n, i in cur]
    sm = difflib.SequenceMatcher(None, [x for x in bn], [x for x in cn], autojunk=False)
    pairs = []
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag == "equal" or (tag == "replace" and i2 - i1 == j2 - j1):
            pairs += list(zip(range(i1, i2), range(j1, j2)))
        elif tag == "replace":
            # match what can be matched by name, then by initialiser
            used = set()
            for i in range(i1, i2):
                for j in range(j1, j2):
                    if j in used:
                        continue
                    if bn[i][0] == cn[j][0] or (bn[i][1] == cn[j][1] and bn[i][1] not in ("for", "let", "closure")):
                        used.add(j)
                        pairs.append((i, j))
                        break
    for i, j in pairs:
        b, c = base[i][0], cur[j][0]
        if b != c and b not in ren:
            ren[b] = c
    # a base name that still exists under its own name keeps it unless its slot was renamed everywhere
    curnames = {n for n, _ in cur}
    for b in list(ren):
        if b in curnames and sum(1 for n, _ in base if n == b) > 1:
            del ren[b]
    return ren


def norm_init(i):
    return re.sub(r"\s+", "", re.sub(r"_vx\d+", "", i))


def rename_text(text, ren):
    if not ren:
        return text
    return re.sub(r"(?<![\w.])([A-Za-z_]\w*)\b", lambda m: ren.get(m.group(1), m.group(1)), text)


def units(text, clauses):
    """split annotations into clauses or statements"""
    out, cur, depth, i = [], "", 0, 0
    while i < len(text):
        ch = text[i]
        if text.startswith("//", i):
            j = text.find("\n", i)
            i = len(text) if j < 0 else j
            continue
        if ch in "\"'" and (m := re.match(r"\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\[^']*)'", text[i:])):
            cur += m.group(0)
            i += len(m.group(0))
            continue
        if (m := re.match(r"(?:forall|exists|choose)\s*\|[^|]*\||::\s*<[^;{}()]*?>(?=\()", text[i:])):
            cur += m.group(0)
            i += len(m.group(0))
            continue
        depth += ch in "([{"
        depth -= ch in ")]}"
        cur += ch
        i += 1
        if depth == 0 and ch == ("," if clauses else ";"):
            out.append(cur)
            cur = ""
        elif depth == 0 and not clauses and ch == "}":
            rest = text[i:].lstrip()
            if not re.match(r"(else\b|by\b|[;,).=])", rest):
                out.append(cur)
                cur = ""
    if cur.strip():
        if clauses and re.match(r"\s*decreases", cur) is None and "decreases" in cur:
            a, b = re.split(r"(?=\bdecreases\b)", cur, maxsplit=1)
            out += [a, b]
        else:
            out.append(cur)
    return out


# ------------------------------------------------------------------ emission
LOOP = re.compile(r"vx_lp ! \((\d+)(?: , (\w+))? \) ;(\s*(?:'\w+ : )?(?:while [^{]*?|loop ))\{(\s*)vx_lb ! \(\1 \) ;")


class Out:
    def __init__(self):
        self.lines = []
        self.marks = []   # (line, key)

    def put(self, text, key=None):
        s = len(self.lines) + 1
        self.lines += text.split("\n")
        if key:
            self.marks.append((s, len(self.lines), key))

    def text(self):
        return "\n".join(self.lines) + "\n"


class Assembler:
    def __init__(self, vx, contracts, baseline, stub=(), candidates=None):
        self.vx, self.c, self.base = vx, contracts, baseline
        self.stub = dict(stub)        # key -> reason: emitted without body
        self.lost = {}                # key -> reason the annotations no longer fit
        self.used = set()
        self.kept = []                # functions emitted with their real body
        self.opaque = []              # functions emitted without body because nothing depends on them
        self.notes = []
        self.subst = {}               # key -> {name in the annotations: name in the current text}
        self.alt = {}                 # key -> which of the other annotations to use
        self.dropped = {}             # key -> annotations left out (they no longer make sense in the function)
        self.force = set()            # annotated although the number of loops changed
        self.units = {}               # number -> (key, annotation)
        self.bare = set()             # functions whose contract cannot be stated any more
        self.canary = set()           # functions whose result gets an unprovable assertion in front
        self.canaries = []
        self.weak = []                # derived impls that the library model takes for structural and that are gone

    def model(self, text):
        """lines `//@needs TYPE: D, E` .. `//@end` of the library model hold while TYPE derives D, E (not D: !D);
        FIELD_ORDER(TYPE; a, b) is the order of its fields in the declaration (which derived comparisons follow)"""
        types = {m["path"] + "::" + it["name"]: it for m in self.vx["modules"] for it in m["items"] if it["kind"] == "type"}

        def blk(m):
            t, ds = m.group(1), [d.strip() for d in m.group(2).split(",")]
            it = types.get(t)
            miss = [d for d in ds if not it or (d.strip("!") in it["derives"]) == d.startswith("!")]
            if not miss:
                return m.group(3)
            self.weak.append("%s does not derive as before: %s" % (t, ", ".join(miss)))
            return ""

        def order(m):
            t, fs = m.group(1), [f.strip() for f in m.group(2).split(",")]
            have = re.findall(r"(\w+) :(?!:)", types[t]["text"].split("{", 1)[-1]) if t in types else []
            if sorted(have) != sorted(fs):
                self.weak.append("the fields of %s changed" % t)
                have = fs
            return "(%s), (%s)" % (", ".join("self.%s@" % f for f in have), ", ".join("o.%s@" % f for f in have))
        text = re.sub(r"//@needs (\S+): ([^\n]*)\n(.*?)//@end[^\n]*\n", blk, text, flags=re.S)
        text = re.sub(r"FIELD_ORDER\((\S+); ([^)]*)\)", order, text)
        if "ax_item_key()" not in text:
            text = text.replace("ax_item_key, ", "")
        return text

    def fn_text(self, f, in_trait_impl=False, trait_decl=False, pad="    ", free=None):
        key = f["key"]
        c = self.c["fns"].get(key)
        if c and c.skip:
            return None
        if c:
            self.used.add(key)
        ren, pren, hidden = {}, {}, set()
        b = self.base.get(key)
        if c and b is not None:
            ren = align_names(b["params"] and [[p, "param"] for p in b["params"]] or [], [[p, "param"] for p in f["params"]])
            pren = dict(ren)
            for x, y in align_names(b["locals"], f["locals"]).items():
                # a local that hides a parameter: what stands in and after the loops means the local
                if x not in b["params"]:
                    ren.setdefault(x, y)
                else:
                    ren[x] = y
                    hidden.add(x)
            for x in b["params"]:
                if x in {n for n, _ in b["locals"]} and x in {n for n, _ in f["locals"]} and x not in hidden:
                    ren.pop(x, None)
        for x, y in self.subst.get(key, {}).items():
            for n in [n for n, v in ren.items() if v == x]:
                ren[n] = y
            ren.setdefault(x, y)
        vis = "" if (f["trait"] or not f["vis"]) and (in_trait_impl or trait_decl) else "pub "
        head = f["head"].replace("fn as_ref ", "fn vx_as_ref ")
        ret = f["ret"]
        where = f["where"]
        body0 = f["body"]
        if c and c.free and not free:
            return None
        if free:
            def fr(t):
                t = re.sub(r"\bSelf\b", "VxT", t)
                return re.sub(r"\bself\b", "vx_self", t)
            head = re.sub(r"fn (\w+) ", r"fn \1_default < VxT : %s > " % free, head, count=1)
            head = re.sub(r"& self\b", "vx_self : & VxT", head)
            head = re.sub(r"\( self\b|\(self\b", "( vx_self : VxT", head)
            ret, where, body0 = fr(ret), fr(where), fr(body0)
        rn = c.ret if c else "vx_r"
        sig = vis + head + (" -> (%s: %s)" % (rn, ret) if ret else "")
        if where:
            sig += " " + where
        spec = rename_text("\n".join(c.spec), pren).strip() if c else ""
        if key in self.bare:
            spec = ""
        if trait_decl and f["body"] is None:
            return pad + sig + ("\n" + spec if spec else "") + ";"
        attrs = []
        why = None
        if c is None and not (f.get("auto")):
            why = "no contract"
        if c and c.trusted:
            why = "trusted"
        if key in self.stub:
            why = self.stub[key]
        if f["unsupported"] and why is None:
            why = "unsupported: " + "; ".join(sorted(set(f["unsupported"])))
        if why is None and c:
            if b is not None and b["loops"] != f["loops"] and c.loops and key not in self.force:
                why = "lost: the number of loops changed from %d to %d" % (b["loops"], f["loops"])
        if why is not None:
            if c is not None and not c.trusted:
                self.lost[key] = why
            else:
                self.opaque.append(key)
            at = "#[verifier::external_body]"
            return pad + at + " " + sig + ("\n" + spec if spec else "") + "\n{ unimplemented!() }"
        body, ok = self.body_text(f, c, ren, body0, dict({k: v for k, v in ren.items() if not b or k not in b["params"]}, **pren))
        if not (c and c.isolate):
            attrs.append("#[verifier::loop_isolation(false)]")
        if c:
            attrs += c.attrs
        self.kept.append(key)
        return pad + " ".join(attrs) + " " + sig + ("\n" + spec if spec else "") + "\n" + body

    def annotation(self, key, name, lines, ren, clauses=False):
        """the text of a section, unit by unit (clauses end in a comma, statements in ; or a block), without the dropped ones"""
        gone = self.dropped.get(key, ())
        out = []
        for i, u in enumerate(units("\n".join(lines), clauses)):
            if not u.strip():
                continue
            uid = "%s %d" % (name, i)
            if not clauses and (m := re.match(r"(\s*proof\s*\{)(.*)\}\s*$", u, re.S)):
                out.append("%s %s }" % (m.group(1), self.annotation(key, uid + " in", m.group(2).split("\n"), ren)))
                continue
            if uid in gone:
                continue
            n = len(self.units)
            self.units[n] = (key, uid)
            out.append("/*<u%d*/%s/*u%d>*/" % (n, rename_text(u, ren), n))
        return "\n".join(out)

    def body_text(self, f, c, ren, body, sren):
        empty = {"inv": [], "begin": [], "end": [], "after": [], "before": []}
        if c and f["key"] in self.alt:
            a = c.alts[self.alt[f["key"]]]
            ren, sren = {}, {k: v for k, v in sren.items() if k in [p for p in (self.base.get(f["key"]) or {"params": []})["params"]]}
            ren = dict(sren, **self.subst.get(f["key"], {}))
            c = a

        def sec(n, k):
            l = (c.loops if c else {}).get(n, empty)[k]
            return self.annotation(f["key"], "%s %d" % (k, n), l, ren, k == "inv")

        def lp(m):
            n = int(m.group(1))
            it = m.group(2)
            inv = sec(n, "inv").strip()
            pre = sec(n, "before")
            out = pre + "\n"
            dec = ""
            if it:
                out += "let ghost vx_s%d = %s.seq();" % (n, it)
                base = "%s.seq() == vx_s%d, 0 <= %s.pos() <= vx_s%d.len()," % (it, n, it, n)
                dec = "decreases vx_s%d.len() - %s.pos()" % (n, it)
            else:
                base = ""
            if "decreases" in inv:
                dec = ""
            inv = (base + "\n" + inv).strip()
            bare = re.sub(r"/\*<?u\d+>?\*/", "", inv).strip()
            if bare and not bare.startswith("decreases"):
                if not re.search(r"\n\s*decreases", bare) and not bare.endswith(","):
                    inv += ","
                inv = "invariant " + inv
            return out + m.group(3) + "\n" + inv + "\n" + dec + "\n{" + m.group(4) + sec(n, "begin")

        n0 = len(LOOP.findall(body))
        body = LOOP.sub(lp, body)
        if "vx_lp" in body:
            body = re.sub(r"vx_lp ! \([^)]*\) ;", "", body)
        body = re.sub(r"vx_lb ! \((\d+) \) ;", "", body)
        body = re.sub(r"vx_le ! \((\d+) \) ;", lambda m: sec(int(m.group(1)), "end"), body)
        body = re.sub(r"vx_la ! \((\d+) \) ;", lambda m: sec(int(m.group(1)), "after"), body)
        body = re.sub(r"vx_chain ! \(\) ;", "", body)
        tail = self.annotation(f["key"], "tail", c.tail, ren) if c else ""
        # only the outermost marker is the tail of this function
        i = body.rfind("vx_tail ! () ;")
        if i >= 0:
            if f["key"] in self.canary:
                tail += "\nassert(false);\n"
                self.canaries.append(f["key"])
            rest = body[i + len("vx_tail ! () ;"):]
            if c and c.retname and rest.strip() != "}":
                j = rest.rindex("}")
                rest = "\nlet %s = %s;\n%s\n%s\n}" % (c.retname, rest[:j].strip(), self.annotation(f["key"], "ret", c.retproof, ren), c.retname)
            body = body[:i] + tail + rest
        body = re.sub(r"vx_tail ! \(\) ;", "", body)
        lits = self.literals(body)
        if c and lits:
            i = body.index("{")
            body = body[:i + 1] + "\nproof { " + self.apart(lits) + " }\n" + body[i + 1:]
        if c and c.start:
            i = body.index("{")
            body = body[:i + 1] + "\n" + self.annotation(f["key"], "start", c.start, sren) + body[i + 1:]
        return body, True

    @staticmethod
    def literals(body):
        """which literals differ from which: of the ones a string is compared with"""
        if "vx_str_eq" not in body and "vx_same" not in body:
            return []
        ls = []
        for l in re.findall(r'"[^"\\]{0,60}"', body):
            if l not in ls:
                ls.append(l)
        return [l for l in ls if " " not in l][:40]

    @staticmethod
    def apart(lits):
        out = ["reveal_strlit(%s); assert(%s@.len() == %d);" % (l, l, len(l) - 2) for l in lits]
        seen = set()
        for i, a in enumerate(lits):
            for b in lits[i + 1:]:
                if len(a) == len(b):
                    p = next(k for k in range(len(a)) if a[k] != b[k]) - 1
                    for l in (a, b):
                        if (l, p) not in seen:
                            seen.add((l, p))
                            out.append("assert(%s@[%d] == '%s');" % (l, p, l[p + 1].replace("'", "\\'")))
        return " ".join(out)

    def module(self, o, m, children):
        c = self.c
        for u in m["uses"]:
            o.put(u)
        o.put("use vstd::prelude::*; use crate::ext::*; use crate::vx::*; use crate::sp::*; use crate::lem::*; use crate::tables::*; use crate::neo::*; use crate::conf::*; broadcast use {vx_axioms, lemma_enum_perm};")
        extra = c["mods"].get(m["path"])
        if extra:
            o.put("\n".join(extra))
        for it in m["items"]:
            k = it["kind"]
            if k == "type":
                self.type_item(o, m, it)
            elif k == "fn":
                t = self.fn_text(it["fn"], pad="")
                if t:
                    o.put(t, it["fn"]["key"])
            elif k == "trait":
                ex = c["traits"].get(m["path"] + "::" + it["name"], [])
                o.put(it["head"] + " {\n" + "\n".join(it.get("assoc") or []) + "\n" + "\n".join(ex))
                for f in it["fns"]:
                    t = self.fn_text(f, trait_decl=True)
                    if t:
                        o.put(t, f["key"])
                o.put("}")
                for f in it["fns"]:
                    cc = c["fns"].get(f["key"])
                    if cc and cc.free and f["body"] is not None:
                        o.put(self.fn_text(f, pad="", free=it["name"]), f["key"])
            elif k == "impl":
                ik = m["path"] + "::" + it["self"] + ("@" + it["traitkey"] if it.get("trait") else "")
                ex = c["impls"].get(ik, [])
                ts = [(self.fn_text(f, in_trait_impl=bool(it.get("trait"))), f["key"]) for f in it["fns"]]
                ts = [x for x in ts if x[0]]
                if it.get("trait") and not ts and it["fns"]:
                    continue
                ex = ex or self.default_spec(it)
                o.put(it["head"] + " " + it["where"] + " {\n" + "\n".join(it.get("assoc") or []) + "\n" + "\n".join(ex))
                for t, kk in ts:
                    o.put(t, kk)
                o.put("}")
        for p, sub in children:
            o.put("pub mod %s {" % p)
            self.module(o, sub["m"], sub["c"])
            o.put("}")

    def default_spec(self, it):
        """the std-like traits of ext.rs have one spec function each; without a contract it says nothing"""
        t = it.get("traitkey") or ""
        if t.startswith("From<"):
            return ["open spec fn vx_from_ok(t: %s, r: Self) -> bool { true }" % t[5:-1]]
        if t == "Default":
            return ["open spec fn vx_default_ok(r: Self) -> bool { true }"]
        if t.startswith("AsRef<"):
            return ["open spec fn vx_as_ref_ok(&self, r: &%s) -> bool { true }" % t[6:-1]]
        if t == "ToString":
            return ["open spec fn vx_ts(&self) -> Seq<char> { arbitrary() }"]
        return []

    def type_item(self, o, m, it):
        key = m["path"] + "::" + it["name"]
        at = [a for a in self.c["types"].get(key, []) if not a.strip().startswith("#[derive(")
              or set(re.findall(r"\w+", a.split("(", 1)[1])) <= set(it["derives"])]
        o.put("\n".join(at) + "\n" + it["text"])
        if "Clone" in it["derives"]:
            g = it["generics"].strip()
            gi = re.sub(r"([A-Z]\w*)", r"\1: Clone", g) if g and "'" not in g else g
            o.put("impl%s Clone for %s%s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }"
                  % (gi, it["name"], g))
        if "FromPyObject" in it["derives"]:
            # pyo3: the attributes of the object, named like the fields
            f = re.fullmatch(r"pub struct \w+ \{\s*pub items : Vec < Item > ,?\s*\}", it["text"].strip())
            o.put("impl FromPyObject for %s { open spec fn vx_extract_ok(a: PyAny, r: Result<Self, PyErr>) -> bool { %s } }"
                  % (it["name"], "r.is_ok() == a.vx_items().is_some() && (r.is_ok() ==> pivs(r.unwrap().items@) == a.vx_items().unwrap())" if f and not it.get("pyo3_attrs") else "true"))
        if "Parser" in it["derives"]:
            # clap: the command line of this run, decoded into the struct
            o.put("impl %s { pub uninterp spec fn vx_args() -> %s; #[verifier::external_body] pub fn parse() -> (r: %s) ensures r == Self::vx_args() { unimplemented!() } }"
                  % ((it["name"],) * 3))
        f = re.fullmatch(r"pub struct \w+ \{\s*pub (\w+) : BTreeMap < String , Vec < String > > ,?\s*\}", it["text"].strip())
        if "Serialize" in it["derives"] and f and not it.get("serde_attrs"):
            # serde: a struct is a mapping with its field as the key
            o.put("impl YamlSer for %s { open spec fn vx_doc(&self, v: YV) -> bool { exists|d: Seq<(YV, YV)>| #[trigger] yaml_of(self.%s@, d) && v == YV::Map(seq![(YV::Str(\"%s\"@), YV::Map(d))]) } }"
                  % (it["name"], f.group(1), f.group(1)))
        if "EnumIter" in it["derives"]:
            o.put("impl %s { #[verifier::external_body] pub fn vx_variants() -> (r: Vec<%s>) ensures r@ == seq![%s] { unimplemented!() } }"
                  % (it["name"], it["name"], ", ".join("%s::%s" % (it["name"], v) for v in it["variants"])))
        if "Copy" in it["derives"]:
            o.put("impl%s Copy for %s%s {}" % (it["generics"], it["name"], it["generics"]))

    def build(self):
        o = Out()
        pre = ["vx.rs", "ext.rs", "sys.rs", "sp.rs"]
        o.put("#![allow(unused, non_snake_case, dead_code, non_camel_case_types, unused_parens, unused_braces)]\n"
              "use vstd::prelude::*;\nverus! {")
        for p in pre:
            n = p[:-3]
            o.put("pub mod %s {" % n)
            o.put(self.model(open(os.path.join(SPEC, p), encoding="utf-8").read()))
            o.put("}")
        d = os.path.join(SPEC, "lemmas")
        if os.path.isdir(d):
            for p in sorted(os.listdir(d)):
                if p.endswith(".rs"):
                    o.put("pub mod %s { use vstd::prelude::*; use crate::ext::*; use crate::vx::*; use crate::sp::*;%s" % (p[:-3], "" if p not in ("neo.rs", "conf.rs") else " use crate::lem::*; use crate::tables::*;"))
                    o.put(open(os.path.join(d, p), encoding="utf-8").read())
                    o.put("}")
        mods = {m["path"]: {"m": m, "c": []} for m in self.vx["modules"] if self.want(m["path"])}
        root = mods.get("") or {"m": {"path": "", "uses": [], "items": []}, "c": []}
        for p in mods:
            if p:
                par, _, name = p.rpartition("::")
                mods.get(par, root)["c"].append((name, mods[p]))
        self.module(o, root["m"], root["c"])
        o.put("fn main() {}\n}")
        return o

    def want(self, p):
        if self.only is None:
            top = p.split("::")[0]
            return top in self.tops or not (top.startswith("bin_") or top == "py")
        return p in self.only
    only = None
    tops = ()                     # which of the programs and the Python module are part of the file


def run_vx(repo, keys):
    kf = os.path.join("/tmp", "vx_keys_%d" % os.getpid())
    open(kf, "w").write("\n".join(keys) + "\n")
    try:
        r = subprocess.run([VX_BIN, repo, kf], capture_output=True, text=True, timeout=120)
    finally:
        os.unlink(kf)
    if r.returncode != 0:
        raise Exception("vx failed: " + r.stderr[-2000:])
    return json.loads(r.stdout)


def all_fns(vx):
    for m in vx["modules"]:
        for it in m["items"]:
            for f in it.get("fns", []) + ([it["fn"]] if "fn" in it else []):
                yield f


def baseline_of(vx):
    return {f["key"]: {"params": f["params"], "locals": f["locals"], "loops": f["loops"]} for f in all_fns(vx)}
