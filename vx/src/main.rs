//! vx: mechanical extraction of the chanoma sources into Verus text.
//!
//! usage: vx <repo> <known-keys-file>   (JSON on stdout)
//!
//! Every item of the crate is parsed with syn and printed again with the rewritings listed in
//! DESIGN.md ("What the extraction drops and rewrites").  Contracts are injected later, by
//! lib/assemble.py, at the loop markers and function heads that this tool prints.
mod body;
mod inline;
mod io;
mod print;

use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::*;

pub struct Ctx {
    pub consts: BTreeSet<String>,
    /// constants that are literals (None: two constants of that name differ)
    pub const_lits: BTreeMap<String, Option<Lit>>,
    pub known: BTreeSet<String>,
    /// uncontracted helpers by name: (key, ItemFn-like)
    pub helpers: BTreeMap<String, Vec<inline::Helper>>,
    pub struct_fields: BTreeMap<String, Vec<String>>,
    /// names whose every function in the crate returns a Result
    pub result_fns: BTreeSet<String>,
}

struct Module {
    path: String,
    file: String,
    items: Vec<Item>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.starts_with("#[cfg(test)") || s.starts_with("#[cfg(chanoma_verif)") || s == "#[test]"
    })
}

fn load(file: &Path, path: &str, dir: &Path, out: &mut Vec<Module>, repo: &Path) -> std::result::Result<(), String> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let ast = parse_file(&text).map_err(|e| format!("{}: {}", file.display(), e))?;
    let rel = file.strip_prefix(repo).unwrap_or(file).display().to_string();
    load_items(ast.items, path, dir, out, repo, &rel)
}

fn load_items(items: Vec<Item>, path: &str, dir: &Path, out: &mut Vec<Module>, repo: &Path, rel: &str) -> std::result::Result<(), String> {
    let mut keep = Vec::new();
    let mut subs = Vec::new();
    for it in items {
        match it {
            Item::Mod(m) if is_test(&m.attrs) => {}
            Item::Mod(m) => {
                let name = m.ident.to_string();
                let p = if path.is_empty() { name.clone() } else { format!("{path}::{name}") };
                match m.content {
                    Some((_, items)) => load_items(items, &p, &dir.join(&name), &mut subs, repo, rel)?,
                    None => {
                        let a = dir.join(format!("{name}.rs"));
                        let b = dir.join(&name).join("mod.rs");
                        let f = if a.is_file() { a } else { b };
                        load(&f, &p, &dir.join(&name), &mut subs, repo)?
                    }
                }
            }
            Item::Fn(f) if is_test(&f.attrs) => {}
            o => keep.push(o),
        }
    }
    out.push(Module { path: path.to_string(), file: rel.to_string(), items: keep });
    out.extend(subs);
    Ok(())
}

fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => self_name(&r.elem),
        o => o.to_token_stream().to_string().replace(' ', ""),
    }
}

pub fn key(module: &str, ty: Option<&str>, tr: Option<&str>, name: &str) -> String {
    let mut s = String::new();
    if !module.is_empty() {
        s.push_str(module);
        s.push_str("::");
    }
    if let Some(t) = ty {
        s.push_str(t);
        if let Some(tr) = tr {
            s.push('@');
            s.push_str(tr);
        }
        s.push_str("::");
    }
    s.push_str(name);
    s
}

const EXTERNAL: &[&str] = &[
    "serde", "thiserror", "strum", "strum_macros", "log", "clap", "pyo3", "env_logger", "csv", "serde_yaml",
];

fn use_text(u: &ItemUse) -> Option<String> {
    let t = u.to_token_stream().to_string();
    let flat = t.replace(' ', "");
    let body = flat.trim_start_matches("pub(crate)");
    let body = body.trim_start_matches("pubuse").trim_start_matches("use");
    let first = body.split([':', ';', '{']).next().unwrap_or("").to_string();
    if EXTERNAL.contains(&first.as_str()) {
        return None;
    }
    if first == "std" || first == "core" || first == "alloc" {
        if body.starts_with("std::collections") || body.starts_with("std::cmp") || body.starts_with("std::mem") {
            return Some(print::print(u.to_token_stream()).replace("std :: collections", "crate :: ext :: collections"));
        }
        return None;
    }
    let mut u = u.clone();
    u.attrs.clear();
    u.vis = parse_quote!(pub);
    Some(print::print(u.to_token_stream()))
}

fn strip_type_attrs(it: &mut Item) -> (String, Vec<String>) {
    let mut derives = Vec::new();
    let mut grab = |attrs: &mut Vec<Attribute>| {
        for a in attrs.iter() {
            if a.path().is_ident("derive") {
                let s = a.meta.to_token_stream().to_string();
                let s = s[s.find('(').unwrap() + 1..s.rfind(')').unwrap()].to_string();
                for d in s.split(',') {
                    let d = d.trim().rsplit("::").next().unwrap().trim().to_string();
                    if !d.is_empty() {
                        derives.push(d);
                    }
                }
            }
        }
        attrs.clear();
    };
    match it {
        Item::Struct(s) => {
            grab(&mut s.attrs);
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            (s.ident.to_string(), derives)
        }
        Item::Enum(e) => {
            grab(&mut e.attrs);
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            (e.ident.to_string(), derives)
        }
        Item::Type(t) => {
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            (t.ident.to_string(), derives)
        }
        _ => unreachable!(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let known: BTreeSet<String> = std::fs::read_to_string(&args[2])
        .unwrap_or_default()
        .lines()
        .map(|s| s.trim().to_string())
        .filter(|s| !s.is_empty())
        .collect();
    let mut mods = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let src = repo.join("src");
    if let Err(e) = load(&src.join("lib.rs"), "", &src, &mut mods, &repo) {
        errors.push(e);
    }
    for (file, path) in [("src/main.rs", "bin_main"), ("src/bin/output.rs", "bin_output"), ("bindings/python3/src/lib.rs", "py")] {
        let f = repo.join(file);
        let d = f.parent().unwrap().to_path_buf();
        if let Err(e) = load(&f, path, &d, &mut mods, &repo) {
            errors.push(e);
        }
    }
    for m in mods.iter_mut() {
        if m.path.starts_with("bin_") {
            io::thread(&mut m.items);
        }
    }
    let mut ctx = Ctx { consts: BTreeSet::new(), const_lits: BTreeMap::new(), known, helpers: BTreeMap::new(), struct_fields: BTreeMap::new(), result_fns: BTreeSet::new() };
    for m in &mods {
        for it in &m.items {
            match it {
                Item::Const(c) => {
                    ctx.consts.insert(c.ident.to_string());
                    const_lit(&mut ctx.const_lits, &c.ident, &c.expr);
                }
                Item::Static(c) => {
                    ctx.consts.insert(c.ident.to_string());
                }
                Item::Impl(i) => {
                    for x in &i.items {
                        if let ImplItem::Const(c) = x {
                            ctx.consts.insert(c.ident.to_string());
                            const_lit(&mut ctx.const_lits, &c.ident, &c.expr);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // functions that return a Result
    {
        let mut other: BTreeSet<String> = BTreeSet::new();
        let mut see = |s: &syn::Signature| {
            let n = s.ident.to_string();
            let is = match &s.output {
                syn::ReturnType::Type(_, t) => {
                    matches!(&**t, syn::Type::Path(p) if p.path.segments.last().map_or(false, |l| l.ident == "Result" || l.ident == "PyResult"))
                }
                _ => false,
            };
            if is {
                ctx.result_fns.insert(n);
            } else {
                other.insert(n);
            }
        };
        for m in &mods {
            for it in &m.items {
                match it {
                    Item::Fn(f) => see(&f.sig),
                    Item::Impl(i) => {
                        for x in &i.items {
                            if let ImplItem::Fn(f) = x {
                                see(&f.sig);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        for o in &other {
            ctx.result_fns.remove(o);
        }
    }
    // helpers
    for m in &mods {
        let bin = m.path.starts_with("bin_") || m.path == "py" || m.path.starts_with("py::");
        for it in &m.items {
            let mut it = it.clone();
            if bin {
                body::rename_crate(&mut it);
            }
            match &it {
                Item::Fn(f) => {
                    let k = key(&m.path, None, None, &f.sig.ident.to_string());
                    if !ctx.known.contains(&k) {
                        ctx.helpers.entry(f.sig.ident.to_string()).or_default().push(inline::Helper {
                            key: k,
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            ty: None,
                        });
                    }
                }
                Item::Impl(i) if i.trait_.is_none() => {
                    let t = self_name(&i.self_ty);
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            let k = key(&m.path, Some(&t), None, &f.sig.ident.to_string());
                            if !ctx.known.contains(&k) {
                                ctx.helpers.entry(f.sig.ident.to_string()).or_default().push(inline::Helper {
                                    key: k,
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    ty: Some(t.clone()),
                                });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut out = Vec::new();
    let mut literals: BTreeSet<String> = BTreeSet::new();
    for m in &mods {
        let bin = m.path.starts_with("bin_") || m.path == "py" || m.path.starts_with("py::");
        let mut uses = Vec::new();
        let mut items: Vec<Value> = Vec::new();
        let mut dropped: Vec<String> = Vec::new();
        for it in &m.items {
            literals_of(it.to_token_stream(), &mut literals);
            let mut it = it.clone();
            if bin {
                body::rename_crate(&mut it);
            }
            match it {
                Item::Use(u) => match use_text(&u) {
                    Some(t) => uses.push(t),
                    None => dropped.push(u.to_token_stream().to_string()),
                },
                Item::Macro(x) => dropped.push(format!("macro {}", x.ident.map(|i| i.to_string()).unwrap_or_default())),
                Item::Struct(_) | Item::Enum(_) | Item::Type(_) => {
                    let mut i2 = it.clone();
                    let (name, derives) = strip_type_attrs(&mut i2);
                    let variants: Vec<String> = match &i2 {
                        Item::Enum(e) => e.variants.iter().map(|v| v.ident.to_string()).collect(),
                        _ => vec![],
                    };
                    let generics = match &i2 {
                        Item::Struct(s) => s.generics.to_token_stream().to_string(),
                        Item::Enum(s) => s.generics.to_token_stream().to_string(),
                        _ => String::new(),
                    };
                    body::fix_types(&mut i2);
                    let serde_attrs = it.to_token_stream().to_string().replace(' ', "").contains("#[serde(");
                    let pyo3_attrs = it.to_token_stream().to_string().replace(' ', "").contains("#[pyo3(attribute");
                    items.push(json!({"kind":"type","name":name,"serde_attrs":serde_attrs,"pyo3_attrs":pyo3_attrs,"derives":derives,"variants":variants,"generics":generics,
                        "text": print::print(i2.to_token_stream()), "is_alias": matches!(i2, Item::Type(_))}));
                }
                Item::Const(c) => {
                    let k = key(&m.path, None, None, &c.ident.to_string());
                    items.push(json!({"kind":"fn","fn": const_fn(&c.ident, &c.ty, &c.expr, k, &ctx, &m.file, None, true)}));
                }
                Item::Fn(f) => {
                    let k = key(&m.path, None, None, &f.sig.ident.to_string());
                    let known = ctx.known.contains(&k);
                    items.push(json!({"kind":"fn","fn": body::do_fn(&f.sig, Some(&f.block), k, &ctx, &m.file, None, None, true), "known": known}));
                }
                Item::Trait(t) => {
                    let name = t.ident.to_string();
                    let mut fns = Vec::new();
                    let mut assoc = Vec::new();
                    for x in &t.items {
                        match x {
                            TraitItem::Fn(f) => fns.push(body::do_fn(
                                &f.sig,
                                f.default.as_ref(),
                                key(&m.path, Some(&name), None, &f.sig.ident.to_string()),
                                &ctx,
                                &m.file,
                                Some(&name),
                                None,
                                false,
                            )),
                            o => assoc.push(print::print(o.to_token_stream())),
                        }
                    }
                    let (g, s) = (t.generics.to_token_stream(), t.supertraits.to_token_stream());
                    let colon = if t.supertraits.is_empty() { "".to_string() } else { format!(": {}", print::print(s)) };
                    items.push(json!({"kind":"trait","name":name,"head":format!("pub trait {}{}{}", name, print::print(g), colon),"fns":fns,"assoc":assoc}));
                }
                Item::Impl(i) => {
                    if let Some(v) = do_impl(&i, m, &ctx) {
                        items.push(v);
                    }
                }
                o => dropped.push(o.to_token_stream().to_string().chars().take(80).collect()),
            }
        }
        out.push(json!({"path": m.path, "file": m.file, "uses": uses, "items": items, "dropped": dropped}));
    }
    println!("{}", json!({"modules": out, "errors": errors, "literals": literals}));
}

fn literals_of(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => literals_of(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                if let Ok(l) = syn::parse_str::<Lit>(&l.to_string()) {
                    match l {
                        Lit::Str(s) => {
                            out.insert(format!("s:{}", s.value()));
                        }
                        Lit::Char(c) => {
                            out.insert(format!("c:{}", c.value()));
                        }
                        Lit::Int(i) => {
                            out.insert(format!("i:{}", i.base10_digits()));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

fn const_lit(m: &mut BTreeMap<String, Option<Lit>>, id: &Ident, e: &Expr) {
    let l = match e {
        Expr::Lit(l) => Some(l.lit.clone()),
        _ => None,
    };
    match m.get(&id.to_string()) {
        Some(o) if *o != l => m.insert(id.to_string(), None),
        _ => m.insert(id.to_string(), l),
    };
}

fn const_fn(id: &Ident, ty: &Type, e: &Expr, k: String, ctx: &Ctx, file: &str, self_ty: Option<&str>, vis: bool) -> Value {
    let ty = body::static_lifetimes(ty);
    let sig: Signature = parse_quote!(fn #id() -> #ty);
    let block: Block = parse_quote!({ #e });
    body::do_fn(&sig, Some(&block), k, ctx, file, self_ty, None, vis)
}

/// std traits whose impls become inherent functions, and the name given to the function
fn inherent(tr: &str, name: &str) -> Option<String> {
    Some(match (tr, name) {
        ("FromStr", "from_str") => "from_str".into(),
        ("Deref", "deref") => "deref".into(),
        ("Add", "add") => "vx_add".into(),
        ("Sub", "sub") => "vx_sub".into(),
        ("AddAssign", "add_assign") => "vx_add_assign".into(),
        ("SubAssign", "sub_assign") => "vx_sub_assign".into(),
        ("Ord", "cmp") => "cmp".into(),
        ("PartialOrd", "partial_cmp") => "partial_cmp".into(),
        ("PartialEq", "eq") => "vx_eq_impl".into(),
        _ => return None,
    })
}

fn generics_idents(g: &Generics) -> Vec<String> {
    g.params
        .iter()
        .map(|p| match p {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Lifetime(l) => l.lifetime.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
        })
        .collect()
}

fn mentions(ts: proc_macro2::TokenStream, name: &str) -> bool {
    let n = name.trim_start_matches('\'');
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), name),
        proc_macro2::TokenTree::Ident(i) => i == n,
        _ => false,
    })
}

fn do_impl(i: &ItemImpl, m: &Module, ctx: &Ctx) -> Option<Value> {
    let ty = self_name(&i.self_ty);
    let mut assoc_types: BTreeMap<String, Type> = BTreeMap::new();
    for x in &i.items {
        if let ImplItem::Type(t) = x {
            assoc_types.insert(t.ident.to_string(), t.ty.clone());
        }
    }
    let (_, where_) = (0, &i.generics.where_clause);
    let gp = &i.generics.params;
    let self_ty = &i.self_ty;
    match &i.trait_ {
        None => {
            let mut fns = Vec::new();
            for x in &i.items {
                match x {
                    ImplItem::Fn(f) => fns.push(body::do_fn(
                        &f.sig,
                        Some(&f.block),
                        key(&m.path, Some(&ty), None, &f.sig.ident.to_string()),
                        ctx,
                        &m.file,
                        Some(&ty),
                        None,
                        true,
                    )),
                    ImplItem::Const(c) => {
                        let k = key(&m.path, Some(&ty), None, &c.ident.to_string());
                        fns.push(const_fn(&c.ident, &c.ty, &c.expr, k, ctx, &m.file, Some(&ty), true));
                    }
                    _ => {}
                }
            }
            let head = quote::quote!(impl<#gp> #self_ty);
            Some(json!({"kind":"impl","self":ty,"trait":null,"head":print::print(body::fix_ts(head)),"where":print::print(where_.to_token_stream()),"fns":fns,"assoc":[]}))
        }
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            let tr = last.ident.to_string();
            let arg = match &last.arguments {
                PathArguments::AngleBracketed(a) => a.args.to_token_stream().to_string().replace(' ', ""),
                _ => String::new(),
            };
            let trk = if arg.is_empty() { tr.clone() } else { format!("{tr}<{arg}>") };
            let mut fns = Vec::new();
            let mut as_inherent = false;
            for x in &i.items {
                if let ImplItem::Fn(f) = x {
                    let name = f.sig.ident.to_string();
                    let k = key(&m.path, Some(&ty), Some(&trk), &name);
                    if let Some(n2) = inherent(&tr, &name) {
                        as_inherent = true;
                        let mut sig = f.sig.clone();
                        sig.ident = Ident::new(&n2, sig.ident.span());
                        body::subst_assoc(&mut sig, &assoc_types);
                        let mut blk = f.block.clone();
                        body::subst_assoc_block(&mut blk, &assoc_types);
                        // generics of the impl that the self type does not mention move to the function
                        for g in generics_idents(&i.generics) {
                            if !mentions(self_ty.to_token_stream(), &g) {
                                if let Some(gp) = i.generics.params.iter().find(|p| match p {
                                    GenericParam::Type(t) => t.ident == g,
                                    GenericParam::Lifetime(l) => l.lifetime.to_string() == g,
                                    _ => false,
                                }) {
                                    let mut gp = gp.clone();
                                    if let GenericParam::Type(t) = &mut gp {
                                        if let Some(w) = &i.generics.where_clause {
                                            for pr in &w.predicates {
                                                if let WherePredicate::Type(pt) = pr {
                                                    if mentions(pt.bounded_ty.to_token_stream(), &g) {
                                                        for b in &pt.bounds {
                                                            t.bounds.push(b.clone());
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    sig.generics.params.push(gp);
                                    sig.generics.lt_token = Some(Default::default());
                                    sig.generics.gt_token = Some(Default::default());
                                }
                            }
                        }
                        fns.push(body::do_fn(&sig, Some(&blk), k, ctx, &m.file, Some(&ty), Some(&tr), true));
                    } else {
                        let mut f2 = f.clone();
                        if tr == "ToString" && name == "to_string" {
                            f2.sig.ident = Ident::new("vx_to_string", f2.sig.ident.span());
                        }
                        if (tr == "From" || tr.starts_with("From <") || tr.starts_with("From<")) && name == "from" {
                            f2.sig.ident = Ident::new("vx_from", f2.sig.ident.span());
                        }
                        fns.push(body::do_fn(&f2.sig, Some(&f2.block), k, ctx, &m.file, Some(&ty), Some(&tr), false));
                    }
                }
            }
            if as_inherent {
                let keep: Vec<_> = i
                    .generics
                    .params
                    .iter()
                    .filter(|p| {
                        let n = match p {
                            GenericParam::Type(t) => t.ident.to_string(),
                            GenericParam::Lifetime(l) => l.lifetime.to_string(),
                            GenericParam::Const(c) => c.ident.to_string(),
                        };
                        mentions(self_ty.to_token_stream(), &n)
                    })
                    .cloned()
                    .collect();
                let mut wh: Vec<WherePredicate> = Vec::new();
                if let Some(w) = &i.generics.where_clause {
                    for pr in &w.predicates {
                        if let WherePredicate::Type(pt) = pr {
                            if mentions(self_ty.to_token_stream(), &pt.bounded_ty.to_token_stream().to_string()) {
                                wh.push(pr.clone());
                            }
                        }
                    }
                }
                let head = quote::quote!(impl<#(#keep),*> #self_ty);
                let w = if wh.is_empty() { quote::quote!() } else { quote::quote!(where #(#wh),*) };
                return Some(json!({"kind":"impl","self":ty,"trait":null,"as_inherent":trk,"head":print::print(body::fix_ts(head)),"where":print::print(w),"fns":fns,"assoc":[]}));
            }
            let mut assoc = Vec::new();
            for (k, v) in &assoc_types {
                assoc.push(format!("type {} = {};", k, print::print(v.to_token_stream())));
            }
            let head = quote::quote!(impl<#gp> #p for #self_ty);
            Some(json!({"kind":"impl","self":ty,"trait":tr,"traitkey":trk,"head":print::print(body::fix_ts(head)),"where":print::print(where_.to_token_stream()),"fns":fns,"assoc":assoc}))
        }
    }
}
