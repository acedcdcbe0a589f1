//! Function-level rewritings.
use crate::{inline, print, Ctx};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- paths

struct PathFix;
const STD_MODS: &[&str] = &["collections", "path", "io", "fs", "env", "error", "str", "process"];
fn fix_path(p: &mut Path) {
    // inherent functions of std types that are called through extension stand-ins
    let n = p.segments.len();
    if n >= 2 && p.segments[n - 2].ident == "String" && p.segments[n - 1].ident == "from_utf8" {
        *p = parse_quote!(vx_from_utf8);
        return;
    }
    if n >= 2 && p.segments[n - 2].ident == "char" && p.segments[n - 1].ident == "from_u32" {
        *p = parse_quote!(vx_from_u32);
        return;
    }
    if n == 3 && p.segments[0].ident == "std" && p.segments[1].ident == "iter" && p.segments[2].ident == "once" {
        *p = parse_quote!(vx_once);
        return;
    }
    if p.segments.len() >= 3 && p.segments[0].ident == "std" && STD_MODS.contains(&p.segments[1].ident.to_string().as_str()) {
        let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
        let mut q: Path = parse_quote!(crate::ext);
        for s in rest {
            q.segments.push(s);
        }
        *p = q;
    }
}
impl VisitMut for PathFix {
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        // Box<dyn Error> and the like: an error nobody looks into
        if let Type::Path(p) = t {
            let l = p.path.segments.last().unwrap();
            if let (true, PathArguments::AngleBracketed(a)) = (l.ident == "Box", &l.arguments) {
                if matches!(a.args.first(), Some(GenericArgument::Type(Type::TraitObject(_)))) {
                    *t = parse_quote!(crate::ext::VxBoxErr);
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

pub fn fix_types(it: &mut Item) {
    PathFix.visit_item_mut(it);
}

pub fn fix_ts(ts: TokenStream) -> TokenStream {
    ts
}

struct CrateRename;
impl VisitMut for CrateRename {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() >= 2 && p.segments[0].ident == "chanoma" {
            p.segments[0].ident = format_ident!("crate");
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_use_path_mut(&mut self, p: &mut UsePath) {
        if p.ident == "chanoma" {
            p.ident = format_ident!("crate");
        }
    }
}
pub fn rename_crate(it: &mut Item) {
    CrateRename.visit_item_mut(it);
}

struct Statics;
impl VisitMut for Statics {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(parse_quote!('static));
        }
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        // the one type of the crate that takes a lifetime argument
        if (s.ident == "Unification" || s.ident == "NCharactersToCharacter") && s.arguments.is_none() {
            s.arguments = PathArguments::AngleBracketed(parse_quote!(<'static>));
        }
        visit_mut::visit_path_segment_mut(self, s);
    }
}
pub fn static_lifetimes(t: &Type) -> Type {
    let mut t = t.clone();
    Statics.visit_type_mut(&mut t);
    t
}

struct Assoc<'a>(&'a BTreeMap<String, Type>);
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
pub fn subst_assoc(s: &mut Signature, m: &BTreeMap<String, Type>) {
    Assoc(m).visit_signature_mut(s);
}
pub fn subst_assoc_block(b: &mut Block, m: &BTreeMap<String, Type>) {
    Assoc(m).visit_block_mut(b);
}

// ---------------------------------------------------------------- renamed methods

/// std methods without a vstd specification (or with one that is not strong enough); each becomes a
/// method of the same name with a vx_ prefix whose contract is in specs/vx.rs
const RENAME: &[&str] = &[
    "chars", "char_indices", "iter", "iter_mut", "into_iter", "enumerate", "rev", "collect", "count", "cloned", "copied",
    "trim_matches", "trim_start_matches", "trim_end_matches", "repeat", "replace", "len", "sort", "contains",
    "to_string", "to_owned", "is_ascii_alphanumeric", "encode_utf8", "into", "len_utf8", "keys", "values", "last", "next",
    "to_vec", "push_str", "as_ref", "peekable", "zip", "skip", "take", "split", "trim", "strip_prefix", "strip_suffix",
    "starts_with", "ends_with", "extend", "sort_by_key", "sort_unstable", "dedup", "retain", "flatten",
    "is_ascii_digit", "is_ascii_alphabetic", "is_ascii_uppercase", "is_ascii_lowercase", "is_ascii", "is_ascii_whitespace", "is_ascii_punctuation", "is_ascii_graphic", "is_ascii_control",
    "is_alphanumeric", "is_alphabetic", "is_numeric", "is_whitespace", "is_control", "trim_start", "trim_end", "peek",
    "is_empty", "records", "any", "all", "bytes", "lines", "nth", "first", "step_by", "chain", "find", "position", "sum",
    "rfind", "encode_utf16", "or", "xor", "unwrap_or", "is_uppercase", "is_lowercase", "to_ascii_uppercase", "to_ascii_lowercase", "eq_ignore_ascii_case", "is_ascii_hexdigit", "is_digit", "to_digit", "len_utf16",
    "concat", "join", "drain", "insert_str", "values_mut", "into_keys", "into_values", "as_str", "is_some_and",
];

const CHAIN: &[&str] = &[
    "vx_iter", "vx_chars", "vx_char_indices", "vx_into_iter", "vx_enumerate", "vx_rev", "vx_iter_mut", "vx_keys", "vx_values",
    "vx_cloned", "vx_copied", "vx_split", "vx_records", "vx_flatten", "vx_zip", "vx_skip", "vx_take", "vx_chain", "vx_peekable", "vx_bytes", "vx_lines", "vx_encode_utf16",
    "vx_variants",
];

fn is_chain(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => CHAIN.contains(&m.method.to_string().as_str()),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| CHAIN.contains(&s.ident.to_string().as_str()))),
        Expr::Paren(p) => is_chain(&p.expr) || matches!(&*p.expr, Expr::Range(_)),
        Expr::Block(b) => b.block.stmts.first().map_or(false, |s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("vx_chain"))),
        _ => false,
    }
}

struct HasTry(bool);
impl<'a> Visit<'a> for HasTry {
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_try(e: &Expr) -> bool {
    let mut h = HasTry(false);
    h.visit_expr(e);
    h.0
}
struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_return(e: &Expr) -> bool {
    let mut h = HasRet(false);
    h.visit_expr(e);
    h.0
}

pub struct Tr<'a> {
    ctx: &'a Ctx,
    next: usize,
    unsupported: Vec<String>,
    ret: Ret,
    corr: bool,
    in_lhs: bool,
    py: bool,
    /// bound iterator variables: loops over `while let Some(p) = it.next()`
    self_ty: Option<String>,
    /// locals that hold a Result
    results: Vec<String>,
}

fn is_result_type(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Result"))
}
/// the locals that hold a Result, by their type or by what they start with
struct ResultLocals<'a, 'b>(&'b mut Tr<'a>);
impl<'x, 'a, 'b> Visit<'x> for ResultLocals<'a, 'b> {
    fn visit_local(&mut self, l: &'x Local) {
        let (name, ty) = match &l.pat {
            Pat::Ident(i) => (Some(i.ident.to_string()), None),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => (Some(i.ident.to_string()), Some(is_result_type(&t.ty))),
                _ => (None, None),
            },
            _ => (None, None),
        };
        if let Some(n) = name {
            let is = ty.unwrap_or_else(|| l.init.as_ref().map_or(false, |i| i.diverge.is_none() && self.0.is_result(&i.expr)));
            self.0.results.retain(|x| *x != n);
            if is {
                self.0.results.push(n);
            }
        }
        syn::visit::visit_local(self, l);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ret {
    Result,
    Option,
    Other,
}

fn ident_continue(b: &mut Block, n: usize) {
    struct C(usize);
    impl VisitMut for C {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                Expr::Continue(c) if c.label.is_none() => {
                    let n = proc_macro2::Literal::usize_unsuffixed(self.0);
                    *e = parse_quote!({ vx_le!(#n); continue; });
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    C(n).visit_block_mut(b);
}

/// `let PAT = EXPR` statements for a pattern, with reference patterns made explicit dereferences
fn bind(p: &Pat, e: Expr) -> Vec<Stmt> {
    match p {
        Pat::Reference(r) => {
            let inner = &*r.pat;
            bind(inner, parse_quote!(*(#e)))
        }
        Pat::Type(t) if matches!(&*t.pat, Pat::Reference(_)) => bind(&t.pat, e),
        Pat::Tuple(t) if t.elems.iter().any(|x| matches!(x, Pat::Reference(_))) => {
            let mut out = Vec::new();
            let tmps: Vec<Ident> = (0..t.elems.len()).map(|i| format_ident!("vx_p{}", i)).collect();
            out.push(parse_quote!(let (#(#tmps),*) = #e;));
            for (q, t) in t.elems.iter().zip(tmps) {
                if matches!(q, Pat::Wild(_)) {
                    continue;
                }
                out.extend(bind(q, parse_quote!(#t)));
            }
            out
        }
        Pat::Wild(_) => vec![parse_quote!(let _ = #e;)],
        _ => vec![parse_quote!(let #p = #e;)],
    }
}

/// bind pattern `p` to a reference to variable `v` (closure parameters of filter, any, ...)
fn bind_ref(p: &Pat, v: &Ident) -> Vec<Stmt> {
    match p {
        Pat::Reference(r) => bind(&r.pat, parse_quote!(#v)),
        Pat::Type(t) if matches!(&*t.pat, Pat::Reference(_)) => bind_ref(&t.pat, v),
        Pat::Tuple(_) => bind(p, parse_quote!(#v)),
        _ => vec![parse_quote!(let #p = &#v;)],
    }
}

/// a temporary that an iterator borrows from gets a name, so that it lives as long as the loop
fn hoist_tmp(x: &Expr, t: &Ident) -> (Vec<Stmt>, Expr) {
    /// the temporaries that the receiver of a call is made of
    fn inner(e: &mut Expr, t: &Ident, out: &mut Vec<Stmt>) {
        if let Expr::MethodCall(m) = e {
            let mut r = &*m.receiver;
            while let Expr::Paren(p) = r {
                r = &p.expr;
            }
            let mut r = r.clone();
            if matches!(r, Expr::MethodCall(_) | Expr::Call(_)) {
                inner(&mut r, t, out);
                let n = format_ident!("{}_{}", t, out.len());
                out.push(parse_quote!(let mut #n = #r;));
                m.receiver = Box::new(parse_quote!(#n));
            }
        }
    }
    fn go(e: &mut Expr, t: &Ident, out: &mut Vec<Stmt>) {
        match e {
            Expr::Paren(p) => go(&mut p.expr, t, out),
            Expr::MethodCall(m) if CHAIN.contains(&m.method.to_string().as_str()) => {
                if is_chain(&m.receiver) {
                    go(&mut m.receiver, t, out);
                    return;
                }
                let borrows = m.method != "vx_into_iter";
                let mut r = &*m.receiver;
                while let Expr::Paren(p) = r {
                    r = &p.expr;
                }
                let konst = matches!(r, Expr::Path(p) if p.path.segments.last().map_or(false, |s| {
                    let s = s.ident.to_string();
                    s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
                }));
                let mut r = r.clone();
                inner(&mut r, t, out);
                m.receiver = Box::new(r.clone());
                if borrows && (konst || matches!(r, Expr::MethodCall(_) | Expr::Call(_))) {
                    out.push(parse_quote!(let #t = #r;));
                    m.receiver = Box::new(parse_quote!(#t));
                }
            }
            Expr::MethodCall(_) => inner(e, t, out),
            _ => {}
        }
    }
    let mut x = x.clone();
    let mut out = Vec::new();
    go(&mut x, t, &mut out);
    (out, x)
}

impl<'a> Tr<'a> {
    fn id(&mut self) -> usize {
        self.next += 1;
        self.next - 1
    }
    fn lit(n: usize) -> proc_macro2::Literal {
        proc_macro2::Literal::usize_unsuffixed(n)
    }

    /// statements for an eager loop over `recv` binding each element through `mk`
    fn eager(&mut self, recv: &Expr, extra_cond: Option<Expr>, mk: impl FnOnce(&Ident) -> Vec<Stmt>) -> Vec<Stmt> {
        let n = self.id();
        let it = format_ident!("vx_it{}", n);
        let x = format_ident!("vx_x{}", n);
        let l = Self::lit(n);
        let cond: Expr = match extra_cond {
            Some(c) => parse_quote!(#c && #it.vx_has_next()),
            None => parse_quote!(#it.vx_has_next()),
        };
        let body = mk(&x);
        let (pre, recv) = hoist_tmp(recv, &format_ident!("vx_t{}", n));
        parse_quote! {
            #(#pre)*
            let mut #it = (#recv).vx_into_iter();
            vx_lp!(#l, #it);
            while #cond {
                vx_lb!(#l);
                let #x = #it.vx_step();
                #(#body)*
                vx_le!(#l);
            }
            vx_la!(#l);
        }
    }

    fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 => Some((c.inputs[0].clone(), (*c.body).clone())),
            Expr::Path(p) => {
                let q: Pat = parse_quote!(vx_a);
                let mut p = p.clone();
                if p.path.segments.len() >= 2 {
                    let l = p.path.segments.last_mut().unwrap();
                    if l.ident == "from" {
                        l.ident = format_ident!("vx_from");
                    }
                }
                Some((q, parse_quote!(#p(vx_a))))
            }
            _ => None,
        }
    }
    fn closure0(e: &Expr) -> Option<Expr> {
        match e {
            Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()),
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }

    fn fmt(&mut self, toks: TokenStream) -> Expr {
        use syn::punctuated::Punctuated;
        let args = match Punctuated::<Expr, Token![,]>::parse_terminated.parse2x(toks) {
            Some(a) => a,
            None => {
                self.unsupported.push("format arguments".into());
                return parse_quote!(vx_any_string());
            }
        };
        let mut args = args.into_iter();
        let f = match args.next() {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            None => String::new(),
            _ => return parse_quote!(vx_any_string()),
        };
        let rest: Vec<Expr> = args.collect();
        let mut k = 0;
        let mut acc: Option<Expr> = None;
        let mut add = |e: Expr| {
            acc = Some(match acc.take() {
                None => e,
                Some(a) => parse_quote!(vx_cat(#a, #e)),
            });
        };
        let mut lit = String::new();
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if (cs[i] == '{' || cs[i] == '}') && i + 1 < cs.len() && cs[i + 1] == cs[i] {
                lit.push(cs[i]);
                i += 2;
            } else if cs[i] == '{' {
                let j = match cs[i..].iter().position(|c| *c == '}') {
                    Some(j) => i + j,
                    None => return parse_quote!(vx_any_string()),
                };
                let spec: String = cs[i + 1..j].iter().collect();
                if !lit.is_empty() {
                    let l = lit.clone();
                    add(parse_quote!(#l.vx_to_string()));
                    lit.clear();
                }
                if spec.is_empty() {
                    if k >= rest.len() {
                        return parse_quote!(vx_any_string());
                    }
                    let a = rest[k].clone();
                    k += 1;
                    add(parse_quote!((#a).vx_to_string()));
                } else if spec.chars().all(|c| c.is_alphanumeric() || c == '_') && !spec.chars().next().unwrap().is_ascii_digit() {
                    let id = format_ident!("{}", spec);
                    add(parse_quote!(#id.vx_to_string()));
                } else {
                    k += 1;
                    add(parse_quote!(vx_any_string()));
                }
                i = j + 1;
            } else {
                lit.push(cs[i]);
                i += 1;
            }
        }
        if !lit.is_empty() {
            add(parse_quote!(#lit.vx_to_string()));
        }
        match acc {
            Some(a) => a,
            None => parse_quote!("".vx_to_string()),
        }
    }

    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        use syn::punctuated::Punctuated;
        let name = m.path.segments.last().unwrap().ident.to_string();
        Some(match name.as_str() {
            "vec" => {
                let toks = m.tokens.clone();
                if let Some(a) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2x(toks.clone()) {
                    let mut v: Vec<Expr> = a.into_iter().collect();
                    for e in v.iter_mut() {
                        self.visit_expr_mut(e);
                    }
                    if v.is_empty() {
                        parse_quote!(Vec::new())
                    } else {
                        parse_quote!(vec![#(#v),*])
                    }
                } else {
                    self.unsupported.push("vec![x; n]".into());
                    parse_quote!(Vec::new())
                }
            }
            "format" => {
                let mut e = self.fmt(m.tokens.clone());
                self.visit_expr_mut(&mut e);
                e
            }
            "println" | "print" => {
                let mut e = self.fmt(m.tokens.clone());
                self.visit_expr_mut(&mut e);
                let f = format_ident!("vx_{}", name);
                parse_quote!(#f(#e))
            }
            "eprintln" | "eprint" | "debug" | "info" | "warn" | "trace" | "debug_assert" | "debug_assert_eq" => parse_quote!(()),
            "error" if m.path.segments.len() > 1 => parse_quote!(()),
            "log_enabled" => parse_quote!(vx_log_enabled()),
            "assert" => {
                let a = Punctuated::<Expr, Token![,]>::parse_terminated.parse2x(m.tokens.clone())?;
                let c = a.first()?;
                let mut x: Expr = parse_quote!(if !(#c) { vx_panic() });
                self.visit_expr_mut(&mut x);
                x
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(vx_panic()),
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                match syn::parse2::<M>(m.tokens.clone()) {
                    Ok(M(e, p, g)) => {
                        let mut x: Expr = match g {
                            Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                            None => parse_quote!(match #e { #p => true, _ => false }),
                        };
                        self.visit_expr_mut(&mut x);
                        x
                    }
                    Err(_) => return None,
                }
            }
            "vx_lp" | "vx_lb" | "vx_le" | "vx_la" | "vx_chain" => return None,
            o => {
                self.unsupported.push(format!("macro {o}!"));
                return None;
            }
        })
    }

    fn loop_parts(&mut self, n: usize, body: &mut Block) -> Vec<Stmt> {
        ident_continue(body, n);
        body.stmts.clone()
    }
}

trait P2 {
    type O;
    fn parse2x(self, t: TokenStream) -> Option<Self::O>;
}
impl<F, O> P2 for F
where
    F: syn::parse::Parser<Output = O>,
{
    type O = O;
    fn parse2x(self, t: TokenStream) -> Option<O> {
        self.parse2(t).ok()
    }
}

fn ret_kind(s: &Signature) -> Ret {
    match &s.output {
        ReturnType::Default => Ret::Other,
        ReturnType::Type(_, t) => match &**t {
            Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
                "Result" | "PyResult" => Ret::Result,
                "Option" => Ret::Option,
                _ => Ret::Other,
            },
            _ => Ret::Other,
        },
    }
}

/// `?` inside a closure body: explicit matches on the closure's own result
fn cps(e: &Expr, n: &mut usize) -> Option<Expr> {
    if !has_try(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Block(b) if b.label.is_none() => {
            let st = &b.block.stmts;
            let i = st.iter().position(|s| {
                let mut h = HasTry(false);
                h.visit_stmt(s);
                h.0
            })?;
            let before = &st[..i];
            let rest = &st[i + 1..];
            let r = match &st[i] {
                Stmt::Expr(x, None) => {
                    let x = cps(x, n)?;
                    quote!(#x)
                }
                Stmt::Expr(x, Some(_)) => {
                    let (binds, x2) = hoist(x, n)?;
                    let tail = cps(&parse_quote!({ #(#rest)* }), n)?;
                    wrap(binds, parse_quote!({ #x2; #tail })).to_token_stream()
                }
                Stmt::Local(l) => {
                    let init = l.init.as_ref()?;
                    if init.diverge.is_some() {
                        return None;
                    }
                    let (binds, x2) = hoist(&init.expr, n)?;
                    let p = &l.pat;
                    let tail = cps(&parse_quote!({ #(#rest)* }), n)?;
                    wrap(binds, parse_quote!({ let #p = #x2; #tail })).to_token_stream()
                }
                _ => return None,
            };
            Some(parse_quote!({ #(#before)* #r }))
        }
        Expr::If(i) if !has_try(&i.cond) && i.else_branch.is_some() => {
            let c = &i.cond;
            let t = &i.then_branch;
            let t = cps(&parse_quote!(#t), n)?;
            let f = cps(&i.else_branch.as_ref().unwrap().1, n)?;
            Some(parse_quote!(if #c { #t } else { #f }))
        }
        Expr::Match(m) if !has_try(&m.expr) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = cps(&a.body, n)?;
            }
            Some(Expr::Match(m))
        }
        _ => {
            let (binds, x) = hoist(e, n)?;
            Some(wrap(binds, x))
        }
    }
}
fn wrap(binds: Vec<(Ident, Expr)>, inner: Expr) -> Expr {
    let mut e = inner;
    for (id, x) in binds.into_iter().rev() {
        e = parse_quote!(match #x { Ok(#id) => #e, Err(vx_e) => Err(vx_err_into(vx_e)) });
    }
    e
}
fn hoist(e: &Expr, n: &mut usize) -> Option<(Vec<(Ident, Expr)>, Expr)> {
    struct H<'a> {
        binds: Vec<(Ident, Expr)>,
        n: &'a mut usize,
        bad: bool,
    }
    impl VisitMut for H<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Closure(_) => {}
                Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Block(_) => {
                    if has_try(e) {
                        self.bad = true;
                    }
                }
                Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && has_try(&b.right) => self.bad = true,
                Expr::Try(t) => {
                    self.visit_expr_mut(&mut t.expr);
                    let id = format_ident!("vx_t{}", *self.n);
                    *self.n += 1;
                    self.binds.push((id.clone(), (*t.expr).clone()));
                    *e = parse_quote!(#id);
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut h = H { binds: vec![], n, bad: false };
    let mut e = e.clone();
    h.visit_expr_mut(&mut e);
    if h.bad {
        None
    } else {
        Some((h.binds, e))
    }
}

struct ClosureTry {
    n: usize,
    bad: bool,
}
impl VisitMut for ClosureTry {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        if has_try(&c.body) {
            match cps(&c.body, &mut self.n) {
                Some(b) => *c.body = b,
                None => self.bad = true,
            }
        }
    }
}

impl VisitMut for Tr<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                let semi = m.semi_token;
                *s = if semi.is_some() { parse_quote!(#e;) } else { Stmt::Expr(e, None) };
            }
            return;
        }
        if let Stmt::Local(l) = s {
            if let Some(init) = &l.init {
                // `let PAT = e else { .. }`
                if let Some((_, d)) = &init.diverge {
                    let (p, e) = (&l.pat, &init.expr);
                    let mut ids = Vec::new();
                    pat_idents(p, &mut ids);
                    let ids: Vec<Ident> = ids.iter().map(|i| format_ident!("{}", i)).collect();
                    *s = if ids.len() == 1 {
                        let a = &ids[0];
                        parse_quote!(let #a = match #e { #p => #a, _ => #d };)
                    } else {
                        parse_quote!(let (#(#ids),*) = match #e { #p => (#(#ids),*), _ => #d };)
                    };
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // the match on string literals and the loops first look at their shape
        match e {
            Expr::Macro(m) => {
                if let Some(x) = self.mac(&m.mac.clone()) {
                    *e = x;
                }
                return;
            }
            Expr::Const(_) | Expr::Async(_) | Expr::Await(_) | Expr::Unsafe(_) | Expr::Yield(_) => {
                self.unsupported.push(e.to_token_stream().to_string().chars().take(60).collect());
                return;
            }
            _ => {}
        }
        // `for (a, b) in <temporary>.iter_mut()`: the container is consumed instead
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m) = &*f.expr {
                if m.method == "iter_mut" && m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_)) {
                    if let Pat::Tuple(t) = &*f.pat {
                        if t.elems.len() == 2 {
                            if let Pat::Ident(v) = &t.elems[1] {
                                let k = t.elems[0].clone();
                                let v = v.ident.clone();
                                let r = &m.receiver;
                                let body = &f.body.stmts;
                                let own = format_ident!("vx_own_{}", v);
                                let l = &f.label;
                                *e = parse_quote!(#l for (#k, #own) in #r.into_iter() { let mut #own = #own; let #v = &mut #own; #(#body)* });
                            }
                        }
                    }
                }
            }
        }
        match e {
            Expr::Assign(a) => {
                let old = std::mem::replace(&mut self.in_lhs, true);
                self.visit_expr_mut(&mut a.left);
                self.in_lhs = old;
                self.visit_expr_mut(&mut a.right);
                return;
            }
            Expr::Path(p) => {
                if p.qself.is_none() {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if self.ctx.consts.contains(&last) {
                        self.visit_path_mut(&mut p.path);
                        let q = p.clone();
                        *e = parse_quote!(#q());
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::ForLoop(f) => {
                let n = self.id();
                let it = format_ident!("vx_it{}", n);
                let l = Self::lit(n);
                let stm = self.loop_parts(n, &mut f.body);
                let b = bind(&f.pat, parse_quote!(#it.vx_step()));
                let (pre, x) = hoist_tmp(&f.expr, &format_ident!("vx_t{}", n));
                let lab = &f.label;
                Some(parse_quote!({
                    #(#pre)*
                    let mut #it = (#x).vx_into_iter();
                    vx_lp!(#l, #it);
                    #lab while #it.vx_has_next() {
                        vx_lb!(#l);
                        #(#b)*
                        #(#stm)*
                        vx_le!(#l);
                    }
                    vx_la!(#l);
                }))
            }
            Expr::While(w) => {
                let n = self.id();
                let l = Self::lit(n);
                let lab = w.label.clone();
                let stm = self.loop_parts(n, &mut w.body);
                let mut done = None;
                if let Expr::Let(le) = &*w.cond {
                    // while let Some(p) = it.next()
                    if let (Pat::TupleStruct(ts), Expr::MethodCall(mc)) = (&*le.pat, &*le.expr) {
                        if ts.path.is_ident("Some") && ts.elems.len() == 1 && mc.method == "vx_next" {
                            if let Expr::Path(p) = &*mc.receiver {
                                let b = bind(&ts.elems[0], parse_quote!(#p.vx_step()));
                                done = Some(parse_quote!({
                                    vx_lp!(#l, #p);
                                    #lab while #p.vx_has_next() {
                                        vx_lb!(#l);
                                        #(#b)*
                                        #(#stm)*
                                        vx_le!(#l);
                                    }
                                    vx_la!(#l);
                                }));
                            }
                        }
                    }
                    if done.is_none() {
                        let (p, x) = (&le.pat, &le.expr);
                        done = Some(parse_quote!({
                            vx_lp!(#l);
                            #lab loop {
                                vx_lb!(#l);
                                match #x { #p => { #(#stm)* } _ => { break; } }
                                vx_le!(#l);
                            }
                            vx_la!(#l);
                        }));
                    }
                }
                if done.is_none() {
                    let c = &w.cond;
                    done = Some(parse_quote!({
                        vx_lp!(#l);
                        #lab while #c {
                            vx_lb!(#l);
                            #(#stm)*
                            vx_le!(#l);
                        }
                        vx_la!(#l);
                    }));
                }
                done
            }
            Expr::Loop(w) => {
                let n = self.id();
                let l = Self::lit(n);
                let lab = w.label.clone();
                let stm = self.loop_parts(n, &mut w.body);
                // loop { match it.next() { Some(p) => A, None => break } }
                let mut done = None;
                if stm.len() == 1 {
                    if let Stmt::Expr(Expr::Match(m), _) = &stm[0] {
                        if let Expr::MethodCall(mc) = &*m.expr {
                            if mc.method == "vx_next" && m.arms.len() == 2 {
                                if let Expr::Path(p) = &*mc.receiver {
                                    let mut some = None;
                                    let mut none = false;
                                    for a in &m.arms {
                                        match &a.pat {
                                            Pat::TupleStruct(ts) if ts.path.is_ident("Some") && a.guard.is_none() => some = Some((ts.elems[0].clone(), a.body.clone())),
                                            Pat::Ident(i) if i.ident == "None" => none = is_break(&a.body),
                                            Pat::Wild(_) => none = is_break(&a.body),
                                            _ => {}
                                        }
                                    }
                                    if let (Some((q, b)), true) = (some, none) {
                                        let bs = bind(&q, parse_quote!(#p.vx_step()));
                                        done = Some(parse_quote!({
                                            vx_lp!(#l, #p);
                                            #lab while #p.vx_has_next() {
                                                vx_lb!(#l);
                                                #(#bs)*
                                                #b;
                                                vx_le!(#l);
                                            }
                                            vx_la!(#l);
                                        }));
                                    }
                                }
                            }
                        }
                    }
                }
                if done.is_none() {
                    done = Some(parse_quote!({
                        vx_lp!(#l);
                        #lab loop {
                            vx_lb!(#l);
                            #(#stm)*
                            vx_le!(#l);
                        }
                        vx_la!(#l);
                    }));
                }
                done
            }
            Expr::Try(t) => {
                let x = &t.expr;
                match self.ret {
                    Ret::Result => {
                        // in the Python module the error is what the caller sees
                        let f = if self.py { format_ident!("vx_err_py") } else { format_ident!("vx_err_into") };
                        Some(parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(#f(vx_e)) }))
                    }
                    Ret::Option => Some(parse_quote!(match #x { Some(vx_v) => vx_v, None => return None })),
                    Ret::Other => {
                        self.unsupported.push("? in a function that returns neither Result nor Option".into());
                        None
                    }
                }
            }
            Expr::Binary(b) => {
                let is_ref = matches!(&*b.right, Expr::Reference(_));
                let (l, r) = (&b.left, &b.right);
                let strlit = |e: &Expr| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                let items = |e: &Expr| matches!(e, Expr::MethodCall(m) if m.method == "items" && m.args.is_empty());
                match b.op {
                    BinOp::Eq(_) if items(l) && items(r) => Some(parse_quote!(vx_same(&#l, &#r))),
                    BinOp::Ne(_) if items(l) && items(r) => Some(parse_quote!(!vx_same(&#l, &#r))),
                    BinOp::Add(_) if is_ref => Some(parse_quote!((#l).vx_add(#r))),
                    BinOp::Sub(_) if is_ref => Some(parse_quote!((#l).vx_sub(#r))),
                    BinOp::AddAssign(_) if self.corr || is_ref || strlit(r) => Some(parse_quote!((#l).vx_add_assign(#r))),
                    BinOp::SubAssign(_) if self.corr || is_ref => Some(parse_quote!((#l).vx_sub_assign(#r))),
                    BinOp::Eq(_) if strlit(l) || strlit(r) => Some(parse_quote!(vx_same(&#l, &#r))),
                    BinOp::Ne(_) if strlit(l) || strlit(r) => Some(parse_quote!(!vx_same(&#l, &#r))),
                    _ => None,
                }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() >= 2 && ["mem", "cmp"].contains(&p.path.segments[p.path.segments.len() - 2].ident.to_string().as_str())) => {
                let v: Vec<String> = if let Expr::Path(p) = &*c.func { p.path.segments.iter().map(|s| s.ident.to_string()).collect() } else { vec![] };
                match (v[v.len() - 2].as_str(), v[v.len() - 1].as_str(), c.args.len()) {
                    ("mem", "take", 1) => {
                        let a = &c.args[0];
                        Some(parse_quote!(std::mem::replace(#a, crate::ext::Default::default())))
                    }
                    ("cmp", n @ ("min" | "max"), 2) => {
                        let (a, b, n) = (&c.args[0], &c.args[1], format_ident!("{}", n));
                        Some(parse_quote!((#a).#n(#b)))
                    }
                    _ => None,
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(i) = &*r.expr {
                    let (a, b) = (&i.expr, &i.index);
                    Some(parse_quote!((#a).vx_index(#b)))
                } else {
                    None
                }
            }
            Expr::Call(c) => {
                // X::iter() of a strum enum
                if let Expr::Path(p) = &mut *c.func {
                    if p.path.segments.len() == 2 && p.path.segments[1].ident == "iter" && c.args.is_empty() {
                        p.path.segments[1].ident = format_ident!("vx_variants");
                    }
                    if p.path.segments.len() >= 2 && c.args.len() == 1 {
                        let l = p.path.segments.last_mut().unwrap();
                        if l.ident == "from" {
                            l.ident = format_ident!("vx_from");
                        }
                    }
                    if p.path.segments.len() == 2 && p.path.segments[1].ident == "from_iter" && c.args.len() == 1 {
                        let a = &c.args[0];
                        let t = &p.path.segments[0].ident;
                        let x: Expr = parse_quote!((#a).vx_into_iter().vx_collect::<#t>());
                        *e = x;
                    }
                }
                None
            }
            Expr::Match(m) => self.str_match(m),
            Expr::MethodCall(_) => self.method(e),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

fn is_break(e: &Expr) -> bool {
    match e {
        Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, _) => is_break(x),
            _ => false,
        },
        _ => false,
    }
}

fn str_pat(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(l) => match &l.lit {
            Lit::Str(s) => Some(vec![s.clone()]),
            _ => None,
        },
        Pat::Or(o) => {
            let mut v = Vec::new();
            for c in &o.cases {
                v.extend(str_pat(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => str_pat(&p.pat),
        _ => None,
    }
}

impl Tr<'_> {
    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| str_pat(&a.pat).is_some()) {
            return None;
        }
        let n = self.id();
        let v = format_ident!("vx_m{}", n);
        let mut tail: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let b = &a.body;
            match (&a.pat, str_pat(&a.pat)) {
                (_, Some(ls)) => {
                    let mut c: Expr = {
                        let l = &ls[0];
                        parse_quote!(vx_str_eq(#v, #l))
                    };
                    for l in &ls[1..] {
                        c = parse_quote!(#c || vx_str_eq(#v, #l));
                    }
                    if let Some((_, g)) = &a.guard {
                        c = parse_quote!((#c) && #g);
                    }
                    let t = match tail.take() {
                        Some(t) => t,
                        None => parse_quote!({ vx_unreachable() }),
                    };
                    tail = Some(parse_quote!(if #c { #b } else { #t }));
                }
                (Pat::Wild(_), _) if a.guard.is_none() => tail = Some(parse_quote!({ #b })),
                (Pat::Ident(i), _) if a.guard.is_none() && i.subpat.is_none() => {
                    let id = &i.ident;
                    tail = Some(parse_quote!({ let #id = #v; #b }))
                }
                (Pat::Wild(_), _) => {
                    let g = &a.guard.as_ref().unwrap().1;
                    let t = tail.take()?;
                    tail = Some(parse_quote!(if #g { #b } else { #t }));
                }
                (Pat::Ident(i), _) if i.subpat.is_none() => {
                    let id = &i.ident;
                    let g = &a.guard.as_ref().unwrap().1;
                    let t = tail.take()?;
                    tail = Some(parse_quote!({ let #id = #v; if #g { #b } else { #t } }));
                }
                _ => {
                    self.unsupported.push("match mixing string literals and other patterns".into());
                    return None;
                }
            }
        }
        let s = &m.expr;
        let t = tail?;
        Some(parse_quote!({ let #v = #s; #t }))
    }

    /// does the expression have a Result for its value?  Known from the functions it calls.
    fn is_result(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_result(&p.expr),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.results.contains(&i.to_string())),
            Expr::Reference(r) => self.is_result(&r.expr),
            Expr::Match(m) => m.arms.first().map_or(false, |a| matches!(&a.pat, Pat::TupleStruct(t) if t.path.is_ident("Ok"))),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                ["map_err", "ok_or", "ok_or_else", "into_inner"].contains(&n.as_str())
                    || (["map", "and_then", "as_ref", "as_mut", "clone", "or_else"].contains(&n.as_str()) && self.is_result(&m.receiver)) || self.ctx.result_fns.contains(&n)
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let l = v.last().unwrap().as_str();
                    let two = if v.len() >= 2 { format!("{}::{}", v[v.len() - 2], l) } else { String::new() };
                    ["Ok", "Err"].contains(&l)
                        || self.ctx.result_fns.contains(l)
                        || ["env::var", "env::current_dir", "File::open", "serde_yaml::from_reader", "serde_yaml::from_str", "serde_yaml::to_string", "String::from_utf8", "fs::canonicalize", "fs::read_to_string"].contains(&two.as_str())
                }
                _ => false,
            },
            _ => false,
        }
    }

    fn method(&mut self, e: &mut Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        let name = m.method.to_string();
        let recv = (*m.receiver).clone();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let chain = is_chain(&recv);
        if name == "expect" {
            m.method = format_ident!("unwrap");
            m.args.clear();
            return None;
        }
        if name == "unwrap_or_default" && args.is_empty() {
            if self.is_result(&recv) {
                return Some(parse_quote!(match #recv { Ok(vx_v) => vx_v, Err(_) => crate::ext::Default::default() }));
            }
            return Some(parse_quote!(match #recv { Some(vx_v) => vx_v, None => crate::ext::Default::default() }));
        }
        // (a..=b).contains(&x) and the adaptors of a range
        if let Expr::Paren(pr) = &recv {
            if let Expr::Range(rg) = &*pr.expr {
                if let (Some(a), Some(b)) = (&rg.start, &rg.end) {
                    if name == "contains" && args.len() == 1 {
                        let x = match &args[0] {
                            Expr::Reference(r) => (*r.expr).clone(),
                            o => parse_quote!(*#o),
                        };
                        return Some(match rg.limits {
                            RangeLimits::Closed(_) => parse_quote!({ let vx_c = #x; #a <= vx_c && vx_c <= #b }),
                            RangeLimits::HalfOpen(_) => parse_quote!({ let vx_c = #x; #a <= vx_c && vx_c < #b }),
                        });
                    }
                }
                if ["rev", "enumerate", "zip", "skip", "take", "chain", "step_by", "collect", "count", "sum", "last", "peekable"].contains(&name.as_str()) {
                    *m.receiver = parse_quote!(#recv.vx_into_iter());
                    m.method = format_ident!("vx_{}", name);
                    return None;
                }
            }
        }
        // map.entry(k).or_insert(v)
        if let Expr::MethodCall(en) = &recv {
            if en.method == "entry" && en.args.len() == 1 {
                let (r, k) = (&en.receiver, &en.args[0]);
                match (name.as_str(), args.len()) {
                    ("or_insert", 1) => {
                        let v = &args[0];
                        return Some(parse_quote!(#r.vx_or_insert(#k, #v)));
                    }
                    ("or_insert_with", 1) => {
                        let v = Self::closure0(&args[0])?;
                        return Some(parse_quote!(#r.vx_or_insert(#k, #v)));
                    }
                    ("or_default", 0) => return Some(parse_quote!(#r.vx_or_insert(#k, crate::ext::Default::default()))),
                    _ => {}
                }
            }
        }
        // Option / Result combinators with a closure
        if args.len() == 1 && !chain {
            if let (true, Some(b)) = (["ok_or_else", "unwrap_or_else", "or_else"].contains(&name.as_str()), Self::closure0(&args[0])) {
                if !has_return(&b) {
                    match name.as_str() {
                        "ok_or_else" => return Some(parse_quote!(match #recv { Some(vx_v) => Ok(vx_v), None => Err(#b) })),
                        "unwrap_or_else" => return Some(parse_quote!(match #recv { Some(vx_v) => vx_v, None => #b })),
                        "or_else" => return Some(parse_quote!(match #recv { Some(vx_v) => Some(vx_v), None => #b })),
                        _ => {}
                    }
                }
            }
            if let Some((p, b)) = Self::closure1(&args[0]) {
                if !has_return(&b) {
                    let s = bind(&p, parse_quote!(vx_v));
                    let res = self.is_result(&recv);
                    match name.as_str() {
                        "map" if res => return Some(parse_quote!(match #recv { Ok(vx_v) => { #(#s)* Ok(#b) }, Err(vx_v) => Err(vx_v) })),
                        "map" => return Some(parse_quote!(match #recv { Some(vx_v) => { #(#s)* Some(#b) }, None => None })),
                        "and_then" if res => return Some(parse_quote!(match #recv { Ok(vx_v) => { #(#s)* #b }, Err(vx_v) => Err(vx_v) })),
                        "and_then" => return Some(parse_quote!(match #recv { Some(vx_v) => { #(#s)* #b }, None => None })),
                        "map_err" => return Some(parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_v) => { #(#s)* Err(#b) } })),
                        "is_ok_and" => return Some(parse_quote!(match #recv { Ok(vx_v) => { #(#s)* #b }, Err(_) => false })),
                        "is_some_and" => return Some(parse_quote!(match #recv { Some(vx_v) => { #(#s)* #b }, None => false })),
                        "is_none_or" => return Some(parse_quote!(match #recv { Some(vx_v) => { #(#s)* #b }, None => true })),
                        "unwrap_or_else" if res => return Some(parse_quote!(match #recv { Ok(vx_v) => vx_v, Err(vx_v) => { #(#s)* #b } })),
                        "or_else" if res => return Some(parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_v) => { #(#s)* #b } })),
                        "filter" => {
                            let s = bind_ref(&p, &format_ident!("vx_v"));
                            return Some(parse_quote!(match #recv { Some(vx_v) => { let vx_c = { #(#s)* #b }; if vx_c { Some(vx_v) } else { None } }, None => None }));
                        }
                        _ => {}
                    }
                }
            }
        }
        if name == "map_or" && args.len() == 2 && !chain {
            if let Some((p, b)) = Self::closure1(&args[1]) {
                let d = &args[0];
                let s = bind(&p, parse_quote!(vx_v));
                if self.is_result(&recv) {
                    return Some(parse_quote!(match #recv { Ok(vx_v) => { #(#s)* #b }, Err(_) => #d }));
                }
                return Some(parse_quote!(match #recv { Some(vx_v) => { #(#s)* #b }, None => #d }));
            }
        }
        if name == "map_or_else" && args.len() == 2 && !chain {
            if let (Some(d), Some((p, b))) = (Self::closure0(&args[0]), Self::closure1(&args[1])) {
                let s = bind(&p, parse_quote!(vx_v));
                return Some(parse_quote!(match #recv { Some(vx_v) => { #(#s)* #b }, None => #d }));
            }
        }
        // iterator adaptors with a closure: eager loops
        if chain && args.len() == 1 && ["map", "filter", "filter_map", "flat_map", "for_each", "any", "all", "find", "position"].contains(&name.as_str()) {
            if let Some((p, b)) = Self::closure1(&args[0]) {
                if has_return(&b) {
                    self.unsupported.push("return inside a closure".into());
                    return None;
                }
                let n = self.next;
                let o = format_ident!("vx_o{}", n);
                let st = match name.as_str() {
                    "map" => self.eager(&recv, None, |x| {
                        let mut s = bind(&p, parse_quote!(#x));
                        s.push(parse_quote!(#o.push(#b);));
                        s
                    }),
                    "for_each" => self.eager(&recv, None, |x| {
                        let mut s = bind(&p, parse_quote!(#x));
                        s.push(parse_quote!({ #b; }));
                        s
                    }),
                    "filter" => self.eager(&recv, None, |x| {
                        let s = bind_ref(&p, x);
                        vec![parse_quote!(let vx_c = { #(#s)* #b };), parse_quote!(if vx_c { #o.push(#x); })]
                    }),
                    "filter_map" => self.eager(&recv, None, |x| {
                        let s = bind(&p, parse_quote!(#x));
                        vec![parse_quote!(let vx_c = { #(#s)* #b };), parse_quote!(match vx_c { Some(vx_v) => { #o.push(vx_v); } None => {} })]
                    }),
                    "flat_map" => {
                        let inner_recv: Expr = parse_quote!(vx_c);
                        let o2 = o.clone();
                        let outer = self.id();
                        let inner = self.eager(&inner_recv, None, |y| vec![parse_quote!(#o2.push(#y);)]);
                        let it = format_ident!("vx_it{}", outer);
                        let x = format_ident!("vx_x{}", outer);
                        let l = Self::lit(outer);
                        let s = bind(&p, parse_quote!(#x));
                        let (pre, recv) = hoist_tmp(&recv, &format_ident!("vx_t{}", outer));
                        parse_quote! {
                            #(#pre)*
                            let mut #it = (#recv).vx_into_iter();
                            vx_lp!(#l, #it);
                            while #it.vx_has_next() {
                                vx_lb!(#l);
                                let #x = #it.vx_step();
                                let vx_c = { #(#s)* #b };
                                #(#inner)*
                                vx_le!(#l);
                            }
                            vx_la!(#l);
                        }
                    }
                    "any" => self.eager(&recv, Some(parse_quote!(!#o)), |x| {
                        let s = bind(&p, parse_quote!(#x));
                        vec![parse_quote!(#o = { #(#s)* #b };)]
                    }),
                    "all" => self.eager(&recv, Some(parse_quote!(#o)), |x| {
                        let s = bind(&p, parse_quote!(#x));
                        vec![parse_quote!(#o = { #(#s)* #b };)]
                    }),
                    "find" => self.eager(&recv, Some(parse_quote!(#o.is_none())), |x| {
                        let s = bind_ref(&p, x);
                        vec![parse_quote!(let vx_c = { #(#s)* #b };), parse_quote!(if vx_c { #o = Some(#x); })]
                    }),
                    _ => {
                        self.unsupported.push(name);
                        return None;
                    }
                };
                return Some(match name.as_str() {
                    "for_each" => parse_quote!({ #(#st)* }),
                    "any" => parse_quote!({ let mut #o = false; #(#st)* #o }),
                    "all" => parse_quote!({ let mut #o = true; #(#st)* #o }),
                    "find" => parse_quote!({ let mut #o = None; #(#st)* #o }),
                    _ => parse_quote!({ vx_chain!(); let mut #o = Vec::new(); #(#st)* #o.vx_into_iter() }),
                });
            }
        }
        if chain && name == "fold" && args.len() == 2 {
            if let Expr::Closure(c) = &args[1] {
                if c.inputs.len() == 2 && !has_return(&c.body) {
                    let n = self.next;
                    let o = format_ident!("vx_o{}", n);
                    let init = &args[0];
                    let (pa, px, b) = (c.inputs[0].clone(), c.inputs[1].clone(), (*c.body).clone());
                    let st = self.eager(&recv, None, |x| {
                        let mut s = bind(&px, parse_quote!(#x));
                        s.insert(0, parse_quote!(let #pa = #o;));
                        s.push(parse_quote!(#o = #b;));
                        s
                    });
                    return Some(parse_quote!({ let mut #o = #init; #(#st)* #o }));
                }
            }
        }
        if chain && name == "last" {
            m.method = format_ident!("vx_last");
            return None;
        }
        if args.iter().any(|a| matches!(a, Expr::Closure(_))) {
            self.unsupported.push(format!("closure passed to .{name}()"));
        }
        if RENAME.contains(&name.as_str()) {
            m.method = format_ident!("vx_{}", name);
        }
        None
    }
}

// ---------------------------------------------------------------- locals

pub fn pat_idents(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'a, 'b> Visit<'a> for V<'b> {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            let s = i.ident.to_string();
            if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0.push(s);
            }
        }
    }
    V(out).visit_pat(p);
}

struct Locals(Vec<(String, String)>);
impl<'a> Visit<'a> for Locals {
    fn visit_local(&mut self, l: &'a Local) {
        let mut v = Vec::new();
        pat_idents(&l.pat, &mut v);
        let init = l.init.as_ref().map(|i| print::print(i.expr.to_token_stream())).unwrap_or_default();
        for x in v {
            self.0.push((x, init.clone()));
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        let mut v = Vec::new();
        pat_idents(&f.pat, &mut v);
        for x in v {
            self.0.push((x, "for".into()));
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_closure(&mut self, f: &'a ExprClosure) {
        for p in &f.inputs {
            let mut v = Vec::new();
            pat_idents(p, &mut v);
            for x in v {
                self.0.push((x, "closure".into()));
            }
        }
        visit::visit_expr_closure(self, f);
    }
    fn visit_expr_let(&mut self, f: &'a ExprLet) {
        let mut v = Vec::new();
        pat_idents(&f.pat, &mut v);
        for x in v {
            self.0.push((x, "let".into()));
        }
        visit::visit_expr_let(self, f);
    }
}

// ---------------------------------------------------------------- functions

/// renumber the loops in order of appearance
fn renumber(ts: TokenStream) -> (TokenStream, usize) {
    fn collect(ts: TokenStream, order: &mut Vec<String>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for i in 0..v.len() {
            if let TokenTree::Ident(id) = &v[i] {
                if id == "vx_lp" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        if let Some(TokenTree::Literal(l)) = g.stream().into_iter().next() {
                            order.push(l.to_string());
                        }
                    }
                }
            }
            if let TokenTree::Group(g) = &v[i] {
                collect(g.stream(), order);
            }
        }
    }
    let mut order = Vec::new();
    collect(ts.clone(), &mut order);
    let map: BTreeMap<String, usize> = order.iter().enumerate().map(|(i, s)| (s.clone(), i)).collect();
    fn go(ts: TokenStream, map: &BTreeMap<String, usize>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = Vec::new();
        for i in 0..v.len() {
            let marker = i >= 2
                && matches!(&v[i], TokenTree::Group(_))
                && matches!(&v[i - 2], TokenTree::Ident(id) if ["vx_lp","vx_lb","vx_le","vx_la"].contains(&id.to_string().as_str()));
            match &v[i] {
                TokenTree::Group(g) => {
                    let mut s = go(g.stream(), map);
                    if marker {
                        let mut w: Vec<TokenTree> = s.into_iter().collect();
                        if let Some(TokenTree::Literal(l)) = w.first() {
                            if let Some(k) = map.get(&l.to_string()) {
                                w[0] = TokenTree::Literal(proc_macro2::Literal::usize_unsuffixed(*k));
                            }
                        }
                        s = w.into_iter().collect();
                    }
                    out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), s)));
                }
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    let mut r = None;
                    for pre in ["vx_it", "vx_x", "vx_o", "vx_t"] {
                        if let Some(d) = s.strip_prefix(pre) {
                            if !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()) {
                                if let Some(k) = map.get(d) {
                                    r = Some(format!("{pre}{k}"));
                                }
                            }
                        }
                    }
                    match r {
                        Some(n) => out.push(TokenTree::Ident(format_ident!("{}", n))),
                        None => out.push(v[i].clone()),
                    }
                }
                t => out.push(t.clone()),
            }
        }
        out.into_iter().collect()
    }
    (go(ts, &map), order.len())
}

pub fn do_fn(
    sig: &Signature,
    block: Option<&Block>,
    key: String,
    ctx: &Ctx,
    file: &str,
    self_ty: Option<&str>,
    trait_: Option<&str>,
    vis: bool,
) -> Value {
    let mut sig = sig.clone();
    sig.constness = None;
    PathFix.visit_signature_mut(&mut sig);
    // impl AsRef<str>-like bounds keep their names; the traits of that name come from specs/ext.rs
    let line = sig.ident.span().start().line;
    let params: Vec<String> = sig
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => print::print(t.pat.to_token_stream()).replace("mut ", ""),
        })
        .collect();
    let sigtext = sig.to_token_stream().to_string();
    let mut unsupported = Vec::new();
    let mut inlined = Vec::new();
    let mut opaque: Vec<String> = Vec::new();
    let (body, loops, locals, raw) = match block {
        None => (Value::Null, 0, vec![], String::new()),
        Some(b) => {
            let mut b = b.clone();
            let raw = print::print(b.to_token_stream());
            inline::inline(&mut b, ctx, &key, self_ty, &mut inlined, &mut unsupported, &mut opaque);
            let mut lo = Locals(vec![]);
            lo.visit_block(&b);
            let mut ct = ClosureTry { n: 0, bad: false };
            ct.visit_block_mut(&mut b);
            if ct.bad {
                unsupported.push("? in a closure".to_string());
            }
            let mut tr = Tr {
                ctx,
                next: 0,
                unsupported: vec![],
                ret: ret_kind(&sig),
                corr: sigtext.contains("Correspondence"),
                in_lhs: false,
                py: key.starts_with("py::"),
                self_ty: self_ty.map(|s| s.to_string()),
                results: vec![],
            };
            for a in &sig.inputs {
                if let FnArg::Typed(t) = a {
                    if let (Pat::Ident(i), true) = (&*t.pat, is_result_type(&t.ty)) {
                        tr.results.push(i.ident.to_string());
                    }
                }
            }
            ResultLocals(&mut tr).visit_block(&b);
            let _ = &tr.self_ty;
            tr.visit_block_mut(&mut b);
            unsupported.extend(tr.unsupported);
            let tail: Stmt = syn::parse_quote!(vx_tail!(););
            match b.stmts.last() {
                Some(Stmt::Expr(_, None)) => {
                    let k = b.stmts.len() - 1;
                    b.stmts.insert(k, tail);
                }
                _ => b.stmts.push(tail),
            }
            let (ts, n) = renumber(b.to_token_stream());
            (Value::String(print::print(ts)), n, lo.0, raw)
        }
    };
    let generics = &sig.generics;
    let (name, inputs, gp) = (&sig.ident, &sig.inputs, &generics.params);
    let head = if gp.is_empty() { quote!(fn #name(#inputs)) } else { quote!(fn #name<#gp>(#inputs)) };
    let ret = match &sig.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => Value::String(print::print(t.to_token_stream())),
    };
    json!({
        "key": key, "name": name.to_string(), "head": print::print(head), "ret": ret,
        "where": print::print(generics.where_clause.to_token_stream()),
        "body": body, "params": params, "locals": locals, "loops": loops, "unsupported": unsupported,
        "inlined": inlined, "opaque": opaque, "file": file, "line": line, "vis": vis, "trait": trait_, "raw": raw,
    })
}
