//! Calls of crate-local helpers that have no contract are replaced by the helper's body.
use crate::Ctx;
use std::collections::{BTreeMap, BTreeSet};
use quote::format_ident;
use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub sig: Signature,
    pub block: Block,
    pub ty: Option<String>,
}

struct Scan {
    ret: bool,
    tr: bool,
}
impl<'a> Visit<'a> for Scan {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.tr = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// rename a set of identifiers (the helper's parameters and locals)
struct Ren<'a>(&'a [(String, Ident)]);
impl VisitMut for Ren<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        for (a, b) in self.0 {
            if i == a {
                *i = b.clone();
                return;
            }
        }
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        // `S { a }` shorthand must become `S { a: renamed }`
        for f in e.fields.iter_mut() {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
            self.visit_expr_mut(&mut f.expr);
        }
        if let Some(r) = &mut e.rest {
            self.visit_expr_mut(r);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        self.visit_expr_mut(&mut f.base);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 1 && p.leading_colon.is_none() {
            self.visit_ident_mut(&mut p.segments[0].ident);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // macro arguments are parsed as expressions where that is possible
        use syn::parse::Parser;
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        if let Ok(mut a) = p.parse2(m.tokens.clone()) {
            for e in a.iter_mut() {
                self.visit_expr_mut(e);
            }
            m.tokens = a.to_token_stream();
        }
    }
}

struct Inl<'a> {
    ctx: &'a Ctx,
    stack: Vec<String>,
    n: usize,
    inlined: &'a mut Vec<String>,
    unsupported: &'a mut Vec<String>,
    self_ty: Option<String>,
    /// the types of the receivers of the helpers being expanded
    selves: Vec<(String, Option<String>)>,
    /// functions declared inside the body
    nested: Vec<Helper>,
}

/// methods of the standard library: a helper of such a name is meant only on a receiver of the helper's type
const STD: &[&str] = &[
    "push", "push_str", "insert", "get", "get_mut", "len", "is_empty", "iter", "iter_mut", "into_iter", "next", "map", "filter", "extend", "contains", "contains_key", "remove", "pop", "clear",
    "join", "from", "into", "as_str", "as_ref", "to_string", "to_owned", "unwrap", "clone", "append", "chars", "bytes", "lines", "split", "trim", "trim_start", "trim_end", "find", "replace",
    "replacen", "keys", "values", "entry", "first", "last", "sort", "sort_by", "dedup", "retain", "drain", "collect", "fold", "any", "all", "zip", "chain", "rev", "skip", "take", "enumerate",
    "count", "max", "min", "sum", "position", "read", "write", "open", "path", "file_name", "extension", "exists", "is_dir", "is_file", "ok", "err", "map_err", "ok_or", "ok_or_else", "and_then",
    "unwrap_or", "unwrap_or_else", "unwrap_or_default", "is_some", "is_none", "is_ok", "is_err", "cmp", "eq", "partial_cmp", "add", "sub", "parse", "repeat", "starts_with", "ends_with", "strip_prefix",
    "strip_suffix", "union", "difference", "intersection", "copied", "cloned", "peek", "peekable", "with_capacity", "concat", "flatten", "flat_map", "filter_map", "for_each", "fmt", "default",
];

/// which crate of the repository a function belongs to
fn crate_of(key: &str) -> &'static str {
    if key.starts_with("bin_main") {
        "bin_main"
    } else if key.starts_with("bin_output") {
        "bin_output"
    } else if key == "py" || key.starts_with("py::") {
        "py"
    } else {
        "lib"
    }
}
/// an associated function (its owner is a type or a trait)
fn is_assoc(key: &str) -> bool {
    let mut s: Vec<&str> = key.split("::").collect();
    s.pop();
    s.pop().map_or(false, |t| t.contains('@') || t.chars().next().map_or(false, |c| c.is_uppercase()))
}

impl Inl<'_> {
    fn find(&self, name: &str, ty: Option<&str>, method: bool) -> Option<Helper> {
        if !method && ty.is_none() {
            if let Some(h) = self.nested.iter().find(|h| h.sig.ident == name) {
                return Some(h.clone());
            }
        }
        let c = self.ctx.helpers.get(name)?;
        if method && ty.is_none() && STD.contains(&name) {
            return None;
        }
        let c: Vec<&Helper> = c
            .iter()
            .filter(|h| {
                let recv = h.sig.inputs.first().map_or(false, |a| matches!(a, FnArg::Receiver(_)));
                if method {
                    recv && (ty.is_none() || h.ty.as_deref() == ty)
                } else if let Some(t) = ty {
                    h.ty.as_deref() == Some(t)
                } else {
                    h.ty.is_none()
                }
            })
            .collect();
        // a name means the function of the same crate; the binaries and the bindings also see the library
        let own = crate_of(&self.stack[0]);
        if !method || ty.is_some() {
            let tail = match ty {
                Some(t) => format!("::{}::{}", t, name),
                None => format!("::{}", name),
            };
            if self.ctx.known.iter().any(|k| crate_of(k) == own && format!("::{}", k).ends_with(&tail) && (ty.is_some() || !is_assoc(k))) {
                return None;
            }
        }
        let mine: Vec<&Helper> = c.iter().filter(|h| crate_of(&h.key) == own).cloned().collect();
        let c: Vec<&Helper> = if !mine.is_empty() { mine } else { c.into_iter().filter(|h| crate_of(&h.key) == "lib").collect() };
        // another known function of the same name makes a method call on an unknown receiver ambiguous
        if method && ty.is_none() && self.ctx.known.iter().any(|k| k.rsplit("::").next() == Some(name)) {
            return None;
        }
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }

    /// the helper meant by a method call: by the receiver's type where that is known
    fn find_method(&self, recv: &Expr, name: &str) -> Option<Helper> {
        if let Expr::Path(p) = recv {
            let t = if p.path.is_ident("self") {
                self.self_ty.clone()
            } else {
                self.selves.iter().find(|(n, _)| p.path.is_ident(n.as_str())).and_then(|(_, t)| t.clone())
            };
            if let Some(t) = t {
                if let Some(h) = self.find(name, Some(&t), true) {
                    return Some(h);
                }
            }
        }
        self.find(name, None, true)
    }

    /// the block that replaces a call; `tried`: the call is the operand of `?`
    fn expand(&mut self, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>, tried: bool) -> Option<Expr> {
        if self.stack.contains(&h.key) || self.stack.len() > 4 {
            return None;
        }
        let mut sc = Scan { ret: false, tr: false };
        sc.visit_block(&h.block);
        let mut block = h.block.clone();
        if sc.ret {
            block = match unreturn(&block) {
                Some(b) => b,
                None => {
                    self.unsupported.push(format!("helper {} returns early", h.key));
                    return None;
                }
            };
        }
        if sc.tr && !tried {
            self.unsupported.push(format!("helper {} uses ? and its result is not passed on with ?", h.key));
            return None;
        }
        let k = self.n;
        self.n += 1;
        // rename parameters and locals
        let mut ren: Vec<(String, Ident)> = Vec::new();
        let mut pre: Vec<Stmt> = Vec::new();
        let mut subst: Vec<(String, Expr)> = Vec::new();
        let mut ai = args.into_iter();
        for a in &h.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let e = recv?;
                    let id = format_ident!("vx_self_{}", k);
                    ren.push(("self".into(), id.clone()));
                    self.selves.push((id.to_string(), h.ty.clone()));
                    let plain_self = matches!(e, Expr::Path(p) if p.path.is_ident("self") || p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with("vx_self_")));
                    if r.reference.is_some() {
                        if plain_self {
                            pre.push(parse_quote!(let #id = #e;));
                        } else if r.mutability.is_some() {
                            pre.push(parse_quote!(let #id = &mut (#e);));
                        } else {
                            pre.push(parse_quote!(let #id = &(#e);));
                        }
                    } else {
                        pre.push(parse_quote!(let #id = #e;));
                    }
                }
                FnArg::Typed(t) => {
                    let v = ai.next()?;
                    // a function or a closure passed as an argument takes the place of the parameter
                    if let Pat::Ident(pi) = &*t.pat {
                        let name = pi.ident.to_string();
                        let ty = t.ty.to_token_stream().to_string();
                        let is_fn = generic(&h.sig, &ty) || ty.contains("impl ") || ty.contains("fn ");
                        let by_name = match &v {
                            Expr::Path(p) => p.qself.is_none() && self.is_function(&p.path),
                            Expr::Closure(_) => uses(&block, &name) == 1,
                            _ => false,
                        };
                        if is_fn && by_name {
                            let id = format_ident!("{}_vx{}", name, k);
                            subst.push((id.to_string(), v));
                            ren.push((name, id));
                            continue;
                        }
                    }
                    let mut ids = Vec::new();
                    crate::body::pat_idents(&t.pat, &mut ids);
                    for i in ids {
                        let id = format_ident!("{}_vx{}", i, k);
                        ren.push((i, id));
                    }
                    let mut p = (*t.pat).clone();
                    RenPat(&ren).visit_pat_mut(&mut p);
                    let ty = &t.ty;
                    let s = ty.to_token_stream().to_string();
                    if s.contains("impl ") || generic(&h.sig, &s) {
                        pre.push(parse_quote!(let #p = #v;));
                    } else {
                        pre.push(parse_quote!(let #p: #ty = #v;));
                    }
                }
            }
        }
        let mut lo = LocalNames(Vec::new());
        lo.visit_block(&block);
        // the block is a scope of its own: locals keep their names unless a substituted argument could capture them
        for i in lo.0 {
            if !subst.is_empty() && !ren.iter().any(|(a, _)| *a == i) {
                let id = format_ident!("{}_vx{}", i, k);
                ren.push((i, id));
            }
        }
        RenAll(&ren).visit_block_mut(&mut block);
        for (id, v) in &subst {
            SubstVar(id, v).visit_block_mut(&mut block);
        }
        // Self -> the helper's type
        if let Some(t) = &h.ty {
            if self.self_ty.as_deref() != Some(t) {
                SelfTy(t).visit_block_mut(&mut block);
            }
        }
        self.stack.push(h.key.clone());
        self.visit_block_mut(&mut block);
        self.stack.pop();
        self.inlined.push(h.key.clone());
        let stm = &block.stmts;
        if let (true, ReturnType::Type(_, t)) = (sc.tr, &h.sig.output) {
            // the type of the error that ? converts from
            let s = t.to_token_stream().to_string();
            if !s.contains("impl ") && !s.contains('&') && !generic(&h.sig, &s) {
                let mut t = t.clone();
                if let Some(o) = &h.ty {
                    SelfTy(o).visit_type_mut(&mut t);
                }
                return Some(parse_quote!({ #(#pre)* let vx_h: #t = { #(#stm)* }; vx_h }));
            }
        }
        Some(parse_quote!({ #(#pre)* #(#stm)* }))
    }
}

fn generic(s: &Signature, t: &str) -> bool {
    s.generics.params.iter().any(|p| match p {
        GenericParam::Type(x) => t.split(|c: char| !c.is_alphanumeric()).any(|w| x.ident == w),
        GenericParam::Lifetime(l) => t.contains(&l.lifetime.to_string()),
        _ => false,
    })
}

fn uses(b: &Block, name: &str) -> usize {
    struct U<'a>(&'a str, usize);
    impl<'a> Visit<'a> for U<'_> {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if p.path.is_ident(self.0) {
                self.1 += 1;
            }
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.tokens.to_string().contains(self.0) {
                self.1 += 2;
            }
        }
    }
    let mut u = U(name, 0);
    u.visit_block(b);
    u.1
}
struct SubstVar<'a>(&'a str, &'a Expr);
impl VisitMut for SubstVar<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
            *e = self.1.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct SelfTy<'a>(&'a str);
impl VisitMut for SelfTy<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "Self" {
            *i = format_ident!("{}", self.0);
        }
    }
}

struct RenPat<'a>(&'a [(String, Ident)]);
impl VisitMut for RenPat<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        for (a, b) in self.0 {
            if p.ident == a {
                p.ident = b.clone();
                return;
            }
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_pat_mut(&mut f.pat);
    }
}

struct RenAll<'a>(&'a [(String, Ident)]);
impl VisitMut for RenAll<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                Ren(self.0).visit_path_mut(&mut p.path);
            }
            return;
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        RenPat(self.0).visit_pat_mut(p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        use syn::parse::Parser;
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        if let Ok(mut a) = p.parse2(m.tokens.clone()) {
            for e in a.iter_mut() {
                self.visit_expr_mut(e);
            }
            m.tokens = a.to_token_stream();
        }
    }
}

struct LocalNames(Vec<String>);
impl<'a> Visit<'a> for LocalNames {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) {
        let s = i.ident.to_string();
        if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.push(s);
        }
    }
}

/// `{ if c { return a; } .. b }` and `{ return a; }` as expressions
fn unreturn(b: &Block) -> Option<Block> {
    fn clean_expr(e: &Expr) -> bool {
        let mut s = Scan { ret: false, tr: false };
        s.visit_expr(e);
        !s.ret
    }
    fn expr(e: &Expr) -> Option<Expr> {
        if clean_expr(e) {
            return Some(e.clone());
        }
        match e {
            Expr::Return(r) => {
                let x = r.expr.clone()?;
                if clean_expr(&x) {
                    Some(*x)
                } else {
                    None
                }
            }
            Expr::Block(b) => {
                let b = block(&b.block)?;
                Some(parse_quote!(#b))
            }
            Expr::If(i) if clean_expr(&i.cond) => {
                let c = &i.cond;
                let t = block(&i.then_branch)?;
                let f = expr(&i.else_branch.as_ref()?.1)?;
                Some(parse_quote!(if #c #t else { #f }))
            }
            Expr::Match(m) if clean_expr(&m.expr) => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    *a.body = expr(&a.body)?;
                }
                Some(Expr::Match(m))
            }
            _ => None,
        }
    }
    fn ends_in_return(b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(Expr::Return(_), _)) => true,
            _ => false,
        }
    }
    fn block(b: &Block) -> Option<Block> {
        let mut out: Vec<Stmt> = Vec::new();
        for (i, s) in b.stmts.iter().enumerate() {
            let mut sc = Scan { ret: false, tr: false };
            sc.visit_stmt(s);
            if !sc.ret {
                out.push(s.clone());
                continue;
            }
            let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
            match s {
                Stmt::Expr(Expr::Return(r), _) => {
                    let x = r.expr.clone()?;
                    if !clean_expr(&x) {
                        return None;
                    }
                    out.push(Stmt::Expr(*x, None));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                Stmt::Expr(Expr::If(x), _) if x.else_branch.is_none() && ends_in_return(&x.then_branch) && clean_expr(&x.cond) && !rest.stmts.is_empty() => {
                    let c = &x.cond;
                    let t = block(&x.then_branch)?;
                    let f = block(&rest)?;
                    let e: Expr = parse_quote!(if #c #t else #f);
                    out.push(Stmt::Expr(e, None));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                Stmt::Expr(e, None) if rest.stmts.is_empty() => {
                    out.push(Stmt::Expr(expr(e)?, None));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                _ => return None,
            }
        }
        Some(Block { brace_token: Default::default(), stmts: out })
    }
    block(b)
}

impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // operand of ?
        if let Expr::Try(t) = e {
            if let Some(x) = self.call(&t.expr, true) {
                *t.expr = x;
                return;
            }
            // fall through to the children, without treating the call itself as untried
            match &mut *t.expr {
                Expr::Call(c) => {
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                }
                Expr::MethodCall(m) => {
                    self.visit_expr_mut(&mut m.receiver);
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                }
                o => self.visit_expr_mut(o),
            }
            self.passed(&mut t.expr);
            return;
        }
        if let Some(x) = self.call(e, false) {
            *e = x;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        self.passed(e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        use syn::parse::Parser;
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        if m.path.segments.last().map_or(false, |s| ["vec", "println", "print", "format"].contains(&s.ident.to_string().as_str())) {
            if let Ok(mut a) = p.parse2(m.tokens.clone()) {
                for e in a.iter_mut() {
                    self.visit_expr_mut(e);
                }
                m.tokens = a.to_token_stream();
            }
        }
    }
}

impl Inl<'_> {
    /// `.map(helper)` with an uncontracted helper
    fn passed(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = a {
                    if p.path.segments.len() <= 2 {
                        let name = p.path.segments.last().unwrap().ident.to_string();
                        let ty = self.path_ty(&p.path);
                        if let Some(h) = self.find(&name, ty.as_deref(), false) {
                            if h.sig.inputs.len() == 1 && !matches!(h.sig.inputs[0], FnArg::Receiver(_)) {
                                let q = p.clone();
                                let arg: Expr = parse_quote!(vx_a);
                                if let Some(x) = self.expand(&h, None, vec![arg], false) {
                                    let _ = q;
                                    *a = parse_quote!(|vx_a| #x);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn is_function(&self, p: &Path) -> bool {
        let name = p.segments.last().unwrap().ident.to_string();
        let ty = self.path_ty(p);
        let tail = match &ty {
            Some(t) => format!("::{}::{}", t, name),
            None => format!("::{}", name),
        };
        self.find(&name, ty.as_deref(), false).is_some() || self.ctx.known.iter().any(|k| format!("::{}", k).ends_with(&tail) && (ty.is_some() || !is_assoc(k)))
    }
    fn path_ty(&self, p: &Path) -> Option<String> {
        if p.segments.len() == 2 {
            let t = p.segments[0].ident.to_string();
            if t == "Self" {
                return self.self_ty.clone();
            }
            if t.chars().next().unwrap().is_uppercase() {
                return Some(t);
            }
        }
        None
    }
    fn call(&mut self, e: &Expr, tried: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_some() || p.path.segments.len() > 3 {
                        return None;
                    }
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    let ty = self.path_ty(&p.path);
                    let h = self.find(&name, ty.as_deref(), false)?;
                    if h.sig.inputs.first().map_or(false, |a| matches!(a, FnArg::Receiver(_))) {
                        return None;
                    }
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return self.expand(&h, None, args, tried);
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let h = self.find_method(&m.receiver, &name)?;
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                self.expand(&h, Some(&r), args, tried)
            }
            _ => None,
        }
    }
}

pub fn inline(b: &mut Block, ctx: &Ctx, key: &str, self_ty: Option<&str>, inlined: &mut Vec<String>, unsupported: &mut Vec<String>, opaque: &mut Vec<String>) {
    let mut i = Inl { ctx, stack: vec![key.to_string()], n: 0, inlined, unsupported, self_ty: self_ty.map(|s| s.to_string()), selves: Vec::new(), nested: Vec::new() };
    let mut h = Hoist { key: key.to_string(), nested: Vec::new(), bad: Vec::new() };
    h.visit_block_mut(b);
    // a nested function may declare functions of its own, and all of them are told apart by name only
    for (k, f) in h.nested.iter().enumerate() {
        if h.nested[..k].iter().any(|g| g.sig.ident == f.sig.ident) {
            h.bad.push(format!("two inner functions {}", f.sig.ident));
        }
    }
    i.unsupported.extend(h.bad);
    i.nested = h.nested;
    ConstPats { lits: &ctx.const_lits, consts: Some(&ctx.consts), bad: i.unsupported }.visit_block_mut(b);
    local_closures(b, i.unsupported);
    i.visit_block_mut(b);
    // what came from helpers
    ConstPats { lits: &ctx.const_lits, consts: Some(&ctx.consts), bad: i.unsupported }.visit_block_mut(b);
    RefPats(0).visit_block_mut(b);
    // helpers that are still called: nothing is known of what they do
    let mut r = Remaining { i: &i, found: Vec::new() };
    r.visit_block(b);
    let found = r.found;
    opaque.extend(found);
}

struct Remaining<'a, 'b> {
    i: &'a Inl<'b>,
    found: Vec<String>,
}
impl<'a> Visit<'a> for Remaining<'_, '_> {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.qself.is_none() && p.path.segments.len() <= 3 {
            let name = p.path.segments.last().unwrap().ident.to_string();
            let ty = self.i.path_ty(&p.path);
            if p.path.segments.len() > 1 || name.chars().next().map_or(false, |c| c.is_lowercase()) {
                if let Some(h) = self.i.find(&name, ty.as_deref(), false) {
                    self.found.push(h.key);
                }
            }
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if let Some(h) = self.i.find_method(&m.receiver, &m.method.to_string()) {
            self.found.push(h.key);
        }
        visit::visit_expr_method_call(self, m);
    }
}

/// functions and constants declared inside a body: the functions are kept aside, to be put in place of their calls,
/// the constants become variables at the head of their block
struct Hoist {
    key: String,
    nested: Vec<Helper>,
    bad: Vec<String>,
}
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut lets: Vec<Stmt> = Vec::new();
        let mut lits: BTreeMap<String, Option<Lit>> = BTreeMap::new();
        let mut out: Vec<Stmt> = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(f)) => {
                    let mut block = *f.block;
                    self.visit_block_mut(&mut block);
                    local_closures(&mut block, &mut self.bad);
                    self.nested.push(Helper { key: format!("{}::{}", self.key, f.sig.ident), sig: f.sig, block, ty: None });
                }
                Stmt::Item(Item::Const(c)) => {
                    let (i, t, e) = (&c.ident, crate::body::static_lifetimes(&c.ty), &c.expr);
                    lets.push(parse_quote!(let #i: #t = #e;));
                    if let Expr::Lit(l) = &*c.expr {
                        lits.insert(i.to_string(), Some(l.lit.clone()));
                    }
                }
                Stmt::Item(Item::Use(u)) => out.push(Stmt::Item(Item::Use(u))),
                Stmt::Item(_) => self.bad.push("an item inside a body".into()),
                s => out.push(s),
            }
        }
        if !lets.is_empty() {
            let mut k = ConstPats { lits: &lits, consts: None, bad: &mut self.bad };
            for s in out.iter_mut() {
                k.visit_stmt_mut(s);
            }
        }
        for l in &lets {
            if let Stmt::Local(Local { pat: Pat::Type(t), .. }) = l {
                if let Pat::Ident(i) = &*t.pat {
                    if in_pattern(&i.ident.to_string(), &out).is_some() {
                        self.bad.push(format!("the inner constant {} in a pattern", i.ident));
                    }
                }
            }
        }
        lets.extend(out);
        b.stmts = lets;
        visit_mut::visit_block_mut(self, b);
    }
}
fn in_pattern(name: &str, b: &[Stmt]) -> Option<()> {
    struct P<'a>(&'a str, bool);
    impl<'a> Visit<'a> for P<'_> {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.1 |= i.ident == self.0;
            visit::visit_pat_ident(self, i);
        }
    }
    let mut p = P(name, false);
    for s in b {
        p.visit_stmt(s);
    }
    if p.1 {
        Some(())
    } else {
        None
    }
}

/// `let f = |a, b| e;` whose uses are all calls `f(x, y)`: each call becomes `{ let a = x; let b = y; e }`.
/// The variables e takes from around it mean the same at the call, as each is bound once in the whole body
/// and the closure is not `move` (so the borrow checker keeps them in step with the closure).
fn local_closures(b: &mut Block, bad: &mut Vec<String>) {
    struct C {
        all: Vec<(String, ExprClosure)>,
    }
    impl<'a> Visit<'a> for C {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                if let Expr::Closure(c) = &*i.expr {
                    self.all.push((p.ident.to_string(), c.clone()));
                }
            }
            visit::visit_local(self, l);
        }
    }
    struct Bound(Vec<String>);
    impl<'a> Visit<'a> for Bound {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0.push(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    struct Names(Vec<String>);
    impl<'a> Visit<'a> for Names {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.push(i.to_string());
            }
            visit::visit_expr_path(self, p);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            use syn::parse::Parser;
            let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
            match p.parse2(m.tokens.clone()) {
                Ok(a) => {
                    for e in &a {
                        self.visit_expr(e);
                    }
                }
                // inline format arguments
                Err(_) => self.0.push(String::new()),
            }
        }
    }
    struct Put<'a> {
        name: &'a str,
        c: &'a ExprClosure,
        done: usize,
    }
    impl VisitMut for Put<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(x) = e {
                if matches!(&*x.func, Expr::Path(p) if p.path.is_ident(self.name)) && x.args.len() == self.c.inputs.len() {
                    let (p, a, b) = (self.c.inputs.iter(), x.args.iter(), &self.c.body);
                    // all arguments first: an argument may use a name a parameter takes
                    *e = if self.c.inputs.len() == 1 {
                        let (p, a) = (&self.c.inputs[0], &x.args[0]);
                        let t: Expr = typed(p, a, &self.c.body);
                        t
                    } else {
                        let q: Vec<&Pat> = p.map(|p| if let Pat::Type(t) = p { &*t.pat } else { p }).collect();
                        parse_quote!({ let (#(#q),*) = (#(#a),*); #b })
                    };
                    self.done += 1;
                }
            }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            use syn::parse::Parser;
            let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
            if let Ok(mut a) = p.parse2(m.tokens.clone()) {
                for e in a.iter_mut() {
                    self.visit_expr_mut(e);
                }
                m.tokens = a.to_token_stream();
            }
        }
    }
    fn typed(p: &Pat, a: &Expr, b: &Expr) -> Expr {
        parse_quote!({ let #p = #a; #b })
    }
    struct Drop_<'a>(&'a str);
    impl VisitMut for Drop_<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| !matches!(s, Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) if p.ident == self.0 && matches!(&*i.expr, Expr::Closure(_))));
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut cs = C { all: Vec::new() };
    cs.visit_block(b);
    // a closure that calls another is put in place before the other
    for (name, _) in cs.all.clone().iter().rev() {
        let mut again = C { all: Vec::new() };
        again.visit_block(b);
        let c = match again.all.iter().find(|(n, _)| n == name) {
            Some((_, c)) => c.clone(),
            None => continue,
        };
        let mut own = Bound(Vec::new());
        own.visit_expr_closure(&c);
        let mut all = Bound(Vec::new());
        all.visit_block(b);
        let mut used = Names(Vec::new());
        used.visit_expr(&c.body);
        let mut everywhere = Names(Vec::new());
        everywhere.visit_block(b);
        let calls = everywhere.0.iter().filter(|n| *n == name).count();
        let mut scan = Scan { ret: false, tr: false };
        scan.visit_expr(&c.body);
        let count = |v: &Vec<String>, n: &String| v.iter().filter(|m| *m == n).count();
        let once = |n: &String| count(&all.0, n) - count(&own.0, n) <= 1;
        let ok = c.capture.is_none()
            && c.asyncness.is_none()
            && !scan.ret
            && !scan.tr
            && all.0.iter().filter(|m| *m == name).count() == 1
            && used.0.iter().all(|n| !n.is_empty() && once(n));
        if !ok {
            bad.push(format!("the local closure {}", name));
            continue;
        }
        let mut t = b.clone();
        let mut p = Put { name, c: &c, done: 0 };
        p.visit_block_mut(&mut t);
        if p.done == calls && calls > 0 {
            Drop_(name).visit_block_mut(&mut t);
            *b = t;
        } else {
            bad.push(format!("the local closure {}", name));
        }
    }
}

/// `if let Some(&x) = e { .. }` becomes `if let Some(vx_d0) = e { let x = *vx_d0; .. }`, and arms of matches likewise
struct RefPats(usize);
struct Take<'a>(&'a mut usize, Vec<Stmt>);
impl VisitMut for Take<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            match &*r.pat {
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                    let id = format_ident!("vx_d{}", *self.0);
                    *self.0 += 1;
                    self.1.push(parse_quote!(let #i = *#id;));
                    *p = parse_quote!(#id);
                }
                Pat::Wild(_) => *p = parse_quote!(_),
                _ => {}
            }
            return;
        }
        if matches!(p, Pat::Or(_)) {
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
impl VisitMut for RefPats {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // v.retain(|x| c) on a vector
        if let Expr::MethodCall(m) = e {
            if let (true, 1, Expr::Path(p), Some(Expr::Closure(c))) = (m.method == "retain", m.args.len(), &*m.receiver, m.args.first()) {
                if p.path.get_ident().map_or(false, |i| i != "self") && c.inputs.len() == 1 {
                    let (r, c) = (&m.receiver, c);
                    *e = parse_quote!(#r = #r.into_iter().filter(#c).collect::<Vec<_>>());
                }
            }
        }
        match e {
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut t = Take(&mut self.0, Vec::new());
                    t.visit_pat_mut(&mut l.pat);
                    i.then_branch.stmts.splice(0..0, t.1);
                }
            }
            Expr::While(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut t = Take(&mut self.0, Vec::new());
                    t.visit_pat_mut(&mut l.pat);
                    i.body.stmts.splice(0..0, t.1);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
                    let mut t = Take(&mut self.0, Vec::new());
                    t.visit_pat_mut(&mut a.pat);
                    if !t.1.is_empty() {
                        let (l, b) = (&t.1, &a.body);
                        *a.body = parse_quote!({ #(#l)* #b });
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// a constant in a pattern: its literal takes its place
struct ConstPats<'a> {
    lits: &'a BTreeMap<String, Option<Lit>>,
    consts: Option<&'a BTreeSet<String>>,
    bad: &'a mut Vec<String>,
}
impl VisitMut for ConstPats<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let name = match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => i.ident.to_string(),
            Pat::Path(q) => q.path.segments.last().unwrap().ident.to_string(),
            _ => return visit_mut::visit_pat_mut(self, p),
        };
        match self.lits.get(&name) {
            Some(Some(l)) => *p = Pat::Lit(ExprLit { attrs: vec![], lit: l.clone() }),
            _ => {
                if self.consts.map_or(false, |c| c.contains(&name)) {
                    self.bad.push(format!("the constant {} in a pattern", name));
                }
            }
        }
    }
}
