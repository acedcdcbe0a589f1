//! Programs print and read: in the modules of the binaries the terminal becomes an explicit parameter
//! `vx_io` of every function that, directly or through others of its module, prints, reads or ends the process.
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const MACROS: &[&str] = &["println", "print", "panic", "unreachable", "todo", "unimplemented"];
const METHODS: &[&str] = &["read_line", "read_to_string"];

fn mac_name(m: &Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn is_exit(p: &Path) -> bool {
    let n = p.segments.len();
    n >= 2 && p.segments[n - 1].ident == "exit" && p.segments[n - 2].ident == "process"
}

struct Find<'a> {
    names: &'a BTreeSet<String>,
    hit: bool,
}
fn tokens_hit(ts: TokenStream, names: &BTreeSet<String>) -> bool {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    v.iter().enumerate().any(|(i, t)| match t {
        TokenTree::Group(g) => tokens_hit(g.stream(), names),
        TokenTree::Ident(x) => {
            let call = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
            call && (names.contains(&x.to_string()) || METHODS.contains(&x.to_string().as_str()))
        }
        _ => false,
    })
}
impl<'a, 'b> Visit<'a> for Find<'b> {
    fn visit_macro(&mut self, m: &'a Macro) {
        if MACROS.contains(&mac_name(m).as_str()) || tokens_hit(m.tokens.clone(), self.names) {
            self.hit = true;
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        if METHODS.contains(&n.as_str()) || self.names.contains(&n) {
            self.hit = true;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if is_exit(&p.path) || self.names.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                self.hit = true;
            }
        }
        visit::visit_expr_call(self, c);
    }
}

struct Thread<'a> {
    names: &'a BTreeSet<String>,
}
impl<'a> VisitMut for Thread<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            *s = Stmt::Expr(e, m.semi_token);
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let t = m.mac.tokens.clone();
            match mac_name(&m.mac).as_str() {
                "println" => *e = parse_quote!(vx_io.vx_println(format!(#t))),
                "print" => *e = parse_quote!(vx_io.vx_print(format!(#t))),
                "panic" | "unreachable" | "todo" | "unimplemented" => *e = parse_quote!(vx_io.vx_exit()),
                _ => {
                    use syn::parse::Parser;
                    if let Ok(args) = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t) {
                        let mut v: Vec<Expr> = args.into_iter().collect();
                        for x in v.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        if let Expr::Macro(m) = e {
                            m.mac.tokens = quote::quote!(#(#v),*);
                        }
                    }
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if METHODS.contains(&n.as_str()) {
                    m.args.insert(0, parse_quote!(vx_io));
                } else if self.names.contains(&n) {
                    m.args.push(parse_quote!(vx_io));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if is_exit(&p.path) {
                        *e = parse_quote!(vx_io.vx_exit());
                    } else if self.names.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                        c.args.push(parse_quote!(vx_io));
                    }
                }
            }
            _ => {}
        }
    }
}

/// the functions (and methods) of these items, with their names
fn each(items: &mut [Item], f: &mut dyn FnMut(&mut Signature, &mut Block)) {
    for it in items {
        match it {
            Item::Fn(x) => f(&mut x.sig, &mut x.block),
            Item::Impl(i) if i.trait_.is_none() => {
                for x in &mut i.items {
                    if let ImplItem::Fn(x) = x {
                        f(&mut x.sig, &mut x.block)
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn thread(items: &mut [Item]) {
    let mut names: BTreeSet<String> = BTreeSet::new();
    loop {
        let n = names.len();
        let mut new = Vec::new();
        each(items, &mut |s, b| {
            let mut f = Find { names: &names, hit: false };
            f.visit_block(b);
            if f.hit {
                new.push(s.ident.to_string());
            }
        });
        names.extend(new);
        if names.len() == n {
            break;
        }
    }
    each(items, &mut |s, b| {
        if names.contains(&s.ident.to_string()) {
            s.inputs.push(parse_quote!(vx_io: &mut crate::ext::VxIo));
        }
        Thread { names: &names }.visit_block_mut(b);
    });
}
