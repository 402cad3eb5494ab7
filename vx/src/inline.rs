//! Calls of functions that are not in `contracts/known.txt` (a helper that was
//! extracted after the contracts were written) are replaced by the helper's
//! body, so the caller's obligations stay the same.
use crate::FnInfo;
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Path -> loop kinds of the functions the contracts were written for.
pub fn known(dir: &str) -> Option<BTreeMap<String, String>> {
    let t = std::fs::read_to_string(format!("{dir}/known.txt")).ok()?;
    Some(t.lines().filter_map(|l| l.split_once('\t')).map(|(a, b)| (a.to_string(), b.to_string())).collect())
}

pub fn loops(b: &Block) -> String {
    struct V(Vec<&'static str>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::ForLoop(_) => self.0.push("for"),
                Expr::While(_) => self.0.push("while"),
                Expr::Loop(_) => self.0.push("loop"),
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    format!("{}", v.0.join(","))
}

pub struct Inliner {
    /// name -> the new functions of that name
    pub new: HashMap<String, Vec<(Signature, Block)>>,
    pub left: BTreeSet<String>,
    pub depth: usize,
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Reference(r) => simple(&r.expr),
        Expr::Field(f) => simple(&f.base),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
        _ => false,
    }
}

/// `if c { ..; return e; } rest` as `if c { ..; e } else { rest }`
fn tailify(stmts: Vec<Stmt>) -> Vec<Stmt> {
    let n = stmts.len();
    let mut out: Vec<Stmt> = vec![];
    let mut it = stmts.into_iter().enumerate();
    while let Some((i, s)) = it.next() {
        let last = i + 1 == n;
        match s {
            Stmt::Expr(Expr::Return(r), _) if last => {
                let e = r.expr.map(|e| *e).unwrap_or(parse_quote!(()));
                out.push(Stmt::Expr(e, None));
            }
            Stmt::Expr(Expr::If(mut f), semi) => {
                let ends = matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                if ends && f.else_branch.is_none() {
                    f.then_branch.stmts = tailify(f.then_branch.stmts);
                    let rest = tailify(it.map(|x| x.1).collect());
                    f.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#rest)* }))));
                    out.push(Stmt::Expr(Expr::If(f), None));
                    return out;
                }
                if last {
                    fn tail_if(f: &mut ExprIf) {
                        f.then_branch.stmts = tailify(std::mem::take(&mut f.then_branch.stmts));
                        if let Some((_, e)) = &mut f.else_branch {
                            match &mut **e {
                                Expr::If(g) => tail_if(g),
                                Expr::Block(b) => b.block.stmts = tailify(std::mem::take(&mut b.block.stmts)),
                                _ => {}
                            }
                        }
                    }
                    tail_if(&mut f);
                }
                out.push(Stmt::Expr(Expr::If(f), semi));
            }
            Stmt::Expr(Expr::Match(mut m), semi) if last => {
                for a in m.arms.iter_mut() {
                    match &mut *a.body {
                        Expr::Return(r) => {
                            let e = r.expr.clone().map(|e| *e).unwrap_or(parse_quote!(()));
                            *a.body = e;
                        }
                        Expr::Block(b) => b.block.stmts = tailify(std::mem::take(&mut b.block.stmts)),
                        _ => {}
                    }
                }
                out.push(Stmt::Expr(Expr::Match(m), semi));
            }
            s => out.push(s),
        }
    }
    out
}

fn has_exit(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Group(g) => has_exit(g.stream()),
        TokenTree::Ident(i) => i == "return",
        TokenTree::Punct(p) => p.as_char() == '?',
        _ => false,
    })
}

fn bound(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
        }
    }
    let mut v = V(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Replace identifiers (not fields, methods or path segments) in a token stream.
fn subst(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), m));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            TokenTree::Ident(id) if m.contains_key(&id.to_string()) => {
                let p = |k: usize, c: char| matches!(v.get(k), Some(TokenTree::Punct(p)) if p.as_char() == c);
                let after_dot = i > 0 && p(i - 1, '.') && !(i > 1 && p(i - 2, '.'));
                let seg = p(i + 1, ':') && p(i + 2, ':') || i > 1 && p(i - 1, ':') && p(i - 2, ':');
                if after_dot || seg {
                    out.extend([t.clone()]);
                } else {
                    out.extend(m[&id.to_string()].clone());
                }
            }
            t => out.extend([t.clone()]),
        }
    }
    out
}

/// `S { x }` with a name that would be replaced
fn shorthand(b: &Block, m: &BTreeMap<String, TokenStream>) -> bool {
    struct V<'m>(&'m BTreeMap<String, TokenStream>, bool);
    impl<'a, 'm> syn::visit::Visit<'a> for V<'m> {
        fn visit_field_value(&mut self, f: &'a FieldValue) {
            if f.colon_token.is_none() || matches!(&f.member, Member::Named(n) if self.0.contains_key(&n.to_string())) {
                self.1 = true;
            }
            syn::visit::visit_field_value(self, f);
        }
        fn visit_field_pat(&mut self, f: &'a FieldPat) {
            self.1 = true;
            syn::visit::visit_field_pat(self, f);
        }
    }
    let mut v = V(m, false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}

impl Inliner {
    fn body(&mut self, name: &str, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        let cands = self.new.get(name)?;
        if cands.len() != 1 || self.depth > 6 {
            return None;
        }
        let (sig, block) = cands[0].clone();
        let mut block = block;
        block.stmts = tailify(block.stmts);
        if has_exit(block.to_token_stream()) {
            return None;
        }
        let mut all: Vec<Expr> = recv.into_iter().cloned().collect();
        all.extend(args.iter().cloned());
        if all.len() != sig.inputs.len() {
            return None;
        }
        let names = bound(&block);
        let mut m: BTreeMap<String, TokenStream> = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        for n in &names {
            let f = Ident::new(&format!("{n}__i{}", self.depth), proc_macro2::Span::call_site());
            let mut used = std::collections::HashSet::new();
            for a in &all {
                crate::idents(a.to_token_stream(), &mut used);
            }
            if used.contains(n) && n.chars().next().map_or(false, |c| !c.is_uppercase()) {
                m.insert(n.clone(), quote!(#f));
            }
        }
        for (p, a) in sig.inputs.iter().zip(&all) {
            let (n, mutable, ty) = match p {
                FnArg::Receiver(r) => ("self".to_string(), false, if r.reference.is_some() { None } else { None }),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some(), Some(t.ty.clone())),
                    Pat::Wild(_) => ("_".to_string(), false, None),
                    _ => return None,
                },
            };
            if n == "_" {
                continue;
            }
            if names.contains(&n) && !mutable && simple(a) {
                // the helper shadows its parameter: bind it
            } else if simple(a) && !mutable {
                if n == "self" && matches!(a, Expr::Path(p) if p.path.is_ident("self")) {
                    continue;
                }
                let byref = matches!(a, Expr::Reference(_) | Expr::Unary(_));
                m.insert(n, if byref { quote!((#a)) } else { a.to_token_stream() });
                continue;
            }
            let f = Ident::new(&format!("{n}__p{}", self.depth), proc_macro2::Span::call_site());
            let mu = if mutable { quote!(mut) } else { quote!() };
            let st: Stmt = match ty {
                Some(t) if sig.generics.params.is_empty() && !matches!(*t, Type::ImplTrait(_)) => parse_quote!(let #mu #f: #t = #a;),
                _ => parse_quote!(let #mu #f = #a;),
            };
            lets.push(st);
            if names.contains(&n) {
                let orig = Ident::new(&n, proc_macro2::Span::call_site());
                if m.contains_key(&n) {
                    return None;
                }
                lets.push(parse_quote!(let #orig = #f;));
            } else {
                m.insert(n, quote!(#f));
            }
        }
        if !m.is_empty() && shorthand(&block, &m) {
            return None;
        }
        let st: TokenStream = block.stmts.iter().map(|s| s.to_token_stream()).collect();
        let st = subst(st, &m);
        let b: Block = syn::parse2(quote!({ #(#lets)* #st })).ok()?;
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
    }
}

impl VisitMut for Inliner {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let (name, r) = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    (n.clone(), if self.new.contains_key(&n) { Some(self.body(&n, None, &args)) } else { None })
                }
                _ => (String::new(), None),
            },
            Expr::MethodCall(c) => {
                let n = c.method.to_string();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = (*c.receiver).clone();
                (n.clone(), if self.new.contains_key(&n) { Some(self.body(&n, Some(&recv), &args)) } else { None })
            }
            _ => (String::new(), None),
        };
        match r {
            Some(Some(b)) => {
                *e = b;
                self.depth += 1;
                self.visit_expr_mut(e);
                self.depth -= 1;
                return;
            }
            Some(None) => {
                self.left.insert(name);
            }
            None => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn make(files: &BTreeMap<String, (Vec<FnInfo>, Vec<Item>)>, known: &BTreeMap<String, String>) -> Inliner {
    let mut new: HashMap<String, Vec<(Signature, Block)>> = HashMap::new();
    for (fns, _) in files.values() {
        for f in fns {
            if !known.contains_key(&f.path) && f.trait_.is_none() {
                new.entry(f.sig.ident.to_string()).or_default().push((f.sig.clone(), f.block.clone()));
            }
        }
    }
    // a name that an old function also has is left alone
    for (fns, _) in files.values() {
        for f in fns {
            if known.contains_key(&f.path) {
                new.remove(&f.sig.ident.to_string());
            }
        }
    }
    Inliner { new, left: BTreeSet::new(), depth: 0 }
}
