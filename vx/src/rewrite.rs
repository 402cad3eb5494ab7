//! The rewrites that bring a body into the dialect Verus accepts.
use crate::{base_ty, FnInfo, World};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const MODS: &[&str] = &[
    "crate", "self", "super", "std", "byte_encoder", "utils", "feature", "long_names", "LongNames", "NextPolicyBits", "source", "read",
    "tokenize", "tokenizer", "num", "byte_buffer", "byte_decoder", "character_decoder", "code_point", "wl_character",
    "issue", "token", "token_kind", "cmp", "ops", "fmt", "precedence", "parse", "parse_cst", "generated",
    "long_names_registration", "precedence_values", "quirks", "cst", "agg", "ast", "operators", "parselet", "error", "iter", "string", "wolfram_expr",
];

pub struct Rw<'w> {
    w: &'w World,
    pub var_types: HashMap<String, String>,
    self_ty: Option<String>,
    nloops: usize,
    into_gen: HashSet<String>,
    tmp: usize,
    table_vars: HashMap<String, (String, Expr)>,
    fname: String,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

impl<'w> Rw<'w> {
    pub fn new(w: &'w World) -> Self {
        Rw { w, var_types: HashMap::new(), self_ty: None, nloops: 0, into_gen: HashSet::new(), tmp: 0, table_vars: HashMap::new(), fname: String::new() }
    }
    pub fn enter_fn(&mut self, f: &FnInfo) {
        self.self_ty = f.self_ty.as_ref().map(base_ty);
        self.fname = f.sig.ident.to_string();
        for p in f.sig.generics.params.iter() {
            if let GenericParam::Type(t) = p {
                if t.bounds.to_token_stream().to_string().contains("Into <") {
                    self.into_gen.insert(t.ident.to_string());
                }
            }
        }
    }
    pub fn fix_generics(&mut self, sig: &mut Signature) {
        for p in sig.generics.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                let s = t.bounds.to_token_stream().to_string().replace(' ', "");
                if s == "Into<CodePoint>" {
                    t.bounds = parse_quote!(IntoCP);
                } else if s == "Into<TokenKind>" {
                    t.bounds = parse_quote!(IntoTK);
                } else if s == "Into<Option<Precedence>>" {
                    t.bounds = parse_quote!(IntoPrec);
                } else if s == "Debug" {
                    t.bounds = Default::default();
                    t.colon_token = None;
                }
            }
        }
    }
    /// static type of an expression when it is a parameter / self
    fn ty_of(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => {
                let i = p.path.get_ident()?.to_string();
                if i == "self" {
                    self.self_ty.clone()
                } else {
                    self.var_types.get(&i).cloned()
                }
            }
            Expr::Paren(p) => self.ty_of(&p.expr),
            Expr::Reference(r) => self.ty_of(&r.expr),
            Expr::Field(f) => {
                let t = self.ty_of(&f.base)?;
                let m = f.member.to_token_stream().to_string();
                for (o, fl, i, _) in &self.w.derefs {
                    if *o == t && *fl == m {
                        return Some(i.clone());
                    }
                }
                self.w.field_types.get(&(t, m)).cloned()
            }
            _ => None,
        }
    }
    fn deref_member(&self, base: &Expr, member: &str) -> Option<String> {
        let t = self.ty_of(base)?;
        for (o, f, _, mem) in &self.w.derefs {
            if *o == t && mem.contains(member) && member != f {
                // own members of the outer type win
                if self.w.sigs.contains_key(&format!("{o}::{member}")) {
                    return None;
                }
                if self.w.struct_fields.get(o).map(|s| s.contains(member)).unwrap_or(false) {
                    return None;
                }
                return Some(f.clone());
            }
        }
        None
    }
    fn macro_args(mac: &Macro) -> Vec<Expr> {
        use syn::punctuated::Punctuated;
        mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default()
    }
    fn rewrite_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let n = mac.path.segments.last()?.ident.to_string();
        let args = Self::macro_args(mac);
        Some(match n.as_str() {
            "assert" | "debug_assert" => {
                let c = args.into_iter().next()?;
                parse_quote!(rt_assert(#c))
            }
            "assert_eq" | "debug_assert_eq" => {
                let (a, b) = (&args[0], &args[1]);
                parse_quote!(rt_assert((#a) == (#b)))
            }
            "assert_ne" | "debug_assert_ne" => {
                let (a, b) = (&args[0], &args[1]);
                parse_quote!(rt_assert((#a) != (#b)))
            }
            // write!(s, "{}", x) and write!(s, "{:#}", x) call x's Display
            "write" if args.len() == 3 => {
                let (o, f, x) = (&args[0], args[1].to_token_stream().to_string(), &args[2]);
                match f.as_str() {
                    "\"{}\"" => parse_quote!({ let _a = #o.alt; #o.alt = false; let _r = (#x).fmt(#o); #o.alt = _a; _r }),
                    "\"{:#}\"" => parse_quote!({ let _a = #o.alt; #o.alt = true; let _r = (#x).fmt(#o); #o.alt = _a; _r }),
                    _ => return None,
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(unreached()),
            "incr_diagnostic" | "panic_if_aborted" => parse_quote!(()),
            "format" => {
                let rest: Vec<Expr> = args.into_iter().skip(1).map(|e| match e {
                    Expr::Assign(a) => *a.right,
                    e => e,
                }).collect();
                match rest.len() {
                    0 => parse_quote!(opaque_string()),
                    1 => {
                        let a = &rest[0];
                        parse_quote!(opaque_string1(&(#a)))
                    }
                    2 => {
                        let (a, b) = (&rest[0], &rest[1]);
                        parse_quote!(opaque_string2(&(#a), &(#b)))
                    }
                    _ => {
                        let (a, b, c) = (&rest[0], &rest[1], &rest[2]);
                        parse_quote!(opaque_string3(&(#a), &(#b), &(#c)))
                    }
                }
            }
            "vec" => {
                if args.is_empty() {
                    parse_quote!(Vec::new())
                } else {
                    let f = id(&format!("vec_of{}", args.len()));
                    parse_quote!(#f(#(#args),*))
                }
            }
            "matches" | "debug_assert_matches" => {
                // matches!(e, pat [if g]) -> match e { pat => true, _ => false }
                let ts: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
                let k = ts.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','))?;
                let a: TokenStream = ts[..k].iter().cloned().collect();
                let mut b: Vec<TokenTree> = ts[k + 1..].to_vec();
                if let Some(TokenTree::Punct(p)) = b.last() {
                    if p.as_char() == ',' {
                        b.pop();
                    }
                }
                let b: TokenStream = b.into_iter().collect();
                let e: Expr = syn::parse2(quote!(match #a { #b => true, _ => false })).ok()?;
                if n == "matches" { e } else { parse_quote!(rt_assert(#e)) }
            }
            _ => return None,
        })
    }
    fn is_str_lit(e: &Expr) -> bool {
        matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
    }
}

fn ty_is(t: &str, l: &[&str]) -> bool {
    l.contains(&t)
}

impl<'w> VisitMut for Rw<'w> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        p.leading_colon = None;
        if let Some(l) = p.segments.last_mut() {
            // a function's builder type argument
            if l.ident.to_string().starts_with(char::is_lowercase) && l.arguments.to_token_stream().to_string().replace(' ', "") == "::<ParseCst>" {
                l.arguments = PathArguments::None;
            }
        }
        if p.segments.len() >= 2 {
            let n = p.segments.len();
            if p.segments[n - 2].ident == "fmt" {
                let l = p.segments[n - 1].ident.to_string();
                if l == "Result" || l == "Error" {
                    let i = id(&format!("Fmt{l}"));
                    *p = parse_quote!(#i);
                    return;
                }
            }
        }
        while p.segments.len() > 1 && MODS.contains(&p.segments[0].ident.to_string().as_str()) {
            let segs: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            p.segments = segs.into_iter().collect();
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // drop local `use` and doc/diagnostic statements
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Macro(m) => !m.mac.path.is_ident("incr_diagnostic") && !m.mac.path.is_ident("panic_if_aborted"),
            // checks that exist only in debug builds or only under test
            Stmt::Expr(e, _) => {
                let a = match e {
                    Expr::Match(x) => &x.attrs,
                    Expr::Block(x) => &x.attrs,
                    Expr::If(x) => &x.attrs,
                    _ => return true,
                };
                !a.iter().any(|a| a.path().is_ident("cfg") && {
                    let t = a.to_token_stream().to_string();
                    t.contains("debug_assertions") || t.contains("DIAGNOSTICS") && !t.contains("not") || t.contains("test") && !t.contains("not")
                })
            }
            _ => true,
        });
        // `let f = |x: T| body` that is only called: each call is the body with its argument
        while let Some(i) = b.stmts.iter().position(|s| local_closure(s).is_some()) {
            let (f, cl) = local_closure(&b.stmts[i]).unwrap();
            let mut v = Inline { f, cl, bad: false };
            let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
            rest.iter_mut().for_each(|s| v.visit_stmt_mut(s));
            if v.bad {
                break;
            }
            b.stmts.truncate(i);
            b.stmts.extend(rest);
        }
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if let Some(mut e) = self.rewrite_macro(&m.mac) {
                    if ["panic", "unreachable", "todo", "unimplemented"].iter().any(|n| m.mac.path.is_ident(n)) {
                        e = parse_quote!(return #e);
                    }
                    *s = Stmt::Expr(e, Some(Default::default()));
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        // let v = T::new(..) / let v: T = ..
        if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
            if let Expr::Call(c) = &*init.expr {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    if n >= 2 && p.path.segments[n - 1].ident == "new" {
                        self.var_types.insert(pi.ident.to_string(), p.path.segments[n - 2].ident.to_string());
                    }
                }
            }
        }
        if let Pat::Type(t) = &l.pat {
            if let Pat::Ident(pi) = &*t.pat {
                self.var_types.insert(pi.ident.to_string(), base_ty(&t.ty));
            }
        }
        // let v = TABLE[i];
        if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
            if let Expr::Index(ix) = &*init.expr {
                if let Expr::Path(p) = &*ix.expr {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if self.w.tables.contains_key(&n) {
                        let i = (*ix.index).clone();
                        self.table_vars.insert(pi.ident.to_string(), (n, i.clone()));
                        l.init.as_mut().unwrap().expr = Box::new(i);
                        visit_mut::visit_local_mut(self, l);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        // an arm with both alternatives and a guard: one arm per alternative
        let mut arms = vec![];
        for a in m.arms.drain(..) {
            let ps = if a.guard.is_some() { alternatives(&a.pat) } else { vec![a.pat.clone()] };
            for p in ps {
                let mut b = a.clone();
                b.pat = p;
                b.comma = Some(Default::default());
                arms.push(b);
            }
        }
        m.arms = arms;
        visit_mut::visit_expr_match_mut(self, m);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros first
        if let Expr::Macro(m) = e {
            if let Some(n) = self.rewrite_macro(&m.mac) {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        match e {
            // loops
            Expr::Loop(l) => {
                let k = self.nloops;
                self.nloops += 1;
                l.body.stmts.insert(0, marker(k));
                visit_mut::visit_expr_loop_mut(self, l);
                return;
            }
            Expr::While(l) => {
                if let Expr::Let(le) = &*l.cond {
                    let (p, x, b) = (&le.pat, &le.expr, &l.body);
                    let n: Expr = parse_quote!(loop { match #x { #p => #b, _ => { break; } } });
                    *e = n;
                    self.visit_expr_mut(e);
                    return;
                }
                let k = self.nloops;
                self.nloops += 1;
                self.visit_expr_mut(&mut l.cond);
                l.body.stmts.insert(0, marker(k));
                self.visit_block_mut(&mut l.body);
                return;
            }
            Expr::ForLoop(l) => {
                let range = matches!(&*l.expr, Expr::Range(_));
                if range && continues(&l.body) {
                    // a `for` over a range with `continue` in it: a counting `while`
                    if let Expr::Range(syn::ExprRange { start: Some(a), end: Some(b), limits: syn::RangeLimits::HalfOpen(_), .. }) = &*l.expr {
                        let (p, body) = (&l.pat, &l.body.stmts);
                        let (i, n) = (id(&format!("_i{}", self.tmp)), id(&format!("_n{}", self.tmp)));
                        self.tmp += 1;
                        let x: Expr = parse_quote!({
                            let mut #i = #a;
                            let #n = #b;
                            while #i < #n { let #p = #i; #i = #i + 1; #(#body)* }
                        });
                        *e = x;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if range {
                    let k = self.nloops;
                    self.nloops += 1;
                    if let Pat::Wild(_) = &*l.pat {
                        *l.pat = parse_quote!(_i);
                    }
                    self.visit_expr_mut(&mut l.expr);
                    l.body.stmts.insert(0, marker(k));
                    self.visit_block_mut(&mut l.body);
                    return;
                }
                if let Some(v) = rev_iter(&l.expr) {
                    // `for p in v.iter().rev()`: from the last element down
                    let (p, body) = (&l.pat, &l.body.stmts);
                    let i = id(&format!("_i{}", self.tmp));
                    self.tmp += 1;
                    let x: Expr = parse_quote!({
                        let mut #i = #v.len();
                        while #i > 0 { #i = #i - 1; let #p = &#v[#i]; #(#body)* }
                    });
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
                if let Expr::MethodCall(mc) = &*l.expr {
                    // the characters of a string
                    if mc.method == "chars" && mc.args.is_empty() {
                        let (p, v, body) = (&l.pat, &mc.receiver, &l.body.stmts);
                        let (i, c) = (id(&format!("_i{}", self.tmp)), id(&format!("_c{}", self.tmp)));
                        self.tmp += 1;
                        let x: Expr = parse_quote!({
                            let #c = str_chars(#v);
                            let mut #i: usize = 0;
                            while #i < #c.len() { let #p = #c[#i]; #i = #i + 1; #(#body)* }
                        });
                        *e = x;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                // iteration over an opaque collection: arbitrary number of
                // arbitrary items
                let (p, x, b) = (&l.pat, &l.expr, &l.body);
                let t = id(&format!("_it{}", self.tmp));
                self.tmp += 1;
                let n: Expr = parse_quote!({
                    let #t = #x;
                    loop { match any_item(&#t) { Some(#p) => #b, None => { break; } } }
                });
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
            Expr::Binary(b) if is_prec(&b.right) && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Ge(_)) => {
                let (l, r, op) = (&b.left, &b.right, &b.op);
                let n: Expr = match op {
                    BinOp::Eq(_) => parse_quote!(#l.prec_is(#r)),
                    BinOp::Ne(_) => parse_quote!(!(#l.prec_is(#r))),
                    _ => parse_quote!(#l.rank() #op #r.rank()),
                };
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
            Expr::Binary(b) if matches!(&*b.right, Expr::Path(p) if p.path.is_ident("None")) && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let l = &b.left;
                let n: Expr = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(#l.is_none()) } else { parse_quote!(#l.is_some()) };
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && self.w.konsts.contains_key(&p.path.segments[0].ident.to_string()) => {
                let f = id(&format!("{}__v", p.path.segments[0].ident));
                *e = parse_quote!(#f());
                return;
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) && is_const_path(&b.right) => {
                // policy |= BIT
                let (l, r) = (&b.left, &b.right);
                let n: Expr = parse_quote!(#l.bitor_assign(#r));
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
            Expr::Assign(a) => {
                if let Expr::Call(c) = &*a.left {
                    if c.args.len() == 1 {
                        let (f, x, r) = (&c.func, &c.args[0], &a.right);
                        let n: Expr = parse_quote!({ let #f(_d0) = #r; #x = _d0; });
                        *e = n;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if let Expr::Tuple(t) = &*a.left {
                    let mut lets: Vec<Pat> = vec![];
                    let mut sets: Vec<Stmt> = vec![];
                    for (i, x) in t.elems.iter().enumerate() {
                        if let Expr::Infer(_) = x {
                            lets.push(parse_quote!(_));
                            continue;
                        }
                        let n = id(&format!("_d{i}"));
                        lets.push(parse_quote!(#n));
                        sets.push(parse_quote!(#x = #n;));
                    }
                    let r = &a.right;
                    let n: Expr = parse_quote!({ let (#(#lets),*) = #r; #(#sets)* });
                    *e = n;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().unwrap().ident == "from_utf8" {
                        c.func = parse_quote!(str_from_utf8);
                    }
                }
                // func(args) where func came from a handler table
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.get_ident() {
                        if let Some((t, _)) = self.table_vars.get(&i.to_string()) {
                            let f = id(&format!("{t}__call"));
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            let n: Expr = parse_quote!(#f(#i as u8, #(#args),*));
                            *e = n;
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                if let Expr::Index(ix) = &*c.func {
                    if let Expr::Path(p) = &*ix.expr {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if self.w.tables.contains_key(&n) {
                            let f = id(&format!("{n}__call"));
                            let i = &ix.index;
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            let x: Expr = parse_quote!(#f(table_index(#i), #(#args),*));
                            *e = x;
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = segs.len();
                    if n >= 2 && segs[n - 1] == "from" && c.args.len() == 1 {
                        let a = &c.args[0];
                        let t = segs[n - 2].as_str();
                        let new: Option<Expr> = if ty_is(t, &["u32", "usize", "i32", "u64", "i64", "u16", "char"]) {
                            let ti = id(t);
                            Some(parse_quote!(((#a) as #ti)))
                        } else if ty_is(t, &["CodePoint", "SourceCharacter"]) {
                            Some(parse_quote!(cp_from(#a)))
                        } else if ty_is(t, &["TokenKind"]) {
                            Some(parse_quote!(tk_from(#a)))
                        } else if ty_is(t, &["String"]) {
                            Some(parse_quote!(opaque_string1(&(#a))))
                        } else {
                            None
                        };
                        if let Some(x) = new {
                            *e = x;
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    if n >= 2 && segs[n - 1] == "try_from" && ty_is(&segs[n - 2], &["u8", "u16", "u32", "i32", "usize"]) {
                        let f = id(&format!("try_{}", segs[n - 2]));
                        c.func = parse_quote!(#f);
                    }
                    if n >= 2 && segs[n - 2] == "u32" && segs[n - 1] == "from_be_bytes" {
                        c.func = parse_quote!(u32_from_be_bytes);
                    }
                    // coercion Tokenizer -> Reader at calls
                    let key1 = segs[n - 1].clone();
                    let key2 = if n >= 2 { format!("{}::{}", if segs[n - 2] == "Self" { self.self_ty.clone().unwrap_or_default() } else { segs[n - 2].clone() }, segs[n - 1]) } else { key1.clone() };
                    let sig = self.w.sigs.get(&key2).or_else(|| self.w.sigs.get(&key1)).cloned();
                    if let Some(tys) = sig {
                        let derefs = self.w.derefs.clone();
                        for (i, a) in c.args.iter_mut().enumerate() {
                            let (Some(want), Some(have)) = (tys.get(i), self.ty_of(a)) else { continue };
                            for (o, f, inner, _) in &derefs {
                                if *o == have && want == inner {
                                    let fi = id(f);
                                    let x = a.clone();
                                    let x = match x {
                                        Expr::Reference(r) => *r.expr,
                                        x => x,
                                    };
                                    *a = parse_quote!(&mut #x.#fi);
                                }
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(mc) => {
                let m = mc.method.to_string();
                if m == "offset_of" && mc.args.len() == 1 {
                    // the place of a token's text
                    if let Expr::Field(f1) = &mc.args[0] {
                        if let Expr::Field(f2) = &*f1.base {
                            if let Expr::Field(f3) = &*f2.base {
                                if f3.member.to_token_stream().to_string() == "input" {
                                    let (r, t) = (&mc.receiver, &f3.base);
                                    *e = parse_quote!(offset_of_token(#r, #t));
                                    return;
                                }
                            }
                        }
                    }
                }
                if m == "expect" && mc.args.len() == 1 {
                    mc.method = id("unwrap");
                    mc.args.clear();
                }
                if ["into", "to_owned", "to_string"].contains(&m.as_str()) && Self::is_str_lit(&mc.receiver) {
                    *e = parse_quote!(opaque_string());
                    return;
                }
                if (m == "partial_cmp" || m == "cmp") && mc.args.len() == 1 {
                    let strip = |e: &Expr| -> Expr { match e { Expr::Reference(r) => (*r.expr).clone(), Expr::Paren(p) => (*p.expr).clone(), e => e.clone() } };
                    if let (Expr::Tuple(a), Expr::Tuple(b)) = (strip(&mc.receiver), strip(&mc.args[0])) {
                        if a.elems.len() == 2 && b.elems.len() == 2 {
                            let (a0, a1, b0, b1) = (&a.elems[0], &a.elems[1], &b.elems[0], &b.elems[1]);
                            let n: Expr = if m == "cmp" { parse_quote!(lex_cmp(#a0, #a1, #b0, #b1)) } else { parse_quote!(Some(lex_cmp(#a0, #a1, #b0, #b1))) };
                            *e = n;
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                if m == "into" {
                    if let Some(t) = self.ty_of(&mc.receiver) {
                        if self.into_gen.contains(&t) {
                            mc.method = id("into_");
                        }
                    }
                }
                if m == "contains" && mc.args.len() == 1 && matches!(mc.args[0], Expr::Reference(_)) {
                    let (r, a) = (&mc.receiver, &mc.args[0]);
                    let n: Expr = parse_quote!(vec_contains(&#r, #a));
                    *e = n;
                    self.visit_expr_mut(e);
                    return;
                }
                if m == "find" && mc.args.len() == 1 {
                    // v.iter().rev().find(|x| p)
                    if let (Some(v), Expr::Closure(cl)) = (rev_iter(&mc.receiver), &mc.args[0]) {
                        if let (1, Some(Pat::Ident(x))) = (cl.inputs.len(), cl.inputs.first()) {
                            let (x, b) = (&x.ident, &cl.body);
                            let (i, r) = (id(&format!("_i{}", self.tmp)), id(&format!("_r{}", self.tmp)));
                            self.tmp += 1;
                            let n: Expr = parse_quote!({
                                let mut #i = #v.len();
                                let mut #r = none_of(&#v);
                                while #i > 0 { #i = #i - 1; let #x = &#v[#i]; if #b { #r = Some(#x); break; } }
                                #r
                            });
                            *e = n;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if m == "extend" && mc.args.len() == 1 {
                    // v.extend(w.into_iter().map(f)), the elements of w being Copy
                    if let Expr::MethodCall(m1) = &mc.args[0] {
                        if let (true, Expr::MethodCall(m2), 1) = (m1.method == "map", &*m1.receiver, m1.args.len()) {
                            if let (true, Expr::Path(f)) = (m2.method == "into_iter", &m1.args[0]) {
                                let (v, w) = (&mc.receiver, &m2.receiver);
                                let (i, x) = (id(&format!("_i{}", self.tmp)), id(&format!("_w{}", self.tmp)));
                                self.tmp += 1;
                                let n: Expr = parse_quote!({
                                    let #x = #w;
                                    let mut #i: usize = 0;
                                    while #i < #x.len() { #v.push(#f(#x[#i])); #i = #i + 1; }
                                });
                                *e = n;
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
                if m == "collect" && mc.args.is_empty() {
                    // v.into_iter().flat_map(f).collect() or filter_map, f returning an option
                    if let Expr::MethodCall(d) = &*mc.receiver {
                        if let (true, Some(Expr::Path(f)), Expr::MethodCall(it)) = (d.method == "flat_map" || d.method == "filter_map", d.args.first(), &*d.receiver) {
                            if it.method == "into_iter" {
                                let v = &it.receiver;
                                let (o, r, x, y) = (id(&format!("_o{}", self.tmp)), id(&format!("_v{}", self.tmp)), id(&format!("_x{}", self.tmp)), id(&format!("_y{}", self.tmp)));
                                self.tmp += 1;
                                let n: Expr = parse_quote!({
                                    let mut #o = Vec::new();
                                    let mut #r = #v;
                                    while #r.len() > 0 {
                                        let #x = #r.remove(0);
                                        match #f(#x) { Some(#y) => { #o.push(#y); }, None => {} }
                                    }
                                    #o
                                });
                                *e = n;
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                    // v.drain(a..).collect()
                    if let Expr::MethodCall(d) = &*mc.receiver {
                        if let (true, Some(Expr::Range(syn::ExprRange { start: Some(a), end: None, .. }))) = (d.method == "drain", d.args.first()) {
                            let v = &d.receiver;
                            let n: Expr = parse_quote!(#v.split_off(#a));
                            *e = n;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if m == "copied" && mc.args.is_empty() {
                    if let Expr::MethodCall(d) = &*mc.receiver {
                        if d.method == "first" && d.args.is_empty() {
                            let v = &d.receiver;
                            let n: Expr = parse_quote!(if #v.len() == 0 { None } else { Some(#v[0]) });
                            *e = n;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if m == "map_op" && mc.args.len() == 1 {
                    // the verified contract of CallBody::map_op, for a named function
                    if let Expr::Path(f) = &mc.args[0] {
                        let b = &mc.receiver;
                        let n: Expr = parse_quote!(match #b {
                            CallBody::Group(GroupNode(_op)) => CallBody::Group(GroupNode(#f(_op))),
                            CallBody::GroupMissingCloser(GroupMissingCloserNode(_op)) => CallBody::GroupMissingCloser(GroupMissingCloserNode(#f(_op))),
                        });
                        *e = n;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if m == "next" && mc.args.is_empty() {
                    // v.into_iter().next()
                    if let Expr::MethodCall(d) = &*mc.receiver {
                        if d.method == "into_iter" && d.args.is_empty() {
                            let v = &d.receiver;
                            let n: Expr = parse_quote!(vec_next(#v));
                            *e = n;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if m == "into" && self.fname == "getOp" {
                    mc.method = id("into_ipo");
                }
                if m == "map" && mc.args.len() == 1 {
                    if let Expr::Path(f) = &mc.args[0] {
                        if f.path.segments.len() >= 2 {
                            let r = &mc.receiver;
                            let n: Expr = parse_quote!(match #r { Some(_x) => Some(#f(_x)), None => None });
                            *e = n;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                    if let Expr::Closure(cl) = &mc.args[0] {
                        if cl.inputs.len() == 1 {
                            let p = match &cl.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                            let (r, b) = (&mc.receiver, &cl.body);
                            let n: Expr = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                            *e = n;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if let Some(f) = self.deref_member(&mc.receiver, &m) {
                    let fi = id(&f);
                    let r = &mc.receiver;
                    mc.receiver = parse_quote!(#r.#fi);
                }
            }
            Expr::Field(fe) => {
                let m = fe.member.to_token_stream().to_string();
                if let Some(f) = self.deref_member(&fe.base, &m) {
                    let fi = id(&f);
                    let r = &fe.base;
                    fe.base = parse_quote!(#r.#fi);
                }
            }
            Expr::If(i) => {
                // feature constants known to be false: dead code dropped
                let c = i.cond.to_token_stream().to_string().replace(' ', "");
                if c.contains("feature::FAST_STRING_SCAN&&!") || c == "feature::CHECK_ABORT&&feature::check_abort()" {
                    match i.else_branch.take() {
                        Some((_, b)) => *e = *b,
                        None => *e = parse_quote!({}),
                    }
                    self.visit_expr_mut(e);
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// the n-th `if`/`match` statement (in source order, nested ones included)
/// becomes `loop { if .. break; }`: the same computation, verified as a query of its own
pub fn cut(b: &mut syn::Block, cuts: &std::collections::BTreeMap<usize, String>) {
    if cuts.is_empty() {
        return;
    }
    struct C<'a>(usize, &'a std::collections::BTreeMap<usize, String>);
    impl<'a> VisitMut for C<'a> {
        fn visit_stmt_mut(&mut self, s: &mut Stmt) {
            let mut here = None;
            if let Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_)), _) = s {
                if std::env::var_os("VX_CUTS").is_some() {
                    let t: String = e.to_token_stream().to_string().chars().take(70).collect();
                    eprintln!("cut {}: {}", self.0, t.replace('\n', " "));
                }
                here = self.1.contains_key(&self.0).then_some(self.0);
                self.0 += 1;
            }
            syn::visit_mut::visit_stmt_mut(self, s);
            if let (Some(n), Stmt::Expr(e, _)) = (here, &*s) {
                let m = marker(1000 + n);
                let x = e.clone();
                *s = parse_quote!(loop { #m #x break; });
            }
        }
    }
    C(0, cuts).visit_block_mut(b);
}
fn marker(k: usize) -> Stmt {
    let k = proc_macro2::Literal::usize_unsuffixed(k);
    parse_quote!(__vx_loop!(#k);)
}


/// a path to a constant (SCREAMING_CASE last segment)
fn is_const_path(e: &Expr) -> bool {
    if let Expr::Path(p) = e {
        let n = p.path.segments.last().unwrap().ident.to_string();
        return n.len() > 1 && n.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit());
    }
    false
}

/// the or-free patterns a pattern stands for
fn alternatives(p: &Pat) -> Vec<Pat> {
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(alternatives).collect(),
        Pat::Paren(q) => alternatives(&q.pat),
        Pat::TupleStruct(t) => {
            let mut v = vec![t.clone()];
            for i in 0..t.elems.len() {
                let mut w = vec![];
                for x in v {
                    for q in alternatives(&x.elems[i]) {
                        let mut y = x.clone();
                        y.elems[i] = q;
                        w.push(y);
                    }
                }
                v = w;
            }
            v.into_iter().map(Pat::TupleStruct).collect()
        }
        _ => vec![p.clone()],
    }
}

/// a `continue` that belongs to this loop body itself
fn continues(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Continue(_) => self.0 = true,
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// `v` of `v.iter().rev()`
fn rev_iter(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(r) = e {
        if let (true, true, Expr::MethodCall(i)) = (r.method == "rev", r.args.is_empty(), &*r.receiver) {
            if i.method == "iter" && i.args.is_empty() {
                return Some((*i.receiver).clone());
            }
        }
    }
    None
}
/// a constant of the precedence type
fn is_prec(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "Precedence")
}

/// `let f = |x: T| body;`
fn local_closure(s: &Stmt) -> Option<(Ident, ExprClosure)> {
    if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) = s {
        if let Expr::Closure(c) = &*i.expr {
            if c.inputs.iter().all(|p| matches!(p, Pat::Type(_))) && c.capture.is_none() {
                return Some((p.ident.clone(), c.clone()));
            }
        }
    }
    None
}
struct Inline {
    f: Ident,
    cl: ExprClosure,
    bad: bool,
}
impl VisitMut for Inline {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("__inlined")) => {
                let a: Vec<_> = c.args.iter().collect();
                let p: Vec<_> = self.cl.inputs.iter().collect();
                let b = &self.cl.body;
                if a.len() != p.len() {
                    self.bad = true;
                    return;
                }
                let n: Expr = parse_quote!({ #(let #p = #a;)* #b });
                *e = n;
            }
            Expr::Path(p) if p.path.is_ident(&self.f) => *e = parse_quote!(__inlined),
            _ => {}
        }
    }
}
