//! vx: mechanical extraction of functions of the crate under /repo into one
//! Verus file.  `vx SRC_DIR CONTRACT_DIR OUT.rs OUT.map [--drop FILE]`
//!
//! The bodies come from /repo on every run; the contract files add
//! specifications keyed by function path.  See DESIGN.md for the rewrites.

mod contracts;
mod inline;
mod mono;
mod print;
mod rewrite;

use contracts::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct FnInfo {
    pub path: String,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub impl_generics: Generics,
    pub trait_: Option<TokenStream>,
    pub assoc: Vec<TokenStream>,
    pub file: String,
    pub line: usize,
}

#[derive(Default)]
pub struct World {
    /// function path -> (has self, parameter base types)
    pub sigs: HashMap<String, Vec<String>>,
    /// (outer type, field, inner type, members of inner type)
    pub derefs: Vec<(String, String, String, BTreeSet<String>)>,
    pub tables: HashMap<String, usize>,
    /// constants that become functions of no argument: name -> type
    pub konsts: HashMap<String, String>,
    pub struct_fields: HashMap<String, BTreeSet<String>>,
    /// (struct, field) -> base type
    pub field_types: HashMap<(String, String), String>,
    /// every identifier that occurs in an extracted body
    pub idents: std::collections::HashSet<String>,
}

fn idents(ts: TokenStream, s: &mut std::collections::HashSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), s),
            proc_macro2::TokenTree::Ident(i) => {
                s.insert(i.to_string());
            }
            _ => {}
        }
    }
}

pub fn base_ty(t: &Type) -> String {
    match t {
        Type::Reference(r) => base_ty(&r.elem),
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Slice(s) => format!("[{}]", base_ty(&s.elem)),
        Type::Paren(p) => base_ty(&p.elem),
        _ => "?".into(),
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[test]"
            || s.starts_with("#[cfg(test")
            || s.starts_with("#[cfg(kani")
            || s.starts_with("#[cfg(codeparser_verif")
            || s.starts_with("#[cfg(feature=\"USE_EXPR_LIB\"")
            || s.starts_with("#[cfg(feature=\"USE_MATHLINK\"")
    })
}

fn ty_name(t: &Type) -> String {
    base_ty(t)
}

/// take the functions nested in a body out of it
fn nested(block: &Block, file: &str, fns: &mut Vec<FnInfo>) -> Block {
    let mut b = block.clone();
    let mut out: Vec<Item> = vec![];
    b.stmts.retain(|s| match s {
        Stmt::Item(i @ Item::Fn(_)) => {
            out.push(i.clone());
            false
        }
        _ => true,
    });
    let mut rest = vec![];
    collect(&out, file, fns, &mut rest);
    b
}

fn collect(items: &[Item], file: &str, fns: &mut Vec<FnInfo>, others: &mut Vec<Item>) {
    for it in items {
        match it {
            Item::Fn(f) => {
                if is_test(&f.attrs) {
                    continue;
                }
                let block = nested(&f.block, file, fns);
                fns.push(FnInfo {
                    path: f.sig.ident.to_string(),
                    sig: f.sig.clone(),
                    block,
                    self_ty: None,
                    impl_generics: Generics::default(),
                    trait_: None,
                    assoc: vec![],
                    file: file.into(),
                    line: f.sig.ident.span().start().line,
                });
            }
            Item::Impl(im) => {
                if is_test(&im.attrs) {
                    continue;
                }
                let tn = ty_name(&im.self_ty);
                let pre = match &im.trait_ {
                    Some((_, p, _)) => {
                        let t = p.segments.last().unwrap().to_token_stream().to_string().replace(' ', "");
                        format!("<{tn} as {t}>")
                    }
                    None => tn.clone(),
                };
                let assoc: Vec<TokenStream> = im
                    .items
                    .iter()
                    .filter_map(|i| match i {
                        ImplItem::Type(t) => Some(t.to_token_stream()),
                        _ => None,
                    })
                    .collect();
                if im.items.iter().any(|i| matches!(i, ImplItem::Const(_))) {
                    let mut k = im.clone();
                    k.items.retain(|i| matches!(i, ImplItem::Const(_)));
                    others.push(Item::Impl(k));
                }
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let block = nested(&f.block, file, fns);
                        fns.push(FnInfo {
                            path: format!("{pre}::{}", f.sig.ident),
                            sig: f.sig.clone(),
                            block,
                            self_ty: Some((*im.self_ty).clone()),
                            impl_generics: im.generics.clone(),
                            trait_: im.trait_.as_ref().map(|(_, p, _)| p.to_token_stream()),
                            assoc: assoc.clone(),
                            file: file.into(),
                            line: f.sig.ident.span().start().line,
                        });
                    }
                }
            }
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    collect(its, file, fns, others);
                }
            }
            o => others.push(o.clone()),
        }
    }
}

/// Does a contract/list name match the function path?  `<X as T>::f` needs
/// the exact text.
fn listed(list: &BTreeSet<String>, f: &FnInfo) -> bool {
    if list.contains(&f.path) {
        return true;
    }
    if list.contains("*") && f.trait_.is_none() {
        return true;
    }
    if f.trait_.is_none() {
        if let Some(t) = &f.self_ty {
            if list.contains(&format!("{}::*", ty_name(t))) {
                return true;
            }
        }
    }
    false
}

fn die(msg: &str) -> ! {
    eprintln!("vx: {msg}");
    std::process::exit(3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        die("usage: vx SRC CONTRACTS OUT MAP [--trust FN]...");
    }
    let (src, cdir, out, mapf) = (&a[1], &a[2], &a[3], &a[4]);
    let mut trust: BTreeSet<String> = BTreeSet::new();
    let mut k = 5;
    while k + 1 < a.len() {
        match a[k].as_str() {
            "--trust" => {
                trust.insert(a[k + 1].clone());
            }
            x => die(&format!("unknown option {x}")),
        }
        k += 2;
    }
    let cfg = contracts::load(cdir);

    // parse every source file once
    let mut files: BTreeMap<String, (Vec<FnInfo>, Vec<Item>)> = BTreeMap::new();
    for m in &cfg.modules {
        for s in &m.sources {
            if files.contains_key(s) {
                continue;
            }
            let p = format!("{src}/{s}");
            let text = std::fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("lost anchor: {p}: {e}")));
            let f = syn::parse_file(&text).unwrap_or_else(|e| die(&format!("{p}: {e}")));
            files.insert(s.clone(), (vec![], f.items));
        }
    }
    let renames = |s: &str| -> Vec<(String, String)> { cfg.modules.iter().flat_map(|m| m.retypes.iter()).filter(|r| r.0 == s).map(|r| (r.1.clone(), r.2.clone())).collect() };
    let mut mono = mono::Mono::default();
    for (s, (_, items)) in &files {
        mono.learn(&File { shebang: None, attrs: vec![], items: items.clone() }, &renames(s));
    }
    for (s, v) in files.iter_mut() {
        let mut f = File { shebang: None, attrs: vec![], items: std::mem::take(&mut v.1) };
        mono.rename = renames(s).into_iter().collect();
        mono.visit_file_mut(&mut f);
        let (mut fns, mut others) = (vec![], vec![]);
        collect(&f.items, s, &mut fns, &mut others);
        *v = (fns, others);
    }

    if std::env::var("VX_KNOWN").is_ok() {
        let all: BTreeMap<String, String> = files.values().flat_map(|v| v.0.iter()).map(|f| (f.path.clone(), inline::loops(&f.block))).collect();
        for (k, v) in all {
            println!("{k}\t{v}");
        }
        return;
    }
    // helpers extracted since the contracts were written
    let known = inline::known(cdir).unwrap_or_else(|| files.values().flat_map(|v| v.0.iter()).map(|f| (f.path.clone(), inline::loops(&f.block))).collect());
    let mut inl = inline::make(&files, &known);
    let mut odd: BTreeMap<String, String> = BTreeMap::new();
    for v in files.values_mut() {
        for f in v.0.iter_mut() {
            let Some(k) = known.get(&f.path) else { continue };
            inl.left.clear();
            inl.visit_block_mut(&mut f.block);
            if !inl.left.is_empty() {
                odd.insert(f.path.clone(), format!("calls {} that has no contract", inl.left.iter().cloned().collect::<Vec<_>>().join(", ")));
            } else if inline::loops(&f.block) != *k {
                odd.insert(f.path.clone(), "its loops are not the ones the invariants were written for".into());
            }
        }
    }

    // which functions are extracted
    let mut world = World::default();
    let mut chosen: Vec<(usize, String, usize)> = vec![]; // (module, file, index)
    for (mi, m) in cfg.modules.iter().enumerate() {
        for s in &m.sources {
            let (fns, _) = &files[s];
            for (i, f) in fns.iter().enumerate() {
                let fresh = !known.contains_key(&f.path);
                if fresh && f.trait_.is_none() && inl.new.contains_key(&f.sig.ident.to_string()) {
                    if odd.values().any(|v| v.starts_with("calls") && v.contains(&f.sig.ident.to_string())) && m.sources.first() == Some(s) {
                        chosen.push((mi, s.clone(), i));
                        trust.insert(f.path.clone());
                    }
                    continue;
                }
                if listed(&m.skip, f) || !(listed(&m.fns, f) || (f.trait_.is_none() && m.fns.contains(&format!("{s}:*")))) {
                    continue;
                }
                chosen.push((mi, s.clone(), i));
                if !cfg.fns.get(&f.path).map(|c| c.trusted).unwrap_or(false) {
                    idents(f.block.to_token_stream(), &mut world.idents);
                }
                let tys: Vec<String> = f
                    .sig
                    .inputs
                    .iter()
                    .map(|p| match p {
                        FnArg::Receiver(_) => "self".into(),
                        FnArg::Typed(t) => base_ty(&t.ty),
                    })
                    .collect();
                world.sigs.insert(f.path.clone(), tys);
            }
            for o in &files[s].1 {
                match o {
                    Item::Struct(st) => {
                        let set = st.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect();
                        world.struct_fields.insert(st.ident.to_string(), set);
                        for f in st.fields.iter() {
                            if let Some(i) = &f.ident {
                                world.field_types.insert((st.ident.to_string(), i.to_string()), base_ty(&f.ty));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    for m in &cfg.modules {
        for (o, f, i) in &m.derefs {
            let mut mem: BTreeSet<String> = world.struct_fields.get(i).cloned().unwrap_or_default();
            for p in world.sigs.keys() {
                if let Some(x) = p.strip_prefix(&format!("{i}::")) {
                    mem.insert(x.to_string());
                }
            }
            world.derefs.push((o.clone(), f.clone(), i.clone(), mem));
        }
        for k in &m.konsts {
            let ty = m.sources.iter().flat_map(|s| files[s].1.iter()).find_map(|i| match i {
                Item::Const(c) if c.ident == k => Some(base_ty(&c.ty)),
                _ => None,
            });
            world.konsts.insert(k.clone(), ty.unwrap_or_else(|| die(&format!("lost anchor: const {k}"))));
        }
        for t in m.tables.iter().filter(|t| t.mac.is_none()) {
            world.tables.insert(t.name.clone(), t.nargs);
        }
    }

    let mut o = String::new();
    let mut map = String::new();
    o.push_str(&cfg.prelude);
    let mut used: BTreeSet<String> = BTreeSet::new();
    for (mi, m) in cfg.modules.iter().enumerate() {
        writeln!(o, "pub mod {} {{\nuse super::*;\nverus! {{\nbroadcast use {{super::group_bits, super::pos_mono{}}};", m.name, m.broadcast.iter().map(|b| format!(", super::{b}")).collect::<String>()).unwrap();
        for r in &m.raw {
            o.push_str(r);
            o.push('\n');
        }
        for s in &m.sources {
            for it in &files[s].1 {
                emit_other(it, m, &mut o, &world, &files[s].1);
            }
        }
        for s in &m.sources {
            emit_tables(m, &files[s].1, &mut o, &mut map, &world, s, &trust);
        }
        // functions
        for (cm, s, i) in &chosen {
            if *cm != mi {
                continue;
            }
            let f = &files[s].0[*i];
            used.insert(f.path.clone());
            let c = cfg.fns.get(&f.path);
            let tr = trust.contains(&f.path);
            emit_fn(f, c, tr, &world, &mut o, &mut map, m);
        }
        o.push_str("}\n}\npub use ");
        writeln!(o, "{}::*;", m.name).unwrap();
    }
    o.push_str("fn main() {}\n");
    for (k, v) in &odd {
        writeln!(map, "ODD\t{k}\t{v}").unwrap();
    }
    for (k, c) in &cfg.fns {
        if !used.contains(k) {
            writeln!(map, "LOST\t{k}\t{}", c.props.join(",")).unwrap();
        }
    }
    std::fs::write(out, o).unwrap();
    std::fs::write(mapf, map).unwrap();
}

/// names in `const NAME: &[&str] = &["..", ..]`
fn str_list(all: &[Item], name: &str) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for it in all {
        let Item::Const(c) = it else { continue };
        if c.ident != name {
            continue;
        }
        let Expr::Reference(r) = &*c.expr else { die(&format!("{name}: unexpected shape")) };
        let Expr::Array(a) = &*r.expr else { die(&format!("{name}: unexpected shape")) };
        for e in &a.elems {
            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e {
                v.insert(s.value());
            }
        }
    }
    v
}

/// `token_kind! { Name = id, .. }`: the enum with the discriminants that
/// `variant(id, name)` gives (the contract of `variant` states the formula)
/// and, per kind, the membership in the five name lists.
fn emit_token_kind(mm: &ItemMacro, m: &Module, all: &[Item], o: &mut String) {
    let Some(attr) = m.types.get("TokenKind") else { return };
    let ts: Vec<proc_macro2::TokenTree> = mm.mac.tokens.clone().into_iter().collect();
    let lists: Vec<BTreeSet<String>> = ["POSSIBLE_BEGINNING", "CLOSERS", "ERROR", "EMPTY", "UNTERMINATED"].iter().map(|l| str_list(all, l)).collect();
    let mut vs: Vec<(String, u16)> = vec![];
    for w in ts.windows(3) {
        if let [proc_macro2::TokenTree::Ident(i), proc_macro2::TokenTree::Punct(p), proc_macro2::TokenTree::Literal(l)] = w {
            if p.as_char() == '=' {
                if let Ok(v) = syn::parse_str::<LitInt>(&l.to_string()).and_then(|l| l.base10_parse::<u16>()) {
                    vs.push((i.to_string(), v));
                }
            }
        }
    }
    writeln!(o, "{attr}\npub enum TokenKind {{").unwrap();
    for (n, id) in &vs {
        let h = |k: usize| lists[k].contains(n);
        let g1 = if h(0) { 1 } else if h(1) { 2 } else if h(2) { 3 } else { 0 };
        let g2 = if h(3) { 1 } else if h(4) { 2 } else { 0 };
        writeln!(o, "{n} = {},", *id as u32 + 512 * g1 + 2048 * g2).unwrap();
    }
    o.push_str("}\npub open spec fn k_of(i: u16) -> TokenKind {\n");
    fn tree(v: &[(String, u16)], o: &mut String) {
        if v.len() == 1 {
            writeln!(o, "TokenKind::{}", v[0].0).unwrap();
        } else {
            let (a, b) = v.split_at(v.len() / 2);
            writeln!(o, "if i < {} {{", b[0].1).unwrap();
            tree(a, o);
            o.push_str("} else {\n");
            tree(b, o);
            o.push_str("}\n");
        }
    }
    vs.sort_by_key(|v| v.1);
    if !vs.is_empty() {
        tree(&vs, o);
    }
    o.push_str("}\npub proof fn kind_of_id(a: TokenKind)\n  ensures k_of(k_id(a)) == a\n{\nhide(k_of);\nmatch a {\n");
    for (n, id) in &vs {
        writeln!(o, "TokenKind::{n} => {{ assert(k_of({id}) == TokenKind::{n}) by (compute_only); }}").unwrap();
    }
    o.push_str("}\n}\n");
}

fn emit_other(it: &Item, m: &Module, o: &mut String, w: &World, all: &[Item]) {
    let mut rw = rewrite::Rw::new(w);
    match it {
        Item::Const(c) if m.konsts.contains(&c.ident.to_string()) => {
            let mut c = c.clone();
            rw.visit_type_mut(&mut c.ty);
            rw.visit_expr_mut(&mut c.expr);
            writeln!(o, "pub fn {}__v() -> (res: {}) {{ {} }}", c.ident, print::text(c.ty.to_token_stream()).trim(), print::text(c.expr.to_token_stream()).trim()).unwrap();
        }
        Item::Const(c) => {
            let n = c.ident.to_string();
            let glob = m.consts.iter().any(|p| p.strip_suffix('*').map(|q| n.starts_with(q)).unwrap_or(false)) && w.idents.contains(&n);
            if n == "_" || !(m.consts.contains(&n) || glob) || m.skip.contains(&n) {
                return;
            }
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            if let Expr::Macro(mm) = &*c.expr {
                if mm.mac.path.is_ident("cfg") {
                    // feature constants: default features of the crate
                    let on = mm.mac.tokens.to_string().contains("COMPUTE_SOURCE")
                        || mm.mac.tokens.to_string().contains("CHECK_ABORT") && false;
                    c.expr = Box::new(if on { parse_quote!(true) } else { parse_quote!(false) });
                }
            }
            rw.visit_item_const_mut(&mut c);
            writeln!(o, "{}", print::text(c.to_token_stream())).unwrap();
        }
        Item::Type(t) => {
            if !m.types.contains_key(&t.ident.to_string()) {
                return;
            }
            let mut t = t.clone();
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            writeln!(o, "{}", print::text(t.to_token_stream())).unwrap();
        }
        Item::Struct(s) => {
            let n = s.ident.to_string();
            let Some(attr) = m.types.get(&n) else { return };
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
                rw.visit_type_mut(&mut f.ty);
            }
            writeln!(o, "{attr}\n{}", print::text(s.to_token_stream())).unwrap();
        }
        Item::Enum(s) => {
            let n = s.ident.to_string();
            let Some(attr) = m.types.get(&n) else { return };
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            let keep = attr.contains("repr");
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                if !keep {
                    v.discriminant = None;
                }
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                    rw.visit_type_mut(&mut f.ty);
                }
            }
            writeln!(o, "{attr}\n{}", print::text(s.to_token_stream())).unwrap();
        }
        Item::Impl(im) => {
            let n = base_ty(&im.self_ty);
            for i in &im.items {
                let ImplItem::Const(c) = i else { continue };
                if !m.consts.contains(&format!("{n}::{}", c.ident)) && !m.consts.contains(&format!("{n}::*")) {
                    continue;
                }
                let mut c = c.clone();
                // Precedence::new(LITERAL) is a constant expression
                if let Expr::Call(k) = &c.expr {
                    if let (true, Some(Expr::Lit(ExprLit { lit: Lit::Int(v), .. }))) = (k.func.to_token_stream().to_string() == "Precedence :: new", k.args.first()) {
                        if v.base10_parse::<u8>().map_or(false, |v| v != 0) {
                            c.expr = parse_quote!(Precedence(NonZeroU8 { v: #v }));
                        }
                    }
                }
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                rw.visit_impl_item_const_mut(&mut c);
                writeln!(o, "impl {n} {{ {} }}", print::text(c.to_token_stream()).trim()).unwrap();
            }
        }
        Item::Macro(mm) => {
            if mm.mac.path.is_ident("token_kind") {
                emit_token_kind(mm, m, all, o);
            }
        }
        _ => {}
    }
}

/// `const T: [HandlerFunction; N] = from_fn!(..., |index| { match .. })`
/// becomes a dispatching function `T__call(index, args..)`.
fn emit_tables(m: &Module, items: &[Item], o: &mut String, map: &mut String, w: &World, file: &str, trust: &BTreeSet<String>) {
    for it in items {
        if let Item::Macro(mm) = it {
            emit_dispatch(mm, m, o, map, w, file, trust);
        }
        let Item::Const(c) = it else { continue };
        let n = c.ident.to_string();
        let Some(t) = m.tables.iter().find(|t| t.name == n) else { continue };
        let mut arms: Option<ExprMatch> = None;
        if let Expr::Macro(mm) = &*c.expr {
            let ts: Vec<_> = mm.mac.tokens.clone().into_iter().collect();
            // skip "[T, N] ,"
            let rest: TokenStream = ts[2..].iter().cloned().collect();
            if let Ok(cl) = syn::parse2::<ExprClosure>(rest) {
                struct F(Option<ExprMatch>);
                impl<'a> syn::visit::Visit<'a> for F {
                    fn visit_expr_match(&mut self, e: &'a ExprMatch) {
                        if self.0.is_none() {
                            self.0 = Some(e.clone());
                        }
                    }
                }
                let mut f = F(None);
                syn::visit::Visit::visit_expr(&mut f, &cl.body);
                arms = f.0;
            }
        }
        let path = format!("{n}__call");
        if arms.as_ref().map_or(false, |m| m.arms.iter().any(|a| a.guard.is_some())) || trust.contains(&path) {
            arms = None;
        }
        let start = o.lines().count() + 1;
        let end = |o: &str| o.lines().count();
        let hash = {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            c.to_token_stream().to_string().hash(&mut h);
            h.finish()
        };
        let gen = if t.params.contains("'i") { "<'i>" } else { "" };
        let Some(mx) = arms else {
            o.push_str(&format!("#[verifier::external_body]\npub fn {n}__call{}(index: u8, {}) -> (res: {})\n{}\n{{ unimplemented!() }}\n", gen, t.params, t.ret, t.contract));
            writeln!(map, "F\t{path}\t{start}\t{}\ttrusted\t{}\t{file}:0\tcontract\t{hash:x}\t{}", end(o), t.props, m.name).unwrap();
            continue;
        };
        let mut s = format!("pub fn {n}__call{}(index: u8, {}) -> (res: {})\n{}\n{{ match index {{\n", gen, t.params, t.ret, t.contract);
        let args: Vec<&str> = t.params.split(',').map(|p| p.split(':').next().unwrap().trim()).collect();
        for a in &mx.arms {
            let mut pat = a.pat.clone();
            let mut body = a.body.clone();
            let mut rw = rewrite::Rw::new(w);
            rw.visit_pat_mut(&mut pat);
            rw.visit_expr_mut(&mut body);
            let b = match &*body {
                Expr::Path(p) => format!("{}({})", print::text(p.to_token_stream()).trim(), args.join(", ")),
                e => print::text(e.to_token_stream()).trim().to_string(),
            };
            writeln!(s, "{} => {},", print::text(pat.to_token_stream()).trim(), b).unwrap();
        }
        s.push_str("} }\n");
        o.push_str(&s);
        writeln!(map, "F\t{path}\t{start}\t{}\tverified\t{}\t{file}:0\tcontract\t{hash:x}\t{}", end(o), t.props, m.name).unwrap();
    }
}

/// the `match $kind { .. }` of a macro that maps token kinds to parselets
fn find_match(ts: TokenStream) -> Option<ExprMatch> {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let T::Ident(x) = &v[i] {
            if x == "match" {
                let g = v[i + 1..].iter().find_map(|t| match t {
                    T::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => Some(g.stream()),
                    _ => None,
                })?;
                return syn::parse2(quote::quote!(match kind { #g })).ok();
            }
        }
        if let T::Group(g) = &v[i] {
            if let Some(m) = find_match(g.stream()) {
                return Some(m);
            }
        }
    }
    None
}

fn parselet_of(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => parselet_of(&r.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => parselet_of(x),
            _ => e.clone(),
        },
        e => e.clone(),
    }
}

fn parselet_type(e: &Expr, w: &World) -> String {
    match e {
        Expr::Struct(s) => s.path.segments.last().unwrap().ident.to_string(),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) if p.path.segments.len() >= 2 => p.path.segments[p.path.segments.len() - 2].ident.to_string(),
            Expr::Path(p) => w.konsts.get(p.path.segments[0].ident.to_string().trim_end_matches("__v")).cloned().unwrap_or("Other".into()),
            _ => "Other".into(),
        },
        _ => "Other".into(),
    }
}

/// `token_kind_to_X_parselet!`: the sort of parselet per token kind, and for
/// each method a function that matches on the kind
fn emit_dispatch(mm: &ItemMacro, m: &Module, o: &mut String, map: &mut String, w: &World, file: &str, trust: &BTreeSet<String>) {
    let Some(name) = mm.ident.as_ref().map(|i| i.to_string()) else { return };
    let ts: Vec<&Table> = m.tables.iter().filter(|t| t.mac.as_deref() == Some(&name)).collect();
    if ts.is_empty() {
        return;
    }
    let Some(mx) = find_match(mm.mac.tokens.clone()) else { die(&format!("lost anchor: {name}: no match on the token kind")) };
    let stem = ts[0].name.split("__").next().unwrap().to_string();
    let mut rw = rewrite::Rw::new(w);
    let arms: Vec<(String, Expr)> = mx
        .arms
        .iter()
        .map(|a| {
            let mut p = a.pat.clone();
            rw.visit_pat_mut(&mut p);
            let mut e = parselet_of(&a.body);
            rw.visit_expr_mut(&mut e);
            (print::text(p.to_token_stream()).trim().trim_start_matches('|').replace("TK::", "TokenKind::").replace("TK ::", "TokenKind::"), e)
        })
        .collect();
    let sorts: BTreeSet<String> = arms.iter().map(|a| parselet_type(&a.1, w)).collect();
    let cap = format!("{}{}", stem[..1].to_uppercase(), &stem[1..]);
    writeln!(o, "pub enum {cap}Sort {{ {} }}", sorts.iter().cloned().collect::<Vec<_>>().join(", ")).unwrap();
    writeln!(o, "pub open spec fn {stem}_sort(kind: TokenKind) -> {cap}Sort {{ match kind {{").unwrap();
    for (p, e) in &arms {
        writeln!(o, "{p} => {cap}Sort::{},", parselet_type(e, w)).unwrap();
    }
    o.push_str("} }\n");
    let hash = print::hash(mm.mac.tokens.clone());
    for t in ts {
        let start = o.matches('\n').count() + 1;
        let args: Vec<&str> = t.params.split(',').map(|p| p.split(':').next().unwrap().trim()).collect();
        let tr = trust.contains(&t.name);
        let gen = if t.params.contains("'i") { "<'i>" } else { "" };
        if tr {
            o.push_str("#[verifier::external_body]\n");
        }
        writeln!(o, "#[verifier::exec_allows_no_decreases_clause]\n#[verifier::spinoff_prover]\n#[verifier::rlimit(200)]\npub fn {}{gen}({}) -> (res: {})\n{}", t.name, t.params, t.ret, t.contract).unwrap();
        if tr {
            o.push_str("{ unimplemented!() }\n");
        } else {
            o.push_str("{ match kind {\n");
            for (p, e) in &arms {
                writeln!(o, "{p} => {{ assert({stem}_sort(kind) is {}); let p = {}; return p.{}({}); }},", parselet_type(e, w), print::text(e.to_token_stream()).trim().replace("TK::", "TokenKind::").replace("TK ::", "TokenKind::"), t.meth, args[1..].join(", ")).unwrap();
            }
            o.push_str("} }\n");
        }
        writeln!(map, "F\t{}\t{start}\t{}\t{}\t{}\t{file}:0\tcontract\t{hash}\t{}", t.name, o.matches('\n').count(), if tr { "trusted" } else { "verified" }, t.props, m.name).unwrap();
    }
}

fn emit_fn(f: &FnInfo, c: Option<&Contract>, tr: bool, w: &World, o: &mut String, map: &mut String, m: &Module) {
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    if !c.map_or(false, |c| c.is_const) {
        sig.constness = None;
    }
    // parameters
    let mut params: Vec<String> = vec![];
    let mut n = 0;
    let mut self_names = vec![];
    for p in sig.inputs.iter_mut() {
        match p {
            FnArg::Receiver(_) => params.push("self".into()),
            FnArg::Typed(t) => {
                t.attrs.clear();
                let name = match &mut *t.pat {
                    Pat::Ident(i) => {
                        i.ident.to_string()
                    }
                    Pat::Wild(_) => {
                        let nm = format!("_p{n}");
                        let id = Ident::new(&nm, proc_macro2::Span::call_site());
                        *t.pat = parse_quote!(#id);
                        nm
                    }
                    other => {
                        // destructured parameter: bind to a name, destructure in the body
                        let nm = format!("_p{n}");
                        let id = Ident::new(&nm, proc_macro2::Span::call_site());
                        let pt = other.clone();
                        let st: Stmt = parse_quote!(let #pt = #id;);
                        block.stmts.insert(0, st);
                        *other = parse_quote!(#id);
                        nm
                    }
                };
                n += 1;
                params.push(name);
            }
        }
    }
    let mut rw = rewrite::Rw::new(w);
    rw.enter_fn(f);
    for p in sig.inputs.iter() {
        if let FnArg::Typed(t) = p {
            if let Pat::Ident(i) = &*t.pat {
                rw.var_types.insert(i.ident.to_string(), base_ty(&t.ty));
            }
            self_names.push(());
        }
    }
    rw.visit_signature_mut(&mut sig);
    rw.fix_generics(&mut sig);
    let trusted = tr || c.map(|c| c.trusted).unwrap_or(false);
    if !trusted {
        rw.visit_block_mut(&mut block);
        if let Some(c) = c {
            rewrite::cut(&mut block, &c.cuts);
        }
    }

    let start_line = o.matches('\n').count() + 1;
    let mut ig = f.impl_generics.clone();
    rw.visit_generics_mut(&mut ig);
    let mut opened = false;
    if let Some(t) = &f.self_ty {
        let mut t = t.clone();
        rw.visit_type_mut(&mut t);
        let (g1, _, wh) = ig.split_for_impl();
        let th = match (&f.trait_, c.map(|c| c.inherent).unwrap_or(false)) {
            (Some(tr), false) => {
                let mut p: Path = syn::parse2(tr.clone()).unwrap();
                rw.visit_path_mut(&mut p);
                format!("{} for ", print::text(p.to_token_stream()).trim())
            }
            _ => String::new(),
        };
        writeln!(o, "impl{} {}{} {} {{", print::text(g1.to_token_stream()).trim(), th, print::text(t.to_token_stream()).trim(), print::text(wh.to_token_stream()).trim()).unwrap();
        opened = true;
        if !th.is_empty() {
            for a in &f.assoc {
                writeln!(o, "{}", print::text(a.clone()).trim()).unwrap();
            }
        }
    }
    let in_trait = f.trait_.is_some() && !c.map(|c| c.inherent).unwrap_or(false);
    let mut attrs = String::new();
    if let Some(c) = c {
        for a in &c.attrs {
            attrs.push_str(a);
            attrs.push('\n');
        }
    }
    if trusted {
        attrs.push_str("#[verifier::external_body]\n");
    } else {
        if c.map_or(true, |c| c.cuts.is_empty()) {
            attrs.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
        }
        if c.map(|c| c.nodec).unwrap_or(true) {
            attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
        }
    }
    o.push_str(&attrs);
    // signature by hand
    let mut name = sig.ident.to_string();
    if let Some(c) = c {
        if let Some(r) = &c.rename {
            name = r.clone();
        }
    }
    let (g1, _, wh) = sig.generics.split_for_impl();
    let ins: Vec<String> = sig.inputs.iter().map(|p| print::text(p.to_token_stream()).trim().to_string()).collect();
    let ret = match &sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => print::text(t.to_token_stream()).trim().to_string(),
    };
    let vis = if in_trait { "" } else { "pub " };
    let vis = if sig.constness.is_some() { "pub const " } else { vis };
    writeln!(o, "{vis}fn {name}{}({}) -> (res: {ret}) {}", print::text(g1.to_token_stream()).trim(), ins.join(", "), print::text(wh.to_token_stream()).trim()).unwrap();
    let subst = |t: &str| -> String {
        let mut t = t.to_string();
        for (i, p) in params.iter().enumerate().rev() {
            t = t.replace(&format!("${i}"), p);
        }
        t
    };
    let default;
    let c = match c {
        Some(c) => c,
        None => {
            default = m.default_contract(f, &params, &rw.var_types);
            &default
        }
    };
    let mut clauses: Vec<(usize, String, String)> = vec![];
    let put = |o: &mut String, kw: &str, cs: &[(String, String)], clauses: &mut Vec<(usize, String, String)>| {
        if cs.is_empty() {
            return;
        }
        writeln!(o, "{kw}").unwrap();
        for (tag, t) in cs {
            let l = o.matches('\n').count() + 1;
            let txt = subst(t);
            let nl = txt.matches('\n').count() + 1;
            for x in 0..nl {
                clauses.push((l + x, kw.to_string(), tag.clone()));
            }
            writeln!(o, "  {txt},").unwrap();
        }
    };
    if !in_trait || c.keep_req {
        put(o, "requires", &c.requires, &mut clauses);
    }
    put(o, "ensures", &c.ensures, &mut clauses);
    if let Some(d) = &c.decreases {
        writeln!(o, "decreases {}", subst(d)).unwrap();
    }
    let mut loops: HashMap<usize, String> = HashMap::new();
    for (k, v) in &c.loops {
        // a numbered loop has the invariants for all loops as well
        let v = match (*k != usize::MAX).then(|| c.loops.get(&usize::MAX)).flatten() {
            Some(all) if v.trim_start().starts_with("invariant") => format!("{}\n{}", all, v.trim_start().trim_start_matches("invariant")),
            Some(all) => format!("{all}\n{v}"),
            None => v.clone(),
        };
        loops.insert(*k, subst(&v));
    }
    for (k, v) in &c.cuts {
        loops.insert(1000 + k, subst(v));
    }
    let dl = c.loops.get(&usize::MAX).map(|s| subst(s));
    if trusted {
        o.push_str("{ unimplemented!() }\n");
    } else {
        let base = o.matches('\n').count();
        let (txt, lines) = print::body(block.to_token_stream(), &loops, dl.as_deref(), &subst(&c.prologue));
        for (i, l) in lines.iter().enumerate() {
            if *l > 0 {
                writeln!(map, "L\t{}\t{}:{}", base + i + 1, f.file, l).unwrap();
            }
        }
        o.push_str(&txt);
        o.push('\n');
    }
    if opened {
        o.push_str("}\n");
    }
    let end_line = o.matches('\n').count();
    writeln!(
        map,
        "F\t{}\t{}\t{}\t{}\t{}\t{}:{}\t{}\t{}\t{}",
        f.path,
        start_line,
        end_line,
        if trusted { "trusted" } else { "verified" },
        c.props.join(","),
        f.file,
        f.line,
        if c.synthetic { "nocontract" } else { "contract" },
        print::hash(f.block.to_token_stream()),
        m.name
    )
    .unwrap();
    for (l, k, t) in clauses {
        writeln!(map, "C\t{l}\t{k}\t{t}").unwrap();
    }
}
