//! The parser is generic over `B: ParseBuilder<'i>` and dispatches through
//! trait objects.  The crate has one builder (`ParseCst<'i>`), and the tables
//! of trait objects are constants: here `B` becomes `ParseCst<'i>`, the trait
//! implementations become inherent functions (with the trait's default bodies
//! where an implementation has none) and a call through a table becomes a call
//! of a function that matches on the token kind.
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const FLAT: &[&str] = &["PrefixParselet", "InfixParselet", "ParseBuilder"];

#[derive(Default)]
pub struct Mono {
    /// associated types of the builder
    pub assoc: HashMap<String, Type>,
    /// default bodies of the flattened traits
    pub defaults: HashMap<String, Vec<ImplItemFn>>,
    /// identifiers of the present file that get another name
    pub rename: HashMap<String, String>,
    in_builder: bool,
}

fn flat_name(im: &ItemImpl) -> Option<String> {
    let (_, p, _) = im.trait_.as_ref()?;
    let n = p.segments.last()?.ident.to_string();
    FLAT.contains(&n.as_str()).then_some(n)
}

impl Mono {
    pub fn learn(&mut self, f: &File, rename: &[(String, String)]) {
        for it in &f.items {
            match it {
                Item::Trait(t) if FLAT.contains(&t.ident.to_string().as_str()) => {
                    let v = self.defaults.entry(t.ident.to_string()).or_default();
                    for i in &t.items {
                        if let TraitItem::Fn(g) = i {
                            if let Some(b) = &g.default {
                                v.push(ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig: g.sig.clone(), block: b.clone() });
                            }
                        }
                    }
                }
                Item::Impl(im) if flat_name(im).as_deref() == Some("ParseBuilder") => {
                    for i in &im.items {
                        if let ImplItem::Type(t) = i {
                            let mut ty = t.ty.clone();
                            let mut m = Mono { rename: rename.iter().cloned().collect(), ..Default::default() };
                            m.visit_type_mut(&mut ty);
                            self.assoc.insert(t.ident.to_string(), ty);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn bound(t: &TypeParam) -> bool {
        t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().unwrap().ident == "ParseBuilder"))
    }
}

impl VisitMut for Mono {
    fn visit_item_impl_mut(&mut self, im: &mut ItemImpl) {
        if let Some(n) = flat_name(im) {
            if n != "ParseBuilder" {
                for d in self.defaults.get(&n).cloned().unwrap_or_default() {
                    let have = im.items.iter().any(|i| matches!(i, ImplItem::Fn(f) if f.sig.ident == d.sig.ident));
                    if !have {
                        im.items.push(ImplItem::Fn(d));
                    }
                }
            }
            self.in_builder = n == "ParseBuilder";
            im.items.retain(|i| !matches!(i, ImplItem::Type(_)));
            im.trait_ = None;
            use quote::ToTokens;
            if !im.self_ty.to_token_stream().to_string().contains('\'') {
                let lt: Vec<GenericParam> = im.generics.params.iter().filter(|p| matches!(p, GenericParam::Lifetime(_))).cloned().collect();
                im.generics.params = im.generics.params.iter().filter(|p| !matches!(p, GenericParam::Lifetime(_))).cloned().collect();
                for i in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = i {
                        for (k, l) in lt.iter().enumerate() {
                            f.sig.generics.params.insert(k, l.clone());
                        }
                        f.sig.generics.lt_token = Some(Default::default());
                        f.sig.generics.gt_token = Some(Default::default());
                    }
                }
            }
        }
        visit_mut::visit_item_impl_mut(self, im);
        self.in_builder = false;
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        g.params = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if Self::bound(t))).cloned().collect();
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() == 2 && (s[0] == "B" || s[0] == "Self" && self.in_builder) {
                    if let Some(x) = self.assoc.get(&s[1]) {
                        *t = x.clone();
                        return;
                    }
                }
                if s.len() == 1 && s[0] == "B" {
                    *t = parse_quote!(ParseCst<'i>);
                    return;
                }
                if s.last().unwrap() == "ParserSession" {
                    *t = parse_quote!(ParserSession<'i>);
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 2 && p.segments[0].ident == "B" {
            p.segments[0] = parse_quote!(ParseCst);
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.rename.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let stem = match n.as_str() {
                    "with_prefix_parselet" => Some("prefix"),
                    "with_infix_parselet" => Some("infix"),
                    _ => None,
                };
                if let (Some(stem), 2) = (stem, c.args.len()) {
                    if let Expr::Closure(cl) = &c.args[1] {
                        let mut b = &*cl.body;
                        while let Expr::Block(x) = b {
                            match x.block.stmts.as_slice() {
                                [Stmt::Expr(y, None)] => b = y,
                                _ => break,
                            }
                        }
                        if let (Expr::MethodCall(m), [Pat::Ident(pi)]) = (b, cl.inputs.iter().cloned().collect::<Vec<_>>().as_slice()) {
                            if matches!(&*m.receiver, Expr::Path(q) if q.path.is_ident(&pi.ident)) {
                                let f = Ident::new(&format!("{stem}__{}", m.method), m.method.span());
                                let k = &c.args[0];
                                let a: Vec<&Expr> = m.args.iter().collect();
                                *e = parse_quote!(#f(#k, #(#a),*));
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(q) = &p.qself {
                let n = p.path.segments.len();
                if n >= 2 && FLAT.contains(&p.path.segments[n - 2].ident.to_string().as_str()) {
                    let (t, m) = (&q.ty, &p.path.segments[n - 1]);
                    *e = parse_quote!(#t::#m);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
