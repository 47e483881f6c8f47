//! Walks the items of one file and emits them with their contracts.
use crate::contracts::{FileSpec, FnSpec};
use crate::print::Out;
use crate::rewrite::*;
use crate::FnRec;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Walker<'a> {
    pub sp: &'a FileSpec,
    ctx: Ctx<'a>,
    lost: &'a BTreeMap<String, String>,
    pub out: Out,
    pub recs: Vec<FnRec>,
    pub notes: Vec<String>,
    iter_types: BTreeSet<String>,
    keys_seen: BTreeSet<String>,
    nospec: bool,
    assoc: BTreeMap<(String, String), Type>,
    transparent: BTreeSet<String>,
    handle_ty: Option<Type>,
}

fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|x| x.path().is_ident("cfg") && strip_ws(&x.meta).contains("test"))
}

fn no_lt(t: &impl ToTokens) -> String {
    // textual form without lifetimes and whitespace
    let s = t.to_token_stream().to_string();
    let mut o = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' {
            i += 1;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            // following comma
            let mut j = i;
            while j < cs.len() && cs[j] == ' ' {
                j += 1;
            }
            if j < cs.len() && cs[j] == ',' {
                i = j + 1;
            }
            continue;
        }
        if !cs[i].is_whitespace() {
            o.push(cs[i]);
        }
        i += 1;
    }
    o.replace("<>", "")
}

fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(_) => "&".to_string(),
        _ => strip_ws(t),
    }
}

/// Names called in a body (for the structural fingerprint).
struct Calls(BTreeSet<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.insert(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_macro(&mut self, c: &'a ExprMacro) {
        self.0.insert(format!("{}!", c.mac.path.segments.last().unwrap().ident));
        visit::visit_expr_macro(self, c);
    }
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn pub_fields(f: &mut Fields) {
    let v: Visibility = parse_quote!(pub);
    match f {
        Fields::Named(n) => n.named.iter_mut().for_each(|x| {
            x.vis = v.clone();
            x.attrs.clear()
        }),
        Fields::Unnamed(n) => n.unnamed.iter_mut().for_each(|x| {
            x.vis = v.clone();
            x.attrs.clear()
        }),
        Fields::Unit => {}
    }
}

impl<'a> Walker<'a> {
    pub fn new(sp: &'a FileSpec, ctx: Ctx<'a>, lost: &'a BTreeMap<String, String>) -> Self {
        Walker {
            sp,
            ctx,
            lost,
            out: Out::default(),
            recs: vec![],
            notes: vec![],
            iter_types: BTreeSet::new(),
            keys_seen: BTreeSet::new(),
            nospec: false,
            assoc: BTreeMap::new(),
            transparent: BTreeSet::new(),
            handle_ty: None,
        }
    }
    fn key(&self, s: &str) -> String {
        format!("{}::{}", self.sp.module, s)
    }
    fn skipped(&mut self, k: &str) -> bool {
        self.sp.skip.contains_key(k)
    }

    pub fn file(&mut self, f: File) {
        self.out.raw("// generated by vpextract; do not edit");
        self.out.raw("use vstd::prelude::*;");
        self.out.raw(&self.sp.uses.clone());
        self.out.raw("verus! {");
        for it in &f.items {
            if let Item::Struct(s) = it {
                if s.attrs.iter().any(|a| a.path().is_ident("repr") && strip_ws(&a.meta).contains("transparent")) {
                    self.transparent.insert(s.ident.to_string());
                }
            }
            if let Item::Impl(i) = it {
                if let Some((_, p, _)) = &i.trait_ {
                    if p.segments.last().unwrap().ident == "Iterator" {
                        self.iter_types.insert(self_name(&i.self_ty));
                    }
                }
            }
        }
        for it in &f.items {
            if let Item::Impl(i) = it {
                for x in &i.items {
                    if let ImplItem::Type(t) = x {
                        if t.generics.params.is_empty() {
                            self.assoc.insert((no_lt(&i.self_ty), t.ident.to_string()), t.ty.clone());
                        }
                    }
                }
            }
        }
        // ghost items first: Verus orders specification impls by position
        self.out.raw(&self.sp.append.clone());
        for it in f.items {
            self.item(it);
        }
        self.out.raw("} // verus!");
        let missing: Vec<String> =
            self.sp.fns.keys().filter(|k| !self.keys_seen.contains(*k)).cloned().collect();
        for k in missing {
            let key = self.key(&k);
            self.recs.push(FnRec {
                key,
                module: self.sp.module.clone(),
                start: 0,
                end: 0,
                src: self.sp.source.clone(),
                src_line: 0,
                src_end: 0,
                status: "missing".into(),
                reason: "function under contract not found in the source".into(),
                contract: true,
                loops: 0,
                closures: 0,
                calls: vec![],
                body_hash: 0,
                shape: String::new(),
            });
        }
    }

    fn item(&mut self, it: Item) {
        match it {
            Item::Use(_) | Item::ExternCrate(_) => {}
            Item::Mod(m) => {
                if m.content.is_some() && !is_test(&m.attrs) {
                    self.notes.push(format!("inline module {} dropped", m.ident));
                }
            }
            Item::Macro(m) => {
                if m.ident.is_none() {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    let k = format!("macro {n}");
                    if self.skipped(&k) {
                        return;
                    }
                    if let Some(def) = self.ctx.macros.get(&n) {
                        if let Some(ts) = expand_macro(def, m.mac.tokens.clone()) {
                            if let Ok(f) = syn::parse2::<File>(ts) {
                                for i in f.items {
                                    self.item(i);
                                }
                                return;
                            }
                        }
                    }
                    self.notes.push(format!("macro invocation {n} not expanded"));
                }
            }
            Item::Struct(mut s) => {
                if is_test(&s.attrs) || self.skipped(&format!("struct {}", s.ident)) {
                    return;
                }
                let n = s.ident.to_string();
                self.item_attrs(&n);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                pub_fields(&mut s.fields);
                TypeRw.visit_item_struct_mut(&mut s);
                self.out.tokens(s.to_token_stream());
                self.out.nl();
            }
            Item::Enum(mut s) => {
                if is_test(&s.attrs) || self.skipped(&format!("enum {}", s.ident)) {
                    return;
                }
                let n = s.ident.to_string();
                self.item_attrs(&n);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    if let Fields::Named(f) = &mut v.fields {
                        f.named.iter_mut().for_each(|x| x.attrs.clear());
                    }
                }
                TypeRw.visit_item_enum_mut(&mut s);
                self.out.tokens(s.to_token_stream());
                self.out.nl();
            }
            Item::Type(mut t) => {
                if self.skipped(&format!("type {}", t.ident)) {
                    return;
                }
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                TypeRw.visit_item_type_mut(&mut t);
                self.out.tokens(t.to_token_stream());
                self.out.nl();
            }
            Item::Const(mut t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                self.out.tokens(t.to_token_stream());
                self.out.nl();
            }
            Item::Fn(f) => {
                if is_test(&f.attrs) || self.skipped(&format!("fn {}", f.sig.ident)) {
                    return;
                }
                let k = f.sig.ident.to_string();
                self.func(&k, true, f.sig, Some(*f.block), false, false);
            }
            Item::Trait(t) => self.trait_(t),
            Item::Impl(i) => self.impl_(i),
            other => self.notes.push(format!("item dropped: {}", strip_ws(&other).chars().take(60).collect::<String>())),
        }
    }

    fn item_attrs(&mut self, n: &str) {
        if let Some(a) = self.sp.attrs.get(n) {
            self.out.raw(&a.clone());
        }
    }

    fn trait_(&mut self, t: ItemTrait) {
        let name = t.ident.to_string();
        if self.skipped(&format!("trait {name}")) {
            return;
        }
        self.item_attrs(&name);
        let mut g = t.generics.clone();
        TypeRw.visit_generics_mut(&mut g);
        let mut sup = t.supertraits.clone();
        for b in sup.iter_mut() {
            TypeRw.visit_type_param_bound_mut(b);
        }
        let id = &t.ident;
        let (params, wc) = (&g.params, &g.where_clause);
        let gp = if params.is_empty() { quote!() } else { quote!(<#params>) };
        let head = if sup.is_empty() { quote!(pub trait #id #gp #wc) } else { quote!(pub trait #id #gp : #sup #wc) };
        self.out.tokens(head);
        self.out.raw("{");
        if let Some(x) = self.sp.inside.get(&name) {
            self.out.raw(&x.clone());
        }
        let provided = self.sp.provided.contains(&name);
        let mut moved: Vec<TraitItemFn> = vec![];
        for it in t.items {
            match it {
                TraitItem::Fn(f) if provided && f.default.is_some() => moved.push(f),
                TraitItem::Type(mut ty) => {
                    if !ty.generics.params.is_empty() {
                        continue; // GAT: see rule BasisRef
                    }
                    ty.attrs.clear();
                    TypeRw.visit_trait_item_type_mut(&mut ty);
                    self.out.tokens(ty.to_token_stream());
                }
                TraitItem::Fn(f) => {
                    let k = format!("{name}::{}", f.sig.ident);
                    if self.skipped(&format!("fn {k}")) {
                        continue;
                    }
                    self.func(&k, false, f.sig, f.default, false, true);
                }
                o => self.notes.push(format!("trait item dropped: {}", strip_ws(&o))),
            }
        }
        self.out.raw("}");
        // default methods of the trait: an extension trait implemented for every implementor
        if !moved.is_empty() {
            self.out.raw(&format!("pub trait {name}Provided: {name} {{"));
            for f in &moved {
                let k = format!("{name}::{}", f.sig.ident);
                if self.sp.skip.contains_key(&format!("fn {k}")) {
                    continue;
                }
                self.decl(&k, f.sig.clone());
            }
            self.out.raw("}");
            self.out.raw(&format!("impl<VpT: {name}> {name}Provided for VpT {{"));
            for f in moved {
                let k = format!("{name}::{}", f.sig.ident);
                if self.skipped(&format!("fn {k}")) {
                    continue;
                }
                self.nospec = true;
                self.func(&k, false, f.sig, f.default, false, true);
                self.nospec = false;
            }
            self.out.raw("}");
        }
    }

    /// the declaration of a provided method, with its contract
    fn decl(&mut self, k: &str, mut sig: Signature) {
        let spec = self.sp.fns.get(k).cloned().unwrap_or_default();
        TypeRw.visit_signature_mut(&mut sig);
        for (ix, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let v = Ident::new(&format!("vpp{ix}"), Span::call_site());
                    t.pat = Box::new(parse_quote!(#v));
                }
            }
        }
        let wc = sig.generics.where_clause.take();
        let outty = std::mem::replace(&mut sig.output, ReturnType::Default);
        self.out.tokens(quote!(#sig));
        if let ReturnType::Type(_, t) = &outty {
            let r = spec.ret.clone().unwrap_or_else(|| "vp_r".to_string());
            let t = t.to_token_stream();
            self.out.tokens(quote!(->));
            self.out.text.push_str(&format!("({r}: "));
            self.out.tokens(t);
            self.out.text.push_str(") ");
        }
        if let Some(w) = wc {
            let preds: Vec<_> = w.predicates.iter().collect();
            self.out.tokens(quote!(where #(#preds),* ,));
        }
        if !spec.spec.trim().is_empty() {
            self.out.raw(&spec.spec);
        }
        self.out.raw(";");
    }

    fn impl_(&mut self, mut i: ItemImpl) {
        if is_test(&i.attrs) {
            return;
        }
        let sname = self_name(&i.self_ty);
        let (key, trait_name) = match &i.trait_ {
            Some((_, p, _)) => {
                let l = p.segments.last().unwrap();
                let args = match &l.arguments {
                    PathArguments::AngleBracketed(a) => no_lt(&a),
                    _ => String::new(),
                };
                let mut s = sname.clone();
                // distinguish `impl Trait for &[mut] T`
                if let Type::Reference(_) = &*i.self_ty {
                    s = "&".to_string();
                }
                (format!("<{s} as {}{args}>", l.ident), Some(l.ident.to_string()))
            }
            None => (sname.clone(), None),
        };
        if trait_name.as_deref() == Some("Debug") {
            return;
        }
        if self.skipped(&format!("impl {key}")) {
            return;
        }
        if trait_name.as_deref() == Some("Deref") {
            self.handle_impl(&key, i);
            return;
        }
        // `Self::X` is written out in impls with type parameters the self type does not mention
        let st_toks = i.self_ty.to_token_stream().to_string();
        let unconstrained = i.trait_.is_some()
            && i.generics.type_params().any(|p| !st_toks.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| p.ident == w))
            && i.generics.type_params().count() > 1;
        if unconstrained {
            struct N<'b>(&'b BTreeMap<(String, String), Type>, String);
            impl VisitMut for N<'_> {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if let Some(x) = strip_ws(&*t).strip_prefix("Self::") {
                        if let Some(n) = self.0.get(&(self.1.clone(), x.to_string())) {
                            *t = n.clone();
                        } else if x.starts_with("BasisRef<'") {
                            if let Some(n) = self.0.get(&(self.1.clone(), "BasisT".to_string())) {
                                *t = parse_quote!(&#n);
                            }
                        }
                    }
                    visit_mut::visit_type_mut(self, t);
                }
            }
            N(&self.assoc, no_lt(&i.self_ty)).visit_item_impl_mut(&mut i);
        }
        // `S::<Self> { .. }` in an impl for `W<M>`: the struct is generic code shared by all
        // instances, written with `M` instead (the field types agree or Verus rejects it)
        if i.trait_.is_some() {
            if let Some(first) = i.generics.type_params().next().map(|p| p.ident.clone()) {
                struct L(Ident);
                impl VisitMut for L {
                    fn visit_expr_struct_mut(&mut self, e: &mut syn::ExprStruct) {
                        visit_mut::visit_expr_struct_mut(self, e);
                        if let Some(s) = e.path.segments.last_mut() {
                            if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                                for g in a.args.iter_mut() {
                                    if strip_ws(&*g) == "Self" {
                                        let f = &self.0;
                                        *g = parse_quote!(#f);
                                    }
                                }
                            }
                        }
                    }
                }
                L(first).visit_item_impl_mut(&mut i);
            }
        }
        let is_iter = trait_name.as_deref() == Some("Iterator");
        let mut item_ty: Option<Type> = None;
        let mut moved = syn::Generics::default();
        if is_iter {
            for x in &i.items {
                if let ImplItem::Type(t) = x {
                    if t.ident == "Item" {
                        item_ty = Some(t.ty.clone());
                    }
                }
            }
            i.trait_ = None;
        }
        TypeRw.visit_generics_mut(&mut i.generics);
        TypeRw.visit_type_mut(&mut i.self_ty);
        if let Some((_, p, _)) = &mut i.trait_ {
            TypeRw.visit_path_mut(p);
        }
        // type parameters the implementing type does not mention become parameters of the methods
        if is_iter {
            fn mentions(ts: proc_macro2::TokenStream, n: &str) -> bool {
                ts.into_iter().any(|t| match t {
                    proc_macro2::TokenTree::Ident(i) => i == n,
                    proc_macro2::TokenTree::Group(g) => mentions(g.stream(), n),
                    _ => false,
                })
            }
            let free: Vec<String> = i.generics.type_params().map(|p| p.ident.to_string()).filter(|n| !mentions(i.self_ty.to_token_stream(), n)).collect();
            if !free.is_empty() {
                let has = |ts: proc_macro2::TokenStream| free.iter().any(|n| mentions(ts.clone(), n));
                let (mv, keep): (Vec<_>, Vec<_>) = i.generics.params.clone().into_iter().partition(|p| has(p.to_token_stream()));
                i.generics.params = keep.into_iter().collect();
                let mut mvw: Vec<syn::WherePredicate> = vec![];
                if let Some(w) = &mut i.generics.where_clause {
                    let (a, b): (Vec<_>, Vec<_>) = w.predicates.clone().into_iter().partition(|p| has(p.to_token_stream()));
                    mvw = a;
                    w.predicates = b.into_iter().collect();
                    if w.predicates.is_empty() {
                        i.generics.where_clause = None;
                    }
                }
                for p in mv {
                    moved.params.push(p);
                }
                if !mvw.is_empty() {
                    moved.make_where_clause().predicates.extend(mvw);
                }
            }
        }
        let add = |g: &mut syn::Generics| {
            for p in &moved.params {
                g.params.push(p.clone());
            }
            if let Some(w) = &moved.where_clause {
                g.make_where_clause().predicates.extend(w.predicates.clone());
            }
        };
        let generics = i.generics.clone();
        let (params, wc) = (&generics.params, &generics.where_clause);
        let gp = if params.is_empty() { quote!() } else { quote!(<#params>) };
        let self_ty = i.self_ty.clone();
        let st = &self_ty;
        let head = match &i.trait_ {
            Some((b, p, _)) => quote!(impl #gp #b #p for #st #wc),
            None => quote!(impl #gp #st #wc),
        };
        // `cmp` moves to an inherent method `vp_cmp` and the trait method calls it: Verus orders
        // its queries so that `partial_cmp` calling `cmp` directly loses the specification of `cmp`
        if trait_name.as_deref() == Some("Ord") {
            if let Some(pos) = i.items.iter().position(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == "cmp")) {
                if let ImplItem::Fn(mut f) = i.items.remove(pos) {
                    self.out.tokens(quote!(impl #gp #st #wc));
                    self.out.raw("{");
                    f.sig.ident = Ident::new("vp_cmp", f.sig.ident.span());
                    self.func(&format!("{key}::cmp"), true, f.sig, Some(f.block), false, false);
                    self.out.raw("}");
                    i.items.push(parse_quote!(fn cmp(&self, other: &Self) -> Ordering { self.vp_cmp(other) }));
                }
            }
            self.item_attrs(&format!("impl {key}"));
            self.out.tokens(head);
            self.out.raw("{");
            if let Some(x) = self.sp.inside.get(&key) {
                self.out.raw(&x.clone());
            }
            for x in i.items {
                self.out.tokens(x.to_token_stream());
            }
            self.out.raw("}");
            return;
        }
        if trait_name.as_deref() == Some("PartialOrd") {
            struct C;
            impl VisitMut for C {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    match e {
                        Expr::MethodCall(m) if m.method == "cmp" && strip_ws(&m.receiver) == "self" => {
                            m.method = Ident::new("vp_cmp", m.method.span());
                        }
                        Expr::Call(c) if c.args.len() == 2 && strip_ws(&c.args[0]) == "self" && matches!(strip_ws(&c.func).as_str(), "Ord::cmp" | "Self::cmp") => {
                            let o = c.args[1].clone();
                            *e = parse_quote!(self.vp_cmp(#o));
                        }
                        _ => {}
                    }
                }
            }
            C.visit_item_impl_mut(&mut i);
        }
        self.item_attrs(&format!("impl {key}"));
        self.out.tokens(head);
        self.out.raw("{");
        if let Some(x) = self.sp.inside.get(&key) {
            self.out.raw(&x.clone());
        }
        // the struct a basis handle is
        self.handle_ty = i.items.iter().find_map(|x| match x {
            ImplItem::Type(t) if t.ident == "BasisRef" => match &t.ty {
                Type::Path(p) if p.path.segments.len() == 1 => {
                    struct A;
                    impl VisitMut for A {
                        fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
                            *l = parse_quote!('_);
                        }
                    }
                    let mut t = t.ty.clone();
                    TypeRw.visit_type_mut(&mut t);
                    A.visit_type_mut(&mut t);
                    Some(t)
                }
                _ => None,
            },
            _ => None,
        });
        for it in i.items {
            match it {
                ImplItem::Type(mut ty) => {
                    if is_iter || !ty.generics.params.is_empty() {
                        continue;
                    }
                    ty.attrs.clear();
                    TypeRw.visit_impl_item_type_mut(&mut ty);
                    self.out.tokens(ty.to_token_stream());
                }
                ImplItem::Fn(mut f) => {
                    let k = format!("{key}::{}", f.sig.ident);
                    if self.skipped(&format!("fn {k}")) {
                        continue;
                    }
                    if let Some(t) = &item_ty {
                        struct S<'b>(&'b Type);
                        impl VisitMut for S<'_> {
                            fn visit_type_mut(&mut self, t: &mut Type) {
                                if strip_ws(&*t) == "Self::Item" {
                                    *t = self.0.clone();
                                }
                                visit_mut::visit_type_mut(self, t);
                            }
                        }
                        S(t).visit_impl_item_fn_mut(&mut f);
                    }
                    add(&mut f.sig.generics);
                    self.func(&k, trait_name.is_none() || is_iter, f.sig, Some(f.block), is_iter, false);
                }
                o => self.notes.push(format!("impl item dropped: {}", strip_ws(&o))),
            }
        }
        if let Some(t) = &item_ty {
            let k = format!("{key}::vp_drain");
            let mut sig: Signature = parse_quote!(fn vp_drain(mut self) -> It<#t>);
            add(&mut sig.generics);
            let body: Block = parse_quote!({
                let mut vp_out: Vec<#t> = Vec::new();
                loop {
                    match self.next() {
                        Some(vp_x) => { vp_out.push(vp_x); }
                        None => { break; }
                    }
                }
                It { v: vp_out }
            });
            self.func(&k, true, sig, Some(body), true, false);
        }
        self.out.raw("}");
    }

    /// `impl Deref for H`, where `H` is what a GAT `BasisRef<'a>` stands for: the handle consumed, giving the reference
    /// (see VpHandle). `Ref: Deref<Target = B>` is a handle of `B`; the references live as long as the handle's.
    fn handle_impl(&mut self, key: &str, mut i: ItemImpl) {
        let lt: syn::Lifetime = match i.generics.lifetimes().next() {
            Some(l) => l.lifetime.clone(),
            None => {
                let l: syn::Lifetime = parse_quote!('vp);
                i.generics.params.insert(0, parse_quote!('vp));
                l
            }
        };
        struct B(syn::Lifetime);
        impl VisitMut for B {
            fn visit_trait_bound_mut(&mut self, b: &mut syn::TraitBound) {
                visit_mut::visit_trait_bound_mut(self, b);
                let l = b.path.segments.last().unwrap();
                if l.ident == "Deref" {
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        if let Some(syn::GenericArgument::AssocType(t)) = a.args.first() {
                            let (l, t) = (&self.0, &t.ty);
                            b.path = parse_quote!(VpHandle<#l, #t>);
                        }
                    }
                }
            }
            fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
                visit_mut::visit_expr_method_call_mut(self, m);
                if m.method == "deref" && m.args.is_empty() {
                    m.method = Ident::new("vp_handle", m.method.span());
                }
            }
        }
        B(lt.clone()).visit_item_impl_mut(&mut i);
        let mut target: Option<Type> = None;
        let mut f: Option<syn::ImplItemFn> = None;
        for it in i.items {
            match it {
                ImplItem::Type(t) => target = Some(t.ty),
                ImplItem::Fn(x) => f = Some(x),
                _ => {}
            }
        }
        let (Some(mut target), Some(f)) = (target, f) else { return };
        TypeRw.visit_generics_mut(&mut i.generics);
        TypeRw.visit_type_mut(&mut i.self_ty);
        TypeRw.visit_type_mut(&mut target);
        let ps: Vec<Ident> = i.generics.type_params().map(|p| p.ident.clone()).collect();
        for p in ps {
            i.generics.make_where_clause().predicates.push(parse_quote!(#p: #lt));
        }
        let g = &i.generics.params;
        let (wc, st) = (&i.generics.where_clause, &i.self_ty);
        self.item_attrs(&format!("impl {key}"));
        self.out.tokens(quote!(impl<#g> VpHandle<#lt, #target> for #st #wc));
        self.out.raw("{");
        if let Some(x) = self.sp.inside.get(key) {
            self.out.raw(&x.clone());
        }
        let sig: Signature = parse_quote!(fn vp_handle(self) -> &#lt #target);
        self.func(&format!("{key}::deref"), false, sig, Some(f.block), false, false);
        self.out.raw("}");
    }

    fn func(&mut self, k: &str, vis: bool, mut sig: Signature, body: Option<Block>, in_iter: bool, in_trait: bool) {
        let key = self.key(k);
        let empty = FnSpec::default();
        let has = self.sp.fns.contains_key(k);
        let mut nk = k.to_string();
        // the same key twice (overlapping inherent impls): number them
        let mut n = 1;
        while !self.keys_seen.insert(nk.clone()) {
            n += 1;
            nk = format!("{k}~{n}");
        }
        let key = if nk == k { key } else { self.key(&nk) };
        let spec: &FnSpec = self.sp.fns.get(&nk).unwrap_or(if nk == k { self.sp.fns.get(k).unwrap_or(&empty) } else { &empty });
        let has = if nk == k { has } else { self.sp.fns.contains_key(&nk) };
        let src_line = sig.span().start().line;
        let src_end = body.as_ref().map_or(src_line, |b| b.span().end().line);
        let mut calls = Calls(BTreeSet::new());
        let mut bh = 0;
        let mut shape = String::new();
        if let Some(b) = &body {
            calls.visit_block(b);
            bh = hash(&strip_ws(b));
            let mut sh = Shape(String::new());
            sh.visit_block(b);
            shape = sh.0;
        }
        // parameters with patterns
        let mut lets: Vec<Stmt> = vec![];
        let mut body = body;
        // `mut self` by value
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() && body.is_some() {
                r.mutability = None;
                lets.push(parse_quote!(let mut vp_self = self;));
                struct S;
                impl VisitMut for S {
                    fn visit_path_mut(&mut self, p: &mut Path) {
                        if p.is_ident("self") {
                            *p = parse_quote!(vp_self);
                        } else {
                            visit_mut::visit_path_mut(self, p);
                        }
                    }
                    fn visit_macro_mut(&mut self, m: &mut Macro) {
                        fn go(t: TokenStream) -> TokenStream {
                            t.into_iter()
                                .map(|t| match t {
                                    TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("vp_self", i.span())),
                                    TokenTree::Group(g) => {
                                        TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream())))
                                    }
                                    t => t,
                                })
                                .collect()
                        }
                        m.tokens = go(m.tokens.clone());
                    }
                }
                S.visit_block_mut(body.as_mut().unwrap());
            }
        }
        for (ix, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                t.attrs.clear();
                match &*t.pat {
                    Pat::Ident(_) => {}
                    p => {
                        let v = Ident::new(&format!("vpp{ix}"), Span::call_site());
                        if !matches!(p, Pat::Wild(_)) {
                            lets.push(parse_quote!(let #p = #v;));
                        }
                        t.pat = Box::new(parse_quote!(#v));
                    }
                }
            }
        }
        TypeRw.visit_signature_mut(&mut sig);
        let mut status = "verified".to_string();
        let mut reason = String::new();
        let mut loops = 0;
        let mut closures = 0;
        let mut emitted: Option<Block> = None;
        if let Some(mut b) = body {
            let casts = crate::rewrite::unptr(&mut b);
            if casts {
                // the type whose reference comes out of the cast
                let to = k.trim_start_matches('<').split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                if !self.transparent.contains(&to) {
                    status = "lost".into();
                    reason = format!("pointer cast to {to}, which is not repr(transparent)");
                }
            }
            MacroExp(self.ctx).visit_block_mut(&mut b);
            Desugar.visit_block_mut(&mut b);
            let mut num = Number::default();
            num.visit_block_mut(&mut b);
            loops = num.loops;
            closures = num.closures;
            let mut an = Anchors { spec, out: &mut self.out, used: BTreeSet::new(), lets: BTreeMap::new() };
            an.visit_block_mut(&mut b);
            let used = an.used;
            let mut missing = vec![];
            for k in spec.before.keys() {
                if !used.contains(&(true, k.0.clone(), k.1)) {
                    missing.push(format!("before {}#{}", k.0, k.1));
                }
            }
            for k in spec.after.keys() {
                if !used.contains(&(false, k.0.clone(), k.1)) {
                    missing.push(format!("after {}#{}", k.0, k.1));
                }
            }
            let mut rw = BodyRw {
                ctx: self.ctx,
                spec,
                out: &mut self.out,
                nloop: 0,
                nclo: 0,
                npat: 0,
                iter_types: &self.iter_types,
                self_iter: in_iter,
                iter_vars: Default::default(),
                used_loops: BTreeSet::new(),
                used_clos: BTreeSet::new(),
                cells: false,
                ncell: 0,
            };
            rw.visit_block_mut(&mut b);
            for k in spec.loops.keys().chain(spec.loop_start.keys()).chain(spec.loop_end.keys()) {
                if *k >= rw.nloop {
                    missing.push(format!("loop {k}"));
                }
            }
            for k in spec.closures.keys().chain(spec.closure_start.keys()).chain(spec.closure_end.keys()) {
                if *k >= rw.nclo {
                    missing.push(format!("closure {k}"));
                }
            }
            loops = rw.nloop;
            closures = rw.nclo;
            let rw_cells = rw.cells;
            // a lazily iterated value of one of the file's own iterator types as result
            if strip_ws(&sig.output).starts_with("->It<") && !in_iter {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
                    fn leaf(e: &Expr, t: &BTreeSet<String>) -> bool {
                        let in_block = |b: &Block| matches!(b.stmts.last(), Some(Stmt::Expr(x, None)) if leaf(x, t));
                        match e {
                            Expr::Struct(s) => t.contains(&s.path.segments.last().unwrap().ident.to_string()),
                            Expr::Call(c) => match &*c.func {
                                Expr::Path(p) => {
                                    let n = p.path.segments.len();
                                    let v = p.path.segments.last().unwrap().ident.to_string();
                                    // an enum variant
                                    n >= 2 && v.starts_with(|c: char| c.is_uppercase()) && t.contains(&p.path.segments[n - 2].ident.to_string())
                                }
                                _ => false,
                            },
                            Expr::Match(m) => m.arms.iter().any(|a| leaf(&a.body, t)),
                            Expr::If(i) => in_block(&i.then_branch) || i.else_branch.as_ref().map_or(false, |(_, x)| leaf(x, t)),
                            Expr::Block(b) => in_block(&b.block),
                            Expr::Paren(p) => leaf(&p.expr, t),
                            _ => false,
                        }
                    }
                    if leaf(e, &self.iter_types) {
                        let x = e.clone();
                        *e = if matches!(x, Expr::Struct(_)) { parse_quote!(#x.vp_drain()) } else { parse_quote!((#x).vp_drain()) };
                    }
                }
            }
            // basis handles become references
            if sig.ident == "basis" && matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Reference(_))) {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
                    let x = e.clone();
                    *e = if let Some(t) = &self.handle_ty { parse_quote!({ let vp_h: #t = #x; vp_h.vp_handle() }) } else if matches!(x, Expr::Reference(_) | Expr::Struct(_)) { parse_quote!((#x).vp_handle()) } else { parse_quote!(#x.vp_handle()) };
                }
            }
            let mut pre = lets;
            if rw_cells {
                pre.push(parse_quote!(let mut vp_now = CellTime::now();));
            }
            if !spec.start.is_empty() {
                let id = LitInt::new(&self.out.raw_id(spec.start.clone()).to_string(), Span::call_site());
                pre.push(parse_quote!(__vp_raw!(#id);));
            }
            pre.extend(std::mem::take(&mut b.stmts));
            if !spec.end.is_empty() {
                let id = LitInt::new(&self.out.raw_id(spec.end.clone()).to_string(), Span::call_site());
                let raw: Stmt = parse_quote!(__vp_raw!(#id););
                match pre.pop() {
                    Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) => {
                        match &sig.output {
                            ReturnType::Type(_, t) => pre.push(parse_quote!(let vp_ret: #t = #e;)),
                            ReturnType::Default => pre.push(parse_quote!(let vp_ret = #e;)),
                        }
                        pre.push(raw);
                        pre.push(Stmt::Expr(parse_quote!(vp_ret), None));
                    }
                    Some(s) => {
                        pre.push(s);
                        pre.push(raw);
                    }
                    None => pre.push(raw),
                }
            }
            b.stmts = pre;
            if !missing.is_empty() {
                status = "lost".into();
                reason = format!("anchor not found: {}", missing.join(", "));
            }
            emitted = Some(b);
        }
        if let Some(r) = self.lost.get(&key) {
            status = "lost".into();
            reason = r.clone();
        }
        if let Some(r) = &spec.trusted {
            status = "trusted".into();
            reason = r.clone();
        }
        if emitted.is_none() {
            status = "declaration".into();
        } else if !has && status == "verified" {
            status = "nocontract".into();
        }
        // emission
        self.out.nl();
        let start = self.out.line();
        let attrs = spec.attrs.clone();
        if !attrs.is_empty() {
            self.out.raw(&attrs);
        }
        if status == "lost" || status == "trusted" {
            self.out.raw("#[verifier::external_body]");
        }
        let wc = sig.generics.where_clause.take();
        let outty = std::mem::replace(&mut sig.output, ReturnType::Default);
        let v = if vis { quote!(pub) } else { quote!() };
        self.out.tokens(quote!(#v #sig));
        if let ReturnType::Type(_, t) = &outty {
            let r = spec.ret.clone().unwrap_or_else(|| "vp_r".to_string());
            let t = t.to_token_stream();
            self.out.tokens(quote!(->));
            self.out.text.push_str(&format!("({r}: "));
            self.out.tokens(t);
            self.out.text.push_str(") ");
        }
        let _ = in_trait;
        if let Some(w) = wc {
            let preds: Vec<_> = w.predicates.iter().collect();
            self.out.tokens(quote!(where #(#preds),* ,));
        }
        if !spec.spec.trim().is_empty() && !self.nospec {
            self.out.raw(&spec.spec);
        }
        match emitted {
            None => self.out.raw(";"),
            Some(b) => {
                if status == "lost" || status == "trusted" {
                    self.out.raw("{ unimplemented!() }");
                } else {
                    self.out.tokens(b.to_token_stream());
                    self.out.nl();
                }
            }
        }
        let end = self.out.line();
        self.recs.push(FnRec {
            key,
            module: self.sp.module.clone(),
            start,
            end,
            src: self.sp.source.clone(),
            src_line,
            src_end,
            status,
            reason,
            contract: has,
            loops,
            closures,
            calls: calls.0.into_iter().collect(),
            body_hash: bh,
            shape,
        });
    }
}

/// The control skeleton of a body: which kinds of control nodes, in source order.
struct Shape(String);
impl<'a> Visit<'a> for Shape {
    fn visit_expr(&mut self, e: &'a Expr) {
        let c = match e {
            Expr::Loop(_) => "L",
            Expr::While(_) => "W",
            Expr::ForLoop(_) => "F",
            Expr::If(_) => "I",
            Expr::Match(_) => "M",
            Expr::Closure(_) => "C",
            Expr::Return(_) => "R",
            Expr::Break(_) => "B",
            Expr::Continue(_) => "K",
            Expr::Try(_) => "T",
            _ => "",
        };
        self.0.push_str(c);
        visit::visit_expr(self, e);
        if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
            self.0.push(';');
        }
    }
}
