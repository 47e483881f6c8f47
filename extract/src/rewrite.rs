//! The rewriting rules (syntactic, applied to every function alike).
use crate::contracts::FnSpec;
use crate::print::Out;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy)]
pub struct Ctx<'a> {
    pub macros: &'a BTreeMap<String, ItemMacro>,
    pub cow_fields: &'a BTreeSet<String>,
}

/// ghost state added to a struct: the declaration and every literal of it get the ghost fields
pub struct GhostFieldRw<'a> {
    pub fields: &'a [(String, String, String, String)],
    pub here: Vec<String>,
}
impl VisitMut for GhostFieldRw<'_> {
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        for (n, f, t, _) in self.fields {
            if s.ident == n {
                if let Fields::Named(nf) = &mut s.fields {
                    let f = Ident::new(f, Span::call_site());
                    let t: Type = parse_str(t).unwrap();
                    nf.named.push(parse_quote!(#f: Ghost<#t>));
                }
            }
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let n = match &*i.self_ty {
            Type::Path(p) => last_seg(&p.path),
            _ => String::new(),
        };
        self.here.push(n);
        visit_mut::visit_item_impl_mut(self, i);
        self.here.pop();
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, e);
        let mut n = last_seg(&e.path);
        if n == "Self" {
            n = self.here.last().cloned().unwrap_or_default();
        }
        if e.rest.is_some() {
            return;
        }
        for (s, f, _, i) in self.fields {
            if *s == n {
                let f = Ident::new(f, Span::call_site());
                let i: Expr = parse_str(i).unwrap();
                e.fields.push(parse_quote!(#f: Ghost(#i)));
            }
        }
    }
}

/// `let p: *const _ = &x; let q = p.cast(); unsafe { &*q }`: the pointers are the references they come from, and the
/// dereference is `vp_cast_ref`. True if there was one.
pub fn unptr(b: &mut Block) -> bool {
    struct P {
        ptrs: BTreeSet<String>,
        hit: bool,
    }
    impl P {
        fn is_ptr(&self, e: &Expr) -> bool {
            match paren_strip(e) {
                Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.ptrs.contains(&i.to_string())),
                Expr::MethodCall(m) => m.method == "cast" && m.args.is_empty() && self.is_ptr(&m.receiver),
                Expr::Cast(c) => matches!(&*c.ty, Type::Ptr(_)),
                _ => false,
            }
        }
    }
    fn base(e: &Expr) -> Expr {
        match paren_strip(e) {
            Expr::MethodCall(m) if m.method == "cast" => base(&m.receiver),
            Expr::Cast(c) => base(&c.expr),
            x => x.clone(),
        }
    }
    impl VisitMut for P {
        fn visit_local_mut(&mut self, l: &mut Local) {
            visit_mut::visit_local_mut(self, l);
            let mut ptr = false;
            if let Pat::Type(t) = &l.pat {
                if let Type::Ptr(p) = &*t.ty {
                    if p.const_token.is_some() {
                        l.pat = (*t.pat).clone();
                        ptr = true;
                    }
                }
            }
            if let Some(i) = &mut l.init {
                if self.is_ptr(&i.expr) {
                    *i.expr = base(&i.expr);
                    ptr = true;
                }
            }
            if let (true, Pat::Ident(i)) = (ptr, &l.pat) {
                self.ptrs.insert(i.ident.to_string());
            }
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Reference(r) = e {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = paren_strip(&r.expr) {
                    if r.mutability.is_none() && self.is_ptr(expr) {
                        let x = base(expr);
                        *e = parse_quote!(vp_cast_ref(#x));
                        self.hit = true;
                    }
                }
            }
        }
    }
    let mut p = P { ptrs: BTreeSet::new(), hit: false };
    p.visit_block_mut(b);
    p.hit
}

pub fn strip_ws(ts: impl ToTokens) -> String {
    ts.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// last two segments joined with ::
fn last2(p: &Path) -> String {
    let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if v.len() >= 2 {
        format!("{}::{}", v[v.len() - 2], v[v.len() - 1])
    } else {
        v.join("::")
    }
}

// ---------------------------------------------------------------- types

pub struct TypeRw;

fn item_of_bounds<'a>(bounds: impl Iterator<Item = &'a TypeParamBound>) -> Option<Type> {
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last().unwrap();
            if l.ident == "Iterator" || l.ident == "IntoIterator" || l.ident == "DoubleEndedIterator" || l.ident == "ExactSizeIterator" {
                if let PathArguments::AngleBracketed(ab) = &l.arguments {
                    for a in &ab.args {
                        if let GenericArgument::AssocType(at) = a {
                            if at.ident == "Item" {
                                return Some(at.ty.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

fn drop_bound(b: &TypeParamBound) -> bool {
    match b {
        TypeParamBound::Trait(t) => {
            let l = last_seg(&t.path);
            l == "Hash" || l == "Debug"
        }
        _ => false,
    }
}

fn filter_bounds(b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
    let v: Vec<TypeParamBound> = b.iter().filter(|x| !drop_bound(x)).cloned().collect();
    *b = v.into_iter().collect();
}

impl VisitMut for TypeRw {
    fn visit_type_mut(&mut self, t: &mut Type) {
        // iterator types first: their bounds would otherwise be rewritten as trait bounds
        let item = match &*t {
            Type::ImplTrait(i) => item_of_bounds(i.bounds.iter()),
            Type::Path(p) => match (p.path.segments.last().map(|s| (s.ident == "Box", &s.arguments))) {
                Some((true, PathArguments::AngleBracketed(ab))) => match ab.args.first() {
                    Some(GenericArgument::Type(Type::TraitObject(o))) => item_of_bounds(o.bounds.iter()),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some(mut x) = item {
            self.visit_type_mut(&mut x);
            *t = parse_quote!(It<#x>);
            return;
        }
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::ImplTrait(i) => {
                if let Some(x) = item_of_bounds(i.bounds.iter()) {
                    *t = parse_quote!(It<#x>);
                } else {
                    // `impl Trait + 'a` in argument position: drop the lifetime bound
                    let v: Vec<TypeParamBound> =
                        i.bounds.iter().filter(|b| !matches!(b, TypeParamBound::Lifetime(_))).cloned().collect();
                    i.bounds = v.into_iter().collect();
                }
            }
            Type::Path(p) => {
                let l = p.path.segments.last().unwrap().clone();
                if l.ident == "Box" {
                    if let PathArguments::AngleBracketed(ab) = &l.arguments {
                        if let Some(GenericArgument::Type(Type::TraitObject(o))) = ab.args.first() {
                            if let Some(x) = item_of_bounds(o.bounds.iter()) {
                                *t = parse_quote!(It<#x>);
                                return;
                            }
                        }
                    }
                }
                // generic associated reference type -> plain reference to the target
                if l.ident == "BasisRef" {
                    if let PathArguments::AngleBracketed(ab) = &l.arguments {
                        if let Some(GenericArgument::Lifetime(lt)) = ab.args.first() {
                            let lt = lt.clone();
                            let mut q = p.clone();
                            let s = q.path.segments.last_mut().unwrap();
                            s.ident = Ident::new("BasisT", Span::call_site());
                            s.arguments = PathArguments::None;
                            if lt.ident == "_" {
                                *t = parse_quote!(&#q);
                            } else {
                                *t = parse_quote!(&#lt #q);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        visit_mut::visit_generics_mut(self, g);
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                filter_bounds(&mut t.bounds);
                if t.bounds.is_empty() {
                    t.colon_token = None;
                }
            }
        }
        if let Some(w) = &mut g.where_clause {
            let v: Vec<WherePredicate> = w
                .predicates
                .iter()
                .filter_map(|p| {
                    let mut p = p.clone();
                    if let WherePredicate::Type(t) = &mut p {
                        let had = !t.bounds.is_empty();
                        let v: Vec<TypeParamBound> = t
                            .bounds
                            .iter()
                            .filter(|b| !matches!(b, TypeParamBound::Lifetime(_)))
                            .cloned()
                            .collect();
                        t.bounds = v.into_iter().collect();
                        filter_bounds(&mut t.bounds);
                        if had && t.bounds.is_empty() {
                            return None;
                        }
                    }
                    Some(p)
                })
                .collect();
            if v.is_empty() {
                g.where_clause = None;
            } else {
                w.predicates = v.into_iter().collect();
            }
        }
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        // `Iterator<Item = X>` as a bound -> VIter<X>
        let l = b.path.segments.last().unwrap().clone();
        if l.ident == "Iterator" || l.ident == "IntoIterator" {
            let tp = TypeParamBound::Trait(b.clone());
            if let Some(x) = item_of_bounds(std::iter::once(&tp)) {
                b.path = if l.ident == "Iterator" { parse_quote!(VNext<#x>) } else { parse_quote!(VIter<#x>) };
            }
        }
    }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
        let v: Vec<GenericArgument> = a
            .args
            .iter()
            .filter_map(|g| {
                let mut g = g.clone();
                if let GenericArgument::Constraint(c) = &mut g {
                    filter_bounds(&mut c.bounds);
                    if c.bounds.is_empty() {
                        return None;
                    }
                }
                Some(g)
            })
            .collect();
        a.args = v.into_iter().collect();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        for s in p.segments.iter_mut() {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if a.args.is_empty() {
                    s.arguments = PathArguments::None;
                }
            }
        }
        // std paths of modelled types
        if p.segments.len() >= 2 {
            let f = p.segments[0].ident.to_string();
            if f == "std" {
                p.segments[0].ident = Ident::new("core", Span::call_site());
            }
        }
    }
}

// ---------------------------------------------------------------- macros

/// Expand a single-arm macro_rules macro whose matcher is a comma-separated list of `$x:frag`.
pub fn expand_macro(def: &ItemMacro, args: TokenStream) -> Option<TokenStream> {
    let body: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
    let TokenTree::Group(pat) = &body[0] else { return None };
    let TokenTree::Group(rhs) = body.iter().skip(1).find(|t| matches!(t, TokenTree::Group(_)))? else { return None };
    // only one arm
    if body.iter().filter(|t| matches!(t, TokenTree::Group(_))).count() != 2 {
        return None;
    }
    let p: Vec<TokenTree> = pat.stream().into_iter().collect();
    let mut names = vec![];
    let mut i = 0;
    while i < p.len() {
        match &p[i] {
            TokenTree::Punct(d) if d.as_char() == '$' => {
                if let TokenTree::Ident(n) = p.get(i + 1)? {
                    names.push(n.to_string());
                    i += 4;
                } else {
                    return None;
                }
            }
            TokenTree::Punct(c) if c.as_char() == ',' => i += 1,
            _ => return None,
        }
    }
    // split args at top-level commas
    let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
    for t in args {
        match &t {
            TokenTree::Punct(c) if c.as_char() == ',' => parts.push(TokenStream::new()),
            _ => parts.last_mut().unwrap().extend(std::iter::once(t)),
        }
    }
    if parts.last().map_or(false, |p| p.is_empty()) && parts.len() > names.len() {
        parts.pop();
    }
    if parts.len() != names.len() {
        return None;
    }
    let map: BTreeMap<String, TokenStream> = names.into_iter().zip(parts).collect();
    fn subst(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if let TokenTree::Punct(d) = &v[i] {
                if d.as_char() == '$' {
                    if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                        if let Some(r) = map.get(&n.to_string()) {
                            out.extend(r.clone());
                            i += 2;
                            continue;
                        }
                    }
                }
            }
            if let TokenTree::Group(g) = &v[i] {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), map));
                ng.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(ng)));
            } else {
                out.extend(std::iter::once(v[i].clone()));
            }
            i += 1;
        }
        out
    }
    // `{{ ... }}` bodies: the outer group is the arm body
    Some(subst(rhs.stream(), &map))
}

pub struct MacroExp<'a>(pub Ctx<'a>);
impl VisitMut for MacroExp<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(def) = self.0.macros.get(&last_seg(&m.mac.path)) {
                if let Some(ts) = expand_macro(def, m.mac.tokens.clone()) {
                    if let Ok(x) = syn::parse2::<Expr>(ts) {
                        *e = x;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // `recv.flat_map(..)` parsed from a macro body block `{ expr }`
        if let Expr::Block(b) = e {
            if b.attrs.is_empty() && b.label.is_none() && b.block.stmts.len() == 1 {
                if let Stmt::Expr(x, None) = &b.block.stmts[0] {
                    if matches!(x, Expr::MethodCall(_)) {
                        *e = x.clone();
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- anchors

fn vpn(n: &str, k: usize) -> Attribute {
    parse_quote!(#[vpn(#n, #k)])
}
fn get_vpn(a: &[Attribute]) -> Option<(String, usize)> {
    for x in a {
        if x.path().is_ident("vpn") {
            if let Meta::List(l) = &x.meta {
                let v: Vec<TokenTree> = l.tokens.clone().into_iter().collect();
                let n = v[0].to_string().trim_matches('"').to_string();
                let k = v[2].to_string().trim_end_matches("usize").parse().unwrap();
                return Some((n, k));
            }
        }
    }
    None
}

#[derive(Default)]
pub struct Number {
    pub c: BTreeMap<String, usize>,
    pub loops: usize,
    pub closures: usize,
}
impl Number {
    fn next(&mut self, n: &str) -> Attribute {
        let k = self.c.entry(n.to_string()).or_insert(0);
        let a = vpn(n, *k);
        *k += 1;
        a
    }
}
impl VisitMut for Number {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => {
                let a = self.next(&m.method.to_string());
                m.attrs.push(a);
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = last_seg(&p.path);
                    let a = self.next(&n);
                    c.attrs.push(a);
                }
            }
            Expr::Return(r) => r.attrs.push(self.next("return")),
            Expr::Break(r) => r.attrs.push(self.next("break")),
            Expr::Continue(r) => r.attrs.push(self.next("continue")),
            Expr::Try(r) => r.attrs.push(self.next("try")),
            Expr::Assign(r) => {
                let a = self.next("assign");
                r.attrs.push(a)
            }
            Expr::Loop(r) => {
                r.attrs.push(self.next("loop"));
                self.loops += 1;
            }
            Expr::While(r) => {
                r.attrs.push(self.next("loop"));
                self.loops += 1;
            }
            Expr::ForLoop(r) => {
                r.attrs.push(self.next("loop"));
                self.loops += 1;
            }
            Expr::If(r) => r.attrs.push(self.next("if")),
            Expr::Match(r) => r.attrs.push(self.next("match")),
            Expr::Closure(r) => {
                r.attrs.push(self.next("closure"));
                self.closures += 1;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct OwnAnchors(Vec<(String, usize)>);
impl<'a> Visit<'a> for OwnAnchors {
    fn visit_block(&mut self, _b: &'a Block) {}
    fn visit_attribute(&mut self, a: &'a Attribute) {
        if let Some(x) = get_vpn(std::slice::from_ref(a)) {
            self.0.push(x);
        }
    }
}

fn pat_names(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    V(out).visit_pat(p);
}

/// Inserts the @before/@after texts.
pub struct Anchors<'a> {
    pub spec: &'a FnSpec,
    pub out: &'a mut Out,
    pub used: BTreeSet<(bool, String, usize)>,
    pub lets: BTreeMap<String, usize>,
}
fn raw_stmt(id: usize) -> Stmt {
    parse_quote!(__vp_raw!(#id);)
}
fn raw_stmt_u(id: usize) -> Stmt {
    let l = LitInt::new(&id.to_string(), Span::call_site());
    parse_quote!(__vp_raw!(#l);)
}
impl VisitMut for Anchors<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let _ = raw_stmt;
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        let mut new = vec![];
        for (i, mut s) in old.into_iter().enumerate() {
            let mut own = OwnAnchors(vec![]);
            own.visit_stmt(&s);
            let mut keys = own.0;
            if let Stmt::Local(l) = &s {
                let mut names = vec![];
                pat_names(&l.pat, &mut names);
                for nm in names {
                    let k = self.lets.entry(nm.clone()).or_insert(0);
                    keys.push((format!("let:{nm}"), *k));
                    *k += 1;
                }
            }
            let mut post = vec![];
            for k in &keys {
                if let Some(t) = self.spec.before.get(k) {
                    if self.used.insert((true, k.0.clone(), k.1)) {
                        let id = self.out.raw_id(t.clone());
                        new.push(raw_stmt_u(id));
                    }
                }
                if let Some(t) = self.spec.after.get(k) {
                    if self.used.insert((false, k.0.clone(), k.1)) {
                        let id = self.out.raw_id(t.clone());
                        post.push(raw_stmt_u(id));
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            if !post.is_empty() && i + 1 == n {
                if let Stmt::Expr(e, None) = &s {
                    let unit = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
                    if unit {
                        new.push(Stmt::Expr(e.clone(), None));
                        new.extend(post);
                    } else {
                        new.push(parse_quote!(let vp_ret = #e;));
                        new.extend(post);
                        new.push(Stmt::Expr(parse_quote!(vp_ret), None));
                    }
                    continue;
                }
            }
            new.push(s);
            new.extend(post);
        }
        b.stmts = new;
    }
}

// ---------------------------------------------------------------- bodies

pub struct BodyRw<'a> {
    pub ctx: Ctx<'a>,
    pub spec: &'a FnSpec,
    pub out: &'a mut Out,
    pub nloop: usize,
    pub nclo: usize,
    pub npat: usize,
    pub iter_types: &'a BTreeSet<String>,
    pub self_iter: bool,
    /// locals bound to a value of a local iterator type
    pub iter_vars: BTreeSet<String>,
    pub used_loops: BTreeSet<usize>,
    pub used_clos: BTreeSet<usize>,
    pub cells: bool,
    pub ncell: usize,
}

fn lit(id: usize) -> LitInt {
    LitInt::new(&id.to_string(), Span::call_site())
}

fn is_simple_pat(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.subpat.is_none(),
        Pat::Type(t) => is_simple_pat(&t.pat),
        Pat::Wild(_) => false,
        _ => false,
    }
}

fn paren_strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => paren_strip(&p.expr),
        Expr::Group(p) => paren_strip(&p.expr),
        _ => e,
    }
}

/// `continue` in a `for` loop, where it ends a branch: the statements after the branch become its alternative.
fn is_continue(s: Option<&Stmt>, label: &Option<Lifetime>) -> bool {
    match s {
        Some(Stmt::Expr(Expr::Continue(c), _)) => c.label.is_none() || c.label == *label,
        _ => false,
    }
}
/// Is there a `continue` of this loop anywhere in the statement?
fn has_continue(s: &Stmt, label: &Option<Lifetime>) -> bool {
    struct H<'a>(&'a Option<Lifetime>, usize, bool);
    impl<'ast> Visit<'ast> for H<'_> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Continue(c) => {
                    if (c.label.is_none() && self.1 == 0) || (c.label.is_some() && c.label == *self.0) {
                        self.2 = true;
                    }
                }
                Expr::Closure(_) => {}
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                    self.1 += 1;
                    syn::visit::visit_expr(self, e);
                    self.1 -= 1;
                }
                _ => syn::visit::visit_expr(self, e),
            }
        }
        fn visit_item(&mut self, _: &'ast Item) {}
    }
    let mut h = H(label, 0, false);
    h.visit_stmt(s);
    h.2
}
/// General case: `continue` raises a flag and the statements after it run only while it is down.
fn flag_continue(stmts: Vec<Stmt>, label: &Option<Lifetime>, flag: &Ident) -> Vec<Stmt> {
    fn in_expr(e: &mut Expr, label: &Option<Lifetime>, flag: &Ident) {
        match e {
            Expr::Continue(c) if c.label.is_none() || c.label == *label => *e = parse_quote!({ #flag = true; }),
            Expr::If(i) => {
                i.then_branch.stmts = flag_continue(std::mem::take(&mut i.then_branch.stmts), label, flag);
                if let Some((_, x)) = &mut i.else_branch {
                    in_expr(x, label, flag);
                }
            }
            Expr::Block(b) if b.label.is_none() => b.block.stmts = flag_continue(std::mem::take(&mut b.block.stmts), label, flag),
            Expr::Match(m) => {
                for a in &mut m.arms {
                    in_expr(&mut a.body, label, flag);
                }
            }
            _ => {}
        }
    }
    let mut out: Vec<Stmt> = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if !has_continue(&s, label) {
            out.push(s);
            continue;
        }
        match s {
            Stmt::Expr(Expr::Continue(_), _) => {
                out.push(parse_quote!(#flag = true;));
                return out;
            }
            Stmt::Expr(mut e, _) => {
                in_expr(&mut e, label, flag);
                let block_like = matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_));
                out.push(Stmt::Expr(e, if block_like { None } else { Some(Default::default()) }));
                let rest = flag_continue(it.collect(), label, flag);
                if !rest.is_empty() {
                    out.push(Stmt::Expr(parse_quote!(if !#flag { #(#rest)* }), None));
                }
                return out;
            }
            Stmt::Local(l) => {
                // `let P = match X { .. => v, .. => continue };`: the rest moves into the other arm
                if let Some(init) = &l.init {
                    if let (None, Expr::Match(m)) = (&init.diverge, &*init.expr) {
                        let is_c = |a: &Arm| match &*a.body {
                            Expr::Continue(_) => true,
                            Expr::Block(b) => is_continue(b.block.stmts.last(), label),
                            _ => false,
                        };
                        let rest: Vec<&Arm> = m.arms.iter().filter(|a| !is_c(a)).collect();
                        if rest.len() == 1 && !has_continue(&Stmt::Expr((*rest[0].body).clone(), None), label) {
                            let mut m = m.clone();
                            let tail = flag_continue(it.collect(), label, flag);
                            let p = &l.pat;
                            for a in &mut m.arms {
                                if is_c(a) {
                                    in_expr(&mut a.body, label, flag);
                                } else {
                                    let v = &a.body;
                                    *a.body = parse_quote!({ let #p = #v; #(#tail)* });
                                }
                            }
                            out.push(Stmt::Expr(Expr::Match(m), None));
                            return out;
                        }
                    }
                    if let Some((_, d)) = &init.diverge {
                        let mut d = (**d).clone();
                        in_expr(&mut d, label, flag);
                        let (p, x) = (&l.pat, &init.expr);
                        let tail = flag_continue(it.collect(), label, flag);
                        out.push(Stmt::Expr(parse_quote!(if let #p = #x { #(#tail)* } else #d), None));
                        return out;
                    }
                }
                out.push(Stmt::Local(l));
            }
            o => out.push(o),
        }
    }
    out
}
fn drop_continue(stmts: Vec<Stmt>, label: &Option<Lifetime>) -> Vec<Stmt> {
    let mut out: Vec<Stmt> = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if has_continue(&s, label) {
            // simple shapes below; anything else through a flag
            let simple = match &s {
                Stmt::Expr(Expr::Continue(_), _) => true,
                Stmt::Expr(Expr::If(i), _) => {
                    let n = i.then_branch.stmts.len();
                    let mut inner: Vec<&Stmt> = i.then_branch.stmts.iter().enumerate().filter(|(k, x)| !(k + 1 == n && is_continue(Some(x), label))).map(|x| x.1).collect();
                    let mut ok = true;
                    if let Some((_, x)) = &i.else_branch {
                        match &**x {
                            Expr::Block(b) => {
                                let n = b.block.stmts.len();
                                inner.extend(b.block.stmts.iter().enumerate().filter(|(k, x)| !(k + 1 == n && is_continue(Some(x), label))).map(|x| x.1));
                            }
                            o => ok = !has_continue(&Stmt::Expr(o.clone(), None), label),
                        }
                    }
                    ok && !inner.iter().any(|x| has_continue(x, label))
                }
                Stmt::Local(l) => match l.init.as_ref().and_then(|i| i.diverge.as_ref()) {
                    Some((_, x)) => match &**x {
                        Expr::Block(b) => {
                            let n = b.block.stmts.len();
                            is_continue(b.block.stmts.last(), label) && !b.block.stmts[..n - 1].iter().any(|x| has_continue(x, label))
                        }
                        _ => false,
                    },
                    None => false,
                },
                _ => false,
            };
            if !simple {
                let flag = Ident::new("vp_skip", Span::call_site());
                let mut all = vec![s];
                all.extend(it);
                out.push(parse_quote!(let mut #flag = false;));
                out.extend(flag_continue(all, label, &flag));
                return out;
            }
        }
        match s {
            Stmt::Expr(Expr::Continue(c), semi) => {
                if is_continue(Some(&Stmt::Expr(Expr::Continue(c.clone()), semi)), label) {
                    return out;
                }
                out.push(Stmt::Expr(Expr::Continue(c), semi));
            }
            Stmt::Expr(Expr::If(mut i), semi) => {
                let t = is_continue(i.then_branch.stmts.last(), label);
                let e = match &i.else_branch {
                    Some((_, x)) => match &**x {
                        Expr::Block(b) => is_continue(b.block.stmts.last(), label),
                        _ => false,
                    },
                    None => false,
                };
                if !t && !e {
                    out.push(Stmt::Expr(Expr::If(i), semi));
                    continue;
                }
                let rest = drop_continue(it.by_ref().collect(), label);
                if t {
                    i.then_branch.stmts.pop();
                    let mut els: Vec<Stmt> = match i.else_branch.take() {
                        Some((_, x)) => match *x {
                            Expr::Block(b) => b.block.stmts,
                            o => vec![Stmt::Expr(o, None)],
                        },
                        None => vec![],
                    };
                    if e {
                        els.pop();
                    }
                    if let Some(Stmt::Expr(_, semi @ None)) = els.last_mut() {
                        *semi = Some(Default::default());
                    }
                    if !e {
                        els.extend(rest);
                    }
                    i.else_branch = Some((Default::default(), parse_quote!({ #(#els)* })));
                } else {
                    if let Some((_, x)) = &mut i.else_branch {
                        if let Expr::Block(b) = &mut **x {
                            b.block.stmts.pop();
                        }
                    }
                    if let Some(Stmt::Expr(_, semi @ None)) = i.then_branch.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    i.then_branch.stmts.extend(rest);
                }
                out.push(Stmt::Expr(Expr::If(i), None));
                return out;
            }
            Stmt::Local(l) => {
                let div = l.init.as_ref().and_then(|i| i.diverge.as_ref()).and_then(|(_, x)| match &**x {
                    Expr::Block(b) if is_continue(b.block.stmts.last(), label) => Some(b.block.stmts.clone()),
                    _ => None,
                });
                match div {
                    Some(mut els) => {
                        els.pop();
                        let p = &l.pat;
                        let x = &l.init.as_ref().unwrap().expr;
                        let rest = drop_continue(it.by_ref().collect(), label);
                        out.push(Stmt::Expr(parse_quote!(if let #p = #x { #(#rest)* } else { #(#els)* }), None));
                        return out;
                    }
                    None => out.push(Stmt::Local(l)),
                }
            }
            o => out.push(o),
        }
    }
    out
}

impl BodyRw<'_> {
    fn range(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::Range(r) = paren_strip(e) {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                let f = match r.limits {
                    RangeLimits::HalfOpen(_) => Ident::new("vp_range", Span::call_site()),
                    RangeLimits::Closed(_) => Ident::new("vp_range_incl", Span::call_site()),
                };
                return Some(parse_quote!(#f(#a, #b)));
            }
        }
        None
    }
    fn loop_hdr(&mut self, b: &mut Block, n: usize) {
        let mut pre: Vec<Stmt> = vec![];
        if let Some(t) = self.spec.loops.get(&n) {
            self.used_loops.insert(n);
            let id = lit(self.out.raw_id(t.clone()));
            pre.push(parse_quote!(__vp_hdr!(#id);));
        }
        if let Some(t) = self.spec.loop_start.get(&n) {
            let id = lit(self.out.raw_id(t.clone()));
            pre.push(parse_quote!(__vp_raw!(#id);));
        }
        let mut rest = std::mem::take(&mut b.stmts);
        if let Some(t) = self.spec.loop_end.get(&n) {
            if let Some(Stmt::Expr(e, semi @ None)) = rest.last_mut() {
                let _ = e;
                *semi = Some(Default::default());
            }
            let id = lit(self.out.raw_id(t.clone()));
            rest.push(parse_quote!(__vp_raw!(#id);));
        }
        pre.extend(rest);
        b.stmts = pre;
    }
    fn is_iter_value(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.iter_vars.contains(&i.to_string())),
            Expr::Struct(s) => self.iter_types.contains(&last_seg(&s.path)) || (s.path.segments.len() == 2 && self.iter_types.contains(&s.path.segments[0].ident.to_string())),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.len() >= 2 {
                        let t = &p.path.segments[p.path.segments.len() - 2];
                        return self.iter_types.contains(&t.ident.to_string());
                    }
                }
                false
            }
            _ => false,
        }
    }
}

impl VisitMut for BodyRw<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        TypeRw.visit_type_mut(t);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            if self.is_iter_value(paren_strip(&init.expr)) {
                self.iter_vars.insert(p.ident.to_string());
            } else {
                self.iter_vars.remove(&p.ident.to_string());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        TypeRw.visit_path_mut(p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ordinals in source (pre-)order
        let ord_loop = match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.nloop += 1;
                self.nloop - 1
            }
            _ => 0,
        };
        let ord_clo = if let Expr::Closure(_) = e {
            self.nclo += 1;
            self.nclo - 1
        } else {
            0
        };
        let for_range = if let Expr::ForLoop(f) = e { matches!(paren_strip(&f.expr), Expr::Range(_)) } else { false };
        let for_expr_fixed = if let Expr::ForLoop(f) = e { if for_range { if let Expr::Range(r) = paren_strip(&f.expr) { Some(r.clone()) } else { None } } else { None } } else { None };
        // do not rewrite slice indices `[a..b]` / `[..]`
        if let Expr::Index(ix) = e {
            if matches!(&*ix.index, Expr::Range(_)) {
                visit_mut::visit_expr_mut(self, &mut ix.expr);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            // the two float constants the library uses
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    if f.base10_parse::<f64>().map_or(false, |x| x == 0.0) {
                        *e = parse_quote!(vp_f64_zero());
                    }
                }
            }
            Expr::Cast(c) if strip_ws(&c.ty) == "f64" && strip_ws(&c.expr) == "0" => *e = parse_quote!(vp_f64_zero()),
            Expr::Path(p) if last2(&p.path) == "f64::INFINITY" => *e = parse_quote!(vp_f64_inf()),
            // comparison of a float with one of them
            Expr::Binary(b) if is_float_const(&b.left) || is_float_const(&b.right) => {
                let (x, y) = (&b.left, &b.right);
                match b.op {
                    BinOp::Lt(_) => *e = parse_quote!(vp_f64_lt(#x, #y)),
                    BinOp::Gt(_) => *e = parse_quote!(vp_f64_lt(#y, #x)),
                    BinOp::Le(_) => *e = parse_quote!(vp_f64_le(#x, #y)),
                    BinOp::Ge(_) => *e = parse_quote!(vp_f64_le(#y, #x)),
                    BinOp::Eq(_) => *e = parse_quote!(vp_f64_eq(#x, #y)),
                    BinOp::Ne(_) => *e = parse_quote!(!vp_f64_eq(#x, #y)),
                    _ => {}
                }
            }
            Expr::Unsafe(u) => {
                let b = &u.block;
                if b.stmts.len() == 1 {
                    if let Stmt::Expr(x, None) = &b.stmts[0] {
                        *e = x.clone();
                        return;
                    }
                }
                *e = parse_quote!(#b);
            }
            Expr::Macro(m) => {
                let n = last_seg(&m.mac.path);
                match n.as_str() {
                    "panic" | "unreachable" | "todo" | "unimplemented" => *e = parse_quote!(vp_panic()),
                    "assert" | "debug_assert" => {
                        let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                        let mut first = TokenStream::new();
                        for t in ts {
                            if let TokenTree::Punct(p) = &t {
                                if p.as_char() == ',' {
                                    break;
                                }
                            }
                            first.extend(std::iter::once(t));
                        }
                        if let Ok(mut x) = syn::parse2::<Expr>(first) {
                            self.visit_expr_mut(&mut x);
                            *e = parse_quote!(vp_assert(#x));
                        }
                    }
                    "vec" => {
                        // vec![x; n] and vec![a, b, ..]
                        let p = m.mac.clone();
                        let rep = p.parse_body_with(|i: parse::ParseStream| {
                            let a: Expr = i.parse()?;
                            let _: Token![;] = i.parse()?;
                            let n: Expr = i.parse()?;
                            Ok((a, n))
                        });
                        if let Ok((mut a, mut n)) = rep {
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut n);
                            *e = parse_quote!(vp_vec_repeat(#a, #n));
                        } else if let Ok(list) = p.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                            let mut list: Vec<Expr> = list.into_iter().collect();
                            for x in list.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            *e = match list.len() {
                                0 => parse_quote!(Vec::new()),
                                1 => { let a = &list[0]; parse_quote!(vp_vec1(#a)) }
                                2 => { let a = &list[0]; let b = &list[1]; parse_quote!(vp_vec2(#a, #b)) }
                                _ => return,
                            };
                        }
                    }
                    _ => {}
                }
            }
            Expr::Loop(l) => self.loop_hdr(&mut l.body, ord_loop),
            Expr::While(l) => self.loop_hdr(&mut l.body, ord_loop),
            Expr::ForLoop(f) => {
                let lab = f.label.as_ref().map(|l| l.name.clone());
                f.body.stmts = drop_continue(std::mem::take(&mut f.body.stmts), &lab);
                if let Some(mut r) = for_expr_fixed {
                    // keep the native range
                    if let Some(x) = &mut r.start { self.visit_expr_mut(x); }
                    if let Some(x) = &mut r.end { self.visit_expr_mut(x); }
                    f.expr = Box::new(Expr::Range(r));
                } else {
                    let x = &f.expr;
                    f.expr = parse_quote!(vp_into_vec(#x));
                }
                // name the ghost iterator: printed as `for p in vpitN: e`
                let nm = format!("vpit{ord_loop}:");
                let id = lit(self.out.raw_id(nm));
                let inner = &f.expr;
                f.expr = Box::new(Expr::Verbatim(quote!(__vp_inl!(#id) #inner)));
                if !is_simple_pat(&f.pat) {
                    let p = f.pat.clone();
                    let v = Ident::new(&format!("vpf{ord_loop}"), Span::call_site());
                    f.pat = parse_quote!(#v);
                    if !matches!(*p, Pat::Wild(_)) {
                        f.body.stmts.insert(0, parse_quote!(let #p = #v;));
                    }
                }
                self.loop_hdr(&mut f.body, ord_loop);
            }
            Expr::Closure(c) => {
                let mut lets: Vec<Stmt> = vec![];
                for (k, inp) in c.inputs.iter_mut().enumerate() {
                    if !is_simple_pat(inp) {
                        let v = Ident::new(&format!("vpa{}_{}", ord_clo, k), Span::call_site());
                        match inp.clone() {
                            Pat::Wild(_) => *inp = parse_quote!(#v),
                            // `|&i|` on a shared reference to a Copy value
                            Pat::Reference(r) => {
                                let p = r.pat;
                                *inp = parse_quote!(#v);
                                lets.push(parse_quote!(let #p = *#v;));
                            }
                            Pat::Type(t) => {
                                let (p, ty) = (t.pat, t.ty);
                                *inp = Pat::Type(parse_quote!(#v: #ty));
                                lets.push(parse_quote!(let #p = #v;));
                            }
                            p => {
                                *inp = parse_quote!(#v);
                                lets.push(parse_quote!(let #p = #v;));
                            }
                        }
                    }
                }
                if let Some(t) = self.spec.closure_params.get(&ord_clo) {
                    if let Ok(p) = syn::parse::Parser::parse_str(punctuated::Punctuated::<FnArg, Token![,]>::parse_terminated, t) {
                        fn name(p: &Pat) -> Option<(Ident, bool)> {
                            match p {
                                Pat::Ident(i) => Some((i.ident.clone(), i.mutability.is_some())),
                                Pat::Type(t) => name(&t.pat),
                                _ => None,
                            }
                        }
                        let orig: Vec<_> = c.inputs.iter().map(name).collect();
                        for (o, n) in orig.iter().zip(p.iter()) {
                            if let (Some((o, m)), FnArg::Typed(t)) = (o, n) {
                                if let Some((n, _)) = name(&t.pat) {
                                    if *o != n {
                                        lets.insert(0, if *m { parse_quote!(let mut #o = #n;) } else { parse_quote!(let #o = #n;) });
                                    }
                                }
                            }
                        }
                        c.inputs = p
                            .into_iter()
                            .map(|a| match a {
                                FnArg::Typed(t) => Pat::Type(t),
                                _ => unreachable!(),
                            })
                            .collect();
                    }
                }
                let body = c.body.clone();
                let mut blk: Block = match *body {
                    Expr::Block(b) if b.label.is_none() => b.block,
                    b => parse_quote!({ #b }),
                };
                let mut stmts = lets;
                if let Some(t) = self.spec.closure_start.get(&ord_clo) {
                    let id = lit(self.out.raw_id(t.clone()));
                    stmts.push(parse_quote!(__vp_raw!(#id);));
                }
                stmts.extend(blk.stmts);
                if let Some(t) = self.spec.closure_end.get(&ord_clo) {
                    let id = lit(self.out.raw_id(t.clone()));
                    if let Some(Stmt::Expr(x, None)) = stmts.last().cloned() {
                        stmts.pop();
                        let ty = self.spec.closures.get(&ord_clo).and_then(|(r, _)| r.split_once(':')).and_then(|(_, t)| syn::parse_str::<Type>(t.trim()).ok());
                        match ty {
                            Some(ty) => stmts.push(parse_quote!(let vp_ret: #ty = #x;)),
                            None => stmts.push(parse_quote!(let vp_ret = #x;)),
                        }
                        stmts.push(parse_quote!(__vp_raw!(#id);));
                        stmts.push(Stmt::Expr(parse_quote!(vp_ret), None));
                    }
                }
                blk.stmts = stmts;
                if let Some((r, t)) = self.spec.closures.get(&ord_clo) {
                    self.used_clos.insert(ord_clo);
                    let mut h = String::new();
                    if !r.is_empty() {
                        h.push_str(&format!("-> ({r})\n"));
                        c.output = ReturnType::Default;
                    }
                    h.push_str(t);
                    let id = lit(self.out.raw_id(h));
                    blk.stmts.insert(0, parse_quote!(__vp_hdr!(#id);));
                }
                c.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }));
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // (&a, &b).cmp(&(&c, &d))
                if (name == "cmp" || name == "partial_cmp") && m.args.len() == 1 {
                    if let (Expr::Tuple(t1), Expr::Reference(r)) = (paren_strip(&m.receiver), &m.args[0]) {
                        if let Expr::Tuple(t2) = paren_strip(&r.expr) {
                            if name == "cmp" && t1.elems.len() == 2 && t2.elems.len() == 2 {
                                let (a, b, c, d) = (&t1.elems[0], &t1.elems[1], &t2.elems[0], &t2.elems[1]);
                                *e = parse_quote!(vp_lex_cmp2(#a, #b, #c, #d));
                                return;
                            }
                        }
                    }
                }
                // range receivers
                let recv = (*m.receiver).clone();
                if let Some(r) = self.range(&recv) {
                    m.receiver = Box::new(r);
                } else if self.is_iter_value(&recv) && !self.self_iter && name != "vp_drain" && name != "next" {
                    m.receiver = parse_quote!(#recv.vp_drain());
                }
                // Cow fields are dereferenced explicitly
                if let Expr::Field(f) = &*m.receiver {
                    if let Member::Named(n) = &f.member {
                        if self.ctx.cow_fields.contains(&n.to_string()) && !matches!(name.as_str(), "vp_deref" | "insert" | "remove" | "clear" | "push" | "extend") {
                            let r = &m.receiver;
                            m.receiver = parse_quote!(#r.vp_deref());
                        }
                    }
                }
                // interior mutability: see cell.rs
                if name == "borrow" && m.args.is_empty() {
                    self.cells = true;
                    let r = &m.receiver;
                    *e = parse_quote!(#r.vp_borrow(&mut vp_now));
                    return;
                }
                if name == "insert" && m.args.len() == 2 {
                    if let Expr::MethodCall(b) = &*m.receiver {
                        if b.method == "borrow_mut" {
                            self.cells = true;
                            let (r, a) = (&b.receiver, &m.args);
                            *e = parse_quote!(#r.vp_insert(&mut vp_now, #a));
                            return;
                        }
                    }
                }
                match name.as_str() {
                    "iter" => m.method = Ident::new("vp_iter", m.method.span()),
                    "into_iter" => m.method = Ident::new("vp_into_iter", m.method.span()),
                    "then" => {
                        let r = &m.receiver;
                        let a = &m.args;
                        *e = parse_quote!(vp_then(#r, #a));
                    }
                    "rem_euclid" => {
                        let r = &m.receiver;
                        let a = &m.args;
                        *e = parse_quote!(vp_rem_euclid(#r, #a));
                    }
                    "div_euclid" => {
                        let r = &m.receiver;
                        let a = &m.args;
                        *e = parse_quote!(vp_div_euclid(#r, #a));
                    }
                    "max" if m.args.len() == 1 => {
                        let r = &m.receiver;
                        let a = &m.args;
                        *e = parse_quote!(vp_max(#r, #a));
                    }
                    "min" if m.args.len() == 1 => {
                        let r = &m.receiver;
                        let a = &m.args;
                        *e = parse_quote!(vp_min(#r, #a));
                    }
                    "last" | "sort_unstable" | "sort" | "split_at" | "sum" | "unsigned_abs" | "signum" | "gcd" | "lcm" | "get" | "pow" | "min" | "max" | "iter_mut" => {
                        let nm = format!("vp_{name}");
                        m.method = Ident::new(&nm, m.method.span());
                    }
                    _ => {}
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let l2 = last2(&p.path);
                    let l1 = last_seg(&p.path);
                    let args = &c.args;
                    if l2 == "iter::once" || l2 == "once" {
                        *e = parse_quote!(It::once(#args));
                        return;
                    }
                    if l2 == "equal" {
                        *e = parse_quote!(vp_equal(#args));
                        return;
                    }
                    if l2 == "iter::empty" || l2 == "empty" {
                        *e = parse_quote!(It::empty());
                        return;
                    }
                    if l2 == "RefCell::new" {
                        let g = self.spec.cells.get(&self.ncell).cloned().unwrap_or_else(|| "|vp_c| true".to_string());
                        self.ncell += 1;
                        let id = lit(self.out.raw_id(g.trim().to_string()));
                        *e = parse_quote!(RefCell::vp_new(#args, Ghost(__vp_inl!(#id))));
                        return;
                    }
                    if l2 == "Box::new" {
                        let a = c.args[0].clone();
                        *e = self.range(&a).unwrap_or(a);
                        return;
                    }
                    if l1 == "new_unchecked" && l2.starts_with("NonZeroU8") {
                        *e = parse_quote!(vp_nzu8_new_unchecked(#args));
                        return;
                    }
                }
                for a in c.args.iter_mut() {
                    if let Some(r) = self.range(a) {
                        *a = r;
                    }
                }
            }
            _ => {}
        }
    }
}

fn is_float_const(e: &Expr) -> bool {
    if let Expr::Call(c) = paren_strip(e) {
        if let Expr::Path(p) = &*c.func {
            return matches!(last_seg(&p.path).as_str(), "vp_f64_inf" | "vp_f64_zero");
        }
    }
    false
}
/// Syntactic desugarings done before anchors are placed and loops and closures are numbered.
pub struct Desugar;
impl VisitMut for Desugar {
    /// log messages are dropped
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !matches!(last_seg(&m.mac.path).as_str(), "info" | "debug" | "warn" | "trace" | "error" | "println" | "eprintln" | "print" | "eprint"),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            // a called path is not a function value
            for a in c.args.iter_mut() {
                self.visit_expr_mut(a);
            }
            if !matches!(&*c.func, Expr::Path(_)) {
                self.visit_expr_mut(&mut c.func);
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            // for x in v.iter_mut()[.take(k)]
            Expr::ForLoop(f) => {
                let (base, take): (Expr, Option<Expr>) = match paren_strip(&f.expr) {
                    Expr::MethodCall(m) if m.method == "iter_mut" => ((*m.receiver).clone(), None),
                    Expr::MethodCall(t) if t.method == "take" && t.args.len() == 1 => match paren_strip(&t.receiver) {
                        Expr::MethodCall(m) if m.method == "iter_mut" => ((*m.receiver).clone(), Some(t.args[0].clone())),
                        _ => return,
                    },
                    _ => return,
                };
                struct HasContinue(bool);
                impl<'a> Visit<'a> for HasContinue {
                    fn visit_expr_continue(&mut self, _c: &'a ExprContinue) {
                        self.0 = true;
                    }
                }
                let mut hc = HasContinue(false);
                hc.visit_block(&f.body);
                if hc.0 || f.label.is_some() {
                    return;
                }
                let p = &f.pat;
                let body = &f.body.stmts;
                *e = match take {
                    Some(k) => parse_quote!({
                        let vp_k: usize = #k;
                        let mut vp_i: usize = 0;
                        while vp_i < #base.len() && vp_i < vp_k {
                            let #p = &mut #base[vp_i];
                            #(#body)*
                            vp_i = vp_i + 1;
                        }
                    }),
                    None => parse_quote!({
                        let mut vp_i: usize = 0;
                        while vp_i < #base.len() {
                            let #p = &mut #base[vp_i];
                            #(#body)*
                            vp_i = vp_i + 1;
                        }
                    }),
                };
            }
            // repeat(()).map_while(|()| e)
            Expr::MethodCall(m) if m.method == "map_while" => {
                if let Expr::Call(c) = &*m.receiver {
                    if let (Expr::Path(p), Some(Expr::Closure(cl))) = (&*c.func, m.args.first()) {
                        if last_seg(&p.path) == "repeat" && strip_ws(&c.args) == "Unit" {
                            let body = (*cl.body).clone();
                            *e = parse_quote!({
                                let mut vp_out = Vec::new();
                                loop {
                                    match #body {
                                        Some(vp_x) => { vp_out.push(vp_x); }
                                        None => { break; }
                                    }
                                }
                                It { v: vp_out }
                            });
                        }
                    }
                }
            }
            // method path used as a function value
            Expr::Path(p) => {
                if p.qself.is_none() && (last2(&p.path) == "Into::into" || p.path.segments.first().map_or(false, |s| s.ident == "Into")) {
                    let f = p.clone();
                    *e = if matches!(p.path.segments[0].arguments, PathArguments::None) {
                        parse_quote!(|vp_x| { vp_x.into() })
                    } else {
                        parse_quote!(|vp_x| { #f(vp_x) })
                    };
                }
            }
            _ => {}
        }
    }
}

/// `()` used as data (not as a return type) becomes the library type `Unit`.
pub struct UnitRw;
impl VisitMut for UnitRw {
    fn visit_return_type_mut(&mut self, r: &mut ReturnType) {
        if let ReturnType::Type(_, t) = r {
            if strip_ws(&**t) != "()" {
                self.visit_type_mut(t);
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if matches!(t, Type::Tuple(x) if x.elems.is_empty()) {
            *t = parse_quote!(Unit);
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Tuple(x) if x.elems.is_empty()) {
            *e = parse_quote!(Unit);
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if matches!(p, Pat::Tuple(x) if x.elems.is_empty()) {
            *p = parse_quote!(Unit);
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        let explicit = matches!(&f.sig.output, ReturnType::Type(_, t) if strip_ws(&**t) != "()");
        if explicit && f.block.stmts.is_empty() {
            f.block = parse_quote!({ Unit });
        }
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
}
