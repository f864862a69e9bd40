//! A function without a contract is verified where it is called: its body is put in the place of each call.
//! Only where that means the same: no recursion, no generics, and no `return` or `?` that would leave
//! the wrong function. What cannot be put in place stays and is reported as uncontracted.
use crate::contracts::ModC;
use crate::transform::Stats;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    key: String,
    owner: Option<String>,
    name: String,
    sig: Signature,
    body: Block,
    returns: usize,
    tries: usize,
}

#[derive(Default)]
struct Leaves {
    returns: usize,
    tries: usize,
    odd_returns: usize,
    items: bool,
    breaks: bool,
}
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {
        self.items = true;
    }
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.returns += 1;
        let fails = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err");
        if !fails {
            self.odd_returns += 1;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        // What a macro hides is not looked into.
        let text = format!(" {} ", m.tokens);
        if text.contains(" return ") || text.contains("?") {
            let path = m.path.to_token_stream().to_string();
            if !["format", "println", "eprintln", "panic", "concat", "print"].contains(&path.as_str()) {
                self.breaks = true;
            }
        }
    }
}
fn leaves(b: &Block) -> Leaves {
    let mut l = Leaves::default();
    l.visit_block(b);
    l
}

/// Ends in a `return` on every way through.
fn ends(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => ends_expr(e),
        _ => false,
    }
}
fn ends_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => ends(&b.block),
        Expr::If(i) => ends(&i.then_branch) && i.else_branch.as_ref().is_some_and(|e| ends_expr(&e.1)),
        _ => false,
    }
}

/// The same block with its value as its last expression, where `return`s only give that value.
fn settle(mut b: Block) -> Block {
    for k in 0..b.stmts.len() {
        let early = match &b.stmts[k] {
            Stmt::Expr(Expr::If(i), _) => i.else_branch.is_none() && ends(&i.then_branch) && k + 1 < b.stmts.len(),
            _ => false,
        };
        if early {
            let rest = b.stmts.split_off(k + 1);
            if let Some(Stmt::Expr(Expr::If(mut i), _)) = b.stmts.pop() {
                i.then_branch = settle(i.then_branch);
                let rest = settle(Block { brace_token: Default::default(), stmts: rest });
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                b.stmts.push(Stmt::Expr(Expr::If(i), None));
            }
            return b;
        }
    }
    if !matches!(b.stmts.last(), Some(Stmt::Expr(..))) {
        return b;
    }
    if let Some(Stmt::Expr(e, semi)) = b.stmts.pop() {
        let unit = semi.is_some() && !ends_expr(&e);
        if unit {
            b.stmts.push(Stmt::Expr(e, semi));
        } else {
            b.stmts.push(Stmt::Expr(settle_expr(e), None));
        }
    }
    b
}
fn settle_expr(e: Expr) -> Expr {
    match e {
        Expr::Return(r) => match r.expr {
            Some(x) => settle_expr(*x),
            None => parse_quote!(()),
        },
        Expr::Block(mut b) if b.label.is_none() => {
            b.block = settle(b.block);
            Expr::Block(b)
        }
        Expr::If(mut i) if i.else_branch.is_some() => {
            i.then_branch = settle(i.then_branch);
            i.else_branch = i.else_branch.map(|(t, e)| (t, Box::new(settle_expr(*e))));
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                let body = std::mem::replace(&mut *a.body, Expr::Verbatim(Default::default()));
                *a.body = settle_expr(body);
            }
            Expr::Match(m)
        }
        other => other,
    }
}

/// `?` applied to the value of a block: `Ok(x)` becomes `x`.
fn unwrapped(e: Expr) -> Expr {
    match e {
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Ok" => c.args.into_iter().next().unwrap(),
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Err" => parse_quote!(return #c),
        Expr::Block(mut b) if b.label.is_none() => {
            b.block = unwrapped_block(b.block);
            Expr::Block(b)
        }
        Expr::If(mut i) if i.else_branch.is_some() => {
            i.then_branch = unwrapped_block(i.then_branch);
            i.else_branch = i.else_branch.map(|(t, e)| (t, Box::new(unwrapped(*e))));
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                let body = std::mem::replace(&mut *a.body, Expr::Verbatim(Default::default()));
                *a.body = unwrapped(body);
            }
            Expr::Match(m)
        }
        Expr::Return(_) | Expr::Macro(_) => e,
        other => parse_quote!(#other?),
    }
}
fn unwrapped_block(mut b: Block) -> Block {
    if matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) {
        if let Some(Stmt::Expr(e, _)) = b.stmts.pop() {
            let e = unwrapped(e);
            // A unit after other statements needs no saying.
            if b.stmts.is_empty() || e.to_token_stream().to_string() != "()" {
                b.stmts.push(Stmt::Expr(e, None));
            }
        }
    } else {
        // It ends in a unit, which is not a `Result`; only a body that never comes to its end does.
    }
    b
}

fn owner_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}
fn output(s: &Signature) -> String {
    match &s.output {
        ReturnType::Default => "()".into(),
        ReturnType::Type(_, t) => t.to_token_stream().to_string(),
    }
}
/// What a `Result` holds and what it fails with.
fn result(s: &Signature) -> Option<(Type, String)> {
    if let ReturnType::Type(_, t) = &s.output {
        if let Type::Path(p) = &**t {
            let last = p.path.segments.last()?;
            if last.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &last.arguments {
                    let v: Vec<Type> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect();
                    if v.len() == 2 {
                        return Some((v[0].clone(), v[1].to_token_stream().to_string()));
                    }
                }
            }
        }
    }
    None
}

struct Mentions<'a>(&'a str, usize);
impl<'a> Mentions<'a> {
    fn tokens(&mut self, t: proc_macro2::TokenStream) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => {
                    if i == self.0 {
                        self.1 += 1
                    }
                }
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                _ => {}
            }
        }
    }
}
fn mentions<T: ToTokens>(t: &T, name: &str) -> usize {
    let mut m = Mentions(name, 0);
    m.tokens(t.to_token_stream());
    m.1
}

struct Calls<'a> {
    helpers: &'a [Helper],
    owner: Option<String>,
    sig: &'a Signature,
    own_key: String,
    closures: usize,
    done: usize,
    names: BTreeSet<String>,
}

impl<'a> Calls<'a> {
    /// The helper called, and its arguments (without the receiver).
    fn called(&self, e: &Expr) -> Option<(Helper, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                if p.segments.iter().any(|s| !s.arguments.is_empty()) {
                    return None;
                }
                let (owner, name) = match segs.len() {
                    1 => (None, segs[0].clone()),
                    2 if segs[0] == "Self" => (self.owner.clone(), segs[1].clone()),
                    2 => (Some(segs[0].clone()), segs[1].clone()),
                    _ => return None,
                };
                let h = self.helpers.iter().find(|h| h.owner == owner && h.name == name)?;
                if h.sig.receiver().is_some() || h.sig.inputs.len() != c.args.len() {
                    return None;
                }
                Some((h.clone(), c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(c) => {
                if c.turbofish.is_some() || c.receiver.to_token_stream().to_string() != "self" {
                    return None;
                }
                let name = c.method.to_string();
                let h = self.helpers.iter().find(|h| h.owner.is_some() && h.owner == self.owner && h.name == name)?;
                let r = h.sig.receiver()?;
                // A receiver taken by value or a `&mut` from `&` cannot be; the reference is the same one.
                if r.reference.is_none() || h.sig.inputs.len() != c.args.len() + 1 {
                    return None;
                }
                Some((h.clone(), c.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    /// The body with its parameters bound, or nothing if a name would be captured.
    fn bound(&mut self, h: &Helper, args: &[Expr], body: Block, ty: Option<Type>) -> Option<Expr> {
        let params: Vec<(PatIdent, Type)> = h
            .sig
            .inputs
            .iter()
            .filter_map(|i| match i {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => Some((p.clone(), (*t.ty).clone())),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        let mut lets: Vec<Stmt> = vec![];
        let clash = params.iter().enumerate().any(|(i, p)| {
            args.iter().enumerate().any(|(j, a)| j != i && mentions(a, &p.0.ident.to_string()) > 0)
        });
        self.done += 1;
        let mut later: Vec<Stmt> = vec![];
        for (k, ((p, t), a)) in params.iter().zip(args).enumerate() {
            let (mut t, mut a) = (t.clone(), a.clone());
            // The tables change through shared references to the database; here they are said to change.
            if let Type::Reference(r) = &mut t {
                if ["Transaction", "Connection"].contains(&r.elem.to_token_stream().to_string().as_str()) && r.mutability.is_none() {
                    r.mutability = Some(Default::default());
                    if let Expr::Reference(x) = &mut a {
                        x.mutability = Some(Default::default());
                    }
                }
            }
            let same = a.to_token_stream().to_string() == p.ident.to_string() && p.mutability.is_none();
            if same {
                continue;
            }
            if clash {
                let tmp = format_ident!("__arg{}_{}", self.done, k);
                lets.push(parse_quote!(let #tmp: #t = #a;));
                later.push(parse_quote!(let #p: #t = #tmp;));
            } else {
                lets.push(parse_quote!(let #p: #t = #a;));
            }
        }
        lets.extend(later);
        let stmts = &body.stmts;
        Some(match ty {
            Some(t) if t.to_token_stream().to_string() != "()" => {
                let v = format_ident!("__given{}", self.done);
                parse_quote!({ #(#lets)* let #v: #t = { #(#stmts)* }; #v })
            }
            _ => parse_quote!({ #(#lets)* #(#stmts)* }),
        })
    }

    fn plain(&mut self, e: &Expr) -> Option<Expr> {
        let (h, args) = self.called(e)?;
        if h.returns > 0 || h.tries > 0 {
            return None;
        }
        let ty = match &h.sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some((**t).clone()),
        };
        self.names.insert(h.key.clone());
        let body = h.body.clone();
        self.bound(&h, &args, body, ty)
    }

    /// `helper(…)?` in a function that fails with the same type.
    fn tried(&mut self, e: &Expr) -> Option<Expr> {
        let inner = match e {
            Expr::Try(t) => &*t.expr,
            _ => return None,
        };
        let (h, args) = self.called(inner)?;
        let (t, err) = result(&h.sig)?;
        let (_, mine) = result(self.sig)?;
        if err != mine || self.closures > 0 || leaves(&h.body).odd_returns > 0 {
            return None;
        }
        self.names.insert(h.key.clone());
        let body = unwrapped_block(h.body.clone());
        self.bound(&h, &args, body, Some(t))
    }

    /// The last thing the caller does.
    fn last(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.last_block(&mut b.block),
            Expr::If(i) if i.else_branch.is_some() => {
                self.last_block(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    self.last(e);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.last(&mut a.body);
                }
            }
            _ => {
                if let Some((h, args)) = self.called(e) {
                    if (h.returns > 0 || h.tries > 0) && output(&h.sig) == output(self.sig) {
                        self.names.insert(h.key.clone());
                        let body = h.body.clone();
                        if let Some(x) = self.bound(&h, &args, body, None) {
                            *e = x;
                        }
                    }
                }
            }
        }
    }
    fn last_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.last(e);
        }
    }
}

impl<'a> VisitMut for Calls<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closures += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.closures -= 1;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if self.closures == 0 {
            if let Some(e) = &mut r.expr {
                self.last(e);
            }
        }
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.tried(e).or_else(|| self.plain(e)) {
            *e = x;
        }
    }
}

fn helper(owner: Option<String>, sig: &Signature, body: &Block, c: &ModC, module: &str, known: &BTreeSet<String>) -> Option<Helper> {
    let name = sig.ident.to_string();
    let key = match &owner {
        Some(o) => format!("{}::{}", o, name),
        None => name.clone(),
    };
    if c.funcs.contains_key(&key) || c.drop.contains(&key) || known.contains(&format!("{}::{}", module, key)) {
        return None;
    }
    let typed = sig.inputs.iter().all(|i| match i {
        FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none()) && !t.ty.to_token_stream().to_string().contains("impl "),
        FnArg::Receiver(_) => true,
    });
    let plain = sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) && sig.generics.params.is_empty();
    if !typed || !plain || sig.unsafety.is_some() || sig.asyncness.is_some() || output(sig).contains("impl ") {
        return None;
    }
    let body = settle(body.clone());
    let l = leaves(&body);
    if l.items || l.breaks || mentions(&body, &name) > 0 {
        return None;
    }
    Some(Helper { key, owner, name, sig: sig.clone(), body, returns: l.returns, tries: l.tries })
}

pub fn inline(items: &mut Vec<Item>, c: &ModC, module: &str, known: &BTreeSet<String>, others: &str, stats: &mut Stats) -> Vec<String> {
    let mut gone = vec![];
    for _ in 0..4 {
        let mut helpers: Vec<Helper> = vec![];
        for it in items.iter() {
            match it {
                Item::Fn(f) if !crate::is_test(&f.attrs) => helpers.extend(helper(None, &f.sig, &f.block, c, module, known)),
                Item::Impl(im) if im.trait_.is_none() && im.generics.params.is_empty() && !crate::is_test(&im.attrs) => {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if !crate::is_test(&f.attrs) {
                                helpers.extend(helper(Some(owner_name(&im.self_ty)), &f.sig, &f.block, c, module, known));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if helpers.is_empty() {
            return gone;
        }
        // Innermost first: what calls no other helper.
        let inner: Vec<Helper> = helpers.iter().filter(|h| helpers.iter().all(|o| mentions(&h.body, &o.name) == 0)).cloned().collect();
        if inner.is_empty() {
            return gone;
        }
        let mut any = 0;
        for it in items.iter_mut() {
            match it {
                Item::Fn(f) if !crate::is_test(&f.attrs) => any += put(None, &f.sig.clone(), &mut f.block, &inner),
                Item::Impl(im) => {
                    let owner = owner_name(&im.self_ty);
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            any += put(Some(owner.clone()), &f.sig.clone(), &mut f.block, &inner);
                        }
                    }
                }
                _ => {}
            }
        }
        *stats.rewrites.entry("helper-in-place").or_insert(0) += any;
        // Gone, if nothing calls it any more.
        let mut left = vec![];
        for h in &inner {
            let here: usize = items.iter().filter(|i| !matches!(i, Item::Mod(m) if crate::is_test(&m.attrs))).map(|i| mentions(i, &h.name)).sum();
            let there = others.parse::<proc_macro2::TokenStream>().map(|t| mentions(&t, &h.name)).unwrap_or(1);
            if here == 1 && there == 0 {
                gone.push(h.key.clone());
            } else {
                left.push(h.key.clone());
            }
        }
        items.retain(|i| !matches!(i, Item::Fn(f) if gone.contains(&f.sig.ident.to_string())));
        for it in items.iter_mut() {
            if let Item::Impl(im) = it {
                let owner = owner_name(&im.self_ty);
                if im.trait_.is_none() {
                    im.items.retain(|x| !matches!(x, ImplItem::Fn(f) if gone.contains(&format!("{}::{}", owner, f.sig.ident))));
                }
            }
        }
        if any == 0 {
            return gone;
        }
    }
    gone
}

/// A loop's contract would run into a block right after it.
struct Apart;
impl VisitMut for Apart {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            let after_loop = matches!(out.last(), Some(Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _)));
            if after_loop && matches!(&s, Stmt::Expr(Expr::Block(_), _)) {
                out.push(Stmt::Expr(Expr::Verbatim(Default::default()), Some(Default::default())));
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

fn put(owner: Option<String>, sig: &Signature, block: &mut Block, helpers: &[Helper]) -> usize {
    let name = sig.ident.to_string();
    let own_key = match &owner {
        Some(o) => format!("{}::{}", o, name),
        None => name,
    };
    if helpers.iter().any(|h| h.key == own_key) {
        return 0;
    }
    let mut v = Calls { helpers, owner, sig, own_key, closures: 0, done: 0, names: Default::default() };
    v.last_block(block);
    v.visit_block_mut(block);
    let _ = (&v.own_key, quote!());
    if v.done > 0 {
        Apart.visit_block_mut(block);
    }
    v.done
}
