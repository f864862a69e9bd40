mod contracts;
mod inline;
mod transform;
mod undyn;

use contracts::{FuncC, ModC};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;
use transform::*;

/// Prints a token stream with one clause or statement per line.
struct Out {
    s: String,
    line: usize,
    indent: usize,
    fresh: bool,
}
impl Out {
    fn nl(&mut self) {
        if !self.fresh {
            self.s.push('\n');
            self.line += 1;
            self.fresh = true;
        }
    }
    fn word(&mut self, w: &str, space: bool) {
        if self.fresh {
            for _ in 0..self.indent {
                self.s.push_str("  ");
            }
            self.fresh = false;
        }
        self.s.push_str(w);
        self.line += w.matches('\n').count();
        if space {
            self.s.push(' ');
        }
    }
    fn emit(&mut self, ts: TokenStream, paren: usize) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("(", ")"),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        self.word(o, false);
                        if g.stream().is_empty() {
                            self.word(c, true);
                        } else {
                            self.indent += 1;
                            self.nl();
                            self.emit(g.stream(), 0);
                            self.indent -= 1;
                            self.nl();
                            self.word(c, true);
                        }
                        let next_cont = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if ",;.)?&|=<>+-*".contains(p.as_char()))
                            || matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                        if !next_cont && paren == 0 {
                            self.nl();
                        }
                    } else if g.delimiter() == Delimiter::None {
                        // Invisible groups keep precedence; make them visible unless trivial.
                        let n = g.stream().into_iter().count();
                        if n <= 1 {
                            self.emit(g.stream(), paren);
                        } else {
                            self.word(o, false);
                            self.emit(g.stream(), paren + 1);
                            self.word(c, true);
                        }
                    } else {
                        self.word(o, false);
                        self.emit(g.stream(), paren + 1);
                        self.word(c, true);
                    }
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char().to_string();
                    let joint = p.spacing() == Spacing::Joint || p.as_char() == '\'';
                    self.word(&ch, !joint);
                    if p.as_char() == ';' && paren == 0 {
                        self.nl();
                    }
                    if p.as_char() == ',' && paren == 0 {
                        self.nl();
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if paren == 0
                        && ["requires", "ensures", "invariant", "invariant_except_break", "decreases", "invariant_ensures", "recommends", "opens_invariants", "no_unwind"].contains(&s.as_str())
                    {
                        self.nl();
                        self.word(&s, true);
                        self.nl();
                    } else {
                        self.word(&s, true);
                    }
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    self.word(&s, true)
                }
            }
        }
    }
}

#[derive(Default)]
struct Report {
    funcs: Vec<String>, // json objects
    dropped: Vec<String>,
    uncontracted: Vec<String>,
    problems: Vec<String>,
    unused: Vec<String>,
    rewrites: BTreeMap<&'static str, usize>,
    clones: Vec<String>,
}

struct Module<'a> {
    name: String,
    c: &'a ModC,
    out: Out,
    rep: &'a mut Report,
    known: &'a BTreeSet<String>,
    sql: &'a [(String, String)],
    absent: Vec<String>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `#[arg(value_parser = clap::value_parser!(T).range(A..=B))]` on a field: clap accepts nothing else.
fn option_ranges(s: &ItemStruct, unread: &mut Vec<String>) -> Vec<TokenStream> {
    let mut out = vec![];
    for f in &s.fields {
        let Some(name) = &f.ident else { continue };
        let optional = f.ty.to_token_stream().to_string().starts_with("Option <");
        let x = if optional { quote!(r.#name->0) } else { quote!(r.#name) };
        for a in &f.attrs {
            if !a.path().is_ident("arg") {
                continue;
            }
            let Ok(metas) = a.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated) else { continue };
            for m in metas {
                let Meta::NameValue(nv) = m else { continue };
                if !nv.path.is_ident("value_parser") {
                    continue;
                }
                let Expr::MethodCall(mc) = &nv.value else {
                    unread.push(format!("value_parser of {} not understood", name));
                    continue;
                };
                if mc.method != "range" || mc.args.len() != 1 || !matches!(&*mc.receiver, Expr::Macro(k) if k.mac.path.to_token_stream().to_string().replace(' ', "") == "clap::value_parser") {
                    unread.push(format!("value_parser of {} not understood", name));
                    continue;
                }
                let Expr::Range(r) = &mc.args[0] else {
                    unread.push(format!("value_parser of {} not understood", name));
                    continue;
                };
                let mut facts = vec![];
                if let Some(lo) = &r.start {
                    facts.push(quote!(#x >= #lo));
                }
                if let Some(hi) = &r.end {
                    facts.push(match r.limits { RangeLimits::Closed(_) => quote!(#x <= #hi), RangeLimits::HalfOpen(_) => quote!(#x < #hi) });
                }
                for fact in facts {
                    out.push(if optional { quote!((r.#name is None || #fact)) } else { fact });
                }
            }
        }
    }
    out
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[cfg(bcalc_verif)]" || s.contains("#[test]")
    })
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        t => t.to_token_stream().to_string(),
    }
}

fn fix_bounds(g: &mut Generics) {
    // Formatting and hashing bounds are dropped with the impls that they are for.
    fn keep(b: &TypeParamBound) -> bool {
        let s = b.to_token_stream().to_string().replace(' ', "");
        !(s.ends_with("Debug") || s.ends_with("Display") || s == "Hash")
    }
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = t.bounds.clone().into_iter().filter(keep).collect();
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut preds = punctuated::Punctuated::new();
        for p in w.predicates.clone() {
            match p {
                WherePredicate::Type(mut t) => {
                    t.bounds = t.bounds.into_iter().filter(keep).collect();
                    if !t.bounds.is_empty() {
                        preds.push(WherePredicate::Type(t));
                    }
                }
                p => preds.push(p),
            }
        }
        w.predicates = preds;
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
}

struct PathFix;
impl VisitMut for PathFix {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        fix_type(t);
        visit_mut::visit_type_mut(self, t);
    }
}

fn pub_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.attrs.clear();
        x.vis = parse_quote!(pub);
    }
}

impl<'a> Module<'a> {
    fn func(&mut self, key: &str, attrs: &[Attribute], sig: &Signature, body: Option<&Block>, in_trait: bool, vis_pub: bool) {
        let full = format!("{}::{}", self.name, key);
        let c: Option<&FuncC> = self.c.funcs.get(key);
        if let Some(c) = c {
            c.used.set(true);
        } else if !self.known.contains(&full) {
            self.rep.uncontracted.push(full.clone());
        }
        let src_line = sig.ident.span().start().line;
        let src_end = body.map(|b| b.brace_token.span.close().end().line).unwrap_or(src_line);
        let mut sig = sig.clone();
        fix_bounds(&mut sig.generics);
        PathFix.visit_signature_mut(&mut sig);
        let mut stats = Stats::default();
        if let Some(c) = c {
            for i in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = i {
                    if let Pat::Ident(p) = &*t.pat {
                        if let Some(ty) = c.retype.get(&p.ident.to_string()) {
                            t.ty = Box::new(parse2(ty.clone()).expect("retype"));
                        }
                    }
                }
            }
        }
        // Trait methods with `mut` parameters: keep the pattern in the implementation only.
        let ret = c.and_then(|c| c.ret.clone());
        let spec = c.map(|c| c.spec.clone()).unwrap_or_default();
        let rtype = match (&sig.output, &ret) {
            (ReturnType::Type(_, t), Some(r)) => {
                let r = format_ident!("{}", r);
                quote!(-> (#r: #t))
            }
            (o, _) => quote!(#o),
        };
        let ident = &sig.ident;
        let (gi, _, wh) = sig.generics.split_for_impl();
        let _ = gi;
        let gparams = &sig.generics.params;
        let gp = if gparams.is_empty() { quote!() } else { quote!(<#gparams>) };
        let inputs = &sig.inputs;
        let vis = if vis_pub { quote!(pub) } else { quote!() };
        let attr = c.map(|c| c.attr.clone()).unwrap_or_default();
        let external = c.map(|c| c.external).unwrap_or(false);
        let mut loops = 0;
        let body_ts = match body {
            None => quote!(;),
            Some(_) if external => quote!({ unimplemented!() }),
            Some(b) => {
                let mut b = b.clone();
                {
                    let mut t = Body {
                        c,
                        ufcs: self.c.ufcs,
                        stats: &mut stats,
                        next_loop: 0,
                        tmp: 0,
                        break_targets: vec![],
                        placed: Default::default(),
                        let_seen: Default::default(),
                        call_seen: Default::default(),
                        assign_seen: Default::default(),
                        ret_seen: 0,
                        scrut_seen: Default::default(),
                        closure_seen: Default::default(),
                        sql: self.sql,
                        fname: full.clone(),
                    };
                    t.do_block(&mut b);
                    loops = t.next_loop;
                }
                let entry = c.map(|c| c.entry.clone()).unwrap_or_default();
                let stmts = &b.stmts;
                let lits = if c.map(|c| c.literals).unwrap_or(false) {
                    let mut l = Vec::new();
                    string_literals(quote!(#(#stmts)*), &mut l);
                    quote!(proof { #(reveal_strlit(#l);)* })
                } else {
                    quote!()
                };
                quote!({ #entry #lits #(#stmts)* })
            }
        };
        let ext = if external { quote!(#[verifier::external_body]) } else { quote!() };
        let start = self.out.line + if self.out.fresh { 0 } else { 1 };
        self.out.nl();
        let ts = quote!(#attr #ext #vis fn #ident #gp (#inputs) #rtype #wh #spec #body_ts);
        self.out.emit(ts, 0);
        self.out.nl();
        let end = self.out.line;
        let mut lost: Vec<String> = stats.problems.clone();
        if let Some(c) = c {
            for a in &c.anchors {
                if !a.used.get() {
                    lost.push(format!("{}: anchor {} {} {} not found", full, a.kind, a.name, a.index));
                }
            }
            for ((n, k), (_, used)) in &c.inline {
                if !used.get() {
                    lost.push(format!("{}: closure passed to {} {} not found", full, n, k));
                }
            }
            for (k, _) in &c.loops {
                if *k >= loops {
                    lost.push(format!("{}: loop {} not found", full, k));
                }
            }
            if !c.loops.is_empty() && body.is_some() && !external {
                let want = c.loops.keys().max().unwrap() + 1;
                if loops != want {
                    lost.push(format!("{}: {} loops, {} contracts", full, loops, want));
                }
            }
        }
        let _ = attrs;
        for (k, v) in &stats.rewrites {
            *self.rep.rewrites.entry(k).or_insert(0) += v;
        }
        self.rep.problems.extend(lost.clone());
        let props = c.map(|c| c.props.join(",")).unwrap_or_default();
        self.rep.funcs.push(format!(
            "{{\"fn\":{},\"src\":{},\"line\":{},\"end\":{},\"out\":{},\"from\":{},\"to\":{},\"contract\":{},\"external\":{},\"declaration\":{},\"props\":{},\"lost\":[{}],\"hints\":{},\"body\":{}}}",
            js(&full),
            js(&format!("src/{}.rs", self.name)),
            src_line,
            src_end,
            js(&format!("{}.rs", if self.name == "main" { "lib" } else { &self.name })),
            start,
            end,
            !spec.is_empty(),
            external,
            body.is_none(),
            js(&props),
            lost.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            c.map_or(0, |c| c.loops.len() + c.anchors.len()),
            js(&body.map(|b| b.to_token_stream().to_string()).unwrap_or_default()),
        ));
        let _ = in_trait;
    }

    fn inject(&mut self, header: &str) {
        for (h, ts, used) in &self.c.injects {
            if h == header {
                used.set(true);
                self.out.nl();
                self.out.emit(ts.clone(), 0);
                self.out.nl();
            }
        }
    }

    fn drop(&mut self, what: String) {
        self.rep.dropped.push(format!("{}: {}", self.name, what));
    }

    fn use_tree(t: &UseTree, prefix: Vec<String>, absent: &[String], out: &mut Vec<TokenStream>) {
        match t {
            UseTree::Path(p) => {
                let mut pre = prefix;
                pre.push(p.ident.to_string());
                Self::use_tree(&p.tree, pre, absent, out);
            }
            UseTree::Group(g) => {
                for x in &g.items {
                    Self::use_tree(x, prefix.clone(), absent, out);
                }
            }
            leaf => {
                let mut pre = prefix;
                let first = pre.first().cloned().unwrap_or_default();
                let leaf_s = leaf.to_token_stream().to_string();
                if first == "clap" || absent.contains(&first) {
                    return;
                }
                let whole = format!("{}::{}", pre.join("::"), leaf_s);
                if whole.starts_with("std::fmt") || whole.starts_with("std::hash") {
                    return;
                }
                if whole.ends_with("::named_params") || whole == "crossterm::execute" || whole == "crossterm::queue" {
                    return;
                }
                if whole == "std::cmp::max" || whole == "std::cmp::min" || whole.starts_with("std::env") || whole.starts_with("std::fs") || whole.starts_with("std::io") || whole.starts_with("std::path") || whole.starts_with("std::iter") {
                    let l: TokenStream = leaf_s.parse().unwrap();
                    let l2 = if leaf_s == "self" { pre.last().unwrap().parse().unwrap() } else { l };
                    out.push(quote!(use crate::vstd_model::#l2;));
                    return;
                }
                if whole.starts_with("std::collections::Hash") {
                    let l: TokenStream = leaf_s.parse().unwrap();
                    out.push(quote!(use crate::vstd_model::#l;));
                    return;
                }
                if first == "num" || first == "rusqlite" || first == "crossterm" {
                    pre.insert(0, "crate".into());
                }
                let mut path: Vec<TokenStream> = pre.iter().map(|s| s.parse().unwrap()).collect();
                if leaf_s == "self" {
                    let p = &path;
                    out.push(quote!(use #(#p)::*;));
                } else {
                    path.push(leaf_s.parse().unwrap());
                    let p = &path;
                    if p.len() == 1 && (leaf_s == "num" || leaf_s == "rusqlite") {
                        let l = &p[0];
                        out.push(quote!(use crate::#l;));
                    } else {
                        out.push(quote!(use #(#p)::*;));
                    }
                }
            }
        }
    }

    fn item(&mut self, it: &Item) {
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    self.drop(format!("mod {} (tests)", m.ident));
                }
            }
            Item::Use(u) => {
                let mut v = vec![];
                Self::use_tree(&u.tree, vec![], &self.absent, &mut v);
                for t in v {
                    self.out.emit(t, 0);
                }
            }
            Item::Const(k) => {
                let name = k.ident.to_string();
                if self.c.drop.contains(&name) {
                    return self.drop(format!("const {}", name));
                }
                let i = &k.ident;
                let mut t = (*k.ty).clone();
                if let Type::Reference(r) = &mut t {
                    if r.lifetime.is_none() {
                        r.lifetime = Some(parse_quote!('static));
                    }
                }
                let mut e = (*k.expr).clone();
                PathFix.visit_expr_mut(&mut e);
                self.out.nl();
                match self.c.consts.get(&name) {
                    Some(spec) => {
                        let mut l = Vec::new();
                        string_literals(quote!(#e), &mut l);
                        let lits = if l.is_empty() { quote!() } else { quote!(proof { #(reveal_strlit(#l);)* }) };
                        self.out.emit(quote!(pub exec const #i: #t #spec { #lits #e }), 0)
                    }
                    None => self.out.emit(quote!(pub const #i: #t = #e;), 0),
                }
                self.out.nl();
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                let name = s.ident.to_string();
                if self.c.drop.contains(&name) {
                    return self.drop(format!("struct {}", name));
                }
                let copy = s.attrs.iter().any(|a| a.to_token_stream().to_string().contains("Copy"));
                // clap's derive: what a parsed command line is known to satisfy, read off the attributes.
                if s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Parser")) {
                    let mut unread = vec![];
                    let facts = option_ranges(&s, &mut unread);
                    for u in unread {
                        self.rep.problems.push(format!("{}: {}", self.name, u));
                    }
                    let ident = &s.ident;
                    self.out.nl();
                    self.out.emit(quote!(impl #ident { #[verifier::external_body] pub fn parse() -> (r: #ident) ensures true #(, #facts)* { unimplemented!() } }), 0);
                    self.out.nl();
                }
                s.attrs.clear();
                if copy {
                    s.attrs.push(parse_quote!(#[derive(PartialEq, Eq, Structural, Clone, Copy)]));
                }
                s.vis = parse_quote!(pub);
                pub_fields(&mut s.fields);
                fix_bounds(&mut s.generics);
                PathFix.visit_item_struct_mut(&mut s);
                self.out.nl();
                self.out.emit(quote!(#s), 0);
                self.out.nl();
                self.clone_impl(&name, &s.generics);
            }
            Item::Enum(s) => {
                let mut s = s.clone();
                let name = s.ident.to_string();
                if self.c.drop.contains(&name) {
                    return self.drop(format!("enum {}", name));
                }
                let copy = s.attrs.iter().any(|a| a.to_token_stream().to_string().contains("Copy"));
                s.attrs.clear();
                if copy {
                    s.attrs.push(parse_quote!(#[derive(PartialEq, Eq, Structural, Clone, Copy)]));
                }
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                PathFix.visit_item_enum_mut(&mut s);
                self.out.nl();
                self.out.emit(quote!(#s), 0);
                self.out.nl();
                if copy && s.variants.iter().all(|v| v.fields.is_empty()) {
                    let i = &s.ident;
                    self.out.emit(
                        quote!(impl crate::vstd_model::VEq<#i> for #i {
                            open spec fn eqs(&self, o: &#i) -> bool { *self == *o }
                            fn v_eq(&self, o: &#i) -> (r: bool) { *self == *o }
                            fn v_ne(&self, o: &#i) -> (r: bool) { *self != *o }
                        }),
                        0,
                    );
                    self.out.nl();
                }
                self.clone_impl(&name, &s.generics);
            }
            Item::Trait(t) => {
                let name = t.ident.to_string();
                if self.c.drop.contains(&name) {
                    return self.drop(format!("trait {}", name));
                }
                let (i, g, sup) = (&t.ident, &t.generics, &t.supertraits);
                let colon = &t.colon_token;
                self.out.nl();
                let hdr = quote!(pub trait #i #g #colon #sup);
                self.out.emit(hdr, 0);
                self.out.word("{", false);
                self.out.indent += 1;
                self.out.nl();
                self.inject(&format!("trait {}", name));
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        self.func(&format!("{}::{}", name, f.sig.ident), &f.attrs, &f.sig, f.default.as_ref(), true, false);
                    }
                }
                self.out.indent -= 1;
                self.out.nl();
                self.out.word("}", false);
                self.out.nl();
            }
            Item::Impl(im) => {
                if is_test(&im.attrs) {
                    return;
                }
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().clone());
                let trn = tr.as_ref().map(|t| t.ident.to_string());
                if self.c.drop.contains(&ty) && trn.is_none() {
                    return self.drop(format!("impl {}", ty));
                }
                if let Some(n) = &trn {
                    if ["Display", "Debug", "Error", "Hash", "PartialEq", "Eq"].contains(&n.as_str()) {
                        return self.drop(format!("impl {} for {}", n, ty));
                    }
                    if self.c.drop.contains(&format!("{}for{}", n, ty)) {
                        return self.drop(format!("impl {} for {}", n, ty));
                    }
                }
                let mut im = im.clone();
                fix_bounds(&mut im.generics);
                let mut self_ty = (*im.self_ty).clone();
                PathFix.visit_type_mut(&mut self_ty);
                let gparams = &im.generics.params;
                let gp = if gparams.is_empty() { quote!() } else { quote!(<#gparams>) };
                let wh = &im.generics.where_clause;
                let is_from = trn.as_deref() == Some("From");
                let trait_ts = match &im.trait_ {
                    None => quote!(),
                    Some((_, p, _)) => {
                        let mut p = p.clone();
                        PathFix.visit_path_mut(&mut p);
                        if is_from {
                            let last = p.segments.last().unwrap().arguments.clone();
                            quote!(crate::vstd_model::VFrom #last for)
                        } else {
                            quote!(#p for)
                        }
                    }
                };
                let from_ty = tr.as_ref().map(|t| t.arguments.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                let header = match &trn {
                    None => format!("impl {}", self_ty.to_token_stream().to_string().replace(' ', "")),
                    Some(n) => format!("impl {}{} for {}", n, from_ty, self_ty.to_token_stream().to_string().replace(' ', "")),
                };
                self.out.nl();
                self.out.emit(quote!(impl #gp #trait_ts #self_ty #wh), 0);
                self.out.word("{", false);
                self.out.indent += 1;
                self.out.nl();
                self.inject(&header);
                for x in &im.items {
                    match x {
                        ImplItem::Fn(f) => {
                            if is_test(&f.attrs) {
                                continue;
                            }
                            let mut sig = f.sig.clone();
                            let key = if is_from {
                                sig.ident = format_ident!("v_from");
                                format!("{}::from{}", ty, from_ty)
                            } else if self_ty.to_token_stream().to_string().contains("< String >") {
                                format!("{}<String>::{}", ty, f.sig.ident)
                            } else {
                                format!("{}::{}", ty, f.sig.ident)
                            };
                            if self.c.drop.contains(&key) {
                                self.drop(format!("fn {}", key));
                                continue;
                            }
                            self.func(&key, &f.attrs, &sig, Some(&f.block), trn.is_some(), trn.is_none());
                        }
                        ImplItem::Type(t) => self.out.emit(quote!(#t), 0),
                        _ => {}
                    }
                }
                self.out.indent -= 1;
                self.out.nl();
                self.out.word("}", false);
                self.out.nl();
            }
            Item::Fn(f) => {
                let name = f.sig.ident.to_string();
                if is_test(&f.attrs) || self.c.drop.contains(&name) {
                    return self.drop(format!("fn {}", name));
                }
                self.func(&name, &f.attrs, &f.sig, Some(&f.block), false, true);
            }
            Item::Verbatim(ts) => {
                self.out.nl();
                self.out.emit(ts.clone(), 0);
                self.out.nl();
            }
            Item::Macro(m) => self.drop(format!("macro {}", m.mac.path.to_token_stream())),
            Item::Type(t) => {
                let mut t = t.clone();
                t.vis = parse_quote!(pub);
                PathFix.visit_item_type_mut(&mut t);
                self.out.emit(quote!(#t), 0);
            }
            other => self.drop(format!("item {}", other.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }

    fn clone_impl(&mut self, name: &str, g: &Generics) {
        if !self.c.clone.iter().any(|x| x == name) {
            return;
        }
        self.rep.clones.push(format!("{}::{}", self.name, name));
        let n = format_ident!("{}", name);
        let params = &g.params;
        let wh = &g.where_clause;
        let (_, tg, _) = g.split_for_impl();
        self.out.emit(
            quote!(impl <#params> Clone for #n #tg #wh {
                #[verifier::external_body]
                fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
            }),
            0,
        );
        self.out.nl();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, con, out) = (PathBuf::from(&a[1]), PathBuf::from(&a[2]), PathBuf::from(&a[3]));
    std::fs::create_dir_all(&out).unwrap();
    let only: Vec<String> = a.get(4).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut rep = Report::default();
    let known: BTreeSet<String> = std::fs::read_to_string(con.join("uncontracted.txt"))
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .collect();
    let sql: Vec<(String, String)> = std::fs::read_to_string(con.join("sql.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once('|').map(|(a, b)| (b.to_string(), a.to_string())))
        .collect();
    let order = ["error", "position", "token", "input_history", "variable", "operations", "saved_data", "syntax_tree", "commands", "main"];
    let mut mods: Vec<String> = vec![];
    let mut lib_body = String::new();
    for name in order {
        if !only.is_empty() && !only.iter().any(|x| x == name) {
            continue;
        }
        let path = src.join(format!("{}.rs", name));
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                rep.problems.push(format!("{}: {}", path.display(), e));
                continue;
            }
        };
        let mut file = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                rep.problems.push(format!("{}: {}", path.display(), e));
                continue;
            }
        };
        let cpath = con.join(format!("{}.vc", name));
        let c = match std::fs::read_to_string(&cpath) {
            Ok(t) => contracts::parse(&t, &cpath.display().to_string()),
            Err(_) => ModC::default(),
        };
        let mut stats = Stats::default();
        undyn::unpoint(&mut file.items, &mut stats);
        for t in &c.undyn {
            undyn::undyn(&mut file.items, t, &mut stats);
            rep.dropped.push(format!("{}: trait {}, its virtual calls made explicit", name, t));
        }
        let others: String = order
            .iter()
            .filter(|o| *o != &name)
            .map(|o| std::fs::read_to_string(src.join(format!("{}.rs", o))).unwrap_or_default())
            .collect::<Vec<_>>()
            .join("\n");
        for h in inline::inline(&mut file.items, &c, name, &known, &others, &mut stats) {
            rep.dropped.push(format!("{}: fn {}, verified in the place of each of its calls", name, h));
        }
        rep.problems.extend(stats.problems);
        for (k, v) in &stats.rewrites {
            *rep.rewrites.entry(k).or_insert(0) += v;
        }
        let mut m = Module {
            name: name.to_string(),
            c: &c,
            out: Out { s: String::new(), line: 1, indent: 0, fresh: true },
            rep: &mut rep,
            known: &known,
            sql: &sql,
            absent: order.iter().filter(|o| !only.is_empty() && !only.iter().any(|x| x == *o)).map(|o| o.to_string()).collect(),
        };
        m.out.word("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, non_snake_case, non_camel_case_types, unused_labels, unreachable_code)]", false);
        m.out.nl();
        if name == "main" {
            m.out.word("//MODS//", false);
            m.out.nl();
        }
        m.out.word("use vstd::prelude::*; use crate::vstd_model::*; use crate::specs::*; use crate::num::*; use crate::rusqlite::*;", false);
        for o in order {
            if o != name && o != "main" && (only.is_empty() || only.iter().any(|x| x == o)) {
                m.out.word(&format!(" use crate::{}::*;", o), false);
            }
        }
        m.out.nl();
        m.out.word("verus! {", false);
        m.out.nl();
        for it in &file.items {
            m.item(it);
        }
        m.out.nl();
        let items_from = m.out.line;
        m.out.emit(c.items.clone(), 0);
        m.out.nl();
        let items_to = m.out.line;
        m.out.word("}", false);
        m.out.nl();
        let text = m.out.s;
        rep.funcs.push(format!("{{\"fn\":{},\"lemmas\":true,\"out\":{},\"from\":{},\"to\":{}}}", js(&format!("{}::<lemmas>", name)), js(&format!("{}.rs", if name == "main" { "lib" } else { name })), items_from, items_to));
        for (k, f) in &c.funcs {
            if !f.used.get() {
                rep.unused.push(format!("{}::{}", name, k));
            }
        }
        for (k, _, used) in &c.injects {
            if !used.get() {
                rep.unused.push(format!("{}: inject {}", name, k));
            }
        }
        if name == "main" {
            lib_body = text;
        } else {
            mods.push(name.to_string());
            std::fs::write(out.join(format!("{}.rs", name)), text).unwrap();
        }
    }
    // Files of src that are not modules we know.
    if let Ok(rd) = std::fs::read_dir(&src) {
        for e in rd.flatten() {
            let n = e.path().file_stem().unwrap().to_string_lossy().to_string();
            if !order.contains(&n.as_str()) {
                rep.problems.push(format!("new source file {}", e.path().display()));
            }
        }
    }
    // Stub modules.
    let mut all: Vec<String> = vec![];
    let stubs = con.join("stubs");
    let mut names: Vec<String> = std::fs::read_dir(&stubs)
        .map(|rd| rd.flatten().map(|e| e.path().file_stem().unwrap().to_string_lossy().to_string()).collect())
        .unwrap_or_default();
    names.sort();
    for n in &names {
        copy(&stubs.join(format!("{}.rs", n)), &out.join(format!("{}.rs", n)));
        all.push(format!("pub mod {};", n));
    }
    for m in &mods {
        all.push(format!("pub mod {};", m));
    }
    let header = all.join(" ");
    if lib_body.is_empty() {
        lib_body = "#![allow(unused_imports)]\n//MODS//\nuse vstd::prelude::*;\n".to_string();
    }
    std::fs::write(out.join("lib.rs"), lib_body.replace("//MODS//", &header)).unwrap();
    let l = |v: &Vec<String>| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let rw = rep.rewrites.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    std::fs::write(
        out.join("map.json"),
        format!(
            "{{\"functions\":[{}],\n\"dropped\":[{}],\n\"uncontracted\":[{}],\n\"problems\":[{}],\n\"unused\":[{}],\n\"clones\":[{}],\n\"rewrites\":{{{}}}}}",
            rep.funcs.join(",\n"),
            l(&rep.dropped),
            l(&rep.uncontracted),
            l(&rep.problems),
            l(&rep.unused),
            l(&rep.clones),
            rw
        ),
    )
    .unwrap();
}

fn copy(a: &Path, b: &Path) {
    std::fs::write(b, std::fs::read(a).unwrap()).unwrap();
}

/// The string literals of a token stream, each once.
fn string_literals(t: TokenStream, out: &mut Vec<syn::LitStr>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => string_literals(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                if let syn::Lit::Str(s) = syn::Lit::new(l) {
                    if !out.iter().any(|o| o.value() == s.value()) {
                        out.push(s);
                    }
                }
            }
            _ => {}
        }
    }
}
