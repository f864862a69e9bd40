//! `dyn Trait` made explicit. For a trait listed under `undyn` in a contract file, the implementations in the same
//! module become inherent functions, and `Box<dyn Trait>` and `&dyn Trait` become an enum of what implements it, whose
//! functions call the implementation of the variant: what the virtual call does. Verus has no termination argument
//! through virtual calls.
use crate::transform::Stats;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Types<'a>(&'a str);
impl<'a> VisitMut for Types<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        let (owned, by_ref) = (format_ident!("Dyn{}", self.0), format_ident!("Dyn{}Ref", self.0));
        if s == format!("Box<dyn{}>", self.0) {
            *t = parse_quote!(#owned);
        } else if s == format!("&dyn{}", self.0) {
            *t = parse_quote!(#by_ref<'_>);
        } else {
            visit_mut::visit_type_mut(self, t);
        }
    }
}

/// The values a function gives back, at its end.
fn wrap_tail(e: &mut Expr, to: &Ident) {
    match e {
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| wrap_tail(&mut a.body, to)),
        Expr::If(i) => {
            wrap_block(&mut i.then_branch, to);
            if let Some((_, b)) = &mut i.else_branch {
                wrap_tail(b, to)
            }
        }
        Expr::Block(b) => wrap_block(&mut b.block, to),
        Expr::Return(_) => {}
        e => {
            let x = e.clone();
            *e = parse_quote!(#to::from(#x));
        }
    }
}
fn wrap_block(b: &mut Block, to: &Ident) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        wrap_tail(e, to)
    }
}

pub fn undyn(items: &mut Vec<Item>, name: &str, stats: &mut Stats) {
    let mut methods: Vec<Signature> = vec![];
    // Is there a `&dyn Trait` at all? Otherwise the functions of the owning enum are what is called.
    let mut refs = Refs(name, false);
    items.iter().for_each(|i| refs.visit_item(i));
    let refs = refs.1;
    let found = items.iter().any(|i| matches!(i, Item::Trait(t) if t.ident == name));
    if !found {
        return;
    }
    let mut impls: Vec<Ident> = vec![];
    let (owned, by_ref) = (format_ident!("Dyn{}", name), format_ident!("Dyn{}Ref", name));
    let mut out: Vec<Item> = vec![];
    let mut traits = vec![];
    for it in items.drain(..) {
        match it {
            Item::Trait(t) if t.ident == name => {
                for x in &t.items {
                    match x {
                        TraitItem::Fn(f) if f.default.is_none() => methods.push(f.sig.clone()),
                        _ => stats.problems.push(format!("trait {}: only functions without a body are handled", name)),
                    }
                }
                traits.push(t);
            }
            Item::Impl(mut im) => {
                if im.trait_.as_ref().map(|t| t.1.is_ident(name)).unwrap_or(false) {
                    stats.hit("undyn");
                    im.trait_ = None;
                    if let Type::Path(p) = &*im.self_ty {
                        impls.push(p.path.segments.last().unwrap().ident.clone());
                    }
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            own(&mut f.sig);
                        }
                    }
                }
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        if let ReturnType::Type(_, t) = &f.sig.output {
                            let s = t.to_token_stream().to_string().replace(' ', "");
                            if s == format!("Box<dyn{}>", name) {
                                wrap_block(&mut f.block, &owned);
                            } else if s == format!("&dyn{}", name) {
                                wrap_block(&mut f.block, &by_ref);
                            }
                        }
                    }
                }
                Types(name).visit_item_impl_mut(&mut im);
                out.push(Item::Impl(im));
            }
            mut it => {
                Types(name).visit_item_mut(&mut it);
                out.push(it);
            }
        }
    }
    let arms = impls.iter();
    out.push(parse_quote!(enum #owned { #(#arms(Box<#arms>)),* }));
    if refs {
        let arms = impls.iter();
        out.push(parse_quote!(enum #by_ref<'a> { #(#arms(&'a #arms)),* }));
    }
    for x in &impls {
        let by = if refs {
            quote!(impl<'a> crate::vstd_model::VFrom<&'a #x> for #by_ref<'a> {
                open spec fn from_ens(t: &'a #x, r: Self) -> bool { r == #by_ref::#x(t) }
                fn v_from(t: &'a #x) -> (r: Self) { #by_ref::#x(t) }
            })
        } else {
            quote!()
        };
        let ts: TokenStream = quote! {
            impl crate::vstd_model::VFrom<Box<#x>> for #owned {
                open spec fn from_ens(t: Box<#x>, r: Self) -> bool { r == #owned::#x(t) }
                fn v_from(t: Box<#x>) -> (r: Self) { #owned::#x(t) }
            }
            #by
        };
        out.push(Item::Verbatim(ts));
    }
    for m in &methods {
        let mut sig = m.clone();
        let boxed = own(&mut sig);
        let f = &sig.ident;
        let args: Vec<TokenStream> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(t.pat.to_token_stream()),
                _ => None,
            })
            .collect();
        if boxed {
            let arms = impls.iter().map(|x| quote!(#owned::#x(n) => (*n).#f(#(#args),*)));
            out.push(parse_quote!(impl #owned { #sig { match self { #(#arms),* } } }));
        } else if !refs {
            let arms = impls.iter().map(|x| quote!(#owned::#x(n) => (**n).#f(#(#args),*)));
            out.push(parse_quote!(impl #owned { #sig { match self { #(#arms),* } } }));
        } else {
            let arms = impls.iter().map(|x| quote!(#by_ref::#x(n) => n.#f(#(#args),*)));
            out.push(parse_quote!(impl<'a> #by_ref<'a> { #sig { match self { #(#arms),* } } }));
        }
    }
    *items = out;
}

struct Refs<'a>(&'a str, bool);
impl<'a> syn::visit::Visit<'a> for Refs<'a> {
    fn visit_type(&mut self, t: &'a Type) {
        if t.to_token_stream().to_string().replace(' ', "") == format!("&dyn{}", self.0) {
            self.1 = true;
        }
        syn::visit::visit_type(self, t);
    }
}

/// A constant list of functions becomes a list of the names of what they call, and a call through the loop variable of
/// `for f in LIST` becomes a call of `call`, which calls the function of that name. Verus has no function pointers.
pub fn unpoint(items: &mut Vec<Item>, stats: &mut Stats) {
    let mut lists: Vec<Ident> = vec![];
    let mut out: Vec<Item> = vec![];
    for it in items.drain(..) {
        let Item::Const(mut k) = it else {
            out.push(it);
            continue;
        };
        let mut t = &*k.ty;
        while let Type::Reference(r) = t {
            t = &r.elem;
        }
        let elem = match t {
            Type::Slice(x) => &*x.elem,
            Type::Array(x) => &*x.elem,
            _ => {
                out.push(Item::Const(k));
                continue;
            }
        };
        let Type::BareFn(b) = elem else {
            out.push(Item::Const(k));
            continue;
        };
        let mut e = &mut *k.expr;
        while let Expr::Reference(r) = e {
            e = &mut r.expr;
        }
        let name = format_ident!("{}Fn", k.ident);
        let (mut variants, mut paths) = (vec![], vec![]);
        if let Expr::Array(a) = e {
            for x in a.elems.iter_mut() {
                if let Expr::Path(p) = x {
                    let v = format_ident!("{}", p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("_"));
                    if !variants.contains(&v) {
                        paths.push(p.clone());
                        variants.push(v.clone());
                    }
                    *x = parse_quote!(#name::#v);
                } else {
                    stats.problems.push(format!("const {}: not a list of names of functions", k.ident));
                }
            }
        } else {
            stats.problems.push(format!("const {}: not a list of functions", k.ident));
        }
        let params: Vec<TokenStream> = b.inputs.iter().enumerate().map(|(i, a)| { let n = format_ident!("a{}", i); let t = &a.ty; quote!(#n: #t) }).collect();
        let args: Vec<Ident> = (0..b.inputs.len()).map(|i| format_ident!("a{}", i)).collect();
        let ret = &b.output;
        let arms: Vec<TokenStream> = variants.iter().zip(&paths).map(|(v, p)| quote!(#name::#v => #p(#(#args),*))).collect();
        let f: Item = parse_quote!(impl #name { fn call(&self, #(#params),*) #ret { match self { #(#arms),* } } });
        let en: Item = parse_quote!(#[derive(Copy)] #[allow(non_camel_case_types)] enum #name { #(#variants),* });
        stats.hit("function-list");
        lists.push(k.ident.clone());
        struct Swap<'a>(&'a Ident);
        impl<'a> VisitMut for Swap<'a> {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if matches!(t, Type::BareFn(_)) {
                    let n = self.0;
                    *t = parse_quote!(#n);
                } else {
                    visit_mut::visit_type_mut(self, t);
                }
            }
        }
        Swap(&name).visit_type_mut(&mut k.ty);
        out.push(en);
        out.push(f);
        out.push(Item::Const(k));
    }
    struct Loops<'a>(&'a [Ident]);
    struct CallsOf(Ident);
    impl VisitMut for CallsOf {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.0)) {
                    let (x, args) = (&c.func, &c.args);
                    *e = parse_quote!(#x.call(#args));
                }
            }
        }
    }
    impl<'a> VisitMut for Loops<'a> {
        fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
            visit_mut::visit_expr_for_loop_mut(self, l);
            let over = match &*l.expr {
                Expr::Path(p) => self.0.iter().any(|n| p.path.is_ident(n)),
                Expr::MethodCall(m) => matches!(&*m.receiver, Expr::Path(p) if m.method == "iter" && self.0.iter().any(|n| p.path.is_ident(n))),
                _ => false,
            };
            if let (true, Pat::Ident(x)) = (over, &*l.pat) {
                CallsOf(x.ident.clone()).visit_block_mut(&mut l.body);
            }
        }
    }
    if !lists.is_empty() {
        out.iter_mut().for_each(|i| Loops(&lists).visit_item_mut(i));
    }
    *items = out;
}

/// `self: Box<Self>` becomes `self`.
fn own(sig: &mut Signature) -> bool {
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.ty.to_token_stream().to_string().replace(' ', "") == "Box<Self>" {
            sig.inputs[0] = parse_quote!(self);
            return true;
        }
    }
    false
}
