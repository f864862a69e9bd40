//! Mechanical rewriting of function bodies into the Verus dialect, and insertion of contracts.
//! Every rewrite is listed in DESIGN.md ("What the extraction changes"); each is counted in `Stats`.
use crate::contracts::FuncC;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Stats {
    pub rewrites: BTreeMap<&'static str, usize>,
    pub problems: Vec<String>,
}

impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.rewrites.entry(k).or_insert(0) += 1;
    }
}

pub struct Body<'a> {
    pub c: Option<&'a FuncC>,
    pub ufcs: bool,
    pub stats: &'a mut Stats,
    pub next_loop: usize,
    pub tmp: usize,
    pub break_targets: Vec<Option<Ident>>,
    /// Loops whose surrounding proof code has been placed.
    pub placed: std::collections::HashSet<usize>,
    pub let_seen: BTreeMap<String, usize>,
    pub call_seen: BTreeMap<String, usize>,
    pub assign_seen: BTreeMap<String, usize>,
    pub ret_seen: usize,
    pub scrut_seen: BTreeMap<String, usize>,
    pub sql: &'a [(String, String)],
    pub closure_seen: BTreeMap<String, usize>,
    pub fname: String,
}

fn verb(ts: TokenStream) -> Expr {
    Expr::Verbatim(ts)
}

/// Names of functions, methods and macros called directly in a statement (not in nested blocks).
struct Calls(Vec<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_block(&mut self, _: &'ast Block) {}
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        visit::visit_expr(self, &c.receiver);
        self.0.push(c.method.to_string());
        for a in &c.args {
            visit::visit_expr(self, a);
        }
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        self.0.push(m.path.segments.last().unwrap().ident.to_string());
    }
}

fn pat_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_name(&t.pat),
        Pat::Tuple(t) => t.elems.iter().filter_map(pat_name).next(),
        _ => None,
    }
}

pub fn probing() -> bool {
    std::env::var_os("PROBE").is_some()
}
pub fn probe() -> Stmt {
    thread_local!(static N: std::cell::Cell<usize> = std::cell::Cell::new(0));
    let k = N.with(|n| { n.set(n.get() + 1); n.get() });
    let k = proc_macro2::Literal::usize_unsuffixed(k);
    Stmt::Expr(verb(quote!(proof { assert(!crate::vstd_model::probed(#k)); })), None)
}
fn sanitize(s: &str) -> String {
    s.to_string()
}

/// Methods whose std form has no usable Verus specification; they are redirected to specified
/// equivalents in the stub modules (an assumed contract on the standard library each).
pub const METHODS: &[(&str, &str)] = &[
    ("as_deref_mut", "v_as_deref_mut"),
    ("chars", "v_chars"),
    ("len", "v_len"),
    ("is_empty", "v_is_empty"),
    ("insert_str", "v_insert_str"),
    ("iter", "v_iter"),
    ("into_iter", "v_into_iter"),
    ("rchunks", "v_rchunks"),
    ("keys", "v_keys"),
    ("trim_start", "v_trim_start"),
    ("trim", "v_trim"),
    ("trim_end_matches", "v_trim_end_matches"),
    ("strip_prefix", "v_strip_prefix"),
    ("split_once", "v_split_once"),
    ("split", "v_split"),
    ("make_ascii_uppercase", "v_make_ascii_uppercase"),
    ("to_ascii_uppercase", "v_to_ascii_uppercase"),
    ("is_ascii_whitespace", "v_is_ascii_whitespace"),
    ("is_ascii", "v_is_ascii"),
    ("to_lowercase", "v_to_lowercase"),
    ("to_string", "v_to_string"),
    ("sort_unstable", "v_sort_unstable"),
    ("sort", "v_sort"),
    ("join", "v_join"),
    ("as_bytes", "v_as_bytes"),
    ("checked_add", "v_checked_add"),
    ("contains", "v_contains"),
    ("ok_or", "v_ok_or"),
    ("into", "v_into"),
    ("try_into", "v_try_into"),
];

impl<'a> Body<'a> {
    fn fresh(&mut self, base: &str) -> Ident {
        self.tmp += 1;
        format_ident!("__{}_{}", base, self.tmp)
    }

    fn binop(op: &BinOp) -> Option<(&'static str, &'static str, bool)> {
        Some(match op {
            BinOp::Add(_) => ("VAdd", "v_add", false),
            BinOp::Sub(_) => ("VSub", "v_sub", false),
            BinOp::Mul(_) => ("VMul", "v_mul", false),
            BinOp::Div(_) => ("VDiv", "v_div", false),
            BinOp::Rem(_) => ("VRem", "v_rem", false),
            BinOp::Lt(_) => ("VCmp", "v_lt", true),
            BinOp::Le(_) => ("VCmp", "v_le", true),
            BinOp::Gt(_) => ("VCmp", "v_gt", true),
            BinOp::Ge(_) => ("VCmp", "v_ge", true),
            BinOp::Eq(_) => ("VEq", "v_eq", true),
            BinOp::Ne(_) => ("VEq", "v_ne", true),
            _ => return None,
        })
    }

    fn anchors(&mut self, kind: &str, name: &str, index: usize) -> Vec<TokenStream> {
        let mut out = Vec::new();
        if let Some(c) = self.c {
            for a in &c.anchors {
                if a.kind == kind && a.name == name && a.index == index {
                    a.used.set(true);
                    out.push(a.code.clone());
                }
            }
        }
        out
    }

    pub fn do_block(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out: Vec<Stmt> = Vec::new();
        for (i, mut s) in stmts.into_iter().enumerate() {
            let mut before: Vec<TokenStream> = Vec::new();
            let mut after: Vec<TokenStream> = Vec::new();
            if let Stmt::Local(l) = &mut s {
                // The stub transaction is changed through `&mut self`.
                if let (Pat::Ident(p), Some(init)) = (&mut l.pat, &l.init) {
                    if p.mutability.is_none() && init.expr.to_token_stream().to_string().replace(' ', "").ends_with(".transaction()?") {
                        p.mutability = Some(Default::default());
                    }
                }
            }
            if let Stmt::Local(l) = &s {
                if let Some(name) = pat_name(&l.pat) {
                    let k = self.let_seen.entry(name.clone()).or_insert(0);
                    let idx = *k;
                    *k += 1;
                    before.extend(self.anchors("before_let", &name, idx));
                    after.extend(self.anchors("after_let", &name, idx));
                }
            }
            if let Stmt::Expr(Expr::Assign(a), _) = &s {
                let name = a.left.to_token_stream().to_string().replace(' ', "").replace('.', "_").replace("*", "");
                let k = self.assign_seen.entry(name.clone()).or_insert(0);
                let idx = *k;
                *k += 1;
                after.extend(self.anchors("after_assign", &name, idx));
            }
            let mut calls = Calls(vec![]);
            match &s {
                Stmt::Expr(e, _) => calls.visit_expr(e),
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        calls.visit_expr(&i.expr)
                    }
                }
                Stmt::Macro(m) => calls.visit_macro(&m.mac),
                _ => {}
            }
            for name in calls.0 {
                let k = self.call_seen.entry(name.clone()).or_insert(0);
                let idx = *k;
                *k += 1;
                before.extend(self.anchors("before_call", &name, idx));
                after.extend(self.anchors("after_call", &name, idx));
                if let Stmt::Local(l) = &s {
                    let direct = l.init.as_ref().map_or(false, |i| matches!(&*i.expr, Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_)));
                    if let (true, Some(v)) = (direct, pat_name(&l.pat)) {
                        let v = format_ident!("{}", v);
                        for a in self.anchors("scrutinee", &name, idx) {
                            after.push(quote!(let __seen = #v; #a));
                        }
                    }
                }
            }
            let loops_before = self.next_loop;
            // `let x = loop { .. break v; .. }`: Verus has no `break` with a value, so the variable is
            // declared first and assigned before a plain `break`.
            let mut extra: Vec<Stmt> = Vec::new();
            let mut handled = false;
            if let Stmt::Local(l) = &mut s {
                if let Some(init) = &mut l.init {
                    if let Expr::Loop(lp) = &mut *init.expr {
                        let name = match &l.pat {
                            Pat::Ident(i) => Some(i.ident.clone()),
                            Pat::Type(t) => match &*t.pat {
                                Pat::Ident(i) => Some(i.ident.clone()),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(name) = name {
                            self.stats.hit("break-value");
                            self.break_targets.push(Some(name));
                            let e = self.do_loop(Expr::Loop(lp.clone()));
                            self.break_targets.pop();
                            let pat = &l.pat;
                            extra.push(Stmt::Expr(verb(quote!(let #pat;)), None));
                            extra.push(Stmt::Expr(e, None));
                            handled = true;
                        }
                    }
                }
            }
            // Loops nested in this one are handled inside its body.
            let own = matches!(&s, Stmt::Expr(Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_), _));
            if !handled {
                self.visit_stmt_mut(&mut s);
            }
            // Proof code around loops that are a whole statement.
            let mut around: Vec<(TokenStream, TokenStream)> = vec![];
            if let Some(c) = self.c {
                let end = if own || handled { self.next_loop.min(loops_before + 1) } else { self.next_loop };
                for k in loops_before..end {
                    // A loop in a block of its own has had its proof code placed there.
                    if !self.placed.insert(k) {
                        continue;
                    }
                    if let Some(l) = c.loops.get(&k) {
                        around.push((l.before.clone(), l.after.clone()));
                    }
                }
            }
            for t in before {
                out.push(Stmt::Expr(verb(quote!(proof { #t })), None));
            }
            for (bf, _) in &around {
                if !bf.is_empty() {
                    out.push(Stmt::Expr(verb(quote!(#bf)), None));
                }
            }
            let is_tail = i + 1 == n && matches!(&s, Stmt::Expr(_, None));
            let after_any: Vec<TokenStream> = around.iter().map(|a| a.1.clone()).filter(|t| !t.is_empty()).collect();
            if handled {
                out.extend(extra);
            } else if is_tail && (!after.is_empty()) {
                let t = format_ident!("__tail");
                if let Stmt::Expr(e, None) = &s {
                    out.push(Stmt::Expr(verb(quote!(let #t = #e;)), None));
                }
                for a in &after {
                    out.push(Stmt::Expr(verb(quote!(proof { #a })), None));
                }
                after.clear();
                out.push(Stmt::Expr(verb(quote!(#t)), None));
            } else {
                out.push(s);
            }
            for t in after_any {
                out.push(Stmt::Expr(verb(quote!(#t)), None));
            }
            for t in after {
                out.push(Stmt::Expr(verb(quote!(proof { #t })), None));
            }
        }
        // With PROBE set, every place in the text is asked to be shown unreachable, which must never succeed.
        if probing() {
            let mut with: Vec<Stmt> = Vec::new();
            let tail = matches!(out.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Verbatim(_)));
            let left = matches!(out.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), _))) || out.last().map_or(false, |s| s.to_token_stream().to_string().contains("v_panic"));
            for s in out {
                with.push(probe());
                with.push(s);
            }
            if !tail && !left && !matches!(with.last(), Some(Stmt::Expr(Expr::Verbatim(_), None))) {
                with.push(probe());
            }
            out = with;
        }
        b.stmts = out;
    }

    fn do_loop(&mut self, e: Expr) -> Expr {
        let idx = self.next_loop;
        self.next_loop += 1;
        let lc = self.c.and_then(|c| c.loops.get(&idx)).cloned().unwrap_or_default();
        let (spec, start, end, attr) = (lc.spec, lc.start, lc.end, lc.attr);
        match while_let(e) {
            Expr::Loop(mut l) => {
                self.do_block(&mut l.body);
                let b = &l.body.stmts;
                let label = &l.label;
                let start = wrap(start);
                let end = wrap(end);
                verb(quote!(#attr #label loop #spec { #start #(#b)* #end }))
            }
            Expr::While(mut l) => {
                self.visit_expr_mut(&mut l.cond);
                self.do_block(&mut l.body);
                let b = &l.body.stmts;
                let cond = &l.cond;
                let label = &l.label;
                let start = wrap(start);
                let end = wrap(end);
                verb(quote!(#attr #label while #cond #spec { #start #(#b)* #end }))
            }
            Expr::ForLoop(mut l) => {
                // `for p in e { b }` is `let mut it = e.into_iter(); loop { match it.next() {
                // Some(p) => { b } None => break } }`.
                self.stats.hit("for-desugar");
                self.visit_expr_mut(&mut l.expr);
                self.do_block(&mut l.body);
                let it = match &lc.iter_name {
                    Some(n) => format_ident!("{}", n),
                    None => self.fresh("iter"),
                };
                let b = &l.body.stmts;
                let ex = &l.expr;
                let pat = &l.pat;
                let label = &l.label;
                let start = wrap(start);
                let end = wrap(end);
                let init = lc.init;
                verb(quote!(
                    let mut #it = crate::vstd_model::VIntoIter::v_into_iter(#ex);
                    #init
                    #attr #label loop #spec {
                        match #it.next() {
                            Some(#pat) => { #start #(#b)* #end }
                            None => break,
                        }
                    }
                ))
            }
            _ => unreachable!(),
        }
    }

    fn expand_format(&mut self, ts: TokenStream) -> Option<Expr> {
        // format!("literal {} {name} {:spec}", args..)
        let args: Vec<Expr> = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts)
            .ok()?
            .into_iter()
            .collect();
        let mut it = args.into_iter();
        let lit = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            Expr::Macro(m) => concat_value(&m.mac)?,
            _ => return None,
        };
        let mut pos: Vec<Expr> = vec![];
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        for a in it {
            match a {
                Expr::Assign(x) => {
                    named.insert(x.left.to_token_stream().to_string(), *x.right);
                }
                e => pos.push(e),
            }
        }
        let mut parts: Vec<TokenStream> = vec![];
        let mut cur = String::new();
        let mut next = 0usize;
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                cur.push('{');
                i += 2;
            } else if cs[i] == '}' {
                cur.push('}');
                i += 2;
            } else if cs[i] == '{' {
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '}' {
                    j += 1;
                }
                let inner: String = cs[i + 1..j].iter().collect();
                i = j + 1;
                if !cur.is_empty() {
                    let l = LitStr::new(&cur, Span::call_site());
                    parts.push(quote!(s = crate::vstd_model::v_cat_str(s, #l);));
                    cur.clear();
                }
                let (arg, spec) = match inner.split_once(':') {
                    Some((a, s)) => (a.to_string(), s.to_string()),
                    None => (inner.clone(), String::new()),
                };
                let mut e = if arg.is_empty() {
                    let e = pos.get(next)?.clone();
                    next += 1;
                    e
                } else if let Ok(k) = arg.parse::<usize>() {
                    pos.get(k)?.clone()
                } else {
                    match named.get(&arg) {
                        Some(e) => e.clone(),
                        None => parse_str(&arg).ok()?,
                    }
                };
                self.visit_expr_mut(&mut e);
                if spec.is_empty() {
                    parts.push(quote!(s = crate::vstd_model::v_cat_disp(s, &(#e));));
                } else {
                    // [[fill]align][0][width$]
                    let sc: Vec<char> = spec.chars().collect();
                    let (fill, align, rest) = if sc.len() >= 2 && "<>^".contains(sc[1]) {
                        (sc[0], sc[1], sc[2..].iter().collect::<String>())
                    } else if !sc.is_empty() && "<>^".contains(sc[0]) {
                        (' ', sc[0], sc[1..].iter().collect())
                    } else {
                        (' ', '<', spec.clone())
                    };
                    let w = if let Some(n) = rest.strip_suffix('$') {
                        match named.get(n) {
                            Some(e) => {
                                let mut e = e.clone();
                                self.visit_expr_mut(&mut e);
                                e
                            }
                            None => parse_str(n).ok()?,
                        }
                    } else {
                        parse_str(&format!("{}usize", rest.parse::<usize>().ok()?)).ok()?
                    };
                    let f = LitChar::new(fill, Span::call_site());
                    let fun = match align {
                        '>' => quote!(v_cat_pad_left),
                        '<' => quote!(v_cat_pad_right),
                        _ => return None,
                    };
                    parts.push(quote!(s = crate::vstd_model::#fun(s, &(#e), #f, #w);));
                }
            } else {
                cur.push(cs[i]);
                i += 1;
            }
        }
        if !cur.is_empty() {
            let l = LitStr::new(&cur, Span::call_site());
            parts.push(quote!(s = crate::vstd_model::v_cat_str(s, #l);));
        }
        Some(verb(quote!({ let mut s = crate::vstd_model::v_string_new(); #(#parts)* s })))
    }

    /// `c.execute("SQL", params)` and `c.query_row("SQL", params, |row| ..)`: the statement text, with
    /// blanks collapsed and named parameters numbered in order of appearance, selects the assumed
    /// contract (contracts/sql.txt); the row closure must return column 0, or columns 0 and 1.
    fn do_sql(&mut self, mc: &mut ExprMethodCall) -> Option<Expr> {
        let sql = match mc.args.first()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut params: Vec<(String, Expr)> = vec![];
        match mc.args.get(1)? {
            Expr::Tuple(t) if t.elems.is_empty() => {}
            Expr::Macro(m) if m.mac.path.is_ident("named_params") => {
                for a in syn::parse::Parser::parse2(punctuated::Punctuated::<NamedParam, Token![,]>::parse_terminated, m.mac.tokens.clone()).ok()? {
                    params.push((a.name.value(), a.value));
                }
            }
            _ => return None,
        }
        let mut out = String::new();
        let mut order: Vec<String> = vec![];
        let cs: Vec<char> = sql.split_whitespace().collect::<Vec<_>>().join(" ").trim_end_matches(';').chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == ':' {
                let mut j = i + 1;
                while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                    j += 1;
                }
                let name: String = cs[i..j].iter().collect();
                let k = match order.iter().position(|x| *x == name) {
                    Some(k) => k,
                    None => {
                        order.push(name);
                        order.len() - 1
                    }
                };
                out.push_str(&format!("?{}", k + 1));
                i = j;
            } else {
                out.push(cs[i]);
                i += 1;
            }
        }
        let method = self.sql.iter().find(|(s, _)| *s == out).map(|x| x.1.clone());
        let method = match method {
            Some(m) => format_ident!("{}", m),
            None => {
                self.stats.problems.push(format!("{}: no contract for statement: {}", self.fname, out));
                format_ident!("sql_unknown")
            }
        };
        if order.len() != params.len() {
            self.stats.problems.push(format!("{}: parameters of {}", self.fname, out));
        }
        let mut vals = vec![];
        for n in &order {
            match params.iter().find(|p| p.0 == *n) {
                Some(p) => {
                    let mut e = p.1.clone();
                    self.visit_expr_mut(&mut e);
                    vals.push(quote!(crate::rusqlite::ToSql::v_sql(&(#e))));
                }
                None => self.stats.problems.push(format!("{}: parameter {} of {}", self.fname, n, out)),
            }
        }
        if let Some(c) = mc.args.get(2) {
            let want = if out.starts_with("SELECT input, prev") || out.starts_with("SELECT numer, denom") { "Ok((row.get(0)?,row.get(1)?))" } else { "row.get(0)" };
            let got = match c {
                Expr::Closure(c) => c.body.to_token_stream().to_string().replace(' ', ""),
                _ => String::new(),
            };
            if got != want {
                self.stats.problems.push(format!("{}: row reader of {}: {}", self.fname, out, got));
            }
        }
        self.stats.hit("sql");
        self.visit_expr_mut(&mut mc.receiver);
        let r = &mc.receiver;
        Some(verb(quote!(#r.#method(vec![#(#vals),*]))))
    }

    fn do_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "format" => {
                self.stats.hit("format");
                self.expand_format(m.tokens.clone())
            }
            "println" | "eprintln" | "print" | "eprint" => {
                self.stats.hit("print");
                let err = name.starts_with('e');
                let text = if m.tokens.is_empty() { verb(quote!(crate::vstd_model::v_string_new())) } else { self.expand_format(m.tokens.clone())? };
                Some(if err { verb(quote!(crate::vstd_model::v_eprint(&#text))) } else { verb(quote!(crate::vstd_model::v_print(&#text))) })
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.stats.hit("panic");
                Some(verb(quote!(crate::vstd_model::v_panic())))
            }
            "assert_eq" => {
                let args: Vec<Expr> =
                    syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone())
                        .ok()?
                        .into_iter()
                        .collect();
                let (mut a, mut b) = (args.get(0)?.clone(), args.get(1)?.clone());
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                Some(verb(quote!(crate::vstd_model::v_assert(#a == #b))))
            }
            "assert" | "debug_assert" => {
                let args: Vec<Expr> =
                    syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone())
                        .ok()?
                        .into_iter()
                        .collect();
                let mut a = args.get(0)?.clone();
                self.visit_expr_mut(&mut a);
                Some(verb(quote!(crate::vstd_model::v_assert(#a))))
            }
            "concat" => {
                self.stats.hit("concat");
                let s = concat_value(m)?;
                let l = LitStr::new(&s, Span::call_site());
                Some(verb(quote!(#l)))
            }
            "vec" => {
                let args = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone()).ok()?;
                let mut v: Vec<Expr> = args.into_iter().collect();
                for e in &mut v {
                    self.visit_expr_mut(e);
                }
                Some(verb(quote!(vec![#(#v),*])))
            }
            "queue" | "execute" => {
                // The commands are written one after the other, up to the first that cannot be.
                let args: Vec<Expr> =
                    syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone())
                        .ok()?
                        .into_iter()
                        .collect();
                self.stats.hit("terminal");
                let out = args.get(0)?;
                let mut puts = vec![];
                for a in &args[1..] {
                    let mut a = a.clone();
                    self.visit_expr_mut(&mut a);
                    puts.push(quote!(let __put = match __put { Ok(()) => crate::crossterm::v_put(&mut #out, &(#a)), Err(__e) => Err(__e) };));
                }
                if name == "execute" {
                    puts.push(quote!(let __put = match __put { Ok(()) => #out.flush(), Err(__e) => Err(__e) };));
                }
                Some(verb(quote!({ let __put: Result<(), crate::vstd_model::io::Error> = Ok(()); #(#puts)* __put })))
            }
            "named_params" => {
                self.stats.hit("named_params");
                // named_params! { ":k": e, .. } -> [(":k", (&(e)).v_sql()), ..] in literal order
                let args = syn::parse::Parser::parse2(punctuated::Punctuated::<NamedParam, Token![,]>::parse_terminated, m.tokens.clone()).ok()?;
                let mut ps = vec![];
                for a in args {
                    let mut e = a.value;
                    self.visit_expr_mut(&mut e);
                    let k = a.name;
                    ps.push((k.value(), quote!(crate::rusqlite::ToSql::v_sql(&(#e)))));
                }
                let items = ps.iter().map(|(k, v)| {
                    let l = LitStr::new(k, Span::call_site());
                    quote!((#l, #v))
                });
                Some(verb(quote!(vec![#(#items),*])))
            }
            _ => None,
        }
    }
}

struct NamedParam {
    name: LitStr,
    value: Expr,
}
impl parse::Parse for NamedParam {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let name = i.parse()?;
        i.parse::<Token![:]>()?;
        Ok(NamedParam { name, value: i.parse()? })
    }
}

/// A closure passed to a method: the contract's header (typed parameters, result, ensures) in front
/// of the code's own parameter patterns and body.
fn with_header(c: &ExprClosure, hdr: &TokenStream) -> Option<Expr> {
    use proc_macro2::TokenTree;
    let v: Vec<TokenTree> = hdr.clone().into_iter().collect();
    let bars: Vec<usize> = v.iter().enumerate().filter(|(_, t)| matches!(t, TokenTree::Punct(p) if p.as_char() == '|')).map(|(i, _)| i).collect();
    let params: TokenStream = v[bars.first()? + 1..*bars.get(1)?].iter().cloned().collect();
    let rest: TokenStream = v[bars[1] + 1..].iter().cloned().collect();
    let args: Vec<FnArg> = syn::parse::Parser::parse2(punctuated::Punctuated::<FnArg, Token![,]>::parse_terminated, params.clone()).ok()?.into_iter().collect();
    if args.len() != c.inputs.len() {
        return None;
    }
    let mut binds = vec![];
    for (a, p) in args.iter().zip(&c.inputs) {
        let n = match a {
            FnArg::Typed(t) => &t.pat,
            _ => return None,
        };
        if n.to_token_stream().to_string() != p.to_token_stream().to_string() {
            binds.push(quote!(let #p = #n;));
        }
    }
    let body = &c.body;
    let mv = &c.capture;
    Some(verb(quote!(#mv |#params| #rest { #(#binds)* #body })))
}

fn wrap(t: TokenStream) -> TokenStream {
    if t.is_empty() {
        t
    } else {
        quote!(proof { #t })
    }
}

pub fn concat_value(m: &Macro) -> Option<String> {
    let args: Vec<Lit> =
        syn::parse::Parser::parse2(punctuated::Punctuated::<Lit, Token![,]>::parse_terminated, m.tokens.clone())
            .ok()?
            .into_iter()
            .collect();
    let mut s = String::new();
    for a in args {
        match a {
            Lit::Str(x) => s.push_str(&x.value()),
            _ => return None,
        }
    }
    Some(s)
}

/// `match text { "a" | "b" => x, "c" if g => y, _ => z }` as comparisons, one after the other.
fn compared(e: &Expr) -> Option<Expr> {
    let m = match e {
        Expr::Match(m) => m,
        _ => return None,
    };
    fn lits(p: &Pat) -> Option<Vec<&Lit>> {
        match p {
            Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![&l.lit]),
            Pat::Paren(p) => lits(&p.pat),
            Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
            _ => None,
        }
    }
    let (last, arms) = m.arms.split_last()?;
    if arms.is_empty() || last.guard.is_some() {
        return None;
    }
    let mut out: Expr = match &last.pat {
        Pat::Wild(_) => (*last.body).clone(),
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
            let b = &last.body;
            parse_quote!({ let #i = __text; #b })
        }
        _ => return None,
    };
    for a in arms.iter().rev() {
        let l = lits(&a.pat)?;
        let b = &a.body;
        let tests = quote!(#(__text == #l)||*);
        out = match &a.guard {
            Some((_, g)) => parse_quote!(if (#tests) && (#g) { #b } else { #out }),
            None => parse_quote!(if #tests { #b } else { #out }),
        };
    }
    let x = &m.expr;
    // A variable keeps its name.
    let named = matches!(&**x, Expr::Path(p) if p.path.get_ident().is_some());
    if named {
        struct Named<'a>(&'a Expr);
        impl<'a> VisitMut for Named<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if e.to_token_stream().to_string() == "__text" {
                    *e = self.0.clone();
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        Named(x).visit_expr_mut(&mut out);
        Some(out)
    } else {
        Some(parse_quote!({ let __text = #x; #out }))
    }
}

impl<'a> VisitMut for Body<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.do_block(b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            match self.do_macro(&mac) {
                Some(e) => *s = Stmt::Expr(verb(quote!(#e)), Some(Default::default())),
                None => self.stats.problems.push(format!("{}: macro {} not handled", self.fname, mac.path.to_token_stream())),
            }
            return;
        }
        if let Stmt::Local(l) = s {
            // Named closures get their contract from the contract file.
            if let (Some(name), Some(init)) = (pat_name(&l.pat), &mut l.init) {
                if let (Expr::Closure(c), Some(fc)) = (&mut *init.expr, self.c) {
                    if let Some((ret, spec)) = fc.closures.get(&name) {
                        self.visit_expr_mut(&mut c.body);
                        let inputs = &c.inputs;
                        let body = &c.body;
                        let mv = &c.capture;
                        let r = match (&c.output, ret) {
                            (ReturnType::Type(_, t), Some(r)) => {
                                let r = format_ident!("{}", r);
                                quote!(-> (#r: #t))
                            }
                            (o, _) => quote!(#o),
                        };
                        let body = match &**body {
                            Expr::Block(b) => quote!(#b),
                            e => quote!({ #e }),
                        };
                        let pat = &l.pat;
                        *s = Stmt::Expr(verb(quote!(let #pat = #mv |#inputs| #r #spec #body;)), None);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if probing() && !matches!(&*a.body, Expr::Block(_)) {
            let (p, e) = (probe(), &a.body);
            a.body = Box::new(verb(quote!({ #p #e })));
            a.comma = Some(Default::default());
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(x) = compared(e) {
            *self.stats.rewrites.entry("match-on-text").or_insert(0) += 1;
            *e = x;
        }
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                let x = std::mem::replace(e, Expr::PLACEHOLDER);
                self.break_targets.push(None);
                *e = self.do_loop(x);
                self.break_targets.pop();
                return;
            }
            Expr::Break(b) => {
                if let Some(v) = &mut b.expr {
                    let mut v = v.clone();
                    self.visit_expr_mut(&mut v);
                    match self.break_targets.last() {
                        Some(Some(t)) => {
                            let t = t.clone();
                            *e = verb(quote!({ #t = #v; break; }));
                        }
                        _ => self.stats.problems.push(format!("{}: break with value", self.fname)),
                    }
                }
                return;
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                match self.do_macro(&mac) {
                    Some(x) => *e = x,
                    None => self.stats.problems.push(format!("{}: macro {} not handled", self.fname, mac.path.to_token_stream())),
                }
                return;
            }
            Expr::Try(t) => {
                // `x?` in a function returning Result.
                self.stats.hit("try");
                self.visit_expr_mut(&mut t.expr);
                let x = &t.expr;
                *e = verb(quote!((match #x { Ok(__v) => __v, Err(__e) => return Err(crate::vstd_model::VFrom::v_from(__e)) })));
                return;
            }
            Expr::Index(ix) => {
                self.visit_expr_mut(&mut ix.expr);
                if let Expr::Range(r) = &mut *ix.index {
                    if let (Some(a), Some(b)) = (&mut r.start, &mut r.end) {
                        self.visit_expr_mut(a);
                        self.visit_expr_mut(b);
                        self.stats.hit("str-slice");
                        let x = &ix.expr;
                        *e = verb(quote!((*crate::vstd_model::VSlice::v_slice(&#x, #a, #b))));
                        return;
                    }
                }
                self.visit_expr_mut(&mut ix.index);
                if let Expr::Reference(_) = &*ix.index {
                    // map[&key]
                    self.stats.hit("map-index");
                    let x = &ix.expr;
                    let k = &ix.index;
                    *e = verb(quote!((*crate::vstd_model::v_map_index(&#x, #k))));
                }
                return;
            }
            Expr::Closure(c) => {
                self.visit_expr_mut(&mut c.body);
                return;
            }
            Expr::MethodCall(mc) => {
                let name = mc.method.to_string();
                if (name == "execute" || name == "query_row") && matches!(mc.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) {
                    match self.do_sql(mc) {
                        Some(x) => *e = x,
                        None => self.stats.problems.push(format!("{}: database call not handled", self.fname)),
                    }
                    return;
                }
                // Option/Result combinators with a closure literal become the `match` that they
                // abbreviate, so that the verifier sees the closure body in place.
                if mc.args.len() == 1 {
                    if let Expr::Closure(c) = &mc.args[0] {
                        let c = c.clone();
                        match (name.as_str(), c.inputs.len()) {
                            ("ok_or_else", 0) => {
                                self.stats.hit("ok_or_else");
                                self.visit_expr_mut(&mut mc.receiver);
                                let mut body = (*c.body).clone();
                                self.visit_expr_mut(&mut body);
                                let r = &mc.receiver;
                                *e = verb(quote!((match #r { Some(__v) => Ok(__v), None => Err(#body) })));
                                return;
                            }
                            ("map_err", 1) => {
                                self.stats.hit("map_err");
                                self.visit_expr_mut(&mut mc.receiver);
                                let mut body = (*c.body).clone();
                                self.visit_expr_mut(&mut body);
                                let r = &mc.receiver;
                                let p = &c.inputs[0];
                                *e = verb(quote!((match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#body) })));
                                return;
                            }
                            _ => {}
                        }
                    }
                }
                self.visit_expr_mut(&mut mc.receiver);
                for a in mc.args.iter_mut() {
                    if let Expr::Closure(c) = a {
                        let k = self.closure_seen.entry(name.clone()).or_insert(0);
                        let idx = *k;
                        *k += 1;
                        if let Some((hdr, used)) = self.c.and_then(|f| f.inline.get(&(name.clone(), idx))) {
                            used.set(true);
                            self.visit_expr_mut(&mut c.body);
                            match with_header(c, hdr) {
                                Some(x) => *a = x,
                                None => self.stats.problems.push(format!("{}: closure of {} {} does not fit its contract", self.fname, name, idx)),
                            }
                            continue;
                        }
                    }
                    self.visit_expr_mut(a);
                }
                if let Some(t) = &mut mc.turbofish {
                    for g in t.args.iter_mut() {
                        self.visit_generic_argument_mut(g);
                    }
                }
                for (a, b) in METHODS {
                    if name == *a {
                        self.stats.hit("std-method");
                        mc.method = Ident::new(b, mc.method.span());
                    }
                }
                return;
            }
            Expr::Binary(b) => {
                visit_mut::visit_expr_binary_mut(self, b);
                if self.ufcs {
                    if let Some((tr, f, by_ref)) = Self::binop(&b.op) {
                        self.stats.hit("operator");
                        let (l, r) = (&b.left, &b.right);
                        let tr = format_ident!("{}", tr);
                        let f = format_ident!("{}", f);
                        *e = if by_ref {
                            verb(quote!(crate::vstd_model::#tr::#f(&(#l), &(#r))))
                        } else {
                            verb(quote!(crate::vstd_model::#tr::#f(#l, #r)))
                        };
                    }
                }
                return;
            }
            Expr::Unary(u) => {
                visit_mut::visit_expr_unary_mut(self, u);
                if self.ufcs {
                    if let UnOp::Neg(_) = u.op {
                        self.stats.hit("operator");
                        let x = &u.expr;
                        *e = verb(quote!(crate::vstd_model::VNeg::v_neg(#x)));
                    }
                }
                return;
            }
            Expr::Assign(a) => {
                visit_mut::visit_expr_assign_mut(self, a);
                return;
            }
            Expr::Return(_) => {
                visit_mut::visit_expr_mut(self, e);
                let idx = self.ret_seen;
                self.ret_seen += 1;
                let pr = self.anchors("before_return", "k", idx);
                if !pr.is_empty() {
                    let x = &*e;
                    *e = verb(quote!({ #(proof { #pr })* #x }));
                }
                return;
            }
            Expr::Match(m) => {
                // `scrutinee NAME {..}`: proof code that sees the value matched on, as `__seen`.
                let mut calls = Calls(vec![]);
                calls.visit_expr(&m.expr);
                let mut code = vec![];
                for n in &calls.0 {
                    let k = self.scrut_seen.entry(n.clone()).or_insert(0);
                    let idx = *k;
                    *k += 1;
                    code.extend(self.anchors("scrutinee", n, idx));
                }
                visit_mut::visit_expr_match_mut(self, m);
                if !code.is_empty() {
                    let x = &m.expr;
                    m.expr = Box::new(verb(quote!({ let __seen = #x; #(proof { #code })* __seen })));
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_lit_mut(&mut self, l: &mut Lit) {
        if let Lit::Byte(b) = l {
            *l = Lit::Int(LitInt::new(&format!("{}u8", b.value()), b.span()));
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        fix_type(t);
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &mut *c.func {
            let n = p.path.segments.len();
            let last_name = p.path.segments[n - 1].ident.to_string();
            if n == 2 && p.qself.is_none() && last_name == "from_utf8" && p.path.segments[0].ident == "String" {
                self.stats.hit("from_utf8");
                *c.func = verb(quote!(crate::vstd_model::v_string_from_utf8));
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            if n >= 2 && p.qself.is_none() && (last_name == "from" || last_name == "try_from" || last_name == "from_iter") {
                let last = p.path.segments.pop().unwrap().into_value();
                p.path.segments.pop_punct();
                fix_path(&mut p.path);
                let t = &p.path;
                self.stats.hit("from");
                let f = if last.ident == "from" { quote!(<#t as crate::vstd_model::VFrom<_>>::v_from) } else if last.ident == "from_iter" { quote!(<#t as crate::vstd_model::VFromIter<_>>::v_from_iter) } else { quote!(<#t as crate::vstd_model::VTryFrom<_>>::v_try_from) };
                *c.func = verb(f);
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
}

pub fn fix_type(t: &mut Type) {
    let s = t.to_token_stream().to_string().replace(' ', "");
    if s == "Box<dynstd::error::Error>" || s == "Box<dynError>" {
        *t = syn::parse_quote!(crate::vstd_model::BoxError);
    }
}

pub fn fix_path(p: &mut Path) {
    if p.segments.len() == 1 && p.segments[0].ident == "Into" {
        p.segments[0].ident = Ident::new("VInto", Span::call_site());
    }
    if p.segments.len() > 2 && p.segments[0].ident == "std" && p.segments[1].ident == "iter" {
        let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
        let mut q: Path = syn::parse_quote!(crate::vstd_model);
        q.segments.extend(rest);
        *p = q;
    }
    if let Some(f) = p.segments.first() {
        let n = f.ident.to_string();
        if (n == "num" || n == "rusqlite" || n == "crossterm") && p.segments.len() > 1 && p.leading_colon.is_none() {
            p.segments.insert(0, PathSegment::from(Ident::new("crate", Span::call_site())));
        }
    }
    let _ = sanitize;
}

/// `while let p = e { b }` is `loop { match e { p => { b } _ => break } }`, and with `Some(x)` for `p` that is
/// `loop { let x = match e { Some(x) => x, None => break }; b }`.
fn while_let(e: Expr) -> Expr {
    let w = match e {
        Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => w,
        other => return other,
    };
    let (pat, ex) = match *w.cond {
        Expr::Let(l) => (*l.pat, *l.expr),
        _ => unreachable!(),
    };
    let inner = match &pat {
        Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => match &t.elems[0] {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.clone()),
            _ => None,
        },
        _ => None,
    };
    let b = &w.body;
    let body: Block = match inner {
        Some(i) => {
            let stmts = &b.stmts;
            let name = &i.ident;
            parse_quote!({ let #i = match #ex { Some(#name) => #name, None => break, }; #(#stmts)* })
        }
        None => parse_quote!({ match #ex { #pat => #b _ => break, } }),
    };
    Expr::Loop(ExprLoop { attrs: w.attrs, label: w.label, loop_token: Default::default(), body })
}
