//! Reader for the contract files (`/verif/contracts/*.vc`). They are Rust token streams:
//!
//!   opts { ufcs; }
//!   drop { Name, Other::method }
//!   clone { Position, Token }
//!   items { <Verus items, emitted verbatim> }
//!   inject "impl Trait for Type" { <Verus items placed inside that impl/trait> }
//!   func "Type::method" { ret r; spec { .. } entry { .. } loop 0 { spec {..} start {..} .. } .. }
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct LoopC {
    pub spec: TokenStream,
    pub start: TokenStream,
    /// Between making the iterator and the loop over it.
    pub init: TokenStream,
    pub end: TokenStream,
    pub before: TokenStream,
    pub after: TokenStream,
    pub attr: TokenStream,
    pub iter_name: Option<String>,
}

#[derive(Clone)]
pub struct Anchor {
    pub kind: String, // after_let, before_let, after_call, before_call, arm
    pub name: String,
    pub index: usize,
    pub code: TokenStream,
    pub used: std::cell::Cell<bool>,
}

#[derive(Default, Clone)]
pub struct FuncC {
    pub ret: Option<String>,
    pub spec: TokenStream,
    pub entry: TokenStream,
    pub attr: TokenStream,
    pub loops: BTreeMap<usize, LoopC>,
    pub anchors: Vec<Anchor>,
    pub closures: BTreeMap<String, (Option<String>, TokenStream)>,
    /// (method the closure is passed to, occurrence) -> header `|p: T| -> (r: U) ensures ..`
    pub inline: BTreeMap<(String, usize), (TokenStream, std::cell::Cell<bool>)>,
    pub external: bool,
    /// `literals;`: the text of every string literal in the body is made known to the verifier
    pub literals: bool,
    pub props: Vec<String>,
    pub retype: BTreeMap<String, TokenStream>,
    pub used: std::cell::Cell<bool>,
}

#[derive(Default)]
pub struct ModC {
    pub ufcs: bool,
    pub drop: Vec<String>,
    pub clone: Vec<String>,
    pub undyn: Vec<String>,
    pub items: TokenStream,
    pub injects: Vec<(String, TokenStream, std::cell::Cell<bool>)>,
    pub funcs: BTreeMap<String, FuncC>,
    pub consts: BTreeMap<String, TokenStream>,
}

struct P {
    t: Vec<TokenTree>,
    i: usize,
    file: String,
}

impl P {
    fn new(ts: TokenStream, file: &str) -> P {
        P { t: ts.into_iter().collect(), i: 0, file: file.to_string() }
    }
    fn fail(&self, m: &str) -> ! {
        let at = self.t.get(self.i.min(self.t.len().saturating_sub(1))).map(|t| format!("{:?} {}", t.span().start(), t));
        eprintln!("contract file {}: {} at {:?}", self.file, m, at);
        std::process::exit(3)
    }
    fn done(&self) -> bool {
        self.i >= self.t.len()
    }
    fn ident(&mut self) -> String {
        match self.t.get(self.i) {
            Some(TokenTree::Ident(i)) => {
                self.i += 1;
                i.to_string()
            }
            _ => self.fail("identifier expected"),
        }
    }
    fn string(&mut self) -> String {
        match self.t.get(self.i) {
            Some(TokenTree::Literal(l)) => {
                self.i += 1;
                l.to_string().trim_matches('"').to_string()
            }
            _ => self.fail("string expected"),
        }
    }
    fn int_opt(&mut self) -> usize {
        if let Some(TokenTree::Literal(l)) = self.t.get(self.i) {
            if let Ok(n) = l.to_string().parse() {
                self.i += 1;
                return n;
            }
        }
        0
    }
    fn body(&mut self) -> TokenStream {
        match self.t.get(self.i) {
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => {
                self.i += 1;
                g.stream()
            }
            _ => self.fail("{...} expected"),
        }
    }
    fn semi(&mut self) {
        match self.t.get(self.i) {
            Some(TokenTree::Punct(p)) if p.as_char() == ';' => self.i += 1,
            _ => self.fail("; expected"),
        }
    }
}

fn names(ts: TokenStream) -> Vec<String> {
    let s = ts.to_string().replace(' ', "");
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}

pub fn parse(text: &str, file: &str) -> ModC {
    let ts: TokenStream = match text.parse() {
        Ok(t) => t,
        Err(e) => {
            eprintln!("contract file {}: {}", file, e);
            std::process::exit(3)
        }
    };
    let mut p = P::new(ts, file);
    let mut m = ModC::default();
    while !p.done() {
        let kw = p.ident();
        match kw.as_str() {
            "opts" => {
                let b = p.body().to_string();
                m.ufcs = b.contains("ufcs");
            }
            "drop" => m.drop.extend(names(p.body())),
            "clone" => m.clone.extend(names(p.body())),
            "undyn" => m.undyn.extend(names(p.body())),
            "items" => m.items.extend(p.body()),
            "constant" => {
                let n = p.string();
                let b = p.body();
                m.consts.insert(n, b);
            }
            "inject" => {
                let n = p.string();
                let b = p.body();
                m.injects.push((n, b, Default::default()));
            }
            "func" => {
                let n = p.string();
                let mut q = P::new(p.body(), file);
                let mut f = FuncC::default();
                while !q.done() {
                    let k = q.ident();
                    match k.as_str() {
                        "ret" => {
                            f.ret = Some(q.ident());
                            q.semi();
                        }
                        "external" => {
                            f.external = true;
                            q.semi();
                        }
                        "literals" => {
                            f.literals = true;
                            q.semi();
                        }
                        "props" => {
                            let b = q.body();
                            f.props.extend(names(b));
                        }
                        "spec" => f.spec = q.body(),
                        "entry" => f.entry = q.body(),
                        "attr" => f.attr = q.body(),
                        "retype" => {
                            let n = q.ident();
                            let b = q.body();
                            f.retype.insert(n, b);
                        }
                        "loop" => {
                            let idx = q.int_opt();
                            let mut r = P::new(q.body(), file);
                            let mut l = LoopC::default();
                            while !r.done() {
                                let k2 = r.ident();
                                match k2.as_str() {
                                    "spec" => l.spec = r.body(),
                                    "start" => l.start = r.body(),
                                    "init" => l.init = r.body(),
                                    "end" => l.end = r.body(),
                                    "before" => l.before = r.body(),
                                    "after" => l.after = r.body(),
                                    "attr" => l.attr = r.body(),
                                    "iter" => {
                                        l.iter_name = Some(r.ident());
                                        r.semi();
                                    }
                                    _ => r.fail("unknown loop section"),
                                }
                            }
                            f.loops.insert(idx, l);
                        }
                        "closure" => {
                            let n = q.ident();
                            let mut r = P::new(q.body(), file);
                            let mut ret = None;
                            let mut spec = TokenStream::new();
                            while !r.done() {
                                match r.ident().as_str() {
                                    "ret" => {
                                        ret = Some(r.ident());
                                        r.semi();
                                    }
                                    "spec" => spec = r.body(),
                                    _ => r.fail("unknown closure section"),
                                }
                            }
                            f.closures.insert(n, (ret, spec));
                        }
                        "inline" => {
                            let name = q.ident();
                            let index = q.int_opt();
                            let code = q.body();
                            f.inline.insert((name, index), (code, Default::default()));
                        }
                        "after_let" | "before_let" | "after_call" | "before_call" | "after_assign" | "before_return" | "scrutinee" => {
                            let name = q.ident();
                            let index = q.int_opt();
                            let code = q.body();
                            f.anchors.push(Anchor { kind: k, name, index, code, used: Default::default() });
                        }
                        _ => q.fail("unknown section"),
                    }
                }
                if m.funcs.insert(n.clone(), f).is_some() {
                    p.fail(&format!("duplicate contract for {}", n));
                }
            }
            _ => p.fail("unknown top-level section"),
        }
    }
    m
}
