// Where the cases come from: every choice is drawn from a generator seeded per case.
use super::oracle::*;
use num::bigint::BigInt;
use num::{One, Signed, Zero};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64, index: u64) -> Rng {
        let mut r = Rng(
            seed.wrapping_mul(0x9E3779B97F4A7C15)
                ^ stream.wrapping_mul(0xD1B54A32D192ED03)
                ^ index.wrapping_mul(0x8CB92BA72F3D8DD7),
        );
        r.next();
        r.next();
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    /// Below `n`.
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }

    /// One time in `n`.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }

    pub fn pick<'a, X>(&mut self, from: &'a [X]) -> &'a X {
        &from[self.below(from.len())]
    }

    pub fn radix(&mut self) -> u8 {
        match self.below(4) {
            0 => 10,
            1 => *self.pick(&[2u8, 16, 8, 3, 11, 15]),
            _ => 2 + self.below(15) as u8,
        }
    }
}

pub fn integer(rng: &mut Rng) -> BigInt {
    match rng.below(12) {
        0 => BigInt::zero(),
        1 => BigInt::one(),
        2..=5 => BigInt::from(rng.below(20) as i64),
        6 => BigInt::from(rng.below(1000) as i64),
        7 => {
            // Around the edges of the machine's numbers.
            let edge = bpow(&BigInt::from(2), *rng.pick(&[7u64, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128]));
            edge + BigInt::from(rng.below(5) as i64 - 2)
        }
        8 => BigInt::from(rng.next()),
        9 => {
            let b = BigInt::from(2 + rng.below(15) as i64);
            bpow(&b, rng.below(12) as u64)
        }
        10 => {
            let b = BigInt::from(rng.below(40) as i64);
            bpow(&b, 2 + rng.below(4) as u64)
        }
        _ => {
            let mut n = BigInt::zero();
            for _ in 0..1 + rng.below(4) {
                n = n * BigInt::from(u64::MAX) + BigInt::from(rng.next());
            }
            n
        }
    }
}

pub fn rational(rng: &mut Rng) -> Q {
    let n = integer(rng);
    let n = if rng.one_in(3) { -n } else { n };
    let d = match rng.below(5) {
        0 | 1 => BigInt::one(),
        2 => {
            let b = BigInt::from(2 + rng.below(15) as i64);
            bpow(&b, rng.below(8) as u64)
        }
        3 => BigInt::from(1 + rng.below(50) as i64),
        _ => integer(rng).abs() + BigInt::one(),
    };
    Q::new(n, d)
}

/// A number as somebody might write it, in `radix`.
pub fn number_text(rng: &mut Rng, radix: u8) -> String {
    let mut digits = digits_of(&integer(rng), radix, false);
    if rng.one_in(6) {
        digits = format!("{}{}", "0".repeat(1 + rng.below(3)), digits);
    }
    if rng.one_in(3) {
        let mut fraction = String::new();
        for _ in 0..rng.below(7) {
            fraction.push_str(&digits_of(&BigInt::from(rng.below(radix as usize) as i64), radix, false));
        }
        if rng.one_in(5) {
            fraction.push_str("00");
        }
        if rng.one_in(6) && !fraction.is_empty() {
            digits = String::new();
        }
        digits = format!("{}.{}", digits, fraction);
    }
    if rng.one_in(6) {
        for _ in 0..1 + rng.below(3) {
            let at = rng.below(digits.len() + 1);
            digits.insert(at, '_');
        }
    }
    let upper = rng.below(3);
    digits
        .chars()
        .map(|c| match upper {
            0 => c,
            1 => c.to_ascii_uppercase(),
            _ => {
                if rng.one_in(2) {
                    c.to_ascii_uppercase()
                } else {
                    c
                }
            }
        })
        .collect()
}

pub fn space(rng: &mut Rng) -> &'static str {
    match rng.below(12) {
        0..=6 => "",
        7..=9 => " ",
        10 => "  ",
        _ => *rng.pick(&["\t", "\n", " \t ", "\r", "\x0c"]),
    }
}

#[derive(Clone)]
pub struct Shape {
    pub radix: u8,
    pub vars: Vec<String>,
    pub roots: bool,
    pub depth: usize,
    pub small: bool,
}

fn small_number(rng: &mut Rng, radix: u8) -> String {
    digits_of(&BigInt::from(rng.below(6) as i64), radix, false)
}

fn word_gap(rng: &mut Rng) -> &'static str {
    *rng.pick(&[" ", " ", "  ", "\t"])
}

/// Does `s` end in the middle of a run, so that more text must not be glued to it?
fn glue(out: &mut String, more: &str, rng: &mut Rng) {
    let word = |c: u8| !blank(c) && !b"+-*/%^(),=".contains(&c);
    let needs = match (out.as_bytes().last(), more.as_bytes().first()) {
        (Some(a), Some(b)) => word(*a) && word(*b),
        _ => false,
    };
    if needs {
        out.push_str(word_gap(rng));
    } else {
        out.push_str(space(rng));
    }
    out.push_str(more);
}

pub fn operand(rng: &mut Rng, s: &Shape, depth: usize) -> String {
    let choice = if depth == 0 { rng.below(5) } else { rng.below(14) };
    let mut out = String::new();
    match choice {
        0..=2 => {
            let n = if s.small { small_number(rng, s.radix) } else { number_text(rng, s.radix) };
            out.push_str(&n);
        }
        3 | 4 => {
            if s.vars.is_empty() {
                out.push_str(&small_number(rng, s.radix));
            } else {
                out.push_str(rng.pick(&s.vars));
            }
        }
        5..=8 => {
            out.push('(');
            let inner = expression(rng, s, depth - 1);
            glue(&mut out, &inner, rng);
            glue(&mut out, ")", rng);
        }
        9 => {
            out.push_str("abs");
            let inner = negatable(rng, s, depth - 1);
            glue(&mut out, &inner, rng);
        }
        10 => {
            if s.roots {
                out.push_str("sqrt");
                let inner = negatable(rng, s, depth - 1);
                glue(&mut out, &inner, rng);
            } else {
                out.push_str("abs(");
                let inner = expression(rng, s, depth - 1);
                glue(&mut out, &inner, rng);
                out.push(')');
            }
        }
        _ => {
            out.push_str(if rng.one_in(2) { "max" } else { "min" });
            if rng.one_in(4) {
                let inner = negatable(rng, s, depth - 1);
                // Parentheses right after the name would be its argument list, which is fine too.
                glue(&mut out, &inner, rng);
            } else {
                glue(&mut out, "(", rng);
                let many = rng.one_in(12);
                let n = if rng.one_in(12) { 0 } else if many { 5 + rng.below(30) } else { 1 + rng.below(4) };
                for i in 0..n {
                    if i > 0 {
                        glue(&mut out, ",", rng);
                    }
                    let inner = expression(rng, s, if many { 0 } else { depth - 1 });
                    glue(&mut out, &inner, rng);
                }
                glue(&mut out, ")", rng);
            }
        }
    }
    out
}

pub fn negatable(rng: &mut Rng, s: &Shape, depth: usize) -> String {
    let mut out = String::new();
    if rng.one_in(5) {
        for _ in 0..1 + rng.below(2) {
            glue(&mut out, "-", rng);
        }
    }
    let inner = operand(rng, s, depth);
    glue(&mut out, &inner, rng);
    out
}

/// A well-formed expression.
pub fn expression(rng: &mut Rng, s: &Shape, depth: usize) -> String {
    let mut out = String::new();
    let first = negatable(rng, s, depth);
    glue(&mut out, &first, rng);
    let more = match rng.below(6) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => 2,
        _ => 3 + rng.below(3),
    };
    for _ in 0..more {
        let op = *rng.pick(&["+", "-", "*", "/", "%", "^", "+", "*"]);
        glue(&mut out, op, rng);
        if op == "^" {
            let tamed = if rng.one_in(20) {
                negatable(rng, s, depth)
            } else if rng.one_in(3) {
                format!("-{}", digits_of(&BigInt::from(rng.below(6) as i64), s.radix, false))
            } else if s.roots && rng.one_in(3) {
                format!(
                    "({}/{})",
                    digits_of(&BigInt::from(rng.below(5) as i64), s.radix, false),
                    digits_of(&BigInt::from(1 + rng.below(6) as i64), s.radix, false)
                )
            } else {
                let limit = if rng.one_in(8) { 70 } else { 6 };
                digits_of(&BigInt::from(rng.below(limit) as i64), s.radix, false)
            };
            glue(&mut out, &tamed, rng);
        } else {
            let next = negatable(rng, s, depth);
            glue(&mut out, &next, rng);
        }
    }
    out
}

const PIECES: &[&str] = &[
    "+", "-", "*", "/", "%", "^", "(", ")", ",", "=", "sqrt", "abs", "max", "min", "$a", "$b", "$", "1", "2",
    "0", "3.5", ".5", "-", "(", ")", "max(", "min(", "$a =", "10", "7",
];

/// Tokens in no particular order, mostly not an expression.
pub fn soup(rng: &mut Rng, len: usize) -> String {
    let mut out = String::new();
    for _ in 0..len {
        let piece = *rng.pick(PIECES);
        glue(&mut out, piece, rng);
    }
    out
}

/// A well-formed expression with a few tokens dropped, doubled, or swapped.
pub fn damaged(rng: &mut Rng, text: &str) -> String {
    let single = |c: char| "+-*/%^(),=".contains(c);
    let mut toks: Vec<String> = Vec::new();
    let mut run = String::new();
    for c in text.chars() {
        if single(c) || (c as u32) < 128 && blank(c as u8) {
            if !run.is_empty() {
                toks.push(std::mem::take(&mut run));
            }
            if single(c) {
                toks.push(c.to_string());
            }
        } else {
            run.push(c);
        }
    }
    if !run.is_empty() {
        toks.push(run);
    }
    for _ in 0..1 + rng.below(2) {
        if toks.is_empty() {
            break;
        }
        let at = rng.below(toks.len());
        match rng.below(5) {
            0 => {
                toks.remove(at);
            }
            1 => {
                let t = toks[at].clone();
                toks.insert(at, t);
            }
            2 => {
                let other = rng.below(toks.len());
                toks.swap(at, other);
            }
            3 => {
                let piece = rng.pick(PIECES).to_string();
                toks.insert(at, piece);
            }
            _ => {
                toks[at] = rng.pick(PIECES).to_string();
            }
        }
    }
    let mut out = String::new();
    for t in toks {
        glue(&mut out, &t, rng);
    }
    out
}

const ODD: &[char] = &[
    '_', '.', '$', '#', '@', '!', '~', '"', '\'', '\\', ';', ':', '?', '<', '>', '[', ']', '{', '}', '|', '&',
    '\u{e9}', '\u{221a}', '\u{1F600}', '\u{7f}', '\u{0}', '\u{2212}', 'g', 'z', 'G', 'f', 'F', 'x', '9', '0',
];

/// Characters of any kind.
pub fn scribble(rng: &mut Rng) -> String {
    let mut out = String::new();
    for _ in 0..rng.below(14) {
        match rng.below(6) {
            0 => out.push(*rng.pick(ODD)),
            1 => out.push_str(space(rng)),
            2 => out.push(*rng.pick(&['+', '-', '*', '/', '%', '^', '(', ')', '=', ','])),
            3 => out.push((b'0' + rng.below(10) as u8) as char),
            4 => out.push(*rng.pick(&['a', 'b', 'A', 'f', '1', '.', '_', '$'])),
            _ => out.push_str(*rng.pick(&["sqrt", "abs", "max", "min", "Sqrt", "maxx", "$x", "1e5", "0x1f"])),
        }
    }
    out
}
