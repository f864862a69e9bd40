// What the properties say, written independently of the code under test.
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{BigUint, Integer, One, Signed, Zero};
use std::collections::HashMap;

pub type Q = BigRational;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Num(Q),
    Var(String),
    Assign,
    Comma,
    Open,
    Close,
    Op(char),
    Sqrt,
    Abs,
    Max,
    Min,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub t: T,
    pub start: usize,
    pub end: usize,
}

pub fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 0x0c
}

pub fn qi(i: i64) -> Q {
    Q::from(BigInt::from(i))
}

pub fn bpow(b: &BigInt, n: u64) -> BigInt {
    let mut result = BigInt::one();
    let mut square = b.clone();
    let mut left = n;
    while left > 0 {
        if left & 1 == 1 {
            result = &result * &square;
        }
        left >>= 1;
        if left > 0 {
            square = &square * &square;
        }
    }
    result
}

pub fn qpow(b: &Q, n: u64) -> Q {
    Q::new(bpow(b.numer(), n), bpow(b.denom(), n))
}

pub fn digit(c: u8) -> Option<u32> {
    match c {
        b'0'..=b'9' => Some((c - b'0') as u32),
        b'a'..=b'z' => Some((c - b'a') as u32 + 10),
        b'A'..=b'Z' => Some((c - b'A') as u32 + 10),
        _ => None,
    }
}

/// The value of a number as written, or `None` if it is not one.
pub fn number(run: &[u8], radix: u8) -> Option<Q> {
    let mut value = BigInt::zero();
    let mut scale = BigInt::one();
    let mut digits = 0;
    let mut point = false;
    for c in run {
        if *c == b'_' {
            continue;
        }
        if *c == b'.' {
            if point {
                return None;
            }
            point = true;
            continue;
        }
        let d = digit(*c)?;
        if d >= radix as u32 {
            return None;
        }
        value = value * BigInt::from(radix) + BigInt::from(d);
        if point {
            scale = scale * BigInt::from(radix);
        }
        digits += 1;
    }
    if digits == 0 {
        None
    } else {
        Some(Q::new(value, scale))
    }
}

/// The tokens of a line that is not a command. `Err` for a line that has a part that is not a token.
pub fn tokenize(line: &str, radix: u8) -> Result<Vec<Tok>, ()> {
    if line.bytes().any(|c| c >= 128) {
        return Err(());
    }
    let bytes = line.as_bytes();
    let single = |c: u8| -> Option<T> {
        Some(match c {
            b'+' | b'-' | b'*' | b'/' | b'%' | b'^' => T::Op(c as char),
            b'(' => T::Open,
            b')' => T::Close,
            b'=' => T::Assign,
            b',' => T::Comma,
            _ => return None,
        })
    };
    let mut out = Vec::new();
    let mut i = 0;
    while i < bytes.len() {
        if blank(bytes[i]) {
            i += 1;
            continue;
        }
        if let Some(t) = single(bytes[i]) {
            out.push(Tok { t, start: i, end: i + 1 });
            i += 1;
            continue;
        }
        let start = i;
        while i < bytes.len() && !blank(bytes[i]) && single(bytes[i]).is_none() {
            i += 1;
        }
        let run = &bytes[start..i];
        let t = if run[0] == b'$' {
            T::Var(String::from_utf8(run.to_vec()).unwrap())
        } else {
            match run {
                b"sqrt" => T::Sqrt,
                b"abs" => T::Abs,
                b"max" => T::Max,
                b"min" => T::Min,
                _ => T::Num(number(run, radix).ok_or(())?),
            }
        };
        out.push(Tok { t, start, end: i });
    }
    Ok(out)
}

/// `Some` if the line is a command: where its slash is, where its name ends, where its arguments start.
pub fn command(line: &str) -> Option<(usize, usize, usize)> {
    let bytes = line.as_bytes();
    let mut i = 0;
    while i < bytes.len() && blank(bytes[i]) {
        i += 1;
    }
    if i >= bytes.len() || bytes[i] != b'/' {
        return None;
    }
    let slash = i;
    while i < bytes.len() && !blank(bytes[i]) {
        i += 1;
    }
    Some((slash, i, if i < bytes.len() { i + 1 } else { i }))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Num(Q),
    Var(String),
    Neg(Box<Tree>),
    Sqrt(Box<Tree>),
    Abs(Box<Tree>),
    Bin(char, Box<Tree>, Box<Tree>),
    Max(Vec<Tree>),
    Min(Vec<Tree>),
}

pub struct Line {
    pub assigns: Option<String>,
    pub tree: Tree,
}

struct Reader<'a> {
    toks: &'a [Tok],
    at: usize,
    depth: usize,
}

impl<'a> Reader<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.toks.get(self.at).map(|t| &t.t)
    }

    // One operand, with any negations in front of it.
    fn operand(&mut self) -> Result<Tree, ()> {
        self.depth += 1;
        if self.depth > 2000 {
            return Err(());
        }
        let result = self.operand_inner();
        self.depth -= 1;
        result
    }

    fn operand_inner(&mut self) -> Result<Tree, ()> {
        let t = self.peek().ok_or(())?.clone();
        self.at += 1;
        match t {
            T::Op('-') => Ok(Tree::Neg(Box::new(self.operand()?))),
            T::Num(q) => Ok(Tree::Num(q)),
            T::Var(v) => Ok(Tree::Var(v)),
            T::Sqrt => Ok(Tree::Sqrt(Box::new(self.operand()?))),
            T::Abs => Ok(Tree::Abs(Box::new(self.operand()?))),
            T::Open => {
                let inner = self.binary(1)?;
                if self.peek() != Some(&T::Close) {
                    return Err(());
                }
                self.at += 1;
                Ok(inner)
            }
            T::Max | T::Min => {
                let mut args = Vec::new();
                if self.peek() == Some(&T::Open) {
                    self.at += 1;
                    if self.peek() == Some(&T::Close) {
                        self.at += 1;
                    } else {
                        loop {
                            args.push(self.binary(1)?);
                            let next = self.peek().ok_or(())?;
                            self.at += 1;
                            match next {
                                T::Comma => {}
                                T::Close => break,
                                _ => return Err(()),
                            }
                        }
                    }
                } else {
                    args.push(self.operand()?);
                }
                Ok(if t == T::Max { Tree::Max(args) } else { Tree::Min(args) })
            }
            _ => Err(()),
        }
    }

    // Levels: 1 for + and -, 2 for * and /, 3 for %, 4 for ^.
    fn binary(&mut self, level: u8) -> Result<Tree, ()> {
        if level == 5 {
            return self.operand();
        }
        let mut left = self.binary(level + 1)?;
        loop {
            let op = match self.peek() {
                Some(T::Op(c)) => *c,
                _ => return Ok(left),
            };
            let op_level = match op {
                '+' | '-' => 1,
                '*' | '/' => 2,
                '%' => 3,
                _ => 4,
            };
            if op_level != level {
                return Ok(left);
            }
            self.at += 1;
            let right = self.binary(level + 1)?;
            left = Tree::Bin(op, Box::new(left), Box::new(right));
        }
    }
}

pub fn parse(toks: &[Tok]) -> Result<Line, ()> {
    let (assigns, rest) = match (toks.get(0).map(|t| &t.t), toks.get(1).map(|t| &t.t)) {
        (Some(T::Var(v)), Some(T::Assign)) => (Some(v.clone()), &toks[2..]),
        _ => (None, toks),
    };
    let mut reader = Reader { toks: rest, at: 0, depth: 0 };
    let tree = reader.binary(1)?;
    if reader.at != rest.len() {
        return Err(());
    }
    Ok(Line { assigns, tree })
}

/// A value that is known up to `err`, which is zero if it is known exactly.
#[derive(Clone, Debug)]
pub struct V {
    pub q: Q,
    pub err: Q,
}

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub enum Fail {
    /// Not decided here.
    Unknown,
    /// Has no value.
    Undefined,
    /// Too large to compute here.
    TooBig,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub radix: u8,
    pub digits: u32,
    pub max_bits: u64,
    pub max_root: u64,
}

fn bits(q: &Q) -> u64 {
    q.numer().bits() + q.denom().bits()
}

fn worse(a: Fail, b: Fail) -> Fail {
    if a >= b {
        a
    } else {
        b
    }
}

fn both<A, B>(a: Result<A, Fail>, b: Result<B, Fail>) -> Result<(A, B), Fail> {
    match (a, b) {
        (Ok(a), Ok(b)) => Ok((a, b)),
        (Err(a), Err(b)) => Err(worse(a, b)),
        (Err(a), _) => Err(a),
        (_, Err(b)) => Err(b),
    }
}

fn exact(q: Q) -> V {
    V { q, err: Q::zero() }
}

pub fn iroot(n: &BigUint, d: u32) -> BigUint {
    // Bisection on the integers.
    let mut low = BigUint::zero();
    let mut high = BigUint::one() << ((n.bits() / d as u64) + 1) as usize;
    while &low + BigUint::one() < high {
        let mid: BigUint = (&low + &high) >> 1;
        if mid.pow(d) <= *n {
            low = mid;
        } else {
            high = mid;
        }
    }
    low
}

/// `|base^(1/degree)|` for `base >= 0`: exactly if the root is an integer or the reciprocal of one.
pub fn root_size(base: &Q, degree: u32) -> Option<Q> {
    let one = BigInt::one();
    if base.denom() == &one {
        let n = base.numer().to_biguint().unwrap();
        let r = iroot(&n, degree);
        if r.pow(degree) == n {
            return Some(Q::from(BigInt::from(r)));
        }
    } else if base.numer() == &one {
        let n = base.denom().to_biguint().unwrap();
        let r = iroot(&n, degree);
        if r.pow(degree) == n {
            return Some(Q::new(one, BigInt::from(r)));
        }
    }
    None
}

/// Is `x` within `tolerance` of the real `degree`th root of `radicand`, and of the same sign?
pub fn near_root(x: &Q, radicand: &Q, degree: u32, tolerance: &Q) -> bool {
    if radicand.is_negative() {
        return near_root(&-x, &-radicand, degree, tolerance);
    }
    if x.is_negative() || (x.is_zero() && !radicand.is_zero()) {
        return false;
    }
    let low = x - tolerance;
    let high = x + tolerance;
    (low.is_negative() || qpow(&low, degree as u64) <= *radicand)
        && qpow(&high, degree as u64) >= *radicand
}

pub fn power(base: &V, exponent: &V, ctx: &Ctx) -> Result<V, Fail> {
    if !exponent.err.is_zero() {
        // The nearest rational has a large denominator, so that this is a root of a large degree.
        return Err(Fail::TooBig);
    }
    let negative = exponent.q.is_negative();
    let size = exponent.q.abs();
    if negative {
        if base.err.is_zero() {
            if base.q.is_zero() {
                return Err(Fail::Undefined);
            }
        } else if base.q.abs() <= base.err {
            return Err(Fail::Unknown);
        }
    }
    let n: u64 = match u64::try_from(size.numer()) {
        Ok(n) => n,
        Err(_) => {
            return Err(Fail::TooBig);
        }
    };
    let d: u32 = match u32::try_from(size.denom()) {
        Ok(d) => d,
        Err(_) => return Err(Fail::TooBig),
    };
    if bits(&base.q).saturating_mul(n) > ctx.max_bits {
        return Err(Fail::TooBig);
    }
    if !base.err.is_zero() {
        if d != 1 || n > 64 || negative {
            return Err(Fail::TooBig);
        }
        let mut acc = exact(Q::one());
        for _ in 0..n {
            acc = mul(&acc, base);
        }
        return Ok(acc);
    }
    let base = if negative { base.q.recip() } else { base.q.clone() };
    let radicand = qpow(&base, n);
    if d == 1 {
        return Ok(exact(radicand));
    }
    if bits(&radicand).saturating_mul(d as u64) > ctx.max_root {
        return Err(Fail::TooBig);
    }
    if radicand.is_negative() && d % 2 == 0 {
        return Err(Fail::Undefined);
    }
    let sign = radicand.signum();
    let radicand = radicand.abs();
    if radicand.is_zero() {
        return Ok(exact(radicand));
    }
    if let Some(r) = root_size(&radicand, d) {
        return Ok(exact(r * sign));
    }
    // Scaled so that the unit is well below the tolerance.
    let scale = BigUint::from(ctx.radix as u32).pow(ctx.digits + 8);
    let scaled = (radicand.numer().to_biguint().unwrap() * scale.pow(d))
        / radicand.denom().to_biguint().unwrap();
    let r = Q::new(BigInt::from(iroot(&scaled, d)), BigInt::from(scale.clone()));
    let tolerance = Q::new(BigInt::one(), BigInt::from(BigUint::from(ctx.radix as u32).pow(ctx.digits)));
    let unit = Q::new(BigInt::from(2), BigInt::from(scale));
    Ok(V { q: r * sign, err: tolerance + unit })
}

fn mul(a: &V, b: &V) -> V {
    V {
        q: &a.q * &b.q,
        err: a.q.abs() * &b.err + b.q.abs() * &a.err + &a.err * &b.err,
    }
}

pub fn eval(tree: &Tree, vars: &HashMap<String, Q>, ctx: &Ctx) -> Result<V, Fail> {
    let value = match tree {
        Tree::Num(q) => exact(q.clone()),
        Tree::Var(v) => exact(vars.get(v).ok_or(Fail::Undefined)?.clone()),
        Tree::Neg(a) => {
            let a = eval(a, vars, ctx)?;
            V { q: -a.q, err: a.err }
        }
        Tree::Abs(a) => {
            let a = eval(a, vars, ctx)?;
            V { q: a.q.abs(), err: a.err }
        }
        Tree::Sqrt(a) => {
            let a = eval(a, vars, ctx)?;
            if !a.err.is_zero() {
                return Err(Fail::Unknown);
            }
            power(&a, &exact(Q::new(BigInt::one(), BigInt::from(2))), ctx)?
        }
        Tree::Max(args) | Tree::Min(args) => {
            let largest = matches!(tree, Tree::Max(_));
            let mut fail: Option<Fail> = None;
            let mut best: Option<V> = None;
            for a in args {
                match eval(a, vars, ctx) {
                    Err(f) => fail = Some(fail.map_or(f, |g| worse(f, g))),
                    Ok(v) => {
                        best = Some(match best {
                            None => v,
                            Some(b) => {
                                let err = if b.err > v.err { b.err.clone() } else { v.err.clone() };
                                let take = if largest { v.q > b.q } else { v.q < b.q };
                                V { q: if take { v.q } else { b.q }, err }
                            }
                        })
                    }
                }
            }
            match fail {
                Some(f) => return Err(f),
                None => best.ok_or(Fail::Undefined)?,
            }
        }
        Tree::Bin(op, a, b) => {
            let (a, b) = match both(eval(a, vars, ctx), eval(b, vars, ctx)) {
                Ok(both) => both,
                // A power of an unknown number can be of any size.
                Err(Fail::Unknown) if *op == '^' => return Err(Fail::TooBig),
                Err(f) => return Err(f),
            };
            match op {
                '+' => V { q: &a.q + &b.q, err: &a.err + &b.err },
                '-' => V { q: &a.q - &b.q, err: &a.err + &b.err },
                '*' => mul(&a, &b),
                '/' => {
                    if b.err.is_zero() {
                        if b.q.is_zero() {
                            return Err(Fail::Undefined);
                        }
                        V { q: &a.q / &b.q, err: &a.err / b.q.abs() }
                    } else {
                        return Err(Fail::Unknown);
                    }
                }
                '%' => {
                    if !b.err.is_zero() {
                        return Err(Fail::Unknown);
                    }
                    if b.q.is_zero() {
                        return Err(Fail::Undefined);
                    }
                    if !a.err.is_zero() {
                        return Err(Fail::Unknown);
                    }
                    // The remainder of the sizes, with the sign of the left operand.
                    let x = a.q.abs();
                    let y = b.q.abs();
                    let times = (x.numer() * y.denom()).div_floor(&(x.denom() * y.numer()));
                    let r = &x - &y * Q::from(times);
                    exact(if a.q.is_negative() { -r } else { r })
                }
                _ => power(&a, &b, ctx)?,
            }
        }
    };
    if bits(&value.q) > ctx.max_bits {
        return Err(Fail::TooBig);
    }
    Ok(value)
}

pub fn digits_of(n: &BigInt, radix: u8, upper: bool) -> String {
    assert!(!n.is_negative());
    let alphabet: &[u8] = if upper { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    let mut n = n.clone();
    let r = BigInt::from(radix);
    let mut out = Vec::new();
    while !n.is_zero() {
        let (q, d) = n.div_rem(&r);
        out.push(alphabet[usize::try_from(&d).unwrap()]);
        n = q;
    }
    if out.is_empty() {
        out.push(b'0');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

/// What a value prints as in decimal mode.
pub fn decimal(value: &Q, radix: u8, precision: u8, commas: bool, upper: bool) -> String {
    let scale = bpow(&BigInt::from(radix), precision as u64);
    let n = value.numer().abs() * &scale;
    let d = value.denom();
    let (whole, rest) = n.div_rem(d);
    let lost = !rest.is_zero();
    let units = if &rest + &rest >= *d { whole + BigInt::one() } else { whole };
    let mut digits = digits_of(&units, radix, upper);
    while digits.len() <= precision as usize {
        digits.insert(0, '0');
    }
    let split = digits.len() - precision as usize;
    let mut fraction = digits[split..].to_string();
    if !lost {
        while fraction.ends_with('0') {
            fraction.pop();
        }
    }
    let mut whole = String::new();
    for (i, c) in digits[..split].chars().enumerate() {
        if commas && i > 0 && (split - i) % 3 == 0 {
            whole.push(',');
        }
        whole.push(c);
    }
    format!(
        "{}{}{}{}",
        if value.is_negative() { "-" } else { "" },
        whole,
        if fraction.is_empty() { "" } else { "." },
        fraction
    )
}

pub fn fraction(value: &Q, radix: u8, upper: bool) -> String {
    let g = value.numer().gcd(value.denom());
    let n = value.numer().abs() / &g;
    let d = value.denom() / &g;
    let sign = if value.is_negative() { "-" } else { "" };
    if d.is_one() {
        format!("{}{}", sign, digits_of(&n, radix, upper))
    } else {
        format!("{}{}/{}", sign, digits_of(&n, radix, upper), digits_of(&d, radix, upper))
    }
}
