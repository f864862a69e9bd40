// Checks of single lines.
use super::gen::*;
use super::oracle::*;
use super::real::{self, Calculator, Lexed, Out};
use num::bigint::BigInt;
use num::{One, Signed, Zero};
use std::collections::HashMap;

pub struct Case {
    pub desc: String,
    pub nontrivial: bool,
    pub wrong: Option<String>,
}

pub fn skip(desc: String) -> Case {
    Case { desc, nontrivial: false, wrong: None }
}

pub fn fine(desc: String) -> Case {
    Case { desc, nontrivial: true, wrong: None }
}

pub fn wrong(desc: String, what: String) -> Case {
    Case { desc, nontrivial: true, wrong: Some(what) }
}

pub fn ctx(radix: u8, digits: u32) -> Ctx {
    Ctx { radix, digits, max_bits: 6000, max_root: 1500 }
}

fn setting(rng: &mut Rng, c: &mut Calculator) {
    c.args.radix = rng.radix();
    c.args.precision = *rng.pick(&[0u8, 1, 2, 5, 5, 5, 8, 20]);
    c.args.extra_precision = *rng.pick(&[0u8, 1, 10, 10]);
}

fn variables(rng: &mut Rng, c: &mut Calculator, names: &[&str], f: fn(&mut Rng) -> Q) -> HashMap<String, Q> {
    let mut vars = HashMap::new();
    for name in names {
        let value = f(rng);
        c.define(name, &value);
        vars.insert(name.to_string(), value);
    }
    vars
}

fn show(c: &Calculator, line: &str, vars: &HashMap<String, Q>) -> String {
    let mut vars: Vec<String> = vars.iter().map(|(n, v)| format!("{}={}", n, v)).collect();
    vars.sort();
    format!(
        "radix {} precision {}+{} {:?} where {}",
        c.args.radix,
        c.args.precision,
        c.args.extra_precision,
        line,
        vars.join(" ")
    )
}

/// Compares the value of a line with what the oracle makes of it.
fn compare(c: &mut Calculator, line: &str, vars: &HashMap<String, Q>, inexact_too: bool) -> Case {
    let desc = show(c, line, vars);
    super::note(&desc);
    let toks = match tokenize(line, c.args.radix) {
        Ok(t) => t,
        Err(()) => return skip(desc),
    };
    let parsed = match parse(&toks) {
        Ok(l) => l,
        Err(()) => return skip(desc),
    };
    let digits = c.args.precision as u32 + c.args.extra_precision as u32;
    let expected = eval(&parsed.tree, vars, &ctx(c.args.radix, digits));
    match expected {
        Err(Fail::TooBig) | Err(Fail::Unknown) => skip(desc),
        Err(Fail::Undefined) => match c.value(line) {
            Err(Out::Input(_, _)) => fine(desc),
            got => wrong(desc, format!("it has no value, but evaluates to {:?}", got)),
        },
        Ok(v) => {
            if !v.err.is_zero() && !inexact_too {
                return match c.value(line) {
                    Ok(_) => fine(desc),
                    Err(e) => wrong(desc, format!("it has a value, but is refused: {:?}", e)),
                };
            }
            match c.value(line) {
                Ok(got) => {
                    if (&got - &v.q).abs() <= v.err {
                        fine(desc)
                    } else if v.err.is_zero() {
                        wrong(desc, format!("its value is {}, but it evaluates to {}", v.q, got))
                    } else {
                        wrong(desc, format!("its value is within {} of {}, but it evaluates to {}", v.err, v.q, got))
                    }
                }
                Err(e) => wrong(desc, format!("its value is {}, but it is refused: {:?}", v.q, e)),
            }
        }
    }
}

pub fn c01(rng: &mut Rng) -> Case {
    let mut c = Calculator::new(None);
    setting(rng, &mut c);
    let small = rng.one_in(3);
    let vars = variables(rng, &mut c, &["$a", "$b", "$c"], if small { little } else { rational });
    let mut names: Vec<String> = vars.keys().cloned().collect();
    names.sort();
    if rng.one_in(15) {
        names.push("$nothing".to_string());
    }
    let line = match rng.below(8) {
        0 => {
            // One operation on two arbitrary values.
            let op = *rng.pick(&["+", "-", "*", "/", "%", "%"]);
            format!("$a {} $b", op)
        }
        1 => {
            let e = if rng.one_in(6) { rng.below(300) as i64 } else { rng.below(12) as i64 };
            let e = if rng.one_in(2) { -e } else { e };
            c.args.radix = 10;
            format!("$a ^ {}", e)
        }
        2 => {
            let name = if rng.one_in(2) { "max" } else { "min" };
            let n = rng.below(7);
            let radix = c.args.radix;
            let args: Vec<String> = (0..n)
                .map(|_| match rng.below(4) {
                    0 => rng.pick(&names).clone(),
                    1 => format!("-{}", number_text(rng, radix)),
                    2 => format!("-{}", rng.pick(&names)),
                    _ => number_text(rng, radix),
                })
                .collect();
            format!("{}({})", name, args.join(", "))
        }
        _ => {
            let shape = Shape { radix: c.args.radix, vars: names, roots: rng.one_in(8), depth: 0, small };
            let depth = rng.below(3);
            expression(rng, &shape, depth)
        }
    };
    compare(&mut c, &line, &vars, false)
}

fn little(rng: &mut Rng) -> Q {
    let n = rng.below(19) as i64 - 9;
    let d = if rng.one_in(2) { 1 } else { 1 + rng.below(6) as i64 };
    Q::new(BigInt::from(n), BigInt::from(d))
}

pub fn c02(rng: &mut Rng) -> Case {
    let mut c = Calculator::new(None);
    c.args.radix = rng.radix();
    c.args.precision = *rng.pick(&[0u8, 0, 1, 2, 5, 10, 20]);
    c.args.extra_precision = *rng.pick(&[0u8, 0, 1, 10]);
    if rng.one_in(40) {
        c.args.precision = *rng.pick(&[100u8, 245, 255]);
        c.args.extra_precision = *rng.pick(&[0u8, 10, 255]);
    }
    let digits = c.args.precision as u32 + c.args.extra_precision as u32;
    let degree = match rng.below(6) {
        0 | 1 => 2,
        2 => 3,
        3 => 2 + rng.below(6) as u32,
        4 => 2 + rng.below(12) as u32,
        _ => {
            if rng.one_in(4) {
                2 + rng.below(40) as u32
            } else {
                2 + rng.below(5) as u32
            }
        }
    };
    // The radicand before the numerator of the exponent is applied.
    let base = match rng.below(10) {
        0 | 1 => {
            // A perfect power, or next to one.
            let r = integer(rng);
            let limit = 60 / degree as u64 + 2;
            let r = if r.bits() > limit { r % bpow(&BigInt::from(2), limit) } else { r };
            let n = bpow(&r, degree as u64);
            Q::from(n + BigInt::from(*rng.pick(&[0i64, 0, 0, 1, -1])))
        }
        2 => {
            let r = 1 + rng.below(12) as i64;
            Q::new(BigInt::one(), bpow(&BigInt::from(r), degree as u64) + BigInt::from(*rng.pick(&[0i64, 0, 1])))
        }
        3 => {
            // Next to 1, or to another perfect power.
            let r = bpow(&BigInt::from(1 + rng.below(3) as i64), degree as u64);
            let d = bpow(&BigInt::from(c.args.radix), 1 + rng.below(digits.min(12) as usize + 3) as u64);
            let n = &r * &d + BigInt::from(rng.below(3) as i64 - 1);
            Q::new(n, d)
        }
        4 => little(rng),
        5 => {
            let n = rng.below(1000) as i64;
            let d = 1 + rng.below(1000) as i64;
            Q::new(BigInt::from(n), BigInt::from(d))
        }
        6 => {
            // A perfect power of a fraction.
            let n = bpow(&BigInt::from(1 + rng.below(9) as i64), degree as u64);
            let d = bpow(&BigInt::from(1 + rng.below(9) as i64), degree as u64);
            Q::new(n, d)
        }
        _ => rational(rng),
    };
    let base = if rng.one_in(4) { -base } else { base };
    let times = if rng.one_in(3) { 1 + rng.below(4) as i64 } else { 1 };
    let times = if rng.one_in(5) { -times } else { times };
    let (line, exponent) = if rng.one_in(4) {
        ("sqrt $b".to_string(), Q::new(BigInt::one(), BigInt::from(2)))
    } else {
        ("$b ^ $e".to_string(), Q::new(BigInt::from(times), BigInt::from(degree)))
    };
    let mut vars = HashMap::new();
    for (n, v) in [("$b", &base), ("$e", &exponent)] {
        c.define(n, v);
        vars.insert(n.to_string(), v.clone());
    }
    let desc = show(&c, &line, &vars);
    if exponent.denom().is_one() {
        return skip(desc);
    }
    let ctx = Ctx {
        radix: c.args.radix,
        digits,
        max_bits: 1500,
        max_root: if digits > 60 { 200 } else { 1200 },
    };
    let exact = |q: &Q| V { q: q.clone(), err: Q::zero() };
    match power(&exact(&base), &exact(&exponent), &ctx) {
        Err(Fail::Undefined) => match c.value(&line) {
            Err(Out::Input(_, _)) => fine(desc),
            got => wrong(desc, format!("it has no real value, but evaluates to {:?}", got)),
        },
        Err(_) => skip(desc),
        Ok(v) => match c.value(&line) {
            Err(e) => wrong(desc, format!("it has a value, but is refused: {:?}", e)),
            Ok(got) => {
                if v.err.is_zero() {
                    return if got == v.q {
                        fine(desc)
                    } else {
                        wrong(desc, format!("the root is exactly {}, but it evaluates to {}", v.q, got))
                    };
                }
                let raised = if exponent.is_negative() { base.recip() } else { base.clone() };
                let n = u64::try_from(&exponent.numer().abs()).unwrap();
                let radicand = qpow(&raised, n);
                let degree = u32::try_from(exponent.denom()).unwrap();
                let tolerance = Q::new(BigInt::one(), bpow(&BigInt::from(ctx.radix), digits as u64));
                if near_root(&got, &radicand, degree, &tolerance) {
                    fine(desc)
                } else {
                    wrong(desc, format!("it evaluates to {}, which is off by more than {}", got, tolerance))
                }
            }
        },
    }
}

fn lexed_line(rng: &mut Rng, radix: u8) -> String {
    match rng.below(6) {
        0 | 1 => {
            let shape = Shape {
                radix,
                vars: vec!["$a".into(), "$b_1".into(), "$".into(), "$$".into(), "$sqrt".into(), "$\u{1}".into()],
                roots: true,
                depth: 0,
                small: false,
            };
            let depth = rng.below(3);
            expression(rng, &shape, depth)
        }
        2 => soup(rng, 8),
        3 => {
            let n = 1 + rng.below(3);
            let radix = if rng.one_in(3) { 16 } else { radix };
            let parts: Vec<String> = (0..n).map(|_| number_text(rng, radix)).collect();
            parts.join(" ")
        }
        4 => {
            // Almost a number.
            let mut text = number_text(rng, radix);
            let at = rng.below(text.len() + 1);
            let extra = *rng.pick(&['.', '_', 'g', 'f', '$', '+', 'e', '9', '2', ' ', 'F', '\'', '"']);
            text.insert(at, extra);
            text
        }
        _ => scribble(rng),
    }
}

pub fn c03(rng: &mut Rng) -> Case {
    let c = Calculator::new(None);
    let radix = rng.radix();
    let line = lexed_line(rng, radix);
    let desc = format!("radix {} {:?}", radix, line);
    if command(&line).is_some() {
        return skip(desc);
    }
    let got = real::lex(&c.tokenizer, &line, radix);
    match (tokenize(&line, radix), got) {
        (Ok(expected), Lexed::Toks(got)) => {
            let expected: Vec<T> = expected.into_iter().map(|t| t.t).collect();
            let got: Vec<T> = got.into_iter().map(|t| t.t).collect();
            if expected == got {
                fine(desc)
            } else {
                wrong(desc, format!("its tokens are {:?}, but it is read as {:?}", expected, got))
            }
        }
        (Err(()), Lexed::Error(_, _)) => fine(desc),
        (Err(()), Lexed::Toks(got)) => wrong(desc, format!("it is read as {:?} rather than rejected", got)),
        (Ok(expected), Lexed::Error(_, _)) => wrong(desc, format!("its tokens are {:?}, but it is rejected", expected)),
        (_, Lexed::Command { name, .. }) => wrong(desc, format!("it is read as the command {:?}", name)),
    }
}

pub fn c04(rng: &mut Rng) -> Case {
    let mut c = Calculator::new(None);
    c.args.precision = 20;
    let vars = variables(rng, &mut c, &["$a", "$b", "$c", "$d"], |rng| {
        let n = rng.below(4000) as i64 - 1000;
        Q::new(BigInt::from(n), BigInt::from(*rng.pick(&[1i64, 1, 7, 11])))
    });
    let mut names: Vec<String> = vars.keys().cloned().collect();
    names.sort();
    let shape = Shape { radix: 10, vars: names, roots: true, depth: 0, small: rng.one_in(2) };
    let line = match rng.below(6) {
        0 => {
            let n = rng.below(9);
            soup(rng, n)
        }
        1 => {
            let depth = rng.below(3);
            let text = expression(rng, &shape, depth);
            damaged(rng, &text)
        }
        2 => {
            // A chain of operators without parentheses.
            let mut text = String::new();
            for i in 0..2 + rng.below(6) {
                if i > 0 {
                    text.push_str(*rng.pick(&[" + ", " - ", " * ", " / ", " % ", "-", "+", "*"]));
                }
                if rng.one_in(5) {
                    text.push_str(*rng.pick(&["-", "--", "abs ", "max ", "min -", "-abs -", "abs-"]));
                }
                text.push_str(&format!("{}", 2 + rng.below(97)));
                if rng.one_in(5) {
                    text.push_str(&format!(" ^ {}", rng.pick(&["2", "3", "-1", "--2", "0"])));
                }
            }
            text
        }
        3 => {
            let depth = rng.below(2);
            let text = expression(rng, &shape, depth);
            format!("{}{}={}{}", rng.pick(&["$a", "$z", "$"]), space(rng), space(rng), text)
        }
        _ => {
            let depth = rng.below(4);
            expression(rng, &shape, depth)
        }
    };
    let mut vars = vars;
    if let Some(v) = c.held("$") {
        vars.insert("$".into(), v);
    }
    let desc = show(&c, &line, &vars);
    let toks = match tokenize(&line, c.args.radix) {
        Ok(t) => t,
        Err(()) => return skip(desc),
    };
    if command(&line).is_some() {
        return skip(desc);
    }
    let expected = parse(&toks);
    match (&expected, real::accepts(&c.tokenizer, &line, c.args.radix)) {
        (_, None) => return wrong(desc, "it is not read as tokens".to_string()),
        (Ok(_), Some(Err(_))) => return wrong(desc, "it is well-formed, but a syntax error is reported".to_string()),
        (Err(()), Some(Ok(()))) => return wrong(desc, "it is not well-formed, but it is accepted".to_string()),
        (Err(()), Some(Err(_))) => return fine(desc),
        (Ok(_), Some(Ok(()))) => {}
    }
    let line_read = expected.unwrap();
    let mut case = compare(&mut c, &line, &vars, true);
    if case.wrong.is_none() {
        if let (Some(name), Ok(v)) = (&line_read.assigns, eval(&line_read.tree, &vars, &ctx(10, 30))) {
            match c.held(name) {
                Some(got) if (&got - &v.q).abs() <= v.err => {}
                got => case = wrong(case.desc, format!("{} ought to be {}, but it is {:?}", name, v.q, got)),
            }
        }
    }
    case.nontrivial = true;
    case
}

fn printable(rng: &mut Rng, radix: u8, precision: u8) -> Q {
    let scale = bpow(&BigInt::from(radix), precision as u64);
    let value = match rng.below(9) {
        0 => Q::from(integer(rng)),
        1 => {
            // Exactly representable.
            Q::new(integer(rng), scale)
        }
        2 => {
            // Half way between two.
            Q::new(integer(rng) * BigInt::from(2) + BigInt::one(), scale * BigInt::from(2))
        }
        3 => {
            // Next to half way.
            let big = bpow(&BigInt::from(radix), 3);
            let n = (integer(rng) * BigInt::from(2) + BigInt::one()) * &big + BigInt::from(*rng.pick(&[-1i64, 1]));
            Q::new(n, scale * BigInt::from(2) * big)
        }
        4 => {
            // About to carry.
            let n = bpow(&BigInt::from(radix), rng.below(9) as u64) * BigInt::from(2) - BigInt::one();
            Q::new(n, scale * BigInt::from(2))
        }
        5 => {
            // Less than a digit.
            Q::new(BigInt::one(), scale * BigInt::from(1 + rng.below(5) as i64))
        }
        6 => {
            let k = rng.below(5) as u64;
            Q::new(integer(rng), bpow(&BigInt::from(radix), k))
        }
        7 => {
            let k = rng.below(9) as u64;
            Q::from(bpow(&BigInt::from(radix), k) - BigInt::from(rng.below(2) as i64))
        }
        _ => rational(rng),
    };
    if rng.one_in(3) {
        -value
    } else {
        value
    }
}

fn print_settings(rng: &mut Rng, c: &mut Calculator) -> u8 {
    c.args.radix = rng.radix();
    c.args.convert_to_radix = if rng.one_in(2) { Some(rng.radix()) } else { None };
    c.args.precision = match rng.below(5) {
        0 => 0,
        1 => 5,
        2 => 1 + rng.below(4) as u8,
        3 => rng.below(20) as u8,
        _ => {
            if rng.one_in(4) {
                *rng.pick(&[127u8, 128, 254, 255])
            } else {
                2
            }
        }
    };
    c.args.extra_precision = *rng.pick(&[0u8, 10]);
    c.args.fractional = rng.one_in(4);
    c.args.commas = rng.one_in(2);
    c.args.upper = rng.one_in(2);
    c.args.convert_to_radix.unwrap_or(c.args.radix)
}

pub fn c06(rng: &mut Rng) -> Case {
    let mut c = Calculator::new(None);
    let radix = print_settings(rng, &mut c);
    let value = printable(rng, radix, c.args.precision);
    c.define("$v", &value);
    let desc = format!("{} with {:?}", value, real::settings(&c.args));
    let expected = if c.args.fractional {
        fraction(&value, radix, c.args.upper)
    } else {
        decimal(&value, radix, c.args.precision, c.args.commas, c.args.upper)
    };
    match c.enter("$v") {
        Out::Text(got) if got == expected => fine(desc),
        got => wrong(desc, format!("it ought to print as {:?}, but it prints as {:?}", expected, got)),
    }
}

pub fn c07(rng: &mut Rng) -> Case {
    let mut c = Calculator::new(None);
    let radix = print_settings(rng, &mut c);
    c.args.commas = false;
    let value = printable(rng, radix, c.args.precision);
    c.define("$v", &value);
    let desc = format!("{} with {:?}", value, real::settings(&c.args));
    let text = match c.enter("$v") {
        Out::Text(t) => t,
        other => return wrong(desc, format!("it does not print: {:?}", other)),
    };
    c.args.radix = radix;
    let back = match c.value(&text) {
        Ok(q) => q,
        Err(e) => return wrong(desc, format!("it prints as {:?}, which does not read back: {:?}", text, e)),
    };
    let scale = Q::from(bpow(&BigInt::from(radix), c.args.precision as u64));
    let exact = c.args.fractional || (&value * &scale).denom().is_one();
    let off = (&back - &value).abs();
    if exact && !off.is_zero() {
        return wrong(desc, format!("it prints as {:?}, which reads back as {}", text, back));
    }
    if off * scale * qi(2) > qi(1) {
        return wrong(desc, format!("it prints as {:?}, which reads back as {}: too far off", text, back));
    }
    fine(desc)
}

pub fn c13(rng: &mut Rng) -> Case {
    let mut c = Calculator::new(None);
    let radix = rng.radix();
    c.args.radix = radix;
    match rng.below(7) {
        0 => {
            // A command.
            let line = command_line(rng);
            let desc = format!("{:?}", line);
            let (slash, name_end, args_start) = match command(&line) {
                Some(x) => x,
                None => return skip(desc),
            };
            return match real::lex(&c.tokenizer, &line, radix) {
                Lexed::Command { name, name_at, args, args_at } => {
                    if name != line[slash + 1..name_end] || name_at != (slash, name_end - slash) {
                        return wrong(desc, format!("the command's name {:?} is said to be at {:?}", name, name_at));
                    }
                    if args != line[args_start..] || args_at != (args_start, line.len() - args_start) {
                        return wrong(desc, format!("the command's arguments {:?} are said to be at {:?}", args, args_at));
                    }
                    fine(desc)
                }
                _ => wrong(desc, "it is not read as a command".to_string()),
            };
        }
        1 => {
            // An unknown command, or help for one.
            let name = *rng.pick(&["nope", "Help", "radixx", "x/y", "$a", "1"]);
            let before = *rng.pick(&["", " ", "  \t"]);
            let (line, at) = if rng.one_in(2) {
                let line = format!("{}/{}{}", before, name, rng.pick(&["", " 5", "  "]));
                let at = (before.len(), name.len() + 1);
                (line, at)
            } else {
                let gap = *rng.pick(&[" ", "  ", "\t ", "   \t"]);
                let help = *rng.pick(&["help", "h"]);
                let after = *rng.pick(&["", " ", "\t "]);
                let line = format!("{}/{}{}{}{}", before, help, gap, name, after);
                let at = (before.len() + 1 + help.len() + gap.len(), name.len());
                (line, at)
            };
            let desc = format!("{:?}", line);
            return match c.enter(&line) {
                Out::Input(_, Some(got)) if got == at => fine(desc),
                got => wrong(desc, format!("the unknown command is at {:?}, but is reported as {:?}", at, got)),
            };
        }
        2 => {
            // Two expressions with no operator between them.
            let shape = Shape { radix, vars: vec!["$a".into(), "$bb".into()], roots: true, depth: 0, small: false };
            let (d1, d2) = (rng.below(3), rng.below(3));
            let first = negatable(rng, &shape, d1);
            let second = operand(rng, &shape, d2);
            let gap = *rng.pick(&[" ", "  ", "\t", "   "]);
            let mut line = String::new();
            line.push_str(space(rng));
            if rng.one_in(2) {
                line.push_str(*rng.pick(&["$a +", "3 *", "(2) ^ ", "$q ="]));
                line.push_str(space(rng));
            }
            line.push_str(&first);
            let at = (line.len(), gap.len());
            line.push_str(gap);
            line.push_str(&second);
            if rng.one_in(2) {
                line.push_str(*rng.pick(&[" + 1", "*$a", " ^1", " - 1"]));
            }
            let desc = format!("radix {} {:?}", radix, line);
            // The shape must be what it looks like: each half alone is an operand.
            let half = |s: &str| tokenize(s, radix).ok().map_or(false, |t| parse(&t).is_ok());
            if !half(&first) || !half(&second) || command(&line).is_some() {
                return skip(desc);
            }
            // `max (..)` on the left takes parentheses on the right as its own.
            if tokenize(&line, radix).ok().map_or(true, |t| parse(&t).is_ok()) {
                return skip(desc);
            }
            if first.ends_with("max") || first.ends_with("min") {
                return skip(desc);
            }
            return match real::accepts(&c.tokenizer, &line, radix) {
                Some(Err(got)) if got == at => fine(desc),
                got => wrong(desc, format!("an operator is missing at {:?}, but what is reported is {:?}", at, got)),
            };
        }
        3 => {
            // Any error lies within the line.
            let line = match rng.below(3) {
                0 => scribble(rng),
                1 => {
                    let n = rng.below(10);
                    soup(rng, n)
                }
                _ => {
                    let shape = Shape { radix, vars: vec!["$a".into()], roots: true, depth: 0, small: true };
                    let text = expression(rng, &shape, 2);
                    damaged(rng, &text)
                }
            };
            let desc = format!("radix {} {:?}", radix, line);
            let length = line.chars().count();
            let at = match real::lex(&c.tokenizer, &line, radix) {
                Lexed::Error(s, w) => Some((s, w)),
                _ => match real::accepts(&c.tokenizer, &line, radix) {
                    Some(Err(at)) => Some(at),
                    _ => None,
                },
            };
            return match at {
                None => skip(desc),
                Some((s, w)) if s + w <= length => fine(desc),
                Some(at) => wrong(desc, format!("the error is said to be at {:?}, outside of the line", at)),
            };
        }
        _ => {}
    }
    let line = lexed_line(rng, radix);
    let desc = format!("radix {} {:?}", radix, line);
    if command(&line).is_some() {
        return skip(desc);
    }
    match real::lex(&c.tokenizer, &line, radix) {
        Lexed::Toks(got) => {
            let mut at = 0;
            for tok in &got {
                if tok.start < at || tok.end <= tok.start || tok.end > line.len() {
                    return wrong(desc, format!("{:?} is out of order", tok));
                }
                if !line.as_bytes()[at..tok.start].iter().all(|c| blank(*c)) {
                    return wrong(desc, format!("there is text between {} and {:?}", at, tok));
                }
                let text = &line[tok.start..tok.end];
                let alone = tokenize(text, radix).unwrap_or_default();
                if alone.len() != 1 || alone[0].t != tok.t {
                    return wrong(desc, format!("{:?} is not what is written there: {:?}", tok, text));
                }
                at = tok.end;
            }
            if !line.as_bytes()[at..].iter().all(|c| blank(*c)) {
                return wrong(desc, format!("there is text after the last token, from {}", at));
            }
            fine(desc)
        }
        Lexed::Error(s, w) if s + w > line.chars().count() => {
            wrong(desc, format!("the error is said to be at {:?}, outside of the line", (s, w)))
        }
        _ => fine(desc),
    }
}

pub fn command_line(rng: &mut Rng) -> String {
    let mut line = String::new();
    line.push_str(*rng.pick(&["", "", "", " ", "  ", "\t", "\n ", "\r", "\x0c"]));
    line.push('/');
    line.push_str(*rng.pick(&[
        "", "help", "h", "radix", "r", "f", "p", "comma", "nope", "Radix", "a/b", "$x", "1", "/", "precision",
        "he_lp", "radix,",
    ]));
    match rng.below(4) {
        0 => {}
        _ => {
            line.push_str(*rng.pick(&[" ", " ", "\t", "\n", "\r", "\x0c"]));
            for _ in 0..rng.below(4) {
                line.push_str(*rng.pick(&[" ", "10", "/", "-3", "$a", "radix", "\t", "true", "/help", "  "]));
            }
        }
    }
    line
}
