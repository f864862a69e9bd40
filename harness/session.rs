// Checks of sessions: settings, commands, variables in memory, and survival.
use super::eval::{ctx, fine, skip, wrong, Case};
use super::gen::*;
use super::oracle::*;
use super::real::{self, Calculator, Lexed, Out, Settings};
use num::bigint::BigInt;
use num::{One, Signed, Zero};
use std::collections::HashMap;

pub const COMMANDS: &[&str] = &[
    "help", "reloadvar", "purgevar", "histcap", "fractional", "radix", "converttoradix", "upper", "commas",
    "precision",
];
pub const ALIASES: &[(&str, &str)] =
    &[("h", "help"), ("f", "fractional"), ("r", "radix"), ("comma", "commas"), ("p", "precision")];

pub fn resolve(name: &str) -> Option<&'static str> {
    for c in COMMANDS {
        if *c == name {
            return Some(c);
        }
    }
    for (alias, c) in ALIASES {
        if *alias == name {
            return Some(c);
        }
    }
    None
}

/// The integers an argument list is made of.
pub fn integers(args: &str) -> Result<Vec<i64>, ()> {
    if command(args).is_some() {
        return Err(());
    }
    let mut out = Vec::new();
    let mut negative = false;
    for tok in tokenize(args, 10)? {
        match tok.t {
            T::Op('-') if !negative => negative = true,
            T::Num(q) if q.denom().is_one() => {
                let n = i64::try_from(q.numer()).map_err(|_| ())?;
                out.push(if negative { -n } else { n });
                negative = false;
            }
            _ => return Err(()),
        }
    }
    if negative {
        Err(())
    } else {
        Ok(out)
    }
}

fn trim(s: &str) -> &str {
    s.trim_matches(|c: char| (c as u32) < 128 && blank(c as u8))
}

fn switch(args: &str, value: &mut bool) -> Result<Option<String>, ()> {
    match trim(&args.to_ascii_lowercase()) {
        "" => Ok(Some(format!("{}", value))),
        "t" | "true" => {
            *value = true;
            Ok(None)
        }
        "f" | "false" => {
            *value = false;
            Ok(None)
        }
        _ => Err(()),
    }
}

fn radix_value(args: &str) -> Result<Option<u8>, ()> {
    let list = integers(args)?;
    match list.len() {
        0 => Ok(None),
        1 if list[0] >= 2 && list[0] <= 16 => Ok(Some(list[0] as u8)),
        _ => Err(()),
    }
}

/// What a setting command does: the text of a report, or `None` when it sets something.
pub fn apply(name: &str, args: &str, s: &mut Settings, capacity: Option<&mut i64>) -> Result<Option<String>, ()> {
    match name {
        "fractional" => switch(args, &mut s.fractional),
        "upper" => switch(args, &mut s.upper),
        "commas" => switch(args, &mut s.commas),
        "radix" => match radix_value(args)? {
            None => Ok(Some(s.radix.to_string())),
            Some(r) => {
                s.radix = r;
                Ok(None)
            }
        },
        "converttoradix" => {
            if trim(&args.to_ascii_lowercase()) == "none" {
                s.convert = None;
                return Ok(None);
            }
            match radix_value(args)? {
                None => Ok(Some(s.convert.map_or("None".to_string(), |r| r.to_string()))),
                Some(r) => {
                    s.convert = Some(r);
                    Ok(None)
                }
            }
        }
        "precision" => {
            let list = integers(args)?;
            if list.is_empty() {
                return Ok(Some(format!("Precision = {}\nExtra Precision = {}", s.precision, s.extra)));
            }
            if list.len() > 2 {
                return Err(());
            }
            let extra = if list.len() == 2 { list[1] } else { s.extra as i64 };
            if list[0] < 0 || extra < 0 || list[0] > 255 || extra > 255 || list[0] + extra > 255 {
                return Err(());
            }
            s.precision = list[0] as u8;
            s.extra = extra as u8;
            Ok(None)
        }
        "histcap" => {
            let list = integers(args)?;
            if list.len() > 1 || (list.len() == 1 && list[0] < 1) {
                return Err(());
            }
            let capacity = capacity.ok_or(())?;
            if list.is_empty() {
                return Ok(Some(capacity.to_string()));
            }
            *capacity = list[0];
            Ok(None)
        }
        _ => Err(()),
    }
}

fn any_settings(rng: &mut Rng) -> Settings {
    Settings {
        radix: rng.radix(),
        convert: if rng.one_in(2) { Some(rng.radix()) } else { None },
        precision: match rng.below(4) {
            0 => *rng.pick(&[0u8, 1, 255, 250, 245]),
            1 => rng.below(256) as u8,
            _ => rng.below(20) as u8,
        },
        extra: match rng.below(4) {
            0 => *rng.pick(&[0u8, 1, 255, 10]),
            1 => rng.below(256) as u8,
            _ => rng.below(20) as u8,
        },
        fractional: rng.one_in(2),
        commas: rng.one_in(2),
        upper: rng.one_in(2),
    }
}

fn setting_arguments(rng: &mut Rng, name: &str) -> String {
    let mut out = String::new();
    match rng.below(12) {
        0 => {}
        1 => out.push_str(*rng.pick(&["true", "false", "t", "f", "T", "FALSE", "True", "tr", "truefalse", "1", "yes"])),
        2 => out.push_str(*rng.pick(&["none", "None", "NONE", "non", "none 5", "10 none"])),
        3 => {
            // Just inside and just outside of every range.
            let edge = *rng.pick(&[0i64, 1, 2, 3, 15, 16, 17, 100, 254, 255, 256, 257, 258, 272, 65536, 65546]);
            out.push_str(&edge.to_string());
        }
        4 => {
            let a = rng.below(260) as i64;
            let b = match rng.below(3) {
                0 => 255 - a,
                1 => 256 - a,
                _ => rng.below(260) as i64,
            };
            out.push_str(&format!("{} {}", a, b));
        }
        5 => out.push_str(*rng.pick(&["-1", "-5", "- 5", "--5", "5 -", "-0", "5 6 7", "1 2 3 4", "5,6", "5.5", "5.0", "1_0", "0x5", "a", "$a", "/5"])),
        6 => out.push_str(*rng.pick(&[
            "9223372036854775807", "9223372036854775808", "-9223372036854775807", "18446744073709551626",
            "4294967306", "340282366920938463463374607431768211466",
        ])),
        7 => {
            let text = scribble(rng);
            out.push_str(&text);
        }
        _ => match name {
            "fractional" | "upper" | "commas" | "f" | "comma" => {
                out.push_str(*rng.pick(&["true", "false", "t", "f", "T", "F"]))
            }
            "precision" | "p" => {
                let n = 1 + rng.below(2);
                for i in 0..n {
                    if i > 0 {
                        out.push(' ');
                    }
                    out.push_str(&rng.below(140).to_string());
                }
            }
            _ => out.push_str(&(1 + rng.below(18)).to_string()),
        },
    }
    let before = *rng.pick(&["", "", "", " ", "\t "]);
    let after = *rng.pick(&["", "", "", " ", "  "]);
    format!("{}{}{}", before, out, after)
}

pub fn any_name(rng: &mut Rng) -> String {
    match rng.below(8) {
        0..=4 => rng.pick(COMMANDS).to_string(),
        5 | 6 => rng.pick(ALIASES).0.to_string(),
        _ => rng.pick(&["", "nope", "Radix", "HELP", "hel", "helpp", "/help", "radix5", "rr", "c", "u", "$r"]).to_string(),
    }
}

pub fn c12(rng: &mut Rng) -> Case {
    if rng.one_in(12) {
        return from_command_line(rng);
    }
    let db = if rng.one_in(4) { super::disk::scratch(rng) } else { None };
    let mut c = Calculator::new(db);
    let mut model = any_settings(rng);
    real::set(&mut c.args, &model);
    let mut capacity: Option<i64> = c.db.as_mut().map(|d| d.get_max_history_size().unwrap());
    let mut story = format!("{:?} capacity {:?}", model, capacity);
    for _ in 0..1 + rng.below(5) {
        let name = any_name(rng);
        let line = if rng.one_in(8) {
            let n = 1 + rng.below(6);
            rng.pick(&["radix 5", "5/radix 3", "$a = 16", "1 + 1", "p 3"]).to_string() + &" ".repeat(n)
        } else {
            let args = setting_arguments(rng, &name);
            format!("{}/{}{}{}", rng.pick(&["", "", " ", "\t"]), name, rng.pick(&[" ", " ", "\t", "\n"]), args)
        };
        if line.is_ascii() && tokenize(&line, 10).is_ok() && command(&line).is_none() && line.len() > 60 {
            continue;
        }
        story.push_str(&format!("; {:?}", line));
        let before = model.clone();
        let got = c.enter(&line);
        let read = if line.is_ascii() { command(&line) } else { None };
        match read {
            None => {}
            Some((slash, end, args)) => {
                let name = resolve(&line[slash + 1..end]);
                match name {
                    Some("help") | Some("reloadvar") | Some("purgevar") => {}
                    Some(name) => match apply(name, &line[args..], &mut model, capacity.as_mut()) {
                        Ok(None) => {
                            if got.failed() {
                                return wrong(story, format!("a valid setting is refused: {:?}", got));
                            }
                        }
                        Ok(Some(report)) => {
                            if got != Out::Text(report.clone()) {
                                return wrong(story, format!("it ought to report {:?}, not {:?}", report, got));
                            }
                        }
                        Err(()) => {
                            model = before;
                            if !got.failed() {
                                return wrong(story, format!("an invalid setting is answered with {:?}", got));
                            }
                        }
                    },
                    None => {
                        if !got.failed() {
                            return wrong(story, format!("an unknown command is answered with {:?}", got));
                        }
                    }
                }
            }
        }
        let now = real::settings(&c.args);
        if now != model {
            return wrong(story, format!("the settings ought to be {:?}, but they are {:?}", model, now));
        }
        let stored = c.db.as_mut().map(|d| d.get_max_history_size().unwrap());
        if stored != capacity {
            return wrong(story, format!("the capacity ought to be {:?}, but it is {:?}", capacity, stored));
        }
    }
    fine(story)
}

/// Settings given on the command line.
fn from_command_line(rng: &mut Rng) -> Case {
    use clap::Parser;
    let (flag, text) = match rng.below(4) {
        0 => ("--radix", rng.pick(&["0", "1", "2", "9", "16", "17", "255", "256", "-1", "x", ""]).to_string()),
        1 => ("--convert-to-radix", rng.pick(&["0", "1", "2", "9", "16", "17", "255", "256", "-1", "x", ""]).to_string()),
        2 => ("--precision", rng.pick(&["0", "255", "256", "-1", "7", "x"]).to_string()),
        _ => ("--extra-precision", rng.pick(&["0", "255", "256", "-1", "7", "x"]).to_string()),
    };
    let desc = format!("{}={}", flag, text);
    let given: Option<u32> = text.parse().ok();
    let is_radix = flag == "--radix" || flag == "--convert-to-radix";
    let valid = given.map_or(false, |n| if is_radix { n >= 2 && n <= 16 } else { n <= 255 });
    let mut expected = real::settings(&real::args());
    match crate::Args::try_parse_from(["bcalc".to_string(), format!("{}={}", flag, text)]) {
        Err(_) => {
            if valid {
                wrong(desc, "it is valid, but it is refused".to_string())
            } else {
                fine(desc)
            }
        }
        Ok(a) => {
            if !valid {
                return wrong(desc, "it is out of range, but it is accepted".to_string());
            }
            let n = given.unwrap() as u8;
            match flag {
                "--radix" => expected.radix = n,
                "--convert-to-radix" => expected.convert = Some(n),
                "--precision" => expected.precision = n,
                _ => expected.extra = n,
            }
            if real::settings(&a) == expected {
                fine(desc)
            } else {
                wrong(desc, format!("it results in {:?}", real::settings(&a)))
            }
        }
    }
}

pub fn c14(rng: &mut Rng) -> Case {
    let mut c = Calculator::new(None);
    let before = any_settings(rng);
    real::set(&mut c.args, &before);
    match rng.below(6) {
        0 | 1 => {
            let line = match rng.below(5) {
                0 => scribble(rng),
                1 => {
                    let text = scribble(rng);
                    format!("{}/{}", space(rng), text)
                }
                2 => {
                    let rest = setting_arguments(rng, "radix");
                    format!("{}{}/{}", rng.pick(&["1", "$", "_", ".", "(", " x", "- "]), space(rng), rest)
                }
                _ => super::eval::command_line(rng),
            };
            let desc = format!("{:?}", line);
            if !line.is_ascii() {
                return skip(desc);
            }
            match (command(&line), real::lex(&c.tokenizer, &line, c.args.radix)) {
                (Some((slash, end, args_at)), Lexed::Command { name, args, .. }) => {
                    if name == line[slash + 1..end] && args == line[args_at..] {
                        fine(desc)
                    } else {
                        wrong(desc, format!("its name is read as {:?} and its arguments as {:?}", name, args))
                    }
                }
                (Some(_), _) => wrong(desc, "it is not taken for a command".to_string()),
                (None, Lexed::Command { name, .. }) => wrong(desc, format!("it is taken for the command {:?}", name)),
                (None, _) => fine(desc),
            }
        }
        2 => {
            // Help lists everything, and a command's help is about that command.
            let help = *rng.pick(&["help", "h"]);
            let (line, about) = if rng.one_in(3) {
                (format!("/{}{}", help, rng.pick(&["", " ", "\t  "])), None)
            } else {
                let name = any_name(rng);
                (format!("/{}{}{}{}", help, rng.pick(&[" ", "   ", "\t"]), name, rng.pick(&["", " "])), Some(name))
            };
            let desc = format!("{:?}", line);
            let got = c.enter(&line);
            if real::settings(&c.args) != before {
                return wrong(desc, "help changes a setting".to_string());
            }
            match about.as_ref().map(|n| trim(n)) {
                None | Some("") => match got {
                    Out::Text(text) => {
                        for name in COMMANDS {
                            let listed = text.split('\n').any(|l| l.split_whitespace().next() == Some(name));
                            if !listed {
                                return wrong(desc, format!("/{} is not listed", name));
                            }
                        }
                        fine(desc)
                    }
                    other => wrong(desc, format!("it is answered with {:?}", other)),
                },
                Some(name) => match (resolve(name), got) {
                    (Some(full), Out::Text(text)) => {
                        let usage = text.split('\n').next().unwrap_or("").to_string();
                        let word = usage.split_whitespace().nth(1).unwrap_or("").to_string();
                        if word == format!("/{}", full) {
                            fine(desc)
                        } else {
                            wrong(desc, format!("it is about {:?}", usage))
                        }
                    }
                    (None, Out::Input(_, _)) => fine(desc),
                    (_, other) => wrong(desc, format!("it is answered with {:?}", other)),
                },
            }
        }
        _ => {
            // A name runs its own command, recognised by what it does.
            let name = any_name(rng);
            let (args, model) = {
                let mut model = before.clone();
                let args = match resolve(&name) {
                    Some("fractional") => {
                        model.fractional = !model.fractional;
                        model.fractional.to_string()
                    }
                    Some("upper") => {
                        model.upper = !model.upper;
                        model.upper.to_string()
                    }
                    Some("commas") => {
                        model.commas = !model.commas;
                        model.commas.to_string()
                    }
                    Some("radix") => {
                        model.radix = if model.radix == 16 { 2 } else { model.radix + 1 };
                        model.radix.to_string()
                    }
                    Some("converttoradix") => {
                        let r = model.convert.map_or(7, |r| if r == 16 { 2 } else { r + 1 });
                        model.convert = Some(r);
                        r.to_string()
                    }
                    Some("precision") => {
                        model.precision = model.precision / 2;
                        model.extra = if model.extra == 3 { 4 } else { 3 };
                        format!("{} {}", model.precision, model.extra)
                    }
                    Some("purgevar") => "$a".to_string(),
                    _ => rng.pick(&["", "5", "true", "$a", "radix"]).to_string(),
                };
                (args, model)
            };
            c.define("$a", &qi(5));
            let line = format!("{}/{}{}{}", rng.pick(&["", " ", "\t"]), name, rng.pick(&[" ", "\t", "\n", "  "]), args);
            let desc = format!("{:?} {:?}", before, line);
            let known = command(&line).and_then(|(s, e, _)| resolve(&line[s + 1..e]));
            let got = c.enter(&line);
            let expected = if known.is_some() { model } else { before };
            if real::settings(&c.args) != expected {
                return wrong(desc, format!("the settings become {:?}", real::settings(&c.args)));
            }
            if known.is_none() && !got.failed() {
                return wrong(desc, format!("an unknown command is answered with {:?}", got));
            }
            let held = c.held("$a");
            let kept = if known == Some("purgevar") { None } else { Some(qi(5)) };
            if held != kept {
                return wrong(desc, format!("$a becomes {:?}", held));
            }
            fine(desc)
        }
    }
}

pub const NAMES: &[&str] = &["$a", "$b", "$A", "$", "$long_name.1", "$ab"];

/// Reads an exact printed value back.
pub fn exact_text(text: &str) -> Option<Q> {
    let (negative, text) = match text.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, text),
    };
    let mut parts = text.split('/');
    let n = number(parts.next()?.as_bytes(), 10)?;
    let d = match parts.next() {
        None => qi(1),
        Some(d) => number(d.as_bytes(), 10)?,
    };
    let q = n / d;
    Some(if negative { -q } else { q })
}

pub fn variable_line(rng: &mut Rng) -> String {
    let shape = Shape {
        radix: 10,
        vars: NAMES.iter().map(|n| n.to_string()).collect(),
        roots: rng.one_in(3),
        depth: 0,
        small: true,
    };
    let name = rng.pick(NAMES).to_string();
    match rng.below(14) {
        0..=4 => {
            let depth = rng.below(2);
            format!("{} = {}", name, expression(rng, &shape, depth))
        }
        5 => format!("{}={}", name, number_text(rng, 10)),
        6 => name,
        7 => {
            let depth = rng.below(2);
            expression(rng, &shape, depth)
        }
        8 => format!("{} = {} + 1/0", name, rng.pick(NAMES)),
        9 => format!("{} = {}", name, rng.pick(&["(", "1 +", "$a = 3", "", "3 4", "$none", ")", "5 = 5", "sqrt -1", "max()", "0 ^ -1", "1 % 0", "q"])),
        10 => format!("{} = {}", name, rng.pick(NAMES)),
        11 => format!("{} = {} * 2 - {}", name, name, rng.pick(NAMES)),
        12 => {
            let mut line = "/purgevar".to_string();
            for _ in 0..rng.below(4) {
                line.push(' ');
                line.push_str(rng.pick(NAMES));
            }
            if rng.one_in(6) {
                line.push_str(" 5");
            }
            line
        }
        _ => {
            let mut line = "/reloadvar".to_string();
            for _ in 0..rng.below(3) {
                line.push(' ');
                line.push_str(rng.pick(NAMES));
            }
            if rng.one_in(6) {
                line.push_str(" x");
            }
            line
        }
    }
}

/// The variables a line mentions, in order.
pub fn mentioned(toks: &[Tok]) -> Vec<String> {
    toks.iter()
        .filter_map(|t| match &t.t {
            T::Var(v) => Some(v.clone()),
            _ => None,
        })
        .collect()
}

/// The names that a command about variables is given, or `None` if they are not all names.
pub fn name_list(args: &str) -> Option<Vec<String>> {
    if command(args).is_some() {
        return None;
    }
    let toks = tokenize(args, 10).ok()?;
    let names = mentioned(&toks);
    if names.len() == toks.len() {
        Some(names)
    } else {
        None
    }
}

pub fn c08(rng: &mut Rng) -> Case {
    // Values are printed exactly, so that what a line returns is known.
    let mut c = Calculator::new(None);
    c.args.fractional = true;
    c.args.precision = 5;
    let mut model: HashMap<String, Q> = HashMap::new();
    let mut story = String::new();
    for _ in 0..2 + rng.below(9) {
        let line = variable_line(rng);
        if line.starts_with("/reloadvar") {
            continue;
        }
        if let Some((_, _, args)) = command(&line) {
            story.push_str(&format!("; {:?}", line));
            let got = c.enter(&line);
            match name_list(&line[args..]) {
                Some(names) => {
                    if got.failed() {
                        return wrong(story, format!("it fails: {:?}", got));
                    }
                    for n in names {
                        model.remove(&n);
                    }
                }
                None => {
                    if !got.failed() {
                        return wrong(story, format!("it is answered with {:?}", got));
                    }
                }
            }
        } else {
            let read = tokenize(&line, 10).and_then(|t| parse(&t));
            let expected = match &read {
                Ok(l) => eval(&l.tree, &model, &ctx(10, 15)),
                Err(()) => Err(Fail::Undefined),
            };
            if expected.as_ref().err() == Some(&Fail::TooBig) {
                continue;
            }
            story.push_str(&format!("; {:?}", line));
            let got = c.enter(&line);
            match (&expected, &got) {
                (Err(Fail::Undefined), Out::Text(t)) if !line.trim().is_empty() => {
                    return wrong(story, format!("it has no value, but results in {:?}", t));
                }
                (Ok(_), Out::Input(..)) | (Ok(_), Out::Runtime(_)) => {
                    return wrong(story, format!("it has a value, but results in {:?}", got));
                }
                _ => {}
            }
            if let (Ok(l), Out::Text(t)) = (&read, &got) {
                let value = match exact_text(t) {
                    Some(v) => v,
                    None => return wrong(story, format!("it prints {:?}", t)),
                };
                if let Tree::Var(v) = &l.tree {
                    if model.get(v) != Some(&value) {
                        return wrong(story, format!("{} reads as {}, but {:?} was assigned", v, value, model.get(v)));
                    }
                }
                if let Some(name) = &l.assigns {
                    model.insert(name.clone(), value);
                }
            }
        }
        for name in NAMES.iter().chain(["$none", "$z"].iter()) {
            let held = c.held(name);
            if held.as_ref() != model.get(*name) {
                return wrong(story, format!("{} ought to hold {:?}, but holds {:?}", name, model.get(*name), held));
            }
        }
    }
    fine(story)
}

/// Whatever is entered, something comes back. A panic is caught by the caller, and so is never coming
/// back.
pub fn c05(rng: &mut Rng) -> Case {
    let db = if rng.one_in(6) { super::disk::scratch(rng) } else { None };
    let mut c = Calculator::new(db);
    let s = any_settings(rng);
    real::set(&mut c.args, &s);
    let mut names: Vec<String> = Vec::new();
    let mut story = format!("{:?}", s);
    if rng.one_in(2) && c.db.is_none() {
        for n in ["$a", "$b"] {
            let v = rational(rng);
            story.push_str(&format!("; {} is {}", n, v));
            c.define(n, &v);
            names.push(n.to_string());
        }
    }
    for _ in 0..1 + rng.below(4) {
        let radix = c.args.radix;
        let line = match rng.below(10) {
            0 | 1 => scribble(rng),
            2 => {
                let n = rng.below(12);
                soup(rng, n)
            }
            3 | 4 => {
                let name = any_name(rng);
                let args = setting_arguments(rng, &name);
                format!("{}/{}{}{}", space(rng), name, space(rng), args)
            }
            5 => variable_line(rng),
            6 => super::eval::command_line(rng),
            7 => {
                let op = *rng.pick(&["/", "%", "^", "^ -", "^ (1/2) *", "^ (-1/3) +", "-", "^ ("]);
                let zero = *rng.pick(&["0", "(1-1)", "-0", "0.0", ".0", "(0 ^ 0)", "abs 0"]);
                let other = number_text(rng, radix);
                let (l, r) = if rng.one_in(2) { (other.as_str(), zero) } else { (zero, other.as_str()) };
                format!("{} {} {}{}", l, op, r, if op.ends_with('(') { "/ 2)" } else { "" })
            }
            8 => {
                let shape = Shape { radix, vars: names.clone(), roots: true, depth: 0, small: false };
                let text = expression(rng, &shape, 2);
                damaged(rng, &text)
            }
            _ => {
                let shape = Shape { radix, vars: names.clone(), roots: true, depth: 0, small: rng.one_in(2) };
                let depth = rng.below(4);
                expression(rng, &shape, depth)
            }
        };
        // Astronomically large results are not asked for.
        let digits = c.args.precision as u32 + c.args.extra_precision as u32;
        let mut limits = ctx(c.args.radix, digits.min(30));
        if digits > 60 {
            limits.max_root = 150;
        }
        let mut vars = HashMap::new();
        for n in NAMES.iter().map(|n| n.to_string()).chain(names.iter().cloned()) {
            if let Some(v) = c.held(&n) {
                vars.insert(n, v);
            }
        }
        if command(&line).is_none() {
            if let Ok(l) = tokenize(&line, c.args.radix).and_then(|t| parse(&t)) {
                match eval(&l.tree, &vars, &limits) {
                    Err(Fail::TooBig) => continue,
                    // Roots of roots have as many digits as the precision asks for.
                    Err(Fail::Unknown) if digits > 25 => continue,
                    Ok(v) if !v.err.is_zero() && digits > 60 && line.matches('^').count() > 1 => continue,
                    Err(Fail::Unknown) if line.contains('^') => continue,
                    _ => {}
                }
            }
        }
        story.push_str(&format!("; {:?}", line));
        super::note(&story);
        let alone = rng.one_in(8);
        let got = if alone { c.once(&line) } else { c.enter(&line) };
        if let Out::Runtime(e) = got {
            return wrong(story, format!("it fails, though nothing outside does: {}", e));
        }
    }
    // Long lines and deep nesting, within reason.
    if rng.one_in(60) {
        let n = 20 + rng.below(60);
        let line = match rng.below(4) {
            0 => format!("{}1{}", "(".repeat(n), ")".repeat(n)),
            1 => format!("{}1", "-".repeat(n * 4)),
            2 => format!("{}1", "abs ".repeat(n)),
            _ => "1+".repeat(n * 4) + "1",
        };
        super::note(&line);
        story.push_str(&format!("; {:?}", line));
        c.enter(&line);
    }
    let _ = (BigInt::one(), BigInt::zero().is_negative());
    fine(story)
}
