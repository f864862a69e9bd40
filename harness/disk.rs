// Checks of what is on disk, looked at through a connection of our own.
use super::eval::{ctx, fine, wrong, Case};
use super::gen::*;
use super::oracle::*;
use super::real::{Calculator, Out};
use super::session::{exact_text, name_list, mentioned, variable_line, NAMES};
use crate::input_history::InputHistory;
use crate::saved_data::SavedData;
use crate::variable::Variable;
use num::bigint::BigInt;
use num::{One, Zero};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

static COUNT: AtomicU64 = AtomicU64::new(0);

fn directory(n: u64) -> PathBuf {
    PathBuf::from(std::env::var("BCALC_VERIF_SCRATCH").expect("no scratch directory")).join(format!("d{}", n))
}

fn database() -> PathBuf {
    directory(COUNT.load(Ordering::SeqCst)).join("bcalc").join("saved_data.sqlite")
}

/// Starts over with an empty database.
pub fn scratch(_rng: &mut Rng) -> Option<SavedData> {
    let old = COUNT.fetch_add(1, Ordering::SeqCst);
    let _ = std::fs::remove_dir_all(directory(old));
    let dir = directory(old + 1);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("_B_UTIL_DATA_DIR", &dir);
    Some(open())
}

fn open() -> SavedData {
    SavedData::open().unwrap().expect("no database")
}

#[derive(Clone, Debug, PartialEq)]
struct Dump {
    meta: Vec<(i64, i64)>,
    hist: Vec<(i64, String, Option<i64>, Option<i64>)>,
    tags: Vec<(i64, Option<i64>)>,
    vars: Vec<(String, String, String, i64)>,
}

fn side() -> rusqlite::Connection {
    rusqlite::Connection::open(database()).unwrap()
}

fn dump() -> Dump {
    let c = side();
    let mut s = c.prepare("SELECT key, value FROM meta_int ORDER BY key").unwrap();
    let meta = s.query_map([], |r| Ok((r.get(0)?, r.get(1)?))).unwrap().map(|r| r.unwrap()).collect();
    let mut s = c.prepare("SELECT id, input, next, prev FROM input_history ORDER BY id").unwrap();
    let hist = s
        .query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?, r.get(3)?)))
        .unwrap()
        .map(|r| r.unwrap())
        .collect();
    let mut s = c.prepare("SELECT key, value FROM input_history_tags ORDER BY key").unwrap();
    let tags = s.query_map([], |r| Ok((r.get(0)?, r.get(1)?))).unwrap().map(|r| r.unwrap()).collect();
    let mut s = c.prepare("SELECT name, numer, denom, last_used_by FROM variable_history ORDER BY name").unwrap();
    let vars = s
        .query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?, r.get(3)?)))
        .unwrap()
        .map(|r| r.unwrap())
        .collect();
    Dump { meta, hist, tags, vars }
}

/// The lines stored, oldest first, or what is wrong with how they are linked.
fn list(d: &Dump) -> Result<Vec<(i64, String)>, String> {
    let tag = |k: i64| d.tags.iter().find(|t| t.0 == k).and_then(|t| t.1);
    let (front, back) = (tag(1), tag(2));
    let rows: HashMap<i64, (String, Option<i64>, Option<i64>)> =
        d.hist.iter().map(|r| (r.0, (r.1.clone(), r.2, r.3))).collect();
    let mut out = Vec::new();
    let mut at = back;
    let mut before: Option<i64> = None;
    while let Some(id) = at {
        let row = rows.get(&id).ok_or(format!("the list leads to {}, which is not stored", id))?;
        if row.2 != before {
            return Err(format!("before {} ought to come {:?}, but its link says {:?}", id, before, row.2));
        }
        out.push((id, row.0.clone()));
        if out.len() > rows.len() {
            return Err("the list goes around in circles".to_string());
        }
        before = Some(id);
        at = row.1;
    }
    if before != front {
        return Err(format!("the newest line is {:?}, but the list ends in {:?}", front, before));
    }
    if out.len() != rows.len() {
        return Err(format!("{} lines are stored, but {} are on the list", rows.len(), out.len()));
    }
    Ok(out)
}

fn stored_vars(d: &Dump) -> BTreeMap<String, (Q, i64)> {
    d.vars
        .iter()
        .map(|(n, num, den, id)| {
            let p = |s: &str| BigInt::parse_bytes(s.as_bytes(), 10).unwrap_or(BigInt::from(-999_999_999i64));
            let den = p(den);
            let q = if den.is_zero() { qi(-999_999_999) } else { Q::new(p(num), den) };
            (n.clone(), (q, *id))
        })
        .collect()
}

/// What the database ought to hold.
#[derive(Clone, Debug)]
struct Model {
    cap: i64,
    hist: Vec<(i64, String)>,
    vars: BTreeMap<String, (Q, i64)>,
}

impl Model {
    fn new() -> Model {
        Model { cap: 100, hist: Vec::new(), vars: BTreeMap::new() }
    }

    fn trim(&mut self) {
        while self.hist.len() as i64 > self.cap {
            let (gone, _) = self.hist.remove(0);
            self.vars.retain(|_, v| v.1 != gone);
        }
    }

    fn check(&self, d: &Dump) -> Result<(), String> {
        let l = list(d)?;
        if l != self.hist {
            return Err(format!("the stored history ought to be {:?}, but it is {:?}", self.hist, l));
        }
        let v = stored_vars(d);
        if v != self.vars {
            return Err(format!("the stored variables ought to be {:?}, but they are {:?}", self.vars, v));
        }
        if !d.meta.contains(&(3, self.cap)) {
            return Err(format!("the stored capacity ought to be {}: {:?}", self.cap, d.meta));
        }
        Ok(())
    }
}

const TRIGGERS: &[&str] = &[
    "INSERT ON input_history",
    "UPDATE OF next ON input_history",
    "UPDATE OF prev ON input_history",
    "DELETE ON input_history",
    "UPDATE ON input_history_tags WHEN NEW.key=1",
    "UPDATE ON input_history_tags WHEN NEW.key=2",
    "INSERT ON meta_int",
    "INSERT ON variable_history",
    "UPDATE ON variable_history",
    "DELETE ON variable_history",
];

/// Makes the database refuse one kind of statement.
fn sabotage(rng: &mut Rng, story: &mut String) {
    let what = *rng.pick(TRIGGERS);
    let when = *rng.pick(&["BEFORE", "AFTER"]);
    story.push_str(&format!(" while {} {} fails", when, what));
    side()
        .execute_batch(&format!("CREATE TRIGGER sabotage {} {} BEGIN SELECT RAISE(ABORT, 'sabotage'); END;", when, what))
        .unwrap();
}

fn repair() {
    side().execute_batch("DROP TRIGGER IF EXISTS sabotage;").unwrap();
}

fn text(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => String::new(),
        1 => rng.pick(&["'", "''); --", "\"", "%", ";", "NULL", " 1 ", "\\", "0", "1.0", "1e3", "0x10"]).to_string(),
        2 => scribble(rng),
        3 => "same".to_string(),
        _ => format!("{}", rng.below(100000)),
    }
}

struct Session {
    db: SavedData,
    /// What is left to read back, newest first.
    left: Vec<(i64, String)>,
    done: bool,
}

fn start(m: &Model) -> Session {
    let mut left = m.hist.clone();
    left.reverse();
    Session { db: open(), left, done: false }
}

fn capacity(rng: &mut Rng) -> i64 {
    match rng.below(6) {
        0 => 1,
        1 => 2,
        2 => 1 + rng.below(12) as i64,
        3 => 100,
        4 => i64::MAX,
        _ => 1 + rng.below(5) as i64,
    }
}

/// Operations on the database itself. `vars` for those on variables too.
fn operations(rng: &mut Rng, vars: bool) -> Case {
    let first = scratch(rng).unwrap();
    let mut m = Model::new();
    let mut sessions: Vec<Session> = vec![Session { db: first, left: Vec::new(), done: false }];
    let mut story = String::new();
    if rng.one_in(2) {
        let n = 1 + rng.below(4) as i64;
        story.push_str(&format!("capacity {}", n));
        if let Err(e) = sessions[0].db.set_max_history_size(n) {
            return wrong(story, format!("it fails: {}", e));
        }
        m.cap = n;
    }
    let count = if vars { 3 + rng.below(14) } else { 3 + rng.below(20) };
    for _ in 0..count {
        let at = rng.below(sessions.len());
        let before = dump();
        let faulty = rng.one_in(6);
        let mut faults = String::new();
        if faulty {
            sabotage(rng, &mut faults);
        }
        let choice = if vars { rng.below(20) } else { *rng.pick(&[0, 0, 0, 0, 0, 1, 2, 3, 3, 3, 4, 5, 6]) };
        let mut next = m.clone();
        let s = &mut sessions[at];
        // What the operation reports, and what it ought to.
        let (result, ought): (Result<(), String>, Option<bool>) = match choice {
            0 | 7 | 8 | 9 => {
                let t = text(rng);
                story.push_str(&format!("; session {} adds {:?}{}", at, t, faults));
                match s.db.add_to_input_history(&t) {
                    Ok(id) => {
                        if m.hist.iter().any(|(other, _)| *other == id) {
                            return wrong(story, format!("the id {} is taken", id));
                        }
                        next.hist.push((id, t));
                        next.trim();
                        (Ok(()), Some(true))
                    }
                    Err(e) => (Err(e.to_string()), Some(true)),
                }
            }
            1 => {
                let n = capacity(rng);
                story.push_str(&format!("; session {} sets the capacity to {}{}", at, n, faults));
                next.cap = n;
                next.trim();
                (s.db.set_max_history_size(n).map_err(|e| e.to_string()), Some(true))
            }
            2 => {
                let n = *rng.pick(&[0i64, -1, i64::MIN]);
                story.push_str(&format!("; session {} sets the capacity to {}{}", at, n, faults));
                (s.db.set_max_history_size(n).map_err(|e| e.to_string()), Some(false))
            }
            3 => {
                story.push_str(&format!("; session {} goes back{}", at, faults));
                match s.db.get_prev_input_history() {
                    Err(e) => (Err(e.to_string()), Some(true)),
                    Ok(got) => {
                        let next_one = if s.done || s.left.is_empty() {
                            None
                        } else {
                            let (id, t) = s.left.remove(0);
                            if m.hist.iter().any(|(other, _)| *other == id) {
                                Some(t)
                            } else {
                                None
                            }
                        };
                        s.done = next_one.is_none();
                        if got != next_one {
                            return wrong(story, format!("it ought to read {:?}, but reads {:?}", next_one, got));
                        }
                        (Ok(()), Some(true))
                    }
                }
            }
            4 | 10 => {
                if faulty {
                    repair();
                    continue;
                }
                story.push_str("; a new session");
                if sessions.len() > 1 || rng.one_in(2) {
                    sessions.remove(at);
                }
                sessions.push(start(&m));
                (Ok(()), Some(true))
            }
            5 => {
                story.push_str(&format!("; session {} reads the capacity{}", at, faults));
                match s.db.get_max_history_size() {
                    Ok(n) if n == m.cap => (Ok(()), Some(true)),
                    Ok(n) => return wrong(story, format!("the capacity ought to be {}, but is {}", m.cap, n)),
                    Err(e) => (Err(e.to_string()), Some(true)),
                }
            }
            6 | 11 | 12 => {
                let name = rng.pick(NAMES).to_string();
                story.push_str(&format!("; session {} purges {}{}", at, name, faults));
                next.vars.remove(&name);
                (s.db.clear_variable(&name).map_err(|e| e.to_string()), Some(true))
            }
            13 | 14 => {
                let name = rng.pick(NAMES).to_string();
                story.push_str(&format!("; session {} reads {}{}", at, name, faults));
                match s.db.get_variable(name.clone()) {
                    Err(e) => (Err(e.to_string()), Some(true)),
                    Ok(got) => {
                        let expected = m.vars.get(&name).map(|v| v.0.clone());
                        if let Some(v) = &got {
                            if v.name != name {
                                return wrong(story, format!("it reads {} instead", v.name));
                            }
                        }
                        let got = got.map(|v| v.value);
                        if got != expected {
                            return wrong(story, format!("it ought to be {:?}, but reads as {:?}", expected, got));
                        }
                        (Ok(()), Some(true))
                    }
                }
            }
            _ => {
                let name = rng.pick(NAMES).to_string();
                let id = if m.hist.is_empty() || rng.one_in(10) {
                    rng.below(5) as i64 + 1000
                } else if rng.one_in(3) {
                    rng.pick(&m.hist).0
                } else {
                    m.hist[m.hist.len() - 1].0
                };
                let known = m.hist.iter().any(|(other, _)| *other == id);
                if choice >= 18 {
                    story.push_str(&format!("; session {} uses {} in {}{}", at, name, id, faults));
                    let exists = next.vars.contains_key(&name);
                    if let Some(v) = next.vars.get_mut(&name) {
                        v.1 = id;
                    }
                    (s.db.touch_variable(&name, id).map_err(|e| e.to_string()), Some(known || !exists))
                } else {
                    let value = rational(rng);
                    story.push_str(&format!("; session {} sets {} to {} in {}{}", at, name, value, id, faults));
                    next.vars.insert(name.clone(), (value.clone(), id));
                    (s.db.set_variable(&Variable { name, value }, id).map_err(|e| e.to_string()), Some(known))
                }
            }
        };
        if faulty {
            repair();
        }
        let after = dump();
        match result {
            Ok(()) => {
                if ought == Some(false) {
                    return wrong(story, "it succeeds, but it cannot have".to_string());
                }
                m = next;
                if let Err(what) = m.check(&after) {
                    return wrong(story, what);
                }
            }
            Err(e) => {
                if ought == Some(true) && !faulty {
                    return wrong(story, format!("it fails: {}", e));
                }
                if after != before {
                    return wrong(story, format!("it fails, but it changes {:?} into {:?}", before, after));
                }
            }
        }
    }
    fine(story)
}

pub fn c10(rng: &mut Rng) -> Case {
    operations(rng, false)
}

pub fn c11(rng: &mut Rng) -> Case {
    if rng.one_in(2) {
        return operations(rng, true);
    }
    // Whole sessions, line by line.
    let mut c = Calculator::new(scratch(rng));
    c.args.fractional = true;
    c.args.precision = 5;
    let mut m = Model::new();
    let mut mem: HashMap<String, Q> = HashMap::new();
    // Variables that may or may not have been read from disk by a line that failed.
    let mut unsure: HashMap<String, ()> = HashMap::new();
    let mut story = String::new();
    for _ in 0..4 + rng.below(14) {
        if rng.one_in(8) {
            story.push_str("; a new session");
            let args = c.args.clone();
            c.db = None;
            c = Calculator::new(Some(open()));
            c.args = args;
            mem.clear();
            unsure.clear();
            continue;
        }
        let line = if rng.one_in(6) {
            format!("/histcap {}", 1 + rng.below(5))
        } else if rng.one_in(8) {
            "1".to_string()
        } else {
            variable_line(rng)
        };
        let cmd = command(&line);
        let read = tokenize(&line, 10).and_then(|t| Ok((mentioned(&t), parse(&t))));
        // Adding the line comes first, and may evict.
        let mut next = m.clone();
        next.hist.push((-1, line.clone()));
        next.trim();
        let mut visible: HashMap<String, Q> = next.vars.iter().map(|(n, v)| (n.clone(), v.0.clone())).collect();
        for (n, v) in &mem {
            visible.insert(n.clone(), v.clone());
        }
        let mut expected = Err(Fail::Undefined);
        if cmd.is_none() {
            if let Ok((_, Ok(l))) = &read {
                expected = eval(&l.tree, &visible, &ctx(10, 15));
                if expected.as_ref().err() == Some(&Fail::TooBig) {
                    continue;
                }
            }
            if let Ok((names, _)) = &read {
                if names.iter().any(|n| unsure.contains_key(n)) {
                    continue;
                }
            }
        }
        story.push_str(&format!("; {:?}", line));
        let got = c.enter(&line);
        let after = dump();
        let id = match list(&after) {
            Err(e) => return wrong(story, e),
            Ok(l) => match l.last() {
                Some((id, t)) if *t == line => *id,
                other => return wrong(story, format!("the newest stored line is {:?}", other)),
            },
        };
        let last = next.hist.len() - 1;
        next.hist[last].0 = id;
        match cmd {
            Some((slash, end, args)) => {
                let args = &line[args..];
                let words = name_list(args);
                match (&line[slash + 1..end], words) {
                    ("histcap", _) => {
                        next.cap = args.trim().parse().unwrap();
                        next.trim();
                        if got.failed() {
                            return wrong(story, format!("it fails: {:?}", got));
                        }
                    }
                    ("purgevar", Some(names)) => {
                        for n in names {
                            next.vars.remove(&n);
                            mem.remove(&n);
                            unsure.remove(&n);
                        }
                        if got.failed() {
                            return wrong(story, format!("it fails: {:?}", got));
                        }
                    }
                    ("reloadvar", Some(names)) => {
                        for n in names {
                            if let Some(v) = next.vars.get_mut(&n) {
                                v.1 = id;
                                mem.insert(n.clone(), v.0.clone());
                                unsure.remove(&n);
                            }
                        }
                        if got.failed() {
                            return wrong(story, format!("it fails: {:?}", got));
                        }
                    }
                    _ => {
                        if !got.failed() {
                            return wrong(story, format!("it is answered with {:?}", got));
                        }
                    }
                }
            }
            None => {
                if let Ok((names, parsed)) = &read {
                    for n in names {
                        if let Some(v) = next.vars.get_mut(n) {
                            v.1 = id;
                        }
                    }
                    if let Ok(l) = parsed {
                        match (&expected, &got) {
                            (Err(Fail::Undefined), Out::Text(t)) => {
                                return wrong(story, format!("it has no value, but results in {:?}", t));
                            }
                            (Ok(_), Out::Input(..)) | (_, Out::Runtime(_)) => {
                                return wrong(story, format!("it results in {:?}", got));
                            }
                            _ => {}
                        }
                        // Reading a variable brings it into the session.
                        let used = if l.assigns.is_some() { &names[1..] } else { &names[..] };
                        for n in used {
                            if !mem.contains_key(n) {
                                if let Some(v) = next.vars.get(n) {
                                    if got.failed() {
                                        unsure.insert(n.clone(), ());
                                    } else {
                                        mem.insert(n.clone(), v.0.clone());
                                    }
                                }
                            }
                        }
                        if let Out::Text(t) = &got {
                            let value = match exact_text(t) {
                                Some(v) => v,
                                None => return wrong(story, format!("it prints {:?}", t)),
                            };
                            if let Tree::Var(v) = &l.tree {
                                if visible.get(v) != Some(&value) {
                                    return wrong(story, format!("{} reads as {}, not {:?}", v, value, visible.get(v)));
                                }
                            }
                            if let Some(name) = &l.assigns {
                                mem.insert(name.clone(), value.clone());
                                unsure.remove(name);
                                next.vars.insert(name.clone(), (value, id));
                            }
                        }
                    }
                }
            }
        }
        m = next;
        if let Err(what) = m.check(&after) {
            return wrong(story, what);
        }
    }
    let _ = (BigInt::one(), BigInt::zero());
    fine(story)
}

/// Scrolling back and forth.
pub fn c09(rng: &mut Rng) -> Case {
    let mut story = String::new();
    let mut db: Option<SavedData> = None;
    let mut earlier: Vec<(i64, String)> = Vec::new();
    let mut m = Model::new();
    if rng.one_in(2) {
        let mut first = scratch(rng).unwrap();
        if rng.one_in(2) {
            let n = 1 + rng.below(4) as i64;
            first.set_max_history_size(n).unwrap();
            m.cap = n;
            story.push_str(&format!("capacity {}", n));
        }
        for _ in 0..rng.below(6) {
            let t = text(rng);
            let t = if t.is_ascii() { t } else { "old".to_string() };
            story.push_str(&format!("; stored {:?}", t));
            let id = first.add_to_input_history(&t).unwrap();
            m.hist.push((id, t));
            m.trim();
        }
        drop(first);
        db = Some(open());
        earlier = m.hist.clone();
        earlier.reverse();
    }
    let mut h = InputHistory::new(db.is_some());
    // What the lines are that can be recalled, as far as is known: this session's first.
    let mut session: Vec<String> = Vec::new();
    let mut recalled: Vec<String> = Vec::new();
    let mut exhausted = db.is_none();
    let mut edits: HashMap<usize, String> = HashMap::new();
    let mut at: usize = 0;
    let shown = |at: usize, session: &Vec<String>, recalled: &Vec<String>, edits: &HashMap<usize, String>| -> String {
        if let Some(t) = edits.get(&at) {
            return t.clone();
        }
        if at == 0 {
            return String::new();
        }
        if at <= session.len() {
            return session[session.len() - at].clone();
        }
        recalled[at - session.len() - 1].clone()
    };
    for _ in 0..5 + rng.below(40) {
        let current = shown(at, &session, &recalled, &edits);
        if h.current_line() != current {
            return wrong(story, format!("{:?} is shown instead of {:?}", h.current_line(), current));
        }
        match rng.below(12) {
            0..=3 => {
                story.push_str("; up");
                let moved = match h.try_to_go_to_earlier_line(db.as_mut()) {
                    Ok(b) => b,
                    Err(e) => return wrong(story, format!("it fails: {}", e)),
                };
                let mut expected = true;
                if at == session.len() + recalled.len() {
                    expected = false;
                    if !exhausted {
                        match earlier.get(recalled.len()) {
                            Some((id, t)) if m.hist.iter().any(|(other, _)| other == id) => {
                                recalled.push(t.clone());
                                expected = true;
                            }
                            _ => exhausted = true,
                        }
                    }
                }
                if expected {
                    at += 1;
                }
                if moved != expected {
                    return wrong(story, format!("it says {}", moved));
                }
            }
            4 | 5 => {
                story.push_str("; down");
                let moved = h.try_to_go_to_later_line();
                if moved != (at > 0) {
                    return wrong(story, format!("it says {}", moved));
                }
                at = at.saturating_sub(1);
            }
            6..=8 => {
                let i = rng.below(current.len() + 1);
                let ch = *rng.pick(&['a', '1', ' ', '$', '/', '(', '~', '\t']);
                story.push_str(&format!("; insert {:?} at {}", ch, i));
                h.insert_char_into_current_line(i, ch);
                let mut t = current.clone();
                t.insert(i, ch);
                edits.insert(at, t);
            }
            9 => {
                if current.is_empty() {
                    continue;
                }
                let i = rng.below(current.len());
                story.push_str(&format!("; remove at {}", i));
                h.remove_char_from_current_line(i);
                let mut t = current.clone();
                t.remove(i);
                edits.insert(at, t);
            }
            _ => {
                story.push_str("; enter");
                let id = match h.input_finished(db.as_mut()) {
                    Ok(id) => id,
                    Err(e) => return wrong(story, format!("it fails: {}", e)),
                };
                session.push(current.clone());
                edits.clear();
                at = 0;
                match (&db, id) {
                    (None, None) => {}
                    (Some(_), Some(id)) => {
                        m.hist.push((id, current));
                        m.trim();
                        match list(&dump()) {
                            Ok(l) if l == m.hist => {}
                            other => return wrong(story, format!("what is stored is {:?}, not {:?}", other, m.hist)),
                        }
                    }
                    (_, id) => return wrong(story, format!("its id is {:?}", id)),
                }
                // From here on the lines count from this session's newest again.
            }
        }
    }
    let current = shown(at, &session, &recalled, &edits);
    if h.current_line() != current {
        return wrong(story, format!("{:?} is shown instead of {:?}", h.current_line(), current));
    }
    fine(story)
}
