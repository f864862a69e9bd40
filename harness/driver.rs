use gen::Rng;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicU64 = AtomicU64::new(0);
static DISTINCT: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);
static NOTE: Mutex<String> = Mutex::new(String::new());
static PANIC: Mutex<String> = Mutex::new(String::new());

/// What is being tried, in case that it never comes back.
pub fn note(text: &str) {
    let mut n = NOTE.lock().unwrap();
    n.clear();
    n.push_str(text);
    if let Ok(path) = std::env::var("BCALC_VERIF_NOTE") {
        let _ = std::fs::write(path, text);
    }
}

/// Processor time spent by this process, in milliseconds.
fn processor_ms() -> u64 {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let fields: Vec<&str> = rest.split_whitespace().collect();
    let get = |i: usize| fields.get(i).and_then(|f| f.parse::<u64>().ok()).unwrap_or(0);
    (get(11) + get(12)) * 10
}

fn json(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn short(s: &str) -> String {
    if s.chars().count() > 4000 {
        s.chars().take(4000).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

fn check(property: &str) -> Option<(u64, fn(&mut Rng) -> eval::Case)> {
    Some(match property {
        "C01" => (1, eval::c01),
        "C02" => (2, eval::c02),
        "C03" => (3, eval::c03),
        "C04" => (4, eval::c04),
        "C05" => (5, session::c05),
        "C06" => (6, eval::c06),
        "C07" => (7, eval::c07),
        "C08" => (8, session::c08),
        "C09" => (9, disk::c09),
        "C10" => (10, disk::c10),
        "C11" => (11, disk::c11),
        "C12" => (12, session::c12),
        "C13" => (13, eval::c13),
        "C14" => (14, session::c14),
        _ => return None,
    })
}

fn report(evaluations: u64, distinct: usize, samples: &[String], found: Option<(u64, &str, &str)>) {
    let mut out = format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}]",
        evaluations,
        distinct,
        samples.iter().map(|s| json(&short(s))).collect::<Vec<_>>().join(", ")
    );
    if let Some((index, desc, what)) = found {
        out.push_str(&format!(
            ", \"violation\": {{\"index\": {}, \"case\": {}, \"what\": {}}}",
            index,
            json(&short(desc)),
            json(&short(what))
        ));
    }
    out.push('}');
    println!("{}", out);
    let _ = std::io::stdout().flush();
}

/// `search PROPERTY SEED SECONDS MAX [FIRST STEP]`, or `replay PROPERTY SEED INDEX`.
pub fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let number = |i: usize, default: u64| argv.get(i).and_then(|a| a.parse().ok()).unwrap_or(default);
    let replaying = argv[1] == "replay";
    let property = argv[2].clone();
    let (stream, run) = check(&property).expect("no such property");
    let seed = number(3, 1);
    let (seconds, max, first, step) = if replaying {
        (600, number(4, 0) + 1, number(4, 0), 1)
    } else {
        (number(4, 10), number(5, u64::MAX), number(6, 0), number(7, 1))
    };
    let patience = std::env::var("BCALC_VERIF_PATIENCE").ok().and_then(|p| p.parse().ok()).unwrap_or(20u64) * 1000;

    std::panic::set_hook(Box::new(|info| {
        *PANIC.lock().unwrap() = info.to_string();
    }));
    CASE.store(first, Ordering::SeqCst);
    STARTED.store(processor_ms(), Ordering::SeqCst);
    let timed = property.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        if processor_ms().saturating_sub(STARTED.load(Ordering::SeqCst)) > patience {
            let case = CASE.load(Ordering::SeqCst);
            let text = NOTE.lock().unwrap().clone();
            // Whether an expression of any size is done in time is not what these are about.
            if ["C01", "C04", "C08"].contains(&timed.as_str()) {
                report(DONE.load(Ordering::SeqCst), DISTINCT.load(Ordering::SeqCst) as usize, &[], None);
            } else {
                report(1, 1, &[], Some((case, &text, "it does not come to an end")));
            }
            std::process::exit(0);
        }
    });

    // The default stack of a main thread depends on the environment; this one does not.
    let worker = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let begun = Instant::now();
        let index_file = std::env::var("BCALC_VERIF_INDEX").ok().and_then(|p| std::fs::File::create(p).ok());
        let mut evaluations = 0;
        let mut seen: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = Vec::new();
        let mut index = first;
        while index < max && begun.elapsed() < Duration::from_secs(seconds) {
            CASE.store(index, Ordering::SeqCst);
            if let Some(f) = &index_file {
                let _ = std::os::unix::fs::FileExt::write_at(f, format!("{:020}", index).as_bytes(), 0);
            }
            STARTED.store(processor_ms(), Ordering::SeqCst);
            note("");
            let mut rng = Rng::new(seed, stream, index);
            let outcome = catch_unwind(AssertUnwindSafe(|| run(&mut rng)));
            evaluations += 1;
            let case = match outcome {
                Ok(case) => case,
                Err(_) => {
                    let text = NOTE.lock().unwrap().clone();
                    eval::Case {
                        desc: if text.is_empty() { format!("case {} of seed {}", index, seed) } else { text },
                        nontrivial: true,
                        wrong: Some(format!("it panics: {}", PANIC.lock().unwrap())),
                    }
                }
            };
            if replaying {
                println!("case: {}", case.desc);
            }
            if let Some(what) = &case.wrong {
                report(evaluations, seen.len() + 1, &samples, Some((index, &case.desc, what)));
                return;
            }
            if case.nontrivial {
                let mut hasher = DefaultHasher::new();
                case.desc.hash(&mut hasher);
                if seen.insert(hasher.finish()) && samples.len() < 4 {
                    samples.push(case.desc);
                }
            }
            DONE.store(evaluations, Ordering::SeqCst);
            DISTINCT.store(seen.len() as u64, Ordering::SeqCst);
            index += step;
        }
        report(evaluations, seen.len(), &samples, None);
    });
    worker.unwrap().join().unwrap();
}
