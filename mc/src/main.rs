//! yary-mc: exhaustive bounded exploration of the real library.
//!
//!     yary-mc check ID --tier quick|thorough     one property
//!     yary-mc list                               all properties
//!     yary-mc show TEXT                          how library and model read TEXT
use std::{io::Write, path::PathBuf, process::Command, time::Instant};

mod alloc;
mod checks;
mod engine;
mod grammar;
mod model;
mod oracle;
mod pumps;
mod source;
mod spaces;
mod trace;
mod trees;
mod values;
mod worlds;

use checks::{Check, Level};
use engine::*;
use spaces::Tier;

#[global_allocator]
static ALLOC: alloc::Poison = alloc::Poison;

/// The directory of the checks, /verif
fn home() -> PathBuf {
    std::env::var_os("YARY_MC_HOME").map(PathBuf::from).unwrap_or_else(|| PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().into())
}

/// Findings this run may print without failing: "known: property=ID input=<escaped> ..."
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(home().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} input=")))
        .filter_map(|l| l.split_once(" :: ").map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

fn report(id: &str, tier: Tier, v: &Violation) -> i32 {
    let short: String = v.what.chars().take(4000).collect();
    if v.what.contains("HARNESS:") {
        println!("the harness failed on {:?}: {short}", v.input);
        return 2;
    }
    let dir = home().join("evidence").join("replay");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{id}.txt"));
    let body = format!("property: {id}\ntier: {tier:?}\ninput: {:?}\nwhat: {}\n\nrun again: {} check {id} --tier {}\nlook at it: {} show '<input>'\n", v.input, v.what, "yary-mc", tier.name(), "yary-mc");
    std::fs::write(&path, body).ok();
    let input: String = format!("{:?}", v.input).chars().take(600).collect();
    println!("{id} does not hold on {input}\n  {short}");
    println!("VIOLATION property={id} replay={}", path.display());
    std::io::stdout().flush().ok();
    1
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(c: &Check, tier: Tier, st: &Stats, wall: f64, violations: u32) -> std::io::Result<()> {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut cov: Vec<(String, String)> = vec![];
    let (main, used): (Vec<(&str, u64)>, Vec<&str>) = match c.level {
        Level::Model => (
            vec![("states", st.distinct("states")), ("transitions", st.get("transitions")), ("traces_validated_against_impl", st.get("replayed"))],
            vec!["states", "transitions", "replayed", "inputs"],
        ),
        _ => (vec![("evaluations", st.get(c.evaluations)), ("distinct_nontrivial", st.distinct(c.distinct))], vec![c.evaluations, c.distinct]),
    };
    for (k, v) in main { cov.push((k.into(), v.to_string())) }
    for (k, v) in st.counts.iter().filter(|(k, _)| !used.contains(k)) { cov.push((k.replace([' ', ','], "_"), v.to_string())) }
    for (k, v) in st.sets.iter().filter(|(k, _)| !used.contains(k)) { cov.push((format!("distinct_{}", k.replace([' ', ','], "_")), v.len().to_string())) }
    cov.push(("rule".into(), json(c.rule)));
    cov.push(("exhaustive".into(), (violations == 0).to_string()));
    cov.push(("slowest_case_ms".into(), slowest().to_string()));
    let mut samples = st.samples.clone();
    samples.sort_by_key(|s| std::cmp::Reverse(s.len().min(300)));
    samples.truncate(6);
    let samples: Vec<String> = samples.iter().map(|s| json(&s.chars().take(700).collect::<String>())).collect();
    cov.push(("samples".into(), format!("[{}]", samples.join(", "))));
    let cov: Vec<String> = cov.iter().map(|(k, v)| format!("    {}: {v}", json(k))).collect();
    let assume: Vec<String> = c.assumptions.iter().map(|s| json(s)).collect();
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": {},\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {wall:.2},\n  \"violations\": {violations}\n}}\n",
        json(c.id), json(tier.name()), json(c.level.name()), cov.join(",\n"), assume.join(", "),
    );
    let dir = home().join("evidence");
    std::fs::create_dir_all(&dir)?;
    std::fs::write(dir.join(format!("{}.json", c.id)), text)
}

fn run(c: &'static Check, tier: Tier) -> i32 {
    trace::quiet_panics();
    let start = Instant::now();
    watchdog(move |v| {
        evidence(c, tier, &Stats::default(), start.elapsed().as_secs_f64(), 1).ok();
        report(c.id, tier, v);
    });
    allow(known(c.id));
    oracle::GRAMMAR.store(tier == Tier::Thorough, std::sync::atomic::Ordering::SeqCst);
    let mut st = Stats::default();
    let res = (c.run)(tier, &mut st);
    let bad = res.is_err() as u32;
    if let Err(e) = evidence(c, tier, &st, start.elapsed().as_secs_f64(), bad) {
        println!("cannot write the evidence of {}: {e}", c.id);
        return 2;
    }
    for (input, what) in seen_known() { println!("KNOWN-FINDING: property={} {input} {what}", c.id) }
    match res {
        Err(v) => report(c.id, tier, &v),
        Ok(()) => {
            println!("{} held: {} ({:.1} s)", c.id, summary(&st), start.elapsed().as_secs_f64());
            0
        }
    }
}

fn summary(st: &Stats) -> String {
    let a = st.counts.iter().map(|(k, v)| format!("{v} {k}"));
    let b = st.sets.iter().map(|(k, v)| format!("{} distinct {k}", v.len()));
    a.chain(b).collect::<Vec<_>>().join(", ")
}

/// Run the check in a process of its own: it may be killed by what it checks
fn supervise(c: &'static Check, tier: Tier) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let child = |journal: bool| {
        let mut cmd = Command::new(&exe);
        cmd.args(["child", c.id, "--tier", tier.name()]);
        if journal { cmd.env("YARY_MC_JOURNAL", home().join("evidence").join("journal")); }
        cmd.status()
    };
    let st = match child(false) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot start: {e}");
            return 2;
        }
    };
    if let Some(code) = st.code() {
        // 101 is a panic of the harness itself
        return if code == 101 { 2 } else { code };
    }
    // Killed. Something outside may have done it; if not, it happens again
    match child(false).map(|s| s.code()) {
        Ok(None) => {}
        Ok(Some(code)) => {
            println!("{}: killed once ({st}), but ended with {code} when run again", c.id);
            return if code == 101 { 2 } else { code };
        }
        Err(_) => return 2,
    }
    // Find out by what
    let dir = home().join("evidence").join("journal");
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).ok();
    child(true).ok();
    let mut inputs = vec![];
    for t in 0..THREADS {
        if let Ok(s) = std::fs::read_to_string(dir.join(t.to_string())) { if !s.is_empty() { inputs.push(s) } }
    }
    std::fs::remove_dir_all(&dir).ok();
    evidence(c, tier, &Stats::default(), 0.0, 1).ok();
    let what = format!("the process died ({st}), twice; when run again it was busy with one of {inputs:?}");
    report(c.id, tier, &Violation { input: inputs.first().cloned().unwrap_or_default(), what })
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = match args.iter().position(|a| a == "--tier").and_then(|i| args.get(i + 1)).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let find = || {
        let id = args.get(1).cloned().unwrap_or_default();
        match checks::ALL.iter().find(|c| c.id == id) {
            Some(c) => c,
            None => {
                println!("no such check: {id}");
                std::process::exit(2);
            }
        }
    };
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => supervise(find(), tier),
        Some("child") => run(find(), tier),
        Some("list") => {
            for c in checks::ALL { println!("{} {}", c.id, c.level.name()) }
            0
        }
        Some("show") => {
            trace::quiet_panics();
            let s = args[1..].join(" ").replace("\\n", "\n");
            println!("input {s:?}");
            let m = model::model(&s);
            println!("model: {} {:?}\n  {:?}", if m.ok { "well formed" } else { "malformed" }, m.why, m.evs);
            for lazy in [false, true] {
                let t = trace::run_str(&s, lazy);
                println!("library, lazy {lazy}:");
                for e in &t.evs { println!("  {}..{} {:?}", e.start, e.end, e.ev) }
                println!("  {:?}", t.end);
            }
            0
        }
        // N ALPHABET [PREFIX [SUFFIX]]: all strings, the library against the grammar
        Some("gdiff") => {
            trace::quiet_panics();
            let tr = |s: &str| s.replace('$', "\n").replace('~', "\t").replace('^', "\r").replace('_', "é");
            let n: u32 = args[1].parse().unwrap();
            let alpha: Vec<String> = if args[2].contains(' ') && args[2].starts_with('/') { args[2][1..].split('/').map(tr).collect() } else { args[2].chars().map(|c| tr(&c.to_string())).collect() };
            let alpha: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
            let get = |i: usize| args.get(i).map(|s| tr(s)).unwrap_or_default();
            let max: usize = args.get(5).and_then(|s| s.parse().ok()).unwrap_or(30);
            let sp = Space::new("gdiff", &alpha, n).framed(&get(3), &get(4));
            let mut st = Stats::default();
            let found = std::sync::Mutex::new(vec![]);
            let _ = explore(&[sp], &mut st, |s, _| {
                let t = trace::run_str(s, false);
                let evs = t.plain();
                let Err(what) = grammar::judge(s, if matches!(t.end, trace::End::Done) { Ok(&evs) } else { Err(format!("{:?}", t.end)) }) else { return Ok(()) };
                let mut f = found.lock().unwrap();
                f.push((s.to_string(), what));
                if f.len() > max { Err("enough".into()) } else { Ok(()) }
            });
            let f = found.into_inner().unwrap();
            for (s, w) in &f { println!("{s:?}\n    {}", w.replace("anchor: None, tag: None, ", "").replace("DocStart { version: (1, 2), tags: {\"!\": \"!\", \"!!\": \"tag:yaml.org,2002:\"}, implicit: true }, ", "").replace("StreamStart, ", "").replace(", DocEnd { implicit: true }, StreamEnd", "").replace("val: Ok", "")) }
            println!("{} deviations", f.len());
            0
        }
        // [LESS]: the model against the grammar, on every word of the spaces at depths reduced by LESS
        Some("validate") => {
            trace::quiet_panics();
            let by = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut bad = 0;
            for sp in spaces::all_models(tier, by) {
                let mut st = Stats::default();
                let t = Instant::now();
                let r = explore(&[sp.clone()], &mut st, |s, st| oracle::grammatical_model(s, &model::model(s), st));
                println!("{:40} {} ({:.1} s)", sp.name, summary(&st), t.elapsed().as_secs_f64());
                if let Err(v) = r { bad += 1; println!("    {:?}\n    {}", v.input, v.what) }
            }
            println!("{bad} spaces with deviations");
            (bad > 0) as i32
        }
        // S D [MAX]: all documents of a budget, the library and the model against their trees
        Some("trees") => {
            trace::quiet_panics();
            let (a, b) = (args[1].parse().unwrap(), args[2].parse().unwrap());
            let max: usize = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(10);
            let found = std::sync::Mutex::new(vec![]);
            let mut st = Stats::default();
            let _ = trees::each_tree(&[(a, b)], &mut st, |s, want, st| {
                let t = trace::run_str(s, false);
                let m = model::model(s);
                st.add("bytes", s.len() as u64);
                st.sample(|| format!("{s:?}"));
                if t.end == trace::End::Done && t.plain() == want && m.ok && m.evs == want { return Ok(()) }
                let mut f = found.lock().unwrap();
                f.push(format!("{s:?}\n  want {want:?}\n  library {:?} {:?}\n  model {} {:?} {:?}", t.plain(), t.end, m.ok, m.why, m.evs));
                if f.len() >= max { Err("enough".into()) } else { Ok(()) }
            });
            let f = found.into_inner().unwrap();
            for w in &f { println!("{}", w.replace("anchor: None, tag: None, ", "").replace("DocStart { version: (1, 2), tags: {\"!\": \"!\", \"!!\": \"tag:yaml.org,2002:\"}, implicit: true }, ", "").replace("StreamStart, ", "").replace(", DocEnd { implicit: true }, StreamEnd", "").replace("val: Ok", "")) }
            for s in st.samples.iter().take(40) { println!("{s}") }
            println!("{} {} deviations", summary(&st), f.len());
            (!f.is_empty()) as i32
        }
        // N ALPHABET [PREFIX [SUFFIX]]: all strings, against the model
        Some("diff") => {
            trace::quiet_panics();
            let tr = |s: &str| s.replace('$', "\n").replace('~', "\t").replace('^', "\r").replace('_', "é");
            let n: u32 = args[1].parse().unwrap();
            let alpha: Vec<String> = args[2].chars().map(|c| tr(&c.to_string())).collect();
            let alpha: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
            let get = |i: usize| args.get(i).map(|s| tr(s)).unwrap_or_default();
            let sp = Space::new("diff", &alpha, n).framed(&get(3), &get(4));
            let mut st = Stats::default();
            let r = explore(&[sp], &mut st, oracle::agrees);
            println!("{}\n{r:?}", summary(&st));
            0
        }
        _ => {
            println!("usage: yary-mc check ID --tier quick|thorough | list | show TEXT | diff N ALPHABET [PREFIX [SUFFIX]]");
            2
        }
    };
    std::process::exit(code);
}
