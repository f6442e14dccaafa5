//! Model checker for prometrics.  See /verif/DESIGN.md.
mod agg;
mod conc;
mod explore;
mod make;
mod mem;
mod num;
mod proc;
mod prom;
mod reg;
mod rt;
mod selftest;
mod text;
mod util;
mod work;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;

const IDS: [&str; 25] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "F01", "G02", "A01", "A02", "H01", "H02", "S01", "N01", "L01", "L02", "T01", "E01", "G01", "B01", "D01", "P01", "M01", "V01"];

fn scenarios(id: &str, thorough: bool) -> Vec<work::Scenario> {
    match id {
        "SELF" => selftest::scenarios(),
        "C01" | "C02" | "C03" | "C04" | "C05" => conc::scenarios(id, thorough),
        "C06" | "C07" | "F01" | "G02" => reg::scenarios(id, thorough),
        "A01" | "A02" | "H01" | "H02" | "S01" => num::scenarios(id),
        "V01" | "N01" | "L01" | "L02" | "T01" | "E01" => text::scenarios(id).into_iter().chain(conc::scenarios(id, thorough)).collect(),
        "G01" | "B01" | "D01" => agg::scenarios(id).into_iter().chain(conc::scenarios(id, thorough)).collect(),
        "P01" => proc::scenarios(),
        "M01" => mem::scenarios(),
        _ => vec![],
    }
}

fn root() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}
fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            '\t' => r += "\\t",
            c if (c as u32) < 32 || c as u32 == 127 => drop(write!(r, "\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r + "\""
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "))
}

struct Known {
    property: String,
    sig: String,
    what: String,
}
/// Lines "known: property=<id> sig=<signature> | <what fails>"; "fixed:" lines and comments suppress nothing.
fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, r) = l.split_once(" sig=")?;
            let (sig, what) = r.split_once(" | ")?;
            Some(Known { property: property.trim().into(), sig: sig.trim().into(), what: what.trim().into() })
        })
        .collect()
}

fn check(id: &str, tier: &str) -> i32 {
    let thorough = tier == "thorough";
    let t0 = std::time::Instant::now();
    let par = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).max(2);
    if let Err(e) = selftest::run() {
        eprintln!("self-test of the explorer failed: {}", e);
        return 2;
    }
    let scs = scenarios(id, thorough);
    if scs.is_empty() {
        eprintln!("unknown property {}", id);
        return 2;
    }
    let only = std::env::var("MC_ONLY").ok();
    let scs: Vec<_> = scs.into_iter().filter(|s| only.as_ref().map_or(true, |o| s.name.contains(o.as_str()))).collect();
    let res = work::run_all(&scs, thorough, par, if thorough { 120 } else { 40 }, &None);
    let known = known();
    let dir = root().join("evidence");
    let rdir = dir.join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut code = 0;
    let mut violations = 0;
    let mut kf: BTreeMap<String, String> = BTreeMap::new();
    let mut first: Option<PathBuf> = None;
    let (mut states, mut trans, mut evals, mut programs, mut pcomplete, mut outcomes) = (0u64, 0, 0, 0, 0, 0);
    let mut exhaustive = true;
    let mut cov = Vec::new();
    let mut samples = Vec::new();
    let mut errors = Vec::new();
    let mut shown = 0;
    for (name, o) in &res {
        states += o.states;
        trans += o.transitions;
        evals += o.evaluations;
        programs += o.programs;
        pcomplete += o.programs_complete;
        outcomes += o.distinct_outcomes;
        exhaustive &= o.complete;
        cov.extend(o.coverage.iter().cloned());
        samples.extend(o.samples.iter().take(2).cloned());
        if let Some(e) = &o.error {
            errors.push(format!("{}: {}", name, e));
        }
        for (sig, msg) in &o.violations {
            if let Some(k) = known.iter().find(|k| k.property == id && !sig.is_empty() && &k.sig == sig) {
                kf.insert(k.sig.clone(), k.what.clone());
                continue;
            }
            violations += 1;
            code = 1;
            let f = rdir.join(format!("{}-{}.txt", id, violations));
            let mut t = format!("property: {}\ntier: {}\nscenario: {}\nsignature: {}\nschedule: {}\n\n{}\n", id, tier, name, sig, o.schedule.get(sig).map(|s| s.replace('\n', " ")).unwrap_or_default(), msg);
            if !o.trace.is_empty() {
                t += &format!("\ntrace (thread, step, location, code address):\n{}", o.trace);
            }
            t += &format!("\nreplay: {}/mc/replay.sh {}\n", root().display(), f.display());
            let _ = std::fs::write(&f, t);
            if first.is_none() {
                first = Some(f.clone());
            }
            if shown < 5 {
                shown += 1;
                println!("{}: {}", name, msg);
            }
        }
    }
    if !errors.is_empty() && code == 0 {
        code = 2;
    }
    for e in &errors {
        eprintln!("error: {}", e);
    }
    samples.truncate(12);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"concurrent_programs\": {},\n  \"concurrent_programs_explored_completely\": {},\n  \"distinct_outcomes_of_concurrent_programs\": {},\n  \"exhaustive\": {},\n  \"scenarios\": {},\n  \"bounds\": {},\n  \"samples\": {}\n }},\n",
        json(id), json(tier), seed, states, trans, evals, programs, pcomplete, outcomes, exhaustive, res.len(), json_list(&cov), json_list(&samples)
    );
    let assumptions = vec![
        "the explored code is the real crate from /repo, compiled with every atomic operation, lock and clock read under the checker's scheduler; memory is sequentially consistent (weaker orderings are not explored)".to_string(),
        "states: choice points of the schedule trees plus distinct states of the reference models; transitions: scheduled steps plus operations applied; traces: executions of the real code, each compared with its reference".to_string(),
    ];
    let _ = write!(j, " \"assumptions\": {},\n \"known_findings_seen\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", json_list(&assumptions), json_list(&kf.values().cloned().collect::<Vec<_>>()), wall, violations);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), j) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    for w in kf.values() {
        println!("KNOWN-FINDING: property={} {}", id, w);
    }
    println!("{} {}: {} executions, {} states, {} transitions, {} concurrent programs ({} completely), {:.1} s", id, tier, evals, states, trans, programs, pcomplete, wall);
    if let Some(f) = first {
        println!("VIOLATION property={} replay={}", id, f.display());
    }
    code
}

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (id, tier, name, sched) = (get("property:"), get("tier:"), get("scenario:"), get("schedule:"));
    let forced = if sched.len() > 1 {
        let (c, l) = sched.split_once(' ').unwrap_or((&sched, ""));
        Some((l.to_string(), c.starts_with('+'), c[1..].bytes().map(|b| b - b'0').collect()))
    } else {
        None
    };
    let scs: Vec<_> = scenarios(&id, tier == "thorough").into_iter().filter(|s| s.name == name).collect();
    let res = work::run_all(&scs, tier == "thorough", 1, 60, &forced);
    let mut code = 0;
    for (n, o) in res {
        for (sig, m) in &o.violations {
            println!("{} {}: {}", n, sig, m);
            code = 1;
        }
        if forced.is_some() {
            println!("{}", o.trace);
        }
        if let Some(e) = o.error {
            println!("error: {}", e);
        }
    }
    println!("{}", if code == 1 { "reproduced" } else { "not reproduced" });
    code
}

fn main() {
    work::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match s(1) {
        "check" => check(s(2), if s(3).is_empty() { "quick" } else { s(3) }),
        "replay" => replay(s(2)),
        "list" => {
            for i in IDS {
                println!("{}", i);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> quick|thorough | mc replay <file> | mc list");
            2
        }
    };
    std::process::exit(code);
}
