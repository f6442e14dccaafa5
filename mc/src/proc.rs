//! P01: the process metrics collector, over substituted kernel sources, injected faults, and the real kernel.
use crate::ensure;
use crate::ensure_sig;
use crate::make::{entries, Entry};
use crate::rt;
use crate::util::*;
use crate::work::{Ctx, Scenario};
use prometrics::metrics::ProcessMetricsCollector;
use prometrics::Gatherer;
use std::collections::BTreeMap;
use std::ffi::CString;

extern "C" {
    fn sysconf(name: i32) -> i64;
}
fn tick() -> f64 {
    unsafe { sysconf(2) as f64 }
}
fn page() -> f64 {
    unsafe { sysconf(30) as f64 }
}
#[derive(Clone, Debug, PartialEq)]
enum Src {
    Real,
    Text(Vec<u8>),
    Missing,
    Directory,
    Empty,
}
#[derive(Clone, Debug)]
struct World {
    stat: Src,
    limits: Src,
    status: Src,
    fd: Src,
}
impl World {
    fn install(&self) {
        unsafe {
            rt::mc_proc_enable(1);
            for (i, s) in [&self.stat, &self.limits, &self.status, &self.fd].iter().enumerate() {
                let (mode, data): (i32, &[u8]) = match s {
                    Src::Real => (0, &[]),
                    Src::Text(t) => (1, t),
                    Src::Missing => (2, &[]),
                    Src::Directory => (3, &[]),
                    Src::Empty => (4, &[]),
                };
                rt::mc_proc_source(i as i32, mode, data.as_ptr(), data.len());
            }
        }
    }
}
/// One file of the kernel's: the words that matter and the text.
#[derive(Clone, Debug)]
struct StatV {
    comm: Vec<u8>,
    state: char,
    utime: u64,
    stime: u64,
    threads: u64,
    vsize: u64,
    rss: u64,
    rest: usize, // which values the other fields have
}
const STAT0: StatV = StatV { comm: vec![], state: 'R', utime: 123, stime: 45, threads: 3, vsize: 1 << 22, rss: 400, rest: 0 };
fn stat_fields(v: &StatV) -> Vec<Vec<u8>> {
    let mut f: Vec<String> = "4242 C R 21757 21757 251 0 -1 4194304 83 0 0 0 U S 0 0 20 0 T 0 320227 V M 18446744073709551615 93928449011712 93928449029297 140729204483280 0 0 0 0 0 0 0 0 0 17 1 0 0 0 0 0 93928449043088 93928449044584 93929058951168 140729204492114 140729204492134 140729204492134 140729204494315 0"
        .split(' ')
        .map(|s| s.to_string())
        .collect();
    match v.rest {
        1 => {
            for (i, x) in [(3, "0"), (4, "0"), (5, "0"), (6, "34816"), (7, "4242"), (8, "4294967295"), (9, "18446744073709551615"), (15, "9999999"), (17, "-2"), (18, "-20"), (21, "0"), (24, "0"), (35, "1"), (38, "255"), (39, "99"), (40, "2"), (41, "18446744073709551"), (51, "65280")] {
                f[i] = x.into();
            }
        }
        2 => {
            for i in 24..52 {
                f[i] = "0".into();
            }
        }
        _ => {}
    }
    let mut c = vec![b'('];
    c.extend(&v.comm);
    c.push(b')');
    f.iter()
        .map(|s| match s.as_str() {
            "C" => c.clone(),
            "R" => v.state.to_string().into_bytes(),
            "U" => v.utime.to_string().into_bytes(),
            "S" => v.stime.to_string().into_bytes(),
            "T" => v.threads.to_string().into_bytes(),
            "V" => v.vsize.to_string().into_bytes(),
            "M" => v.rss.to_string().into_bytes(),
            s => s.as_bytes().to_vec(),
        })
        .collect()
}
fn stat_text(f: &[Vec<u8>]) -> Vec<u8> {
    let mut t = f.join(&b' ');
    t.push(b'\n');
    t
}
const ROWS: [(&str, &str); 16] = [
    ("Max cpu time", "seconds"), ("Max file size", "bytes"), ("Max data size", "bytes"), ("Max stack size", "bytes"), ("Max core file size", "bytes"), ("Max resident set", "bytes"),
    ("Max processes", "processes"), ("Max open files", "files"), ("Max locked memory", "bytes"), ("Max address space", "bytes"), ("Max file locks", "locks"), ("Max pending signals", "signals"),
    ("Max msgqueue size", "bytes"), ("Max nice priority", ""), ("Max realtime priority", ""), ("Max realtime timeout", "us"),
];
/// The kernel's format: "%-25s %-20s %-20s %-10s\n" for the heading, the same per row (without a unit: only blanks).
fn limits_text(soft: &str, hard: &str, others: usize) -> Vec<u8> {
    let mut t = format!("{:<25} {:<20} {:<20} {:<10}\n", "Limit", "Soft Limit", "Hard Limit", "Units");
    for (i, (n, u)) in ROWS.iter().enumerate() {
        let (s, h) = if i == 7 {
            (soft.to_string(), hard.to_string())
        } else {
            match (others, i) {
                (0, 13) | (0, 14) => ("0".into(), "0".into()),
                (0, 3) => ("8388608".into(), "unlimited".into()),
                (1, _) => ((i * 1000 + 7).to_string(), (i * 2000 + 7).to_string()),
                (2, 13) | (2, 14) => ("40".into(), "99".into()),
                (2, _) => ("18446744073709551614".into(), "18446744073709551614".into()),
                _ => ("unlimited".into(), "unlimited".into()),
            }
        };
        if u.is_empty() {
            t += &format!("{:<25} {:<20} {:<20} \n", n, s, h);
        } else {
            t += &format!("{:<25} {:<20} {:<20} {:<10}\n", n, s, h, u);
        }
    }
    t.into_bytes()
}
/// What a reading of the source's text says, field by field, however damaged the text is: name -> value.
fn stat_says(t: &[u8]) -> BTreeMap<&'static str, f64> {
    let mut m = BTreeMap::new();
    let end = match t.iter().rposition(|b| *b == b')') {
        Some(e) => e,
        None => return m,
    };
    let tail = String::from_utf8_lossy(&t[end + 1..]).into_owned();
    let f: Vec<&str> = tail.split_ascii_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok());
    if let (Some(u), Some(s)) = (n(11), n(12)) {
        m.insert("process_cpu_seconds_total", (u + s) / tick());
    }
    for (k, i, scale) in [("process_threads_total", 17, 1.0), ("process_virtual_memory_bytes", 20, 1.0), ("process_resident_memory_bytes", 21, page())] {
        if let Some(v) = n(i) {
            m.insert(k, v * scale);
        }
    }
    m
}
fn limits_say(t: &[u8]) -> Option<f64> {
    let s = String::from_utf8_lossy(t).into_owned();
    let first = s.lines().find(|l| l.starts_with("Max open files")).and_then(|l| l["Max open files".len()..].split_ascii_whitespace().next());
    match first.map(|x| (x, x.parse().ok())) {
        Some(("unlimited", _)) => None,
        Some((_, Some(v))) => Some(v),
        // In a damaged row the limit may still be found by its place.
        _ => s.lines().skip(8).flat_map(|l| l.split_ascii_whitespace()).find_map(|x| x.parse().ok()),
    }
}
const STAT: [&str; 5] = ["process_cpu_seconds_total", "process_start_time_seconds", "process_threads_total", "process_virtual_memory_bytes", "process_resident_memory_bytes"];
const ALL: [&str; 7] = ["process_max_fds", "process_open_fds", "process_cpu_seconds_total", "process_start_time_seconds", "process_threads_total", "process_virtual_memory_bytes", "process_resident_memory_bytes"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Whole,   // must be reported exactly
    Broken,  // may be left out; if reported, then as the text says
    Nothing, // must be left out
    Any,     // anything finite goes
}
struct Expect {
    stat: (How, BTreeMap<&'static str, f64>),
    limits: (How, Option<f64>),
    fds: (How, f64),
}
fn collect(g: &mut Gatherer) -> Result<BTreeMap<String, Entry>, String> {
    let fs = g.gather();
    let mut m = BTreeMap::new();
    for e in entries(fs.as_ref()) {
        ensure!(e.labels.is_empty(), "labels {:?} on {}", e.labels, e.name);
        let kind = if e.name == "process_cpu_seconds_total" { "counter" } else { "gauge" };
        ensure!(e.kind == kind, "{} is a {}", e.name, e.kind);
        ensure!(ALL.contains(&e.name.as_str()), "unexpected metric {}", e.name);
        ensure!(m.insert(e.name.clone(), e).is_none(), "a metric is reported twice");
    }
    crate::prom::parse(&fs.to_text())?;
    Ok(m)
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 8.0 * f64::EPSILON * b.abs()
}
fn judge(got: &BTreeMap<String, Entry>, x: &Expect, start: &mut Option<f64>) -> Result<(), (String, String)> {
    let one = |name: &str, how: How, want: Option<f64>| -> Result<(), (String, String)> {
        let v = got.get(name).map(|e| e.value);
        let ok = match (how, v, want) {
            (How::Any, None, _) => true,
            (How::Any, Some(v), _) => v.is_finite(),
            (How::Nothing, v, _) => v.is_none(),
            (How::Whole, v, None) => v.is_none(),
            (How::Whole, Some(v), Some(w)) => near(v, w),
            (How::Whole, None, Some(_)) => false,
            (How::Broken, None, _) => true,
            (How::Broken, Some(v), Some(w)) => near(v, w) || (w < 0.0 && v == 0.0),
            (How::Broken, Some(_), None) => false,
        };
        ensure_sig!(ok, "", "{} is {:?}, the source ({:?}) says {:?}", name, v, how, want);
        Ok(())
    };
    for n in STAT {
        if n != "process_start_time_seconds" {
            one(n, x.stat.0, x.stat.1.get(n).cloned())?;
        }
    }
    one("process_max_fds", x.limits.0, x.limits.1)?;
    one("process_open_fds", x.fds.0, Some(x.fds.1))?;
    let s = got.get("process_start_time_seconds").map(|e| e.value);
    if let (Some(a), Some(b)) = (s, *start) {
        ensure_sig!(a == b, "", "the start time changed from {} to {}", b, a);
    }
    if let Some(a) = s {
        *start = Some(a);
    }
    ensure_sig!(s.is_some(), "", "no start time");
    Ok(())
}
/// What the world says; descriptors are really counted.
fn expect(w: &World) -> Expect {
    let stat = match &w.stat {
        Src::Text(t) => (How::Whole, stat_says(t)),
        _ => (How::Nothing, BTreeMap::new()),
    };
    let limits = match &w.limits {
        Src::Text(t) => (How::Whole, limits_say(t)),
        _ => (How::Nothing, None),
    };
    let fds = match w.fd {
        Src::Real => (How::Whole, unsafe { rt::mc_count_fds() } as f64),
        // Without its source the number can at best come from elsewhere.
        _ => (How::Any, 0.0),
    };
    Expect { stat, limits, fds }
}
fn gatherer() -> Gatherer {
    let g = Gatherer::new();
    g.registry().register(ProcessMetricsCollector::new());
    g
}
fn good() -> World {
    World { stat: Src::Text(stat_text(&stat_fields(&StatV { comm: b"mc".to_vec(), ..STAT0 }))), limits: Src::Text(limits_text("1024", "4096", 0)), status: Src::Text(STATUS.as_bytes().to_vec()), fd: Src::Real }
}
const STATUS: &str = "Name:\tmc\nUmask:\t0022\nState:\tR (running)\nTgid:\t4242\nNgid:\t0\nPid:\t4242\nPPid:\t1\nTracerPid:\t0\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\nFDSize:\t256\nGroups:\t0 \nThreads:\t3\n";
fn one(ctx: &mut Ctx, w: &World, mut fix: impl FnMut(&mut Expect)) -> Result<(), (String, String)> {
    ctx.step(2);
    rt::real_clock();
    let mut g = gatherer();
    let mut start = None;
    w.install();
    for round in 0..2 {
        let mut x = expect(w);
        fix(&mut x);
        let got = collect(&mut g);
        let r = got.map_err(|e| (String::new(), e)).and_then(|got| judge(&got, &x, &mut start));
        if let Err((s, m)) = r {
            unsafe { rt::mc_proc_enable(0) };
            return Err((s, format!("collection {}: {}", round + 1, m)));
        }
    }
    unsafe { rt::mc_proc_enable(0) };
    Ok(())
}
fn show(t: &[u8]) -> String {
    String::from_utf8_lossy(t).chars().take(500).collect()
}

/// Well-formed contents.
fn p01_values(ctx: &mut Ctx, shard: usize, of: usize) {
    let comms: [&[u8]; 10] = [b"mc", b"", b"a b", b"a) R 1 1 1", b"((", b"))", b"x\ny", b") ", "日本語".as_bytes(), b"0123456789abcde"];
    let nums: [u64; 9] = [0, 1, 99, 100, 101, 65535, 4_294_967_296, 1 << 47, (1 << 51) + 1];
    let mut idx = 0;
    let mut case = |ctx: &mut Ctx, v: StatV| {
        idx += 1;
        if !mine(idx, shard, of) {
            return;
        }
        ctx.case_sig(&|| format!("stat {:?}", v), |ctx| {
            ctx.state(&format!("{:?}", v));
            let mut w = good();
            w.stat = Src::Text(stat_text(&stat_fields(&v)));
            one(ctx, &w, |_| {})
        });
    };
    for c in comms {
        for state in ['R', 'S', 'D', 'Z', 'T', 't', 'X'] {
            for rest in 0..3 {
                case(ctx, StatV { comm: c.to_vec(), state, rest, ..STAT0 });
            }
        }
    }
    for u in nums {
        for s in nums {
            for threads in [1, 2, 32768] {
                case(ctx, StatV { comm: b"c".to_vec(), utime: u, stime: s, threads, ..STAT0 });
            }
            for rest in 0..3 {
                // Resident pages stay far below 2^51: the product must fit the address space.
                case(ctx, StatV { comm: b"c".to_vec(), vsize: u, rss: s / 4096, rest, ..STAT0 });
            }
        }
    }
    for soft in ["0", "1", "256", "1024", "65536", "1048576", "1073741816", "9223372036854775807", "18446744073709551614", "unlimited"] {
        for hard in ["4096", "unlimited"] {
            for others in 0..4 {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                ctx.case_sig(&|| format!("limits of open files {} {}, others {}", soft, hard, others), |ctx| {
                    ctx.state(&format!("{}{}{}", soft, hard, others));
                    let mut w = good();
                    w.limits = Src::Text(limits_text(soft, hard, others));
                    one(ctx, &w, |_| {})
                });
            }
        }
    }
    if shard == 0 {
        ctx.cover("10 command names x 7 states x 3 backgrounds; all pairs of 9 CPU times and of 9 sizes; 10 x 2 limits x 4 backgrounds".into());
    }
}
/// Every way of cutting or damaging one source, the others being fine.
fn p01_damage(ctx: &mut Ctx, shard: usize, of: usize) {
    let w0 = good();
    let (Src::Text(stat), Src::Text(limits), Src::Text(status)) = (w0.stat.clone(), w0.limits.clone(), w0.status.clone()) else { unreachable!() };
    let mut idx = 0;
    let mut case = |ctx: &mut Ctx, what: String, which: usize, s: Src| {
        idx += 1;
        if !mine(idx, shard, of) {
            return;
        }
        let mut w = w0.clone();
        *[&mut w.stat, &mut w.limits, &mut w.status, &mut w.fd][which] = s;
        let t = |s: &Src| match s {
            Src::Text(t) => show(t),
            x => format!("{:?}", x),
        };
        ctx.case_sig(&|| format!("{}: {:?}", what, t([&w.stat, &w.limits, &w.status, &w.fd][which])), |ctx| {
            ctx.state(&what);
            one(ctx, &w, |x| match which {
                0 if x.stat.0 == How::Whole => x.stat.0 = How::Broken,
                1 if x.limits.0 == How::Whole => x.limits.0 = How::Broken,
                2 => x.fds.0 = if x.fds.0 == How::Whole { How::Broken } else { x.fds.0 },
                _ => {}
            })
        });
    };
    for (which, t) in [(0, &stat), (1, &limits), (2, &status)] {
        for n in 0..t.len() {
            case(ctx, format!("source {} cut after {} bytes", which, n), which, Src::Text(t[..n].to_vec()));
        }
        let step = if ctx.thorough { 1 } else { 3 };
        for n in (0..t.len()).step_by(step) {
            for b in [b' ', b'\n', b'9', b')', 0xff] {
                let mut d = t.clone();
                d[n] = b;
                // Another digit in another number is a different value, not damage: Broken covers both.
                case(ctx, format!("source {} with byte {} replaced", which, n), which, Src::Text(d));
            }
        }
        case(ctx, format!("source {} missing", which), which, Src::Missing);
        case(ctx, format!("source {} is a directory", which), which, Src::Directory);
        case(ctx, format!("source {} twice", which), which, Src::Text([&t[..], &t[..]].concat()));
        case(ctx, format!("source {} with carriage returns", which), which, Src::Text(String::from_utf8_lossy(t).replace('\n', "\r\n").into_bytes()));
        case(ctx, format!("source {} huge", which), which, Src::Text(t.repeat(40)));
        case(ctx, format!("source {} of zeros", which), which, Src::Text(vec![0; 300]));
    }
    let f = stat_fields(&StatV { comm: b"mc".to_vec(), ..STAT0 });
    for i in 0..f.len() {
        for v in ["", "x", "-", "-1", "0", "+5", "1.5", "1e3", "0x10", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "()", "\u{e9}"] {
            let mut g = f.clone();
            g[i] = v.as_bytes().to_vec();
            case(ctx, format!("stat field {} replaced", i), 0, Src::Text(stat_text(&g)));
        }
        let mut g = f.clone();
        g.remove(i);
        case(ctx, format!("stat field {} removed", i), 0, Src::Text(stat_text(&g)));
        let mut g = f.clone();
        g.insert(i, f[i].clone());
        case(ctx, format!("stat field {} doubled", i), 0, Src::Text(stat_text(&g)));
    }
    for v in ["", "x", "-1", "unlimited", "Unlimited", "18446744073709551615", "18446744073709551616", "99999999999999999999999"] {
        case(ctx, format!("limit {:?}", v), 1, Src::Text(limits_text(v, "4096", 0)));
        case(ctx, format!("hard limit {:?}", v), 1, Src::Text(limits_text("1024", v, 0)));
    }
    let lt = String::from_utf8(limits.clone()).unwrap();
    let ls: Vec<&str> = lt.lines().collect();
    for i in 0..ls.len() {
        let mut g = ls.clone();
        g.remove(i);
        case(ctx, format!("limits without line {}", i), 1, Src::Text((g.join("\n") + "\n").into_bytes()));
        let mut g = ls.clone();
        g.swap(i, (i + 1) % ls.len());
        case(ctx, format!("limits with lines {} swapped", i), 1, Src::Text((g.join("\n") + "\n").into_bytes()));
    }
    for s in [Src::Missing, Src::Empty] {
        case(ctx, "fd".into(), 3, s);
    }
    if shard == 0 {
        ctx.cover("each source cut at every byte, with bytes replaced by 5 others, missing, a directory, doubled, oversized; each stat field replaced by 17 values, removed, doubled; limits with lines missing or swapped".into());
    }
}
/// Collections of one collector while the sources come, go and change.
fn p01_history(ctx: &mut Ctx, shard: usize, of: usize) {
    let st = |u: u64, r: u64| Src::Text(stat_text(&stat_fields(&StatV { comm: b"mc".to_vec(), utime: u, rss: r, ..STAT0 })));
    let stats = [st(100, 10), st(250, 7), Src::Missing, Src::Text(b"4242 (mc) R 1".to_vec())];
    let lims = [Src::Text(limits_text("1024", "4096", 0)), Src::Text(limits_text("unlimited", "unlimited", 0)), Src::Missing, Src::Text(b"Limit".to_vec())];
    let fds = [Src::Real, Src::Missing];
    let states: Vec<(usize, usize, usize)> = (0..4).flat_map(|a| (0..4).flat_map(move |b| (0..2).map(move |c| (a, b, c)))).collect();
    seqs_shard(states.len(), 1, if ctx.thorough { 4 } else { 3 }, shard, of, |q| {
        ctx.case_sig(&|| format!("collections with the sources (stat, limits, fd) {:?}", q.iter().map(|i| states[*i]).collect::<Vec<_>>()), |ctx| {
            rt::set_clock(1_000_000_000_000, 1_600_000_000_000_000_000);
            let mut g = gatherer();
            let mut start = None;
            let mut r = Ok(());
            for (k, &i) in q.iter().enumerate() {
                ctx.step(1);
                let (a, b, c) = states[i];
                let w = World { stat: stats[a].clone(), limits: lims[b].clone(), status: Src::Text(STATUS.as_bytes().to_vec()), fd: fds[c].clone() };
                w.install();
                let mut x = expect(&w);
                if a == 3 {
                    x.stat.0 = How::Nothing;
                }
                if b == 3 {
                    x.limits.0 = How::Nothing;
                }
                let got = collect(&mut g);
                r = got.map_err(|e| (String::new(), e)).and_then(|got| judge(&got, &x, &mut start)).map_err(|(s, m)| (s, format!("collection {}: {}", k + 1, m)));
                if r.is_err() {
                    break;
                }
                rt::advance(5_000_000_000);
                rt::step_wall(if k % 2 == 0 { 3_600_000_000_000 } else { -7_200_000_000_000 });
            }
            unsafe { rt::mc_proc_enable(0) };
            ctx.state(&format!("{:?}", q));
            if let Some(s) = start {
                ensure_sig!(r.is_err() || s <= 1_600_000_000.0, "", "start time {} although the collector was made at 1600000000", s);
            }
            r
        });
    });
    if shard == 0 {
        ctx.cover(format!("all histories of up to {} collections over {} states of the sources, with time passing and the wall clock stepped in between", if ctx.thorough { 4 } else { 3 }, states.len()));
    }
}
/// Every operation on the sources failing, one or two at a time, and short reads.
fn p01_faults(ctx: &mut Ctx, shard: usize, of: usize) {
    let w = good();
    let log = || unsafe {
        let mut p = std::ptr::null();
        let n = rt::mc_proc_ops(&mut p);
        std::slice::from_raw_parts(p, n.min(4096) as usize).to_vec()
    };
    // How many operations there are.
    w.install();
    let mut g = gatherer();
    unsafe { rt::mc_proc_fault(0, 0, 0) };
    let _ = g.gather();
    let n = log().len() as u32;
    unsafe { rt::mc_proc_enable(0) };
    const ERR: [i32; 8] = [4, 5, 13, 24, 23, 3, 12, 2]; // EINTR EIO EACCES EMFILE ENFILE ESRCH ENOMEM ENOENT
    let mut idx = 0;
    let mut run = |ctx: &mut Ctx, f: [(u32, i32); 2], chunk: usize| {
        idx += 1;
        if !mine(idx, shard, of) {
            return;
        }
        ctx.case_sig(&|| format!("of {} operations on the sources, (number, errno) {:?} fail; reads of at most {} bytes (0: any)", n, f, chunk), |ctx| {
            ctx.step(2);
            ctx.state(&format!("{:?}{}", f, chunk));
            rt::real_clock();
            let mut g = gatherer();
            w.install();
            let mut start = None;
            unsafe {
                rt::mc_proc_chunk(chunk);
                for i in 0..2 {
                    rt::mc_proc_fault(i as i32, f[i].0, f[i].1);
                }
            }
            let got = collect(&mut g);
            let l = log();
            let mut x = expect(&w);
            for (at, e) in f {
                // An interrupted call is to be repeated, by the standard library or the caller.
                if at == 0 || at as usize > l.len() || e == 4 && chunk != 0 {
                    continue;
                }
                match l[at as usize - 1] {
                    0 => x.stat.0 = How::Broken,
                    1 => x.limits.0 = How::Broken,
                    _ => x.fds.0 = How::Broken,
                }
            }
            let mut r = got.map_err(|e| (String::new(), e)).and_then(|got| judge(&got, &x, &mut start));
            if r.is_ok() {
                // Afterwards everything is there again.
                w.install();
                r = collect(&mut g).map_err(|e| (String::new(), e)).and_then(|got| judge(&got, &expect(&w), &mut start)).map_err(|(s, m)| (s, format!("the next collection: {}", m)));
            }
            unsafe { rt::mc_proc_enable(0) };
            r
        });
    };
    let max = n + 3;
    for a in 0..=max {
        for e in ERR {
            run(ctx, [(a, e), (0, 0)], 0);
            for b in a + 1..=max {
                for e2 in if ctx.thorough { &ERR[..] } else { &[5, 24][..] } {
                    run(ctx, [(a, e), (b, *e2)], 0);
                }
            }
        }
    }
    for chunk in 1..(if ctx.thorough { 1500 } else { 400 }) {
        run(ctx, [(0, 0), (0, 0)], chunk);
    }
    if shard == 0 {
        ctx.cover(format!("each of {} operations on the sources failing with 8 errors, all pairs, reads cut to every length", n));
    }
}
fn slurp(p: &str) -> Vec<u8> {
    let mut b = vec![0u8; 8192];
    let n = unsafe { rt::mc_slurp(CString::new(p).unwrap().as_ptr(), b.as_mut_ptr(), b.len()) };
    b.truncate(n.max(0) as usize);
    b
}
/// The real kernel.
fn p01_kernel(ctx: &mut Ctx, shard: usize, of: usize) {
    // open a descriptor, close one, start a thread, end one, lower and restore the limit, collect
    seqs_shard(7, 1, if ctx.thorough { 6 } else { 5 }, shard, of, |q| {
        ctx.case_sig(&|| format!("history {:?} (0 open, 1 close, 2 start thread, 3 end thread, 4 lower limit, 5 restore limit, 6 collect)", q), |ctx| {
            ctx.step(q.len() as u64 + 1);
            rt::real_clock();
            unsafe { rt::mc_proc_enable(0) };
            let mut g = gatherer();
            let mut start = None;
            let (mut fds, mut threads) = (vec![], 0);
            let (mut cur, mut max) = (0, 0);
            unsafe { rt::mc_soft_fds(0, &mut cur, &mut max) };
            let mut r = Ok(());
            for &o in q.iter().chain([6].iter()) {
                unsafe {
                    match o {
                        0 => fds.push(rt::mc_fd_open()),
                        1 => {
                            if let Some(f) = fds.pop() {
                                rt::mc_fd_close(f)
                            }
                        }
                        2 => {
                            if rt::mc_thread_start(threads) == 0 {
                                threads += 1;
                            }
                        }
                        3 => {
                            if threads > 0 {
                                threads -= 1;
                                rt::mc_thread_stop(threads);
                            }
                        }
                        4 => drop(rt::mc_soft_fds(cur / 2, std::ptr::null_mut(), std::ptr::null_mut())),
                        5 => drop(rt::mc_soft_fds(cur, std::ptr::null_mut(), std::ptr::null_mut())),
                        _ => {
                            r = kernel(&mut g, &mut start);
                            if r.is_err() {
                                break;
                            }
                        }
                    }
                }
            }
            ctx.state(&format!("{} {} {:?}", fds.len(), threads, q.last()));
            unsafe {
                rt::mc_soft_fds(cur, std::ptr::null_mut(), std::ptr::null_mut());
                for f in fds {
                    rt::mc_fd_close(f);
                }
                while threads > 0 {
                    threads -= 1;
                    rt::mc_thread_stop(threads);
                }
            }
            r
        });
    });
    if shard == 0 {
        // The name of the process may be anything.
        for name in [&b"mc"[..], b"a b", b"a) R 1 (", b"))", b"((", b"x\ny", b"", b"\\", "日本語".as_bytes(), b"\xff\xfe", b"caf\xe9", "0123456789abc日".as_bytes()] {
            let mut n = name.to_vec();
            n.truncate(15);
            ctx.case_sig(&|| format!("process name {:?}", String::from_utf8_lossy(&n)), |ctx| {
                ctx.step(1);
                rt::real_clock();
                unsafe { rt::mc_set_comm(CString::new(n.clone()).unwrap().as_ptr()) };
                let mut g = gatherer();
                let r = kernel(&mut g, &mut None);
                unsafe { rt::mc_set_comm(c"mc".as_ptr()) };
                r.map_err(|(s, m)| if String::from_utf8(n.clone()).is_err() && m.ends_with("process_cpu_seconds_total is missing") { ("name-not-utf8".to_string(), m) } else { (s, m) })
            });
        }
        // Many descriptors, and descriptors with great numbers.
        let (mut cur, mut max) = (0u64, 0u64);
        unsafe { rt::mc_soft_fds(0, &mut cur, &mut max) };
        for many in [9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 4097, 9_999, 10_001, 15_000] {
            for below in [0, 100, 101, 257, 1000, 1001, 1025, 4097, 10_001, 19_999] {
                if many + 20 >= max as i32 || below >= max as i32 || below > 0 && many + 20 > below || below > 0 && many > 1025 {
                    continue;
                }
                ctx.case(&|| format!("{} descriptors open{}", many, if below > 0 { format!(", with the numbers below {}", below) } else { String::new() }), |ctx| {
                    ctx.step(1);
                    ctx.state(&format!("{} {}", many, below));
                    rt::real_clock();
                    unsafe { rt::mc_proc_enable(0) };
                    let mut g = gatherer();
                    let mut fds = vec![0; many as usize];
                    let r = unsafe {
                        rt::mc_fd_scan(below.max(many + 200).max(4096));
                        rt::mc_soft_fds(max, std::ptr::null_mut(), std::ptr::null_mut());
                        let n = rt::mc_fds_fill(many, below, fds.as_mut_ptr());
                        let r = kernel(&mut g, &mut None);
                        for f in &fds[..n as usize] {
                            rt::mc_fd_close(*f);
                        }
                        rt::mc_fd_scan(4096);
                        rt::mc_soft_fds(cur, std::ptr::null_mut(), std::ptr::null_mut());
                        r
                    };
                    r.map_err(|(_, m)| m)
                });
            }
        }
        // A process that forks: the child's metrics are the child's.
        for before in [0, 1, 2] {
            for opens in [0, 1, 7] {
                for threads in [0, 2] {
                    for depth in [1, 2] {
                        ctx.case(&|| format!("{} collections, then {} forks, each opening {} descriptors and starting {} threads", before, depth, opens, threads), |ctx| {
                            ctx.step(before + depth);
                            ctx.state(&format!("fork {} {} {} {}", before, opens, threads, depth));
                            rt::real_clock();
                            unsafe { rt::mc_proc_enable(0) };
                            let mut g = gatherer();
                            let mut start = None;
                            for _ in 0..before {
                                kernel(&mut g, &mut start).map_err(|(_, m)| m)?;
                            }
                            let out = unsafe { rt::mc_shared(4096) };
                            fn child(g: &mut Gatherer, start: &mut Option<f64>, opens: i32, threads: i32, depth: u64, out: *mut u8) {
                                unsafe {
                                    let pid = rt::fork();
                                    assert!(pid >= 0, "fork");
                                    if pid > 0 {
                                        let mut st = 0;
                                        rt::waitpid(pid, &mut st, 0);
                                        return;
                                    }
                                    for _ in 0..opens {
                                        rt::mc_fd_open();
                                    }
                                    for t in 0..threads {
                                        rt::mc_thread_start(t);
                                    }
                                    let r = kernel(g, start).and_then(|_| kernel(g, start));
                                    if r.is_ok() && depth > 1 {
                                        child(g, start, opens, 0, depth - 1, out);
                                    } else {
                                        let m = r.map_or_else(|(_, m)| m, |_| "ok".to_string());
                                        let n = m.len().min(4000);
                                        std::ptr::copy_nonoverlapping(m.as_ptr(), out, n);
                                    }
                                    rt::_exit(0);
                                }
                            }
                            child(&mut g, &mut start, opens, threads, depth, out);
                            let r = unsafe { std::ffi::CStr::from_ptr(out as *const _).to_string_lossy().into_owned() };
                            extern "C" {
                                fn munmap(p: *mut u8, n: usize) -> i32;
                            }
                            unsafe { munmap(out, 4096) };
                            ensure!(r == "ok", "in the child: {}", if r.is_empty() { "it crashed" } else { &r });
                            kernel(&mut g, &mut start).map_err(|(_, m)| m)
                        });
                    }
                }
            }
        }
        // No descriptor left to open the sources with.
        ctx.case(&|| "all descriptors in use".into(), |ctx| {
            ctx.step(2);
            let mut g = gatherer();
            let (mut cur, mut max) = (0, 0);
            let r = unsafe {
                rt::mc_soft_fds(0, &mut cur, &mut max);
                rt::mc_soft_fds(64, std::ptr::null_mut(), std::ptr::null_mut());
                let mut fds = vec![];
                loop {
                    let f = rt::mc_fd_open();
                    if f < 0 {
                        break;
                    }
                    fds.push(f);
                }
                let r = collect(&mut g);
                for f in fds {
                    rt::mc_fd_close(f);
                }
                rt::mc_soft_fds(cur, std::ptr::null_mut(), std::ptr::null_mut());
                r
            };
            r?;
            kernel(&mut g, &mut None).map_err(|(_, m)| m)
        });
        ctx.cover("all histories of opening/closing descriptors, starting/ending threads, changing the limit and collecting against the real kernel; 12 process names; descriptors exhausted; children of the process, by one and two forks".into());
    }
}
fn kernel(g: &mut Gatherer, start: &mut Option<f64>) -> Result<(), (String, String)> {
    let s0 = stat_says(&slurp("/proc/self/stat"));
    let got = collect(g).map_err(|e| (String::new(), e))?;
    let s1 = stat_says(&slurp("/proc/self/stat"));
    let val = |n: &str| got.get(n).map(|e| e.value);
    let x = Expect { stat: (How::Any, BTreeMap::new()), limits: (How::Whole, limits_say(&slurp("/proc/self/limits"))), fds: (How::Whole, unsafe { rt::mc_count_fds() } as f64) };
    judge(&got, &x, start)?;
    for n in STAT {
        let Some(v) = val(n) else { return Err((String::new(), format!("{} is missing", n))) };
        if n == "process_start_time_seconds" {
            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
            ensure_sig!(v <= now && v > now - 7.0 * 86400.0, "", "start time {} at {}", v, now);
            continue;
        }
        let (a, b) = (s0[n].min(s1[n]), s0[n].max(s1[n]));
        // The kernel sums resident pages up lazily, per processor.
        let slack = if n == "process_resident_memory_bytes" { 0.25 * b + 4e6 } else { 0.0 };
        ensure_sig!(v >= a - slack - 1e-9 * a && v <= b + slack + 1e-9 * b, "", "{} is {}, the kernel says {} to {}", n, v, a, b);
    }
    let t = unsafe { rt::mc_tasks() } as f64;
    ensure_sig!(val("process_threads_total") == Some(t), "", "{:?} threads instead of {}", val("process_threads_total"), t);
    Ok(())
}

pub fn scenarios() -> Vec<Scenario> {
    let mut v = Vec::new();
    v.extend(sharded("values", 4, p01_values));
    v.extend(sharded("damage", 8, p01_damage));
    v.extend(sharded("histories", 8, p01_history));
    v.extend(sharded("faults", 8, p01_faults));
    v.extend(sharded("kernel", 8, p01_kernel));
    v
}
