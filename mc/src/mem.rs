//! M01: memory in use depends on what is alive, not on what has happened.
use crate::explore::{caught, explore, Exec, Opts};
use crate::make::*;
use crate::reg::register_fn;
use crate::rt;
use crate::util::*;
use crate::work::{Ctx, Scenario};
use crate::{ensure, prom};
use prometrics::metrics::*;
use prometrics::{Gatherer, Registry};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum MO {
    New(usize),     // a metric that is created, registered, updated and dropped
    NewMany,        // several at once, dropped in another order
    NewGather,      // gathered before it is dropped
    Twice,          // built twice by one builder, with two registries
    Refused,        // not built: bad name
    Shared,         // through a shared builder
    CloneDrop,      // clones of the lasting metrics
    Ins,            // labels of the lasting metrics change ...
    Rem,
    Clear,
    InsBad,
    HoldIter,       // ... while an iterator is there
    Bump,
    Time,
    Panic,
    Stamp,
    Read,
    Gather,
    GatherMany,
    Ender,          // a collector that ends at its first call
    Ender2,         // ... at its second
    Inner,          // a collector that registers a short-lived metric
    OtherGatherer,  // another gatherer comes and goes, with metrics outliving it
    RegistryClone,
    Expire,
    Enders,         // several collectors that end in the same gathering, among others that stay for another
    ManyGone,       // many metrics registered, then dropped in one go, then gathered
    Process,        // a process collector in a gatherer of its own
    Fresh(usize),   // a metric of which nothing has been there before: names, help, labels, bounds, ... (all of the same size)
    FreshLabels,    // labels never seen before come and go
    FreshRefused,   // a name never seen before is refused
}
const OPS: [MO; 37] = [
    MO::New(0), MO::New(1), MO::New(2), MO::New(3), MO::NewMany, MO::NewGather, MO::Twice, MO::Refused, MO::Shared, MO::CloneDrop, MO::Ins, MO::Rem, MO::Clear, MO::InsBad, MO::HoldIter,
    MO::Bump, MO::Time, MO::Panic, MO::Stamp, MO::Read, MO::Gather, MO::GatherMany, MO::Ender, MO::Ender2, MO::Inner, MO::OtherGatherer, MO::RegistryClone, MO::Expire, MO::Process, MO::Enders, MO::ManyGone,
    MO::Fresh(0), MO::Fresh(1), MO::Fresh(2), MO::Fresh(3), MO::FreshLabels, MO::FreshRefused,
];
const BAD: [&str; 6] = ["", "0", "a b", "a-very-long-name-that-is-not-valid", "name_that_is_valid_up_to_its_last_character-", "h\u{e9}llo"];
struct World {
    g: Rc<RefCell<Gatherer>>,
    reg: Registry,
    ms: Vec<Any>,
    n: u64,
}
fn world() -> World {
    let g = Gatherer::new();
    let reg = g.registry();
    let ms = (0..4)
        .map(|k| match k {
            3 => {
                let mut b = SummaryBuilder::new("p3", Duration::from_secs(10));
                b.quantile(0.5).registry(reg.clone());
                Any::S(b.finish().unwrap())
            }
            k => Any::build(k, &format!("p{}", k), &[("a", "0")], Some(&reg)),
        })
        .collect();
    World { g: Rc::new(RefCell::new(g)), reg, ms, n: 0 }
}
/// A number never used before in this process; all have as many digits.
fn fresh() -> u64 {
    thread_local!(static N: std::cell::Cell<u64> = const { std::cell::Cell::new(10_000_000) });
    N.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
fn step(w: &mut World, o: MO) {
    w.n += 1;
    match o {
        MO::New(k) => Any::build(k, "t", &[("x", "1")], Some(&w.reg)).bump(1.0),
        MO::NewMany => {
            let mut v: Vec<Any> = (0..5).map(|k| Any::build(k % 4, "t", &[], Some(&w.reg))).collect();
            v.swap_remove(1);
            drop(w.g.borrow_mut().gather());
            v.swap_remove(0);
        }
        MO::NewGather => {
            let m = Any::build((w.n % 4) as usize, "t", &[], Some(&w.reg));
            drop(w.g.borrow_mut().gather().to_text());
            drop(m);
        }
        MO::Twice => {
            let g2 = Gatherer::new();
            let mut b = AnyB::new((w.n % 4) as usize, "t");
            b.registry(w.reg.clone()).registry(g2.registry()).label("l", "v").help("h");
            let (a, c) = (b.std().finish().unwrap(), b.finish().unwrap());
            drop((a, g2, c));
        }
        MO::Refused => {
            for kind in 0..4 {
                for bad in BAD {
                    drop(AnyB::new(kind, bad).registry(w.reg.clone()).help("a help text").label("l", "v").finish().map(drop).unwrap_err());
                    drop(AnyB::new(kind, "good").namespace(bad).registry(w.reg.clone()).finish().map(drop).unwrap_err());
                    drop(AnyB::new(kind, "good").subsystem(bad).label("l", "v").registry(w.reg.clone()).finish().map(drop).unwrap_err());
                    drop(AnyB::new(kind, "good").label("l", "v").label(bad, "v").label("m", "v").registry(w.reg.clone()).finish().map(drop).unwrap_err());
                }
                drop(AnyB::new(kind, "good").label("l", "v").label("__reserved", "v").registry(w.reg.clone()).finish().map(drop).unwrap_err());
            }
            drop(AnyB::new(2, "good").label("l", "v").label("le", "v").registry(w.reg.clone()).finish().map(drop).unwrap_err());
            drop(AnyB::new(3, "good").label("l", "v").label("quantile", "v").registry(w.reg.clone()).finish().map(drop).unwrap_err());
            drop(HistogramBuilder::new("good").label("l", "v").bucket(1.0).bucket(f64::NAN).registry(w.reg.clone()).finish().map(drop).unwrap_err());
            for q in [1.5, -0.5, f64::NAN] {
                drop(SummaryBuilder::new("good", Duration::from_secs(1)).label("l", "v").quantile(0.5).quantile(q).registry(w.reg.clone()).finish().map(drop).unwrap_err());
            }
            for m in &w.ms {
                if let Any::C(c) = m {
                    drop(c.add(-1.0).unwrap_err());
                    drop(c.add(f64::NAN).unwrap_err());
                }
            }
        }
        MO::Shared => {
            let mut b = prometrics::metrics::MetricBuilder::with_registry(w.reg.clone());
            b.namespace("n").label("a", "b");
            b.counter("t").finish().unwrap().increment();
            b.histogram("u").finish().unwrap().observe(1.0);
        }
        MO::CloneDrop => w.ms.iter().for_each(|m| drop(m.clone())),
        MO::Ins => {
            for m in &mut w.ms {
                m.labels_mut().insert("a", if w.n % 2 == 0 { "even" } else { "odd" }).unwrap();
                m.labels_mut().insert("b", "2").unwrap();
            }
        }
        MO::Rem => w.ms.iter_mut().for_each(|m| m.labels_mut().remove("a")),
        MO::Clear => w.ms.iter_mut().for_each(|m| m.labels_mut().clear()),
        MO::InsBad => {
            for m in &mut w.ms {
                for bad in BAD.iter().chain(&["__reserved"]) {
                    drop(m.labels_mut().insert(bad, "x").unwrap_err());
                }
                let own = match m {
                    Any::H(_) => "le",
                    Any::S(_) => "quantile",
                    _ => continue,
                };
                drop(m.labels_mut().insert(own, "x").unwrap_err());
            }
        }
        MO::HoldIter => {
            for m in &mut w.ms {
                let mut other = m.clone();
                let it = m.labels().iter();
                other.labels_mut().insert("c", "3").unwrap();
                other.labels_mut().remove("c");
                drop(it);
                drop(other.labels().to_string());
            }
        }
        MO::Bump => w.ms.iter().for_each(|m| m.bump(1.0)),
        MO::Time => w.ms.iter().for_each(|m| m.time(|| ())),
        MO::Panic => {
            for m in &w.ms {
                let _ = caught(|| m.time(|| std::panic::panic_any(1u32)));
                if let Any::G(g) = m {
                    let _ = caught(|| g.track_inprogress(|| std::panic::panic_any(2u32)));
                }
            }
            let mut armed = true;
            let reg = w.reg.clone();
            register_fn(&w.reg, move || {
                let _ = &reg;
                if std::mem::replace(&mut armed, false) {
                    std::panic::panic_any(3u32)
                }
                None
            });
            let g = w.g.clone();
            let _ = caught(|| g.borrow_mut().gather());
        }
        MO::Stamp => {
            for m in &w.ms {
                m.timestamp_mut().set(w.n as i64);
                m.timestamp_mut().clear();
                m.timestamp_mut().set_now();
            }
        }
        MO::Read => {
            for m in &w.ms {
                drop(m.text());
                drop(labels_of(m.labels()));
                m.events();
                if let Any::S(s) = m {
                    drop(s.quantiles());
                }
            }
        }
        MO::Gather => drop(w.g.borrow_mut().gather().to_text()),
        MO::GatherMany => {
            let v: Vec<_> = (0..3).map(|_| w.g.borrow_mut().gather().into_vec()).collect();
            drop(v);
        }
        MO::Ender => register_fn(&w.reg, || None),
        MO::Enders => {
            // In the gatherer of the lasting metrics, and in a fresh one.
            let mut fresh = Gatherer::new();
            for reg in [w.reg.clone(), fresh.registry()] {
                for i in 0..8 {
                    let mut n = 7 - i; // the one at index i ends in gathering 8 - i
                    let data = vec![0u8; 64];
                    register_fn(&reg, move || {
                        let _ = &data;
                        n -= 1;
                        if n >= 0 {
                            Some(vec![])
                        } else {
                            None
                        }
                    });
                }
            }
            for _ in 0..8 {
                drop(w.g.borrow_mut().gather());
                drop(fresh.gather());
            }
        }
        MO::ManyGone => {
            let v: Vec<Any> = (0..40).map(|k| Any::build(k % 4, ["t", "u", "v"][k % 3], &[("i", ["a", "b"][k % 2])], Some(&w.reg))).collect();
            drop(w.g.borrow_mut().gather());
            drop(v);
        }
        MO::Ender2 => {
            let mut n = 0;
            register_fn(&w.reg, move || {
                n += 1;
                if n < 2 {
                    Some(vec![Counter::new("once").unwrap().into()])
                } else {
                    None
                }
            });
            drop(w.g.borrow_mut().gather());
        }
        MO::Inner => {
            let reg = w.reg.clone();
            let mut done = false;
            register_fn(&w.reg, move || {
                if std::mem::replace(&mut done, true) {
                    return None;
                }
                drop(Any::build(0, "inner", &[], Some(&reg)));
                Some(vec![])
            });
            drop(w.g.borrow_mut().gather());
        }
        MO::OtherGatherer => {
            let mut g2 = Gatherer::new();
            let m = Any::build((w.n % 4) as usize, "o", &[], Some(&g2.registry()));
            let r = g2.registry();
            drop(g2.gather());
            drop(g2);
            register_fn(&r, || None);
            drop(m);
        }
        MO::RegistryClone => drop(vec![w.reg.clone(), w.reg.clone(), w.g.borrow().registry()]),
        MO::Expire => {
            w.ms.iter().for_each(|m| (0..20).for_each(|_| m.bump(1.0)));
            rt::advance(11_000_000_000);
        }
        MO::Fresh(k) => {
            let i = fresh();
            let mut b = match k {
                0 => AnyB::C(CounterBuilder::new(&format!("name{}", i))),
                1 => AnyB::G(GaugeBuilder::new(&format!("name{}", i))),
                2 => {
                    let mut b = HistogramBuilder::new(&format!("name{}", i));
                    b.bucket(i as f64).bucket(-(i as f64));
                    AnyB::H(b)
                }
                _ => {
                    let mut b = SummaryBuilder::new(&format!("name{}", i), Duration::from_nanos(i));
                    b.quantile(1.0 / i as f64);
                    AnyB::S(b)
                }
            };
            b.namespace(&format!("space{}", i)).subsystem(&format!("sub{}", i)).help(&format!("help {}", i)).label(&format!("label{}", i), &format!("value {}", i)).registry(w.reg.clone());
            let m = b.finish().unwrap();
            m.bump(i as f64);
            m.timestamp_mut().set(i as i64);
            drop((m.text(), m.labels().to_string(), m.name().to_string()));
            drop(w.g.borrow_mut().gather().to_text());
        }
        MO::FreshLabels => {
            for m in &mut w.ms {
                let i = fresh();
                let name = format!("label{}", i);
                m.labels_mut().insert(&name, &format!("value {}", i)).unwrap();
                drop((m.text(), m.labels().to_string()));
                drop(w.g.borrow_mut().gather().to_text());
                m.labels_mut().remove(&name);
            }
        }
        MO::FreshRefused => {
            let i = fresh();
            drop(AnyB::new((i % 4) as usize, &format!("bad-name{}", i)).registry(w.reg.clone()).finish().map(drop).unwrap_err());
            drop(w.ms[0].labels_mut().insert(&format!("bad-label{}", i), "x").unwrap_err());
        }
        MO::Process => {
            let mut g = Gatherer::new();
            g.registry().register(ProcessMetricsCollector::new());
            drop(g.gather().to_text());
            drop(g.gather());
        }
    }
}
/// What repeating does not add to: the window passes, ended collectors are noticed.
fn settle(w: &mut World, how: usize) {
    rt::advance(10_000_000_001);
    if let Any::S(s) = &w.ms[3] {
        if how == 0 {
            s.observe(1.0); // never read
        } else {
            drop(s.quantiles());
        }
    }
    for _ in 0..2 {
        drop(w.g.borrow_mut().gather());
    }
}
fn m_run(ctx: &mut Ctx, seq: &[MO], how: usize, reps: usize) -> Result<(), String> {
    ctx.step((seq.len() * reps) as u64);
    rt::set_clock(1_000_000_000_000, 1_600_000_000_000_000_000);
    let mut w = world();
    // Capacities may double while a history is repeated, so what counts is the most in use over two long stretches.
    let (mut early, mut late) = ((0, 0), (0, 0));
    let fds = unsafe { rt::mc_count_fds() };
    for k in 0..reps {
        for &o in seq {
            step(&mut w, o);
        }
        settle(&mut w, how);
        let now = unsafe { (rt::mc_live_bytes(), rt::mc_live_blocks()) };
        let m = if k < reps / 2 { &mut early } else { &mut late };
        *m = (now.0.max(m.0), now.1.max(m.1));
    }
    ctx.state(&format!("{:?}{}", seq, how));
    let n = (reps / 2) as u64;
    ensure!(late.1 < early.1 + n / 4 && late.0 < early.0 + 4 * n, "memory in use grows with repetition: at most {} bytes in {} blocks over the first {} repetitions, {} bytes in {} blocks over the next {}", early.0, early.1, n, late.0, late.1, n);
    let f2 = unsafe { rt::mc_count_fds() };
    ensure!(f2 == fds, "{} file descriptors are open instead of {}", f2, fds);
    // Everything goes: so does the memory.
    Ok(())
}
fn m01(ctx: &mut Ctx, shard: usize, of: usize) {
    let depth = if ctx.thorough { 3 } else { 2 };
    seqs_shard(OPS.len(), 0, depth, shard, of, |q| {
        let seq: Vec<MO> = q.iter().map(|&i| OPS[i]).collect();
        if seq.len() == 3 && seq.contains(&MO::Process) {
            return; // slow, and covered by the shorter ones
        }
        for how in 0..2 {
            ctx.case(&|| format!("{:?}, settled by {}, repeated", seq, ["an observation", "a reading"][how]), |ctx| m_run(ctx, &seq, how, if seq.len() == 1 { 256 } else { 96 }));
        }
    });
    if shard == 0 {
        ctx.cover(format!("all histories of up to {} operations out of {}, each repeated 96 (single operations: 256) times", depth, OPS.len()));
    }
}
/// A whole world comes and goes: nothing at all is left.
fn m01_end(ctx: &mut Ctx, shard: usize, of: usize) {
    let depth = if ctx.thorough { 3 } else { 2 };
    seqs_shard(OPS.len(), 0, depth, shard, of, |q| {
        let seq: Vec<MO> = q.iter().map(|&i| OPS[i]).collect();
        ctx.case(&|| format!("{:?}, then all handles, registries and the gatherer dropped", seq), |ctx| {
            ctx.step(seq.len() as u64 * 3);
            let mut first = 0;
            // The first round may initialize things for good.
            for round in 0..4 {
                rt::set_clock(1_000_000_000_000, 1_600_000_000_000_000_000);
                let before = unsafe { rt::mc_live_bytes() };
                let mut w = world();
                for &o in &seq {
                    step(&mut w, o);
                }
                match round % 2 {
                    0 => drop(w),
                    _ => {
                        let World { g, reg, ms, .. } = w;
                        drop(g);
                        drop(ms);
                        drop(reg);
                    }
                }
                let left = unsafe { rt::mc_live_bytes() } as i64 - before as i64;
                if round == 0 {
                    first = left;
                } else {
                    ensure!(left <= 0, "{} bytes are left after everything was dropped (in the first round: {})", left, first);
                }
            }
            Ok(())
        });
    });
    if shard == 0 {
        ctx.cover(format!("all histories of up to {} operations, then everything dropped: nothing is left", depth));
    }
}
/// Concurrent histories: whatever the interleaving, everything is released in the end.
fn m01_conc(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = Opts { forked: false, gated: false, full_execs: 0, max_preempt: if ctx.thorough { 3 } else { 2 }, bounded_execs: if ctx.thorough { 100_000 } else { 10_000 }, wall_s: if ctx.thorough { 60 } else { 20 }, quarantine: false };
    let words = ["i", "r", "c", "h", "n", "g", "b", "ii", "ir", "hi", "nn", "d"];
    let mut n = 0;
    for kind in 0..4 {
        for a in words {
            for b in words {
                if a > b {
                    continue;
                }
                n += 1;
                if !mine(n, shard, of) || (!ctx.thorough && n % 4 != kind && a.len() + b.len() > 2) {
                    continue;
                }
                let base = Rc::new(std::cell::Cell::new(i64::MAX));
                explore(ctx, &format!("{}: {} and {}, then everything dropped", KINDS[kind], a, b), &o, &|| {
                    let before = unsafe { rt::mc_live_bytes() } as i64;
                    let g = std::sync::Arc::new(std::sync::Mutex::new(Gatherer::new()));
                    let reg = g.lock().unwrap().registry();
                    let m = Any::build(kind, "m", &[("a", "0")], Some(&reg));
                    let threads = [a, b]
                        .iter()
                        .enumerate()
                        .map(|(t, w)| {
                            let (g, reg, mut m, w) = (g.clone(), reg.clone(), m.clone(), w.to_string());
                            Box::new(move || {
                                for c in w.chars() {
                                    match c {
                                        'i' => m.labels_mut().insert(["b", "c"][t], "1").unwrap(),
                                        'r' => m.labels_mut().remove("a"),
                                        'c' => m.labels_mut().clear(),
                                        'h' => drop(labels_of(m.labels())),
                                        'n' => drop(Any::build(kind, "n", &[("x", "y")], Some(&reg))),
                                        'b' => m.bump(1.0),
                                        'd' => drop(prom::samples(&m.text())),
                                        _ => {
                                            if let Ok(mut g) = g.try_lock() {
                                                drop(g.gather());
                                            }
                                        }
                                    }
                                }
                            }) as Box<dyn FnOnce()>
                        })
                        .collect();
                    let base = base.clone();
                    Exec {
                        threads,
                        finish: Box::new(move || {
                            drop((g, reg, m));
                            let left = unsafe { rt::mc_live_bytes() } as i64 - before;
                            // What the harness itself still holds is the same in every execution.
                            if left < base.get() {
                                base.set(left);
                            }
                            ensure!(left <= base.get(), "{} bytes more are left after everything was dropped than in another interleaving", left - base.get());
                            Ok(String::new())
                        }),
                    }
                });
            }
        }
    }
}

pub fn scenarios() -> Vec<Scenario> {
    let mut v = sharded("repeated", 8, m01);
    v.extend(sharded("dropped", 8, m01_end));
    v.extend(sharded("concurrent", 8, m01_conc));
    v
}
