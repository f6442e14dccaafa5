//! C06, C07, F01, G02: registries, gatherers, the code they call, and what may go wrong in it.
use crate::explore::{alone, caught, explore, Exec, Opts};
use crate::make::*;
use crate::prom;
use crate::rt;
use crate::util::*;
use crate::work::{Ctx, Scenario};
use crate::ensure;
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

/// Everything in the checker runs on one OS thread at a time; collectors must be `Send` for the library's sake.
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
/// A collector made of a closure.
struct FnCollector<F>(AssertSend<F>);
impl<F: FnMut() -> Option<Vec<Metric>>> Collect for FnCollector<F> {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        (self.0 .0)().map(|v| v.into_iter())
    }
}
pub fn register_fn(r: &Registry, f: impl FnMut() -> Option<Vec<Metric>> + 'static) {
    r.register(FnCollector(AssertSend(f)));
}
struct OnDrop(Rc<Cell<u32>>);
impl Drop for OnDrop {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}

/// A writer of the user's that does something in its call number `at`.
pub struct Probe<'a> {
    pub text: String,
    pub calls: usize,
    at: usize,
    f: Option<Box<dyn FnOnce() -> std::fmt::Result + 'a>>,
}
impl<'a> Probe<'a> {
    fn new(at: usize, f: impl FnOnce() -> std::fmt::Result + 'a) -> Self {
        Probe { text: String::new(), calls: 0, at, f: Some(Box::new(f)) }
    }
}
impl<'a> std::fmt::Write for Probe<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        if self.calls > self.at {
            if let Some(f) = self.f.take() {
                f()?;
            }
        }
        self.text.push_str(s);
        Ok(())
    }
}
/// The last one is the debugging form: it may block (it locks what it prints), and it may show what happened.
const PRINTS: [&str; 6] = ["the metric", "its labels", "its name", "the gathered families", "the gathered metrics", "the metric in full"];
/// Prints one of PRINTS to the user's writer; `fs` are the families of a gathering.
fn print(w: &mut dyn std::fmt::Write, what: usize, m: &Any, fs: &MetricFamilies) -> std::fmt::Result {
    match what {
        0 => match m {
            Any::C(m) => write!(w, "{}", m),
            Any::G(m) => write!(w, "{}", m),
            Any::H(m) => write!(w, "{}", m),
            Any::S(m) => write!(w, "{}", m),
        },
        1 => write!(w, "{}", m.labels()),
        2 => write!(w, "{}", m.name()),
        3 => fs.as_ref().iter().map(|f| write!(w, "{}", f)).collect(),
        4 => fs.as_ref().iter().map(|f| write!(w, "{}", f.metrics())).collect(),
        _ => write!(w, "{:?}", m),
    }
}

/// Names and totals in a gathering, from the text and from the accessors (which must agree).
fn totals(f: &MetricFamilies) -> Result<BTreeMap<String, f64>, String> {
    let mut m = BTreeMap::new();
    for e in entries(f.as_ref()) {
        if m.insert(e.name.clone(), e.value).is_some() {
            return Err(format!("{} is listed twice", e.name));
        }
    }
    let t = prom::parse(&f.to_text()).map_err(|e| format!("{} in text {:?}", e, f.to_text()))?;
    if t.iter().map(|f| &f.name).ne(m.keys()) && t.iter().map(|f| f.name.clone()).collect::<std::collections::BTreeSet<_>>() != m.keys().cloned().collect() {
        return Err(format!("text and families differ: {:?} {:?}", t, m));
    }
    Ok(m)
}

// ---- C06 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum RO {
    New(usize),  // build and register metric i
    Late(usize), // build metric i unregistered, then register its collector
    Bump(usize),
    Drop(usize),
    Gather,
}
struct RS {
    kind: usize,
    gatherers: Vec<std::sync::Mutex<Gatherer>>, // thread t uses t % len
    reg: Vec<Vec<Registry>>,                    // per thread, one per gatherer
    slot: Vec<RefCell<Option<Any>>>,
    crowd: Vec<(String, Option<Any>)>,          // other metrics: alive ones, and dropped ones
}
type RR = Result<BTreeMap<String, f64>, String>;
const NAMES: [&str; 4] = ["m0", "m1", "m2", "m3"];
fn amount(i: usize) -> f64 {
    (1u32 << i) as f64
}
fn r_exec(s: &RS, t: usize, o: &RO) -> RR {
    match *o {
        RO::New(i) => {
            let mut b = AnyB::new((s.kind + i) % 4, NAMES[i]);
            for r in &s.reg[t] {
                b.registry(r.clone());
            }
            *s.slot[i].borrow_mut() = Some(b.std().finish().expect("valid metric"));
        }
        RO::Late(i) => {
            let m = Any::build((s.kind + i) % 4, NAMES[i], &[], None);
            for r in &s.reg[t] {
                m.register(r);
            }
            *s.slot[i].borrow_mut() = Some(m);
        }
        RO::Bump(i) => s.slot[i].borrow().as_ref().unwrap().bump(amount(i)),
        RO::Drop(i) => {
            let m = s.slot[i].borrow_mut().take();
            drop(m);
        }
        RO::Gather => {
            let mut g = s.gatherers[t % s.gatherers.len()].lock().map_err(|_| "poisoned")?;
            let f = g.gather();
            let mut m = BTreeMap::new();
            for e in entries(f.as_ref()) {
                if m.insert(e.name.clone(), e.value).is_some() {
                    return Err(format!("{} is listed twice", e.name));
                }
            }
            return Ok(m);
        }
    }
    Ok(BTreeMap::new())
}
fn r_check(s: &RS, h: &crate::conc::Hist<RO, RR>, pre: usize) -> Result<String, String> {
    let fin: Vec<_> = (0..s.gatherers.len()).map(|i| Call { tid: 9, op: RO::Gather, res: r_exec(s, i, &RO::Gather), call: u32::MAX - 1, ret: u32::MAX }).collect();
    let mut out = String::new();
    for g in h.iter().chain(&fin).filter(|c| c.op == RO::Gather) {
        let mut r = g.res.clone()?;
        for (name, m) in &s.crowd {
            let v = r.remove(name);
            ensure!(v == m.as_ref().map(|_| 1.0), "{} of the {} other metrics, which {}, is reported as {:?}", name, s.crowd.len(), if m.is_some() { "has the value 1" } else { "was dropped" }, v);
        }
        for i in 0..NAMES.len() {
            let born = if i == pre { Some((0, 0)) } else { h.iter().find(|c| c.op == RO::New(i) || c.op == RO::Late(i)).map(|c| (c.call, c.ret)) };
            let died = h.iter().find(|c| c.op == RO::Drop(i)).map(|c| (c.call, c.ret));
            let seen = r.get(NAMES[i]);
            let born = match born {
                None => {
                    ensure!(seen.is_none(), "{} was never registered but is reported", NAMES[i]);
                    continue;
                }
                Some(b) => b,
            };
            if let Some(d) = died {
                // A handle also lives in an overlapping gather, as long as that one may have got hold of it itself.
                let gs: Vec<_> = h.iter().filter(|x| x.op == RO::Gather).collect();
                let mut may: Vec<bool> = gs.iter().map(|x| x.call < d.1).collect();
                for _ in 0..gs.len() {
                    for k in 0..gs.len() {
                        may[k] = may[k] || gs.iter().zip(&may).any(|(x, &ok)| ok && x.call < gs[k].call && x.ret > gs[k].call);
                    }
                }
                let held = gs.iter().zip(&may).any(|(x, &ok)| ok && x.call != g.call && x.ret > g.call && x.call < g.ret);
                ensure!(!(d.1 < g.call && seen.is_some() && !held), "{} was dropped before the gather began but is reported", NAMES[i]);
            }
            ensure!(!(born.0 > g.ret && seen.is_some()), "{} is reported by a gather that ended before it was registered", NAMES[i]);
            let alive = born.1 < g.call && died.map_or(true, |d| d.0 > g.ret);
            ensure!(!(alive && seen.is_none()), "{} was registered before the gather began and is alive, but is missing", NAMES[i]);
            if let Some(v) = seen {
                let n = |f: &dyn Fn(&Call<RO, RR>) -> bool| h.iter().filter(|c| c.op == RO::Bump(i) && f(c)).count() as f64 * amount(i);
                let (lo, hi) = (n(&|c| c.ret < g.call), n(&|c| c.call < g.ret));
                ensure!(lo <= *v && *v <= hi, "{} is reported as {}, but {} had been recorded before and {} at the end", NAMES[i], v, lo, hi);
            }
        }
        out += &format!("{:?} ", r);
    }
    Ok(out)
}
fn c06(ctx: &mut Ctx, shard: usize, of: usize) {
    use RO::*;
    let o = if ctx.thorough {
        Opts { full_execs: 300_000, max_preempt: 3, bounded_execs: 300_000, wall_s: 60, ..Default::default() }
    } else {
        Opts { full_execs: 8_000, max_preempt: 2, bounded_execs: 20_000, wall_s: 15, ..Default::default() }
    };
    // m0 exists from the start and is not yet known to the gatherer, or is.
    let workers: Vec<Vec<RO>> = vec![
        vec![New(1)],
        vec![Bump(0)],
        vec![Drop(0)],
        vec![New(1), Bump(1)],
        vec![New(1), Drop(1)],
        vec![New(1), New(2)],
        vec![Late(1), Bump(1)],
        vec![Bump(0), Drop(0)],
        vec![New(1), Drop(0)],
    ];
    let others: Vec<Vec<RO>> = vec![vec![New(3)], vec![New(3), Drop(3)], vec![Gather], vec![Late(3)]];
    let mut n = 0;
    for gathers in 1..=2 {
        for drained in [false, true] {
            for w in &workers {
                for other in std::iter::once(None).chain(others.iter().map(Some)) {
                    if gathers == 2 && other.is_some() && !ctx.thorough {
                        continue;
                    }
                    for kind in 0..(if ctx.thorough { 4 } else { 2 }) {
                        n += 1;
                        if !mine(n, shard, of) {
                            continue;
                        }
                        let mut progs = vec![vec![Gather; gathers], w.clone()];
                        if let Some(x) = other {
                            progs.push(x.clone());
                        }
                        let check = Rc::new(move |s: &RS, h: &crate::conc::Hist<RO, RR>| r_check(s, h, 0));
                        explore(ctx, &format!("{:?} m0 {} kind {}", progs, if drained { "known" } else { "pending" }, kind), &o, &|| {
                            let mut g = Gatherer::new();
                            let reg: Vec<Vec<Registry>> = (0..3).map(|_| vec![g.registry()]).collect();
                            let m0 = Any::build(kind, NAMES[0], &[], Some(&reg[0][0]));
                            if drained {
                                g.gather();
                            }
                            let slot = (0..4).map(|i| RefCell::new(if i == 0 { Some(m0.clone()) } else { None })).collect();
                            drop(m0);
                            let s = RS { kind, gatherers: vec![std::sync::Mutex::new(g)], reg, slot, crowd: vec![] };
                            crate::conc::program(s, &progs, r_exec, check.clone())
                        });
                    }
                }
            }
        }
    }
}
/// The same in a crowd: other metrics were registered, gathered or dropped before.
fn c06_crowd(ctx: &mut Ctx, shard: usize, of: usize) {
    use RO::*;
    let o = Opts { full_execs: 0, max_preempt: if ctx.thorough { 3 } else { 2 }, bounded_execs: if ctx.thorough { 20_000 } else { 600 }, wall_s: 30, ..Default::default() };
    let workers: Vec<Vec<RO>> = vec![vec![New(1)], vec![Bump(0)], vec![Drop(0)], vec![New(1), Drop(1)], vec![Late(1), New(2)], vec![New(1), Drop(0)]];
    let mut n = 0;
    let sizes: &[usize] = if ctx.thorough { &[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257] } else { &[3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128] };
    for &size in sizes {
        for past in 0..5 {
            for w in &workers {
                for gathers in if ctx.thorough { vec![1, 2] } else { vec![1 + size % 2] } {
                    n += 1;
                    if !mine(n, shard, of) {
                        continue;
                    }
                    let progs = vec![vec![Gather; gathers], w.clone()];
                    let check = Rc::new(move |s: &RS, h: &crate::conc::Hist<RO, RR>| r_check(s, h, 0));
                    let kind = n % 4;
                    let what = ["pending", "known", "known, every other one dropped", "half known, half pending, some of both dropped", "known for as many gatherings"][past];
                    explore(ctx, &format!("{:?} kind {} among {} others {}", progs, kind, size, what), &o, &|| {
                        let mut g = Gatherer::new();
                        let reg: Vec<Vec<Registry>> = (0..3).map(|_| vec![g.registry()]).collect();
                        let first = size % 2 == 0;
                        let mut m0 = if first { Some(Any::build(kind, NAMES[0], &[], Some(&reg[0][0]))) } else { None };
                        let mut crowd = vec![];
                        for i in 0..size {
                            if past == 3 && i == size / 2 {
                                g.gather();
                            }
                            let m = CounterBuilder::new(&format!("k{:03}", i)).registry(reg[0][0].clone()).finish().unwrap();
                            m.increment();
                            crowd.push((format!("k{:03}", i), Some(Any::C(m))));
                        }
                        m0 = m0.or_else(|| Some(Any::build(kind, NAMES[0], &[], Some(&reg[0][0]))));
                        for _ in 0..[0, 1, 1, 0, size][past] {
                            g.gather();
                        }
                        if past == 2 || past == 3 {
                            for i in (0..size).filter(|i| i % 2 == 0) {
                                crowd[i].1 = None;
                            }
                        }
                        let slot = (0..4).map(|i| RefCell::new(if i == 0 { m0.take() } else { None })).collect();
                        let s = RS { kind, gatherers: vec![std::sync::Mutex::new(g)], reg, slot, crowd };
                        crate::conc::program(s, &progs, r_exec, check.clone())
                    });
                }
            }
        }
    }
}
/// Many threads that each register a metric through a registry of their own, one after the other; then two of them
/// register, drop or gather concurrently.
fn c06_late(ctx: &mut Ctx, shard: usize, of: usize) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum O {
        New(usize),
        Drop(usize),
        Gather,
    }
    struct S {
        g: std::sync::Mutex<Gatherer>,
        reg: Vec<Registry>,
        slot: Vec<RefCell<Option<Any>>>,
    }
    fn exec(s: &S, t: usize, o: &O) -> RR {
        match *o {
            O::New(i) => {
                let m = CounterBuilder::new(&format!("k{}", i)).registry(s.reg[t].clone()).finish().unwrap();
                m.increment();
                *s.slot[i].borrow_mut() = Some(Any::C(m));
            }
            O::Drop(i) => {
                let m = s.slot[i].borrow_mut().take();
                drop(m);
            }
            O::Gather => return Ok(entries(s.g.lock().map_err(|_| "poisoned")?.gather().as_ref()).into_iter().map(|e| (e.name, e.value)).collect()),
        }
        Ok(BTreeMap::new())
    }
    fn check(s: &S, h: &crate::conc::Hist<O, RR>) -> Result<String, String> {
        let fin = Call { tid: 99, op: O::Gather, res: exec(s, 99, &O::Gather), call: u32::MAX - 1, ret: u32::MAX };
        for g in h.iter().chain(Some(&fin)).filter(|c| c.op == O::Gather) {
            let r = g.res.clone()?;
            for i in 0..s.slot.len() {
                let seen = r.get(&format!("k{}", i)).copied();
                let born = match h.iter().find(|c| c.op == O::New(i)) {
                    None => continue,
                    Some(c) => c,
                };
                let died = h.iter().find(|c| c.op == O::Drop(i));
                ensure!(seen.is_none() || seen == Some(1.0) || seen == Some(0.0) && born.ret > g.call, "k{} is reported as {:?}", i, seen);
                ensure!(!(born.call > g.ret && seen.is_some()), "k{} is reported by a gathering that ended before it was registered", i);
                ensure!(!(born.ret < g.call && died.map_or(true, |d| d.call > g.ret) && seen.is_none()), "k{} was registered before the gathering began and is alive, but is missing", i);
                ensure!(!(died.map_or(false, |d| d.ret < g.call) && seen.is_some()), "k{} was dropped before the gathering began, but is reported", i);
            }
        }
        Ok(String::new())
    }
    let mut o = crate::conc::late_opts(ctx);
    o.bounded_execs = if ctx.thorough { 10_000 } else { 400 };
    o.full_execs = o.bounded_execs;
    let mut n = 0;
    for at in crate::conc::arrivals(ctx.thorough) {
        // Either one of the two gathers, or none.
        for (a, b) in [(vec![O::New(64)], vec![O::New(65)]), (vec![O::Gather], vec![O::New(65)]), (vec![O::New(64)], vec![O::Gather]), (vec![O::Drop(1)], vec![O::Gather]), (vec![O::New(64), O::Drop(64)], vec![O::New(65), O::Gather])] {
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            explore(ctx, &format!("{:?} and {:?} on {:?} of threads with a metric each", a, b, at), &o, &|| {
                let g = Gatherer::new();
                let reg = (0..64).map(|_| g.registry()).collect();
                let s = S { g: std::sync::Mutex::new(g), reg, slot: (0..66).map(|_| RefCell::new(None)).collect() };
                crate::conc::late(s, at, &|j| O::New(j), &a, &b, exec, Rc::new(check))
            });
        }
    }
}
/// Two gatherers share the metrics and gather at the same time.
fn c06_two(ctx: &mut Ctx, shard: usize, of: usize) {
    use RO::*;
    let o = if ctx.thorough {
        Opts { full_execs: 200_000, max_preempt: 3, bounded_execs: 200_000, wall_s: 60, ..Default::default() }
    } else {
        Opts { full_execs: 4_000, max_preempt: 2, bounded_execs: 12_000, wall_s: 15, ..Default::default() }
    };
    let mut n = 0;
    let own: Vec<Vec<RO>> = vec![vec![Gather], vec![Gather, Gather], vec![New(1), Gather], vec![Bump(0), Gather], vec![Gather, Drop(0)], vec![Drop(0), Gather]];
    let other: Vec<Vec<RO>> = vec![vec![Gather], vec![New(2), Gather], vec![Gather, New(2)], vec![Late(2), Gather]];
    let third: Vec<Vec<RO>> = vec![vec![], vec![Drop(0)], vec![Bump(0)], vec![New(3)], vec![New(3), Drop(3)], vec![Late(3)]];
    for drained in [0, 1, 2] {
        for a in &own {
            for b in &other {
                for c in &third {
                    if !c.is_empty() && (a.contains(&c[0]) || (!ctx.thorough && a.len() + b.len() > 3)) {
                        continue;
                    }
                    if a.iter().chain(c).any(|o| *o == Bump(0)) && a.iter().chain(c).any(|o| *o == Drop(0)) {
                        continue;
                    }
                    for kind in 0..4 {
                        n += 1;
                        if !mine(n, shard, of) || (!ctx.thorough && (n / of) % 2 == 1) {
                            continue;
                        }
                        let mut progs = vec![a.clone(), b.clone()];
                        if !c.is_empty() {
                            progs.push(c.clone());
                        }
                        let check = Rc::new(move |s: &RS, h: &crate::conc::Hist<RO, RR>| r_check(s, h, 0));
                        explore(ctx, &format!("two gatherers: {:?}, m0 {} kind {}", progs, ["pending", "known to one", "known"][drained], kind), &o, &|| {
                            let mut g = vec![Gatherer::new(), Gatherer::new()];
                            let reg: Vec<Vec<Registry>> = (0..3).map(|_| g.iter().map(|g| g.registry()).collect()).collect();
                            let mut m0 = AnyB::new(kind, NAMES[0]);
                            for r in &reg[0] {
                                m0.registry(r.clone());
                            }
                            let m0 = m0.std().finish().unwrap();
                            for g in g.iter_mut().take(drained) {
                                g.gather();
                            }
                            let slot = (0..4).map(|i| RefCell::new(if i == 0 { Some(m0.clone()) } else { None })).collect();
                            drop(m0);
                            let s = RS { kind, gatherers: g.into_iter().map(std::sync::Mutex::new).collect(), reg, slot, crowd: vec![] };
                            crate::conc::program(s, &progs, r_exec, check.clone())
                        });
                    }
                }
            }
        }
    }
}
/// One thread makes its last call while it ends, in the destructor of a thread-local of the user's.
fn c06_exit(ctx: &mut Ctx, shard: usize, of: usize) {
    use RO::*;
    let o = Opts { full_execs: 0, max_preempt: if ctx.thorough { 3 } else { 2 }, bounded_execs: if ctx.thorough { 20_000 } else { 1_000 }, wall_s: 30, ..Default::default() };
    let mut n = 0;
    let ending: Vec<(Vec<RO>, RO)> = vec![
        (vec![Bump(0)], New(1)),
        (vec![New(1)], Drop(1)),
        (vec![New(2)], New(1)),
        (vec![Gather], Gather),
        (vec![New(1)], Gather),
        (vec![], Gather),
        (vec![Gather], New(1)),
        (vec![Bump(0)], Drop(0)),
        (vec![Late(2)], Late(1)),
        (vec![Bump(0)], Bump(0)),
    ];
    let text = |s: &RS, t: usize, op: &RO| match op {
        Gather => totals(&s.gatherers[t].lock().map_err(|_| "poisoned")?.gather()),
        _ => r_exec(s, t, op),
    };
    for (ops, end) in &ending {
        for other in [vec![Gather], vec![New(3)], vec![New(3), Gather], vec![Gather, New(3)]] {
            for first in [true, false] {
                for kind in 0..4 {
                    n += 1;
                    if !mine(n, shard, of) {
                        continue;
                    }
                    let progs = [(ops.clone(), Some((*end, first))), (other.clone(), None)];
                    let check = Rc::new(move |s: &RS, h: &crate::conc::Hist<RO, RR>| r_check(s, h, 0));
                    explore(ctx, &format!("{:?} kind {}", progs, kind), &o, &|| {
                        let g = vec![Gatherer::new(), Gatherer::new()];
                        let reg: Vec<Vec<Registry>> = (0..2).map(|_| g.iter().map(|g| g.registry()).collect()).collect();
                        let mut m0 = AnyB::new(kind, NAMES[0]);
                        for r in &reg[0] {
                            m0.registry(r.clone());
                        }
                        let m0 = m0.std().finish().unwrap();
                        let slot = (0..4).map(|i| RefCell::new(if i == 0 { Some(m0.clone()) } else { None })).collect();
                        drop(m0);
                        let s = RS { kind, gatherers: g.into_iter().map(std::sync::Mutex::new).collect(), reg, slot, crowd: vec![] };
                        crate::conc::program_exit(s, &progs, text, check.clone())
                    });
                }
            }
        }
    }
}
/// A family of many members is gathered while the labels of one of them change.
fn c06_labels(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = Opts { full_execs: 0, max_preempt: if ctx.thorough { 2 } else { 1 }, bounded_execs: if ctx.thorough { 60_000 } else { 12_000 }, wall_s: if ctx.thorough { 100 } else { 20 }, ..Default::default() };
    let mut n = 0;
    for size in [3usize, 24, 33] {
        for stride in [1usize, 5, 7] {
            for (victim, to) in [(0usize, "zz"), (size / 2, "zz"), (size / 2, "00"), (size - 1, "00")] {
                for kind in 0..(if ctx.thorough { 4 } else { 1 }) {
                    n += 1;
                    if !mine(n, shard, of) {
                        continue;
                    }
                    explore(ctx, &format!("{} members registered with stride {}, member {} becomes {:?} during the gather, kind {}", size, stride, victim, to, kind), &o, &|| {
                        let mut g = Gatherer::new();
                        let reg = g.registry();
                        let all: Vec<Any> = (0..size).map(|i| Any::build(kind, "m", &[("a", &format!("{:02}", 10 + (i * stride) % size * 2))], Some(&reg))).collect();
                        for (i, m) in all.iter().enumerate() {
                            m.bump((1 + i) as f64);
                        }
                        let mut m = all[victim].clone();
                        let g = Rc::new(RefCell::new(g));
                        let g2 = g.clone();
                        let err = Rc::new(RefCell::new(None));
                        let err2 = err.clone();
                        let want: f64 = (1..=size).map(|x| x as f64).sum();
                        Exec {
                            threads: vec![
                                Box::new(move || {
                                    let f = g2.borrow_mut().gather();
                                    // Each member is listed once, though perhaps not under its place.
                                    let es = entries(f.as_ref());
                                    let t: f64 = es.iter().map(|e| e.value).sum();
                                    if t != want || es.len() != size {
                                        *err2.borrow_mut() = Some(format!("{} entries with total {} instead of {} and {}", es.len(), t, size, want));
                                    }
                                }),
                                Box::new(move || m.labels_mut().insert("a", to).unwrap()),
                            ],
                            finish: Box::new(move || {
                                if let Some(e) = err.borrow_mut().take() {
                                    return Err(e);
                                }
                                let f = g.borrow_mut().gather();
                                let es = entries(f.as_ref());
                                ensure!(f.as_ref().len() == 1 && es.len() == size, "afterwards {} entries in {} families", es.len(), f.as_ref().len());
                                drop(all);
                                Ok(String::new())
                            }),
                        }
                    });
                }
            }
        }
    }
}
/// First use of the default registry by several threads at once: everyone gets the same one.
fn c06_default(ctx: &mut Ctx, shard: usize, of: usize) {
    // The default registry is process-wide and initialized once, so each schedule runs in a process of its own.
    let _ = (shard, of);
    let o = Opts { full_execs: 0, max_preempt: if ctx.thorough { 3 } else { 2 }, bounded_execs: if ctx.thorough { 30_000 } else { 3_000 }, wall_s: if ctx.thorough { 200 } else { 25 }, quarantine: false, forked: true, gated: false };
    for second in 0..2 {
        explore(ctx, &format!("first use of the default registry, second thread {}", if second == 0 { "registers" } else { "gathers" }), &o, &|| {
            let kept: Rc<RefCell<Vec<Any>>> = Rc::default();
            let (k1, k2) = (kept.clone(), kept.clone());
            Exec {
                threads: vec![
                    Box::new(move || {
                        let m = AnyB::new(0, "m0").default_registry().finish().unwrap();
                        m.bump(1.0);
                        k1.borrow_mut().push(m);
                    }),
                    Box::new(move || {
                        if second == 0 {
                            let m = Any::build(1, "m1", &[], Some(&default_registry()));
                            m.bump(2.0);
                            k2.borrow_mut().push(m);
                        } else {
                            let f = default_gatherer().lock().unwrap().gather();
                            drop(f);
                        }
                    }),
                ],
                finish: Box::new(move || {
                    let m = totals(&default_gatherer().lock().map_err(|_| "poisoned")?.gather())?;
                    let want: BTreeMap<String, f64> = if second == 0 { [("m0".to_string(), 1.0), ("m1".to_string(), 2.0)].into_iter().collect() } else { [("m0".to_string(), 1.0)].into_iter().collect() };
                    ensure!(m == want, "gathered {:?} instead of {:?}", m, want);
                    drop(kept);
                    Ok(format!("{:?}", m))
                }),
            }
        });
    }
}

// ---- C07 -----------------------------------------------------------------------------------------------------------
/// What user code does when it is called back.
#[derive(Clone, Copy, Debug, PartialEq)]
enum In {
    Nothing,
    Read,
    Text,
    Bump,
    Time,
    Gather,
    Labels,
    New,
    NewDefault,
    DropOther,
    CloneDrop,
}
const INS: [In; 11] = [In::Nothing, In::Read, In::Text, In::Bump, In::Time, In::Gather, In::Labels, In::New, In::NewDefault, In::DropOther, In::CloneDrop];
enum Gat {
    Own(Gatherer),
    Default,
}
impl Gat {
    fn gather(&mut self) -> MetricFamilies {
        match self {
            Gat::Own(g) => g.gather(),
            Gat::Default => default_gatherer().lock().unwrap_or_else(|e| e.into_inner()).gather(),
        }
    }
}
struct World {
    m: Any,
    gatherer: RefCell<Option<Gat>>, // None while gathering
    reg: Registry,
    kept: RefCell<Vec<Any>>,
    fresh: Cell<u32>,
}
impl World {
    fn new(kind: usize) -> Rc<World> {
        let g = Gatherer::new();
        let reg = g.registry();
        World::on(kind, Gat::Own(g), reg)
    }
    fn on(kind: usize, g: Gat, reg: Registry) -> Rc<World> {
        let m = Any::build(kind, "m", &[("a", "0")], Some(&reg));
        let other = Any::build((kind + 1) % 4, "other", &[], Some(&reg));
        Rc::new(World { m, gatherer: RefCell::new(Some(g)), reg, kept: RefCell::new(vec![other]), fresh: Cell::new(0) })
    }
}
fn inner(w: &World, what: In) -> Result<(), String> {
    match what {
        In::Nothing => {}
        In::Read => {
            w.m.total();
            w.m.labels().len();
            w.m.timestamp().get();
        }
        In::Text => drop(prom::samples(&w.m.text())?),
        In::Bump => w.m.bump(2.0),
        In::Time => w.m.time(|| ()),
        In::Gather => {
            let g = w.gatherer.borrow_mut().take();
            if let Some(mut g) = g {
                let f = g.gather();
                let r = prom::parse(&f.to_text()).map(|_| ());
                *w.gatherer.borrow_mut() = Some(g);
                r?;
            }
        }
        In::Labels => {
            let mut m = w.m.clone();
            m.labels_mut().insert("b", "1").map_err(|e| e.to_string())?;
        }
        In::New => {
            let n = w.fresh.get();
            w.fresh.set(n + 1);
            let m = Any::build((w.m.kind() + 1) % 4, ["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"][n as usize], &[], Some(&w.reg));
            m.bump(1.0);
            w.kept.borrow_mut().push(m);
        }
        In::NewDefault => {
            let m = MetricBuilder::new().counter("in_default").finish().map_err(|e| e.to_string())?;
            drop(m);
        }
        In::DropOther => {
            let x = w.kept.borrow_mut().pop();
            drop(x);
        }
        In::CloneDrop => drop(w.m.clone()),
    }
    Ok(())
}
/// After everything: every kept metric and m are in the next gather, with exact totals.
fn settled(w: &World) -> Result<(), String> {
    let mut g = w.gatherer.borrow_mut();
    let g = g.as_mut().ok_or("gatherer lost")?;
    let got = totals(&g.gather())?;
    let mut want = BTreeMap::new();
    want.insert("m".to_string(), w.m.total());
    for k in w.kept.borrow().iter() {
        want.insert(k.name().to_string(), k.total());
    }
    ensure!(got == want, "the gather afterwards reports {:?} instead of {:?}", got, want);
    Ok(())
}
fn c07_seq(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut n = 0;
    let depth3 = ctx.thorough;
    for kind in 0..4 {
        for outer in 0..4 {
            // 0: time, 1: track_inprogress (gauges), 2: collector, 3: collector of the default gatherer
            if outer == 1 && kind != 1 {
                continue;
            }
            for &a in INS.iter() {
                for &b in INS.iter() {
                    for &c in if depth3 { &INS[..] } else { &INS[..1] } {
                        n += 1;
                        if !mine(n, shard, of) {
                            continue;
                        }
                        let desc = move || format!("{} of a {} whose user code does {:?}, {:?}, {:?}", ["time", "track_inprogress", "gather with a collector", "default gather with a collector"][outer], KINDS[kind], a, b, c);
                        ctx.case(&desc, |ctx| {
                            ctx.step(3);
                            ctx.state(&format!("{}{}{:?}{:?}", kind, outer, a, b));
                            alone(ctx, move || {
                                let w = if outer == 3 {
                                    default_gatherer().lock().unwrap().gather();
                                    World::on(kind, Gat::Default, default_registry())
                                } else {
                                    World::new(kind)
                                };
                                let before = w.m.total();
                                let w2 = w.clone();
                                let body = move || -> Result<(), String> {
                                    inner(&w2, a)?;
                                    inner(&w2, b)?;
                                    inner(&w2, c)
                                };
                                let bumps = [a, b, c].iter().filter(|x| **x == In::Bump).count() as f64 * 2.0;
                                match outer {
                                    0 => {
                                        w.m.time(body)?;
                                        if kind == 1 {
                                            ensure!(w.m.total() == 0.0, "gauge is {} after timing", w.m.total());
                                        } else {
                                            ensure!(w.m.total() == before + bumps, "total {} after {} and additions of {}", w.m.total(), before, bumps);
                                        }
                                    }
                                    1 => {
                                        if let Any::G(g) = &w.m {
                                            g.track_inprogress(body)?;
                                        }
                                        if !(a == In::Time || b == In::Time || c == In::Time) {
                                            ensure!(w.m.total() == before + bumps, "gauge is {} after tracking", w.m.total());
                                        }
                                    }
                                    _ => {
                                        let res: Rc<RefCell<Option<Result<(), String>>>> = Rc::default();
                                        let (r2, w3) = (res.clone(), w.clone());
                                        let calls = Rc::new(Cell::new(0));
                                        let c2 = calls.clone();
                                        register_fn(&w.reg, move || {
                                            c2.set(c2.get() + 1);
                                            if c2.get() == 1 {
                                                *r2.borrow_mut() = Some((|| {
                                                    inner(&w3, a)?;
                                                    inner(&w3, b)?;
                                                    inner(&w3, c)
                                                })());
                                                Some(vec![])
                                            } else {
                                                None
                                            }
                                        });
                                        let mut g = w.gatherer.borrow_mut().take().unwrap();
                                        let got = g.gather();
                                        *w.gatherer.borrow_mut() = Some(g);
                                        let got = totals(&got)?;
                                        ensure!(calls.get() == 1, "collector called {} times", calls.get());
                                        ensure!(got.contains_key("m"), "m is missing from the gather whose collector ran user code");
                                        res.borrow_mut().take().ok_or("collector was not called")??;
                                    }
                                }
                                settled(&w)
                            })
                        });
                    }
                }
            }
        }
    }
    if shard == 0 {
        let s = format!("all {} combinations of outer call, metric kind and {} nested actions", n, if depth3 { 3 } else { 2 });
        ctx.cover(s);
    }
}
/// The other places where the library calls the user: a writer that is printed to, the iterator a collector returns, the end
/// of a collector or of its iterator, the bounds given to a histogram.
const PLACES: [&str; 6] = ["the iterator of a collector", "the drop of the iterator of a collector", "the drop of a collector that ends", "the drop of a collector with its gatherer", "the drop of a collector never gathered", "the drop of a collector registered too late"];
struct Acts(Option<Box<dyn FnOnce()>>);
impl Acts {
    fn go(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
struct ActIter {
    next: Acts,
    drop: Acts,
    m: Option<Metric>,
}
impl Iterator for ActIter {
    type Item = Metric;
    fn next(&mut self) -> Option<Metric> {
        self.next.go();
        self.m.take()
    }
}
impl Drop for ActIter {
    fn drop(&mut self) {
        self.drop.go()
    }
}
struct ActCollector {
    calls: u32,
    next: Acts,
    iter_drop: Acts,
    drop: Acts,
    m: Metric,
}
unsafe impl Send for ActCollector {}
impl Collect for ActCollector {
    type Metrics = ActIter;
    fn collect(&mut self) -> Option<ActIter> {
        self.calls += 1;
        if self.calls == 2 {
            return None;
        }
        Some(ActIter { next: Acts(self.next.0.take()), drop: Acts(self.iter_drop.0.take()), m: Some(self.m.clone()) })
    }
}
impl Drop for ActCollector {
    fn drop(&mut self) {
        self.drop.go()
    }
}
fn c07_places(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut n = 0;
    for kind in 0..4 {
        for place in 0..PLACES.len() {
            for &a in INS.iter() {
                for &b in INS.iter() {
                    n += 1;
                    if !mine(n, shard, of) {
                        continue;
                    }
                    ctx.case(&|| format!("{} with a {}: user code does {:?}, {:?}", PLACES[place], KINDS[kind], a, b), |ctx| {
                        ctx.step(3);
                        ctx.state(&format!("place {}{}{:?}{:?}", kind, place, a, b));
                        alone(ctx, move || {
                            let w = World::new(kind);
                            let yielded = Counter::new("yielded").unwrap();
                            yielded.add_u64(7);
                            let ran: Rc<RefCell<Option<Result<(), String>>>> = Rc::default();
                            let acts = {
                                let (w, ran) = (w.clone(), ran.clone());
                                move || {
                                    let f: Box<dyn FnOnce()> = Box::new(move || {
                                        let r = inner(&w, a).and_then(|()| inner(&w, b));
                                        *ran.borrow_mut() = Some(r);
                                    });
                                    Acts(Some(f))
                                }
                            };
                            let mut c = ActCollector { calls: 0, next: Acts(None), iter_drop: Acts(None), drop: Acts(None), m: yielded.clone().into() };
                            match place {
                                0 => c.next = acts(),
                                1 => c.iter_drop = acts(),
                                _ => c.drop = acts(),
                            }
                            let (before, bumps) = (w.m.total(), [a, b].iter().filter(|x| **x == In::Bump).count() as f64 * 2.0);
                            let timed = w.m.kind() == 1 && (a == In::Time || b == In::Time);
                            if place == 5 {
                                // Its gatherer is gone.
                                drop(w.gatherer.borrow_mut().take());
                            }
                            w.reg.register(c);
                            for i in 0..if place >= 4 { 0 } else { 2 } {
                                if place == 3 && i == 1 {
                                    break;
                                }
                                let mut g = w.gatherer.borrow_mut().take().unwrap();
                                let got = g.gather();
                                *w.gatherer.borrow_mut() = Some(g);
                                let got = totals(&got)?;
                                ensure!(got.contains_key("m"), "m is missing from a gather that ran user code");
                                ensure!(got.get("yielded").copied() == if i == 0 { Some(7.0) } else { None }, "gather {} of a collector of one metric, which then ended, reports {:?}", i + 1, got);
                            }
                            if place == 3 || place == 4 {
                                let g = w.gatherer.borrow_mut().take();
                                drop(g);
                            }
                            match ran.borrow_mut().take() {
                                Some(r) => r?,
                                // When a collector nobody will gather is dropped is the library's business.
                                None if place >= 3 => return Ok(()),
                                None => return Err("the user's code was not called".into()),
                            }
                            ensure!(timed || w.m.total() == before + bumps, "total {} after {} and additions of {}", w.m.total(), before, bumps);
                            if place >= 3 {
                                w.m.bump(1.0);
                                ensure!(w.m.total() > 0.0 && prom::samples(&w.m.text()).is_ok(), "the metric is broken after its gatherer is gone");
                                return Ok(());
                            }
                            settled(&w)
                        })
                    });
                }
            }
        }
        // Writers, at every call.
        for what in 0..5 {
            for &a in INS.iter() {
                for &b in if ctx.thorough { &INS[..] } else { &INS[..1] } {
                    n += 1;
                    if !mine(n, shard, of) {
                        continue;
                    }
                    for at in 0..600 {
                        let again = Rc::new(Cell::new(false));
                        let a2 = again.clone();
                        ctx.case(&|| format!("printing {} of a {} to a writer that does {:?}, {:?} in call {}", PRINTS[what], KINDS[kind], a, b, at), |ctx| {
                            ctx.step(3);
                            ctx.state(&format!("print {}{}{:?}{:?}{}", kind, what, a, b, at));
                            alone(ctx, move || {
                                let w = World::new(kind);
                                w.m.bump(1.0);
                                w.m.bump(3.0);
                                let fs = w.gatherer.borrow_mut().as_mut().unwrap().gather();
                                let ran: Rc<RefCell<Option<Result<(), String>>>> = Rc::default();
                                let (r2, w2) = (ran.clone(), w.clone());
                                let mut p = Probe::new(at, move || {
                                    *r2.borrow_mut() = Some(inner(&w2, a).and_then(|()| inner(&w2, b)));
                                    Ok(())
                                });
                                ensure!(print(&mut p, what, &w.m, &fs).is_ok(), "printing failed though the writer did not");
                                again.set(p.calls > at);
                                if p.calls > at {
                                    ran.borrow_mut().take().ok_or("the user's code was not called")??;
                                }
                                match what {
                                    0 => drop(prom::samples(&p.text)?),
                                    3 => drop(prom::parse(&p.text)?),
                                    _ => {}
                                }
                                drop(fs);
                                settled(&w)
                            })
                        });
                        if !a2.get() {
                            break;
                        }
                    }
                }
            }
        }
    }
    // The bounds of a histogram.
    for &a in INS.iter() {
        for &b in INS.iter() {
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            ctx.case(&|| format!("bounds for a histogram from an iterator that does {:?}, {:?}", a, b), |ctx| {
                ctx.step(3);
                alone(ctx, move || {
                    let w = World::new(2);
                    let err: Rc<RefCell<Result<(), String>>> = Rc::new(RefCell::new(Ok(())));
                    let (w2, e2) = (w.clone(), err.clone());
                    let mut bu = HistogramBuilder::new("from_iterator");
                    bu.registry(w.reg.clone());
                    bu.buckets((0..3).map(move |i| {
                        if i > 0 {
                            let r = inner(&w2, if i == 1 { a } else { b });
                            if r.is_err() {
                                *e2.borrow_mut() = r;
                            }
                        }
                        i as f64
                    }));
                    let h = bu.finish().map_err(|e| e.to_string())?;
                    err.borrow().clone()?;
                    let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
                    ensure!(got == [0.0, 1.0, 2.0, f64::INFINITY], "bounds {:?}", got);
                    h.observe(1.0);
                    w.kept.borrow_mut().push(Any::H(h));
                    settled(&w)
                })
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("all {} combinations of metric kind, place of the call ({}; a writer of {}, in each of its calls; an iterator of bounds) and nested actions", n, PLACES.join(", "), PRINTS[..5].join(", ")));
    }
}
/// One thread stays inside user code until the other one has done its work: nothing the library holds may be in its way.
fn c07_stalled(ctx: &mut Ctx, shard: usize, of: usize) {
    use std::sync::mpsc::channel;
    let o = if ctx.thorough {
        Opts { full_execs: 50_000, max_preempt: 3, bounded_execs: 100_000, wall_s: 40, ..Default::default() }
    } else {
        Opts { full_execs: 800, max_preempt: 2, bounded_execs: 1_500, wall_s: 10, ..Default::default() }
    };
    let mut n = 0;
    for kind in 0..4 {
        for outer in 0..3 + 5 {
            if outer == 1 && kind != 1 {
                continue;
            }
            for &a in INS.iter() {
                for &b in if outer < 3 { &INS[..] } else { &INS[..1] } {
                    // The gatherer that runs the collector is in use; the other one is not.
                    n += 1;
                    if !mine(n, shard, of) {
                        continue;
                    }
                    let mut o = o.clone();
                    if a == In::NewDefault || b == In::NewDefault {
                        default_registry();
                        o = Opts { full_execs: 100, bounded_execs: if ctx.thorough { 2_000 } else { 100 }, forked: true, ..o };
                    }
                    let place = if outer < 3 { ["a timed closure", "a tracked closure", "a collector"][outer].to_string() } else { format!("a writer of {}", PRINTS[outer - 3]) };
                    explore(ctx, &format!("{} stays in {} while another thread does {:?}, {:?}", KINDS[kind], place, a, b), &o, &|| {
                        let w = World::new(kind);
                        // While w's gatherer is in use for the collector, a second one is gathered.
                        let g2 = Gatherer::new();
                        w.m.register(&g2.registry());
                        let g1 = w.gatherer.borrow_mut().replace(Gat::Own(g2));
                        let (in_tx, in_rx) = channel::<()>();
                        let (done_tx, done_rx) = channel::<()>();
                        let (w0, w1) = (w.clone(), w.clone());
                        let err: Rc<RefCell<Result<(), String>>> = Rc::new(RefCell::new(Ok(())));
                        let e1 = err.clone();
                        let g1 = Rc::new(RefCell::new(g1));
                        let g0 = g1.clone();
                        Exec {
                            threads: vec![
                                Box::new(move || {
                                    let wait = move || {
                                        in_tx.send(()).unwrap();
                                        done_rx.recv().unwrap();
                                    };
                                    match outer {
                                        0 => w0.m.time(wait),
                                        1 => {
                                            if let Any::G(g) = &w0.m {
                                                g.track_inprogress(wait);
                                            }
                                        }
                                        3.. => {
                                            let what = outer - 3;
                                            let mut g = g0.borrow_mut().take().unwrap();
                                            let fs = g.gather();
                                            let mut p = Probe::new(if what == 0 || what >= 3 { 3 } else { 0 }, move || {
                                                wait();
                                                Ok(())
                                            });
                                            let _ = print(&mut p, what, &w0.m, &fs);
                                            // If it was printed in fewer calls.
                                            if let Some(f) = p.f.take() {
                                                let _ = f();
                                            }
                                            *g0.borrow_mut() = Some(g);
                                        }
                                        _ => {
                                            let mut wait = Some(wait);
                                            register_fn(&w0.reg, move || {
                                                if let Some(w) = wait.take() {
                                                    w();
                                                }
                                                Some(vec![])
                                            });
                                            let mut g = g0.borrow_mut().take().unwrap();
                                            drop(g.gather());
                                            *g0.borrow_mut() = Some(g);
                                        }
                                    }
                                }),
                                Box::new(move || {
                                    in_rx.recv().unwrap();
                                    let r = inner(&w1, a).and_then(|()| inner(&w1, b));
                                    if r.is_err() {
                                        *e1.borrow_mut() = r;
                                    }
                                    done_tx.send(()).unwrap();
                                }),
                            ],
                            finish: Box::new(move || {
                                err.borrow().clone()?;
                                *w.gatherer.borrow_mut() = g1.borrow_mut().take();
                                settled(&w)?;
                                Ok(format!("{}", w.m.total()))
                            }),
                        }
                    });
                }
            }
        }
    }
}
/// Two threads, each inside a callback that uses the metrics the other one uses.
fn c07_conc(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = if ctx.thorough {
        Opts { full_execs: 100_000, max_preempt: 3, bounded_execs: 150_000, wall_s: 40, ..Default::default() }
    } else {
        Opts { full_execs: 3_000, max_preempt: 2, bounded_execs: 8_000, wall_s: 10, ..Default::default() }
    };
    let mut n = 0;
    let acts = [In::Read, In::Text, In::Bump, In::Time, In::Labels, In::New, In::NewDefault, In::DropOther];
    for kind in 0..4 {
        for oa in 0..2 {
            for &a in &acts {
                for &b in &acts {
                    n += 1;
                    if !mine(n, shard, of) {
                        continue;
                    }
                    let mut o = o.clone();
                    if a == In::NewDefault || b == In::NewDefault {
                        // The default registry keeps its history: each execution in a process of its own.
                        default_registry();
                        o = Opts { full_execs: o.full_execs.min(300), bounded_execs: o.bounded_execs.min(if ctx.thorough { 20_000 } else { 400 }), forked: true, ..o };
                    }
                    // T0: in a timed closure or in a collector under gather; T1: in a timed closure of the same metric.
                    explore(ctx, &format!("{} {}: T0 {} does {:?}; T1 timed closure does {:?}", n, KINDS[kind], ["timed closure", "collector"][oa], a, b), &o, &|| {
                        let w = World::new(kind);
                        let (w0, w1) = (w.clone(), w.clone());
                        let err: Rc<RefCell<Result<(), String>>> = Rc::new(RefCell::new(Ok(())));
                        let (e0, e1) = (err.clone(), err.clone());
                        Exec {
                            threads: vec![
                                Box::new(move || {
                                    if oa == 0 {
                                        let r = w0.m.time(|| inner(&w0, a));
                                        if r.is_err() {
                                            *e0.borrow_mut() = r;
                                        }
                                    } else {
                                        let mut g = w0.gatherer.borrow_mut().take().unwrap();
                                        let w2 = w0.clone();
                                        let mut first = true;
                                        register_fn(&w0.reg, move || {
                                            if first {
                                                first = false;
                                                let r = inner(&w2, a);
                                                if r.is_err() {
                                                    *e0.borrow_mut() = r;
                                                }
                                            }
                                            Some(vec![])
                                        });
                                        let f = g.gather();
                                        *w0.gatherer.borrow_mut() = Some(g);
                                        drop(f);
                                    }
                                }),
                                Box::new(move || {
                                    let r = w1.m.time(|| inner(&w1, b));
                                    if r.is_err() {
                                        *e1.borrow_mut() = r;
                                    }
                                }),
                            ],
                            finish: Box::new(move || {
                                err.borrow().clone()?;
                                if let Some(n) = w.m.events() {
                                    let want = (if oa == 0 { 2 } else { 1 }) + [a, b].iter().filter(|x| **x == In::Bump || **x == In::Time).count() as u64;
                                    ensure!(n == want, "{} observations instead of {}", n, want);
                                }
                                settled(&w)?;
                                Ok(format!("{}", w.m.total()))
                            }),
                        }
                    });
                }
            }
        }
    }
}

// ---- F01 -----------------------------------------------------------------------------------------------------------
struct Payload(u32);
fn boom(n: u32) -> ! {
    std::panic::panic_any(Payload(n))
}
/// The panic of user code must arrive at the caller as it was thrown.
fn catch_payload<R>(n: u32, f: impl FnOnce() -> R) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(_) => Err("the panic of the user's code did not reach the caller".into()),
        Err(p) => match p.downcast_ref::<Payload>() {
            Some(Payload(m)) if *m == n => Ok(()),
            _ => Err(format!("another panic arrived at the caller: {}", crate::work::last_panic())),
        },
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum FO {
    Bump,
    TimeOk,
    TimePanic,
    TrackOk,
    TrackPanic,
    TrackNestPanic, // inner section panics and is caught inside the outer one
    TrackBothPanic, // panic passes through two sections
    Read,
}
const FOPS: [FO; 8] = [FO::Bump, FO::TimePanic, FO::TrackPanic, FO::Read, FO::TimeOk, FO::TrackOk, FO::TrackNestPanic, FO::TrackBothPanic];
fn f01_metric(ctx: &mut Ctx, shard: usize, of: usize) {
    let depth = if ctx.thorough { 5 } else { 4 };
    let mut cases = 0;
    for kind in 0..4 {
        seqs_shard(FOPS.len(), 1, depth, shard, of, |s| {
            let ops: Vec<FO> = s.iter().map(|&i| FOPS[i]).collect();
            if kind != 1 && ops.iter().any(|o| matches!(o, FO::TrackOk | FO::TrackPanic | FO::TrackNestPanic | FO::TrackBothPanic)) {
                return;
            }
            cases += 1;
            let o2 = ops.clone();
            ctx.case(&move || format!("{}: {:?}", KINDS[kind], o2), |ctx| {
                rt::set_clock(1_000_000_000_000, 1_600_000_000_000_000_000);
                let mut g = Gatherer::new();
                let m = Any::build(kind, "m", &[], Some(&g.registry()));
                let bystander = Any::build(0, "x", &[], Some(&g.registry()));
                bystander.bump(5.0);
                // Reference: value (total), events between lo and hi because a panicking timer may record or not.
                let (mut v, mut n) = (0.0f64, 0u64);
                let mut slack: Vec<f64> = vec![];
                for (k, o) in ops.iter().enumerate() {
                    ctx.step(1);
                    match o {
                        FO::Bump => {
                            m.bump(4.0);
                            v += 4.0;
                            n += 1;
                        }
                        FO::TimeOk => {
                            let r = m.time(|| {
                                rt::advance(500_000_000);
                                k
                            });
                            ensure!(r == k, "the closure's result was not returned");
                            n += 1;
                            v = if kind == 1 { 0.5 } else { v + 0.5 };
                        }
                        FO::TimePanic => {
                            let (e0, t0) = (m.events(), m.total());
                            catch_payload(k as u32, || m.time(|| {
                                rt::advance(250_000_000);
                                boom(k as u32)
                            }))?;
                            // Recorded completely or not at all.
                            let (e1, t1) = (m.events(), m.total());
                            let done = if kind == 1 { 0.25 } else { t0 + 0.25 };
                            let rec = t1 == done && e1.map(|e| e - 1) == e0;
                            let not = t1 == t0 && e1 == e0;
                            ensure!(rec || not, "a timer whose closure panicked left total {} -> {}, events {:?} -> {:?}", t0, t1, e0, e1);
                            if rec && !not {
                                slack.push(0.25);
                                n += 1;
                                v = t1;
                            }
                        }
                        FO::TrackOk => {
                            if let Any::G(g) = &m {
                                ensure!(g.track_inprogress(|| g.value()) == v + 1.0, "inside a tracked section the gauge does not show it");
                            }
                        }
                        FO::TrackPanic => {
                            if let Any::G(g) = &m {
                                catch_payload(k as u32, || g.track_inprogress(|| boom(k as u32)))?;
                            }
                        }
                        FO::TrackNestPanic => {
                            if let Any::G(g) = &m {
                                let r = g.track_inprogress(|| {
                                    let r = catch_payload(k as u32, || g.track_inprogress(|| boom(k as u32)));
                                    (r, g.value())
                                });
                                r.0?;
                                ensure!(r.1 == v + 1.0, "after an inner section panicked the gauge is {} instead of {}", r.1, v + 1.0);
                            }
                        }
                        FO::TrackBothPanic => {
                            if let Any::G(g) = &m {
                                catch_payload(k as u32, || g.track_inprogress(|| g.track_inprogress(|| boom(k as u32))))?;
                            }
                        }
                        FO::Read => drop(m.text()),
                    }
                    ctx.state(&format!("{}{}{}", kind, v, n));
                    ensure!(m.total() == v, "after {:?} the total is {} instead of {}", &ops[..=k], m.total(), v);
                    if let Some(e) = m.events() {
                        ensure!(e == n, "after {:?} there are {} observations instead of {}", &ops[..=k], e, n);
                    }
                    prom::samples(&m.text())?;
                }
                let f = totals(&g.gather())?;
                ensure!(f == [("m".to_string(), v), ("x".to_string(), 5.0)].into_iter().collect(), "gather reports {:?}", f);
                if let Any::S(s) = &m {
                    // Each observation is whole: it is also in the samples.
                    let q = s.quantiles();
                    ensure!(q.is_empty() == (n == 0), "quantiles {:?} with {} observations", q.len(), n);
                }
                if let Any::H(h) = &m {
                    let c: u64 = h.buckets().iter().map(|b| b.count()).sum();
                    ensure!(c == n, "buckets hold {} of {} observations", c, n);
                }
                Ok(())
            });
        });
    }
    ctx.cover(format!("{} histories of up to {} operations with panicking user code", cases, depth));
}
/// Collectors that panic: at every position, once or repeatedly, before and after yielding metrics.
fn f01_gather(ctx: &mut Ctx, shard: usize, of: usize) {
    // Up to 4 collectors; each is a metric's own collector ('m'), a good custom one ('g'), one that ends ('e'),
    // one that panics in its first call ('p'), in its second ('q'), while yielding its metrics ('i'), when the iterator is
    // dropped ('x'), or when it has ended and is dropped ('d').
    let alphabet = [b'm', b'g', b'e', b'p', b'q', b'i', b'x', b'd'];
    let len = if ctx.thorough { 5 } else { 4 };
    let mut cases = 0;
    seqs_shard(alphabet.len(), 1, len, shard, of, |s| {
        let w: Vec<u8> = s.iter().map(|&i| alphabet[i]).collect();
        for late in 0..2 {
            cases += 1;
            let w2 = w.clone();
            ctx.case(&move || format!("collectors {:?} late {}", String::from_utf8_lossy(&w2), late), |ctx| {
                ctx.state(&format!("{:?}", w));
                struct Iffy(u32, bool, Option<Metric>, bool);
                impl Drop for Iffy {
                    fn drop(&mut self) {
                        if self.3 {
                            boom(self.0)
                        }
                    }
                }
                impl Iterator for Iffy {
                    type Item = Metric;
                    fn next(&mut self) -> Option<Metric> {
                        if self.1 && self.2.is_none() {
                            self.1 = false;
                            boom(self.0)
                        }
                        self.2.take()
                    }
                }
                struct Dropped(u32);
                impl Drop for Dropped {
                    fn drop(&mut self) {
                        boom(self.0)
                    }
                }
                struct IffyC(u32, Rc<Cell<u32>>, Gauge, bool);
                unsafe impl Send for IffyC {}
                impl Collect for IffyC {
                    type Metrics = Iffy;
                    fn collect(&mut self) -> Option<Iffy> {
                        self.1.set(self.1.get() + 1);
                        let first = self.1.get() == 1;
                        Some(Iffy(self.0, first && !self.3, Some(self.2.clone().into()), first && self.3))
                    }
                }
                let mut g = Gatherer::new();
                let reg = g.registry();
                let names = ["a", "b", "c", "d", "e", "f"];
                let mut keep: Vec<Any> = vec![];
                let calls: Vec<Rc<Cell<u32>>> = w.iter().map(|_| Rc::new(Cell::new(0))).collect();
                let mut want: BTreeMap<String, f64> = BTreeMap::new();
                let mut add = |k: usize| {
                    let c = w[k];
                    let m = Any::build(k % 4, names[k], &[], if c == b'm' { Some(&reg) } else { None });
                    m.bump(amount(k));
                    let (n, mm) = (calls[k].clone(), m.metric());
                    match c {
                        b'm' => {}
                        b'd' => {
                            let d = Dropped(k as u32);
                            register_fn(&reg, move || {
                                let _ = &d;
                                n.set(n.get() + 1);
                                if n.get() == 2 { None } else { Some(vec![mm.clone()]) }
                            })
                        }
                        b'i' | b'x' => {
                            let ga = Gauge::new(names[k]).unwrap();
                            ga.set(amount(k));
                            reg.register(IffyC(k as u32, n, ga, c == b'x'));
                        }
                        _ => register_fn(&reg, move || {
                            n.set(n.get() + 1);
                            match (c, n.get()) {
                                (b'p', 1) | (b'q', 2) => boom(k as u32),
                                (b'e', 2) => None,
                                _ => Some(vec![mm.clone()]),
                            }
                        }),
                    }
                    if c != b'e' && c != b'd' {
                        want.insert(names[k].to_string(), amount(k));
                    }
                    keep.push(m);
                };
                let last = w.len() - 1;
                for k in 0..last + 1 - late {
                    add(k);
                }
                let mut late_left = late == 1;
                // Gather until all panics have happened; each must arrive unchanged.
                let mut panics = 0;
                let mut quiet = 0;
                for _ in 0..20 {
                    ctx.step(1);
                    let r = caught(|| totals(&g.gather()));
                    match r {
                        Err(()) => panics += 1,
                        Ok(r) => {
                            r?;
                            quiet += 1;
                        }
                    }
                    if late_left {
                        // Registered after a gather that may have been cut short.
                        add(last);
                        late_left = false;
                        quiet = 0;
                    }
                    if quiet >= 4 {
                        break;
                    }
                }
                ensure!(quiet >= 4, "gathering never recovers after a collector panicked");
                let expected = w.iter().filter(|c| matches!(c, b'p' | b'q' | b'i' | b'x' | b'd')).count();
                ensure!(panics == expected, "{} panics arrived at the caller instead of {}", panics, expected);
                let got = totals(&g.gather())?;
                ensure!(got == want, "after the panics a gather reports {:?} instead of {:?}", got, want);
                for (k, c) in w.iter().enumerate() {
                    if *c == b'e' || *c == b'd' {
                        ensure!(calls[k].get() == 2, "an ended collector was called {} times", calls[k].get());
                    }
                }
                Ok(())
            });
        }
    });
    ctx.cover(format!("{} arrangements of up to {} collectors", cases, len));
}
/// A writer of the user's that fails or panics in each of its calls; an iterator of bounds that panics.
fn f01_writer(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut n = 0;
    let depth = if ctx.thorough { 3 } else { 2 };
    for kind in 0..4 {
        for what in 0..PRINTS.len() {
            for panics in [false, true] {
                for labels in 0..3usize {
                    for (pre, stamped) in (0..depth).flat_map(|p| [(p, false), (p, true)]) {
                        n += 1;
                        if !mine(n, shard, of) {
                            continue;
                        }
                        let mut at = 0;
                        let mut end = 1;
                        while at < end && at < 600 {
                            let calls = Rc::new(Cell::new(0));
                            let c2 = calls.clone();
                            ctx.case(&|| format!("a writer that {} in call {} while {} of a {} is printed ({} labels, {} events{})", if panics { "panics" } else { "fails" }, at, PRINTS[what], KINDS[kind], labels, pre, if stamped { ", timestamp" } else { "" }), |ctx| {
                                ctx.step(2);
                                ctx.state(&format!("writer {} {} {} {} {} {} {}", kind, what, panics, labels, pre, stamped, at));
                                alone(ctx, move || {
                                    let mut g = Gatherer::new();
                                    let ls = [("a", "x\"y"), ("b", "1")];
                                    let m = Any::build(kind, "m", &ls[..labels], Some(&g.registry()));
                                    let by = Any::build(0, "x", &[], Some(&g.registry()));
                                    by.bump(5.0);
                                    for i in 0..pre {
                                        m.bump(1.0 + i as f64);
                                    }
                                    if stamped {
                                        m.timestamp_mut().set(123);
                                    }
                                    let fs = g.gather();
                                    let mut whole = Probe::new(usize::MAX, || Ok(()));
                                    ensure!(print(&mut whole, what, &m, &fs).is_ok(), "printing failed");
                                    c2.set(whole.calls);
                                    drop(whole.f.take());
                                    let whole = whole.text;
                                    let mut p = Probe::new(at, move || if panics { boom(7) } else { Err(std::fmt::Error) });
                                    if panics {
                                        let r = catch_payload(7, || print(&mut p, what, &m, &fs));
                                        if p.calls > at {
                                            r?
                                        }
                                    } else {
                                        let r = print(&mut p, what, &m, &fs);
                                        ensure!(r.is_err() == (p.calls > at), "the writer {}, printing returned {:?}", if p.calls > at { "failed" } else { "did not fail" }, r);
                                    }
                                    if what < 5 {
                                        ensure!(whole.starts_with(&p.text), "what was written before the failure, {:?}, is not the beginning of {:?}", p.text, whole);
                                    }
                                    // Nothing has changed, and all of it still works.
                                    let mut again = String::new();
                                    ensure!(print(&mut again, what, &m, &fs).is_ok() && (what == 5 || again == whole), "printed again after the failure: {:?} instead of {:?}", again, whole);
                                    let t = m.total();
                                    m.bump(2.0);
                                    ensure!(m.total() == t + 2.0, "after the failure adding 2 to {} gives {}", t, m.total());
                                    ensure!(m.events().map_or(true, |e| e == pre as u64 + 1), "after the failure there are {:?} events", m.events());
                                    m.clone().labels_mut().insert("c", "2").map_err(|e| e.to_string())?;
                                    prom::samples(&m.text())?;
                                    let f = totals(&g.gather())?;
                                    ensure!(f == [("m".to_string(), m.total()), ("x".to_string(), 5.0)].into_iter().collect(), "gather reports {:?}", f);
                                    Ok(())
                                })
                            });
                            end = calls.get();
                            at += 1;
                        }
                    }
                }
            }
        }
    }
    // A panic among the bounds given to a builder: the builder and everything else goes on.
    let vals = [1.0, 3.0, f64::INFINITY, -2.0, 3.0];
    for pre in 0..3usize {
        for len in 0..=vals.len() {
            for boom_at in 0..=len {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                ctx.case(&|| format!("builder with {} bounds given an iterator of {} that panics at {}", pre, len, boom_at), |ctx| {
                    ctx.step(2);
                    ctx.state(&format!("bounds {} {} {}", pre, len, boom_at));
                    let mut g = Gatherer::new();
                    let mut b = HistogramBuilder::new("h");
                    b.registry(g.registry());
                    for i in 0..pre {
                        b.bucket(10.0 + i as f64);
                    }
                    catch_payload(3, || {
                        b.buckets((0..len + 1).map(|i| if i == boom_at { boom(3) } else { vals[i] }));
                    })?;
                    b.bucket(20.0);
                    let h = b.finish().map_err(|e| e.to_string())?;
                    let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
                    // The bounds that came before the panic may be there or not.
                    let must: Vec<f64> = (0..pre).map(|i| 10.0 + i as f64).chain([20.0, f64::INFINITY]).collect();
                    let may: Vec<f64> = vals[..boom_at].to_vec();
                    ensure!(must.iter().all(|x| got.contains(x)) && got.iter().all(|x| must.contains(x) || may.contains(x)) && got.windows(2).all(|w| w[0] < w[1]), "bounds {:?}, given {:?} and, before the panic, {:?}", got, must, may);
                    h.observe(15.0);
                    let f = totals(&g.gather())?;
                    ensure!(f == [("h".to_string(), 15.0)].into_iter().collect(), "gather reports {:?}", f);
                    Ok(())
                });
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("{} situations with a writer that fails or panics in each of its calls ({}), or an iterator of bounds that panics", n, PRINTS.join(", ")));
    }
}
/// Very many panics, and one panic at every position of a crowd.
fn f01_pump(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut idx = 0;
    let mut ns = pumps(ctx.thorough).to_vec();
    ns.extend([2049, 5001]);
    // One metric: n timed or tracked closures panic, then everything is as before.
    for kind in 0..4 {
        for &n in &ns {
            for deep in [false, true] {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{}: {} closures panic, {}", KINDS[kind], n, if deep { "nested up to 3 deep" } else { "one after the other" }), |ctx| {
                    ctx.step(n as u64);
                    ctx.state(&format!("{} {} {}", kind, n, deep));
                    rt::set_clock(1_000_000_000_000, 1_600_000_000_000_000_000);
                    let mut g = Gatherer::new();
                    let m = Any::build(kind, "m", &[], Some(&g.registry()));
                    m.bump(4.0);
                    for i in 0..n {
                        let (e0, t0) = (m.events(), m.total());
                        let depth = if deep { i % 3 + 1 } else { 1 };
                        fn go(m: &Any, d: usize, i: u32) {
                            if d == 0 {
                                rt::advance(250_000_000);
                                boom(i)
                            }
                            m.time(|| go(m, d - 1, i))
                        }
                        catch_payload(i as u32, || go(&m, depth, i as u32))?;
                        let (e1, t1) = (m.events(), m.total());
                        let rec = e1.unwrap_or(0) - e0.unwrap_or(0);
                        let worth = if kind == 1 { t1 == t0 || t1 == 0.25 } else { (t1 - t0) % 0.25 == 0.0 && t1 >= t0 && t1 - t0 <= 0.25 * depth as f64 };
                        ensure!(worth && rec <= depth as u64 && (kind < 2 || rec as f64 * 0.25 == t1 - t0), "panic {} in {} timers changed the total from {} to {} and the observations from {:?} to {:?}", i + 1, depth, t0, t1, e0, e1);
                    }
                    if let Any::G(ga) = &m {
                        ga.set(4.0);
                        for i in 0..n {
                            fn go(g: &Gauge, d: usize, i: u32) {
                                if d == 0 {
                                    boom(i)
                                }
                                g.track_inprogress(|| go(g, d - 1, i))
                            }
                            catch_payload(i as u32, || go(ga, if deep { i % 3 + 1 } else { 1 }, i as u32))?;
                            ensure!(ga.value() == 4.0, "after {} panics in tracked sections the gauge is {}", i + 1, ga.value());
                            ensure!(ga.track_inprogress(|| ga.value()) == 5.0 && ga.value() == 4.0, "after {} panics tracking is off", i + 1);
                        }
                    }
                    let (e, t) = (m.events(), m.total());
                    m.time(|| rt::advance(500_000_000));
                    ensure!(m.events() == e.map(|e| e + 1) && m.total() == if kind == 1 { 0.5 } else { t + 0.5 }, "after {} panics a timer changes the total from {} to {}", n, t, m.total());
                    let got = totals(&g.gather())?;
                    ensure!(got == [("m".to_string(), m.total())].into_iter().collect(), "after {} panics a gather reports {:?}", n, got);
                    Ok(())
                });
            }
        }
    }
    // A crowd of collectors: those at p and at p + step panic in one or several gathers; or one panics very often.
    for n in if ctx.thorough { vec![8usize, 17, 33, 65, 130] } else { vec![8usize, 33, 70] } {
        for p in 0..n {
            for step in [0usize, 1, 7, n / 2] {
                for yielding in [false, true] {
                    idx += 1;
                    if !mine(idx, shard, of) {
                        continue;
                    }
                    if !ctx.size(n) {
                        continue;
                    }
                    ctx.case(&|| format!("{} collectors, those at {} and {} panic {}", n, p, (p + step) % n, if yielding { "while yielding" } else { "when called" }), |ctx| crowd(ctx, n, &[p, (p + step) % n], 2, yielding));
                }
            }
        }
    }
    for &n in ns.iter().filter(|n| **n > 2) {
        idx += 1;
        if mine(idx, shard, of) {
            if !ctx.size(n) {
                continue;
            }
            ctx.case(&|| format!("one of 5 collectors panics in {} gathers", n), |ctx| crowd(ctx, 5, &[2], n, n % 2 == 1));
        }
    }
    if shard == 0 {
        ctx.cover(format!("up to {} panics in a row; a panic at every position among up to {} collectors", ns.last().unwrap(), if ctx.thorough { 130 } else { 70 }));
    }
}
/// Of `n` collectors (every third a metric's own, among them metrics that die meanwhile) those at `bad` panic in each of their first `times` calls.
fn crowd(ctx: &mut Ctx, n: usize, bad: &[usize], times: usize, yielding: bool) -> Result<(), String> {
    struct Boom(bool, Option<Metric>);
    impl Iterator for Boom {
        type Item = Metric;
        fn next(&mut self) -> Option<Metric> {
            if self.0 && self.1.is_none() {
                boom(7)
            }
            self.1.take()
        }
    }
    struct C(usize, Rc<Cell<usize>>, bool, bool, Gauge);
    unsafe impl Send for C {}
    impl Collect for C {
        type Metrics = Boom;
        fn collect(&mut self) -> Option<Boom> {
            self.1.set(self.1.get() + 1);
            let now = self.2 && self.1.get() <= self.0;
            if now && !self.3 {
                boom(7)
            }
            Some(Boom(now, Some(self.4.clone().into())))
        }
    }
    ctx.step((n + times) as u64);
    ctx.state(&format!("{} {:?} {} {}", n, bad, times, yielding));
    let mut g = Gatherer::new();
    let reg = g.registry();
    let mut keep = vec![];
    let mut dying = vec![];
    let mut want: BTreeMap<String, f64> = BTreeMap::new();
    for i in 0..n {
        let name = format!("m{}", i);
        if !bad.contains(&i) && i % 3 == 0 {
            let m = Any::build(i % 4, &name, &[], Some(&reg));
            m.bump(1.0 + i as f64);
            if i % 2 == 0 {
                dying.push(m);
                continue;
            }
            keep.push(m);
        } else {
            let ga = Gauge::new(&name).map_err(|e| e.to_string())?;
            ga.set(1.0 + i as f64);
            reg.register(C(times, Rc::new(Cell::new(0)), bad.contains(&i), yielding, ga));
        }
        want.insert(name, 1.0 + i as f64);
    }
    let mut distinct = bad.to_vec();
    distinct.dedup();
    let mut panics = 0;
    for round in 0..times * distinct.len() + 3 {
        if round == 1 {
            dying.clear();
            // Registered after the first panic.
            let m = Any::build(0, "late", &[], Some(&reg));
            m.bump(0.5);
            want.insert("late".into(), 0.5);
            keep.push(m);
        }
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.gather())) {
            Ok(f) => {
                let got = totals(&f)?;
                ensure!(panics >= times, "a gather returned although a collector panics");
                if round > 0 && panics == times * distinct.len() {
                    ensure!(got == want, "after {} panics a gather reports {:?} instead of {:?}", panics, got, want);
                }
            }
            Err(p) => {
                ensure!(matches!(p.downcast_ref::<Payload>(), Some(Payload(7))), "another panic arrived at the caller: {}", crate::work::last_panic());
                panics += 1;
            }
        }
    }
    ensure!(panics == times * distinct.len(), "{} panics arrived instead of {}", panics, times * distinct.len());
    let got = totals(&g.gather())?;
    ensure!(got == want, "after {} panics a gather reports {:?} instead of {:?}", panics, got, want);
    Ok(())
}
/// A collector that panics while the default gatherer is locked.
fn f01_default(ctx: &mut Ctx, _s: usize, _o: usize) {
    ctx.case(&|| "a collector of the default gatherer panics under its lock".to_string(), |ctx| {
        ctx.step(6);
        alone(ctx, || {
            let a = AnyB::new(0, "a").default_registry().finish().map_err(|e| e.to_string())?;
            a.bump(1.0);
            let mut armed = true;
            register_fn(&default_registry(), move || {
                if std::mem::replace(&mut armed, false) {
                    boom(1)
                }
                Some(vec![])
            });
            catch_payload(1, || {
                let mut g = default_gatherer().lock().unwrap_or_else(|e| e.into_inner());
                g.gather();
            })?;
            // The metrics registered before and after the panic are both reported (the user steps over the poison).
            let b = AnyB::new(1, "b").default_registry().finish().map_err(|e| e.to_string())?;
            b.bump(2.0);
            let c = MetricBuilder::new().counter("c").finish().map_err(|e| e.to_string())?;
            c.increment();
            let f = default_gatherer().lock().unwrap_or_else(|e| e.into_inner()).gather();
            let got = totals(&f)?;
            let want: BTreeMap<String, f64> = [("a".to_string(), 1.0), ("b".to_string(), 2.0), ("c".to_string(), 1.0)].into_iter().collect();
            ensure!(got == want, "after a collector panicked the default gatherer reports {:?} instead of {:?}", got, want);
            Ok(())
        })
    });
}
/// A thread whose user code panics while another one uses the same metric.
fn f01_conc(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = if ctx.thorough { Opts { full_execs: 100_000, max_preempt: 3, bounded_execs: 100_000, wall_s: 40, ..Default::default() } } else { Opts { full_execs: 10_000, max_preempt: 2, bounded_execs: 10_000, wall_s: 10, ..Default::default() } };
    let mut n = 0;
    for kind in 0..4 {
        for act in 0..3 {
            for other in 0..4 {
                // (A gauge's timer sets it, which the section's decrement may follow.)
                if act == 1 && (kind != 1 || other == 3) {
                    continue;
                }
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                explore(ctx, &format!("{} T0 panics in {}, T1 {}", KINDS[kind], ["time", "track_inprogress", "a collector"][act], ["bumps", "reads", "gathers", "times"][other]), &o, &|| {
                    let w = World::new(kind);
                    let (w0, w1) = (w.clone(), w.clone());
                    let err: Rc<RefCell<Result<(), String>>> = Rc::new(RefCell::new(Ok(())));
                    let e0 = err.clone();
                    let g2 = Rc::new(RefCell::new(Gatherer::new()));
                    w.m.register(&g2.borrow().registry());
                    Exec {
                        threads: vec![
                            Box::new(move || {
                                let r = match act {
                                    0 => catch_payload(1, || w0.m.time(|| boom(1))),
                                    1 => match &w0.m {
                                        Any::G(g) => catch_payload(1, || g.track_inprogress(|| boom(1))),
                                        _ => Ok(()),
                                    },
                                    _ => {
                                        let mut first = true;
                                        register_fn(&w0.reg, move || {
                                            if std::mem::replace(&mut first, false) {
                                                boom(1)
                                            }
                                            Some(vec![])
                                        });
                                        let mut g = w0.gatherer.borrow_mut().take().unwrap();
                                        let r = catch_payload(1, || g.gather());
                                        *w0.gatherer.borrow_mut() = Some(g);
                                        r
                                    }
                                };
                                *e0.borrow_mut() = r;
                            }),
                            Box::new(move || match other {
                                0 => w1.m.bump(4.0),
                                1 => drop(w1.m.text()),
                                2 => drop(g2.borrow_mut().gather().to_text()),
                                _ => w1.m.time(|| ()),
                            }),
                        ],
                        finish: Box::new(move || {
                            err.borrow().clone()?;
                            let want = if other == 0 { 4.0 } else { 0.0 };
                            // A panicking or plain timer may have set the gauge to its duration (0 here).
                            let timed = kind == 1 && (act == 0 || other == 3);
                            ensure!(w.m.total() == want || (timed && w.m.total() == 0.0), "total {} instead of {}", w.m.total(), want);
                            settled(&w)?;
                            Ok(format!("{} {:?}", w.m.total(), w.m.events()))
                        }),
                    }
                });
            }
        }
    }
}

// ---- G02 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum LOp {
    Make(usize, u8), // metric slot, mask of gatherers
    Clone(usize),
    Drop(usize),
    Custom(usize, usize), // custom collector slot, gatherer
    End(usize),
    Gather(usize),
    DropGatherer(usize),
    Bump(usize),
    AddReg(usize, usize), // an existing metric is registered with a gatherer
}
struct LModel {
    // per slot: handles, gatherers it is registered with, total
    h: [u32; 2],
    reg: [[u32; 2]; 2],
    total: [f64; 2],
    custom: [Option<(usize, u32, bool)>; 2], // gatherer, calls expected, ended
    custom_dropped: [bool; 2],
    alive: [bool; 2],
}
fn g02(ctx: &mut Ctx, shard: usize, of: usize) {
    use LOp::*;
    let ops = [Make(0, 1), Gather(0), Drop(0), Custom(0, 0), End(0), Clone(0), Make(1, 3), Gather(1), Drop(1), Custom(1, 0), End(1), Bump(1), DropGatherer(0), AddReg(0, 1)];
    let depth = if ctx.thorough { 6 } else { 5 };
    let mut cases = 0u64;
    for kind in 0..(if ctx.thorough { 2 } else { 1 }) {
        seqs_shard(ops.len(), depth, depth, shard, of, |s| {
            // Checked after every operation, so shorter histories are covered as prefixes.
            let seq: Vec<LOp> = s.iter().map(|&i| ops[i]).collect();
            if !matches!(seq[0], Make(..) | Custom(..)) {
                return;
            }
            cases += 1;
            ctx.case(&|| format!("kind {} {:?}", kind, seq), |ctx| lifecycle(ctx, kind, &seq));
        });
    }
    ctx.cover(format!("{} histories of {} operations (14 operations)", cases, depth));
}
fn lifecycle(ctx: &mut Ctx, kind: usize, seq: &[LOp]) -> Result<(), String> {
    use LOp::*;
    let mut gs: [Option<Gatherer>; 2] = [Some(Gatherer::new()), Some(Gatherer::new())];
    let regs: Vec<Registry> = gs.iter().map(|g| g.as_ref().unwrap().registry()).collect();
    let mut handles: [Vec<Any>; 2] = [vec![], vec![]];
    let mut gen = [0usize; 2];
    let mut m = LModel { h: [0; 2], reg: [[0; 2]; 2], total: [0.0; 2], custom: [None; 2], custom_dropped: [false; 2], alive: [true; 2] };
    let calls: Vec<Rc<Cell<u32>>> = (0..2).map(|_| Rc::new(Cell::new(0))).collect();
    let ended: Vec<Rc<Cell<bool>>> = (0..2).map(|_| Rc::new(Cell::new(false))).collect();
    let dropped: Vec<Rc<Cell<u32>>> = (0..2).map(|_| Rc::new(Cell::new(0))).collect();
    let names = [["a0", "a1", "a2", "a3", "a4", "a5"], ["b0", "b1", "b2", "b3", "b4", "b5"]];
    for (k, o) in seq.iter().enumerate() {
        ctx.step(1);
        match *o {
            Make(i, mask) => {
                if !handles[i].is_empty() {
                    continue;
                }
                gen[i] += 1;
                let mut b = AnyB::new((kind * 2 + i) % 4, names[i][gen[i] - 1]);
                m.reg[i] = [0; 2];
                for g in 0..2 {
                    if mask & (1 << g) != 0 {
                        b.registry(regs[g].clone());
                        m.reg[i][g] = 1;
                    }
                }
                handles[i].push(b.std().finish().unwrap());
                handles[i][0].bump(amount(i));
                m.total[i] = amount(i);
                m.h[i] = 1;
            }
            Clone(i) => {
                if let Some(x) = handles[i].first().cloned() {
                    handles[i].push(x);
                    m.h[i] += 1;
                }
            }
            Drop(i) => {
                if handles[i].pop().is_some() {
                    m.h[i] -= 1;
                }
            }
            Bump(i) => {
                if let Some(x) = handles[i].last() {
                    x.bump(8.0);
                    m.total[i] += 8.0;
                }
            }
            AddReg(i, g) => {
                if m.reg[i][g] > 0 {
                    continue;
                }
                if let Some(x) = handles[i].last() {
                    x.register(&regs[g]);
                    m.reg[i][g] = 1;
                }
            }
            Custom(c, g) => {
                if m.custom[c].is_some() {
                    continue;
                }
                let (n, e, d) = (calls[c].clone(), ended[c].clone(), OnDrop(dropped[c].clone()));
                let gauge = Gauge::new(["x", "y"][c]).unwrap();
                register_fn(&regs[g], move || {
                    let _keep = &d;
                    n.set(n.get() + 1);
                    gauge.set(n.get() as f64);
                    if e.get() {
                        None
                    } else {
                        Some(vec![gauge.clone().into()])
                    }
                });
                m.custom[c] = Some((g, 0, false));
            }
            End(c) => {
                ended[c].set(true);
            }
            DropGatherer(g) => {
                gs[g] = None;
                m.alive[g] = false;
            }
            Gather(g) => {
                let ga = match gs[g].as_mut() {
                    Some(x) => x,
                    None => continue,
                };
                let got = {
                    let f = ga.gather();
                    totals(&f)?
                };
                let mut want = BTreeMap::new();
                for i in 0..2 {
                    if m.h[i] > 0 && m.reg[i][g] > 0 {
                        want.insert(names[i][gen[i] - 1].to_string(), m.total[i]);
                    }
                }
                for c in 0..2 {
                    if let Some((cg, n, done)) = m.custom[c].as_mut() {
                        if *cg == g && !*done {
                            *n += 1;
                            if ended[c].get() {
                                *done = true;
                                m.custom_dropped[c] = true;
                            } else {
                                want.insert(["x", "y"][c].to_string(), *n as f64);
                            }
                        }
                    }
                }
                ensure!(got == want, "after {:?} gatherer {} reports {:?} instead of {:?}", &seq[..=k], g, got, want);
            }
        }
        for c in 0..2 {
            if let Some((cg, n, done)) = m.custom[c] {
                ensure!(calls[c].get() == n, "after {:?} custom collector {} was called {} times instead of {}", &seq[..=k], c, calls[c].get(), n);
                if done && m.alive[cg] {
                    ensure!(dropped[c].get() == 1, "after {:?} the collector that reported its end was not dropped", &seq[..=k]);
                }
                ensure!(dropped[c].get() <= 1 && (done || !m.alive[cg] || dropped[c].get() == 0), "after {:?} a living collector was dropped", &seq[..=k]);
            }
        }
        ctx.state(&format!("{:?}{:?}{:?}{:?}", m.h, m.reg, m.custom, m.alive));
    }
    Ok(())
}
/// Many metrics and collectors: limits that short histories do not reach.
fn g02_pump(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut ns = pumps(ctx.thorough).to_vec();
    ns.extend(if ctx.thorough { vec![4097, 10_001, 65_537] } else { vec![4097, 10_001] });
    let mut idx = 0;
    for &n in &ns {
        for &gathers in &[0usize, 1, 3] {
            if n > 5000 && gathers == 1 {
                continue;
            }
            for pattern in 0..6 {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{} metrics, {} gathers in between, drop pattern {}", n, gathers, pattern), |ctx| {
                    ctx.step(n as u64);
                    ctx.state(&format!("{} {} {}", n, gathers, pattern));
                    let mut g = Gatherer::new();
                    let reg = g.registry();
                    let mut keep: Vec<Option<Any>> = Vec::new();
                    let counts: Rc<RefCell<Vec<u32>>> = Rc::new(RefCell::new(vec![0; n]));
                    for i in 0..n {
                        let name = format!("m{}", i);
                        let m = Any::build(i % 4, &name, &[], Some(&reg));
                        m.bump(1.0);
                        keep.push(Some(m));
                        let c2 = counts.clone();
                        register_fn(&reg, move || {
                            c2.borrow_mut()[i] += 1;
                            Some(vec![])
                        });
                    }
                    for _ in 0..gathers {
                        g.gather();
                    }
                    for i in 0..n {
                        let gone = match pattern {
                            0 => false,
                            1 => i % 2 == 0,
                            2 => i % 2 == 1,
                            3 => i < n / 2,
                            4 => i >= n / 2,
                            _ => true,
                        };
                        if gone {
                            keep[i] = None;
                        }
                    }
                    for round in 1..=2u32 {
                        let f = g.gather();
                        let got = totals(&f)?;
                        let want: BTreeMap<String, f64> = keep.iter().enumerate().filter(|x| x.1.is_some()).map(|x| (format!("m{}", x.0), 1.0)).collect();
                        if got != want {
                            let miss: Vec<_> = want.keys().filter(|k| !got.contains_key(*k)).take(5).collect();
                            let extra: Vec<_> = got.keys().filter(|k| !want.contains_key(*k)).take(5).collect();
                            return Err(format!("gather {}: missing {:?}, unexpected {:?}", round, miss, extra));
                        }
                        let cs = counts.borrow();
                        ensure!(cs.iter().all(|c| *c == gathers as u32 + round), "custom collectors were not each called once per gather");
                    }
                    Ok(())
                });
            }
        }
    }
    ctx.cover(format!("up to {} metrics and as many custom collectors, 6 drop patterns", ns.last().unwrap()));
}
/// Very many registrations waiting for one gathering, dead and ended ones among them.
fn g02_flood(ctx: &mut Ctx, shard: usize, of: usize) {
    let ns: Vec<usize> = if ctx.thorough { large(false).into_iter().chain([100_001, 131_073, 262_145, 1_100_001]).collect() } else { large(false).into_iter().chain([131_073, 262_145]).collect() };
    let mut idx = 0;
    for &n in &ns {
        for pattern in 0..3 {
            idx += 1;
            if !mine(idx, shard, of) {
                continue;
            }
            if !ctx.size(n) {
                continue;
            }
            ctx.case(&|| format!("{} registrations before the first gathering, {}", n, ["all collectors", "every other one of a dead metric", "nearly all of dead metrics"][pattern]), |ctx| {
                ctx.step(n as u64);
                ctx.state(&format!("{} {}", n, pattern));
                let mut g = Gatherer::new();
                let reg = g.registry();
                let dead = Any::build(n % 4, "dead", &[], None);
                let calls = Rc::new(RefCell::new(vec![0u8; n]));
                let ours = |i: usize| match pattern {
                    0 => true,
                    1 => i % 2 == 0,
                    _ => i % 1000 == 999 || i + 2 > n,
                };
                for i in 0..n {
                    if ours(i) {
                        let c = calls.clone();
                        register_fn(&reg, move || {
                            c.borrow_mut()[i] += 1;
                            if i % 3 == 2 && c.borrow()[i] == 2 {
                                return None;
                            }
                            Some(vec![])
                        });
                    } else {
                        dead.register(&reg);
                    }
                }
                drop(dead);
                let last = Any::build(n % 4, "last", &[], Some(&reg));
                last.bump(1.0);
                for round in 1..=3u8 {
                    let f = g.gather();
                    ensure!(totals(&f)? == [("last".to_string(), 1.0)].into_iter().collect(), "gather {} reports {:?}", round, f.to_text());
                    for (i, c) in calls.borrow().iter().enumerate() {
                        let want = if !ours(i) { 0 } else if i % 3 == 2 { round.min(2) } else { round };
                        ensure!(*c == want, "after gather {} collector {} was called {} times instead of {}", round, i, c, want);
                    }
                }
                Ok(())
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("up to {} registrations waiting for one gathering", ns.last().unwrap()));
    }
}
/// Collectors yielding several metrics, several families, or none.
fn g02_multi(ctx: &mut Ctx, _s: usize, _o: usize) {
    seqs(4, 1, if ctx.thorough { 5 } else { 4 }, |s| {
        let s = s.to_vec();
        ctx.case(&|| format!("collectors yielding {:?} metrics", s), |ctx| {
            ctx.step(s.len() as u64);
            ctx.state(&format!("{:?}", s));
            let mut g = Gatherer::new();
            let mut want = BTreeMap::new();
            for (k, &n) in s.iter().enumerate() {
                let ms: Vec<Any> = (0..n).map(|i| Any::build((i + k) % 4, &format!("m{}_{}", k, i), &[], None)).collect();
                for (i, m) in ms.iter().enumerate() {
                    m.bump(amount(i));
                    want.insert(format!("m{}_{}", k, i), amount(i));
                }
                register_fn(&g.registry(), move || Some(ms.iter().map(|m| m.metric()).collect()));
            }
            for _ in 0..2 {
                let got = totals(&g.gather())?;
                ensure!(got == want, "gather reports {:?} instead of {:?}", got, want);
            }
            Ok(())
        });
    });
}
/// Collectors that live long: what they yield changes only after many gatherings.
fn g02_long(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut ns = pumps(ctx.thorough).to_vec();
    ns.extend(if ctx.thorough { vec![2, 3, 4097, 10_001, 65_540] } else { vec![3, 4, 4097] });
    let mut idx = 0;
    // What it yields in the beginning, and from the n-th gathering on: nothing, one metric, two metrics, the end.
    for &n in &ns {
        for first in 0..3usize {
            for then in 0..4usize {
                for others in [0usize, 1, 2] {
                    idx += 1;
                    if !mine(idx, shard, of) {
                        continue;
                    }
                    ctx.case(&|| format!("a collector yielding {} metrics, from gathering {} on {}; {} other metrics", first, n, if then == 3 { "its end".to_string() } else { format!("{} metrics", then) }, others), |ctx| {
                        ctx.step(n as u64);
                        ctx.state(&format!("{} {} {} {}", n, first, then, others));
                        let mut g = Gatherer::new();
                        let reg = g.registry();
                        let ours: Vec<Any> = (0..2).map(|i| Any::build((n + i) % 4, &format!("c{}", i), &[], None)).collect();
                        ours.iter().for_each(|m| m.bump(2.0));
                        let mut keep: Vec<Any> = vec![];
                        let calls = Rc::new(Cell::new(0usize));
                        if others == 2 {
                            keep.push(Any::build(1, "before", &[], Some(&reg)));
                        }
                        let c2 = calls.clone();
                        let ms: Vec<Metric> = ours.iter().map(|m| m.metric()).collect();
                        register_fn(&reg, move || {
                            c2.set(c2.get() + 1);
                            let k = if c2.get() <= n { first } else { then };
                            if k == 3 { None } else { Some(ms[..k].to_vec()) }
                        });
                        if others >= 1 {
                            keep.push(Any::build(0, "after", &[], Some(&reg)));
                        }
                        keep.iter().for_each(|m| m.bump(1.0));
                        for round in 1..=n + 3 {
                            let f = g.gather();
                            let k = if round <= n { first } else { then };
                            let mut want: BTreeMap<String, f64> = keep.iter().map(|m| (m.name().to_string(), 1.0)).collect();
                            if k != 3 {
                                want.extend((0..k).map(|i| (format!("c{}", i), 2.0)));
                            }
                            if round <= 4 || round + 4 >= n || round % 1000 == 0 {
                                let got = totals(&f)?;
                                ensure!(got == want, "gathering {} reports {:?} instead of {:?}", round, got, want);
                            } else {
                                ensure!(f.as_ref().len() == want.len(), "gathering {} reports {} families instead of {}", round, f.as_ref().len(), want.len());
                            }
                            let c = if k == 3 { n + 1 } else { round };
                            ensure!(calls.get() == c, "after gathering {} the collector was called {} times instead of {}", round, calls.get(), c);
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("collectors whose yield changes after {:?} gatherings", ns));
    }
}
/// The default registry over histories (in a process of its own).
fn g02_default(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut idx = 0;
    let mut counter = 0;
    seqs_shard(5, 1, if ctx.thorough { 6 } else { 5 }, shard, of, |s| {
        let s = s.to_vec();
        idx += 1;
        ctx.case(&|| format!("default registry history {:?}", s), |ctx| {
            let mut want: BTreeMap<String, f64> = BTreeMap::new();
            let mut keep: Vec<Any> = vec![];
            for &o in &s {
                ctx.step(1);
                counter += 1;
                let name = format!("d{}", counter);
                let mut add = |m: Any| {
                    m.bump(2.0);
                    want.insert(m.name().to_string(), 2.0);
                    keep.push(m);
                };
                match o {
                    0 => add(AnyB::new(counter % 4, &name).default_registry().finish().unwrap()),
                    1 => add(Any::C(MetricBuilder::new().counter(&name).finish().unwrap())),
                    2 => add(Any::build(counter % 4, &name, &[], Some(&default_registry()))),
                    3 => {
                        if let Some(m) = keep.pop() {
                            want.remove(&m.name().to_string());
                        }
                    }
                    _ => {
                        let got = totals(&default_gatherer().lock().unwrap().gather())?;
                        ensure!(got == want, "the default gatherer reports {:?} instead of {:?}", got, want);
                    }
                }
            }
            let got = totals(&default_gatherer().lock().unwrap().gather())?;
            ensure!(got == want, "the default gatherer reports {:?} instead of {:?}", got, want);
            ctx.state(&format!("{:?}", want.len()));
            Ok(())
        });
    });
    ctx.cover(format!("{} histories on the default registry", idx));
}

pub fn scenarios(id: &str, _thorough: bool) -> Vec<Scenario> {
    let mut v = Vec::new();
    match id {
        "C06" => {
            v.extend(sharded("registry", 8, c06));
            v.extend(sharded("two-gatherers", 8, c06_two));
            v.extend(sharded("crowd", 8, c06_crowd));
            v.extend(sharded("exit", 4, c06_exit));
            v.extend(sharded("late", 4, c06_late));
            v.extend(sharded("labels-change", 4, c06_labels));
            v.extend(sharded("default-first-use", 1, c06_default));
        }
        "C07" => {
            v.extend(sharded("nested", 4, c07_seq));
            v.extend(sharded("elsewhere", 4, c07_places));
            v.extend(sharded("nested-concurrent", 8, c07_conc));
            v.extend(sharded("stalled", 8, c07_stalled));
        }
        "F01" => {
            v.extend(sharded("metric-panics", 4, f01_metric));
            v.extend(sharded("collector-panics", 4, f01_gather));
            v.extend(sharded("writer-fails", 4, f01_writer));
            v.extend(sharded("many-panics", 8, f01_pump));
            v.extend(sharded("default-panics", 1, f01_default));
            v.extend(sharded("concurrent-panics", 4, f01_conc));
        }
        "G02" => {
            v.extend(sharded("lifecycle", 8, g02));
            v.extend(sharded("many", 4, g02_pump));
            v.extend(sharded("long", 4, g02_long));
            v.extend(sharded("flood", 8, g02_flood));
            v.extend(sharded("multi", 1, g02_multi));
            v.extend(sharded("default", 4, g02_default));
        }
        _ => {}
    }
    v
}
