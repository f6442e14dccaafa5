//! C01-C05: concurrent histories of one metric.
use crate::explore::{explore, relentless, Exec, Opts};
use crate::prom;
use crate::rt;
use crate::util::*;
use crate::work::{Ctx, Scenario};
use crate::{ensure, work};
use prometrics::metrics::*;
use prometrics::Gatherer;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;
use std::time::Duration;

pub type Hist<O, R> = Vec<Call<O, R>>;

/// Threads that each perform a list of operations on shared state; the history of calls is checked at the end.
pub fn program<S: 'static, O: Clone + Debug + 'static, R: Clone + Debug + 'static>(
    state: S,
    progs: &[Vec<O>],
    exec: fn(&S, usize, &O) -> R,
    check: Rc<dyn Fn(&S, &Hist<O, R>) -> Result<String, String>>,
) -> Exec {
    let st = Rc::new(state);
    let hist: Rc<RefCell<Hist<O, R>>> = Rc::new(RefCell::new(Vec::new()));
    let threads = progs
        .iter()
        .enumerate()
        .map(|(tid, ops)| {
            let (st, hist, ops) = (st.clone(), hist.clone(), ops.clone());
            Box::new(move || {
                for o in &ops {
                    let (res, call, ret) = rt::op(|| exec(&st, tid, o));
                    hist.borrow_mut().push(Call { tid, op: o.clone(), res, call, ret });
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    Exec {
        threads,
        finish: Box::new(move || {
            let h = hist.borrow();
            check(&st, &h).map_err(|e| format!("{}\n  history: {}", e, show(&h)))
        }),
    }
}
struct Guard(RefCell<Option<Box<dyn FnOnce()>>>);
impl Drop for Guard {
    fn drop(&mut self) {
        if let Some(f) = self.0.borrow_mut().take() {
            f();
        }
    }
}
thread_local!(static GUARD: Guard = Guard(RefCell::new(None)));
/// Threads whose last call is made while they end, by the destructor of a thread-local of the user's: one that exists
/// before the thread's other calls (what they left in thread-locals is gone by then), or one that comes after them.
pub fn program_exit<S: 'static, O: Clone + Debug + 'static, R: Clone + Debug + 'static>(
    state: S,
    progs: &[(Vec<O>, Option<(O, bool)>)],
    exec: fn(&S, usize, &O) -> R,
    check: Rc<dyn Fn(&S, &Hist<O, R>) -> Result<String, String>>,
) -> Exec {
    let st = Rc::new(state);
    let hist: Rc<RefCell<Hist<O, R>>> = Rc::new(RefCell::new(Vec::new()));
    let threads = progs
        .iter()
        .enumerate()
        .map(|(tid, (ops, end))| {
            let (st, hist, ops, end) = (st.clone(), hist.clone(), ops.clone(), end.clone());
            Box::new(move || {
                let call = move |o: &O| {
                    let (res, call, ret) = rt::op(|| exec(&st, tid, o));
                    hist.borrow_mut().push(Call { tid, op: o.clone(), res, call, ret });
                };
                let call = Rc::new(call);
                let (late, last) = match end {
                    Some((o, first)) => (!first, Some((o, call.clone()))),
                    None => (false, None),
                };
                let mut last = last.map(|(o, call)| Box::new(move || call(&o)) as Box<dyn FnOnce()>);
                if !late {
                    GUARD.with(|g| *g.0.borrow_mut() = last.take());
                }
                for o in &ops {
                    call(o);
                }
                if late {
                    GUARD.with(|g| *g.0.borrow_mut() = last.take());
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    Exec {
        threads,
        finish: Box::new(move || {
            let h = hist.borrow();
            check(&st, &h).map_err(|e| format!("{}\n  history: {}", e, show(&h)))
        }),
    }
}
/// Two threads, of which the first ends with a call or both do.
fn exits<S: 'static, O: Copy + Debug + 'static, R: Clone + Debug + 'static>(
    ctx: &mut Ctx,
    (shard, of): (usize, usize),
    ops: &[O],
    init: &dyn Fn() -> S,
    exec: fn(&S, usize, &O) -> R,
    check: Rc<dyn Fn(&S, &Hist<O, R>) -> Result<String, String>>,
) {
    let mut o = opts(ctx);
    o.full_execs = if ctx.thorough { 20_000 } else { 300 };
    o.bounded_execs = if ctx.thorough { 20_000 } else { 600 };
    let mut n = 0;
    for a in ops {
        for e in ops {
            for b in ops {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                for (mine, theirs) in [(true, None), (false, None), (true, Some((*a, true))), (true, Some((*a, false))), (false, Some((*a, false)))] {
                    for alone in [false, true] {
                        let progs = vec![(if alone { vec![] } else { vec![*a] }, Some((*e, mine))), (vec![*b], theirs)];
                        if alone && mine {
                            continue;
                        }
                        explore(ctx, &format!("{:?}", progs), &o, &|| program_exit(init(), &progs, exec, check.clone()));
                    }
                }
            }
        }
    }
}
fn c01_exit(ctx: &mut Ctx, shard: usize, of: usize) {
    exits(ctx, (shard, of), &COPS[..5], &|| Counter::new("c").unwrap(), c_exec, Rc::new(|c: &Counter, h: &Hist<CO, f64>| c_check(c, h).map(|_| String::new())));
}
fn c02_exit(ctx: &mut Ctx, shard: usize, of: usize) {
    exits(ctx, (shard, of), &GOPS[..6], &|| GaugeBuilder::new("g").initial_value(4.0).finish().unwrap(), g_exec, Rc::new(|g: &Gauge, h: &Hist<GO, f64>| g_check(g, h).map(|_| String::new())));
}
const ROPS: [RO; 4] = [RO::Obs(1.0), RO::Obs(3.0), RO::Text, RO::Parts];
fn c03_exit(ctx: &mut Ctx, shard: usize, of: usize) {
    let init = || HistogramBuilder::new("h").bucket(1.0).bucket(4.0).finish().unwrap();
    exits(ctx, (shard, of), &ROPS, &init, rh_exec, Rc::new(|g: &Histogram, h: &Hist<RO, Result<RR, String>>| r_check(h, rh_exec(g, 0, &RO::Text), false)));
}
fn c04_exit(ctx: &mut Ctx, shard: usize, of: usize) {
    let init = || {
        let mut sb = SummaryBuilder::new("s", Duration::from_secs(60));
        for q in QS.iter() {
            sb.quantile(*q);
        }
        sb.finish().unwrap()
    };
    exits(ctx, (shard, of), &ROPS, &init, rs_exec, Rc::new(|g: &Summary, h: &Hist<RO, Result<RR, String>>| r_check(h, rs_exec(g, 0, &RO::Text), true)));
}
fn c05_exit(ctx: &mut Ctx, shard: usize, of: usize) {
    let init: LM = [("a".to_string(), "0".to_string())].into_iter().collect();
    let check = Rc::new(move |s: &LS, h: &Hist<LO, Result<Option<Vec<(String, String)>>, String>>| l_check(&init, s, h).map(|_| String::new()));
    let state = || {
        let c = CounterBuilder::new("c").label("a", "0").finish().unwrap();
        LS { c: (0..2).map(|_| RefCell::new(c.clone())).collect() }
    };
    exits(ctx, (shard, of), &[LO::Ins("b", "1"), LO::Ins("a", "2"), LO::Rem("a"), LO::Iter, LO::Text], &state, l_exec, check);
}
/// The same on a state that has a past: what is done before the threads start is the beginning of the history.
fn program_after<S: 'static, O: Clone + Debug + 'static, R: Clone + Debug + 'static>(
    state: S,
    before: impl Iterator<Item = O>,
    progs: &[Vec<O>],
    exec: fn(&S, usize, &O) -> R,
    check: Rc<dyn Fn(&S, &Hist<O, R>) -> Result<String, String>>,
) -> Exec {
    let past: Hist<O, R> = before.map(|op| Call { tid: 50, res: exec(&state, 50, &op), op, call: 0, ret: 0 }).collect();
    program(
        state,
        progs,
        exec,
        Rc::new(move |s, h| {
            let mut all = past.clone();
            all.extend_from_slice(h);
            check(s, &all).map_err(|e| format!("{} (the calls before the threads started: {})", e, past.len()))
        }),
    )
}
/// `k` threads that come one after the other, each with the call `first(j)`; then the i-th performs `a` while the last
/// performs `b`.  The others stay alive meanwhile (`stay`), or have ended.  To be explored with `Opts::gated`.
pub fn late<S: 'static, O: Clone + Debug + 'static, R: Clone + Debug + 'static>(
    state: S,
    (k, i, stay): (usize, usize, bool),
    first: &dyn Fn(usize) -> O,
    a: &[O],
    b: &[O],
    exec: fn(&S, usize, &O) -> R,
    check: Rc<dyn Fn(&S, &Hist<O, R>) -> Result<String, String>>,
) -> Exec {
    let st = Rc::new(state);
    let hist: Rc<RefCell<Hist<O, R>>> = Rc::new(RefCell::new(Vec::new()));
    let threads = (0..k)
        .map(|j| {
            let (st, hist, first) = (st.clone(), hist.clone(), first(j));
            let then = if j == i { a.to_vec() } else if j == k - 1 { b.to_vec() } else { vec![] };
            Box::new(move || {
                let call = |o: &O| {
                    let (res, call, ret) = rt::op(|| exec(&st, j, o));
                    hist.borrow_mut().push(Call { tid: j, op: o.clone(), res, call, ret });
                };
                call(&first);
                unsafe {
                    if j < k - 1 {
                        rt::mc_gate_open(j as i32 + 1);
                        if j == i || stay {
                            rt::mc_gate_wait();
                        }
                    } else {
                        rt::mc_gate_open(i as i32);
                    }
                }
                then.iter().for_each(call);
                if j == k - 1 {
                    (0..k - 1).filter(|o| *o != i).for_each(|o| unsafe { rt::mc_gate_open(o as i32) });
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    Exec {
        threads,
        finish: Box::new(move || {
            let h = hist.borrow();
            check(&st, &h).map_err(|e| format!("{}\n  history: {}", e, show(&h)))
        }),
    }
}
/// How many threads come, which of them runs concurrently with the last, and whether the others stay.
pub fn arrivals(thorough: bool) -> Vec<(usize, usize, bool)> {
    let mut v = vec![];
    for k in if thorough { (3..65).collect() } else { vec![3, 4, 5, 9, 17, 33, 64] } {
        v.push((k, 0, true));
        v.push((k, 0, false));
        if k == 9 || thorough && k <= 33 {
            v.extend((1..k - 1).map(|i| (k, i, true)));
        }
    }
    v
}
pub fn late_opts(ctx: &Ctx) -> Opts {
    let mut o = opts(ctx);
    o.gated = true;
    o.full_execs = if ctx.thorough { 20_000 } else { 1_000 };
    o.bounded_execs = if ctx.thorough { 20_000 } else { 1_000 };
    o.max_preempt = 2;
    o
}
fn c01_late(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = late_opts(ctx);
    let mut n = 0;
    for at in arrivals(ctx.thorough) {
        for a in &COPS[1..5] {
            for b in COPS {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                for a in [vec![*a], vec![*a, CO::Read]] {
                    let check = Rc::new(|c: &Counter, h: &Hist<CO, f64>| c_check(c, h).map(|_| String::new()));
                    explore(ctx, &format!("{:?} and {:?} on {:?} of threads", a, b, at), &o, &|| late(Counter::new("c").unwrap(), at, &|j| if a.len() == 1 { a[0] } else { COPS[1 + j % 4] }, &a, &[b], c_exec, check.clone()));
                }
            }
        }
    }
}
fn c02_late(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = late_opts(ctx);
    let mut n = 0;
    for at in arrivals(ctx.thorough) {
        for a in &GOPS[1..7] {
            for b in &GOPS[..7] {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                for a in [vec![*a], vec![*a, GO::Read]] {
                    let check = Rc::new(|g: &Gauge, h: &Hist<GO, f64>| g_check(g, h).map(|_| String::new()));
                    explore(ctx, &format!("{:?} and {:?} on {:?} of threads", a, b, at), &o, &|| {
                        let g = GaugeBuilder::new("g").initial_value(4.0).finish().unwrap();
                        late(g, at, &|j| if a.len() == 1 { a[0] } else { GOPS[1 + j % 6] }, &a, &[*b], g_exec, check.clone())
                    });
                }
            }
        }
    }
}
fn c03_late(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = late_opts(ctx);
    let mut n = 0;
    let ops = [RO::Obs(1.0), RO::Obs(3.0), RO::Obs(5.0), RO::Text, RO::Parts];
    for at in arrivals(ctx.thorough) {
        for a in &ops[..3] {
            for (b, same) in ops.into_iter().flat_map(|b| [(b, false), (b, true)]) {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                let check = Rc::new(|g: &Histogram, h: &Hist<RO, Result<RR, String>>| r_check(h, rh_exec(g, 0, &RO::Text), false));
                explore(ctx, &format!("{:?} and {:?} on {:?} of threads, {}", a, b, at, same), &o, &|| {
                    late(HistogramBuilder::new("h").bucket(1.0).bucket(4.0).finish().unwrap(), at, &|j| if same { *a } else { ops[j % 3] }, &[*a], &[b], rh_exec, check.clone())
                });
            }
        }
    }
}
fn c04_late(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = late_opts(ctx);
    let mut n = 0;
    let ops = [RO::Obs(1.0), RO::Obs(3.0), RO::Obs(5.0), RO::Text, RO::Parts];
    for at in arrivals(ctx.thorough) {
        for a in &ops[..3] {
            for (b, same) in ops.into_iter().flat_map(|b| [(b, false), (b, true)]) {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                let check = Rc::new(|g: &Summary, h: &Hist<RO, Result<RR, String>>| r_check(h, rs_exec(g, 0, &RO::Text), true));
                explore(ctx, &format!("{:?} and {:?} on {:?} of threads, {}", a, b, at, same), &o, &|| {
                    let mut sb = SummaryBuilder::new("s", Duration::from_secs(60));
                    for q in QS.iter() {
                        sb.quantile(*q);
                    }
                    late(sb.finish().unwrap(), at, &|j| if same { *a } else { ops[j % 3] }, &[*a], &[b], rs_exec, check.clone())
                });
            }
        }
    }
}
fn c05_late(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut o = late_opts(ctx);
    o.full_execs = 0;
    o.bounded_execs = if ctx.thorough { 20_000 } else { 300 };
    let mut n = 0;
    for at in arrivals(ctx.thorough) {
        for a in &LOPS[1..] {
            for b in [LO::Iter, LO::Text, LO::Ins("c", "3"), LO::Ins("a", "7"), LO::Rem("b")] {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                let init: LM = [("a".to_string(), "0".to_string())].into_iter().collect();
                let i2 = init.clone();
                let check = Rc::new(move |s: &LS, h: &Hist<LO, Result<Option<Vec<(String, String)>>, String>>| l_check(&i2, s, h).map(|_| String::new()));
                explore(ctx, &format!("{:?} and {:?} on {:?} of threads", a, b, at), &o, &|| {
                    let c = CounterBuilder::new("c").label("a", "0").finish().unwrap();
                    late(LS { c: (0..64).map(|_| RefCell::new(c.clone())).collect() }, at, &|j| if n % 2 == 0 { *a } else { [LO::Ins("b", "1"), LO::Iter, LO::Ins("a", "2"), LO::Text][j % 4] }, &[*a], &[b, LO::Iter], l_exec, check.clone())
                });
            }
        }
    }
}
/// How much has happened before: up to just below, at and just above the powers of two.
fn pasts(thorough: bool) -> Vec<usize> {
    let mut v = vec![];
    for p in 2..if thorough { 14 } else { 11 } {
        v.extend([(1 << p) - 2, (1 << p) - 1, 1 << p]);
    }
    v.extend([9, 10, 99, 100, 999, 1000]);
    v
}
pub fn show<O: Debug, R: Debug>(h: &Hist<O, R>) -> String {
    h.iter().map(|c| format!("T{} {:?} -> {:?} [{}..{}]", c.tid, c.op, c.res, c.call, c.ret)).collect::<Vec<_>>().join(", ")
}

/// All lists of `threads` programs with the given lengths over an alphabet of `k`, up to permuting equal threads.
pub fn thread_programs(k: usize, lens: &[usize]) -> Vec<Vec<Vec<usize>>> {
    let mut out: Vec<Vec<Vec<usize>>> = vec![vec![]];
    for &l in lens {
        let mut next = Vec::new();
        for p in &out {
            seqs(k, l, l, |s| {
                if p.last().map_or(true, |q: &Vec<usize>| q.len() != l || q.as_slice() <= s) {
                    let mut p2 = p.clone();
                    p2.push(s.to_vec());
                    next.push(p2);
                }
            });
        }
        out = next;
    }
    out
}

fn shapes(thorough: bool) -> Vec<Vec<usize>> {
    let mut v = vec![vec![1, 1], vec![1, 2], vec![2, 2], vec![1, 1, 1]];
    if thorough {
        v.extend(vec![vec![1, 3], vec![2, 3], vec![1, 1, 2]]);
    }
    v
}
fn opts(ctx: &Ctx) -> Opts {
    if ctx.thorough {
        Opts { full_execs: 300_000, max_preempt: 4, bounded_execs: 400_000, wall_s: 60, ..Default::default() }
    } else {
        Opts { full_execs: 30_000, max_preempt: 2, bounded_execs: 30_000, wall_s: 20, ..Default::default() }
    }
}

// ---- C01 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum CO {
    Inc,
    AddHalf,
    AddTwo,
    AddU64,
    Read,
    Text,
}
const COPS: [CO; 6] = [CO::Read, CO::AddHalf, CO::Inc, CO::AddTwo, CO::AddU64, CO::Text];
fn c_amount(o: CO) -> f64 {
    match o {
        CO::Inc => 1.0,
        CO::AddHalf => 0.5,
        CO::AddTwo => 2.0,
        CO::AddU64 => 4.0,
        _ => 0.0,
    }
}
fn c_exec(c: &Counter, _t: usize, o: &CO) -> f64 {
    match *o {
        CO::Inc => c.increment(),
        CO::AddHalf => c.add(0.5).unwrap(),
        CO::AddTwo => c.add(2.0).unwrap(),
        CO::AddU64 => c.add_u64(4),
        CO::Read => return c.value(),
        CO::Text => return prom::sample(&c.to_string()).map(|s| s.value).unwrap_or(f64::NAN),
    }
    0.0
}
fn c_check(c: &Counter, h: &Hist<CO, f64>) -> Result<String, String> {
    let total: f64 = h.iter().map(|c| c_amount(c.op)).sum();
    ensure!(c.value() == total, "after all threads finished the value is {} instead of {}", c.value(), total);
    let mut out = String::new();
    for (i, r) in h.iter().enumerate() {
        if !matches!(r.op, CO::Read | CO::Text) {
            continue;
        }
        let lo: f64 = h.iter().filter(|x| x.ret < r.call).map(|x| c_amount(x.op)).sum();
        let hi: f64 = h.iter().filter(|x| x.call < r.ret).map(|x| c_amount(x.op)).sum();
        ensure!(lo <= r.res && r.res <= hi, "T{} read {} but additions of {} had returned and of {} had been called", r.tid, r.res, lo, hi);
        for p in &h[..i] {
            if matches!(p.op, CO::Read | CO::Text) && p.ret < r.call {
                ensure!(p.res <= r.res, "the value went down from {} to {}", p.res, r.res);
            }
        }
        out += &format!("T{}:{} ", r.tid, r.res);
    }
    Ok(format!("{}final {}", out, total))
}
fn c01(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    for lens in shapes(ctx.thorough) {
        let k = if lens.len() == 3 && !ctx.thorough || lens.iter().sum::<usize>() > 4 { 5 } else { 6 };
        for p in thread_programs(k, &lens) {
            let progs: Vec<Vec<CO>> = p.iter().map(|t| t.iter().map(|&i| COPS[i]).collect()).collect();
            if progs.iter().flatten().all(|o| matches!(o, CO::Read | CO::Text)) {
                continue;
            }
            n += 1;
            if mine(n, shard, of) {
                let check = Rc::new(|c: &Counter, h: &Hist<CO, f64>| c_check(c, h));
                explore(ctx, &format!("{:?}", progs), &o, &|| program(Counter::new("c").unwrap(), &progs, c_exec, check.clone()));
            }
        }
    }
}
/// Amounts near 2^64: sums are rounded, so they are compared with a tolerance.
fn c01_huge(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum HO {
        U64(u64),
        F64(f64),
        Read,
    }
    let exec = |c: &Counter, _: usize, o: &HO| match *o {
        HO::U64(x) => {
            c.add_u64(x);
            0.0
        }
        HO::F64(x) => {
            c.add(x).unwrap();
            0.0
        }
        HO::Read => c.value(),
    };
    fn amount(o: HO) -> f64 {
        match o {
            HO::U64(x) => x as f64,
            HO::F64(x) => x,
            HO::Read => 0.0,
        }
    }
    let ops = [HO::U64(u64::MAX / 2), HO::U64(u64::MAX), HO::F64(9.3e18), HO::F64(2e19), HO::Read];
    let mut n = 0;
    for lens in [vec![1, 1], vec![1, 1, 1], vec![2, 1], vec![2, 2]] {
        for p in thread_programs(if lens.iter().sum::<usize>() > 3 && !ctx.thorough { 3 } else { 5 }, &lens) {
            let progs: Vec<Vec<HO>> = p.iter().map(|t| t.iter().map(|&i| ops[i]).collect()).collect();
            if progs.iter().flatten().all(|o| *o == HO::Read) {
                continue;
            }
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            let check = Rc::new(|c: &Counter, h: &Hist<HO, f64>| {
                let eps = 1e-12;
                let total: f64 = h.iter().map(|c| amount(c.op)).sum();
                ensure!((c.value() - total).abs() <= total * eps, "after all threads finished the value is {} instead of {}", c.value(), total);
                for (i, r) in h.iter().enumerate().filter(|x| x.1.op == HO::Read) {
                    let lo: f64 = h.iter().filter(|x| x.ret < r.call).map(|x| amount(x.op)).sum();
                    let hi: f64 = h.iter().filter(|x| x.call < r.ret).map(|x| amount(x.op)).sum();
                    ensure!(lo * (1.0 - eps) <= r.res && r.res <= hi * (1.0 + eps), "T{} read {} but additions of {} had returned and of {} had been called", r.tid, r.res, lo, hi);
                    for p in &h[..i] {
                        ensure!(p.op != HO::Read || p.ret >= r.call || p.res * (1.0 - eps) <= r.res, "the value went down from {} to {}", p.res, r.res);
                    }
                }
                Ok(String::new())
            });
            explore(ctx, &format!("huge {:?}", progs), &o, &|| program(Counter::new("c").unwrap(), &progs, exec, check.clone()));
        }
    }
}
/// Short programs on a counter with a past.
fn c01_past(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let ops = [CO::Inc, CO::AddHalf, CO::AddTwo, CO::AddU64];
    let mut n = 0;
    for &before in [CO::Inc, CO::AddHalf, CO::AddU64].iter() {
        for k in pasts(ctx.thorough) {
            for a in ops {
                for b in ops {
                    for read in [false, true] {
                        if !ctx.thorough && read && a != b {
                            continue;
                        }
                        n += 1;
                        if !mine(n, shard, of) {
                            continue;
                        }
                        let mut progs = vec![vec![a], vec![b]];
                        if read {
                            progs.push(vec![CO::Read]);
                        } else {
                            progs[1].push(a);
                        }
                        let check = Rc::new(|c: &Counter, h: &Hist<CO, f64>| c_check(c, h));
                        explore(ctx, &format!("{:?} after {} x {:?}", progs, k, before), &o, &|| program_after(Counter::new("c").unwrap(), std::iter::repeat(before).take(k), &progs, c_exec, check.clone()));
                    }
                }
            }
        }
    }
}
fn c02_past(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    for before in [vec![GO::Inc], vec![GO::AddHalf, GO::Set0, GO::Dec], vec![GO::SubTwo]] {
        for k in pasts(ctx.thorough) {
            for a in 1..7 {
                for b in 1..7 {
                    for read in [false, true] {
                        if !ctx.thorough && read != ((a + b + k) % 2 == 0) {
                            continue;
                        }
                        n += 1;
                        if !mine(n, shard, of) {
                            continue;
                        }
                        let mut progs = vec![vec![GOPS[a]], vec![GOPS[b]]];
                        progs[1].push(if read { GO::Read } else { GOPS[a] });
                        let check = Rc::new(|g: &Gauge, h: &Hist<GO, f64>| g_check(g, h));
                        explore(ctx, &format!("{:?} after {} x {:?}", progs, k, before), &o, &|| {
                            let g = GaugeBuilder::new("g").initial_value(4.0).finish().unwrap();
                            program_after(g, before.iter().cycle().take(k).cloned(), &progs, g_exec, check.clone())
                        });
                    }
                }
            }
        }
    }
}
/// One call of the victim against a long run of calls that disturb it, as often as they can.
fn repeated<T: Clone>(one: &T, n: usize) -> Vec<T> {
    vec![one.clone(); n]
}
fn c01_relentless(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    for v in COPS {
        for w in [CO::Inc, CO::AddHalf, CO::AddU64] {
            for three in [false, true] {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                let check = Rc::new(|c: &Counter, h: &Hist<CO, f64>| c_check(c, h).map(|_| String::new()));
                for (len, period, burst) in [(40, 6, 12), (if ctx.thorough { 4000 } else { 1100 }, 2, if three { 6 } else { 8 })] {
                    let mut progs = vec![vec![v, v], repeated(&w, len)];
                    if three {
                        progs.push(repeated(&CO::AddTwo, len));
                    }
                    relentless(ctx, &format!("{:?} against {} x {:?}{}", v, len, w, if three { " and AddTwo" } else { "" }), &o, &[0], period, burst, &|| program(Counter::new("c").unwrap(), &progs, c_exec, check.clone()));
                }
            }
        }
    }
}

// ---- C02 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum GO {
    Read,
    Inc,
    Dec,
    AddHalf,
    SubTwo,
    Set10,
    Set0,
    Track,
}
const GOPS: [GO; 8] = [GO::Read, GO::Inc, GO::Dec, GO::AddHalf, GO::Set10, GO::SubTwo, GO::Set0, GO::Track];
fn g_exec(g: &Gauge, _t: usize, o: &GO) -> f64 {
    match *o {
        GO::Read => return g.value(),
        GO::Inc => g.increment(),
        GO::Dec => g.decrement(),
        GO::AddHalf => g.add(0.5),
        GO::SubTwo => g.subtract(2.0),
        GO::Set10 => g.set(10.0),
        GO::Set0 => g.set(0.0),
        GO::Track => unreachable!(),
    }
    0.0
}
fn g_step(s: &mut f64, c: &Call<GO, f64>) -> bool {
    match c.op {
        GO::Read => return *s == c.res,
        GO::Inc => *s += 1.0,
        GO::Dec => *s -= 1.0,
        GO::AddHalf => *s += 0.5,
        GO::SubTwo => *s -= 2.0,
        GO::Set10 => *s = 10.0,
        GO::Set0 => *s = 0.0,
        GO::Track => unreachable!(),
    }
    true
}
fn g_check(g: &Gauge, h: &[Call<GO, f64>]) -> Result<String, String> {
    let v = g.value();
    let mut init = 4.0;
    let past = h.iter().take_while(|c| c.ret == 0).count();
    for c in &h[..past] {
        ensure!(g_step(&mut init, c), "{:?} -> {} when the value was {}", c.op, c.res, init);
    }
    let h = &h[past..];
    ensure!(linearizable(h, &init, &g_step, &|s| *s == v), "no one-at-a-time order of the calls explains the reads and the final value {}", v);
    let r: Vec<String> = h.iter().filter(|c| c.op == GO::Read).map(|c| format!("T{}:{}", c.tid, c.res)).collect();
    Ok(format!("{} final {}", r.join(" "), v))
}
fn c02(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    for lens in shapes(ctx.thorough) {
        let k = match lens.iter().sum::<usize>() {
            0..=3 => 7,
            4 => 5,
            _ => 4,
        };
        for p in thread_programs(k, &lens) {
            let progs: Vec<Vec<GO>> = p.iter().map(|t| t.iter().map(|&i| GOPS[i]).collect()).collect();
            n += 1;
            if mine(n, shard, of) {
                let check = Rc::new(|g: &Gauge, h: &Hist<GO, f64>| g_check(g, h));
                explore(ctx, &format!("{:?}", progs), &o, &|| {
                    let g = GaugeBuilder::new("g").initial_value(4.0).finish().unwrap();
                    program(g, &progs, g_exec, check.clone())
                });
            }
        }
    }
}
fn c02_relentless(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    for v in &GOPS[..7] {
        for w in [vec![GO::Inc], vec![GO::AddHalf, GO::SubTwo], vec![GO::Set10, GO::Dec], vec![GO::Set10, GO::Set0], vec![GO::Inc, GO::Read]] {
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            let check = Rc::new(|g: &Gauge, h: &Hist<GO, f64>| g_check(g, h).map(|_| String::new()));
            for (len, period, burst) in [(40, 6, 12), (if ctx.thorough { 1500 } else { 300 }, 2, 8)] {
                let progs = vec![vec![*v, *v], w.iter().cycle().take(len).cloned().collect()];
                relentless(ctx, &format!("{:?} against {} x {:?}", v, len, w), &o, &[0], period, burst, &|| {
                    program(GaugeBuilder::new("g").initial_value(4.0).finish().unwrap(), &progs, g_exec, check.clone())
                });
            }
        }
    }
}
/// In-progress tracking: sections that overlap, with readers inside and outside.
struct TrackState {
    g: Gauge,
    running: RefCell<Vec<(u32, u32)>>, // (entered, left): f runs between
}
fn c02_track(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    let mut shapes: Vec<Vec<Vec<u8>>> = vec![];
    // 't' tracked section, 'n' section with a nested one, 'r' read, 'a' add 16
    let words: [&[u8]; 7] = [b"t", b"r", b"n", b"tr", b"rr", b"tt", b"a"];
    for a in &words {
        for b in &words {
            shapes.push(vec![a.to_vec(), b.to_vec()]);
            if ctx.thorough || (a.len() == 1 && b.len() == 1) {
                shapes.push(vec![a.to_vec(), b.to_vec(), b"r".to_vec()]);
                shapes.push(vec![a.to_vec(), b.to_vec(), b"t".to_vec()]);
            }
        }
    }
    for s in shapes {
        if !s.iter().flatten().any(|c| *c == b't' || *c == b'n') {
            continue;
        }
        n += 1;
        if !mine(n, shard, of) {
            continue;
        }
        fn sec(st: &TrackState, depth: u32) -> u8 {
            let s2 = st;
            st.g.track_inprogress(move || {
                // The section is running from here ...
                let (_, _, a) = rt::op(|| ());
                let i = s2.running.borrow().len();
                s2.running.borrow_mut().push((a, u32::MAX));
                if depth > 0 {
                    sec(s2, depth - 1);
                }
                let (_, b, _) = rt::op(|| ());
                s2.running.borrow_mut()[i].1 = b; // ... to here.
                7
            })
        }
        let label = format!("track {:?}", s.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>());
        explore(ctx, &label, &o, &|| {
            let st = Rc::new(TrackState { g: GaugeBuilder::new("g").initial_value(100.0).finish().unwrap(), running: RefCell::new(vec![]) });
            let reads: Rc<RefCell<Vec<(f64, u32, u32)>>> = Rc::default();
            let adds = s.iter().flatten().filter(|c| **c == b'a').count() as f64;
            let total: f64 = s.iter().flatten().map(|c| match c { b't' => 1.0, b'n' => 2.0, _ => 0.0 }).sum();
            let threads = s
                .iter()
                .map(|w| {
                    let (st, reads, w) = (st.clone(), reads.clone(), w.clone());
                    Box::new(move || {
                        for c in &w {
                            match c {
                                b't' => assert_eq!(sec(&st, 0), 7),
                                b'n' => assert_eq!(sec(&st, 1), 7),
                                b'a' => st.g.add(16.0),
                                _ => {
                                    let (v, a, b) = rt::op(|| st.g.value());
                                    reads.borrow_mut().push((v, a, b));
                                }
                            }
                        }
                    }) as Box<dyn FnOnce()>
                })
                .collect();
            Exec {
                threads,
                finish: Box::new(move || {
                    let v = st.g.value();
                    ensure!(v == 100.0 + 16.0 * adds, "the gauge is {} after all sections ended", v);
                    let mut out = String::new();
                    for &(v, a, b) in reads.borrow().iter() {
                        let v0 = v;
                        let v = v - 100.0;
                        let sections = v % 16.0;
                        let all: f64 = total;
                        let least = st.running.borrow().iter().filter(|r| r.0 < a && b < r.1).count() as f64;
                        ensure!(least <= sections && sections <= all && v >= 0.0, "the gauge read {} while {} sections were running (100 + 16 per addition when idle)", v0, least);
                        out += &format!("{} ", v0);
                    }
                    Ok(out)
                }),
            }
        });
    }
}

// ---- C03 -----------------------------------------------------------------------------------------------------------
const HV: [f64; 4] = [1.0, 2.0, 4.0, 8.0]; // distinct powers of two: sums decode into sets
#[derive(Clone, Debug, PartialEq)]
enum HO {
    Obs(usize),
    Buckets,
    Count,
    Sum,
    Text,
}
#[derive(Clone, Debug, Default, PartialEq)]
struct HR {
    buckets: Vec<(f64, u64)>,
    count: Option<u64>,
    sum: Option<f64>,
}
fn h_exec(h: &Histogram, _t: usize, o: &HO) -> Result<HR, String> {
    let mut r = HR::default();
    match o {
        HO::Obs(i) => h.observe(HV[*i]),
        HO::Buckets => r.buckets = h.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect(),
        HO::Count => r.count = Some(h.count()),
        HO::Sum => r.sum = Some(h.sum()),
        HO::Text => {
            for s in prom::samples(&h.to_string())? {
                if let Some(le) = s.label("le") {
                    r.buckets.push((prom::number(le)?, s.value as u64));
                } else if s.name == "h_sum" {
                    r.sum = Some(s.value);
                } else {
                    r.count = Some(s.value as u64);
                }
            }
        }
    }
    Ok(r)
}
fn between(what: &str, lo: u64, v: u64, hi: u64) -> Result<(), String> {
    ensure!(lo <= v && v <= hi, "{} is {}, but {} observations had returned and {} had been called", what, v, lo, hi);
    Ok(())
}
/// `sum` must be the sum of a set of observations between `lo` and `hi` (bit masks; values are powers of two).
fn decode(sum: f64, lo: u32, hi: u32) -> Result<(), String> {
    let m = sum as u32;
    ensure!(sum == m as f64 && m & lo == lo && m & !hi == 0, "sum {} is not made of whole observations (returned: {:#b}, called: {:#b})", sum, lo, hi);
    Ok(())
}
fn h_check(h: &Histogram, hist: &Hist<HO, Result<HR, String>>) -> Result<String, String> {
    let obs: Vec<(usize, u32, u32)> = hist.iter().filter_map(|c| if let HO::Obs(i) = c.op { Some((i, c.call, c.ret)) } else { None }).collect();
    let mut out = String::new();
    let fin = Call { tid: 9, op: HO::Text, res: h_exec(h, 0, &HO::Text), call: u32::MAX - 1, ret: u32::MAX };
    let mut all: Vec<&Call<HO, Result<HR, String>>> = hist.iter().collect();
    all.push(&fin);
    for (k, c) in all.iter().enumerate() {
        if let HO::Obs(_) = c.op {
            continue;
        }
        let r = c.res.clone()?;
        let lo: Vec<usize> = obs.iter().filter(|o| o.2 < c.call).map(|o| o.0).collect();
        let hi: Vec<usize> = obs.iter().filter(|o| o.1 < c.ret).map(|o| o.0).collect();
        ensure!(r.buckets.windows(2).all(|w| w[0].0 < w[1].0 && w[0].1 <= w[1].1), "cumulative buckets {:?} descend", r.buckets);
        if !r.buckets.is_empty() {
            ensure!(r.buckets.iter().map(|b| b.0).eq([1.0, 4.0, f64::INFINITY]), "bounds {:?}", r.buckets);
        }
        for b in &r.buckets {
            let n = |v: &Vec<usize>| v.iter().filter(|&&i| HV[i] <= b.0).count() as u64;
            between(&format!("bucket {}", b.0), n(&lo), b.1, n(&hi))?;
        }
        if let Some(n) = r.count {
            between("count", lo.len() as u64, n, hi.len() as u64)?;
        }
        if let Some(s) = r.sum {
            let m = |v: &Vec<usize>| v.iter().map(|&i| 1u32 << i).sum::<u32>();
            decode(s, m(&lo), m(&hi))?;
        }
        if c.op == HO::Text {
            ensure!(r.count.is_some() && r.sum.is_some() && r.buckets.last().map(|b| b.1) == r.count, "the text has buckets {:?}, count {:?} and sum {:?}", r.buckets, r.count, r.sum);
        }
        for p in &all[..k] {
            if let (Ok(pr), true) = (&p.res, p.ret < c.call && !matches!(p.op, HO::Obs(_))) {
                for (a, b) in pr.buckets.iter().zip(&r.buckets) {
                    ensure!(a.1 <= b.1, "bucket {} went down from {} to {}", a.0, a.1, b.1);
                }
                if let (Some(a), Some(b)) = (pr.count, r.count) {
                    ensure!(a <= b, "count went down from {} to {}", a, b);
                }
            }
        }
        out += &format!("{:?}/{:?}/{:?} ", r.buckets.iter().map(|b| b.1).collect::<Vec<_>>(), r.count, r.sum);
    }
    ensure!(h.count() == obs.len() as u64, "final count {}", h.count());
    ensure!(h.buckets().iter().map(|b| b.count()).sum::<u64>() == obs.len() as u64, "final bucket counts");
    Ok(out)
}
/// Observations of value 1 (bucket 1), 3 (bucket 4) and 5 (+Inf) by many calls; exact totals at the end, and every read
/// between what had returned and what had been called.
#[derive(Clone, Copy, Debug, PartialEq)]
enum RO {
    Obs(f64),
    Text,
    Parts,
}
#[derive(Clone, Debug, Default)]
struct RR {
    b: Vec<(f64, u64)>, // per bound, or per quantile: as in the text
    count: Option<u64>,
    sum: Option<f64>,
}
fn r_text(t: &str, key: &str) -> Result<RR, String> {
    let mut r = RR::default();
    for s in prom::samples(t)? {
        if let Some(le) = s.label(key) {
            r.b.push((prom::number(le)?, s.value as u64));
        } else if s.name.ends_with("_sum") {
            r.sum = Some(s.value);
        } else {
            r.count = Some(s.value as u64);
        }
    }
    Ok(r)
}
fn rh_exec(h: &Histogram, _t: usize, o: &RO) -> Result<RR, String> {
    match *o {
        RO::Obs(v) => h.observe(v),
        RO::Text => return r_text(&h.to_string(), "le"),
        RO::Parts => {
            let b = h.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect();
            return Ok(RR { b, count: Some(h.count()), sum: Some(h.sum()) });
        }
    }
    Ok(RR::default())
}
fn rs_exec(s: &Summary, _t: usize, o: &RO) -> Result<RR, String> {
    match *o {
        RO::Obs(v) => s.observe(v),
        RO::Text => return r_text(&s.to_string(), "quantile"),
        RO::Parts => {
            let b = s.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v as u64)).collect();
            return Ok(RR { b, count: Some(s.count()), sum: Some(s.sum()) });
        }
    }
    Ok(RR::default())
}
fn r_check(hist: &Hist<RO, Result<RR, String>>, fin: Result<RR, String>, quantiles: bool) -> Result<String, String> {
    let fin = Call { tid: 99, op: RO::Text, res: fin, call: u32::MAX - 1, ret: u32::MAX };
    for c in hist.iter().chain(Some(&fin)) {
        if let RO::Obs(_) = c.op {
            continue;
        }
        let r = c.res.clone()?;
        let (mut lo, mut hi) = (vec![], vec![]);
        for x in hist {
            if let RO::Obs(v) = x.op {
                if x.ret < c.call {
                    lo.push(v);
                }
                if x.call < c.ret {
                    hi.push(v);
                }
            }
        }
        if let Some(n) = r.count {
            between("count", lo.len() as u64, n, hi.len() as u64)?;
        }
        if let Some(s) = r.sum {
            let (a, b): (f64, f64) = (lo.iter().sum(), hi.iter().sum());
            ensure!(a <= s && s <= b, "sum {} is not between {} (returned) and {} (called)", s, a, b);
        }
        if quantiles {
            // Of a multiset between lo and hi: the value of rank floor(q*n) for some such n.
            ensure!(r.b.is_empty() == lo.is_empty() || (lo.is_empty() && !hi.is_empty()), "quantiles {:?} with {} samples returned", r.b, lo.len());
            let (mut l, mut h) = (lo.clone(), hi.clone());
            l.sort_by(|a, b| a.partial_cmp(b).unwrap());
            h.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if l.len() == h.len() {
                let want: Vec<(f64, u64)> = if l.is_empty() { vec![] } else { QS.iter().map(|q| (*q, l[((q * l.len() as f64) as usize).min(l.len() - 1)] as u64)).collect() };
                ensure!(r.b == want, "quantiles {:?} instead of {:?} of {} samples", r.b, want, l.len());
            }
            ensure!(r.b.windows(2).all(|w| w[0].1 <= w[1].1), "quantiles {:?} descend", r.b);
            ensure!(r.b.iter().all(|b| h.iter().any(|v| *v as u64 == b.1)), "quantiles {:?} are not values observed", r.b);
        } else {
            ensure!(r.b.iter().map(|b| b.0).eq([1.0, 4.0, f64::INFINITY]), "bounds {:?}", r.b);
            ensure!(r.b.windows(2).all(|w| w[0].1 <= w[1].1), "cumulative buckets {:?} descend", r.b);
            for b in &r.b {
                let n = |v: &Vec<f64>| v.iter().filter(|v| **v <= b.0).count() as u64;
                between(&format!("bucket {}", b.0), n(&lo), b.1, n(&hi))?;
            }
        }
    }
    Ok(String::new())
}
fn r_programs(long: usize) -> Vec<(Vec<RO>, Vec<RO>, u32, u32)> {
    let mut v = vec![];
    for a in [vec![RO::Obs(1.0); 2], vec![RO::Obs(5.0)], vec![RO::Text], vec![RO::Parts; 2], vec![RO::Obs(3.0), RO::Text]] {
        for w in [vec![RO::Obs(1.0)], vec![RO::Obs(5.0), RO::Obs(3.0)], vec![RO::Obs(3.0), RO::Parts]] {
            for (len, period, burst) in [(30, 6, 20), (long, 2, 12)] {
                v.push((a.clone(), w.iter().cycle().take(len).cloned().collect(), period, burst));
            }
        }
    }
    v
}
fn rp_programs(thorough: bool) -> Vec<(Vec<Vec<RO>>, Vec<RO>, usize)> {
    let mut v = vec![];
    let ops = [RO::Obs(1.0), RO::Obs(3.0), RO::Obs(5.0), RO::Text, RO::Parts];
    for before in [vec![RO::Obs(1.0)], vec![RO::Obs(5.0)], vec![RO::Obs(3.0), RO::Obs(1.0), RO::Obs(5.0)]] {
        for k in pasts(thorough) {
            for a in &ops[..3] {
                for b in ops {
                    if thorough || *a == b || k % 3 == 0 || matches!(b, RO::Text | RO::Parts) {
                        v.push((vec![vec![*a], vec![b]], before.clone(), k));
                    }
                    if thorough {
                        v.push((vec![vec![*a, *a], vec![b]], before.clone(), k));
                    }
                }
            }
        }
    }
    v
}
fn c03_past(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    for (n, (progs, before, k)) in rp_programs(ctx.thorough).into_iter().enumerate() {
        if mine(n, shard, of) {
            let check = Rc::new(|g: &Histogram, h: &Hist<RO, Result<RR, String>>| r_check(h, rh_exec(g, 0, &RO::Text), false));
            explore(ctx, &format!("{:?} after {} of {:?}", progs, k, before), &o, &|| {
                program_after(HistogramBuilder::new("h").bucket(1.0).bucket(4.0).finish().unwrap(), before.iter().cycle().take(k).cloned(), &progs, rh_exec, check.clone())
            });
        }
    }
}
fn c04_past(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    for (n, (progs, before, k)) in rp_programs(ctx.thorough).into_iter().enumerate() {
        if mine(n, shard, of) {
            let check = Rc::new(|g: &Summary, h: &Hist<RO, Result<RR, String>>| r_check(h, rs_exec(g, 0, &RO::Text), true));
            explore(ctx, &format!("{:?} after {} of {:?}", progs, k, before), &o, &|| {
                let mut b = SummaryBuilder::new("s", Duration::from_secs(60));
                for q in QS.iter() {
                    b.quantile(*q);
                }
                program_after(b.finish().unwrap(), before.iter().cycle().take(k).cloned(), &progs, rs_exec, check.clone())
            });
        }
    }
}
fn c03_relentless(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    for (n, (a, w, period, burst)) in r_programs(if ctx.thorough { 2000 } else { 300 }).into_iter().enumerate() {
        if mine(n, shard, of) {
            let check = Rc::new(|g: &Histogram, h: &Hist<RO, Result<RR, String>>| r_check(h, rh_exec(g, 0, &RO::Text), false));
            let label = format!("{:?} against {} x {:?}", a, w.len(), &w[..2]);
            let progs = vec![a, w];
            relentless(ctx, &label, &o, &[0], period, burst, &|| program(HistogramBuilder::new("h").bucket(1.0).bucket(4.0).finish().unwrap(), &progs, rh_exec, check.clone()));
        }
    }
}
fn c04_relentless(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    for (n, (a, w, period, burst)) in r_programs(if ctx.thorough { 2000 } else { 300 }).into_iter().enumerate() {
        if mine(n, shard, of) {
            let check = Rc::new(|g: &Summary, h: &Hist<RO, Result<RR, String>>| r_check(h, rs_exec(g, 0, &RO::Text), true));
            let label = format!("{:?} against {} x {:?}", a, w.len(), &w[..2]);
            let progs = vec![a, w];
            relentless(ctx, &label, &o, &[0], period, burst, &|| {
                let mut b = SummaryBuilder::new("s", Duration::from_secs(60));
                for q in QS.iter() {
                    b.quantile(*q);
                }
                program(b.finish().unwrap(), &progs, rs_exec, check.clone())
            });
        }
    }
}
/// Programs in which the n-th observation is of the n-th value.
fn numbered<T: Clone>(p: &[Vec<usize>], alphabet: &[T], obs: &dyn Fn(usize) -> T, perm: &[usize]) -> Option<Vec<Vec<T>>> {
    let mut n = 0;
    let mut r = Vec::new();
    for t in p {
        let mut v = Vec::new();
        for &i in t {
            if i == 0 {
                if n >= perm.len() {
                    return None;
                }
                v.push(obs(perm[n]));
                n += 1;
            } else {
                v.push(alphabet[i - 1].clone());
            }
        }
        r.push(v);
    }
    if n == 0 {
        None
    } else {
        Some(r)
    }
}
fn c03(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    let perms: [[usize; 4]; 2] = [[0, 1, 2, 3], [2, 1, 3, 0]];
    for lens in shapes(ctx.thorough) {
        let k = if lens.iter().sum::<usize>() > 4 { 3 } else { 5 };
        for p in thread_programs(k, &lens) {
            for perm in &perms {
                let progs = match numbered(&p, &[HO::Text, HO::Buckets, HO::Count, HO::Sum], &HO::Obs, perm) {
                    Some(x) => x,
                    None => continue,
                };
                n += 1;
                if mine(n, shard, of) {
                    let check = Rc::new(|g: &Histogram, h: &Hist<HO, Result<HR, String>>| h_check(g, h));
                    explore(ctx, &format!("{:?}", progs), &o, &|| {
                        let h = HistogramBuilder::new("h").bucket(1.0).bucket(4.0).finish().unwrap();
                        program(h, &progs, h_exec, check.clone())
                    });
                }
            }
        }
    }
}

// ---- C04 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum SO {
    Obs(usize),
    Quantiles,
    Count,
    Sum,
    Text,
}
#[derive(Clone, Debug, Default, PartialEq)]
struct SR {
    q: Option<Vec<(f64, f64)>>,
    count: Option<u64>,
    sum: Option<f64>,
}
fn s_exec(s: &Summary, _t: usize, o: &SO) -> Result<SR, String> {
    let mut r = SR::default();
    match o {
        SO::Obs(i) => s.observe(HV[*i]),
        SO::Quantiles => r.q = Some(s.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect()),
        SO::Count => r.count = Some(s.count()),
        SO::Sum => r.sum = Some(s.sum()),
        SO::Text => {
            let mut q = Vec::new();
            for s in prom::samples(&s.to_string())? {
                if let Some(l) = s.label("quantile") {
                    q.push((prom::number(l)?, s.value));
                } else if s.name == "s_sum" {
                    r.sum = Some(s.value);
                } else {
                    r.count = Some(s.value as u64);
                }
            }
            r.q = Some(q);
        }
    }
    Ok(r)
}
const QS: [f64; 3] = [0.0, 0.5, 0.9];
fn quantiles_of(mask: u32) -> Vec<(f64, f64)> {
    let v: Vec<f64> = (0..HV.len()).filter(|i| mask & (1 << i) != 0).map(|i| HV[i]).collect();
    if v.is_empty() {
        return vec![];
    }
    QS.iter().map(|q| (*q, v[((q * v.len() as f64).floor() as usize).min(v.len() - 1)])).collect()
}
fn s_check(s: &Summary, hist: &Hist<SO, Result<SR, String>>) -> Result<String, String> {
    let obs: Vec<(usize, u32, u32)> = hist.iter().filter_map(|c| if let SO::Obs(i) = c.op { Some((i, c.call, c.ret)) } else { None }).collect();
    let mut out = String::new();
    let fin = Call { tid: 9, op: SO::Text, res: s_exec(s, 0, &SO::Text), call: u32::MAX - 1, ret: u32::MAX };
    for c in hist.iter().chain(Some(&fin)) {
        if let SO::Obs(_) = c.op {
            continue;
        }
        let r = c.res.clone()?;
        let lo: u32 = obs.iter().filter(|o| o.2 < c.call).map(|o| 1u32 << o.0).sum();
        let hi: u32 = obs.iter().filter(|o| o.1 < c.ret).map(|o| 1u32 << o.0).sum();
        if let Some(n) = r.count {
            between("count", lo.count_ones() as u64, n, hi.count_ones() as u64)?;
        }
        if let Some(v) = r.sum {
            decode(v, lo, hi)?;
        }
        if let Some(q) = &r.q {
            let ok = (0..16u32).any(|m| m & lo == lo && m & !hi == 0 && &quantiles_of(m) == q);
            ensure!(ok, "quantiles {:?} are not those of the samples (returned: {:#b}, called: {:#b} of {:?})", q, lo, hi, HV);
        }
        out += &format!("{:?}/{:?}/{:?} ", r.q.map(|q| q.iter().map(|x| x.1).collect::<Vec<_>>()), r.count, r.sum);
    }
    ensure!(s.count() == obs.len() as u64, "final count {}", s.count());
    Ok(out)
}
fn c04(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    let perms: [[usize; 4]; 2] = [[0, 1, 2, 3], [2, 1, 3, 0]];
    for lens in shapes(ctx.thorough) {
        let k = if lens.iter().sum::<usize>() > 4 { 3 } else { 5 };
        for p in thread_programs(k, &lens) {
            for perm in &perms {
                let progs = match numbered(&p, &[SO::Quantiles, SO::Text, SO::Count, SO::Sum], &SO::Obs, perm) {
                    Some(x) => x,
                    None => continue,
                };
                n += 1;
                if mine(n, shard, of) {
                    let check = Rc::new(|g: &Summary, h: &Hist<SO, Result<SR, String>>| s_check(g, h));
                    explore(ctx, &format!("{:?}", progs), &o, &|| {
                        let mut b = SummaryBuilder::new("s", Duration::from_secs(60));
                        for q in QS.iter() {
                            b.quantile(*q);
                        }
                        program(b.finish().unwrap(), &progs, s_exec, check.clone())
                    });
                }
            }
        }
    }
}
/// Samples that expire while others arrive: a thread moves the clock past the window.
fn c04_expiry(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let words: [&str; 8] = ["o", "q", "A", "oq", "Aq", "Ao", "qq", "oo"];
    let mut n = 0;
    for a in words.iter() {
        for b in words.iter() {
            if !(a.contains('A') || b.contains('A')) || !(a.contains('o') || b.contains('o')) {
                continue;
            }
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            explore(ctx, &format!("expiry [{}] [{}]", a, b), &o, &|| {
                // Value 8 is observed before the threads start; the clock then stands one nanosecond before its expiry.
                let mut sb = SummaryBuilder::new("s", Duration::from_secs(60));
                sb.quantile(0.0).quantile(0.9);
                let s = Rc::new(sb.finish().unwrap());
                s.observe(8.0);
                rt::advance(60_000_000_000);
                let nobs = Rc::new(RefCell::new(0usize));
                // (value, call, ret), (advance call, ret), reads
                let obs: Rc<RefCell<Vec<(usize, u32, u32)>>> = Rc::default();
                let adv: Rc<RefCell<Vec<(u32, u32)>>> = Rc::default();
                let reads: Rc<RefCell<Vec<(Vec<f64>, u32, u32)>>> = Rc::default();
                let threads = [a, b]
                    .iter()
                    .map(|w| {
                        let (s, nobs, obs, adv, reads, w) = (s.clone(), nobs.clone(), obs.clone(), adv.clone(), reads.clone(), w.to_string());
                        Box::new(move || {
                            for c in w.chars() {
                                match c {
                                    'o' => {
                                        let i = *nobs.borrow();
                                        *nobs.borrow_mut() += 1;
                                        let (_, a, b) = rt::op(|| s.observe(HV[i]));
                                        obs.borrow_mut().push((i, a, b));
                                    }
                                    'A' => {
                                        let (_, a, b) = rt::op(|| rt::advance(1_000_000_000));
                                        adv.borrow_mut().push((a, b));
                                    }
                                    _ => {
                                        let (q, a, b) = rt::op(|| s.quantiles().into_iter().map(|x| x.1).collect::<Vec<_>>());
                                        reads.borrow_mut().push((q, a, b));
                                    }
                                }
                            }
                        }) as Box<dyn FnOnce()>
                    })
                    .collect();
                Exec {
                    threads,
                    finish: Box::new(move || {
                        let n = obs.borrow().len();
                        let fin = (s.quantiles().into_iter().map(|x| x.1).collect::<Vec<_>>(), u32::MAX - 1, u32::MAX);
                        let mut out = String::new();
                        for r in reads.borrow().iter().chain(Some(&fin)) {
                            let lo: u32 = obs.borrow().iter().filter(|o| o.2 < r.1).map(|o| 1u32 << o.0).sum();
                            let hi: u32 = obs.borrow().iter().filter(|o| o.1 < r.2).map(|o| 1u32 << o.0).sum();
                            let gone = adv.borrow().iter().any(|x| x.1 < r.1);
                            let may_go = adv.borrow().iter().any(|x| x.0 < r.2);
                            // The old sample is in the window unless the clock moved; observations of the threads stay in.
                            let fits = |m: u32| {
                                let v: Vec<f64> = (0..4).filter(|i| m & (1 << i) != 0).map(|i| HV[i]).collect();
                                if v.is_empty() { r.0.is_empty() } else { r.0 == vec![v[0], v[((0.9 * v.len() as f64) as usize).min(v.len() - 1)]] }
                            };
                            let ok = (0..8u32).any(|m| m & lo == lo && m & !hi == 0 && ((!gone && fits(m | 8)) || (may_go && fits(m))));
                            ensure!(ok, "quantiles {:?} (lowest, 0.9) do not fit: returned {:#b}, called {:#b}, clock moved before: {}, may have moved: {}", r.0, lo, hi, gone, may_go);
                            out += &format!("{:?} ", r.0);
                        }
                        ensure!(s.count() == 1 + n as u64, "count {}", s.count());
                        Ok(out)
                    }),
                }
            });
        }
    }
}

// ---- C05 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum LO {
    Ins(&'static str, &'static str),
    Rem(&'static str),
    Clear,
    Iter,
    Text,
    Len,
    Empty,
    Has(&'static str), // what `get` refers to is not looked at: see L02
}
type LM = BTreeMap<String, String>;
struct LS {
    c: Vec<RefCell<Counter>>,
}
fn l_exec(s: &LS, t: usize, o: &LO) -> Result<Option<Vec<(String, String)>>, String> {
    let mut c = s.c[t].borrow_mut();
    match *o {
        LO::Ins(n, v) => c.labels_mut().insert(n, v).map_err(|e| e.to_string())?,
        LO::Rem(n) => c.labels_mut().remove(n),
        LO::Clear => c.labels_mut().clear(),
        LO::Iter => return Ok(Some(c.labels().iter().map(|l| (l.name().to_string(), l.value().to_string())).collect())),
        LO::Text => {
            let t = c.labels().to_string();
            let s = prom::sample(&format!("x{} 1", t)).map_err(|e| format!("labels printed {:?}: {}", t, e))?;
            return Ok(Some(s.labels));
        }
        LO::Len => return Ok(Some(vec![("len".into(), c.labels().len().to_string())])),
        LO::Empty => return Ok(Some(vec![("empty".into(), c.labels().is_empty().to_string())])),
        LO::Has(n) => return Ok(Some(vec![("has".into(), c.labels().get(n).is_some().to_string())])),
    }
    Ok(None)
}
fn l_step(s: &mut LM, c: &Call<LO, Result<Option<Vec<(String, String)>>, String>>) -> bool {
    let answer = |want: String| matches!(&c.res, Ok(Some(v)) if v[0].1 == want);
    match c.op {
        LO::Ins(n, v) => {
            s.insert(n.into(), v.into());
        }
        LO::Rem(n) => {
            s.remove(n);
        }
        LO::Clear => s.clear(),
        LO::Iter | LO::Text => {
            return match &c.res {
                Ok(Some(v)) => v.iter().map(|x| (&x.0, &x.1)).eq(s.iter()),
                _ => false,
            }
        }
        LO::Len => return answer(s.len().to_string()),
        LO::Empty => return answer(s.is_empty().to_string()),
        LO::Has(n) => return answer(s.contains_key(n).to_string()),
    }
    true
}
fn l_check(init: &LM, s: &LS, h: &Hist<LO, Result<Option<Vec<(String, String)>>, String>>) -> Result<String, String> {
    for c in h {
        if let Err(e) = &c.res {
            return Err(e.clone());
        }
    }
    let fin: Vec<(String, String)> = s.c[0].borrow().labels().iter().map(|l| (l.name().to_string(), l.value().to_string())).collect();
    ensure!(linearizable(h, init, &l_step, &|m| fin.iter().map(|x| (&x.0, &x.1)).eq(m.iter())), "no one-at-a-time order of the calls explains what was read and the final labels {:?}", fin);
    Ok(format!("{:?}", fin))
}
const LOPS: [LO; 10] = [LO::Iter, LO::Ins("b", "1"), LO::Rem("a"), LO::Ins("a", "2"), LO::Clear, LO::Text, LO::Ins("c", "3"), LO::Len, LO::Has("a"), LO::Empty];
fn l_reads(o: &LO) -> bool {
    matches!(o, LO::Iter | LO::Text | LO::Len | LO::Has(_) | LO::Empty)
}
fn c05(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut n = 0;
    let mut list: Vec<(usize, Vec<usize>)> = vec![(10, vec![1, 1]), (10, vec![1, 2]), (4, vec![2, 2]), (4, vec![1, 1, 1])];
    if ctx.thorough {
        list = vec![(10, vec![1, 1]), (10, vec![1, 2]), (6, vec![2, 2]), (5, vec![1, 1, 1]), (5, vec![1, 3]), (4, vec![1, 1, 2])];
    }
    let o = Opts { forked: false, gated: false,
        full_execs: 0, // addresses of freed memory are reused: steps at different addresses need not commute
        max_preempt: if ctx.thorough { 4 } else { 2 },
        bounded_execs: if ctx.thorough { 400_000 } else { 20_000 },
        wall_s: if ctx.thorough { 90 } else { 20 },
        quarantine: false,
    };
    for (k, lens) in list {
        for p in thread_programs(k, &lens) {
            let progs: Vec<Vec<LO>> = p.iter().map(|t| t.iter().map(|&i| LOPS[i]).collect()).collect();
            if progs.iter().flatten().all(l_reads) {
                continue;
            }
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            let init: LM = [("a".to_string(), "0".to_string())].into_iter().collect();
            let i2 = init.clone();
            let check = Rc::new(move |s: &LS, h: &Hist<LO, Result<Option<Vec<(String, String)>>, String>>| l_check(&i2, s, h));
            explore(ctx, &format!("{:?}", progs), &o, &|| {
                let c = CounterBuilder::new("c").label("a", "0").finish().unwrap();
                program(LS { c: (0..3).map(|_| RefCell::new(c.clone())).collect() }, &progs, l_exec, check.clone())
            });
        }
    }
}
fn c05_relentless(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut n = 0;
    let o = opts(ctx);
    for v in LOPS {
        for w in [vec![LO::Ins("b", "1"), LO::Rem("b")], vec![LO::Ins("a", "2"), LO::Ins("a", "0")], vec![LO::Clear, LO::Ins("c", "3")]] {
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            let init: LM = [("a".to_string(), "0".to_string())].into_iter().collect();
            let i2 = init.clone();
            let check = Rc::new(move |s: &LS, h: &Hist<LO, Result<Option<Vec<(String, String)>>, String>>| l_check(&i2, s, h).map(|_| String::new()));
            for (len, period, burst) in [(20, if ctx.thorough { 12 } else { 5 }, if ctx.thorough { 60 } else { 40 }), (if ctx.thorough { 400 } else { 100 }, 1, 30)] {
                let progs = vec![vec![v, v], w.iter().cycle().take(len).cloned().collect::<Vec<_>>()];
                relentless(ctx, &format!("{:?} against {} x {:?}", v, len, w), &o, &[0], period, burst, &|| {
                    let c = CounterBuilder::new("c").label("a", "0").finish().unwrap();
                    program(LS { c: (0..2).map(|_| RefCell::new(c.clone())).collect() }, &progs, l_exec, check.clone())
                });
            }
        }
    }
}
/// Short programs on a metric with many labels, or one whose labels changed often before.
fn c05_past(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut n = 0;
    let mut o = opts(ctx);
    o.full_execs = 0;
    o.max_preempt = if ctx.thorough { 3 } else { 2 };
    o.bounded_execs = if ctx.thorough { 100_000 } else { 1_500 };
    let mut pasts: Vec<(usize, usize)> = vec![];
    for many in [4, 5, 7, 8, 9, 15, 16, 17, 20, 21, 31, 32, 33] {
        pasts.push((many, 0));
    }
    for changes in self::pasts(ctx.thorough) {
        pasts.push((1, changes));
    }
    for (many, changes) in pasts {
        for a in [LO::Ins("b", "1"), LO::Rem("a"), LO::Ins("a", "2"), LO::Clear, LO::Ins("zz", "9"), LO::Ins("m05", "9"), LO::Rem("m07")] {
            for b in [LO::Iter, LO::Text, LO::Ins("c", "3"), LO::Ins("a", "7"), LO::Rem("m03"), LO::Clear] {
                if !ctx.thorough && changes > 0 && matches!(b, LO::Text | LO::Clear) || many == 1 && matches!(a, LO::Ins("m05", _) | LO::Rem("m07")) {
                    continue;
                }
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                let init: LM = std::iter::once(("a".to_string(), "0".to_string())).chain((1..many).map(|i| (format!("m{:02}", i), "v".to_string()))).collect();
                let i2 = init.clone();
                let check = Rc::new(move |s: &LS, h: &Hist<LO, Result<Option<Vec<(String, String)>>, String>>| l_check(&i2, s, h));
                explore(ctx, &format!("{:?} and {:?} with {} labels after {} changes", a, b, many, changes), &o, &|| {
                    let mut cb = CounterBuilder::new("c");
                    for (n, v) in init.iter() {
                        cb.label(n, v);
                    }
                    let mut c = cb.finish().unwrap();
                    for i in 0..changes {
                        match i % 4 {
                            0 => c.labels_mut().insert("k", "1").unwrap(),
                            1 => c.labels_mut().insert("a", "5").unwrap(),
                            2 => c.labels_mut().remove("k"),
                            _ => c.labels_mut().insert("a", "0").unwrap(),
                        }
                    }
                    c.labels_mut().remove("k");
                    c.labels_mut().insert("a", "0").unwrap();
                    program(LS { c: (0..2).map(|_| RefCell::new(c.clone())).collect() }, &[vec![a], vec![b, LO::Iter]], l_exec, check.clone())
                });
            }
        }
    }
}
/// The same with the full, sleep-set reduced search and no reuse of memory: all interleavings of short programs.
fn c05_full(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut n = 0;
    let mut o = opts(ctx);
    o.quarantine = true;
    for lens in if ctx.thorough { vec![vec![1, 1], vec![1, 2], vec![1, 1, 1]] } else { vec![vec![1, 1]] } {
        for p in thread_programs(if lens.len() == 3 { 4 } else { 10 }, &lens) {
            let progs: Vec<Vec<LO>> = p.iter().map(|t| t.iter().map(|&i| LOPS[i]).collect()).collect();
            if progs.iter().flatten().all(l_reads) {
                continue;
            }
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            let init: LM = [("a".to_string(), "0".to_string())].into_iter().collect();
            let i2 = init.clone();
            let check = Rc::new(move |s: &LS, h: &Hist<LO, Result<Option<Vec<(String, String)>>, String>>| l_check(&i2, s, h));
            explore(ctx, &format!("full {:?}", progs), &o, &|| {
                let c = CounterBuilder::new("c").label("a", "0").finish().unwrap();
                program(LS { c: (0..3).map(|_| RefCell::new(c.clone())).collect() }, &progs, l_exec, check.clone())
            });
        }
    }
}
/// Gathering and printing a metric of each kind while its labels change: both complete, with well-formed text in which
/// every label set is one that existed.
fn c05_gather(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = Opts { forked: false, gated: false, full_execs: 0, max_preempt: if ctx.thorough { 3 } else { 2 }, bounded_execs: if ctx.thorough { 200_000 } else { 15_000 }, wall_s: if ctx.thorough { 90 } else { 20 }, quarantine: false };
    let mut n = 0;
    for kind in 0..4 {
        for change in 0..4 {
            for (two, direct) in [(false, false), (true, false), (false, true)] {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                let label = format!("{} while labels change: kind {} change {} {}", if direct { "text" } else { "gather" }, kind, change, if two { "two metrics" } else { "" });
                explore(ctx, &label, &o, &|| {
                    let gatherer = Rc::new(RefCell::new(Gatherer::new()));
                    let reg = gatherer.borrow().registry();
                    let m = crate::make::Any::build(kind, "m", &[("a", "0")], Some(&reg));
                    let m2 = if two { Some(crate::make::Any::build(kind, "m", &[("a", "1")], Some(&reg))) } else { None };
                    let text: Rc<RefCell<String>> = Rc::default();
                    let (g2, t2) = (gatherer.clone(), text.clone());
                    let mut mm = m.clone();
                    let md = m.clone();
                    let ops: Vec<LO> = match change {
                        0 => vec![LO::Ins("b", "1")],
                        1 => vec![LO::Rem("a")],
                        2 => vec![LO::Ins("a", "1"), LO::Ins("c", "3")],
                        _ => vec![LO::Clear, LO::Ins("b", "1")],
                    };
                    let ops2 = ops.clone();
                    Exec {
                        threads: vec![
                            Box::new(move || {
                                *t2.borrow_mut() = if direct { md.text() } else { g2.borrow_mut().gather().to_text() };
                            }),
                            Box::new(move || {
                                for o in ops2 {
                                    match o {
                                        LO::Ins(n, v) => mm.labels_mut().insert(n, v).unwrap(),
                                        LO::Rem(n) => mm.labels_mut().remove(n),
                                        _ => mm.labels_mut().clear(),
                                    }
                                }
                                std::mem::forget(mm);
                            }),
                        ],
                        finish: Box::new(move || {
                            // label sets that existed
                            let mut s: LM = [("a".to_string(), "0".to_string())].into_iter().collect();
                            let mut sets = vec![s.clone(), [("a".to_string(), "1".to_string())].into_iter().collect()];
                            for o in &ops {
                                match *o {
                                    LO::Ins(n, v) => drop(s.insert(n.into(), v.into())),
                                    LO::Rem(n) => drop(s.remove(n)),
                                    _ => s.clear(),
                                }
                                sets.push(s.clone());
                            }
                            let mut before: Option<LM> = None;
                            for l in text.borrow().lines().filter(|l| !l.starts_with('#')) {
                                let smp = prom::sample(l).map_err(|e| format!("{} in line {:?}", e, l))?;
                                let set: LM = smp.labels.iter().filter(|l| l.0 != "le" && l.0 != "quantile").cloned().collect();
                                ensure!(sets.contains(&set), "line {:?} has labels {:?}, a set the metric never had", l, set);
                                // All lines of one metric show the same instant.
                                ensure!(before.map_or(true, |b| b == set), "the lines of one metric have different labels:\n{}", text.borrow());
                                before = if kind < 2 || smp.name == "m_count" { None } else { Some(set) };
                            }
                            let after = gatherer.borrow_mut().gather().to_text();
                            let f = prom::parse(&after)?;
                            ensure!(f.len() == 1, "after the change: {}", after);
                            drop((m, m2));
                            Ok(work::fnv(text.borrow().as_bytes()).to_string())
                        }),
                    }
                });
            }
        }
    }
}

// ---- T01 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum TO {
    Get,
    Set(i64),
    Time(i64),
    Clear,
    Text,
    Gather,
}
const TOPS: [TO; 7] = [TO::Get, TO::Set(7), TO::Clear, TO::Set(-1 << 40), TO::Text, TO::Time(1_500_000), TO::Gather];
struct TS {
    m: crate::make::Any,
    g: RefCell<Gatherer>,
}
fn t_exec(s: &TS, _t: usize, o: &TO) -> Result<Vec<Option<i64>>, String> {
    match *o {
        TO::Get => return Ok(vec![s.m.timestamp().get()]),
        TO::Set(v) => s.m.timestamp_mut().set(v),
        TO::Time(ns) => s.m.timestamp_mut().set_time(std::time::UNIX_EPOCH + Duration::from_nanos(ns as u64)),
        TO::Clear => s.m.timestamp_mut().clear(),
        TO::Text => return Ok(prom::samples(&s.m.text())?.iter().map(|s| s.timestamp).collect()),
        TO::Gather => {
            let fs = s.g.borrow_mut().gather();
            let r: Vec<Option<i64>> = crate::make::entries(fs.as_ref()).iter().map(|e| e.timestamp).collect();
            let text: Vec<Option<i64>> = prom::parse(&fs.to_text())?.iter().flat_map(|f| &f.samples).map(|s| s.timestamp).collect();
            ensure!(r.len() == 1 && !text.is_empty() && text.iter().all(|t| *t == text[0]), "in a gathering of one metric there are timestamps {:?}, in its text {:?}", r, text);
            return Ok(vec![r[0], text[0]]);
        }
    }
    Ok(vec![])
}
fn t_check(s: &TS, init: Option<i64>, h: &Hist<TO, Result<Vec<Option<i64>>, String>>) -> Result<String, String> {
    // A text is one reading, at some time during the call; a gathering may be two (its accessors may show the present).
    let mut calls: Vec<Call<TO, Option<i64>>> = vec![];
    let mut out = String::new();
    for c in h {
        let r = c.res.clone()?;
        if matches!(c.op, TO::Set(_) | TO::Time(_) | TO::Clear) {
            calls.push(Call { tid: c.tid, op: c.op, res: None, call: c.call, ret: c.ret });
            continue;
        }
        ensure!(!r.is_empty(), "{:?} shows no sample at all", c.op);
        ensure!(c.op != TO::Text || r.iter().all(|v| *v == r[0]), "the lines of one metric have different timestamps: {:?}", r);
        out += &format!("{:?} ", r);
        for v in if c.op == TO::Text { &r[..1] } else { &r[..] } {
            let tid = 100 + calls.len();
            calls.push(Call { tid, op: TO::Get, res: *v, call: c.call, ret: c.ret });
        }
    }
    let step = |s: &mut Option<i64>, c: &Call<TO, Option<i64>>| {
        match c.op {
            TO::Set(v) => *s = Some(v),
            TO::Time(ns) => *s = Some(ns / 1_000_000),
            TO::Clear => *s = None,
            _ => return *s == c.res,
        }
        true
    };
    let fin = s.m.timestamp().get();
    ensure!(linearizable(&calls, &init, &step, &|s| *s == fin), "no one-at-a-time order of the calls explains the timestamps seen and the final one, {:?}", fin);
    let t = s.m.text();
    ensure!(prom::samples(&t)?.iter().all(|s| s.timestamp == fin), "the final timestamp is {:?}, the text is {:?}", fin, t);
    Ok(format!("{}final {:?}", out, fin))
}
fn t01_conc(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let mut n = 0;
    for lens in shapes(ctx.thorough) {
        let k = match lens.iter().sum::<usize>() {
            0..=3 => 7,
            4 => 5,
            _ => 4,
        };
        for p in thread_programs(k, &lens) {
            let progs: Vec<Vec<TO>> = p.iter().map(|t| t.iter().map(|&i| TOPS[i]).collect()).collect();
            // One thread at most can gather (it takes the gatherer exclusively).
            let writes = progs.iter().flatten().any(|o| matches!(o, TO::Set(_) | TO::Time(_) | TO::Clear));
            if !writes || progs.iter().filter(|t| t.contains(&TO::Gather)).count() > 1 {
                continue;
            }
            for init in [None, Some(3)] {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                let check = Rc::new(move |s: &TS, h: &Hist<TO, Result<Vec<Option<i64>>, String>>| t_check(s, init, h));
                explore(ctx, &format!("{}: from {:?}: {:?}", crate::make::KINDS[n / of % 4], init, progs), &o, &|| {
                    let g = Gatherer::new();
                    let mut b = crate::make::AnyB::new(n / of % 4, "m");
                    b.registry(g.registry());
                    let m = b.finish().unwrap();
                    if let Some(v) = init {
                        m.timestamp_mut().set(v);
                    }
                    program(TS { m, g: RefCell::new(g) }, &progs, t_exec, check.clone())
                });
            }
        }
    }
}

fn t01_exit(ctx: &mut Ctx, shard: usize, of: usize) {
    let kind = Cell::new(0);
    let ops: Vec<TO> = TOPS.iter().copied().filter(|o| !matches!(o, TO::Gather)).collect();
    for k in 0..4 {
        kind.set(k);
        let state = || {
            let g = Gatherer::new();
            let mut b = crate::make::AnyB::new(kind.get(), "m");
            b.registry(g.registry());
            TS { m: b.finish().unwrap(), g: RefCell::new(g) }
        };
        exits(ctx, (shard, of), &ops, &state, t_exec, Rc::new(move |s: &TS, h: &Hist<TO, Result<Vec<Option<i64>>, String>>| t_check(s, None, h).map(|_| String::new())));
    }
}
fn t01_late(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = late_opts(ctx);
    let mut n = 0;
    for at in arrivals(ctx.thorough) {
        for a in TOPS.iter().filter(|o| matches!(o, TO::Set(_) | TO::Time(_) | TO::Clear)) {
            for b in TOPS {
                n += 1;
                if !mine(n, shard, of) {
                    continue;
                }
                let check = Rc::new(move |s: &TS, h: &Hist<TO, Result<Vec<Option<i64>>, String>>| t_check(s, None, h).map(|_| String::new()));
                explore(ctx, &format!("{}: {:?} and {:?} on {:?} of threads", crate::make::KINDS[n / of % 4], a, b, at), &o, &|| {
                    let g = Gatherer::new();
                    let mut mb = crate::make::AnyB::new(n / of % 4, "m");
                    mb.registry(g.registry());
                    late(TS { m: mb.finish().unwrap(), g: RefCell::new(g) }, at, &|j| if j == 0 { *a } else { TOPS[j % TOPS.len()] }, &[*a], &[b], t_exec, check.clone())
                });
            }
        }
    }
}

// ---- D01 -----------------------------------------------------------------------------------------------------------
/// Timing in several threads at once.  't': timing of a closure during which the clock advances, 'n': the same with
/// another one inside, 'a': the clock advances, 'w': the wall clock steps, 'b': an update.
fn d01_conc(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = opts(ctx);
    let words = ["t", "n", "a", "w", "b", "tt", "at", "ta", "wt"];
    let mut n = 0;
    let mut progs: Vec<Vec<&str>> = vec![];
    for a in words {
        for b in words {
            progs.push(vec![a, b]);
            if ctx.thorough || a.len() + b.len() == 2 {
                progs.push(vec![a, b, "t"]);
            }
        }
    }
    for kind in 0..4 {
        for p in &progs {
            if !p.iter().any(|w| w.contains(['t', 'n'])) {
                continue;
            }
            n += 1;
            if !mine(n, shard, of) {
                continue;
            }
            #[derive(Clone, Default)]
            struct Rec {
                spans: Rc<RefCell<Vec<(f64, f64)>>>, // at least, at most
                adds: Rc<std::cell::Cell<u32>>,
            }
            fn now() -> std::time::Instant {
                std::time::Instant::now()
            }
            fn timing(m: &crate::make::Any, r: &Rec, d: i64, depth: u32) {
                let t0 = now();
                let x = m.time(|| {
                    let a = now();
                    rt::advance(d);
                    if depth > 0 {
                        timing(m, r, 2 * d, depth - 1);
                    }
                    (now() - a).as_secs_f64()
                });
                let all = (now() - t0).as_secs_f64();
                r.spans.borrow_mut().push((x, all));
            }
            explore(ctx, &format!("{} timed by {:?}", crate::make::KINDS[kind], p), &o, &|| {
                let m = match kind {
                    3 => crate::make::Any::S(SummaryBuilder::new("m", Duration::MAX).quantile(0.0).quantile(0.5).quantile(1.0).finish().unwrap()),
                    2 => crate::make::Any::H(HistogramBuilder::new("m").bucket(0.5).bucket(0.25).finish().unwrap()),
                    k => crate::make::AnyB::new(k, "m").finish().unwrap(),
                };
                let rec = Rec::default();
                let threads = p
                    .iter()
                    .enumerate()
                    .map(|(tid, w)| {
                        let (m, rec, w) = (m.clone(), rec.clone(), w.to_string());
                        Box::new(move || {
                            for (k, c) in w.chars().enumerate() {
                                let d = 125_000_000i64 << (tid + 3 * k);
                                match c {
                                    't' => timing(&m, &rec, d, 0),
                                    'n' => timing(&m, &rec, d, 1),
                                    'a' => rt::advance(d),
                                    'w' => rt::step_wall(-3_600_000_000_000),
                                    _ => {
                                        if kind != 1 {
                                            m.bump(0.0);
                                            rec.adds.set(rec.adds.get() + 1);
                                        }
                                    }
                                }
                            }
                        }) as Box<dyn FnOnce()>
                    })
                    .collect();
                Exec {
                    threads,
                    finish: Box::new(move || {
                        let sp = rec.spans.borrow();
                        let (lo, hi): (f64, f64) = (sp.iter().map(|s| s.0).sum(), sp.iter().map(|s| s.1).sum());
                        let (v, e) = (m.total(), 1e-9);
                        if kind == 1 {
                            ensure!(sp.iter().any(|s| s.0 - e <= v && v <= s.1 + e), "the gauge is {}, which none of the timings took (at least, at most): {:?}", v, sp);
                        } else {
                            ensure!(lo - e <= v && v <= hi + e, "{} seconds recorded, the timings took (at least, at most) {:?}", v, sp);
                        }
                        let n = sp.len() as u64 + rec.adds.get() as u64;
                        if let Some(ev) = m.events() {
                            ensure!(ev == n, "{} observations of {} timings and updates", ev, n);
                        }
                        // Of the recorded durations, taken in order, the k-th lies between the k-th least and the k-th most.
                        let zeros = vec![0.0; rec.adds.get() as usize];
                        let (mut a, mut b): (Vec<f64>, Vec<f64>) = (sp.iter().map(|s| s.0).chain(zeros.clone()).collect(), sp.iter().map(|s| s.1).chain(zeros).collect());
                        a.sort_by(|x, y| x.partial_cmp(y).unwrap());
                        b.sort_by(|x, y| x.partial_cmp(y).unwrap());
                        match &m {
                            crate::make::Any::S(s) => {
                                for (q, v) in s.quantiles() {
                                    let k = ((q.as_f64() * n as f64) as usize).min(n as usize - 1);
                                    ensure!(a[k] - e <= v && v <= b[k] + e, "the recorded duration of rank {} is {}, the timings took (at least, at most) {:?}", k, v, sp);
                                }
                            }
                            crate::make::Any::H(h) => {
                                for c in h.cumulative_buckets() {
                                    let (at_least, at_most) = (b.iter().filter(|x| **x <= c.upper_bound() - e).count() as u64, a.iter().filter(|x| **x <= c.upper_bound() + e).count() as u64);
                                    ensure!(at_least <= c.cumulative_count() && c.cumulative_count() <= at_most, "{} observations up to {}, the timings took (at least, at most) {:?}", c.cumulative_count(), c.upper_bound(), sp);
                                }
                            }
                            _ => {}
                        }
                        Ok(format!("{}", v))
                    }),
                }
            });
        }
    }
}

pub fn scenarios(id: &str, _thorough: bool) -> Vec<Scenario> {
    let mut v = Vec::new();
    match id {
        "C01" => { v.extend(sharded("counter", 8, c01));
            v.extend(sharded("counter-huge", 4, c01_huge));
            v.extend(sharded("counter-past", 8, c01_past));
            v.extend(sharded("counter-late", 8, c01_late));
            v.extend(sharded("counter-relentless", 8, c01_relentless));
            v.extend(sharded("counter-exit", 8, c01_exit)) },
        "C02" => {
            v.extend(sharded("gauge", 8, c02));
            v.extend(sharded("gauge-past", 8, c02_past));
            v.extend(sharded("gauge-late", 8, c02_late));
            v.extend(sharded("gauge-relentless", 8, c02_relentless));
            v.extend(sharded("gauge-exit", 8, c02_exit));
            v.extend(sharded("in-progress", 4, c02_track));
        }
        "C03" => { v.extend(sharded("histogram", 8, c03));
            v.extend(sharded("histogram-past", 8, c03_past));
            v.extend(sharded("histogram-late", 8, c03_late));
            v.extend(sharded("histogram-relentless", 8, c03_relentless));
            v.extend(sharded("histogram-exit", 8, c03_exit)) },
        "C04" => {
            v.extend(sharded("summary", 8, c04));
            v.extend(sharded("summary-past", 8, c04_past));
            v.extend(sharded("summary-late", 8, c04_late));
            v.extend(sharded("summary-relentless", 8, c04_relentless));
            v.extend(sharded("summary-exit", 8, c04_exit));
            v.extend(sharded("expiry", 2, c04_expiry));
        }
        "C05" => {
            v.extend(sharded("labels", 8, c05));
            v.extend(sharded("labels-late", 8, c05_late));
            v.extend(sharded("labels-relentless", 8, c05_relentless));
            v.extend(sharded("labels-exit", 8, c05_exit));
            v.extend(sharded("labels-full", 4, c05_full));
            v.extend(sharded("labels-past", 8, c05_past));
            v.extend(sharded("labels-gather", 4, c05_gather));
        }
        "T01" => {
            v.extend(sharded("concurrent", 8, t01_conc));
            v.extend(sharded("late", 8, t01_late));
            v.extend(sharded("exit", 8, t01_exit));
        }
        "D01" => v.extend(sharded("concurrent", 8, d01_conc)),
        _ => {}
    }
    v
}
