//! A01, A02, H01, H02, S01: what single metrics record.
use crate::ensure;
use crate::make::labels_of;
use crate::rt;
use crate::util::*;
use crate::work::{Ctx, Scenario};
use prometrics::metrics::*;
use prometrics::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub fn invalid<T>(r: Result<T, prometrics::Error>) -> Result<(), String> {
    match r {
        Ok(_) => Err("accepted".into()),
        Err(e) if *e.kind() == ErrorKind::InvalidInput => Ok(()),
        Err(e) => Err(format!("refused with the wrong kind of error {:?}", e.kind())),
    }
}
pub fn up(v: f64) -> f64 {
    v.next_up()
}
pub fn down(v: f64) -> f64 {
    v.next_down()
}
const P: fn(i32) -> f64 = |e| 2f64.powi(e);

// ---- A01 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum CO {
    Inc,
    Add(f64),
    AddU(u64),
}
fn c_ops(thorough: bool) -> Vec<CO> {
    use CO::*;
    let mut v = vec![Inc];
    v.extend([0.0, -0.0, 5e-324, 0.1, 0.5, 1.0, 1.5, 3.75, 1e-9].map(Add));
    v.extend([P(31), P(32) - 1.0, P(32), P(32) + 0.5, P(52) + 0.5, P(53) - 1.0, P(53), P(53) + 2.0, P(63) - 1024.0, P(63), P(64) - 2048.0, P(64), P(65), 1e20, f64::MAX, f64::INFINITY].map(Add));
    v.extend([f64::NAN, -1.0, -0.5, f64::NEG_INFINITY, -5e-324].map(Add));
    v.extend([0u64, 1, 255, (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, u64::MAX].map(AddU));
    if thorough {
        v.extend([2.0, 2.5, P(24), P(24) + 1.0, P(30) + 0.25, P(62), P(63) + 2048.0, P(64) * 1.5, 1e19, 1e100, 1e300, f64::MIN_POSITIVE, 1e-300, 0.3].map(Add));
        v.extend([f64::MIN, -1e-9, -P(64)].map(Add));
        v.extend([2u64, 3, 1 << 31, 1 << 52, (1 << 63) + 1, u64::MAX - 1].map(AddU));
    }
    v
}
/// The accepted amounts of a history: whole ones exactly, others as doubles.
#[derive(Clone, Default)]
struct Sum {
    whole: u128,
    other: Vec<f64>,
    precise: bool, // every amount is one that double precision keeps apart
}
impl Sum {
    fn new() -> Sum {
        Sum { precise: true, ..Default::default() }
    }
    fn add(&mut self, x: f64) {
        if x.fract() == 0.0 && x < P(100) {
            self.whole += x as u128;
            self.precise &= x < P(53);
        } else {
            self.other.push(x);
        }
    }
    fn fits(&self, v: f64) -> bool {
        let w = self.whole as f64;
        if self.other.is_empty() && self.precise && self.whole < 1 << 63 {
            return v == w;
        }
        let mut o = self.other.clone();
        o.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let s: f64 = o.iter().sum::<f64>() + w;
        // Multiples of 1/4 below 2^50 add without rounding.
        if self.precise && w < P(50) && o.iter().all(|x| *x < P(50) && (x * 4.0).fract() == 0.0) && s < P(50) {
            return v == s;
        }
        close(v, s, self.other.len() + 8)
    }
    fn show(&self) -> String {
        format!("{} + {:?}", self.whole, self.other)
    }
}
fn c_step(c: &Counter, o: CO, s: &mut Sum) -> Result<(), String> {
    match o {
        CO::Inc => {
            c.increment();
            s.whole += 1;
        }
        CO::Add(x) => {
            let r = c.add(x);
            if x >= 0.0 {
                r.map_err(|e| format!("add({:?}) was refused: {}", x, e))?;
                s.add(x);
            } else {
                let before = s.clone();
                invalid(r).map_err(|e| format!("add({:?}): {}", x, e))?;
                *s = before;
            }
        }
        CO::AddU(x) => {
            c.add_u64(x);
            s.whole += x as u128;
            s.precise &= x < 1 << 63;
        }
    }
    Ok(())
}
fn a01(ctx: &mut Ctx, shard: usize, of: usize) {
    let ops = c_ops(ctx.thorough);
    let depth = 3;
    let mut n = 0u64;
    seqs_shard(ops.len(), 1, depth, shard, of, |q| {
        let seq: Vec<CO> = q.iter().map(|&i| ops[i]).collect();
        n += 1;
        ctx.case(&|| format!("{:?}", seq), |ctx| {
            let c = Counter::new("c").unwrap();
            let d = c.clone();
            let mut s = Sum::new();
            let mut last = 0.0;
            ensure!(c.value() == 0.0, "a new counter is {}", c.value());
            for (k, &o) in seq.iter().enumerate() {
                ctx.step(1);
                c_step(if k % 2 == 0 { &c } else { &d }, o, &mut s)?;
                let v = d.value();
                ensure!(v >= last, "{:?} took the counter from {:?} to {:?}", o, last, v);
                if let CO::Add(x) = o {
                    ensure!(x >= 0.0 || v == last, "a refused {:?} changed the counter from {:?} to {:?}", o, last, v);
                }
                ensure!(s.fits(v), "after {:?} the counter is {:?}, the sum of what was added is {}", &seq[..=k], v, s.show());
                ensure!(same(c.value(), v), "clones differ");
                last = v;
            }
            ctx.state_h(last.to_bits());
            Ok(())
        });
    });
    if shard == 0 {
        ctx.cover(format!("all {} histories per shard of up to {} operations out of {} (increment, add and add_u64 of boundary amounts)", n, depth, ops.len()));
    }
}
/// Longer histories over fewer operations.
fn a01_deep(ctx: &mut Ctx, shard: usize, of: usize) {
    use CO::*;
    let ops = [Inc, Add(0.25), Add(2.0), AddU(3), Add(P(52)), Add(-1.0), Add(P(63)), AddU(1 << 63)];
    let depth = if ctx.thorough { 7 } else { 5 };
    seqs_shard(ops.len(), depth, depth, shard, of, |q| {
        let seq: Vec<CO> = q.iter().map(|&i| ops[i]).collect();
        ctx.case(&|| format!("{:?}", seq), |ctx| {
            let c = Counter::new("c").unwrap();
            let mut s = Sum::new();
            let mut last = 0.0;
            for (k, &o) in seq.iter().enumerate() {
                ctx.step(1);
                c_step(&c, o, &mut s)?;
                let v = c.value();
                ensure!(v >= last, "{:?} took the counter from {:?} to {:?}", o, last, v);
                ensure!(s.fits(v), "after {:?} the counter is {:?}, the sum of what was added is {}", &seq[..=k], v, s.show());
                last = v;
            }
            ctx.state_h(last.to_bits());
            Ok(())
        });
    });
    if shard == 0 {
        ctx.cover(format!("all histories of {} operations out of {}", depth, ops.len()));
    }
}
/// a^i b^j a^k.
fn a01_pump(ctx: &mut Ctx, shard: usize, of: usize) {
    use CO::*;
    let ops = [Inc, Add(1.0), Add(0.5), AddU(1), Add(P(32)), AddU(1 << 32), Add(P(53)), AddU(1 << 53), AddU(1 << 60), AddU(u64::MAX), Add(P(60)), Add(0.1), Add(1e300)];
    let ns = pumps(ctx.thorough);
    let mut idx = 0;
    for &a in &ops {
        for &b in &ops {
            for &i in ns {
                for &j in ns {
                    idx += 1;
                    if !mine(idx, shard, of) {
                        continue;
                    }
                    ctx.case(&|| format!("{:?} x{}, {:?} x{}, {:?}", a, i, b, j, a), |ctx| {
                        ctx.step((i + j + 1) as u64);
                        let c = Counter::new("c").unwrap();
                        let mut s = Sum::new();
                        let mut last = 0.0;
                        for k in 0..i + j + 1 {
                            c_step(&c, if k < i || k == i + j { a } else { b }, &mut s)?;
                            let v = c.value();
                            ensure!(v >= last, "operation {} took the counter from {:?} to {:?}", k, last, v);
                            last = v;
                        }
                        ctx.state_h(last.to_bits());
                        ensure!(s.whole > (1 << 63) || s.other.len() > 8 || s.fits(last), "the counter is {:?}, the sum of what was added is {}", last, s.show());
                        let want = s.whole as f64 + s.other.iter().sum::<f64>();
                        ensure!(close(last, want, i + j + 8), "the counter is {:?}, the sum of what was added is about {:?}", last, want);
                        Ok(())
                    });
                }
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("all a^i b^j a over {} operations, i, j in {:?}", ops.len(), ns));
    }
}
/// Very many of one operation.
fn a01_large(ctx: &mut Ctx, shard: usize, of: usize) {
    use CO::*;
    let ops = [Inc, Add(1.0), Add(0.5), AddU(1), AddU(3), Add(P(32)), AddU(1 << 53), Add(0.25)];
    let mut idx = 0;
    for n in large(ctx.thorough).into_iter().chain([16_777_217]) {
        for &a in &ops {
            for &b in &ops {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{:?} x{}, then {:?} and {:?} by turns", a, n, b, a), |ctx| {
                    ctx.step(n as u64);
                    let c = Counter::new("c").unwrap();
                    let mut s = Sum::new();
                    for k in 0..n + 6 {
                        c_step(&c, if k < n || k % 2 == 1 { a } else { b }, &mut s)?;
                        if k & (k + 1) == 0 || k + 3 > n {
                            ctx.state_h(c.value().to_bits());
                            let want = s.whole as f64 + s.other.iter().sum::<f64>();
                            ensure!(close(c.value(), want, 8), "after {} operations the counter is {:?}, the sum of what was added is {:?}", k + 1, c.value(), want);
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("{} operations up to {} times, then another one", ops.len(), 16_777_217));
    }
}

// ---- A02 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum GO {
    Inc,
    Dec,
    Add(f64),
    Sub(f64),
    Set(f64),
    Now(i64),
}
fn unix(ns: i64) -> f64 {
    ns as f64 / 1e9
}
fn a02_run(ctx: &mut Ctx, init: Option<f64>, seq: &[GO]) -> Result<(), String> {
    let g = match init {
        None => Gauge::new("g").unwrap(),
        Some(v) => GaugeBuilder::new("g").initial_value(v).finish().unwrap(),
    };
    let h = g.clone();
    let mut v = init.unwrap_or(0.0);
    let exact = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    ensure!(exact(g.value(), v), "a new gauge is {:?} instead of {:?}", g.value(), v);
    for (k, &o) in seq.iter().enumerate() {
        ctx.step(1);
        let m = if k % 2 == 0 { &h } else { &g };
        match o {
            GO::Inc => {
                m.increment();
                v += 1.0;
            }
            GO::Dec => {
                m.decrement();
                v -= 1.0;
            }
            GO::Add(x) => {
                m.add(x);
                v += x;
            }
            GO::Sub(x) => {
                m.subtract(x);
                v -= x;
            }
            GO::Set(x) => {
                m.set(x);
                v = x;
                ensure!(exact(g.value(), v), "after {:?} the gauge is {:?} instead of {:?}", &seq[..=k], g.value(), v);
            }
            GO::Now(t) => {
                rt::set_clock(7_000_000_000, t);
                m.set_to_current_time();
                let w = unix(t);
                let got = g.value();
                ensure!((got - w).abs() <= 2e-9 + 4.0 * f64::EPSILON * w.abs(), "the current time {} ns was stored as {:?}", t, got);
                v = got;
            }
        }
        ensure!(same(g.value(), v) && same(h.value(), v), "after {:?} the gauge is {:?} instead of {:?}", &seq[..=k], g.value(), v);
    }
    ctx.state_h(v.to_bits());
    Ok(())
}
fn a02(ctx: &mut Ctx, shard: usize, of: usize) {
    use GO::*;
    let xs = if ctx.thorough {
        vec![0.0, -0.0, 1.0, -1.0, 0.1, 0.3, 2.5, 1e16, P(53), P(63), P(64), 5e-324, 1e-300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]
    } else {
        vec![0.0, -0.0, 1.0, -1.0, 0.1, 2.5, 1e16, P(64), 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]
    };
    let mut ops = vec![Inc, Dec, Now(1_600_000_000_123_456_789), Now(-1_500_000_000)];
    for &x in &xs {
        ops.extend([Add(x), Sub(x), Set(x)]);
    }
    let depth = 3;
    seqs_shard(ops.len(), 1, depth, shard, of, |q| {
        let seq: Vec<GO> = q.iter().map(|&i| ops[i]).collect();
        ctx.case(&|| format!("{:?}", seq), |ctx| a02_run(ctx, None, &seq));
    });
    for (i, &v) in xs.iter().enumerate() {
        if mine(i, shard, of) {
            seqs(ops.len(), 0, if ctx.thorough { 2 } else { 1 }, |q| {
                let seq: Vec<GO> = q.iter().map(|&i| ops[i]).collect();
                ctx.case(&|| format!("initial value {:?}, {:?}", v, seq), |ctx| a02_run(ctx, Some(v), &seq));
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("all histories of up to {} operations out of {}, with {} initial values", depth, ops.len(), xs.len() + 1));
    }
}
fn a02_deep(ctx: &mut Ctx, shard: usize, of: usize) {
    use GO::*;
    let ops = [Inc, Dec, Add(0.1), Sub(0.1), Set(-3.0), Add(1e16), Sub(f64::INFINITY)];
    let depth = if ctx.thorough { 8 } else { 6 };
    seqs_shard(ops.len(), depth, depth, shard, of, |q| {
        let seq: Vec<GO> = q.iter().map(|&i| ops[i]).collect();
        ctx.case(&|| format!("{:?}", seq), |ctx| a02_run(ctx, None, &seq));
    });
    let ns = pumps(ctx.thorough);
    let mut idx = 0;
    for &a in &ops {
        for &b in &ops {
            for &i in ns {
                for &j in ns {
                    idx += 1;
                    if mine(idx, shard, of) {
                        ctx.case(&|| format!("{:?} x{}, {:?} x{}", a, i, b, j), |ctx| {
                            let seq: Vec<GO> = (0..i + j).map(|k| if k < i { a } else { b }).collect();
                            a02_run(ctx, None, &seq).map_err(|e| e.chars().rev().take(300).collect::<String>().chars().rev().collect())
                        });
                    }
                }
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("all histories of {} operations out of {}; all a^i b^j with i, j in {:?}", depth, ops.len(), ns));
    }
}
fn a02_large(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut idx = 0;
    for n in large(ctx.thorough).into_iter().chain([16_777_217]) {
        for pat in 0..6 {
            idx += 1;
            if !mine(idx, shard, of) {
                continue;
            }
            if !ctx.size(n) {
                continue;
            }
            ctx.case(&|| format!("pattern {} of changes, {} times", pat, n), |ctx| {
                ctx.step(n as u64);
                let g = GaugeBuilder::new("g").initial_value(2.5).finish().unwrap();
                let h = g.clone();
                let mut v = 2.5f64;
                for k in 0..n {
                    match (pat, k % 3) {
                        (0, _) => (g.increment(), v += 1.0),
                        (1, _) => (h.decrement(), v -= 1.0),
                        (2, 0) => (g.set(0.1), v = 0.1),
                        (3, 0) => (h.subtract(7.0), v -= 7.0),
                        (4, _) => (g.set(k as f64), v = k as f64),
                        (5, 0) => (drop(g.track_inprogress(|| h.add(0.1))), v = ((v + 1.0) + 0.1) - 1.0),
                        _ => (h.add(0.1), v += 0.1),
                    };
                    ensure!(g.value() == v, "after {} changes the gauge is {:?} instead of {:?}", k + 1, g.value(), v);
                }
                ctx.state_h(v.to_bits());
                Ok(())
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("6 patterns of changes up to {} times", 16_777_217));
    }
}
/// The system clock at boundary times.
fn a02_clock(ctx: &mut Ctx, _s: usize, _o: usize) {
    let mut ts: Vec<i64> = vec![];
    for b in [0i64, 1, 2, 999, 1_000, 999_999, 1_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 1_500_000_000, 2_000_000_000, 59_999_999_999, 86_400_000_000_000, (1 << 31) * 1_000_000_000 - 1, (1 << 31) * 1_000_000_000, (1 << 32) * 1_000_000_000, 1_600_000_000_999_999_999, 4_000_000_000_000_000_001, 9_000_000_000_000_000_000] {
        for d in [-1i64, 0, 1] {
            ts.extend([b + d, -(b + d)]);
        }
    }
    for p in 0..62 {
        ts.extend([1i64 << p, -(1i64 << p)]);
    }
    let n = ts.len();
    for t in ts {
        ctx.case(&|| format!("set_to_current_time at {} ns", t), |ctx| a02_run(ctx, None, &[GO::Now(t)]));
    }
    for p in 30..62 {
        for d in [-1i64, 0, 1, 1_000_000_000] {
            for sign in [1, -1] {
                for n in [0, 1, 500_000_000, 999_999_999] {
                    let s = sign * ((1i64 << p) + d);
                    ctx.case(&|| format!("set_to_current_time at {} s and {} ns", s, n), |ctx| {
                        ctx.step(1);
                        rt::set_clock(7_000_000_000, n);
                        rt::far(0, s);
                        let g = Gauge::new("g").unwrap();
                        g.set_to_current_time();
                        let w = s as f64 + n as f64 / 1e9;
                        ensure!((g.value() - w).abs() <= 4.0 * f64::EPSILON * w.abs(), "stored as {:?}", g.value());
                        Ok(())
                    });
                }
            }
        }
    }
    ctx.cover(format!("set_to_current_time at {} times around the epoch, whole seconds and powers of two", n));
}

// ---- H01 -----------------------------------------------------------------------------------------------------------
/// Distinct bounds in ascending order, +Inf included.
pub fn layout(bounds: &[f64]) -> Vec<f64> {
    let mut v: Vec<f64> = bounds.to_vec();
    v.push(f64::INFINITY);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup_by(|a, b| a == b);
    v
}
pub fn observe_nan(f: impl FnOnce()) -> bool {
    // Refusal is a panic (the signature has no other way) or nothing at all.
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
fn h_check(h: &Histogram, bounds: &[f64], seen: &[f64]) -> Result<(), String> {
    let rows: Vec<(f64, u64)> = h.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect();
    let want: Vec<(f64, u64)> = layout(bounds).into_iter().map(|b| (b, seen.iter().filter(|v| **v <= b).count() as u64)).collect();
    ensure!(rows == want, "buckets {:?} instead of {:?}", rows, want);
    if want.len() < 100 {
        ways("the iterator of the cumulative buckets", || h.cumulative_buckets(), |b| (b.upper_bound(), b.cumulative_count()), &want)?;
    }
    ensure!(h.count() == seen.len() as u64, "count {} instead of {}", h.count(), seen.len());
    let own: Vec<(f64, u64)> = h.buckets().iter().map(|b| (b.upper_bound(), b.count())).collect();
    let mut prev = 0;
    for (o, w) in own.iter().zip(&want) {
        ensure!(o.0 == w.0 && o.1 == w.1 - prev, "bucket {:?}: expected bound {} and count {}", o, w.0, w.1 - prev);
        prev = w.1;
    }
    ensure!(own.len() == want.len(), "{} buckets instead of {}", own.len(), want.len());
    let s: f64 = seen.iter().sum();
    let exact = same(h.sum(), s);
    let mag: f64 = seen.iter().map(|x| x.abs()).sum();
    ensure!(exact || (s.is_finite() && (h.sum() - s).abs() <= (seen.len() as f64) * 2.0 * f64::EPSILON * mag), "sum {:?} instead of {:?}", h.sum(), s);
    Ok(())
}
fn h_build(bounds: &[f64], bulk: bool) -> Histogram {
    let mut b = HistogramBuilder::new("h");
    if bulk {
        b.buckets(bounds.to_vec());
    } else {
        for &x in bounds {
            b.bucket(x);
        }
    }
    b.finish().expect("valid buckets")
}
fn h01(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut bs = vec![f64::NEG_INFINITY, -1.0, -0.0, 0.0, 5e-324, 1.0, up(1.0), 2.0, f64::MAX, f64::INFINITY];
    let mut vs = vec![f64::NEG_INFINITY, f64::MIN, -1.5, -1.0, -5e-324, -0.0, 0.0, 5e-324, 1e-300, 0.5, 1.0, up(1.0), 1.5, 2.0, up(2.0), f64::MAX, f64::INFINITY, f64::NAN];
    if ctx.thorough {
        bs.extend([f64::MIN, -5e-324, 1e-16, 2e-16, down(1.0), 1e300]);
        vs.extend([up(-1.0), 1e-16, 1.5e-16, 2e-16, down(1.0), 1e300, down(f64::MAX)]);
    }
    let mut layouts = 0;
    seqs_shard(bs.len(), 0, 3, shard, of, |q| {
        let bounds: Vec<f64> = q.iter().map(|&i| bs[i]).collect();
        layouts += 1;
        seqs(vs.len(), 1, if bounds.len() < 3 { 2 } else { 1 } + ctx.thorough as usize * (bounds.len() < 2) as usize, |w| {
            let seq: Vec<f64> = w.iter().map(|&i| vs[i]).collect();
            ctx.case(&|| format!("buckets {:?}, observed {:?}", bounds, seq), |ctx| {
                let h = h_build(&bounds, w[0] % 2 == 0);
                let c = h.clone();
                let mut seen = vec![];
                h_check(&h, &bounds, &seen)?;
                for (k, &v) in seq.iter().enumerate() {
                    ctx.step(1);
                    let m = if k % 2 == 0 { &h } else { &c };
                    if v.is_nan() {
                        observe_nan(|| m.observe(v));
                    } else {
                        m.observe(v);
                        seen.push(v);
                    }
                    h_check(&c, &bounds, &seen)?;
                }
                ctx.state(&format!("{:?}{:?}", bounds, h.cumulative_buckets().map(|b| b.cumulative_count()).collect::<Vec<_>>()));
                Ok(())
            });
        });
    });
    if shard == 0 {
        ctx.cover(format!("all sequences of up to 3 of {} bucket bounds (repeated and in any order), each with all sequences of up to 2 of {} observed values (1 for 3 bounds)", bs.len(), vs.len()));
    }
}
/// Larger layouts: every position of a value relative to every bound.
fn h01_wide(ctx: &mut Ctx, shard: usize, of: usize) {
    let max = if ctx.thorough { 300 } else { 70 };
    for n in 0..=max {
        if !mine(n, shard, of) {
            continue;
        }
        for shape in 0..4 {
            let mut bounds: Vec<f64> = (0..n)
                .map(|i| match shape {
                    0 => i as f64,
                    1 => P(i as i32 - 20),
                    2 => -(i as f64) * 0.1,
                    _ => (i as f64 - n as f64 / 2.0).powi(3),
                })
                .collect();
            let mut vals: Vec<f64> = bounds.iter().flat_map(|&b| [down(b), b, up(b), b + 0.03]).collect();
            vals.extend([f64::NEG_INFINITY, f64::INFINITY, 0.0]);
            if n % 3 == 1 {
                bounds.reverse();
            } else if n % 3 == 2 {
                let k = n / 2;
                bounds.rotate_left(k);
            }
            ctx.case(&|| format!("{} buckets of shape {}, all values around every bound", n, shape), |ctx| {
                ctx.step(vals.len() as u64);
                let h = h_build(&bounds, n % 2 == 0);
                let mut seen = vec![];
                for &v in &vals {
                    h.observe(v);
                    seen.push(v);
                    ctx.state_h(v.to_bits() ^ (n as u64) << 7);
                    // The one bucket that must have counted v.
                    let first = h.buckets().iter().position(|b| v <= b.upper_bound()).unwrap();
                    let c: u64 = h.buckets()[..=first].iter().map(|b| b.count()).sum();
                    let w = seen.iter().filter(|x| **x <= h.buckets()[first].upper_bound()).count() as u64;
                    ensure!(c == w, "after observing {:?} the cumulative count at {:?} is {} instead of {}", v, h.buckets()[first].upper_bound(), c, w);
                }
                h_check(&h, &bounds, &seen)
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("layouts of 0 to {} buckets in 4 shapes and 3 orders, all bounds, their neighbours and midpoints observed", max));
    }
}
fn h01_pump(ctx: &mut Ctx, shard: usize, of: usize) {
    let vs = [0.25, 1.0, 1.5, 2.0, 7.0, f64::INFINITY, f64::NEG_INFINITY, -3.0];
    let ns = pumps(ctx.thorough);
    let mut idx = 0;
    for &a in &vs {
        for &b in &vs {
            for &i in ns {
                for &j in ns {
                    idx += 1;
                    if !mine(idx, shard, of) {
                        continue;
                    }
                    ctx.case(&|| format!("{:?} x{}, {:?} x{}", a, i, b, j), |ctx| {
                        ctx.step((i + j) as u64);
                        let h = h_build(&[1.0, 2.0, 0.0], false);
                        let mut seen = vec![];
                        for k in 0..i + j {
                            let v = if k < i { a } else { b };
                            h.observe(v);
                            seen.push(v);
                        }
                        ctx.state(&format!("{} {} {} {}", a, b, i, j));
                        h_check(&h, &[1.0, 2.0, 0.0], &seen)
                    });
                }
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("all a^i b^j over {} values with i, j in {:?}", vs.len(), ns));
    }
}
/// More observations than 32 bits can count.
fn h01_count(ctx: &mut Ctx, _shard: usize, _of: usize) {
    const N: u64 = (1 << 32) + 3;
    let mut done = 0;
    if ctx.size(N as usize) {
        let t0 = ctx.now();
        ctx.case(&|| format!("{} observations", N), |ctx| {
            let mut g = prometrics::Gatherer::new();
            let h = HistogramBuilder::new("h").bucket(1.0).bucket(2.0).registry(g.registry()).finish().unwrap();
            while done < N && ctx.elapsed_since(t0) < if ctx.thorough { 600 } else { 240 } {
                let n = (N - done).min(1 << 20);
                for _ in 0..n {
                    h.observe(1.0);
                }
                done += n;
                ctx.beat();
            }
            ctx.step(done);
            ctx.state("2^32 observations");
            let want = [(1.0, done), (2.0, done), (f64::INFINITY, done)];
            let rows = |it: &mut dyn Iterator<Item = prometrics::bucket::CumulativeBucket>| it.map(|b| (b.upper_bound(), b.cumulative_count())).collect::<Vec<_>>();
            ensure!(rows(&mut h.cumulative_buckets()) == want, "buckets {:?}", rows(&mut h.cumulative_buckets()));
            ensure!(h.buckets()[0].count() == done && h.buckets()[1].count() == 0, "buckets {:?}", h.buckets());
            ensure!(h.count() == done && h.sum() == done as f64, "count {}, sum {}", h.count(), h.sum());
            let text = h.to_string();
            for l in [format!("h_bucket{{le=\"1\"}} {}", done), format!("h_bucket{{le=\"+Inf\"}} {}", done), format!("h_sum {}", done), format!("h_count {}", done)] {
                ensure!(text.lines().any(|x| x == l), "no line {:?} in {:?}", l, text);
            }
            let fs = g.gather().into_vec();
            match fs[0].metrics() {
                prometrics::metric::Metrics::Histogram(v) => {
                    ensure!(v[0].count() == done && v[0].sum() == done as f64, "gathered count {}, sum {}", v[0].count(), v[0].sum());
                    ensure!(rows(&mut v[0].cumulative_buckets()) == want, "gathered buckets {:?}", rows(&mut v[0].cumulative_buckets()));
                }
                _ => return Err("not a histogram".into()),
            }
            Ok(())
        });
    }
    ctx.cover(format!("{} observations of one value", done));
}
/// Very many observations, very many buckets.
fn h01_large(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut idx = 0;
    for n in large(ctx.thorough).into_iter().chain([16_777_217]) {
        for (pat, vs) in [vec![1.0], vec![0.25, 7.0], vec![f64::INFINITY, 1.5, 2.0], vec![-3.0, 1.0, 2.0, 9.0, 0.5]].into_iter().enumerate() {
            idx += 1;
            if !mine(idx, shard, of) {
                continue;
            }
            if !ctx.size(n) {
                continue;
            }
            ctx.case(&|| format!("{} observations, of {:?} by turns", n, vs), |ctx| {
                ctx.step(n as u64);
                ctx.state(&format!("{} {}", n, pat));
                let h = h_build(&[1.0, 2.0, 0.0], false);
                let mut seen = vec![];
                for k in 0..n {
                    h.observe(vs[k % vs.len()]);
                    seen.push(vs[k % vs.len()]);
                }
                h_check(&h, &[1.0, 2.0, 0.0], &seen)
            });
        }
    }
    for n in large(false).into_iter().filter(|n| *n <= 8193) {
        for order in 0..3 {
            idx += 1;
            if !mine(idx, shard, of) {
                continue;
            }
            if !ctx.size(n) {
                continue;
            }
            ctx.case(&|| format!("{} buckets in order {}", n, order), |ctx| {
                ctx.step(3 * n as u64);
                ctx.state(&format!("buckets {} {}", n, order));
                let mut bounds: Vec<f64> = (0..n).map(|i| i as f64).collect();
                match order {
                    1 => bounds.reverse(),
                    2 => bounds.rotate_left(n / 3),
                    _ => {}
                }
                let h = h_build(&bounds, order == 0);
                let mut want = vec![0u64; n + 1];
                for i in (0..3 * n + 3).step_by(2) {
                    let v = i as f64 * 0.5 - 1.0;
                    h.observe(v);
                    want[(v.ceil().max(0.0) as usize).min(n)] += 1;
                }
                let got: Vec<u64> = h.buckets().iter().map(|b| b.count()).collect();
                ensure!(got.len() == n + 1, "{} buckets instead of {}", got.len(), n + 1);
                let bad = (0..=n).find(|&i| got[i] != want[i]);
                ensure!(bad.is_none(), "bucket {} has {} observations instead of {}", bad.unwrap(), got[bad.unwrap()], want[bad.unwrap()]);
                Ok(())
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("up to {} observations, up to 8193 buckets", 16_777_217));
    }
}

// ---- H02 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Base {
    Plain,
    Linear(f64, f64, usize),
    Exp(f64, f64, usize),
}
impl Base {
    fn builder(&self) -> HistogramBuilder {
        match *self {
            Base::Plain => HistogramBuilder::new("h"),
            Base::Linear(s, w, n) => HistogramBuilder::with_linear_buckets("h", s, w, n),
            Base::Exp(s, f, n) => HistogramBuilder::with_exponential_buckets("h", s, f, n),
        }
    }
    /// Whether the bounds come out the same however they are computed.
    fn exact(&self) -> bool {
        let dyadic = |x: f64| x.is_finite() && (x * 1024.0).fract() == 0.0;
        match *self {
            Base::Plain => true,
            Base::Linear(s, w, _) => dyadic(s) && dyadic(w),
            Base::Exp(s, f, _) => dyadic(s) && [0.5, 1.0, 2.0].contains(&f),
        }
    }
    /// Bounds and how far rounding may move each.
    fn bounds(&self) -> Vec<(f64, f64)> {
        match *self {
            Base::Plain => vec![],
            Base::Linear(s, w, n) => (0..n)
                .map(|i| {
                    let x = s + i as f64 * w;
                    (x, 1e-12 * (1.0 + i as f64 / 64.0) * (s.abs() + (i as f64 * w).abs()))
                })
                .collect(),
            Base::Exp(s, f, n) => {
                let mut x = s;
                (0..n)
                    .map(|i| {
                        let y = x;
                        x *= f;
                        (y, 1e-12 * (1.0 + i as f64 / 64.0) * y.abs())
                    })
                    .collect()
            }
        }
    }
}
fn h02_check(base: &Base, extra: &[f64], bulk: bool) -> Result<(), String> {
    let mut b = base.builder();
    if bulk {
        b.buckets(extra.iter().cloned());
    } else {
        for &x in extra {
            b.bucket(x);
        }
    }
    let mut want = base.bounds();
    want.extend(extra.iter().map(|x| (*x, 0.0)));
    for round in 0..2 {
        let r = b.finish();
        if want.iter().any(|x| x.0.is_nan()) {
            invalid(r)?;
            continue;
        }
        let h = r.map_err(|e| format!("refused: {}", e))?;
        let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
        let mut w = want.clone();
        w.push((f64::INFINITY, 0.0));
        w.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        w.dedup_by(|a, b| a.0 == b.0);
        let ok = got.len() == w.len() && got.iter().zip(&w).all(|(g, w)| *g == w.0 || (g - w.0).abs() <= w.1);
        ensure!(ok, "bounds {:?} instead of {:?} (built {} times)", got, w.iter().map(|x| x.0).collect::<Vec<_>>(), round + 1);
        ensure!(got.windows(2).all(|x| x[0] < x[1]), "bounds {:?} do not ascend", got);
        ensure!(got.last() == Some(&f64::INFINITY), "the last bound is {:?}", got.last());
        let cum: Vec<f64> = h.cumulative_buckets().map(|b| b.upper_bound()).collect();
        ensure!(cum == got, "cumulative bounds {:?}, bounds {:?}", cum, got);
        ensure!(h.count() == 0, "a new histogram has {} observations", h.count());
    }
    Ok(())
}
fn h02(ctx: &mut Ctx, shard: usize, of: usize) {
    let xs = [f64::NEG_INFINITY, -1.0, -0.0, 0.0, 5e-324, 1e-17, 1.0, up(1.0), 2.0, f64::MAX, f64::INFINITY, f64::NAN];
    let mut bases = vec![Base::Plain];
    let counts = if ctx.thorough { vec![0, 1, 2, 3, 5, 10, 11, 16, 33, 64, 65, 100, 129, 256, 257, 1000, 1025] } else { vec![0, 1, 2, 3, 5, 10, 33, 65, 129, 257] };
    for &n in &counts {
        for s in [0.0, -10.0, 0.5, 1.0, 100.0, 1e-9, -1e9] {
            for w in [1.0, 0.1, 10.0, 0.25, -2.0, 0.0, 1e6] {
                bases.push(Base::Linear(s, w, n));
            }
        }
        for s in [1.0, 0.001, -1.0, 2.0, 50.0, 0.0] {
            for f in [2.0, 10.0, 0.5, 1.0, 1.5, 3.0, 1.0625] {
                // Stay clear of the ends of the exponent range, where rounding decides.
                if (f as f64).ln().abs() * (n as f64) < 650.0 {
                    bases.push(Base::Exp(s, f, n));
                }
            }
        }
    }
    for n in [1024, 4097, 33_000, 66_000] {
        bases.push(Base::Linear(-5.0, 0.5, n));
        bases.push(Base::Exp(3.0, 1.0 + 1.0 / 256.0, n));
    }
    bases.push(Base::Linear(f64::NAN, 1.0, 2));
    bases.push(Base::Linear(0.0, f64::NAN, 3));
    bases.push(Base::Exp(f64::NAN, 2.0, 2));
    bases.push(Base::Linear(f64::INFINITY, 1.0, 3));
    bases.push(Base::Linear(f64::NEG_INFINITY, 1.0, 3));
    bases.push(Base::Exp(1.0, -2.0, 6));
    bases.push(Base::Exp(1.0, 0.0, 4));
    let mut idx = 0;
    for base in &bases {
        seqs(xs.len(), 0, if *base == Base::Plain { if ctx.thorough { 4 } else { 3 } } else { 1 }, |q| {
            idx += 1;
            if !mine(idx, shard, of) {
                return;
            }
            let extra: Vec<f64> = q.iter().map(|&i| xs[i]).collect();
            // Whether an extra bound coincides with a computed one must not depend on rounding.
            if !base.exact() && base.bounds().iter().any(|b| extra.iter().any(|x| (x - b.0).abs() <= 4.0 * b.1)) {
                return;
            }
            ctx.case(&|| format!("{:?} plus buckets {:?}", base, extra), |ctx| {
                ctx.step(1 + extra.len() as u64);
                ctx.state(&format!("{:?}{:?}", base, extra));
                h02_check(base, &extra, idx / of % 2 == 0)
            });
        });
    }
    if shard == 0 {
        ctx.cover(format!("{} linear and exponential layouts (0 to {} buckets), each with every extra bound out of {}; all plain layouts of up to 3 bounds", bases.len() - 1, counts.last().unwrap(), xs.len()));
    }
}

// ---- S01 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum SO {
    Obs(f64),
    Adv(u64),
    Wall(i64),
    /// Times something that takes so long.
    Time(u64),
    Read,
}
/// The samples a summary must be describing: (time, value).
#[derive(Clone, Default)]
pub struct Win {
    pub all: Vec<(u64, f64)>,
    pub now: u64,
}
impl Win {
    pub fn current(&self, w: Duration) -> Vec<f64> {
        let mut v: Vec<f64> = self.all.iter().filter(|s| Duration::from_nanos(self.now - s.0) <= w && !s.1.is_nan()).map(|s| s.1).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    }
}
/// Values reported for the quantiles `qs` over sorted samples.
pub fn check_quantiles(got: &[(f64, f64)], qs: &[f64], s: &[f64]) -> Result<(), String> {
    let mut q = qs.to_vec();
    q.sort_by(|a, b| a.partial_cmp(b).unwrap());
    q.dedup_by(|a, b| a == b);
    if s.is_empty() {
        ensure!(got.is_empty(), "quantiles {:?} although the window has no samples", got);
        return Ok(());
    }
    ensure!(got.len() == q.len() && got.iter().zip(&q).all(|(g, q)| g.0 == *q), "quantiles {:?} reported, {:?} configured", got, q);
    for (q, v) in got {
        let x = q * s.len() as f64;
        // Where the product had to be rounded, either side of it is right.
        let slack = if q.mul_add(s.len() as f64, -x) == 0.0 { 0.0 } else { 1e-13 * x };
        let ok = [x, x - slack, x + slack].iter().any(|x| {
            let i = (x.floor() as usize).min(s.len() - 1);
            s[i] == *v
        });
        let i = (x.floor() as usize).min(s.len() - 1);
        ensure!(ok, "quantile {} is {:?} instead of {:?} (rank {} of {} samples{})", q, v, s[i], i, s.len(), if s.len() <= 8 { format!(" {:?}", s) } else { String::new() });
    }
    Ok(())
}
fn s_check(s: &Summary, w: Duration, win: &Win, qs: &[f64]) -> Result<(), String> {
    let got: Vec<(f64, f64)> = s.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect();
    check_quantiles(&got, qs, &win.current(w)).map_err(|e| format!("{} (samples as (time, value): {:?}, now {})", e, &win.all[win.all.len().saturating_sub(8)..], win.now))?;
    ensure!(s.count() == win.all.len() as u64, "count {} instead of {}", s.count(), win.all.len());
    let sum: f64 = win.all.iter().map(|s| s.1).sum();
    let mag: f64 = win.all.iter().map(|s| s.1.abs()).sum();
    ensure!(same(s.sum(), sum) || (sum - s.sum()).abs() <= win.all.len() as f64 * 2.0 * f64::EPSILON * mag, "sum {:?} instead of {:?}", s.sum(), sum);
    Ok(())
}
fn s_build(w: Duration, qs: &[f64]) -> Summary {
    let mut b = SummaryBuilder::new("s", w);
    for &q in qs {
        b.quantile(q);
    }
    b.finish().expect("valid summary")
}
const T0: i64 = 1_000_000_000_000;
const WALL0: i64 = 1_600_000_000_000_000_000;
fn s01(ctx: &mut Ctx, shard: usize, of: usize) {
    use SO::*;
    const S: u64 = 1_000_000_000;
    let windows: Vec<(Duration, Vec<u64>)> = vec![
        (Duration::from_secs(10), vec![1, 10 * S - 1, 10 * S, 10 * S + 1, 5 * S]),
        (Duration::from_secs(1), vec![S / 2, S, S + 1]),
        (Duration::from_nanos(1), vec![1, 2]),
        (Duration::from_secs(0), vec![1]),
        (Duration::MAX, vec![1, 100_000 * S]),
        (Duration::from_millis(1500), vec![S, S / 2, 1]),
    ];
    let qsets: [&[f64]; 3] = [&[0.5, 1.0, 0.0], &[1.0, 0.25, 0.75, 0.5, 0.25, 0.0, -0.0], &[0.99]];
    let depth = if ctx.thorough { 6 } else { 5 };
    let mut total = 0u64;
    for (wi, (w, advs)) in windows.iter().enumerate() {
        let mut ops = vec![Obs(1.0), Obs(2.0), Read, Obs(-3.0)];
        ops.extend(advs.iter().map(|a| Adv(*a)));
        ops.extend([Wall(-3_600_000_000_000), Wall(3_600_000_000_000)]);
        if wi == 1 {
            ops.push(Obs(f64::NAN));
        }
        ops.push(Time(advs[advs.len() / 2]));
        let d = if wi == 0 && ops.len() > 10 { depth } else { depth };
        seqs_shard(ops.len(), d, d, shard, of, |q| {
            let seq: Vec<SO> = q.iter().map(|&i| ops[i]).collect();
            // Only histories that begin with an observation and end with something else say anything new.
            if !matches!(seq[0], Obs(_)) {
                return;
            }
            total += 1;
            let qs = qsets[(q[1] + q[2]) % 3];
            ctx.case(&|| format!("window {:?}, quantiles {:?}: {:?}", w, qs, seq), |ctx| s_run(ctx, *w, qs, &seq));
        });
    }
    if shard == 0 {
        ctx.cover(format!("all histories of {} observations, reads, time advances and wall-clock steps, for 6 windows: {} per shard", depth, total));
    }
}
fn s_run(ctx: &mut Ctx, w: Duration, qs: &[f64], seq: &[SO]) -> Result<(), String> {
    rt::set_clock(T0, WALL0);
    let s = s_build(w, qs);
    let c = s.clone();
    let mut win = Win::default();
    for (k, &o) in seq.iter().enumerate() {
        ctx.step(1);
        match o {
            SO::Obs(v) => {
                if k % 2 == 0 { &s } else { &c }.observe(v);
                win.all.push((win.now, v));
            }
            SO::Adv(d) => {
                rt::advance(d as i64);
                win.now += d;
            }
            SO::Wall(d) => rt::step_wall(d),
            SO::Time(d) => {
                s.time(|| rt::advance(d as i64));
                win.now += d; // what is timed is observed when it is over
                win.all.push((win.now, d as f64 / 1e9));
            }
            SO::Read => s_check(&c, w, &win, qs).map_err(|e| format!("after {:?}: {}", &seq[..=k], e))?,
        }
    }
    ctx.state(&format!("{:?}{:?}", w, win.current(w)));
    s_check(&s, w, &win, qs)
}
/// Values and quantiles: all short sample sequences, all multiples of 1/16 as quantiles.
fn s01_rank(ctx: &mut Ctx, shard: usize, of: usize) {
    let qs: Vec<f64> = (0..=16).map(|i| i as f64 / 16.0).chain([0.9, 0.95, 0.99, 0.999, 0.1, 0.3, 1.0 / 3.0, up(0.5), down(0.5), down(1.0), 5e-324]).collect();
    let vs = [1.0, 2.0, -1.0, 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-300];
    let w = Duration::from_secs(60);
    seqs_shard(vs.len(), 0, if ctx.thorough { 6 } else { 5 }, shard, of, |q| {
        let seq: Vec<SO> = q.iter().map(|&i| SO::Obs(vs[i])).collect();
        ctx.case(&|| format!("{:?}", seq), |ctx| s_run(ctx, w, &qs, &seq));
    });
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} of {} values, {} quantiles", if ctx.thorough { 6 } else { 5 }, vs.len(), qs.len()));
    }
}
/// Many samples, expiring in many ways.
fn s01_pump(ctx: &mut Ctx, shard: usize, of: usize) {
    let qs: Vec<f64> = (0..=20).map(|i| i as f64 / 20.0).chain([0.99, 0.999]).collect();
    let ns = pumps(ctx.thorough);
    let mut idx = 0;
    for &i in ns {
        for &j in ns {
            for gap in [0u64, 1, 1_000_000, 300_000_000] {
                for pause in [0u64, 9_999_999_999, 10_000_000_000, 10_000_000_001, 5_000_000_000] {
                    for read in [false, true] {
                        idx += 1;
                        if !mine(idx, shard, of) {
                            continue;
                        }
                        ctx.case(&|| format!("{} samples every {} ns, pause of {} ns, {} more samples, {}reading in between", i, gap, pause, j, if read { "" } else { "not " }), |ctx| {
                            ctx.step((i + j) as u64);
                            rt::set_clock(T0, WALL0);
                            let w = Duration::from_secs(10);
                            let s = s_build(w, &qs);
                            let mut win = Win::default();
                            for k in 0..i + j {
                                let v = ((k * 7919) % 1009) as f64;
                                if k == i {
                                    if read {
                                        s_check(&s, w, &win, &qs)?;
                                    }
                                    rt::advance(pause as i64);
                                    win.now += pause;
                                }
                                s.observe(v);
                                win.all.push((win.now, v));
                                if gap > 0 && k != i + j - 1 {
                                    rt::advance(gap as i64);
                                    win.now += gap;
                                }
                            }
                            ctx.state(&format!("{} {} {} {}", i, j, gap, pause));
                            s_check(&s, w, &win, &qs)?;
                            rt::advance(pause as i64);
                            win.now += pause;
                            s_check(&s, w, &win, &qs)
                        });
                    }
                }
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("histories of i samples, a pause, j samples with i, j in {:?}, 4 rates, 5 pauses", ns));
    }
}
/// Windows of every magnitude: from a nanosecond to centuries, whole and odd numbers of every unit.
fn s01_windows(ctx: &mut Ctx, shard: usize, of: usize) {
    const S: u64 = 1_000_000_000;
    let mut ws: Vec<u64> = vec![];
    for unit in [1, 1_000, 1_000_000, S, 60 * S, 3600 * S, 86_400 * S, 7 * 86_400 * S, 30 * 86_400 * S, 365 * 86_400 * S, 36_500 * 86_400 * S] {
        for m in [1, 2, 10] {
            if let Some(w) = (unit as u64).checked_mul(m) {
                ws.extend([w, w + 1, w - 1, w + w / 2, w + 500_000_000, w + 1_000_000]);
            }
        }
    }
    for p in 4..63 {
        ws.extend([(1u64 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    for p in [31, 32, 33] {
        for unit in [1_000u64, 1_000_000, S] {
            ws.extend([((1u64 << p) - 1).saturating_mul(unit), (1u64 << p).saturating_mul(unit), (1u64 << p).saturating_mul(unit) + 1]);
        }
    }
    ws.sort_unstable();
    ws.dedup();
    ws.retain(|w| *w > 0 && *w < 7_000_000_000_000_000_000);
    let qs = [0.0, 0.5, 1.0];
    let mut n = 0;
    for &w in &ws {
        for start in [0u64, 1, 250_000_000, 999_999_999] {
            for gap in [1u64, 2, 300_000_000, w / 2, w - w / 4, w] {
                n += 1;
                if !mine(n, shard, of) || gap > w || gap == 0 {
                    continue;
                }
                ctx.case(&|| format!("window of {} ns, samples {} ns apart, clock starting at a fraction of {} ns", w, gap, start), |ctx| {
                    ctx.step(12);
                    ctx.state(&format!("{} {} {}", w, gap, start));
                    rt::set_clock(T0 + start as i64, WALL0);
                    let d = Duration::from_nanos(w);
                    let s = s_build(d, &qs);
                    let mut win = Win::default();
                    s.observe(1.0);
                    win.all.push((0, 1.0));
                    rt::advance(gap as i64);
                    win.now += gap;
                    s.observe(2.0);
                    win.all.push((win.now, 2.0));
                    // To where the first sample expires, and the second: just before, at and after.
                    let mut at: Vec<u64> = vec![];
                    for end in [w, w.saturating_add(gap)] {
                        at.extend([end - 1, end, end + 1, end + 400_000_000, end + 700_000_000, end + 1_000_000_000]);
                    }
                    at.sort_unstable();
                    at.dedup();
                    for t in at {
                        if t < win.now || t > 8_000_000_000_000_000_000 {
                            continue;
                        }
                        rt::advance((t - win.now) as i64);
                        win.now = t;
                        s_check(&s, d, &win, &qs)?;
                    }
                    Ok(())
                });
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("two samples and the instants around their expiry for {} windows of up to 220 years", ws.len()));
    }
}
/// Very many samples that expire at once.
fn s01_count(ctx: &mut Ctx, _shard: usize, _of: usize) {
    let all: u64 = if ctx.thorough { (1 << 32) + 3 } else { (1 << 24) + 3 };
    let mut done = 0;
    if ctx.size(all as usize) {
        let t0 = ctx.now();
        ctx.case(&|| format!("{} observations, of which none stays", all), |ctx| {
            rt::set_clock(T0, WALL0);
            let s = s_build(Duration::from_nanos(0), &[0.0, 1.0]);
            while done < all && ctx.elapsed_since(t0) < if ctx.thorough { 1800 } else { 30 } {
                let n = (all - done).min(1 << 20);
                for _ in 0..n {
                    rt::advance(1);
                    s.observe(1.0);
                }
                done += n;
                ctx.beat();
            }
            ctx.step(done);
            ctx.state("very many observations");
            ensure!(s.count() == done && s.sum() == done as f64, "count {}, sum {} after {} observations", s.count(), s.sum(), done);
            check_quantiles(&s.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect::<Vec<_>>(), &[0.0, 1.0], &[1.0])?;
            rt::advance(1);
            ensure!(s.quantiles().is_empty(), "samples have not expired");
            let text = s.to_string();
            ensure!(text.lines().any(|l| l == format!("s_count {}", done)), "text {:?}", text);
            Ok(())
        });
    }
    ctx.cover(format!("{} observations", done));
}
/// Very many samples.
fn s01_large(ctx: &mut Ctx, shard: usize, of: usize) {
    let qs = [0.0, 0.25, 0.5, 0.9, 0.99, 1.0];
    let mut idx = 0;
    let max = if ctx.thorough { 1_048_577 } else { 131_073 };
    for n in large(ctx.thorough).into_iter().filter(|n| *n <= max) {
        for gap in [0u64, 1, 100_000] {
            for read in [0usize, 1000] {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{} samples every {} ns{}", n, gap, if read > 0 { ", reading now and then" } else { "" }), |ctx| {
                    ctx.step(n as u64);
                    ctx.state(&format!("large {} {} {}", n, gap, read));
                    rt::set_clock(T0, WALL0);
                    let w = Duration::from_secs(1);
                    let s = s_build(w, &qs);
                    let mut win = Win::default();
                    for k in 0..n {
                        let v = ((k * 7919) % 100_003) as f64;
                        s.observe(v);
                        win.all.push((win.now, v));
                        rt::advance(gap as i64);
                        win.now += gap;
                        if read > 0 && k % read == 0 {
                            s.quantiles();
                        }
                    }
                    s_check(&s, w, &win, &qs)?;
                    // Half of the window passes, and then the other half.
                    for d in [500_000_000, 499_999_999, 1, 1] {
                        rt::advance(d as i64);
                        win.now += d;
                        s_check(&s, w, &win, &qs)?;
                    }
                    s.observe(1.0);
                    win.all.push((win.now, 1.0));
                    s_check(&s, w, &win, &qs)
                });
            }
        }
    }
    // Very many quantiles.
    for n in [100usize, 127, 129, 255, 257, 999, 1001, 1023, 1025, 2049, 4097, 10_001] {
        for samples in [1usize, 7, 1000] {
            idx += 1;
            if !mine(idx, shard, of) {
                continue;
            }
            ctx.case(&|| format!("{} quantiles of {} samples", n, samples), |ctx| {
                ctx.step(samples as u64);
                ctx.state(&format!("quantiles {} {}", n, samples));
                rt::set_clock(T0, WALL0);
                let qs: Vec<f64> = (0..n).map(|i| ((i * 7919) % n) as f64 / (n - 1) as f64).collect();
                let s = s_build(Duration::from_secs(1), &qs);
                let mut win = Win::default();
                for k in 0..samples {
                    let v = ((k * 7919) % 1009) as f64;
                    s.observe(v);
                    win.all.push((0, v));
                }
                s_check(&s, Duration::from_secs(1), &win, &qs)
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("up to {} samples at 3 rates; up to 10001 quantiles", if ctx.thorough { 1_048_577 } else { 131_073 }));
    }
}

pub fn scenarios(id: &str) -> Vec<Scenario> {
    let mut v = Vec::new();
    match id {
        "A01" => {
            v.extend(sharded("boundary-amounts", 4, a01));
            v.extend(sharded("longer", 4, a01_deep));
            v.extend(sharded("pumped", 4, a01_pump));
            v.extend(sharded("large", 4, a01_large));
        }
        "A02" => {
            v.extend(sharded("boundary-amounts", 4, a02));
            v.extend(sharded("longer", 4, a02_deep));
            v.extend(sharded("large", 4, a02_large));
            v.extend(sharded("clock", 1, a02_clock));
        }
        "H01" => {
            v.extend(sharded("layouts", 8, h01));
            v.extend(sharded("wide", 4, h01_wide));
            v.extend(sharded("pumped", 4, h01_pump));
            v.extend(sharded("large", 4, h01_large));
            v.extend(sharded("count", 1, h01_count));
        }
        "H02" => v.extend(sharded("layouts", 4, h02)),
        "S01" => {
            v.extend(sharded("window", 8, s01));
            v.extend(sharded("windows", 4, s01_windows));
            v.extend(sharded("rank", 4, s01_rank));
            v.extend(sharded("pumped", 4, s01_pump));
            v.extend(sharded("large", 8, s01_large));
            v.extend(sharded("count", 1, s01_count));
        }
        _ => {}
    }
    let _ = labels_of;
    v
}
