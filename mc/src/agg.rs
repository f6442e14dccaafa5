//! G01, B01, D01: merging in a gathering, builders, timing helpers.
use crate::ensure;
use crate::make::*;
use crate::num::{check_quantiles, layout};
use crate::explore::{explore, Exec, Opts};
use crate::{prom, rt};
use std::cell::RefCell;
use std::rc::Rc;
use crate::util::*;
use crate::work::{Ctx, Scenario};
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, ErrorKind, Gatherer, Registry};
use std::collections::BTreeMap;
use std::time::Duration;

/// What the reference model knows about one metric.
#[derive(Clone, Debug, Default)]
pub struct Ref {
    pub kind: usize,
    pub parts: (Option<String>, Option<String>, String),
    pub help: Option<String>,
    pub labels: BTreeMap<String, String>,
    pub timestamp: Option<i64>,
    /// Counter and gauge: the value.
    pub value: f64,
    /// Histogram and summary: (time, value).
    pub seen: Vec<(u64, f64)>,
    pub bounds: Vec<f64>,
    pub quantiles: Vec<f64>,
    pub window: Duration,
}
impl Ref {
    pub fn new(kind: usize, name: &str) -> Ref {
        Ref { kind, parts: (None, None, name.into()), window: WINDOW, ..Default::default() }
    }
    pub fn full(&self) -> String {
        let mut s = String::new();
        for p in [&self.parts.0, &self.parts.1].into_iter().flatten() {
            s += p;
            s += "_";
        }
        s + &self.parts.2
    }
    fn current(&self, now: u64) -> Vec<f64> {
        self.seen.iter().filter(|s| Duration::from_nanos(now - s.0) <= self.window && !s.1.is_nan()).map(|s| s.1).collect()
    }
}
/// Equal, or (when rounding may have happened) equal up to the rounding of `n` additions in any order.
fn sum_ok(got: f64, parts: &[f64]) -> bool {
    let s: f64 = parts.iter().sum();
    if same(got, s) {
        return true;
    }
    if parts.iter().all(|p| p.abs() < 1e6 && (p * 1048576.0).fract() == 0.0) {
        return false; // such sums are exact in every order
    }
    let mag: f64 = parts.iter().map(|p| p.abs()).sum();
    if !mag.is_finite() {
        // Overflow and cancellation depend on the order.
        let overflow = parts.iter().map(|p| p.abs()).filter(|p| p.is_finite()).sum::<f64>().is_infinite();
        return overflow && (got.is_nan() || parts.iter().all(|p| p.is_finite() || *p == got));
    }
    (got - s).abs() <= parts.len() as f64 * 2.0 * f64::EPSILON * mag
}
/// A gathering must consist of exactly the merged entries of `all`.
pub fn merged(got: &[Entry], all: &[Ref], now: u64) -> Result<(), String> {
    let mut groups: BTreeMap<(String, &str, Vec<(String, String)>), Vec<&Ref>> = BTreeMap::new();
    for r in all {
        let l: Vec<(String, String)> = r.labels.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        groups.entry((r.full(), KINDS[r.kind], l)).or_default().push(r);
    }
    let mut left = groups.clone();
    for e in got {
        let mut l = e.labels.clone();
        l.sort();
        let key = (e.name.clone(), KINDS.iter().find(|k| **k == e.kind).copied().unwrap_or("?"), l);
        let g = match left.remove(&key) {
            Some(g) => g,
            None if groups.contains_key(&key) => return Err(format!("{} {} {:?} is listed twice", e.kind, e.name, e.labels)),
            None => return Err(format!("{} {} {:?} is listed but was never registered", e.kind, e.name, e.labels)),
        };
        entry(e, &g, now).map_err(|m| format!("{} {} {:?} of {} members: {}", e.kind, e.name, e.labels, g.len(), m))?;
    }
    if let Some((k, _)) = left.iter().next() {
        return Err(format!("{} {} {:?} is missing", k.1, k.0, k.2));
    }
    Ok(())
}
fn entry(e: &Entry, g: &[&Ref], now: u64) -> Result<(), String> {
    let ts = g.iter().filter_map(|r| r.timestamp).max();
    ensure!(e.timestamp == ts, "timestamp {:?} instead of {:?}", e.timestamp, ts);
    if g[0].kind < 2 {
        let v: Vec<f64> = g.iter().map(|r| r.value).collect();
        ensure!(sum_ok(e.value, &v), "value {:?} instead of the sum of {:?}", e.value, v);
        return Ok(());
    }
    let all: Vec<f64> = g.iter().flat_map(|r| r.seen.iter().map(|s| s.1)).collect();
    ensure!(e.count == Some(all.len() as u64), "count {:?} instead of {}", e.count, all.len());
    ensure!(sum_ok(e.value, &all), "sum {:?} instead of the sum of {:?}", e.value, &all[..all.len().min(20)]);
    if g[0].kind == 2 {
        let bounds = layout(&g.iter().flat_map(|r| r.bounds.iter().cloned()).collect::<Vec<_>>());
        let lay: Vec<Vec<f64>> = g.iter().map(|r| layout(&r.bounds)).collect();
        let want: Vec<(f64, f64)> = bounds
            .iter()
            .map(|&b| {
                let mut n = 0;
                for (r, l) in g.iter().zip(&lay) {
                    if let Some(own) = l.iter().filter(|x| **x <= b).last() {
                        n += r.seen.iter().filter(|s| s.1 <= *own).count();
                    }
                }
                (b, n as f64)
            })
            .collect();
        ensure!(e.rows == want, "buckets {:?} instead of {:?}", e.rows, want);
    } else {
        let mut s: Vec<f64> = g.iter().flat_map(|r| r.current(now)).collect();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let qs: Vec<f64> = g.iter().flat_map(|r| r.quantiles.iter().cloned()).collect();
        check_quantiles(&e.rows, &qs, &s)?;
    }
    Ok(())
}
fn families_once(fs: &[prometrics::metric::MetricFamily]) -> Result<(), String> {
    let mut seen = std::collections::BTreeSet::new();
    for f in fs {
        ensure!(seen.insert((f.name().to_string(), kind_str(f.kind()))), "two families {} of kind {:?}", f.name(), f.kind());
    }
    Ok(())
}
/// The gathering of `g` is the merge of `all`; also as text.
fn gathered(g: &mut Gatherer, all: &[Ref], now: u64) -> Result<(), String> {
    let fs = g.gather();
    families_once(fs.as_ref())?;
    let es = entries(fs.as_ref());
    merged(&es, all, now)?;
    for (m, e) in fs.as_ref().iter().filter_map(|f| if let prometrics::metric::Metrics::Histogram(v) = f.metrics() { Some(v) } else { None }).flatten().zip(es.iter().filter(|e| e.kind == "histogram")) {
        if e.rows.len() < 100 {
            ways("the iterator of the merged buckets", || m.cumulative_buckets(), |b| (b.upper_bound(), b.cumulative_count() as f64), &e.rows)?;
        }
    }
    for f in fs.as_ref() {
        let hs: Vec<Option<&str>> = all.iter().filter(|r| r.full() == f.name().to_string() && KINDS[r.kind] == kind_str(f.kind())).map(|r| r.help.as_deref()).collect();
        ensure!(hs.contains(&f.help()), "family {} has the help {:?}, its members {:?}", f.name(), f.help(), hs);
    }
    Ok(())
}
/// Builds and registers the metric a reference describes and brings it to the described state.
fn make(r: &Ref, reg: &Registry) -> Any {
    let mut b = match r.kind {
        0 => AnyB::C(CounterBuilder::new(&r.parts.2)),
        1 => AnyB::G(GaugeBuilder::new(&r.parts.2)),
        2 => {
            let mut b = HistogramBuilder::new(&r.parts.2);
            b.buckets(r.bounds.iter().cloned());
            AnyB::H(b)
        }
        _ => {
            let mut b = SummaryBuilder::new(&r.parts.2, r.window);
            for q in &r.quantiles {
                b.quantile(*q);
            }
            AnyB::S(b)
        }
    };
    if let Some(s) = &r.parts.0 {
        b.namespace(s);
    }
    if let Some(s) = &r.parts.1 {
        b.subsystem(s);
    }
    if let Some(s) = &r.help {
        b.help(s);
    }
    for (n, v) in &r.labels {
        b.label(n, v);
    }
    b.registry(reg.clone());
    let m = b.finish().expect("valid metric");
    match &m {
        Any::C(c) => c.add(r.value).expect("counter add"),
        Any::G(g) => g.set(r.value),
        Any::H(h) => r.seen.iter().for_each(|s| h.observe(s.1)),
        Any::S(h) => r.seen.iter().for_each(|s| h.observe(s.1)),
    }
    if let Some(t) = r.timestamp {
        m.timestamp_mut().set(t);
    }
    m
}
/// Gives member `i` a share in values and counts that shows in every sum.
fn amount(r: &mut Ref, i: usize) {
    let v = (1u64 << i) as f64;
    if r.kind < 2 {
        r.value = v;
    } else {
        r.seen = (0..1usize << i.min(8)).map(|k| (0, v * 0.25 + k as f64)).collect();
        if r.kind == 2 {
            r.bounds = vec![1.0, v];
        } else {
            r.quantiles = vec![0.0, 0.5, i as f64 / 16.0];
        }
    }
}
fn rf(kind: usize, parts: (&str, &str, &str), labels: &[(&str, &str)]) -> Ref {
    let o = |s: &str| if s.is_empty() { None } else { Some(s.to_string()) };
    let mut r = Ref::new(kind, parts.2);
    r.parts = (o(parts.0), o(parts.1), parts.2.to_string());
    r.labels = labels.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    r
}
fn run_refs(ctx: &mut Ctx, refs: &[Ref]) -> Result<(), String> {
    ctx.step(refs.len() as u64 + 1);
    rt::set_clock(T0, WALL0);
    let mut g = Gatherer::new();
    let reg = g.registry();
    let ms: Vec<Any> = refs.iter().map(|r| make(r, &reg)).collect();
    gathered(&mut g, refs, 0)?;
    if refs.len() > 2 {
        // Once more after one has gone.
        let mut ms = ms;
        ms.remove(1);
        let mut refs = refs.to_vec();
        refs.remove(1);
        gathered(&mut g, &refs, 0).map_err(|e| format!("second gathering, without the second metric: {}", e))?;
    }
    Ok(())
}
const T0: i64 = 1_000_000_000_000;
const WALL0: i64 = 1_600_000_000_000_000_000;

/// Every sequence of members: names split in every way, labels, kinds.
fn g01_names(ctx: &mut Ctx, shard: usize, of: usize) {
    let splits = [("a", "b", "c"), ("a", "", "b_c"), ("", "a_b", "c"), ("", "", "a_b_c"), ("a_b", "", "c"), ("", "a", "b_c")];
    let labels: [&[(&str, &str)]; 3] = [&[], &[("x", "1")], &[("x", "2")]];
    let depth = if ctx.thorough { 4 } else { 3 };
    for kind in 0..4 {
        let al: Vec<Ref> = splits.iter().flat_map(|s| labels.iter().map(move |l| rf(kind, *s, l))).collect();
        seqs_shard(al.len(), 1, depth, shard, of, |q| members(ctx, &al, q));
    }
    // Different names that a sloppy comparison could confuse, all kinds under one name, more label sets.
    let mut al = vec![];
    for n in [("", "", "a_b"), ("a", "", "b"), ("", "", "a_b_"), ("", "", "a__b"), ("", "", "a:b"), ("a_b", "", "c"), ("", "", "a_B")] {
        al.push(rf(0, n, &[]));
        al.push(rf(2, n, &[("x", "1")]));
    }
    for kind in 0..4 {
        for l in [&[][..], &[("x", "1"), ("y", "1")], &[("x", "1")], &[("y", "1")], &[("x", "1,y=1")], &[("x", "")], &[("x", "1\",y=\"1")]] {
            al.push(rf(kind, ("a", "", "b"), l));
        }
    }
    seqs_shard(al.len(), 1, 3, shard, of, |q| members(ctx, &al, q));
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} members over 6 splits of one name and 3 label sets, for each kind; all sequences of up to 3 members over {} kinds, similar names and similar label sets", depth, al.len()));
    }
}
/// Names and label sets that are nearly alike stay apart.
fn g01_alike(ctx: &mut Ctx, shard: usize, of: usize) {
    // All strings of up to three characters out of two.
    let mut short = vec![String::new()];
    seqs(2, 1, 3, |q| short.push(q.iter().map(|&i| if i == 0 { 'a' } else { 'b' }).collect()));
    let mut sets: Vec<Vec<(String, String)>> = vec![vec![]];
    for a in &short {
        sets.push(vec![("x".into(), a.clone())]);
        sets.push(vec![(format!("x{}", a), "a".into())]);
        for b in short.iter().filter(|b| a.len() + b.len() <= 3) {
            sets.push(vec![("x".into(), a.clone()), ("y".into(), b.clone())]);
        }
    }
    sets.sort();
    sets.dedup();
    let member = |kind: usize, name: &str, l: &[(String, String)], i: usize| {
        let mut r = Ref::new(kind, name);
        r.labels = l.iter().cloned().collect();
        amount(&mut r, i % 8);
        r
    };
    let mut idx = 0;
    for kind in 0..4 {
        // All of them together, then all pairs.
        if mine(kind, shard, of) {
            ctx.case(&|| format!("all {} label sets, {}", sets.len(), KINDS[kind]), |ctx| run_refs(ctx, &sets.iter().enumerate().map(|(i, l)| member(kind, "m", l, i)).collect::<Vec<_>>()));
        }
        for a in &sets {
            for b in &sets {
                idx += 1;
                if !mine(idx, shard, of) || (!ctx.thorough && idx / of % 4 != kind) {
                    continue;
                }
                ctx.case(&|| format!("{} with the labels {:?} and {:?}", KINDS[kind], a, b), |ctx| {
                    ctx.state(&format!("{:?}{:?}", a, b));
                    run_refs(ctx, &[member(kind, "m", a, 0), member(kind, "m", b, 1)])
                });
            }
        }
    }
    // Strings that differ in one place only, as label value, label name, or metric name.
    for n in (1..=40).chain([64, 65, 129, 257, 300, 1025]) {
        for p in (0..n).filter(|p| n <= 40 || p % 32 < 2 || p + 2 > n) {
            idx += 1;
            if !mine(idx, shard, of) {
                continue;
            }
            let one = "a".repeat(n);
            let mut two = one.clone();
            two.replace_range(p..p + 1, "b");
            let kind = idx / of % 4;
            let l = |n: &str, v: &str| vec![(n.to_string(), v.to_string())];
            for (what, refs) in [
                ("label values", [member(kind, "m", &l("x", &one), 0), member(kind, "m", &l("x", &two), 1), member(kind, "m", &l("x", &one), 2)]),
                ("label names", [member(kind, "m", &l(&one, "v"), 0), member(kind, "m", &l(&two, "v"), 1), member(kind, "m", &l(&one, "v"), 2)]),
                ("metric names", [member(kind, &one, &[], 0), member(kind, &two, &[], 1), member(kind, &one, &[], 2)]),
            ] {
                ctx.case(&|| format!("{}: {} of {} characters that differ at {}", KINDS[kind], what, n, p), |ctx| {
                    ctx.state(&format!("{} {} {}", what, n, p));
                    run_refs(ctx, &refs)
                });
            }
        }
    }
    // Many labels that differ in one of them only.
    for n in [2usize, 3, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 129, 255, 257, 1000, 1025] {
        for p in [0, 1, n / 2, n - 2, n - 1] {
            for what in 0..3 {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                let one: Vec<(String, String)> = (0..n).map(|i| (format!("l{:04}", i), "v".to_string())).collect();
                let mut two = one.clone();
                match what {
                    0 => two[p].1 = "w".into(),
                    1 => two[p].0 += "_",
                    _ => drop(two.remove(p)),
                }
                let kind = idx / of % 4;
                ctx.case(&|| format!("{}: {} labels that differ at {}, form {}", KINDS[kind], n, p, what), |ctx| {
                    ctx.state(&format!("many {} {} {}", n, p, what));
                    run_refs(ctx, &[member(kind, "m", &one, 0), member(kind, "m", &two, 1), member(kind, "m", &one, 2)])
                });
            }
        }
    }
    // Different strings of the same hash under widespread simple functions (31h+c, 33h+c, 33h^c, FNV-1, FNV-1a, CRC-32, sums).
    for (a, b) in [
        ("Aa", "BB"), ("AaAaAa", "BBAaBB"), ("Ez", "FY"), ("bz", "aY"), ("hetairas", "mentioner"), ("heliotropes", "neurospora"), ("depravement", "serafins"),
        ("stylist", "subgenera"), ("joyful", "synaphea"), ("redescribed", "urites"), ("dram", "vivency"), ("costarring", "liquid"), ("declinate", "macallums"),
        ("altarage", "zinke"), ("altarages", "zinkes"), ("creamwove", "quists"), ("plumless", "buckeroo"), ("codding", "gnu"), ("exhibiters", "schlager"),
        ("ab", "ba"), ("ad", "bc"), ("abc", "acb"), ("aab", "aba"), ("a_b", "b_a"), ("ac_", "a_c"),
    ] {
        for kind in 0..4 {
            idx += 1;
            if !mine(idx, shard, of) {
                continue;
            }
            let l = |n: &str, v: &str| vec![(n.to_string(), v.to_string())];
            for refs in [
                [member(kind, "m", &l("x", a), 0), member(kind, "m", &l("x", b), 1), member(kind, "m", &l("x", a), 2)],
                [member(kind, "m", &l(a, "v"), 0), member(kind, "m", &l(b, "v"), 1), member(kind, "m", &l(a, "v"), 2)],
                [member(kind, a, &[], 0), member(kind, b, &[], 1), member(kind, a, &[], 2)],
            ] {
                ctx.case(&|| format!("{}: {:?} and {:?}", KINDS[kind], a, b), |ctx| run_refs(ctx, &refs));
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("all pairs of {} label sets of one or two labels over strings of up to 3 characters; label values, label names and metric names of up to 1025 characters that differ in one place", sets.len()));
    }
}
fn members(ctx: &mut Ctx, al: &[Ref], q: &[usize]) {
    let refs: Vec<Ref> = q
        .iter()
        .enumerate()
        .map(|(i, &k)| {
            let mut r = al[k].clone();
            amount(&mut r, i);
            r
        })
        .collect();
    let d = || refs.iter().map(|r| format!("{} {:?} {:?}", KINDS[r.kind], r.parts, r.labels)).collect::<Vec<_>>().join("; ");
    ctx.case(&d, |ctx| {
        ctx.state(&format!("{:?}", q));
        run_refs(ctx, &refs)
    });
}
/// Bucket layouts of two or three members.
fn g01_hist(ctx: &mut Ctx, shard: usize, of: usize) {
    let al = [f64::NEG_INFINITY, -1.0, -0.0, 0.0, 1e-17, 2e-17, 1.0, 1.0f64.next_up(), 2.0, f64::MAX, f64::INFINITY];
    let obs = [f64::NEG_INFINITY, -2.0, -1.0, 0.0, 1e-17, 1.5e-17, 2e-17, 0.5, 1.0, 1.0f64.next_up(), 1.5, 2.0, 3.0, f64::MAX, f64::INFINITY];
    let subs: Vec<Vec<f64>> = subsets(al.len()).into_iter().filter(|m| m.count_ones() <= 3).map(|m| (0..al.len()).filter(|i| m >> i & 1 == 1).map(|i| al[i]).collect()).collect();
    let small: Vec<&Vec<f64>> = subs.iter().filter(|s| s.len() <= 2).collect();
    let mut idx = 0;
    let hist = |b: &[f64], seen: &[f64]| {
        let mut r = Ref::new(2, "h");
        r.bounds = b.to_vec();
        r.seen = seen.iter().map(|v| (0, *v)).collect();
        r
    };
    let finite: Vec<f64> = obs.iter().cloned().filter(|x| x.is_finite() && x.abs() < 1e300).collect();
    for a in &subs {
        for b in &subs {
            idx += 1;
            if !mine(idx, shard, of) || (!ctx.thorough && a.len() + b.len() > 5) {
                continue;
            }
            ctx.case(&|| format!("histograms with the bounds {:?} and {:?}", a, b), |ctx| {
                ctx.state(&format!("{:?}{:?}", a, b));
                run_refs(ctx, &[hist(a, &obs[1..]), hist(b, &finite[idx % 3..])])
            });
        }
    }
    for a in &small {
        for b in &small {
            for c in &small {
                idx += 1;
                if !mine(idx, shard, of) || (!ctx.thorough && a.len() + b.len() + c.len() > 4) {
                    continue;
                }
                ctx.case(&|| format!("histograms with the bounds {:?}, {:?} and {:?}", a, b, c), |ctx| {
                    ctx.state(&format!("{:?}{:?}{:?}", a, b, c));
                    run_refs(ctx, &[hist(a, &finite), hist(b, &finite[..idx % 7]), hist(c, &finite[idx % 5..])])
                });
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("all pairs of layouts with up to {} of {} bounds, triples with up to {} in total", if ctx.thorough { "3+3" } else { "5 in total" }, al.len(), if ctx.thorough { 6 } else { 4 }));
    }
}
fn g01_times(ctx: &mut Ctx, shard: usize, of: usize) {
    let ts = [None, Some(i64::MIN + 1), Some(-5), Some(-1), Some(0), Some(7), Some(i64::MAX)];
    for kind in 0..4 {
        seqs_shard(ts.len(), 1, if ctx.thorough { 5 } else { 4 }, shard, of, |q| {
            ctx.case(&|| format!("{} members with the timestamps {:?}", KINDS[kind], q.iter().map(|i| ts[*i]).collect::<Vec<_>>()), |ctx| {
                let refs: Vec<Ref> = q
                    .iter()
                    .enumerate()
                    .map(|(i, &k)| {
                        let mut r = Ref::new(kind, "m");
                        amount(&mut r, i);
                        r.timestamp = ts[k];
                        r
                    })
                    .collect();
                ctx.state(&format!("{:?}", q));
                run_refs(ctx, &refs)
            });
        });
    }
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} timestamps out of {}", if ctx.thorough { 5 } else { 4 }, ts.len()));
    }
}
/// Changes of the labels of three members a=1, a=2, a=3 (see `relabel`).
const RELABELS: usize = 9;
fn relabel(ms: &mut [Any], o: usize) {
    let m = &mut ms[o / 3];
    match o % 3 {
        0 => m.labels_mut().insert("a", ["2", "3", "1"][o / 3]).unwrap(),
        1 => m.labels_mut().insert("a", ["3", "1", "2"][o / 3]).unwrap(),
        _ => m.labels_mut().clear(),
    }
}
/// No series of the text appears twice.
fn once(text: &str) -> Result<(), String> {
    let mut seen = std::collections::BTreeSet::new();
    for s in prom::parse(text)?.into_iter().flat_map(|f| f.samples) {
        let mut l = s.without("");
        l.sort();
        ensure!(seen.insert((s.name.clone(), l.clone())), "{} {:?} is listed twice; text {:?}", s.name, l, text);
    }
    Ok(())
}
/// A gathering is kept while labels change: it is still the merge it was.
fn g01_kept(ctx: &mut Ctx, shard: usize, of: usize) {
    for kind in 0..4 {
        seqs_shard(RELABELS, 0, if ctx.thorough { 4 } else { 3 }, shard, of, |q| {
            for cut in 0..=q.len() {
                ctx.case(&|| format!("{} members a=1, a=2, a=3, label changes {:?}, gathered after {} of them", KINDS[kind], q, cut), |ctx| {
                    ctx.step(q.len() as u64 + 1);
                    ctx.state(&format!("{}{:?}", cut, q));
                    rt::set_clock(T0, WALL0);
                    let mut g = Gatherer::new();
                    let reg = g.registry();
                    let mut refs: Vec<Ref> = (0..3).map(|i| rf(kind, ("", "", "m"), &[("a", ["1", "2", "3"][i])])).collect();
                    refs.iter_mut().enumerate().for_each(|(i, r)| amount(r, i));
                    let mut ms: Vec<Any> = refs.iter().map(|r| make(r, &reg)).collect();
                    for &o in &q[..cut] {
                        relabel(&mut ms, o);
                    }
                    for (r, m) in refs.iter_mut().zip(&ms) {
                        r.labels = labels_of(m.labels()).into_iter().collect();
                    }
                    let fs = g.gather();
                    let copy = fs.clone();
                    for &o in &q[cut..] {
                        relabel(&mut ms, o);
                    }
                    for f in [&fs, &copy] {
                        merged(&entries(f.as_ref()), &refs, 0)?;
                        families_once(f.as_ref())?;
                        once(&f.to_text())?;
                    }
                    drop(ms);
                    merged(&entries(fs.as_ref()), &refs, 0)
                });
            }
        });
    }
    if shard == 0 {
        ctx.cover("gatherings of three members that are kept over all sequences of up to 3 (thorough: 4) of 9 label changes".to_string());
    }
}
/// Labels change while a gathering is made and printed.
fn g01_conc(ctx: &mut Ctx, shard: usize, of: usize) {
    let o = Opts { full_execs: 0, max_preempt: if ctx.thorough { 3 } else { 2 }, bounded_execs: if ctx.thorough { 100_000 } else { 6_000 }, wall_s: if ctx.thorough { 60 } else { 20 }, ..Default::default() };
    let mut n = 0;
    for kind in 0..4 {
        seqs(RELABELS, 1, 2, |q| {
            n += 1;
            if !mine(n, shard, of) || (!ctx.thorough && q.len() == 2 && n / of % 4 != kind) {
                return;
            }
            explore(ctx, &format!("{} members a=1, a=2, a=3 are gathered and printed during the label changes {:?}", KINDS[kind], q), &o, &|| {
                rt::set_clock(T0, WALL0);
                let mut g = Gatherer::new();
                let reg = g.registry();
                let ms: Vec<Any> = (0..3).map(|i| Any::build(kind, "m", &[("a", ["1", "2", "3"][i])], Some(&reg))).collect();
                for (i, m) in ms.iter().enumerate() {
                    m.bump((1 << i) as f64);
                }
                // The label sets of each member, with the earliest and latest time it may have had each.
                let hist: Rc<RefCell<Vec<Vec<(Vec<(String, String)>, u32, u32)>>>> = Rc::new(RefCell::new(ms.iter().map(|m| vec![(labels_of(m.labels()), 0, u32::MAX)]).collect()));
                let res: Rc<RefCell<Option<(Vec<Entry>, String, u32, u32)>>> = Rc::default();
                let (h2, r2, q) = (hist.clone(), res.clone(), q.to_vec());
                let mut m2 = ms.clone();
                Exec {
                    threads: vec![
                        Box::new(move || {
                            let (fs, a, b) = rt::op(|| g.gather());
                            let text = fs.to_text();
                            *r2.borrow_mut() = Some((entries(fs.as_ref()), text, a, b));
                            drop(g);
                        }),
                        Box::new(move || {
                            for o in q {
                                let (_, a, b) = rt::op(|| relabel(&mut m2, o));
                                let l = labels_of(m2[o / 3].labels());
                                let h = &mut h2.borrow_mut()[o / 3];
                                h.last_mut().unwrap().2 = b;
                                h.push((l, a, u32::MAX));
                            }
                        }),
                    ],
                    finish: Box::new(move || {
                        let (es, text, a, b) = res.borrow_mut().take().ok_or("no gathering")?;
                        once(&text)?;
                        let mut total = 0;
                        for e in &es {
                            ensure!(es.iter().filter(|x| x.labels == e.labels).count() == 1, "{:?} is listed twice: {:?}", e.labels, es);
                            let v = e.value as u32;
                            ensure!(v as f64 == e.value && total & v == 0 && v < 8, "value {:?} in {:?}", e.value, es);
                            total |= v;
                            for i in 0..3 {
                                let ok = hist.borrow()[i].iter().any(|h| h.0 == e.labels && h.1 < b && h.2 > a);
                                ensure!(v >> i & 1 == 0 || ok, "member {} is listed with {:?}, which it did not have during the gathering: {:?}", i, e.labels, hist.borrow()[i]);
                            }
                        }
                        ensure!(total == 7, "members missing: {:?}", es);
                        for s in prom::parse(&text)?.into_iter().flat_map(|f| f.samples) {
                            let mut l = s.without(if kind == 2 { "le" } else { "quantile" });
                            l.sort();
                            ensure!(es.iter().any(|e| e.labels == l), "the text has {:?}, the gathering {:?}", l, es.iter().map(|e| &e.labels).collect::<Vec<_>>());
                        }
                        drop(ms);
                        Ok(format!("{:?}", es.iter().map(|e| (&e.labels, e.value)).collect::<Vec<_>>()))
                    }),
                }
            });
        });
    }
}
/// Members of one name with different help texts.
fn g01_helps(ctx: &mut Ctx, shard: usize, of: usize) {
    let helps = [None, Some(""), Some("a"), Some("aa"), Some("b"), Some("B\n\\"), Some(" a ")];
    let labels: [&[(&str, &str)]; 2] = [&[], &[("x", "1")]];
    for kind in 0..4 {
        let al: Vec<Ref> = helps
            .iter()
            .flat_map(|h| labels.iter().map(move |l| (h, l)))
            .map(|(h, l)| {
                let mut r = rf(kind, ("", "", "m"), l);
                r.help = h.map(|h| h.to_string());
                r
            })
            .collect();
        seqs_shard(al.len(), 1, if ctx.thorough { 4 } else { 3 }, shard, of, |q| members(ctx, &al, q));
    }
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} members with one of {} help texts and 2 label sets", if ctx.thorough { 4 } else { 3 }, helps.len()));
    }
}
fn g01_values(ctx: &mut Ctx, shard: usize, of: usize) {
    let vs = [0.0, -0.0, 1.0, 0.1, -3.5, 1e300, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 9007199254740993.0];
    for kind in 0..4 {
        seqs_shard(vs.len(), 1, if ctx.thorough { 4 } else { 3 }, shard, of, |q| {
            let xs: Vec<f64> = q.iter().map(|&i| vs[i]).collect();
            if (kind == 0 && xs.iter().any(|x| !(*x >= 0.0))) || (kind == 2 && xs.iter().any(|x| x.is_nan())) {
                return;
            }
            ctx.case(&|| format!("{} members worth {:?}", KINDS[kind], xs), |ctx| {
                let refs: Vec<Ref> = xs
                    .iter()
                    .enumerate()
                    .map(|(i, &x)| {
                        let mut r = Ref::new(kind, "m");
                        r.value = x;
                        if kind >= 2 {
                            r.seen = vec![(0, x); 1 + i % 2];
                        }
                        r.bounds = vec![0.0];
                        r.quantiles = vec![0.5, 1.0];
                        r
                    })
                    .collect();
                ctx.state(&format!("{:?}", xs));
                run_refs(ctx, &refs)
            });
        });
    }
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} member values out of {}", if ctx.thorough { 4 } else { 3 }, vs.len()));
    }
}
/// Quantiles over the union of the samples, expiry in each member's own window.
fn g01_summary(ctx: &mut Ctx, shard: usize, of: usize) {
    let lists: [&[f64]; 7] = [&[], &[1.0], &[2.0, 1.0, 3.0], &[5.0, 5.0], &[f64::NAN], &[-1.0, f64::INFINITY, 0.0, 4.0], &[9.0, 8.0, 7.0, 6.0, 5.0, 4.0, 3.0]];
    let qsets: [&[f64]; 6] = [&[], &[0.5], &[0.25, 0.75, 1.0], &[1.0, 0.0, 0.5, 0.5], &[0.9], &[0.9991, 0.25f64.next_up(), 0.9992]];
    let wins = [Duration::from_secs(10), Duration::from_secs(60), Duration::from_secs(0)];
    let mut al = vec![];
    for l in lists {
        for q in qsets {
            for w in wins {
                let mut r = Ref::new(3, "s");
                r.seen = l.iter().map(|v| (0, *v)).collect();
                r.quantiles = q.to_vec();
                r.window = w;
                al.push(r);
            }
        }
    }
    let mut run = |ctx: &mut Ctx, q: &[usize]| {
        let refs: Vec<Ref> = q.iter().map(|&i| al[i].clone()).collect();
        let d = || format!("summaries (samples, quantiles, window) {:?}", refs.iter().map(|r| (r.seen.iter().map(|s| s.1).collect::<Vec<_>>(), &r.quantiles, r.window)).collect::<Vec<_>>());
        ctx.case(&d, |ctx| {
            ctx.step(refs.len() as u64 + 3);
            ctx.state(&format!("{:?}", q));
            rt::set_clock(T0, WALL0);
            let mut g = Gatherer::new();
            let reg = g.registry();
            let _ms: Vec<Any> = refs.iter().map(|r| make(r, &reg)).collect();
            let mut now = 0u64;
            for adv in [0u64, 10_000_000_000, 1, 49_999_999_999, 1] {
                rt::advance(adv as i64);
                now += adv;
                gathered(&mut g, &refs, now).map_err(|e| format!("{} ns after the observations: {}", now, e))?;
            }
            Ok(())
        });
    };
    seqs_shard(al.len(), 1, 2, shard, of, |q| run(ctx, q));
    // Triples: every third template.
    let step = if ctx.thorough { 2 } else { 7 };
    let n = al.len() / step;
    seqs_shard(n, 3, 3, shard, of, |q| run(ctx, &q.iter().enumerate().map(|(i, k)| k * step + i % step).collect::<Vec<_>>()));
    if shard == 0 {
        ctx.cover(format!("all pairs of {} summaries (7 sample lists, 6 quantile sets, 3 windows), {} triples, each at 5 times", al.len(), n * n * n));
    }
}
/// Labels, values and members change between gatherings.
fn g01_history(ctx: &mut Ctx, shard: usize, of: usize) {
    let depth = if ctx.thorough { 6 } else { 5 };
    for kind in 0..4 {
        // Two members of the same name.  Operations on either: label x=1, x=2, none; bump; drop and re-create; gather.
        seqs_shard(11, 1, depth, shard, of, |q| {
            if q.len() == depth && (q.iter().sum::<usize>() + kind) % 2 == 1 && !ctx.thorough {
                return; // the longest histories are divided over the kinds
            }
            ctx.case(&|| format!("{} history {:?} (0-4 and 5-9: x=1, x=2, clear, bump, replace first/second; 10: gather)", KINDS[kind], q), |ctx| {
                rt::set_clock(T0, WALL0);
                let mut g = Gatherer::new();
                let reg = g.registry();
                let mut refs: Vec<Ref> = (0..2)
                    .map(|i| {
                        let mut r = Ref::new(kind, "m");
                        r.parts.0 = Some("p".into());
                        amount(&mut r, i);
                        r
                    })
                    .collect();
                refs[1].parts = (None, None, "p_m".into());
                let mut ms: Vec<Any> = refs.iter().map(|r| make(r, &reg)).collect();
                for &o in q {
                    ctx.step(1);
                    if o == 10 {
                        gathered(&mut g, &refs, 0)?;
                        continue;
                    }
                    let i = o / 5;
                    match o % 5 {
                        0 | 1 => {
                            let v = if o % 5 == 0 { "1" } else { "2" };
                            ms[i].labels_mut().insert("x", v).map_err(|e| e.to_string())?;
                            refs[i].labels.insert("x".into(), v.into());
                        }
                        2 => {
                            ms[i].labels_mut().clear();
                            refs[i].labels.clear();
                        }
                        3 => {
                            ms[i].bump(0.5);
                            refs[i].value += 0.5;
                            refs[i].seen.push((0, 0.5));
                        }
                        _ => {
                            let r = refs[i].clone();
                            ms[i] = make(&r, &reg);
                        }
                    }
                }
                ctx.state(&format!("{:?}", refs));
                gathered(&mut g, &refs, 0)
            });
        });
    }
    if shard == 0 {
        ctx.cover(format!("all histories of up to {} label changes, updates, replacements and gatherings of two members", depth));
    }
}
fn g01_many(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut idx = 0;
    for &n in pumps(ctx.thorough) {
        for names in [1usize, 2, 7] {
            for labels in [1usize, 3, 10, 100] {
                for kind in 0..5 {
                    for order in 0..3 {
                        idx += 1;
                        if !mine(idx, shard, of) {
                            continue;
                        }
                        ctx.case(&|| format!("{} members, {} names, {} label sets, kind {}, order {}", n, names, labels, kind, order), |ctx| {
                            ctx.state(&format!("{} {} {} {}", n, names, labels, kind));
                            let refs: Vec<Ref> = (0..n)
                                .map(|i| {
                                    let j = match order {
                                        0 => i,
                                        1 => n - 1 - i,
                                        _ => (i * 7919) % n.max(1),
                                    };
                                    let k = if kind == 4 { j % 4 } else { kind };
                                    let l = format!("{}", j / names % labels);
                                    let mut r = rf(k, if j % 2 == 0 { ("n", "", "x") } else { ("", "", "n_x") }, &[("l", &l)]);
                                    r.parts.2 += &format!("{}", j % names);
                                    amount(&mut r, j % 7);
                                    r
                                })
                                .collect();
                            run_refs(ctx, &refs)
                        });
                    }
                }
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("gatherings of {:?} members over 1, 2, 7 names and 1, 3, 10, 100 label sets, in three orders", pumps(ctx.thorough)));
    }
}
/// Much larger gatherings.
fn g01_large(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut idx = 0;
    for n in if ctx.thorough { vec![2047usize, 4097, 5001, 10_001, 20_001, 65_537] } else { vec![2049usize, 4097, 5001, 10_001, 20_001, 40_001, 65_537] } {
        for labels in [1usize, 50, usize::MAX] {
            for kind in 0..5 {
                if n > 10_001 && !ctx.thorough && (labels != 1 || kind == 4) {
                    continue;
                }
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{} members, {} label sets, kind {}", n, labels.min(n), kind), |ctx| {
                    ctx.state(&format!("large {} {} {}", n, labels, kind));
                    let refs: Vec<Ref> = (0..n)
                        .map(|j| {
                            let l = format!("{}", j % labels);
                            let mut r = rf(if kind == 4 { j % 4 } else { kind }, if j % 2 == 0 { ("n", "", "x") } else { ("", "", "n_x") }, &[("l", &l)]);
                            amount(&mut r, j % 4);
                            r
                        })
                        .collect();
                    run_refs(ctx, &refs)
                });
            }
        }
    }
    // Members with very many samples and buckets.
    let max = if ctx.thorough { 300_001 } else { 100_001 };
    for n in large(ctx.thorough).into_iter().filter(|n| *n <= max) {
        for kind in 2..4 {
            for (members, values) in [(1usize, 1009), (3, 1009), (1, 1), (2, 1), (2, 3), (1, usize::MAX), (2, usize::MAX)] {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{} members with {} observations of {} values each, kind {}", members, n, values, kind), |ctx| {
                    ctx.state(&format!("samples {} {} {} {}", n, members, values, kind));
                    let refs: Vec<Ref> = (0..members)
                        .map(|j| {
                            let mut r = rf(kind, ("", "", "x"), &[]);
                            r.seen = (0..n).map(|k| (0, ((k * 7919 + j) % values) as f64)).collect();
                            if kind == 2 {
                                r.bounds = (0..(n / 10).min(900)).map(|i| (i * (j + 1)) as f64).collect();
                            } else {
                                r.quantiles = vec![0.0, 0.5, 0.9, 0.99, 1.0];
                            }
                            r
                        })
                        .collect();
                    run_refs(ctx, &refs)
                });
            }
        }
    }
    if shard == 0 {
        ctx.cover("gatherings of thousands of members; members with tens of thousands of observations".to_string());
    }
}

// ---- B01 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum BO {
    Ns(&'static str),
    Ss(&'static str),
    Help(&'static str),
    Label(&'static str, &'static str),
    Reg(usize),
    Default,
    Init(f64),
    Bucket(f64),
    Buckets(f64, f64),
    Quantile(f64),
    Finish,
}
/// The reference model of a builder.
#[derive(Clone, Debug)]
struct BM {
    r: Ref,
    regs: Vec<usize>, // 0, 1: own gatherers; 2: the default one
}
impl BM {
    /// Is there nothing among the settings in force that has to be refused?
    fn valid(&self) -> bool {
        let word = |s: &str, colon: bool| {
            let ok = |c: u8| c == b'_' || c.is_ascii_alphabetic() || (colon && c == b':');
            !s.is_empty() && ok(s.as_bytes()[0]) && s.bytes().all(|c| ok(c) || c.is_ascii_digit())
        };
        let p = &self.r.parts;
        let reserved = ["", "", "le", "quantile"][self.r.kind];
        [&p.0, &p.1, &Some(p.2.clone())].iter().all(|x| x.as_ref().map_or(true, |x| word(x, true)))
            && self.r.labels.keys().all(|k| word(k, false) && !k.starts_with("__") && k != reserved)
            && (self.r.kind != 2 || self.r.bounds.iter().all(|b| !b.is_nan()))
            && (self.r.kind != 3 || self.r.quantiles.iter().all(|q| *q >= 0.0 && *q <= 1.0))
    }
}
/// Two gatherers of its own, the default one, and what must be in them.
struct Bench {
    g: Vec<Gatherer>,
    regs: Vec<Registry>,
    alive: Vec<(Any, Ref, Vec<usize>)>,
}
impl Bench {
    fn new() -> Bench {
        let g: Vec<Gatherer> = (0..2).map(|_| Gatherer::new()).collect();
        let mut regs: Vec<Registry> = g.iter().map(|g| g.registry()).collect();
        regs.push(default_registry());
        Bench { g, regs, alive: vec![] }
    }
    fn finish(&mut self, b: &AnyB, m: &BM) -> Result<(), String> {
        if !m.valid() {
            return match b.finish() {
                Err(e) if *e.kind() == ErrorKind::InvalidInput => Ok(()),
                Err(e) => Err(format!("refused with {}", e)),
                Ok(a) => Err(format!("built with settings that must be refused: {}", a.text())),
            };
        }
        let a = b.finish().map_err(|e| format!("refused: {}", e))?;
        let mut r = m.r.clone();
        same_config(&a, &r)?;
        let i = self.alive.len();
        let v = (1u64 << i) as f64;
        match &a {
            Any::G(g) => {
                g.add(v);
                r.value += v;
            }
            _ => a.bump(v),
        }
        if r.kind == 0 {
            r.value = v;
        }
        if r.kind >= 2 {
            r.seen.push((0, v));
        }
        self.alive.push((a, r, m.regs.clone()));
        for (k, (a, r, _)) in self.alive.iter().enumerate() {
            let want = if r.kind < 2 { r.value } else { r.seen.iter().map(|s| s.1).sum() };
            ensure!(a.total() == want, "after building metric {}, metric {} has the value {} instead of {}", i + 1, k + 1, a.total(), want);
        }
        Ok(())
    }
    fn check(mut self) -> Result<(), String> {
        for k in 0..3 {
            let refs: Vec<Ref> = self.alive.iter().filter(|a| a.2.contains(&k)).map(|a| a.1.clone()).collect();
            let r = if k < 2 {
                gathered(&mut self.g[k], &refs, 0)
            } else {
                let mut d = default_gatherer().lock().map_err(|_| "the default gatherer is poisoned")?;
                gathered(&mut *d, &refs, 0)
            };
            r.map_err(|e| format!("{}: {}", ["registry 1", "registry 2", "default registry"][k], e))?;
        }
        drop(self.alive);
        Ok(())
    }
}
fn same_config(a: &Any, r: &Ref) -> Result<(), String> {
    let n = a.name();
    let got = (n.namespace().map(|s| s.to_string()), n.subsystem().map(|s| s.to_string()), n.name().to_string());
    ensure!(got == r.parts, "name parts {:?} instead of {:?}", got, r.parts);
    ensure!(n.to_string() == r.full(), "name {:?} instead of {:?}", n.to_string(), r.full());
    ensure!(a.help() == r.help.as_deref(), "help {:?} instead of {:?}", a.help(), r.help);
    let l: BTreeMap<String, String> = labels_of(a.labels()).into_iter().collect();
    ensure!(l == r.labels && labels_of(a.labels()).len() == l.len(), "labels {:?} instead of {:?}", labels_of(a.labels()), r.labels);
    ensure!(a.timestamp().get().is_none(), "timestamp {:?} on a new metric", a.timestamp().get());
    let fresh = if r.kind == 1 { r.value } else { 0.0 };
    ensure!(same(a.total(), fresh), "a new metric has the value {:?} instead of {:?}", a.total(), fresh);
    ensure!(a.events().unwrap_or(0) == 0, "a new metric has {:?} observations", a.events());
    match a {
        Any::H(h) => {
            let b: Vec<(f64, u64)> = h.buckets().iter().map(|b| (b.upper_bound(), b.count())).collect();
            let want: Vec<(f64, u64)> = layout(&r.bounds).into_iter().map(|b| (b, 0)).collect();
            ensure!(b == want, "buckets {:?} instead of {:?}", b, want);
        }
        Any::S(s) => {
            ensure!(s.quantiles().is_empty(), "a new summary has samples");
        }
        _ => {}
    }
    Ok(())
}
fn apply(b: &mut AnyB, m: &mut BM, o: BO, bench: &mut Bench) -> Result<(), String> {
    match o {
        BO::Ns(s) => {
            b.namespace(s);
            m.r.parts.0 = Some(s.into());
        }
        BO::Ss(s) => {
            b.subsystem(s);
            m.r.parts.1 = Some(s.into());
        }
        BO::Help(s) => {
            b.help(s);
            m.r.help = Some(s.into());
        }
        BO::Label(n, v) => {
            b.label(n, v);
            m.r.labels.insert(n.into(), v.into());
        }
        BO::Reg(k) => {
            if !m.regs.contains(&k) {
                b.registry(bench.regs[k].clone());
                m.regs.push(k);
            }
        }
        BO::Default => {
            if !m.regs.contains(&2) {
                b.default_registry();
                m.regs.push(2);
            }
        }
        BO::Init(v) => {
            if let AnyB::G(g) = b {
                g.initial_value(v);
                m.r.value = v;
            }
        }
        BO::Bucket(v) => {
            if let AnyB::H(h) = b {
                h.bucket(v);
                m.r.bounds.push(v);
            }
        }
        BO::Buckets(v, w) => {
            if let AnyB::H(h) = b {
                h.buckets(vec![v, w]);
                m.r.bounds.extend([v, w]);
            }
        }
        BO::Quantile(q) => {
            if let AnyB::S(s) = b {
                s.quantile(q);
                m.r.quantiles.push(q);
            }
        }
        BO::Finish => bench.finish(b, m)?,
    }
    Ok(())
}
fn b_ops(kind: usize) -> Vec<BO> {
    use BO::*;
    let mut v = vec![Ns("n"), Ns("n2"), Ss("s"), Ss("s2"), Help("h"), Help(""), Label("a", "1"), Label("a", "2"), Label("b", ""), Label("_c", "3"), Label("le", "5"), Label("quantile", "6"), Ns("0"), Reg(0), Reg(1), Default];
    match kind {
        1 => v.extend([Init(2.5), Init(-1.0)]),
        2 => v.extend([Bucket(4.0), Bucket(1.0), Buckets(8.0, 2.0), Bucket(f64::NAN)]),
        3 => v.extend([Quantile(0.5), Quantile(0.0), Quantile(1.0), Quantile(1.5)]),
        _ => {}
    }
    v.push(Finish);
    v
}
fn new_builder(kind: usize) -> (AnyB, BM) {
    let b = match kind {
        3 => AnyB::S(SummaryBuilder::new("m", Duration::from_secs(7))),
        k => AnyB::new(k, "m"),
    };
    let mut r = Ref::new(kind, "m");
    r.window = Duration::from_secs(if kind == 3 { 7 } else { 60 });
    (b, BM { r, regs: vec![] })
}
fn b01(ctx: &mut Ctx, shard: usize, of: usize) {
    let depth = if ctx.thorough { 5 } else { 4 };
    for kind in 0..4 {
        let ops = b_ops(kind);
        seqs_shard(ops.len(), 0, depth, shard, of, |q| {
            let seq: Vec<BO> = q.iter().map(|&i| ops[i]).collect();
            ctx.case(&|| format!("{} builder: {:?}, built twice more", KINDS[kind], seq), |ctx| {
                ctx.step(seq.len() as u64 + 2);
                rt::set_clock(T0, WALL0);
                let mut bench = Bench::new();
                let (mut b, mut m) = new_builder(kind);
                for &o in &seq {
                    apply(&mut b, &mut m, o, &mut bench)?;
                }
                bench.finish(&b, &m)?;
                bench.finish(&b, &m).map_err(|e| format!("built again: {}", e))?;
                ctx.state(&format!("{:?}", m));
                bench.check()
            });
        });
    }
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} builder calls (17-21 calls per kind, some of them to be refused, building in between included), then built twice", depth));
    }
}
/// The window configured is the window used; simple constructors.
fn b01_direct(ctx: &mut Ctx, _s: usize, _o: usize) {
    for w in [0u64, 1, 1_000_000_000, 7_500_000_000] {
        for shared in [false, true] {
            ctx.case(&|| format!("window of {} ns, shared builder: {}", w, shared), |ctx| {
                ctx.step(4);
                ctx.state(&format!("{}", w));
                rt::set_clock(T0, WALL0);
                let mut b = if shared { MetricBuilder::without_registry().summary("s", Duration::from_nanos(w)) } else { SummaryBuilder::new("s", Duration::from_nanos(w)) };
                b.quantile(0.0);
                for _ in 0..2 {
                    let s = b.finish().unwrap();
                    s.observe(1.0);
                    rt::advance(w as i64);
                    ensure!(s.quantiles().len() == 1, "sample gone after {} ns", w);
                    rt::advance(1);
                    ensure!(s.quantiles().is_empty(), "sample still there after {} ns", w + 1);
                }
                Ok(())
            });
        }
    }
    for kind in 0..4 {
        ctx.case(&|| format!("{}::new", KINDS[kind]), |ctx| {
            ctx.step(3);
            let a = match kind {
                0 => Any::C(Counter::new("n").map_err(|e| e.to_string())?),
                1 => Any::G(Gauge::new("n").map_err(|e| e.to_string())?),
                2 => Any::H(Histogram::new("n").map_err(|e| e.to_string())?),
                _ => Any::S(Summary::new("n", WINDOW).map_err(|e| e.to_string())?),
            };
            same_config(&a, &Ref::new(kind, "n"))?;
            a.bump(2.0);
            let n = default_gatherer().lock().map_err(|_| "poisoned")?.gather().into_vec().len();
            ensure!(n == 0, "a metric made without a builder is registered");
            Ok(())
        });
    }
    ctx.cover("4 windows, the plain constructors of each kind".into());
}
/// Very often built, and very many settings.
fn b01_pump(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut idx = 0;
    let mut ns: Vec<usize> = pumps(ctx.thorough).iter().cloned().filter(|n| *n > 0 && *n <= if ctx.thorough { 2100 } else { 260 }).collect();
    ns.push(1030);
    for kind in 0..4 {
        for &n in &ns {
            for shared in [false, true] {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{} builder (shared: {}) with the same settings built {} times", KINDS[kind], shared, n), |ctx| {
                    ctx.step(n as u64);
                    ctx.state(&format!("built {} {} {}", kind, n, shared));
                    rt::set_clock(T0, WALL0);
                    let mut g = Gatherer::new();
                    let mut sb = MetricBuilder::with_registry(g.registry());
                    sb.namespace("n").label("a", "1");
                    let mut b = match kind {
                        0 => AnyB::C(sb.counter("m")),
                        1 => AnyB::G(sb.gauge("m")),
                        2 => AnyB::H(sb.histogram("m")),
                        _ => AnyB::S(sb.summary("m", Duration::from_secs(7))),
                    };
                    if !shared {
                        b = new_builder(kind).0;
                        b.namespace("n").label("a", "1").registry(g.registry());
                    }
                    b.help("h");
                    let mut r = rf(kind, ("n", "", "m"), &[("a", "1")]);
                    r.help = Some("h".into());
                    r.window = Duration::from_secs(7);
                    match &mut b {
                        AnyB::G(b) => {
                            b.initial_value(3.0);
                            r.value = 3.0;
                        }
                        AnyB::H(b) => {
                            b.bucket(2.0);
                            r.bounds.push(2.0);
                        }
                        AnyB::S(b) => {
                            b.quantile(0.5);
                            r.quantiles.push(0.5);
                        }
                        _ => {}
                    }
                    let mut all: Vec<(Any, Ref)> = vec![];
                    for i in 0..n {
                        let mut a = b.finish().map_err(|e| format!("built for the {}th time: {}", i + 1, e))?;
                        same_config(&a, &r).map_err(|e| format!("built for the {}th time: {}", i + 1, e))?;
                        let mut r = r.clone();
                        a.bump(i as f64);
                        r.value += i as f64;
                        r.seen.push((0, i as f64));
                        // Every label set has a few members; each is changed on its own.
                        let v = format!("{}", i % (n / 3 + 1));
                        a.labels_mut().insert("b", &v).map_err(|e| e.to_string())?;
                        r.labels.insert("b".into(), v);
                        if i % 5 == 4 {
                            drop(a);
                            continue;
                        }
                        all.push((a, r));
                    }
                    let refs: Vec<Ref> = all.iter().map(|x| x.1.clone()).collect();
                    gathered(&mut g, &refs, 0)?;
                    for (a, r) in &all {
                        ensure!(a.total() == if kind < 2 { r.value } else { r.seen[0].1 } && a.events().unwrap_or(1) == 1, "one of the metrics has the value {}", a.total());
                        ensure!(labels_of(a.labels()) == r.labels.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>(), "one of the metrics has the labels {:?}", a.labels());
                    }
                    Ok(())
                });
            }
            if n > 300 && kind < 2 {
                continue;
            }
            idx += 1;
            if !mine(idx, shard, of) {
                continue;
            }
            if !ctx.size(n) {
                continue;
            }
            ctx.case(&|| format!("{} builder with {} labels, registries, buckets or quantiles, each set twice", KINDS[kind], n), |ctx| {
                ctx.step(n as u64);
                ctx.state(&format!("settings {} {}", kind, n));
                rt::set_clock(T0, WALL0);
                let regs = n.min(70);
                let mut gs: Vec<Gatherer> = (0..regs).map(|_| Gatherer::new()).collect();
                let (mut b, mut m) = new_builder(kind);
                for round in 0..2 {
                    for i in 0..n {
                        let (l, v) = (format!("{}{}", ["a", "B", "_c"][i % 3], i), format!("{}-{}", round, i));
                        b.label(&l, &v);
                        b.namespace(&l);
                        b.subsystem(&l);
                        b.help(&v);
                        m.r.parts.0 = Some(l.clone());
                        m.r.parts.1 = Some(l.clone());
                        m.r.help = Some(v.clone());
                        m.r.labels.insert(l, v);
                        match &mut b {
                            AnyB::G(b) => {
                                b.initial_value(i as f64);
                                m.r.value = i as f64;
                            }
                            AnyB::H(b) => {
                                let x = ((i * 7919) % n) as f64;
                                b.bucket(x);
                                m.r.bounds.push(x);
                            }
                            AnyB::S(b) => {
                                let x = ((i * 7919) % n) as f64 / n as f64;
                                b.quantile(x);
                                m.r.quantiles.push(x);
                            }
                            _ => {}
                        }
                        if round == 0 && i < regs {
                            b.registry(gs[i].registry());
                        }
                    }
                }
                for k in 1..=2 {
                    let a = b.finish().map_err(|e| e.to_string())?;
                    same_config(&a, &m.r)?;
                    a.bump(1.0);
                    let mut r = m.r.clone();
                    r.value += 1.0;
                    r.seen.push((0, 1.0));
                    for (i, g) in gs.iter_mut().enumerate() {
                        gathered(g, &[r.clone()], 0).map_err(|e| format!("registry {} of {}, built {} times: {}", i + 1, regs, k, e))?;
                    }
                    drop(a);
                }
                Ok(())
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("one builder, direct or derived, used up to {} times; up to {} labels, buckets, quantiles and 70 registries", ns.iter().max().unwrap(), ns.iter().max().unwrap()));
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum SB {
    Ns(&'static str),
    Ss(&'static str),
    Label(&'static str, &'static str),
    Reg(usize),
    SetReg(usize),
    Clone,
    Derive(usize),
    On(BO), // on the builder derived last
}
fn b01_shared(ctx: &mut Ctx, shard: usize, of: usize) {
    use SB::*;
    let mut ops = vec![Ns("n"), Ns("n2"), Ss("s"), Label("a", "1"), Label("a", "2"), Label("b", ""), Label("le", "5"), Label("quantile", "6"), Label("0", "7"), Ss("s-"), Reg(0), Reg(1), SetReg(0), SetReg(2), Clone];
    ops.extend((0..4).map(Derive));
    ops.extend([BO::Ns("own"), BO::Label("a", "3"), BO::Label("c", "4"), BO::Help("h"), BO::Reg(1), BO::Finish].map(On));
    let depth = if ctx.thorough { 5 } else { 4 };
    for base in 0..4 {
        seqs_shard(ops.len(), 1, depth, shard, of, |q| {
            let seq: Vec<SB> = q.iter().map(|&i| ops[i]).collect();
            if seq.len() == 5 && base != q[0] % 4 {
                return;
            }
            ctx.case(&|| format!("shared builder made with {}: {:?}, then one of each kind", ["new", "with_registry(2)", "without_registry", "default"][base], seq), |ctx| shared_run(ctx, base, &seq));
        });
    }
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} calls out of {} on a shared builder and those derived from it, from 4 ways of making it (the longest divided over the 4)", depth, ops.len()));
    }
}
fn shared_run(ctx: &mut Ctx, base: usize, seq: &[SB]) -> Result<(), String> {
    ctx.step(seq.len() as u64 + 4);
    rt::set_clock(T0, WALL0);
    let mut bench = Bench::new();
    let mut b = match base {
        0 => MetricBuilder::new(),
        1 => MetricBuilder::with_registry(bench.regs[1].clone()),
        2 => MetricBuilder::without_registry(),
        _ => MetricBuilder::default(),
    };
    let mut m = BM { r: Ref::new(0, "m"), regs: vec![vec![2], vec![1], vec![], vec![2]][base].clone() };
    let derive = |b: &MetricBuilder, m: &BM, kind: usize| {
        let mut m = m.clone();
        m.r.kind = kind;
        m.r.parts.2 = "d".into();
        let d = match kind {
            0 => AnyB::C(b.counter("d")),
            1 => AnyB::G(b.gauge("d")),
            2 => AnyB::H(b.histogram("d")),
            _ => AnyB::S(b.summary("d", WINDOW)),
        };
        (d, m)
    };
    let mut last: Option<(AnyB, BM)> = None;
    let mut olds: Vec<(MetricBuilder, BM)> = vec![];
    for &o in seq {
        match o {
            SB::Ns(s) => {
                b.namespace(s);
                m.r.parts.0 = Some(s.into());
            }
            SB::Ss(s) => {
                b.subsystem(s);
                m.r.parts.1 = Some(s.into());
            }
            SB::Label(n, v) => {
                b.label(n, v);
                m.r.labels.insert(n.into(), v.into());
            }
            SB::Reg(k) => {
                if !m.regs.contains(&k) {
                    b.registry(bench.regs[k].clone());
                    m.regs.push(k);
                }
            }
            SB::SetReg(k) => {
                b.set_registry(bench.regs[k].clone());
                m.regs = vec![k];
            }
            SB::Clone => {
                let c = b.clone();
                olds.push((std::mem::replace(&mut b, c), m.clone()));
            }
            SB::Derive(k) => last = Some(derive(&b, &m, k)),
            SB::On(o) => {
                if let Some((d, dm)) = last.as_mut() {
                    apply(d, dm, o, &mut bench)?;
                }
            }
        }
    }
    if let Some((d, dm)) = &last {
        bench.finish(d, dm).map_err(|e| format!("derived builder: {}", e))?;
    }
    for k in 0..4 {
        let (d, dm) = derive(&b, &m, k);
        bench.finish(&d, &dm).map_err(|e| format!("{}: {}", KINDS[k], e))?;
    }
    for (o, om) in &olds {
        let (d, dm) = derive(o, om, 1);
        bench.finish(&d, &dm).map_err(|e| format!("builder that was cloned: {}", e))?;
    }
    ctx.state(&format!("{:?}", m));
    bench.check()
}

// ---- D01 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum DO {
    Pass(u64),
    Wall(i64),
    Open(usize), // start timing on metric 0 or 1
    Close,
    Bump(usize),
}
struct DModel {
    value: f64,
    seen: Vec<f64>,
}
/// Runs `seq[at..]` until the matching `Close`; returns where it stopped.
fn d_body(ms: &[Any; 2], model: &mut [DModel; 2], seq: &[DO], mut at: usize, now: &mut u64, calls: &mut u64) -> usize {
    while at < seq.len() {
        match seq[at] {
            DO::Pass(d) => {
                rt::advance(d as i64);
                *now += d;
            }
            DO::Wall(d) => rt::step_wall(d),
            DO::Bump(i) => {
                ms[i].bump(0.5);
                model[i].value += 0.5;
                model[i].seen.push(0.5);
            }
            DO::Open(i) => {
                let start = *now;
                let ticket = at as u64 * 1000 + 7;
                let m = ms[i].clone();
                let before = *calls;
                let mut inner = 0u64;
                let (end, t) = m.time(|| {
                    *calls += 1;
                    let c0 = *calls;
                    let e = d_body(ms, model, seq, at + 1, now, calls);
                    inner = *calls - c0;
                    (e, ticket)
                });
                assert!(t == ticket, "the result of the closure was not returned");
                assert!(*calls == before + 1 + inner, "the closure ran {} times", *calls - before - inner);
                let d = secs(*now - start);
                match m.kind() {
                    1 => model[i].value = d,
                    _ => model[i].value += d,
                }
                model[i].seen.push(d);
                at = end;
            }
            DO::Close => return at,
        }
        at += 1;
    }
    at
}
fn secs(ns: u64) -> f64 {
    (ns / 1_000_000_000) as f64 + (ns % 1_000_000_000) as f64 / 1e9
}
fn d_same(a: f64, b: f64, n: usize) -> bool {
    (a - b).abs() <= (n as f64 + 1.0) * 2.0 * f64::EPSILON * b.abs()
}
fn d_run(ctx: &mut Ctx, kind: usize, seq: &[DO]) -> Result<(), String> {
    ctx.step(seq.len() as u64);
    rt::set_clock(T0, WALL0);
    let start = [-2.5, 7.0];
    let build = |name: &str| -> Any {
        match kind {
            2 => Any::H(HistogramBuilder::new(name).bucket(0.25).bucket(1.0).bucket(1.5).bucket(0.0).finish().unwrap()),
            3 => Any::S(SummaryBuilder::new(name, Duration::MAX).quantile(0.0).quantile(0.5).quantile(1.0).finish().unwrap()),
            1 => Any::G(GaugeBuilder::new(name).label("l", "v").initial_value(start[(name == "n") as usize]).finish().unwrap()),
            k => AnyB::new(k, name).label("l", "v").finish().unwrap(),
        }
    };
    let ms = [build("m"), build("n")];
    let mut model = start.map(|v| DModel { value: if kind == 1 { v } else { 0.0 }, seen: vec![] });
    ms[0].timestamp_mut().set(5);
    let labels = labels_of(ms[0].labels());
    let mut now = 0;
    let mut calls = 0;
    let mut at = 0;
    while at < seq.len() {
        at = d_body(&ms, &mut model, seq, at, &mut now, &mut calls) + 1;
    }
    ctx.state(&format!("{} {:?} {:?}", kind, model[0].seen, model[1].seen));
    for i in 0..2 {
        let (m, w) = (&ms[i], &model[i]);
        let n = w.seen.len();
        if kind < 2 {
            ensure!(d_same(m.total(), w.value, n), "metric {}: value {:?} instead of {:?}", i, m.total(), w.value);
        } else {
            let s: f64 = w.seen.iter().sum();
            ensure!(d_same(m.total(), s, n), "metric {}: sum {:?} instead of {:?}", i, m.total(), s);
            ensure!(m.events() == Some(n as u64), "metric {}: {:?} observations instead of {}", i, m.events(), n);
        }
        match m {
            Any::H(h) => {
                for b in h.cumulative_buckets() {
                    let c = w.seen.iter().filter(|v| **v <= b.upper_bound()).count() as u64;
                    ensure!(b.cumulative_count() == c, "metric {}: {} observations up to {} instead of {}", i, b.cumulative_count(), b.upper_bound(), c);
                }
            }
            Any::S(s) => {
                let mut v = w.seen.clone();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let got: Vec<(f64, f64)> = s.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect();
                for (q, x) in &got {
                    let k = ((q * n as f64).floor() as usize).min(n - 1);
                    ensure!(d_same(*x, v[k], 1), "metric {}: quantile {} is {} instead of {}", i, q, x, v[k]);
                }
                ensure!(got.len() == if n == 0 { 0 } else { 3 }, "metric {}: quantiles {:?}", i, got);
            }
            _ => {}
        }
        ensure!(m.timestamp().get() == [Some(5), None][i], "metric {}: timestamp {:?}", i, m.timestamp().get());
        ensure!(labels_of(m.labels()) == labels, "labels changed");
    }
    Ok(())
}
fn d01(ctx: &mut Ctx, shard: usize, of: usize) {
    use DO::*;
    let ops = [Open(0), Close, Pass(250_000_000), Wall(-3_600_000_000_000), Open(1), Pass(1_000_000_000), Bump(0), Wall(86_400_000_000_000)];
    let depth = if ctx.thorough { 7 } else { 6 };
    for kind in 0..4 {
        seqs_shard(ops.len(), 1, depth, shard, of, |q| {
            if !q.contains(&0) || (q.len() == depth && q[0] != 0) {
                return;
            }
            let seq: Vec<DO> = q.iter().map(|&i| ops[i]).collect();
            ctx.case(&|| format!("{}: {:?}", KINDS[kind], seq), |ctx| d_run(ctx, kind, &seq));
        });
    }
    if shard == 0 {
        ctx.cover(format!("all histories of up to {} calls: start and end of timing on two metrics (nested at will), time passing, wall-clock steps, updates", depth));
    }
}
fn d01_durations(ctx: &mut Ctx, _s: usize, _o: usize) {
    const S: u64 = 1_000_000_000;
    let ds = [0, 1, 2, 999, 1000, 999_999, 1_000_000, 1_000_001, S / 4, S / 2, S - 1, S, S + 1, 3 * S / 2, 2 * S - 1, 60 * S, 3600 * S + 1, (1 << 20) * S, (1 << 22) * S + 5, 100_000_000 * S, 4_294_967_295 * S, 4_294_967_296 * S + S / 2];
    for kind in 0..4 {
        for a in ds {
            for b in ds {
                ctx.case(&|| format!("{}: {} ns, then {} ns around {} ns", KINDS[kind], a, b, a), |ctx| {
                    if a + b > 1_100_000_000 * S {
                        // Only one such duration fits the (virtual) clocks.
                        return d_run(ctx, kind, &[DO::Open(0), DO::Pass(a), DO::Close]);
                    }
                    d_run(ctx, kind, &[DO::Open(0), DO::Pass(a), DO::Close, DO::Open(1), DO::Pass(b), DO::Open(0), DO::Pass(a), DO::Close, DO::Close])?;
                    d_run(ctx, kind, &[DO::Open(0), DO::Pass(a), DO::Close])?;
                    d_run(ctx, kind, &[DO::Pass(a), DO::Open(0), DO::Wall(-(b as i64)), DO::Pass(b), DO::Wall(a as i64 / 2), DO::Close, DO::Pass(a)])
                });
            }
        }
        for n in pumps(ctx.thorough).iter().cloned().chain([4097, 10_001, 65_537]) {
            if !ctx.size(n) {
                continue;
            }
            ctx.case(&|| format!("{}: {} timings of 0.25 s", KINDS[kind], n), |ctx| {
                let mut v = vec![];
                for _ in 0..n {
                    v.extend([DO::Open(0), DO::Pass(250_000_000), DO::Close]);
                }
                d_run(ctx, kind, &v)
            });
        }
    }
    ctx.cover(format!("all pairs of {} durations from 0 to 136 years, for each kind; {:?} repetitions", ds.len(), pumps(ctx.thorough)));
}

/// Durations beyond 2^63 nanoseconds, and the conversion by itself.
fn d01_far(ctx: &mut Ctx, _s: usize, _o: usize) {
    let mut secs: Vec<u64> = vec![0, 1, 59, 60, 86_400, 9_223_372_036, 9_223_372_037, 18_446_744_073, 18_446_744_074, 1_000_000_000_000];
    for p in 1..62 {
        secs.extend([(1u64 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    let nanos = [0u32, 1, 999, 1_000, 500_000, 1_000_000, 250_000_000, 500_000_000, 709_551_615, 999_999_999];
    let close = |got: f64, s: u64, n: u32| (got - (s as f64 + n as f64 / 1e9)).abs() <= 4.0 * f64::EPSILON * got.abs();
    for &s in &secs {
        for n in nanos {
            for kind in 0..4 {
                ctx.case(&|| format!("{}: {} s and {} ns", KINDS[kind], s, n), |ctx| {
                    ctx.step(1);
                    ctx.state(&format!("{}.{}", s, n));
                    rt::set_clock(T0, WALL0);
                    let m = Any::build(kind, "m", &[], None);
                    m.time(|| {
                        rt::advance(n as i64);
                        rt::far(s as i64, -1_000)
                    });
                    ensure!(close(m.total(), s, n), "recorded as {:?}", m.total());
                    ensure!(m.events().map_or(true, |e| e == 1), "recorded {:?} times", m.events());
                    Ok(())
                });
            }
        }
    }
    secs.extend([1 << 62, 1 << 63, u64::MAX - 1, u64::MAX]);
    for &s in &secs {
        for n in (0..10).map(|p| 10u32.pow(p)).chain(nanos).chain((0..30).map(|p| 1 << p)).filter(|n| *n < 1_000_000_000) {
            ctx.case(&|| format!("duration of {} s and {} ns", s, n), |ctx| {
                ctx.step(1);
                let v = prometrics::timestamp::duration_to_seconds(Duration::new(s, n));
                ensure!(close(v, s, n), "converted to {:?}", v);
                Ok(())
            });
        }
    }
    ctx.cover(format!("{} numbers of whole seconds up to 2^62 with {} fractions, timed by each kind and converted", secs.len(), nanos.len()));
}

pub fn scenarios(id: &str) -> Vec<Scenario> {
    let mut v = Vec::new();
    match id {
        "G01" => {
            v.extend(sharded("names", 8, g01_names));
            v.extend(sharded("alike", 8, g01_alike));
            v.extend(sharded("buckets", 8, g01_hist));
            v.extend(sharded("timestamps", 2, g01_times));
            v.extend(sharded("helps", 4, g01_helps));
            v.extend(sharded("kept", 4, g01_kept));
            v.extend(sharded("relabelled", 8, g01_conc));
            v.extend(sharded("values", 4, g01_values));
            v.extend(sharded("summaries", 8, g01_summary));
            v.extend(sharded("histories", 8, g01_history));
            v.extend(sharded("many", 8, g01_many));
            v.extend(sharded("large", 16, g01_large));
        }
        "B01" => {
            v.extend(sharded("builders", 8, b01));
            v.extend(sharded("shared", 8, b01_shared));
            v.extend(sharded("direct", 1, b01_direct));
            v.extend(sharded("often", 8, b01_pump));
        }
        "D01" => {
            v.extend(sharded("histories", 8, d01));
            v.extend(sharded("durations", 1, d01_durations));
            v.extend(sharded("far", 1, d01_far));
        }
        _ => {}
    }
    v
}
