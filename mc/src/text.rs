//! N01, L01, L02, T01, E01: names, labels, timestamps and the text form.
use crate::ensure;
use crate::ensure_sig;
use crate::make::*;
use crate::num::{down, invalid, up};
use crate::prom;
use crate::rt;
use crate::util::*;
use crate::work::{Ctx, Scenario};
use prometrics::label::Label;
use prometrics::metrics::*;
use prometrics::quantile::Quantile;
use prometrics::{Gatherer, Registry};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---- N01 -----------------------------------------------------------------------------------------------------------
fn alpha(c: char) -> bool {
    matches!(c, 'a'..='z' | 'A'..='Z' | '_')
}
fn metric_ok(s: &str) -> bool {
    let mut it = s.chars();
    it.next().map_or(false, |c| alpha(c) || c == ':') && it.all(|c| alpha(c) || c == ':' || c.is_ascii_digit())
}
fn label_ok(s: &str) -> bool {
    let mut it = s.chars();
    !s.starts_with("__") && it.next().map_or(false, alpha) && it.all(|c| alpha(c) || c.is_ascii_digit())
}
const CHARS: [char; 26] = ['a', 'z', 'A', 'Z', 'm', '_', ':', '0', '9', '`', '{', '@', '[', '/', ';', '-', ' ', '.', '\n', '\0', '\u{7f}', 'é', 'ª', '\u{661}', 'Ａ', '\u{1d7d8}'];

/// Where a name is used.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Name,
    Namespace,
    Subsystem,
    Label,
    SharedNamespace,
    SharedSubsystem,
    SharedLabel,
    Insert,
    LabelNew,
}
const ATS: [At; 9] = [At::Name, At::Namespace, At::Subsystem, At::Label, At::SharedNamespace, At::SharedSubsystem, At::SharedLabel, At::Insert, At::LabelNew];

fn from_shared(b: &MetricBuilder, kind: usize, name: &str) -> AnyB {
    match kind {
        0 => AnyB::C(b.counter(name)),
        1 => AnyB::G(b.gauge(name)),
        2 => AnyB::H(b.histogram(name)),
        _ => AnyB::S(b.summary(name, WINDOW)),
    }
}
struct Bed {
    g: Gatherer,
    reg: Registry,
    m: Vec<Any>,
}
impl Bed {
    fn new() -> Bed {
        let g = Gatherer::new();
        let reg = g.registry();
        let m = (0..4).map(|k| Any::build(k, "m", &[("b", "1")], None)).collect();
        Bed { g, reg, m }
    }
}
/// The valid label names among the parts of a string, and the string without its invalid characters or leading underscores.
fn near(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let len = if c.len() <= 12 { c.len() } else { 0 };
    let mut r: Vec<String> = (0..len).flat_map(|i| (i + 1..=len).map(move |j| (i, j))).filter(|x| x.1 - x.0 < len).map(|(i, j)| c[i..j].iter().collect()).collect();
    r.push(c.iter().filter(|c| c.is_ascii_alphanumeric() || **c == '_').collect());
    r.push(s.trim_start_matches('_').to_string());
    r.push(s.trim().to_string());
    r.push(s.to_lowercase());
    r.retain(|x| label_ok(x));
    r.sort();
    r.dedup();
    r
}
fn n01_one(bed: &mut Bed, at: At, kind: usize, s: &str) -> Result<(), String> {
    let reserved = match kind {
        2 => "le",
        3 => "quantile",
        _ => "",
    };
    let is_label = matches!(at, At::Label | At::SharedLabel | At::Insert | At::LabelNew);
    let ok = if is_label { label_ok(s) && (at == At::LabelNew || s != reserved) } else { metric_ok(s) };
    let check = |r: Result<(), prometrics::Error>| -> Result<(), String> {
        match (ok, r.is_ok()) {
            (true, true) => Ok(()),
            (false, _) => invalid(r).map_err(|e| format!("{:?} as {:?} of a {}: {}", s, at, KINDS[kind], e)),
            (true, false) => Err(format!("{:?} as {:?} of a {} was refused: {}", s, at, KINDS[kind], r.unwrap_err())),
        }
    };
    match at {
        At::LabelNew => {
            let r = Label::new(s, "v");
            if let Ok(l) = &r {
                ensure!(l.name() == s && l.value() == "v", "label {:?} became {:?}", s, l);
            }
            check(r.map(|_| ()))
        }
        At::Insert => {
            let m = &mut bed.m[kind];
            // Among the labels are the names a sloppy reading could take the string for.
            for n in near(s) {
                if n != reserved {
                    m.labels_mut().insert(&n, "old").map_err(|e| e.to_string())?;
                }
            }
            let before = labels_of(m.labels());
            let r = m.labels_mut().insert(s, "v");
            check(r)?;
            let after = labels_of(m.labels());
            if ok {
                let mut want: BTreeMap<String, String> = before.into_iter().collect();
                want.insert(s.to_string(), "v".to_string());
                ensure!(after == want.into_iter().collect::<Vec<_>>(), "labels {:?} after inserting {:?}", after, s);
            } else {
                ensure!(after == before, "a refused insertion changed the labels from {:?} to {:?}", before, after);
            }
            m.labels_mut().clear();
            m.labels_mut().insert("b", "1").map_err(|e| e.to_string())?;
            Ok(())
        }
        _ => {
            let shared = matches!(at, At::SharedNamespace | At::SharedSubsystem | At::SharedLabel);
            let mut parts = vec![];
            let mut b = if shared {
                let mut sb = MetricBuilder::with_registry(bed.reg.clone());
                match at {
                    At::SharedNamespace => {
                        sb.namespace(s);
                        parts.push(s);
                    }
                    At::SharedSubsystem => {
                        sb.subsystem(s);
                        parts.push(s);
                    }
                    _ => {
                        sb.label(s, "v");
                    }
                }
                parts.push("n");
                from_shared(&sb, kind, "n")
            } else {
                let mut b = AnyB::new(kind, if at == At::Name { s } else { "n" });
                b.registry(bed.reg.clone());
                match at {
                    At::Namespace => {
                        b.namespace(s);
                        parts.push(s);
                        parts.push("n");
                    }
                    At::Subsystem => {
                        b.subsystem(s);
                        parts.push(s);
                        parts.push("n");
                    }
                    At::Name => parts.push(s),
                    _ => {
                        b.label(s, "v");
                        parts.push("n");
                    }
                }
                b
            };
            let r = b.std().finish();
            if let Ok(m) = &r {
                if ok {
                    ensure!(m.name().to_string() == parts.join("_"), "the full name of {:?} is {:?}", parts, m.name().to_string());
                    ensure!(!is_label || labels_of(m.labels()) == vec![(s.to_string(), "v".to_string())], "labels {:?} instead of {:?}", m.labels(), s);
                }
            }
            let f = bed.g.gather();
            let n = entries(f.as_ref()).len();
            ensure!(n == ok as usize || r.is_ok() != ok, "{:?} as {:?} of a {}: {} metrics are registered after {}", s, at, KINDS[kind], n, if ok { "building one" } else { "a refusal" });
            drop(f);
            check(r.map(|_| ()))?;
            ensure!(bed.g.gather().into_vec().is_empty(), "something stays registered after the metric is gone");
            Ok(())
        }
    }
}
fn n01(ctx: &mut Ctx, shard: usize, of: usize) {
    let depth = if ctx.thorough { 4 } else { 3 };
    let mut bed = Bed::new();
    let mut n = 0u64;
    seqs_shard(CHARS.len(), 0, depth, shard, of, |q| {
        let s: String = q.iter().map(|&i| CHARS[i]).collect();
        n += 1;
        for (ai, at) in ATS.iter().enumerate() {
            // All positions for all kinds up to length 2; longer names take turns over the kinds.
            for kind in 0..4 {
                if q.len() > 2 && kind != (n as usize + ai) % 4 {
                    continue;
                }
                ctx.case(&|| format!("{:?} as {:?} of a {}", s, at, KINDS[kind]), |ctx| {
                    ctx.step(1);
                    ctx.state(&s);
                    n01_one(&mut bed, *at, kind, &s)
                });
            }
        }
    });
    if shard == 0 {
        ctx.cover(format!("all strings of up to {} characters out of {} boundary characters, in {} positions", depth, CHARS.len(), ATS.len()));
    }
}
fn n01_more(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut bed = Bed::new();
    // Reserved and nearly reserved names.
    let words = ["le", "quantile", "Le", "LE", "le_", "_le", "lee", "l", "quantil", "quantiles", "Quantile", "_quantile", "__le", "__name__", "__", "_", "___", "_a__b", "a__", "_0", "_:", "a:b", ":", "::a", "job", "instance", "le\0", "le ", " le", "http_requests_total", "0a", "a-b"];
    if shard == 0 {
        for w in words {
            for at in ATS {
                for kind in 0..4 {
                    ctx.case(&|| format!("{:?} as {:?} of a {}", w, at, KINDS[kind]), |ctx| {
                        ctx.step(1);
                        ctx.state(w);
                        n01_one(&mut bed, at, kind, w)
                    });
                }
            }
        }
        // Long names with one wrong character anywhere.
        let ns = pumps(ctx.thorough);
        for &n in ns.iter().filter(|n| **n > 0) {
            for pos in [0, 1, n / 2, n - 1, n] {
                for bad in ['é', '-', '0', '_', ':', '`'] {
                    let mut s: Vec<char> = vec!['a'; n];
                    if pos < n {
                        s[pos] = bad;
                    }
                    let s: String = s.into_iter().collect();
                    for at in ATS {
                        ctx.case(&|| format!("{} letters with {:?} at {} as {:?}", n, bad, pos, at), |ctx| {
                            ctx.step(1);
                            n01_one(&mut bed, at, n % 4, &s)
                        });
                    }
                }
            }
        }
        for n in [1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 10_000, 32_767, 32_769, 65_535, 65_536, 65_537, 131_073] {
            for end in ['_', 'é'] {
                let s: String = std::iter::repeat('a').take(n - 1).chain(Some(end)).collect();
                for at in ATS {
                    ctx.case(&|| format!("{} letters with {:?} at the end as {:?}", n, end, at), |ctx| {
                        ctx.step(1);
                        n01_one(&mut bed, at, n % 4, &s)
                    });
                }
            }
        }
        // Quantiles.
        let qs = [0.0, -0.0, 0.5, 1.0, up(1.0), down(1.0), -5e-324, 5e-324, -1.0, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300, f64::MAX];
        for &a in &qs {
            for &b in &qs {
                ctx.case(&|| format!("quantiles {:?} and {:?}", a, b), |ctx| {
                    ctx.step(2);
                    let good = |q: f64| (0.0..=1.0).contains(&q);
                    match (good(a), Quantile::new(a)) {
                        (true, Ok(q)) => ensure!(q.as_f64() == a, "quantile {:?} became {:?}", a, q),
                        (true, Err(e)) => return Err(format!("quantile {:?} refused: {}", a, e)),
                        (false, r) => invalid(r).map_err(|e| format!("quantile {:?}: {}", a, e))?,
                    }
                    let r = SummaryBuilder::new("s", WINDOW).quantile(a).quantile(b).registry(bed.reg.clone()).finish();
                    let n = bed.g.gather().into_vec().len();
                    let ok = good(a) && good(b);
                    ensure!(n == ok as usize, "{} summaries registered", n);
                    if ok {
                        drop(r.map_err(|e| format!("refused: {}", e))?);
                    } else {
                        invalid(r)?;
                    }
                    bed.g.gather();
                    Ok(())
                });
            }
        }
        // Several parts, some of them bad: refused whichever it is.
        let parts = [None, Some("a"), Some("0"), Some(""), Some("a:b"), Some("é"), Some("_")];
        for ns in parts {
            for ss in parts {
                for name in parts {
                    let name = match name {
                        Some(n) => n,
                        None => continue,
                    };
                    for kind in 0..4 {
                        for shared in [false, true] {
                            ctx.case(&|| format!("{} {:?} {:?} {:?} shared builder {}", KINDS[kind], ns, ss, name, shared), |ctx| {
                                ctx.step(1);
                                let mut b;
                                if shared {
                                    let mut sb = MetricBuilder::without_registry();
                                    if let Some(x) = ns {
                                        sb.namespace(x);
                                    }
                                    if let Some(x) = ss {
                                        sb.subsystem(x);
                                    }
                                    b = from_shared(&sb, kind, name);
                                } else {
                                    b = AnyB::new(kind, name);
                                    if let Some(x) = ns {
                                        b.namespace(x);
                                    }
                                    if let Some(x) = ss {
                                        b.subsystem(x);
                                    }
                                }
                                let r = b.std().finish();
                                if ns.map_or(true, metric_ok) && ss.map_or(true, metric_ok) && metric_ok(name) {
                                    let m = r.map_err(|e| e.to_string())?;
                                    let full: Vec<&str> = ns.into_iter().chain(ss).chain(Some(name)).collect();
                                    ensure!(m.name().to_string() == full.join("_"), "full name {:?}", m.name().to_string());
                                    ensure!(m.name().namespace() == ns && m.name().subsystem() == ss && m.name().name() == name, "parts {:?}", m.name());
                                } else {
                                    invalid(r)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
        ctx.cover(format!("{} reserved and similar names, names of up to {} characters, quantile pairs, all combinations of name parts", words.len(), ns.last().unwrap()));
    }
    // Every Unicode scalar value, alone and after a letter.
    let mut k = 0u32;
    for c in (0..=char::MAX as u32).filter_map(char::from_u32) {
        k += 1;
        if (k / 1024) as usize % of != shard {
            continue;
        }
        let (a, b) = (c.to_string(), format!("a{}", c));
        let want = [metric_ok(&a), metric_ok(&b), label_ok(&a), label_ok(&b)];
        ctx.case(&|| format!("names {:?} and {:?}", a, b), |_| {
            let got = [Counter::new(&a).is_ok(), Counter::new(&b).is_ok(), Label::new(&a, "").is_ok(), Label::new(&b, "").is_ok()];
            ensure!(got == want, "as metric name alone, after a letter, as label name alone, after a letter: accepted {:?} instead of {:?}", got, want);
            Ok(())
        });
    }
    if shard == 0 {
        ctx.cover("every Unicode scalar value as first and as second character".into());
    }
}
/// Refusal among other labels, in any position of a builder.
fn n01_builder(ctx: &mut Ctx, shard: usize, of: usize) {
    let names = ["a", "b", "le", "quantile", "__x", "0", "é", ""];
    let mut bed = Bed::new();
    seqs_shard(names.len(), 1, if ctx.thorough { 4 } else { 3 }, shard, of, |q| {
        for kind in 0..4 {
            for shared in [false, true] {
                let ls: Vec<&str> = q.iter().map(|&i| names[i]).collect();
                ctx.case(&|| format!("{} with labels {:?}, shared builder {}", KINDS[kind], ls, shared), |ctx| {
                    ctx.step(ls.len() as u64);
                    ctx.state(&format!("{}{:?}", kind, ls));
                    let mut b = if shared {
                        let mut sb = MetricBuilder::with_registry(bed.reg.clone());
                        for l in &ls {
                            sb.label(l, "v");
                        }
                        from_shared(&sb, kind, "m")
                    } else {
                        let mut b = AnyB::new(kind, "m");
                        b.registry(bed.reg.clone());
                        for l in &ls {
                            b.label(l, "v");
                        }
                        b
                    };
                    let ok = ls.iter().all(|l| label_ok(l) && !(kind == 2 && *l == "le") && !(kind == 3 && *l == "quantile"));
                    let r = b.std().finish();
                    let n = bed.g.gather().into_vec().len();
                    ensure!(n == (r.is_ok() as usize), "{} metrics registered", n);
                    if ok {
                        drop(r.map_err(|e| format!("refused: {}", e))?);
                    } else {
                        invalid(r)?;
                    }
                    bed.g.gather();
                    Ok(())
                });
            }
        }
    });
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} labels out of {:?} for every kind, directly and through the shared builder", if ctx.thorough { 4 } else { 3 }, names));
    }
}

// ---- L01 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum LO {
    Ins(&'static str, &'static str),
    Rem(&'static str),
    Clear,
}
const PROBES: [&str; 10] = ["a", "b", "a1", "B", "_", "zz", "", " a", "ab", "a\0"];
fn l_check(m: &Any, want: &BTreeMap<String, String>) -> Result<(), String> {
    let w: Vec<(String, String)> = want.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    let l = m.labels();
    ensure!(labels_of(l) == w, "labels {:?} instead of {:?}", labels_of(l), w);
    ensure!(l.len() == w.len() && l.is_empty() == w.is_empty(), "length {} and emptiness {} of {:?}", l.len(), l.is_empty(), w);
    ways("the iterator of the labels", || l.iter(), |x| (x.name().to_string(), x.value().to_string()), &w)?;
    for p in PROBES {
        let got = l.get(p).map(|l| (l.name().to_string(), l.value().to_string()));
        let wanted = want.get(p).map(|v| (p.to_string(), v.clone()));
        ensure!(got == wanted, "lookup of {:?} gives {:?} instead of {:?}", p, got, wanted);
    }
    let printed = prom::sample(&format!("x{} 1", l)).map_err(|e| format!("{} in {}", e, l))?.labels;
    ensure!(printed == w, "printed form {} of {:?}", l, w);
    for s in prom::samples(&m.text())? {
        let mut ls = s.labels.clone();
        if m.kind() == 2 {
            ls.retain(|l| l.0 != "le");
        }
        if m.kind() == 3 {
            ls.retain(|l| l.0 != "quantile");
        }
        ensure!(ls == w, "the line {:?} does not carry the labels {:?}", s, w);
    }
    Ok(())
}
fn l_apply(m: &mut Any, o: LO, want: &mut BTreeMap<String, String>) -> Result<(), String> {
    match o {
        LO::Ins(n, v) => {
            m.labels_mut().insert(n, v).map_err(|e| e.to_string())?;
            want.insert(n.into(), v.into());
        }
        LO::Rem(n) => {
            m.labels_mut().remove(n);
            want.remove(n);
        }
        LO::Clear => {
            m.labels_mut().clear();
            want.clear();
        }
    }
    Ok(())
}
fn l01(ctx: &mut Ctx, shard: usize, of: usize) {
    use LO::*;
    // Among the names are prefixes and suffixes of each other, and ones equal but for case.
    let ops = [Ins("a", "1"), Ins("a", "22"), Ins("b", "1"), Ins("a1", ""), Ins("B", "0"), Ins("ab", "x"), Rem("a"), Rem("b"), Rem("zz"), Rem("ab"), Ins("_a", "a"), Rem(" a"), Clear];
    let depth = if ctx.thorough { 6 } else { 4 };
    for kind in 0..4 {
        if ctx.thorough && kind > 0 && depth > 5 {
            continue;
        }
        seqs_shard(ops.len(), 1, depth, shard, of, |q| {
            let seq: Vec<LO> = q.iter().map(|&i| ops[i]).collect();
            ctx.case(&|| format!("{}: {:?}", KINDS[kind], seq), |ctx| l_run(ctx, kind, &[], &seq));
        });
    }
    if ctx.thorough {
        for kind in 1..4 {
            seqs_shard(ops.len(), 5, 5, shard, of, |q| {
                let seq: Vec<LO> = q.iter().map(|&i| ops[i]).collect();
                ctx.case(&|| format!("{}: {:?}", KINDS[kind], seq), |ctx| l_run(ctx, kind, &[], &seq));
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("all histories of up to {} label changes out of {} through alternating clones, for every kind", depth, ops.len()));
    }
}
fn l_run(ctx: &mut Ctx, kind: usize, built: &[(&str, &str)], seq: &[LO]) -> Result<(), String> {
    let mut m = Any::build(kind, "m", built, None);
    m.bump(1.0);
    let mut c = m.clone();
    let mut want: BTreeMap<String, String> = built.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
    l_check(&m, &want)?;
    for (k, &o) in seq.iter().enumerate() {
        ctx.step(1);
        l_apply(if k % 2 == 0 { &mut c } else { &mut m }, o, &mut want)?;
        if k + 1 == seq.len() || k % 2 == 1 {
            l_check(&c, &want).map_err(|e| format!("after {:?}: {}", &seq[..=k], e))?;
        }
    }
    ctx.state(&format!("{:?}", want));
    l_check(&m, &want)
}
/// Build-time labels in every order, then changes.
fn l01_build(ctx: &mut Ctx, shard: usize, of: usize) {
    let pairs = [("a", "1"), ("a", "22"), ("b", "1"), ("B", "3"), ("_", ""), ("ab", "x"), ("le", "7"), ("quantile", "8")];
    let later = [LO::Ins("a", "9"), LO::Rem("b"), LO::Ins("b", "0")];
    let mut idx = 0;
    for kind in 0..4 {
        for shared in [false, true] {
            seqs(pairs.len(), 0, if ctx.thorough { 5 } else { 4 }, |q| {
                idx += 1;
                if !mine(idx, shard, of) {
                    return;
                }
                let ls: Vec<(&str, &str)> = q.iter().map(|&i| pairs[i]).collect();
                if ls.iter().any(|l| (kind == 2 && l.0 == "le") || (kind == 3 && l.0 == "quantile")) {
                    return;
                }
                ctx.case(&|| format!("{} built with {:?}, shared builder {}", KINDS[kind], ls, shared), |ctx| {
                    ctx.step(ls.len() as u64);
                    let mut want: BTreeMap<String, String> = BTreeMap::new();
                    let mut sb = MetricBuilder::without_registry();
                    let mut b = if shared {
                        // Half of them on the shared builder, half on the derived one.
                        for l in &ls[..ls.len() / 2] {
                            sb.label(l.0, l.1);
                        }
                        let mut b = from_shared(&sb, kind, "m");
                        for l in &ls[ls.len() / 2..] {
                            b.label(l.0, l.1);
                        }
                        b
                    } else {
                        let mut b = AnyB::new(kind, "m");
                        for l in &ls {
                            b.label(l.0, l.1);
                        }
                        b
                    };
                    for l in &ls {
                        want.insert(l.0.into(), l.1.into());
                    }
                    ctx.state(&format!("{:?}", want));
                    let mut m = b.std().finish().map_err(|e| e.to_string())?;
                    l_check(&m, &want)?;
                    let c = m.clone();
                    for o in later {
                        l_apply(&mut m, o, &mut want)?;
                        l_check(&c, &want)?;
                    }
                    Ok(())
                });
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} build-time labels out of {:?}, directly and through the shared builder", if ctx.thorough { 5 } else { 4 }, pairs));
    }
}
/// Many labels, inserted in many orders.
fn l01_pump(ctx: &mut Ctx, shard: usize, of: usize) {
    let ns: Vec<usize> = if ctx.thorough { (0..=70).chain([100, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 2049]).collect() } else { (0..=40).chain([64, 65, 129, 257, 513, 1025]).collect() };
    let mut idx = 0;
    for &n in &ns {
        for order in 0..4 {
            for at_build in [false, true] {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{} labels in order {}, at build time {}", n, order, at_build), |ctx| {
                    ctx.step(2 * n as u64);
                    let mut names: Vec<String> = (0..n).map(|i| format!("{}{}", ["a", "B", "_c"][i % 3], i)).collect();
                    match order {
                        1 => names.reverse(),
                        2 => names.rotate_left(n / 2),
                        3 => names.sort_by_key(|s| crate::work::fnv(s.as_bytes())),
                        _ => {}
                    }
                    let mut want = BTreeMap::new();
                    let mut b = AnyB::new(n % 4, "m");
                    if at_build {
                        for s in &names {
                            b.label(s, s);
                            want.insert(s.clone(), s.clone());
                        }
                    }
                    let mut m = b.std().finish().map_err(|e| e.to_string())?;
                    if !at_build {
                        for s in &names {
                            m.labels_mut().insert(s, s).map_err(|e| e.to_string())?;
                            want.insert(s.clone(), s.clone());
                            ensure!(m.labels().len() == want.len(), "{} labels instead of {}", m.labels().len(), want.len());
                        }
                    }
                    l_check(&m, &want)?;
                    ctx.state(&format!("{} {}", n, order));
                    for (i, s) in names.iter().enumerate() {
                        ensure!(m.labels().get(s).map(|l| l.value()) == Some(s), "lookup of {:?} fails", s);
                        if i % 2 == 0 {
                            m.labels_mut().insert(s, "new").map_err(|e| e.to_string())?;
                            want.insert(s.clone(), "new".into());
                        } else {
                            m.labels_mut().remove(s);
                            want.remove(s);
                        }
                    }
                    l_check(&m, &want)
                });
            }
        }
    }
    // Long names and values.
    for n in [63usize, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4097, 10_001, 32_769, 65_535, 65_537, 131_073] {
        for plain in ['a', 'é', ' '] {
            for at_build in [false, true] {
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                ctx.case(&|| format!("a name and a value of {} characters {:?}, at build time {}", n, plain, at_build), |ctx| {
                    ctx.step(2);
                    ctx.state(&format!("{} {:?}", n, plain));
                    let name: String = std::iter::repeat('a').take(n).collect();
                    // Two values that differ in the last character only.
                    let v: Vec<String> = ["x", "y"].iter().map(|e| std::iter::repeat(plain).take(n).chain(e.chars()).collect()).collect();
                    let mut want = BTreeMap::new();
                    let mut b = AnyB::new(n % 4, "m");
                    if at_build {
                        b.label(&name, &v[0]);
                    }
                    let mut m = b.std().finish().map_err(|e| e.to_string())?;
                    if !at_build {
                        m.labels_mut().insert(&name, &v[0]).map_err(|e| e.to_string())?;
                    }
                    want.insert(name.clone(), v[0].clone());
                    l_check(&m, &want)?;
                    let other = format!("{}b", name);
                    for (n, v) in [(&name, &v[1]), (&other, &v[0])] {
                        m.labels_mut().insert(n, v).map_err(|e| e.to_string())?;
                        want.insert(n.clone(), v.clone());
                        l_check(&m, &want)?;
                    }
                    m.labels_mut().remove(&name);
                    want.remove(&name);
                    l_check(&m, &want)
                });
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("up to {} labels in 4 orders; names and values of up to 131073 characters", ns.last().unwrap()));
    }
}

// ---- L02 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Hold {
    Get,       // reference returned by get
    Item,      // reference yielded by an iterator, which is dropped
    ItemLive,  // reference yielded by an iterator that is still there
    Iter,      // an iterator, used up afterwards
    IterPart,  // an iterator that has already yielded one label
    DerefGet,  // reference returned by get on labels_mut() of a handle
    AllLive,   // all references yielded by an iterator that is used up but still there
    AllLater,  // the same, the labels changing while it is used up
    AllDeref,  // as AllLive, through labels_mut()
}
const HOLDS: [Hold; 9] = [Hold::AllLive, Hold::AllLater, Hold::AllDeref, Hold::ItemLive, Hold::Iter, Hold::IterPart, Hold::Get, Hold::Item, Hold::DerefGet];
fn l02(ctx: &mut Ctx, _s: usize, _o: usize) {
    let ops = [LO::Ins("c", "1"), LO::Ins("a", "9"), LO::Rem("a"), LO::Rem("b"), LO::Clear, LO::Ins("b", "0")];
    let depth = if ctx.thorough { 5 } else { 4 };
    for kind in 0..4 {
        for hold in HOLDS {
            seqs(ops.len(), 1, depth, |q| {
                let seq: Vec<LO> = q.iter().map(|&i| ops[i]).collect();
                ctx.case_sig(&|| format!("{} held from a {}, meanwhile {:?} through another clone", format!("{:?}", hold), KINDS[kind], seq), |ctx| {
                    ctx.step(1 + seq.len() as u64);
                    ctx.state(&format!("{} {:?} {:?}", kind, hold, seq));
                    rt::quarantine(true);
                    let r = l02_run(kind, hold, &seq);
                    rt::quarantine(false);
                    r
                });
            });
        }
    }
    ctx.cover(format!("{} ways to hold a label or iterator, all sequences of up to {} label changes out of {} meanwhile, every kind", HOLDS.len(), depth, ops.len()));
}
/// Held while the labels change very often.
fn l02_pump(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut ns = pumps(ctx.thorough).to_vec();
    ns.extend(if ctx.thorough { vec![4097, 10_001, 65_537] } else { vec![2049, 4097, 10_001] });
    let patterns: [&[LO]; 5] = [&[LO::Ins("c", "1")], &[LO::Rem("a"), LO::Ins("a", "9")], &[LO::Clear], &[LO::Ins("c", "1"), LO::Rem("b"), LO::Rem("c"), LO::Ins("a", "7")], &[LO::Ins("a", "1"), LO::Ins("b", "2")]];
    let mut idx = 0;
    for kind in 0..4 {
        for hold in HOLDS.into_iter().filter(|h| !matches!(h, Hold::Get | Hold::Item | Hold::DerefGet)) {
            for p in patterns {
                for &n in &ns {
                    idx += 1;
                    if !mine(idx, shard, of) || (n > 1100 && idx / of % 4 != kind) {
                        continue;
                    }
                    if !ctx.size(n) {
                        continue;
                    }
                    ctx.case_sig(&|| format!("{:?} held from a {}, meanwhile {} changes {:?} through another clone", hold, KINDS[kind], n, p), |ctx| {
                        ctx.step(1 + n as u64);
                        ctx.state(&format!("{} {:?} {:?} {}", kind, hold, p, n));
                        let seq: Vec<LO> = p.iter().cycle().take(n).cloned().collect();
                        rt::quarantine(true);
                        let r = l02_run(kind, hold, &seq);
                        rt::quarantine(false);
                        r
                    });
                }
            }
        }
        // Many iterators at once, each begun in another state, all used up at the end.
        for &n in &ns {
            idx += 1;
            if !mine(idx, shard, of) || n > 1100 {
                continue;
            }
            if !ctx.size(n) {
                continue;
            }
            ctx.case(&|| format!("{} iterators over the labels of a {}, each begun after another change", n, KINDS[kind]), |ctx| {
                ctx.step(2 * n as u64);
                ctx.state(&format!("iterators {} {}", kind, n));
                rt::quarantine(true);
                let r = (|| {
                    let owner = Any::build(kind, "m", &[("a", "0"), ("b", "x")], None);
                    let mut other = owner.clone();
                    let mut its = vec![];
                    for i in 0..n {
                        its.push(owner.labels().iter());
                        other.labels_mut().insert("a", &format!("{}", i + 1)).map_err(|e| e.to_string())?;
                    }
                    for order in 0..2 {
                        for i in 0..n / 2 {
                            let i = if order == 0 { i * 2 + 1 } else { (n / 2 - 1 - i) * 2 };
                            for (l, w) in its[i].by_ref().zip([("a".to_string(), i.to_string()), ("b".to_string(), "x".to_string())]) {
                                ensure!(!rt::in_freed(l) && !rt::in_freed(l.name()) && !rt::in_freed(l.value()), "iterator {} yields a freed label", i);
                                ensure!((l.name(), l.value()) == (&*w.0, &*w.1), "iterator {} yields {:?} instead of {:?}", i, l, w);
                            }
                        }
                    }
                    Ok(())
                })();
                rt::quarantine(false);
                r
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("iterators held over up to {} changes, and up to 1030 iterators at once", ns.last().unwrap()));
    }
}
fn l02_run(kind: usize, hold: Hold, seq: &[LO]) -> Result<(), (String, String)> {
    let text = |e: String| (String::new(), e);
    let mut owner = Any::build(kind, "m", &[("a", "1"), ("b", "2")], None);
    let mut other = owner.clone();
    let mut want = BTreeMap::new();
    let valid = |l: &Label| -> bool { !rt::in_freed(l) && !rt::in_freed(l.name()) && !rt::in_freed(l.value()) };
    let mut change = |want: &mut BTreeMap<String, String>| -> Result<(), (String, String)> {
        for &o in seq {
            l_apply(&mut other, o, want).map_err(text)?;
        }
        Ok(())
    };
    match hold {
        Hold::Get | Hold::DerefGet => {
            let lm;
            let r = if hold == Hold::Get {
                owner.labels().get("a")
            } else {
                lm = owner.labels_mut();
                lm.get("a")
            };
            let r = r.ok_or_else(|| text("label missing".into()))?;
            ensure_sig!(valid(r), "get-at-once", "the label returned by get is freed at once");
            change(&mut want)?;
            ensure_sig!(valid(r), if hold == Hold::Get { "get" } else { "deref-get" }, "the label returned by get() is freed while it can still be read");
            // (The same defect, where the label is replaced in place.)
            ensure_sig!(r.name() == "a" && r.value() == "1", if hold == Hold::Get { "get" } else { "deref-get" }, "the label changed under its holder: {:?}", r);
        }
        Hold::Item => {
            let r = owner.labels().iter().nth(1).ok_or_else(|| text("label missing".into()))?;
            ensure_sig!(valid(r), "item-at-once", "the label yielded by an iterator is freed with the iterator");
            change(&mut want)?;
            ensure_sig!(valid(r), "iter-item", "the label yielded by iter() is freed while it can still be read (the iterator is gone)");
            ensure_sig!(r.name() == "b" && r.value() == "2", "iter-item", "the label changed under its holder: {:?}", r);
        }
        Hold::ItemLive => {
            let mut it = owner.labels().iter();
            let r = it.next().ok_or_else(|| text("label missing".into()))?;
            change(&mut want)?;
            ensure_sig!(valid(r), "", "the label yielded by a living iterator is freed");
            ensure_sig!(r.name() == "a" && r.value() == "1", "", "the label changed under its holder: {:?}", r);
            drop(it);
        }
        // Everything visited, nothing visited twice; the iterator is still there.
        Hold::AllLive | Hold::AllLater | Hold::AllDeref => {
            let lm;
            let mut it = if hold == Hold::AllDeref {
                lm = owner.labels_mut();
                lm.iter()
            } else {
                owner.labels().iter()
            };
            let mut rs = vec![];
            if hold == Hold::AllLater {
                rs.push(it.next().ok_or_else(|| text("label missing".into()))?);
                change(&mut want)?;
            }
            while let Some(r) = it.next() {
                rs.push(r);
            }
            ensure_sig!(it.next().is_none(), "", "an exhausted iterator goes on");
            if hold != Hold::AllLater {
                change(&mut want)?;
            }
            for r in &rs {
                ensure_sig!(valid(r), "", "a label yielded by a living, exhausted iterator is freed");
            }
            let got: Vec<_> = rs.iter().map(|r| (r.name(), r.value())).collect();
            ensure_sig!(got == [("a", "1"), ("b", "2")], "", "the iterator yielded {:?}", got);
            drop(it);
        }
        Hold::Iter | Hold::IterPart => {
            let mut it = owner.labels().iter();
            let mut got = vec![];
            if hold == Hold::IterPart {
                let r = it.next().ok_or_else(|| text("label missing".into()))?;
                got.push((r.name().to_string(), r.value().to_string()));
            }
            change(&mut want)?;
            for r in it.by_ref() {
                ensure_sig!(valid(r), "", "a living iterator yields a freed label");
                got.push((r.name().to_string(), r.value().to_string()));
            }
            let w = vec![("a".to_string(), "1".to_string()), ("b".to_string(), "2".to_string())];
            ensure_sig!(got == w, "", "the iterator yields {:?} instead of {:?}", got, w);
        }
    }
    Ok(())
}

// ---- T01 -----------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum TO {
    Set(i64),
    Time(i64), // nanoseconds after the epoch
    Secs(i64), // seconds after the epoch, far away
    Now(i64),
    Clear,
}
fn at(ns: i64) -> SystemTime {
    if ns >= 0 {
        UNIX_EPOCH + Duration::from_nanos(ns as u64)
    } else {
        UNIX_EPOCH - Duration::from_nanos(ns.unsigned_abs())
    }
}
fn t_run(ctx: &mut Ctx, kind: usize, seq: &[TO], every: bool) -> Result<(), String> {
    let m = Any::build(kind, "m", &[("a", "1")], None);
    m.bump(1.0);
    let c = m.clone();
    let mut want: Option<i64> = None;
    let check = |want: Option<i64>, k: usize| -> Result<(), String> {
        ensure!(m.timestamp().get() == want && c.timestamp().get() == want, "after {:?} the timestamp is {:?} instead of {:?}", &seq[..k], m.timestamp().get(), want);
        ensure!(m.timestamp_mut().get() == want, "timestamp_mut shows {:?} instead of {:?}", m.timestamp_mut().get(), want);
        let t = c.text();
        for s in prom::samples(&t)? {
            ensure!(s.timestamp == want, "after {:?} the line {:?} does not carry the timestamp {:?}", &seq[..k], s, want);
        }
        Ok(())
    };
    check(want, 0)?;
    for (k, &o) in seq.iter().enumerate() {
        ctx.step(1);
        let x = if k % 2 == 0 { &c } else { &m };
        match o {
            TO::Set(v) => {
                x.timestamp_mut().set(v);
                want = Some(v);
            }
            TO::Time(ns) => {
                x.timestamp_mut().set_time(at(ns));
                want = Some(ns / 1_000_000);
            }
            TO::Secs(s) => {
                let t = if s >= 0 { UNIX_EPOCH + Duration::from_secs(s as u64) } else { UNIX_EPOCH - Duration::from_secs(s.unsigned_abs()) };
                x.timestamp_mut().set_time(t);
                want = Some(s * 1000);
            }
            TO::Now(ns) => {
                rt::set_clock(5_000_000_000, ns);
                x.timestamp_mut().set_now();
                want = Some(ns / 1_000_000);
            }
            TO::Clear => {
                x.timestamp_mut().clear();
                want = None;
            }
        }
        if every || k + 1 == seq.len() {
            check(want, k + 1)?;
        }
    }
    ctx.state(&format!("{:?}", want));
    Ok(())
}
fn t01(ctx: &mut Ctx, shard: usize, of: usize) {
    use TO::*;
    let ops = [Set(0), Set(1), Set(-1), Set(i64::MAX), Set(i64::MIN + 1), Set(1_600_000_000_000), Time(0), Time(1_500_000), Time(-1), Time(-1_500_000), Time(1_600_000_000_123_999_999), Now(1_600_000_000_999_999_999), Now(-999_999), Clear];
    let depth = if ctx.thorough { 5 } else { 3 };
    for kind in 0..4 {
        seqs_shard(ops.len(), 0, if kind == 0 { depth } else { depth.min(4) }, shard, of, |q| {
            let seq: Vec<TO> = q.iter().map(|&i| ops[i]).collect();
            ctx.case(&|| format!("{}: {:?}", KINDS[kind], seq), |ctx| t_run(ctx, kind, &seq, q.len() <= 3));
        });
    }
    if shard == 0 {
        ctx.cover(format!("all histories of up to {} operations out of {} through alternating clones, for every kind", depth, ops.len()));
    }
}
fn t01_times(ctx: &mut Ctx, _s: usize, _o: usize) {
    let mut ts: Vec<i64> = vec![];
    for b in [0i64, 1, 500_000, 999_999, 1_000_000, 1_000_001, 1_500_000, 1_999_999, 2_000_000, 999_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 1_001_000_000, 1_999_999_999, 60_000_000_000, (1 << 31) * 1_000_000_000, (1 << 32) * 1_000_000_000, 1_600_000_000_000_000_000, 1_600_000_000_000_999_999, 9_223_372_036_000_000_000] {
        for d in [-1_000_000, -999_999, -1i64, 0, 1, 999_999] {
            ts.extend([b + d, -(b + d)]);
        }
    }
    for p in 0..63 {
        ts.extend([1i64 << p, -(1i64 << p)]);
    }
    for &t in &ts {
        for kind in 0..4 {
            for now in [false, true] {
                let o = if now { TO::Now(t) } else { TO::Time(t) };
                ctx.case(&|| format!("{} {:?}", KINDS[kind], o), |ctx| t_run(ctx, kind, &[o], true));
            }
        }
    }
    // Seconds far beyond what nanoseconds in 64 bits reach.
    let mut n = 0;
    for p in 0..53 {
        for d in [-1i64, 0, 1] {
            for sign in [1, -1] {
                n += 1;
                let s = ((1i64 << p) + d) * sign;
                ctx.case(&|| format!("{} s after the epoch", s), |ctx| t_run(ctx, (p % 4) as usize, &[TO::Secs(s)], true));
            }
        }
    }
    let vals = [0, 1, -1, 999, 1000, i64::MAX, i64::MIN + 1, i64::MAX - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64 + 1];
    for v in vals {
        for kind in 0..4 {
            ctx.case(&|| format!("{} set({})", KINDS[kind], v), |ctx| t_run(ctx, kind, &[TO::Set(v), TO::Clear, TO::Set(v)], true));
        }
    }
    ctx.cover(format!("{} clock times and system times around boundaries, {} far times, {} explicit values, for every kind", ts.len(), n, vals.len()));
}

// ---- E01 -----------------------------------------------------------------------------------------------------------
/// What one metric must look like after reading back its text.
fn readback(ms: &[Any], text: &str) -> Result<(), String> {
    let fams = prom::parse(text).map_err(|e| format!("{}; text {:?}", e, text))?;
    let mut want_n = 0;
    let at: HashMap<(&str, &str), (&prom::Family, Index)> = fams.iter().map(|f| ((&*f.name, &*f.kind), (f, index(&f.samples)))).collect();
    for m in ms {
        let name = m.name().to_string();
        let (f, ix) = at.get(&(&*name, KINDS[m.kind()])).ok_or_else(|| format!("no family {} of type {}; text {:?}", name, KINDS[m.kind()], text))?;
        ensure!(f.help.as_deref() == m.help(), "help {:?} instead of {:?}; text {:?}", f.help, m.help(), text);
        want_n += readback_samples(m, ix).map_err(|e| format!("{}; text {:?}", e, text))?;
    }
    let n: usize = fams.iter().map(|f| f.samples.len()).sum();
    ensure!(n == want_n, "{} samples instead of {}; text {:?}", n, want_n, text);
    Ok(())
}
/// The samples by name, labels, and bound or rank.
type Index<'a> = HashMap<(String, Vec<(String, String)>, Option<(&'static str, u64)>), Vec<&'a prom::Sample>>;
fn index(all: &[prom::Sample]) -> Index<'_> {
    let mut m: Index = HashMap::new();
    for s in all {
        m.entry((s.name.clone(), s.without(""), None)).or_default().push(s);
        for l in ["le", "quantile"] {
            if let Some(Ok(x)) = s.label(l).map(prom::number) {
                m.entry((s.name.clone(), s.without(l), Some((l, (x + 0.0).to_bits())))).or_default().push(s);
            }
        }
    }
    m
}
/// Checks the samples of `m` among all; how many there are.
fn readback_samples(m: &Any, all: &Index) -> Result<usize, String> {
    let name = m.name().to_string();
    let mut labels = labels_of(m.labels());
    labels.sort();
    let ts = m.timestamp().get();
    let mut want: Vec<(String, Option<(&'static str, f64)>, f64)> = vec![];
    match m {
        Any::C(c) => want.push((name.clone(), None, c.value())),
        Any::G(g) => want.push((name.clone(), None, g.value())),
        Any::H(h) => {
            for b in h.cumulative_buckets() {
                want.push((format!("{}_bucket", name), Some(("le", b.upper_bound())), b.cumulative_count() as f64));
            }
            want.push((format!("{}_sum", name), None, h.sum()));
            want.push((format!("{}_count", name), None, h.count() as f64));
        }
        Any::S(s) => {
            for (q, v) in s.quantiles() {
                want.push((name.clone(), Some(("quantile", q.as_f64())), v));
            }
            want.push((format!("{}_sum", name), None, s.sum()));
            want.push((format!("{}_count", name), None, s.count() as f64));
        }
    }
    for (n, extra, v) in &want {
        let none = vec![];
        let found = all.get(&(n.clone(), labels.clone(), extra.map(|(l, x)| (l, (x + 0.0).to_bits())))).unwrap_or(&none);
        ensure!(found.len() == 1, "{} {:?} {:?}: {} samples", n, labels, extra, found.len());
        ensure!(same(found[0].value, *v) && (v.is_nan() || found[0].value.is_sign_negative() == v.is_sign_negative()), "{} {:?} {:?} reads back as {:?} instead of {:?}", n, labels, extra, found[0].value, v);
        ensure!(found[0].timestamp == ts, "{} has the timestamp {:?} instead of {:?}", n, found[0].timestamp, ts);
    }
    Ok(want.len())
}
/// Text of the metric alone and in a gathering.
fn both(m: &Any) -> Result<(), String> {
    let own = m.text();
    let s = prom::samples(&own)?;
    let n = readback_samples(m, &index(&s)).map_err(|e| format!("{}; text {:?}", e, own))?;
    ensure!(s.len() == n, "{} lines instead of {}; text {:?}", s.len(), n, own);
    let mut g = Gatherer::new();
    m.register(&g.registry());
    let f = g.gather();
    readback(std::slice::from_ref(m), &f.to_text())
}
const SPECIAL: [char; 23] = ['a', '\\', '\n', '"', 'n', '\r', '\t', '{', '}', ',', '=', '#', ' ', 'é', '日', '\0', '😀', '\u{200b}', '\u{301}', '\'', '\u{feff}', 'u', '\u{85}'];
fn e01_strings(ctx: &mut Ctx, shard: usize, of: usize) {
    let depth = if ctx.thorough { 4 } else { 3 };
    let mut n = 0usize;
    seqs_shard(SPECIAL.len(), 0, depth, shard, of, |q| {
        let s: String = q.iter().map(|&i| SPECIAL[i]).collect();
        n += 1;
        for kind in 0..4 {
            if q.len() > 3 && kind != n % 4 {
                continue;
            }
            ctx.case(&|| format!("{} with label value and help {:?}", KINDS[kind], s), |ctx| {
                ctx.step(2);
                ctx.state(&s);
                let mut b = AnyB::new(kind, "m");
                b.label("l", &s).help(&s).label("z", "end");
                let m = b.std().finish().map_err(|e| e.to_string())?;
                m.bump(2.0);
                ensure!(m.labels().get("l").map(|l| l.value().to_string()).as_deref() == Some(&s[..]), "label value kept as {:?}", m.labels());
                ensure!(m.help() == Some(&s[..]), "help kept as {:?}", m.help());
                both(&m)
            });
        }
    });
    if shard == 0 {
        ctx.cover(format!("all label values and help texts of up to {} characters out of {} special ones, every kind, alone and gathered", depth, SPECIAL.len()));
    }
}
fn e01_unicode(ctx: &mut Ctx, shard: usize, of: usize) {
    // Every scalar value, in blocks; thorough: also each with an 'n' after it and alone.
    let block = if ctx.thorough { 1 } else { 48 };
    let all: Vec<char> = (0..=char::MAX as u32).filter_map(char::from_u32).collect();
    for (i, cs) in all.chunks(block).enumerate() {
        if !mine(i, shard, of) {
            continue;
        }
        let s: String = cs.iter().collect();
        let kinds: &[usize] = if block == 1 { &[2, 3][i % 2..i % 2 + 1] } else { &[0, 1, 2, 3] };
        for &kind in kinds {
            ctx.case(&|| format!("{} with label value and help {:?}", KINDS[kind], s), |ctx| {
                ctx.step(1);
                let mut b = AnyB::new(kind, "m");
                b.label("l", &s).help(&s);
                let m = b.std().finish().map_err(|e| e.to_string())?;
                m.bump(1.0);
                both(&m)
            });
        }
    }
    if shard == 0 {
        ctx.cover(format!("every Unicode scalar value in label values and help, {} at a time", block));
    }
}
pub fn doubles(thorough: bool) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 0.1, 0.2, 0.3, 1.0 / 3.0, 1e21, 1e22, 123456789.125];
    for e in -1074..=1023 {
        let p = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { 2f64.powi(e) };
        v.extend([p, up(p), down(p)]);
        if thorough {
            v.extend([-p, p * 1.5, up(up(p))]);
        }
    }
    for e in -323..=308 {
        let p: f64 = format!("1e{}", e).parse().unwrap();
        v.extend([p, up(p), down(p)]);
        if thorough {
            for m in ["2", "3", "5", "7", "9.9", "1.7976931348623157", "4.35"] {
                v.push(format!("{}e{}", m, e).parse().unwrap());
            }
        }
    }
    for i in 0..if thorough { 20_000 } else { 300 } {
        v.extend([i as f64, i as f64 / 8.0, -(i as f64) / 10.0]);
    }
    v
}
fn e01_numbers(ctx: &mut Ctx, shard: usize, of: usize) {
    let vs = doubles(ctx.thorough);
    for (i, &v) in vs.iter().enumerate() {
        if !mine(i, shard, of) {
            continue;
        }
        ctx.case(&|| format!("value {:?} ({:#x})", v, v.to_bits()), |ctx| {
            ctx.step(4);
            ctx.state_h(v.to_bits());
            let bits = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || (a == 0.0 && b == 0.0);
            let g = Gauge::new("g").unwrap();
            g.set(v);
            if !v.is_finite() || v == 0.0 {
                for kind in 0..4 {
                    if (kind == 0 && !(v >= 0.0)) || (kind == 2 && v.is_nan()) {
                        continue;
                    }
                    let m = match kind {
                        3 => Any::S(SummaryBuilder::new("s", WINDOW).quantile(0.0).quantile(0.5).quantile(1.0).finish().unwrap()),
                        k => Any::build(k, "m", &[("x", "1")], None),
                    };
                    m.timestamp_mut().set(-7);
                    m.bump(1.0);
                    match &m {
                        Any::C(c) => c.add(v).unwrap(),
                        Any::G(g) => g.set(v),
                        Any::H(h) => h.observe(v),
                        Any::S(s) => s.observe(v),
                    }
                    both(&m)?;
                }
            }
            let s = prom::samples(&g.to_string())?;
            ensure!(s.len() == 1 && bits(s[0].value, v), "gauge {:?} prints {:?}", v, g.to_string());
            let g = Any::G(g);
            both(&g)?;
            if v >= 0.0 {
                let c = Counter::new("c").unwrap();
                c.add(v).map_err(|e| e.to_string())?;
                both(&Any::C(c))?;
            }
            if !v.is_nan() {
                let h = HistogramBuilder::new("h").bucket(v).finish().map_err(|e| e.to_string())?;
                h.observe(v);
                let t = h.to_string();
                let first = prom::samples(&t)?.remove(0);
                let le = prom::number(first.label("le").ok_or("no le")?)?;
                ensure!(bits(le, v), "bucket bound {:?} prints as {:?}", v, t);
                ensure!(first.value == 1.0, "the bucket of {:?} does not count it: {:?}", v, t);
                both(&Any::H(h))?;
            }
            let s = SummaryBuilder::new("s", WINDOW).quantile(if (0.0..=1.0).contains(&v) { v } else { 0.5 }).finish().map_err(|e| e.to_string())?;
            s.observe(v);
            if i % 3 == 0 {
                s.timestamp_mut().set(i as i64);
            }
            both(&Any::S(s))
        });
    }
    if shard == 0 {
        ctx.cover(format!("{} values: powers of two and ten with neighbours, special values, small numbers; as gauge, counter, bucket bound, observation, quantile", vs.len()));
    }
}
/// Gatherings of several metrics.
fn e01_families(ctx: &mut Ctx, shard: usize, of: usize) {
    struct T {
        name: &'static str,
        kind: usize,
        labels: &'static [(&'static str, &'static str)],
        help: Option<&'static str>,
        ts: Option<i64>,
        n: usize,
    }
    let t = |name, kind, labels, help, ts, n| T { name, kind, labels, help, ts, n };
    let ts = [
        t("a", 0, &[] as &[(&str, &str)], None, None, 0),
        t("a", 0, &[("x", "1")], None, Some(5), 1),
        t("a", 0, &[("x", "\n")], None, None, 2),
        t("a", 0, &[("x", "\\n")], None, None, 3),
        t("b", 2, &[], Some("help \\ \n \"text\""), None, 0),
        t("b", 2, &[("x", "\"1\"")], Some("help \\ \n \"text\""), Some(-7), 2),
        t("b", 2, &[("x", "{le=\"1\"}"), ("y", "é\u{301}")], Some("help \\ \n \"text\""), None, 1),
        t("c", 3, &[], Some(""), None, 0),
        t("c", 3, &[("le", "1"), ("x", "\u{200b}")], Some(""), None, 3),
        t("c", 3, &[("x", "\t")], Some(""), Some(i64::MAX), 1),
        t("d", 1, &[("quantile", "0.5"), ("le", "2")], None, Some(0), 2),
        t("d", 1, &[("le", "2")], None, None, 1),
        t("A:b", 1, &[("_a", ""), ("a", "")], Some("x"), None, 1),
    ];
    let max = if ctx.thorough { 4 } else { 3 };
    seqs_shard(ts.len(), 1, max, shard, of, |q| {
        // Distinct templates, every registration order.
        if (0..q.len()).any(|i| q[..i].contains(&q[i])) {
            return;
        }
        let q = q.to_vec();
        ctx.case(&|| format!("templates {:?}", q), |ctx| {
            ctx.step(q.len() as u64);
            ctx.state(&format!("{:?}", q));
            let mut g = Gatherer::new();
            let mut ms = vec![];
            for &i in &q {
                let t = &ts[i];
                let mut b = AnyB::new(t.kind, t.name);
                for l in t.labels {
                    b.label(l.0, l.1);
                }
                if let Some(h) = t.help {
                    b.help(h);
                }
                let m = b.std().registry(g.registry()).finish().map_err(|e| e.to_string())?;
                for k in 0..t.n {
                    m.bump(k as f64 * 1.5 + 0.5);
                }
                if let Some(x) = t.ts {
                    m.timestamp_mut().set(x);
                }
                ms.push(m);
            }
            let f = g.gather();
            let text = f.to_text();
            readback(&ms, &text)?;
            let joined: String = f.as_ref().iter().map(|f| f.to_string()).collect();
            ensure!(prom::parse(&joined).map(|p| p.len()) == prom::parse(&text).map(|p| p.len()), "families print differently one by one");
            for m in &ms {
                let s = prom::samples(&m.text())?;
                readback_samples(m, &index(&s))?;
            }
            Ok(())
        });
    });
    if shard == 0 {
        ctx.cover(format!("all sequences of up to {} distinct metrics out of {} templates, in every registration order", max, ts.len()));
    }
}
/// Many metrics, buckets, labels, long strings.
/// Long texts with one or two characters that need care, at every kind of place.
fn e01_places(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut lens = vec![16, 17, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 512, 520, 1024, 1030];
    if ctx.thorough {
        lens.extend([2048, 2050, 4096, 4100, 8192, 8200, 65_536, 65_540]);
    }
    let mut idx = 0;
    for n in lens {
        let mut at: Vec<usize> = vec![0, 1, 2, n / 3, n / 2, n - 3, n - 2, n - 1];
        for p in 3..17 {
            at.extend([(1 << p) - 1, 1 << p]);
        }
        at.retain(|p| *p < n);
        at.sort_unstable();
        at.dedup();
        for &p in &at {
            for plain in ['a', 'é'] {
                for (k, c) in ["\\", "\n", "\"", "\\n", "\\\"", "\u{1f600}", "\r"].iter().enumerate() {
                    idx += 1;
                    if !mine(idx, shard, of) {
                        continue;
                    }
                    // The second: none, the same again right away, another one at the end.
                    for second in 0..3 {
                        let mut s: String = std::iter::repeat(plain).take(p).collect();
                        s += c;
                        if second == 1 {
                            s += c;
                        }
                        while s.chars().count() < n {
                            s.push(plain);
                        }
                        if second == 2 {
                            s += ["\"", "\\", "\n"][k % 3];
                        }
                        let kind = (idx + second) % 4;
                        ctx.case(&|| format!("{} with label value and help of {} characters {:?}, {:?} at {}, form {}", KINDS[kind], n, plain, c, p, second), |ctx| {
                            ctx.step(1);
                            ctx.state(&format!("{} {} {} {} {}", n, p, plain, k, second));
                            let mut b = AnyB::new(kind, "m");
                            b.label("l", &s).help(&s);
                            let m = b.std().finish().map_err(|e| e.to_string())?;
                            m.bump(1.0);
                            both(&m)
                        });
                    }
                }
            }
        }
    }
    if shard == 0 {
        ctx.cover("long label values and help texts, plain but for one or two special characters: every length, place and kind of a list".to_string());
    }
}
fn e01_large(ctx: &mut Ctx, shard: usize, of: usize) {
    let mut ns = pumps(ctx.thorough).to_vec();
    ns.extend(if ctx.thorough { vec![4097, 10_001, 20_001, 65_537] } else { vec![4097, 10_001] });
    let mut idx = 0;
    for &n in &ns {
        for kind in 0..4 {
            for what in 0..5 {
                if what >= 2 && what < 4 && n > 1100 {
                    continue;
                }
                idx += 1;
                if !mine(idx, shard, of) {
                    continue;
                }
                if !ctx.size(n) {
                    continue;
                }
                ctx.case(&|| format!("{} x {} ({})", n, ["members of a family", "characters in label and help", "labels", "buckets or quantiles", "families"][what], KINDS[kind]), |ctx| {
                    ctx.step(n as u64);
                    ctx.state(&format!("{} {} {}", n, kind, what));
                    match what {
                        0 => {
                            let mut g = Gatherer::new();
                            let r = g.registry();
                            let ms: Vec<Any> = (0..n).map(|i| Any::build(kind, "m", &[("i", &i.to_string()), ("j", "\"\\")], Some(&r))).collect();
                            for (i, m) in ms.iter().enumerate() {
                                m.bump(i as f64);
                            }
                            readback(&ms, &g.gather().to_text())
                        }
                        1 => {
                            let s: String = (0..n).map(|i| SPECIAL[(i * 5 + i / 7) % SPECIAL.len()]).collect();
                            let m = AnyB::new(kind, "m").label("l", &s).help(&s).std().finish().map_err(|e| e.to_string())?;
                            m.bump(1.0);
                            ensure!(m.help() == Some(&s[..]) && m.labels().get("l").map(|l| l.value()) == Some(&s[..]), "help or label are not what was given");
                            both(&m)
                        }
                        4 => {
                            let mut g = Gatherer::new();
                            let r = g.registry();
                            let ms: Vec<Any> = (0..n).map(|i| Any::build((kind + i) % 4, &format!("m{}", i), &[], Some(&r))).collect();
                            for (i, m) in ms.iter().enumerate() {
                                m.bump(i as f64);
                            }
                            readback(&ms, &g.gather().to_text())
                        }
                        2 => {
                            let mut b = AnyB::new(kind, "m");
                            for i in 0..n {
                                b.label(&format!("l{}", i), &format!("\\{}\n", i));
                            }
                            let m = b.std().finish().map_err(|e| e.to_string())?;
                            m.bump(1.0);
                            both(&m)
                        }
                        _ => {
                            let mut b = AnyB::new(kind, "m");
                            b.label("l", "\u{1}");
                            match &mut b {
                                AnyB::H(b) => drop(b.buckets((0..n).map(|i| i as f64 * 0.1 - 5.0))),
                                AnyB::S(b) => {
                                    for i in 0..n {
                                        b.quantile(i as f64 / n as f64);
                                    }
                                }
                                _ => {}
                            }
                            let m = b.finish().map_err(|e| e.to_string())?;
                            for i in 0..n {
                                m.bump(i as f64 * 0.1);
                            }
                            both(&m)
                        }
                    }
                });
            }
        }
    }
    if shard == 0 {
        ctx.cover(format!("families, labels, buckets and strings of sizes {:?}", ns));
    }
}

// ---- V01 -----------------------------------------------------------------------------------------------------------
fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Comparison of all pairs and triples: `same` says which are equal, `order` (if given) in which order they come.
fn values<T: Ord + Clone + std::fmt::Debug>(ctx: &mut Ctx, what: &str, v: &[T], same: impl Fn(usize, usize) -> bool, order: impl Fn(usize, usize) -> Option<std::cmp::Ordering>, hash: impl Fn(&T) -> u64) {
    use std::cmp::Ordering::*;
    for i in 0..v.len() {
        for j in 0..v.len() {
            ctx.case(&|| format!("{} {:?} and {:?}", what, v[i], v[j]), |ctx| {
                ctx.step(8);
                let (a, b) = (v[i].clone(), &v[j]);
                let eq = same(i, j);
                ensure!((a == *b) == eq && (a != *b) != eq, "== is {}, != is {}", a == *b, a != *b);
                let c = a.cmp(b);
                ensure!((c == Equal) == eq, "compared as {:?}", c);
                ensure!(b.cmp(&a) == c.reverse(), "compared as {:?}, the other way as {:?}", c, b.cmp(&a));
                ensure!(a.partial_cmp(b) == Some(c), "compared as {:?}, partially as {:?}", c, a.partial_cmp(b));
                ensure!((a < *b) == (c == Less) && (a <= *b) == (c != Greater) && (a > *b) == (c == Greater) && (a >= *b) == (c != Less), "compared as {:?}, but < {}, <= {}, > {}, >= {}", c, a < *b, a <= *b, a > *b, a >= *b);
                if let Some(o) = order(i, j) {
                    ensure!(c == o, "compared as {:?}", c);
                }
                ensure!(!eq || hash(&a) == hash(b), "equal, but hashed differently");
                Ok(())
            });
        }
    }
    for i in 0..v.len() {
        ctx.case(&|| format!("{} {:?} between all others", what, v[i]), |ctx| {
            ctx.step((v.len() * v.len()) as u64);
            ctx.state(&format!("{} {:?}", what, v[i]));
            for a in v.iter().filter(|a| **a < v[i]) {
                for b in v.iter().filter(|b| v[i] < **b) {
                    ensure!(a < b, "{:?} is less, {:?} is greater, but {:?} is not less than {:?}", a, b, a, b);
                }
            }
            Ok(())
        });
    }
}
fn v01(ctx: &mut Ctx, shard: usize, of: usize) {
    // Strings that differ at one place, in length, in case, by what joins them.
    let mut strs: Vec<String> = ["a", "b", "A", "_", "ab", "a_b", "a_", "_a", "aa", "b_a", "aB", "Z", "a0", "a9", "a10"].iter().map(|s| s.to_string()).collect();
    for n in [7usize, 8, 9, 15, 16, 17, 31, 33, 63, 65, 255, 257, 1025] {
        for at in [0, n / 2, n - 1] {
            let mut c = vec![b'a'; n];
            c[at] = b'b';
            strs.push(String::from_utf8(c).unwrap());
        }
    }
    let none = |_: usize, _: usize| None;
    match shard % of {
        0 => {
            let mut vals: Vec<String> = ["", "\0", " ", "\"", "\\", "\n", "é", "e\u{301}", "\u{10ffff}", "a,b=\"c", "1", "1.0", "true"].iter().map(|s| s.to_string()).collect();
            vals.extend(strs.iter().skip(1).step_by(3).cloned());
            let mut l: Vec<(String, String)> = vec![];
            for (i, n) in strs.iter().enumerate() {
                l.extend(vals.iter().enumerate().filter(|(k, _)| i < 4 || (i + k) % 9 == 0).map(|(_, v)| (n.clone(), v.clone())));
            }
            let ls: Vec<Label> = l.iter().map(|(n, v)| Label::new(n, v).unwrap()).collect();
            values(ctx, "labels", &ls, |i, j| l[i] == l[j], |i, j| Some(l[i].cmp(&l[j])), |x| hash(x));
            ctx.cover(format!("all pairs and triples of {} labels", l.len()));
        }
        1 => {
            let opt = [None, Some("a"), Some("b"), Some("a_b"), Some("_")];
            let mut parts: Vec<(Option<String>, Option<String>, String)> = vec![];
            for ns in opt {
                for ss in opt {
                    for n in strs.iter().take(9) {
                        parts.push((ns.map(|s| s.to_string()), ss.map(|s| s.to_string()), n.clone()));
                    }
                }
            }
            for s in strs.iter().skip(15).step_by(4) {
                parts.extend([(None, None, s.clone()), (Some(s.clone()), None, "a".into()), (None, Some(s.clone()), "a".into())]);
            }
            let names: Vec<_> = parts
                .iter()
                .enumerate()
                .map(|(k, (ns, ss, n))| {
                    let mut b = GaugeBuilder::new(n);
                    let mut c = CounterBuilder::new(n);
                    if let Some(x) = ns {
                        b.namespace(x);
                        c.namespace(x);
                    }
                    if let Some(x) = ss {
                        b.subsystem(x);
                        c.subsystem(x);
                    }
                    if k % 2 == 0 {
                        b.finish().unwrap().metric_name().clone()
                    } else {
                        c.finish().unwrap().metric_name().clone()
                    }
                })
                .collect();
            values(ctx, "names", &names, |i, j| parts[i] == parts[j], none, |x| hash(x));
            for (n, p) in names.iter().zip(&parts) {
                ctx.case(&|| format!("name of {:?}", p), |ctx| {
                    ctx.step(4);
                    ensure!(n.namespace() == p.0.as_deref() && n.subsystem() == p.1.as_deref() && n.name() == p.2, "parts {:?} {:?} {:?}", n.namespace(), n.subsystem(), n.name());
                    let full: Vec<&str> = p.0.as_deref().into_iter().chain(p.1.as_deref()).chain(Some(&*p.2)).collect();
                    ensure!(n.to_string() == full.join("_"), "printed as {}", n);
                    Ok(())
                });
            }
            ctx.cover(format!("all pairs and triples of {} metric names", names.len()));
        }
        2 => {
            let mut q: Vec<f64> = vec![-0.0, 5e-324, down(1.0), 1e-300, 0.1, 0.3, 1.0 / 3.0, f64::EPSILON, f64::MIN_POSITIVE];
            for i in 0..=32 {
                let x = i as f64 / 32.0;
                q.extend([x, up(x), down(x)].iter().filter(|x| **x >= 0.0 && **x <= 1.0));
            }
            let qs: Vec<Quantile> = q.iter().map(|x| Quantile::new(*x).unwrap()).collect();
            values(ctx, "quantiles", &qs, |i, j| q[i] == q[j], |i, j| q[i].partial_cmp(&q[j]), |_| 0);
            ctx.cover(format!("all pairs and triples of {} quantiles", q.len()));
        }
        _ => {
            use prometrics::metric::{Metric, MetricKind::*};
            let ks = [Counter, Gauge, Summary, Histogram];
            values(ctx, "kinds", &ks, |i, j| i == j, none, |x| hash(x));
            // A handle as a metric is still the same metric.
            for kind in 0..4 {
                for n in strs.iter().take(18) {
                    for labels in [&[][..], &[("a", "1")], &[("b", ""), ("a", "2")]] {
                        ctx.case(&|| format!("{} {:?} {:?} as a metric", KINDS[kind], n, labels), |ctx| {
                            ctx.step(6);
                            let mut h = Any::build(kind, n, labels, None);
                            let m: Metric = match &h {
                                Any::C(x) => x.clone().into(),
                                Any::G(x) => x.clone().into(),
                                Any::H(x) => x.clone().into(),
                                Any::S(x) => x.clone().into(),
                            };
                            ensure!(m.kind() == [Counter, Gauge, Histogram, Summary][kind] && m.kind().to_string() == KINDS[kind], "kind {:?} {}", m.kind(), m.kind());
                            for m in [m.clone(), m] {
                                ensure!(m.name().to_string() == **n, "name {}", m.name());
                                let mut want: Vec<(String, String)> = labels.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                                want.sort();
                                let got: Vec<(String, String)> = m.labels().iter().map(|l| (l.name().to_string(), l.value().to_string())).collect();
                                ensure!(got == want, "labels {:?}", got);
                                // One and the same: a label given to one is there on the other.
                                h.labels_mut().insert("z", "9").unwrap();
                                ensure!(m.labels().get("z").map(|l| l.value() == "9") == Some(true), "a label given to the handle is missing");
                                h.labels_mut().remove("z");
                                ensure!(m.labels().get("z").is_none(), "a label removed from the handle is still there");
                            }
                            Ok(())
                        });
                    }
                }
            }
            ctx.cover("the 4 kinds; 216 handles as metrics".to_string());
        }
    }
}

pub fn scenarios(id: &str) -> Vec<Scenario> {
    let mut v = Vec::new();
    match id {
        "N01" => {
            v.extend(sharded("names", 8, n01));
            v.extend(sharded("more", 4, n01_more));
            v.extend(sharded("labels", 2, n01_builder));
        }
        "L01" => {
            v.extend(sharded("changes", 8, l01));
            v.extend(sharded("built", 4, l01_build));
            v.extend(sharded("many", 2, l01_pump));
        }
        "L02" => {
            v.extend(sharded("held", 1, l02));
            v.extend(sharded("pump", 8, l02_pump));
        }
        "T01" => {
            v.extend(sharded("histories", 8, t01));
            v.extend(sharded("times", 1, t01_times));
        }
        "V01" => v.extend(sharded("values", 4, v01)),
        "E01" => {
            v.extend(sharded("strings", 8, e01_strings));
            v.extend(sharded("places", 4, e01_places));
            v.extend(sharded("unicode", 8, e01_unicode));
            v.extend(sharded("numbers", 4, e01_numbers));
            v.extend(sharded("families", 4, e01_families));
            v.extend(sharded("large", 4, e01_large));
        }
        _ => {}
    }
    v
}
