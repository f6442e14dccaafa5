//! Small helpers shared by the scenarios.
use crate::work::Ctx;

/// Equal as observed values: same number (0 and -0 alike), or both NaN.
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// Equal up to accumulated rounding of `n` additions of non-negative numbers.
pub fn close(a: f64, b: f64, n: usize) -> bool {
    if same(a, b) {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        // One of two roundings may overflow and the other not.
        let lim = f64::MAX * (1.0 - 1e-12);
        return a.signum() == b.signum() && a.abs() >= lim && b.abs() >= lim;
    }
    (a - b).abs() <= (n + 4) as f64 * f64::EPSILON * a.abs().max(b.abs())
}

/// However an iterator is consumed, it gives the same items.
pub fn ways<T: PartialEq + std::fmt::Debug + Clone, I: Iterator>(what: &str, mk: impl Fn() -> I, get: impl Fn(I::Item) -> T, want: &[T]) -> Result<(), String> {
    let n = want.len();
    for k in 0..=n.min(4) {
        let start = || {
            let mut it = mk();
            for w in &want[..k] {
                let got = it.next().map(&get);
                if got.as_ref() != Some(w) {
                    return Err(format!("{}: next() gives {:?} instead of {:?}", what, got, w));
                }
            }
            Ok(it)
        };
        let rest = &want[k..];
        let fail = |how: &str, got: &dyn std::fmt::Debug| Err(format!("{}: after {} items, {} gives {:?} although {:?} follow", what, k, how, got, rest));
        let hint = start()?.size_hint();
        if hint.0 > rest.len() || hint.1.map_or(false, |u| u < rest.len()) {
            return fail("size_hint", &hint);
        }
        let count = start()?.count();
        if count != rest.len() {
            return fail("count", &count);
        }
        let last = start()?.last().map(&get);
        if last.as_ref() != rest.last() {
            return fail("last", &last);
        }
        for j in 0..=rest.len().min(4) {
            let mut it = start()?;
            let got = (it.nth(j).map(&get), it.next().map(&get));
            if got != (rest.get(j).cloned(), rest.get(j + 1).cloned()) && j < rest.len() {
                return fail(&format!("nth({}), then next()", j), &got);
            }
            if j >= rest.len() && got.0.is_some() {
                return fail(&format!("nth({})", j), &got);
            }
        }
        let folded = start()?.fold(Vec::new(), |mut v, x| {
            v.push(get(x));
            v
        });
        if folded != rest {
            return fail("fold", &folded);
        }
        let mut each = Vec::new();
        start()?.all(|x| {
            each.push(get(x));
            true
        });
        if each != rest {
            return fail("all", &each);
        }
        let stepped: Vec<T> = start()?.step_by(2).map(&get).collect();
        if !stepped.iter().eq(rest.iter().step_by(2)) {
            return fail("step_by(2)", &stepped);
        }
    }
    Ok(())
}

/// Calls `f` with every sequence over `0..k` of length `min..=max`.
pub fn seqs(k: usize, min: usize, max: usize, mut f: impl FnMut(&[usize])) {
    for len in min..=max {
        let mut s = vec![0usize; len];
        loop {
            f(&s);
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                s[i] += 1;
                if s[i] < k {
                    break;
                }
                s[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if len == 0 || i == usize::MAX {
                break;
            }
        }
    }
}
/// All sequences, those whose index is `shard` modulo `of`.
pub fn seqs_shard(k: usize, min: usize, max: usize, shard: usize, of: usize, mut f: impl FnMut(&[usize])) {
    let mut i = 0usize;
    seqs(k, min, max, |s| {
        if i % of == shard {
            f(s)
        }
        i += 1;
    });
}
/// All permutations of `0..n`.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn go(rest: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            cur.push(x);
            go(rest, cur, out);
            cur.pop();
            rest.insert(i, x);
        }
    }
    let mut out = Vec::new();
    go(&mut (0..n).collect(), &mut Vec::new(), &mut out);
    out
}
/// All multisets (as non-decreasing sequences) over `0..k` of size `min..=max`.
pub fn multisets(k: usize, min: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    seqs(k, min, max, |s| {
        if s.windows(2).all(|w| w[0] <= w[1]) {
            out.push(s.to_vec())
        }
    });
    out
}
/// All subsets of 0..n as masks, in order of size.
pub fn subsets(n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = (0..1u32 << n).collect();
    v.sort_by_key(|m| (m.count_ones(), *m));
    v
}

/// Repetition counts for pumped histories: patterns a^i b^j c^k reach limits that short histories do not.
pub fn pumps(thorough: bool) -> &'static [usize] {
    if thorough {
        &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2050]
    } else {
        &[0, 1, 2, 5, 9, 17, 33, 65, 129, 260, 1030]
    }
}

/// A few much larger counts, around the powers of two and ten.
pub fn large(thorough: bool) -> Vec<usize> {
    let mut v = vec![0, 511, 513, 2047, 2048, 2049, 4095, 4096, 4097, 5001, 8191, 8193, 10_001, 16_383, 16_385, 20_001];
    v.extend([32_767, 32_769, 65_535, 65_536, 65_537, 70_001]);
    v.extend([100_001, 131_073, 262_145, 300_001, 1_048_577]);
    if thorough {
        v.extend([524_289, 1_000_001, 2_097_153, 4_194_305]);
    }
    v
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_sig {
    ($c:expr, $s:expr, $($a:tt)*) => { if !$c { return Err(($s.to_string(), format!($($a)*))); } };
}

/// One completed call of a concurrent history.
#[derive(Clone, Debug)]
pub struct Call<O, R> {
    pub tid: usize,
    pub op: O,
    pub res: R,
    pub call: u32,
    pub ret: u32,
}
/// Is there a one-at-a-time order of the calls, consistent with real time, that a sequential object explains?
/// `step` applies a call to a state and says whether its result fits.
pub fn linearizable<O, R, S: Clone>(calls: &[Call<O, R>], init: &S, step: &dyn Fn(&mut S, &Call<O, R>) -> bool, accept: &dyn Fn(&S) -> bool) -> bool {
    // The calls of one thread are in order, so a state of the search is how far each thread has come.
    let mut by: Vec<Vec<&Call<O, R>>> = Vec::new();
    for c in calls {
        match by.iter_mut().find(|t| t[0].tid == c.tid) {
            Some(t) => t.push(c),
            None => by.push(vec![c]),
        }
    }
    for t in &mut by {
        t.sort_by_key(|c| c.call);
    }
    fn go<O, R, S: Clone>(by: &[Vec<&Call<O, R>>], at: &mut [usize], s: S, step: &dyn Fn(&mut S, &Call<O, R>) -> bool, accept: &dyn Fn(&S) -> bool) -> bool {
        let mut s = s;
        let mut moved = vec![];
        let r = loop {
            // A call may come next unless another pending call returned before it was called.
            let first = by.iter().zip(at.iter()).filter_map(|(t, &i)| t.get(i)).map(|c| c.ret).min();
            let first = match first {
                Some(x) => x,
                None => break accept(&s),
            };
            let next: Vec<usize> = (0..by.len()).filter(|&t| by[t].get(at[t]).map_or(false, |c| c.call <= first)).collect();
            if let [t] = next[..] {
                // no choice: no recursion (histories may be long)
                if !step(&mut s, by[t][at[t]]) {
                    break false;
                }
                at[t] += 1;
                moved.push(t);
                continue;
            }
            let mut found = false;
            for t in next {
                let mut s2 = s.clone();
                if step(&mut s2, by[t][at[t]]) {
                    at[t] += 1;
                    let r = go(by, at, s2, step, accept);
                    at[t] -= 1;
                    if r {
                        found = true;
                        break;
                    }
                }
            }
            break found;
        };
        for t in moved {
            at[t] -= 1;
        }
        r
    }
    let mut at = vec![0; by.len()];
    go(&by, &mut at, init.clone(), step, accept)
}

/// Splits `n` items over shards of a scenario.
pub fn mine(i: usize, shard: usize, of: usize) -> bool {
    i % of == shard
}
/// One scenario per shard.
pub fn sharded(name: &str, of: usize, f: fn(&mut Ctx, usize, usize)) -> Vec<crate::work::Scenario> {
    (0..of)
        .map(|k| crate::work::Scenario { name: if of == 1 { name.to_string() } else { format!("{}#{}", name, k) }, f: Box::new(move |c: &mut Ctx| f(c, k, of)) })
        .collect()
}
