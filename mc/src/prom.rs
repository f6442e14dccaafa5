//! A strict reader of the Prometheus text exposition format (version 0.0.4), written from its specification.
//! It is the oracle for everything the library prints.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Sample {
    pub name: String,
    pub labels: Vec<(String, String)>,
    pub value: f64,
    pub timestamp: Option<i64>,
}
impl Sample {
    pub fn label(&self, n: &str) -> Option<&str> {
        self.labels.iter().find(|l| l.0 == n).map(|l| l.1.as_str())
    }
    /// Labels without `n`, sorted.
    pub fn without(&self, n: &str) -> Vec<(String, String)> {
        let mut v: Vec<_> = self.labels.iter().filter(|l| l.0 != n).cloned().collect();
        v.sort();
        v
    }
}
#[derive(Clone, Debug, Default)]
pub struct Family {
    pub name: String,
    pub kind: String,
    pub help: Option<String>,
    pub samples: Vec<Sample>,
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).cloned()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek();
        self.i += 1;
        c
    }
    fn blanks(&mut self) {
        while matches!(self.peek(), Some(' ') | Some('\t')) {
            self.i += 1;
        }
    }
    fn name(&mut self, colon: bool) -> Result<String, String> {
        let mut r = String::new();
        while let Some(c) = self.peek() {
            if c.is_ascii_alphabetic() || c == '_' || (colon && c == ':') || (!r.is_empty() && c.is_ascii_digit()) {
                r.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        if r.is_empty() {
            return Err(format!("name expected at {:?}", self.peek()));
        }
        Ok(r)
    }
    fn token(&mut self) -> String {
        let mut r = String::new();
        while let Some(c) = self.peek() {
            if c == ' ' || c == '\t' {
                break;
            }
            r.push(c);
            self.i += 1;
        }
        r
    }
}

/// Numbers as Go's ParseFloat reads them (what Prometheus uses).
pub fn number(t: &str) -> Result<f64, String> {
    let l = t.to_ascii_lowercase();
    match l.as_str() {
        "nan" => return Ok(f64::NAN),
        "+inf" | "inf" | "+infinity" | "infinity" => return Ok(f64::INFINITY),
        "-inf" | "-infinity" => return Ok(f64::NEG_INFINITY),
        _ => {}
    }
    if t.is_empty() || !t.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c)) {
        return Err(format!("bad number {:?}", t));
    }
    t.parse::<f64>().map_err(|_| format!("bad number {:?}", t))
}

pub fn sample(line: &str) -> Result<Sample, String> {
    let cs: Vec<char> = line.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    let name = p.name(true)?;
    p.blanks();
    let mut labels: Vec<(String, String)> = Vec::new();
    if p.peek() == Some('{') {
        p.next();
        loop {
            p.blanks();
            if p.peek() == Some('}') {
                p.next();
                break;
            }
            let n = p.name(false)?;
            p.blanks();
            if p.next() != Some('=') {
                return Err("'=' expected".into());
            }
            p.blanks();
            if p.next() != Some('"') {
                return Err("'\"' expected".into());
            }
            let mut v = String::new();
            loop {
                match p.next() {
                    None => return Err("unterminated label value".into()),
                    Some('"') => break,
                    Some('\\') => match p.next() {
                        Some('\\') => v.push('\\'),
                        Some('"') => v.push('"'),
                        Some('n') => v.push('\n'),
                        x => return Err(format!("invalid escape sequence \\{:?}", x)),
                    },
                    Some(c) => v.push(c),
                }
            }
            if labels.iter().any(|l| l.0 == n) {
                return Err(format!("label {} twice", n));
            }
            labels.push((n, v));
            p.blanks();
            match p.next() {
                Some(',') => {}
                Some('}') => break,
                x => return Err(format!("',' or '}}' expected, got {:?}", x)),
            }
        }
    }
    p.blanks();
    let value = number(&p.token())?;
    p.blanks();
    let t = p.token();
    let timestamp = if t.is_empty() { None } else { Some(t.parse::<i64>().map_err(|_| format!("bad timestamp {:?}", t))?) };
    p.blanks();
    if p.peek().is_some() {
        return Err("text after the sample".into());
    }
    Ok(Sample { name, labels, value, timestamp })
}

/// Lines of samples only (the text of a single metric, which has no newline at its end).
pub fn samples(text: &str) -> Result<Vec<Sample>, String> {
    text.split('\n').map(|l| sample(l).map_err(|e| format!("{} in line {:?}", e, l))).collect()
}

fn unescape_help(s: &str) -> Result<String, String> {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('\\') => r.push('\\'),
                Some('n') => r.push('\n'),
                x => return Err(format!("invalid escape sequence \\{:?} in help", x)),
            }
        } else {
            r.push(c)
        }
    }
    Ok(r)
}

/// Reads a whole exposition and checks its structure.
pub fn parse(text: &str) -> Result<Vec<Family>, String> {
    let mut fams: Vec<Family> = Vec::new();
    if text.is_empty() {
        return Ok(fams);
    }
    if !text.ends_with('\n') {
        return Err("the last line does not end with a line feed".into());
    }
    let mut seen_types: BTreeSet<(String, String)> = BTreeSet::new();
    let mut pending: Option<(String, String)> = None; // name, help
    for l in text[..text.len() - 1].split('\n') {
        let bad = |e: String| format!("{} in line {:?}", e, l);
        if let Some(r) = l.strip_prefix("# HELP ") {
            let (n, h) = r.split_once(' ').ok_or_else(|| bad("HELP without text".into()))?;
            if pending.is_some() {
                return Err(bad("two HELP lines".into()));
            }
            pending = Some((n.to_string(), unescape_help(h).map_err(bad)?));
        } else if let Some(r) = l.strip_prefix("# TYPE ") {
            let (n, k) = r.split_once(' ').ok_or_else(|| bad("TYPE without kind".into()))?;
            let cs: Vec<char> = n.chars().collect();
            let mut p = P { s: &cs, i: 0 };
            if p.name(true).map_err(bad)? != n {
                return Err(bad("bad name".into()));
            }
            if !["counter", "gauge", "summary", "histogram", "untyped"].contains(&k) {
                return Err(bad("unknown kind".into()));
            }
            if !seen_types.insert((n.to_string(), k.to_string())) {
                return Err(bad("second TYPE line for the same metric".into()));
            }
            let help = match pending.take() {
                None => None,
                Some((hn, h)) if hn == n => Some(h),
                Some(_) => return Err(bad("HELP for another metric".into())),
            };
            fams.push(Family { name: n.to_string(), kind: k.to_string(), help, samples: vec![] });
        } else if l.starts_with('#') || l.is_empty() {
            return Err(bad("unexpected comment or empty line".into()));
        } else {
            let s = sample(l).map_err(bad)?;
            if pending.is_some() {
                return Err(bad("HELP without TYPE".into()));
            }
            let f = fams.last_mut().ok_or_else(|| bad("sample before any TYPE".into()))?;
            let ok = match f.kind.as_str() {
                "counter" | "gauge" | "untyped" => s.name == f.name,
                "summary" => s.name == f.name || s.name == format!("{}_sum", f.name) || s.name == format!("{}_count", f.name),
                _ => s.name == format!("{}_bucket", f.name) || s.name == format!("{}_sum", f.name) || s.name == format!("{}_count", f.name),
            };
            if !ok {
                return Err(bad(format!("sample outside of its family {}", f.name)));
            }
            f.samples.push(s);
        }
    }
    if pending.is_some() {
        return Err("HELP at the end".into());
    }
    for f in &fams {
        if f.samples.is_empty() {
            return Err(format!("family {} without samples", f.name));
        }
        let mut seen = BTreeSet::new();
        for s in &f.samples {
            let mut l = s.labels.clone();
            l.sort();
            if f.kind == "histogram" || f.kind == "summary" {
                // le="1" and le="1.0" are the same bound
                for x in l.iter_mut() {
                    if (x.0 == "le" && s.name.ends_with("_bucket")) || (x.0 == "quantile" && s.name == f.name) {
                        x.1 = format!("{:?}", number(&x.1).map_err(|e| format!("{} in {} of {}", e, x.0, s.name))? + 0.0);
                    }
                }
            }
            if !seen.insert((s.name.clone(), l)) {
                return Err(format!("the series {} {:?} is listed twice", s.name, s.labels));
            }
        }
        if f.kind == "histogram" {
            histogram_groups(f)?;
        }
        if f.kind == "summary" {
            summary_groups(f)?;
        }
    }
    Ok(fams)
}

#[derive(Clone, Debug, Default)]
pub struct Group {
    /// (le or quantile, value)
    pub rows: Vec<(f64, f64)>,
    pub sum: f64,
    pub count: u64,
    pub timestamps: BTreeSet<Option<i64>>,
}
type Labels = Vec<(String, String)>;

fn finish(f: &Family, parts: BTreeMap<Labels, (Group, u32)>) -> Result<BTreeMap<Labels, Group>, String> {
    parts
        .into_iter()
        .map(|(l, (g, have))| if have != 3 { Err(format!("{} {:?}: _sum or _count missing", f.name, l)) } else { Ok((l, g)) })
        .collect()
}
fn take(f: &Family, s: &Sample, e: &mut (Group, u32)) -> Result<(), String> {
    if s.name == format!("{}_sum", f.name) {
        e.0.sum = s.value;
        e.1 |= 1;
    } else {
        if s.value < 0.0 || s.value.fract() != 0.0 {
            return Err(format!("count {} of {}", s.value, f.name));
        }
        e.0.count = s.value as u64;
        e.1 |= 2;
    }
    Ok(())
}
/// Groups the samples of a histogram family by label set and checks the rules for buckets.
pub fn histogram_groups(f: &Family) -> Result<BTreeMap<Labels, Group>, String> {
    let mut m: BTreeMap<Labels, (Group, u32)> = BTreeMap::new();
    let bucket = format!("{}_bucket", f.name);
    for s in &f.samples {
        let e = m.entry(s.without("le")).or_default();
        e.0.timestamps.insert(s.timestamp);
        if s.name == bucket {
            let le = number(s.label("le").ok_or("bucket without le")?)?;
            e.0.rows.push((le, s.value));
        } else {
            if s.label("le").is_some() {
                return Err(format!("{} with le", s.name));
            }
            take(f, s, e)?;
        }
    }
    let r = finish(f, m)?;
    for (l, g) in &r {
        if !g.rows.windows(2).all(|w| w[0].0 < w[1].0) {
            return Err(format!("{} {:?}: bounds do not ascend: {:?}", f.name, l, g.rows));
        }
        if !g.rows.windows(2).all(|w| w[0].1 <= w[1].1) {
            return Err(format!("{} {:?}: cumulative counts descend: {:?}", f.name, l, g.rows));
        }
        match g.rows.last() {
            Some(&(le, n)) if le == f64::INFINITY && n == g.count as f64 => {}
            x => return Err(format!("{} {:?}: last bucket {:?} is not +Inf with the count {}", f.name, l, x, g.count)),
        }
    }
    Ok(r)
}
pub fn summary_groups(f: &Family) -> Result<BTreeMap<Labels, Group>, String> {
    let mut m: BTreeMap<Labels, (Group, u32)> = BTreeMap::new();
    for s in &f.samples {
        let e = m.entry(s.without("quantile")).or_default();
        e.0.timestamps.insert(s.timestamp);
        if s.name == f.name {
            e.0.rows.push((number(s.label("quantile").ok_or("summary sample without quantile")?)?, s.value));
        } else {
            if s.label("quantile").is_some() {
                return Err(format!("{} with quantile", s.name));
            }
            take(f, s, e)?;
        }
    }
    let r = finish(f, m)?;
    for (l, g) in &r {
        if !g.rows.windows(2).all(|w| w[0].0 < w[1].0) {
            return Err(format!("{} {:?}: quantiles do not ascend: {:?}", f.name, l, g.rows));
        }
    }
    Ok(r)
}
