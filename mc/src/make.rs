//! The four metric kinds behind one face.
use prometrics::label::{Labels, LabelsMut};
use prometrics::metric::{Metric, MetricFamily, MetricKind, MetricName, Metrics};
use prometrics::metrics::*;
use prometrics::timestamp::{Timestamp, TimestampMut};
use prometrics::{Registry, Result};
use std::time::Duration;

pub const WINDOW: Duration = Duration::from_secs(60);

#[derive(Clone, Debug)]
pub enum Any {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
macro_rules! each {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            Any::C($m) => $e,
            Any::G($m) => $e,
            Any::H($m) => $e,
            Any::S($m) => $e,
        }
    };
}
pub enum AnyB {
    C(CounterBuilder),
    G(GaugeBuilder),
    H(HistogramBuilder),
    S(SummaryBuilder),
}
#[macro_export]
macro_rules! eachb {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            $crate::make::AnyB::C($m) => $e,
            $crate::make::AnyB::G($m) => $e,
            $crate::make::AnyB::H($m) => $e,
            $crate::make::AnyB::S($m) => $e,
        }
    };
}
pub const KINDS: [&str; 4] = ["counter", "gauge", "histogram", "summary"];

impl AnyB {
    pub fn new(kind: usize, name: &str) -> AnyB {
        match kind {
            0 => AnyB::C(CounterBuilder::new(name)),
            1 => AnyB::G(GaugeBuilder::new(name)),
            2 => AnyB::H(HistogramBuilder::new(name)),
            _ => AnyB::S(SummaryBuilder::new(name, WINDOW)),
        }
    }
    pub fn namespace(&mut self, s: &str) -> &mut Self {
        eachb!(self, b => { b.namespace(s); });
        self
    }
    pub fn subsystem(&mut self, s: &str) -> &mut Self {
        eachb!(self, b => { b.subsystem(s); });
        self
    }
    pub fn help(&mut self, s: &str) -> &mut Self {
        eachb!(self, b => { b.help(s); });
        self
    }
    pub fn label(&mut self, n: &str, v: &str) -> &mut Self {
        eachb!(self, b => { b.label(n, v); });
        self
    }
    pub fn registry(&mut self, r: Registry) -> &mut Self {
        eachb!(self, b => { b.registry(r); });
        self
    }
    pub fn default_registry(&mut self) -> &mut Self {
        eachb!(self, b => { b.default_registry(); });
        self
    }
    pub fn finish(&self) -> Result<Any> {
        Ok(match self {
            AnyB::C(b) => Any::C(b.finish()?),
            AnyB::G(b) => Any::G(b.finish()?),
            AnyB::H(b) => Any::H(b.finish()?),
            AnyB::S(b) => Any::S(b.finish()?),
        })
    }
}

impl Any {
    /// Histograms get bounds 1 and 4, summaries quantiles 0 and 0.5.
    pub fn build(kind: usize, name: &str, labels: &[(&str, &str)], reg: Option<&Registry>) -> Any {
        let mut b = AnyB::new(kind, name);
        for l in labels {
            b.label(l.0, l.1);
        }
        if let Some(r) = reg {
            b.registry(r.clone());
        }
        b.std().finish().expect("valid metric")
    }
    pub fn name(&self) -> &MetricName {
        each!(self, m => m.metric_name())
    }
    pub fn help(&self) -> Option<&str> {
        each!(self, m => m.help())
    }
    pub fn labels(&self) -> &Labels {
        each!(self, m => m.labels())
    }
    pub fn labels_mut(&mut self) -> LabelsMut<'_> {
        each!(self, m => m.labels_mut())
    }
    pub fn timestamp(&self) -> &Timestamp {
        each!(self, m => m.timestamp())
    }
    pub fn timestamp_mut(&self) -> TimestampMut<'_> {
        each!(self, m => m.timestamp_mut())
    }
    pub fn text(&self) -> String {
        each!(self, m => m.to_string())
    }
    /// Records one event worth `v` (v >= 0).
    pub fn bump(&self, v: f64) {
        match self {
            Any::C(c) => c.add(v).expect("counter add"),
            Any::G(g) => g.add(v),
            Any::H(h) => h.observe(v),
            Any::S(s) => s.observe(v),
        }
    }
    /// What `bump` accumulates.
    pub fn total(&self) -> f64 {
        match self {
            Any::C(c) => c.value(),
            Any::G(g) => g.value(),
            Any::H(h) => h.sum(),
            Any::S(s) => s.sum(),
        }
    }
    pub fn events(&self) -> Option<u64> {
        match self {
            Any::H(h) => Some(h.count()),
            Any::S(s) => Some(s.count()),
            _ => None,
        }
    }
    pub fn time<T>(&self, f: impl FnOnce() -> T) -> T {
        each!(self, m => m.time(f))
    }
    pub fn kind(&self) -> usize {
        match self {
            Any::C(_) => 0,
            Any::G(_) => 1,
            Any::H(_) => 2,
            Any::S(_) => 3,
        }
    }
    pub fn metric(&self) -> Metric {
        match self {
            Any::C(m) => m.clone().into(),
            Any::G(m) => m.clone().into(),
            Any::H(m) => m.clone().into(),
            Any::S(m) => m.clone().into(),
        }
    }
    pub fn register(&self, r: &Registry) {
        each!(self, m => r.register(m.collector()))
    }
}
impl AnyB {
    /// The usual bounds and quantiles.
    pub fn std(&mut self) -> &mut Self {
        match self {
            AnyB::H(b) => {
                b.bucket(1.0).bucket(4.0);
            }
            AnyB::S(b) => {
                b.quantile(0.0).quantile(0.5);
            }
            _ => {}
        }
        self
    }
}

/// One entry of a gathering, as reported through the accessors.
#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub name: String,
    pub kind: String,
    pub help: Option<String>,
    pub labels: Vec<(String, String)>,
    pub value: f64, // value or sum
    pub count: Option<u64>,
    pub rows: Vec<(f64, f64)>, // buckets or quantiles
    pub timestamp: Option<i64>,
}
pub fn labels_of(l: &Labels) -> Vec<(String, String)> {
    l.iter().map(|l| (l.name().to_string(), l.value().to_string())).collect()
}
pub fn kind_str(k: MetricKind) -> &'static str {
    match k {
        MetricKind::Counter => "counter",
        MetricKind::Gauge => "gauge",
        MetricKind::Summary => "summary",
        MetricKind::Histogram => "histogram",
    }
}
pub fn entries(fs: &[MetricFamily]) -> Vec<Entry> {
    let mut v = Vec::new();
    for f in fs {
        let e = |n: &MetricName, l: &Labels, value: f64, count: Option<u64>, rows: Vec<(f64, f64)>, timestamp: Option<i64>| Entry {
            name: n.to_string(),
            kind: kind_str(f.kind()).to_string(),
            help: f.help().map(|h| h.to_string()),
            labels: labels_of(l),
            value,
            count,
            rows,
            timestamp,
        };
        match f.metrics() {
            Metrics::Counter(ms) => {
                for m in ms {
                    v.push(e(m.metric_name(), m.labels(), m.value(), None, vec![], m.timestamp().get()));
                }
            }
            Metrics::Gauge(ms) => {
                for m in ms {
                    v.push(e(m.metric_name(), m.labels(), m.value(), None, vec![], m.timestamp().get()));
                }
            }
            Metrics::Histogram(ms) => {
                for m in ms {
                    let rows = m.cumulative_buckets().take(100_000).map(|b| (b.upper_bound(), b.cumulative_count() as f64)).collect();
                    v.push(e(m.metric_name(), m.labels(), m.sum(), Some(m.count()), rows, m.timestamp().get()));
                }
            }
            Metrics::Summary(ms) => {
                for m in ms {
                    let rows = m.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect();
                    v.push(e(m.metric_name(), m.labels(), m.sum(), Some(m.count()), rows, m.timestamp().get()));
                }
            }
        }
    }
    v
}
