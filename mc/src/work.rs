//! Worker processes, watchdog, results.
use crate::explore::Stats;
use crate::rt;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn mc_full_init(p: *mut u8) -> *mut u8;
    fn mc_real_ns() -> i64;
    fn _exit(c: i32) -> !;
}

const FULL: usize = 60_016;
const DESC: usize = 16_384;
const RES: usize = 1 << 20;

/// Shared between the parent and one worker.
#[repr(C)]
struct Shared {
    beat: u64,
    in_schedule: u64,
    done: u64,
    large: u64,
    full: [u8; FULL],
    desc_len: u64,
    desc: [u8; DESC],
    res_len: u64,
    res: [u8; RES],
}

/// A global of a process in which only one OS thread runs.
pub struct Global<T>(pub RefCell<T>);
unsafe impl<T> Sync for Global<T> {}
static LAST_PANIC: Global<String> = Global(RefCell::new(String::new()));
pub fn last_panic() -> String {
    LAST_PANIC.0.borrow().clone()
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        (*LAST_PANIC.0.borrow_mut() = format!("{}{}", m, loc));
    }));
}

#[derive(Default, Clone)]
pub struct Outcome {
    pub evaluations: u64,
    pub transitions: u64,
    pub states: u64,
    pub schedules: u64,
    pub coverage: Vec<String>,
    pub samples: Vec<String>,
    pub violations: BTreeMap<String, String>, // signature -> message
    pub schedule: BTreeMap<String, String>,   // signature -> schedule
    pub trace: String,
    pub error: Option<String>,
    pub complete: bool,
    pub programs: u64,
    pub programs_complete: u64,
    pub redundant: u64,
    pub max_depth: u64,
    pub distinct_outcomes: u64,
    pub bounds: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub thorough: bool,
    pub name: String,
    sh: *mut Shared,
    pub out: Outcome,
    seen: HashSet<u64>,
    sample_at: u64,
    large_ns: i64,
    pub forced: Option<(String, bool, Vec<u8>)>,
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    pub fn beat(&self) {
        unsafe { (*self.sh).beat += 1 }
    }
    pub fn full_schedule(&self) -> Vec<u8> {
        unsafe {
            let n = u32::from_le_bytes([(*self.sh).full[0], (*self.sh).full[1], (*self.sh).full[2], (*self.sh).full[3]]) as usize;
            (&(*self.sh).full)[8..8 + n.min(FULL - 16)].to_vec()
        }
    }
    pub fn now(&self) -> i64 {
        unsafe { mc_real_ns() }
    }
    pub fn elapsed_since(&self, t0: i64) -> u64 {
        ((self.now() - t0) / 1_000_000_000) as u64
    }
    pub fn describe(&self, d: &str) {
        unsafe {
            let n = d.len().min(DESC);
            (*self.sh).desc_len = n as u64;
            (&mut (*self.sh).desc)[..n].copy_from_slice(&d.as_bytes()[..n]);
        }
    }
    pub fn error(&mut self, m: &str) {
        if self.out.error.is_none() {
            self.out.error = Some(m.to_string());
        }
    }
    pub fn violate(&mut self, sig: &str, msg: &str) {
        if self.out.violations.len() < 20 {
            self.out.violations.entry(sig.to_string()).or_insert_with(|| msg.to_string());
        }
    }
    pub fn violate_schedule(&mut self, sig: &str, msg: &str, label: &str, marks: bool, choices: &[u8]) {
        self.violate(sig, msg);
        let c: String = choices.iter().map(|c| (b'0' + c) as char).collect();
        self.out.schedule.entry(sig.to_string()).or_insert_with(|| format!("{}{} {}", if marks { '+' } else { '-' }, c, label));
    }
    pub fn violated(&self) -> bool {
        self.out.violations.keys().any(|k| k.is_empty())
    }
    pub fn trace(&mut self, tr: &[rt::Step]) {
        let kinds = ["start", "read", "write", "yield"];
        let mut s = String::new();
        for st in tr.iter().take(400) {
            s += &format!("T{} {} a{} pc={:#x}\n", st.tid, kinds[st.kind as usize & 3], st.addr_id, st.pc);
        }
        self.out.trace = s;
    }
    pub fn schedules(&mut self, label: &str, st: Stats, coverage: &str, complete: bool) {
        let o = &mut self.out;
        o.evaluations += st.execs;
        o.schedules += st.execs - st.redundant;
        o.redundant += st.redundant;
        o.transitions += st.steps;
        o.states += st.choice_points;
        o.complete &= complete;
        o.programs += 1;
        o.programs_complete += complete as u64;
        o.max_depth = o.max_depth.max(st.max_depth);
        o.distinct_outcomes += st.outcomes.len() as u64;
        *o.bounds.entry(coverage.to_string()).or_insert(0) += 1;
        if o.samples.len() < 6 {
            let mut oc: Vec<(&String, &u64)> = st.outcomes.iter().collect();
            oc.sort_by(|a, b| b.1.cmp(a.1));
            let s: Vec<String> = oc.iter().take(4).map(|(k, v)| format!("[{}] x{}", k, v)).collect();
            o.samples.push(format!("{}: program {}; {} executions, {} choice points, {}; {} distinct outcomes: {}", self.name, label, st.execs, st.choice_points, coverage, st.outcomes.len(), s.join(" ")));
        }
    }
    /// A program in which plain memory accesses race (they are scheduling points).
    pub fn racy(&mut self, _n: u32) {
        *self.out.bounds.entry("(racing plain memory accesses as scheduling points)".into()).or_insert(0) += 1;
    }
    /// Notes a state of the (reference model's) state space.
    pub fn state(&mut self, key: &str) {
        self.state_h(fnv(key.as_bytes()))
    }
    pub fn state_h(&mut self, h: u64) {
        if self.seen.len() < 4_000_000 {
            self.seen.insert(h);
        }
    }
    pub fn step(&mut self, n: u64) {
        self.out.transitions += n;
    }
    pub fn cover(&mut self, s: String) {
        let name = self.name.clone();
        self.out.coverage.push(format!("{}: {}", name, s));
    }
    /// Announces a case of size `n`.  Being slow is not wrong (the code may be quadratic where it was not), so large cases have a
    /// budget, after which this returns false, and one that does not end is given up instead of being reported.
    pub fn size(&mut self, n: usize) -> bool {
        let large = n > 2000;
        unsafe { (*self.sh).large = large as u64 };
        if large && self.large_ns > if self.thorough { 300 } else { 30 } * 1_000_000_000 {
            if self.out.complete {
                self.cover(format!("large cases are slow: not explored from size {} on", n));
            }
            self.out.complete = false;
            return false;
        }
        true
    }
    /// Runs one case of an enumeration.  `desc` is only evaluated when needed.
    pub fn case(&mut self, desc: &dyn Fn() -> String, f: impl FnOnce(&mut Ctx) -> Result<(), String>) {
        self.case_sig(desc, |c| f(c).map_err(|m| (String::new(), m)))
    }
    /// As `case`, with a signature that identifies the kind of failure (for known findings).
    pub fn case_sig(&mut self, desc: &dyn Fn() -> String, f: impl FnOnce(&mut Ctx) -> Result<(), (String, String)>) {
        if self.violated() {
            return;
        }
        self.beat();
        self.describe(&desc());
        self.out.evaluations += 1;
        let n = self.out.evaluations;
        if n >= self.sample_at && self.out.samples.len() < 6 {
            let s = format!("{}: {}", self.name, desc());
            self.out.samples.push(s);
            self.sample_at = n * 7 + 1;
        }
        let t0 = self.now();
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if unsafe { (*self.sh).large } != 0 {
            self.large_ns += self.now() - t0;
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err((sig, m))) => self.violate(&sig, &format!("{}\n  case: {}", m, desc())),
            Err(_) => {
                let m = format!("unexpected panic: {}\n  case: {}", last_panic(), desc());
                self.violate("", &m)
            }
        }
    }
    fn finish(&mut self) {
        self.out.states += self.seen.len() as u64;
        if self.out.programs > 0 {
            let b: Vec<String> = self.out.bounds.iter().map(|(k, v)| format!("{} programs: {}", v, k)).collect();
            let l = format!("{}: {} concurrent programs, {} executions ({} redundant), longest {} choice points, {} distinct outcomes in total; {}",
                self.name, self.out.programs, self.out.schedules + self.out.redundant, self.out.redundant, self.out.max_depth, self.out.distinct_outcomes, b.join("; "));
            self.out.coverage.push(l);
        }
        let o = &self.out;
        let mut s = String::new();
        let esc = |x: &str| x.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
        s += &format!("n\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", o.evaluations, o.transitions, o.states, o.schedules, o.complete as u8, o.programs, o.programs_complete, o.distinct_outcomes);
        for c in &o.coverage {
            s += &format!("c\t{}\n", esc(c));
        }
        for c in &o.samples {
            let c: String = c.chars().take(600).collect();
            s += &format!("s\t{}\n", esc(&c));
        }
        for (k, v) in &o.violations {
            let v: String = v.chars().take(6000).collect();
            s += &format!("v\t{}\t{}\t{}\n", esc(k), esc(&v), o.schedule.get(k).map(|x| x.as_str()).unwrap_or(""));
        }
        if !o.trace.is_empty() {
            s += &format!("t\t{}\n", esc(&o.trace));
        }
        if let Some(e) = &o.error {
            s += &format!("e\t{}\n", esc(e));
        }
        unsafe {
            let n = s.len().min(RES);
            (&mut (*self.sh).res)[..n].copy_from_slice(&s.as_bytes()[..n]);
            (*self.sh).res_len = n as u64;
            (*self.sh).done = 1;
        }
    }
}

pub type ScenarioFn = Box<dyn Fn(&mut Ctx)>;
pub struct Scenario {
    pub name: String,
    pub f: ScenarioFn,
}

fn parse(sh: &Shared) -> Outcome {
    let mut o = Outcome::default();
    let txt = String::from_utf8_lossy(&sh.res[..sh.res_len as usize]).into_owned();
    let un = |x: &str| {
        let mut r = String::new();
        let mut it = x.chars();
        while let Some(c) = it.next() {
            if c == '\\' {
                match it.next() {
                    Some('n') => r.push('\n'),
                    Some('t') => r.push('\t'),
                    Some(x) => r.push(x),
                    None => {}
                }
            } else {
                r.push(c)
            }
        }
        r
    };
    for l in txt.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "n" if f.len() == 9 => {
                let n = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                o.evaluations = n(1);
                o.transitions = n(2);
                o.states = n(3);
                o.schedules = n(4);
                o.complete = n(5) == 1;
                o.programs = n(6);
                o.programs_complete = n(7);
                o.distinct_outcomes = n(8);
            }
            "c" => o.coverage.push(un(f[1])),
            "s" => o.samples.push(un(f[1])),
            "v" if f.len() == 4 => {
                o.violations.insert(un(f[1]), un(f[2]));
                if !f[3].is_empty() {
                    o.schedule.insert(un(f[1]), f[3].to_string());
                }
            }
            "t" => o.trace = un(f[1]),
            "e" => o.error = Some(un(f[1])),
            _ => {}
        }
    }
    o
}

fn start(s: &Scenario, thorough: bool, forced: &Option<(String, bool, Vec<u8>)>) -> (*mut Shared, i32) {
    unsafe {
        let sh = rt::mc_shared(std::mem::size_of::<Shared>()) as *mut Shared;
        assert!(!sh.is_null());
        let pid = rt::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            mc_full_init((&mut (*sh).full) as *mut _ as *mut u8);
            let mut ctx = Ctx { thorough, name: s.name.clone(), sh, out: Outcome { complete: true, ..Default::default() }, seen: HashSet::new(), sample_at: 1, large_ns: 0, forced: forced.clone() };
            let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut ctx)));
            if r.is_err() {
                let m = last_panic();
                ctx.violate("", &format!("unexpected panic outside of the cases: {}", m));
            }
            ctx.finish();
            _exit(0);
        }
        (sh, pid)
    }
}

/// Runs all scenarios, `par` at a time, each in its own process.
pub fn run_all(scs: &[Scenario], thorough: bool, par: usize, hang_s: i64, forced: &Option<(String, bool, Vec<u8>)>) -> Vec<(String, Outcome)> {
    let mut res: Vec<(String, Outcome)> = Vec::new();
    let mut next = 0;
    struct W {
        idx: usize,
        pid: i32,
        sh: *mut Shared,
        beat: u64,
        at: i64,
    }
    let mut ws: Vec<W> = Vec::new();
    while next < scs.len() || !ws.is_empty() {
        while ws.len() < par && next < scs.len() {
            let (sh, pid) = start(&scs[next], thorough, forced);
            ws.push(W { idx: next, pid, sh, beat: 0, at: unsafe { mc_real_ns() } });
            next += 1;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
        let now = unsafe { mc_real_ns() };
        let mut i = 0;
        while i < ws.len() {
            let w = &mut ws[i];
            let sh = unsafe { &*w.sh };
            let mut st = 0;
            let r = unsafe { rt::waitpid(w.pid, &mut st, 1) };
            let name = scs[w.idx].name.clone();
            let desc = || String::from_utf8_lossy(&sh.desc[..sh.desc_len as usize]).into_owned();
            let full = || {
                let n = u32::from_le_bytes([sh.full[0], sh.full[1], sh.full[2], sh.full[3]]) as usize;
                format!("{}{} {}", if sh.full[4] != 0 { "+" } else { "-" }, sh.full[8..8 + n.min(FULL - 16)].iter().map(|c| (b'0' + c) as char).collect::<String>(), desc())
            };
            if r == w.pid {
                let mut o = if sh.done == 1 { parse(sh) } else { Outcome::default() };
                if sh.done != 1 {
                    if st & 0x7f == 0 && (st >> 8) & 0xff == 97 {
                        o.error = Some("the runtime gave up (see stderr)".into());
                    } else if st & 0x7f == 9 {
                        o.error = Some("worker was killed from outside (memory?)".into());
                    } else {
                        o.violations.insert(String::new(), format!("the process crashed (wait status {:#x})\n  case: {}", st, desc()));
                        o.schedule.insert(String::new(), full());
                    }
                }
                res.push((name, o));
                unsafe { crate::work::unmap(w.sh as *mut u8) };
                ws.swap_remove(i);
                continue;
            }
            let beat = unsafe { std::ptr::read_volatile(&sh.beat) };
            if beat != w.beat {
                w.beat = beat;
                w.at = now;
            } else if now - w.at > hang_s * 1_000_000_000 {
                unsafe {
                    rt::kill(w.pid, 9);
                    rt::waitpid(w.pid, &mut st, 0);
                }
                let mut o = Outcome::default();
                if sh.large != 0 {
                    o.coverage.push(format!("{}: given up after {} s: {}", name, hang_s, desc()));
                } else {
                    o.violations.insert(String::new(), format!("no answer for {} s: the code under test does not terminate\n  case: {}", hang_s, desc()));
                    o.schedule.insert(String::new(), full());
                }
                res.push((name, o));
                ws.swap_remove(i);
                continue;
            }
            i += 1;
        }
    }
    res.sort_by(|a, b| a.0.cmp(&b.0));
    res
}

pub unsafe fn unmap(p: *mut u8) {
    extern "C" {
        fn munmap(p: *mut u8, n: usize) -> i32;
    }
    munmap(p, std::mem::size_of::<Shared>());
}
