//! Exhaustive exploration of the schedules of a small concurrent program ("harness") over the real code.
use crate::rt;
use crate::work::{Ctx, Global};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Body = Box<dyn FnOnce()>;

/// One instance of the harness: fresh objects, the thread bodies, and the verdict once all threads have finished.
/// The verdict is `Ok(outcome)` (a short description of what was observed, for the evidence) or `Err(message)`.
pub struct Exec {
    pub threads: Vec<Body>,
    pub finish: Box<dyn FnOnce() -> Result<String, String>>,
}

#[derive(Clone)]
pub struct Opts {
    /// Try to explore all interleavings (sleep-set reduced), up to this many executions; 0: do not try.
    pub full_execs: u64,
    /// Otherwise explore with 0, 1, ... up to this many preemptions ...
    pub max_preempt: u32,
    /// ... while the number of executions stays below this.
    pub bounded_execs: u64,
    /// Freed memory is poisoned and not reused during an execution.
    pub quarantine: bool,
    /// Thread panics are part of the harness (the bodies catch them).
    pub wall_s: u64,
    /// Each execution runs in a process of its own (for process-wide state that is initialized once).
    pub forked: bool,
    /// Only the first thread starts at once; the bodies release the others (`rt::mc_gate_open`).
    pub gated: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { full_execs: 150_000, max_preempt: 3, bounded_execs: 400_000, quarantine: false, wall_s: 40, forked: false, gated: false }
    }
}

// Process-wide, not thread-local: fibers have thread-local storage of their own.
static BODIES: Global<Vec<Option<Body>>> = Global(RefCell::new(Vec::new()));
static PANICS: Global<Vec<String>> = Global(RefCell::new(Vec::new()));

extern "C" fn entry(i: std::os::raw::c_int) {
    let body = BODIES.0.borrow_mut()[i as usize].take().expect("body");
    let r = catch_unwind(AssertUnwindSafe(body));
    if r.is_err() {
        let m = crate::work::last_panic();
        PANICS.0.borrow_mut().push(format!("thread T{} panicked: {}", i, m));
    }
}
/// Runs `f`, returning whether it panicked (for harness threads whose user code panics on purpose).
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    let r = catch_unwind(AssertUnwindSafe(f));
    r.map_err(|_| ())
}

struct Nd {
    cand: u64,
    done: u64,
    choice: u8,
    cur: u8,
    cur_free: bool,
    hash: u32,
}
impl Nd {
    fn cost(&self, c: u8) -> u32 {
        (self.cur != 64 && !self.cur_free && c != self.cur) as u32
    }
}

pub struct RunResult {
    pub status: i32,
    pub redundant: bool,
    pub verdict: Result<String, String>,
}

fn run_once(build: &dyn Fn() -> Exec, opts: &Opts, choice: &[u8], done: &[u64], hash: &[u32], sleep: bool, marks: bool, trace: bool) -> RunResult {
    rt::set_clock(1_000_000_000_000, 1_600_000_000_000_000_000);
    let ex = build();
    let n = ex.threads.len();
    (*BODIES.0.borrow_mut() = ex.threads.into_iter().map(Some).collect());
    PANICS.0.borrow_mut().clear();
    // With freed memory reused, steps at different addresses need not commute: the reduced search does without reuse.
    let quarantine = opts.quarantine || marks;
    if quarantine {
        rt::quarantine(true);
    }
    unsafe { rt::mc_gates(if opts.gated { 1 } else { 64 }) };
    let status = unsafe { rt::mc_run(n as i32, entry, choice.as_ptr(), done.as_ptr(), hash.as_ptr(), choice.len() as u32, sleep as i32, marks as i32, trace as i32) };
    let redundant = unsafe { rt::mc_redundant() != 0 };
    let verdict = match status {
        0 => {
            let panics = PANICS.0.borrow().join("; ");
            if !panics.is_empty() {
                std::mem::forget(ex.finish);
                Err(panics)
            } else {
                match catch_unwind(AssertUnwindSafe(ex.finish)) {
                    Ok(v) => v,
                    Err(_) => Err(format!("panic after the threads finished: {}", crate::work::last_panic())),
                }
            }
        }
        s => {
            std::mem::forget(ex.finish);
            let d: Vec<String> = (0..n)
                .map(|i| format!("T{} {}", i, unsafe { std::ffi::CStr::from_ptr(rt::mc_fiber_desc(i as i32)) }.to_string_lossy()))
                .collect();
            match s {
                1 => Err(format!("deadlock: no thread can continue ({})", d.join(", "))),
                4 => Err(format!("livelock: threads only re-read unchanged memory ({})", d.join(", "))),
                3 => Err(format!("execution does not end: step limit reached ({})", d.join(", "))),
                _ => Err("replay diverged".to_string()),
            }
        }
    };
    if quarantine && status == 0 {
        rt::quarantine(false);
    }
    RunResult { status, redundant, verdict }
}

fn nodes() -> &'static [rt::Node] {
    let mut n = 0;
    unsafe {
        let p = rt::mc_nodes(&mut n);
        std::slice::from_raw_parts(p, n as usize)
    }
}
fn steps() -> Vec<rt::Step> {
    let mut n = 0;
    unsafe {
        let p = rt::mc_steps(&mut n);
        std::slice::from_raw_parts(p, n as usize).to_vec()
    }
}

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub redundant: u64,
    pub choice_points: u64,
    pub steps: u64,
    pub max_depth: u64,
    pub outcomes: BTreeMap<String, u64>,
}

enum End {
    Complete,
    Capped,
    Violation { msg: String, choices: Vec<u8> },
    Diverged,
}

const FNODES: usize = 4096;
#[repr(C)]
struct ForkResult {
    done: u8,
    redundant: u8,
    ok: u8,
    status: i32,
    points: u64,
    nodes: u32,
    vlen: u32,
    verdict: [u8; 4000],
    node: [rt::Node; FNODES],
}
/// `run_once` in a child process.
fn run_forked(build: &dyn Fn() -> Exec, opts: &Opts, choice: &[u8], done: &[u64], hash: &[u32], sleep: bool, marks: bool) -> (RunResult, Vec<rt::Node>, u64) {
    static AREA: Global<usize> = Global(RefCell::new(0));
    unsafe {
        if *AREA.0.borrow() == 0 {
            *AREA.0.borrow_mut() = rt::mc_shared(std::mem::size_of::<ForkResult>()) as usize;
        }
        let sh = *AREA.0.borrow() as *mut ForkResult;
        (*sh).done = 0;
        let pid = rt::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let p0 = rt::mc_total_points();
            let r = run_once(build, opts, choice, done, hash, sleep, marks, false);
            (*sh).points = rt::mc_total_points() - p0;
            let ns = nodes();
            (*sh).nodes = ns.len().min(FNODES) as u32;
            (&mut (*sh).node)[..ns.len().min(FNODES)].copy_from_slice(&ns[..ns.len().min(FNODES)]);
            let (ok, v) = match &r.verdict {
                Ok(v) => (1, v),
                Err(v) => (0, v),
            };
            let n = v.len().min(4000);
            (&mut (*sh).verdict)[..n].copy_from_slice(&v.as_bytes()[..n]);
            (*sh).vlen = n as u32;
            (*sh).ok = ok;
            (*sh).status = r.status;
            (*sh).redundant = r.redundant as u8;
            (*sh).done = 1;
            rt::_exit(0);
        }
        let mut st = 0;
        rt::waitpid(pid, &mut st, 0);
        if (*sh).done == 0 {
            return (RunResult { status: 5, redundant: false, verdict: Err(format!("the process crashed (wait status {:#x})", st)) }, vec![], 0);
        }
        let v = String::from_utf8_lossy(&(&(*sh).verdict)[..(*sh).vlen as usize]).into_owned();
        let r = RunResult { status: (*sh).status, redundant: (*sh).redundant != 0, verdict: if (*sh).ok == 1 { Ok(v) } else { Err(v) } };
        (r, (&(*sh).node)[..(*sh).nodes as usize].to_vec(), (*sh).points)
    }
}

fn dfs(ctx: &Ctx, build: &dyn Fn() -> Exec, opts: &Opts, bound: Option<u32>, max_execs: u64, t0: i64, st: &mut Stats) -> End {
    let sleep = bound.is_none();
    let mut stack: Vec<Nd> = Vec::new();
    let mut execs = 0u64;
    loop {
        let choice: Vec<u8> = stack.iter().map(|n| n.choice).collect();
        let done: Vec<u64> = stack.iter().map(|n| n.done).collect();
        let hash: Vec<u32> = stack.iter().map(|n| n.hash).collect();
        ctx.beat();
        let owned;
        let (r, ns, pts) = if opts.forked {
            let (r, n, p) = run_forked(build, opts, &choice, &done, &hash, sleep, sleep);
            owned = n;
            (r, &owned[..], p)
        } else {
            let pts0 = unsafe { rt::mc_total_points() };
            let r = run_once(build, opts, &choice, &done, &hash, sleep, sleep, false);
            (r, nodes(), unsafe { rt::mc_total_points() } - pts0)
        };
        execs += 1;
        st.execs += 1;
        st.steps += pts;
        if r.redundant {
            st.redundant += 1;
        }
        if r.status == 5 {
            return End::Violation { msg: r.verdict.unwrap_err(), choices: ctx.full_schedule() };
        }
        if r.status == 2 || ns.len() < stack.len() {
            return End::Diverged;
        }
        st.max_depth = st.max_depth.max(ns.len() as u64);
        match r.verdict {
            Ok(o) => {
                if !r.redundant {
                    *st.outcomes.entry(o).or_insert(0) += 1;
                }
            }
            Err(msg) => return End::Violation { msg, choices: ctx.full_schedule() },
        }
        for n in &ns[stack.len()..] {
            st.choice_points += 1;
            stack.push(Nd { cand: n.enabled, done: 0, choice: n.chosen, cur: n.cur, cur_free: n.cur_free != 0, hash: n.hash });
        }
        // Backtrack to the deepest node with an unexplored alternative within the bound.
        loop {
            let used: u32 = if bound.is_some() && !stack.is_empty() { stack[..stack.len() - 1].iter().map(|n| n.cost(n.choice)).sum() } else { 0 };
            match stack.last_mut() {
                None => return End::Complete,
                Some(n) => {
                    n.done |= 1 << n.choice;
                    let mut next = None;
                    for c in 0..64u8 {
                        if n.cand & !n.done & (1 << c) != 0 && bound.map_or(true, |b| used + n.cost(c) <= b) {
                            next = Some(c);
                            break;
                        }
                    }
                    match next {
                        Some(c) => {
                            n.choice = c;
                            break;
                        }
                        None => {
                            stack.pop();
                        }
                    }
                }
            }
        }
        if execs >= max_execs || ctx.elapsed_since(t0) > opts.wall_s {
            return End::Capped;
        }
    }
}

/// Deterministic replay of one schedule (all choices), with a trace.
pub fn replay(build: &dyn Fn() -> Exec, opts: &Opts, choices: &[u8], marks: bool) -> (RunResult, Vec<rt::Step>) {
    // Hash 0: only check that each choice is enabled.
    let hashes: Vec<u32> = vec![0; choices.len()];
    let done = vec![0u64; choices.len()];
    if opts.forked {
        return (run_forked(build, opts, choices, &done, &hashes, false, marks).0, vec![]);
    }
    let r = run_once(build, opts, choices, &done, &hashes, false, marks, true);
    (r, steps())
}

/// Explores every schedule of the program `build` makes; `label` names it.
pub fn explore(ctx: &mut Ctx, label: &str, opts: &Opts, build: &dyn Fn() -> Exec) {
    if ctx.violated() || ctx.out.error.is_some() {
        return;
    }
    explore1(ctx, label, opts, build);
    // State of the whole process (a counter that numbers threads, say) survives executions that share a process.
    if ctx.out.error.as_ref().map_or(false, |e| e.contains(ND)) && !opts.forked {
        ctx.out.error = None;
        explore1(ctx, label, &Opts { forked: true, ..opts.clone() }, build);
    }
}
/// Finds the plain memory accesses of the code under test that race in this program, so that they become scheduling points.
fn races(ctx: &mut Ctx, opts: &Opts, build: &dyn Fn() -> Exec) {
    let mut known = unsafe { rt::mc_plain(0) };
    for _ in 0..6 {
        unsafe { rt::mc_plain(3) };
        dfs(ctx, build, opts, Some(1), 12, ctx.now(), &mut Stats::default());
        let n = unsafe { rt::mc_plain(2) };
        if n == known {
            break;
        }
        known = n;
    }
    if known == 0 {
        unsafe { rt::mc_plain(0) };
    } else {
        ctx.racy(known);
    }
}
const ND: &str = "uncontrolled nondeterminism";
fn explore1(ctx: &mut Ctx, label: &str, opts: &Opts, build: &dyn Fn() -> Exec) {
    ctx.describe(label);
    if let Some((l, marks, choices)) = ctx.forced.clone() {
        if l == label {
            races(ctx, opts, build);
            for _ in 0..2 {
                let (r, tr) = replay(build, opts, &choices, marks);
                ctx.out.evaluations += 1;
                ctx.trace(&tr);
                if let Err(m) = r.verdict {
                    ctx.violate_schedule("", &format!("{}\n  program: {}", m, label), label, marks, &choices);
                }
            }
        }
        return;
    }
    races(ctx, opts, build);
    let t0 = ctx.now();
    let mut st = Stats::default();
    let mut coverage = String::new();
    let mut violation = None;
    let mut complete = false;
    if opts.full_execs > 0 {
        match dfs(ctx, build, opts, None, opts.full_execs, t0, &mut st) {
            End::Complete => {
                complete = true;
                coverage = "all interleavings".into();
            }
            End::Capped => {}
            End::Diverged => return ctx.error(&format!("a replayed schedule diverged: {} ({})", ND, label)),
            End::Violation { msg, choices } => violation = Some((msg, choices, true)),
        }
        if violation.is_some() {
            // Look for a failure with as few preemptions as possible.
            let mut st2 = Stats::default();
            for b in 0..=2 {
                if let End::Violation { msg, choices } = dfs(ctx, build, opts, Some(b), 20_000, ctx.now(), &mut st2) {
                    violation = Some((msg, choices, false));
                    break;
                }
            }
        }
    }
    let mut marks = complete;
    if !complete && violation.is_none() {
        let mut done_bound: Option<u32> = None;
        let mut partial = String::new();
        for b in 0..=opts.max_preempt {
            match dfs(ctx, build, opts, Some(b), opts.bounded_execs, t0, &mut st) {
                End::Complete => done_bound = Some(b),
                End::Capped => {
                    partial = format!(" (bound {} in part)", b);
                    break;
                }
                End::Diverged => return ctx.error(&format!("a replayed schedule diverged: {} ({})", ND, label)),
                End::Violation { msg, choices } => {
                    violation = Some((msg, choices, false));
                    break;
                }
            }
        }
        coverage = match done_bound {
            Some(b) => format!("all interleavings with at most {} preemptions{}", b, partial),
            None => format!("only some interleavings{}", partial),
        };
        marks = false;
    }
    if let Some((msg, choices, marks)) = violation {
        ctx.violate_schedule("", &format!("{}\n  program: {}", msg, label), label, marks, &choices);
        let (r, tr) = replay(build, opts, &choices, marks);
        if r.verdict.is_err() {
            ctx.trace(&tr);
        }
    } else {
        // Own every source of nondeterminism: the same schedule twice gives the same steps and the same outcome.
        let last = ctx.full_schedule();
        let (a, ta) = replay(build, opts, &last, marks);
        let (b, tb) = replay(build, opts, &last, marks);
        let ka: Vec<_> = ta.iter().map(|s| (s.tid, s.kind, s.addr_id, s.pc)).collect();
        let kb: Vec<_> = tb.iter().map(|s| (s.tid, s.kind, s.addr_id, s.pc)).collect();
        if ka != kb || a.verdict != b.verdict {
            return ctx.error(&format!("the same schedule gave two different executions: {} ({})", ND, label));
        }
        ctx.schedules(label, st, &coverage, complete);
    }
}

/// Explores every schedule of a family in which one thread is stopped again and again: for each victim, each period up
/// to `max_period` and each offset, before every such step of the victim the other threads perform a burst of steps,
/// with each burst length up to `max_burst`.  Reaches what preemption bounding cannot: code that is disturbed an
/// unbounded number of times.
pub fn relentless(ctx: &mut Ctx, label: &str, opts: &Opts, victims: &[i32], max_period: u32, max_burst: u32, build: &dyn Fn() -> Exec) {
    if ctx.violated() || ctx.out.error.is_some() {
        return;
    }
    let label = &format!("relentless {}", label);
    ctx.describe(label);
    if ctx.forced.is_some() {
        return explore(ctx, label, opts, build);
    }
    races(ctx, opts, build);
    let mut st = Stats::default();
    for &v in victims {
        for period in 1..=max_period {
            for offset in 0..period {
                for burst in 1..=max_burst {
                    ctx.beat();
                    unsafe { rt::mc_policy(v, period, offset, burst) };
                    let p0 = unsafe { rt::mc_total_points() };
                    let r = run_once(build, opts, &[], &[], &[], false, false, false);
                    unsafe { rt::mc_policy(-1, 0, 0, 0) };
                    st.execs += 1;
                    st.steps += unsafe { rt::mc_total_points() } - p0;
                    let n = nodes().len() as u64;
                    st.choice_points += n;
                    st.max_depth = st.max_depth.max(n);
                    match r.verdict {
                        Ok(o) => *st.outcomes.entry(o).or_insert(0) += 1,
                        Err(m) => {
                            let choices = ctx.full_schedule();
                            let m: String = m.chars().take(3000).collect();
                            return ctx.violate_schedule("", &format!("{}\n  program: {}\n  T{} stopped before every {}th step from the {}th on, for {} steps of the others", m, label, v, period, offset, burst), label, false, &choices);
                        }
                    }
                }
            }
        }
    }
    let cov = format!("all schedules that interrupt one thread with period up to {} and bursts up to {}", max_period, max_burst);
    ctx.schedules(label, st, &cov, false);
}

/// Runs `f` on a fiber of its own, so that blocking forever is noticed at once.
pub fn alone(ctx: &Ctx, f: impl FnOnce() -> Result<(), String> + 'static) -> Result<(), String> {
    let res = std::rc::Rc::new(RefCell::new(Ok(())));
    let r2 = res.clone();
    let cell = RefCell::new(Some(f));
    let ex = move || {
        let f = cell.borrow_mut().take().unwrap();
        let r2 = r2.clone();
        Exec { threads: vec![Box::new(move || { let v = f(); *r2.borrow_mut() = v; })], finish: Box::new(|| Ok(String::new())) }
    };
    ctx.beat();
    let o = Opts { ..Default::default() };
    let r = run_once(&ex, &o, &[], &[], &[], false, false, false);
    r.verdict?;
    let v = res.borrow().clone();
    v
}
