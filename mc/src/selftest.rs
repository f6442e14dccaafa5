//! The explorer checked on toys whose answers are known, at the start of every run.
use crate::explore::{explore, Exec, Opts};
use crate::work::{run_all, Ctx, Scenario};
use crate::rt;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

fn racy(full: u64) -> Scenario {
    // Two unsynchronized increments: both 1 and 2 must be found.
    Scenario {
        name: format!("racy counter {}", full),
        f: Box::new(move |ctx: &mut Ctx| {
            let o = Opts { full_execs: full, max_preempt: 2, ..Default::default() };
            explore(ctx, "racy", &o, &|| {
                let x = Rc::new(AtomicU64::new(0));
                let t = |x: Rc<AtomicU64>| Box::new(move || {
                    let v = x.load(Relaxed);
                    x.store(v + 1, Relaxed);
                }) as Box<dyn FnOnce()>;
                Exec { threads: vec![t(x.clone()), t(x.clone())], finish: Box::new(move || Ok(x.load(Relaxed).to_string())) }
            });
        }),
    }
}
/// Three threads, two writes each to one location: 6!/(2!2!2!) = 90 interleavings, and all independent: 1.
fn count(same: bool) -> Scenario {
    Scenario {
        name: format!("count {}", same),
        f: Box::new(move |ctx: &mut Ctx| {
            explore(ctx, "count", &Opts::default(), &|| {
                let xs = Rc::new([AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]);
                let threads = (0..3)
                    .map(|i| {
                        let xs = xs.clone();
                        Box::new(move || {
                            let x = &xs[if same { 0 } else { i }];
                            for _ in 0..2 {
                                let v = x.load(Relaxed); // uninteresting: the swap below is what is ordered
                                std::hint::black_box(v);
                                x.swap(i as u64, Relaxed);
                            }
                        }) as Box<dyn FnOnce()>
                    })
                    .collect();
                Exec { threads, finish: Box::new(move || Ok(xs[0].load(Relaxed).to_string())) }
            });
        }),
    }
}
fn deadlock() -> Scenario {
    Scenario {
        name: "deadlock".into(),
        f: Box::new(|ctx: &mut Ctx| {
            explore(ctx, "ab-ba", &Opts::default(), &|| {
                let m = Rc::new((Mutex::new(0), Mutex::new(0)));
                let (a, b) = (m.clone(), m.clone());
                Exec {
                    threads: vec![
                        Box::new(move || {
                            let _x = a.0.lock().unwrap();
                            let _y = a.1.lock().unwrap();
                        }),
                        Box::new(move || {
                            let _x = b.1.lock().unwrap();
                            let _y = b.0.lock().unwrap();
                        }),
                    ],
                    finish: Box::new(|| Ok(String::new())),
                }
            });
        }),
    }
}
fn mutex_ok() -> Scenario {
    Scenario {
        name: "mutex".into(),
        f: Box::new(|ctx: &mut Ctx| {
            explore(ctx, "mutex", &Opts::default(), &|| {
                let m = Rc::new(Mutex::new(0));
                let t = |m: Rc<Mutex<u32>>| Box::new(move || {
                    let mut g = m.lock().unwrap();
                    let v = *g;
                    rt::mark(7);
                    *g = v + 1;
                }) as Box<dyn FnOnce()>;
                Exec { threads: vec![t(m.clone()), t(m.clone())], finish: Box::new(move || if *m.lock().unwrap() == 2 { Ok("2".into()) } else { Err("lost".into()) }) }
            });
        }),
    }
}
/// A spinning reader: must terminate, not count as a livelock; and one that can never succeed must.
fn spin(never: bool) -> Scenario {
    Scenario {
        name: format!("spin {}", never),
        f: Box::new(move |ctx: &mut Ctx| {
            explore(ctx, "spin", &Opts::default(), &|| {
                let x = Rc::new(AtomicU64::new(0));
                let (a, b) = (x.clone(), x.clone());
                Exec {
                    threads: vec![
                        Box::new(move || while a.load(Acquire) == 0 {}),
                        Box::new(move || if !never { b.store(1, Release) }),
                    ],
                    finish: Box::new(|| Ok(String::new())),
                }
            });
        }),
    }
}
/// Thread-local storage is per fiber.
fn tls() -> Scenario {
    thread_local!(static T: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
    Scenario {
        name: "tls".into(),
        f: Box::new(move |ctx: &mut Ctx| {
            explore(ctx, "tls", &Opts::default(), &|| {
                let t = |i: u32| Box::new(move || {
                    assert_eq!(T.with(|t| t.replace(i)), 0);
                    rt::mark(1);
                    assert_eq!(T.with(|t| t.get()), i);
                    let r = std::panic::catch_unwind(|| {
                        rt::mark(2);
                        panic!("expected")
                    });
                    assert!(r.is_err() && !std::thread::panicking());
                }) as Box<dyn FnOnce()>;
                Exec { threads: vec![t(1), t(2)], finish: Box::new(|| Ok(String::new())) }
            });
        }),
    }
}

/// Destructors of thread-locals run when their fiber ends, as steps of it.
fn tls_end() -> Scenario {
    struct D(std::cell::RefCell<Option<Rc<AtomicU64>>>);
    impl Drop for D {
        fn drop(&mut self) {
            if let Some(x) = self.0.borrow_mut().take() {
                let v = x.load(Relaxed);
                x.store(v + 1, Relaxed);
                std::mem::forget(x); // the count of an Rc is not for two fibers
            }
        }
    }
    thread_local!(static T: D = D(Default::default()));
    Scenario {
        name: "tls end".into(),
        f: Box::new(move |ctx: &mut Ctx| {
            explore(ctx, "tls-end", &Opts::default(), &|| {
                let x = Rc::new(AtomicU64::new(0));
                let t = |x: Rc<AtomicU64>| Box::new(move || T.with(|t| *t.0.borrow_mut() = Some(x))) as Box<dyn FnOnce()>;
                Exec { threads: vec![t(x.clone()), t(x.clone())], finish: Box::new(move || Ok(x.load(Relaxed).to_string())) }
            });
        }),
    }
}

pub fn scenarios() -> Vec<Scenario> {
    vec![racy(1000), racy(0), count(true), count(false), deadlock(), mutex_ok(), spin(false), spin(true), tls(), tls_end()]
}

pub fn run() -> Result<(), String> {
    let scs = scenarios();
    let res = run_all(&scs, false, 8, 30, &None);
    for (n, o) in res {
        if let Some(e) = &o.error {
            return Err(format!("{}: {}", n, e));
        }
        let viol = o.violations.get("").cloned().unwrap_or_default();
        let ok = match n.as_str() {
            "racy counter 1000" | "racy counter 0" => viol.is_empty() && o.distinct_outcomes == 2,
            "tls end" => viol.is_empty() && o.complete && o.distinct_outcomes == 2,
            "count true" => viol.is_empty() && o.complete && o.distinct_outcomes == 3 && o.schedules >= 90,
            "count false" => viol.is_empty() && o.complete && o.schedules == 1,
            "deadlock" => viol.contains("deadlock"),
            "spin true" => viol.contains("livelock"),
            _ => viol.is_empty() && o.complete,
        };
        if !ok {
            return Err(format!("{}: {:?} {} outcomes, {} schedules", n, viol, o.distinct_outcomes, o.schedules));
        }
    }
    Ok(())
}
