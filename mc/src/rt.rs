//! Bindings to rt/rt.c.
use std::alloc::{GlobalAlloc, Layout};
use std::os::raw::{c_char, c_int, c_void};

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub enabled: u64,
    pub sleep: u64,
    pub chosen: u8,
    pub cur: u8,
    pub cur_free: u8,
    pad: u8,
    pub step: u32,
    pub hash: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Step {
    pub tid: u8,
    pub kind: u8,
    pad: u16,
    pub addr_id: u32,
    pub pc: u64,
}
extern "C" {
    pub fn mc_run(n: c_int, entry: extern "C" fn(c_int), choice: *const u8, done: *const u64, hash: *const u32, len: u32, sleep: c_int, marks: c_int, trace: c_int) -> c_int;
    pub fn mc_plain(mode: c_int) -> u32;
    pub fn mc_gates(first: c_int);
    pub fn mc_gate_open(i: c_int);
    pub fn mc_gate_wait();
    pub fn mc_policy(victim: c_int, period: u32, offset: u32, burst: u32);
    pub fn mc_nodes(n: *mut u32) -> *const Node;
    pub fn mc_steps(n: *mut u32) -> *const Step;
    pub fn mc_redundant() -> c_int;
    pub fn mc_total_points() -> u64;
    pub fn mc_cur() -> c_int;
    pub fn mc_mark(id: u64);
    pub fn mc_yield();
    pub fn mc_call() -> u32;
    pub fn mc_ret(call: *mut u32) -> u32;
    pub fn mc_fiber_desc(i: c_int) -> *const c_char;
    pub fn mc_clock_enable(on: c_int);
    pub fn mc_clock_set(mono: i64, real: i64);
    pub fn mc_clock_mono() -> i64;
    pub fn mc_clock_far(mono_s: i64, real_s: i64);
    pub fn mc_clock_reads() -> u64;
    pub fn mc_clock_advance(ns: i64);
    pub fn mc_clock_step_wall(ns: i64);
    pub fn mc_proc_enable(on: c_int);
    pub fn mc_proc_source(src: c_int, mode: c_int, data: *const u8, len: usize);
    pub fn mc_proc_fault(i: c_int, at: u32, err: c_int);
    pub fn mc_proc_chunk(n: usize);
    pub fn mc_proc_ops(log: *mut *const u8) -> u32;
    pub fn mc_thread_start(i: c_int) -> c_int;
    pub fn mc_thread_stop(i: c_int);
    pub fn mc_tasks() -> c_int;
    pub fn mc_count_fds() -> c_int;
    pub fn mc_fd_open() -> c_int;
    pub fn mc_fd_scan(n: c_int);
    pub fn mc_fds_fill(n: c_int, below: c_int, out: *mut c_int) -> c_int;
    pub fn mc_fd_close(fd: c_int);
    pub fn mc_soft_fds(set: u64, cur: *mut u64, max: *mut u64) -> c_int;
    pub fn mc_set_comm(s: *const c_char);
    pub fn mc_slurp(path: *const c_char, buf: *mut u8, n: usize) -> i64;
    pub fn mc_alloc(size: usize, align: usize) -> *mut u8;
    pub fn mc_free(p: *mut u8, align: usize);
    pub fn mc_usable(p: *mut u8, align: usize) -> usize;
    pub fn mc_quarantine(on: c_int);
    pub fn mc_in_freed(p: *const c_void, n: usize) -> c_int;
    pub fn mc_live_blocks() -> u64;
    pub fn mc_live_bytes() -> u64;
    pub fn mc_shared(n: usize) -> *mut u8;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opt: c_int) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
}

pub fn cur() -> usize {
    unsafe { mc_cur() as usize }
}
pub fn mark(id: u64) {
    unsafe { mc_mark(id) }
}
/// Performs one operation of a concurrent history: its result, and when it was called and returned.
pub fn op<R>(f: impl FnOnce() -> R) -> (R, u32, u32) {
    unsafe {
        mc_call();
        let r = f();
        let mut c = 0;
        let e = mc_ret(&mut c);
        (r, c, e)
    }
}
pub fn advance(ns: i64) {
    unsafe { mc_clock_advance(ns) }
}
pub fn step_wall(ns: i64) {
    unsafe { mc_clock_step_wall(ns) }
}
/// Virtual clocks on, monotonic and wall clock set (nanoseconds).
pub fn set_clock(mono: i64, real: i64) {
    unsafe {
        mc_clock_enable(1);
        mc_clock_set(mono, real);
    }
}
/// Moves the clocks by any number of seconds.
pub fn far(mono_s: i64, real_s: i64) {
    unsafe { mc_clock_far(mono_s, real_s) }
}
pub fn real_clock() {
    unsafe { mc_clock_enable(0) }
}
pub fn in_freed<T: ?Sized>(r: &T) -> bool {
    unsafe { mc_in_freed(r as *const T as *const c_void, std::mem::size_of_val(r).max(1)) != 0 }
}
pub fn quarantine(on: bool) {
    unsafe { mc_quarantine(on as c_int) }
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mc_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        mc_free(p, l.align())
    }
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;
