// Controlled-execution runtime for the model checker.
//
// The code under test is compiled with LLVM's ThreadSanitizer *instrumentation* (-Cpasses=tsan), but linked against
// this file instead of the ThreadSanitizer runtime.  Every atomic operation that prometrics, its dependencies, or any
// std code instantiated in them performs is therefore a call into this file.  "Threads" of an exploration are fibers
// on one OS thread; before each atomic operation (and futex call, sched_yield, clock read and harness mark) the fiber
// stops, and the scheduler decides who performs its pending operation next.  One run follows a prefix of recorded
// choices and then a default policy; the explorer (src/explore.rs) enumerates the prefixes.
//
// Each fiber has the thread-local storage of a parked OS thread of its own (the FS register is switched with the stack),
// so that thread-locals - std's panic state included - behave as with real threads.
//
// Also in here, for determinism: a virtual clock (clock_gettime is interposed), a deterministic allocator with
// LIFO reuse or quarantine, and substitution of what /proc/self/* contains.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <sys/auxv.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

#define MAXF 64
typedef u64 mask; // of fibers
#define BIT(i) ((mask)1 << (i))
#define MAXNODES 20000
#define MAXSTEPS 60000
#define STACK (512 * 1024)
#define SPIN_LIMIT 3
#define LIVELOCK_LIMIT 64
#define FAIR_RUN 4000

enum { K_NONE = 0, K_READ = 1, K_WRITE = 2, K_YIELD = 3, K_CALL = 4, K_RET = 5 };
enum { F_UNUSED, F_READY, F_BLOCKED, F_DONE };
enum { ST_OK = 0, ST_DEADLOCK = 1, ST_DIVERGED = 2, ST_STEPS = 3, ST_LIVELOCK = 4 };

typedef struct {
  void *sp;
  u8 *stack;
  int state;
  int kind;       // pending operation
  uintptr_t addr; //
  uintptr_t pc;   //
  uintptr_t futex; // blocked on
  // spin detection
  uintptr_t last_pc, last_addr;
  u64 last_val;
  u32 repeat;
  int spinwait;
  int forced_yield;
  int armed;      // stamp the next step as the beginning of a call
  u32 call_stamp;
  struct { void (*f)(void *); void *obj; } dtors[8]; // of thread-locals, to be run at the end
  int ndtors;
} fiber;

typedef struct {
  mask enabled; // fibers that could run
  mask sleep;   // sleep set on entry
  u8 chosen;   //
  u8 cur;      // fiber that was running (MAXF if none / finished)
  u8 cur_free; // switching away from cur costs no preemption
  u8 pad;
  u32 step;
  u32 hash; // identifies pending operations, for divergence detection
} node;

typedef struct {
  u8 tid, kind;
  u16 pad;
  u32 addr_id;
  u64 pc;
} step_rec;

static fiber fib[MAXF];
static int nf, cur = -1, active = 0;
static void *main_sp;
static int status;
static int use_sleep;
static mask sleep_mask;
static int redundant;
static node nodes[MAXNODES];
static u32 nnodes;
static u32 nsteps;
static step_rec steps[MAXSTEPS];
static const u8 *pfx_choice;
static const mask *pfx_done;
static const u32 *pfx_hash;
static u32 pfx_len;
static u32 releases, run_len;
static int last_t = -1;
static void (*entry_fn)(int);
static u32 events; // clock of calls and returns
static int marks_on;
static u64 total_points;
// The complete schedule of the current execution: who ran at each step where more than one fiber could.  In shared
// memory, so that it survives a crash.
#define MAXFULL 60000
static struct { u32 n, marks; u8 c[MAXFULL]; } *full;
void *mc_full_init(void *p) { full = p; return p; }


// ---- context switch ------------------------------------------------------------------------------------------------
// fs: thread pointer to switch to, or 0 to leave it.
void mc_switch(void **save, void *to, void *fs);
__asm__(".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\ntestq %rdx,%rdx\njz 1f\nwrfsbase %rdx\n1:\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size mc_switch,.-mc_switch\n");

static void fatal(const char *m) {
  dprintf(2, "mc runtime: %s\n", m);
  _exit(97);
}

static u32 addr_ids_n;
static uintptr_t addr_ids[4096];
static u32 addr_id(uintptr_t a) {
  for (u32 i = 0; i < addr_ids_n; i++)
    if (addr_ids[i] == a) return i;
  if (addr_ids_n < 4096) addr_ids[addr_ids_n++] = a;
  return addr_ids_n - 1;
}
static int trace_on;

static mask enabled_mask(void) {
  mask m = 0;
  for (int i = 0; i < nf; i++)
    if (fib[i].state == F_READY && !fib[i].spinwait) m |= BIT(i);
  return m;
}
static int dependent(fiber *a, fiber *b) {
  if (a->kind == K_NONE || b->kind == K_NONE || a->kind == K_YIELD || b->kind == K_YIELD) return 0;
  if (a->kind >= K_CALL || b->kind >= K_CALL) // the order of a call and a return is observable
    return (a->kind == K_CALL && b->kind == K_RET) || (a->kind == K_RET && b->kind == K_CALL);
  if (a->kind == K_READ && b->kind == K_READ) return 0;
  // 8-byte granularity, so that overlapping accesses of different widths conflict.
  return (a->addr >> 3) == (b->addr >> 3);
}
static u32 pend_hash(mask en) {
  u32 h = 2166136261u;
  for (int i = 0; i < nf; i++) {
    h = (h ^ (u32)(fib[i].state * 7 + ((en >> i) & 1))) * 16777619u;
    h = (h ^ (u32)fib[i].kind) * 16777619u;
    h = (h ^ (u32)(fib[i].pc)) * 16777619u;
  }
  return h;
}

// ---- thread-local storage of the fibers ------------------------------------------------------------------------------
static void *fs_main;
static void *volatile fs_of[MAXF];
static int have_fsgsbase;
static u8 *tls_image;
static size_t tls_size;
static long raw6(long n, long a, long b, long c, long d, long e, long f);
static void *parked(void *arg) {
  fs_of[(intptr_t)arg] = __builtin_thread_pointer();
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
  return 0;
}
static int find_tls(struct dl_phdr_info *info, size_t sz, void *data) {
  (void)sz, (void)data;
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      size_t al = info->dlpi_phdr[i].p_align ? info->dlpi_phdr[i].p_align : 1;
      tls_size = (info->dlpi_phdr[i].p_memsz + al - 1) / al * al;
    }
  return 1; // the first object is the executable
}
// Gives n fibers pristine thread-local storage.
static void tls_prepare(int n) {
  if (!fs_main) {
    fs_main = __builtin_thread_pointer();
    have_fsgsbase = (getauxval(AT_HWCAP2) & 2) != 0;
    dl_iterate_phdr(find_tls, 0);
  }
  for (int i = 0; i < n; i++) {
    if (!fs_of[i]) {
      pthread_attr_t at;
      pthread_t th;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 65536 + tls_size);
      if (pthread_create(&th, &at, parked, (void *)(intptr_t)i)) fatal("pthread_create");
      while (!fs_of[i]) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
      if (!tls_image) {
        tls_image = malloc(tls_size + 1);
        memcpy(tls_image, (u8 *)fs_of[i] - tls_size, tls_size);
      }
    }
    memcpy((u8 *)fs_of[i] - tls_size, tls_image, tls_size);
  }
}

static void resume_from(int from, int to) {
  if (from == to) return;
  cur = to;
  void *to_sp = to < 0 ? main_sp : fib[to].sp;
  void *fs = to < 0 ? fs_main : fs_of[to];
  if (!have_fsgsbase) {
    raw6(SYS_arch_prctl, 0x1002 /* ARCH_SET_FS */, (long)fs, 0, 0, 0, 0);
    fs = 0;
  }
  mc_switch(from < 0 ? &main_sp : &fib[from].sp, to_sp, fs);
}

// Relentless interference: the victim is stopped again and again (before each `period`-th of its steps, from the
// `offset`-th on) while the others perform `burst` steps.  Takes the place of the default policy.
static int pol_victim = -1;
static u32 pol_period, pol_offset, pol_burst, pol_steps, pol_left;
void mc_policy(int victim, u32 period, u32 offset, u32 burst) {
  pol_victim = victim, pol_period = period, pol_offset = offset, pol_burst = burst;
}
static int policy_pick(mask cand, int me, int yielding) {
  mask v = cand & (BIT(pol_victim)), others = cand & ~(BIT(pol_victim));
  if (!v) return -1;
  if (yielding && me == pol_victim && others && !pol_left) pol_left = 1;
  if (pol_left && others) {
    if (yielding && me != pol_victim && (others & ~(BIT(me)))) others &= ~(BIT(me));
    else if (yielding && me != pol_victim) return pol_left = 0, pol_victim;
    pol_left--;
    if (me >= 0 && (others & (BIT(me)))) return me;
    if (last_t >= 0 && last_t != pol_victim && (others & (BIT(last_t)))) return last_t;
    for (int k = 1; k <= nf; k++) {
      int i = (pol_victim + k) % nf;
      if ((others >> i) & 1) return i;
    }
  }
  pol_steps++;
  pol_left = pol_steps >= pol_offset && (pol_steps - pol_offset) % pol_period == 0 ? pol_burst : 0;
  return pol_victim;
}

// Called in fiber `me` (its pending operation set, or blocked, or done).  Returns when `me` may perform its operation.
static void schedule(int me) {
  for (;;) {
    if (status != ST_OK) { // stop: abandon all fibers
      resume_from(me, -1);
      fatal("resumed a stopped fiber");
    }
    mask en = enabled_mask();
    if (!en) {
      int any = 0, spinners = 0;
      for (int i = 0; i < nf; i++) {
        if (fib[i].state == F_READY || fib[i].state == F_BLOCKED) any = 1;
        if (fib[i].state == F_READY && fib[i].spinwait) spinners = 1;
      }
      if (!any) {
        resume_from(me, -1);
        fatal("resumed a finished fiber");
      }
      if (!spinners) {
        status = ST_DEADLOCK;
        continue;
      }
      // Only fibers that re-read an unchanged location remain: let them go on (a finite loop ends), but not forever.
      if (++releases > LIVELOCK_LIMIT) {
        status = ST_LIVELOCK;
        continue;
      }
      for (int i = 0; i < nf; i++)
        if (fib[i].spinwait) fib[i].spinwait = 0, fib[i].repeat = 0;
      continue;
    }
    if (nsteps >= MAXSTEPS) {
      status = ST_STEPS;
      continue;
    }
    mask cand = en;
    if (use_sleep) {
      cand = en & ~sleep_mask;
      if (!cand) {
        redundant = 1;
        sleep_mask = 0;
        cand = en;
      }
    }
    int me_enabled = me >= 0 && ((cand >> me) & 1);
    int yielding = me_enabled && (fib[me].kind == K_YIELD || fib[me].forced_yield);
    if (me >= 0) fib[me].forced_yield = 0;
    int t;
    if ((cand & (cand - 1)) == 0 || redundant) {
      if (me_enabled && !(yielding && (cand & ~(BIT(me))))) t = me;
      else {
        mask c2 = yielding ? (cand & ~(BIT(me))) : cand;
        t = __builtin_ctzll(c2);
      }
    } else {
      if (nnodes >= MAXNODES) {
        status = ST_STEPS;
        continue;
      }
      node *n = &nodes[nnodes];
      n->enabled = cand;
      n->sleep = sleep_mask;
      n->cur = me_enabled ? (u8)me : MAXF;
      n->cur_free = yielding;
      n->step = nsteps;
      n->hash = pend_hash(en);
      mask done = 0;
      if (nnodes < pfx_len) {
        t = pfx_choice[nnodes];
        done = pfx_done[nnodes];
        if (!((cand >> t) & 1) || (pfx_hash[nnodes] && n->hash != pfx_hash[nnodes])) {
          status = ST_DIVERGED;
          continue;
        }
      } else if (pol_victim >= 0 && (t = policy_pick(cand, me, yielding)) >= 0) {
      } else if (me_enabled && !yielding) {
        t = me;
      } else {
        mask c2 = yielding ? (cand & ~(BIT(me))) : cand;
        // round-robin after `me`, so that spinning code makes progress
        t = -1;
        for (int k = 1; k <= nf && t < 0; k++) {
          int i = ((me < 0 ? nf - 1 : me) + k) % nf;
          if ((c2 >> i) & 1) t = i;
        }
      }
      n->chosen = (u8)t;
      nnodes++;
      sleep_mask |= done;
    }
    if (use_sleep && !redundant) {
      sleep_mask &= ~(BIT(t));
      for (int i = 0; i < nf; i++)
        if (((sleep_mask >> i) & 1) && dependent(&fib[i], &fib[t])) sleep_mask &= ~(BIT(i));
    }
    if (full && (en & (en - 1)) && full->n < MAXFULL) full->c[full->n++] = (u8)t;
    fiber *f = &fib[t];
    if (f->armed) f->armed = 0, f->call_stamp = ++events;
    if (trace_on && nsteps < MAXSTEPS) steps[nsteps] = (step_rec){(u8)t, (u8)f->kind, 0, addr_id(f->addr), f->pc};
    nsteps++;
    // Fairness: code that polls without a detectable pattern yields after a long run of its own steps.
    if (t == last_t) {
      if (++run_len > FAIR_RUN && (cand & ~(BIT(t))) && nnodes >= pfx_len) f->forced_yield = 1, run_len = 0;
    } else run_len = 0, last_t = t;
    if (t == me) return;
    resume_from(me, t);
    // back: some other fiber scheduled us, our operation may proceed
    return;
  }
}

static inline int controlled(void) { return active && cur >= 0; }

static void point(int kind, uintptr_t addr, uintptr_t pc) {
  fiber *f = &fib[cur];
  total_points++;
  f->kind = kind;
  f->addr = addr;
  f->pc = pc;
  schedule(cur);
}

// Destructors of thread-locals: those of a fiber run when it ends, like those of a thread.
int __cxa_thread_atexit_impl(void (*f)(void *), void *obj, void *dso) {
  if (!controlled()) {
    static int (*real)(void (*)(void *), void *, void *);
    if (!real) real = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
    return real(f, obj, dso);
  }
  fiber *b = &fib[cur];
  if (b->ndtors == 8) fatal("too many destructors of thread-locals");
  b->dtors[b->ndtors].f = f;
  b->dtors[b->ndtors++].obj = obj;
  return 0;
}

static void fiber_main(void) {
  int me = cur;
  // The first resume only runs the fiber up to its first operation (see mc_run).
  entry_fn(me);
  while (fib[me].ndtors) {
    int i = --fib[me].ndtors;
    fib[me].dtors[i].f(fib[me].dtors[i].obj);
  }
  fib[me].state = F_DONE;
  fib[me].kind = K_NONE;
  active ? schedule(me) : resume_from(me, -1);
  fatal("finished fiber resumed");
}

static uintptr_t boot_pc = 1;

// Threads that come later: the first `gate_first` threads start at once, each other one when it is released.
static char gate[MAXF];
static int gate_first = MAXF;
void mc_gates(int first) { gate_first = first; }
static void hb_gate(int i);
void mc_gate_open(int i) {
  hb_gate(i);
  if (fib[i].state == F_BLOCKED && fib[i].futex == (uintptr_t)&gate[i]) fib[i].state = F_READY;
}
// Waits to be released again.
void mc_gate_wait(void) {
  if (!controlled()) return;
  fiber *f = &fib[cur];
  f->state = F_BLOCKED;
  f->futex = (uintptr_t)&gate[cur];
  f->kind = K_NONE;
  schedule(cur);
}

static void hb_start(void);
int mc_run(int n, void (*entry)(int), const u8 *choice, const mask *done, const u32 *hash, u32 len, int sleep, int marks, int trace) {
  if (n > MAXF) fatal("too many fibers");
  nf = n;
  entry_fn = entry;
  pfx_choice = choice, pfx_done = done, pfx_hash = hash, pfx_len = len;
  use_sleep = sleep, trace_on = trace, marks_on = marks, events = 0;
  sleep_mask = 0, redundant = 0, nnodes = 0, nsteps = 0, status = ST_OK, releases = 0, run_len = 0, last_t = -1;
  pol_steps = 0, pol_left = pol_victim >= 0 && pol_offset == 0 ? pol_burst : 0;
  if (full) full->n = 0, full->marks = (u32)marks;
  addr_ids_n = 0;
  tls_prepare(n);
  hb_start();
  for (int i = 0; i < n; i++) {
    fiber *f = &fib[i];
    u8 *st = f->stack;
    if (!st) {
      st = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (st == MAP_FAILED) fatal("mmap");
    }
    memset(f, 0, sizeof *f);
    f->stack = st;
    void **sp = (void **)(st + STACK - 64);
    *--sp = 0; // fake return address, keeps alignment
    *--sp = (void *)fiber_main;
    for (int k = 0; k < 6; k++) *--sp = 0;
    f->sp = sp;
    f->state = i < gate_first ? F_READY : F_BLOCKED;
    f->futex = (uintptr_t)&gate[i];
    f->kind = K_NONE;
    f->pc = boot_pc;
  }
  active = 1;
  cur = -1;
  schedule(-1);
  active = 0;
  cur = -1;
  return status;
}

const node *mc_nodes(u32 *n) { *n = nnodes; return nodes; }
const step_rec *mc_steps(u32 *n) { *n = nsteps; return steps; }
int mc_redundant(void) { return redundant; }
u64 mc_total_points(void) { return total_points; }
// Calls and returns of harness operations.  Their real-time order is what concurrent specifications speak about.  With
// marks on they are scheduling points of their own; otherwise a call is taken to happen right before its first step.
u32 mc_call(void) {
  if (!controlled()) return ++events;
  fiber *f = &fib[cur];
  if (marks_on) {
    point(K_CALL, 0, (uintptr_t)__builtin_return_address(0));
    return f->call_stamp = ++events;
  }
  f->armed = 1;
  return 0;
}
// Returns the stamp of the return; *call receives that of the call.
u32 mc_ret(u32 *call) {
  if (controlled()) {
    fiber *f = &fib[cur];
    if (marks_on) point(K_RET, 0, (uintptr_t)__builtin_return_address(0));
    if (f->armed) f->armed = 0, f->call_stamp = ++events; // an operation without steps
    *call = f->call_stamp;
  } else *call = events;
  return ++events;
}
int mc_cur(void) { return active ? cur : -1; }
// A visible event of the harness: all marks with the same id are ordered with respect to each other.
void mc_mark(u64 id) {
  if (controlled()) point(K_WRITE, 0x1000 + 8 * id, (uintptr_t)__builtin_return_address(0));
}
void mc_yield(void) {
  if (controlled()) point(K_YIELD, 0, (uintptr_t)__builtin_return_address(0));
}
const char *mc_fiber_desc(int i) {
  static char b[64];
  const char *st[] = {"unused", "ready", "blocked on futex", "done"};
  snprintf(b, sizeof b, "%s%s", st[fib[i].state], fib[i].spinwait ? " (spinning)" : "");
  return b;
}

// ---- instrumentation entry points ------------------------------------------------------------------------------------
#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
static int plain_mode;
static void hb_fence(int mo);
void __tsan_atomic_thread_fence(int o) {
  if (plain_mode && controlled()) hb_fence(o);
  __atomic_thread_fence(5);
}
void __tsan_atomic_signal_fence(int o) { (void)o; }

static inline void note_load(uintptr_t pc, uintptr_t addr, u64 v) {
  fiber *f = &fib[cur];
  if (f->last_pc == pc && f->last_addr == addr && f->last_val == v) f->repeat++;
  else f->repeat = 0, f->last_pc = pc, f->last_addr = addr, f->last_val = v;
}
static inline void pre_load(uintptr_t pc, uintptr_t addr) {
  fiber *f = &fib[cur];
  if (f->repeat >= SPIN_LIMIT && f->last_pc == pc && f->last_addr == addr) f->spinwait = 1;
  point(K_READ, addr, pc);
}
static inline void pre_write(uintptr_t pc, uintptr_t addr) {
  fib[cur].repeat = 0;
  fib[cur].last_pc = 0;
  point(K_WRITE, addr, pc);
}
// A write that changed the location: fibers spinning on it may look again.
static inline void changed(uintptr_t addr) {
  releases = 0;
  for (int i = 0; i < nf; i++)
    if (i != cur && fib[i].spinwait && (fib[i].last_addr >> 3) == (addr >> 3)) fib[i].spinwait = 0, fib[i].repeat = 0;
}
// Compare-exchange: a failing one changes nothing, so repeating it is spinning, like repeating a load.
static inline void pre_cas(uintptr_t pc, uintptr_t addr) {
  fiber *f = &fib[cur];
  if (f->repeat >= SPIN_LIMIT && f->last_pc == pc && f->last_addr == addr) f->spinwait = 1;
  point(K_WRITE, addr, pc);
}

// ---- data races ------------------------------------------------------------------------------------------------------
// Plain memory accesses of the code under test (those of all other code are patched out of the binary, see plain.py) are
// no scheduling points unless they race: an access is a point from when two fibers were seen to perform it and another one
// (at least one a write) on the same bytes, unordered by what the atomics in between synchronize.
enum { PM_DETECT = 1, PM_POINTS = 2 };
static int plain_mode;
#define MAXRACY 512
static struct { u32 n, owner; uintptr_t pc[MAXRACY]; } *racy; // shared with the processes of forked executions
static u32 vc[MAXF][MAXF], vc_racq[MAXF][MAXF], vc_rrel[MAXF][MAXF];
#define SYNCS 4096
static struct { uintptr_t a; u32 gen; u32 c[MAXF]; } syncs[SYNCS];
#define SHADOW 32768
typedef struct { u8 fiber, bytes, write; u32 clock; uintptr_t pc; } access_rec;
static struct { uintptr_t w; u32 gen, at; access_rec r[4]; } shadow[SHADOW];
static u32 hb_gen;
extern char __executable_start;
static void hb_start(void) {
  hb_gen++;
  for (int i = 0; i < nf; i++) {
    memset(vc[i], 0, sizeof vc[i]), memset(vc_racq[i], 0, sizeof vc[i]), memset(vc_rrel[i], 0, sizeof vc[i]);
    vc[i][i] = 1;
  }
}
static void vjoin(u32 *a, const u32 *b) {
  for (int i = 0; i < nf; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
static u32 *sync_of(uintptr_t a, int make) {
  u32 h = (u32)((a >> 2) * 2654435761u) % SYNCS;
  for (int k = 0; k < 64; k++, h = (h + 1) % SYNCS) {
    if (syncs[h].gen == hb_gen && syncs[h].a == a) return syncs[h].c;
    if (syncs[h].gen != hb_gen) {
      if (!make) return 0;
      syncs[h].gen = hb_gen, syncs[h].a = a;
      memset(syncs[h].c, 0, sizeof syncs[h].c);
      return syncs[h].c;
    }
  }
  return 0;
}
static void hb_load(uintptr_t a, int mo) {
  u32 *c = sync_of(a, 0);
  if (c) vjoin(mo == 0 || mo == 3 ? vc_racq[cur] : vc[cur], c);
}
static void hb_store(uintptr_t a, int mo) {
  u32 *c = sync_of(a, 1);
  if (c) vjoin(c, mo >= 3 ? vc[cur] : vc_rrel[cur]);
  if (mo >= 3) vc[cur][cur]++;
}
static void hb_fence(int mo) {
  if (mo != 3) vjoin(vc[cur], vc_racq[cur]);
  if (mo >= 3) memcpy(vc_rrel[cur], vc[cur], sizeof vc[cur]), vc[cur][cur]++;
}
#define HB_LOAD(a, mo) if (plain_mode & PM_DETECT) hb_load((uintptr_t)(a), mo)
#define HB_STORE(a, mo) if (plain_mode & PM_DETECT) hb_store((uintptr_t)(a), mo)
#define HB_RMW(a, mo) if (plain_mode & PM_DETECT) hb_load((uintptr_t)(a), mo), hb_store((uintptr_t)(a), mo)
static int is_racy(uintptr_t pc) {
  for (u32 i = 0; i < racy->n; i++)
    if (racy->pc[i] == pc) return 1;
  return 0;
}
static void add_racy(uintptr_t pc) {
  if (racy->n < MAXRACY && !is_racy(pc)) racy->pc[racy->n++] = pc;
}
static void shadow_word(uintptr_t w, u8 bytes, int write, uintptr_t pc) {
  u32 h = (u32)(w * 2654435761u) % SHADOW;
  for (int k = 0;; k++, h = (h + 1) % SHADOW) {
    if (k == 64) return;
    if (shadow[h].gen != hb_gen) {
      shadow[h].gen = hb_gen, shadow[h].w = w, shadow[h].at = 0;
      memset(shadow[h].r, 0, sizeof shadow[h].r);
    }
    if (shadow[h].w == w) break;
  }
  access_rec *own = 0;
  for (int i = 0; i < 4; i++) {
    access_rec *r = &shadow[h].r[i];
    if (!r->pc) continue;
    if (r->fiber == cur) {
      if (r->bytes == bytes && r->write == write) own = r;
    } else if ((r->bytes & bytes) && (r->write || write) && r->clock > vc[cur][r->fiber]) {
      if (getenv("MC_RACES")) dprintf(2, "race: %lx by %d and %lx by %d on %lx\n", r->pc - (uintptr_t)&__executable_start, r->fiber, pc - (uintptr_t)&__executable_start, cur, w << 3);
      add_racy(r->pc);
      add_racy(pc);
    }
  }
  if (!own) own = &shadow[h].r[shadow[h].at++ % 4];
  *own = (access_rec){(u8)cur, bytes, (u8)write, vc[cur][cur], pc};
}
static void shadow_free(uintptr_t a, size_t n) {
  if (n > 65536) n = 65536;
  for (uintptr_t w = a >> 3; w <= (a + n - 1) >> 3; w++) {
    u32 h = (u32)(w * 2654435761u) % SHADOW;
    for (int k = 0; k < 64 && shadow[h].gen == hb_gen; k++, h = (h + 1) % SHADOW)
      if (shadow[h].w == w) {
        memset(shadow[h].r, 0, sizeof shadow[h].r);
        break;
      }
  }
}
static void plain(uintptr_t a, size_t n, int write, uintptr_t pc) {
  if (!controlled() || !n) return;
  if ((plain_mode & PM_POINTS) && racy->n && is_racy(pc)) point(write ? K_WRITE : K_READ, a, pc);
  if (plain_mode & PM_DETECT)
    for (uintptr_t w = a >> 3; w <= (a + n - 1) >> 3 && w < (a >> 3) + 64; w++) {
      uintptr_t lo = w << 3 < a ? a & 7 : 0, hi = ((w + 1) << 3) > a + n ? (a + n) & 7 : 8;
      shadow_word(w, (u8)(((1u << hi) - 1) & ~((1u << lo) - 1)), write, pc);
    }
}
static void hb_gate(int i) {
  if (!(plain_mode & PM_DETECT) || !controlled()) return;
  vjoin(vc[i], vc[cur]);
  vc[cur][cur]++;
}
// Starts over: no access is known to race.  Returns how many are.
u32 mc_plain(int mode) {
  u32 pid = (u32)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
  if (mode == 0 && (!racy || racy->owner != pid)) {
    racy = mmap(0, sizeof *racy, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (racy == MAP_FAILED) fatal("mmap");
    racy->owner = pid;
  }
  if (mode == 0) racy->n = 0;
  plain_mode = mode;
  return racy->n;
}
#define PLAIN(N)                                                                                                       \
  void __tsan_read##N(void *a) { if (plain_mode) plain((uintptr_t)a, N, 0, PC); }                                      \
  void __tsan_write##N(void *a) { if (plain_mode) plain((uintptr_t)a, N, 1, PC); }                                     \
  void __tsan_unaligned_read##N(void *a) { if (plain_mode) plain((uintptr_t)a, N, 0, PC); }                            \
  void __tsan_unaligned_write##N(void *a) { if (plain_mode) plain((uintptr_t)a, N, 1, PC); }
void *mc_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { return memset(d, c, n); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (plain_mode) plain((uintptr_t)s, n, 0, PC), plain((uintptr_t)d, n, 1, PC);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (plain_mode) plain((uintptr_t)s, n, 0, PC), plain((uintptr_t)d, n, 1, PC);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (plain_mode) plain((uintptr_t)d, n, 1, PC);
  return memset(d, c, n);
}

#define OPS(N, T)                                                                                                      \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) {                                                             \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_load(PC, (uintptr_t)a);                                                                                      \
      T v = *a;                                                                                                        \
      note_load(PC, (uintptr_t)a, (u64)v);                                                                             \
      HB_LOAD(a, mo);                                                                                                  \
      return v;                                                                                                        \
    }                                                                                                                  \
    return __atomic_load_n(a, 5);                                                                                      \
  }                                                                                                                    \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) {                                                          \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_write(PC, (uintptr_t)a);                                                                                     \
      T o = *a;                                                                                                        \
      __atomic_store_n(a, v, 5);                                                                                       \
      if (o != v) changed((uintptr_t)a);                                                                               \
      HB_STORE(a, mo);                                                                                                 \
      return;                                                                                                          \
    }                                                                                                                  \
    __atomic_store_n(a, v, 5);                                                                                         \
  }                                                                                                                    \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) {                                                          \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_write(PC, (uintptr_t)a);                                                                                     \
      T o = __atomic_exchange_n(a, v, 5);                                                                            \
      if (*a != o) changed((uintptr_t)a);                                                                              \
      HB_RMW(a, mo);                                                                                                   \
      return o;                                                                                                        \
    }                                                                                                                  \
    return __atomic_exchange_n(a, v, 5);                                                                               \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) {                                                         \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_write(PC, (uintptr_t)a);                                                                                     \
      T o = __atomic_fetch_add(a, v, 5);                                                                            \
      if (*a != o) changed((uintptr_t)a);                                                                              \
      HB_RMW(a, mo);                                                                                                   \
      return o;                                                                                                        \
    }                                                                                                                  \
    return __atomic_fetch_add(a, v, 5);                                                                                \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) {                                                         \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_write(PC, (uintptr_t)a);                                                                                     \
      T o = __atomic_fetch_sub(a, v, 5);                                                                            \
      if (*a != o) changed((uintptr_t)a);                                                                              \
      HB_RMW(a, mo);                                                                                                   \
      return o;                                                                                                        \
    }                                                                                                                  \
    return __atomic_fetch_sub(a, v, 5);                                                                                \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) {                                                         \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_write(PC, (uintptr_t)a);                                                                                     \
      T o = __atomic_fetch_and(a, v, 5);                                                                            \
      if (*a != o) changed((uintptr_t)a);                                                                              \
      HB_RMW(a, mo);                                                                                                   \
      return o;                                                                                                        \
    }                                                                                                                  \
    return __atomic_fetch_and(a, v, 5);                                                                                \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) {                                                          \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_write(PC, (uintptr_t)a);                                                                                     \
      T o = __atomic_fetch_or(a, v, 5);                                                                            \
      if (*a != o) changed((uintptr_t)a);                                                                              \
      HB_RMW(a, mo);                                                                                                   \
      return o;                                                                                                        \
    }                                                                                                                  \
    return __atomic_fetch_or(a, v, 5);                                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) {                                                         \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_write(PC, (uintptr_t)a);                                                                                     \
      T o = __atomic_fetch_xor(a, v, 5);                                                                            \
      if (*a != o) changed((uintptr_t)a);                                                                              \
      HB_RMW(a, mo);                                                                                                   \
      return o;                                                                                                        \
    }                                                                                                                  \
    return __atomic_fetch_xor(a, v, 5);                                                                                \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) {                                                        \
    (void)mo;                                                                                                          \
    if (controlled()) {                                                                                                \
      pre_write(PC, (uintptr_t)a);                                                                                     \
      T o = __atomic_fetch_nand(a, v, 5);                                                                            \
      if (*a != o) changed((uintptr_t)a);                                                                              \
      HB_RMW(a, mo);                                                                                                   \
      return o;                                                                                                        \
    }                                                                                                                  \
    return __atomic_fetch_nand(a, v, 5);                                                                               \
  }                                                                                                                    \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                                \
    (void)mo, (void)fmo;                                                                                               \
    if (controlled()) {                                                                                                \
      pre_cas(PC, (uintptr_t)a);                                                                                       \
      T e = c;                                                                                                         \
      if (__atomic_compare_exchange_n(a, &e, v, 0, 5, 5)) {                                                            \
        fib[cur].repeat = 0, fib[cur].last_pc = 0;                                                                     \
        if (c != v) changed((uintptr_t)a);                                                                             \
        HB_RMW(a, mo);                                                                                                 \
      } else {                                                                                                         \
        note_load(PC, (uintptr_t)a, (u64)e);                                                                           \
        HB_LOAD(a, fmo);                                                                                               \
      }                                                                                                                \
      return e;                                                                                                        \
    }                                                                                                                  \
    T e = c;                                                                                                           \
    __atomic_compare_exchange_n(a, &e, v, 0, 5, 5);                                                                    \
    return e;                                                                                                          \
  }
OPS(8, u8)
OPS(16, u16)
OPS(32, u32)
OPS(64, u64)

// ---- raw system calls ------------------------------------------------------------------------------------------------
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long fix(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && active && cur >= 0) {
    int op = (int)b & 127;
    fiber *me = &fib[cur];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      me->repeat = 0;
      me->last_pc = 0;
      point(K_WRITE, (uintptr_t)a, PC);
      HB_LOAD(a, 2); // what std does next about the word is not instrumented
      if (*(volatile u32 *)a != (u32)c) {
        errno = EAGAIN;
        return -1;
      }
      me->state = F_BLOCKED;
      me->futex = (uintptr_t)a;
      me->kind = K_WRITE; // when woken: re-examines the word
      me->addr = (uintptr_t)a;
      me->pc = PC;
      schedule(cur);
      HB_LOAD(a, 2);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      HB_STORE(a, 3);
      int woken = 0;
      // All waiters are woken (futexes allow spurious wake-ups, and every user re-checks its word).
      for (int i = 0; i < nf; i++)
        if (fib[i].state == F_BLOCKED && fib[i].futex == (uintptr_t)a) fib[i].state = F_READY, woken++;
      return woken;
    }
    fatal("unexpected futex operation");
  }
  return fix(raw6(n, a, b, c, d, e, f));
}

int sched_yield(void) {
  if (controlled()) {
    fib[cur].repeat = 0;
    point(K_YIELD, 0, PC);
    return 0;
  }
  return (int)fix(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}

// ---- virtual clock ---------------------------------------------------------------------------------------------------
static int vclock_on;
static __int128 vmono, vreal; // nanoseconds
static u64 clock_reads;
void mc_clock_enable(int on) { vclock_on = on; }
void mc_clock_set(int64_t mono, int64_t real) { vmono = mono, vreal = real; }
int64_t mc_clock_mono(void) { return (int64_t)vmono; }
// Whole seconds beyond what fits nanoseconds in 64 bits.
void mc_clock_far(int64_t mono_s, int64_t real_s) { vmono += (__int128)mono_s * 1000000000, vreal += (__int128)real_s * 1000000000; }
u64 mc_clock_reads(void) { return clock_reads; }
// Advances both clocks; a visible event when called from a fiber.
void mc_clock_advance(int64_t ns) {
  if (controlled()) pre_write(PC, (uintptr_t)&vmono);
  vmono += ns;
  vreal += ns;
  if (active && cur >= 0) changed((uintptr_t)&vmono);
}
// Steps the wall clock only (what an administrator or NTP does).
void mc_clock_step_wall(int64_t ns) {
  if (controlled()) pre_write(PC, (uintptr_t)&vmono);
  vreal += ns;
  if (active && cur >= 0) changed((uintptr_t)&vmono);
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (vclock_on && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_BOOTTIME || id == CLOCK_REALTIME_COARSE ||
                    id == CLOCK_MONOTONIC_COARSE || id == CLOCK_MONOTONIC_RAW)) {
    clock_reads++;
    if (controlled()) pre_load(PC, (uintptr_t)&vmono);
    __int128 t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? vreal : vmono;
    int64_t s = (int64_t)(t / 1000000000), ns = (int64_t)(t % 1000000000);
    if (ns < 0) ns += 1000000000, s--;
    ts->tv_sec = s;
    ts->tv_nsec = ns;
    return 0;
  }
  return (int)fix(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
  if (vclock_on || controlled()) {
    if (!(flags & TIMER_ABSTIME)) mc_clock_advance(rq->tv_sec * 1000000000LL + rq->tv_nsec);
    if (controlled()) point(K_YIELD, 0, PC);
    return 0;
  }
  return (int)-raw6(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm, 0, 0);
}

// Seeds of hash maps: fixed.
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  (void)flags;
  for (size_t i = 0; i < n; i++) ((u8 *)buf)[i] = (u8)(i * 37 + 11);
  return (ssize_t)n;
}

// ---- /proc/self under the checker's control --------------------------------------------------------------------------
// Sources: 0 stat, 1 limits, 2 status, 3 fd (a directory), 4 anything else below /proc/self.
// Mode 0: the real thing; 1: the given contents; 2: missing; 3: a directory instead of a file; 4: an empty directory.
enum { P_STAT, P_LIMITS, P_STATUS, P_FD, P_OTHER, P_N };
static struct {
  int mode;
  const u8 *data;
  size_t len;
} psrc[P_N];
static int proc_on;
static u8 fd_src[1024];   // 1 + source of an open descriptor
static DIR *fd_dir[16];
static int fd_dir_empty[16];
static size_t proc_chunk; // longest read, 0: no limit
static struct { u32 at; int err; } pfault[2];
static u32 proc_ops;
static u8 proc_log[4096]; // source of each operation
void mc_proc_enable(int on) {
  proc_on = on;
  proc_ops = 0;
  proc_chunk = 0;
  memset(pfault, 0, sizeof pfault);
  memset(psrc, 0, sizeof psrc);
}
void mc_proc_source(int src, int mode, const u8 *data, size_t len) { psrc[src].mode = mode, psrc[src].data = data, psrc[src].len = len; }
// The at-th operation (from 1) fails with err; counting restarts.
void mc_proc_fault(int i, u32 at, int err) { pfault[i].at = at, pfault[i].err = err, proc_ops = 0; }
void mc_proc_chunk(size_t n) { proc_chunk = n; }
u32 mc_proc_ops(const u8 **log) { if (log) *log = proc_log; return proc_ops; }
static int proc_source(const char *p) {
  char own[64];
  if (!proc_on) return -1;
  snprintf(own, sizeof own, "/proc/%d/", (int)getpid());
  const char *r = 0;
  if (!strncmp(p, "/proc/self/", 11)) r = p + 11;
  else if (!strncmp(p, "/proc/thread-self/", 18)) r = p + 18;
  else if (!strncmp(p, own, strlen(own))) r = p + strlen(own);
  if (!r) return -1;
  if (!strcmp(r, "stat")) return P_STAT;
  if (!strcmp(r, "limits")) return P_LIMITS;
  if (!strcmp(r, "status")) return P_STATUS;
  if (!strcmp(r, "fd") || !strcmp(r, "fd/")) return P_FD;
  return P_OTHER;
}
// Counts an operation on a source; the error it must fail with, or 0.
static int proc_op(int src) {
  if (proc_ops < sizeof proc_log) proc_log[proc_ops] = (u8)src;
  proc_ops++;
  for (int i = 0; i < 2; i++)
    if (pfault[i].at == proc_ops) return pfault[i].err;
  return 0;
}
static int do_open(int dfd, const char *path, int flags, mode_t m) {
  int src = proc_source(path);
  if (src < 0) return (int)fix(raw6(SYS_openat, dfd, (long)path, flags, m, 0, 0));
  int e = proc_op(src);
  if (!e && psrc[src].mode == 2) e = ENOENT;
  if (e) {
    errno = e;
    return -1;
  }
  int fd;
  if (psrc[src].mode == 1) {
    fd = (int)fix(raw6(SYS_memfd_create, (long)"proc", MFD_CLOEXEC, 0, 0, 0, 0));
    if (fd >= 0) {
      raw6(SYS_write, fd, (long)psrc[src].data, (long)psrc[src].len, 0, 0, 0);
      raw6(SYS_lseek, fd, 0, SEEK_SET, 0, 0, 0);
    }
  } else if (psrc[src].mode == 3) {
    fd = (int)fix(raw6(SYS_openat, AT_FDCWD, (long)"/", O_RDONLY | O_CLOEXEC, 0, 0, 0));
  } else {
    fd = (int)fix(raw6(SYS_openat, dfd, (long)path, flags, m, 0, 0));
  }
  if (fd >= 0 && fd < 1024) fd_src[fd] = (u8)(src + 1);
  return fd;
}
#define OPENFN(name)                                                                                                   \
  int name(const char *path, int flags, ...) {                                                                         \
    va_list ap;                                                                                                        \
    va_start(ap, flags);                                                                                               \
    mode_t m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0;                                             \
    va_end(ap);                                                                                                        \
    return do_open(AT_FDCWD, path, flags, m);                                                                          \
  }
OPENFN(open)
OPENFN(open64)
ssize_t read(int fd, void *buf, size_t n) {
  if (proc_on && fd >= 0 && fd < 1024 && fd_src[fd]) {
    int e = proc_op(fd_src[fd] - 1);
    if (e) {
      errno = e;
      return -1;
    }
    if (proc_chunk && n > proc_chunk) n = proc_chunk;
  }
  return (ssize_t)fix(raw6(SYS_read, fd, (long)buf, (long)n, 0, 0, 0));
}
int close(int fd) {
  if (fd >= 0 && fd < 1024) fd_src[fd] = 0;
  return (int)fix(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
DIR *opendir(const char *path) {
  static DIR *(*real)(const char *);
  if (!real) real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
  int src = proc_source(path);
  if (src < 0) return real(path);
  int e = proc_op(src);
  if (!e && psrc[src].mode == 2) e = ENOENT;
  if (e) {
    errno = e;
    return 0;
  }
  DIR *d = real(path);
  for (int i = 0; d && i < 16; i++)
    if (!fd_dir[i]) {
      fd_dir[i] = d;
      fd_dir_empty[i] = psrc[src].mode == 4;
      break;
    }
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  static struct dirent64 *(*real)(DIR *);
  if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
  for (int i = 0; i < 16; i++)
    if (fd_dir[i] == d) {
      int e = proc_on ? proc_op(P_FD) : 0;
      if (e) {
        errno = e;
        return 0;
      }
      if (fd_dir_empty[i]) return 0;
    }
  return real(d);
}
int closedir(DIR *d) {
  static int (*real)(DIR *);
  if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
  for (int i = 0; i < 16; i++)
    if (fd_dir[i] == d) fd_dir[i] = 0;
  return real(d);
}
// Threads and descriptors for histories against the real kernel.
static int thr_pipe[64][2];
static pthread_t thr_id[64];
static void *thr_body(void *a) {
  char c;
  int *p = a;
  while (raw6(SYS_read, p[0], (long)&c, 1, 0, 0, 0) == -EINTR) {}
  return 0;
}
int mc_thread_start(int i) {
  if (raw6(SYS_pipe2, (long)thr_pipe[i], O_CLOEXEC, 0, 0, 0, 0)) return -1;
  return pthread_create(&thr_id[i], 0, thr_body, thr_pipe[i]) ? -1 : 0;
}
static int tasks(void) {
  int n = 0;
  static DIR *(*real)(const char *);
  if (!real) real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
  DIR *d = real("/proc/self/task");
  if (!d) return -1;
  while (1) {
    struct dirent *e = readdir(d);
    if (!e) break;
    if (e->d_name[0] != '.') n++;
  }
  closedir(d);
  return n;
}
int mc_tasks(void) { return tasks(); }
void mc_thread_stop(int i) {
  int before = tasks();
  raw6(SYS_write, thr_pipe[i][1], (long)"x", 1, 0, 0, 0);
  pthread_join(thr_id[i], 0);
  raw6(SYS_close, thr_pipe[i][0], 0, 0, 0, 0, 0);
  raw6(SYS_close, thr_pipe[i][1], 0, 0, 0, 0, 0);
  for (int k = 0; k < 1000 && tasks() >= before; k++) usleep(1000); // the kernel may list it a moment longer
}
static int fd_scan = 4096; // how far descriptors are looked for
void mc_fd_scan(int n) { fd_scan = n; }
int mc_count_fds(void) {
  int n = 0;
  for (int i = 0; i < fd_scan; i++)
    if (raw6(SYS_fcntl, i, F_GETFD, 0, 0, 0, 0) >= 0) n++;
  return n;
}
int mc_fd_open(void) { return (int)raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY | O_CLOEXEC, 0, 0, 0); }
void mc_fd_close(int fd) { raw6(SYS_close, fd, 0, 0, 0, 0, 0); }
// Opens descriptors until n are open, each time at the greatest number below `below`, if given.  Returns how many were opened.
int mc_fds_fill(int n, int below, int *out) {
  int k = 0;
  for (int have = mc_count_fds(); have < n; have++) {
    int fd = mc_fd_open();
    if (fd < 0) break;
    if (below) {
      int to = --below;
      if (raw6(SYS_dup3, fd, to, O_CLOEXEC, 0, 0, 0) != to) {
        mc_fd_close(fd);
        break;
      }
      mc_fd_close(fd);
      fd = to;
    }
    out[k++] = fd;
  }
  return k;
}
int mc_soft_fds(u64 set, u64 *cur, u64 *max) {
  struct rlimit r;
  if (getrlimit(RLIMIT_NOFILE, &r)) return -1;
  if (cur) *cur = r.rlim_cur;
  if (max) *max = r.rlim_max;
  if (set) {
    r.rlim_cur = set;
    return setrlimit(RLIMIT_NOFILE, &r);
  }
  return 0;
}
void mc_set_comm(const char *s) { prctl(PR_SET_NAME, s, 0, 0, 0); }
// A buffer of the kernel's own words, read without going through the functions above.
long mc_slurp(const char *path, u8 *buf, size_t n) {
  long fd = raw6(SYS_openat, AT_FDCWD, (long)path, O_RDONLY | O_CLOEXEC, 0, 0, 0), t = 0, r;
  if (fd < 0) return fd;
  while (t < (long)n && (r = raw6(SYS_read, fd, (long)(buf + t), (long)(n - (size_t)t), 0, 0, 0)) > 0) t += r;
  raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  return t;
}

// ---- deterministic allocator -----------------------------------------------------------------------------------------
// Size classes, LIFO free lists (so a freed address is reused at once, which real allocators also do), or, in
// quarantine mode, no reuse: a freed block stays poisoned until quarantine ends.  Single OS thread: no locking.
#define ARENA (3ull << 30)
#define NCLS 64
static u8 *arena, *bump, *arena_end;
typedef struct hdr {
  u64 size_cls; // class index
  u64 live;     // 1 live, 0 free
} hdr;
static void *freelist[NCLS];
static int quarantine;
static void *qhead; // blocks freed during quarantine, linked through the header-adjacent payload
static u64 live_blocks, live_bytes;
static size_t cls_size(int c) { return c < 32 ? (size_t)16 * (c + 1) : (size_t)1024 << (c - 32); }
static int cls_of(size_t n) {
  if (n <= 512) return n ? (int)((n + 15) / 16) - 1 : 0;
  int c = 32;
  while (cls_size(c) < n) c++;
  return c;
}
void *mc_alloc(size_t size, size_t align) {
  if (!arena) {
    arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) fatal("arena");
    bump = arena;
    arena_end = arena + ARENA;
  }
  if (align > 16) size += align; // payloads are 16-aligned; over-aligned ones get slack (header kept in front)
  int c = cls_of(size);
  u8 *p = freelist[c];
  if (p) {
    freelist[c] = *(void **)p;
  } else {
    size_t n = cls_size(c) + 16;
    if (bump + n > arena_end) return 0;
    p = bump + 16;
    bump += n;
  }
  ((hdr *)(p - 16))->size_cls = (u64)c;
  ((hdr *)(p - 16))->live = 1;
  live_blocks++;
  live_bytes += cls_size(c);
  if (align > 16) {
    u8 *q = (u8 *)(((uintptr_t)p + align) & ~(uintptr_t)(align - 1));
    // q - p >= 16: remember the true start
    ((hdr *)(q - 16))->size_cls = (u64)(uintptr_t)p;
    ((hdr *)(q - 16))->live = 2;
    return q;
  }
  return p;
}
void mc_free(void *ptr, size_t align) {
  u8 *p = ptr;
  if (align > 16) p = (u8 *)(uintptr_t)((hdr *)(p - 16))->size_cls;
  hdr *h = (hdr *)(p - 16);
  if (h->live != 1) { // of the code under test: a violation, as a crash
    dprintf(2, "mc runtime: double free\n");
    raw6(SYS_kill, raw6(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGABRT, 0, 0, 0, 0);
    _exit(99);
  }
  h->live = 0;
  live_blocks--;
  int c = (int)h->size_cls;
  live_bytes -= cls_size(c);
  if (plain_mode & PM_DETECT) shadow_free((uintptr_t)p, cls_size(c));
  if (quarantine) {
    memset(p, 0x5a, cls_size(c));
    *(void **)p = qhead;
    qhead = p;
    return;
  }
  *(void **)p = freelist[c];
  freelist[c] = p;
}
size_t mc_usable(void *ptr, size_t align) {
  u8 *p = ptr;
  if (align > 16) return 0;
  return cls_size((int)((hdr *)(p - 16))->size_cls);
}
void mc_quarantine(int on) {
  quarantine = on;
  if (!on) {
    while (qhead) {
      u8 *p = qhead;
      qhead = *(void **)p;
      int c = (int)((hdr *)(p - 16))->size_cls;
      *(void **)p = freelist[c];
      freelist[c] = p;
    }
  }
}
// 1 if [ptr, ptr+n) lies in a block that was freed during the current quarantine.
int mc_in_freed(const void *ptr, size_t n) {
  const u8 *a = ptr;
  for (u8 *p = qhead; p; p = *(void **)p) {
    size_t sz = cls_size((int)((hdr *)(p - 16))->size_cls);
    if (a < p + sz && a + n > p) return 1;
  }
  return 0;
}
u64 mc_live_blocks(void) { return live_blocks; }
u64 mc_live_bytes(void) { return live_bytes; }

int64_t mc_real_ns(void) {
  struct timespec ts;
  raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
  return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}
// ---- worker processes ------------------------------------------------------------------------------------------------
void *mc_shared(size_t n) {
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return p == MAP_FAILED ? 0 : p;
}
