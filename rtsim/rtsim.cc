// Run-time simulator: executes generated (instrumented) programs with real threads and processes of which exactly one runs
// at any time. A seeded scheduler decides every interleaving, environment fault, file system fault, crash and stall.
//
// Two levels of scheduling:
//  - macro: driver operations (sim.h) are executed only when every live thread of the process has arrived at one; which of
//    them are executed, in which order, and their outcome is drawn from the macro stream. Original and instrumented program
//    therefore see the same macro schedule as long as they behave the same.
//  - micro: between driver operations the released threads interleave at every memory access, atomic operation, function
//    entry (compiler instrumentation, -fsanitize=thread with this runtime), selected libc call, and system call (seccomp
//    traps). Drawn from the micro stream, or given explicitly (replay and minimisation).
// A vector-clock race detector watches all instrumented accesses.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <atomic>
#include <exception>
#include <string>
#include <vector>
#include "sim.h"

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint64_t u64;
typedef uint32_t u32;

// ------------------------------------------------------------------ raw system calls (exempt from the trap filter)
extern "C" long raw6(long n, long a, long b, long c, long d, long e, long f);
extern "C" char raw6_begin[], raw6_end[];
asm(".text\n.globl raw6_begin\nraw6_begin:\n.globl raw6\n.type raw6,@function\nraw6:\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nret\n"
    ".globl raw6_end\nraw6_end:\n");
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return raw6(n, a, b, c, d, e, f); }

// ------------------------------------------------------------------ shared state of one run
enum { MAXP = 4, MAXT = 16, MAIN = 15 };
enum { NONE, RUNNABLE, ATOP, DONE, STALLED, DEAD };
enum { OP_START, OP_END, OP_OBS, OP_OBSD, OP_OBSS, OP_ENV, OP_CELL, OP_LOCK, OP_UNLOCK, OP_SPAWN, OP_EXIT, OP_ALLOC, OP_EXC, OP_SIG, OP_DEADLOCK, OP_HANG };
static const char *opname[] = {"start", "end", "obs", "obsd", "obss", "env", "cell", "lock", "unlock", "spawn", "exit", "alloc", "exc", "signal", "deadlock", "hang"};

struct Slot {
  int state, go, op;
  long a, b, res;
  int err;
  int nops;
  int ticks;
  int waiting;  // yielding inside a futex/mutex wait
};
struct Ev { short p, t, op; short nops; long a, b, r; };
struct Race { u64 addr; short t1, t2, w1, w2; u64 pc1, pc2; short known; };
struct Fired { int idx; int kind; long arg; int nr; };
struct Sw { u64 step; int to; };
struct Cov { short t; short nops; int g; short end; };
struct Plan { int p, idx, kind; long arg; };  // file fault: process, index of tracking system call (-1: from idx on), kind
enum { F_ERR, F_SHORT, F_STICKY, F_CRASH, F_CRASHAFTER };

struct Run {
  // configuration
  u64 macro_seed, micro_seed;
  int nproc, nthreads;
  int p0, p1;                // switch probability per 65536: ordinary points, interesting points
  int explicit_mode, seqmacro;
  int envfault;              // probability of an environment fault, percent
  int fuel;
  long stepcap;
  long crash_step[MAXP];     // -1: none
  int stall_proc, stall_thread; long stall_step;
  int filefault_pct;         // random tracking file faults, percent of tracking system calls
  int filefault_kinds;
  int strtok_isolated;
  int opcap;                 // operations per thread after which the thread counts as hung
  int nref; int ref[64];     // mutants selected in a reference program
  int nplan; Plan plan[32];
  int nexp; Sw exp[8192];
  char track[256];
  // state
  u64 micro;
  u64 macro[MAXP];
  u64 gsteps;
  Slot s[MAXP * MAXT];
  int procdone[MAXP];
  int status[MAXP];          // 0 running, 1 finished, 2 crashed by plan, 3 signal, 4 deadlock, 5 hang, 6 exit op
  int finished;              // futex
  int iexp;
  int stalled_slot;
  // records
  int nev; Ev ev[20000]; char strs[65536]; int nstrs;
  int nrace; Race race[64];
  int nfired; Fired fired[512];
  int nsw; Sw sw[8192];
  int ncov; Cov cov[40000];
  int nsys[MAXP];            // tracking system calls
  int nopen[MAXP], nclose[MAXP];
  int held[MAXP];            // program operations performed while the same thread held a tracking descriptor
  int nout[MAXP];            // writes to anything but the tracking file
  int nwait, waitstall, nmutex, strtok_race, strtok_clobber;
  u64 hash;
  int errflag; char errmsg[200];
  u64 nswitch;
  int npreempt_instr;
};
static Run *R;
static int P;                       // my process index
static __thread Slot *me;
static __thread int mytid = -1;
static __thread int insim;          // nesting guard
static int fdtrack[1024];            // 1 + thread that opened the tracking file under this descriptor
static void *so;
static void (*thread_fn)(int);

static u64 rnd(u64 &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull >> 11; }
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; x ^= x >> 31; return x ? x : 1; }
static void h(u64 x) { R->hash = (R->hash ^ x) * 1099511628211ull; }
static void fail(const char *m) { if (!R->errflag) { R->errflag = 1; snprintf(R->errmsg, sizeof R->errmsg, "%s", m); } }

static void fwait(int *f) { while (!__atomic_load_n(f, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)f, FUTEX_WAIT, 0, 0); __atomic_store_n(f, 0, __ATOMIC_SEQ_CST); }
static void fwake(int *f) { __atomic_store_n(f, 1, __ATOMIC_SEQ_CST); raw(SYS_futex, (long)f, FUTEX_WAKE, 1); }
static void finish() { fwake(&R->finished); }

static Ev *event(int p, int t, int op, long a, long b, long r) {
  if (R->nev >= 19990 && op != OP_HANG && R->nev < 19999) { fail("event buffer full"); }
  if (R->nev >= 20000) return &R->ev[19999];
  Ev *e = &R->ev[R->nev++];
  *e = {(short)p, (short)t, (short)op, (short)R->s[p * MAXT + t].nops, a, b, r};
  h(p * 16 + t); h(op); h(a); h(b); h(r);
  return e;
}

// ------------------------------------------------------------------ race detector (per process)
struct VC { u32 c[MAXT]; };
static VC vc[MAXT];
static VC lockvc[16], cellvc[64];
struct Acc { u32 clk; unsigned char tid, mask, write, atomic; u64 pc; };
struct Cell { u64 key; int n; Acc a[8]; VC *sync; };
enum { NCELL = 1 << 17 };
static Cell *cells;
static VC *syncpool; static int nsync;
static Cell *cell(u64 k, bool make) {
  u64 i = mix(k) & (NCELL - 1);
  for (int n = 0; n < 4000; n++, i = (i + 1) & (NCELL - 1)) {
    if (cells[i].key == k + 1) return &cells[i];
    if (!cells[i].key) { if (!make) return nullptr; cells[i].key = k + 1; return &cells[i]; }
  }
  return nullptr;
}
static void join(VC &d, const VC &s) { for (int i = 0; i < MAXT; i++) if (s.c[i] > d.c[i]) d.c[i] = s.c[i]; }
static void report_race(u64 addr, Acc &o, Acc &n, int known) {
  for (int i = 0; i < R->nrace; i++) { Race &r = R->race[i]; if (r.pc1 == o.pc && r.pc2 == n.pc && r.addr == addr) return; }
  if (R->nrace < 64) R->race[R->nrace++] = {addr, o.tid, n.tid, o.write, n.write, o.pc, n.pc, (short)known};
  h(addr); h(o.pc); h(n.pc);
}
static void access1(u64 granule, int mask, bool w, bool at, u64 pc, int known = 0) {
  Cell *c = cell(granule, true);
  if (!c) { fail("shadow table full"); return; }
  Acc n = {vc[mytid].c[mytid], (unsigned char)mytid, (unsigned char)mask, w, at, pc};
  int slot = -1;
  for (int i = 0; i < c->n; i++) {
    Acc &o = c->a[i];
    if (o.tid != mytid && (o.mask & mask) && (o.write || w) && !(o.atomic && at) && o.clk > vc[mytid].c[o.tid]) report_race(granule << 3, o, n, known);
    if (o.tid == mytid && o.write == w && o.mask == mask && o.atomic == at) slot = i;
    else if (slot < 0 && (o.clk <= vc[mytid].c[o.tid]) && o.tid == mytid && (o.mask | mask) == mask && (o.write <= w) && o.atomic == at) slot = i;
  }
  if (slot < 0) { if (c->n < 8) slot = c->n++; else { for (int i = 0; i < 8; i++) if (c->a[i].clk <= vc[mytid].c[c->a[i].tid]) { slot = i; break; } if (slot < 0) slot = mytid & 7; } }
  c->a[slot] = n;
}
static void access_(u64 addr, unsigned size, bool w, bool at, u64 pc) {
  while (size) {
    unsigned off = addr & 7, n = 8 - off < size ? 8 - off : size;
    access1(addr >> 3, ((1 << n) - 1) << off, w, at, pc);
    addr += n; size -= n;
  }
}
static void forget(u64 addr, u64 size) {
  if (!cells) return;
  for (u64 g = addr >> 3; g <= (addr + size - 1) >> 3; g++) if (Cell *c = cell(g, false)) { c->n = 0; if (c->sync) memset(c->sync, 0, sizeof(VC)); }
}
static VC *syncvc(u64 addr) {
  Cell *c = cell(addr >> 3, true);
  if (!c) { static VC d; return &d; }
  if (!c->sync) { if (nsync >= 4096) { static VC d; return &d; } c->sync = &syncpool[nsync++]; }
  return c->sync;
}

// ------------------------------------------------------------------ scheduling
static void die(int status) {  // this process ends now (crash, signal, ...); pass the baton on
  R->status[P] = status;
  for (int t = 0; t < MAXT; t++) { Slot &s = R->s[P * MAXT + t]; if (s.state != NONE && s.state != DONE) s.state = DEAD; }
}
static void note_switch(int to) { if (R->nsw < 8192) R->sw[R->nsw++] = {R->gsteps, to}; h(R->gsteps); h(to); R->nswitch++; }

static bool enabled(Slot &s, int p);
static void perform(int p, int t);
static int *locks() { static int l[16]; return l; }  // holder+1, per process
static int macro_round();

static int runnable(int *out, bool nowait) {
  int n = 0;
  for (int i = 0; i < R->nproc * MAXT; i++) if (R->s[i].state == RUNNABLE && !(nowait && R->s[i].waiting)) out[n++] = i;
  return n;
}
static int choose(int *c, int n) {
  if (R->explicit_mode) {
    while (R->iexp < R->nexp && R->exp[R->iexp].step < R->gsteps) R->iexp++;
    if (R->iexp < R->nexp && R->exp[R->iexp].step == R->gsteps) {
      int to = R->exp[R->iexp].to;
      for (int i = 0; i < n; i++) if (c[i] == to) return to;
    }
    return c[0];
  }
  return c[rnd(R->micro) % n];
}
// The calling thread cannot continue (or gives up the processor); transfers control. Returns when scheduled again.
static void handover(int self) {
  int c[MAXP * MAXT];
  int n = runnable(c, true);
  if (!n) n = runnable(c, false);
  if (!n) { finish(); if (self >= 0) fwait(&R->s[self].go); return; }
  int to = choose(c, n);
  note_switch(to);
  if (to == self) return;
  fwake(&R->s[to].go);
  if (self >= 0) fwait(&R->s[self].go);
}
static void proc_over() {  // the whole process is gone: let the others continue and leave
  handover(-1);
  raw(SYS_exit_group, 0);
  for (;;) ;
}
static void maybe_unstall() {
  if (R->stalled_slot >= 0 && R->stalled_slot / MAXT == P) {
    Slot &s = R->s[R->stalled_slot];
    if (s.state == STALLED) s.state = RUNNABLE;
    R->stalled_slot = -1;
    R->stall_step = -1;
  }
}
// Called by the running thread after it has changed its own state; runs macro rounds when its process is quiescent.
static void progress() {
  for (int guard = 0; guard < 100000; guard++) {
    int live = 0, run = 0, wait = 0, stalled = 0;
    for (int t = 0; t < MAXT; t++) {
      Slot &s = R->s[P * MAXT + t];
      if (s.state == RUNNABLE) { if (s.waiting) wait++; else run++; }
      if (s.state == ATOP) live++;
      if (s.state == STALLED) stalled++;
    }
    if (run) return;
    if (wait) {
      // every other thread is at an operation: a waiting thread can only be waiting for a stalled one
      if (stalled) { R->waitstall++; maybe_unstall(); return; }
      return;
    }
    if (!live) {
      if (stalled) { maybe_unstall(); return; }
      if (!R->procdone[P]) {
        R->procdone[P] = 1;
        Slot &m = R->s[P * MAXT + MAIN];
        m.state = RUNNABLE;
      }
      return;
    }
    if (macro_round()) continue;
    if (stalled) { maybe_unstall(); return; }
    event(P, 0, OP_DEADLOCK, 0, 0, 0);
    die(4);
    proc_over();
  }
}
static int macro_round() {
  int c[MAXT], n = 0;
  for (int t = 0; t < MAXT; t++) if (R->s[P * MAXT + t].state == ATOP && enabled(R->s[P * MAXT + t], P)) c[n++] = t;
  if (!n) return 0;
  u64 &m = R->macro[P];
  int k = 1;
  if (!R->seqmacro) {
    k = 1 + rnd(m) % n;
    if (rnd(m) % 3 == 0) k = n;
    for (int i = 0; i < n; i++) { int j = i + rnd(m) % (n - i); int x = c[i]; c[i] = c[j]; c[j] = x; }
  }
  for (int i = 0; i < k; i++) {
    Slot &s = R->s[P * MAXT + c[i]];
    if (!enabled(s, P)) continue;
    if (s.op == OP_EXIT && i) break;  // performed on its own, so that nothing runs concurrently with the end of the process
    perform(P, c[i]);
    s.nops++;
    s.state = s.op == OP_END ? DONE : RUNNABLE;
    if (s.op == OP_EXIT) break;
  }
  return 1;
}

static void point(int kind, u64 pc) {
  if (!me || insim) return;
  (void)pc;
  insim++;
  R->gsteps++;
  int self = me - R->s;
  if ((long)R->gsteps > R->stepcap) { event(P, mytid, OP_HANG, 0, 0, 0); die(5); proc_over(); }
  if (R->crash_step[P] >= 0 && (long)R->gsteps >= R->crash_step[P]) { R->crash_step[P] = -1; die(2); h(77); proc_over(); }
  if (R->stall_step >= 0 && R->stall_proc == P && R->stall_thread == mytid && (long)R->gsteps >= R->stall_step && R->stalled_slot < 0) {
    R->stalled_slot = self;
    me->state = STALLED;
    h(78);
    progress();
    handover(self);
    insim--;
    return;
  }
  bool sw;
  if (R->explicit_mode) {
    while (R->iexp < R->nexp && R->exp[R->iexp].step < R->gsteps) R->iexp++;
    sw = R->iexp < R->nexp && R->exp[R->iexp].step == R->gsteps;
  } else {
    int pr = kind ? R->p1 : R->p0;
    sw = pr && (int)(rnd(R->micro) & 0xffff) < pr;
  }
  if (sw) {
    int c[MAXP * MAXT], n = runnable(c, true);
    if (n > 1) {
      int to = choose(c, n);
      note_switch(to);
      if (to != self) {
        if (kind) R->npreempt_instr++;
        fwake(&R->s[to].go);
        fwait(&me->go);
      }
    }
  }
  insim--;
}

static long operation(int op, long a, long b) {
  if (!me) return 0;
  insim++;
  R->gsteps++;
  for (int i = 0; i < 64; i++) if (fdtrack[i] == mytid + 1) { R->held[P]++; break; }
  if (R->opcap && me->nops > R->opcap) { event(P, mytid, OP_HANG, 1, 0, 0); die(5); proc_over(); }
  me->op = op; me->a = a; me->b = b; me->res = 0; me->err = 0;
  me->state = ATOP;
  int self = me - R->s;
  progress();
  int e = 0;
  if (me->state == RUNNABLE) {
    // released in the same round: still let the micro schedule decide who goes first
    int c[MAXP * MAXT], n = runnable(c, true);
    int to = choose(c, n);
    note_switch(to);
    if (to != self) { fwake(&R->s[to].go); fwait(&me->go); }
  } else if (op == OP_END) {
    // Ended threads stay parked: real thread exit would run concurrently with the next thread (and with all signals blocked).
    if (me->state == DONE) handover(-1); else handover(self);
    for (;;) { static int never; raw(SYS_futex, (long)&never, FUTEX_WAIT, 0, 0); }
  } else {
    handover(self);
  }
  e = me->err;
  long r = me->res;
  insim--;
  if (e) errno = e;
  return r;
}

static pthread_key_t endkey;
static void end_thread(void *) { if (me) operation(OP_END, 0, 0); }
static void *thread_main(void *arg) {
  long t = (long)arg;
  mytid = t & 0xff;
  Slot *s = &R->s[P * MAXT + mytid];
  pthread_setspecific(endkey, s);
  fwait(&s->go);
  me = s;
  try {
    thread_fn(t >> 8);
  } catch (int x) {
    operation(OP_EXC, 1, x);
  } catch (std::exception &x) {
    operation(OP_EXC, 2, (long)strlen(x.what()));
  } catch (...) {
    operation(OP_EXC, 3, 0);
  }
  return nullptr;
}
static char *stackbase;
static void create_thread(int t, int fn) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, stackbase + (size_t)t * (1 << 20), 1 << 20);
  pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  pthread_t th;
  if (pthread_create(&th, &at, thread_main, (void *)(long)(t | fn << 8))) fail("pthread_create failed");
  pthread_attr_destroy(&at);
}

static bool enabled(Slot &s, int p) {
  (void)p;
  if (s.op == OP_LOCK) return locks()[s.a & 15] == 0;
  return true;
}
static const int env_errs[] = {EIO, EAGAIN, ENOENT, ENOMEM, EINTR};
static void perform(int p, int t) {
  Slot &s = R->s[p * MAXT + t];
  u64 &m = R->macro[p];
  switch (s.op) {
    case OP_LOCK: locks()[s.a & 15] = t + 1; join(vc[t], lockvc[s.a & 15]); break;
    case OP_UNLOCK: if (locks()[s.a & 15] == t + 1) locks()[s.a & 15] = 0; join(lockvc[s.a & 15], vc[t]); vc[t].c[t]++; break;
    case OP_CELL: {
      static long cellv[64];
      int i = s.a & 63;
      s.res = cellv[i];
      cellv[i] = (long)((u64)cellv[i] + (u64)s.b);
      join(vc[t], cellvc[i]); join(cellvc[i], vc[t]); vc[t].c[t]++;
      break;
    }
    case OP_ENV:
      if ((int)(rnd(m) % 100) < R->envfault) { s.res = -1; s.err = env_errs[rnd(m) % 5]; }
      else s.res = rnd(m) % 100;
      break;
    case OP_ALLOC:
      if ((int)(rnd(m) % 100) < R->envfault) { s.res = 0; s.err = ENOMEM; } else s.res = 1;
      break;
    case OP_SPAWN: {
      int nt = -1;
      for (int i = 0; i < MAIN; i++) if (R->s[p * MAXT + i].state == NONE) { nt = i; break; }
      if (nt >= 0 && nt < 12) {
        Slot &n = R->s[p * MAXT + nt];
        memset(&n, 0, sizeof n);
        n.state = RUNNABLE;
        vc[nt] = vc[t]; vc[nt].c[nt] = 1; vc[t].c[t]++;
        // the thread is created by the performing thread: it parks until scheduled
        int save = insim; Slot *sm = me; int st = mytid;
        create_thread(nt, (int)s.a);
        insim = save; me = sm; mytid = st;
        s.res = nt;
      } else s.res = -1;
      break;
    }
  }
  if (s.op == OP_START) return;
  if (s.op == OP_OBSS) {
    const char *str = (const char *)s.b;
    u64 hv = 0;
    for (int i = 0; str[i] && i < 200; i++) hv = hv * 131 + (unsigned char)str[i];
    event(p, t, s.op, s.a, (long)hv, 0);
    return;
  }
  event(p, t, s.op, s.a, s.b, s.op == OP_ALLOC ? s.res : s.res + (s.err ? 0 : 0));
}

EXPORT void sim_obs(int tag, long v) { operation(OP_OBS, tag, v); }
EXPORT void sim_obsd(int tag, double v) { long b; memcpy(&b, &v, 8); if (v != v) b = -7; operation(OP_OBSD, tag, b); }
EXPORT void sim_obss(int tag, const char *s) { operation(OP_OBSS, tag, (long)(s ? s : "(null)")); }
EXPORT long sim_env(int ch) { return operation(OP_ENV, ch, 0); }
EXPORT long sim_cell_add(int c, long v) { return operation(OP_CELL, c, v); }
EXPORT void sim_lock(int m) { operation(OP_LOCK, m, 0); }
EXPORT void sim_unlock(int m) { operation(OP_UNLOCK, m, 0); }
EXPORT void sim_spawn(int f) { operation(OP_SPAWN, f, 0); }
EXPORT void *sim_alloc(long n) {
  long r = operation(OP_ALLOC, n, 0);
  if (!r) return nullptr;
  int e = errno;
  void *p = calloc(1, n < 1 ? 1 : n > 65536 ? 65536 : n);
  errno = e;
  return p;
}
EXPORT void sim_exit(int code) { operation(OP_EXIT, code, 0); R->status[P] = 6; exit(code); }
EXPORT long sim_stop(int ch) { long e = sim_env(ch); if (e >= 0 && e % 4 == 0) sim_exit(10 + ch); return e; }
EXPORT long sim_throw(int ch) { long e = sim_env(ch); if (e >= 0 && e % 4 == 1) throw ch; return e; }
EXPORT int sim_tick(void) { if (!me) return 0; return ++me->ticks > R->fuel; }
static void cov(int g, int end) { if (!me) return; if (R->ncov < 40000) R->cov[R->ncov++] = {(short)mytid, (short)me->nops, g, (short)(end + 2 * P)}; else fail("coverage buffer full"); }
EXPORT int ref_on(int id) { for (int i = 0; i < R->nref; i++) if (R->ref[i] == id) return 1; return 0; }
EXPORT void sim_cov(int g) { cov(g, 0); }
EXPORT void sim_cove(int g) { cov(g, 1); }

// ------------------------------------------------------------------ compiler instrumentation
#define PC ((u64)__builtin_return_address(0))
static inline void acc(void *a, unsigned n, bool w, u64 pc) { if (!me || insim) return; point(0, pc); access_((u64)a, n, w, false, pc); }
#define RW(n) \
  EXPORT void __tsan_read##n(void *a) { acc(a, n, false, PC); } \
  EXPORT void __tsan_write##n(void *a) { acc(a, n, true, PC); } \
  EXPORT void __tsan_unaligned_read##n(void *a) { acc(a, n, false, PC); } \
  EXPORT void __tsan_unaligned_write##n(void *a) { acc(a, n, true, PC); } \
  EXPORT void __tsan_volatile_read##n(void *a) { acc(a, n, false, PC); } \
  EXPORT void __tsan_volatile_write##n(void *a) { acc(a, n, true, PC); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void *a) { acc(a, n, false, PC); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void *a) { acc(a, n, true, PC); } \
  EXPORT void __tsan_read_write##n(void *a) { acc(a, n, true, PC); } \
  EXPORT void __tsan_unaligned_read_write##n(void *a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) { point(0, 0); }
EXPORT void __tsan_func_exit() {}
EXPORT void __sanitizer_cov_trace_pc() { point(0, 0); }
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void __tsan_vptr_update(void **p, void *) { acc(p, 8, true, PC); }
EXPORT void __tsan_vptr_read(void **p) { acc(p, 8, false, PC); }
EXPORT void __tsan_read_range(void *a, unsigned long n) { if (n) acc(a, n, false, PC); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { if (n) acc(a, n, true, PC); }
EXPORT void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (n) { acc((void *)s, n, false, PC); acc(d, n, true, PC); } return memmove(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (n) { acc((void *)s, n, false, PC); acc(d, n, true, PC); } return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, unsigned long n) { if (n) acc(d, n, true, PC); return memset(d, c, n); }

static void atom(volatile void *a, unsigned n, bool w, int mo, bool before, u64 pc) {
  if (!me || insim) return;
  // mo: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
  if (before) { point(1, pc); access_((u64)a, n, w, true, pc); if (mo == 3 || mo == 4 || mo == 5) { VC *s = syncvc((u64)a); join(*s, vc[mytid]); } }
  else { if (mo == 1 || mo == 2 || mo == 4 || mo == 5) { VC *s = syncvc((u64)a); join(vc[mytid], *s); } if (w && mo >= 3) vc[mytid].c[mytid]++; }
}
#define AT(N, T) \
  EXPORT T __tsan_atomic##N##_load(const volatile T *a, int mo) { atom((volatile void *)a, N / 8, false, mo, true, PC); T v = __atomic_load_n(a, 5); atom((volatile void *)a, N / 8, false, mo, false, PC); return v; } \
  EXPORT void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { atom(a, N / 8, true, mo, true, PC); __atomic_store_n(a, v, 5); atom(a, N / 8, true, mo == 5 ? 3 : mo, false, PC); } \
  EXPORT T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { atom(a, N / 8, true, mo, true, PC); T r = __atomic_exchange_n(a, v, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { atom(a, N / 8, true, mo, true, PC); T r = __atomic_fetch_add(a, v, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { atom(a, N / 8, true, mo, true, PC); T r = __atomic_fetch_sub(a, v, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { atom(a, N / 8, true, mo, true, PC); T r = __atomic_fetch_and(a, v, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { atom(a, N / 8, true, mo, true, PC); T r = __atomic_fetch_or(a, v, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { atom(a, N / 8, true, mo, true, PC); T r = __atomic_fetch_xor(a, v, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { atom(a, N / 8, true, mo, true, PC); T r = __atomic_fetch_nand(a, v, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)fmo; atom(a, N / 8, true, mo, true, PC); int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { (void)fmo; atom(a, N / 8, true, mo, true, PC); int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); atom(a, N / 8, true, mo, false, PC); return r; } \
  EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { (void)fmo; atom(a, N / 8, true, mo, true, PC); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); atom(a, N / 8, true, mo, false, PC); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { point(1, PC); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ libc seams
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);
EXPORT void *malloc(size_t n) { void *p = __libc_malloc(n); if (me && p) forget((u64)p, malloc_usable_size(p)); return p; }
EXPORT void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); if (me && p) forget((u64)p, malloc_usable_size(p)); return p; }
EXPORT void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (me && p) forget((u64)p, malloc_usable_size(p)); return p; }
EXPORT void *memalign(size_t a, size_t n) { return __libc_memalign(a, n); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return __libc_memalign(a, n); }
EXPORT void free(void *p) { if (me && p) forget((u64)p, malloc_usable_size(p)); __libc_free(p); }

extern char **environ;
EXPORT char *getenv(const char *n) noexcept {
  point(1, PC);
  size_t l = strlen(n);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return nullptr;
}
EXPORT char *secure_getenv(const char *n) noexcept { return getenv(n); }

// strtok keeps process-wide state. Shared mode: one state, as in the C library. Isolated mode: the state used by the
// selection code (recognised by the text it tokenises) is separate per thread, so that the known defect cannot mask others.
static char *tok_state;
static __thread char *tok_private;
static __thread int tok_instr;
static int tok_prog_active;     // the program is in the middle of a tokenisation
EXPORT char *strtok(char *s, const char *d) noexcept {
  point(1, PC);
  if (!me) return strtok_r(s, d, &tok_state);
  int e = errno;
  const char *sel = getenv("DREDD_ENABLED_MUTATION");
  errno = e;
  if (s) tok_instr = sel && !strcmp(s, sel);
  if (!insim) {
    static u64 fake[2];
    Acc n = {vc[mytid].c[mytid], (unsigned char)mytid, 1, 1, 0, 1};
    (void)n;
    Cell *c = cell((u64)&fake >> 3, true);
    if (tok_instr || !s || 1) {
      for (int i = 0; c && i < c->n; i++) { Acc &o = c->a[i]; if (o.tid != mytid && o.clk > vc[mytid].c[o.tid] && (o.pc == 1 || tok_instr)) R->strtok_race = 1; }
      if (c) { int k = -1; for (int i = 0; i < c->n; i++) if (c->a[i].tid == mytid) k = i; if (k < 0 && c->n < 8) k = c->n++; if (k >= 0) { n.pc = tok_instr ? 1 : 2; c->a[k] = n; } }
    }
    if (tok_instr && tok_prog_active) R->strtok_clobber = 1;
  }
  char *r;
  if (R->strtok_isolated && tok_instr) r = strtok_r(s, d, &tok_private);
  else r = strtok_r(s, d, &tok_state);
  if (!tok_instr) tok_prog_active = r != nullptr;
  else if (!r) tok_instr = 0;
  return r;
}

static void wait_yield() {  // a real wait: let somebody else run
  R->nwait++;
  insim++;
  R->gsteps++;
  if ((long)R->gsteps > R->stepcap) { event(P, mytid, OP_HANG, 0, 0, 0); die(5); proc_over(); }
  me->waiting = 1;
  progress();
  int c[MAXP * MAXT], n = runnable(c, true);
  if (!n) {
    // only waiting threads are left in the whole system: deadlock, unless one of them can go on
    n = runnable(c, false);
    static int spins;
    if (++spins > 200) { event(P, mytid, OP_DEADLOCK, 1, 0, 0); die(4); proc_over(); }
  }
  int to = choose(c, n);
  note_switch(to);
  int self = me - R->s;
  if (to != self) { fwake(&R->s[to].go); fwait(&me->go); }
  me->waiting = 0;
  insim--;
}
static int (*real_trylock)(pthread_mutex_t *);
static int (*real_unlock)(pthread_mutex_t *);
static int (*real_lock)(pthread_mutex_t *);
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (!me || insim) { if (!real_lock) real_lock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return real_lock(m); }
  R->nmutex++;
  point(1, PC);
  while (true) {
    int r = real_trylock(m);
    if (r != EBUSY) { VC *s = syncvc((u64)m); join(vc[mytid], *s); return r; }
    wait_yield();
  }
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (!real_unlock) real_unlock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  if (me && !insim) { VC *s = syncvc((u64)m); join(*s, vc[mytid]); vc[mytid].c[mytid]++; }
  int r = real_unlock(m);
  point(1, PC);
  return r;
}

// initialisation of function-local statics: the release is inside libstdc++, the acquire in instrumented code
EXPORT void __cxa_guard_release(u64 *g) noexcept {
  static void (*real)(u64 *);
  if (!real) { insim++; real = (void (*)(u64 *))dlsym(RTLD_NEXT, "__cxa_guard_release"); insim--; }
  if (me && !insim) { VC *s = syncvc((u64)g); join(*s, vc[mytid]); vc[mytid].c[mytid]++; }
  real(g);
}
EXPORT int __cxa_guard_acquire(u64 *g) noexcept {
  static int (*real)(u64 *);
  if (!real) { insim++; real = (int (*)(u64 *))dlsym(RTLD_NEXT, "__cxa_guard_acquire"); insim--; }
  int r = real(g);
  if (me && !insim) { VC *s = syncvc((u64)g); join(vc[mytid], *s); }
  return r;
}

// ------------------------------------------------------------------ system call seam
static const struct { int e; } ferrs_open[] = {{ENOENT}, {EACCES}, {EMFILE}, {ENOSPC}, {EIO}, {EINTR}, {EROFS}}, ferrs_write[] = {{ENOSPC}, {EIO}, {EDQUOT}, {EINTR}, {EFBIG}};

static void crash_now() { die(2); h(79); proc_over(); }
// Decides the fate of one tracking system call. Returns true with *res set when a fault replaces it.
static bool tracked(long nr, long n, long *res, int *after) {
  int idx = R->nsys[P]++;
  R->hash ^= nr;
  *after = 0;
  for (int i = 0; i < R->nplan; i++) {
    Plan &f = R->plan[i];
    if (f.p != P) continue;
    bool hit = f.kind == F_STICKY ? idx >= f.idx : idx == f.idx;
    if (!hit) continue;
    if (f.kind == F_CRASH) { if (R->nfired < 512) R->fired[R->nfired++] = {idx, f.kind, f.arg, (int)nr}; crash_now(); }
    if (f.kind == F_CRASHAFTER) { *after = 1; if (R->nfired < 512) R->fired[R->nfired++] = {idx, f.kind, f.arg, (int)nr}; return false; }
    bool isw = nr == SYS_write || nr == SYS_writev || nr == SYS_pwrite64;
    if (f.kind == F_SHORT) { if (!isw || n < 2) continue; *res = f.arg % n; if (*res < 1) *res = 1; }
    else if (nr == SYS_close) { *res = -f.arg; }
    else *res = -f.arg;
    if (R->nfired < 512) R->fired[R->nfired++] = {idx, f.kind, f.arg, (int)nr};
    return true;
  }
  if (R->filefault_pct && !R->explicit_mode && (int)(rnd(R->micro) % 100) < R->filefault_pct) {
    bool isw = nr == SYS_write || nr == SYS_writev || nr == SYS_pwrite64;
    bool iso = nr == SYS_openat || nr == SYS_open || nr == SYS_creat;
    if (isw && n > 1 && rnd(R->micro) % 3 == 0) { *res = 1 + rnd(R->micro) % (n - 1); R->nfired < 512 && (R->fired[R->nfired++] = {idx, F_SHORT, *res, (int)nr}, 0); return true; }
    if (isw) { *res = -ferrs_write[rnd(R->micro) % 5].e; }
    else if (iso) { *res = -ferrs_open[rnd(R->micro) % 7].e; }
    else if (nr == SYS_close) { *res = rnd(R->micro) % 2 ? -EIO : -ENOSPC; }
    else return false;
    if (R->nfired < 512) R->fired[R->nfired++] = {idx, F_ERR, -*res, (int)nr};
    return true;
  }
  return false;
}
static long sys(long nr, long a, long b, long c, long d, long e, long f) {
  bool man = me && !insim;
  if (nr == SYS_exit_group) {
    if (me || mytid == MAIN) {
      if (!R->status[P]) R->status[P] = 1;
      for (int t = 0; t < MAXT; t++) { Slot &s = R->s[P * MAXT + t]; if (s.state != NONE && s.state != DONE) s.state = DEAD; }
      handover(-1);
    }
    return raw(nr, a);
  }
  if (nr == SYS_futex) {
    int op = b & 127;
    if (man && (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)) {
      if (__atomic_load_n((int *)a, __ATOMIC_SEQ_CST) != (int)c) return -EAGAIN;
      wait_yield();
      return 0;
    }
    return raw(nr, a, b, c, d, e, f);
  }
  if (!insim && (nr == SYS_write || nr == SYS_writev || nr == SYS_pwrite64) && !(a >= 0 && a < 1024 && fdtrack[a])) R->nout[P]++;
  if (!man) return raw(nr, a, b, c, d, e, f);
  if (nr == SYS_nanosleep || nr == SYS_clock_nanosleep || nr == SYS_sched_yield) { point(1, 0); return 0; }
  long res;
  int after = 0;
  if (nr == SYS_openat || nr == SYS_open || nr == SYS_creat) {
    const char *path = (const char *)(nr == SYS_openat ? b : a);
    bool tr = R->track[0] && !strcmp(path, R->track);
    if (!tr) return raw(nr, a, b, c, d, e, f);
    point(1, 0);
    if (tracked(nr, 0, &res, &after)) return res;
    res = raw(nr, a, b, c, d, e, f);
    if (res >= 0) { if (res < 1024) fdtrack[res] = mytid + 1; R->nopen[P]++; }
    if (after) crash_now();
    point(1, 0);
    return res;
  }
  bool tr = a >= 0 && a < 1024 && fdtrack[a];
  if (nr == SYS_write || nr == SYS_writev || nr == SYS_pwrite64) {
    if (!tr) return raw(nr, a, b, c, d, e, f);
    long n = c;
    if (nr == SYS_writev) { n = 0; for (int i = 0; i < c; i++) n += ((struct iovec *)b)[i].iov_len; }
    point(1, 0);
    if (tracked(nr, n, &res, &after)) {
      if (res > 0) {
        if (nr == SYS_write || nr == SYS_pwrite64) return raw(nr, a, b, res, d, e, f);
        long done = 0;
        for (int i = 0; i < c && done < res; i++) { iovec &v = ((iovec *)b)[i]; long k = (long)v.iov_len < res - done ? (long)v.iov_len : res - done; if (k) raw(SYS_write, a, (long)v.iov_base, k); done += k; }
        return res;
      }
      return res;
    }
    res = raw(nr, a, b, c, d, e, f);
    if (after) crash_now();
    point(1, 0);
    return res;
  }
  if (nr == SYS_close) {
    if (!tr) return raw(nr, a);
    point(1, 0);
    fdtrack[a] = 0;
    R->nclose[P]++;
    bool f1 = tracked(nr, 0, &res, &after);
    long r2 = raw(nr, a);
    if (after) crash_now();
    point(1, 0);
    return f1 ? res : r2;
  }
  if (nr == SYS_flock && !(b & 4)) {
    while ((res = raw(nr, a, b | 4)) == -EAGAIN) wait_yield();
    return res;
  }
  if (nr == SYS_fcntl && (b == F_SETLKW || b == 38)) {
    while ((res = raw(nr, a, b == F_SETLKW ? F_SETLK : 37, c)) == -EAGAIN || res == -EACCES) wait_yield();
    return res;
  }
  if (tr || nr == SYS_unlink || nr == SYS_rename || nr == SYS_fsync || nr == SYS_ftruncate || nr == SYS_lseek) point(1, 0);
  return raw(nr, a, b, c, d, e, f);
}
static void on_sigsys(int, siginfo_t *, void *u) {
  greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
  int e = errno;
  long r = sys(g[REG_RAX], g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
  g[REG_RAX] = r;
  errno = e;
}
static void on_fatal(int sig) {
  if (me || mytid >= 0) {
    insim++;
    event(P, mytid < 0 ? 0 : mytid, OP_SIG, sig, 0, 0);
    die(3);
    proc_over();
  }
  raw(SYS_exit_group, 99);
}
static void install_filter() {
  static const int nrs[] = {SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_writev, SYS_pwrite64, SYS_close, SYS_lseek, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_flock, SYS_fcntl,
                            SYS_rename, SYS_unlink, SYS_futex, SYS_nanosleep, SYS_clock_nanosleep, SYS_sched_yield, SYS_exit_group};
  std::vector<sock_filter> f;
  u64 lo = (u64)raw6_begin, hi = (u64)raw6_end;
  // allow when the instruction pointer is inside raw6
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4));
  f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)(lo >> 32), 0, 4));
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)));
  f.push_back(BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (u32)lo, 0, 2));
  f.push_back(BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, (u32)hi, 1, 0));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
  for (int n : nrs) {
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)n, 0, 1));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  }
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  struct sock_fprog pr = {(unsigned short)f.size(), f.data()};
  prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) fail("seccomp failed");
}

// ------------------------------------------------------------------ one simulated process
static void child(int p, const char *path, const char *sel, const char *trk, int start_threads) {
  P = p;
  setpgid(0, 0);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  environ = nullptr;
  static std::string e1, e2;
  static char *env[4];
  int n = 0;
  if (sel) { e1 = std::string("DREDD_ENABLED_MUTATION=") + sel; env[n++] = (char *)e1.c_str(); }
  if (trk) { e2 = std::string("DREDD_MUTANT_TRACKING_FILE=") + trk; env[n++] = (char *)e2.c_str(); }
  environ = env;
  so = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!so) { fail(dlerror()); fwake(&R->finished); _exit(1); }
  thread_fn = (void (*)(int))dlsym(so, "prog_thread");
  if (!thread_fn) { fail("no prog_thread"); fwake(&R->finished); _exit(1); }
  cells = (Cell *)mmap(nullptr, sizeof(Cell) * (size_t)NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  syncpool = (VC *)mmap(nullptr, sizeof(VC) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stackbase = (char *)mmap(nullptr, MAXT << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_key_create(&endkey, end_thread);
  real_trylock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  real_unlock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  real_lock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  struct sigaction sa = {};
  sa.sa_sigaction = on_sigsys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, nullptr);
  struct sigaction sf = {};
  sf.sa_handler = on_fatal;
  sf.sa_flags = SA_NODEFER | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGPIPE}) sigaction(s, &sf, nullptr);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  install_filter();
  for (int t = 0; t < start_threads; t++) {
    Slot &s = R->s[P * MAXT + t];
    vc[t].c[t] = 1;
    create_thread(t, t);
    s.op = OP_START;
    s.state = RUNNABLE;
  }
  mytid = MAIN;
  Slot *m = &R->s[P * MAXT + MAIN];
  // report ready, then park until all threads of this process are done
  __atomic_store_n(&m->nops, 1, __ATOMIC_SEQ_CST);
  fwait(&m->go);
  me = m;
  insim = 0;
  exit(0);
}

int main(int argc, char **argv) {
  (void)argc;
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
  setenv("MALLOC_ARENA_MAX", "1", 1);
  mallopt(M_ARENA_MAX, 1);
  // MAP_SHARED memory: the baton and all records
  R = (Run *)mmap((void *)0x200000000000ul, sizeof(Run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  Run *C = (Run *)calloc(1, sizeof(Run));
  std::string sos[MAXP], sels[MAXP];
  bool hassel[MAXP] = {};
  bool hastrk = false;
  int start = 1;
  char *line = nullptr;
  size_t cap = 0;
  auto reset = [&]() {
    memset(C, 0, sizeof *C);
    C->macro_seed = C->micro_seed = 1; C->nproc = 1; C->p0 = 1000; C->p1 = 20000; C->fuel = 300; C->stepcap = 4000000;
    for (int i = 0; i < MAXP; i++) { C->crash_step[i] = -1; hassel[i] = false; }
    C->stall_proc = -1; C->stall_step = -1; C->stalled_slot = -1; hastrk = false; start = 1;
  };
  reset();
  while (getline(&line, &cap, stdin) > 0) {
    char *nl = strchr(line, '\n');
    if (nl) *nl = 0;
    char k[32];
    int off = 0;
    if (sscanf(line, "%31s %n", k, &off) < 1) continue;
    char *v = line + off;
    std::string key = k;
    if (key == "job") reset();
    else if (key == "so") { int p; int o; sscanf(v, "%d %n", &p, &o); sos[p] = v + o; }
    else if (key == "sel") { int p; int o = 0; sscanf(v, "%d %n", &p, &o); sels[p] = v + o; hassel[p] = true; }
    else if (key == "track") { snprintf(C->track, sizeof C->track, "%s", v); hastrk = true; }
    else if (key == "nproc") C->nproc = atoi(v);
    else if (key == "threads") start = atoi(v);
    else if (key == "macro") C->macro_seed = strtoull(v, 0, 10);
    else if (key == "micro") C->micro_seed = strtoull(v, 0, 10);
    else if (key == "p0") C->p0 = atoi(v);
    else if (key == "p1") C->p1 = atoi(v);
    else if (key == "seqmacro") C->seqmacro = atoi(v);
    else if (key == "envfault") C->envfault = atoi(v);
    else if (key == "fuel") C->fuel = atoi(v);
    else if (key == "stepcap") C->stepcap = atol(v);
    else if (key == "crash") { int p; long s; sscanf(v, "%d %ld", &p, &s); C->crash_step[p] = s; }
    else if (key == "stall") { sscanf(v, "%d %d %ld", &C->stall_proc, &C->stall_thread, &C->stall_step); }
    else if (key == "filefault") C->filefault_pct = atoi(v);
    else if (key == "strtok_isolated") C->strtok_isolated = atoi(v);
    else if (key == "plan") { Plan &f = C->plan[C->nplan]; if (C->nplan < 31 && sscanf(v, "%d %d %d %ld", &f.p, &f.idx, &f.kind, &f.arg) == 4) C->nplan++; }
    else if (key == "explicit") C->explicit_mode = 1;
    else if (key == "sw") { if (C->nexp < 8192) { unsigned long long s; sscanf(v, "%llu %d", &s, &C->exp[C->nexp].to); C->exp[C->nexp++].step = s; } }
    else if (key == "opcap") C->opcap = atoi(v);
    else if (key == "ref") { if (C->nref < 64) C->ref[C->nref++] = atoi(v); }
    else if (key == "quit") break;
    else if (key == "go") {
      size_t headsz = offsetof(Run, micro);
      memcpy(R, C, headsz);
      memset((char *)R + headsz, 0, offsetof(Run, ev) - headsz);
      R->nstrs = R->nrace = R->nfired = R->nsw = R->ncov = 0;
      memset(&R->nsys, 0, sizeof(Run) - offsetof(Run, nsys));
      R->hash = 1469598103934665603ull;
      R->micro = mix(C->micro_seed);
      R->stalled_slot = -1;
      for (int p = 0; p < C->nproc; p++) R->macro[p] = mix(C->macro_seed * 31 + p);
      pid_t pids[MAXP];
      fflush(stdout);
      for (int p = 0; p < C->nproc; p++) {
        R->s[p * MAXT + MAIN].state = NONE;
        pids[p] = fork();
        if (!pids[p]) {
          int fd = open("/dev/null", O_RDWR);
          dup2(fd, 0); dup2(fd, 1);
          child(p, sos[p].c_str(), hassel[p] ? sels[p].c_str() : nullptr, hastrk ? C->track : nullptr, start);
          _exit(0);
        }
      }
      // wait until all are ready
      bool ok = true;
      for (int p = 0; p < C->nproc && ok; p++)
        for (int i = 0; !__atomic_load_n(&R->s[p * MAXT + MAIN].nops, __ATOMIC_SEQ_CST); i++) {
          if (R->errflag || i > 200000) { ok = false; fail("process did not start"); break; }
          if (i > 50) usleep(50); else sched_yield();
        }
      int timeout = 0;
      if (ok) {
        for (int p = 0; p < C->nproc; p++) R->s[p * MAXT + MAIN].nops = 0;
        int c[MAXP * MAXT], n = runnable(c, true);
        int to = choose(c, n);
        note_switch(to);
        fwake(&R->s[to].go);
        struct timespec ts = {30, 0};
        while (!__atomic_load_n(&R->finished, __ATOMIC_SEQ_CST)) {
          long r = raw(SYS_futex, (long)&R->finished, FUTEX_WAIT, 0, (long)&ts);
          if (r == -ETIMEDOUT) { timeout = 1; break; }
        }
      }
      // processes that have left are exiting; anything else is killed
      for (int p = 0; p < C->nproc; p++) {
        int st;
        if (timeout || !ok || R->status[p] == 0) kill(pids[p], SIGKILL);
        waitpid(pids[p], &st, 0);
      }
      for (int i = 0; i < R->nev; i++) {
        Ev &e = R->ev[i];
        printf("e %d %d %s %ld %ld %ld\n", e.p, e.t, opname[e.op], e.a, e.b, e.r);
      }
      for (int i = 0; i < R->nrace; i++) { Race &r = R->race[i]; printf("race %llx %d %d %d %d %llx %llx\n", (unsigned long long)r.addr, r.t1, r.t2, r.w1, r.w2, (unsigned long long)r.pc1, (unsigned long long)r.pc2); }
      for (int i = 0; i < R->nfired; i++) printf("fired %d %d %ld %d\n", R->fired[i].idx, R->fired[i].kind, R->fired[i].arg, R->fired[i].nr);
      for (int i = 0; i < R->nsw; i++) printf("sw %llu %d\n", (unsigned long long)R->sw[i].step, R->sw[i].to);
      for (int i = 0; i < R->ncov; i++) { Cov &c = R->cov[i]; printf("cov %d %d %d %d %d\n", c.end >> 1, c.t, c.nops, c.g, c.end & 1); }
      for (int p = 0; p < C->nproc; p++) {
        printf("proc %d %d %d %d %d %d %d", p, R->status[p], R->nsys[p], R->nopen[p], R->nclose[p], R->held[p], R->nout[p]);
        for (int t = 0; t < 12; t++) printf(" %d", R->s[p * MAXT + t].state == NONE ? -1 : R->s[p * MAXT + t].nops);
        printf("\n");
      }
      printf("end %llx %llu %d %d %d %d %d %d %llu %d %s\n", (unsigned long long)R->hash, (unsigned long long)R->gsteps, R->nwait, R->waitstall, R->nmutex, R->strtok_race, R->strtok_clobber, timeout,
             (unsigned long long)R->nswitch, R->npreempt_instr, R->errflag ? R->errmsg : "ok");
      fflush(stdout);
    }
  }
  return 0;
}
