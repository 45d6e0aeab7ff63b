// Simulation runtime: heap, instrumentation hooks, scheduler, pthread/clock/futex seams.
// Compiled WITHOUT instrumentation and without STL (its templates would be merged with
// the instrumented copies of the code under test).
#include "sim.h"
#include "simint.h"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define LIKELY_(x) __builtin_expect(!!(x), 1)
#define UNLIKELY_(x) __builtin_expect(!!(x), 0)

namespace sim {

// ---------------------------------------------------------------------------------
// raw syscalls (the libc `syscall` symbol is interposed below)
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static void futex_wait_raw(volatile int* w, int v) {
  raw_syscall(SYS_futex, (long)w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0);
}
static void futex_wake_raw(volatile int* w) {
  raw_syscall(SYS_futex, (long)w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
uint64_t real_now_ns() {
  struct timespec ts;
  raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
  return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

// ---------------------------------------------------------------------------------
// memory layout (fixed addresses => pointer values are part of the deterministic state)
static const uintptr_t HEAP_BASE = 0x200000000000ull;
static const uintptr_t HEAP_SIZE = 200ull << 30;
static const uintptr_t ARENA_INIT = HEAP_BASE;                 // zygote initialisation
static const uintptr_t ARENA_RUN = HEAP_BASE + (16ull << 30);   // the simulated run
static const uintptr_t ARENA_DRV = HEAP_BASE + (180ull << 30);  // driver, never seen by runs
static const uintptr_t STACK_BASE = 0x208000000000ull;
static const uintptr_t STACK_SLOT = 8ull << 20;
static const int MAX_THREADS = 3000;
static const uintptr_t SHADOW_BASE = 0x220000000000ull;  // 1 byte / 8 bytes of heap
static const uintptr_t CONF_BASE = 0x230000000000ull;    // 4 bytes / 8 bytes of heap
static const uintptr_t CONFS_BASE = 0x234000000000ull;   // same, stacks
static const uintptr_t CONFG_BASE = 0x238000000000ull;   // same, globals
extern "C" char __data_start, _end, __executable_start;
static uintptr_t g_data_lo, g_data_hi;

static bool g_mem_ready = false;
static void map_fixed(uintptr_t base, size_t size) {
  void* p = mmap((void*)base, size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)base) {
    const char m[] = "sim: cannot map fixed region\n";
    raw_syscall(SYS_write, 2, (long)m, sizeof(m) - 1, 0, 0, 0);
    raw_syscall(SYS_exit_group, 3, 0, 0, 0, 0, 0);
  }
}

struct Arena {
  uintptr_t lo, hi, cur;
};
static Arena g_arenas[3];
static Arena* g_arena;
static const int NCLASS = 160;
static void* g_freelist[NCLASS];
static const size_t QCAP = 1 << 20;
static void** g_quar;  // ring (lazily mapped)
static size_t g_qhead, g_qtail;
static size_t g_qbytes;
static size_t g_qlimit = 64ull << 20;
static int64_t g_live_blocks;
static int64_t g_live_bytes;
static bool g_recycle = true;

struct Hdr {          // 16 bytes before user pointer
  uint64_t size : 40;
  uint64_t cls : 8;   // 255 = large
  uint64_t magic : 16;
  uint64_t base;      // start of the raw block
};
static const uint64_t MAGIC = 0x5ca1;
static const uint64_t MAGIC_FREE = 0xdead;

static void mem_init() {
  if (g_mem_ready) return;
  g_mem_ready = true;
  map_fixed(HEAP_BASE, HEAP_SIZE);
  map_fixed(STACK_BASE, STACK_SLOT * MAX_THREADS);
  map_fixed(SHADOW_BASE, HEAP_SIZE / 8);
  map_fixed(CONF_BASE, HEAP_SIZE / 2);
  map_fixed(CONFS_BASE, STACK_SLOT * MAX_THREADS / 2);
  g_data_lo = (uintptr_t)&__data_start;
  g_data_hi = (uintptr_t)&_end;
  map_fixed(CONFG_BASE, ((g_data_hi - g_data_lo) / 2 + 8191) & ~4095ull);
  void* q = mmap(nullptr, QCAP * sizeof(void*), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_quar = (void**)q;
  g_arenas[0] = {ARENA_INIT, ARENA_RUN, ARENA_INIT + 64};
  g_arenas[1] = {ARENA_RUN, ARENA_DRV, ARENA_RUN + 64};
  g_arenas[2] = {ARENA_DRV, HEAP_BASE + HEAP_SIZE, ARENA_DRV + 64};
  g_arena = &g_arenas[0];
}
void heap_use_arena(int i) {
  mem_init();
  g_arena = &g_arenas[i];
}
// Called in a child before the run: forget the zygote's free lists and quarantine.
static void heap_start_run() {
  memset(g_freelist, 0, sizeof(g_freelist));
  g_qhead = g_qtail = 0;
  g_qbytes = 0;
  g_arena = &g_arenas[1];
  g_live_blocks = 0;
  g_live_bytes = 0;
}

static inline uint8_t* shadow_of(uintptr_t a) {
  return (uint8_t*)(SHADOW_BASE + ((a - HEAP_BASE) >> 3));
}
static inline bool in_heap(uintptr_t a) { return a - HEAP_BASE < HEAP_SIZE; }

static int size_class(size_t total, size_t* rounded) {
  // total is a multiple of 16
  if (total <= 1024) {
    *rounded = total;
    return (int)(total / 16);  // 1..64
  }
  size_t base = 1024;
  int c = 64;
  while (base < (256u << 10)) {
    for (int q = 1; q <= 4; ++q) {
      size_t s = base + base / 4 * q;
      ++c;
      if (total <= s) {
        *rounded = s;
        return c;
      }
    }
    base *= 2;
  }
  *rounded = (total + 4095) & ~4095ull;
  return 255;
}

enum { SH_RED = 0xfa, SH_FREED = 0xfd, SH_UNALLOC = 0xff };

static void poison(uintptr_t lo, uintptr_t hi, uint8_t v) {  // 8-aligned
  memset(shadow_of(lo), v, (hi - lo) >> 3);
}

static void* heap_alloc(size_t size, size_t align, bool zero) {
  if (UNLIKELY_(!g_mem_ready)) mem_init();
  if (align < 16) align = 16;
  size_t body = (size + 7) & ~7ull;
  size_t total = 16 + body + 16;
  if (align > 16) total += align;
  total = (total + 15) & ~15ull;
  size_t rounded;
  int cls = size_class(total, &rounded);
  uintptr_t raw = 0;
  bool fresh = false;
  if (cls != 255 && g_freelist[cls]) {
    raw = (uintptr_t)g_freelist[cls];
    g_freelist[cls] = *(void**)raw;
  } else {
    if (g_arena->cur + rounded > g_arena->hi) return nullptr;
    raw = g_arena->cur;
    g_arena->cur += rounded;
    fresh = true;
  }
  uintptr_t user = raw + 16;
  if (align > 16) user = (raw + 16 + align - 1) & ~(align - 1);
  Hdr* h = (Hdr*)(user - 16);
  h->size = size;
  h->cls = cls;
  h->magic = MAGIC;
  h->base = raw;
  // shadow: header + redzone poisoned, body open
  poison(raw, user, SH_RED);
  uint8_t* sh = shadow_of(user);
  if (!(fresh && cls == 255)) memset(sh, 0, size >> 3);  // (shadow of fresh memory is zero)
  if (size & 7) sh[size >> 3] = size & 7;
  uintptr_t open_end = user + body;
  if (open_end < raw + rounded) {
    size_t n = (raw + rounded - open_end) >> 3;
    if (cls == 255 && n > 64) n = 64;
    memset(shadow_of(open_end), SH_RED, n);
  }
  if (zero) {
    if (!fresh) memset((void*)user, 0, size);
  } else {
    size_t n = size < 2048 ? size : 2048;
    memset((void*)user, 0xa7, n);
  }
  if (size <= (64u << 10)) memset((void*)(CONF_BASE + (user - HEAP_BASE) / 2), 0, (body / 2 + 3) & ~3ull);
  ++g_live_blocks;
  g_live_bytes += size;
  return (void*)user;
}

static void mem_error(const char* what, uintptr_t a, size_t n, bool write);

// large freed blocks (never reused): the pages are inaccessible, the shadow is not written
static const int MAX_BIG = 4096;
static struct { uintptr_t lo, hi; } g_big[MAX_BIG];
static int g_nbig;

static void heap_free(void* p) {
  if (!p) return;
  uintptr_t u = (uintptr_t)p;
  if (!in_heap(u)) return;  // not ours (pre-init); leak
  Hdr* h = (Hdr*)(u - 16);
  if (h->magic != MAGIC) {
    if (h->magic == MAGIC_FREE) mem_error("double-free", u, 0, true);
    mem_error("invalid-free", u, 0, true);
    return;
  }
  h->magic = MAGIC_FREE;
  --g_live_blocks;
  g_live_bytes -= h->size;
  size_t size = h->size;
  size_t body = (size + 7) & ~7ull;
  if (h->cls == 255) {
    if (body >= (8u << 20)) {  // edges by shadow, the rest by page protection
      poison(u, u + (64 << 10), SH_FREED);
      poison(u + body - (64 << 10), u + body, SH_FREED);
      uintptr_t a = (u + 4095) & ~4095ull, b = (u + size) & ~4095ull;
      madvise((void*)a, b - a, MADV_DONTNEED);
      mprotect((void*)a, b - a, PROT_NONE);
      if (g_nbig < MAX_BIG) g_big[g_nbig++] = {a, b};
      return;
    }
    if (body >= 8) poison(u, u + body, SH_FREED);
    uintptr_t lo = (u + 4095) & ~4095ull, hi = (u + size) & ~4095ull;
    if (hi > lo) madvise((void*)lo, hi - lo, MADV_DONTNEED);
    return;  // address range of large blocks is never reused
  }
  if (body) {
    poison(u, u + body, SH_FREED);
    size_t n = size < 256 ? size : 256;
    memset(p, 0xdd, n);
  }
  // Only blocks of the current arena are ever recycled.
  if (u < g_arena->lo || u >= g_arena->hi) return;
  size_t total;
  size_class((16 + body + 16 + 15) & ~15ull, &total);
  if (h->base != u - 16) return;  // over-aligned: not recycled
  g_quar[g_qtail % QCAP] = p;
  ++g_qtail;
  g_qbytes += total;
  while ((g_qbytes > g_qlimit || g_qtail - g_qhead >= QCAP - 1) && g_qhead < g_qtail) {
    void* q = g_quar[g_qhead % QCAP];
    ++g_qhead;
    Hdr* qh = (Hdr*)((uintptr_t)q - 16);
    size_t qb = (qh->size + 7) & ~7ull;
    size_t qt;
    int c = size_class((16 + qb + 16 + 15) & ~15ull, &qt);
    g_qbytes -= qt;
    uintptr_t raw = qh->base;
    *(void**)raw = g_freelist[c];
    g_freelist[c] = (void*)raw;
  }
}

int live_heap_blocks() { return (int)g_live_blocks; }
size_t live_heap_bytes() { return (size_t)g_live_bytes; }
bool heap_addr_live(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (!in_heap(a) || !in_heap(a + n)) return false;
  for (int i = 0; i < g_nbig; ++i)
    if (a < g_big[i].hi && a + n > g_big[i].lo) return false;
  for (uintptr_t x = a & ~7ull; x < a + n; x += 8) {
    uint8_t s = *shadow_of(x);
    if (s == 0) continue;
    if (s >= 8) return false;
    if (((a + n - 1) >= x) && (a + n - x) > s && (a + n - x) <= 8) return false;
    if ((a + n - x) > 8) return false;
  }
  return true;
}

// ---------------------------------------------------------------------------------
// scheduler state
enum { ST_RUNNABLE, ST_BLOCKED, ST_DONE };
struct Thr {
  int id;
  uint64_t name;       // logical name hash (stable under plan edits)
  volatile int go;     // futex: baton
  int state;
  const void* waddr;
  const char* what;
  uint64_t deadline;   // 0 = none
  bool timed_out;
  bool daemon;
  bool detached;
  bool joined;
  int quiet;
  uint32_t op;
  uint32_t step;       // within op
  uint32_t children;   // spawned in op
  uint64_t prio;
  uint64_t stalled_until;  // total-steps
  void* (*fn)(void*);
  void* arg;
  void* ret;
  pthread_t real;
};
static Thr g_thr[MAX_THREADS];
static int g_nthr;            // ids 1..g_nthr
static Thr* g_cur;
static __thread Thr* t_self __attribute__((tls_model("initial-exec")));
int g_active = 0;             // instrumentation live for the current thread
static bool g_sim = false;    // inside a run
static uint32_t g_step;       // current thread's step
static uint32_t g_stop;       // next step at which slow() must be called
static uint32_t g_switch_in;  // step at which current thread was switched in
static uint64_t g_total;      // total steps of other slices
static uint64_t g_max_steps = 50000000;
static const uint32_t FAIR = 100000;
static uint64_t g_clock_extra = 1700000000ull * 1000000000ull;
static uint64_t g_evseq;
static uint64_t g_hash = 1469598103934665603ull;
static uint64_t g_schedhash = 1469598103934665603ull;
static Rng g_rng;
static RunResult* g_res;      // shared with the driver
static bool g_verbose;
static bool g_replay;
static Dec* g_decs;           // replay: sorted input
static int g_ndecs;
static int g_rec_pos;         // replay: next index for current (thread,op)
static volatile int g_main_done;
static volatile int g_exit_word;
static int g_stderr_fd = -1;
static int g_nprocs = 4;
static bool g_faults = true;
static size_t g_af_min = 0;
static double g_af_p = 0;
static double g_tf_p = 0;
static double g_fault_scale = 1.0;
static double g_spurious = 0;

static struct {
  int mode;               // 0 random, 1 pct, 2 sync-only
  double mean;            // accesses between preemptions
  double p_sync;
  double p_conf;
  double p_stall;
  int pct_left;
  uint64_t pct_at[16];
  int npct;
} g_st;

static inline uint64_t total_steps() { return g_total + (g_step - g_switch_in); }
uint64_t steps() { return total_steps(); }
uint64_t now_ns() { return g_clock_extra + total_steps() * 10; }
void advance_clock(uint64_t ns) { g_clock_extra += ns; }
static inline void hmix(uint64_t& h, uint64_t v) {
  h ^= v;
  h *= 1099511628211ull;
  h ^= h >> 29;
}
void note(uint64_t v) { hmix(g_hash, v); }
uint64_t event_seq() { return ++g_evseq; }
bool verbose() { return g_verbose; }
bool in_sim() { return g_sim && t_self; }
int self() { return t_self ? t_self->id : 0; }
void set_nprocs(int n) { g_nprocs = n; }
void enable_faults(bool on) { g_faults = on; }
void alloc_faults(size_t min_size, double p) {
  g_af_min = min_size;
  g_af_p = p;
}
void thread_faults(double p) { g_tf_p = p; }

static void raw_write(int fd, const char* s, size_t n) { raw_syscall(SYS_write, fd, (long)s, n, 0, 0, 0); }

void trace(const char* fmt, ...) {
  if (!g_verbose) return;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = snprintf(buf, sizeof buf, "[%8lu t%-2d op%-3u s%-6u] ", (unsigned long)total_steps(), self(),
                   t_self ? t_self->op : 0, g_step);
  n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  raw_write(1, buf, n);
}

// ---------------------------------------------------------------------------------
// ending a run
static void finish(int status) {
  if (g_res) {
    g_res->steps = total_steps();
    g_res->sim_ns = now_ns() - 1700000000ull * 1000000000ull;
    hmix(g_hash, total_steps());
    hmix(g_hash, g_nthr);
    g_res->hash = g_hash;
    g_res->schedhash = g_schedhash;
    g_res->nthreads = g_nthr;
    g_res->status = status;
    __sync_synchronize();
  }
  raw_syscall(SYS_exit_group, status, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

static void capture_tail() {
  if (!g_res || g_stderr_fd < 0) return;
  off_t sz = lseek(g_stderr_fd, 0, SEEK_END);
  if (sz <= 0) return;
  // when it does not fit, the beginning and the end are kept
  const off_t cap = (off_t)sizeof(g_res->tail) - 1, head = sz > cap ? cap / 2 : 0;
  ssize_t h = head ? pread(g_stderr_fd, g_res->tail, head, 0) : 0;
  if (h < 0) h = 0;
  ssize_t n = pread(g_stderr_fd, g_res->tail + h, cap - h, sz > cap ? sz - (cap - h) : 0);
  if (n >= 0) g_res->tail[h + n] = 0;
}

static char g_context[400];
void context(const char* s) { snprintf(g_context, sizeof g_context, "%s", s); }
static bool g_failing;
static void fail_common(const char* cls, const char* msg, int skip) {
  if (g_failing) raw_syscall(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  g_failing = true;
  g_active = 0;
  if (g_res) {
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    snprintf(g_res->msg, sizeof g_res->msg, "%s%s%s", msg, *g_context ? " [during] " : "", g_context);
    g_res->fail_thread = self();
    g_res->fail_op = t_self ? (int)t_self->op : -1;
    void* bt[32];
    int n = backtrace(bt, 32);
    g_res->nbt = 0;
    for (int i = skip; i < n && g_res->nbt < 24; ++i) g_res->bt[g_res->nbt++] = (uint64_t)bt[i];
    capture_tail();
  }
  for (const char* c = cls; *c; ++c) hmix(g_hash, *c);
  if (g_verbose) {
    char b[1400];
    int n = snprintf(b, sizeof b, "FAIL class=%s %s\n", cls, msg);
    raw_write(1, b, n < (int)sizeof b ? n : (int)sizeof b - 1);
  }
  finish(1);
}
void fail(const char* cls, const char* fmt, ...) {
  g_active = 0;
  char buf[900];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fail_common(cls, buf, 2);
  __builtin_unreachable();
}

static void mem_error(const char* what, uintptr_t a, size_t n, bool write) {
  if (!g_sim || g_failing) return;
  char b[200];
  snprintf(b, sizeof b, "%s: %s of %zu bytes at %p", what, write ? "write" : "read", n, (void*)a);
  char cls[64];
  snprintf(cls, sizeof cls, "memory:%s", what);
  fail_common(cls, b, 2);
}

static void on_signal(int sig, siginfo_t* si, void*) {
  char cls[64], msg[160];
  const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS"
                 : sig == SIGFPE ? "SIGFPE" : "SIGILL";
  snprintf(cls, sizeof cls, "crash:%s", nm);
  snprintf(msg, sizeof msg, "signal %s addr=%p", nm, si ? si->si_addr : nullptr);
  fail_common(cls, msg, 2);
}

// ---------------------------------------------------------------------------------
// counters
void count(const char* probe, uint64_t n) {
  if (!g_res) return;
  for (int i = 0; i < RunResult::NCNT; ++i) {
    if (!g_res->cnt[i].name[0]) {
      snprintf(g_res->cnt[i].name, sizeof g_res->cnt[i].name, "%s", probe);
      g_res->cnt[i].n = n;
      return;
    }
    if (!strcmp(g_res->cnt[i].name, probe)) {
      g_res->cnt[i].n += n;
      return;
    }
  }
}

// ---------------------------------------------------------------------------------
// decisions
static inline void record(uint32_t val) {
  if (!g_res) return;
  if (g_res->ndecs >= RunResult::MAXDEC) {
    g_res->dec_overflow = 1;
    return;
  }
  Dec& d = g_res->decs[g_res->ndecs++];
  d.th = t_self->name;
  d.op = t_self->op;
  d.step = g_step;
  d.val = val;
}

static int dec_cmp(const Dec& a, uint64_t th, uint32_t op, uint32_t step) {
  if (a.th != th) return a.th < th ? -1 : 1;
  if (a.op != op) return a.op < op ? -1 : 1;
  if (a.step != step) return a.step < step ? -1 : 1;
  return 0;
}
static void replay_seek(Thr* t, uint32_t step) {  // first record with step >= given
  int lo = 0, hi = g_ndecs;
  while (lo < hi) {
    int m = (lo + hi) / 2;
    if (dec_cmp(g_decs[m], t->name, t->op, step) < 0) lo = m + 1;
    else hi = m;
  }
  g_rec_pos = lo;
}
static bool replay_at(uint32_t* val) {
  while (g_rec_pos < g_ndecs && dec_cmp(g_decs[g_rec_pos], t_self->name, t_self->op, g_step) < 0)
    ++g_rec_pos;
  if (g_rec_pos < g_ndecs && dec_cmp(g_decs[g_rec_pos], t_self->name, t_self->op, g_step) == 0) {
    *val = g_decs[g_rec_pos].val;
    ++g_rec_pos;
    return true;
  }
  return false;
}

static void arm(Thr* t) {  // set g_stop for the running thread
  uint32_t fair = g_switch_in + FAIR;
  uint32_t stop = fair;
  if (g_replay) {
    replay_seek(t, g_step + 1);
    if (g_rec_pos < g_ndecs && g_decs[g_rec_pos].th == t->name && g_decs[g_rec_pos].op == t->op &&
        g_decs[g_rec_pos].step < stop)
      stop = g_decs[g_rec_pos].step;
  } else if (g_st.mode == 0) {
    uint64_t m = (uint64_t)(2 * g_st.mean);
    uint32_t d = 1 + (uint32_t)g_rng.below(m);
    if (g_step + d < stop) stop = g_step + d;
  } else if (g_st.mode == 1) {
    uint64_t ts = total_steps();
    for (int i = 0; i < g_st.npct; ++i)
      if (g_st.pct_at[i] > ts) {
        uint64_t d = g_st.pct_at[i] - ts;
        if (d < stop - g_step) stop = g_step + (uint32_t)d;
        break;
      }
  }
  if (stop <= g_step) stop = g_step + 1;
  g_stop = stop;
}

static void update_active() { g_active = g_sim && g_cur && g_cur->quiet == 0; }

// Hand the baton to t (t != current). Returns when we get it back.
static void switch_to(Thr* t) {
  Thr* me = t_self;
  g_total += g_step - g_switch_in;
  me->step = g_step;
  g_cur = t;
  g_step = t->step;
  g_switch_in = g_step;
  hmix(g_schedhash, (uint64_t)t->id << 32 | t->op);
  hmix(g_hash, (uint64_t)t->id << 40 ^ (uint64_t)me->id << 32 ^ g_total);
  if (g_res) g_res->switches++;
  if (g_total > g_max_steps) {
    g_cur = me;
    g_active = 0;
    char msg[600];
    int n = snprintf(msg, sizeof msg, "no completion within %lu simulated steps;", (unsigned long)g_max_steps);
    for (int i = 1; i <= g_nthr && n < 560; ++i)
      if (g_thr[i].state != ST_DONE && !g_thr[i].daemon)
        n += snprintf(msg + n, sizeof msg - n, " t%d(op %u)%s", i, g_thr[i].op,
                      g_thr[i].state == ST_BLOCKED ? g_thr[i].what : "");
    fail_common("liveness:step-cap", msg, 2);
  }
  if (g_verbose && 0) trace("switch");
  g_active = 0;
  t->go = 1;
  futex_wake_raw(&t->go);
  if (me->state == ST_DONE) return;  // thread is exiting; never resumes
  while (!me->go) futex_wait_raw(&me->go, 0);
  me->go = 0;
  // now current again
  arm(me);
  update_active();
}

static int runnable_others(Thr* me, Thr** out) {  // rotation order after me
  int n = 0;
  for (int k = 1; k <= g_nthr; ++k) {
    int id = (me->id - 1 + k) % g_nthr + 1;
    Thr* t = &g_thr[id];
    if (t != me && t->state == ST_RUNNABLE) out[n++] = t;
  }
  return n;
}
static Thr* g_cand[MAX_THREADS];

static int strategy_pick(int n) {
  if (n == 1) return 0;
  uint64_t ts = total_steps();
  if (g_st.mode == 1) {
    int best = -1;
    for (int i = 0; i < n; ++i)
      if (best < 0 || g_cand[i]->prio > g_cand[best]->prio) best = i;
    return best;
  }
  int m = 0;
  static int idx[MAX_THREADS];
  for (int i = 0; i < n; ++i)
    if (g_cand[i]->stalled_until <= ts) idx[m++] = i;
  if (!m) return (int)g_rng.below(n);
  return idx[g_rng.below(m)];
}

static void expire_timers() {
  uint64_t now = now_ns();
  for (int i = 1; i <= g_nthr; ++i) {
    Thr* t = &g_thr[i];
    if (t->state == ST_BLOCKED && t->deadline && t->deadline <= now) {
      t->state = ST_RUNNABLE;
      t->timed_out = true;
      t->waddr = nullptr;
    }
  }
}
static bool advance_to_timer() {
  uint64_t best = 0;
  for (int i = 1; i <= g_nthr; ++i) {
    Thr* t = &g_thr[i];
    if (t->state == ST_BLOCKED && t->deadline && (!best || t->deadline < best)) best = t->deadline;
  }
  if (!best) return false;
  uint64_t now = now_ns();
  if (best > now) {
    g_clock_extra += best - now;
    count("clock_jumps");
  }
  expire_timers();
  return true;
}

static void deadlock() {
  g_active = 0;
  char msg[900];
  int n = snprintf(msg, sizeof msg, "no runnable thread:");
  for (int i = 1; i <= g_nthr && n < 850; ++i) {
    Thr* t = &g_thr[i];
    if (t->state == ST_BLOCKED)
      n += snprintf(msg + n, sizeof msg - n, " t%d%s(op %u) waits on %s;", i, t->daemon ? "[daemon]" : "", t->op,
                    t->what);
  }
  fail_common("liveness:deadlock", msg, 2);
}

// The current thread cannot continue (blocked or done): pick someone else.
static void forced_switch() {
  Thr* me = t_self;
  ++g_step;
  for (;;) {
    expire_timers();
    if (me->state == ST_RUNNABLE) {  // our own timer fired
      arm(me);
      return;
    }
    int n = runnable_others(me, g_cand);
    if (n) {
      uint32_t v = 0;
      if (g_replay) {
        replay_at(&v);
        if (v >= (uint32_t)n) v = v % n;
      } else {
        v = strategy_pick(n);
        if (v) record(v);
      }
      switch_to(g_cand[v]);
      return;
    }
    if (!advance_to_timer()) deadlock();
  }
}

static void preempt_to(uint32_t v1, int n) {  // v1 in 1..n
  switch_to(g_cand[(v1 - 1) % n]);
}

// A possible preemption of the current thread. `want`: the strategy wants one here.
static void maybe_preempt(bool want) {
  Thr* me = t_self;
  if (me->quiet) return;
  uint32_t v = 0;
  if (g_replay) {
    if (!replay_at(&v)) v = 0;
    if (v) {
      expire_timers();
      int n = runnable_others(me, g_cand);
      if (n) {
        preempt_to(v, n);
        return;
      }
    }
  } else if (want) {
    expire_timers();
    int n = runnable_others(me, g_cand);
    if (n) {
      if (g_st.mode == 1) {
        me->prio = g_rng.next() >> 33;  // drop below everyone else's (they have the high bit)
      } else if (g_rng.chance(g_st.p_stall)) {
        me->stalled_until = total_steps() + (1ull << g_rng.range(4, 14));
      }
      int p = strategy_pick(n);
      record(1 + p);
      preempt_to(1 + p, n);
      return;
    }
  }
  if (g_step - g_switch_in >= FAIR) {
    expire_timers();
    int n = runnable_others(me, g_cand);
    if (n) {
      count("fairness_switches");
      preempt_to(1, n);
      return;
    }
    g_total += g_step - g_switch_in;
    g_switch_in = g_step;
    if (g_total > g_max_steps) switch_to(me), (void)0;
  }
  arm(me);
}

static __attribute__((noinline)) void slow_access() { maybe_preempt(g_st.mode != 2); }

static void sync_point() {
  if (!g_sim || !t_self || t_self->quiet) return;
  ++g_step;
  if (g_replay) {
    if (g_step >= g_stop) maybe_preempt(false);
    return;
  }
  bool want = g_rng.chance(g_st.p_sync);
  if (want) maybe_preempt(true);
  else if (g_step >= g_stop) maybe_preempt(g_st.mode != 2);
}
void yield_point() { sync_point(); }

uint32_t choose(uint32_t n, double p) {
  if (!g_sim || !t_self || n < 2) return 0;
  ++g_step;
  uint32_t v = 0;
  if (g_replay) {
    if (!replay_at(&v)) v = 0;
    v %= n;
    arm(t_self);
  } else {
    if (g_rng.chance(p)) v = 1 + (uint32_t)g_rng.below(n - 1);
    if (v) record(v);
    if (g_step >= g_stop) arm(t_self);
  }
  hmix(g_hash, v);
  return v;
}
bool fault(const char* kind, double p) {
  if (!g_faults || !g_sim) return false;
  if (choose(2, p * g_fault_scale)) {
    char nm[40];
    snprintf(nm, sizeof nm, "fault.%s", kind);
    count(nm);
    if (g_verbose) trace("FAULT %s", kind);
    return true;
  }
  return false;
}

void set_op(int op) {
  Thr* t = t_self;
  if (!t) return;
  g_total += g_step - g_switch_in;
  t->op = op;
  t->children = 0;
  g_step = 0;
  g_switch_in = 0;
  arm(t);
}

Quiet::Quiet() {
  if (t_self) {
    ++t_self->quiet;
    update_active();
  }
}
Quiet::~Quiet() {
  if (t_self) {
    --t_self->quiet;
    update_active();
  }
}

static bool block(const void* addr, const char* what, uint64_t deadline) {  // true: timed out
  Thr* me = t_self;
  int q = me->quiet;
  me->state = ST_BLOCKED;
  me->waddr = addr;
  me->what = what;
  me->deadline = deadline;
  me->timed_out = false;
  forced_switch();
  me->deadline = 0;
  me->waddr = nullptr;
  me->quiet = q;
  update_active();
  return me->timed_out;
}
static int wake_addr(const void* addr, int max) {
  int n = 0;
  for (int i = 1; i <= g_nthr && n < max; ++i) {
    Thr* t = &g_thr[i];
    if (t->state == ST_BLOCKED && t->waddr == addr) {
      t->state = ST_RUNNABLE;
      t->waddr = nullptr;
      ++n;
    }
  }
  return n;
}
void block_on(const void* addr, const char* what) { block(addr, what, 0); }
void wake_all(const void* addr) { wake_addr(addr, 1 << 30); }
void set_daemon(bool d) { t_self->daemon = d; }

// ---------------------------------------------------------------------------------
// threads
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static create_t real_create;
static pthread_key_t g_exit_key;

static void thread_exit_hook(void* p) {  // runs after C++ thread_local destructors
  Thr* t = (Thr*)p;
  if (!g_sim) return;
  t->state = ST_DONE;
  wake_addr(t, 1 << 30);
  if (t->id == 1) {
    finish(0);
  }
  g_active = 0;
  forced_switch();
  // Park: anything libc would still do on thread exit must not run next to another thread.
  for (;;) futex_wait_raw(&g_exit_word, 0);
}

static void* tramp(void* p) {
  Thr* t = (Thr*)p;
  t_self = t;
  while (!t->go) futex_wait_raw(&t->go, 0);
  t->go = 0;
  pthread_setspecific(g_exit_key, t);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  arm(t);
  update_active();
  t->ret = t->fn(t->arg);
  return t->ret;
}

static Thr* new_thread(void* (*fn)(void*), void* arg) {
  if (g_nthr + 1 >= MAX_THREADS) fail_common("harness:too-many-threads", "thread limit", 2);
  Thr* t = &g_thr[++g_nthr];
  memset((void*)t, 0, sizeof *t);
  t->id = g_nthr;
  Thr* me = t_self;
  t->name = me ? Rng::mix(me->name * 31 + me->op * 1000003ull + 7 + (uint64_t)(++me->children) * 0x10001) : 0x51;
  t->fn = fn;
  t->arg = arg;
  t->state = ST_RUNNABLE;
  t->prio = (g_replay ? 0 : g_rng.next() >> 1) | (1ull << 62);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void*)(STACK_BASE + STACK_SLOT * (uintptr_t)t->id), STACK_SLOT);
  int a = g_active;
  double afp = g_af_p;  // the thread's own bookkeeping memory is not part of the simulated system
  g_af_p = 0;
  g_active = 0;
  int rc = real_create(&t->real, &at, tramp, t);
  g_active = a;
  g_af_p = afp;
  pthread_attr_destroy(&at);
  if (rc) fail_common("harness:pthread_create", "real pthread_create failed", 2);
  if (g_res) g_res->threads_created++;
  return t;
}

struct SpawnArg {
  ThreadFn fn;
  void* arg;
};
static void* spawn_tramp(void* p) {
  SpawnArg a = *(SpawnArg*)p;
  free(p);
  a.fn(a.arg);
  return nullptr;
}
int spawn(ThreadFn fn, void* arg, bool daemon) {
  double afp = g_af_p;
  g_af_p = 0;
  SpawnArg* a = (SpawnArg*)malloc(sizeof(SpawnArg));
  g_af_p = afp;
  a->fn = fn;
  a->arg = arg;
  Thr* t = new_thread(spawn_tramp, a);
  t->daemon = daemon;
  sync_point();
  return t->id;
}
void join(int tid) {
  Thr* t = &g_thr[tid];
  while (t->state != ST_DONE) block(t, "join", 0);
}

// ---------------------------------------------------------------------------------
// instrumentation
static inline void check_mem(uintptr_t a, size_t n, bool w) {
  if (in_heap(a)) {
    uint8_t s = *shadow_of(a);
    if (UNLIKELY_(s)) {
      if (s >= 8 || (a & 7) + n > s) {
        if (!(s < 8 && (a & 7) + n > 8)) {
          mem_error(s == SH_FREED ? "use-after-free" : "heap-overflow", a, n, w);
          return;
        }
      }
    }
    if (UNLIKELY_((a & 7) + n > 8)) {
      uintptr_t e = a + n - 1;
      uint8_t s2 = *shadow_of(e);
      if (s2 && (s2 >= 8 || (e & 7) >= s2)) mem_error(s2 == SH_FREED ? "use-after-free" : "heap-overflow", a, n, w);
    }
  }
}
static bool g_conf_on;
static inline void conflict(uintptr_t a, bool w) {
  uint32_t* c;
  if (in_heap(a)) c = (uint32_t*)(CONF_BASE + ((a - HEAP_BASE) >> 3) * 4);
  else if (a - STACK_BASE < STACK_SLOT * MAX_THREADS) c = (uint32_t*)(CONFS_BASE + ((a - STACK_BASE) >> 3) * 4);
  else if (a - g_data_lo < g_data_hi - g_data_lo) c = (uint32_t*)(CONFG_BASE + ((a - g_data_lo) >> 3) * 4);
  else return;
  uint32_t me = (uint32_t)g_cur->id;
  uint32_t v = *c;
  uint32_t last = v & 0xffff;
  bool lw = v & 0x10000;
  if (last == me) {
    *c = me | ((lw || w) ? 0x10000 : 0);
    return;
  }
  *c = me | (w ? 0x10000 : (lw ? 0x20000 : 0));
  bool other_wrote = lw || (v & 0x20000);
  if (last && (w || other_wrote)) {
    if (g_rng.chance(g_st.p_conf)) maybe_preempt(true);
  }
}
static inline __attribute__((always_inline)) void access(void* p, size_t n, bool w) {
  if (!g_active) return;
  uintptr_t a = (uintptr_t)p;
  ++g_step;
  check_mem(a, n, w);
  if (UNLIKELY_(g_step >= g_stop)) slow_access();
  else if (g_conf_on) conflict(a, w);
}
static void access_range(void* p, size_t n, bool w) {
  if (!g_active || !n) return;
  uintptr_t a = (uintptr_t)p;
  ++g_step;
  if (in_heap(a)) {
    check_mem(a, 1, w);
    check_mem(a + n - 1, 1, w);
    size_t stride = n > 65536 ? 4096 : 64;
    for (size_t i = stride; i + 1 < n; i += stride) check_mem(a + i, 1, w);
  }
  if (UNLIKELY_(g_step >= g_stop)) slow_access();
  else if (g_conf_on) conflict(a, w);
}

// ---------------------------------------------------------------------------------
// driver-facing
void run_configure(const RunConfig& c) {
  g_res = c.res;
  g_replay = c.replay;
  g_decs = c.decs;
  g_ndecs = c.ndecs;
  g_verbose = c.verbose;
  g_max_steps = c.max_steps;
  g_fault_scale = c.no_faults ? 0.0 : 1.0;
  g_rng.reseed(c.sched_seed);
  // strategy
  double u = (double)(g_rng.next() >> 11) / 9007199254740992.0;
  static const double means[] = {8, 20, 60, 200, 800, 4000};
  static const double psync[] = {0.0, 0.03, 0.1, 0.3};
  static const double pconf[] = {0.0, 0.01, 0.05, 0.2};
  g_st.mode = u < 0.5 ? 0 : u < 0.85 ? 1 : 2;
  g_st.mean = means[g_rng.below(6)];
  g_st.p_sync = psync[g_rng.below(4)];
  g_st.p_conf = pconf[g_rng.below(4)];
  g_st.p_stall = g_rng.chance(0.5) ? 0.5 : 0.1;
  if (g_st.mode == 2) {
    g_st.p_sync = 0.3;
    g_st.p_conf = 0;
  }
  if (g_st.mode == 1) {
    g_st.npct = 1 + (int)g_rng.below(6);
    double len = 200;
    int ex = (int)g_rng.below(9);
    for (int i = 0; i < ex; ++i) len *= 2.2;
    for (int i = 0; i < g_st.npct; ++i) g_st.pct_at[i] = 1 + g_rng.below((uint64_t)len);
    for (int i = 0; i < g_st.npct; ++i)
      for (int j = i + 1; j < g_st.npct; ++j)
        if (g_st.pct_at[j] < g_st.pct_at[i]) {
          uint64_t x = g_st.pct_at[i];
          g_st.pct_at[i] = g_st.pct_at[j];
          g_st.pct_at[j] = x;
        }
    g_st.p_sync = g_rng.chance(0.5) ? 0.0 : 0.01;
    if (g_st.p_conf > 0.05) g_st.p_conf = 0.02;
  }
  g_spurious = g_rng.chance(0.3) ? 0.05 : 0.0;
  g_conf_on = !g_replay && g_st.p_conf > 0;
  if (g_replay) g_spurious = 0.5;  // value irrelevant: decisions come from the record
}

static void (*g_main_fn)(const Plan&);
static const Plan* g_main_plan;
static void* sim_main(void*) {
  g_main_fn(*g_main_plan);
  return nullptr;
}

static void install_handlers() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
  for (int s : sigs) sigaction(s, &sa, nullptr);
}

// In the forked child. Never returns.
void run_main(const Scenario* s, const Plan& plan, bool keep_stderr) {
  if (!keep_stderr) {
    int fd = (int)raw_syscall(SYS_memfd_create, (long)"err", 0, 0, 0, 0, 0);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
      g_stderr_fd = fd;
    }
  }
  install_handlers();
  {
    void* bt[4];
    backtrace(bt, 4);  // force libgcc load outside of a run
  }
  heap_start_run();
  pthread_key_create(&g_exit_key, thread_exit_hook);
  g_main_fn = s->run;
  g_main_plan = &plan;
  g_sim = true;
  Thr* t = new_thread(sim_main, nullptr);
  t->what = "main";
  g_cur = t;
  g_step = 0;
  g_switch_in = 0;
  t->go = 1;
  futex_wake_raw(&t->go);
  for (;;) futex_wait_raw(&g_exit_word, 0);
}

void runtime_init() {
  mem_init();
  real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
}

}  // namespace sim

using namespace sim;

// =====================================================================================
// seams
extern "C" {

// ---- instrumentation ABI --------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                     \
  void __tsan_read##n(void* p) { access(p, n, false); }           \
  void __tsan_write##n(void* p) { access(p, n, true); }           \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); }  \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { access_range(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access_range(p, n, true); }

#define AT(bits, T)                                                                                    \
  T __tsan_atomic##bits##_load(const volatile T* a, int) {                                             \
    access((void*)a, sizeof(T), false);                                                                \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                          \
    access((void*)a, sizeof(T), true);                                                                 \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                          \
  }                                                                                                    \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                          \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                                         \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                                         \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                                         \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                          \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                  \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                                         \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                    \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) {                                        \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                    \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {             \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);            \
  }                                                                                                    \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {               \
    access((void*)a, sizeof(T), true);                                                                 \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);            \
  }                                                                                                    \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                    \
    access((void*)a, sizeof(T), true);                                                                 \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
    return c;                                                                                          \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- memory intrinsics in code under test (ld --wrap) ---------------------------------
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  access_range((void*)s, n, false);
  access_range(d, n, true);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  access_range((void*)s, n, false);
  access_range(d, n, true);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  access_range(d, n, true);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  access_range((void*)a, n, false);
  access_range((void*)b, n, false);
  return __real_memcmp(a, b, n);
}

// ---- allocator --------------------------------------------------------------------------
static bool alloc_fails(size_t n) {
  if (g_af_p > 0 && n >= g_af_min && g_sim && t_self && !t_self->quiet && g_faults) return fault("alloc-fail", g_af_p);
  return false;
}
void* malloc(size_t n) {
  if (UNLIKELY_(g_af_p > 0) && alloc_fails(n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return heap_alloc(n, 16, false);
}
void free(void* p) { heap_free(p); }
void* calloc(size_t a, size_t b) {
  if (UNLIKELY_(g_af_p > 0) && alloc_fails(a * b)) return nullptr;
  return heap_alloc(a * b, 16, true);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) {
    heap_free(p);
    return nullptr;
  }
  if (UNLIKELY_(g_af_p > 0) && alloc_fails(n)) return nullptr;
  void* q = heap_alloc(n, 16, false);
  if (!q) return nullptr;
  Hdr* h = (Hdr*)((uintptr_t)p - 16);
  size_t o = in_heap((uintptr_t)p) ? (size_t)h->size : n;
  memcpy(q, p, o < n ? o : n);
  heap_free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return heap_alloc(n, al, false); }
void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, false); }
void* valloc(size_t n) { return heap_alloc(n, 4096, false); }
int posix_memalign(void** out, size_t al, size_t n) {
  *out = heap_alloc(n, al, false);
  return *out ? 0 : ENOMEM;
}
void* reallocarray(void* p, size_t a, size_t b) { return realloc(p, a * b); }
size_t malloc_usable_size(void* p) { return p ? (size_t)((Hdr*)((uintptr_t)p - 16))->size : 0; }

// ---- mutex --------------------------------------------------------------------------------
// State lives in the pthread object itself: __owner = thread id + 1, __count = recursion.
static inline int my_id() { return (g_sim && t_self) ? t_self->id + 1 : 1; }
static void chk(void* m, size_t n) {
  if (g_sim && t_self && !t_self->quiet) check_mem((uintptr_t)m, n, true);
}
static int sim_mlock(pthread_mutex_t* m, uint64_t deadline) {
  sync_point();
  chk(m, 4);
  int me = my_id();
  while (m->__data.__owner != 0) {
    int kind = m->__data.__kind & 3;
    if (m->__data.__owner == me) {
      if (kind == PTHREAD_MUTEX_RECURSIVE) {
        ++m->__data.__count;
        return 0;
      }
      if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
      if (!g_sim) abort();
      fail_common("liveness:deadlock", "thread relocks a mutex it already holds", 2);
    }
    if (!g_sim) abort();
    if (block(m, "mutex", deadline)) return ETIMEDOUT;
    chk(m, 4);
  }
  m->__data.__owner = me;
  m->__data.__count = 1;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return sim_mlock(m, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  sync_point();
  chk(m, 4);
  int me = my_id();
  if (m->__data.__owner == 0) {
    m->__data.__owner = me;
    m->__data.__count = 1;
    return 0;
  }
  if (m->__data.__owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    ++m->__data.__count;
    return 0;
  }
  return EBUSY;
}
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return sim_mlock(m, ts_ns(t)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) { return sim_mlock(m, ts_ns(t)); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  chk(m, 4);
  if (m->__data.__owner == 0) return EPERM;
  if ((int)--m->__data.__count > 0 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) return 0;
  m->__data.__owner = 0;
  m->__data.__count = 0;
  if (g_sim && t_self) {
    wake_addr(m, 1 << 30);
    sync_point();
  }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  chk(m, 4);
  return m->__data.__owner ? EBUSY : 0;
}

// ---- rwlock: glibc default policy (readers preferred) ----------------------------------------
struct RW_ {
  unsigned readers;
  unsigned writer;
};
static int rdlock(pthread_rwlock_t* l, uint64_t deadline, bool tryit) {
  sync_point();
  chk(l, 8);
  RW_* r = (RW_*)l;
  unsigned me = my_id();
  while (r->writer) {
    if (r->writer == me) return tryit ? EBUSY : EDEADLK;
    if (tryit) return EBUSY;
    if (!g_sim) abort();
    if (block(l, "rwlock(read)", deadline)) return ETIMEDOUT;
    chk(l, 8);
  }
  ++r->readers;
  return 0;
}
static int wrlock(pthread_rwlock_t* l, uint64_t deadline, bool tryit) {
  sync_point();
  chk(l, 8);
  RW_* r = (RW_*)l;
  unsigned me = my_id();
  while (r->writer || r->readers) {
    if (r->writer == me) return tryit ? EBUSY : EDEADLK;
    if (tryit) return EBUSY;
    if (!g_sim) abort();
    if (block(l, "rwlock(write)", deadline)) return ETIMEDOUT;
    chk(l, 8);
  }
  r->writer = me;
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rdlock(l, 0, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return wrlock(l, 0, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rdlock(l, 0, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return wrlock(l, 0, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) { return rdlock(l, ts_ns(t), false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) { return wrlock(l, ts_ns(t), false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const struct timespec* t) {
  return rdlock(l, ts_ns(t), false);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const struct timespec* t) {
  return wrlock(l, ts_ns(t), false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  chk(l, 8);
  RW_* r = (RW_*)l;
  if (r->writer) r->writer = 0;
  else if (r->readers) --r->readers;
  else return EPERM;
  if (g_sim && t_self) {
    if (!r->readers) wake_addr(l, 1 << 30);
    sync_point();
  }
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
  memset((void*)l, 0, sizeof *l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) {
  chk(l, 8);
  return 0;
}

// ---- condition variables ----------------------------------------------------------------------
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  if (!g_sim || !t_self) abort();
  chk(c, 8);
  int me = my_id();
  unsigned cnt = m->__data.__count;
  (void)me;
  m->__data.__owner = 0;
  m->__data.__count = 0;
  wake_addr(m, 1 << 30);
  bool to = false;
  if (choose(2, g_spurious)) {
    count("fault.spurious-wakeup");
    sync_point();
  } else {
    to = block(c, "condvar", deadline);
  }
  while (m->__data.__owner != 0) {
    block(m, "mutex", 0);
  }
  m->__data.__owner = my_id();
  m->__data.__count = cnt;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  return cwait(c, m, ts_ns(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  return cwait(c, m, ts_ns(t));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!g_sim || !t_self) return 0;
  sync_point();
  chk(c, 8);
  int n = 0;
  int ids[64];
  for (int i = 1; i <= g_nthr && n < 64; ++i)
    if (g_thr[i].state == ST_BLOCKED && g_thr[i].waddr == c) ids[n++] = i;
  if (n) {
    int k = n > 1 ? (int)choose(n, 0.6) : 0;
    Thr* t = &g_thr[ids[k]];
    t->state = ST_RUNNABLE;
    t->waddr = nullptr;
  }
  sync_point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_sim || !t_self) return 0;
  sync_point();
  chk(c, 8);
  wake_addr(c, 1 << 30);
  sync_point();
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset((void*)c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  chk(c, 8);
  return 0;
}

// ---- once ---------------------------------------------------------------------------------------
int pthread_once(pthread_once_t* o, void (*fn)()) {
  sync_point();
  for (;;) {
    int v = *(volatile int*)o;
    if (v == 2) return 0;
    if (v == 0) {
      *(volatile int*)o = 1;
      try {
        fn();
      } catch (...) {
        *(volatile int*)o = 0;
        if (g_sim && t_self) wake_addr(o, 1 << 30);
        throw;
      }
      *(volatile int*)o = 2;
      if (g_sim && t_self) wake_addr(o, 1 << 30);
      return 0;
    }
    if (!g_sim || !t_self) return 0;
    block(o, "once", 0);
  }
}

// ---- threads --------------------------------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!g_sim || !t_self) {
    if (!real_create) runtime_init();
    return real_create(out, attr, fn, arg);
  }
  if (g_tf_p > 0 && !t_self->quiet && fault("thread-create-fail", g_tf_p)) return EAGAIN;
  sync_point();
  Thr* t = new_thread(fn, arg);
  *out = t->real;
  sync_point();
  return 0;
}
static Thr* by_real(pthread_t p) {
  for (int i = 1; i <= g_nthr; ++i)
    if (g_thr[i].real == p) return &g_thr[i];
  return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
  if (!g_sim || !t_self) return 0;
  sync_point();
  Thr* t = by_real(p);
  if (!t) return ESRCH;
  while (t->state != ST_DONE) block(t, "join", 0);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (g_sim && t_self)
    if (Thr* t = by_real(p)) t->detached = true;
  return 0;
}
int sched_yield() {
  if (g_sim && t_self) {
    Thr* me = t_self;
    if (me->quiet) return 0;
    ++g_step;
    expire_timers();
    int n = runnable_others(me, g_cand);
    if (n) {
      uint32_t v = 0;
      if (g_replay) {
        replay_at(&v);
        v %= n;
      } else {
        v = strategy_pick(n);
        if (g_st.mode == 1) me->prio = g_rng.next() >> 33;
        if (v) record(v);
      }
      switch_to(g_cand[v]);
    } else {
      advance_to_timer();
      arm(me);
    }
  }
  return 0;
}

// ---- clocks ------------------------------------------------------------------------------------------
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_sim) return (int)raw_syscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  uint64_t n = now_ns();
  ts->tv_sec = n / 1000000000ull;
  ts->tv_nsec = n % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* __restrict tv, void* __restrict) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static int sim_sleep(uint64_t ns) {
  sync_point();
  block(nullptr, "sleep", now_ns() + (ns ? ns : 1));
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) {
  if (!g_sim || !t_self) return (int)raw_syscall(SYS_nanosleep, (long)t, 0, 0, 0, 0, 0);
  return sim_sleep(ts_ns(t));
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* t, struct timespec* rem) {
  if (!g_sim || !t_self) return (int)raw_syscall(SYS_clock_nanosleep, id, flags, (long)t, (long)rem, 0, 0);
  uint64_t d = ts_ns(t);
  if (flags & TIMER_ABSTIME) {
    uint64_t n = now_ns();
    d = d > n ? d - n : 0;
  }
  return sim_sleep(d);
}
int usleep(useconds_t u) {
  struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec t = {(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
// Simulated time-stamp counter (1 cycle per simulated ns), used by the guarded hook.
uint64_t hdk_sim_cycle_counter() { return now_ns(); }

int get_nprocs() { return g_nprocs; }

// ---- futex and pass-through syscalls -------------------------------------------------------------------
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && g_sim && t_self) {
    int op = (int)b & 127 & ~FUTEX_CLOCK_REALTIME;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point();
      if (*(volatile int*)a != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      uint64_t dl = 0;
      if (d) {
        dl = ts_ns((struct timespec*)d);
        if (op == FUTEX_WAIT) dl += now_ns();
      }
      if (block((void*)a, "futex", dl)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int k = wake_addr((void*)a, (int)c);
      sync_point();
      return k;
    }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
}  // extern "C"
