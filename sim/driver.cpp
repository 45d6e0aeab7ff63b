// Search driver: seeded runs, aggregation, violation gate, minimiser, replay files.
// C-style on purpose (see sim.cpp).
#include "sim.h"
#include "simint.h"

#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
static Scenario* g_scen;
void register_scenario(Scenario* s) {
  s->link = g_scen;
  g_scen = s;
}
void Plan::set(const char* k, int64_t v) {
  for (int i = 0; i < ncfg; ++i)
    if (!strcmp(cfg[i].key, k)) {
      cfg[i].val = v;
      return;
    }
  if (ncfg >= kMaxCfg) abort();
  snprintf(cfg[ncfg].key, sizeof cfg[ncfg].key, "%s", k);
  cfg[ncfg++].val = v;
}
int64_t Plan::get(const char* k, int64_t def) const {
  for (int i = 0; i < ncfg; ++i)
    if (!strcmp(cfg[i].key, k)) return cfg[i].val;
  return def;
}
void Plan::add(int th, int kind, int64_t a0, int64_t a1, int64_t a2, int64_t a3, int64_t a4, int64_t a5) {
  if (nops >= kMaxOps) return;
  Op& o = ops[nops];
  o.id = nops + 1;
  o.thread = th;
  o.kind = kind;
  o.a[0] = a0;
  o.a[1] = a1;
  o.a[2] = a2;
  o.a[3] = a3;
  o.a[4] = a4;
  o.a[5] = a5;
  ++nops;
}
}  // namespace sim
using namespace sim;

static void* shared_map(size_t n) {
  // Fixed addresses away from everything else: what the code under test maps afterwards
  // lands at the same place in a search and in a replay.
  static char* at = (char*)0x600000000000;
  void* want = at;
  at += (n + 0x1fffff) & ~(size_t)0xfffff;
  void* p = mmap(want, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return p;
}

struct Agg {  // one per worker
  uint64_t runs, faultfree, faulted_runs, steps, sim_ns, switches, threads, ops, decs, max_threads;
  uint64_t det_checked, det_mismatch, nonrepro, killed, overflow;
  uint64_t violations;
  struct {
    char name[40];
    uint64_t n, runs;
  } cnt[192];
};
struct Shared {
  volatile uint64_t next;
  volatile int stop;
  volatile int nviol;
  uint64_t distinct;
  uint64_t distinct_end;
  char sample[3][600];
  volatile int nsample;
};
static const size_t TBL = 1 << 23;
static Shared* S;
static Agg* A;
static volatile uint64_t* T1;
static volatile uint64_t* T2;
static bool tbl_add(volatile uint64_t* t, uint64_t h) {
  if (!h) h = 1;
  size_t i = h & (TBL - 1);
  for (int k = 0; k < 256; ++k, i = (i + 1) & (TBL - 1)) {
    uint64_t v = t[i];
    if (v == h) return false;
    if (v == 0) {
      if (__sync_bool_compare_and_swap(&t[i], 0, h)) return true;
      if (t[i] == h) return false;
    }
  }
  return false;
}

static RunResult* R;  // per worker, shared with its children
static Plan* P;       // per worker
static Dec* D;        // per worker: decision input
static int g_alarm = 60;

struct Outcome {
  int status;  // 0 ok, 1 violation, 2 killed (harness)
  char cls[64];
  uint64_t hash;
};

static void reset_result() {
  R->status = -1;
  R->cls[0] = R->msg[0] = R->tail[0] = 0;
  R->nbt = 0;
  R->ndecs = 0;
  R->dec_overflow = 0;
  R->steps = R->sim_ns = R->hash = R->schedhash = R->switches = R->threads_created = 0;
  R->nthreads = 0;
  memset(R->cnt, 0, sizeof R->cnt);
}

static Outcome run_once(const Scenario* s, const Plan& plan, uint64_t seed, bool no_faults, const Dec* decs, int ndecs,
                        bool verbose) {
  reset_result();
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(g_alarm);
    RunConfig c;
    memset(&c, 0, sizeof c);
    c.res = R;
    c.replay = decs != nullptr;
    c.decs = (Dec*)decs;
    c.ndecs = ndecs;
    c.verbose = verbose;
    c.no_faults = no_faults;
    c.max_steps = s->max_steps ? s->max_steps : 20000000;
    c.sched_seed = seed;
    run_configure(c);
    run_main(s, plan, verbose);
  }
  Outcome o;
  memset(&o, 0, sizeof o);
  if (pid < 0) {
    o.status = 2;
    snprintf(o.cls, sizeof o.cls, "harness:fork");
    return o;
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (R->status == 0 || R->status == 1) {
    o.status = R->status;
    snprintf(o.cls, sizeof o.cls, "%s", R->cls);
    o.hash = R->hash;
    return o;
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
    o.status = 1;
    snprintf(R->cls, sizeof R->cls, "liveness:wall-hang");
    snprintf(R->msg, sizeof R->msg, "run made no observable progress for %d s of wall time", g_alarm);
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    o.status = 2;
    snprintf(R->cls, sizeof R->cls, "harness:killed");
  } else {
    o.status = 1;
    snprintf(R->cls, sizeof R->cls, "crash:unexpected-exit");
    snprintf(R->msg, sizeof R->msg, "process ended inside a run, wait status 0x%x", st);
  }
  snprintf(o.cls, sizeof o.cls, "%s", R->cls);
  return o;
}

static int dec_sort(const void* a, const void* b) {
  const Dec *x = (const Dec*)a, *y = (const Dec*)b;
  if (x->th != y->th) return x->th < y->th ? -1 : 1;
  if (x->op != y->op) return x->op < y->op ? -1 : 1;
  if (x->step != y->step) return x->step < y->step ? -1 : 1;
  return 0;
}

// ---- replay files -------------------------------------------------------------------------
static void one_line(char* s) {
  for (; *s; ++s)
    if (*s == '\n' || *s == '\r') *s = ' ';
}
static void write_replay(const char* path, const Scenario* s, uint64_t seed, const char* cls, const char* msg,
                         const Plan& p, const Dec* d, int nd, uint64_t hash, const char* tail, const uint64_t* bt,
                         int nbt) {
  FILE* f = fopen(path, "w");
  if (!f) {
    perror(path);
    return;
  }
  fprintf(f, "# deterministic simulation replay (see DESIGN.md); run: ./check.py --replay <this file>\n");
  fprintf(f, "prop %s\nscenario %s\nseed %lu\nclass %s\nhash %016lx\n", s->prop, s->name, (unsigned long)seed, cls,
          (unsigned long)hash);
  char m[1000];
  snprintf(m, sizeof m, "%s", msg);
  one_line(m);
  fprintf(f, "msg %s\n", m);
  for (int i = 0; i < p.ncfg; ++i) fprintf(f, "cfg %s %ld\n", p.cfg[i].key, (long)p.cfg[i].val);
  for (int i = 0; i < p.nops; ++i) {
    const Op& o = p.ops[i];
    fprintf(f, "op %d %d %d %ld %ld %ld %ld %ld %ld # thread %d %s\n", o.id, o.thread, o.kind, (long)o.a[0],
            (long)o.a[1], (long)o.a[2], (long)o.a[3], (long)o.a[4], (long)o.a[5], o.thread,
            s->op_names ? s->op_names[o.kind] : "");
  }
  for (int i = 0; i < nd; ++i)
    fprintf(f, "dec %016lx %u %u %u\n", (unsigned long)d[i].th, d[i].op, d[i].step, d[i].val);
  for (int i = 0; i < nbt; ++i) fprintf(f, "# bt %lx\n", (unsigned long)bt[i]);
  const char* t = tail;
  while (t && *t) {
    const char* e = strchr(t, '\n');
    int n = e ? (int)(e - t) : (int)strlen(t);
    fprintf(f, "# stderr: %.*s\n", n, t);
    t += n + (e ? 1 : 0);
  }
  fclose(f);
}
static Scenario* find_scen(const char* prop, const char* name) {
  for (Scenario* s = g_scen; s; s = s->link)
    if (!strcmp(s->prop, prop) && !strcmp(s->name, name)) return s;
  return nullptr;
}

// ---- minimisation ---------------------------------------------------------------------------
static bool g_min_any_memory(const char* a, const char* b) { return !strcmp(a, b); }
static bool try_candidate(const Scenario* s, const Plan& p, const Dec* d, int nd, const char* cls) {
  Outcome o = run_once(s, p, 1, false, d, nd, false);
  return o.status == 1 && g_min_any_memory(o.cls, cls);
}
struct MinState {
  Plan plan;
  int nd;
  Dec d[RunResult::MAXDEC];
};
static void minimise(const Scenario* s, MinState* m, MinState* c, const char* cls, uint64_t deadline) {
  // 1. drop operations (delta debugging, largest chunks first)
  for (int chunk = m->plan.nops / 2; chunk >= 1; chunk /= 2) {
    bool again = true;
    while (again) {
      again = false;
      for (int at = 0; at < m->plan.nops;) {
        if (real_now_ns() > deadline) return;
        int n = chunk;
        if (at + n > m->plan.nops) n = m->plan.nops - at;
        memcpy((void*)&c->plan, (void*)&m->plan, sizeof(Plan));
        memmove(&c->plan.ops[at], &c->plan.ops[at + n], sizeof(Op) * (m->plan.nops - at - n));
        c->plan.nops -= n;
        if (try_candidate(s, c->plan, m->d, m->nd, cls)) {
          memcpy((void*)&m->plan, (void*)&c->plan, sizeof(Plan));
          if (chunk == 1) again = true;
        } else {
          at += n;
        }
      }
      if (chunk > 1) break;
    }
  }
  // 2. drop decisions (preemptions, faults) back to the default
  for (int chunk = (m->nd + 1) / 2; chunk >= 1; chunk /= 2) {
    for (int at = 0; at < m->nd;) {
      if (real_now_ns() > deadline) return;
      int n = chunk;
      if (at + n > m->nd) n = m->nd - at;
      memcpy(c->d, m->d, sizeof(Dec) * at);
      memcpy(c->d + at, m->d + at + n, sizeof(Dec) * (m->nd - at - n));
      c->nd = m->nd - n;
      if (try_candidate(s, m->plan, c->d, c->nd, cls)) {
        memcpy(m->d, c->d, sizeof(Dec) * c->nd);
        m->nd = c->nd;
      } else {
        at += n;
      }
    }
  }
}

// ---- worker -------------------------------------------------------------------------------------
struct Opt {
  const char* prop = nullptr;
  const char* scenario = nullptr;
  uint64_t seed = 1;
  uint64_t first = 0;
  uint64_t runs = 1000;
  double time_s = 30;
  int workers = 8;
  const char* out = nullptr;
  const char* replay_dir = nullptr;
  const char* replay = nullptr;
  bool verbose = false;
  int max_viol = 3;
  double min_s = 30;
  bool keep_going = false;
};
static Opt O;
static Scenario* g_sel[64];
static int g_nsel;

static uint64_t run_seed(uint64_t base, const Scenario* s, uint64_t idx) {
  uint64_t h = 0xcbf29ce484222325ull ^ base;
  for (const char* c = s->prop; *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  for (const char* c = s->name; *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  return Rng::mix(Rng::mix(h) ^ (idx * 0x9e3779b97f4a7c15ull + 1));
}
static void make_plan(const Scenario* s, uint64_t seed) {
  P->ncfg = P->nops = 0;
  Rng r(seed ^ 0x706c616e);
  s->gen(r, *P);
}
static void merge_counts(Agg* a) {
  bool anyf = false;
  for (int i = 0; i < RunResult::NCNT && R->cnt[i].name[0]; ++i) {
    if (!strncmp(R->cnt[i].name, "fault.", 6)) anyf = true;
    for (int j = 0; j < 192; ++j) {
      if (!a->cnt[j].name[0]) memcpy(a->cnt[j].name, R->cnt[i].name, 40);
      if (!strcmp(a->cnt[j].name, R->cnt[i].name)) {
        a->cnt[j].n += R->cnt[i].n;
        a->cnt[j].runs++;
        break;
      }
    }
  }
  if (anyf) a->faulted_runs++;
}

static void worker(int w) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  cpu_set_t cs;
  CPU_ZERO(&cs);
  CPU_SET(w % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  heap_use_arena(2);
  R = (RunResult*)shared_map(sizeof(RunResult));
  P = (Plan*)shared_map(sizeof(Plan));
  MinState* m = (MinState*)shared_map(sizeof(MinState));
  MinState* c = (MinState*)shared_map(sizeof(MinState));
  Agg* a = &A[w];
  uint64_t end = real_now_ns() + (uint64_t)(O.time_s * 1e9);
  for (;;) {
    if (S->stop || real_now_ns() > end) break;
    uint64_t idx = __sync_fetch_and_add(&S->next, 1);
    if (idx >= O.runs) break;
    idx += O.first;
    const Scenario* s = g_sel[idx % g_nsel];
    uint64_t seed = run_seed(O.seed, s, idx);
    bool nof = Rng::mix(seed) % 3 == 0;
    make_plan(s, seed);
    Outcome o = run_once(s, *P, seed, nof, nullptr, 0, false);
    if (o.status == 2) {
      a->killed++;
      continue;
    }
    a->runs++;
    if (nof) a->faultfree++;
    a->steps += R->steps;
    a->sim_ns += R->sim_ns;
    a->switches += R->switches;
    a->threads += R->nthreads;
    if ((uint64_t)R->nthreads > a->max_threads) a->max_threads = R->nthreads;
    a->ops += P->nops;
    a->decs += R->ndecs;
    if (R->dec_overflow) a->overflow++;
    merge_counts(a);
    if (R->switches > 2 && tbl_add(T1, R->schedhash)) __sync_fetch_and_add(&S->distinct, 1);
    if (tbl_add(T2, R->hash)) __sync_fetch_and_add(&S->distinct_end, 1);
    if (S->nsample < 3) {
      int k = __sync_fetch_and_add(&S->nsample, 1);
      if (k < 3) {
        int n = snprintf(S->sample[k], 600, "%s/%s seed=%lu ops=%d threads=%d steps=%lu switches=%lu decisions=%d [",
                         s->prop, s->name, (unsigned long)seed, P->nops, R->nthreads, (unsigned long)R->steps,
                         (unsigned long)R->switches, R->ndecs);
        for (int i = 0; i < P->nops && i < 6 && n < 450; ++i)
          n += snprintf(S->sample[k] + n, 600 - n, "%st%d:%s(%ld,%ld,%ld)", i ? " " : "", P->ops[i].thread,
                        s->op_names ? s->op_names[P->ops[i].kind] : "op", (long)P->ops[i].a[0], (long)P->ops[i].a[1],
                        (long)P->ops[i].a[2]);
        snprintf(S->sample[k] + n, 600 - n, "%s]", P->nops > 6 ? " ..." : "");
      }
    }
    if (o.status == 0) {
      if (idx % 101 == 0) {  // determinism self-check: the same seed twice
        Outcome o2 = run_once(s, *P, seed, nof, nullptr, 0, false);
        a->det_checked++;
        if (o2.status != 0 || o2.hash != o.hash) a->det_mismatch++;
      }
      continue;
    }
    // ---- candidate violation: gate, minimise, write ----
    char cls[64], msg[900];
    snprintf(cls, sizeof cls, "%s", o.cls);
    snprintf(msg, sizeof msg, "%s", R->msg);
    m->nd = R->ndecs;
    memcpy(m->d, R->decs, sizeof(Dec) * R->ndecs);
    qsort(m->d, m->nd, sizeof(Dec), dec_sort);
    Outcome o2 = run_once(s, *P, seed, nof, nullptr, 0, false);
    bool same = o2.status == 1 && !strcmp(o2.cls, cls) && o2.hash == o.hash;
    Outcome o3 = run_once(s, *P, 1, false, m->d, m->nd, false);
    bool rep = o3.status == 1 && !strcmp(o3.cls, cls);
    if (O.verbose)
      fprintf(stderr, "candidate %s/%s idx=%lu seed=%lu class=%s same=%d replay=%d(%s) nd=%d msg=%s\n%s\n", s->prop,
              s->name, (unsigned long)idx, (unsigned long)seed, cls, same, rep, o3.cls, m->nd, msg, R->tail);
    if (!same || !rep) {
      a->nonrepro++;
      fprintf(stderr, "note: non-reproducible candidate %s/%s seed=%lu class=%s same=%d replay=%d: %s\n", s->prop,
              s->name, (unsigned long)seed, cls, same, rep, msg);
      continue;
    }
    a->violations++;
    int k = __sync_fetch_and_add(&S->nviol, 1);
    if (k >= O.max_viol) {
      S->stop = 1;
      break;
    }
    if (!O.keep_going) S->stop = 1;
    memcpy((void*)&m->plan, (void*)P, sizeof(Plan));
    minimise(s, m, c, cls, real_now_ns() + (uint64_t)(O.min_s * 1e9));
    Outcome o4 = run_once(s, m->plan, 1, false, m->d, m->nd, false);
    char path[512];
    snprintf(path, sizeof path, "%s/%s-%s-%lu.replay", O.replay_dir ? O.replay_dir : ".", s->prop, s->name,
             (unsigned long)seed);
    write_replay(path, s, seed, o4.cls, R->msg, m->plan, m->d, m->nd, R->hash, R->tail, R->bt, R->nbt);
    fprintf(stdout, "CANDIDATE %s\n", path);
    fflush(stdout);
  }
  _exit(0);
}

static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f);
    else if ((unsigned char)*s < 32) fputc(' ', f);
    else fputc(*s, f);
  }
  fputc('"', f);
}

// Reads the scenario of a replay file without touching the heap: it has to look the same
// to the scenario's init in a search and in a replay.
static Scenario* replay_scenario(char* prop, char* name) {
  static char head[4096];
  int fd = open(O.replay, O_RDONLY);
  if (fd < 0) {
    perror(O.replay);
    exit(3);
  }
  ssize_t n = read(fd, head, sizeof head - 1);
  close(fd);
  head[n > 0 ? n : 0] = 0;
  auto field = [&](const char* key, char* out) {
    const char* b = strstr(head, key);
    int k = 0;
    if (b)
      for (b += strlen(key); *b && *b != '\n' && k < 63; ++b) out[k++] = *b;
    out[k] = 0;
  };
  field("\nprop ", prop);
  field("\nscenario ", name);
  return find_scen(prop, name);
}

static int do_replay() {
  char prop[64], name[64];
  Scenario* s = replay_scenario(prop, name);
  if (!s) {
    fprintf(stderr, "unknown scenario %s/%s\n", prop, name);
    return 3;
  }
  if (s->init) s->init();
  heap_use_arena(2);
  FILE* f = fopen(O.replay, "r");
  if (!f) {
    perror(O.replay);
    return 3;
  }
  R = (RunResult*)shared_map(sizeof(RunResult));
  P = (Plan*)shared_map(sizeof(Plan));
  MinState* m = (MinState*)shared_map(sizeof(MinState));
  char line[2000], cls[64] = "";
  unsigned long hash = 0;
  P->ncfg = P->nops = 0;
  while (fgets(line, sizeof line, f)) {
    char k[64];
    long v;
    if (line[0] == '#') continue;
    if (sscanf(line, "class %63s", cls) == 1) continue;
    if (sscanf(line, "hash %lx", &hash) == 1) continue;
    if (sscanf(line, "cfg %63s %ld", k, &v) == 2) {
      P->set(k, v);
      continue;
    }
    Op o;
    long a[6];
    if (sscanf(line, "op %d %d %d %ld %ld %ld %ld %ld %ld", &o.id, &o.thread, &o.kind, a, a + 1, a + 2, a + 3, a + 4,
               a + 5) == 9) {
      for (int i = 0; i < 6; ++i) o.a[i] = a[i];
      P->ops[P->nops++] = o;
      continue;
    }
    unsigned long th;
    Dec d;
    memset(&d, 0, sizeof d);
    if (sscanf(line, "dec %lx %u %u %u", &th, &d.op, &d.step, &d.val) == 4) {
      d.th = th;
      m->d[m->nd++] = d;
    }
  }
  fclose(f);
  qsort(m->d, m->nd, sizeof(Dec), dec_sort);
  Outcome o = run_once(s, *P, 1, false, m->d, m->nd, O.verbose);
  printf("replay %s/%s: status=%d class=%s hash=%016lx (recorded class=%s hash=%016lx) steps=%lu\n", prop, name,
         o.status, o.cls, (unsigned long)o.hash, cls, hash, (unsigned long)R->steps);
  if (o.status == 1) {
    printf("message: %s\n%s\n", R->msg, R->tail);
    for (int i = 0; i < R->nbt; ++i) printf("bt %lx\n", (unsigned long)R->bt[i]);
    return !strcmp(o.cls, cls) && o.hash == hash ? 1 : 2;
  }
  return 0;
}

int main(int argc, char** argv) {
  // Fixed address space: needed for pointer-value determinism across processes.
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = (int)raw_syscall(SYS_personality, 0xffffffff);
    raw_syscall(SYS_personality, p | 0x0040000);
    execv("/proc/self/exe", argv);
  }
  runtime_init();
  for (int i = 1; i < argc; ++i) {
    const char* a = argv[i];
    auto nx = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
    if (!strcmp(a, "--prop")) O.prop = nx();
    else if (!strcmp(a, "--scenario")) O.scenario = nx();
    else if (!strcmp(a, "--seed")) O.seed = strtoull(nx(), 0, 10);
    else if (!strcmp(a, "--first")) O.first = strtoull(nx(), 0, 10);
    else if (!strcmp(a, "--runs")) O.runs = strtoull(nx(), 0, 10);
    else if (!strcmp(a, "--time")) O.time_s = atof(nx());
    else if (!strcmp(a, "--workers")) O.workers = atoi(nx());
    else if (!strcmp(a, "--out")) O.out = nx();
    else if (!strcmp(a, "--replay-dir")) O.replay_dir = nx();
    else if (!strcmp(a, "--replay")) O.replay = nx();
    else if (!strcmp(a, "-v")) O.verbose = true;
    else if (!strcmp(a, "--keep-going")) O.keep_going = true;
    else if (!strcmp(a, "--max-viol")) O.max_viol = atoi(nx());
    else if (!strcmp(a, "--min-s")) O.min_s = atof(nx());
    else if (!strcmp(a, "--alarm")) g_alarm = atoi(nx());
    else if (!strcmp(a, "--list")) {
      for (Scenario* s = g_scen; s; s = s->link) printf("%s %s\n", s->prop, s->name);
      return 0;
    }
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (O.replay) return do_replay();
  for (Scenario* s = g_scen; s; s = s->link)
    if ((!O.prop || !strcmp(O.prop, s->prop)) && (!O.scenario || !strcmp(O.scenario, s->name))) g_sel[g_nsel++] = s;
  if (!g_nsel) {
    fprintf(stderr, "no scenario\n");
    return 3;
  }
  // deterministic order, independent of link order
  for (int i = 0; i < g_nsel; ++i)
    for (int j = i + 1; j < g_nsel; ++j)
      if (strcmp(g_sel[j]->name, g_sel[i]->name) < 0) {
        Scenario* t = g_sel[i];
        g_sel[i] = g_sel[j];
        g_sel[j] = t;
      }
  for (int i = 0; i < g_nsel; ++i)
    if (g_sel[i]->init) g_sel[i]->init();
  heap_use_arena(2);
  S = (Shared*)shared_map(sizeof(Shared));
  A = (Agg*)shared_map(sizeof(Agg) * 64);
  T1 = (volatile uint64_t*)shared_map(TBL * 8);
  T2 = (volatile uint64_t*)shared_map(TBL * 8);
  if (O.workers > 64) O.workers = 64;
  uint64_t t0 = real_now_ns();
  fflush(stdout);
  fflush(stderr);
  for (int w = 0; w < O.workers; ++w)
    if (fork() == 0) worker(w);
  int st;
  while (wait(&st) > 0 || errno == EINTR) {
  }
  double wall = (real_now_ns() - t0) / 1e9;
  Agg t;
  memset(&t, 0, sizeof t);
  for (int w = 0; w < O.workers; ++w) {
    Agg* a = &A[w];
    t.runs += a->runs;
    t.faultfree += a->faultfree;
    t.faulted_runs += a->faulted_runs;
    t.steps += a->steps;
    t.sim_ns += a->sim_ns;
    t.switches += a->switches;
    t.threads += a->threads;
    if (a->max_threads > t.max_threads) t.max_threads = a->max_threads;
    t.ops += a->ops;
    t.decs += a->decs;
    t.det_checked += a->det_checked;
    t.det_mismatch += a->det_mismatch;
    t.nonrepro += a->nonrepro;
    t.killed += a->killed;
    t.overflow += a->overflow;
    t.violations += a->violations;
    for (int i = 0; i < 192 && a->cnt[i].name[0]; ++i)
      for (int j = 0; j < 192; ++j) {
        if (!t.cnt[j].name[0]) memcpy(t.cnt[j].name, a->cnt[i].name, 40);
        if (!strcmp(t.cnt[j].name, a->cnt[i].name)) {
          t.cnt[j].n += a->cnt[i].n;
          t.cnt[j].runs += a->cnt[i].runs;
          break;
        }
      }
  }
  FILE* f = O.out ? fopen(O.out, "w") : stdout;
  if (!f) f = stdout;
  fprintf(f, "{\"runs\":%lu,\"faultfree_runs\":%lu,\"runs_with_faults\":%lu,\"steps\":%lu,\"sim_seconds\":%.6f,\"switches\":%lu,\"threads\":%lu,\"max_threads\":%lu,\"ops\":%lu,\"decisions\":%lu,",
          t.runs, t.faultfree, t.faulted_runs, t.steps, t.sim_ns / 1e9, t.switches, t.threads, t.max_threads, t.ops, t.decs);
  fprintf(f, "\"determinism_checked\":%lu,\"determinism_mismatch\":%lu,\"nonreproducible\":%lu,\"killed\":%lu,\"decision_overflow\":%lu,\"violations\":%lu,",
          t.det_checked, t.det_mismatch, t.nonrepro, t.killed, t.overflow, t.violations);
  fprintf(f, "\"distinct_schedules\":%lu,\"distinct_histories\":%lu,\"wall_s\":%.2f,\"counters\":{", S->distinct,
          S->distinct_end, wall);
  for (int j = 0; j < 192 && t.cnt[j].name[0]; ++j) {
    if (j) fputc(',', f);
    json_str(f, t.cnt[j].name);
    fprintf(f, ":[%lu,%lu]", t.cnt[j].n, t.cnt[j].runs);
  }
  fprintf(f, "},\"scenarios\":[");
  for (int i = 0; i < g_nsel; ++i) {
    if (i) fputc(',', f);
    json_str(f, g_sel[i]->name);
  }
  fprintf(f, "],\"samples\":[");
  for (int i = 0; i < 3 && i < S->nsample; ++i) {
    if (i) fputc(',', f);
    json_str(f, S->sample[i]);
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
  return S->nviol ? 1 : 0;
}
