// Deterministic simulation runtime: public interface for scenarios and shims.
// One process = one simulated run. Real OS threads, exactly one of which runs at any
// time; every choice (who runs, where a thread is preempted, which fault fires) is made
// by a seeded PRNG and recorded, so that a run is a pure function of (plan, decisions).
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

namespace sim {

// ---- deterministic PRNG -----------------------------------------------------------
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  void reseed(uint64_t seed) {
    s[0] = mix(seed);
    s[1] = mix(s[0] ^ 0x1234567);
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

// ---- workload plan ------------------------------------------------------------------
constexpr int kMaxArgs = 6;
constexpr int kMaxOps = 4096;
constexpr int kMaxCfg = 160;
struct Op {
  int32_t id;  // decision-key component; survives minimisation of the plan
  int32_t thread;
  int32_t kind;
  int64_t a[kMaxArgs];
};
struct Cfg {
  char key[24];
  int64_t val;
};
struct Plan {
  int ncfg = 0;
  Cfg cfg[kMaxCfg];
  int nops = 0;
  Op ops[kMaxOps];
  void set(const char* k, int64_t v);
  int64_t get(const char* k, int64_t def = 0) const;
  void add(int thread, int kind, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0, int64_t a3 = 0,
           int64_t a4 = 0, int64_t a5 = 0);
};

struct Scenario {
  const char* prop;
  const char* name;
  void (*init)();                  // once, in the zygote, before any run (may be null)
  void (*gen)(Rng&, Plan&);        // make a random plan
  void (*run)(const Plan&);        // execute it (simulated); report with sim::fail
  const char* const* op_names;     // for printing; null-terminated
  uint64_t max_steps;              // liveness cap on simulated steps
  Scenario* link = nullptr;
};
void register_scenario(Scenario* s);
struct Registrar {
  explicit Registrar(Scenario* s) { register_scenario(s); }
};

// ---- inside a run ---------------------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(uint64_t v);               // mix a value into the run's event hash (no scheduling effect)
void context(const char* s);  // appended to the message of a failure
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // verbose replay only
bool verbose();
uint64_t event_seq();                // global event sequence number (monotone; increments each call)
uint64_t steps();                    // total simulated steps so far
uint64_t now_ns();                   // simulated clock
void advance_clock(uint64_t ns);
void set_op(int op_index);           // current thread starts op (decision key component)
void yield_point();                  // explicit scheduling point

// A recorded decision in [0,n); 0 is the default ("nothing unusual").
// p: probability that the decision is non-default in a random run.
uint32_t choose(uint32_t n, double p);
// Fault decision: fires with probability p (only while faults enabled). Counted per kind.
bool fault(const char* kind, double p);
void enable_faults(bool on);
void count(const char* probe, uint64_t n = 1);   // reach probe / counters reported in evidence

// Allocation-failure injection: mallocs of at least `min_size` bytes fail with prob p.
void alloc_faults(size_t min_size, double p);
// Thread-creation failure injection.
void thread_faults(double p);
void set_nprocs(int n);

// Suspends preemption & instrumentation in the current thread (harness code).
struct Quiet {
  Quiet();
  ~Quiet();
};

using ThreadFn = void (*)(void*);
int spawn(ThreadFn fn, void* arg, bool daemon = false);
void join(int tid);
int self();
// Blocks until *word != val or woken through wake_all(word).
void block_on(const void* addr, const char* what);
void wake_all(const void* addr);
void set_daemon(bool d);
bool in_sim();
int live_heap_blocks();              // currently live (run) heap allocations
size_t live_heap_bytes();
bool heap_addr_live(const void* p, size_t n);  // addressable per heap shadow
}  // namespace sim

template <class F>
static inline int sim_spawn_fn(F* f, bool daemon = false) {
  return sim::spawn([](void* p) { (*static_cast<F*>(p))(); }, f, daemon);
}
