// Internal: shared between the runtime (sim.cpp) and the driver (driver.cpp).
#pragma once
#include "sim.h"
namespace sim {
struct Dec {
  uint64_t th;
  uint32_t op, step, val, pad;
};
struct RunResult {
  static constexpr int MAXDEC = 400000;
  static constexpr int NCNT = 96;
  volatile int status;  // -1 running, 0 ok, 1 violation
  char cls[64];
  char msg[900];
  char tail[1500];
  int fail_thread, fail_op;
  int nbt;
  uint64_t bt[24];
  uint64_t steps, sim_ns, hash, schedhash, switches, threads_created;
  int nthreads;
  struct {
    char name[40];
    uint64_t n;
  } cnt[NCNT];
  int dec_overflow;
  int ndecs;
  Dec decs[MAXDEC];
};
struct RunConfig {
  RunResult* res;
  bool replay;
  Dec* decs;
  int ndecs;
  bool verbose;
  bool no_faults;
  uint64_t max_steps;
  uint64_t sched_seed;
};
void run_configure(const RunConfig& c);
[[noreturn]] void run_main(const Scenario* s, const Plan& plan, bool keep_stderr);
void runtime_init();
void heap_use_arena(int i);
uint64_t real_now_ns();
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
}  // namespace sim
