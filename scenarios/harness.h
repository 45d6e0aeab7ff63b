// Shared helpers for scenarios.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "sim.h"
#include "tbbcore.h"

namespace hs {
using sim::Op;
using sim::Plan;
using sim::Quiet;
using sim::Rng;

// Runs the plan's operations: one simulated client thread per plan thread.
template <class F>
void run_threads(const Plan& p, int n, F f) {
  struct Arg {
    const Plan* p;
    int t;
    F* f;
  };
  std::vector<Arg> args;
  std::vector<int> tids;
  {
    Quiet q;
    args.resize(n);
    tids.reserve(n);
  }
  for (int t = 0; t < n; ++t) {
    args[t] = {&p, t, &f};
    int id = sim::spawn(
        [](void* a) {
          Arg* x = static_cast<Arg*>(a);
          for (int i = 0; i < x->p->nops; ++i) {
            const Op& o = x->p->ops[i];
            if (o.thread != x->t) continue;
            sim::set_op(o.id);
            (*x->f)(x->t, o);
          }
        },
        &args[t]);
    tids.push_back(id);
  }
  for (int id : tids) sim::join(id);
  sim::set_op(1 << 20);
}
inline std::string str(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string str(const char* fmt, ...) {
  char b[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
inline std::string show(const std::string& s) {
  if (s.size() > 40) return s.substr(0, 30) + "..(" + std::to_string(s.size()) + ")";
  return s;
}
}  // namespace hs
#define SIM_CHECK(cond, cls, ...)              \
  do {                                         \
    if (!(cond)) sim::fail(cls, __VA_ARGS__);  \
  } while (0)
