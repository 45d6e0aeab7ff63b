#pragma once
#include "parallel_for.h"
namespace tbb {
template <class... F>
void parallel_invoke(const F&... f) {
  simtbb::Ctx c;
  c.parent = simtbb::current_ctx();
  (simtbb::spawn_fn(&c, [&f] { f(); }), ...);
  simtbb::wait(&c);
  simtbb::rethrow(c);
}
}  // namespace tbb
