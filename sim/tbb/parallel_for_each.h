#pragma once
#include "parallel_for.h"
namespace tbb {
template <class It, class F>
void parallel_for_each(It b, It e, const F& f) {
  simtbb::Ctx c;
  c.parent = simtbb::current_ctx();
  for (; b != e; ++b) simtbb::spawn_fn(&c, [&f, b] { f(*b); });
  simtbb::wait(&c);
  simtbb::rethrow(c);
}
template <class C, class F>
void parallel_for_each(C& c, const F& f) {
  parallel_for_each(c.begin(), c.end(), f);
}
}  // namespace tbb
