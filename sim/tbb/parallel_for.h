#pragma once
#include <type_traits>
#include "../tbbcore.h"
#include "blocked_range.h"
#include "partitioner.h"
#include "task_group.h"
namespace simtbb {
template <class Range, class Body>
void pfor(Ctx* c, Range r, const Body* b, unsigned depth, bool always) {
  while (r.is_divisible() && !is_cancelled(c) && (always || want_split(depth))) {
    ++depth;
    Range right(r, tbb::split());
    spawn_fn(c, [c, right, b, depth, always] { pfor(c, right, b, depth, always); });
  }
  if (!is_cancelled(c)) (*b)(r);
}
template <class Range, class Body>
void run_pfor(const Range& r, const Body& b, bool always, Ctx* ext = nullptr) {
  Ctx own;
  own.parent = current_ctx();
  Ctx* c = ext ? ext : &own;
  if (!r.empty()) {
    guarded(c, [&] { pfor(c, r, &b, 0, always); });
    wait(c);
    rethrow(*c);
  }
}
}  // namespace simtbb
namespace tbb {
template <class Range, class Body, class = std::enable_if_t<!std::is_integral_v<Range>>>
void parallel_for(const Range& r, const Body& b) {
  simtbb::run_pfor(r, b, false);
}
template <class Range, class Body, class P,
          class = std::enable_if_t<!std::is_integral_v<Range>>,
          class = decltype(simtbb::always_split<std::decay_t<P>>::value)>
void parallel_for(const Range& r, const Body& b, P&&) {
  simtbb::run_pfor(r, b, simtbb::always_split<std::decay_t<P>>::value);
}
template <class Range, class Body, class P>
void parallel_for(const Range& r, const Body& b, P&&, task_group_context& c) {
  simtbb::run_pfor(r, b, simtbb::always_split<std::decay_t<P>>::value, &c.c_);
}
template <class I, class F, class = std::enable_if_t<std::is_integral_v<I>>>
void parallel_for(I first, I last, const F& f) {
  if (first < last)
    simtbb::run_pfor(blocked_range<I>(first, last),
                     [&f](const blocked_range<I>& r) {
                       for (I i = r.begin(); i < r.end(); ++i) f(i);
                     },
                     false);
}
template <class I, class F, class = std::enable_if_t<std::is_integral_v<I>>>
void parallel_for(I first, I last, I step, const F& f) {
  if (first < last) {
    I n = (last - first - 1) / step + 1;
    parallel_for(I(0), n, [&](I i) { f(first + i * step); });
  }
}
}  // namespace tbb
