#pragma once
#include <algorithm>
#include <functional>
#include <iterator>
#include "parallel_for.h"
namespace simtbb {
template <class It, class Cmp>
void psort(Ctx* c, It b, It e, const Cmp* cmp, unsigned depth) {
  while (!is_cancelled(c) && e - b > 4 && depth < 6 && want_split(depth)) {
    ++depth;
    It mid = b + (e - b) / 2;
    std::nth_element(b, mid, e, *cmp);
    spawn_fn(c, [c, mid, e, cmp, depth] { psort(c, mid, e, cmp, depth); });
    e = mid;
  }
  if (!is_cancelled(c)) std::sort(b, e, *cmp);
}
}  // namespace simtbb
namespace tbb {
template <class It, class Cmp>
void parallel_sort(It b, It e, const Cmp& cmp) {
  simtbb::Ctx c;
  c.parent = simtbb::current_ctx();
  simtbb::guarded(&c, [&] { simtbb::psort(&c, b, e, &cmp, 0); });
  simtbb::wait(&c);
  simtbb::rethrow(c);
}
template <class It>
void parallel_sort(It b, It e) {
  parallel_sort(b, e, std::less<typename std::iterator_traits<It>::value_type>());
}
}  // namespace tbb
