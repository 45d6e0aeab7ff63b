// C21: sorting keys together with their values, on any number of workers.
#include "harness.h"

#include <limits>

#include <tbb/parallel_for.h>

#include "Shared/parallel_sort.h"

using namespace hs;
namespace {
enum { S_PAR, S_INS };
const char* const kNames[] = {"parallel sort", "insertion sort", nullptr};
const char* const kPat[] = {"random", "few distinct", "all equal", "ascending", "descending", "organ pipe", "almost sorted", "extremes", "sawtooth", "two runs"};

template <class T>
T key_of(int pat, int64_t seed, int64_t i, int64_t n) {
  uint64_t h = Rng::mix((uint64_t)seed * 7919 + (uint64_t)i);
  switch (pat) {
    case 0: return (T)((int64_t)h >> 5);
    case 1: return (T)(h % 4);
    case 2: return (T)(seed % 100);
    case 3: return (T)i;
    case 4: return (T)(n - i);
    case 5: return (T)(i < n / 2 ? i : n - i);
    case 6: return (T)(h % 20 ? i : (int64_t)(h % (uint64_t)n));
    case 7: return h % 3 == 0 ? std::numeric_limits<T>::lowest() : h % 3 == 1 ? std::numeric_limits<T>::max() : (T)(h % 100);
    case 8: return (T)(i % 17);
    default: return (T)(i < n / 2 ? 2 * i : 2 * (i - n / 2) + 1);
  }
}
void gen(Rng& r, Plan& p) {
  int n = (int)r.range(1, 3);
  p.set("threads", n);
  p.set("workers", r.range(0, 3));
  int ops = (int)r.range(1, 4);
  static const int64_t edge[] = {0, 1, 2, 3, 7, 8, 9, 499, 500, 501, 502, 999, 1000, 1001};
  for (int i = 0; i < ops; ++i) {
    int64_t sz = r.chance(0.3) ? edge[r.below(14)] : r.chance(0.6) ? r.range(500, 2500) : r.range(0, 500);
    // size, pattern, seed, type, order, value type
    p.add((int)r.below(n), r.chance(0.12) ? S_INS : S_PAR, sz, r.below(10), r.below(100000), r.below(5), r.below(3), r.below(2));
  }
}
struct By {
  int64_t mod;
  bool operator()(int64_t a, int64_t b) const { return (uint64_t)a % mod < (uint64_t)b % mod; }
};
template <class T, class V, class C>
void sort_and_check(const Op& o, C comp, const char* order) {
  size_t n = (size_t)o.a[0];
  const size_t pad = 3;
  std::vector<T> keys, orig;
  std::vector<V> vals;
  {
    Quiet q;
    keys.resize(n + 2 * pad);
    vals.resize(n + 2 * pad);
    for (size_t i = 0; i < keys.size(); ++i) {
      keys[i] = i < pad || i >= n + pad ? (T)77 : key_of<T>((int)o.a[1], o.a[2], (int64_t)(i - pad), (int64_t)n);
      vals[i] = (V)i;
    }
    orig = keys;
  }
  if (o.kind == S_PAR) parallel_sort_by_key(keys.data() + pad, vals.data() + pad, n, comp);
  else insertion_sort_by_key(keys.data() + pad, vals.data() + pad, n, comp);
  Quiet q;
  sim::count("sorted-elements", n);
  std::vector<char> used(keys.size());
  for (size_t i = 0; i < keys.size(); ++i) {
    size_t v = (size_t)vals[i];
    if (i < pad || i >= n + pad) {
      SIM_CHECK(keys[i] == (T)77 && v == i, "sort:outside", "op %d: %zu elements, %s, %s: element %zd outside of the range changed", o.id, n, kPat[o.a[1]], order, (ssize_t)i - (ssize_t)pad);
      continue;
    }
    SIM_CHECK(v >= pad && v < n + pad && !used[v], "sort:permutation", "op %d: %zu elements, %s, %s: the values are not a permutation at %zu", o.id, n, kPat[o.a[1]], order, i - pad);
    used[v] = 1;
    SIM_CHECK(keys[i] == orig[v], "sort:pairing", "op %d: %zu elements, %s, %s: the key at %zu belongs to another value", o.id, n, kPat[o.a[1]], order, i - pad);
    if (i > pad) SIM_CHECK(!comp(keys[i], keys[i - 1]), "sort:order", "op %d: %zu elements, %s, %s: elements %zu and %zu are out of order", o.id, n, kPat[o.a[1]], order, i - pad - 1, i - pad);
  }
  sim::note(n);
}
template <class T, class V>
void sort_t(const Op& o) {
  if (o.a[4] == 0) sort_and_check<T, V>(o, std::less<T>(), "ascending order");
  else sort_and_check<T, V>(o, std::greater<T>(), "descending order");
}
template <class V>
void sort_v(const Op& o) {
  switch (o.a[3]) {
    case 0: return sort_t<int8_t, V>(o);
    case 1: return sort_t<int32_t, V>(o);
    case 2: return o.a[4] == 2 ? sort_and_check<int64_t, V>(o, By{1 + o.a[2] % 10}, "custom order") : sort_t<int64_t, V>(o);
    case 3: return sort_t<float, V>(o);
    default: return sort_t<double, V>(o);
  }
}
void run(const Plan& p) {
  {
    Quiet q;
    simtbb::set_workers((int)p.get("workers", 1));
  }
  run_threads(p, (int)p.get("threads", 1), [&](int, const Op& o) {
    if (o.a[5]) sort_v<uint32_t>(o);
    else sort_v<int64_t>(o);
  });
}
sim::Scenario s1 = {"C21", "sort", nullptr, gen, run, kNames, 60000000};
sim::Registrar r1(&s1);
}  // namespace
