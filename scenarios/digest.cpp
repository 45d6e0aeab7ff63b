// C20: approximate quantiles: digests filled by concurrent kernels and merged in any order.
#include "harness.h"

#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>
#include <tbb/task_arena.h>
#include <tbb/task_group.h>
#include <cmath>

#include "ResultSet/RowSetMemoryOwner.h"
#include "Shared/approx_quantile.h"

using namespace hs;
extern size_t g_approx_quantile_buffer;
extern size_t g_approx_quantile_centroids;
extern unsigned g_cpu_threads_override;
namespace {
enum { D_PUSH };
const char* const kNames[] = {"push", nullptr};

double value_of(int pattern, int64_t seed, int64_t i, int64_t n) {
  uint64_t h = Rng::mix((uint64_t)seed * 1000003 + (uint64_t)i);
  switch (pattern) {
    case 0: return (double)(int64_t)(h % 2000001) - 1000000;          // uniform
    case 1: return (double)(h % 5);                                     // few distinct values
    case 2: return (double)(seed % 1000);                               // one value
    case 3: return (double)i;                                           // ascending
    case 4: return (double)(n - i);                                     // descending
    case 5: return h % 50 ? (double)(h % 100) : 1e9 + (double)(h % 7);  // outliers
    case 6: return std::exp((double)(h % 2000) / 100.0);                // skewed
    case 7: return h % 2 ? -1e6 : 1e6 + (double)(h % 3);                // two clusters
    case 8: return (double)(int64_t)(h % 1000) / 7.0 - 80;              // fractions around zero
    default: return i % 10 == 0 ? (double)i : 42;                       // mostly ties
  }
}
void gen(Rng& r, Plan& p) {
  int K = (int)r.range(1, 5), G = (int)r.range(1, 3);
  static const int64_t qs[] = {0, 250, 500, 750, 1000, 900, 100, 1, 999, 50, 950};
  p.set("q", r.chance(0.7) ? qs[r.below(11)] : r.range(0, 1000));
  p.set("kernels", K);
  p.set("groups", G);
  int64_t cent = r.chance(0.4) ? 300 : r.chance(0.2) ? r.range(1, 9) : r.range(10, 300);
  p.set("centroids", cent);
  p.set("buffer", r.chance(0.4) ? 1000 : r.range(cent, cent * 4));
  p.set("workers", r.range(0, 3));
  p.set("order", r.next() >> 2);
  p.set("tree", r.below(2));
  p.set("par", r.chance(0.7));
  p.set("again", r.chance(0.3));
  bool small = r.chance(0.5);
  int pat = (int)r.below(10);
  bool mix = r.chance(0.5), near = r.chance(0.5);
  for (int k = 0; k < K; ++k)
    for (int g = 0; g < G; ++g) {
      int64_t n = r.chance(0.15) ? 0 : small ? r.range(1, std::max<int64_t>(1, cent * (near ? 2 : 1) / K)) : r.chance(0.3) ? r.range(1, 400) : r.range(100, 3000);
      if (n) p.add(k, D_PUSH, g, n, mix ? r.below(10) : pat, r.below(1000));
    }
}
// how far, in ranks, the value is from the wanted rank
double rank_error(const std::vector<double>& v, double got, double x) {
  double eps = 1e-9 * (std::fabs(got) + std::fabs(v.front()) + std::fabs(v.back()));
  double lo = (double)(std::lower_bound(v.begin(), v.end(), got - eps) - v.begin());
  double hi = (double)(std::upper_bound(v.begin(), v.end(), got + eps) - v.begin());
  if (x < lo) return lo - x;
  if (x > hi) return x - hi;
  return 0;
}
void run(const Plan& p) {
  int K = (int)p.get("kernels", 1), G = (int)p.get("groups", 1);
  double q = p.get("q") / 1000.0;
  std::vector<std::vector<double>> ref(G);
  std::vector<std::vector<quantile::TDigest*>> d(K);
  RowSetMemoryOwner* own;
  {
    Quiet qq;
    simtbb::set_workers((int)p.get("workers", 1));
    g_approx_quantile_buffer = (size_t)p.get("buffer", 1000);
    g_approx_quantile_centroids = (size_t)p.get("centroids", 300);
    for (int i = 0; i < p.nops; ++i) {
      const Op& o = p.ops[i];
      for (int64_t j = 0; j < o.a[1]; ++j) ref[o.a[0]].push_back(value_of((int)o.a[2], o.a[3], j, o.a[1]));
    }
    for (auto& v : ref) std::sort(v.begin(), v.end());
    for (auto& x : d) x.resize(G);
  }
  own = new RowSetMemoryOwner(nullptr, 256);
  tbb::task_group tg;
  tbb::task_arena arena(4);
  arena.execute([&] {
    for (int k = 0; k < K; ++k)
      tg.run([&, k] {
        for (int g = 0; g < G; ++g) d[k][g] = own->nullTDigest(q);
        for (int i = 0; i < p.nops; ++i) {
          const Op& o = p.ops[i];
          if (o.thread != k) continue;
          auto* t = d[k][o.a[0]];
          for (int64_t j = 0; j < o.a[1]; ++j) {
            t->allocate();
            t->add(value_of((int)o.a[2], o.a[3], j, o.a[1]));
            if (t->centroids().size() > t->centroids().capacity())
              sim::fail("digest:overflow", "kernel %d, value %d: %zu centroids in memory for %zu", k, (int)j, (size_t)t->centroids().size(), (size_t)t->centroids().capacity());
          }
        }
      });
    tg.wait();
  });
  auto reduce = [&](int g) {
    std::vector<int> left;
    Rng r(0);
    {
      Quiet qq;
      r.reseed((uint64_t)p.get("order") + g);
      for (int k = 0; k < K; ++k) left.push_back(k);
    }
    bool tree = p.get("tree");
    while (left.size() > 1) {
      size_t a, b;
      {
        Quiet qq;
        a = tree ? r.below(left.size()) : 0;
        b = r.below(left.size() - 1);
        if (b >= a) ++b;
      }
      auto *acc = d[left[a]][g], *in = d[left[b]][g];
      if (in->centroids().capacity()) {
        acc->allocate();
        acc->mergeTDigest(*in);
      }
      Quiet qq;
      left.erase(left.begin() + b);
    }
    auto* t = d[left[0]][g];
    auto& v = ref[g];
    for (int round = 0; round <= (int)p.get("again"); ++round) {
      t->mergeBuffer();
      double got = t->quantile();
      double at0 = v.empty() ? 0 : t->quantile(0.0), at1 = v.empty() ? 0 : t->quantile(1.0);
      size_t weight = t->totalWeight();
      Quiet qq;
      size_t n = v.size();
      if (sim::verbose()) {
        auto& c = t->centroids();
        for (size_t i = 0; i < c.size(); ++i) sim::trace("centroid %zu: %zu values, mean %.17g", i, (size_t)c.counts_[i], c.mean(i));
      }
      SIM_CHECK(weight == n, "digest:count", "group %d: the digest stands for %zu of %zu values", g, weight, n);
      if (!n) {
        SIM_CHECK(std::isnan(got), "digest:empty", "group %d: the quantile of no values is %g", g, got);
        continue;
      }
      SIM_CHECK(t->centroids().size() <= t->centroids().capacity(), "digest:overflow", "group %d: %zu centroids of %zu", g, (size_t)t->centroids().size(), (size_t)t->centroids().capacity());
      SIM_CHECK(at0 == v.front() && at1 == v.back(), "digest:extremes", "group %d: quantiles 0 and 1 are %.17g and %.17g, not %.17g and %.17g", g, at0, at1, v.front(), v.back());
      double slack = 1e-9 * (std::fabs(v.front()) + std::fabs(v.back()));
      SIM_CHECK(got >= v.front() - slack && got <= v.back() + slack, "digest:range", "group %d: quantile %g of %zu values is %.17g, outside of %.17g to %.17g", g, q, n, got, v.front(), v.back());
      double x = q * (double)n;
      size_t cap = g_approx_quantile_centroids;
      if (n <= cap) {
        // every value has its own centroid: the quantile is exact
        double want;
        size_t i = (size_t)x;
        if (x < 1) want = v.front();
        else if (i >= n) want = v.back();
        else want = x == (double)i ? 0.5 * (v[i - 1] + v[i]) : v[i];
        SIM_CHECK(got == want, "digest:exact", "group %d: quantile %g of %zu values is %.17g, not %.17g", g, q, n, got, want);
        sim::count("exact");
      } else {
        double err = rank_error(v, got, x) - 1;
        sim::count("approximate");
        double bound = p.get("bound", 0) ? (double)p.get("bound") : 12.0 * (double)n / (double)cap + 4;
        SIM_CHECK(err <= bound, "digest:rank", "group %d: quantile %g of %zu values (%zu centroids) is %g, off by %g ranks", g, q, n, cap, got, err);
      }
      // the whole curve: every rank and the middle between two ranks, or a sample of them
      size_t pts = std::min<size_t>(2 * n + 1, 160);
      for (size_t j = 0; j < pts; ++j) {
        double y = pts == 2 * n + 1 ? 0.5 * (double)j : 0.5 * (double)(Rng::mix((uint64_t)p.get("order") + j) % (2 * n + 1));
        if (j < 6) y = 0.5 * (double)j;
        else if (j < 12) y = (double)n - 0.5 * (double)(j - 6);
        if (y < 0 || y > (double)n) continue;
        // a digest made for a quantile in the middle is coarse at both ends
        if (q >= 0.1 && q <= 0.9 && n > cap && (y < 0.1 * (double)n || y > 0.9 * (double)n)) continue;
        double qy = y / (double)n, gy = t->quantile(qy);
        SIM_CHECK(gy >= v.front() - slack && gy <= v.back() + slack, "digest:range", "group %d: quantile %g (rank %g) of %zu values is %.17g, outside of %.17g to %.17g", g, qy, y, n, gy, v.front(), v.back());
        double err = rank_error(v, gy, y) - 1;
        double bound = n <= cap ? 0 : 12.0 * (double)n / (double)cap + 4;
        SIM_CHECK(err <= bound, "digest:rank", "group %d: quantile %g (rank %g) of %zu values (%zu centroids) is %g, off by %g ranks", g, qy, y, n, cap, gy, err);
      }
      sim::note((uint64_t)(int64_t)(got * 16));
    }
  };
  if (p.get("par"))
    tbb::parallel_for(tbb::blocked_range<int>(0, G, 1), [&](const tbb::blocked_range<int>& br) {
      for (int g = br.begin(); g < br.end(); ++g) reduce(g);
    });
  else
    for (int g = 0; g < G; ++g) reduce(g);
  delete own;
}
sim::Scenario s20{"C20", "digest", nullptr, gen, run, kNames, 60'000'000};
sim::Registrar r20(&s20);
}  // namespace
