// C19: the cost model: calibration, prediction and scheduling policies under concurrency and failing data sources.
#include "harness.h"

#include <cmath>

#include "DataMgr/MemoryLevel.h"
#include "QueryEngine/CostModel/DataSources/DataSource.h"
#include "QueryEngine/CostModel/Dispatchers/DefaultExecutionPolicy.h"
#include "QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h"
#include "QueryEngine/CostModel/Dispatchers/RRExecutionPolicy.h"
#include "QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.h"
#include "QueryEngine/CostModel/ExtrapolationModels/LinearRegression.h"
#include "QueryEngine/CostModel/IterativeCostModel.h"

using namespace hs;
using namespace costmodel;
namespace {
using Dev = ExecutorDeviceType;
const AnalyticalTemplate kTempl[] = {Scan, Sort, Join, GroupBy};
const Dev kDev[] = {Dev::CPU, Dev::GPU};

enum K { K_CALIBRATE, K_PREDICT, K_POLICY, K_LINE, K_REJECT, K_MAX };
const char* const kNames[] = {"calibrate", "predict", "policy", "extrapolate", "unsupported source", nullptr};

struct Line {
  double a = 0, b = 0;  // time = max(0, a + b * bytes)
  double at(double x) const { return std::max(0.0, a + b * x); }
  bool operator==(const Line& o) const { return a == o.a && b == o.b; }
};
using State = std::map<int, Line>;  // device * 16 + template -> line
int key(Dev d, int t) { return (d == Dev::GPU ? 16 : 0) + t; }
// least squares through the points
bool fit(const std::vector<Detail::Measurement>& m, Line& l) {
  long double n = m.size(), sx = 0, sy = 0, sxx = 0, sxy = 0;
  for (auto& p : m) sx += p.bytes, sy += p.milliseconds;
  if (n < 2) return false;
  long double mx = sx / n, my = sy / n;
  for (auto& p : m) sxx += (p.bytes - mx) * (p.bytes - mx), sxy += (p.bytes - mx) * (p.milliseconds - my);
  if (sxx == 0) return false;
  l.b = (double)(sxy / sxx);
  l.a = (double)(my - l.b * mx);
  return true;
}
// Measurements of one device and template; everything follows from the seed.
std::vector<Detail::Measurement> measure(uint64_t seed, bool flat) {
  Rng r(seed);
  std::vector<Detail::Measurement> m;
  int n = (int)r.range(2, 9);
  if (flat) {
    // no line can be fitted
    size_t x = r.range(100, 5000);
    n = (int)r.range(0, 4);
    for (int i = 0; i < n; ++i) m.push_back({x, (size_t)r.range(1, 100)});
    return m;
  }
  int64_t b = r.range(0, 40), a = r.chance(0.3) ? -r.range(0, 60000) : r.range(0, 30000), x = r.range(100, 5000);
  double noise = r.chance(0.5) ? 0 : 0.2;
  bool falling = r.chance(0.1);
  int64_t top = 4000000;
  for (int i = 0; i < n; ++i) {
    int64_t y = falling ? top - b * x : a + b * x;
    y += (int64_t)(noise * (double)r.range(-1000, 1000) / 1000 * (double)y);
    m.push_back({(size_t)x, (size_t)std::max<int64_t>(y, 0)});
    x += r.range(500, 20000);
  }
  return m;
}
struct Calib {
  State writes;
  bool fails = false, maybe = false;
  uint64_t start = 0, end = ~0ull;
};
struct World;
struct Source : DataSource {
  World* w;
  Source(World* w)
      : DataSource({"simulated", {Dev::CPU, Dev::GPU}, {Scan, Sort, Join, GroupBy, Reduce}}), w(w) {}
  Detail::DeviceMeasurements getMeasurements(const std::vector<Dev>& devices, const std::vector<AnalyticalTemplate>& templates) override;
};
struct Partial : DataSource {
  Partial(std::set<Dev> d, std::set<AnalyticalTemplate> t) : DataSource({"partial", d, t}) {}
  Detail::DeviceMeasurements getMeasurements(const std::vector<Dev>&, const std::vector<AnalyticalTemplate>&) override { return {}; }
};
struct Seen {
  uint64_t start, end;
  std::vector<int> keys;  // what the prediction needs
  std::vector<AnalyticalTemplate> templs;
  double bytes;
  bool threw;
  double lo, hi;  // bytes on the CPU
  int op;
};
struct World {
  std::unique_ptr<IterativeCostModel> model;
  std::vector<std::unique_ptr<Calib>> calibs;
  std::vector<Seen> seen;
  std::map<int, Calib*> current;  // per simulated thread
  std::map<int, uint64_t> seed;
  std::map<int, int> degenerate;
  bool faults = false;
  int inside = 0;
};
Detail::DeviceMeasurements Source::getMeasurements(const std::vector<Dev>& devices, const std::vector<AnalyticalTemplate>& templates) {
  sim::yield_point();
  bool fail = sim::fault("data-source-error", 0.15);
  int self = sim::self();
  Detail::DeviceMeasurements res;
  {
    Quiet q;
    Calib* c = w->current[self];
    SIM_CHECK(c, "cost:foreign-thread", "the data source was asked by a thread that is not calibrating");
    uint64_t seed = w->seed[self];
    int bad = w->degenerate[self];
    c->writes.clear();
    c->fails = fail;
    for (auto d : devices)
      for (auto t : templates) {
        uint64_t s = Rng::mix(seed * 64 + key(d, t));
        if (Rng::mix(s) % 16 == 0) continue;  // a source may lack a measurement
        bool flat = bad && key(d, t) % 8 == bad % 8;
        auto m = measure(s, flat);
        if (sim::verbose()) {
          std::string pts;
          for (auto& p : m) pts += str(" (%zu, %zu)", p.bytes, p.milliseconds);
          sim::trace("measured key %d:%s", key(d, t), pts.c_str());
        }
        Line l;
        if (!fit(m, l)) {
          c->fails = true;
          sim::count("degenerate-measurements");
        }
        c->writes[key(d, t)] = l;
        res[d][t] = std::move(m);
      }
  }
  sim::yield_point();
  if (fail) {
    if (w->seed[self] % 2) throw DataSourceException("simulated");
    throw std::runtime_error("simulated");
  }
  return res;
}
double cost(const State& st, const Seen& s, double cpu) {
  double c = 0, g = 0;
  for (auto t : s.templs) {
    c += st.at(key(Dev::CPU, t)).at(cpu);
    g += st.at(key(Dev::GPU, t)).at(s.bytes - cpu);
  }
  return std::max(c, g);
}
bool explains(const State& st, const Seen& s) {
  bool has = true;
  for (int k : s.keys)
    if (!st.count(k)) has = false;
  if (!has) return s.threw;
  if (s.threw) return false;
  if (s.bytes == 0) return true;
  double best = 1e300;
  const int n = 1024;
  double step = std::ceil(s.bytes / n);
  for (double c = 0; c < s.bytes; c += step) best = std::min(best, cost(st, s, c));
  // least cost within the observed range: convex in the split
  double lo = s.lo, hi = s.hi;
  double m = std::min(cost(st, s, lo), cost(st, s, hi));
  for (int i = 0; i < 60; ++i) {
    double x = lo + (hi - lo) / 3, y = hi - (hi - lo) / 3;
    double cx = cost(st, s, x), cy = cost(st, s, y);
    m = std::min(m, std::min(cx, cy));
    // a decreasing regression line makes the cost non-convex; the samples then still are honest members of the range
    if (cx < cy) hi = y;
    else lo = x;
  }
  double tol = 2.0 * s.templs.size() + 2 + best * 2e-3;
  return m <= best + tol;
}
// Is there an order of the calibrations, consistent with real time, that explains the prediction?
bool search(const World& w, const Seen& s, std::set<std::pair<uint64_t, std::string>>& memo, uint64_t done, const State& st) {
  std::string img;
  for (int k : s.keys) {
    auto it = st.find(k);
    if (it == st.end()) img += "-;";
    else img += str("%.17g,%.17g;", it->second.a, it->second.b);
  }
  if (!memo.emplace(done, img).second) return false;
  bool all_before = true;
  for (size_t i = 0; i < w.calibs.size(); ++i)
    if (!(done >> i & 1) && w.calibs[i]->end < s.start) all_before = false;
  if (all_before && explains(st, s)) return true;
  for (size_t i = 0; i < w.calibs.size(); ++i) {
    if (done >> i & 1) continue;
    auto& c = *w.calibs[i];
    if (c.start > s.end) continue;
    bool ready = true;
    for (size_t j = 0; j < w.calibs.size(); ++j)
      if (!(done >> j & 1) && j != i && w.calibs[j]->end < c.start) ready = false;
    if (!ready) continue;
    if (c.fails || c.maybe) {
      if (search(w, s, memo, done | 1ull << i, st)) return true;
    }
    if (!c.fails) {
      State n = st;
      for (auto& [k, l] : c.writes) n[k] = l;
      if (search(w, s, memo, done | 1ull << i, n)) return true;
    }
  }
  return false;
}
std::map<Dev, ExecutorDispatchMode> modes(int m) {
  return {{Dev::CPU, m & 1 ? ExecutorDispatchMode::KernelPerFragment : ExecutorDispatchMode::MultifragmentKernel},
          {Dev::GPU, m & 2 ? ExecutorDispatchMode::KernelPerFragment : ExecutorDispatchMode::MultifragmentKernel}};
}
// counts the fragments of each device; every assignment must be well-formed
std::pair<int64_t, int64_t> schedule(const policy::ExecutionPolicy& p, const FragmentInfo& f, size_t n, const Op& o) {
  int64_t cpu = 0, gpu = 0;
  for (size_t i = 0; i < n; ++i) {
    auto a = p.scheduleSingleFragment(f, i, n);
    if (a.dt == Dev::CPU) {
      SIM_CHECK(a.device_id == f.deviceIds[Data_Namespace::CPU_LEVEL], "cost:device-id", "op %d: fragment %zu of %zu is on CPU device %d", o.id, i, n, a.device_id);
      ++cpu;
    } else if (a.dt == Dev::GPU) {
      SIM_CHECK(a.device_id == f.deviceIds[Data_Namespace::GPU_LEVEL], "cost:device-id", "op %d: fragment %zu of %zu is on GPU device %d", o.id, i, n, a.device_id);
      ++gpu;
    } else {
      sim::fail("cost:device", "op %d: fragment %zu of %zu has no device", o.id, i, n);
    }
  }
  return {cpu, gpu};
}
FragmentInfo fragment(int64_t x) {
  FragmentInfo f;
  f.deviceIds = {(int)(x % 3), (int)(x / 3 % 3), (int)(3 + x / 9 % 5)};
  return f;
}
void check_modes(const policy::ExecutionPolicy& p, const std::map<Dev, ExecutorDispatchMode>& m, const Op& o, bool both) {
  SIM_CHECK(p.getExecutionModes() == m, "cost:modes", "op %d: the dispatch modes differ", o.id);
  for (auto d : kDev) {
    SIM_CHECK(p.hasDevice(d) == (bool)m.count(d), "cost:modes", "op %d: hasDevice", o.id);
    if (m.count(d)) {
      SIM_CHECK(p.getExecutionMode(d) == m.at(d), "cost:modes", "op %d: getExecutionMode", o.id);
    }
  }
  if (both) {
    SIM_CHECK(p.devices().size() == m.size(), "cost:modes", "op %d: devices()", o.id);
  }
}
void gen(Rng& r, Plan& p) {
  int n = (int)r.range(1, 4);
  p.set("threads", n);
  p.set("faults", r.chance(0.6));
  p.set("alloc", r.chance(0.25));
  p.set("ready", r.chance(0.7));
  int ops = (int)r.range(3, 30), calibs = 0;
  for (int i = 0; i < ops; ++i) {
    int x = (int)r.below(100);
    int k = x < 34 ? K_CALIBRATE : x < 80 ? K_PREDICT : x < 88 ? K_POLICY : x < 96 ? K_LINE : K_REJECT;
    if (k == K_CALIBRATE && ++calibs > 9) k = K_PREDICT;
    switch (k) {
      case K_CALIBRATE:
        // devices, seed, degenerate
        p.add((int)r.below(n), k, r.chance(0.7) ? 3 : r.below(4), r.below(1 << 20), r.chance(0.12) ? 1 + r.below(8) : 0);
        break;
      case K_PREDICT: {
        int64_t bytes = r.chance(0.05) ? r.below(3) : r.chance(0.3) ? r.range(1, 5000) : r.chance(0.7) ? r.range(5000, 2000000) : r.range(1000000, 40000000000ll);
        if (r.chance(0.1)) bytes = (int64_t)1 << r.range(30, 36);
        // templates, bytes, modes, fragment
        p.add((int)r.below(n), k, r.chance(0.04) ? 99999 : r.below(2000), bytes, r.below(4), r.below(1000));
        break;
      }
      case K_POLICY: {
        auto part = [&]() -> int64_t { return r.chance(0.15) ? 0 : r.chance(0.6) ? r.range(1, 100) : r.chance(0.5) ? r.range(1, 1000000) : r.range(1, 4294967295ll); };
        p.add((int)r.below(n), k, part(), part(), r.range(0, 1500), r.below(1000), r.below(4), r.below(8));
        break;
      }
      default: p.add((int)r.below(n), k, r.below(1 << 20), r.below(1 << 20), r.below(1 << 20)); break;
    }
  }
}
void run(const Plan& p) {
  std::unique_ptr<World> wp;
  {
    Quiet q;
    wp = std::make_unique<World>();
    wp->calibs.reserve(64);
    wp->seen.reserve(256);
    wp->faults = p.get("faults");
  }
  World& w = *wp;
  {
    CostModelConfig c;
    c.data_source = std::make_unique<Source>(&w);
    w.model = std::make_unique<IterativeCostModel>(std::move(c));
  }
  auto calibrate = [&](const Op& o, bool allow) {
    Calib* c;
    CaibrationConfig conf;
    int self = sim::self();
    {
      Quiet q;
      w.calibs.push_back(std::make_unique<Calib>());
      c = w.calibs.back().get();
      c->fails = true;  // until the source was asked
      c->maybe = allow;
      w.current[self] = c;
      w.seed[self] = (uint64_t)o.a[1] * 31 + 7;
      w.degenerate[self] = (int)o.a[2];
      if (o.a[0] & 1) conf.devices.push_back(Dev::CPU);
      if (o.a[0] & 2) conf.devices.push_back(Dev::GPU);
      c->start = sim::event_seq();
    }
    if (allow) sim::alloc_faults(1, 0.01);
    try {
      w.model->calibrate(conf);
    } catch (const std::bad_alloc&) {
      if (!allow) sim::fail("cost:calibrate-throws", "op %d: calibrate ran out of memory without a fault", o.id);
    } catch (const std::exception& e) {
      if (!allow) sim::fail("cost:calibrate-throws", "op %d: a failed calibration is not contained: %s", o.id, e.what());
    }
    Quiet q;
    if (allow) sim::alloc_faults(1, 0);
    c->end = sim::event_seq();
    w.current[self] = nullptr;
    if (c->fails) sim::count("failed-calibrations");
    else sim::count("calibrations");
  };
  if (p.get("ready")) {
    sim::enable_faults(false);
    Op o{};
    o.id = 1 << 19;
    o.a[0] = 3;
    o.a[1] = 77;
    calibrate(o, false);
    sim::enable_faults(true);
  }
  sim::enable_faults(w.faults);
  bool alloc = w.faults && p.get("alloc") && p.get("threads") == 1;
  run_threads(p, (int)p.get("threads"), [&](int, const Op& o) {
    switch (o.kind) {
      case K_CALIBRATE: calibrate(o, alloc); break;
      case K_PREDICT: {
        QueryInfo qi;
        std::map<Dev, ExecutorDispatchMode> m;
        Seen s;
        {
          Quiet q;
          int64_t x = o.a[0];
          if (x == 99999) {
            qi.templs = {Reduce};
          } else {
            int k = 1 + (int)(x % 4);
            x /= 4;
            for (int i = 0; i < k; ++i) qi.templs.push_back(kTempl[(x >> (2 * i)) & 3]);
          }
          qi.bytes_size = (size_t)o.a[1];
          m = modes((int)o.a[2]);
          s.templs = qi.templs;
          s.bytes = (double)o.a[1];
          s.op = o.id;
          for (auto d : kDev)
            for (auto t : qi.templs) s.keys.push_back(key(d, t));
          s.start = sim::event_seq();
        }
        std::unique_ptr<policy::ExecutionPolicy> pol;
        bool threw = false;
        try {
          pol = w.model->predict(qi, m);
        } catch (const CostModelException&) {
          threw = true;
        } catch (const std::exception& e) {
          sim::fail("cost:predict-throws", "op %d: prediction for %lld bytes failed: %s", o.id, (long long)o.a[1], e.what());
        }
        Quiet q;
        s.end = sim::event_seq();
        s.threw = threw;
        sim::count(threw ? "predictions-refused" : "predictions");
        if (!threw) {
          SIM_CHECK(pol, "cost:no-policy", "op %d: no policy", o.id);
          check_modes(*pol, m, o, true);
          size_t n = 1024 + (size_t)o.a[3];
          auto f = fragment(o.a[3]);
          auto [cpu, gpu] = schedule(*pol, f, n, o);
          s.lo = std::max(0.0, (double)(cpu - 1) / (double)n * s.bytes - 1);
          s.hi = std::min(s.bytes, (double)(cpu + 1) / (double)n * s.bytes + 1);
          sim::note(cpu);
        }
        w.seen.push_back(s);
        break;
      }
      case K_POLICY: {
        std::map<Dev, ExecutorDispatchMode> m;
        std::map<Dev, unsigned> prop;
        FragmentInfo f;
        size_t n = (size_t)o.a[2];
        {
          Quiet q;
          m = modes((int)o.a[4]);
          f = fragment(o.a[3]);
        }
        int kind = (int)o.a[5];
        if (kind == 0) {
          policy::RoundRobinExecutionPolicy pol(m);
          auto [cpu, gpu] = schedule(pol, f, n, o);
          Quiet q;
          check_modes(pol, m, o, true);
          SIM_CHECK(cpu - gpu == (int64_t)(n % 2) || gpu - cpu == (int64_t)(n % 2), "cost:round-robin", "op %d: %lld and %lld fragments", o.id, (long long)cpu, (long long)gpu);
        } else if (kind == 1) {
          Dev d = o.a[3] % 2 ? Dev::CPU : Dev::GPU;
          {
            Quiet q;
            m = {{d, m[d]}};
          }
          policy::FragmentIDAssignmentExecutionPolicy pol(d, m);
          auto [cpu, gpu] = schedule(pol, f, n, o);
          Quiet q;
          check_modes(pol, m, o, true);
          SIM_CHECK((d == Dev::CPU ? gpu : cpu) == 0, "cost:fixed-device", "op %d: a fragment on the other device", o.id);
          SIM_CHECK(pol.devices() == std::set<Dev>{d}, "cost:fixed-device", "op %d: devices()", o.id);
        } else {
          double c = (double)o.a[0], g = (double)o.a[1];
          {
            Quiet q;
            prop = {{Dev::CPU, (unsigned)o.a[0]}, {Dev::GPU, (unsigned)o.a[1]}};
          }
          try {
            policy::ProportionBasedExecutionPolicy pol(std::move(prop), m);
            auto [cpu, gpu] = schedule(pol, f, n, o);
            Quiet q;
            SIM_CHECK(c + g > 0, "cost:proportion", "op %d: an empty proportion was accepted", o.id);
            check_modes(pol, m, o, true);
            double want = c / (c + g) * (double)n;
            SIM_CHECK(std::fabs((double)cpu - want) < 1 + 1e-6, "cost:proportion", "op %d: proportion %lld:%lld puts %lld of %zu fragments on the CPU", o.id,
                      (long long)o.a[0], (long long)o.a[1], (long long)cpu, n);
            SIM_CHECK((c > 0 || cpu == 0) && (g > 0 || gpu == 0), "cost:proportion", "op %d: a device with no share got fragments", o.id);
          } catch (const std::runtime_error&) {
            SIM_CHECK(c + g == 0, "cost:proportion", "op %d: proportion %lld:%lld was rejected", o.id, (long long)o.a[0], (long long)o.a[1]);
          }
        }
        sim::count("policies");
        break;
      }
      case K_LINE: {
        std::vector<Detail::Measurement> ms;
        size_t x;
        double want = 0, scale = 0;
        Line l;
        {
          Quiet q;
          ms = measure(Rng::mix(o.a[0]), false);
          x = o.a[1] % 3 == 0 ? ms[o.a[2] % ms.size()].bytes : o.a[1] % 3 == 1 ? (size_t)(o.a[2] % 200000) : (size_t)(o.a[2] % (int64_t)(ms.back().bytes + 1));
          for (auto& m : ms) scale = std::max(scale, (double)m.milliseconds);
        }
        size_t got;
        if (o.a[1] % 2) {
          LinearRegression lr(ms);
          got = lr.getExtrapolatedData(x);
          Quiet q;
          fit(ms, l);
          want = l.at((double)x);
          scale = std::max(scale, std::fabs(l.a) + std::fabs(l.b) * (double)x);
        } else {
          LinearExtrapolation le(ms);
          got = le.getExtrapolatedData(x);
          Quiet q;
          size_t i = 1;
          while (i + 1 < ms.size() && ms[i].bytes < x) ++i;
          double x1 = (double)ms[i - 1].bytes, x2 = (double)ms[i].bytes, y1 = (double)ms[i - 1].milliseconds, y2 = (double)ms[i].milliseconds;
          want = std::max(0.0, y1 + ((double)x - x1) / (x2 - x1) * (y2 - y1));
        }
        Quiet q;
        SIM_CHECK(std::fabs((double)got - want) <= 1.5 + scale * 1e-4, "cost:extrapolation", "op %d: %s predicts %zu for %zu bytes, %g expected", o.id,
                  o.a[1] % 2 ? "LinearRegression" : "LinearExtrapolation", got, x, want);
        sim::count("extrapolations");
        break;
      }
      case K_REJECT: {
        std::set<Dev> d;
        std::set<AnalyticalTemplate> t;
        bool ok;
        CostModelConfig c;
        {
          Quiet q;
          if (o.a[0] & 3) d.insert(Dev::CPU);
          if (o.a[0] & 12) d.insert(Dev::GPU);
          for (int i = 0; i < 4; ++i)
            if (o.a[1] & (7 << (3 * i))) t.insert(kTempl[i]);
          ok = d.size() == 2 && t.size() == 4;
          c.data_source = std::make_unique<Partial>(d, t);
        }
        bool threw = false;
        try {
          IterativeCostModel m(std::move(c));
        } catch (const CostModelException&) {
          threw = true;
        }
        SIM_CHECK(threw != ok, "cost:unsupported", "op %d: a data source with %zu devices and %zu templates was %s", o.id, d.size(), t.size(), ok ? "rejected" : "accepted");
        break;
      }
    }
  });
  sim::enable_faults(false);
  Quiet q;
  for (auto& s : w.seen) {
    std::set<std::pair<uint64_t, std::string>> memo;
    if (!search(w, s, memo, 0, {}))
      sim::fail("cost:prediction", "op %d: the prediction for %.0f bytes and %zu templates (%s, %.0f to %.0f bytes on the CPU) follows from no calibration", s.op, s.bytes,
                s.templs.size(), s.threw ? "refused" : "policy", s.lo, s.hi);
  }
  wp.reset();
}
sim::Scenario s1 = {"C19", "costmodel", nullptr, gen, run, kNames, 40000000};
sim::Registrar r1(&s1);
}  // namespace
