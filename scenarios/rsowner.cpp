// C09: the memory owner of a query's results. C14: exact quantiles collected by parallel kernels.
#include "harness.h"

#include <tbb/parallel_for.h>
#include <tbb/task_arena.h>
#include <tbb/task_group.h>
#include <cmath>

#include "DataProvider/DataProvider.h"
#include "IR/Context.h"
#include "ResultSet/QuantileAccessors.h"
#include "ResultSet/RowSetMemoryOwner.h"
#include "Shared/thread_count.h"

using namespace hs;
extern unsigned g_cpu_threads_override;
// Defined by the query engine, which is not part of this simulation.
// Small pages make dictionaries grow their storage often (and cheaply).
extern "C" int getpagesize() { return 4; }
size_t g_approx_quantile_buffer = 1000;
size_t g_approx_quantile_centroids = 300;

namespace {
constexpr int ND = 3;  // dictionaries 1..ND

struct Provider : DataProvider {
  std::unique_ptr<DictDescriptor> dd[ND + 1];
  std::shared_ptr<StringDictionary> base[ND + 1];
  bool removed[ND + 1] = {};
  std::shared_ptr<Chunk_NS::Chunk> getChunk(ColumnInfoPtr, const ChunkKey&, const Data_Namespace::MemoryLevel, const int, const size_t,
                                            const size_t) override {
    return nullptr;
  }
  std::unique_ptr<Data_Namespace::AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
  const DictDescriptor* getDictMetadata(int id, bool) const override {
    sim::yield_point();
    Quiet q;
    if (id < 1 || id > ND || removed[id]) return nullptr;
    return dd[id].get();
  }
};

struct Tok : Data_Namespace::AbstractDataToken {
  static std::atomic<int> live;
  std::shared_ptr<std::vector<int8_t>> d;
  Tok(std::shared_ptr<std::vector<int8_t>> x) : d(std::move(x)) { ++live; }
  ~Tok() override { --live; }
  const int8_t* getMemoryPtr() const override { return d->data(); }
  size_t getSize() const override { return d->size(); }
  const hdk::ir::Type* getType() const override { return nullptr; }
};
std::atomic<int> Tok::live{0};

struct GpuBuf : Data_Namespace::AbstractBuffer {
  std::atomic<int> pins{0};
  GpuBuf() : AbstractBuffer(0) {}
  void read(int8_t* const, const size_t, const size_t, const Data_Namespace::MemoryLevel, const int) override {}
  void write(int8_t*, const size_t, const size_t, const Data_Namespace::MemoryLevel, const int) override {}
  void reserve(size_t) override {}
  void append(int8_t*, const size_t, const Data_Namespace::MemoryLevel, const int) override {}
  int8_t* getMemoryPtr() override { return nullptr; }
  size_t pageCount() const override { return 0; }
  size_t pageSize() const override { return 0; }
  size_t reservedSize() const override { return 0; }
  Data_Namespace::MemoryLevel getType() const override { return Data_Namespace::GPU_LEVEL; }
  int pin() override { return ++pins; }
  int unPin() override { return --pins; }
  int getPinCount() override { return (int)pins; }
};

enum {
  O_ALLOC, O_SMALL, O_DISTINCT, O_STRING, O_ARRAY, O_TOKEN, O_PROXY, O_LITERAL, O_XLATE, O_CLONE, O_QUANT, O_OWNED, O_PIN, O_SET,
  O_GROW, O_REMOVE, O_TDIGEST
};
const char* const kONames[] = {"allocate", "small-allocate", "count-distinct", "add-string", "add-array", "save-token", "proxy", "literal-proxy",
                               "translate", "clone", "quantiles", "own-buffer", "pin-input", "own-set", "grow-dict", "remove-dict", "tdigest", nullptr};

struct Block {
  int8_t* p;
  size_t n;
  uint64_t pat;
  int op;
};
struct World {
  Provider prov;
  std::shared_ptr<RowSetMemoryOwner> own;
  std::map<uintptr_t, Block> blocks;
  std::vector<std::pair<std::string*, std::string>> strings;
  std::vector<std::pair<std::vector<int64_t>*, std::vector<int64_t>>> arrays;
  std::vector<std::shared_ptr<std::vector<int8_t>>> toks;
  std::map<int, const int8_t*> saved;
  StringDictionary* proxy[ND + 1] = {};
  int64_t gen[ND + 1] = {};
  StringDictionary* lit = nullptr;
  std::map<std::pair<int, int>, const std::vector<int32_t>*> xl[2];
  GpuBuf gpu[3];
  std::map<int, std::vector<std::pair<int32_t, std::string>>> transient;  // dict -> (id, string) seen through the proxy
  std::vector<std::shared_ptr<RowSetMemoryOwner>> clones;
};
World* W;

uint64_t word(uint64_t pat, size_t i) { return Rng::mix(pat * 1000003 + i); }
void fill(Block& b) {
  Quiet q;
  for (size_t i = 0; i + 8 <= b.n && i < 4096; i += 8) {
    uint64_t w = word(b.pat, i);
    memcpy(b.p + i, &w, 8);
  }
  for (size_t i = b.n & ~7ull; i < b.n; ++i) b.p[i] = (int8_t)word(b.pat, i);
}
void verify(const Block& b) {
  Quiet q;
  for (size_t i = 0; i + 8 <= b.n && i < 4096; i += 8) {
    uint64_t w = word(b.pat, i), x;
    memcpy(&x, b.p + i, 8);
    if (w != x) sim::fail("owner:overwritten", "memory handed out by op %d changed at byte %zu of %zu", b.op, i, b.n);
  }
  for (size_t i = b.n & ~7ull; i < b.n; ++i)
    if (b.p[i] != (int8_t)word(b.pat, i)) sim::fail("owner:overwritten", "memory handed out by op %d changed at byte %zu of %zu", b.op, i, b.n);
}
Block take(int8_t* p, size_t n, const Op& o, bool small, bool zeroed = false) {
  Quiet q;
  SIM_CHECK(p, "owner:null", "op %d got no memory for %zu bytes", o.id, n);
  SIM_CHECK(n == 0 || sim::heap_addr_live(p, n), "owner:bad-memory", "op %d got %zu bytes that are not all allocated memory", o.id, n);
  SIM_CHECK((uintptr_t)p % 8 == 0, "owner:misaligned", "op %d got misaligned memory", o.id);
  if (zeroed)
    for (size_t i = 0; i < n; ++i) SIM_CHECK(p[i] == 0, "owner:not-zero", "count distinct buffer of op %d not zeroed at byte %zu of %zu", o.id, i, n);
  Block b{p, n, (uint64_t)o.id, o.id};
  if (n) {
    auto it = W->blocks.lower_bound((uintptr_t)p);
    if (it != W->blocks.end())
      SIM_CHECK((uintptr_t)p + n <= it->first, "owner:overlap", "op %d and op %d share memory", o.id, it->second.op);
    if (it != W->blocks.begin()) {
      --it;
      SIM_CHECK(it->first + it->second.n <= (uintptr_t)p, "owner:overlap", "op %d and op %d share memory", o.id, it->second.op);
    }
    W->blocks[(uintptr_t)p] = b;
  }
  sim::note((uint64_t)n);
  return b;
}
std::string nth(int d, int i) { return str("d%d-%d", d, i); }

void gen09(Rng& r, Plan& p) {
  int nthr = (int)r.range(1, 4);
  p.set("threads", nthr);
  p.set("cpus", r.range(1, 5));
  int n = (int)r.range(nthr, 8 * nthr);
  for (int d = 1; d <= ND; ++d) {
    p.set(str("base%d", d).c_str(), r.range(0, 6));
    p.set(str("gen%d", d).c_str(), r.chance(0.5) ? -1 : r.range(0, 6));
  }
  bool dicts = r.chance(0.6);
  double pools = r.chance(0.15) ? 0.5 : 0.02;
  // a dictionary gives up on failing allocations by design
  p.set("faults", !dicts && r.chance(0.7) ? r.range(1, 30) : 0);
  for (int i = 0; i < n; ++i) {
    int t = (int)r.below(nthr);
    int k = dicts && r.chance(0.6) ? (int)(r.below(6) < 4 ? O_PROXY + r.below(3) : (r.chance(0.3) ? O_CLONE : r.chance(0.5) ? O_GROW : O_REMOVE))
                                         : (int)(std::vector<int>{O_ALLOC, O_SMALL, O_SMALL, O_DISTINCT, O_STRING, O_ARRAY, O_TOKEN, O_QUANT, O_OWNED, O_PIN, O_SET, O_TDIGEST})[r.below(12)];
    int64_t a = 0, b = 0, c = 0;
    switch (k) {
      case O_ALLOC: a = r.chance(0.2) ? r.range(0, 3) : r.chance(0.2) ? r.range(250, 260) : r.range(1, 4000); break;
      case O_SMALL: {
        int64_t big[] = {10 << 20, (10 << 20) + 1, (10 << 20) - 8, 9 << 20, 5 << 20, 1 << 20, (1 << 20) + 8, 64 << 10, 3 << 20};
        a = r.chance(pools) ? big[r.below(9)] : r.range(1, 300);
        b = r.range(1, 4);  // repeats
        c = r.chance(0.1);  // an index beyond the number of CPUs
        break;
      }
      case O_DISTINCT: a = r.range(1, 2000); break;
      case O_STRING: a = r.range(0, 60); break;
      case O_ARRAY: a = r.range(0, 10); break;
      case O_TOKEN: a = r.below(3); break;
      case O_PROXY: a = r.range(1, ND); b = r.below(8); c = r.chance(0.2); break;
      case O_LITERAL: a = r.below(4); break;
      case O_XLATE: a = r.range(1, ND); b = r.range(1, ND); c = r.below(2); break;
      case O_QUANT: a = r.range(1, 4); b = r.range(1, 20); break;
      case O_GROW: a = r.range(1, ND); b = r.range(1, 4); break;
      case O_REMOVE: a = r.range(1, ND); break;
      default: a = r.range(1, 400);
    }
    p.add(t, k, a, b, c);
  }
}

StringDictionary* get_proxy(int d, bool transient_id, bool with_gen) {
  {
    Quiet q;
    SIM_CHECK(!W->prov.removed[d] || W->proxy[d], "harness", "removed dictionary without proxy");
  }
  StringDictionary* s = W->own->getOrAddStringDictProxy(transient_id ? -d : d, with_gen ? W->gen[d] : -1);
  Quiet q;
  SIM_CHECK(s, "owner:no-proxy", "no proxy for dictionary %d", d);
  if (!W->proxy[d]) W->proxy[d] = s;
  SIM_CHECK(W->proxy[d] == s, "owner:two-proxies", "dictionary %d has two proxies", d);
  return s;
}
// A dictionary registers with one generation; whoever comes first fixes it.
void ensure(int d) { get_proxy(d, false, true); }

void exec09(int t, const Op& o) {
  auto& own = *W->own;
  auto oom = [&](const std::bad_alloc&) { sim::count("alloc_rejected"); };
  switch (o.kind) {
    case O_ALLOC:
      try {
        Block b = take(own.allocate(o.a[0]), o.a[0], o, false);
        fill(b);
      } catch (const std::bad_alloc& e) {
        oom(e);
      }
      break;
    case O_SMALL: {
      size_t idx = o.a[2] ? 5 + t : t;  // one index per client
      for (int i = 0; i < o.a[1]; ++i) try {
          Block b = take(own.allocateSmallMtNoLock(o.a[0], idx), o.a[0], o, true);
          fill(b);
        } catch (const std::bad_alloc& e) {
          oom(e);
        }
      break;
    }
    case O_DISTINCT:
      try {
        Block b = take(own.allocateCountDistinctBuffer(o.a[0]), o.a[0], o, false, true);
        fill(b);
      } catch (const std::bad_alloc& e) {
        oom(e);
      }
      break;
    case O_STRING: {
      std::string s;
      {
        Quiet q;
        s = std::string(o.a[0], 'x') + std::to_string(o.id);
      }
      auto* p = own.addString(s);
      Quiet q;
      SIM_CHECK(*p == s, "owner:string", "stored string differs");
      W->strings.push_back({p, s});
      break;
    }
    case O_ARRAY: {
      std::vector<int64_t> v;
      {
        Quiet q;
        for (int i = 0; i < o.a[0]; ++i) v.push_back(o.id * 1000 + i);
      }
      auto* p = own.addArray(v);
      Quiet q;
      SIM_CHECK(*p == v, "owner:array", "stored array differs");
      W->arrays.push_back({p, v});
      break;
    }
    case O_TOKEN: {
      std::unique_ptr<Tok> k;
      const int8_t* want;
      {
        Quiet q;
        k = std::make_unique<Tok>(W->toks[o.a[0]]);
        want = k->getMemoryPtr();
      }
      const int8_t* got = own.saveDataToken(std::move(k));
      Quiet q;
      SIM_CHECK(got == want, "owner:token", "saved token gives another address");
      W->saved[o.a[0]] = got;
      break;
    }
    case O_PROXY: {
      StringDictionary* s = get_proxy(o.a[0], o.a[2], true);
      std::string text;
      {
        Quiet q;
        text = str("t%d", (int)o.a[1]);
      }
      int32_t id = s->getOrAdd(text);
      {
        Quiet q;
        for (auto& [i, x] : W->transient[o.a[0]])
          SIM_CHECK((i == id) == (x == text), "owner:proxy-ids", "proxy %d: id %d for %s, earlier %d for %s", (int)o.a[0], id, text.c_str(), i, x.c_str());
        W->transient[o.a[0]].push_back({id, text});
      }
      StringDictionary* again = own.getStringDictProxy(o.a[0]);
      SIM_CHECK(again == s, "owner:two-proxies", "dictionary %d has two proxies", (int)o.a[0]);
      std::string back = again->getString(id);
      Quiet q;
      SIM_CHECK(back == text, "owner:proxy-string", "id %d gives %s instead of %s", id, back.c_str(), text.c_str());
      break;
    }
    case O_LITERAL: {
      StringDictionary* s = own.getOrAddStringDictProxy(0);
      {
        Quiet q;
        SIM_CHECK(s, "owner:no-proxy", "no literal proxy");
        if (!W->lit) W->lit = s;
        SIM_CHECK(W->lit == s, "owner:two-literal-proxies", "two dictionaries for literals: strings added to one are lost in the other");
      }
      std::string text;
      {
        Quiet q;
        text = str("lit%d", (int)o.a[0]);
      }
      int32_t id = s->getOrAdd(text);
      StringDictionary* again = own.getLiteralStringDictProxy();
      SIM_CHECK(again == s, "owner:two-literal-proxies", "two dictionaries for literals");
      std::string back = again->getString(id);
      Quiet q;
      SIM_CHECK(back == text, "owner:proxy-string", "literal id %d gives %s", id, back.c_str());
      break;
    }
    case O_XLATE: {
      int a = o.a[0], b = o.a[1];
      if (a == b) break;
      auto* src = get_proxy(a, false, true);
      auto* dst = get_proxy(b, false, true);
      const std::vector<int32_t>* m =
          o.a[2] ? own.addStringProxyUnionTranslationMap(src, dst) : own.addStringProxyIntersectionTranslationMap(src, dst);
      Quiet q;
      SIM_CHECK(m, "owner:no-map", "no translation map");
      auto& known = W->xl[o.a[2]][{a, b}];
      if (!known) known = m;
      SIM_CHECK(known == m, "owner:two-maps", "two translation maps for %d -> %d", a, b);
      for (size_t i = 0; i < m->size(); ++i)
        if ((*m)[i] >= 0)
          SIM_CHECK(src->getString((int)i) == dst->getString((*m)[i]), "owner:map-content", "map %d->%d: %zu goes to another string", a, b, i);
      break;
    }
    case O_CLONE: {
      std::vector<int> have;
      StringDictionary* l0;
      {
        Quiet q;
        for (int d = 1; d <= ND; ++d)
          if (W->proxy[d]) have.push_back(d);
        l0 = W->lit;
      }
      auto c = own.cloneStrDictDataOnly();
      {
        Quiet q;
        for (int d : have)
          SIM_CHECK(c->getStringDictProxyOwned(d).get() == W->proxy[d], "owner:clone", "the clone does not share the proxy of dictionary %d", d);
        if (l0) SIM_CHECK(c->getLiteralStringDictProxy() == l0, "owner:clone", "the clone does not share the literal proxy");
        W->clones.push_back(c);
      }
      break;
    }
    case O_QUANT: {
      try {
        auto* q = own.quantiles(o.a[0]);
        {
          Quiet qq;
          take(reinterpret_cast<int8_t*>(q), o.a[0] * sizeof(*q), o, false);
          W->blocks[(uintptr_t)q].pat = 0;  // not ours to fill
        }
        for (int i = 0; i < o.a[0]; ++i) {
          if (t) break;  // the small pools are per worker; only client 0 plays worker 0
          for (int j = 0; j < o.a[1]; ++j) q[i].add<int64_t>((j * 7 + i) % o.a[1]);
          int64_t v = q[i].quantile<int64_t, int64_t>(1.0, hdk::ir::Interpolation::kHigher);
          int64_t best = 0;
          for (int j = 0; j < o.a[1]; ++j) best = std::max<int64_t>(best, (j * 7 + i) % o.a[1]);
          SIM_CHECK(v == best, "owner:quantile", "maximum %lld instead of %lld", (long long)v, (long long)best);
        }
      } catch (const std::bad_alloc& e) {
        oom(e);
      }
      break;
    }
    case O_OWNED: {
      void *p, *p2, *p3;
      {
        Quiet q;
        p = malloc(o.a[0]), p2 = malloc(o.a[0]), p3 = malloc(o.a[0]);
      }
      own.addVarlenBuffer(p);
      own.addColBuffer(p2);
      own.addGroupByBuffer(static_cast<int64_t*>(p3));
      SIM_CHECK(sim::heap_addr_live(p, o.a[0]), "owner:early-free", "buffer freed while owned");
      break;
    }
    case O_PIN: {
      GpuBuf* b = &W->gpu[o.a[0] % 3];
      own.addVarlenInputBuffer(b);
      SIM_CHECK(b->pins > 0, "owner:pin", "input buffer not pinned");
      break;
    }
    case O_SET: {
      robin_hood::unordered_set<int64_t>* s;
      {
        Quiet q;
        s = new robin_hood::unordered_set<int64_t>();
        s->insert(o.id);
      }
      own.addCountDistinctSet(s);
      break;
    }
    case O_TDIGEST: {
      try {
        auto* d = own.nullTDigest(0.5);
        SIM_CHECK(d, "owner:null", "no digest");
        d->allocate();
        d->add((double)o.id);
        d->mergeBuffer();
        double v = d->quantile();
        SIM_CHECK(v == (double)o.id, "owner:tdigest", "median of one value %d is %g", o.id, v);
      } catch (const std::bad_alloc& e) {
        oom(e);
      }
      break;
    }
    case O_GROW: {
      for (int i = 0; i < o.a[1]; ++i) {
        std::string s;
        {
          Quiet q;
          s = str("g%d-%d", o.id, i);
        }
        W->prov.base[o.a[0]]->getOrAdd(s);
      }
      break;
    }
    case O_REMOVE: {
      ensure(o.a[0]);
      Quiet q;
      W->prov.removed[o.a[0]] = true;
      break;
    }
  }
}

void run09(const Plan& p) {
  int nthr = (int)p.get("threads", 1);

  {
    Quiet q;
    W = new World;
    Tok::live = 0;
    g_cpu_threads_override = (unsigned)p.get("cpus", 2);
    for (int i = 0; i < 3; ++i) W->toks.push_back(std::make_shared<std::vector<int8_t>>(100 + i));
    for (int d = 1; d <= ND; ++d) {
      W->prov.base[d] = std::make_shared<StringDictionary>(DictRef(1, d), true);
      int n = (int)p.get(str("base%d", d).c_str(), 0);
      for (int i = 0; i < n; ++i) W->prov.base[d]->getOrAdd(i % 2 ? nth(0, i) : nth(d, i));
      W->gen[d] = std::min<int64_t>(p.get(str("gen%d", d).c_str(), -1), n);
      W->prov.dd[d] = std::make_unique<DictDescriptor>(1, d, "dict", 32, false, 1, "", true);
      W->prov.dd[d]->stringDict = W->prov.base[d];
    }
  }

  W->own = std::make_shared<RowSetMemoryOwner>(&W->prov, 256);
  sim::alloc_faults(256, p.get("faults") / 100.0);
  run_threads(p, nthr, exec09);
  sim::alloc_faults(0, 0);
  {
    Quiet q;
    for (auto& [a, b] : W->blocks)
      if (b.pat) {
        SIM_CHECK(sim::heap_addr_live(b.p, b.n), "owner:early-free", "memory of op %d no longer valid", b.op);
        verify(b);
      }
    for (auto& [s, v] : W->strings) SIM_CHECK(*s == v, "owner:string", "stored string changed");
    for (auto& [s, v] : W->arrays) SIM_CHECK(*s == v, "owner:array", "stored array changed");
    SIM_CHECK(Tok::live == (int)W->saved.size(), "owner:tokens", "%d tokens alive for %zu saved addresses", (int)Tok::live, W->saved.size());
    for (auto& [d, v] : W->transient)
      for (auto& [id, x] : v) SIM_CHECK(W->proxy[d]->getString(id) == x, "owner:proxy-string", "id %d of proxy %d changed", id, d);
  }
  // the clones share the proxies and outlive the owner
  W->own.reset();
  {
    Quiet q;
    SIM_CHECK(Tok::live == 0, "owner:tokens", "%d tokens leaked", (int)Tok::live);
    for (auto& b : W->gpu) SIM_CHECK(b.pins == 0, "owner:pin", "input buffer left with %d pins", (int)b.pins);
    for (auto& [a, b] : W->blocks) SIM_CHECK(b.n == 0 || !sim::heap_addr_live(b.p, b.n), "owner:leak", "memory of op %d outlives the owner", b.op);
    for (auto& c : W->clones)
      for (int d = 1; d <= ND; ++d)
        if (auto s = c->getStringDictProxyOwned(d))
          for (auto& [id, x] : W->transient[d])
            if (id < (int)s->entryCount()) SIM_CHECK(s->getString(id) == x, "owner:clone", "id %d of cloned proxy %d changed", id, d);
    W->clones.clear();
  }
}

// ---- C14 ---------------------------------------------------------------------------------------
enum { Q_PUSH };
const char* const kQNames[] = {"push", nullptr};
const hdk::ir::Interpolation kInterp[] = {hdk::ir::Interpolation::kLower, hdk::ir::Interpolation::kHigher, hdk::ir::Interpolation::kNearest,
                                          hdk::ir::Interpolation::kMidpoint, hdk::ir::Interpolation::kLinear};
const int kTypeSize[] = {1, 2, 4, 8, 4, 8};  // int8..int64, float, double

double value_of(int type, int dist, uint64_t seed, int i) {
  uint64_t x = Rng::mix(seed * 131 + i);
  double v;
  switch (dist) {
    case 0: v = (double)(x % 21) - 10; break;              // many ties
    case 1: v = i; break;                                  // ascending
    case 2: v = -i; break;
    case 3: v = 7; break;                                  // constant
    case 4: v = (i % 2 ? i : -i); break;
    case 5: v = (x & 1) ? 1e18 : -1e18; break;             // far apart
    case 6: v = i < 500 ? i : 1000 - i; break;             // organ pipe
    default: v = (double)(int64_t)(x >> 20) - (double)(1ll << 43);
  }
  if (type >= 4) return type == 4 ? (double)(float)(v / 4) : v / 4;
  double lim = type == 0 ? 126 : type == 1 ? 32766 : type == 2 ? 2147483646.0 : 4e18;
  if (v > lim) v = type == 3 ? lim : (dist == 5 ? lim : (double)((int64_t)v % 100));
  if (v < -lim) v = type == 3 ? -lim : (dist == 5 ? -lim : (double)((int64_t)v % 100));
  return v;
}
void gen14(Rng& r, Plan& p) {
  int type = (int)r.below(6), K = (int)r.range(1, 5), G = (int)r.range(1, 3);
  p.set("type", type);
  int ip = (int)r.below(5);
  p.set("interp", ip);
  p.set("resdouble", r.chance(ip >= 3 ? 0.8 : 0.2));
  int64_t qs[] = {0, 250, 500, 750, 1000, 900, 100, 1, 999};
  p.set("q", r.chance(0.7) ? qs[r.below(9)] : r.range(0, 1000));
  p.set("kernels", K);
  p.set("groups", G);
  p.set("workers", r.range(0, 3));
  p.set("cpus", r.range(1, 4));
  p.set("order", r.next() >> 2);
  p.set("tree", r.below(2));
  p.set("inter", r.chance(0.2));
  p.set("par", r.chance(0.7));
  p.set("faults", r.chance(0.3) ? r.range(1, 50) : 0);
  int chunk = (64 << 10) / kTypeSize[type];
  bool big = r.chance(0.06), huge = big && kTypeSize[type] == 8 && r.chance(0.2);
  for (int k = 0; k < K; ++k)
    for (int g = 0; g < G; ++g) {
      int64_t n = r.chance(0.2) ? 0 : r.chance(0.5) ? r.range(1, 6) : r.range(1, 60);
      if (big && r.chance(0.4)) n = chunk * r.range(1, huge ? 8 : kTypeSize[type] == 8 ? 3 : 1) + r.range(-1, 1) * (int)r.below(2);
      if (n) p.add(k, Q_PUSH, g, n, r.below(8), r.below(1000));
    }
}
template <class T>
void run14t(const Plan& p, int type) {
  int K = (int)p.get("kernels", 1), G = (int)p.get("groups", 1);
  double q = p.get("q") / 1000.0;
  auto interp = kInterp[p.get("interp")];
  bool rd = p.get("resdouble");
  hdk::ir::Context* ctx;
  RowSetMemoryOwner* own;
  std::vector<hdk::quantile::Quantile*> qa(K);
  std::vector<std::vector<double>> ref(G);
  TargetInfo ti{};
  {
    Quiet qq;
    g_cpu_threads_override = (unsigned)p.get("cpus", 2);
    simtbb::set_workers((int)p.get("workers", 1));
    ctx = new hdk::ir::Context();
    const hdk::ir::Type* at = type == 4 ? (const hdk::ir::Type*)ctx->fp32() : type == 5 ? (const hdk::ir::Type*)ctx->fp64() : ctx->integer(kTypeSize[type]);
    ti.is_agg = true;
    ti.agg_kind = hdk::ir::AggType::kQuantile;
    ti.agg_arg_type = at;
    ti.type = rd ? (const hdk::ir::Type*)ctx->fp64() : at;
    ti.quantile_param = q;
    ti.interpolation = interp;
    for (int i = 0; i < p.nops; ++i) {
      const Op& o = p.ops[i];
      for (int j = 0; j < o.a[1]; ++j) ref[o.a[0]].push_back((double)(T)value_of(type, (int)o.a[2], o.a[3], j));
    }
    for (auto& v : ref) std::sort(v.begin(), v.end());
  }
  own = new RowSetMemoryOwner(nullptr, 256);
  for (int k = 0; k < K; ++k) qa[k] = own->quantiles(G);
  sim::alloc_faults(60000, p.get("faults") / 100.0);
  // the kernels: each collects into its own array, from one worker
  tbb::task_group tg;
  tbb::task_arena arena(4);
  arena.execute([&] {
    for (int k = 0; k < K; ++k)
      tg.run([&, k] {
        for (int i = 0; i < p.nops; ++i) {
          const Op& o = p.ops[i];
          if (o.thread != k) continue;
          for (int j = 0; j < o.a[1]; ++j) {
            T v;
            {
              Quiet qq;
              v = (T)value_of(type, (int)o.a[2], o.a[3], j);
            }
            for (int tries = 0;; ++tries) try {
                qa[k][o.a[0]].template add<T>(v);
                break;
              } catch (const std::bad_alloc&) {
                sim::count("alloc_rejected");
                SIM_CHECK(tries < 1000, "quantile:starved", "no progress");
              }
          }
        }
      });
    tg.wait();
  });
  sim::alloc_faults(0, 0);
  // what the answer must be
  auto check = [&](int g, double got, const char* what) {
    Quiet qq;
    auto& v = ref[g];
    if (v.empty()) {
      double null = rd ? inline_null_value<double>() : (double)inline_null_value<T>();
      SIM_CHECK(got == null, "quantile:null", "%s: no values but %.17g", what, got);
      return;
    }
    double pos = (v.size() - 1) * q;
    double lo, hi, exact;
    if (interp == hdk::ir::Interpolation::kLower)
      lo = hi = exact = v[(size_t)std::floor(pos)];
    else if (interp == hdk::ir::Interpolation::kHigher)
      lo = hi = exact = v[(size_t)std::ceil(pos)];
    else if (interp == hdk::ir::Interpolation::kNearest) {
      double f = pos - std::floor(pos);
      if (std::fabs(f - 0.5) < 1e-9)
        lo = v[(size_t)std::floor(pos)], hi = v[(size_t)std::ceil(pos)], exact = got;
      else
        lo = hi = exact = v[(size_t)(f < 0.5 ? std::floor(pos) : std::ceil(pos))];
      if (got != lo && got != hi) sim::fail("quantile:wrong", "%s: group %d, %zu values: got %.17g, expected %.17g or %.17g", what, g, v.size(), got, lo, hi);
    } else {
      lo = v[(size_t)std::floor(pos)], hi = v[(size_t)std::ceil(pos)];
      double c = interp == hdk::ir::Interpolation::kMidpoint ? 0.5 : pos - std::floor(pos);
      exact = lo == hi ? lo : (double)((long double)lo + ((long double)hi - lo) * c);
    }
    double tol = lo == hi ? 0 : (std::fabs(hi) + std::fabs(lo)) * (type == 4 && !rd ? 1e-6 : 1e-13) + (type < 4 && !rd ? 1 : 0);
    SIM_CHECK(std::fabs(got - exact) <= tol, "quantile:wrong", "%s: group %d, %zu values, q %g: got %.17g, expected %.17g", what, g, v.size(), q, got, exact);
  };
  auto as_double = [&](const TargetValue& tv) {
    auto& s = boost::get<ScalarTargetValue>(tv);
    if (auto* x = boost::get<int64_t>(&s)) return (double)*x;
    if (auto* x = boost::get<double>(&s)) return *x;
    return (double)boost::get<float>(s);
  };
  // the reduction: any order, any shape, groups in parallel
  uint64_t order = (uint64_t)p.get("order");
  bool tree = p.get("tree"), inter = p.get("inter");
  auto reduce_group = [&](int g) {
    std::vector<int> left;
    Rng r(order + g);
    {
      Quiet qq;
      for (int k = 0; k < K; ++k) left.push_back(k);
    }
    if (inter) {
      // printing an intermediate result must not disturb anything
      (void)getQuantile(&qa[r.below(K)][g], ti);
    }
    while (left.size() > 1) {
      size_t a, b;
      {
        Quiet qq;
        a = tree ? r.below(left.size()) : 0;
        b = r.below(left.size() - 1);
        if (b >= a) ++b;
      }
      qa[left[a]][g].merge(qa[left[b]][g]);
      Quiet qq;
      left.erase(left.begin() + b);
    }
    if (inter) check(g, as_double(getQuantile(&qa[left[0]][g], ti)), "before finalization");
    finalizeQuantile(&qa[left[0]][g], ti);
    check(g, as_double(getQuantile(&qa[left[0]][g], ti)), "after finalization");
    auto iv = getQuantileInternal(&qa[left[0]][g], ti);
    double d;
    if (ti.type->isFloatingPoint() && ti.type->size() == 4) {
      float f;
      int32_t x = (int32_t)iv.i1;
      memcpy(&f, &x, 4);
      d = f;
    } else if (ti.type->isFloatingPoint())
      memcpy(&d, &iv.i1, 8);
    else
      d = (double)iv.i1;
    check(g, d, "internal value");
  };
  if (p.get("par"))
    tbb::parallel_for(tbb::blocked_range<int>(0, G, 1), [&](const tbb::blocked_range<int>& br) {
      for (int g = br.begin(); g < br.end(); ++g) reduce_group(g);
    });
  else
    for (int g = 0; g < G; ++g) reduce_group(g);
  delete own;
}
void run14(const Plan& p) {
  int type = (int)p.get("type");
  switch (type) {
    case 0: return run14t<int8_t>(p, type);
    case 1: return run14t<int16_t>(p, type);
    case 2: return run14t<int32_t>(p, type);
    case 3: return run14t<int64_t>(p, type);
    case 4: return run14t<float>(p, type);
    default: return run14t<double>(p, type);
  }
}

sim::Scenario s09{"C09", "rsowner", nullptr, gen09, run09, kONames, 5'000'000};
sim::Registrar r09(&s09);
sim::Scenario s14{"C14", "quantile", nullptr, gen14, run14, kQNames, 60'000'000};
sim::Registrar r14(&s14);
}  // namespace
