// C16-C18: whole queries. A storage with fragmented tables, the data manager, the query
// builder, the engine (planning, code generation, kernels, reduction, sort, joins, caches)
// and the registry of results run as in production; a small row-at-a-time evaluator of the
// same plan says what the answer has to be.
#include "harness.h"

#include <cmath>
#include <iostream>

#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/DataMgr.h"
#include "DataMgr/Encoder.h"
#include "IR/Context.h"
#include "QueryOptimizer/CanonicalizeQuery.h"
#include "QueryBuilder/QueryBuilder.h"
#include "QueryEngine/RelAlgExecutor.h"
#include "ResultSetRegistry/ResultSetRegistry.h"
#include "SchemaMgr/SchemaMgr.h"
#include "SchemaMgr/SimpleSchemaProvider.h"
#include "StringDictionary/StringDictionary.h"

extern bool g_is_test_env;
extern unsigned g_cpu_threads_override;

using namespace hs;
using namespace hdk::ir;
using Data_Namespace::AbstractBuffer;
using Data_Namespace::AbstractDataToken;
using Data_Namespace::DataMgr;

namespace {
constexpr int SID = 1;
constexpr int DB = (SID << 24) + 1;
constexpr int NT = 3, NCOL = 13;
constexpr int NDICT = 2;
Context& ctx() { return Context::defaultCtx(); }
int dict_id(int d) { return (SID << 24) + 10 + d; }

struct QueryFault : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// ---- values ------------------------------------------------------------------------------
struct V {
  bool null = false;
  int64_t i = 0;
  double d = 0;
  std::string s;
};
enum Kind { K_INT, K_FP, K_BOOL, K_STR, K_DEC, K_TS, K_OTHER };
Kind kind_of(const Type* t) {
  if (t->isInteger()) return K_INT;
  if (t->isFloatingPoint()) return K_FP;
  if (t->isBoolean()) return K_BOOL;
  if (t->isExtDictionary() || t->isString()) return K_STR;
  if (t->isDecimal()) return K_DEC;
  if (t->isTimestamp()) return K_TS;
  return K_OTHER;
}
std::string show(const V& v, Kind k) {
  if (v.null) return "~";
  if (k == K_FP) return str("%.9g", v.d == 0 ? 0.0 : v.d);
  if (k == K_STR) return "'" + v.s + "'";
  return std::to_string(v.i);
}
double num(const V& v, Kind k) { return k == K_FP ? v.d : (double)v.i; }
int cmpv(const V& a, Kind ka, const V& b, Kind kb) {
  if (ka == K_STR) return a.s < b.s ? -1 : a.s > b.s;
  if (ka == K_FP || kb == K_FP) {
    double x = num(a, ka), y = num(b, kb);
    return x < y ? -1 : x > y;
  }
  return a.i < b.i ? -1 : a.i > b.i;
}

// ---- the storage ---------------------------------------------------------------------------
int ts_unit = 0;  // of the timestamp columns: seconds, milli-, micro- or nanoseconds
int64_t ts_per_sec() {
  static const int64_t n[] = {1, 1000, 1000000, 1000000000};
  return n[ts_unit];
}
const Type* ts_type(bool nullable) {
  static const TimeUnit u[] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
  return ctx().timestamp(u[ts_unit], nullable);
}
const Type* col_type(int c) {
  switch (c) {
    case 0: return ctx().int8();
    case 1: return ctx().int16();
    case 2: return ctx().int32();
    case 3: return ctx().int64();
    case 4: return ctx().fp32();
    case 5: return ctx().fp64();
    case 6: return ctx().boolean();
    case 7: return ts_type(true);
    case 8: return ctx().decimal64(10, 2);
    case 9: return ctx().extDict(ctx().text(), dict_id(0), 4);
    case 10: return ctx().int32(false);
    case 11: return ctx().int64(false);
    default: return ctx().extDict(ctx().text(), dict_id(1), 4);
  }
}
struct Frag {
  size_t first, rows;
};
struct Table {
  std::vector<std::vector<V>> cols;
  std::vector<std::vector<int8_t>> raw;
  std::vector<Frag> frags;
  size_t rows = 0;
  std::shared_ptr<TableFragmentsInfo> meta;
};
struct Store;
Store* ST;
struct Token : AbstractDataToken {
  const int8_t* p;
  size_t n;
  const Type* type;
  int* live;
  ~Token() override {
    Quiet q;
    --*live;
  }
  const int8_t* getMemoryPtr() const override { return p; }
  size_t getSize() const override { return n; }
  const Type* getType() const override { return type; }
};
struct Store : SimpleSchemaProvider, AbstractDataProvider {
  Table t[NT];
  std::vector<std::string> words[NDICT];
  std::shared_ptr<DictDescriptor> dict[NDICT];
  double err_p = 0;
  int zc = 0;  // 0 none, 1 fragments, 2 fragments and whole columns
  int tokens = 0;
  uint64_t errors = 0, fetches = 0;
  Store() : SimpleSchemaProvider(Context::defaultCtx(), SID, "sim") {}
  int getId() const override { return SID; }

  void fetchBuffer(const ChunkKey& k, AbstractBuffer* dest, const size_t n) override {
    const int8_t* src;
    {
      Quiet q;
      ++fetches;
      Table& tb = t[k[1] - 1];
      Frag& f = tb.frags[k[3] - 1];
      size_t es = col_type(k[2] - 1)->size();
      if (n > f.rows * es) sim::fail("query:fetch", "%zu bytes requested of a chunk of %zu", n, f.rows * es);
      src = tb.raw[k[2] - 1].data() + f.first * es;
    }
    sim::yield_point();
    if (sim::fault("storage-read", err_p)) {
      ++errors;
      throw QueryFault("simulated storage error");
    }
    dest->reserve(n);
    {
      Quiet q;
      memcpy(dest->getMemoryPtr(), src, n);
    }
    sim::yield_point();
    dest->setSize(n);
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& k, size_t n) override {
    Quiet q;
    if (!zc || (k[2] + k[3]) % 3 == 0) return nullptr;
    Table& tb = t[k[1] - 1];
    Frag& f = tb.frags[k[3] - 1];
    size_t es = col_type(k[2] - 1)->size();
    auto r = std::make_unique<Token>();
    r->p = tb.raw[k[2] - 1].data() + f.first * es;
    r->n = f.rows * es;
    r->type = col_type(k[2] - 1);
    r->live = &tokens;
    ++tokens;
    return r;
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ::ColumnRef& ref) override {
    Quiet q;
    if (zc < 2) return nullptr;
    Table& tb = t[ref.table_id - 1];
    auto r = std::make_unique<Token>();
    r->p = tb.raw[ref.column_id - 1].data();
    r->n = tb.raw[ref.column_id - 1].size();
    r->type = col_type(ref.column_id - 1);
    r->live = &tokens;
    ++tokens;
    return r;
  }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int table) const override { return t[table - 1].meta; }
  const DictDescriptor* getDictMetadata(int id, bool) override {
    for (int d = 0; d < NDICT; ++d)
      if (id == dict_id(d)) return dict[d].get();
    return nullptr;
  }

  void put(std::vector<int8_t>& out, int c, const V& v, std::map<std::string, int>* ids) {
    const Type* ty = col_type(c);
    auto add = [&](auto x) {
      size_t o = out.size();
      out.resize(o + sizeof x);
      memcpy(&out[o], &x, sizeof x);
    };
    if (ty->isFloatingPoint()) {
      if (ty->size() == 4) add(v.null ? inline_null_value<float>() : (float)v.d);
      else add(v.null ? inline_null_value<double>() : v.d);
      return;
    }
    int64_t x = v.i;
    if (ty->isExtDictionary()) x = v.null ? 0 : ids[c == 9 ? 0 : 1].at(v.s);
    if (v.null) x = inline_fixed_encoding_null_value(ty);
    switch (ty->size()) {
      case 1: add((int8_t)x); break;
      case 2: add((int16_t)x); break;
      case 4: add((int32_t)x); break;
      default: add(x);
    }
  }
  bool wide = false;  // timestamps over centuries: a bitmap of their distinct values would take gigabytes
  // mode of a column: how its values are spread
  V value(Rng& r, int c, int mode, double nullp, bool nullable) {
    V v;
    if (nullable && r.chance(nullp)) {
      v.null = true;
      return v;
    }
    // either a narrow range (perfect hash layouts) or one far too wide for them (baseline hash)
    int64_t lim = c == 0 ? 60 : c == 3 || c == 11 ? 1000000000000ll : c == 1 ? 120 : 150;
    switch (mode) {
      case 0: v.i = r.range(0, 4); break;
      case 1: v.i = r.range(-3, 12); break;
      case 2: v.i = r.range(0, 60); break;
      case 3: v.i = r.range(-lim, lim); break;
      case 4: v.i = (r.range(-4, 4)) * (lim / 5); break;
      default: v.i = 7;
    }
    if (c == 4 || c == 5) {
      v.d = (double)r.range(-40, 40) * (mode < 2 ? 1.0 : 0.25);
      v.i = 0;
    } else if (c == 6) {
      v.i = (int64_t)r.below(2);
    } else if (c == 7) {
      if (mode == 3) wide = true, v.i = r.range(-2500000000ll, ts_unit == 3 ? 4000000000ll : 7500000000ll);  // 1890 to 2207
      else if (mode == 4) v.i = 951782400 + r.range(-3, 3) * 86400 + r.range(-1, 1);    // around 29 February 2000
      else v.i = 1500000000 + (mode == 2 ? r.range(-200, 200) : r.range(0, 20) * (mode == 1 ? 10 : 1));
      if (mode == 5) v.i = 0;
      v.i = v.i * ts_per_sec() + (ts_unit && mode != 1 ? r.range(-3, 3) * (ts_per_sec() / (mode == 2 ? 1000 : 2)) : 0);
    } else if (c == 9 || c == 12) {
      auto& wd = words[c == 9 ? 0 : 1];
      v.s = wd[r.below(mode == 0 ? std::min<size_t>(3, wd.size()) : wd.size())];
      v.i = 0;
    }
    return v;
  }
  void build(uint64_t seed, size_t maxrows, size_t fragsz, const Plan& p) {
    Rng r(seed);
    std::map<std::string, int> ids[NDICT];
    for (int d = 0; d < NDICT; ++d) {
      int n = (int)r.range(3, 14);
      for (int i = 0; i < n; ++i) words[d].push_back(d == 1 && r.chance(0.5) ? str("w%d", i * 3) : str("%c%d", 'a' + (int)r.below(20), i));
      if (d == 1)
        for (auto& s : words[1])
          if (r.chance(0.4)) s = words[0][r.below(words[0].size())];
      std::set<std::string> u(words[d].begin(), words[d].end());
      words[d].assign(u.begin(), u.end());
      for (size_t i = words[d].size(); i > 1; --i) std::swap(words[d][i - 1], words[d][r.below(i)]);
      dict[d] = std::make_shared<DictDescriptor>(DB, dict_id(d), "d", 32, true, 1, std::string("t"), true);
      dict[d]->stringDict = std::make_shared<StringDictionary>(DictRef{DB, dict_id(d)});
      for (auto& s : words[d]) ids[d][s] = dict[d]->stringDict->getOrAdd(s);
    }
    for (int k = 0; k < NT; ++k) {
      Table& tb = t[k];
      bool small = k == 2;
      tb.rows = r.chance(0.07) ? 0 : (size_t)r.range(1, small ? std::max<size_t>(2, maxrows / 4) : maxrows);
      size_t fs = std::max<size_t>(1, r.chance(0.3) ? 1 + r.below(4) : fragsz);
      if (tb.rows / fs > 12) fs = tb.rows / 12 + 1;
      addTableInfo(DB, k + 1, str("t%d", k + 1), false, std::max<size_t>(1, (tb.rows + fs - 1) / fs), tb.rows);
      for (int c = 0; c < NCOL; ++c) addColumnInfo(DB, k + 1, c + 1, str("c%d", c), col_type(c), false);
      addRowidColumn(DB, k + 1, NCOL + 1);
      tb.cols.resize(NCOL);
      tb.raw.resize(NCOL);
      for (size_t o = 0; o < tb.rows; o += fs) tb.frags.push_back({o, std::min(fs, tb.rows - o)});
      auto meta = std::make_shared<TableFragmentsInfo>();
      meta->setPhysicalNumTuples(tb.rows);
      TableStats ts;
      for (size_t f = 0; f < std::max<size_t>(tb.frags.size(), 2) && (f < tb.frags.size() || tb.frags.empty()); ++f) {
        FragmentInfo& fi = meta->fragments.emplace_back();
        fi.fragmentId = tb.frags.empty() ? 0 : (int)f + 1;
        fi.physicalTableId = k + 1;
        fi.setPhysicalNumTuples(tb.frags.empty() ? 0 : tb.frags[f].rows);
        fi.deviceIds = {0, 0, 0};
      }
      for (int c = 0; c < NCOL; ++c) {
        bool nullable = col_type(c)->nullable();
        int mode = (int)r.below(6);
        double np = r.chance(0.3) ? 0 : r.chance(0.1) ? 1 : 0.2;
        bool clustered = r.chance(0.3);  // fragments with their own value range (fragment skipping)
        for (size_t i = 0; i < tb.rows; ++i) tb.cols[c].push_back(value(r, c, mode, np, nullable));
        if (clustered)
          std::sort(tb.cols[c].begin(), tb.cols[c].end(), [](const V& a, const V& b) {
            return std::make_tuple(a.null, a.i, a.d, a.s) < std::make_tuple(b.null, b.i, b.d, b.s);
          });
        for (auto& v : tb.cols[c]) put(tb.raw[c], c, v, ids);
        size_t es = col_type(c)->size();
        for (size_t f = 0; f < tb.frags.size(); ++f) {
          std::unique_ptr<Encoder> enc(Encoder::Create(nullptr, col_type(c)));
          enc->updateStatsEncoded(tb.raw[c].data() + tb.frags[f].first * es, tb.frags[f].rows);
          ChunkStats st;
          enc->fillChunkStats(st, col_type(c));
          meta->fragments[f].setChunkMetadata(c + 1, std::make_shared<ChunkMetadata>(col_type(c), tb.frags[f].rows * es, tb.frags[f].rows, st));
          if (f == 0) ts[c + 1] = st;
          else mergeStats(ts[c + 1], st, col_type(c));
        }
      }
      if (tb.rows) meta->setTableStats(ts);
      tb.meta = meta;
    }
    for (auto& tb : t)
      for (auto& c : tb.raw) c.shrink_to_fit();
  }
};

// ---- plan and reference answer, built side by side -------------------------------------------
struct Col {
  const Type* t;
  std::vector<V> v;
  bool opaque = false;  // count distinct: its declared type is not the stored one (see DESIGN.md), never computed with
};
struct Rel {
  BuilderNode n;
  std::vector<Col> cols;
  size_t rows = 0;
};
struct E {
  BuilderExpr b;
  const Type* t;
  std::vector<V> v;
  Kind k() const { return kind_of(t); }
};
struct Answer {
  std::vector<Col> cols;
  size_t rows = 0;
  bool sorted = false, limited = false;
  std::vector<BuilderSortField> unused;
  struct Key {
    int col;
    bool desc, nulls_first;
  };
  std::vector<Key> keys;
  size_t limit = 0, offset = 0;
};
bool fits(const Type* t, const std::vector<V>& v) {
  Kind k = kind_of(t);
  if (k != K_INT) return true;
  int64_t lim = t->size() == 8 ? (int64_t)1 << 52 : ((int64_t)1 << (8 * t->size() - 1)) - 1;
  for (auto& x : v)
    if (!x.null && (x.i > lim || x.i < -lim)) return false;
  return true;
}

// ---- calendar (proleptic Gregorian, UTC) ----------------------------------------------------------
struct Civil {
  int64_t y;
  int m, d;
};
int64_t days_of(int64_t y, int m, int d) {
  static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  int64_t n = y - 1;
  auto fl = [](int64_t a, int64_t b) { return a / b - (a % b < 0); };
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  return n * 365 + fl(n, 4) - fl(n, 100) + fl(n, 400) + cum[m - 1] + (m > 2 && leap) + d - 1 - 719162;
}
int month_len(int64_t y, int m) {
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 29 : len[m - 1];
}
Civil civil_of(int64_t days) {
  Civil c{1970 + days / 366, 1, 1};
  while (days_of(c.y, 1, 1) > days) --c.y;
  while (days_of(c.y + 1, 1, 1) <= days) ++c.y;
  while (c.m < 12 && days_of(c.y, c.m + 1, 1) <= days) ++c.m;
  c.d = (int)(days - days_of(c.y, c.m, 1)) + 1;
  return c;
}
const DateExtractField EXTR[] = {DateExtractField::kYear, DateExtractField::kQuarter, DateExtractField::kMonth, DateExtractField::kDay, DateExtractField::kHour, DateExtractField::kMinute, DateExtractField::kSecond, DateExtractField::kDayOfWeek, DateExtractField::kIsoDayOfWeek, DateExtractField::kDayOfYear, DateExtractField::kEpoch, DateExtractField::kMilli, DateExtractField::kDateEpoch, DateExtractField::kQuarterDay, DateExtractField::kWeek, DateExtractField::kWeekSunday, DateExtractField::kWeekSaturday};
const char* const EXTR_NAME[] = {"year", "quarter", "month", "day", "hour", "minute", "second", "dow", "isodow", "doy", "epoch", "milli", "dateepoch", "quarterday", "week", "week_sunday", "week_saturday"};
int64_t week_of(int64_t day, int first) {  // first: day of the week (Sunday is 0) a week begins with
  auto start = [&](int64_t y) {
    int64_t j4 = days_of(y, 1, 4);
    return j4 - (((j4 + 4 - first) % 7 + 7) % 7);
  };
  int64_t y = civil_of(day).y + 1;
  while (start(y) > day) --y;
  return (day - start(y)) / 7 + 1;
}
int64_t floor_of(int64_t a, int64_t b) { return a / b - (a % b < 0); }
int64_t extract_of(int f, int64_t ticks) {
  int64_t t = floor_of(ticks, ts_per_sec());
  int64_t day = t / 86400 - (t % 86400 < 0), sod = t - day * 86400;
  Civil c = civil_of(day);
  switch (f) {
    case 0: return c.y;
    case 1: return (c.m - 1) / 3 + 1;
    case 2: return c.m;
    case 3: return c.d;
    case 4: return sod / 3600;
    case 5: return sod / 60 % 60;
    case 6: return sod % 60;
    case 7: return ((day + 4) % 7 + 7) % 7;
    case 8: return ((day + 3) % 7 + 7) % 7 + 1;
    case 9: return day - days_of(c.y, 1, 1) + 1;
    case 10: return t;
    case 11: return sod % 60 * 1000 + (ticks - t * ts_per_sec()) * 1000 / ts_per_sec();
    case 12: return day * 86400;
    case 13: return sod / 21600 + 1;
    case 14: return week_of(day, 1);
    case 15: return week_of(day, 0);
    default: return week_of(day, 6);
  }
}
const DateAddField ADDF[] = {DateAddField::kSecond, DateAddField::kMinute, DateAddField::kHour, DateAddField::kDay, DateAddField::kWeek, DateAddField::kMonth, DateAddField::kQuarter, DateAddField::kYear, DateAddField::kDecade};
const char* const ADDF_NAME[] = {"second", "minute", "hour", "day", "week", "month", "quarter", "year", "decade"};
int64_t add_to(int f, int64_t n, int64_t ticks) {
  int64_t per = ts_per_sec(), t = floor_of(ticks, per), frac = ticks - t * per;
  static const int64_t unit[] = {1, 60, 3600, 86400, 7 * 86400, 1, 3, 12, 120};
  auto join = [&](int64_t s) {
    int64_t o;
    if (__builtin_mul_overflow(s, per, &o) || __builtin_add_overflow(o, frac, &o)) return INT64_MAX;
    return o;
  };
  if (f < 5) return join(t + n * unit[f]);
  int64_t day = t / 86400 - (t % 86400 < 0), sod = t - day * 86400;
  Civil c = civil_of(day);
  int64_t m = c.y * 12 + c.m - 1 + n * unit[f];
  int64_t y = m / 12 - (m % 12 < 0);
  int mm = (int)(m - y * 12) + 1;
  return join(days_of(y, mm, std::min(c.d, month_len(y, mm))) * 86400 + sod);
}

struct Gen {
  QueryBuilder b;
  Rng r;
  Store& st;
  int id = 0;
  std::string desc;
  int level;
  Gen(SchemaProviderPtr sp, ConfigPtr cfg, uint64_t seed, Store& s, int lv) : b(ctx(), sp, cfg), r(seed), st(s), level(lv) {}
  std::string nm() { return str("x%d", id++); }

  Rel scan(int k) {
    Rel o;
    o.n = b.scan(DB, k + 1);
    Table& tb = st.t[k];
    o.rows = tb.rows;
    for (int c = 0; c < NCOL; ++c) o.cols.push_back({col_type(c), tb.cols[c]});
    desc += str("t%d", k + 1);
    return o;
  }
  E ref(const Rel& s, int c) { return {s.n.ref(c), s.cols[c].t, s.cols[c].v}; }
  int pick(const Rel& s, unsigned kinds) {
    std::vector<int> ok;
    for (int i = 0; i < (int)s.cols.size(); ++i)
      if (!s.cols[i].opaque && kinds >> kind_of(s.cols[i].t) & 1) ok.push_back(i);
    return ok.empty() ? -1 : ok[r.below(ok.size())];
  }
  static constexpr unsigned NUM = 1u << K_INT | 1u << K_FP;
  static constexpr unsigned ALL = NUM | 1u << K_BOOL | 1u << K_STR | 1u << K_DEC | 1u << K_TS;

  template <class F>
  E map1(const E& a, BuilderExpr be, F f) {
    E o{be, be.type(), {}};
    for (auto& x : a.v) {
      V y;
      if (x.null) y.null = true;
      else f(x, y);
      o.v.push_back(y);
    }
    return o;
  }
  template <class F>
  E map2(const E& a, const E& c, BuilderExpr be, F f) {
    E o{be, be.type(), {}};
    for (size_t i = 0; i < a.v.size(); ++i) {
      V y;
      if (a.v[i].null || c.v[i].null) y.null = true;
      else f(a.v[i], c.v[i], y);
      o.v.push_back(y);
    }
    return o;
  }
  E numeric(const Rel& s, int depth) {
    int c = pick(s, NUM);
    if (c < 0) {
      E o{b.cst((int64_t)5, ctx().int64(false)), ctx().int64(false), {}};
      for (size_t i = 0; i < s.rows; ++i) {
        V v;
        v.i = 5;
        o.v.push_back(v);
      }
      return o;
    }
    E a = ref(s, c);
    std::string d = str("#%d", c);
    int ts = r.chance(0.15) ? pick(s, 1u << K_TS) : -1;
    if (ts >= 0) {
      E x = ref(s, ts);
      int f = (int)r.below(17);
      if ((f == 10 || f == 12) && st.wide) f = 0;
      a = map1(x, x.b.extract(EXTR[f]), [&](const V& x, V& y) { y.i = extract_of(f, x.i); });
      d = str("%s(#%d)", EXTR_NAME[f], ts);
    }
    while (depth-- > 0 && r.chance(0.5)) {
      E n = a;
      std::string nd;
      bool fp = a.k() == K_FP;
      switch (r.below(10)) {
        case 7: {
          if (fp) continue;
          int k = (int)r.range(0, 3), m = (int)r.range(-9, 90);
          n = map1(a, k == 0 ? a.b.bwAnd(m) : k == 1 ? a.b.bwOr(m) : k == 2 ? a.b.bwXor(m) : a.b.bwNot(), [&](const V& x, V& y) { y.i = k == 0 ? x.i & m : k == 1 ? x.i | m : k == 2 ? x.i ^ m : ~x.i; });
          nd = k == 3 ? str("~%s", d.c_str()) : str("(%s %c %d)", d.c_str(), "&|^"[k], m);
          break;
        }
        case 8: {
          double k = (double)r.range(-8, 8) * 0.25;
          n = map1(a, a.b.mul(k), [&](const V& x, V& y) { y.d = num(x, a.k()) * k; });
          nd = str("(%s*%g)", d.c_str(), k);
          break;
        }
        case 9: {
          int c2 = pick(s, NUM);
          E e2 = ref(s, c2);
          bool f2 = fp || e2.k() == K_FP;
          n = map2(a, e2, a.b.mul(e2.b), [&](const V& x, const V& z, V& y) {
            if (f2) y.d = num(x, a.k()) * num(z, e2.k());
            else if (__builtin_mul_overflow(x.i, z.i, &y.i)) y.i = INT64_MAX;
          });
          nd = str("(%s*#%d)", d.c_str(), c2);
          break;
        }
        case 0: {
          int k = (int)r.range(-5, 5);
          n = map1(a, a.b.add(k), [&](const V& x, V& y) { fp ? (void)(y.d = x.d + k) : (void)(y.i = x.i + k); });
          nd = str("(%s+%d)", d.c_str(), k);
          break;
        }
        case 1: {
          int k = (int)r.range(2, 3);
          n = map1(a, a.b.mul(k), [&](const V& x, V& y) { fp ? (void)(y.d = x.d * k) : (void)(y.i = x.i * k); });
          nd = str("(%s*%d)", d.c_str(), k);
          break;
        }
        case 2: {
          int c2 = pick(s, NUM);
          E e2 = ref(s, c2);
          bool f2 = fp || e2.k() == K_FP;
          bool sub = r.chance(0.5);
          n = map2(a, e2, sub ? a.b.sub(e2.b) : a.b.add(e2.b), [&](const V& x, const V& z, V& y) {
            double zz = num(z, e2.k()), xx = num(x, a.k());
            if (f2) y.d = sub ? xx - zz : xx + zz;
            else y.i = sub ? x.i - z.i : x.i + z.i;
          });
          nd = str("(%s%c#%d)", d.c_str(), sub ? '-' : '+', c2);
          break;
        }
        case 3:
          n = map1(a, a.b.uminus(), [&](const V& x, V& y) { fp ? (void)(y.d = -x.d) : (void)(y.i = -x.i); });
          nd = str("-%s", d.c_str());
          break;
        case 4:
          n = map1(a, a.b.cast(ctx().fp64(a.t->nullable())), [&](const V& x, V& y) { y.d = num(x, a.k()); });
          nd = str("fp64(%s)", d.c_str());
          break;
        case 5:
          if (fp) continue;
          n = map1(a, a.b.cast(ctx().int64(a.t->nullable())), [&](const V& x, V& y) { y.i = x.i; });
          nd = str("i64(%s)", d.c_str());
          break;
        default: {
          int k = (int)r.range(2, 7);
          if (fp) continue;
          bool mod = r.chance(0.5);
          n = map1(a, mod ? a.b.mod(k) : a.b.div(k), [&](const V& x, V& y) { y.i = mod ? x.i % k : x.i / k; });
          nd = str("(%s%c%d)", d.c_str(), mod ? '%' : '/', k);
        }
      }
      if (kind_of(n.t) != K_INT && kind_of(n.t) != K_FP) continue;
      if (kind_of(n.t) == K_FP && n.t->size() == 4) {
        bool ok = true;
        for (auto& x : n.v) ok &= x.null || std::fabs(x.d) < 100000;
        if (!ok) continue;
      }
      if (!fits(n.t, n.v)) continue;
      a = n;
      d = nd;
    }
    desc += d;
    return a;
  }
  E boolean(const Rel& s, int depth) {
    if (depth > 0 && r.chance(0.4)) {
      int op = (int)r.below(3);
      desc += op == 2 ? "not(" : "(";
      E a = boolean(s, depth - 1);
      if (op == 2) {
        desc += ")";
        return map1(a, a.b.logicalNot(), [](const V& x, V& y) { y.i = !x.i; });
      }
      desc += op ? " or " : " and ";
      E c = boolean(s, depth - 1);
      desc += ")";
      E o{op ? a.b.logicalOr(c.b) : a.b.logicalAnd(c.b), nullptr, {}};
      o.t = o.b.type();
      for (size_t i = 0; i < s.rows; ++i) {
        const V &x = a.v[i], &z = c.v[i];
        V y;
        bool dom = op;  // the dominating value
        if ((!x.null && (x.i != 0) == dom) || (!z.null && (z.i != 0) == dom)) y.i = dom;
        else if (x.null || z.null) y.null = true;
        else y.i = !dom;
        o.v.push_back(y);
      }
      return o;
    }
    int w = (int)r.below(10);
    if (w == 0) {
      int c = pick(s, ALL);
      if (c >= 0) {
        E a = ref(s, c);
        desc += str("#%d is null", c);
        E o{a.b.isNull(), nullptr, {}};
        o.t = o.b.type();
        for (auto& x : a.v) {
          V y;
          y.i = x.null;
          o.v.push_back(y);
        }
        return o;
      }
    }
    if (w == 1) {
      int c = pick(s, 1u << K_BOOL);
      if (c >= 0) {
        desc += str("#%d", c);
        return ref(s, c);
      }
    }
    static const char* nm[] = {"=", "<>", "<", "<=", ">", ">="};
    int op = (int)r.below(6);
    auto hold = [op](int c) { return op == 0 ? c == 0 : op == 1 ? c != 0 : op == 2 ? c < 0 : op == 3 ? c <= 0 : op == 4 ? c > 0 : c >= 0; };
    auto mk = [op](const BuilderExpr& x, const auto& y) {
      return op == 0 ? x.eq(y) : op == 1 ? x.ne(y) : op == 2 ? x.lt(y) : op == 3 ? x.le(y) : op == 4 ? x.gt(y) : x.ge(y);
    };
    if (w == 2) {
      int c = pick(s, 1u << K_STR);
      if (c >= 0) {
        op = op % 2;
        E a = ref(s, c);
        std::string lit = r.chance(0.15) ? "nosuch" : st.words[r.below(NDICT)][0];
        if (r.chance(0.6) && s.rows) {
          auto& x = a.v[r.below(s.rows)];
          if (!x.null) lit = x.s;
        }
        desc += str("#%d%s'%s'", c, nm[op], lit.c_str());
        return map1(a, op ? a.b.ne(lit) : a.b.eq(lit), [&](const V& x, V& y) { y.i = op ? x.s != lit : x.s == lit; });
      }
    }
    if (w == 3) {
      int c = pick(s, 1u << K_TS);
      if (c >= 0) {
        E a = ref(s, c);
        int64_t k = (1500000000 + r.range(0, 20)) * ts_per_sec();
        if (r.chance(0.5) && s.rows && !a.v[0].null) k = a.v[0].i;
        desc += str("#%d%s%ld", c, nm[op], (long)k);
        return map1(a, mk(a.b, b.cst(k, ts_type(false))), [&](const V& x, V& y) { y.i = hold(x.i < k ? -1 : x.i > k); });
      }
    }
    if (w == 4) {
      int c = pick(s, 1u << K_DEC);
      if (c >= 0) {
        E a = ref(s, c);
        int64_t sc = 1;
        for (int i = 0; i < a.t->as<DecimalType>()->scale(); ++i) sc *= 10;
        int k = (int)r.range(-2, 3);
        desc += str("#%d%s%d", c, nm[op], k);
        return map1(a, mk(a.b, k), [&](const V& x, V& y) { y.i = hold(x.i < k * sc ? -1 : x.i > k * sc); });
      }
    }
    E a = numeric(s, 1);
    if (w == 5) {
      desc += " is null";
      E o{a.b.isNull(), nullptr, {}};
      o.t = o.b.type();
      for (auto& x : a.v) {
        V y;
        y.i = x.null;
        o.v.push_back(y);
      }
      return o;
    }
    desc += nm[op];
    if (w == 6) {
      double k = (double)r.range(-8, 8) * 0.5 + 0.25 * (double)r.below(2);
      desc += str("%g", k);
      return map1(a, mk(a.b, k), [&](const V& x, V& y) {
        double xx = num(x, a.k());
        y.i = hold(xx < k ? -1 : xx > k);
      });
    }
    if (r.chance(0.3)) {
      E c = numeric(s, 1);
      return map2(a, c, mk(a.b, c.b), [&](const V& x, const V& z, V& y) { y.i = hold(cmpv(x, a.k(), z, c.k())); });
    }
    int k = (int)r.range(-4, 12);
    if (r.chance(0.4) && s.rows) {
      auto& x = a.v[r.below(s.rows)];
      if (!x.null && a.k() == K_INT && std::llabs(x.i) < 1000000000) k = (int)x.i;
    }
    desc += std::to_string(k);
    return map1(a, mk(a.b, k), [&](const V& x, V& y) {
      V z;
      z.i = k;
      z.d = k;
      y.i = hold(cmpv(x, a.k(), z, a.k()));
    });
  }
  E scalar(const Rel& s) {
    if (r.chance(0.12)) {
      desc += "bool:";
      return boolean(s, 1);
    }
    if (r.chance(0.12)) {
      desc += "case(";
      E c = boolean(s, 0);
      desc += ",";
      E x = numeric(s, 1);
      desc += ",";
      int k = (int)r.range(0, 3);
      E o{b.ifThenElse(c.b, x.b, b.cst(k, x.t->withNullable(false))), nullptr, {}};
      desc += str("%d)", k);
      o.t = o.b.type();
      for (size_t i = 0; i < s.rows; ++i) {
        V y;
        if (!c.v[i].null && c.v[i].i) y = x.v[i];
        else y.i = k, y.d = k;
        o.v.push_back(y);
      }
      return o;
    }
    int ts = r.chance(0.1) ? pick(s, 1u << K_TS) : -1;
    if (ts >= 0) {
      E x = ref(s, ts);
      int f = (int)r.below(9);
      int64_t n = r.range(-14, 14);
      if (r.chance(0.3)) {
        int c2 = pick(s, 1u << K_INT);
        if (c2 >= 0) {
          E e2 = ref(s, c2);
          bool ok = true;
          for (auto& v : e2.v) ok &= v.null || std::llabs(v.i) < 200;
          if (ok) {
            E o = map2(x, e2, x.b.add(e2.b, ADDF[f]), [&](const V& a, const V& c, V& y) { y.i = add_to(f, c.i, a.i); });
            for (auto& v : o.v) ok &= v.i < INT64_MAX;
            if (ok) {
              desc += str("#%d+#%d %s", ts, c2, ADDF_NAME[f]);
              return o;
            }
          }
        }
      }
      E o = map1(x, x.b.add(n, ADDF[f]), [&](const V& a, V& y) { y.i = add_to(f, n, a.i); });
      bool ok = true;
      for (auto& v : o.v) ok &= v.i < INT64_MAX;
      if (ok) {
        desc += str("#%d+%d %s", ts, (int)n, ADDF_NAME[f]);
        return o;
      }
    }
    if (r.chance(0.45)) return numeric(s, 2);
    int c = pick(s, ALL);
    if (c < 0) return numeric(s, 1);
    desc += str("#%d", c);
    return ref(s, c);
  }
  Rel filter(const Rel& s) {
    desc += " | filter ";
    E c = boolean(s, 2);
    Rel o;
    o.n = s.n.filter(c.b);
    o.cols.resize(s.cols.size());
    for (size_t k = 0; k < s.cols.size(); ++k) o.cols[k].t = s.cols[k].t, o.cols[k].opaque = s.cols[k].opaque;
    for (size_t i = 0; i < s.rows; ++i)
      if (!c.v[i].null && c.v[i].i) {
        for (size_t k = 0; k < s.cols.size(); ++k) o.cols[k].v.push_back(s.cols[k].v[i]);
        ++o.rows;
      }
    return o;
  }
  Rel make(const Rel& s, const BuilderNode& n, std::vector<E>& es) {
    Rel o;
    o.n = n;
    o.rows = s.rows;
    for (auto& e : es) o.cols.push_back({e.t, e.v});
    return o;
  }
  Rel proj(const Rel& s, int ncol) {
    desc += " | proj";
    std::vector<E> es;
    std::vector<BuilderExpr> be;
    for (int i = 0; i < ncol; ++i) {
      desc += i ? ", " : " ";
      es.push_back(scalar(s));
      be.push_back(es.back().b.rename(nm()));
    }
    return make(s, s.n.proj(be), es);
  }
  bool big_range(const Rel& s, int c) {
    int k = kind_of(s.cols[c].t);
    if (k == K_STR || k == K_BOOL) return false;
    if (k == K_TS && ts_unit >= 2) return true;
    __int128 lo = 0, hi = 0;
    bool any = false;
    for (auto& v : s.cols[c].v)
      if (!v.null) {
        if (!any || v.i < lo) lo = v.i;
        if (!any || v.i > hi) hi = v.i;
        any = true;
      }
    return hi - lo > 200000;
  }
  Rel agg(const Rel& s) {
    int nk = (int)r.below(4);
    if (nk == 3) nk = 1;
    std::vector<int> keys;
    for (int i = 0; i < nk; ++i) {
      int c = pick(s, ALL & ~(1u << K_FP));
      if (c >= 0 && std::find(keys.begin(), keys.end(), c) == keys.end()) keys.push_back(c);
    }
    // One integer key gets a table with an entry per value of its range, up to a gigabyte: correct, but no use to
    // simulate tens of millions of empty entries. With several keys the engine itself falls back to hashing.
    if (keys.size() == 1 && big_range(s, keys[0])) keys.clear();
    desc += " | agg by";
    std::vector<BuilderExpr> kb, ab;
    for (int c : keys) {
      kb.push_back(s.n.ref(c).rename(nm()));
      desc += str(" #%d", c);
    }
    int na = (int)r.range(keys.empty() ? 1 : 0, 4);
    struct A {
      int fn, col;
      double q = 0;
      Interpolation ip = Interpolation::kLower;
    };
    std::vector<A> as;
    for (int i = 0; i < na; ++i) {
      static const char* nmz[] = {"count*", "count", "sum", "min", "max", "avg", "countd", "quantile"};
      A a{(int)r.below(8), -1};
      switch (a.fn) {
        case 1: a.col = pick(s, ALL); break;
        case 2: case 5: a.col = pick(s, NUM | 1u << K_DEC); break;
        case 3: case 4: a.col = pick(s, NUM | 1u << K_DEC | 1u << K_TS); break;
        case 6: a.col = pick(s, 1u << K_INT | 1u << K_STR | (st.wide || ts_unit ? 0 : 1u << K_TS) | 1u << K_BOOL); break;
        case 7: {
          static const Interpolation ips[] = {Interpolation::kLower, Interpolation::kHigher, Interpolation::kMidpoint, Interpolation::kLinear};
          a.col = pick(s, NUM);
          a.q = (double)r.below(5) * 0.25;
          a.ip = ips[r.below(4)];
          break;
        }
      }
      if (a.col < 0) a.fn = 0;
      desc += str(" %s(#%d)", nmz[a.fn], a.col);
      BuilderExpr x = a.col < 0 ? s.n.count() : s.n.ref(a.col);
      switch (a.fn) {
        case 0: break;
        case 1: x = x.count(); break;
        case 2: x = x.sum(); break;
        case 3: x = x.min(); break;
        case 4: x = x.max(); break;
        case 5: x = x.avg(); break;
        case 6: x = x.count(true); break;
        case 7:
          x = x.quantile(a.q, a.ip);
          desc += str(" %g/%d", a.q, (int)a.ip);
          break;
      }
      as.push_back(a);
      ab.push_back(x.rename(nm()));
    }
    Rel o;
    o.n = s.n.agg(kb, ab);
    for (size_t i = 0; i < keys.size() + as.size(); ++i) o.cols.push_back({o.n.ref((int)i).type(), {}, i >= keys.size() && (as[i - keys.size()].fn == 6 || (keys.empty() && !o.n.ref((int)i).type()->nullable() && as[i - keys.size()].fn > 1))});
    std::map<std::vector<std::string>, std::vector<size_t>> groups;
    if (keys.empty()) groups[{}];
    for (size_t i = 0; i < s.rows; ++i) {
      std::vector<std::string> k;
      for (int c : keys) k.push_back(show(s.cols[c].v[i], kind_of(s.cols[c].t)));
      groups[k].push_back(i);
    }
    for (auto& [k, rows] : groups) {
      ++o.rows;
      for (size_t i = 0; i < keys.size(); ++i) o.cols[i].v.push_back(s.cols[keys[i]].v[rows[0]]);
      for (size_t i = 0; i < as.size(); ++i) {
        V y;
        auto& a = as[i];
        if (a.fn == 0) y.i = (int64_t)rows.size();
        else {
          Kind kd = kind_of(s.cols[a.col].t);
          std::set<std::string> dist;
          int64_t n = 0;
          V acc;
          for (size_t rw : rows) {
            const V& x = s.cols[a.col].v[rw];
            if (x.null) continue;
            if (a.fn == 6) dist.insert(show(x, kd));
            if (!n) acc = x;
            else if (a.fn == 3) acc = cmpv(x, kd, acc, kd) < 0 ? x : acc;
            else if (a.fn == 4) acc = cmpv(x, kd, acc, kd) > 0 ? x : acc;
            else acc.i += x.i, acc.d += x.d;
            ++n;
          }
          if (a.fn == 7) {
            std::vector<V> vs;
            for (size_t rw : rows)
              if (!s.cols[a.col].v[rw].null) vs.push_back(s.cols[a.col].v[rw]);
            std::sort(vs.begin(), vs.end(), [&](const V& p, const V& q) { return cmpv(p, kd, q, kd) < 0; });
            if (vs.empty()) y.null = true;
            else {
              double pos = (double)(vs.size() - 1) * a.q;
              V lo = vs[(size_t)std::floor(pos)], hi = vs[(size_t)std::ceil(pos)];
              if (a.ip == Interpolation::kLower) y = lo;
              else if (a.ip == Interpolation::kHigher) y = hi;
              else {
                double c = a.ip == Interpolation::kMidpoint ? 0.5 : pos - std::floor(pos);
                y.d = num(lo, kd) + (num(hi, kd) - num(lo, kd)) * c;
              }
            }
          } else if (a.fn == 1) y.i = n;
          else if (a.fn == 6) y.i = (int64_t)dist.size();
          else if (!n) y.null = true;
          else if (a.fn == 5) {
            y.d = num(acc, kd) / (double)n;
            if (kd == K_DEC) y.d /= std::pow(10.0, s.cols[a.col].t->as<DecimalType>()->scale());
          } else y = acc;
        }
        o.cols[keys.size() + i].v.push_back(y);
      }
    }
    return o;
  }
  Rel join(const Rel& l, const Rel& rr) {
    bool left = r.chance(0.35);
    std::vector<std::pair<int, int>> keys;
    int nk = r.chance(0.25) ? 2 : 1;
    for (int i = 0; i < nk; ++i) {
      unsigned kinds = r.chance(0.75) ? 1u << K_INT : 1u << K_STR | 1u << K_TS | 1u << K_INT;
      int a = pick(l, kinds);
      if (a < 0) continue;
      std::vector<int> ok;
      for (int c = 0; c < (int)rr.cols.size(); ++c) {
        if (rr.cols[c].opaque || kind_of(rr.cols[c].t) != kind_of(l.cols[a].t)) continue;
        if (rr.cols[c].t->withNullable(true) != l.cols[a].t->withNullable(true)) continue;
        ok.push_back(c);
      }
      if (ok.empty()) continue;
      keys.push_back({a, ok[r.below(ok.size())]});
    }
    if (keys.empty()) return l;
    BuilderExpr cond = l.n.ref(keys[0].first).eq(rr.n.ref(keys[0].second));
    for (size_t i = 1; i < keys.size(); ++i) cond = cond.logicalAnd(l.n.ref(keys[i].first).eq(rr.n.ref(keys[i].second)));
    desc += left ? " left-join" : " join";
    for (auto& k : keys) desc += str(" #%d=#%d", k.first, k.second);
    Rel o;
    o.n = l.n.join(rr.n, cond, left ? JoinType::LEFT : JoinType::INNER);
    for (auto& c : l.cols) o.cols.push_back({c.t, {}, c.opaque});
    for (auto& c : rr.cols) o.cols.push_back({left ? c.t->withNullable(true) : c.t, {}, c.opaque || (left && !c.t->nullable())});
    auto emit = [&](size_t i, int64_t j) {
      ++o.rows;
      for (size_t c = 0; c < l.cols.size(); ++c) o.cols[c].v.push_back(l.cols[c].v[i]);
      for (size_t c = 0; c < rr.cols.size(); ++c) {
        V nul;
        nul.null = true;
        o.cols[l.cols.size() + c].v.push_back(j < 0 ? nul : rr.cols[c].v[j]);
      }
    };
    for (size_t i = 0; i < l.rows; ++i) {
      bool any = false;
      for (size_t j = 0; j < rr.rows; ++j) {
        bool m = true;
        for (auto& k : keys) {
          const V &x = l.cols[k.first].v[i], &y = rr.cols[k.second].v[j];
          m &= !x.null && !y.null && cmpv(x, kind_of(l.cols[k.first].t), y, kind_of(rr.cols[k.second].t)) == 0;
        }
        if (m) emit(i, (int64_t)j), any = true;
      }
      if (left && !any) emit(i, -1);
    }
    for (size_t c = 0; c < o.cols.size(); ++c) o.cols[c].t = o.n.ref((int)c).type();
    return o;
  }
};

struct Client {
  std::shared_ptr<Executor> ex;
  struct Held {
    ExecutionResult res;
    std::vector<Col> cols;
    size_t rows;
    std::string desc;
  };
  std::vector<std::shared_ptr<Held>> held;
};
struct World {
  ConfigPtr cfg;
  std::shared_ptr<DataMgr> dm;
  std::vector<std::shared_ptr<Executor>> ex;
  std::shared_ptr<Store> store;
  SchemaMgrPtr smgr;
  bool small = false;
};
constexpr int NPOOL = 3, NEX = 3;
World* zw[NPOOL];

std::string cell(const TargetValue& tv, const Type* t, Kind k) {
  auto* sc = boost::get<ScalarTargetValue>(&tv);
  if (!sc) return "?";
  if (auto* i = boost::get<int64_t>(sc)) {
    if (k == K_FP) return "?int";
    bool null = *i == inline_int_null_value(t);
    return null ? "~" : std::to_string(*i);
  }
  if (auto* d = boost::get<double>(sc)) {
    if (*d == inline_null_value<double>()) return "~";
    return str("%.9g", *d == 0 ? 0.0 : *d);
  }
  if (auto* f = boost::get<float>(sc)) {
    if (*f == inline_null_value<float>()) return "~";
    return str("%.9g", (double)(*f == 0 ? 0.0f : *f));
  }
  if (auto* s = boost::get<NullableString>(sc)) {
    if (auto* x = boost::get<std::string>(s)) return "'" + *x + "'";
    return "~";
  }
  return "?";
}

void check_answer(const Answer& a, const ExecutionResult& res, const std::string& desc) {
  auto token = res.getToken();
  std::vector<std::vector<std::string>> got;
  size_t counted = 0;
  size_t ncol = a.cols.size();
  for (size_t i = 0; i < token->resultSetCount(); ++i) {
    auto rs = token->resultSet(i);
    SIM_CHECK(rs->colCount() == ncol, "query:columns", "%zu columns, expected %zu: %s", (size_t)rs->colCount(), ncol, desc.c_str());
    size_t n = rs->rowCount();
    counted += n;
    rs->moveToBegin();
    while (true) {
      auto row = rs->getNextRow(true, false);
      if (row.empty()) break;
      Quiet q;
      std::vector<std::string> c;
      for (size_t k = 0; k < row.size(); ++k) c.push_back(cell(row[k], rs->colType(k), kind_of(a.cols[k].t)));
      got.push_back(std::move(c));
    }
    rs->moveToBegin();
  }
  Quiet q;
  std::vector<std::vector<std::string>> want;
  std::vector<size_t> order(a.rows);
  for (size_t i = 0; i < a.rows; ++i) order[i] = i;
  if (a.sorted)
    std::stable_sort(order.begin(), order.end(), [&](size_t x, size_t y) {
      for (auto& k : a.keys) {
        const V &l = a.cols[k.col].v[x], &r = a.cols[k.col].v[y];
        if (l.null && r.null) continue;
        if (l.null) return k.nulls_first;
        if (r.null) return !k.nulls_first;
        Kind kd = kind_of(a.cols[k.col].t);
        int c = cmpv(l, kd, r, kd);
        if (c) return k.desc ? c > 0 : c < 0;
      }
      return false;
    });
  for (size_t i : order) {
    std::vector<std::string> c;
    for (auto& col : a.cols) c.push_back(show(col.v[i], kind_of(col.t)));
    want.push_back(std::move(c));
  }
  auto txt = [](const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) s += (s.empty() ? "" : ",") + x;
    return s;
  };
  size_t expect = a.rows;
  if (a.limited) {
    expect = a.rows > a.offset ? a.rows - a.offset : 0;
    if (a.limit) expect = std::min(expect, a.limit);
  }
  SIM_CHECK(counted == got.size(), "query:rowcount", "rowCount() says %zu, %zu rows read: %s", counted, got.size(), desc.c_str());
  std::multiset<std::vector<std::string>> pool(want.begin(), want.end());
  std::multiset<std::vector<std::string>> left = pool;
  if (sim::verbose()) {
    for (auto& g : got) sim::trace("got  %s", txt(g).c_str());
    for (auto& g : want) sim::trace("want %s", txt(g).c_str());
  }
  for (auto& g : got) {
    auto it = left.find(g);
    SIM_CHECK(it != left.end(), "query:answer", "row (%s) is not in the answer%s: %s", txt(g).c_str(), pool.count(g) ? " that often" : "", desc.c_str());
    left.erase(it);
  }
  if (got.size() != expect) sim::fail("query:answer", "%zu rows, expected %zu (missing e.g. (%s)): %s", got.size(), expect, left.empty() ? "" : txt(*left.begin()).c_str(), desc.c_str());
  if (a.sorted)
    for (size_t i = 0; i < got.size(); ++i)
      for (auto& k : a.keys)
        SIM_CHECK(got[i][k.col] == want[i + a.offset][k.col], "query:order", "row %zu has sort key %s, expected %s: %s", i, got[i][k.col].c_str(),
                  want[i + a.offset][k.col].c_str(), desc.c_str());
}

enum { Q_RUN, Q_REUSE, Q_DROP, Q_READ, Q_CLEAR };
const char* kNames[] = {"query", "query-result", "drop-result", "read-result", "clear-memory", nullptr};

void gen_query(World& w, Client& c, const Op& o, Gen& g, BuilderNode& root, Answer& a) {
  Rng& r = g.r;
  Rel s;
  {
    Quiet q;
    if (o.kind == Q_REUSE && !c.held.empty()) {
      auto& h = *c.held[(size_t)o.a[1] % c.held.size()];
      auto tk = h.res.getToken();
      s.n = g.b.scan(tk->dbId(), tk->tableId());
      s.cols = h.cols;
      s.rows = h.rows;
      for (size_t i = 0; i < s.cols.size(); ++i) s.cols[i].t = s.n.ref((int)i).type();
      g.desc += "{" + h.desc + "}";
    } else {
      s = g.scan((int)r.below(NT));
    }
    bool did = false;
    if (r.chance(0.3)) s = g.filter(s), did = true;
    if (r.chance(0.35)) {
      g.desc += " x ";
      Rel o2 = g.scan(r.chance(0.6) ? 2 : (int)r.below(NT));
      if (r.chance(0.2)) o2 = g.filter(o2);
      if (s.rows * o2.rows < 40000) {
        s = g.join(s, o2);
        if (r.chance(0.15) && s.rows < 300) {
          g.desc += " x ";
          s = g.join(s, g.scan(2));
        }
      }
      did = true;
      if (r.chance(0.3)) s = g.filter(s);
    }
    int shape = (int)r.below(6);
    if (shape <= 1) s = g.proj(s, (int)r.range(1, 6)), did = true;
    else if (shape <= 4) {
      if (r.chance(0.4)) s = g.proj(s, (int)r.range(2, 5));
      s = g.agg(s);
      did = true;
      if (r.chance(0.2)) s = g.filter(s);
      if (r.chance(0.15)) s = g.agg(s);
    }
    if (!did) s = g.proj(s, 3);
    a.cols = s.cols;
    a.rows = s.rows;
    if (r.chance(0.35)) {
      g.desc += " | sort";
      std::vector<BuilderSortField> f;
      int nk = (int)r.range(1, 3);
      for (int i = 0; i < nk; ++i) {
        int c = (int)r.below(s.cols.size());
        bool dup = false;
        for (auto& k : a.keys) dup |= k.col == c;
        if (dup || kind_of(s.cols[c].t) == K_OTHER) continue;
        bool desc = r.chance(0.5), nf = r.chance(0.5);
        a.keys.push_back({c, desc, nf});
        f.emplace_back(c, desc ? SortDirection::Descending : SortDirection::Ascending, nf ? NullSortedPosition::First : NullSortedPosition::Last);
        g.desc += str(" #%d%s%s", c, desc ? " desc" : "", nf ? " nulls first" : "");
      }
      if (!f.empty()) {
        a.sorted = true;
        if (r.chance(0.6)) {
          a.limited = true;
          a.limit = (size_t)r.range(1, 12);
          if (r.chance(0.4)) a.offset = (size_t)r.range(1, 8);
          g.desc += str(" limit %zu offset %zu", a.limit, a.offset);
        }
        s.n = s.n.sort(f, a.limit, a.offset);
      }
    }
    root = s.n;
  }
}

void do_op(World& w, Client& c, const Op& o) {
  switch (o.kind) {
    case Q_RUN:
    case Q_REUSE: {
      Gen g(w.smgr, w.cfg, (uint64_t)o.a[0], *w.store, 0);
      BuilderNode root;
      Answer a;
      gen_query(w, c, o, g, root, a);
      sim::trace("query %s", g.desc.c_str());
      sim::context(g.desc.c_str());
      uint64_t f0 = w.store->errors;
      try {
        auto dag = root.finalize();
        RelAlgExecutor ra(c.ex.get(), w.smgr, std::move(dag));
        auto eo = ExecutionOptions::fromConfig(*w.cfg);
        auto co = CompilationOptions::defaults(ExecutorDeviceType::CPU);
        co.hoist_literals = w.cfg->exec.codegen.hoist_literals;
        co.allow_lazy_fetch = w.cfg->rs.enable_lazy_fetch;
        co.use_groupby_buffer_desc = w.cfg->exec.group_by.use_groupby_buffer_desc;
        auto res = ra.executeRelAlgQuery(co, eo, false);
        check_answer(a, res, g.desc);
        sim::count("queries");
        if (a.rows) sim::count("queries with rows");
        if (!a.limited) {
          Quiet q;
          auto h = std::make_shared<Client::Held>();
          h->res = std::move(res);
          h->cols = a.cols;
          h->rows = a.rows;
          h->desc = g.desc;
          c.held.push_back(h);
        }
      } catch (const std::exception& e) {
        if (w.store->errors == f0 && !w.small) sim::fail("query:error", "%s: %s", e.what(), g.desc.c_str());
        sim::count("failed queries");
      }
      break;
    }
    case Q_DROP:
      if (!c.held.empty()) {
        std::shared_ptr<Client::Held> h;
        {
          Quiet q;
          size_t i = (size_t)o.a[1] % c.held.size();
          h = c.held[i];
          c.held.erase(c.held.begin() + (long)i);
        }
        h.reset();
      }
      break;
    case Q_READ:
      if (!c.held.empty()) {
        auto h = c.held[(size_t)o.a[1] % c.held.size()];
        Answer a;
        a.cols = h->cols;
        a.rows = h->rows;
        check_answer(a, h->res, h->desc);
      }
      break;
    case Q_CLEAR: Executor::clearMemory(Data_Namespace::CPU_LEVEL, w.dm.get()); break;
  }
}

void init() {
  g_is_test_env = true;
  std::string exe(4096, 0);
  exe.resize((size_t)readlink("/proc/self/exe", &exe[0], exe.size()));
  Executor::extension_module_sources[ExtModuleKinds::template_module] = exe.substr(0, exe.rfind('/')) + "/RuntimeFunctions.bc";
  for (int i = 0; i < NPOOL; ++i) {
    auto* w = zw[i] = new World;
    w->cfg = std::make_shared<Config>();
    auto& c = *w->cfg;
    c.exec.cpu_only = true;
    c.mem.cpu.max_size = i == 0 ? 64 << 20 : i == 1 ? 64 << 10 : 16 << 10;
    c.mem.cpu.min_slab_size = i == 0 ? 1 << 20 : 4096;
    c.mem.cpu.max_slab_size = i == 0 ? 16 << 20 : 16384;
    w->dm = std::make_shared<DataMgr>(c, false);
    for (int k = 0; k < NEX; ++k) w->ex.push_back(Executor::getExecutor(w->dm.get(), w->cfg));
  }
}
void gen_common(Rng& r, Plan& p) {
  p.set("data", (int64_t)(r.next() >> 2));
  p.set("rows", r.chance(0.2) ? r.range(30, 120) : r.range(1, 30));
  p.set("frag", r.range(1, 20));
  p.set("zc", (int64_t)r.below(3));
  p.set("cpus", r.range(1, 4));
  p.set("workers", r.range(0, 3));
  p.set("opts", (int64_t)(r.next() >> 20));
  p.set("tsu", r.chance(0.6) ? 0 : r.range(1, 3));
}
void configure(World& w, const Plan& p) {
  Config& c = *w.cfg;
  Rng r((uint64_t)p.get("opts"));
  g_cpu_threads_override = (unsigned)p.get("cpus");
  simtbb::set_workers((int)p.get("workers"));
  bool plain = r.chance(0.25);
  std::string on;
  int kopt = 0;
  auto opt = [&](double x) {
    bool b = r.chance(x) && !plain;
    if (b) on += " " + std::to_string(kopt);
    ++kopt;
    return b;
  };
  c.rs.enable_columnar_output = opt(0.4);
  c.rs.enable_lazy_fetch = !opt(0.3);
  c.rs.enable_direct_columnarization = !opt(0.2);
  c.rs.optimize_row_initialization = !opt(0.2);
  c.exec.enable_multifrag_rs = !opt(0.3);
  c.exec.group_by.enable_cpu_multifrag_kernels = !opt(0.4);
  c.exec.group_by.bigint_count = opt(0.2);
  if (opt(0.3)) c.exec.group_by.default_max_groups_buffer_entry_guess = 2;
  if (opt(0.3)) c.exec.group_by.big_group_threshold = 3;
  if (opt(0.3)) c.exec.group_by.baseline_threshold = 8;
  if (opt(0.3)) c.exec.streaming_topn_max = 2;
  if (opt(0.5)) c.exec.parallel_top_min = 1;
  if (opt(0.5)) c.exec.parallel_linearization_threshold = 1;
  c.exec.codegen.hoist_literals = !opt(0.2);
  c.exec.codegen.enable_filter_function = !opt(0.2);
  c.exec.join.allow_loop_joins = true;
  c.opts.from_table_reordering = !opt(0.3);
  c.opts.enable_left_join_filter_hoisting = !opt(0.2);
  c.exec.materialize_inner_join_tables = !opt(0.3);
  c.cache.use_hashtable_cache = !opt(0.3);
  c.cache.use_estimator_result_cache = !opt(0.3);
  sim::trace("options%s", on.c_str());
}
void setup(World& w, const Plan& p) {
  Quiet q;
  configure(w, p);
  ts_unit = (int)p.get("tsu", 0);
  w.store = std::make_shared<Store>();
  ST = w.store.get();
  w.store->build((uint64_t)p.get("data"), (size_t)p.get("rows"), (size_t)p.get("frag"), p);
  w.store->zc = (int)p.get("zc");
  w.dm->getPersistentStorageMgr()->registerDataProvider(SID, w.store);
  auto reg = hdk::ResultSetRegistry::getOrCreate(w.dm.get(), w.cfg);
  w.smgr = std::make_shared<SchemaMgr>();
  w.smgr->registerProvider(SID, w.store);
  w.smgr->registerProvider(hdk::ResultSetRegistry::SCHEMA_ID, reg);
}

// ---- C16: one client ----------------------------------------------------------------------------
void gen16(Rng& r, Plan& p) {
  gen_common(r, p);
  int n = (int)r.range(1, 5);
  for (int i = 0; i < n; ++i) {
    int64_t seed = (int64_t)(r.next() >> 2);
    if (i && r.chance(0.25)) p.add(0, p.ops[p.nops - 1].kind, p.ops[p.nops - 1].a[0], p.ops[p.nops - 1].a[1]);  // the same again
    else if (i && r.chance(0.3)) p.add(0, Q_REUSE, seed, r.below(100));
    else if (i && r.chance(0.1)) p.add(0, Q_READ, 0, r.below(100));
    else if (i && r.chance(0.1)) p.add(0, Q_DROP, 0, r.below(100));
    else p.add(0, Q_RUN, seed);
  }
}
void run16(const Plan& p) {
  World& w = *zw[0];
  setup(w, p);
  std::vector<Client> cl(1);
  cl[0].ex = w.ex[0];
  run_threads(p, 1, [&](int t, const Op& o) { do_op(w, cl[t], o); });
}
sim::Scenario S16{"C16", "engine", init, gen16, run16, kNames, 60'000'000};
sim::Registrar R16(&S16);

// ---- C17: storage errors and pools that are too small -------------------------------------------
void gen17(Rng& r, Plan& p) {
  gen_common(r, p);
  p.set("pool", (int64_t)r.below(NPOOL));
  p.set("err", r.chance(0.3) ? 0 : r.range(1, 30));
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    int64_t seed = (int64_t)(r.next() >> 2);
    if (i && r.chance(0.3)) p.add(0, p.ops[p.nops - 1].kind, p.ops[p.nops - 1].a[0], p.ops[p.nops - 1].a[1]);
    else if (i && r.chance(0.25)) p.add(0, Q_REUSE, seed, r.below(100));
    else if (i && r.chance(0.1)) p.add(0, Q_READ, 0, r.below(100));
    else if (i && r.chance(0.1)) p.add(0, Q_CLEAR);
    else p.add(0, Q_RUN, seed);
  }
}
void run17(const Plan& p) {
  int k = (int)p.get("pool");
  World& w = *zw[k];
  w.small = k != 0;
  setup(w, p);
  w.store->err_p = p.get("err") / 100.0;
  std::vector<Client> cl(1);
  cl[0].ex = w.ex[0];
  run_threads(p, 1, [&](int t, const Op& o) { do_op(w, cl[t], o); });
  w.store->err_p = 0;
  if (!w.small)  // once storage works again every query is answered
    for (int i = 0; i < p.nops; ++i)
      if (p.ops[i].kind == Q_RUN) do_op(w, cl[0], p.ops[i]);
  cl.clear();
  Executor::clearMemory(Data_Namespace::CPU_LEVEL, w.dm.get());
  Quiet q;
  SIM_CHECK(w.store->tokens == 0, "query:token", "%d zero-copy buffers of the storage are still held", (int)w.store->tokens);
}
sim::Scenario S17{"C17", "engine", init, gen17, run17, kNames, 60'000'000};
sim::Registrar R17(&S17);

// ---- C18: several clients ------------------------------------------------------------------------
void gen18(Rng& r, Plan& p) {
  gen_common(r, p);
  int nt = (int)r.range(2, NEX);
  p.set("threads", nt);
  int64_t shared = (int64_t)(r.next() >> 2);
  for (int t = 0; t < nt; ++t) {
    int n = (int)r.range(1, 2);
    for (int i = 0; i < n; ++i) {
      int64_t seed = r.chance(0.35) ? shared : (int64_t)(r.next() >> 2);
      if (i && r.chance(0.3)) p.add(t, Q_REUSE, seed, r.below(100));
      else if (i && r.chance(0.1)) p.add(t, Q_READ, 0, r.below(100));
      else if (i && r.chance(0.1)) p.add(t, Q_DROP, 0, r.below(100));
      else p.add(t, Q_RUN, seed);
    }
  }
}
void run18(const Plan& p) {
  World& w = *zw[0];
  setup(w, p);
  int nt = (int)p.get("threads");
  std::vector<Client> cl((size_t)nt);
  for (int t = 0; t < nt; ++t) cl[(size_t)t].ex = w.ex[(size_t)t];
  run_threads(p, nt, [&](int t, const Op& o) { do_op(w, cl[(size_t)t], o); });
}
sim::Scenario S18{"C18", "engine", init, gen18, run18, kNames, 100'000'000};
sim::Registrar R18(&S18);
}  // namespace
