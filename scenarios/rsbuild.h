// Result sets of every layout, written by the harness the way query kernels write them,
// together with the rows they hold.
#pragma once
#include "harness.h"

#include <cmath>
#include <deque>

#include "DataProvider/DataProvider.h"
#include "IR/Context.h"
#include "ResultSet/ResultSet.h"
#include "ResultSet/ResultSetBufferAccessors.h"
#include "ResultSet/RowSetMemoryOwner.h"
#include "Shared/thread_count.h"
#include "Utils/ChunkIter.h"

namespace rsb {
using namespace hs;
using hdk::ir::AggType;

struct Provider : DataProvider {
  std::unique_ptr<DictDescriptor> dd;
  std::shared_ptr<StringDictionary> base;
  std::shared_ptr<Chunk_NS::Chunk> getChunk(ColumnInfoPtr, const ChunkKey&, const Data_Namespace::MemoryLevel, const int, const size_t,
                                            const size_t) override {
    return nullptr;
  }
  std::unique_ptr<Data_Namespace::AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
  const DictDescriptor* getDictMetadata(int id, bool) const override { return id == 1 ? dd.get() : nullptr; }
};

enum Layout { L_PROJ_COL, L_PROJ_ROW, L_PERF_ROW, L_PERF_COL, L_BASE_ROW, L_BASE_COL, L_NONGROUP };
inline const char* const kLayout[] = {"columnar projection", "row-wise projection", "row-wise perfect hash", "columnar perfect hash",
                               "row-wise baseline hash", "columnar baseline hash", "non-grouped aggregate"};
enum Cls { T_INT, T_BOOL, T_FP32, T_FP64, T_DEC, T_DICT, T_DATE, T_TEXT, T_ARR, T_COUNT, T_SUM, T_MIN, T_AVG, T_SUMF, T_TOPK, T_QUANT, T_NCLS };

struct Cell {
  bool null = false;
  int64_t i = 0, cnt = 0;
  double d = 0;
  std::string s;
  std::vector<double> arr;
};
struct Target {
  int cls, size;  // size of the value / element
  bool nullable, fp, lazy = false;
  int key = -1;    // baseline: which group key this target shows
  int slot = 0, nslots = 1;
  int width[2] = {8, 8};
  TargetInfo ti;
  const hdk::ir::Type* lazy_type = nullptr;
};
struct Storage {
  size_t entries = 0;
  std::vector<int8_t> buf;                 // owned by the harness, like a kernel's output buffer
  std::vector<std::vector<Cell>> rows;     // by entry
  std::vector<bool> used;
  std::vector<int64_t> pos;                // lazy: table position per entry
  // the table lazily fetched columns come from
  std::vector<size_t> frag_rows;
  std::vector<std::vector<Cell>> table;    // [row][target]
  std::deque<std::vector<int8_t>> bufs;
  std::deque<ChunkIter> iters;
};struct Schema {
  Provider prov;
  hdk::ir::Context own_ctx;
  hdk::ir::Context* ctx = &own_ctx;
  std::shared_ptr<RowSetMemoryOwner> own;
  int layout = 0, nkeys = 0, key_width = 8;
  bool keyless = false, lazy_run = false, dicts = false;
  int key_slot = 0, dict_id = 1;
  std::vector<Target> t;
  std::vector<int> slot_w;
  std::unique_ptr<QueryMemoryDescriptor> qmd;
  std::vector<int64_t> init;
  std::vector<TargetInfo> infos;
  std::vector<ColumnLazyFetchInfo> lfi;
  bool columnar() const { return layout == L_PROJ_COL || layout == L_PERF_COL || layout == L_BASE_COL; }
  bool proj() const { return layout == L_PROJ_COL || layout == L_PROJ_ROW; }
};
struct Data {
  size_t limit = 0, offset = 0;
  std::deque<Storage> st;
  std::vector<std::pair<int, size_t>> entry;  // global entry -> storage, local
  std::vector<uint32_t> perm;
  std::vector<size_t> rows;                   // global entries in output order, limit applied
  std::shared_ptr<ResultSet> rs;
  const std::vector<Cell>* at(size_t e) const {
    auto [s, l] = entry[e];
    return st[s].used[l] ? &st[s].rows[l] : nullptr;
  }
};
struct SchemaCfg {
  int layout, targets;
  bool lazy, keyless;
  int keys, keyw;
};
struct DataCfg {
  std::vector<size_t> entries;  // per storage
  int fill, frags;
  bool equalfrags;
  uint64_t perm;
};

inline int64_t int_null(int size) { return size == 1 ? INT8_MIN : size == 2 ? INT16_MIN : size == 4 ? INT32_MIN : INT64_MIN; }
inline const char* const kWords[] = {"alpha", "b", "gamma ray", "delta", "eps", "zeta zeta zeta zeta zeta zeta zeta zeta zeta", "eta", "theta"};
constexpr int NW = 8;

// ---- what a reader must see -------------------------------------------------------------------
inline std::string fmt_d(double d) { return str("d:%a", d); }
inline std::string fmt_f(float d) { return str("f:%a", (double)d); }
inline std::string num(const Target& t, double d) { return !t.fp ? str("i:%lld", (long long)d) : t.size == 4 ? fmt_f((float)d) : fmt_d(d); }
inline std::string expect(const Target& t, const Cell& c, bool xlate, bool dec) {
  switch (t.cls) {
    case T_INT: case T_BOOL: case T_MIN: return str("i:%lld", (long long)(c.null ? int_null(t.size) : c.i));
    case T_FP32: return fmt_f(c.null ? NULL_FLOAT : (float)c.d);
    case T_FP64: return fmt_d(c.null ? NULL_DOUBLE : c.d);
    case T_DEC:
      if (dec) return fmt_d(c.null ? NULL_DOUBLE : (double)c.i / 100);
      return str("i:%lld", (long long)(c.null ? INT64_MIN : c.i));
    case T_DICT:
      if (xlate) return c.null ? "null" : "s:" + c.s;
      return str("i:%lld", (long long)(c.null ? INT32_MIN : c.i));
    case T_DATE: return str("i:%lld", (long long)(c.null ? INT64_MIN : c.i * 86400));
    case T_TEXT: return c.null ? "null" : "s:" + c.s;
    case T_ARR: case T_TOPK: {
      if (c.null) return "anull";
      std::string r = "[";
      for (double v : c.arr) r += num(t, v) + ",";
      return r + "]";
    }
    case T_COUNT: return str("i:%lld", (long long)c.i);
    case T_SUM: return str("i:%lld", (long long)(c.null ? INT64_MIN : c.i));
    case T_AVG:
      if (!c.cnt) return fmt_d(NULL_DOUBLE);
      return fmt_d((t.fp ? c.d : (double)c.i) / (double)c.cnt);
    case T_SUMF: return t.size == 4 ? fmt_f(c.null ? NULL_FLOAT : (float)c.d) : fmt_d(c.null ? NULL_DOUBLE : c.d);
    case T_QUANT: return str("i:%lld", (long long)(c.null ? int_null(t.size) : c.i));
  }
  return "?";
}
inline std::string show_s(const ScalarTargetValue& s) {
  if (auto* x = boost::get<int64_t>(&s)) return str("i:%lld", (long long)*x);
  if (auto* x = boost::get<double>(&s)) return fmt_d(*x);
  if (auto* x = boost::get<float>(&s)) return fmt_f(*x);
  auto& n = boost::get<NullableString>(s);
  if (auto* x = boost::get<std::string>(&n)) return "s:" + *x;
  return "null";
}
inline std::string show_t(const TargetValue& v) {
  if (auto* s = boost::get<ScalarTargetValue>(&v)) return show_s(*s);
  auto& a = boost::get<ArrayTargetValue>(v);
  if (!a) return "anull";
  std::string r = "[";
  for (auto& s : *a) r += show_s(s) + ",";
  return r + "]";
}// ---- building the buffers -----------------------------------------------------------------------
inline void put(int8_t* p, int w, int64_t v) { memcpy(p, &v, w); }
inline int64_t bits(double d) {
  int64_t v;
  memcpy(&v, &d, 8);
  return v;
}
inline int64_t bits_f(float d) {
  int32_t v;
  memcpy(&v, &d, 4);
  return v;
}
inline int slot_class_width(const Target& t) {  // natural width
  switch (t.cls) {
    case T_INT: case T_BOOL: case T_MIN: return t.size;
    case T_FP32: case T_DICT: return 4;
    case T_COUNT: return t.size;
    default: return 8;
  }
}
// the contents of a target's slots
inline void slot_values(const Target& t, const Cell& c, int64_t pos, const int8_t* heap, int64_t out[2]) {
  out[0] = out[1] = 0;
  if (t.lazy) {
    out[0] = pos;
    return;
  }
  switch (t.cls) {
    case T_INT: case T_BOOL: case T_MIN: out[0] = c.null ? int_null(t.size) : c.i; break;
    case T_FP32:
      out[0] = t.width[0] == 4 ? bits_f(c.null ? NULL_FLOAT : (float)c.d) : bits(c.null ? (double)NULL_FLOAT : (double)(float)c.d);
      break;
    case T_FP64: out[0] = bits(c.null ? NULL_DOUBLE : c.d); break;
    case T_DEC: case T_SUM: out[0] = c.null ? INT64_MIN : c.i; break;
    case T_DICT: out[0] = c.null ? INT32_MIN : c.i; break;
    case T_DATE: out[0] = c.null ? INT64_MIN : c.i * 86400; break;
    case T_COUNT: out[0] = c.i; break;
    case T_SUMF: out[0] = t.size == 4 ? bits_f(c.null ? NULL_FLOAT : (float)c.d) : bits(c.null ? NULL_DOUBLE : c.d); break;
    case T_AVG:
      out[0] = !t.fp ? c.i : t.size == 4 ? bits_f((float)c.d) : bits(c.d);
      out[1] = c.cnt;
      break;
    case T_TEXT:
      out[0] = c.null ? 0 : (int64_t)heap;
      out[1] = c.null ? 0 : c.s.size();
      break;
    case T_ARR:
      out[0] = c.null ? 0 : (int64_t)heap;
      out[1] = c.null ? 0 : c.arr.size();
      break;
    case T_TOPK: case T_QUANT: out[0] = (int64_t)heap; break;
  }
}
template <class T>
inline void enc(std::vector<int8_t>& b, T v) {
  b.insert(b.end(), (int8_t*)&v, (int8_t*)&v + sizeof v);
}
inline void enc_num(std::vector<int8_t>& b, const Target& t, double v) {
  if (t.fp) return t.size == 4 ? enc(b, (float)v) : enc(b, v);
  int64_t x = (int64_t)v;
  b.insert(b.end(), (int8_t*)&x, (int8_t*)&x + t.size);
}
inline Cell make_cell(const Target& t, Rng& r) {
  Cell c;
  bool agg = t.cls >= T_COUNT;
  c.null = t.nullable && r.chance(0.2) && t.cls != T_COUNT && t.cls != T_TOPK;
  int64_t lim = t.size == 1 ? 127 : t.size == 2 ? 32767 : t.size == 4 ? INT32_MAX : (int64_t)1 << 52;
  switch (t.cls) {
    case T_INT: case T_MIN: case T_SUM: case T_COUNT:
      if (t.cls == T_SUM) lim = (int64_t)1 << 52;
      c.i = r.chance(0.1) ? lim - 1 : r.chance(0.1) ? -lim + 1 : r.range(-100, 100);
      if (t.cls == T_COUNT) c.i = r.range(1, 100);
      if (c.i > lim - 1) c.i = lim - 1;
      if (t.key >= 0 && !c.null) c.i = r.range(-100, 100);
      break;
    case T_BOOL: c.i = r.below(2); break;
    case T_FP32: case T_FP64: case T_SUMF: c.d = (double)r.range(-1000, 1000) / 8; break;
    case T_DEC: c.i = r.range(-100000, 100000); break;
    case T_DATE: c.i = t.size == 2 ? r.range(-30000, 30000) : r.range(-100000, 100000); break;
    case T_DICT: {
      int w = (int)r.below(NW);
      c.i = w;
      c.s = kWords[w];
      break;
    }
    case T_TEXT: c.s = r.chance(0.2) ? (t.lazy ? "x" : "") : std::string(kWords[r.below(NW)]).substr(0, 1 + r.below(12)); break;
    case T_ARR:
    case T_TOPK: {
      int n = (int)r.below(5);
      if (t.cls == T_TOPK) n = (int)r.below(std::abs(t.ti.topk_param) + 1);
      for (int i = 0; i < n; ++i) c.arr.push_back((double)r.range(-100, 100));
      if (t.cls == T_TOPK) {
        std::sort(c.arr.begin(), c.arr.end());
        if (t.ti.topk_param > 0) std::reverse(c.arr.begin(), c.arr.end());
      }
      break;
    }
    case T_AVG:
      c.cnt = c.null ? 0 : r.range(1, 9);
      c.null = !c.cnt;
      c.i = c.cnt ? r.range(-1000, 1000) : 0;
      c.d = c.cnt ? (double)r.range(-1000, 1000) / 8 : 0;
      break;
    case T_QUANT: c.i = r.range(-100, 100); break;
  }
  (void)agg;
  return c;
}
inline const hdk::ir::Type* type_of(Schema& sc, const Target& t) {
  auto& x = *sc.ctx;
  switch (t.cls) {
    case T_INT: case T_MIN: case T_QUANT: return x.integer(t.size, t.nullable);
    case T_BOOL: return x.boolean(t.nullable);
    case T_FP32: return x.fp32(t.nullable);
    case T_FP64: return x.fp64(t.nullable);
    case T_DEC: return x.decimal64(12, 2, t.nullable);
    case T_DICT: return x.extDict(x.text(t.nullable), sc.dict_id, 4);
    case T_DATE: return x.date64(hdk::ir::TimeUnit::kSecond, t.nullable);
    case T_TEXT: return x.text(t.nullable);
    case T_ARR: case T_TOPK:
      return x.arrayVarLen(t.fp ? (const hdk::ir::Type*)x.fp(t.size == 4 ? hdk::ir::FloatingPointType::kFloat : hdk::ir::FloatingPointType::kDouble) : x.integer(t.size), 4, t.nullable);
    case T_COUNT: return x.integer(t.size, false);
    case T_SUM: return x.int64(t.nullable);
    case T_AVG: return t.fp ? (t.size == 4 ? (const hdk::ir::Type*)x.fp32(t.nullable) : x.fp64(t.nullable)) : x.int64(t.nullable);
    case T_SUMF: return t.size == 4 ? (const hdk::ir::Type*)x.fp32(t.nullable) : x.fp64(t.nullable);
  }
  return nullptr;
}
inline void fill_info(Schema& sc, Target& t) {
  TargetInfo& ti = t.ti;
  ti = TargetInfo{};
  ti.is_agg = t.cls >= T_COUNT;
  ti.agg_kind = t.cls == T_COUNT ? AggType::kCount : t.cls == T_SUM || t.cls == T_SUMF ? AggType::kSum : t.cls == T_MIN ? (t.size % 3 ? AggType::kMin : AggType::kMax)
              : t.cls == T_AVG ? AggType::kAvg : t.cls == T_TOPK ? AggType::kTopK : t.cls == T_QUANT ? AggType::kQuantile : AggType::kMin;
  ti.type = type_of(sc, t);
  ti.agg_arg_type = !ti.is_agg ? nullptr : t.cls == T_COUNT ? nullptr : t.cls == T_TOPK ? ti.type->as<hdk::ir::ArrayBaseType>()->elemType()
                  : t.cls == T_AVG && !t.fp ? (const hdk::ir::Type*)sc.ctx->integer(t.size, t.nullable) : ti.type;
  ti.skip_null_val = t.nullable;
  ti.interpolation = hdk::ir::Interpolation::kLower;
}
// raw bytes of a target of an entry, as a columnar projection stores them
inline int64_t raw(const Target& t, const Cell& c) {
  int64_t v[2];
  slot_values(t, c, 0, nullptr, v);
  return v[0];
}
inline void build_schema(Schema& sc, Rng& r, const SchemaCfg& cfg) {
  int layout = sc.layout = cfg.layout;
  bool proj = sc.proj(), columnar = sc.columnar(), base = layout == L_BASE_ROW || layout == L_BASE_COL;
  bool lazy_run = sc.lazy_run = proj && cfg.lazy;
  sc.keyless = (layout == L_PERF_ROW || layout == L_PERF_COL) && cfg.keyless;
  sc.nkeys = layout == L_NONGROUP ? 0 : proj ? 1 : cfg.keys;
  sc.key_width = layout == L_BASE_ROW ? cfg.keyw : 8;
  int nt = cfg.targets;
  const int sizes[] = {1, 2, 4, 8};
  // targets
  for (int i = 0; i < nt; ++i) {
    Target t{};
    t.key = -1;
    t.nullable = r.chance(0.8);
    t.size = sizes[r.below(4)];
    if (proj) {
      t.cls = (int)r.below(T_COUNT);
    } else if (base && r.chance(0.5)) {
      const int kc[] = {T_INT, T_DICT, T_DEC, T_FP64, T_BOOL};
      t.cls = sc.key_width == 4 ? (r.chance(0.5) ? T_INT : T_DICT) : kc[r.below(5)];
      if (sc.key_width == 4 && t.size == 8) t.size = 4;
      t.key = (int)r.below(sc.nkeys);
    } else if (!base && layout != L_NONGROUP && r.chance(0.3)) {
      const int kc[] = {T_INT, T_DICT, T_BOOL, T_INT};
      t.cls = kc[r.below(4)];
    } else {
      const int ac[] = {T_COUNT, T_SUM, T_MIN, T_AVG, T_SUMF, T_TOPK, T_QUANT};
      t.cls = ac[r.below(7)];
    }
    if (t.cls == T_BOOL) t.size = 1;
    if (t.cls == T_FP32) t.size = 4, t.fp = true;
    if (t.cls == T_FP64) t.size = 8, t.fp = true;
    if (t.cls == T_DEC || t.cls == T_SUM) t.size = 8;
    if (t.cls == T_DICT) t.size = 4, sc.dicts = true;
    if (t.cls == T_DATE) t.size = r.chance(0.5) ? 2 : 4;
    if (t.cls == T_COUNT) t.size = r.chance(0.5) ? 4 : 8, t.nullable = false;
    if (t.cls == T_SUMF) t.fp = true, t.size = r.chance(0.5) ? 4 : 8;
    if (t.cls == T_AVG || t.cls == T_ARR || t.cls == T_TOPK) {
      t.fp = r.chance(0.3);
      if (t.fp && t.size < 4) t.size = 4;
    }
    if (t.cls == T_TOPK) t.nullable = true;
    t.lazy = lazy_run && r.chance(0.7);
    sc.t.push_back(t);
  }
  if (sc.keyless) {
    // the emptiness of an entry shows in a COUNT
    Target t{};
    t.key = -1;
    t.cls = T_COUNT;
    t.size = 8;
    sc.t[r.below(sc.t.size())] = t;
  }
  // Targets that show the same key agree on everything, so give each key at most one target.
  for (int k = 0; k < sc.nkeys; ++k) {
    bool first = true;
    for (auto& t : sc.t)
      if (t.key == k) {
        if (!first) {
          t.key = -1;
          t.cls = T_COUNT, t.size = 8, t.nullable = false, t.fp = false;
        }
        first = false;
      }
  }
  int slot = 0;
  QueryDescriptionType qt = proj ? QueryDescriptionType::Projection
                          : layout == L_NONGROUP ? QueryDescriptionType::NonGroupedAggregate
                          : base ? QueryDescriptionType::GroupByBaselineHash : QueryDescriptionType::GroupByPerfectHash;
  sc.qmd = std::make_unique<QueryMemoryDescriptor>(qt, 0, 99, false, std::vector<int8_t>(sc.nkeys, 8));
  auto& qmd = *sc.qmd;
  std::vector<int64_t> idx;
  auto& init = sc.init;
  for (auto& t : sc.t) {
    fill_info(sc, t);
    if (t.cls == T_TOPK) {
      t.ti.topk_param = (r.chance(0.5) ? 1 : -1) * (int)r.range(1, 5);
      t.ti.topk_inline_buffer = std::abs(t.ti.topk_param) * t.size <= 8;
    }
    if (t.cls == T_QUANT) t.ti.quantile_param = 0;
    t.slot = slot;
    t.nslots = t.cls == T_AVG || t.cls == T_TEXT || t.cls == T_ARR ? 2 : 1;
    int w = 8;
    if (t.lazy) w = 8;
    else if (layout == L_PROJ_COL) w = slot_class_width(t);
    else if (layout == L_PERF_COL && (t.cls == T_INT || t.cls == T_MIN || t.cls == T_COUNT || t.cls == T_BOOL)) {
      w = slot_class_width(t);
      while (w < 8 && r.chance(0.4)) w *= 2;
    }
    t.width[0] = t.width[1] = t.key >= 0 ? 0 : w;
    std::vector<std::tuple<int8_t, int8_t>> si;
    for (int k = 0; k < t.nslots; ++k) si.emplace_back(t.width[k], t.width[k]);
    // row-wise slots are padded: the logical size may be smaller
    if (!columnar && t.key < 0 && !t.lazy && !t.ti.is_agg && !t.fp && t.nslots == 1) std::get<0>(si[0]) = (int8_t)slot_class_width(t), std::get<1>(si[0]) = 8;
    qmd.addColSlotInfo(si);
    for (int k = 0; k < t.nslots; ++k) {
      sc.slot_w.push_back(t.width[k]);
      init.push_back(0);
    }
    slot += t.nslots;
    idx.push_back(t.key);
    if (sc.keyless && t.cls == T_COUNT && t.size == 8) sc.key_slot = t.slot;
    if (t.lazy) {
      t.lazy_type = t.cls == T_DATE ? sc.ctx->date(t.size, hdk::ir::TimeUnit::kDay, t.nullable) : t.cls == T_DICT ? (const hdk::ir::Type*) sc.ctx->extDict(sc.ctx->text(t.nullable), sc.dict_id, sizes[r.below(3)]) : t.ti.type;
    }
  }
  // "logical, padded" order of addColSlotInfo is checked by the widths the descriptor reports
  if (base) qmd.setAllTargetGroupbyIndices(idx);
  if (sc.key_width == 4) qmd.setGroupColCompactWidth(4);
  if (columnar) qmd.setOutputColumnar(true);
  if (sc.keyless) {
    qmd.setHasKeylessHash(true);
    qmd.setTargetIdxForKey(sc.key_slot);
  }
  for (int s = 0; s < slot; ++s)
    SIM_CHECK(qmd.getPaddedSlotWidthBytes(s) == sc.slot_w[s], "rs:layout", "slot %d is %d bytes wide, not %d", s, qmd.getPaddedSlotWidthBytes(s), sc.slot_w[s]);
  auto& infos = sc.infos;
  auto& lfi = sc.lfi;
  for (size_t i = 0; i < sc.t.size(); ++i) {
    infos.push_back(sc.t[i].ti);
    if (lazy_run) lfi.push_back(ColumnLazyFetchInfo{sc.t[i].lazy, sc.t[i].lazy ? (int)i : -1, sc.t[i].lazy ? sc.t[i].lazy_type : nullptr});
  }
}
// The parts of the result, one per storage, in the order in which they are to be appended.
inline std::vector<std::unique_ptr<ResultSet>> build_data(Schema& sc, Data& D, Rng& r, const DataCfg& cfg) {
  std::vector<std::unique_ptr<ResultSet>> parts;
  auto& qmd = *sc.qmd;
  auto& infos = sc.infos;
  auto& lfi = sc.lfi;
  auto& init = sc.init;
  int layout = sc.layout;
  bool proj = sc.proj(), columnar = sc.columnar(), lazy_run = sc.lazy_run;
  // storages
  int nst = (int)cfg.entries.size(), fill = cfg.fill;
  for (int s = 0; s < nst; ++s) {
    D.st.emplace_back();
    Storage& S = D.st.back();
    size_t n = S.entries = cfg.entries[(size_t)s];
    S.used.assign(n, false);
    S.rows.resize(n);
    S.pos.assign(n, 0);
    size_t upto = fill == 0 ? 0 : fill == 1 ? n : (n ? r.below(n + 1) : 0);
    for (size_t e = 0; e < n; ++e) S.used[e] = layout == L_NONGROUP ? true : proj ? e < upto : (fill == 0 ? false : fill == 1 ? true : r.chance(fill == 2 ? 0.1 : 0.6));
    // the table behind lazy columns
    ColBuffers cb;
    FragOffsets fo;
    FragSizes fs;
    if (lazy_run) {
      int nf = cfg.frags;
      bool eq = cfg.equalfrags;
      size_t fsz = 1 + r.below(6), total = 0;
      for (int f = 0; f < nf; ++f) {
        size_t m = eq ? (f + 1 == nf ? 1 + r.below(fsz) : fsz) : 1 + r.below(7);
        S.frag_rows.push_back(m);
        total += m;
      }
      for (size_t i = 0; i < total; ++i) {
        S.table.emplace_back();
        for (auto& t : sc.t) S.table.back().push_back(make_cell(t, r));
      }
      size_t off = 0;
      for (int f = 0; f < nf; ++f) {
        cb.emplace_back(sc.t.size(), nullptr);
        fo.emplace_back(sc.t.size(), (int64_t)off);
        for (size_t i = 0; i < sc.t.size(); ++i) {
          auto& t = sc.t[i];
          if (!t.lazy) continue;
          S.bufs.emplace_back();
          auto& data = S.bufs.back();
          if (t.cls == T_TEXT || t.cls == T_ARR) {
            S.bufs.emplace_back();
            auto& offs = S.bufs.back();
            auto& d = S.bufs[S.bufs.size() - 2];
            enc<int32_t>(offs, 0);
            for (size_t k = 0; k < S.frag_rows[f]; ++k) {
              auto& c = S.table[off + k][i];
              if (!c.null) {
                if (t.cls == T_TEXT) d.insert(d.end(), c.s.begin(), c.s.end());
                else for (double v : c.arr) enc_num(d, t, v);
              }
              enc<int32_t>(offs, c.null && t.cls == T_ARR ? -(int32_t)d.size() : (int32_t)d.size());
            }
            // a null array at the very start cannot be told from an empty one: make it empty
            if (t.cls == T_ARR) {
              size_t bytes = 0;
              for (size_t k = 0; k < S.frag_rows[f]; ++k) {
                auto& c = S.table[off + k][i];
                if (c.null && bytes == 0) c.null = false, c.arr.clear();
                if (!c.null) bytes += c.arr.size() * t.size;
              }
            }
            d.reserve(d.size() + 8);
            S.iters.emplace_back();
            ChunkIter& it = S.iters.back();
            memset(&it, 0, sizeof it);
            it.type_nullable = t.nullable;
            it.second_buf = d.data();
            it.start_pos = it.current_pos = offs.data();
            it.end_pos = offs.data() + offs.size();
            it.skip = 1;
            it.skip_size = -1;
            it.num_elems = S.frag_rows[f];
            cb[f][i] = reinterpret_cast<int8_t*>(&it);
            continue;
          }
          for (size_t k = 0; k < S.frag_rows[f]; ++k) {
            auto& c = S.table[off + k][i];
            switch (t.cls) {
              case T_FP32: enc(data, c.null ? NULL_FLOAT : (float)c.d); break;
              case T_FP64: enc(data, c.null ? NULL_DOUBLE : c.d); break;
              case T_DICT: {
                int w = t.lazy_type->size();
                int64_t v = c.null ? (w == 1 ? 255 : w == 2 ? 65535 : INT32_MIN) : c.i;
                data.insert(data.end(), (int8_t*)&v, (int8_t*)&v + w);
                break;
              }
              default: {
                int64_t v = c.null ? int_null(t.size) : c.i;
                data.insert(data.end(), (int8_t*)&v, (int8_t*)&v + t.size);
              }
            }
          }
          cb[f][i] = data.data();
        }
        off += S.frag_rows[f];
      }
      int64_t consistent = nf < 2 ? -1 : (int64_t)S.frag_rows[0];
      for (int f = 1; f + 1 < nf; ++f)
        if (S.frag_rows[f] != S.frag_rows[0]) consistent = -1;
      if (nf >= 2 && S.frag_rows[nf - 1] > S.frag_rows[0]) consistent = -1;
      fs.assign(sc.t.size(), consistent);
    }
    // the entries
    std::vector<std::vector<const int8_t*>> heap(n, std::vector<const int8_t*>(sc.t.size(), nullptr));
    hdk::quantile::Quantile* qs = nullptr;
    size_t nq = 0;
    for (auto& t : sc.t) nq += t.cls == T_QUANT;
    if (nq && n) qs = sc.own->quantiles(n * nq);
    size_t qi = 0;
    for (size_t e = 0; e < n; ++e) {
      if (!S.used[e]) {
        // readers must not look at unused entries, except to see that they are unused
        continue;
      }
      S.pos[e] = S.table.empty() ? 0 : (int64_t)r.below(S.table.size());
      for (size_t i = 0; i < sc.t.size(); ++i) {
        auto& t = sc.t[i];
        Cell c = t.lazy ? S.table[S.pos[e]][i] : make_cell(t, r);
        if (!t.lazy && !c.null && (t.cls == T_TEXT || t.cls == T_ARR || t.cls == T_TOPK)) {
          S.bufs.emplace_back();
          auto& b = S.bufs.back();
          if (t.cls == T_TEXT) b.insert(b.end(), c.s.begin(), c.s.end());
          else if (t.cls == T_ARR) for (double v : c.arr) enc_num(b, t, v);
          else {
            // any heap order; the reader sorts
            std::vector<double> a = c.arr;
            for (size_t k = a.size(); k > 1; --k) std::swap(a[k - 1], a[r.below(k)]);
            for (double v : a) enc_num(b, t, v);
            for (int k = (int)a.size(); k < std::abs(t.ti.topk_param); ++k) {
              if (t.fp) t.size == 4 ? enc(b, NULL_FLOAT) : enc(b, NULL_DOUBLE);
              else {
                int64_t v = int_null(t.size);
                b.insert(b.end(), (int8_t*)&v, (int8_t*)&v + t.size);
              }
            }
          }
          b.reserve(b.size() + 8);
          heap[e][i] = b.data();
        }
        if (t.cls == T_QUANT) {
          auto* qq = &qs[qi++];
          heap[e][i] = (const int8_t*)qq;
          c.null = r.chance(0.2);
          int m = c.null ? 0 : (int)r.range(1, 4);
          for (int k = 0; k < m; ++k) {
            int64_t v = c.i + (int64_t)r.below(5) * (k ? 1 : 0);
            if (t.size == 1) qq->add<int8_t>((int8_t)std::min<int64_t>(v, 120));
            else if (t.size == 2) qq->add<int16_t>((int16_t)v);
            else if (t.size == 4) qq->add<int32_t>((int32_t)v);
            else qq->add<int64_t>(v);
          }
        }
        S.rows[e].push_back(c);
      }
    }
    // the buffer
    auto al = [](size_t x) { return (x + 7) & ~(size_t)7; };
    size_t rowb = 0, keyb = sc.keyless ? 0 : al((size_t)sc.nkeys * sc.key_width);
    for (int w : sc.slot_w) rowb += w;
    rowb += keyb;
    std::vector<size_t> coff;
    size_t total;
    if (columnar) {
      size_t o = sc.keyless ? 0 : (size_t)sc.nkeys * 8 * n;
      for (int w : sc.slot_w) {
        coff.push_back(o);
        o += al((size_t)w * n);
      }
      total = o;
    } else {
      size_t o = keyb;
      for (int w : sc.slot_w) {
        coff.push_back(o);
        o += w;
      }
      total = rowb * n;
    }
    S.buf.assign(total, 0x77);
    int8_t* B = S.buf.data();
    for (size_t e = 0; e < n; ++e) {
      for (int k = 0; k < (sc.keyless ? 0 : sc.nkeys); ++k) {
        int64_t v = S.used[e] ? (int64_t)(e + 1000 * k) : INT64_MAX;
        if (!S.used[e] && sc.key_width == 4) v = INT32_MAX;
        if (S.used[e])
          for (size_t i = 0; i < sc.t.size(); ++i)
            if (sc.t[i].key == k) v = raw(sc.t[i], S.rows[e][i]);
        if (columnar) put(B + (size_t)k * 8 * n + e * 8, 8, v);
        else put(B + e * rowb + k * sc.key_width, sc.key_width, v);
      }
      for (size_t i = 0; i < sc.t.size(); ++i) {
        auto& t = sc.t[i];
        if (t.key >= 0) continue;
        int64_t v[2] = {0, 0};
        if (S.used[e]) slot_values(t, S.rows[e][i], S.pos[e], heap[e][i], v);
        if (S.used[e] && t.cls == T_TOPK && t.ti.topk_inline_buffer) memcpy(&v[0], heap[e][i], std::abs(t.ti.topk_param) * t.size);
        for (int k = 0; k < t.nslots; ++k) {
          int w = t.width[k];
          int8_t* d = columnar ? B + coff[t.slot + k] + e * w : B + e * rowb + coff[t.slot + k];
          put(d, w, v[k]);
        }
      }
      D.entry.emplace_back(s, e);
    }
    QueryMemoryDescriptor q2 = qmd;
    q2.setEntryCount(n);
    SIM_CHECK(q2.getBufferSizeBytes(ExecutorDeviceType::CPU) >= total || n == 0, "rs:layout", "%zu entries need %zu bytes, not %zu (%s)", n,
              q2.getBufferSizeBytes(ExecutorDeviceType::CPU), total, kLayout[layout]);
    std::unique_ptr<ResultSet> rs;
    if (lazy_run)
      rs.reset(new ResultSet(infos, lfi, std::make_shared<const ColBuffers>(cb), std::make_shared<const FragOffsets>(fo), std::make_shared<const FragSizes>(fs),
                             ExecutorDeviceType::CPU, -1, q2, sc.own, nullptr, 0, 0));
    else
      rs.reset(new ResultSet(infos, ExecutorDeviceType::CPU, q2, sc.own, nullptr, 0, 0));
    S.buf.reserve(total + 8);
    rs->allocateStorage(S.buf.data(), init);
    parts.push_back(std::move(rs));
  }
  // what is to be seen
  std::vector<size_t> order;
  for (size_t e = 0; e < D.entry.size(); ++e)
    if (D.at(e)) order.push_back(e);
  if (cfg.perm && !order.empty()) {
    Rng pr(cfg.perm);
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[pr.below(k)]);
    for (auto e : order) D.perm.push_back((uint32_t)e);
  }
  for (size_t i = D.offset; i < order.size() && (!D.limit || i < D.offset + D.limit); ++i) D.rows.push_back(order[i]);
  return parts;
}
}  // namespace rsb
