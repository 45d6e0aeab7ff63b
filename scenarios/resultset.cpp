// C10: whatever the layout of its buffers, a result set shows every reader the same rows.
#include "rsbuild.h"

#include <tbb/parallel_for.h>

using namespace rsb;
extern unsigned g_cpu_threads_override;
extern "C" int getpagesize() { return 4; }
size_t g_approx_quantile_buffer = 1000;
size_t g_approx_quantile_centroids = 300;

namespace {
struct World : Schema, Data {
  std::vector<int> next_seen;
  std::vector<std::deque<std::string>> strs;
};
World* W;

void check_row(size_t e, const std::vector<TargetValue>& row, bool xlate, bool dec, const char* what, const std::vector<bool>& skip = {}) {
  Quiet q;
  auto* c = W->at(e);
  if (!c) {
    SIM_CHECK(row.empty(), "rs:phantom", "%s: unused entry %zu shows a row (%s)", what, e, kLayout[W->layout]);
    return;
  }
  SIM_CHECK(row.size() == W->t.size(), "rs:columns", "%s: entry %zu shows %zu columns of %zu (%s)", what, e, row.size(), W->t.size(), kLayout[W->layout]);
  for (size_t i = 0; i < row.size(); ++i) {
    std::string x = !skip.empty() && skip[i] ? "null" : expect(W->t[i], (*c)[i], xlate, dec), g = show_t(row[i]);
    SIM_CHECK(x == g, "rs:value", "%s: entry %zu column %zu (class %d size %d%s): read %s, stored %s (%s)", what, e, i, W->t[i].cls, W->t[i].size,
              W->t[i].lazy ? " lazy" : "", show(g).c_str(), show(x).c_str(), kLayout[W->layout]);
  }
}
// ---- plan -----------------------------------------------------------------------------------------
enum {
  R_COUNT, R_EMPTY, R_ITER, R_FROM, R_NEXT, R_ENTRY, R_NOXLATE, R_ONECOL, R_ISEMPTY, R_INTERNAL, R_GETENTRY, R_CHUNKS, R_COPYCOL, R_OFFSETS,
  R_SHALLOW, R_UNIQUE, R_PERM, R_ROWAT, R_STRING, R_NOPS
};
const char* const kRNames[] = {"row-count", "is-empty", "iterate", "iterate-from", "next-row", "row-of-entry", "row-untranslated", "one-column-row",
                               "is-entry-empty", "internal-value", "entry-at", "columnar-chunks", "copy-column", "varlen-offsets", "shallow-copy",
                               "unique-strings", "permutation", "row-at", "content", nullptr};

void gen10(Rng& r, Plan& p) {
  int layout = (int)r.below(7);
  p.set("layout", layout);
  bool proj = layout <= L_PROJ_ROW;
  p.set("seed", r.next() >> 2);
  int nt = (int)r.range(1, 6);
  p.set("targets", nt);
  int nst = layout == L_NONGROUP ? 1 : r.chance(0.5) ? 1 : (int)r.range(2, 4);
  bool big = r.chance(0.1), huge = !proj && layout != L_NONGROUP && r.chance(0.02);
  if (huge) nst = 1;
  p.set("storages", nst);
  for (int s = 0; s < nst; ++s)
    p.set(str("entries%d", s).c_str(), layout == L_NONGROUP ? 1 : huge ? r.range(19995, 20010) : big ? r.range(95, 260) : r.chance(0.1) ? 1 : r.range(0, 24));
  p.set("fill", r.below(6));
  p.set("keys", r.range(1, 3));
  p.set("keyw", r.chance(0.4) ? 4 : 8);
  p.set("keyless", r.chance(0.3));
  p.set("lazy", proj && r.chance(0.4));
  p.set("frags", r.range(1, 4));
  p.set("equalfrags", r.below(2));
  p.set("limit", r.chance(0.4) ? r.range(1, 30) : 0);
  p.set("offset", r.chance(0.4) ? r.range(1, 30) : 0);
  p.set("perm", layout != L_NONGROUP && r.chance(0.25) ? r.range(1, 1000) : 0);
  p.set("cpus", r.range(1, 4));
  p.set("workers", r.range(0, 3));
  p.set("faults", r.chance(0.2) ? r.range(1, 10) : 0);
  p.set("finalize", r.below(3));
  bool cursor = r.chance(0.5);
  int nthr = (int)r.range(1, 4);
  p.set("threads", nthr);
  int nops = huge ? 3 : big ? (int)r.range(2, 8) : (int)r.range(3, 22);
  for (int i = 0; i < nops; ++i) {
    int k = (int)r.below(R_NOPS);
    if (huge) k = r.chance(0.7) ? R_COUNT : R_EMPTY;
    if (k == R_ROWAT && cursor) k = R_NEXT;
    if ((k == R_NEXT || k == R_STRING) && !cursor) k = R_ROWAT;
    if (k == R_STRING) k = R_NEXT;
    p.add((int)r.below(nthr), k, r.next() >> 8, r.next() >> 8, r.below(4));
  }
}

template <class F>
auto retry(F f) -> decltype(f()) {
  for (int i = 0;; ++i) try {
      return f();
    } catch (const std::bad_alloc&) {
      sim::count("alloc_rejected");
      SIM_CHECK(i < 2000, "rs:starved", "no progress");
    }
}

template <QueryDescriptionType Q, bool COL>
int64_t entry_at(const Target& t, size_t e, size_t i, int w) {
  switch (w) {
    case 1: return W->rs->getEntryAt<int8_t, Q, COL>(e, i, t.slot);
    case 2: return W->rs->getEntryAt<int16_t, Q, COL>(e, i, t.slot);
    case 4: return W->rs->getEntryAt<int32_t, Q, COL>(e, i, t.slot);
    default: return W->rs->getEntryAt<int64_t, Q, COL>(e, i, t.slot);
  }
}
void exec10(int thr, const Op& o) {
  auto& rs = *W->rs;
  bool xl = o.a[2] & 1, dec = o.a[2] & 2;
  size_t N = W->rows.size(), E = W->perm.empty() ? W->entry.size() : W->perm.size();
  size_t a = (size_t)o.a[0], b = (size_t)o.a[1];
  size_t col = b % W->t.size();
  auto entry_of = [&](size_t logical) { return W->perm.empty() ? logical : (size_t)W->perm[logical]; };
  switch (o.kind) {
    case R_COUNT: {
      size_t n = retry([&] { return rs.rowCount(a & 1); });
      SIM_CHECK(n == N, "rs:count", "row count %zu of %zu (%s, limit %zu, offset %zu)", n, N, kLayout[W->layout], W->limit, W->offset);
      SIM_CHECK(rs.definitelyHasNoRows() == (N == 0), "rs:count", "definitelyHasNoRows is wrong with %zu rows", N);
      break;
    }
    case R_EMPTY: {
      bool e = retry([&] { return rs.isEmpty(); });
      SIM_CHECK(e == (N == 0), "rs:count", "isEmpty %d with %zu rows", e, N);
      break;
    }
    case R_ITER: case R_FROM: {
      size_t from = o.kind == R_FROM ? a % (N + 2) : 0;
      auto it = retry([&] { return rs.rowIterator(from, xl, dec); });
      size_t i = from;
      for (; it.isValid(); ++it, ++i) {
        SIM_CHECK(i < N, "rs:extra-row", "iterator shows more than %zu rows (%s)", N, kLayout[W->layout]);
        auto row = retry([&] { return *it; });
        check_row(W->rows[i], row, xl, dec, "iterator");
      }
      SIM_CHECK(i >= N, "rs:lost-row", "iterator from %zu ends after row %zu of %zu (%s)", from, i, N, kLayout[W->layout]);
      break;
    }
    case R_NEXT: {
      int n = (int)(a % 4) + 1;
      for (int k = 0; k < n; ++k) {
        // a fault leaves the cursor on the next row: the row would be lost, so rows are read without faults
        std::vector<TargetValue> row;
        row = rs.getNextRow(xl, dec);
        Quiet q;
        std::string s = "";
        for (auto& v : row) s += show_t(v) + "|";
        if (!row.empty()) W->strs[thr].push_back((xl ? "1" : "0") + std::string(dec ? "1" : "0") + s);
      }
      break;
    }
    case R_ENTRY: case R_NOXLATE: {
      size_t e = a % (E + 3);
      std::vector<bool> skip;
      if (o.kind == R_NOXLATE && (b & 1)) {
        Quiet q;
        for (size_t i = 0; i < W->t.size(); ++i) skip.push_back((b >> (i + 1)) & 1);
      }
      auto row = retry([&] { return o.kind == R_ENTRY ? rs.getRowAt(e) : rs.getRowAtNoTranslations(e, skip); });
      if (e >= E)
        SIM_CHECK(row.empty(), "rs:phantom", "row at %zu of %zu entries", e, E);
      else
        check_row(entry_of(e), row, o.kind == R_ENTRY, false, "random access", skip);
      break;
    }
    case R_ONECOL: {
      if (W->columnar() || W->entry.empty() || (W->t[0].cls != T_INT && W->t[0].cls != T_MIN && W->t[0].cls != T_COUNT && W->t[0].cls != T_SUM)) break;
      size_t e = a % W->entry.size();
      auto v = retry([&] { return rs.getOneColRow(e); });
      Quiet q;
      auto* c = W->at(e);
      SIM_CHECK(v.valid == (c != nullptr), "rs:phantom", "one-column row %zu valid %d", e, v.valid);
      if (c) SIM_CHECK(str("i:%lld", (long long)v.value) == expect(W->t[0], (*c)[0], false, false), "rs:value", "one-column row %zu: %lld", e, (long long)v.value);
      break;
    }
    case R_ISEMPTY: {
      size_t e = a % (E + 3);
      bool x = rs.isRowAtEmpty(e);
      SIM_CHECK(x == (e >= E || !W->at(entry_of(e))), "rs:phantom", "isRowAtEmpty(%zu) is %d (%s)", e, x, kLayout[W->layout]);
      break;
    }
    case R_INTERNAL: {
      auto& t = W->t[col];
      if (t.cls == T_ARR || t.cls == T_TOPK || t.cls == T_FP32 || t.cls == T_SUMF || W->entry.empty()) break;
      if (t.cls == T_AVG && t.fp && t.size == 4) break;
      size_t e = a % W->entry.size();
      const std::vector<Cell>* c;
      {
        Quiet q;
        c = W->at(e);
      }
      if (!c) break;
      auto loc = rs.findStorage(e);
      SIM_CHECK((int)loc.storage_idx == W->entry[e].first && loc.fixedup_entry_idx == W->entry[e].second, "rs:storage", "entry %zu found in storage %zu at %zu", e,
                loc.storage_idx, loc.fixedup_entry_idx);
      InternalTargetValue v = retry([&] {
        if (W->columnar()) {
          ResultSet::ColumnWiseTargetAccessor acc(&rs);
          return acc.getColumnInternal(loc.storage_ptr->getUnderlyingBuffer(), loc.fixedup_entry_idx, col, loc);
        }
        ResultSet::RowWiseTargetAccessor acc(&rs);
        return acc.getColumnInternal(loc.storage_ptr->getUnderlyingBuffer(), loc.fixedup_entry_idx, col, loc);
      });
      Quiet q;
      auto& x = (*c)[col];
      if (t.cls == T_TEXT) {
        if (t.lazy || !x.null) {
          SIM_CHECK(v.isStr(), "rs:internal", "text column is no string internally");
          std::string got = v.i1 ? *reinterpret_cast<std::string*>(v.i1) : "(null)";
          SIM_CHECK(got == (x.null ? "(null)" : x.s), "rs:internal", "entry %zu column %zu%s: internal string '%s', stored '%s'", e, col, t.lazy ? " (lazy)" : "",
                    show(got).c_str(), show(x.s).c_str());
        }
      } else if (t.cls == T_AVG) {
        SIM_CHECK(v.isPair() && v.i2 == x.cnt && v.i1 == (t.fp ? bits(x.d) : x.i), "rs:internal", "entry %zu column %zu: internal pair %lld,%lld", e, col,
                  (long long)v.i1, (long long)v.i2);
      } else {
        int64_t want = t.cls == T_QUANT ? (x.null ? int_null(t.size) : x.i) : raw(Target{t.cls, t.size, t.nullable, t.fp}, x);
        SIM_CHECK(v.i1 == want, "rs:internal", "entry %zu column %zu (class %d size %d%s): internal value %lld, stored %lld (%s)", e, col, t.cls, t.size,
                  t.lazy ? " lazy" : "", (long long)v.i1, (long long)want, kLayout[W->layout]);
      }
      break;
    }
    case R_GETENTRY: {
      auto& t = W->t[col];
      if (W->st.size() != 1 || !W->perm.empty() || W->entry.empty()) break;
      if (t.cls != T_INT && t.cls != T_MIN && t.cls != T_COUNT && t.cls != T_SUM && t.cls != T_DEC && t.cls != T_FP64) break;
      size_t e = a % W->entry.size();
      bool used;
      {
        Quiet q;
        used = W->at(e);
      }
      if (!used) break;
      int w = t.key >= 0 ? W->key_width : t.width[0];
      int64_t v;
      if (W->layout == L_PERF_ROW) v = entry_at<QueryDescriptionType::GroupByPerfectHash, false>(t, e, col, w);
      else if (W->layout == L_PERF_COL) v = entry_at<QueryDescriptionType::GroupByPerfectHash, true>(t, e, col, w);
      else if (W->layout == L_BASE_ROW) v = entry_at<QueryDescriptionType::GroupByBaselineHash, false>(t, e, col, w);
      else if (W->layout == L_BASE_COL) v = entry_at<QueryDescriptionType::GroupByBaselineHash, true>(t, e, col, w);
      else break;
      Quiet q;
      int64_t want = raw(t, (*W->at(e))[col]);
      SIM_CHECK(v == want, "rs:entry", "entry %zu column %zu: direct access reads %lld, stored %lld (%s)", e, col, (long long)v, (long long)want, kLayout[W->layout]);
      break;
    }
    case R_CHUNKS: case R_COPYCOL: {
      auto& t = W->t[col];
      if (W->layout != L_PROJ_COL || !W->perm.empty()) break;
      bool fixed = t.cls != T_TEXT && t.cls != T_ARR && !t.lazy && !W->st.empty();
      bool can = rs.isChunkedZeroCopyColumnarConversionPossible(col), zc = rs.isZeroCopyColumnarConversionPossible(col);
      SIM_CHECK(can == fixed, "rs:zero-copy", "column %zu: chunked zero copy possible %d", col, can);
      SIM_CHECK(zc == (fixed && W->st.size() == 1), "rs:zero-copy", "column %zu: zero copy possible %d with %zu storages", col, zc, W->st.size());
      if (!can) break;
      int w = t.width[0];
      std::vector<int8_t> got;
      if (o.kind == R_COPYCOL) {
        {
          Quiet q;
          got.resize(N * w + 16, 0x55);
        }
        retry([&] {
          rs.copyColumnIntoBuffer(col, got.data(), N * w);
          return 0;
        });
        Quiet q;
        for (int i = 0; i < 16; ++i) SIM_CHECK(got[N * w + i] == 0x55, "rs:overrun", "copying column %zu writes past %zu rows", col, N);
      } else {
        auto ch = retry([&] { return rs.getChunkedColumnarBuffer(col); });
        Quiet q;
        for (auto& c : ch) got.insert(got.end(), c.first, c.first + c.second * w);
        SIM_CHECK(got.size() == N * w, "rs:chunks", "chunks of column %zu hold %zu rows of %zu", col, got.size() / w, N);
        if (zc) {
          auto* p = rs.getColumnarBuffer(col);
          SIM_CHECK(!memcmp(p, got.data(), got.size()), "rs:chunks", "the column buffer differs from its chunk");
        }
      }
      Quiet q;
      for (size_t i = 0; i < N; ++i) {
        int64_t want = raw(t, (*W->at(W->rows[i]))[col]);
        SIM_CHECK(!memcmp(&got[i * w], &want, w), "rs:chunks", "row %zu of column %zu (class %d size %d fp %d, slot %d bytes, skipping %d) differs in the columnar form", i, col, (int)t.cls, t.size, (int)t.fp, w, (int)W->offset);
      }
      break;
    }
    case R_OFFSETS: {
      auto& t = W->t[col];
      if (t.cls != T_TEXT && t.cls != T_ARR && t.cls != T_TOPK) break;
      std::vector<int32_t> off;
      {
        Quiet q;
        off.assign(N + 2, 0x5a5a5a5a);
      }
      size_t n = retry([&] { return rs.computeVarLenOffsets(col, off.data()); });
      Quiet q;
      SIM_CHECK(n == N + 1, "rs:offsets", "%zu offsets for %zu rows", n, N);
      SIM_CHECK(off[N + 1] == 0x5a5a5a5a, "rs:overrun", "offsets written past the end");
      int32_t cur = 0;
      SIM_CHECK(off[0] == 0, "rs:offsets", "first offset %d", off[0]);
      for (size_t i = 0; i < N; ++i) {
        auto& c = (*W->at(W->rows[i]))[col];
        int32_t len = c.null ? 0 : t.cls == T_TEXT ? (int32_t)c.s.size() : (int32_t)c.arr.size() * t.size;
        cur += len;
        int32_t want = c.null && t.cls != T_TEXT ? -cur : cur;
        SIM_CHECK(off[i + 1] == want, "rs:offsets", "offset %zu of column %zu (class %d%s) is %d, expected %d (%s)", i + 1, col, t.cls, t.lazy ? " lazy" : "", off[i + 1],
                  want, kLayout[W->layout]);
      }
      break;
    }
    case R_SHALLOW: {
      auto c = retry([&] { return rs.shallowCopy(); });
      if (a & 1) c->invalidateCachedRowCount();
      size_t n = retry([&] { return c->rowCount(a & 2); });
      SIM_CHECK(n == N, "rs:copy", "a copy counts %zu rows of %zu", n, N);
      for (size_t i = 0; i < N && i < 5; ++i) {
        auto row = c->getNextRow(xl, dec);
        check_row(W->rows[i], row, xl, dec, "shallow copy");
      }
      break;
    }
    case R_UNIQUE: {
      auto& t = W->t[col];
      if (t.cls != T_DICT) break;
      auto u = retry([&] { return rs.getUniqueStringsForDictEncodedTargetCol(col); });
      Quiet q;
      std::set<int> want;
      if (W->perm.empty()) {
        for (size_t e = 0; e < W->entry.size(); ++e)
          if (auto* c = W->at(e))
            if (!(*c)[col].null) want.insert((int)(*c)[col].i);
      } else
        for (auto e : W->perm)
          if (!(*W->at(e))[col].null) want.insert((int)(*W->at(e))[col].i);
      std::set<int> got(u.first.begin(), u.first.end());
      SIM_CHECK(got == want && u.first.size() == want.size() && u.second.size() == u.first.size(), "rs:unique", "%zu unique strings of %zu", u.first.size(), want.size());
      for (size_t i = 0; i < u.first.size(); ++i) SIM_CHECK(u.second[i] == kWords[u.first[i]], "rs:unique", "id %d shown as %s", u.first[i], u.second[i].c_str());
      break;
    }
    case R_PERM: {
      if (W->entry.empty()) break;
      size_t lo = a % (W->entry.size() + 1), hi = lo + b % (W->entry.size() - lo + 1);
      std::vector<PermutationIdx> v;
      {
        Quiet q;
        v.resize(W->entry.size() + 1, 0xeeeeeeee);
      }
      PermutationView pv(v.data(), 0, v.size());
      pv = rs.initPermutationBuffer(pv, (PermutationIdx)lo, (PermutationIdx)hi);
      Quiet q;
      size_t k = 0;
      for (size_t e = lo; e < hi; ++e)
        if (W->at(e)) {
          SIM_CHECK(k < pv.size() && v[k] == e, "rs:permutation", "permutation of [%zu,%zu) lacks entry %zu", lo, hi, e);
          ++k;
        }
      SIM_CHECK(k == pv.size() && v[k] == 0xeeeeeeee, "rs:permutation", "permutation of [%zu,%zu) has %zu entries, not %zu", lo, hi, (size_t)pv.size(), k);
      break;
    }
    case R_ROWAT: {
      if (!N) break;
      size_t i = a % N;
      if (i > 40) i = N - 1 < 40 ? N - 1 : 40;
      if (b & 1) {
        auto v = retry([&] { return rs.getRowAt(i, col, xl, dec); });
        Quiet q;
        std::string x = expect(W->t[col], (*W->at(W->rows[i]))[col], xl, dec), g = show_t(v);
        SIM_CHECK(x == g, "rs:value", "row %zu column %zu: read %s, stored %s", i, col, g.c_str(), x.c_str());
      } else
        check_row(W->rows[i], retry([&] { return rs.getRowAt(i, xl, dec); }), xl, dec, "row access");
      break;
    }
  }
}

void run10(const Plan& p) {
  int nthr = (int)p.get("threads", 1);
  bool alloc_ok = true;
  std::vector<std::unique_ptr<ResultSet>> parts;
  {
    Quiet q;
    Rng r((uint64_t)p.get("seed"));
    W = new World();
    g_cpu_threads_override = (unsigned)p.get("cpus", 2);
    simtbb::set_workers((int)p.get("workers", 1));
    W->prov.base = std::make_shared<StringDictionary>(DictRef(1, 1), true);
    for (auto* w : kWords) W->prov.base->getOrAdd(w);
    W->prov.dd = std::make_unique<DictDescriptor>(1, 1, "dict", 32, false, 1, "", true);
    W->prov.dd->stringDict = W->prov.base;
    W->own = std::make_shared<RowSetMemoryOwner>(&W->prov, 256);
    W->own->getOrAddStringDictProxy(1, -1);
    W->strs.resize(nthr);
    W->limit = (size_t)p.get("limit");
    W->offset = (size_t)p.get("offset");
    build_schema(*W, r, {(int)p.get("layout"), (int)p.get("targets", 1), p.get("lazy") != 0, p.get("keyless") != 0, (int)p.get("keys", 1), (int)p.get("keyw", 8)});
    if (W->dicts) alloc_ok = false;
    DataCfg dc{{}, (int)p.get("fill"), (int)p.get("frags", 1), p.get("equalfrags") != 0, (uint64_t)p.get("perm")};
    for (int s = 0; s < p.get("storages", 1); ++s) dc.entries.push_back((size_t)p.get(str("entries%d", s).c_str(), 1));
    parts = build_data(*W, *W, r, dc);
  }
  W->rs = std::shared_ptr<ResultSet>(parts[0].release());
  for (size_t i = 1; i < parts.size(); ++i) {
    W->rs->append(*parts[i]);
    parts[i].reset();  // the parts go away, their storage stays
  }
  if (p.get("finalize") == 2) W->rs->finalizeAggregates();
  if (!W->perm.empty()) {
    Permutation v;
    {
      Quiet q;
      v = W->perm;
    }
    W->rs->setPermutationBuffer(std::move(v));
  }
  W->rs->keepFirstN(W->limit);
  W->rs->dropFirstN(W->offset);
  if (p.get("finalize") == 1) W->rs->finalizeAggregates();
  {
    Quiet q;
    SIM_CHECK(W->rs->entryCount() == (W->perm.empty() ? W->entry.size() : W->perm.size()), "rs:entries", "entry count %zu", W->rs->entryCount());
    auto si = W->rs->getSlotIndicesForTargetIndices();
    for (size_t i = 0; i < W->t.size(); ++i) SIM_CHECK((int)si[i] == W->t[i].slot, "rs:layout", "target %zu begins at slot %zu", i, si[i]);
  }
  bool has_next = false;
  for (int i = 0; i < p.nops; ++i) has_next |= p.ops[i].kind == R_NEXT || p.ops[i].kind == R_SHALLOW || p.ops[i].kind == R_ROWAT;
  sim::alloc_faults(1, alloc_ok && !has_next ? p.get("faults") / 100.0 : 0);
  // reading a quantile that was not finalized orders its values in place: not for concurrent readers
  bool quant = false;
  for (auto& t : W->t) quant |= t.cls == T_QUANT;
  if (quant && (!p.get("finalize") || (p.get("finalize") == 1 && (W->limit || W->offset || !W->perm.empty())))) {
    std::mutex one;
    run_threads(p, nthr, [&](int t, const Op& o) {
      std::lock_guard<std::mutex> l(one);
      exec10(t, o);
    });
  } else {
    run_threads(p, nthr, exec10);
  }
  sim::alloc_faults(0, 0);
  size_t fetched = 0;
  {
    Quiet q;
    for (auto& s : W->strs) fetched += s.size();
  }
  bool cursor = false;
  for (int i = 0; i < p.nops; ++i) cursor |= p.ops[i].kind == R_NEXT;
  if (cursor) {
    Quiet q;
    auto text = [&](size_t i, bool xl, bool dec) {
      std::string s = (xl ? "1" : "0") + std::string(dec ? "1" : "0");
      auto& c = *W->at(W->rows[i]);
      for (size_t k = 0; k < W->t.size(); ++k) s += expect(W->t[k], c[k], xl, dec) + "|";
      return s;
    };
    SIM_CHECK(fetched <= W->rows.size(), "rs:cursor", "%zu rows fetched of %zu", fetched, W->rows.size());
    // merge: the rows fetched are the first ones, each thread's in order
    std::vector<size_t> head(W->strs.size(), 0);
    std::function<bool(size_t)> fit = [&](size_t i) {
      if (i == fetched) return true;
      for (size_t t = 0; t < W->strs.size(); ++t) {
        if (head[t] == W->strs[t].size()) continue;
        auto& s = W->strs[t][head[t]];
        if (s != text(i, s[0] == '1', s[1] == '1')) continue;
        ++head[t];
        if (fit(i + 1)) return true;
        --head[t];
      }
      return false;
    };
    SIM_CHECK(fit(0), "rs:cursor", "the rows fetched through the shared cursor are not the first %zu rows, each once (%s)", fetched, kLayout[W->layout]);
    for (size_t i = fetched; i < W->rows.size(); ++i) check_row(W->rows[i], W->rs->getNextRow(true, false), true, false, "cursor");
    SIM_CHECK(W->rs->getNextRow(true, false).empty(), "rs:cursor", "more rows than %zu", W->rows.size());
    SIM_CHECK(W->rs->getNextRow(true, false).empty(), "rs:cursor", "more rows after the end");
  }
  // the rows do not change when read again
  {
    Quiet q;
    SIM_CHECK(W->rs->rowCount() == W->rows.size(), "rs:count", "final row count %zu of %zu", W->rs->rowCount(), W->rows.size());
    if (W->rows.size() < 300) {
      size_t i = 0;
      for (auto it = W->rs->rowIterator(true, true); it.isValid(); ++it, ++i) {
        SIM_CHECK(i < W->rows.size(), "rs:extra-row", "extra rows at the end");
        check_row(W->rows[i], *it, true, true, "final iteration");
      }
      SIM_CHECK(i == W->rows.size(), "rs:lost-row", "final iteration shows %zu rows of %zu", i, W->rows.size());
    }
  }
  W->rs.reset();
  W->own.reset();
}
sim::Scenario s10{"C10", "resultset", nullptr, gen10, run10, kRNames, 20'000'000};
sim::Registrar r10(&s10);
}  // namespace
