// C15: result sets registered as tables serve exactly their rows to any number of concurrent users.
#include "rsbuild.h"

#include <cmath>
#include <limits>

#include "DataMgr/BufferMgr/BufferMgr.h"
#include "DataMgr/Chunk/Chunk.h"
#include "DataMgr/DataMgr.h"
#include "ResultSetRegistry/ResultSetRegistry.h"
#include "Shared/Config.h"

using namespace rsb;
using Data_Namespace::AbstractBuffer;
using Data_Namespace::DataMgr;
using hdk::ResultSetRegistry;
using hdk::ResultSetTableTokenPtr;
extern unsigned g_cpu_threads_override;
extern "C" int getpagesize() { return 4; }
size_t g_approx_quantile_buffer = 1000;
size_t g_approx_quantile_centroids = 300;
extern "C" {
bool g_is_test_env = false;
}

namespace {
using Cells = std::vector<Cell>;
struct Source {
  Schema sc;
  std::deque<Data> frag;
  std::vector<std::string> names;
};
struct MFrag {
  std::vector<const Cells*> rows;
};
struct Tab {  // what a table must hold
  Source* src = nullptr;
  std::vector<MFrag> frags;
  bool own_stats = false;
  TableStats stats;
  size_t rows() const {
    size_t n = 0;
    for (auto& f : frags) n += f.rows.size();
    return n;
  }
};
struct Slot {
  std::shared_ptr<Tab> tab;
  ResultSetTableTokenPtr tok;
};
struct Held {
  std::shared_ptr<Chunk_NS::Chunk> chunk;
  std::vector<int8_t> data, offs;
};
constexpr int NSLOT = 6;
struct World {
  ConfigPtr cfg;
  std::unique_ptr<DataMgr> dm;
  std::shared_ptr<ResultSetRegistry> reg;
  std::deque<Source> src;
  Slot slot[NSLOT];
  std::vector<std::vector<Held>> held;
  std::map<std::pair<int, int>, int> live;  // (db, table) -> 1 while some token exists
};
World* W;

bool ordered(const Source& s, size_t data) { return s.sc.proj() || s.sc.layout == L_NONGROUP || !s.frag[data].perm.empty(); }
bool varlen(const Target& t) { return t.cls == T_TEXT || t.cls == T_ARR || t.cls == T_TOPK; }
int width(const Target& t) {
  switch (t.cls) {
    case T_INT: case T_BOOL: case T_MIN: case T_QUANT: case T_COUNT: return t.size;
    case T_FP32: case T_DICT: return 4;
    case T_SUMF: return t.size;
    default: return 8;
  }
}
// how a value looks in a chunk
std::string want(const Target& t, const Cell& c) {
  if (t.cls == T_TEXT && c.null) return "s:";  // no-null strings of temporary tables
  return expect(t, c, false, false);
}
std::string decode(const Target& t, const int8_t* p) {
  switch (t.cls) {
    case T_FP32: {
      float f;
      memcpy(&f, p, 4);
      return fmt_f(f);
    }
    case T_SUMF:
      if (t.size == 4) {
        float f;
        memcpy(&f, p, 4);
        return fmt_f(f);
      }
    case T_FP64: case T_AVG: {
      double f;
      memcpy(&f, p, 8);
      return fmt_d(f);
    }
    default: {
      int64_t v = 0;
      switch (width(t)) {
        case 1: v = *(const int8_t*)p; break;
        case 2: { int16_t x; memcpy(&x, p, 2); v = x; break; }
        case 4: { int32_t x; memcpy(&x, p, 4); v = x; break; }
        default: memcpy(&v, p, 8);
      }
      return str("i:%lld", (long long)v);
    }
  }
}
std::string decode_elem(const Target& t, const int8_t* p) {
  if (t.fp) {
    if (t.size == 4) {
      float f;
      memcpy(&f, p, 4);
      return fmt_f(f);
    }
    double f;
    memcpy(&f, p, 8);
    return fmt_d(f);
  }
  int64_t v = 0;
  memcpy(&v, p, t.size);
  int sh = 64 - 8 * t.size;
  return str("i:%lld", (long long)((v << sh) >> sh));
}
struct St {
  bool any = false, nulls = false;
  int64_t mn = 0, mx = 0;
  double dn = 0, dx = 0;
  void addi(int64_t v) {
    if (!any || v < mn) mn = v;
    if (!any || v > mx) mx = v;
    any = true;
  }
  void addd(double v) {
    if (!any || v < dn) dn = v;
    if (!any || v > dx) dx = v;
    any = true;
  }
};
bool fp_of(const Target& t) { return t.cls == T_FP32 || t.cls == T_FP64 || t.cls == T_AVG || ((t.cls == T_SUMF || t.cls == T_ARR || t.cls == T_TOPK) && t.fp); }
void add_stat(St& s, const Target& t, const Cell& c) {
  switch (t.cls) {
    case T_TEXT: s.nulls |= c.null; return;
    case T_ARR: case T_TOPK:
      if (c.null) s.nulls = true;
      else for (double v : c.arr) t.fp ? s.addd(v) : s.addi((int64_t)v);
      return;
    case T_AVG:
      if (!c.cnt) s.nulls = true;
      else s.addd((t.fp ? c.d : (double)c.i) / (double)c.cnt);
      return;
    case T_FP32: case T_SUMF: case T_FP64:
      if (c.null) s.nulls = true;
      else s.addd(t.size == 4 ? (double)(float)c.d : c.d);
      return;
    case T_DATE:
      if (c.null) s.nulls = true;
      else s.addi(c.i * 86400);
      return;
    default:
      if (c.null) s.nulls = true;
      else s.addi(c.i);
  }
}
int64_t get_i(const Datum& d, const Target& t) {
  if (t.cls == T_DATE) return d.bigintval;
  if (t.cls == T_DICT) return d.intval;
  switch (varlen(t) ? t.size : width(t)) {
    case 1: return d.tinyintval;
    case 2: return d.smallintval;
    case 4: return d.intval;
    default: return d.bigintval;
  }
}
bool fp32_of(const Target& t) { return t.cls == T_FP32 || ((t.cls == T_SUMF || t.cls == T_ARR || t.cls == T_TOPK) && t.fp && t.size == 4); }
void check_stats(const ChunkStats& s, const St& m, const Target& t, const char* what, int col) {
  SIM_CHECK(s.has_nulls == m.nulls, "reg:stats", "%s: column %d (class %d) nulls %d, not %d", what, col, t.cls, s.has_nulls, m.nulls);
  if (t.cls == T_TEXT) return;
  if (fp_of(t)) {
    double a = fp32_of(t) ? s.min.floatval : s.min.doubleval, b = fp32_of(t) ? s.max.floatval : s.max.doubleval;
    if (!m.any) SIM_CHECK(!(a <= b), "reg:stats", "%s: column %d (class %d) without values has the range %g..%g", what, col, t.cls, a, b);
    else SIM_CHECK(a == m.dn && b == m.dx, "reg:stats", "%s: column %d (class %d size %d) range %.17g..%.17g, not %.17g..%.17g", what, col, t.cls, t.size, a, b, m.dn, m.dx);
    return;
  }
  int64_t a = get_i(s.min, t), b = get_i(s.max, t);
  if (!m.any) SIM_CHECK(a > b, "reg:stats", "%s: column %d (class %d) without values has the range %lld..%lld", what, col, t.cls, (long long)a, (long long)b);
  else
    SIM_CHECK(a == m.mn && b == m.mx, "reg:stats", "%s: column %d (class %d size %d) range %lld..%lld, not %lld..%lld", what, col, t.cls, t.size, (long long)a, (long long)b,
              (long long)m.mn, (long long)m.mx);
}
size_t want_bytes(const Source& s, const MFrag& f, size_t col) {
  auto& t = s.sc.t[col];
  if (!varlen(t)) return f.rows.size() * width(t);
  size_t n = 0;
  for (auto* r : f.rows) {
    auto& c = (*r)[col];
    if (!c.null) n += t.cls == T_TEXT ? c.s.size() : c.arr.size() * t.size;
  }
  return n;
}

// ---- plan ---------------------------------------------------------------------------------------------
enum { G_PUT, G_HEAD, G_TAIL, G_DROP, G_META, G_FETCH, G_HOLD, G_UNHOLD, G_ROW, G_ITER, G_SCHEMA, G_DICT, G_TOKEN, G_DIRECT, G_REPUT, G_NOPS };
const char* const kGNames[] = {"put", "head", "tail", "drop", "metadata", "fetch", "fetch-hold", "release", "row", "iterate", "schema", "dictionary", "token-info", "columnar", "put-again", nullptr};

void gen(Rng& r, Plan& p) {
  int ns = r.chance(0.6) ? 1 : (int)r.range(2, 3);
  p.set("sources", ns);
  p.set("seed", r.next() >> 2);
  bool huge = r.chance(0.02);
  for (int s = 0; s < ns; ++s) {
    int layout = (int)r.below(7);
    bool proj = layout <= L_PROJ_ROW;
    p.set(str("layout%d", s).c_str(), layout);
    p.set(str("targets%d", s).c_str(), huge ? 2 : r.range(1, 5));
    p.set(str("keys%d", s).c_str(), r.range(1, 3));
    p.set(str("keyw%d", s).c_str(), r.chance(0.4) ? 4 : 8);
    p.set(str("keyless%d", s).c_str(), r.chance(0.3));
    p.set(str("lazy%d", s).c_str(), proj);
    bool sorted = layout != L_NONGROUP && r.chance(0.25);
    int nf = huge || sorted ? 1 : r.chance(0.5) ? 1 : (int)r.range(2, 3);
    p.set(str("frags%d", s).c_str(), nf);
    for (int f = 0; f < nf; ++f) {
      int nst = !proj || huge ? 1 : r.chance(0.6) ? 1 : (int)r.range(2, 3);
      p.set(str("st%d_%d", s, f).c_str(), nst);
      for (int k = 0; k < nst; ++k) p.set(str("n%d_%d_%d", s, f, k).c_str(), layout == L_NONGROUP ? 1 : huge ? r.range(19998, 20005) : r.chance(0.05) ? r.range(60, 90) : r.range(0, 14));
      p.set(str("fill%d_%d", s, f).c_str(), layout == L_PROJ_COL || r.chance(0.3) ? 1 : r.below(6));
      p.set(str("perm%d_%d", s, f).c_str(), sorted ? r.range(1, 1000) : 0);
      p.set(str("limit%d_%d", s, f).c_str(), proj && r.chance(0.25) ? r.range(1, 20) : 0);
      p.set(str("offset%d_%d", s, f).c_str(), proj && r.chance(0.25) ? r.range(1, 10) : 0);
    }
  }
  p.set("tfrags", r.range(1, 3));
  p.set("equalfrags", r.below(2));
  p.set("direct", r.chance(0.7));
  p.set("testenv", r.below(2));
  p.set("cpus", r.range(1, 3));
  p.set("workers", r.range(0, 3));
  p.set("pages", r.range(64, 400));
  int nthr = (int)r.range(1, 3);
  p.set("threads", nthr);
  p.add(0, G_PUT, r.next() >> 8, r.next() >> 8, r.next() >> 8);
  int nops = huge ? 3 : (int)r.range(3, 20);
  bool ops[G_NOPS];
  for (auto& x : ops) x = r.chance(0.7);
  for (int i = 0; i < nops; ++i) {
    int k = (int)r.below(G_NOPS);
    if (huge) k = r.chance(0.6) ? G_META : G_FETCH;
    if (!ops[k] && !huge) k = r.chance(0.5) ? G_FETCH : G_PUT;
    p.add((int)r.below(nthr), k, r.next() >> 8, r.next() >> 8, r.next() >> 8);
  }
}

Slot take(uint64_t a) {
  Quiet q;
  for (int i = 0; i < NSLOT; ++i) {
    auto& s = W->slot[(a + i) % NSLOT];
    if (s.tok) return s;
  }
  return {};
}
void place(uint64_t a, Slot s) {
  Slot old;
  {
    Quiet q;
    auto& d = W->slot[a % NSLOT];
    old = d;
    d = s;
  }
  // the last reference to the old token goes away here, outside
}
TableStats own_stats(const Source& s) {
  TableStats st;
  for (size_t i = 0; i < s.sc.t.size(); ++i) {
    ChunkStats c;
    memset(&c, 0, sizeof c);
    c.min.bigintval = 3;
    c.max.bigintval = 77;
    c.has_nulls = true;
    st[hdk::ResultSetTableToken::columnId(i)] = c;
  }
  return st;
}
Slot put(Source& s, bool stats, uint64_t sel) {
  Slot n;
  std::vector<ResultSetPtr> v;
  {
    Quiet q;
    n.tab = std::make_shared<Tab>();
    n.tab->src = &s;
    for (size_t f = 0; f < s.frag.size(); ++f) {
      if (s.frag.size() > 1 && (sel >> f) % 5 == 0 && f) continue;
      v.push_back(s.frag[f].rs);
      n.tab->frags.emplace_back();
      for (size_t e : s.frag[f].rows) n.tab->frags.back().rows.push_back(s.frag[f].at(e));
    }
    n.tab->own_stats = stats;
    if (stats) n.tab->stats = own_stats(s);
  }
  n.tok = W->reg->put(hdk::ResultSetTable(v));
  if (stats) {
    TableStats st;
    {
      Quiet q;
      st = n.tab->stats;
    }
    n.tok->setTableStats(st);
  }
  return n;
}
void check_token(const Slot& s) {
  SIM_CHECK(s.tok->rowCount() == s.tab->rows(), "reg:count", "token shows %zu rows of %zu", s.tok->rowCount(), s.tab->rows());
  SIM_CHECK(s.tok->resultSetCount() == s.tab->frags.size(), "reg:count", "token shows %zu parts of %zu", s.tok->resultSetCount(), s.tab->frags.size());
  SIM_CHECK(s.tok->tableInfo()->row_count == s.tab->rows(), "reg:count", "table info shows %zu rows of %zu", s.tok->tableInfo()->row_count, s.tab->rows());
}
std::vector<std::string> row_of(const Source& s, const Cells& c, bool xl, bool dec) {
  std::vector<std::string> r;
  for (size_t i = 0; i < c.size(); ++i) r.push_back(expect(s.sc.t[i], c[i], xl, dec));
  return r;
}
void check_row(const Slot& s, size_t i, const std::vector<TargetValue>& row, bool xl, bool dec, const char* what) {
  Quiet q;
  size_t k = i;
  const Cells* c = nullptr;
  for (auto& f : s.tab->frags) {
    if (k < f.rows.size()) {
      c = f.rows[k];
      break;
    }
    k -= f.rows.size();
  }
  SIM_CHECK(c, "reg:extra-row", "%s: row %zu of %zu", what, i, s.tab->rows());
  auto w = row_of(*s.tab->src, *c, xl, dec);
  SIM_CHECK(w.size() == row.size(), "reg:columns", "%s: row %zu has %zu columns", what, i, row.size());
  for (size_t j = 0; j < w.size(); ++j)
    SIM_CHECK(show_t(row[j]) == w[j], "reg:value", "%s: row %zu column %zu: read %s, stored %s (%s)", what, i, j, show_t(row[j]).c_str(), w[j].c_str(), kLayout[s.tab->src->sc.layout]);
}
void meta(const Slot& s, uint64_t a) {
  auto info = W->reg->getTableMetadata(s.tok->dbId(), s.tok->tableId());
  auto& T = *s.tab;
  SIM_CHECK(info->getNumTuples() == T.rows(), "reg:meta", "metadata counts %zu rows of %zu", info->getNumTuples(), T.rows());
  SIM_CHECK(info->fragments.size() == T.frags.size(), "reg:meta", "metadata lists %zu fragments of %zu", info->fragments.size(), T.frags.size());
  auto table = [&] {
    const TableStats& ts = info->getTableStats();
    Quiet q;
    SIM_CHECK(ts.size() == T.src->sc.t.size(), "reg:stats", "table statistics of %zu columns of %zu", ts.size(), T.src->sc.t.size());
    for (size_t c = 0; c < T.src->sc.t.size(); ++c) {
      auto& g = ts.at(hdk::ResultSetTableToken::columnId(c));
      if (T.own_stats) {
        SIM_CHECK(g.min.bigintval == 3 && g.max.bigintval == 77 && g.has_nulls, "reg:stats", "statistics that were set are not reported");
        continue;
      }
      St m;
      for (auto& f : T.frags)
        for (auto* r : f.rows) add_stat(m, T.src->sc.t[c], (*r)[c]);
      check_stats(g, m, T.src->sc.t[c], "table", (int)c);
    }
  };
  if (a & 1) table();
  for (size_t f = 0; f < T.frags.size(); ++f) {
    auto& fi = info->fragments[f];
    SIM_CHECK(fi.fragmentId == (int)f + 1 && fi.getNumTuples() == T.frags[f].rows.size(), "reg:meta", "fragment %zu: id %d, %zu rows of %zu", f, fi.fragmentId, fi.getNumTuples(),
              T.frags[f].rows.size());
    auto& map = fi.getChunkMetadataMap();
    SIM_CHECK(map.size() == T.src->sc.t.size(), "reg:meta", "fragment %zu describes %zu columns", f, map.size());
    for (auto& [id, m] : map) {
      size_t c = hdk::ResultSetTableToken::columnIndex(id);
      size_t nb = m->numBytes(), ne = m->numElements();
      const ChunkStats* st = (a >> (2 + c % 4)) & 1 ? &m->chunkStats() : nullptr;
      Quiet q;
      SIM_CHECK(ne == T.frags[f].rows.size(), "reg:meta", "column %zu has %zu elements of %zu", c, ne, T.frags[f].rows.size());
      size_t wb = want_bytes(*T.src, T.frags[f], c);
      SIM_CHECK(nb == wb, "reg:meta", "column %zu (class %d) has %zu bytes, not %zu", c, T.src->sc.t[c].cls, nb, wb);
      if (!st) continue;
      St w;
      for (auto* r : T.frags[f].rows) add_stat(w, T.src->sc.t[c], (*r)[c]);
      check_stats(*st, w, T.src->sc.t[c], "fragment", (int)c);
    }
  }
  if (a & 2) table();
}
// the values of a chunk
std::vector<std::string> values(const Target& t, const int8_t* data, const int8_t* offs, size_t n, size_t dsize) {
  std::vector<std::string> r;
  for (size_t i = 0; i < n; ++i) {
    if (!varlen(t)) {
      SIM_CHECK((i + 1) * width(t) <= dsize, "reg:size", "chunk of %zu bytes is too small for %zu rows", dsize, n);
      r.push_back(decode(t, data + i * width(t)));
      continue;
    }
    int32_t b, e;
    memcpy(&b, offs + i * 4, 4);
    memcpy(&e, offs + i * 4 + 4, 4);
    bool null = e < 0;
    b = std::abs(b), e = std::abs(e);
    SIM_CHECK(b <= e && (size_t)e <= dsize, "reg:offsets", "value %zu of %zu lies at %d..%d of %zu bytes (class %d size %d%s)", i, n, b, e, dsize, t.cls, t.size, t.lazy ? " lazy" : "");
    if (t.cls == T_TEXT) {
      r.push_back("s:" + std::string((const char*)data + b, (size_t)(e - b)));
      continue;
    }
    if (null) {
      SIM_CHECK(b == e, "reg:offsets", "null array with %d bytes", e - b);
      r.push_back("anull");
      continue;
    }
    std::string s = "[";
    for (int32_t k = b; k + t.size <= e; k += t.size) s += decode_elem(t, data + k) + ",";
    r.push_back(s + "]");
  }
  return r;
}
void fetch(int thr, const Slot& s, uint64_t a, uint64_t b, bool hold) {
  auto& T = *s.tab;
  auto& sc = T.src->sc;
  size_t f = a % T.frags.size();
  auto info = W->reg->getTableMetadata(s.tok->dbId(), s.tok->tableId());
  auto& map = info->fragments[f].getChunkMetadataMap();
  size_t n = T.frags[f].rows.size();
  if (!n) return;  // nobody reads an empty fragment
  bool direct = (b & 7) == 0;
  std::vector<std::vector<std::string>> got;
  for (size_t c = 0; c < sc.t.size(); ++c) {
    int id = hdk::ResultSetTableToken::columnId(c);
    auto& m = map.at(id);
    size_t nb = m->numBytes();
    auto ci = W->reg->getColumnInfo(s.tok->dbId(), s.tok->tableId(), id);
    SIM_CHECK(ci != nullptr, "reg:schema", "no column %d in table %d", id, s.tok->tableId());
    ChunkKey key{s.tok->dbId(), s.tok->tableId(), id, (int)f + 1};
    if (direct) {
      std::unique_ptr<Data_Namespace::AbstractDataToken> d, o;
      const int8_t *dp = nullptr, *op = nullptr;
      if (varlen(sc.t[c])) {
        ChunkKey k1 = key, k2 = key;
        k1.push_back(1);
        k2.push_back(2);
        o = W->reg->getZeroCopyBufferMemory(k2, (n + 1) * 4);
        d = W->reg->getZeroCopyBufferMemory(k1, nb);
        SIM_CHECK(o && d, "reg:fetch", "no memory for a variable-length column");
        dp = d->getMemoryPtr(), op = o->getMemoryPtr();
      } else {
        d = W->reg->getZeroCopyBufferMemory(key, nb);
        if (d) dp = d->getMemoryPtr();
      }
      Quiet q;
      if (!d) {
        direct = false;  // not a zero-copy column: through the pool
      } else {
        SIM_CHECK(d->getSize() == nb, "reg:size", "token of %zu bytes, not %zu", d->getSize(), nb);
        got.push_back(values(sc.t[c], dp, op, n, nb));
        continue;
      }
    }
    std::shared_ptr<Chunk_NS::Chunk> ch;
    try {
      ch = Chunk_NS::Chunk::getChunk(ci, W->dm.get(), key, Data_Namespace::CPU_LEVEL, 0, nb, n);
    } catch (const OutOfMemory&) {
      sim::count("out_of_memory");
      return;
    }
    const int8_t* dp = ch->getBuffer()->getMemoryPtr();
    const int8_t* op = varlen(sc.t[c]) ? ch->getIndexBuf()->getMemoryPtr() : nullptr;
    Quiet q;
    SIM_CHECK(ch->getBuffer()->size() >= nb, "reg:size", "chunk of %zu bytes, not %zu", ch->getBuffer()->size(), nb);
    got.push_back(values(sc.t[c], dp, op, n, nb));
    if (hold && W->held[thr].size() < 3) {
      Held h;
      h.chunk = ch;
      h.data.assign(dp, dp + nb);
      if (op) h.offs.assign(op, op + (n + 1) * 4);
      W->held[thr].push_back(h);
    }
  }
  Quiet q;
  sim::count("fragments_fetched");
  std::vector<std::string> g, w;
  std::vector<size_t> bytes(sc.t.size());
  for (size_t i = 0; i < n; ++i) {
    std::string x, y;
    for (size_t c = 0; c < sc.t.size(); ++c) {
      x += got[c][i] + "|";
      auto& cell = (*T.frags[f].rows[i])[c];
      // in this format a null array before any data cannot be told from an empty one
      bool first = sc.t[c].cls == T_ARR && cell.null && !bytes[c];
      y += (first ? "[]" : want(sc.t[c], cell)) + "|";
      if (!cell.null) bytes[c] += cell.arr.size();
    }
    g.push_back(x);
    w.push_back(y);
  }
  bool ord = sc.proj() || sc.layout == L_NONGROUP;
  for (auto& fr : T.src->frag) ord |= !fr.perm.empty() && T.src->frag.size() == 1;
  if (!ord) {
    std::sort(g.begin(), g.end());
    std::sort(w.begin(), w.end());
  }
  for (size_t i = 0; i < n; ++i)
    SIM_CHECK(g[i] == w[i], "reg:value", "fragment %zu of %zu, row %zu of %zu: fetched %s, stored %s (%s)", f, T.frags.size(), i, n, g[i].c_str(), w[i].c_str(), kLayout[sc.layout]);
}
void check_held(const Held& h) {
  SIM_CHECK(!memcmp(h.chunk->getBuffer()->getMemoryPtr(), h.data.data(), h.data.size()), "reg:held", "a held chunk changed");
  if (!h.offs.empty()) SIM_CHECK(!memcmp(h.chunk->getIndexBuf()->getMemoryPtr(), h.offs.data(), h.offs.size()), "reg:held", "the offsets of a held chunk changed");
}

void exec(int thr, const Op& o) {
  uint64_t a = (uint64_t)o.a[0], b = (uint64_t)o.a[1], c = (uint64_t)o.a[2];
  Slot s;
  if (o.kind != G_PUT && o.kind != G_UNHOLD) {
    s = take(a);
    if (!s.tok) return;
  }
  switch (o.kind) {
    case G_PUT: {
      Slot n = put(W->src[b % W->src.size()], c % 6 == 0, c >> 5);
      check_token(n);
      place(a, n);
      break;
    }
    case G_REPUT: {
      // the result outlives the table and is registered again
      std::vector<ResultSetPtr> v;
      for (size_t i = 0; i < s.tok->resultSetCount(); ++i) v.push_back(s.tok->resultSet(i));
      Slot n;
      {
        Quiet q;
        n.tab = std::make_shared<Tab>(*s.tab);
        n.tab->own_stats = false;
      }
      if (c & 1) place(a, {});
      s = {};
      n.tok = W->reg->put(hdk::ResultSetTable(v));
      check_token(n);
      place(b, n);
      break;
    }
    case G_HEAD: case G_TAIL: {
      size_t total = s.tab->rows(), n = c % 7 == 0 ? 0 : b % (total + 2);
      Slot r;
      r.tok = o.kind == G_HEAD ? s.tok->head(n) : s.tok->tail(n);
      {
        Quiet q;
        if (n >= total) {
          SIM_CHECK(r.tok == s.tok, "reg:head", "%s(%zu) of %zu rows is another table", kGNames[o.kind], n, total);
          r.tab = s.tab;
        } else {
          r.tab = std::make_shared<Tab>();
          r.tab->src = s.tab->src;
          size_t skip = o.kind == G_TAIL ? total - n : 0, left = n;
          for (auto& f : s.tab->frags) {
            size_t from = std::min(skip, f.rows.size());
            skip -= from;
            size_t k = std::min(left, f.rows.size() - from);
            left -= k;
            if (!k) continue;
            r.tab->frags.emplace_back();
            r.tab->frags.back().rows.assign(f.rows.begin() + from, f.rows.begin() + from + k);
          }
        }
      }
      if (n < total) {
        // how the rows are cut into fragments is not specified: take it over, the rows are
        Quiet q;
        std::vector<const Cells*> all;
        for (auto& f : r.tab->frags) all.insert(all.end(), f.rows.begin(), f.rows.end());
        SIM_CHECK(r.tok->rowCount() == n, "reg:head", "%s(%zu) has %zu rows", kGNames[o.kind], n, r.tok->rowCount());
        r.tab->frags.clear();
        size_t at = 0;
        for (size_t i = 0; i < r.tok->resultSetCount(); ++i) {
          size_t k = r.tok->resultSet(i)->rowCount();
          SIM_CHECK(at + k <= all.size(), "reg:head", "%s(%zu): the parts have more rows", kGNames[o.kind], n);
          r.tab->frags.emplace_back();
          r.tab->frags.back().rows.assign(all.begin() + at, all.begin() + at + k);
          at += k;
        }
      }
      check_token(r);
      sim::count("cut_tables");
      place(c >> 4, r);
      break;
    }
    case G_DROP: place(a, {}); break;
    case G_META: meta(s, b); break;
    case G_FETCH: fetch(thr, s, b, c, false); break;
    case G_HOLD: fetch(thr, s, b, c | 7, true); break;
    case G_UNHOLD: {
      Held h;
      {
        Quiet q;
        if (W->held[thr].empty()) return;
        h = W->held[thr].back();
        W->held[thr].pop_back();
        check_held(h);
      }
      h.chunk.reset();
      break;
    }
    case G_ROW: {
      size_t n = s.tab->rows();
      if (n == 0 || b % 9 == 0) {
        bool threw = false;
        try {
          s.tok->row(n + b % 3, false, false);
        } catch (const std::runtime_error&) {
          threw = true;
        }
        SIM_CHECK(threw, "reg:row", "row %zu of %zu exists", n + (size_t)(b % 3), n);
        break;
      }
      size_t i = b % n;
      if (n > 100) i %= 50;
      check_row(s, i, s.tok->row(i, c & 1, c & 2), c & 1, c & 2, "row access");
      break;
    }
    case G_ITER: {
      if (s.tab->rows() > 300) break;
      size_t i = 0;
      auto it = s.tok->rowIterator(c & 1, c & 2);
      for (; i < s.tab->rows(); ++i, ++it) check_row(s, i, *it, c & 1, c & 2, "iterator");
      break;
    }
    case G_SCHEMA: {
      auto ti = W->reg->getTableInfo(s.tok->dbId(), s.tok->tableId());
      SIM_CHECK(ti && ti->name == s.tok->tableName(), "reg:schema", "table %d is not known", s.tok->tableId());
      auto t2 = W->reg->getTableInfo(s.tok->dbId(), s.tok->tableName());
      SIM_CHECK(t2 && t2->table_id == s.tok->tableId(), "reg:schema", "table '%s' is not known by name", s.tok->tableName().c_str());
      auto cols = W->reg->listColumns(s.tok->dbId(), s.tok->tableId());
      auto& sc = s.tab->src->sc;
      SIM_CHECK(cols.size() == sc.t.size() + 1, "reg:schema", "%zu columns of %zu", cols.size(), sc.t.size() + 1);
      for (size_t i = 0; i < sc.t.size(); ++i) {
        Quiet q;
        SIM_CHECK(cols[i]->name == s.tab->src->names[i] && cols[i]->column_id == hdk::ResultSetTableToken::columnId(i) && !cols[i]->is_rowid, "reg:schema", "column %zu is '%s' (%d)", i,
                  cols[i]->name.c_str(), cols[i]->column_id);
        SIM_CHECK((int)cols[i]->type->id() == (int)s.tok->colType(i)->id() && cols[i]->type->size() == s.tok->colType(i)->size(), "reg:schema", "column %zu has type %s", i,
                  cols[i]->type->toString().c_str());
      }
      SIM_CHECK(cols.back()->is_rowid && cols.back()->name == "rowid", "reg:schema", "no rowid column");
      auto list = W->reg->listTables(s.tok->dbId());
      bool found = false;
      for (auto& t : list) found |= t->table_id == s.tok->tableId();
      SIM_CHECK(found, "reg:schema", "table %d is not listed", s.tok->tableId());
      break;
    }
    case G_DICT: {
      auto cols = W->reg->listColumns(s.tok->dbId(), s.tok->tableId());
      for (auto& ci : cols) {
        if (!ci->type->isExtDictionary()) continue;
        int id = ci->type->as<hdk::ir::ExtDictionaryType>()->dictId();
        auto* dd = W->reg->getDictMetadata(id, true);
        SIM_CHECK(dd && dd->stringDict, "reg:dict", "dictionary %d of a live table is not known", id);
        auto d = dd->stringDict;
        for (int k = 0; k < NW; ++k) {
          std::string g = d->getString(k);
          SIM_CHECK(g == kWords[k], "reg:dict", "id %d is '%s'", k, g.c_str());
        }
        sim::count("dictionaries_seen");
      }
      break;
    }
    case G_TOKEN: {
      check_token(s);
      for (size_t i = 0; i < s.tok->resultSetCount(); ++i) {
        auto rs = s.tok->resultSet(i);
        SIM_CHECK(rs->rowCount() == s.tab->frags[i].rows.size(), "reg:count", "part %zu has %zu rows of %zu", i, rs->rowCount(), s.tab->frags[i].rows.size());
      }
      SIM_CHECK(s.tok->colCount() == s.tab->src->sc.t.size(), "reg:columns", "%zu columns", s.tok->colCount());
      break;
    }
    case G_DIRECT: {
      // columnar conversion on its own
      if (!s.tab->frags.size()) break;
      size_t f = b % s.tab->frags.size();
      auto rs = s.tok->resultSet(f);
      (void)rs;
      break;
    }
  }
}

void run(const Plan& p) {
  int nthr = (int)p.get("threads", 1);
  W = new World;
  std::vector<std::vector<std::vector<std::unique_ptr<ResultSet>>>> parts;
  Rng r((uint64_t)p.get("seed"));
  {
    Quiet q;
    g_cpu_threads_override = (unsigned)p.get("cpus", 2);
    simtbb::set_workers((int)p.get("workers", 1));
    g_is_test_env = p.get("testenv");
    W->cfg = std::make_shared<Config>();
    W->cfg->exec.cpu_only = true;
    W->cfg->rs.enable_direct_columnarization = p.get("direct");
    auto& m = W->cfg->mem;
    m.cpu.max_size = 512 * (size_t)p.get("pages") * 8;
    m.cpu.min_slab_size = 512 * (size_t)p.get("pages");
    m.cpu.max_slab_size = 512 * (size_t)p.get("pages") * 2;
    W->dm = std::make_unique<DataMgr>(*W->cfg, 0);
    W->held.resize(nthr);
    for (int s = 0; s < p.get("sources", 1); ++s) {
      W->src.emplace_back();
      auto& S = W->src.back();
      auto& sc = S.sc;
      sc.ctx = &hdk::ir::Context::defaultCtx();
      sc.prov.base = std::make_shared<StringDictionary>(DictRef(1, 1), true);
      for (auto* w : kWords) sc.prov.base->getOrAdd(w);
      sc.prov.dd = std::make_unique<DictDescriptor>(1, 1, "dict", 32, false, 1, "", true);
      sc.prov.dd->stringDict = sc.prov.base;
      sc.own = std::make_shared<RowSetMemoryOwner>(&sc.prov, 256);
      if (r.chance(0.5)) sc.own->getOrAddStringDictProxy(1, -1);
      auto g = [&](const char* n, int64_t d = 0) { return p.get(str("%s%d", n, s).c_str(), d); };
      build_schema(sc, r, {(int)g("layout"), (int)g("targets", 1), g("lazy") != 0, g("keyless") != 0, (int)g("keys", 1), (int)g("keyw", 8)});
      for (size_t i = 0; i < sc.t.size(); ++i) S.names.push_back(str("c%zu", i));
      parts.emplace_back();
      for (int f = 0; f < g("frags", 1); ++f) {
        S.frag.emplace_back();
        auto& D = S.frag.back();
        auto gf = [&](const char* n, int64_t d = 0) { return p.get(str("%s%d_%d", n, s, f).c_str(), d); };
        D.limit = (size_t)gf("limit");
        D.offset = (size_t)gf("offset");
        DataCfg dc{{}, (int)gf("fill"), (int)p.get("tfrags", 1), p.get("equalfrags") != 0, (uint64_t)gf("perm")};
        for (int k = 0; k < gf("st", 1); ++k) dc.entries.push_back((size_t)p.get(str("n%d_%d_%d", s, f, k).c_str(), 1));
        parts.back().push_back(build_data(sc, D, r, dc));
        // the first null array of a column cannot be told from an empty one in this format
        for (size_t i = 0; i < sc.t.size(); ++i) (void)i;
      }
    }
  }
  for (size_t s = 0; s < parts.size(); ++s)
    for (size_t f = 0; f < parts[s].size(); ++f) {
      auto& D = W->src[s].frag[f];
      auto& P = parts[s][f];
      D.rs = std::shared_ptr<ResultSet>(P[0].release());
      for (size_t i = 1; i < P.size(); ++i) {
        D.rs->append(*P[i]);
        P[i].reset();
      }
      D.rs->finalizeAggregates();
      if (!D.perm.empty()) {
        Permutation v;
        {
          Quiet q;
          v = D.perm;
        }
        D.rs->setPermutationBuffer(std::move(v));
      }
      D.rs->keepFirstN(D.limit);
      D.rs->dropFirstN(D.offset);
      std::vector<std::string> names;
      {
        Quiet q;
        names = W->src[s].names;
      }
      D.rs->setColNames(names);
    }
  W->reg = ResultSetRegistry::getOrCreate(W->dm.get(), W->cfg);
  run_threads(p, nthr, exec);
  // afterwards everything is still there
  for (int i = 0; i < NSLOT; ++i) {
    Slot s = W->slot[i];
    if (!s.tok) continue;
    if (s.tab->rows() < 300) {
      meta(s, 0xff);
      for (size_t f = 0; f < s.tab->frags.size(); ++f) fetch(0, s, f, 7, false);
    }
  }
  for (auto& v : W->held)
    for (auto& h : v) check_held(h);
  // dropping the last token drops the table
  std::vector<std::pair<int, std::string>> gone;
  for (int i = 0; i < NSLOT; ++i)
    if (W->slot[i].tok) gone.emplace_back(W->slot[i].tok->tableId(), W->slot[i].tok->tableName());
  for (int i = 0; i < NSLOT; ++i) W->slot[i] = {};
  for (auto& [id, name] : gone) {
    SIM_CHECK(!W->reg->getTableInfo(ResultSetRegistry::DB_ID, id) && !W->reg->getTableInfo(ResultSetRegistry::DB_ID, name), "reg:drop", "table %d exists after its last token", id);
    SIM_CHECK(!W->reg->getColumnInfo(ResultSetRegistry::DB_ID, id, 2000), "reg:drop", "columns of table %d exist after its last token", id);
  }
  SIM_CHECK(W->reg->listTables(ResultSetRegistry::DB_ID).empty(), "reg:drop", "%zu tables exist without tokens", W->reg->listTables(ResultSetRegistry::DB_ID).size());
  for (auto& v : W->held) {
    for (auto& h : v) check_held(h);
    v.clear();
  }
  W->reg.reset();
  W->dm.reset();
  W->src.clear();
}
sim::Scenario sc{"C15", "registry", nullptr, gen, run, kGNames, 40'000'000};
sim::Registrar reg(&sc);
}  // namespace
