// C11: the data manager end to end: columns served as chunks from registered storages
// through the host and device pools.
#include "fakegpu.h"

#include <fstream>
#include <iostream>
#include <mutex>
#include <shared_mutex>
#include <sstream>
#include <thread>

#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/BufferMgr/BufferMgr.h"
#include "DataMgr/Chunk/Chunk.h"
#include "DataMgr/PersistentStorageMgr/PersistentStorageMgr.h"
#include "IR/Context.h"
#include "Shared/Config.h"
// Only to attach a simulated device: this build has no device runtime to create one from.
#define private public
#include "DataMgr/DataMgr.h"
#undef private
#include "DataProvider/DataProvider.h"
#include "Utils/ChunkIter.h"

using namespace hs;
using Data_Namespace::AbstractBuffer;
using Data_Namespace::AbstractDataToken;
using Data_Namespace::DataMgr;
using Data_Namespace::MemoryLevel;

namespace {
constexpr int NS = 3, NT = 2, NCOL = 25, NF = 3;
struct StorageError : std::runtime_error {
  using std::runtime_error::runtime_error;
};
hdk::ir::Context& ctx() { return hdk::ir::Context::defaultCtx(); }

// ---- the stored data -------------------------------------------------------------------
struct ColData {
  std::vector<std::string> rows;
  std::vector<bool> null;
  std::vector<int8_t> data;
  std::vector<int32_t> index;
};
struct World;
World* W;
struct World;

const hdk::ir::Type* col_type(int c) {
  switch (c) {
    case 0: return ctx().int8();
    case 1: return ctx().int16();
    case 2: return ctx().int32();
    case 3: return ctx().int64();
    case 4: return ctx().fp32();
    case 5: return ctx().fp64();
    case 6: return ctx().date16();
    case 7: return ctx().timestamp(hdk::ir::TimeUnit::kSecond);
    case 8: return ctx().text();
    case 9: return ctx().arrayVarLen(ctx().int32());
    case 10: return ctx().arrayFixed(3, ctx().int16());
    case 11: return ctx().decimal64(10, 2);
    case 12: return ctx().boolean();
    case 13: return ctx().extDict(ctx().text(), 7, 2);
    case 14: return ctx().varChar(40);
    case 15: return ctx().arrayVarLen(ctx().int8(), 4, false);
    case 16: return ctx().date32();
    case 17: return ctx().time(4);
    case 18: return ctx().arrayFixed(2, ctx().fp32());
    case 19: return ctx().arrayFixed(2, ctx().fp64());
    case 20: return ctx().arrayFixed(3, ctx().int8());
    case 21: return ctx().arrayFixed(1, ctx().int64());
    case 22: return ctx().arrayFixed(2, ctx().int32(), false);
    case 23: return ctx().arrayFixed(2, ctx().int32());
    default: return ctx().int32(false);
  }
}
void null_bytes(const hdk::ir::Type* t, std::string& s) {
  if (t->isFloatingPoint()) {
    if (t->size() == 4) { float v = inline_null_value<float>(); memcpy(&s[0], &v, 4); }
    else { double v = inline_null_value<double>(); memcpy(&s[0], &v, 8); }
    return;
  }
  switch (t->size()) {
    case 1: s[0] = inline_null_value<int8_t>(); break;
    case 2: { int16_t v = inline_null_value<int16_t>(); memcpy(&s[0], &v, 2); break; }
    case 4: { int32_t v = inline_null_value<int32_t>(); memcpy(&s[0], &v, 4); break; }
    default: { int64_t v = inline_null_value<int64_t>(); memcpy(&s[0], &v, 8); }
  }
}

// the marker of a null fixed-length array is its first element
template <class T>
void put_array_null(std::string& s) {
  T v = inline_null_array_value<T>();
  memcpy(&s[0], &v, sizeof v);
}
void null_array_bytes(const hdk::ir::Type* t, std::string& s) {
  auto* e = t->as<hdk::ir::ArrayBaseType>()->elemType();
  if (e->isFloatingPoint()) return e->size() == 4 ? put_array_null<float>(s) : put_array_null<double>(s);
  switch (e->size()) {
    case 1: return put_array_null<int8_t>(s);
    case 2: return put_array_null<int16_t>(s);
    case 4: return put_array_null<int32_t>(s);
    default: return put_array_null<int64_t>(s);
  }
}

struct Prov;
struct Token : AbstractDataToken {
  std::vector<int8_t> data;
  const hdk::ir::Type* type;
  ~Token() override;
  const int8_t* getMemoryPtr() const override { return data.data(); }
  size_t getSize() const override { return data.size(); }
  const hdk::ir::Type* getType() const override { return type; }
};

struct Prov : AbstractDataProvider {
  int sid;
  double err_p = 0, part_p = 0;
  std::map<std::vector<int>, int> active;
  std::set<std::vector<int>> zero_copy;
  std::map<std::vector<int>, ColData> cols;  // {table, col, frag}
  std::vector<std::shared_ptr<const TableFragmentsInfo>> meta;
  std::shared_ptr<DictDescriptor> dict;
  std::map<int, int> drops;
  void own(const ChunkKey& k) {
    if ((k[0] >> 24) != sid) sim::fail("route:wrong-storage", "storage %d is asked for a chunk of storage %d", sid, k[0] >> 24);
  }
  void fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) override;
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key, size_t n) override;
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ColumnRef& ref) override;
  void deleteBuffersWithPrefix(const ChunkKey& prefix, const bool) override {
    Quiet q;
    own(prefix);
    ++drops[prefix.size() > 1 ? prefix[1] : 0];
  }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int db, int t) const override {
    Quiet q;
    if ((db >> 24) != sid) sim::fail("route:wrong-storage", "storage %d is asked for a table of storage %d", sid, db >> 24);
    return meta[t - 1];
  }
  const DictDescriptor* getDictMetadata(int dict_id, bool) override {
    Quiet q;
    if ((dict_id >> 24) != sid) sim::fail("route:wrong-storage", "storage %d is asked for dictionary %x", sid, dict_id);
    return dict.get();
  }
};

struct Held {
  std::shared_ptr<Chunk_NS::Chunk> chunk;
  int sid, table, col, frag, level, dev;
  bool zc = false;
  int8_t *mem = nullptr, *imem = nullptr;
  const ColData* d = nullptr;
};
struct World {
  Config cfg;
  std::unique_ptr<DataMgr> dm;
  FakeGpu* gpu = nullptr;
  int ngpu = 0;
  std::shared_ptr<Prov> prov[NS + 1];
  std::map<int, ColumnInfoPtr> info;
  int tokens = 0;
  int oom = 0, errors = 0;
  std::map<std::vector<int>, int> calls, holders;  // {sid, table}
  std::set<std::vector<int>> dropping;
  bool clearing = false;
  int all_calls = 0, all_held = 0;
};
Token::~Token() {
  Quiet q;
  --W->tokens;
}
int db_of(int sid) { return sid << 24 | 5; }

void Prov::fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) {
  std::vector<int> k;
  const int8_t* src;
  size_t have;
  const hdk::ir::Type* t;
  {
    Quiet q;
    own(key);
    k = key;
    auto it = cols.find({key[1], key[2], key[3]});
    if (it == cols.end() || key[0] != db_of(sid)) sim::fail("route:bad-key", "storage %d: chunk %d/%d/%d does not exist", sid, key[1], key[2], key[3]);
    t = col_type(key[2] - 1);
    if (t->isVarLen() ? key.size() != 5 || key[4] < 1 || key[4] > 2 : key.size() != 4)
      sim::fail("route:bad-key", "storage %d: malformed chunk key of %zu parts for column %d", sid, key.size(), key[2]);
    bool index = t->isVarLen() && key[4] == 2;
    src = index ? (const int8_t*)it->second.index.data() : it->second.data.data();
    have = index ? it->second.index.size() * 4 : it->second.data.size();
    if (n != have) sim::fail("route:bad-size", "storage %d: %zu bytes requested of chunk %d/%d/%d, it has %zu", sid, n, key[1], key[2], key[3], have);
    if (active[k]++ > 0) sim::fail("fetch:duplicate", "chunk %d/%d/%d of storage %d is fetched by two callers at once", key[1], key[2], key[3], sid);
  }
  struct Done {
    Prov* p;
    std::vector<int>& k;
    ~Done() {
      Quiet q;
      --p->active[k];
    }
  } done{this, k};
  sim::yield_point();
  if (sim::fault("storage-read", err_p)) throw StorageError("simulated storage error");
  dest->reserve(n);
  if (t->isVarLen() ? key[4] == 1 : true) {
    if (!dest->hasEncoder() && t->isVarLen()) dest->initEncoder(t);
  }
  size_t pos = 0;
  while (pos < n) {
    size_t step = std::min<size_t>(n - pos, 1 + n / 2);
    {
      Quiet q;
      memcpy(dest->getMemoryPtr() + pos, src + pos, step);
    }
    pos += step;
    sim::yield_point();
    if (pos < n && sim::fault("storage-read-partial", part_p)) throw StorageError("simulated partial storage read");
  }
  dest->setSize(n);
}
std::unique_ptr<AbstractDataToken> Prov::getZeroCopyBufferMemory(const ChunkKey& key, size_t n) {
  Quiet q;
  own(key);
  if (!zero_copy.count({key[1], key[2]})) return nullptr;
  auto& d = cols.at({key[1], key[2], key[3]});
  bool index = key.size() == 5 && key[4] == 2;
  if (index ? d.index.empty() : d.data.empty()) return nullptr;
  auto t = std::make_unique<Token>();
  if (index) t->data.assign((const int8_t*)d.index.data(), (const int8_t*)(d.index.data() + d.index.size()));
  else t->data = d.data;
  t->type = index ? ctx().int32(false) : col_type(key[2] - 1);
  ++W->tokens;
  return t;
}
std::unique_ptr<AbstractDataToken> Prov::getZeroCopyColumnData(const ColumnRef& ref) {
  Quiet q;
  if ((ref.db_id >> 24) != sid) sim::fail("route:wrong-storage", "storage %d is asked for column data of storage %d", sid, ref.db_id >> 24);
  if (!zero_copy.count({ref.table_id, ref.column_id}) || col_type(ref.column_id - 1)->isVarLen()) return nullptr;
  auto t = std::make_unique<Token>();
  for (int f = 1; f <= NF; ++f) {
    auto& d = cols.at({ref.table_id, ref.column_id, f}).data;
    t->data.insert(t->data.end(), d.begin(), d.end());
  }
  t->type = col_type(ref.column_id - 1);
  ++W->tokens;
  return t;
}

ColData make_col(Rng& r, int c, int rows) {
  ColData d;
  auto* t = col_type(c);
  if (t->isString()) {
    d.index.push_back(0);
    for (int i = 0; i < rows; ++i) {
      std::string s;
      if (!r.chance(0.2))
        for (int n = (int)r.range(1, 24); n > 0; --n) s += (char)r.below(256);
      d.null.push_back(s.empty());
      d.data.insert(d.data.end(), s.begin(), s.end());
      d.index.push_back((int32_t)d.data.size());
      d.rows.push_back(std::move(s));
    }
  } else if (t->isVarLenArray()) {
    int es = t->as<hdk::ir::ArrayBaseType>()->elemType()->size();
    for (int i = 0; i < rows; ++i) {
      bool null = t->nullable() && r.chance(0.25);
      if (i == 0) {
        if (t->nullable()) d.data.resize(8);  // a null is the sign of its end offset, which must not be 0
        d.index.push_back((int32_t)d.data.size());
      }
      std::string s;
      if (!null)
        for (int n = (int)r.below(7) * es; n > 0; --n) s += (char)r.below(256);
      d.data.insert(d.data.end(), s.begin(), s.end());
      d.index.push_back(null ? -(int32_t)d.data.size() : (int32_t)d.data.size());
      d.null.push_back(null);
      d.rows.push_back(std::move(s));
    }
    if (!rows) d.index.push_back(0);
  } else {
    for (int i = 0; i < rows; ++i) {
      std::string s;
      for (int k = 0; k < t->size(); ++k) s += (char)r.below(256);
      bool null = r.chance(0.2);
      if (!t->nullable() && !t->isArray()) null = false;
      if (t->isArray()) {
        bool mark = null;
        if (!t->nullable()) null = false;  // the same bytes are an ordinary value there
        if (mark) {
          null_array_bytes(t, s);
        } else {
          auto* e = t->as<hdk::ir::ArrayBaseType>()->elemType();
          for (size_t k = 0; k < s.size(); k += e->size()) {
            double v = (double)r.range(-1000000, 1000000);
            float fv = (float)v;
            if (!e->isFloatingPoint()) s[k] = 2;
            else if (e->size() == 4) memcpy(&s[k], &fv, 4);
            else memcpy(&s[k], &v, 8);
          }
        }
      } else if (null) {
        null_bytes(t, s);
      } else {
        s[0] |= 1;  // never a sentinel by accident
        if (t->isFloatingPoint()) {
          double v = (double)r.range(-1000000, 1000000);
          float fv = (float)v;
          if (t->size() == 4) memcpy(&s[0], &fv, 4);
          else memcpy(&s[0], &v, 8);
        }
      }
      d.null.push_back(null);
      d.data.insert(d.data.end(), s.begin(), s.end());
      d.rows.push_back(std::move(s));
    }
  }
  return d;
}

// ---- oracles --------------------------------------------------------------------------------
void check_cell(const Held& h, size_t row, const int8_t* p, size_t n, bool is_null, bool end, bool null_matters, const char* how) {
  if (end) sim::fail("chunk:end", "%s: row %zu of %zu of %d/%d/%d/%d is past the end", how, row, h.d->rows.size(), h.sid, h.table, h.col, h.frag);
  auto& want = h.d->rows[row];
  if (null_matters && is_null != h.d->null[row])
    sim::fail("chunk:null", "%s: row %zu of chunk %d/%d/%d/%d is %s", how, row, h.sid, h.table, h.col, h.frag, is_null ? "reported null" : "null, reported as a value");
  if (h.d->null[row] && col_type(h.col - 1)->isVarLen()) return;
  if (n != want.size() || (n && memcmp(p, want.data(), n)))
    sim::fail("chunk:value", "%s: row %zu of chunk %d/%d/%d/%d has a wrong value (%zu bytes, expected %zu)", how, row, h.sid, h.table, h.col, h.frag, n, want.size());
}
void verify(World& w, Held& h, bool full, int64_t sel) {
  auto* b = h.chunk->getBuffer();
  auto* ib = h.chunk->getIndexBuf();
  auto* t = col_type(h.col - 1);
  {
    Quiet q;
    if (!b || (t->isVarLen() && !ib)) sim::fail("chunk:no-buffer", "chunk %d/%d/%d/%d has no buffer", h.sid, h.table, h.col, h.frag);
    if (b->getMemoryPtr() != h.mem || (ib && ib->getMemoryPtr() != h.imem)) sim::fail("chunk:moved", "chunk %d/%d/%d/%d moved while it is held", h.sid, h.table, h.col, h.frag);
    if (b->size() < h.d->data.size() || (ib && ib->size() < h.d->index.size() * 4))
      sim::fail("chunk:short", "chunk %d/%d/%d/%d has %zu of %zu bytes", h.sid, h.table, h.col, h.frag, b->size(), h.d->data.size());
  }
  if (h.level == MemoryLevel::GPU_LEVEL) {
    auto* bp = w.dm->getBufferProvider();
    std::vector<int8_t> host(h.d->data.size() + 1), ihost(h.d->index.size() * 4 + 1);
    if (h.d->data.size()) bp->copyFromDevice(host.data(), b->getMemoryPtr(), h.d->data.size(), h.dev);
    if (ib) bp->copyFromDevice(ihost.data(), ib->getMemoryPtr(), h.d->index.size() * 4, h.dev);
    Quiet q;
    if (memcmp(host.data(), h.d->data.data(), h.d->data.size()) || (ib && memcmp(ihost.data(), h.d->index.data(), h.d->index.size() * 4)))
      sim::fail("chunk:device-content", "device %d: chunk %d/%d/%d/%d has wrong content", h.dev, h.sid, h.table, h.col, h.frag);
    return;
  }
  size_t rows = h.d->rows.size();
  size_t nbytes = h.d->data.size();
  auto meta = std::make_shared<ChunkMetadata>(t, nbytes, rows);
  if (h.chunk->getColumnInfo()->column_id != h.col || h.chunk->getTableId() != h.table || h.chunk->getColumnId() != h.col || h.chunk->columnType() != t)
    sim::fail("chunk:column", "the chunk describes another column");
  if (!full || rows == 0) {
    if (rows == 0) {
      ChunkIter it = h.chunk->begin_iterator(meta);
      VarlenDatum vd;
      bool end = false;
      ChunkIter_get_nth(&it, 0, false, &vd, &end);
      if (!end) sim::fail("chunk:end", "an empty chunk has a row");
    }
    return;
  }
  Quiet q;  // no scheduling inside the row loops: only values matter
  ChunkIter it = h.chunk->begin_iterator(meta);
  for (size_t i = 0; i < rows; ++i) {
    bool end = false;
    if (t->isArray()) {
      ArrayDatum ad;
      ad.is_null = false;
      ChunkIter_get_nth(&it, (int)i, &ad, &end);
      check_cell(h, i, ad.pointer, ad.length, ad.is_null, end, true, "get_nth");
      if (t->isVarLenArray()) {
        ArrayDatum a2;
        end = false;
        ChunkIter_get_nth_varlen(&it, (int)i, &a2, &end);
        check_cell(h, i, a2.pointer, a2.length, a2.is_null, end, true, "get_nth_varlen");
        if (!t->nullable()) {
          ArrayDatum a3;
          end = false;
          ChunkIter_get_nth_varlen_notnull(&it, (int)i, &a3, &end);
          check_cell(h, i, a3.pointer, a3.length, a3.is_null, end, true, "get_nth_varlen_notnull");
        }
      }
    } else {
      VarlenDatum vd;
      ChunkIter_get_nth(&it, (int)i, false, &vd, &end);
      check_cell(h, i, vd.pointer, vd.length, vd.is_null, end, true, "get_nth");
    }
  }
  for (int64_t bad : {(int64_t)rows, (int64_t)-1, (int64_t)rows + 7}) {
    bool end = false;
    VarlenDatum vd;
    ArrayDatum ad, av;
    vd.is_null = ad.is_null = av.is_null = false;
    vd.length = ad.length = av.length = 77;
    if (t->isArray()) ChunkIter_get_nth(&it, (int)bad, &ad, &end);
    else ChunkIter_get_nth(&it, (int)bad, false, &vd, &end);
    if (t->isArray() ? !ad.is_null || ad.length || ad.pointer : !vd.is_null || vd.length || vd.pointer)
      sim::fail("chunk:end", "row %ld of %zu has a value", (long)bad, rows);
    if (t->isVarLenArray()) {
      bool e2 = false;
      ChunkIter_get_nth_varlen(&it, (int)bad, &av, &e2);
      if (!e2 || !av.is_null || av.length || av.pointer) sim::fail("chunk:end", "row %ld of %zu has a value", (long)bad, rows);
    }
    if (!end) sim::fail("chunk:end", "row %ld of %zu is not reported as past the end", (long)bad, rows);
  }
  if (!t->isArray()) {
    int start = (int)(sel % (int64_t)rows), skip = 1 + (int)((sel >> 8) % 5);
    if (sel % 3 == 0) start = 0, skip = 1;
    ChunkIter s = h.chunk->begin_iterator(meta, start, skip);
    for (int round = 0; round < 2; ++round) {
      for (size_t i = (size_t)start; i < rows; i += (size_t)skip) {
        VarlenDatum vd;
        bool end = false;
        ChunkIter_get_next(&s, false, &vd, &end);
        check_cell(h, i, vd.pointer, vd.length, vd.is_null, end, true, "get_next");
      }
      VarlenDatum vd;
      vd.is_null = false;
      vd.length = 77;
      bool end = false;
      ChunkIter_get_next(&s, false, &vd, &end);
      if (!vd.is_null || vd.length || vd.pointer) sim::fail("chunk:end", "the iterator gives a value past the end");
      if (!end) sim::fail("chunk:end", "the iterator of chunk %d/%d/%d/%d does not end after %zu rows", h.sid, h.table, h.col, h.frag, rows);
      ChunkIter_reset(&s);
    }
    if (t->isDateTime() && t->size() < 8) {
      ChunkIter u = h.chunk->begin_iterator(meta);
      for (size_t i = 0; i < rows; ++i) {
        VarlenDatum vd;
        bool end = false;
        ChunkIter_get_next(&u, true, &vd, &end);
        if (h.d->null[i]) continue;
        int64_t first = end || vd.is_null || vd.length != 8 ? -1 : *(int64_t*)vd.pointer;
        int64_t raw;
        int16_t r2;
        int32_t r4;
        memcpy(&r2, h.d->rows[i].data(), 2);
        if (t->size() == 4) memcpy(&r4, h.d->rows[i].data(), 4);
        raw = t->size() == 4 ? r4 : r2;
        if (first != raw) sim::fail("chunk:value", "row %zu decompresses to a wrong value", i);
        end = true;
        ChunkIter_get_nth(&it, (int)i, true, &vd, &end);
        if (end || vd.is_null || vd.length != 8 || *(int64_t*)vd.pointer != raw) sim::fail("chunk:value", "row %zu decompresses to a wrong value", i);
      }
    }
  }
}

// ---- operations ------------------------------------------------------------------------------
enum K { K_USE, K_HOLD, K_REL, K_ALLOC, K_FREE, K_ONDEV, K_DROP, K_INFO, K_META, K_ZCCOL, K_CLEAR, K_DEVIO, K_CREATE, K_COPY };
const char* const kNames[] = {"useChunk", "holdChunk", "releaseChunk", "alloc", "free", "isChunkOnDevice", "deleteChunksWithPrefix",
                              "getMemoryInfo", "metadata", "getZeroCopyColumnData", "clearMemory", "deviceIO", "createChunk", "copy", nullptr};
struct Scratch {
  AbstractBuffer* b;
  int level, dev;
  std::vector<int8_t> own;
};
struct Slots {
  std::vector<std::unique_ptr<Held>> held;
  std::vector<Scratch> scratch;
};

std::unique_ptr<Held> fetch(World& w, int sid, int table, int col, int frag, int level, int dev, int via) {
  std::vector<int> tk;
  {
    Quiet q;
    tk = {sid, table};
    if (w.dropping.count(tk) || w.clearing) return nullptr;
    ++w.calls[tk];
    ++w.all_calls;
  }
  auto* t = col_type(col - 1);
  const ColData& d = w.prov[sid]->cols.at({table, col, frag});
  std::shared_ptr<Chunk_NS::Chunk> c;
  ChunkKey key;
  ColumnInfoPtr info;
  {
    Quiet q;
    key = {db_of(sid), table, col, frag};
    info = w.info[sid * 10000 + table * 100 + col];
  }
  size_t n = d.data.size(), rows = d.rows.size();
  try {
    if (via == 0)
      c = w.dm->getDataProvider()->getChunk(info, key, (MemoryLevel)level, dev, n, rows);
    else
      c = Chunk_NS::Chunk::getChunk(info, w.dm.get(), key, (MemoryLevel)level, dev, n, rows);
  } catch (const OutOfMemory&) {
    sim::count("out_of_memory");
    ++w.oom;
  } catch (const StorageError&) {
    sim::count("storage_error_seen");
    ++w.errors;
  } catch (const DeviceException&) {
    sim::count("device_error_seen");
    ++w.errors;
  }
  Quiet q;
  --w.calls[tk];
  --w.all_calls;
  if (!c) return nullptr;
  ++w.holders[tk];
  ++w.all_held;
  auto h = std::make_unique<Held>();
  h->chunk = std::move(c);
  h->sid = sid;
  h->table = table;
  h->col = col;
  h->frag = frag;
  h->level = level;
  h->dev = dev;
  h->d = &d;
  h->zc = level == MemoryLevel::CPU_LEVEL && w.prov[sid]->zero_copy.count({table, col});
  h->mem = h->chunk->getBuffer() ? h->chunk->getBuffer()->getMemoryPtr() : nullptr;
  h->imem = h->chunk->getIndexBuf() ? h->chunk->getIndexBuf()->getMemoryPtr() : nullptr;
  if (n && !h->mem) sim::fail("chunk:no-buffer", "a chunk of %zu bytes comes without memory", n);
  return h;
}
void release(World& w, std::unique_ptr<Held> h) {
  std::vector<int> tk;
  {
    Quiet q;
    tk = {h->sid, h->table};
  }
  h->chunk.reset();
  Quiet q;
  --w.holders[tk];
  --w.all_held;
  h.reset();
}

void check_info(World& w) {
  for (int l = 1; l <= (w.ngpu ? 2 : 1); ++l) {
    auto v = w.dm->getMemoryInfo((MemoryLevel)l);
    Quiet q;
    if (v.size() != (size_t)(l == 1 ? 1 : w.ngpu)) sim::fail("info:count", "level %d reports %zu pools", l, v.size());
    for (auto& mi : v) {
      size_t max = l == 1 ? w.cfg.mem.cpu.max_size + (w.cfg.mem.cpu.enable_tiered_cpu_mem ? w.cfg.mem.cpu.pmem_size : 0) : w.cfg.mem.gpu.max_size;
      if (mi.maxNumPages != max / mi.pageSize) sim::fail("info:limit", "level %d: limit of %zu pages, configured %zu bytes", l, mi.maxNumPages, max);
      if (mi.numPageAllocated * mi.pageSize > max) sim::fail("info:capacity", "level %d: %zu pages allocated, limit %zu", l, mi.numPageAllocated, max / mi.pageSize);
      std::map<size_t, size_t> slabs;
      std::set<ChunkKey> keys;
      for (auto& d : mi.nodeMemoryData) {
        if ((size_t)d.startPage != slabs[d.slabNum]) sim::fail("info:layout", "level %d: slab %zu has a hole or an overlap at page %d", l, (size_t)d.slabNum, d.startPage);
        slabs[d.slabNum] += d.numPages;
        size_t maxslab = l == 1 ? w.cfg.mem.cpu.max_slab_size : w.cfg.mem.gpu.max_slab_size;
        if (slabs[d.slabNum] * mi.pageSize > std::max(maxslab, mi.pageSize)) sim::fail("info:slab-size", "level %d: slab %zu exceeds the configured slab size", l, (size_t)d.slabNum);
        if (d.memStatus == Buffer_Namespace::USED && !keys.insert(d.chunk_key).second) sim::fail("info:duplicate", "level %d: a chunk is resident twice", l);
      }
    }
  }
}

void do_op(World& w, Slots& s, const Op& o) {
  int sid = 1 + (int)(o.a[0] % NS), table = 1 + (int)((o.a[0] >> 4) % NT), col = 1 + (int)(o.a[1] % NCOL), frag = 1 + (int)(o.a[2] % NF);
  int level = w.ngpu && (o.a[3] & 3) < 2 ? MemoryLevel::GPU_LEVEL : MemoryLevel::CPU_LEVEL;
  int dev = level == MemoryLevel::GPU_LEVEL ? (int)((o.a[3] >> 3) % w.ngpu) : 0;
  switch (o.kind) {
    case K_USE:
    case K_HOLD: {
      auto h = fetch(w, sid, table, col, frag, level, dev, (int)(o.a[3] >> 8 & 1));
      if (!h) break;
      verify(w, *h, true, o.a[4]);
      if (o.kind == K_HOLD) {
        Quiet q;
        s.held.push_back(std::move(h));
        break;
      }
      sim::yield_point();
      verify(w, *h, true, o.a[4] + 1);
      release(w, std::move(h));
      break;
    }
    case K_REL: {
      std::unique_ptr<Held> h;
      {
        Quiet q;
        if (s.held.empty()) break;
        size_t i = (size_t)o.a[1] % s.held.size();
        h = std::move(s.held[i]);
        s.held.erase(s.held.begin() + i);
      }
      verify(w, *h, true, o.a[4]);
      release(w, std::move(h));
      break;
    }
    case K_ALLOC: {
      size_t n = 1 + (size_t)o.a[4] % 2000;
      {
        Quiet q;
        if (w.clearing) break;
        ++w.all_calls;
      }
      AbstractBuffer* b = nullptr;
      try {
        b = w.dm->getBufferProvider()->alloc((MemoryLevel)level, dev, n);
      } catch (const OutOfMemory&) {
        sim::count("out_of_memory");
        ++w.oom;
      }
      Quiet q;
      --w.all_calls;
      if (!b) break;
      ++w.all_held;
      Scratch x{b, level, dev, {}};
      for (size_t i = 0; i < n; ++i) x.own.push_back((int8_t)Rng::mix(o.id * 77777 + i));
      if (b->reservedSize() < n) sim::fail("scratch:short", "%zu of %zu bytes reserved", b->reservedSize(), n);
      if (b->getType() != level || b->getDeviceId() != dev) sim::fail("scratch:place", "the buffer lies at level %d device %d, requested %d/%d", b->getType(), b->getDeviceId(), level, dev);
      if (level == MemoryLevel::GPU_LEVEL) {
        for (bool done = false; !done;) try {
          if (o.a[4] & 1) w.dm->getBufferProvider()->copyToDevice(b->getMemoryPtr(), x.own.data(), n, dev);
          else w.dm->getBufferProvider()->copyToDeviceAsyncIfPossible(b->getMemoryPtr(), x.own.data(), n, dev);
          done = true;
        } catch (const DeviceException&) {
        }
      }
      else memcpy(b->getMemoryPtr(), x.own.data(), n);
      s.scratch.push_back(std::move(x));
      break;
    }
    case K_FREE: {
      {
        Quiet q;
        if (s.scratch.empty() || w.clearing) break;
        ++w.all_calls;
      }
      Scratch x = std::move(s.scratch.back());
      s.scratch.pop_back();
      {
        std::vector<int8_t> back(x.own.size());
        if (x.level == MemoryLevel::GPU_LEVEL) w.dm->getBufferProvider()->copyFromDevice(back.data(), x.b->getMemoryPtr(), back.size(), x.dev);
        else memcpy(back.data(), x.b->getMemoryPtr(), back.size());
        Quiet q;
        if (back != x.own) sim::fail("scratch:content", "a scratch buffer at level %d lost its content", x.level);
      }
      w.dm->getBufferProvider()->free(x.b);
      Quiet q;
      --w.all_calls;
      --w.all_held;
      break;
    }
    case K_ONDEV: {
      bool held = false;
      {
        Quiet q;
        for (auto& h : s.held) held |= h->sid == sid && h->table == table && h->col == col && h->frag == frag && h->level == level && h->dev == dev && !h->zc && !h->d->data.empty();
      }
      Chunk_NS::Chunk c(w.info[sid * 10000 + table * 100 + col]);
      bool r = c.isChunkOnDevice(w.dm.get(), {db_of(sid), table, col, frag}, (MemoryLevel)level, dev);
      if (held && !r) sim::fail("chunk:not-resident", "chunk %d/%d/%d/%d is held but reported as not resident", sid, table, col, frag);
      break;
    }
    case K_DROP: {
      std::vector<int> tk;
      bool idle;
      {
        Quiet q;
        tk = {sid, table};
        if (w.calls[tk] || w.dropping.count(tk) || w.clearing) break;
        w.dropping.insert(tk);
        idle = w.holders[tk] == 0;
        ++w.all_calls;
      }
      int before = w.prov[sid]->drops[table];
      bool all = o.a[4] & 1;
      if (all) w.dm->deleteChunksWithPrefix({db_of(sid), table});
      else w.dm->deleteChunksWithPrefix({db_of(sid), table}, (MemoryLevel)level);
      Quiet q;
      if (all && w.prov[sid]->drops[table] != before + 1) sim::fail("route:drop", "the storage saw %d of 1 drops", w.prov[sid]->drops[table] - before);
      if (idle)
        for (int c = 1; c <= NCOL; ++c)
          for (int f = 1; f <= NF; ++f)
            for (int l = 1; l <= (w.ngpu ? 2 : 1); ++l)
              for (int dv = 0; dv < (l == 2 ? w.ngpu : 1); ++dv) {
                if (!all && l != level) continue;
                ChunkKey k{db_of(sid), table, c, f};
                if (col_type(c - 1)->isVarLen()) {
                  for (int x = 1; x <= 2; ++x) {
                    auto k2 = k;
                    k2.push_back(x);
                    if (w.dm->isBufferOnDevice(k2, (MemoryLevel)l, dv)) sim::fail("chunk:not-deleted", "part %d of chunk %d/%d/%d/%d is still at level %d after its table was dropped", x, sid, table, c, f, l);
                  }
                } else if (w.dm->isBufferOnDevice(k, (MemoryLevel)l, dv)) {
                  sim::fail("chunk:not-deleted", "chunk %d/%d/%d/%d is still at level %d after its table was dropped", sid, table, c, f, l);
                }
              }
      w.dropping.erase(tk);
      --w.all_calls;
      sim::count("dropped_tables");
      break;
    }
    case K_INFO: {
      {
        Quiet q;
        if (w.clearing) break;
        ++w.all_calls;
      }
      check_info(w);
      Quiet q;
      --w.all_calls;
      break;
    }
    case K_META: {
      auto m = w.dm->getDataProvider()->getTableMetadata(db_of(sid), table);
      auto* d = w.dm->getDataProvider()->getDictMetadata(sid << 24 | 3);
      Quiet q;
      if (m != w.prov[sid]->meta[table - 1]) sim::fail("route:metadata", "table %d/%d: metadata of another table", sid, table);
      if (d != w.prov[sid]->dict.get()) sim::fail("route:dict", "dictionary of storage %d: another dictionary", sid);
      if (w.dm->getDictMetadata((NS + 2) << 24 | 1)) sim::fail("route:dict", "a dictionary of an unregistered storage exists");
      break;
    }
    case K_ZCCOL: {
      auto t = w.dm->getDataProvider()->getZeroCopyColumnData(ColumnRef(db_of(sid), table, col));
      Quiet q;
      bool want = w.prov[sid]->zero_copy.count({table, col}) && !col_type(col - 1)->isVarLen();
      if ((bool)t != want) sim::fail("route:zero-copy", "column %d/%d/%d: zero-copy access %s", sid, table, col, want ? "lost" : "invented");
      if (t) {
        std::vector<int8_t> all;
        for (int f = 1; f <= NF; ++f) {
          auto& d = w.prov[sid]->cols.at({table, col, f}).data;
          all.insert(all.end(), d.begin(), d.end());
        }
        if (t->getSize() != all.size() || memcmp(t->getMemoryPtr(), all.data(), all.size()) || t->getType() != col_type(col - 1)) sim::fail("route:zero-copy", "column %d/%d/%d: wrong data", sid, table, col);
      }
      break;
    }
    case K_CLEAR: {
      bool held;
      {
        Quiet q;
        if (w.all_calls || w.clearing) break;
        held = w.all_held;
        w.clearing = true;
      }
      if (level == MemoryLevel::CPU_LEVEL || w.ngpu) w.dm->clearMemory((MemoryLevel)level);
      auto v = w.dm->getMemoryInfo((MemoryLevel)level);
      Quiet q;
      for (auto& mi : v)
        if (!held && (mi.numPageAllocated || !mi.nodeMemoryData.empty())) sim::fail("info:not-cleared", "level %d: %zu pages allocated after clearing", level, mi.numPageAllocated);
      w.clearing = false;
      sim::count(held ? "cleared_in_use" : "cleared");
      break;
    }
    case K_CREATE: {
      // a chunk of a new table is built in memory, as an import would
      ChunkKey key;
      ColumnInfoPtr info;
      const ColData* d;
      {
        Quiet q;
        if (w.clearing) break;
        ++w.all_calls;
        key = {db_of(sid), 1000 + o.id, col, frag};
        d = &w.prov[sid]->cols.at({table, col, frag});
        info = std::make_shared<ColumnInfo>(db_of(sid), 1000 + o.id, col, "c", col_type(col - 1), false);
      }
      auto* t = col_type(col - 1);
      bool ok = true;
      {
        Chunk_NS::Chunk c(info);
        try {
          c.createChunkBuffer(w.dm.get(), key, MemoryLevel::CPU_LEVEL, 0, o.a[4] & 1 ? 512 : 0);
          c.initEncoder();
          size_t half = d->data.size() / 2, ihalf = d->index.size() / 2 * 4;
          if (half) c.getBuffer()->append((int8_t*)d->data.data(), half);
          if (d->data.size() > half) c.getBuffer()->append((int8_t*)d->data.data() + half, d->data.size() - half);
          if (t->isVarLen()) {
            if (ihalf) c.getIndexBuf()->append((int8_t*)d->index.data(), ihalf);
            c.getIndexBuf()->append((int8_t*)d->index.data() + ihalf, d->index.size() * 4 - ihalf);
          }
        } catch (const OutOfMemory&) {
          ok = false;
          ++w.oom;
        }
        if (ok) {
          Held h;
          {
            Quiet q;
            h.sid = sid;
            h.table = 1000 + o.id;
            h.col = col;
            h.frag = frag;
            h.level = MemoryLevel::CPU_LEVEL;
            h.dev = 0;
            h.d = d;
            h.mem = c.getBuffer()->getMemoryPtr();
            h.imem = c.getIndexBuf() ? c.getIndexBuf()->getMemoryPtr() : nullptr;
            h.chunk = std::shared_ptr<Chunk_NS::Chunk>(&c, [](Chunk_NS::Chunk*) {});
            if (!c.isChunkOnDevice(w.dm.get(), key, MemoryLevel::CPU_LEVEL, 0)) sim::fail("chunk:not-resident", "a created chunk is not resident");
            if (t->isString() && d->rows.size()) {
              // how many rows fit into a byte limit
              DataBlockPtr src;
              auto* rows = const_cast<std::vector<std::string>*>(&d->rows);
              src.stringsPtr = rows;
              size_t start = (size_t)(o.a[3] >> 4) % rows->size(), n = rows->size() - start, limit = (size_t)o.a[4] % 300, sum = 0, fit = 0;
              while (fit < n && sum + (*rows)[start + fit].size() <= limit) sum += (*rows)[start + fit++].size();
              size_t got = c.getNumElemsForBytesInsertData(src, n, start, limit);
              if (got != fit) sim::fail("chunk:fit", "%zu rows are said to fit into %zu bytes, %zu do", got, limit, fit);
            }
          }
          verify(w, h, true, o.a[4]);
        }
      }
      w.dm->deleteChunksWithPrefix({db_of(sid), 1000 + o.id}, MemoryLevel::CPU_LEVEL);
      Quiet q;
      Chunk_NS::Chunk probe(info);
      if (probe.isChunkOnDevice(w.dm.get(), key, MemoryLevel::CPU_LEVEL, 0)) sim::fail("chunk:not-deleted", "a deleted chunk is still resident");
      --w.all_calls;
      sim::count("created_chunks");
      break;
    }
    case K_COPY: {
      // from a held chunk or scratch buffer into a scratch buffer, across levels
      if (s.scratch.empty()) break;
      auto& x = s.scratch[(size_t)o.a[1] % s.scratch.size()];
      AbstractBuffer* src = nullptr;
      const std::vector<int8_t>* want = nullptr;
      {
        Quiet q;
        if (w.clearing) break;
        if (!s.held.empty()) {
          auto& h = s.held[(size_t)o.a[2] % s.held.size()];
          src = h->chunk->getBuffer();
          want = &h->d->data;
        }
        if (!src || src->size() != want->size() || want->empty() || want->size() > x.own.size()) break;
        ++w.all_calls;
      }
      bool ok = true;
      try {
        w.dm->copy(x.b, src);
      } catch (const DeviceException&) {
        ok = false;
      }
      Quiet q;
      --w.all_calls;
      if (ok) std::copy(want->begin(), want->end(), x.own.begin());
      else memcpy(x.own.data(), x.b->getMemoryPtr(), x.own.size());
      sim::count("copies");
      break;
    }
    case K_DEVIO: {
      if (!w.ngpu || s.scratch.empty()) break;
      auto& x = s.scratch[(size_t)o.a[1] % s.scratch.size()];
      if (x.level != MemoryLevel::GPU_LEVEL) break;
      auto* bp = w.dm->getBufferProvider();
      size_t off = (size_t)o.a[4] % x.own.size(), n = 1 + (size_t)o.a[2] % (x.own.size() - off);
      int8_t v = (int8_t)(o.a[3] >> 9);
      if (o.a[3] & 1) {
        bp->zeroDeviceMem(x.b->getMemoryPtr() + off, n, x.dev);
        v = 0;
      } else {
        bp->setDeviceMem(x.b->getMemoryPtr() + off, (unsigned char)v, n, x.dev);
      }
      Quiet q;
      memset(x.own.data() + off, v, n);
      break;
    }
  }
  for (auto& h : s.held) verify(w, *h, false, 0);
}

void gen(Rng& r, Plan& p) {
  p.set("threads", r.range(1, 4));
  p.set("seed", r.below(1000000));
  p.set("pages", r.range(8, 60));
  p.set("minslab", r.range(1, 12));
  p.set("maxslab", r.range(6, 40));
  p.set("odd", r.below(512));
  p.set("tiered", r.chance(0.25));
  p.set("gpus", r.chance(0.4) ? r.range(1, 2) : 0);
  p.set("gpages", r.range(8, 40));
  p.set("rows", r.chance(0.5) ? r.range(1, 60) : r.range(60, 400));
  p.set("zc", r.chance(0.4) ? r.range(1, 8) : 0);
  bool faults = r.chance(0.4);
  p.set("f_err", faults && r.chance(0.7) ? r.range(5, 80) : 0);
  p.set("f_part", faults && r.chance(0.4) ? r.range(5, 50) : 0);
  p.set("f_galloc", faults && r.chance(0.3) ? r.range(5, 60) : 0);
  p.set("f_gcopy", faults && r.chance(0.3) ? r.range(5, 40) : 0);
  std::vector<std::pair<int, int>> w = {{K_USE, 25}, {K_HOLD, 12}, {K_REL, 11}, {K_ALLOC, 6}, {K_FREE, 5}, {K_ONDEV, 4}, {K_DROP, 4}, {K_INFO, 2}, {K_META, 2}, {K_ZCCOL, 2}, {K_CLEAR, 2}, {K_DEVIO, 2}, {K_CREATE, 4}, {K_COPY, 2}};
  for (auto& x : w)
    if (x.first != K_USE && r.chance(0.25)) x.second = 0;
  int total = 0;
  for (auto& x : w) total += x.second;
  int ops = (int)r.range(4, 50), hot = r.chance(0.4) ? (int)r.range(1, 3) : 0;
  int64_t hs[3], hc[3];
  for (int i = 0; i < 3; ++i) hs[i] = r.below(1 << 10), hc[i] = r.chance(0.5) ? (r.chance(0.5) ? 8 : 9) : r.below(NCOL);
  for (int i = 0; i < ops; ++i) {
    int v = (int)r.below(total), k = 0;
    for (auto& x : w) {
      if (v < x.second) {
        k = x.first;
        break;
      }
      v -= x.second;
    }
    int j = hot ? (int)r.below(hot) : 0;
    p.add((int)r.below(p.get("threads")), k, hot ? hs[j] : r.below(1 << 10), hot ? hc[j] : r.below(NCOL), r.below(hot ? 2 : 1000), r.below(1 << 20), r.below(1 << 20));
  }
}

// Attach simulated devices the way the constructor would have found real ones.
template <class D>
auto attach_gpu(D& d, const Config& cfg, FakeGpu* g, int) -> decltype((void)d.device_mgrs_, (void)d.bufferMgrs_, (void)d.levelSizes_, (void)d.has_gpus_, (void)d.current_device_mgr_, d.populateMgrs(cfg, 0), true) {
  for (int l = (int)d.bufferMgrs_.size() - 1; l >= 0; --l)
    for (auto* m : d.bufferMgrs_[l]) delete m;
  d.bufferMgrs_.clear();
  d.levelSizes_.clear();
  d.device_mgrs_[GpuMgrPlatform::CUDA] = std::unique_ptr<GpuMgr>(g);
  d.has_gpus_ = true;
  d.current_device_mgr_ = g;
  d.populateMgrs(cfg, 0);
  return true;
}
template <class D>
bool attach_gpu(D&, const Config&, FakeGpu* g, long) {
  delete g;
  return false;
}

void run(const Plan& p) {
  World w;
  W = &w;
  {
    Quiet q;
    Rng r((uint64_t)p.get("seed"));
    size_t page = 512;
    w.cfg.exec.cpu_only = true;
    auto& m = w.cfg.mem;
    m.cpu.max_size = page * (size_t)p.get("pages") + (size_t)p.get("odd");
    m.cpu.min_slab_size = page * std::min(p.get("minslab"), p.get("maxslab")) + (size_t)p.get("odd") % 100;
    m.cpu.max_slab_size = page * (size_t)p.get("maxslab") + (size_t)p.get("odd") % 300;
    m.cpu.enable_tiered_cpu_mem = p.get("tiered");
    m.cpu.pmem_size = p.get("tiered") ? page * (size_t)p.get("pages") : 0;
    m.gpu.max_size = page * (size_t)p.get("gpages");
    m.gpu.min_slab_size = m.cpu.min_slab_size;
    m.gpu.max_slab_size = m.cpu.max_slab_size;
    w.dm = std::make_unique<DataMgr>(w.cfg, 0);
    w.ngpu = (int)p.get("gpus");
    if (w.ngpu) {
      auto* g = new FakeGpu;
      g->ndev = w.ngpu;
      if (attach_gpu(*w.dm, w.cfg, g, 0)) w.gpu = g;
      else w.ngpu = 0;
    }
    // largest chunk that must fit
    size_t cap = std::min(m.cpu.max_slab_size, m.cpu.max_size) / page * page;
    if (w.ngpu) cap = std::min(cap, std::min(m.gpu.max_slab_size, m.gpu.max_size) / page * page);
    for (int s = 1; s <= NS; ++s) {
      auto pr = std::make_shared<Prov>();
      pr->sid = s;
      w.prov[s] = pr;
      for (int t = 1; t <= NT; ++t) {
        auto ti = std::make_shared<TableFragmentsInfo>();
        pr->meta.push_back(ti);
        for (int c = 1; c <= NCOL; ++c) {
          w.info[s * 10000 + t * 100 + c] = std::make_shared<ColumnInfo>(db_of(s), t, c, "c", col_type(c - 1), false);
          for (int f = 1; f <= NF; ++f) {
            int rows = (int)r.below((uint64_t)p.get("rows") + 1);
            size_t width = col_type(c - 1)->isVarLen() ? 40 : (size_t)col_type(c - 1)->size();
            // both parts of a varlen chunk are resident at the same time
            rows = (int)std::min<size_t>((size_t)rows, (cap / 4) / width);
            pr->cols[{t, c, f}] = make_col(r, c - 1, rows);
          }
        }
      }
      std::string dir;
      pr->dict = std::make_shared<DictDescriptor>(DictRef{s, 3}, "d", 32, false, 1, dir, true);
      for (int i = 0; i < p.get("zc"); ++i) {
        int t = (int)r.range(1, NT), c = (int)r.range(1, NCOL);
        pr->zero_copy.insert({t, c});
      }
      pr->err_p = p.get("f_err") * 0.001;
      pr->part_p = p.get("f_part") * 0.001;
      w.dm->getPersistentStorageMgr()->registerDataProvider(s, pr);
      if (!w.dm->getPersistentStorageMgr()->hasDataProvider(s) || w.dm->getPersistentStorageMgr()->getDataProvider(s) != pr)
        sim::fail("route:register", "storage %d is not registered", s);
    }
    if (w.dm->getPersistentStorageMgr()->hasDataProvider(NS + 1)) sim::fail("route:register", "an unknown storage is registered");
    if (w.gpu) {
      w.gpu->alloc_p = p.get("f_galloc") * 0.001;
      w.gpu->copy_p = p.get("f_gcopy") * 0.001;
    }
  }
  sim::enable_faults(true);
  int nthr = (int)p.get("threads");
  std::vector<Slots> slots(nthr);
  run_threads(p, nthr, [&](int t, const Op& o) { do_op(w, slots[t], o); });
  sim::enable_faults(false);
  for (auto& s : slots) {
    while (!s.held.empty()) {
      auto h = std::move(s.held.back());
      s.held.pop_back();
      verify(w, *h, true, 3);
      release(w, std::move(h));
    }
    for (auto& x : s.scratch) w.dm->free(x.b);
  }
  Quiet q;
  check_info(w);
  // Nothing is held and faults stopped: every chunk is served, from every level.
  size_t n = 0;
  for (int s = 1; s <= NS; ++s)
    for (int t = 1; t <= NT; ++t)
      for (int c = 1; c <= NCOL; ++c)
        for (int f = 1; f <= NF; ++f) {
          if (n++ % 7 != (size_t)p.get("seed") % 7) continue;
          for (int l = w.ngpu ? 2 : 1; l >= 1; --l) {
            auto h = fetch(w, s, t, c, f, l, 0, 0);
            if (!h) {
              if (p.get("f_galloc") && l == 2) continue;  // the device may have settled for smaller slabs
              sim::fail("chunk:not-served", "chunk %d/%d/%d/%d cannot be fetched at level %d although nothing is held", s, t, c, f, l);
            }
            verify(w, *h, true, 0);
            Chunk_NS::Chunk probe(w.info[s * 10000 + t * 100 + c]);
            if (!h->zc && !h->d->data.empty() && !probe.isChunkOnDevice(w.dm.get(), {db_of(s), t, c, f}, (MemoryLevel)l, 0))
              sim::fail("chunk:not-resident", "chunk %d/%d/%d/%d is held but reported as not resident at level %d", s, t, c, f, l);
            release(w, std::move(h));
          }
        }
  for (int l = w.ngpu ? 2 : 1; l >= 1; --l) {
    auto mi = w.dm->getMemoryInfo((MemoryLevel)l);
    size_t big = 0;
    std::map<size_t, size_t> slab;
    for (auto& d : mi[0].nodeMemoryData) big = std::max(big, slab[d.slabNum] += d.numPages);
    if (big) {
      AbstractBuffer* b = nullptr;
      try {
        b = w.dm->alloc((MemoryLevel)l, 0, big * mi[0].pageSize);
      } catch (const OutOfMemory&) {
        sim::fail("chunk:leaked-pin", "level %d: nothing is held, but a slab of %zu pages cannot be reclaimed", l, big);
      }
      w.dm->free(b);
    }
  }
  for (int l = w.ngpu ? 2 : 1; l >= 1; --l) w.dm->clearMemory((MemoryLevel)l);
  w.dm.reset();
  if (w.tokens) sim::fail("chunk:token-leak", "%d zero-copy tokens still alive", w.tokens);
}
sim::Scenario s11 = {"C11", "chunks", nullptr, gen, run, kNames, 40000000};
sim::Registrar r11(&s11);
}  // namespace
