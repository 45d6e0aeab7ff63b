// C13: chunk statistics: what encoders and chunk metadata report about the data of a chunk,
// however the data was split among parallel workers.
#include "harness.h"

#include <cfloat>
#include <cmath>
#include <limits>

#include "DataMgr/AbstractBuffer.h"
#include "DataMgr/ArrayNoneEncoder.h"
#include "DataMgr/Encoder.h"
#include "DataMgr/FixedLengthArrayNoneEncoder.h"
#include "DataMgr/MemoryLevel.h"
#include "IR/Context.h"

using namespace hs;
using Data_Namespace::AbstractBuffer;
using Data_Namespace::MemoryLevel;
using hdk::ir::TimeUnit;
using hdk::ir::Type;

namespace {
hdk::ir::Context& ctx() { return hdk::ir::Context::defaultCtx(); }

struct Buf : AbstractBuffer {
  explicit Buf(const Type* t) : AbstractBuffer(0, t) {}
  Buf() : AbstractBuffer(0) {}
  void read(int8_t* const, const size_t, const size_t, const MemoryLevel, const int) override {}
  void write(int8_t*, const size_t, const size_t, const MemoryLevel, const int) override {}
  void reserve(size_t) override {}
  void append(int8_t*, const size_t, const MemoryLevel, const int) override {}
  int8_t* getMemoryPtr() override { return nullptr; }
  size_t pageCount() const override { return 0; }
  size_t pageSize() const override { return 0; }
  size_t reservedSize() const override { return 0; }
  MemoryLevel getType() const override { return Data_Namespace::CPU_LEVEL; }
  using AbstractBuffer::setSize;
};

enum Kind { INT, DICT, FP, FIXED, DAYS, STR, VARR, FARR };
struct TI {
  const Type* type;
  Kind kind;
  int w;              // width of the stored value (element width for arrays)
  Kind ek = INT;      // element kind of arrays
  int n = 0;          // elements of a fixed array
};
std::vector<TI> make_types() {
  auto& c = ctx();
  return {
      {c.int8(), INT, 1}, {c.int16(), INT, 2}, {c.int32(), INT, 4}, {c.int64(), INT, 8}, {c.boolean(), INT, 1},
      {c.decimal64(12, 3), INT, 8}, {c.int32(false), INT, 4}, {c.int16(false), INT, 2},
      {c.extDict(c.text(), 5, 1), DICT, 1}, {c.extDict(c.text(), 5, 2), DICT, 2}, {c.extDict(c.text(), 5, 4), DICT, 4},
      {c.fp32(), FP, 4}, {c.fp64(), FP, 8},
      {c.time16(), FIXED, 2}, {c.time32(), FIXED, 4}, {c.time32(TimeUnit::kMilli), FIXED, 4}, {c.time64(), INT, 8},
      {c.interval16(), FIXED, 2}, {c.interval32(), FIXED, 4}, {c.interval64(), INT, 8},
      {c.timestamp(TimeUnit::kSecond), INT, 8}, {c.timestamp(TimeUnit::kNano), INT, 8},
      {c.date16(), DAYS, 2}, {c.date32(), DAYS, 4}, {c.date64(TimeUnit::kDay), DAYS, 8}, {c.date64(TimeUnit::kSecond), INT, 8},
      {c.date32(TimeUnit::kSecond), FIXED, 4},
      {c.text(), STR, 0}, {c.varChar(20), STR, 0},
      {c.arrayVarLen(c.int8()), VARR, 1}, {c.arrayVarLen(c.int16()), VARR, 2}, {c.arrayVarLen(c.int32()), VARR, 4},
      {c.arrayVarLen(c.int64()), VARR, 8}, {c.arrayVarLen(c.boolean()), VARR, 1}, {c.arrayVarLen(c.fp32()), VARR, 4, FP},
      {c.arrayVarLen(c.fp64()), VARR, 8, FP}, {c.arrayVarLen(c.timestamp()), VARR, 8}, {c.arrayVarLen(c.time64()), VARR, 8},
      {c.arrayVarLen(c.extDict(c.text(), 5, 4)), VARR, 4}, {c.arrayVarLen(c.decimal64(9, 1)), VARR, 8},
      {c.arrayFixed(3, c.int8()), FARR, 1, INT, 3}, {c.arrayFixed(2, c.int16()), FARR, 2, INT, 2},
      {c.arrayFixed(3, c.int32()), FARR, 4, INT, 3}, {c.arrayFixed(1, c.int64()), FARR, 8, INT, 1},
      {c.arrayFixed(4, c.boolean()), FARR, 1, INT, 4}, {c.arrayFixed(2, c.fp32()), FARR, 4, FP, 2},
      {c.arrayFixed(3, c.fp64()), FARR, 8, FP, 3}, {c.arrayFixed(2, c.timestamp()), FARR, 8, INT, 2},
      {c.arrayFixed(2, c.extDict(c.text(), 5, 4)), FARR, 4, INT, 2},
  };
}
const Type* elem_of(const TI& t) { return t.kind >= VARR ? t.type->as<hdk::ir::ArrayBaseType>()->elemType() : t.type; }
bool is_fp(const TI& t) { return t.kind == FP || t.ek == FP; }
bool is_bool(const TI& t) { return elem_of(t)->isBoolean(); }

int64_t null_of(const TI& t) {  // as stored
  if (t.kind == DICT && t.w == 1) return 255;
  if (t.kind == DICT && t.w == 2) return 65535;
  switch (t.w) {
    case 1: return INT8_MIN;
    case 2: return INT16_MIN;
    case 4: return INT32_MIN;
    default: return INT64_MIN;
  }
}
int64_t null_array_of(const TI& t) {
  if (t.kind == DICT && t.w <= 2) return t.w == 1 ? 254 : 65534;
  return null_of(t) + 1;
}
double fp_null(const TI& t) { return t.w == 4 ? (double)FLT_MIN : DBL_MIN; }

struct Val {
  int64_t i = 0;
  double d = 0;
  bool null = false;
};
Val rnd_val(Rng& r, const TI& t, double null_p, bool stored) {
  Val v;
  if (r.chance(null_p)) {
    v.null = true;
    return v;
  }
  int mode = (int)r.below(6);
  if (is_fp(t)) {
    if (mode == 0) v.d = (double)r.range(-5, 5);
    else if (mode == 1) v.d = t.w == 4 ? (double)FLT_MAX : DBL_MAX;
    else if (mode == 2) v.d = t.w == 4 ? (double)-FLT_MAX : -DBL_MAX;
    else if (mode == 3) v.d = (double)(float)(r.range(-1000000, 1000000) / 7.0);
    else if (mode == 4) v.d = (double)(float)(r.chance(0.5) ? 1e30 : -1e30);
    else v.d = -(double)r.range(0, 9) / 4.0;
    return v;
  }
  if (is_bool(t)) {
    v.i = (int64_t)r.below(2);
    return v;
  }
  int64_t lo, hi;
  if (t.kind == DICT) {
    lo = 0;
    hi = t.w == 1 ? 254 : t.w == 2 ? 65534 : INT32_MAX;
  } else {
    lo = null_of(t) + 1;
    hi = -lo;
  }
  if (t.kind == DAYS) {  // in days; date64 must also fit in seconds
    if (t.w == 8) lo = -2000000000LL, hi = 2000000000LL;
  }
  switch (mode) {
    case 0: v.i = std::min(hi, std::max(lo, r.range(-3, 3))); break;
    case 1: v.i = hi - (int64_t)r.below(3); break;
    case 2: v.i = lo + (int64_t)r.below(3); break;
    case 3: v.i = std::min(hi, std::max(lo, r.range(-300, 300))); break;
    case 4: v.i = std::min(hi, r.range(1, 100000)); break;
    default: v.i = std::max(lo, -r.range(1, 100000)); break;
  }
  if (v.i == null_of(t) || (t.kind == FARR && v.i == null_array_of(t))) v.i = std::min<int64_t>(hi, 1);
  if (!stored && t.kind == DAYS) {
    // the same number read as seconds must not be the null marker of the unencoded form
    v.i = v.i * 86400;
    if (v.i == null_of(t)) v.i += 86400;
  }
  return v;
}
void store(std::string& out, const TI& t, const Val& v, int w, bool fp) {
  if (fp) {
    double d = v.null ? fp_null(t) : v.d;
    if (w == 4) {
      float f = v.null ? FLT_MIN : (float)d;
      out.append((char*)&f, 4);
    } else {
      out.append((char*)&d, 8);
    }
    return;
  }
  int64_t i = v.null ? null_of(t) : v.i;
  out.append((char*)&i, (size_t)w);
}

struct Model {
  bool any = false;
  int64_t mn = 0, mx = 0;
  double dn = 0, dx = 0;
  bool nulls = false;
  bool nulls_unknown = false;
  bool minmax_unknown = false;
  void add(const TI& t, const Val& v) {
    if (v.null) {
      nulls = true;
      return;
    }
    if (is_fp(t)) {
      dn = any ? std::min(dn, v.d) : v.d;
      dx = any ? std::max(dx, v.d) : v.d;
    } else {
      mn = any ? std::min(mn, v.i) : v.i;
      mx = any ? std::max(mx, v.i) : v.i;
    }
    any = true;
  }
  void merge(const TI& t, const Model& o) {
    nulls |= o.nulls;
    nulls_unknown |= o.nulls_unknown;
    if (!o.any) return;
    Val v;
    v.i = o.mn, v.d = o.dn;
    add(t, v);
    v.i = o.mx, v.d = o.dx;
    add(t, v);
  }
};
int64_t get_i(const Datum& d, const TI& t) {
  auto e = elem_of(t);
  if (e->isDate() || e->isTime() || e->isTimestamp() || e->isInterval()) return d.bigintval;
  if (t.kind == DICT) return d.intval;
  switch (t.w) {
    case 1: return d.tinyintval;
    case 2: return d.smallintval;
    case 4: return d.intval;
    default: return d.bigintval;
  }
}
double get_d(const Datum& d, const TI& t) { return t.w == 4 ? (double)d.floatval : d.doubleval; }

void check_stats(const TI& t, const Model& m, const ChunkStats& st, const char* what) {
  if (!m.nulls_unknown && st.has_nulls != m.nulls)
    sim::fail("stats:has-nulls", "%s of %s: has_nulls=%d, expected %d", what, t.type->toString().c_str(), st.has_nulls, m.nulls);
  if (t.kind == STR || m.minmax_unknown) return;
  if (is_fp(t)) {
    double a = get_d(st.min, t), b = get_d(st.max, t);
    if (!m.any) {
      if (t.kind == FP && !(a > b)) sim::fail("stats:empty", "%s of %s: range [%g, %g] without any value", what, t.type->toString().c_str(), a, b);
      return;
    }
    if (a != m.dn || b != m.dx)
      sim::fail("stats:range", "%s of %s: range [%g, %g], expected [%g, %g]", what, t.type->toString().c_str(), a, b, m.dn, m.dx);
  } else {
    int64_t a = get_i(st.min, t), b = get_i(st.max, t);
    if (!m.any) {
      if (t.kind < STR && !(a > b))
        sim::fail("stats:empty", "%s of %s: range [%ld, %ld] without any value", what, t.type->toString().c_str(), (long)a, (long)b);
      return;
    }
    if (a != m.mn || b != m.mx)
      sim::fail("stats:range", "%s of %s: range [%ld, %ld], expected [%ld, %ld]", what, t.type->toString().c_str(), (long)a, (long)b,
                (long)m.mn, (long)m.mx);
  }
}

struct Part {
  std::unique_ptr<Buf> buf;
  std::unique_ptr<Encoder> own;  // as created by the executor: no buffer
  Encoder* enc = nullptr;
  Model m;
  size_t elems = 0;
};
enum { RAW, ENCODED, SCALAR, SCALARD, COPY, SYNC, FILEIO, RESET, RESETTO, META, LAZY, OVERFLOW_, BIG };
const char* kNames[] = {"raw", "encoded", "scalar", "scalard", "copy", "sync", "file", "reset", "resetto", "meta", "lazy", "overflow", "big", nullptr};

std::unique_ptr<Part> make_part(const TI& t, bool own) {
  auto p = std::make_unique<Part>();
  if (own && t.kind < STR) {
    p->own.reset(Encoder::Create(nullptr, t.type));
    p->enc = p->own.get();
  } else {
    p->buf = std::make_unique<Buf>(t.type);
    p->enc = p->buf->getEncoder();
  }
  return p;
}
// The statistics through every way of asking for them.
void check_part(const TI& t, Part& p, const char* what) {
  if (t.kind >= VARR && p.m.minmax_unknown && !p.m.any && !p.m.nulls) return;
  auto md = p.enc->getMetadata(t.type);
  {
    Quiet q;
    if (md->type() != t.type) sim::fail("stats:type", "%s: metadata of another type", what);
    check_stats(t, p.m, md->chunkStats(), what);
    if (!md->hasComputedChunkStats()) sim::fail("stats:lazy", "computed statistics are reported as not computed");
  }
  if (p.buf) {
    auto md2 = p.enc->getMetadata();
    Quiet q;
    check_stats(t, p.m, md2->chunkStats(), what);
    if (md2->type() != t.type || md2->numElements() != p.elems || md2->numBytes() != p.buf->size())
      sim::fail("stats:counts", "%s of %s: %zu elements and %zu bytes, expected %zu and %zu", what, t.type->toString().c_str(),
                md2->numElements(), md2->numBytes(), p.elems, p.buf->size());
  }
  if (t.kind < STR) {
    ChunkStats st;
    p.enc->fillChunkStats(st, t.type);
    Quiet q;
    check_stats(t, p.m, st, what);
  }
}
void set_elems(Part& p, size_t n, size_t bytes) {
  p.elems += n;
  p.enc->setNumElems(p.elems);
  if (p.buf) p.buf->setSize(p.buf->size() + bytes);
}

struct World {
  TI t;
  std::vector<std::vector<std::unique_ptr<Part>>> parts;  // per thread
};

void do_op(World& w, int thr, const Op& o) {
  const TI& t = w.t;
  auto& parts = w.parts[thr];
  Part& p = *parts[(size_t)o.a[0] % parts.size()];
  Rng r(Rng::mix((uint64_t)o.a[1]));
  size_t n = (size_t)o.a[2];
  double np = o.a[3] == 0 ? 0.0 : o.a[3] == 1 ? 0.1 : o.a[3] == 2 ? 0.6 : 1.0;
  switch (o.kind) {
    case RAW: case ENCODED: case BIG: {
      if (o.kind == BIG) n = n * 40 + 1000;
      if (t.kind == STR) {
        std::vector<std::string> v;
        size_t start, cnt;
        {
          Quiet q;
          start = r.below(4);
          cnt = n;
          for (size_t i = 0; i < start + cnt + 2; ++i) {
            bool e = r.chance(np);
            if (i < start || i >= start + cnt) e = r.chance(0.5);
            v.push_back(e ? "" : str("s%d", (int)r.below(5)));
            if (e && i >= start && i < start + cnt) p.m.nulls = true;
          }
        }
        p.enc->updateStats(&v, start, cnt);
        set_elems(p, cnt, 5 * cnt);
        break;
      }
      if (t.kind >= VARR) {
        std::vector<ArrayDatum> v;
        std::vector<std::string> mem;
        size_t start, cnt;
        Model add;
        {
          Quiet q;
          start = r.below(3);
          cnt = std::min<size_t>(n, 60);
          mem.resize(start + cnt + 1);
          for (size_t i = 0; i < mem.size(); ++i) {
            bool in = i >= start && i < start + cnt;
            bool null = r.chance(np * 0.5);
            size_t k = null ? 0 : t.kind == FARR ? (size_t)t.n : r.below(5);
            for (size_t j = 0; j < k; ++j) {
              Val x = rnd_val(r, t, np * 0.5, true);
              store(mem[i], t, x, t.w, is_fp(t));
              if (in) add.add(t, x);
            }
            if (null) {
              if (in) add.nulls = true;
              if (t.kind == FARR) {
                Val x;
                x.i = null_array_of(t);
                x.d = t.w == 4 ? (double)(float)NULL_ARRAY_FLOAT : NULL_ARRAY_DOUBLE;
                for (int j = 0; j < t.n; ++j) {
                  store(mem[i], t, x, t.w, is_fp(t));
                  x.null = true;
                }
              }
            }
            v.emplace_back(mem[i].size(), (int8_t*)mem[i].data(), null, DoNothingDeleter());
          }
        }
        if (t.kind == FARR && o.kind == ENCODED) {
          auto* fe = static_cast<FixedLengthArrayNoneEncoder*>(p.enc);
          for (size_t i = start; i < start + cnt; ++i) {
            bool null = FixedLengthArrayNoneEncoder::is_null(t.type, v[i].pointer);
            if (null != v[i].is_null) sim::fail("stats:null-array", "array %zu: null=%d, expected %d", i, null, (int)v[i].is_null);
            fe->updateMetadata(v[i].pointer);
          }
        } else {
          p.enc->updateStats(&v, start, cnt);
        }
        {
          Quiet q;
          if (cnt) p.m.minmax_unknown = false;
          p.m.merge(t, add);
          size_t bytes = 0;
          for (auto& s : mem) bytes += s.size();
          set_elems(p, cnt, bytes);
        }
        break;
      }
      bool enc = o.kind == ENCODED || o.kind == BIG;
      std::string data;
      bool fixarr = enc && o.a[4];
      {
        Quiet q;
        int w2 = enc ? t.w : (t.kind == FIXED || t.kind == DAYS) ? 8 : t.w;
        for (size_t i = 0; i < n; ++i) {
          Val v = rnd_val(r, t, np, enc);
          if (fixarr && r.chance(0.1)) {  // the marker of a null array
            v = Val();
            v.i = null_array_of(t);
            v.d = t.w == 4 ? (double)(float)NULL_ARRAY_FLOAT : NULL_ARRAY_DOUBLE;
            store(data, t, v, w2, is_fp(t));
            p.m.nulls_unknown = true;
            continue;
          }
          if (fixarr && !v.null && !is_fp(t) && v.i == null_array_of(t)) v.null = true;
          if (!enc && t.kind == DAYS && !v.null) {
            int64_t sec = v.i + (int64_t)r.below(86400);
            if (sec == null_of(t)) sec = v.i;
            int64_t i8 = sec;
            data.append((char*)&i8, 8);
            p.m.add(t, v);
            continue;
          }
          store(data, t, v, w2, is_fp(t));
          if (enc && t.kind == DAYS) v.i *= 86400;
          p.m.add(t, v);
        }
      }
      if (enc) p.enc->updateStatsEncoded((const int8_t*)data.data(), n, fixarr);
      else p.enc->updateStats((const int8_t*)data.data(), n);
      set_elems(p, n, data.size());
      sim::count("values", n);
      break;
    }
    case SCALAR: case SCALARD: {
      if (t.kind >= STR) break;
      for (size_t i = 0; i < std::min<size_t>(n, 20); ++i) {
        Val v;
        {
          Quiet q;
          v = rnd_val(r, t, np, false);
          if (is_fp(t) && o.kind == SCALAR) v.d = (double)r.range(-1000, 1000);
          if (!is_fp(t) && o.kind == SCALARD) {
            v.i = std::max<int64_t>(std::min<int64_t>(v.i, 1LL << 50), -(1LL << 50));
            if (t.kind == DAYS) v.i = v.i / 86400 * 86400;
          }
          p.m.add(t, v);
        }
        if (o.kind == SCALAR) p.enc->updateStats(v.null ? null_of(t) : is_fp(t) ? (int64_t)v.d : v.i, v.null);
        else p.enc->updateStats(v.null ? 0.0 : is_fp(t) ? v.d : (double)v.i, v.null);
      }
      break;
    }
    case COPY: {
      auto c = make_part(t, !p.buf);
      if (c->enc && o.a[3] && t.kind < STR) c->enc->updateStats((int64_t)1, false);  // to be overwritten
      c->enc->copyMetadata(p.enc);
      c->m = p.m;
      c->elems = p.elems;
      if (c->buf) c->buf->setSize(p.buf->size());
      check_part(t, *c, "a copy");
      if (c->enc->getNumElems() != p.elems) sim::fail("stats:counts", "a copy has %zu elements, expected %zu", c->enc->getNumElems(), p.elems);
      if (o.a[4]) std::swap(parts[(size_t)o.a[0] % parts.size()], c);
      break;
    }
    case SYNC: {
      if (!p.buf) break;
      auto c = std::make_unique<Part>();
      c->buf = o.a[3] ? std::make_unique<Buf>() : std::make_unique<Buf>(t.type);
      c->buf->setSize(p.buf->size());
      c->buf->syncEncoder(p.buf.get());
      if (!c->buf->hasEncoder()) sim::fail("stats:sync", "no encoder after synchronising with a buffer that has one");
      c->enc = c->buf->getEncoder();
      c->m = p.m;
      c->elems = p.elems;
      check_part(t, *c, "a synchronised buffer");
      Buf none;
      Buf z(t.type);
      z.syncEncoder(&none);
      if (z.hasEncoder()) sim::fail("stats:sync", "an encoder is left after synchronising with a buffer without one");
      if (o.a[4]) std::swap(parts[(size_t)o.a[0] % parts.size()], c);
      break;
    }
    case FILEIO: {
      char mem[256];
      FILE *f, *g;
      {
        Quiet q;
        memset(mem, 0x5a, sizeof mem);
        f = fmemopen(mem, sizeof mem, "w");
      }
      p.enc->writeMetadata(f);
      long pos;
      {
        Quiet q;
        pos = ftell(f);
        fclose(f);
        g = fmemopen(mem, (size_t)pos, "r");
      }
      auto c = make_part(t, !p.buf);
      c->enc->readMetadata(g);
      {
        Quiet q;
        if (ftell(g) != pos) sim::fail("stats:file", "%ld bytes of metadata written, %ld read", pos, ftell(g));
        fclose(g);
      }
      c->m = p.m;
      c->elems = p.elems;
      if (c->buf) c->buf->setSize(p.buf->size());
      check_part(t, *c, "metadata read back");
      if (c->enc->getNumElems() != p.elems) sim::fail("stats:counts", "metadata read back has %zu elements, expected %zu", c->enc->getNumElems(), p.elems);
      if (o.a[4]) std::swap(parts[(size_t)o.a[0] % parts.size()], c);
      break;
    }
    case RESET:
      p.enc->resetChunkStats();
      p.m = Model();
      if (t.kind >= VARR) p.m.minmax_unknown = true;
      check_part(t, p, "after a reset");
      break;
    case RESETTO: {
      if (t.kind >= VARR && !p.buf) break;
      Part& src = *parts[(size_t)o.a[4] % parts.size()];
      if (t.kind >= VARR && (!src.m.any || src.m.minmax_unknown)) break;
      if (src.m.nulls_unknown || p.m.nulls_unknown) break;
      ChunkStats st = src.enc->getMetadata(t.type)->chunkStats();
      bool same = src.m.any == p.m.any && src.m.nulls == p.m.nulls && src.m.mn == p.m.mn && src.m.mx == p.m.mx && src.m.dn == p.m.dn && src.m.dx == p.m.dx;
      if (t.kind == STR) same = src.m.nulls == p.m.nulls;
      bool res = p.enc->resetChunkStats(st);
      if (t.kind < VARR && res == same)
        sim::fail("stats:reset-result", "resetting the statistics of %s to %s ones returned %d", t.type->toString().c_str(), same ? "the same" : "other", res);
      p.m = src.m;
      check_part(t, p, "after a reset to given statistics");
      if (t.kind >= VARR) {  // further updates after such a reset are not specified for arrays
        p.enc->resetChunkStats();
        p.m = Model();
        p.m.minmax_unknown = true;
      }
      break;
    }
    case META: {
      check_part(t, p, "encoder");
      if (t.kind >= VARR || t.kind == STR) break;
      // merging of statistics of several fragments into those of a table
      Part& src = *parts[(size_t)o.a[4] % parts.size()];
      ChunkStats a = p.enc->getMetadata(t.type)->chunkStats(), b = src.enc->getMetadata(t.type)->chunkStats();
      mergeStats(a, b, t.type);
      Quiet q;
      Model m = p.m;
      m.merge(t, src.m);
      check_stats(t, m, a, "merged statistics");
      break;
    }
    case LAZY: {
      if (t.kind >= VARR && (!p.m.any || p.m.minmax_unknown)) break;
      int calls = 0;
      ChunkStats st = p.enc->getMetadata(t.type)->chunkStats();
      ChunkMetadata md(t.type, 7, 3, [&](ChunkStats& s) {
        ++calls;
        s = st;
      });
      if (md.hasComputedChunkStats() || calls) sim::fail("stats:lazy", "lazy statistics are computed before they are asked for");
      ChunkMetadata eq(t.type, 7, 3, st), ne(t.type, 7, 4, st), ne2(t.type, 8, 3, st);
      ChunkStats st2 = st;
      st2.has_nulls = !st.has_nulls;
      ChunkMetadata ne3(t.type, 7, 3, st2), ne4(ctx().int8(t.type != ctx().int8()), 7, 3, st);
      if (o.a[3] & 1) {
        (void)md.numBytes(), (void)md.numElements();
        if (calls) sim::fail("stats:lazy", "asking for the counts computed lazy statistics");
      }
      if (o.a[3] & 2) {
        check_stats(t, p.m, md.chunkStats(), "lazy statistics");
      }
      if (!(md == eq) || md == ne || md == ne2 || md == ne3 || md == ne4) sim::fail("stats:equal", "comparison of metadata of %s is wrong", t.type->toString().c_str());
      check_stats(t, p.m, md.chunkStats(), "lazy statistics");
      check_stats(t, p.m, md.chunkStats(), "lazy statistics");
      if (calls != 1 || !md.hasComputedChunkStats()) sim::fail("stats:lazy", "lazy statistics were computed %d times", calls);
      {
        int c2 = 0;
        auto lazy = [&](ChunkStats& s) {
          ++c2;
          s = o.a[3] & 4 ? st : st2;
        };
        ChunkMetadata other(t.type, 7, 3, lazy);
        if ((eq == other) != (bool)(o.a[3] & 4) || c2 != 1) sim::fail("stats:equal", "comparison with lazy metadata of %s is wrong", t.type->toString().c_str());
      }
      ChunkMetadata md2(t.type, 7, 3, [&](ChunkStats&) { ++calls; });
      md2.fillChunkStats(st);
      check_stats(t, p.m, md2.chunkStats(), "replaced lazy statistics");
      if (calls != 1) sim::fail("stats:lazy", "replaced lazy statistics were computed");
      // the widened values that the range analysis reads
      auto et = elem_of(t);
      if (p.m.any && t.kind < STR && !t.type->isExtDictionary()) {
        if (is_fp(t)) {
          if (extract_min_stat_fp_type(st, et) != p.m.dn || extract_max_stat_fp_type(st, et) != p.m.dx)
            sim::fail("stats:extract", "extracted range of %s is wrong", t.type->toString().c_str());
        } else if (extract_min_stat_int_type(st, et) != p.m.mn || extract_max_stat_int_type(st, et) != p.m.mx) {
          sim::fail("stats:extract", "extracted range of %s is [%ld, %ld], expected [%ld, %ld]", t.type->toString().c_str(),
                    (long)extract_min_stat_int_type(st, et), (long)extract_max_stat_int_type(st, et), (long)p.m.mn, (long)p.m.mx);
        }
      }
      break;
    }
    case OVERFLOW_: {
      if (t.kind != DAYS || t.w == 8 || !p.buf) break;
      int64_t lim = t.w == 2 ? INT16_MAX : INT32_MAX;
      int64_t days = o.a[3] & 1 ? lim + 1 + (int64_t)r.below(100) : -lim - 2 - (int64_t)r.below(100);
      int64_t sec = days * 86400 + (int64_t)r.below(86400);
      bool thrown = false;
      try {
        p.enc->updateStats((const int8_t*)&sec, 1);
      } catch (const std::exception&) {
        thrown = true;
      }
      if (!thrown) sim::fail("stats:overflow", "day %ld does not fit into %s but was accepted", (long)days, t.type->toString().c_str());
      check_part(t, p, "after a rejected date");
      break;
    }
  }
}

void gen(Rng& r, Plan& p) {
  int nthr = (int)r.range(1, 3);
  p.set("threads", nthr);
  p.set("type", (int64_t)r.below(47));
  p.set("parts", r.range(1, 3));
  p.set("workers", r.range(0, 3));
  p.set("own", r.below(2));
  p.set("seed", (int64_t)(r.next() >> 1));
  int nops = (int)r.range(3, 14);
  for (int i = 0; i < nops; ++i) {
    int k;
    double x = r.range(0, 999) / 1000.0;
    if (x < 0.22) k = RAW;
    else if (x < 0.44) k = ENCODED;
    else if (x < 0.54) k = SCALAR;
    else if (x < 0.60) k = SCALARD;
    else if (x < 0.66) k = COPY;
    else if (x < 0.70) k = SYNC;
    else if (x < 0.76) k = FILEIO;
    else if (x < 0.79) k = RESET;
    else if (x < 0.84) k = RESETTO;
    else if (x < 0.90) k = META;
    else if (x < 0.95) k = LAZY;
    else if (x < 0.97) k = OVERFLOW_;
    else k = BIG;
    int64_t n = r.chance(0.1) ? 0 : r.chance(0.3) ? 1 : r.chance(0.8) ? r.range(2, 20) : r.range(21, 200);
    p.add((int)r.below((uint64_t)nthr), k, (int64_t)r.below(3), (int64_t)(r.next() >> 1), n, (int64_t)r.below(4), (int64_t)r.below(3));
  }
}
void run(const Plan& p) {
  World w;
  int nthr = (int)p.get("threads");
  {
    Quiet q;
    auto types = make_types();
    w.t = types[(size_t)p.get("type") % types.size()];
    w.parts.resize((size_t)nthr);
    simtbb::set_workers((int)p.get("workers"));
  }
  for (int t = 0; t < nthr; ++t)
    for (int i = 0; i < p.get("parts"); ++i) {
      auto x = make_part(w.t, p.get("own"));
      if (w.t.kind >= VARR) x->m.minmax_unknown = true;
      w.parts[(size_t)t].push_back(std::move(x));
    }
  run_threads(p, nthr, [&](int t, const Op& o) { do_op(w, t, o); });
  // What the workers saw is combined in any order into the statistics of the whole.
  std::vector<Part*> all;
  for (auto& v : w.parts)
    for (auto& x : v) {
      check_part(w.t, *x, "a worker's statistics");
      all.push_back(x.get());
    }
  if (w.t.kind > STR) return;
  Rng r(Rng::mix((uint64_t)p.get("seed")));
  while (all.size() > 1) {
    size_t i, j;
    {
      Quiet q;
      i = r.below(all.size());
      j = r.below(all.size() - 1);
      if (j >= i) ++j;
    }
    all[i]->enc->reduceStats(*all[j]->enc);
    all[i]->m.merge(w.t, all[j]->m);
    check_part(w.t, *all[j], "statistics already combined");
    all.erase(all.begin() + (ptrdiff_t)j);
  }
  check_part(w.t, *all[0], "combined statistics");
}
sim::Scenario s13 = {"C13", "chunkstats", nullptr, gen, run, kNames, 20000000};
sim::Registrar r13(&s13);
}  // namespace
