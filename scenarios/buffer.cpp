// C04-C08: the buffer pools (host and device level) over a simulated storage.
#include "fakegpu.h"

#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/BufferMgr/Buffer.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/TieredCpuBufferMgr.h"
#include "DataMgr/BufferMgr/GpuBufferMgr/GpuBufferMgr.h"
#include "IR/Context.h"

using namespace hs;
using Buffer_Namespace::BufferMgr;
using Buffer_Namespace::MemoryInfo;
using Data_Namespace::AbstractBuffer;
using Data_Namespace::AbstractBufferMgr;
using Data_Namespace::AbstractDataToken;

namespace {
constexpr int NT = 3, NC = 8;  // tables, chunks per table
inline int key_index(const ChunkKey& k) { return (k[1] - 1) * NC + (k[3] - 1); }
inline ChunkKey key_of(int i) { return {1 << 24 | 1, i / NC + 1, 1, i % NC + 1}; }
inline uint8_t byte_at(int key, size_t i) { return (uint8_t)(Rng::mix((uint64_t)key * 7919 + i / 8) >> (i % 8 * 8)); }

struct World;
World* W;
bool is_dependency(int k);

struct StorageError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// ---- simulated storage ---------------------------------------------------------------------
struct Token : AbstractDataToken {
  int key;
  std::vector<int8_t> data;
  AbstractBuffer* other = nullptr;  // a chunk of the pool which this token keeps pinned
  ~Token() override;
  const int8_t* getMemoryPtr() const override { return data.data(); }
  size_t getSize() const override { return data.size(); }
  const hdk::ir::Type* getType() const override;
};
struct Storage : AbstractDataProvider {
  double err_p = 0, part_p = 0;
  std::map<int, int> active;       // fetches in progress
  std::map<int, int> fetches;
  std::set<int> zero_copy;
  std::map<int, int> depends;      // zero-copy chunk -> the ordinary chunk its token keeps pinned
  int tokens = 0;
  void fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) override;
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key, size_t n) override {
    int k = key_index(key);
    AbstractBuffer* other = pin_dependency(k);
    Quiet q;
    if (!zero_copy.count(k)) return nullptr;
    auto t = std::make_unique<Token>();
    t->key = k;
    t->other = other;
    t->data.resize(n);
    for (size_t i = 0; i < n; ++i) t->data[i] = (int8_t)byte_at(k, i);
    ++tokens;
    return t;
  }
  AbstractBuffer* pin_dependency(int k);
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
};

struct Pin {
  AbstractBuffer* buf = nullptr;
  int level = 0;   // 0 host, d+1 device d
  int key = -1;    // chunk, or -1 for scratch
  int8_t* mem = nullptr;
  size_t n = 0;
  std::vector<int8_t> own;  // scratch contents
  bool zc = false;
};
struct World {
  Storage st;
  FakeGpu gpu;
  std::unique_ptr<BufferMgr> cpu;
  std::vector<std::unique_ptr<BufferMgr>> dev;
  std::map<int, size_t> size;      // current chunk size
  std::map<int, int> users;        // clients in a call on, or holding, a chunk
  std::map<int, int> table_calls;  // calls in flight per table
  std::map<int, int> dropping;
  std::set<int> grown;
  std::set<int> was_empty;         // chunks that started without data
  std::vector<Pin*> live;
  size_t page_cpu, page_gpu, max_cpu, cap_cpu, max_gpu, maxchunk;
  bool faulty = false, hard_faults = false;
  int oom = 0;
  int calls = 0;           // calls of clients in flight
  bool clearing = false;   // the pool is being cleared, which nobody may disturb
  BufferMgr* mgr(int level) { return level == 0 ? cpu.get() : dev[level - 1].get(); }
};
Token::~Token() {
  if (other) other->unPin();
  Quiet q;
  --W->st.tokens;
}
bool is_dependency(int k) {
  for (auto& d : W->st.depends)
    if (d.second == k) return true;
  return false;
}
AbstractBuffer* Storage::pin_dependency(int k) {
  int d = -1;
  size_t n = 0;
  {
    Quiet q;
    if (!zero_copy.count(k) || !depends.count(k)) return nullptr;
    d = depends[k];
    n = W->size[d];
    if (W->dropping[d / NC]) return nullptr;
    ++W->table_calls[d / NC];
  }
  AbstractBuffer* b = nullptr;
  try {
    b = W->cpu->getBuffer(key_of(d), n);
  } catch (const OutOfMemory&) {
  } catch (const StorageError&) {
  }
  Quiet q;
  --W->table_calls[d / NC];
  return b;
}
const hdk::ir::Type* Token::getType() const { return hdk::ir::Context::defaultCtx().int8(); }

void Storage::fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) {
  int k = key_index(key);
  {
    Quiet q;
    if (active[k]++ > 0)
      sim::fail("fetch:duplicate", "chunk %d is being fetched from storage by two callers at once", k);
    ++fetches[k];
    for (auto* p : W->live)
      if (p->level == 0 && p->key == k && !p->zc && p->n && p->n >= n)
        sim::fail("fetch:resident", "chunk %d (%zu bytes) is fetched from storage although a client holds it in the pool", k, n);
    sim::note(k * 1000 + (int)n);
  }
  struct Done {
    int k;
    ~Done() {
      Quiet q;
      --W->st.active[k];
    }
  } done{k};
  sim::yield_point();
  if (sim::fault("storage-read", err_p)) throw StorageError("simulated storage error");
  dest->reserve(n);
  int8_t* m = dest->getMemoryPtr();
  size_t pos = 0;
  while (pos < n) {
    size_t step = std::min<size_t>(n - pos, 1 + n / 3);
    {
      Quiet q;
      for (size_t i = 0; i < step; ++i) m[pos + i] = (int8_t)byte_at(k, pos + i);
    }
    pos += step;
    sim::yield_point();
    if (pos < n && sim::fault("storage-read-partial", part_p)) throw StorageError("simulated partial storage read");
  }
  if (!dest->hasEncoder()) dest->initEncoder(hdk::ir::Context::defaultCtx().int8());
  dest->setSize(n);
}

// ---- oracles ----------------------------------------------------------------------------------
void verify(Pin& p, const char* when) {
  Quiet q;
  int8_t* m = p.buf->getMemoryPtr();
  if (m != p.mem)
    sim::fail("pool:moved", "%s: pinned %s %d moved in memory", when, p.key >= 0 ? "chunk" : "scratch buffer", p.key);
  if (p.buf->size() < p.n)
    sim::fail("pool:short", "%s: pinned chunk %d has %zu of %zu bytes", when, p.key, p.buf->size(), p.n);
  for (size_t i = 0; i < p.n; ++i) {
    uint8_t want = p.key >= 0 ? byte_at(p.key, i) : (uint8_t)p.own[i];
    if ((uint8_t)m[i] != want)
      sim::fail("pool:content", "%s: level %d %s %d byte %zu of %zu is %02x, expected %02x", when, p.level,
                p.key >= 0 ? "chunk" : "scratch buffer", p.key, i, p.n, (uint8_t)m[i], want);
  }
}
void check_overlap(Pin& p) {
  Quiet q;
  if (p.n == 0) return;
  if (!sim::heap_addr_live(p.mem, p.n))
    sim::fail("pool:freed-memory", "level %d: buffer for chunk %d lies in freed memory", p.level, p.key);
  for (auto* o : W->live)
    if (o != &p && o->buf != p.buf && o->n && p.mem < o->mem + o->n && o->mem < p.mem + p.n)
      sim::fail("pool:overlap", "level %d: memory of chunk %d and of chunk %d overlap", p.level, p.key, o->key);
}
// Layout invariants of one pool, from its public memory report.
void check_info(BufferMgr* m, size_t max, size_t page, const char* name) {
  MemoryInfo mi;
  try {
    mi = m->getMemoryInfo();
  } catch (const std::bad_alloc&) {
    return;  // the report itself may run out of memory
  }
  Quiet q;
  if (mi.pageSize != page) sim::fail("info:page-size", "%s: page size %zu", name, mi.pageSize);
  if (mi.numPageAllocated * page > max)
    sim::fail("info:capacity", "%s: %zu bytes allocated, the limit is %zu", name, mi.numPageAllocated * page, max);
  size_t pages = 0;
  int64_t slab = -1, next = 0;
  std::set<ChunkKey> keys;
  bool prev_free = false;
  for (auto& d : mi.nodeMemoryData) {
    if ((int64_t)d.slabNum != slab) {
      slab = d.slabNum;
      next = 0;
      prev_free = false;
    }
    if (d.startPage != next)
      sim::fail("info:layout", "%s: slab %ld has a segment at page %d, expected %ld (%s)", name, (long)slab, d.startPage,
                (long)next, d.startPage < next ? "overlap" : "hole");
    next += d.numPages;
    pages += d.numPages;
    if (d.memStatus == Buffer_Namespace::USED) {
      if (d.chunk_key.empty() || !keys.insert(d.chunk_key).second)
        sim::fail("info:duplicate", "%s: two segments for one chunk key", name);
    }
    prev_free = d.memStatus == Buffer_Namespace::FREE;
  }
  (void)prev_free;
  if (pages != mi.numPageAllocated)
    sim::fail("info:accounting", "%s: segments cover %zu pages, %zu are allocated", name, pages, mi.numPageAllocated);
}
void check_all_info(World& w) {
  check_info(w.cpu.get(), w.cap_cpu, w.page_cpu, "host");
  for (auto& d : w.dev) check_info(d.get(), w.max_gpu, w.page_gpu, "device");
}

// ---- operations --------------------------------------------------------------------------------
enum K { K_GET, K_HOLD, K_UNPIN, K_ALLOC, K_APPEND, K_WRITE, K_FREE, K_ISDEV, K_INFO, K_DROP, K_GROW, K_NUM, K_CLEAR, K_READ, K_COPY };
const char* const kNames[] = {"get", "getAndHold", "unpin", "alloc", "append", "write", "free", "isBufferOnDevice",
                              "getMemoryInfo", "deleteBuffersWithPrefix", "grow", "getNumChunks", "clearSlabs", "read",
                              "copyTo", nullptr};

struct Slots {
  std::vector<std::unique_ptr<Pin>> pins;
};

bool enter(World& w, int k) {
  Quiet q;
  if (w.dropping[k / NC]) return false;
  ++w.users[k];
  ++w.table_calls[k / NC];
  return true;
}
void release_user(World& w, int k) {
  Quiet q;
  --w.users[k];
}

std::unique_ptr<Pin> get(World& w, int level, int k, int op) {
  if (!enter(w, k)) return nullptr;
  size_t n = w.size[k];
  AbstractBuffer* b = nullptr;
  try {
    b = w.mgr(level)->getBuffer(key_of(k), n);
  } catch (const OutOfMemory& e) {
    Quiet q;
    sim::count("out_of_memory");
    ++w.oom;
  } catch (const StorageError&) {
    Quiet q;
    sim::count("storage_error_seen");
  } catch (const DeviceException&) {
    Quiet q;
    sim::count("device_error_seen");
  }
  Quiet q;
  --w.table_calls[k / NC];
  if (!b) {
    --w.users[k];
    return nullptr;
  }
  auto p = std::make_unique<Pin>();
  p->buf = b;
  p->level = level;
  p->key = k;
  p->n = n;
  p->mem = b->getMemoryPtr();
  p->zc = level == 0 && w.st.zero_copy.count(k);
  if (b->getPinCount() < 1) sim::fail("pool:unpinned", "op %d: chunk %d was returned unpinned", op, k);
  if (b->size() < n) sim::fail("pool:short", "op %d: chunk %d returned with %zu of %zu bytes", op, k, b->size(), n);
  if (n && !p->mem) sim::fail("pool:no-memory", "op %d: chunk %d returned without memory", op, k);
  w.live.push_back(p.get());
  check_overlap(*p);
  verify(*p, "after the fetch");
  sim::note(n);
  return p;
}
void unpin(World& w, std::unique_ptr<Pin> p) {
  verify(*p, "before unpin");
  {
    Quiet q;
    w.live.erase(std::find(w.live.begin(), w.live.end(), p.get()));
    if (p->buf->getPinCount() < 1) sim::fail("pool:pin-count", "chunk %d held by a client has pin count %d", p->key, p->buf->getPinCount());
  }
  int k = p->key;
  p->buf->unPin();
  release_user(w, k);
  Quiet q;
  p.reset();
}
void free_scratch(World& w, std::unique_ptr<Pin> p) {
  verify(*p, "before free");
  {
    Quiet q;
    w.live.erase(std::find(w.live.begin(), w.live.end(), p.get()));
  }
  w.mgr(p->level)->free(p->buf);
  Quiet q;
  p.reset();
}

uint8_t want_at(const Pin& p, size_t i) { return p.key >= 0 ? byte_at(p.key, i) : (uint8_t)p.own[i]; }
Data_Namespace::MemoryLevel mem_level(int level) { return level ? Data_Namespace::GPU_LEVEL : Data_Namespace::CPU_LEVEL; }

// Clears the pool of one level while some of its buffers may be in use.
void clear_pool(World& w, int level, int op) {
  {
    Quiet q;
    if (w.calls > 1 || w.clearing) return;
    for (auto* p : w.live)
      if (p->key < 0 && p->level == level && p->buf->reservedSize() == 0) return;
    w.clearing = true;
  }
  w.mgr(level)->clearSlabs();
  Quiet q;
  w.clearing = false;
  sim::count("cleared_pools");
  std::set<int> held;
  size_t scratch = 0, big = 0;
  for (auto* p : w.live)
    if (p->level == level && !p->zc) {
      if (p->key >= 0) held.insert(p->key);
      else ++scratch;
      big += p->buf->reservedSize() > 0;
    }
  if (level == 0)
    for (auto& d : w.st.depends) held.insert(d.second);
  auto mi = w.mgr(level)->getMemoryInfo();
  size_t seen = 0;
  for (auto& d : mi.nodeMemoryData) {
    if (d.memStatus != Buffer_Namespace::USED) continue;
    if (d.chunk_key.size() < 4) ++seen;
    else if (!held.count(key_index(d.chunk_key)))
      sim::fail("pool:not-cleared", "op %d: level %d: unused chunk %d is still resident after clearing the pool", op, level, key_index(d.chunk_key));
  }
  if (seen != scratch) sim::fail("pool:cleared-in-use", "op %d: level %d: %zu scratch buffers in use, %zu left after clearing the pool", op, level, scratch, seen);
  if (big)
    for (auto* p : w.live)
      if (p->level == level && p->key >= 0 && !p->zc && p->n && !w.mgr(level)->isBufferOnDevice(key_of(p->key)))
        sim::fail("pool:cleared-in-use", "op %d: level %d: chunk %d was dropped by clearing the pool while in use", op, level, p->key);
}

void do_op_locked(World& w, Slots& s, const Op& o);
void do_op(World& w, Slots& s, const Op& o) {
  {
    Quiet q;
    if (w.clearing) return;
    ++w.calls;
  }
  do_op_locked(w, s, o);
  Quiet q;
  --w.calls;
}
void do_op_locked(World& w, Slots& s, const Op& o) {
  int level = (int)(o.a[0] % (1 + (int)w.dev.size()));
  int k = (int)(o.a[1] % (NT * NC));
  switch (o.kind) {
    case K_GET: {
      auto p = get(w, level, k, o.id);
      if (!p) break;
      for (int i = 0; i < 3; ++i) {
        sim::yield_point();
        verify(*p, "while pinned");
      }
      unpin(w, std::move(p));
      break;
    }
    case K_HOLD: {
      auto p = get(w, level, k, o.id);
      Quiet q;
      if (p) s.pins.push_back(std::move(p));
      break;
    }
    case K_ALLOC: {
      size_t n = (size_t)o.a[2] % (w.maxchunk + 1);
      AbstractBuffer* b = nullptr;
      try {
        b = w.mgr(level)->alloc(n);
      } catch (const OutOfMemory&) {
        sim::count("out_of_memory");
        ++w.oom;
        break;
      }
      Quiet q;
      auto p = std::make_unique<Pin>();
      p->buf = b;
      p->level = level;
      p->n = n;
      p->mem = b->getMemoryPtr();
      if (n && !p->mem) sim::fail("pool:no-memory", "op %d: alloc(%zu) returned no memory", o.id, n);
      if (b->reservedSize() < n) sim::fail("pool:short", "op %d: alloc(%zu) reserved %zu bytes", o.id, n, b->reservedSize());
      w.live.push_back(p.get());
      check_overlap(*p);
      for (size_t i = 0; i < n; ++i) {
        p->own.push_back((int8_t)byte_at(1000 + o.id, i));
        p->mem[i] = p->own[i];
      }
      b->setSize(n);
      s.pins.push_back(std::move(p));
      break;
    }
    case K_APPEND:
    case K_WRITE: {
      Pin* p = nullptr;
      {
        Quiet q;
        for (size_t i = 0; i < s.pins.size(); ++i) {
          auto& c = s.pins[(o.a[1] + i) % s.pins.size()];
          if (c->key < 0) p = c.get();
        }
      }
      if (!p) break;
      size_t n = 1 + (size_t)o.a[2] % w.maxchunk;
      size_t off = o.kind == K_APPEND ? p->n : (p->n ? (size_t)o.a[3] % p->n : 0);
      if (o.kind == K_WRITE) n = 1 + n % 64;
      if (off + n > w.maxchunk) break;
      std::vector<int8_t> src;
      {
        Quiet q;
        for (size_t i = 0; i < n; ++i) src.push_back((int8_t)byte_at(2000 + o.id, i));
        // while the call runs the buffer may legitimately move
        w.live.erase(std::find(w.live.begin(), w.live.end(), p));
      }
      bool ok = true;
      try {
        if (o.kind == K_APPEND) p->buf->append(src.data(), n);
        else p->buf->write(src.data(), n, off);
      } catch (const OutOfMemory&) {
        sim::count("out_of_memory");
        ++w.oom;
        ok = false;
      } catch (const DeviceException&) {
        ok = false;
      }
      Quiet q;
      if (ok) {
        if (p->own.size() < off + n) p->own.resize(off + n);
        memcpy(p->own.data() + off, src.data(), n);
        p->n = p->own.size();
        if (p->buf->size() != p->n) sim::fail("pool:short", "op %d: size %zu after write, expected %zu", o.id, p->buf->size(), p->n);
      } else if (w.gpu.copy_p > 0 && p->level > 0) {
        // a failed device write leaves this buffer's content undefined
        p->n = 0;
        p->own.clear();
        p->buf->setSize(0);
      }
      p->mem = p->buf->getMemoryPtr();
      w.live.push_back(p);
      check_overlap(*p);
      verify(*p, "after the write");
      break;
    }
    case K_UNPIN:
    case K_FREE: {
      std::unique_ptr<Pin> p;
      {
        Quiet q;
        if (!s.pins.empty()) {
          size_t i = o.a[1] % s.pins.size();
          p = std::move(s.pins[i]);
          s.pins.erase(s.pins.begin() + i);
        }
      }
      if (!p) break;
      if (p->key < 0) free_scratch(w, std::move(p));
      else unpin(w, std::move(p));
      break;
    }
    case K_ISDEV: {
      bool held = false, gone = false;
      {
        Quiet q;
        for (auto& p : s.pins) held |= p->key == k && p->level == level && !p->zc && p->n;
      }
      bool r = w.mgr(level)->isBufferOnDevice(key_of(k));
      Quiet q;
      (void)gone;
      if (held && !r) sim::fail("pool:not-resident", "op %d: chunk %d is pinned but reported as not resident", o.id, k);
      break;
    }
    case K_INFO:
      check_all_info(w);
      break;
    case K_CLEAR:
      clear_pool(w, level, o.id);
      break;
    case K_READ:
    case K_COPY: {
      // from one buffer of this client to the host or to a scratch buffer of it
      Pin *src = nullptr, *dst = nullptr;
      {
        Quiet q;
        for (size_t i = 0; i < s.pins.size(); ++i) {
          auto& c = s.pins[(o.a[1] + i) % s.pins.size()];
          if (!src && c->n) src = c.get();
          else if (src && c->key < 0) dst = c.get();
        }
      }
      if (!src) break;
      size_t off = (size_t)o.a[2] % src->n, n = 1 + (size_t)o.a[3] % (src->n - off);
      if (o.kind == K_COPY && dst) {
        size_t len = off + n;
        bool whole = false;
        {
          Quiet q;
          if (dst->n > len) break;
          if (!src->buf->isUpdated())
            for (size_t i = 0; i < dst->n; ++i)
              if ((uint8_t)dst->own[i] != want_at(*src, i)) len = 0;
          if (!len) break;
          whole = len == src->n && o.id % 2;
          w.live.erase(std::find(w.live.begin(), w.live.end(), dst));
        }
        bool ok = true;
        try {
          src->buf->copyTo(dst->buf, whole ? 0 : len);
        } catch (const OutOfMemory&) {
          ok = false;
        } catch (const DeviceException&) {
          ok = false;
        }
        Quiet q;
        if (ok) {
          dst->own.resize(len);
          for (size_t i = 0; i < len; ++i) dst->own[i] = (int8_t)want_at(*src, i);
          if (dst->buf->size() != len) sim::fail("pool:short", "op %d: size %zu after copying %zu bytes", o.id, dst->buf->size(), len);
          sim::count("buffer_copies");
        } else {
          dst->own.clear();
          dst->buf->setSize(0);
        }
        dst->n = dst->own.size();
        dst->mem = dst->buf->getMemoryPtr();
        w.live.push_back(dst);
        check_overlap(*dst);
        verify(*dst, "after the copy");
        break;
      }
      bool ok = true;
      if (dst && dst->n >= n && o.id % 2) {
        size_t at = (size_t)(o.a[1] / 7) % (dst->n - n + 1);
        int sd = src->level - 1, dd = dst->level - 1;
        try {
          if (o.id % 4 == 1) src->buf->read(dst->buf->getMemoryPtr() + at, n, off, mem_level(dst->level), dd);
          else dst->buf->write(src->buf->getMemoryPtr() + off, n, at, mem_level(src->level), sd);
        } catch (const DeviceException&) {
          ok = false;
        }
        Quiet q;
        if (ok)
          for (size_t i = 0; i < n; ++i) dst->own[at + i] = (int8_t)want_at(*src, off + i);
        else
          memcpy(dst->own.data(), dst->mem, dst->n);
        verify(*dst, "after a transfer between buffers");
        sim::count("buffer_transfers");
      } else {
        std::vector<int8_t> out;
        {
          Quiet q;
          out.resize(n + 1, 0x5a);
        }
        src->buf->read(out.data(), n, off);
        Quiet q;
        for (size_t i = 0; i < n; ++i)
          if ((uint8_t)out[i] != want_at(*src, off + i))
            sim::fail("pool:read", "op %d: level %d: byte %zu read at offset %zu is %02x, expected %02x", o.id, src->level, i, off, (uint8_t)out[i], want_at(*src, off + i));
        if (out[n] != 0x5a) sim::fail("pool:read", "op %d: read past the requested %zu bytes", o.id, n);
      }
      break;
    }
    case K_NUM: {
      size_t n = w.mgr(level)->getNumChunks();
      sim::note(n);
      break;
    }
    case K_DROP: {
      int t = k / NC;
      std::map<int, int> was_used;
      {
        Quiet q;
        if (w.table_calls[t] || w.dropping[t]) break;
        w.dropping[t] = 1;
        was_used = w.users;
      }
      for (int l = (int)w.dev.size(); l >= 0; --l) w.mgr(l)->deleteBuffersWithPrefix({1 << 24 | 1, t + 1});
      {
        // whatever nobody uses is gone now
        Quiet q;
        for (int c = t * NC; c < (t + 1) * NC; ++c) {
          bool held = is_dependency(c);
          for (auto* p : w.live) held |= p->key == c;
          for (int l = (int)w.dev.size(); l >= 0 && !held && was_used[c] == 0; --l)
            if (w.mgr(l)->isBufferOnDevice(key_of(c)))
              sim::fail("pool:not-deleted", "op %d: unused chunk %d of the dropped table %d is still resident at level %d", o.id, c, t, l);
        }
        w.dropping[t] = 0;
      }
      sim::count("dropped_tables");
      break;
    }
    case K_GROW: {
      Quiet q;
      if (w.users[k] == 0 && !w.st.zero_copy.count(k) && !is_dependency(k)) {
        size_t n = w.size[k] + 1 + o.a[2] % 200;
        if (n <= w.maxchunk) {
          w.size[k] = n;
          w.grown.insert(k);
          sim::count("grown_chunks");
        }
      }
      break;
    }
  }
  // everything this client holds is untouched
  for (auto& p : s.pins) verify(*p, "while held");
}

void gen_base(Rng& r, Plan& p, int ngpu, bool faults) {
  p.set("threads", r.range(1, 4));
  p.set("page", 16 << r.below(3));
  p.set("slabpages", r.range(16, 64));
  p.set("slabs", r.range(1, 4));
  p.set("tail", r.below(16));           // a last, smaller slab
  p.set("minslab", r.range(2, 16));
  p.set("gpus", ngpu);
  p.set("gpage", 16 << r.below(3));
  p.set("gslabpages", r.range(16, 48));
  p.set("gslabs", r.range(1, 3));
  p.set("tiered", r.chance(0.25));
  p.set("seed", r.below(1000000));
  p.set("keys", r.range(1, NT * NC));
  p.set("zc", r.chance(0.4) ? r.range(1, 5) : 0);
  p.set("big", r.below(4));
  p.set("tier0", r.range(0, 3));
  p.set("tier1", r.range(0, 5));
  p.set("tierx", r.below(5));
  p.set("dep", r.chance(0.5));
  p.set("f_cap", faults && r.chance(0.25) ? r.range(2, 9) : 0);
  p.set("f_err", faults && r.chance(0.6) ? r.range(3, 30) : 0);
  p.set("f_part", faults && r.chance(0.4) ? r.range(3, 20) : 0);
  p.set("f_alloc", faults && r.chance(0.5) ? r.range(5, 60) : 0);
  p.set("f_gcopy", faults && ngpu && r.chance(0.5) ? r.range(2, 20) : 0);
  p.set("f_galloc", faults && ngpu && r.chance(0.4) ? r.range(5, 50) : 0);
}
void gen_ops(Rng& r, Plan& p, std::vector<std::pair<int, int>> w, int lo, int hi) {
  for (auto& x : w)
    if (x.first != K_GET && r.chance(0.25)) x.second = 0;
  int total = 0;
  for (auto& x : w) total += x.second;
  int n = (int)p.get("threads"), keys = (int)p.get("keys"), ops = (int)r.range(lo, hi);
  for (int i = 0; i < ops; ++i) {
    int v = (int)r.below(total), k = 0;
    for (auto& x : w) {
      if (v < x.second) {
        k = x.first;
        break;
      }
      v -= x.second;
    }
    p.add((int)r.below(n), k, r.below(1 + p.get("gpus")), r.below(keys), r.below(100000), r.below(100000));
  }
}

void run(const Plan& p) {
  World w;
  W = &w;
  int ngpu = (int)p.get("gpus");
  double scale = 0.001;
  {
    Quiet q;
    w.page_cpu = (size_t)p.get("page");
    w.page_gpu = (size_t)p.get("gpage");
    size_t slab = w.page_cpu * (size_t)p.get("slabpages") * 4, tail = w.page_cpu * (size_t)p.get("tail");
    size_t gslab = w.page_gpu * (size_t)p.get("gslabpages") * 4;
    size_t minslab = w.page_cpu * std::min<size_t>((size_t)p.get("minslab"), slab / w.page_cpu);
    size_t gmin = w.page_gpu * std::min<size_t>((size_t)p.get("minslab"), gslab / w.page_gpu);
    w.max_cpu = slab * (size_t)p.get("slabs") + tail;
    w.cap_cpu = w.max_cpu;
    w.max_gpu = gslab * (size_t)p.get("gslabs");
    w.maxchunk = ngpu ? std::min(slab, gslab) : slab;
    static const int frac[] = {1, 2, 4, 8};
    size_t typical = std::max<size_t>(w.maxchunk / frac[p.get("big") & 3], 8);
    Rng r((uint64_t)p.get("seed"));
    for (int k = 0; k < NT * NC; ++k) {
      w.size[k] = 1 + r.below(typical);
      if (r.chance(0.2)) w.size[k] = std::min(w.maxchunk, w.page_cpu * (1 + r.below(typical / w.page_cpu + 1)));
      if (ngpu == 0 && r.chance(0.05)) {
        w.size[k] = 0;
        w.was_empty.insert(k);
      }
    }
    for (int i = 0; i < p.get("zc"); ++i) w.st.zero_copy.insert((int)r.below(NT * NC));
    if (p.get("dep"))
      for (int k : w.st.zero_copy) {
        int d = (int)r.below(NT * NC);
        if (!w.st.zero_copy.count(d) && w.size[d] && w.size[d] <= typical / 4) w.st.depends[k] = d;
      }
    w.gpu.ndev = ngpu;
    if (p.get("tiered")) {
      CpuTierSizeVector tiers(numCpuTiers, 0);
      static const size_t extra[] = {0, 1, 8, 4096, 100000};
      tiers[0] = slab * (size_t)p.get("tier0") + extra[p.get("tierx") % 5];
      tiers[1] = slab * (size_t)p.get("tier1") + extra[p.get("tierx") % 5];
      if (p.get("tier0") + p.get("tier1") == 0) tiers[1] = w.max_cpu;
      w.cap_cpu = std::min(w.max_cpu, tiers[0] + tiers[1]);
      w.cpu = std::make_unique<Buffer_Namespace::TieredCpuBufferMgr>(0, w.max_cpu, &w.gpu, minslab, slab, w.page_cpu, tiers, &w.st);
    } else {
      w.cpu = std::make_unique<Buffer_Namespace::CpuBufferMgr>(0, w.max_cpu, &w.gpu, minslab, slab, w.page_cpu, &w.st);
    }
    for (int d = 0; d < ngpu; ++d)
      w.dev.push_back(std::make_unique<Buffer_Namespace::GpuBufferMgr>(d, w.max_gpu, &w.gpu, gmin, gslab, w.page_gpu, w.cpu.get()));
    w.st.err_p = p.get("f_err") * scale;
    w.st.part_p = p.get("f_part") * scale;
    w.gpu.copy_p = p.get("f_gcopy") * scale;
    w.gpu.alloc_p = p.get("f_galloc") * scale;
    w.faulty = p.get("f_err") + p.get("f_part") + p.get("f_alloc") + p.get("f_cap") + p.get("f_gcopy") + p.get("f_galloc") > 0;
  }
  sim::enable_faults(true);
  size_t cap_pages = 0;
  if (p.get("f_cap")) {
    // the system never gives out more than so many bytes at once
    cap_pages = (size_t)p.get("slabpages") * 4 * (size_t)p.get("f_cap") / 10;
    sim::alloc_faults(std::max<size_t>(cap_pages * w.page_cpu + 1, 1025), 1.0);
    size_t pages = 1 + (size_t)p.get("seed") % cap_pages, least = (size_t)p.get("minslab");
    if (!p.get("tiered") && cap_pages * w.page_cpu >= 1024 && cap_pages >= 2 * least) {
      AbstractBuffer* b = nullptr;
      try {
        b = w.cpu->alloc(pages * w.page_cpu);
      } catch (const OutOfMemory&) {
      }
      if (!b) sim::fail("pool:degraded", "an empty pool cannot serve %zu pages although slabs of up to %zu pages can be allocated", pages, cap_pages);
      w.cpu->free(b);
    }
  } else if (p.get("f_alloc")) {
    sim::alloc_faults(1024, p.get("f_alloc") * 0.005);
  }
  int nthr = (int)p.get("threads");
  std::vector<Slots> slots(nthr);
  run_threads(p, nthr, [&](int t, const Op& o) { do_op(w, slots[t], o); });
  // release everything; faults stop
  sim::alloc_faults(0, 0);
  sim::enable_faults(false);
  w.st.err_p = w.st.part_p = w.gpu.copy_p = w.gpu.alloc_p = 0;
  for (auto& s : slots)
    while (!s.pins.empty()) {
      auto pin = std::move(s.pins.back());
      s.pins.pop_back();
      if (pin->key < 0) free_scratch(w, std::move(pin));
      else unpin(w, std::move(pin));
    }
  Quiet q;
  check_all_info(w);
  for (int l = 0; l <= ngpu; ++l) {
    auto mi = w.mgr(l)->getMemoryInfo();
    size_t used = 0, biggest = 0, segs = 0;
    std::map<size_t, size_t> slab;
    for (auto& d : mi.nodeMemoryData) {
      slab[d.slabNum] += d.numPages;
      if (d.memStatus == Buffer_Namespace::USED) {
        used += d.numPages;
        ++segs;
        if (d.chunk_key.size() < 4)
          sim::fail("pool:leak", "level %d: a freed scratch buffer still occupies %zu pages", l, d.numPages);
      }
    }
    for (auto& [n, pages] : slab) biggest = std::max(biggest, pages);
    if (w.mgr(l)->getInUseSize() != used * mi.pageSize)
      sim::fail("info:in-use", "level %d: getInUseSize() is %zu, segments in use cover %zu bytes", l, w.mgr(l)->getInUseSize(), used * mi.pageSize);
    size_t unsized = 0;
    for (int k = 0; k < NT * NC; ++k) unsized += w.was_empty.count(k) && w.mgr(l)->isBufferOnDevice(key_of(k));
    size_t nc = w.mgr(l)->getNumChunks();
    if (nc < segs || (!w.faulty && w.oom == 0 && nc > segs + unsized))
      sim::fail("info:index", "level %d: %zu chunks indexed, %zu resident", l, nc, segs);
    if (ngpu == 0 || l > 0) {
      // Nothing is pinned: any request that fits into the largest slab must be served.
      if (biggest) {
        AbstractBuffer* b = nullptr;
        try {
          b = w.mgr(l)->alloc(biggest * mi.pageSize);
        } catch (const OutOfMemory&) {
        }
        if (!b)
          sim::fail("pool:lost-memory", "level %d: nothing is in use, but a buffer of %zu pages (the largest slab) cannot be allocated", l, biggest);
        w.mgr(l)->free(b);
      }
    }
  }
  // Once faults stopped every chunk can be fetched, with the right content.
  size_t host_cap = 0;
  {
    auto mi = w.cpu->getMemoryInfo();
    std::map<size_t, size_t> slab;
    for (auto& d : mi.nodeMemoryData) host_cap = std::max(host_cap, slab[d.slabNum] += d.numPages);
    host_cap *= w.page_cpu;
  }
  for (int k = 0; k < p.get("keys"); ++k)
    for (int l = ngpu; l >= 0; --l) {
      int before = w.oom;
      auto pin = get(w, l, k, 1 << 20);
      if (!pin) {
        bool may = false;
        size_t need = w.size[k];
        if ((p.get("f_alloc") || p.get("f_cap") || p.get("tiered")) && need > host_cap) may = true;
        if (p.get("f_galloc")) may = true;
        // growing a resident chunk needs room for the old and the new copy
        if (w.grown.count(k) && 3 * need + 2 * w.page_cpu + 2 * w.page_gpu > w.maxchunk) may = true;
        if (!may || w.oom == before)
          sim::fail("pool:not-recovered", "level %d: chunk %d (%zu bytes) cannot be fetched although nothing is in use and faults have stopped", l, k, need);
        continue;
      }
      unpin(w, std::move(pin));
    }
  for (int l = ngpu; l >= 0; --l) {
    w.mgr(l)->clearSlabs();
    auto mi = w.mgr(l)->getMemoryInfo();
    if (mi.numPageAllocated != 0 || !mi.nodeMemoryData.empty() || w.mgr(l)->getNumChunks() != 0 || w.mgr(l)->getInUseSize() != 0)
      sim::fail("pool:not-cleared", "level %d: %zu pages allocated and %zu chunks after clearing an unused pool", l, mi.numPageAllocated, w.mgr(l)->getNumChunks());
  }
  for (int k = 0; k < 3 && k < p.get("keys"); ++k) {
    auto pin = get(w, ngpu, k, 1 << 20);
    if (!pin) sim::fail("pool:not-recovered", "chunk %d cannot be fetched after clearing the pool", k);
    unpin(w, std::move(pin));
  }
  // The pool goes away while some of its buffers are still in use, e.g. by a result set.
  w.dev.clear();
  std::vector<std::unique_ptr<Pin>> rest;
  for (int k = (int)(p.get("seed") % 3); k < p.get("keys"); k += 1 + (int)(p.get("seed") % 5)) {
    bool zc = w.st.zero_copy.count(k);
    if (!zc && w.size[k] > w.maxchunk / 4) continue;
    if (auto pin = get(w, 0, k, 1 << 20)) rest.push_back(std::move(pin));
  }
  bool reversed = p.get("seed") & 1;
  w.cpu.reset();
  if (reversed) std::reverse(rest.begin(), rest.end());
  for (auto& pin : rest) {
    if (pin->zc) verify(*pin, "after the pool is gone");
    w.live.erase(std::find(w.live.begin(), w.live.end(), pin.get()));
    if (pin->buf->getPinCount() < 1) sim::fail("pool:pin-count", "chunk %d is held after the pool is gone with pin count %d", pin->key, pin->buf->getPinCount());
    pin->buf->unPin();
  }
  if (w.st.tokens) sim::fail("pool:token-leak", "%d zero-copy data tokens still alive", w.st.tokens);
  if (!w.gpu.blocks.empty()) sim::fail("device:leak", "%zu device allocations not freed", w.gpu.blocks.size());
}

void c04_gen(Rng& r, Plan& p) {
  gen_base(r, p, 0, false);
  gen_ops(r, p, {{K_GET, 8}, {K_HOLD, 14}, {K_UNPIN, 9}, {K_ALLOC, 12}, {K_APPEND, 14}, {K_WRITE, 6}, {K_FREE, 6}, {K_ISDEV, 2}, {K_NUM, 1}, {K_DROP, 3}, {K_CLEAR, 3}, {K_READ, 4}, {K_COPY, 3}}, 5, 50);
}
void c05_gen(Rng& r, Plan& p) {
  gen_base(r, p, 0, false);
  p.set("threads", r.range(2, 5));
  p.set("keys", r.range(1, 8));
  gen_ops(r, p, {{K_GET, 30}, {K_HOLD, 8}, {K_UNPIN, 8}, {K_ALLOC, 4}, {K_FREE, 2}, {K_ISDEV, 2}, {K_GROW, 8}, {K_DROP, 4}, {K_CLEAR, 3}, {K_READ, 4}, {K_COPY, 3}}, 4, 40);
}
void c06_gen(Rng& r, Plan& p) {
  gen_base(r, p, r.chance(0.3) ? (int)r.range(1, 2) : 0, true);
  gen_ops(r, p, {{K_GET, 20}, {K_HOLD, 8}, {K_UNPIN, 8}, {K_ALLOC, 6}, {K_APPEND, 6}, {K_FREE, 3}, {K_GROW, 6}, {K_DROP, 2}, {K_INFO, 2}, {K_CLEAR, 2}, {K_COPY, 2}}, 4, 45);
}
void c07_gen(Rng& r, Plan& p) {
  gen_base(r, p, (int)r.range(1, 3), false);
  p.set("threads", r.range(2, 5));
  p.set("keys", r.range(1, 10));
  gen_ops(r, p, {{K_GET, 30}, {K_HOLD, 8}, {K_UNPIN, 8}, {K_ALLOC, 5}, {K_APPEND, 5}, {K_FREE, 2}, {K_ISDEV, 2}, {K_GROW, 8}, {K_DROP, 3}, {K_INFO, 1}, {K_CLEAR, 3}, {K_READ, 12}, {K_COPY, 6}}, 4, 40);
}
void c08_gen(Rng& r, Plan& p) {
  gen_base(r, p, r.chance(0.2) ? 1 : 0, false);
  p.set("f_alloc", r.chance(0.4) ? r.range(5, 60) : 0);
  p.set("f_cap", r.chance(0.2) ? r.range(2, 9) : 0);
  gen_ops(r, p, {{K_GET, 10}, {K_HOLD, 8}, {K_UNPIN, 8}, {K_ALLOC, 14}, {K_APPEND, 8}, {K_FREE, 12}, {K_INFO, 12}, {K_DROP, 4}, {K_GROW, 3}, {K_NUM, 3}, {K_CLEAR, 3}, {K_READ, 4}, {K_COPY, 3}}, 5, 70);
}
sim::Scenario s4 = {"C04", "pool-pinned", nullptr, c04_gen, run, kNames, 40000000};
sim::Scenario s5 = {"C05", "pool-fetch", nullptr, c05_gen, run, kNames, 40000000};
sim::Scenario s6 = {"C06", "pool-faults", nullptr, c06_gen, run, kNames, 40000000};
sim::Scenario s7 = {"C07", "pool-levels", nullptr, c07_gen, run, kNames, 40000000};
sim::Scenario s8 = {"C08", "pool-accounting", nullptr, c08_gen, run, kNames, 40000000};
sim::Registrar r4(&s4), r5(&s5), r6(&s6), r7(&s7), r8(&s8);
}  // namespace
