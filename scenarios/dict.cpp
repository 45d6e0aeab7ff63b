// C01 dictionary linearizability, C02 dictionary failure atomicity, C03 nested dictionaries
// and translation maps.
#include "harness.h"

#include <limits>
#include <regex>

#include "Shared/InlineNullValues.h"
#include "Shared/thread_count.h"
#include "StringDictionary/StringDictionary.h"

extern bool g_enable_stringdict_parallel;
// Small pages: the dictionary grows its storage in units of 1024 pages, so that growth is
// reached within a short run.
extern "C" int getpagesize() { return 4; }

using namespace hs;
namespace {
using Strs = std::vector<std::string>;
using Ids = std::vector<int32_t>;
constexpr int32_t NIL = std::numeric_limits<int32_t>::min();

uint32_t dict_hash(const std::string& s) {
  uint32_t h = 1;
  for (char c : s) h = h * 997 + c;
  return h;
}
Strs* g_pool;  // [0] is the empty string
void init_pool() {
  if (g_pool) return;
  auto* p = new Strs;
  p->push_back("");
  Rng r(77);
  // full 32-bit hash collisions of the dictionary's hash function
  std::unordered_map<uint32_t, std::string> seen;
  Strs coll;
  for (int i = 0; i < 260000; ++i) {
    std::string s = "c";
    uint64_t v = r.next();
    for (int k = 0; k < 7; ++k, v /= 26) s += char('a' + v % 26);
    auto it = seen.find(dict_hash(s));
    if (it != seen.end() && it->second != s) {
      coll.push_back(it->second);
      coll.push_back(s);
    }
    seen[dict_hash(s)] = s;
  }
  size_t ci = 0;
  std::set<std::string> used;
  for (int k = 1; k < 6000; ++k) {
    std::string s;
    if (k % 11 == 3 && ci + 1 < coll.size()) {
      used.insert(coll[ci]);
      p->push_back(coll[ci++]);
      s = coll[ci++];
      ++k;
    } else {
      switch (k % 10) {
        case 0: s = str("s%d", k); break;
        case 1: s = str("Ab%%_%d", k); break;
        case 2: s = str("prefix-%d", k / 10); s += std::string(k % 7, 'x'); break;
        case 3: s = std::string(1, char('a' + (k / 10) % 26)); break;
        case 4: s = str("%d", k); break;
        case 5: s = std::string("\xc3\xa9") + str("t%d", k); break;
        case 6: s = str("ABC%d", k % 100); break;
        case 7: s = str("x\\y%d", k); break;
        case 8: s = std::string(20 + k % 60, char('a' + k % 26)) + str("%d", k); break;
        default: s = str("q%d", k % 1000); break;
      }
    }
    while (!used.insert(s).second) s += 'z';
    p->push_back(s);
  }
  // very long strings (up to the documented maximum)
  p->push_back(std::string(32767, 'L'));
  p->push_back(std::string(32766, 'M'));
  p->push_back(std::string(5000, 'N'));
  g_pool = p;
}
const std::string& pool(int64_t i) { return (*g_pool)[i % g_pool->size()]; }
// the i-th string of the batch (seed, n) over the first `universe` pool entries
int64_t batch_at(int64_t seed, int i, int64_t universe) {
  uint64_t h = Rng::mix((uint64_t)seed * 0x9e37 + i);
  if (h % 397 == 0) return (int64_t)g_pool->size() - 1 - (h >> 32) % 3;
  return (h >> 8) % universe;
}
Strs batch(int64_t seed, int n, int64_t universe) {
  Strs v;
  v.reserve(n);
  for (int i = 0; i < n; ++i) v.push_back(pool(batch_at(seed, i, universe)));
  return v;
}

const char* const kCmp[] = {"<", "<=", ">", ">=", "=", "<>"};
const char* const kLike[] = {"%a%", "s%", "%1", "prefix-_%", "%", "_", "abc%", "%b%x%", "ab\\%%", "q_", "zzz", "%9_"};
const char* const kSimple[] = {"a", "s1", "prefix", "b%", "zz", "1", "bc"};
const char* const kRegex[] = {"s[0-9]+", "prefix-.*", "[a-z]", "q.*1", "abc.*|ABC.*", "[0-9]+"};

bool like_ref(const char* s, int n, const char* p, int m) {
  while (m > 0) {
    if (*p == '%') {
      for (int k = 0; k <= n; ++k)
        if (like_ref(s + k, n - k, p + 1, m - 1)) return true;
      return false;
    }
    if (n == 0) return false;
    if (*p == '\\' && m > 1) {
      ++p;
      --m;
      if (*s != *p) return false;
    } else if (*p != '_' && *p != *s) {
      return false;
    }
    ++p, --m, ++s, --n;
  }
  return n == 0;
}
std::string lower(std::string s) {
  for (auto& c : s)
    if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}
bool match_like(const std::string& s0, const std::string& pat, bool icase, bool simple) {
  std::string s = icase ? lower(s0) : s0;
  if (simple) return s.find(pat) != std::string::npos;
  return like_ref(s.data(), (int)s.size(), pat.data(), (int)pat.size());
}
bool match_cmp(const std::string& s, const std::string& p, const std::string& op) {
  int c = s.compare(p);
  if (op == "<") return c < 0;
  if (op == "<=") return c <= 0;
  if (op == ">") return c > 0;
  if (op == ">=") return c >= 0;
  if (op == "=") return c == 0;
  return c != 0;
}
bool match_regex(const std::string& s, int k) {
  if (s.size() > 1000) return k == 2 ? false : false;  // no long pool string matches any pattern
  static std::vector<std::regex> re;
  if (re.empty())
    for (auto p : kRegex) re.emplace_back(p, std::regex::extended);
  return std::regex_match(s, re[k]);
}

// ---- history of one dictionary ---------------------------------------------------------
enum Q { Q_COUNT, Q_LIKE, Q_CMP, Q_REGEX, Q_COPY, Q_EACH, Q_BULK };
struct Query {
  Q q;
  int op;
  uint64_t inv, resp;
  int64_t gen;
  int a, b;  // pattern index / flags
  std::string pat, cmp;
  Ids ids;
  Strs strs;
  size_t val;
};
struct Add {
  std::string s;
  int32_t id;
  uint64_t inv, resp;
  bool done;
};
struct Hist {
  const char* name;
  std::vector<Add> adds;       // every (string) of every add operation
  std::vector<Query> queries;
  std::map<std::string, int32_t> known;  // from completed ops
  int32_t base_gen = 0;        // ids below come from the base dictionary
  bool concurrent_fail = false;

  size_t begin_add(const std::string& s) {
    adds.push_back({s, -2, sim::event_seq(), ~0ull, false});
    return adds.size() - 1;
  }
  void learn(const std::string& s, int32_t id, const char* how, int op) {
    if (s.empty()) {
      if (id != NIL) sim::fail("dict:null-id", "%s: op %d %s: empty string got id %d", name, op, how, id);
      return;
    }
    if (id < 0) sim::fail("dict:bad-id", "%s: op %d %s('%s') returned %d", name, op, how, show(s).c_str(), id);
    auto it = known.emplace(s, id);
    if (!it.first->second == id || it.first->second != id)
      sim::fail("dict:unstable-id", "%s: op %d %s('%s') returned %d, earlier %d", name, op, how, show(s).c_str(), id,
                it.first->second);
  }
  void end_add(size_t k, int32_t id, const char* how, int op) {
    adds[k].id = id;
    adds[k].resp = sim::event_seq();
    adds[k].done = true;
    sim::note((uint64_t)id);
    learn(adds[k].s, id, how, op);
  }
};

// Checks a quiescent dictionary against its history. `maybe`: strings whose insertion
// failed (they may or may not be present).
void check_final(StringDictionary& d, Hist& h, const std::set<std::string>& maybe) {
  size_t n = d.entryCount();
  Strs fin(n);
  for (size_t i = 0; i < n; ++i) fin[i] = d.getString((int32_t)i);
  std::map<std::string, int32_t> where;
  for (size_t i = 0; i < n; ++i) {
    auto r = where.emplace(fin[i], (int32_t)i);
    if (!r.second)
      sim::fail("dict:duplicate", "%s: string '%s' has two ids %d and %zu", h.name, show(fin[i]).c_str(),
                r.first->second, i);
    int32_t id = d.getIdOfString(fin[i]);
    if (id != (int32_t)i)
      sim::fail("dict:lookup", "%s: getString(%zu)='%s' but getIdOfString returns %d", h.name, i, show(fin[i]).c_str(),
                id);
  }
  std::set<std::string> may(maybe), must;
  for (auto& a : h.adds) {
    if (a.s.empty()) continue;
    may.insert(a.s);
    if (!a.done) continue;
    must.insert(a.s);
    auto it = where.find(a.s);
    if (it == where.end())
      sim::fail("dict:lost", "%s: added string '%s' (id %d) is not in the dictionary", h.name, show(a.s).c_str(), a.id);
    if (it->second != a.id)
      sim::fail("dict:unstable-id", "%s: string '%s' was given id %d but now has id %d", h.name, show(a.s).c_str(),
                a.id, it->second);
  }
  for (size_t i = h.base_gen; i < n; ++i)
    if (!may.count(fin[i]))
      sim::fail("dict:phantom", "%s: id %zu holds '%s', which nobody added", h.name, i, show(fin[i]).c_str());
  // copyStrings and bulk lookup agree with the final content
  Strs cp = d.copyStrings();
  if (cp != fin) sim::fail("dict:copy-strings", "%s: copyStrings() differs from getString() over %zu ids", h.name, n);
  // events sorted by invocation: lower/upper bounds on the visible prefix
  struct Ev {
    uint64_t at;
    int32_t lo;
  };
  std::vector<Ev> lows;
  for (auto& a : h.adds)
    if (a.done && !a.s.empty()) lows.push_back({a.resp, a.id + 1});
  for (auto& q : h.queries)
    if (q.q == Q_COUNT) lows.push_back({q.resp, (int32_t)q.val});
  auto lo_of = [&](uint64_t inv) {
    int32_t lo = h.base_gen;
    for (auto& e : lows)
      if (e.at < inv && e.lo > lo) lo = e.lo;
    return lo;
  };
  // first time a string could have been added
  std::map<std::string, uint64_t> first_inv;
  for (auto& a : h.adds) {
    auto it = first_inv.emplace(a.s, a.inv);
    if (a.inv < it.first->second) it.first->second = a.inv;
  }
  std::vector<uint64_t> from(n, 0);
  for (size_t i = h.base_gen; i < n; ++i) {
    auto it = first_inv.find(fin[i]);
    from[i] = it == first_inv.end() ? 0 : it->second;
  }
  auto hi_of = [&](uint64_t resp) {
    size_t g = h.base_gen;
    while (g < n && from[g] < resp) ++g;
    return (int32_t)g;
  };
  for (auto& q : h.queries) {
    int32_t lo = lo_of(q.inv), hi = hi_of(q.resp);
    if (hi < lo) hi = lo;
    auto cap = [&](int32_t g) { return q.gen >= 0 && q.gen < g ? (int32_t)q.gen : g; };
    auto prefix_check = [&](const char* what, auto match) {
      Ids got = q.ids;
      std::sort(got.begin(), got.end());
      // expected for the largest visible prefix; the answer must be a prefix of it with a
      // length some visible g explains
      Ids m;
      for (int32_t i = 0; i < cap(hi); ++i)
        if (match(fin[i])) m.push_back(i);
      size_t kmin = 0;
      for (auto id : m) kmin += id < cap(lo);
      if (got.size() < kmin || got.size() > m.size() || !std::equal(got.begin(), got.end(), m.begin())) {
        std::string g, e;
        for (size_t i = 0; i < got.size() && i < 12; ++i) g += std::to_string(got[i]) + ",";
        for (size_t i = 0; i < m.size() && i < 12; ++i) e += std::to_string(m[i]) + ",";
        sim::fail("dict:query", "%s: op %d %s('%s'%s) gen=%ld returned %zu ids [%s], no prefix in [%d,%d] explains it (max %zu ids [%s])",
                  h.name, q.op, what, q.pat.c_str(), q.cmp.c_str(), (long)q.gen, got.size(), g.c_str(), lo, hi,
                  m.size(), e.c_str());
      }
    };
    switch (q.q) {
      case Q_COUNT:
        if ((int32_t)q.val < lo || (int32_t)q.val > hi)
          sim::fail("dict:count", "%s: op %d entryCount()=%zu outside [%d,%d]", h.name, q.op, q.val, lo, hi);
        break;
      case Q_LIKE:
        prefix_check("getLike", [&](const std::string& s) { return match_like(s, q.pat, q.a, q.b); });
        break;
      case Q_CMP:
        prefix_check("getCompare ", [&](const std::string& s) { return match_cmp(s, q.pat, q.cmp); });
        break;
      case Q_REGEX:
        prefix_check("getRegexpLike", [&](const std::string& s) { return match_regex(s, q.a); });
        break;
      case Q_COPY:
      case Q_EACH: {
        size_t k = q.strs.size();
        bool ok = (int32_t)k >= cap(lo) && (int32_t)k <= cap(hi);
        for (size_t i = 0; ok && i < k; ++i) ok = q.strs[i] == fin[i];
        if (!ok)
          sim::fail("dict:scan", "%s: op %d %s gen=%ld returned %zu strings; expected a prefix of the dictionary of length in [%d,%d]",
                    h.name, q.op, q.q == Q_COPY ? "copyStrings" : "eachStringSerially", (long)q.gen, k, cap(lo), cap(hi));
        break;
      }
      case Q_BULK: {
        int32_t maxf = -1, minn = std::numeric_limits<int32_t>::max();
        size_t nf = 0;
        for (size_t i = 0; i < q.strs.size(); ++i) {
          const auto& s = q.strs[i];
          int32_t id = q.ids[i];
          if (s.empty()) {
            // an empty (or generation-0) dictionary answers "not found" for every string
            if (id == -1 && cap(lo) == 0) ++nf;
            else if (id != NIL) sim::fail("dict:null-id", "%s: op %d getBulk('') = %d", h.name, q.op, id);
            continue;
          }
          auto it = where.find(s);
          int32_t want = it == where.end() ? -1 : it->second;
          if (id == -1) {
            ++nf;
            if (want >= 0 && want < cap(lo))
              sim::fail("dict:lookup-miss", "%s: op %d getBulk('%s') gen=%ld found nothing; id %d was assigned before the call",
                        h.name, q.op, show(s).c_str(), (long)q.gen, want);
            if (want >= 0 && (q.gen < 0 || want < q.gen)) minn = std::min(minn, want);
          } else {
            if (id != want || id >= cap(hi))
              sim::fail("dict:lookup-wrong", "%s: op %d getBulk('%s') gen=%ld = %d, expected %d (< %d)", h.name, q.op,
                        show(s).c_str(), (long)q.gen, id, want, cap(hi));
            maxf = std::max(maxf, id);
          }
        }
        if (maxf > minn && h.base_gen == 0)
          sim::fail("dict:torn-bulk", "%s: op %d getBulk saw id %d but missed id %d", h.name, q.op, maxf, minn);
        if (q.val != nf)
          sim::fail("dict:bulk-count", "%s: op %d getBulk reported %zu missing, result has %zu", h.name, q.op, q.val, nf);
        break;
      }
    }
  }
  // fresh queries on the quiescent dictionary equal the reference exactly
  auto exact = [&](const char* what, const std::string& p, const char* op, int64_t gen, Ids got, auto match) {
    std::sort(got.begin(), got.end());
    Ids m;
    int64_t e = gen >= 0 && gen < (int64_t)n ? gen : (int64_t)n;
    for (int32_t i = 0; i < e; ++i)
      if (match(fin[i])) m.push_back(i);
    if (got != m)
      sim::fail("dict:final-query", "%s: final %s('%s'%s) gen=%ld returned %zu ids, expected %zu", h.name, what,
                p.c_str(), op, (long)gen, got.size(), m.size());
  };
  std::set<std::tuple<int, std::string, std::string, int, int>> again;
  for (auto& q : h.queries) again.emplace(q.q, q.pat, q.cmp, q.a, q.b);
  int budget = 12;
  for (auto& [q, pat, cmp, a, b] : again) {
    if (budget-- < 0) break;
    for (int64_t gen : {(int64_t)-1, (int64_t)n / 2}) {
      if (q == Q_LIKE)
        exact("getLike", pat, "", gen, d.getLike(pat, a, b, '\\', gen),
              [&, a = a, b = b, &pat = pat](const std::string& s) { return match_like(s, pat, a, b); });
      if (q == Q_CMP)
        exact("getCompare ", pat, cmp.c_str(), gen, d.getCompare(pat, cmp, gen),
              [&, &pat = pat, &cmp = cmp](const std::string& s) { return match_cmp(s, pat, cmp); });
      if (q == Q_REGEX)
        exact("getRegexpLike", pat, "", gen, d.getRegexpLike(pat, '\\', gen),
              [&, a = a](const std::string& s) { return match_regex(s, a); });
    }
  }
}

// ---- operations --------------------------------------------------------------------------
enum K {
  K_ADD, K_BULK, K_BULK_SV, K_GETBULK, K_GETID, K_GETSTR, K_LIKE, K_CMP, K_REGEX, K_COPY, K_COUNT, K_EACH, K_GETSTRS,
  K_BULK8, K_LONG, K_MAP_ISECT, K_MAP_UNION, K_MAP_CB, K_BYTES, K_MAX
};
const char* const kNames[] = {"getOrAdd", "getOrAddBulk", "getOrAddBulk(sv)", "getBulk", "getIdOfString", "getString",
                              "getLike", "getCompare", "getRegexpLike", "copyStrings", "entryCount",
                              "eachStringSerially", "getStrings", "getOrAddBulk<u8>", "getBulk(too long)",
                              "buildIntersectionTranslationMap", "buildUnionTranslationMap",
                              "buildDictionaryTranslationMap", "getStringBytes", nullptr};

struct Collect : StringDictionary::StringCallback {
  Strs* out;
  bool ordered = true;
  void operator()(std::string const& s, int32_t const id) override { put(s, id); }
  void operator()(std::string_view const s, int32_t const id) override { put(std::string(s), id); }
  void put(const std::string& s, int32_t id) {
    Quiet q;
    if ((size_t)id != out->size()) ordered = false;
    out->push_back(s);
  }
};

struct World {
  StringDictionary* d;
  Hist* h;
  int64_t universe;
  std::set<std::string>* maybe;
};

template <class T>
void bulk_add(World& w, const Op& o, bool sv) {
  Strs in;
  std::vector<size_t> ks;
  std::vector<T> out;
  std::vector<std::string_view> views;
  {
    Quiet q;
    in = batch(o.a[1], (int)o.a[2], w.universe);
    out.assign(in.size(), (T)-7);
    for (auto& s : in) ks.push_back(w.h->begin_add(s)), views.push_back(s);
  }
  bool threw = false;
  try {
    if (sv) w.d->getOrAddBulk(views, out.data());
    else w.d->getOrAddBulk(in, out.data());
  } catch (const std::runtime_error&) {
    threw = true;
  }
  Quiet q;
  if (threw) {
    sim::count("bulk_overflow_rejected");
    for (auto& s : in)
      if (!s.empty()) w.maybe->insert(s);
    if (sizeof(T) >= 4) sim::fail("dict:spurious-reject", "op %d: 32-bit bulk insert rejected", o.id);
    return;
  }
  for (size_t i = 0; i < in.size(); ++i) {
    if (sizeof(T) < 4) {
      T null = inline_int_null_value<T>();
      if (in[i].empty()) {
        SIM_CHECK(out[i] == null, "dict:null-id", "op %d: narrow bulk: empty string got %d", o.id, (int)out[i]);
        w.h->end_add(ks[i], NIL, kNames[o.kind], o.id);
      } else {
        w.h->end_add(ks[i], (int32_t)out[i], kNames[o.kind], o.id);
      }
    } else {
      w.h->end_add(ks[i], (int32_t)out[i], kNames[o.kind], o.id);
    }
  }
}

void do_op(World& w, const Op& o) {
  StringDictionary& d = *w.d;
  Hist& h = *w.h;
  switch (o.kind) {
    case K_ADD: {
      std::string s;
      size_t k;
      {
        Quiet q;
        s = pool(o.a[1] % w.universe);
        k = h.begin_add(s);
      }
      int32_t id = d.getOrAdd(s);
      Quiet q;
      sim::trace("getOrAdd('%s') = %d", show(s).c_str(), id);
      h.end_add(k, id, "getOrAdd", o.id);
      break;
    }
    case K_BULK: bulk_add<int32_t>(w, o, false); break;
    case K_BULK_SV: bulk_add<int32_t>(w, o, true); break;
    case K_BULK8:
      if (o.a[3] & 1) bulk_add<uint16_t>(w, o, o.a[3] & 2);
      else bulk_add<uint8_t>(w, o, o.a[3] & 2);
      break;
    case K_GETBULK: {
      Query qu{};
      {
        Quiet q;
        qu.q = Q_BULK;
        qu.op = o.id;
        qu.strs = batch(o.a[1], (int)o.a[2], w.universe);
        qu.ids.assign(qu.strs.size(), -9);
        qu.gen = o.a[3] < 0 ? -1 : o.a[3];
        qu.inv = sim::event_seq();
      }
      qu.val = d.getBulk(qu.strs, qu.ids.data(), qu.gen);
      Quiet q;
      qu.resp = sim::event_seq();
      for (auto id : qu.ids) sim::note(id);
      h.queries.push_back(std::move(qu));
      break;
    }
    case K_GETID: {
      std::string s;
      Query qu{};
      {
        Quiet q;
        s = pool(1 + o.a[1] % (w.universe - 1));
        qu.inv = sim::event_seq();
      }
      int32_t id = d.getIdOfString(s);
      Quiet q;
      qu.q = Q_BULK;
      qu.op = o.id;
      qu.gen = -1;
      qu.strs = {s};
      qu.ids = {id};
      qu.val = id == -1;
      qu.resp = sim::event_seq();
      sim::note(id);
      h.queries.push_back(std::move(qu));
      break;
    }
    case K_GETSTR:
    case K_GETSTRS: {
      Ids ids;
      Strs want, got;
      {
        Quiet q;
        if (h.known.empty()) return;
        int n = o.kind == K_GETSTR ? 1 : 1 + (int)(o.a[2] % 20);
        for (int i = 0; i < n; ++i) {
          auto it = h.known.begin();
          std::advance(it, Rng::mix(o.a[1] + i) % h.known.size());
          ids.push_back(it->second);
          want.push_back(it->first);
        }
        if (o.a[1] % 9 == 0) ids.push_back(NIL), want.push_back("");
      }
      if (o.kind == K_GETSTR) got.push_back(d.getString(ids[0]));
      else got = d.getStrings(ids);
      Quiet q;
      for (size_t i = 0; i < got.size(); ++i)
        if (got[i] != want[i])
          sim::fail("dict:get-string", "%s: op %d getString(%d) = '%s', expected '%s'", h.name, o.id, ids[i],
                    show(got[i]).c_str(), show(want[i]).c_str());
      break;
    }
    case K_LIKE:
    case K_CMP:
    case K_REGEX: {
      Query qu{};
      {
        Quiet q;
        qu.op = o.id;
        qu.gen = o.a[3] < 0 ? -1 : o.a[3];
        if (o.kind == K_LIKE) {
          qu.q = Q_LIKE;
          qu.a = o.a[2] & 1;
          qu.b = (o.a[2] >> 1) & 1;
          qu.pat = qu.b ? kSimple[o.a[1] % 7] : kLike[o.a[1] % 12];
        } else if (o.kind == K_CMP) {
          qu.q = Q_CMP;
          qu.cmp = kCmp[o.a[2] % 6];
          qu.pat = o.a[1] % 5 == 0 ? std::string("m") : pool(1 + o.a[1] % (w.universe - 1));
        } else {
          qu.q = Q_REGEX;
          qu.a = o.a[1] % 6;
          qu.pat = kRegex[qu.a];
        }
        qu.inv = sim::event_seq();
      }
      if (o.kind == K_LIKE) qu.ids = d.getLike(qu.pat, qu.a, qu.b, '\\', qu.gen);
      else if (o.kind == K_CMP) qu.ids = d.getCompare(qu.pat, qu.cmp, qu.gen);
      else qu.ids = d.getRegexpLike(qu.pat, '\\', qu.gen);
      Quiet q;
      qu.resp = sim::event_seq();
      for (auto id : qu.ids) sim::note(id);
      h.queries.push_back(std::move(qu));
      break;
    }
    case K_COPY:
    case K_EACH: {
      Query qu{};
      Collect c;
      {
        Quiet q;
        qu.q = o.kind == K_COPY ? Q_COPY : Q_EACH;
        qu.op = o.id;
        qu.gen = o.a[3] < 0 ? -1 : o.a[3];
        qu.inv = sim::event_seq();
        c.out = &qu.strs;
      }
      if (o.kind == K_COPY) qu.strs = d.copyStrings(qu.gen);
      else if (qu.gen < 0) d.eachStringSerially(c);
      else d.eachStringSerially(qu.gen, c);
      Quiet q;
      qu.resp = sim::event_seq();
      if (!c.ordered) sim::fail("dict:scan-order", "%s: op %d eachStringSerially ids not ascending from 0", h.name, o.id);
      h.queries.push_back(std::move(qu));
      break;
    }
    case K_COUNT: {
      Query qu{};
      qu.q = Q_COUNT;
      qu.op = o.id;
      qu.inv = sim::event_seq();
      qu.val = d.entryCount();
      qu.resp = sim::event_seq();
      Quiet q;
      sim::note(qu.val);
      h.queries.push_back(std::move(qu));
      break;
    }
    case K_LONG: {
      // a lookup that must be rejected without any effect
      Strs in;
      Ids out;
      {
        Quiet q;
        in = batch(o.a[1], 3, w.universe);
        in.insert(in.begin() + 1, std::string(32768, 'Z'));
        out.assign(4, -9);
      }
      bool threw = false, empty = false;
      {
        Quiet q;
        empty = h.known.empty();
      }
      try {
        d.getBulk(in, out.data());
      } catch (const std::runtime_error&) {
        threw = true;
      }
      Quiet q;
      if (threw) sim::count("long_rejected");
      else if (!empty && h.base_gen == 0)
        sim::fail("dict:accepts-long", "%s: op %d lookup of an over-long string was not rejected", h.name, o.id);
      break;
    }
  }
}

void common_cfg(Rng& r, Plan& p) {
  p.set("threads", r.range(1, 5));
  p.set("materialize", r.below(2));
  p.set("parallel", r.below(2));
  p.set("cap", r.range(1, 8));
  static const int us[] = {4, 12, 40, 150, 400, 3000};
  p.set("universe", us[r.below(6)]);
  p.set("cpus", r.range(1, 4));
  p.set("tbb", r.range(0, 3));
  static const int pre[] = {0, 0, 3, 30, 120, 520};
  p.set("prefill", pre[r.below(6)]);
  p.set("preseed", r.below(1000000));
}
void apply_cfg(const Plan& p) {
  g_enable_stringdict_parallel = p.get("parallel");
  g_cpu_threads_override = (unsigned)p.get("cpus", 2);
  simtbb::set_workers((int)p.get("tbb", 2));
}
int batch_size(Rng& r) {
  int c = (int)r.below(100);
  if (c < 60) return (int)r.range(0, 12);
  if (c < 97) return (int)r.range(13, 150);
  return (int)r.range(1000, 2300);
}
int64_t gen_arg(Rng& r, int64_t u) { return r.chance(0.6) ? -1 : r.range(0, u + 3); }

void gen_common(Rng& r, Plan& p, const std::vector<std::pair<int, int>>& weights) {
  int n = (int)p.get("threads");
  int total = 0;
  for (auto& w : weights) total += w.second;
  int ops = (int)r.range(4, 30);
  int big = 0;
  for (int i = 0; i < ops; ++i) {
    int x = (int)r.below(total), k = 0;
    for (auto& w : weights) {
      if (x < w.second) {
        k = w.first;
        break;
      }
      x -= w.second;
    }
    int sz = batch_size(r);
    if (sz > 500 && ++big > 1) sz = 40;
    p.add((int)r.below(n), k, r.below(3), r.below(r.chance(0.5) ? 16 : 100000), sz,
          k == K_BULK8 ? r.below(4) : gen_arg(r, p.get("universe")), 0);
  }
}
void prefill(World& w, const Plan& p) {
  Quiet q;
  int n = (int)p.get("prefill");
  if (int huge = (int)p.get("huge")) {
    // more strings than any multi-threading threshold
    Strs v;
    std::vector<size_t> ks;
    for (int i = 0; i < huge; ++i) v.push_back(str("H%d", i)), ks.push_back(w.h->begin_add(v.back()));
    auto ids = w.d->getOrAddBulk(v);
    for (int i = 0; i < huge; ++i) w.h->end_add(ks[i], ids[i], "getOrAddBulk", 0);
  }
  if (!n) return;
  Op o{};
  o.id = 0;
  o.kind = K_BULK;
  o.a[1] = p.get("preseed");
  o.a[2] = n;
  bulk_add<int32_t>(w, o, false);
}

// ---- C01 ------------------------------------------------------------------------------------
void c01_gen(Rng& r, Plan& p) {
  common_cfg(r, p);
  std::vector<std::pair<int, int>> w = {{K_ADD, 14}, {K_BULK, 12}, {K_BULK_SV, 4}, {K_GETBULK, 8}, {K_GETID, 6},
                                        {K_GETSTR, 6}, {K_GETSTRS, 3}, {K_LIKE, 7}, {K_CMP, 12}, {K_REGEX, 3},
                                        {K_COPY, 6}, {K_COUNT, 5}, {K_EACH, 4}};
  for (auto& x : w)  // swarm: drop some operation kinds entirely
    if (x.first != K_ADD && r.chance(0.3)) x.second = 0;
  if (r.chance(0.01)) {
    p.set("huge", r.range(9990, 10100));
    p.set("cap", r.range(8, 15));
    p.set("cpus", r.range(1, 8));
  }
  gen_common(r, p, w);
  if (p.get("huge")) {
    p.nops = std::min(p.nops, 8);
    // one regular expression is compiled per string: 10k strings would only exercise boost
    for (int i = 0; i < p.nops; ++i)
      if (p.ops[i].kind == K_REGEX) p.ops[i].kind = K_LIKE;
    p.add((int)r.below(p.get("threads")), K_COPY, 0, 0, 0, r.chance(0.7) ? -1 : r.range(9000, 10100));
  }
}
void dict_run(const Plan& p) {
  apply_cfg(p);
  Hist h;
  h.name = "dict";
  std::set<std::string> maybe;
  std::unique_ptr<StringDictionary> d;
  World w;
  {
    Quiet q;
    d = std::make_unique<StringDictionary>(DictRef(1, 1), p.get("materialize"), (size_t)1 << p.get("cap"));
    w = {d.get(), &h, p.get("universe"), &maybe};
  }
  prefill(w, p);
  run_threads(p, (int)p.get("threads"), [&](int, const Op& o) { do_op(w, o); });
  Quiet q;
  check_final(*d, h, maybe);
  d.reset();
}
// ---- C02: rejected operations ---------------------------------------------------------------
void c02_gen(Rng& r, Plan& p) {
  common_cfg(r, p);
  static const int us[] = {150, 300, 400, 600};
  p.set("universe", us[r.below(4)]);
  static const int pre[] = {0, 100, 250, 253, 300};
  p.set("prefill", pre[r.below(5)]);
  p.set("threads", r.range(1, 4));
  std::vector<std::pair<int, int>> w = {{K_BULK8, 30}, {K_LONG, 4}, {K_ADD, 10}, {K_BULK, 8}, {K_GETBULK, 6},
                                        {K_GETID, 4}, {K_GETSTR, 4}, {K_LIKE, 3}, {K_CMP, 6}, {K_COPY, 4},
                                        {K_COUNT, 3}, {K_EACH, 2}};
  for (auto& x : w)
    if (x.first != K_BULK8 && r.chance(0.3)) x.second = 0;
  gen_common(r, p, w);
  for (int i = 0; i < p.nops; ++i) {
    if (p.ops[i].kind == K_BULK8) p.ops[i].a[2] = r.chance(0.5) ? r.range(1, 20) : r.range(60, 300);
    if (p.ops[i].kind == K_BULK8 && r.chance(0.8)) p.ops[i].a[3] &= ~1;
  }
}
// ---- C03: nested dictionaries and translation ----------------------------------------------------
void c03_gen(Rng& r, Plan& p) {
  common_cfg(r, p);
  p.set("threads", r.range(2, 5));
  static const int us[] = {4, 12, 40, 150, 400};
  p.set("universe", us[r.below(5)]);
  p.set("gen", r.chance(0.5) ? -1 : r.range(0, 40));
  p.set("deep", r.chance(0.3));
  p.set("prefill", r.range(0, 80));
  p.set("other", r.range(0, 60));
  int n = (int)p.get("threads");
  int ops = (int)r.range(4, 26);
  static const int kinds[] = {K_ADD, K_BULK8, K_BULK, K_BULK, K_BULK_SV, K_GETBULK, K_GETID, K_GETSTR, K_LIKE, K_CMP, K_CMP, K_REGEX,
                              K_COPY, K_COUNT, K_EACH, K_MAP_ISECT, K_MAP_UNION, K_MAP_CB, K_MAP_ISECT, K_MAP_UNION};
  for (int i = 0; i < ops; ++i) {
    int k = kinds[r.below(20)];
    int sz = (int)r.range(0, 40);
    int target = (int)r.below(p.get("deep") ? 4 : 3);  // 0 base, 1 nested, 2 other, 3 nested twice
    p.add((int)r.below(n), k, target, r.below(r.chance(0.5) ? 16 : 100000), sz,
          k == K_BULK8 ? r.below(4) : gen_arg(r, p.get("universe")), r.below(4));
  }
}
struct MapRec {
  int op, src, dst;
  uint64_t inv, resp;
  bool uni;
  Ids ids;
};
void c03_run(const Plan& p) {
  apply_cfg(p);
  Hist h[4];
  const char* names[] = {"base", "nested", "other", "nested2"};
  std::set<std::string> maybe[4];
  std::shared_ptr<StringDictionary> d[4];
  World w[4];
  std::vector<MapRec> maps;
  int nd = p.get("deep") ? 4 : 3;
  {
    Quiet q;
    d[0] = std::make_shared<StringDictionary>(DictRef(1, 1), p.get("materialize"), (size_t)1 << p.get("cap"));
    d[2] = std::make_shared<StringDictionary>(DictRef(1, 2), !p.get("materialize"), (size_t)1 << p.get("cap"));
    for (int i = 0; i < 4; ++i) h[i].name = names[i];
    w[0] = {d[0].get(), &h[0], p.get("universe"), &maybe[0]};
    w[2] = {d[2].get(), &h[2], p.get("universe"), &maybe[2]};
    prefill(w[0], p);
    Op o{};
    o.kind = K_BULK;
    o.a[1] = p.get("preseed") + 1;
    o.a[2] = p.get("other");
    bulk_add<int32_t>(w[2], o, false);
    int64_t g = p.get("gen");
    if (g > (int64_t)d[0]->entryCount()) g = -1;
    d[1] = std::make_shared<StringDictionary>(d[0], g, p.get("materialize"), (size_t)(p.get("cap") > 4 ? 8 : 0));
    h[1].base_gen = (int)d[1]->getBaseGeneration();
    SIM_CHECK(h[1].base_gen == (g >= 0 ? g : (int64_t)d[0]->entryCount()), "dict:nested-generation", "base generation %d",
              h[1].base_gen);
    w[1] = {d[1].get(), &h[1], p.get("universe"), &maybe[1]};
    if (nd == 4) {
      Op o2 = o;
      o2.a[1] += 5;
      o2.a[2] = 6;
      bulk_add<int32_t>(w[1], o2, false);
      d[3] = std::make_shared<StringDictionary>(d[1], -1, false, 0);
      h[3].base_gen = (int)d[3]->getBaseGeneration();
      w[3] = {d[3].get(), &h[3], p.get("universe"), &maybe[3]};
    }
  }
  run_threads(p, (int)p.get("threads"), [&](int, const Op& o) {
    int t = (int)(o.a[0] % nd);
    if (o.kind < K_MAP_ISECT) {
      do_op(w[t], o);
      return;
    }
    // translation between a dictionary of the nested family and the unrelated one
    int src = t, dst = 2;
    if (t == 2) dst = o.a[4] % nd == 2 ? 0 : (int)(o.a[4] % nd);
    if (src == dst) return;
    MapRec m;
    std::vector<size_t> ks;
    {
      Quiet q;
      m.op = o.id;
      m.src = src;
      m.dst = dst;
      m.uni = o.kind == K_MAP_UNION;
      m.inv = sim::event_seq();
    }
    if (o.kind == K_MAP_ISECT) {
      m.ids = d[src]->buildIntersectionTranslationMap(d[dst].get());
    } else if (o.kind == K_MAP_UNION) {
      m.ids = d[src]->buildUnionTranslationMap(d[dst].get());
    } else {
      m.ids = StringDictionaryTranslator::buildDictionaryTranslationMap(
          d[src], d[dst], [](std::string_view, int32_t) { return true; });
    }
    Quiet q;
    m.resp = sim::event_seq();
    for (auto id : m.ids) sim::note(id);
    maps.push_back(std::move(m));
  });
  Quiet q;
  Strs fin[4];
  for (int i = 0; i < nd; ++i)
    for (size_t k = 0; k < d[i]->entryCount(); ++k) fin[i].push_back(d[i]->getString((int)k));
  // the nested dictionary's low ids are the base's
  for (int i = 0; i < h[1].base_gen; ++i)
    SIM_CHECK(fin[1][i] == fin[0][i], "dict:nested-prefix", "nested id %d = '%s', base has '%s'", i,
              show(fin[1][i]).c_str(), show(fin[0][i]).c_str());
  for (auto& m : maps) {
    auto lo = [&](int k, uint64_t inv) {
      int32_t v = h[k].base_gen;
      for (auto& a : h[k].adds)
        if (a.done && !a.s.empty() && a.resp < inv) v = std::max(v, a.id + 1);
      return v;
    };
    int32_t lsrc = lo(m.src, m.inv), ldst = lo(m.dst, m.inv);
    SIM_CHECK((int)m.ids.size() >= lsrc && m.ids.size() <= fin[m.src].size(), "dict:map-size",
              "op %d: translation map has %zu entries, source had at least %d and has %zu", m.op, m.ids.size(), lsrc,
              fin[m.src].size());
    std::map<std::string, int32_t> where;
    for (size_t k = 0; k < fin[m.dst].size(); ++k) where.emplace(fin[m.dst][k], (int)k);
    for (size_t i = 0; i < m.ids.size(); ++i) {
      const auto& s = fin[m.src][i];
      auto it = where.find(s);
      int32_t want = it == where.end() ? -1 : it->second;
      if (m.ids[i] >= 0) {
        SIM_CHECK(m.ids[i] == want, "dict:map-wrong", "op %d: %s id %zu ('%s') translated to %s id %d, which is %d", m.op,
                  names[m.src], i, show(s).c_str(), names[m.dst], m.ids[i], want);
      } else {
        SIM_CHECK(m.ids[i] == -1, "dict:map-wrong", "op %d: entry %zu is %d", m.op, i, m.ids[i]);
        SIM_CHECK(!m.uni, "dict:map-union-hole", "op %d: union map left %s id %zu untranslated", m.op, names[m.src], i);
        SIM_CHECK(want < 0 || want >= ldst, "dict:map-miss",
                  "op %d: %s id %zu ('%s') left untranslated although %s had it as id %d before the call", m.op,
                  names[m.src], i, show(s).c_str(), names[m.dst], want);
      }
    }
    // strings the union added to the destination count as added by this operation
    if (m.uni)
      for (size_t i = 0; i < m.ids.size(); ++i)
        h[m.dst].adds.push_back({fin[m.src][i], m.ids[i], m.inv, m.resp, true});
  }
  // nested dictionaries: a string resolves to the base id when that is below the generation
  for (int k : {1, 3}) {
    if (k >= nd) break;
    for (auto& a : h[k].adds) {
      if (!a.done || a.s.empty()) continue;
      int b = k == 1 ? 0 : 1;
      for (int i = 0; i < h[k].base_gen; ++i)
        if (fin[b][i] == a.s)
          SIM_CHECK(a.id == i, "dict:nested-shadow", "%s: '%s' has base id %d below the generation but got %d", names[k],
                    show(a.s).c_str(), i, a.id);
    }
  }
  for (int i = 0; i < nd; ++i) check_final(*d[i], h[i], maybe[i]);
  // equality is by content
  SIM_CHECK(*d[2] == *d[2], "dict:equality", "a dictionary differs from itself");
  auto twin = std::make_shared<StringDictionary>(d[0], h[1].base_gen, true);
  Strs own(fin[1].begin() + h[1].base_gen, fin[1].end());
  twin->getOrAddBulk(own);
  SIM_CHECK(*twin == *d[1], "dict:equality", "nested dictionaries with the same base and content compare unequal");
  if (!own.empty()) {
    auto twin2 = std::make_shared<StringDictionary>(d[0], h[1].base_gen, true);
    Strs o2 = own;
    o2.back() = "#different";
    twin2->getOrAddBulk(o2);
    SIM_CHECK(*twin2 != *d[1], "dict:equality", "nested dictionaries with different content compare equal (base generation %d, %zu own strings)",
              h[1].base_gen, own.size());
  }
}

sim::Scenario s1 = {"C01", "dict", init_pool, c01_gen, dict_run, kNames, 60000000};
sim::Scenario s2 = {"C02", "dict-reject", init_pool, c02_gen, dict_run, kNames, 60000000};
sim::Scenario s3 = {"C03", "dict-nested", init_pool, c03_gen, c03_run, kNames, 60000000};
sim::Registrar r1(&s1), r2(&s2), r3(&s3);
}  // namespace
