// C22: the catalogue: clients look tables and columns up while others create and drop them.
#include "harness.h"

#include <algorithm>
#include <set>

#include "IR/Context.h"
#include "SchemaMgr/SchemaMgr.h"
#include "SchemaMgr/SimpleSchemaProvider.h"

using namespace hs;
namespace {
enum { X_CREATE, X_DROP, X_LOOK, X_LIST, X_FOREIGN, X_DBS };
const char* const kNames[] = {"create", "drop", "look up own", "list", "look up others'", "list databases", nullptr};

// stores change their catalogue the way ArrowStorage and the result set registry do: all of a table under the lock
struct Provider : SimpleSchemaProvider {
  using SimpleSchemaProvider::SimpleSchemaProvider;
  int next = 1;
  int create(int db, const std::string& name, int ncols, int stride, bool rowid, size_t frags, size_t rows, bool view, bool stream) {
    mapd_unique_lock<mapd_shared_mutex> lock(schema_mutex_);
    int id = next;
    next += stride;
    addTableInfo(db, id, name, view, frags, rows, stream);
    for (int c = 0; c < ncols; ++c) addColumnInfo(db, id, col_id(c), col_name(name, c), col_type(c), false);
    if (rowid) addRowidColumn(db, id, col_id(ncols));
    return id;
  }
  void drop(int db, int id) {
    mapd_unique_lock<mapd_shared_mutex> lock(schema_mutex_);
    dropTable(db, id);
  }
  static int col_id(int c) { return c * 3 + 1; }
  static std::string col_name(const std::string&, int c) {
    static const char* const n[] = {"zeta", "alpha", "m", "b", "rowid_", "a", "zz", "k"};
    return c < 8 ? n[c] : "c" + std::to_string(c);
  }
  const hdk::ir::Type* col_type(int c) const {
    auto& x = hdk::ir::Context::defaultCtx();
    switch (c % 5) {
      case 0: return x.int32();
      case 1: return x.int64(false);
      case 2: return x.fp64();
      case 3: return x.text();
      default: return x.boolean();
    }
  }
};
struct Tab {
  int db, id, ncols, thread;
  bool rowid, view, stream;
  size_t frags, rows;
  std::string name;
  bool live = true;
};
void gen(Rng& r, Plan& p) {
  int n = (int)r.range(1, 4);
  p.set("threads", n);
  p.set("providers", r.range(1, 3));
  p.set("ids", r.next() >> 2);
  p.set("direct", r.chance(0.3));
  int ops = (int)r.range(4, 40);
  for (int i = 0; i < ops; ++i) {
    static const int kinds[] = {X_CREATE, X_CREATE, X_CREATE, X_DROP, X_LOOK, X_LOOK, X_LIST, X_LIST, X_FOREIGN, X_FOREIGN, X_DBS};
    // provider/database, name, columns, properties, choice
    p.add((int)r.below(n), i < n ? X_CREATE : kinds[r.below(11)], r.below(6), r.below(5), r.below(10), r.below(256), r.below(1000));
  }
}
void run(const Plan& p) {
  int n = (int)p.get("threads", 1), np = (int)p.get("providers", 1);
  std::vector<std::shared_ptr<Provider>> pr;
  std::vector<int> sid, dbs;
  auto mgr = std::make_shared<SchemaMgr>();
  std::vector<std::vector<Tab>> tabs(n);
  std::map<std::pair<int, int>, std::pair<int, int>> all;  // (db, id) -> owner; only touched by the harness
  {
    Quiet q;
    Rng r((uint64_t)p.get("ids"));
    std::set<int> used;
    for (int i = 0; i < np; ++i) {
      int s;
      do s = r.chance(0.3) ? (r.chance(0.5) ? MIN_SCHEMA_ID : MAX_SCHEMA_ID) : (int)r.range(0, 127);
      while (!used.insert(s).second);
      sid.push_back(s);
      pr.push_back(std::make_shared<Provider>(hdk::ir::Context::defaultCtx(), s, "p" + std::to_string(i)));
    }
    // databases of the same number in every provider
    for (int d = 0; d < 6; ++d) {
      static const int nums[] = {1, 0, 2, 7, MAX_DB_ID, MAX_DB_ID - 1};
      dbs.push_back(addSchemaIdChecked(nums[d / np], sid[d % np]));
      if (getSchemaId(dbs.back()) != sid[d % np]) sim::fail("schema:id", "schema %d of database %d reads as %d", sid[d % np], nums[d / np], getSchemaId(dbs.back()));
    }
  }
  for (int i = 0; i < np; ++i) mgr->registerProvider(sid[i], pr[i]);
  try {
    mgr->registerProvider(sid[0], pr[np - 1]);
    sim::fail("schema:duplicate", "two providers registered for schema %d", sid[0]);
  } catch (const std::runtime_error&) {
  }
  auto same = [](const Tab& t, const TableInfoPtr& i) { return i->db_id == t.db && i->table_id == t.id && i->name == t.name && i->is_view == t.view && i->is_stream == t.stream && i->fragments == t.frags && i->row_count == t.rows; };
  auto check_cols = [&](const Tab& t, const ColumnInfoList& cs, const SchemaProvider* sp, const char* how) {
    size_t want = (size_t)t.ncols + t.rowid;
    SIM_CHECK(cs.size() == want, "schema:columns", "%s: table %s has %zu columns, not %zu", how, t.name.c_str(), cs.size(), want);
    for (size_t c = 0; c < want; ++c) {
      bool rid = (int)c == t.ncols;
      std::string nm;
      {
        Quiet q;
        nm = rid ? "rowid" : Provider::col_name(t.name, (int)c);
      }
      auto& i = cs[c];
      SIM_CHECK(i->db_id == t.db && i->table_id == t.id && i->column_id == Provider::col_id((int)c) && i->name == nm && i->is_rowid == rid, "schema:columns", "%s: column %zu of %s is %s", how, c, t.name.c_str(), i->toString().c_str());
      SIM_CHECK(rid || i->type == pr[0]->col_type((int)c), "schema:columns", "%s: column %s of %s has type %s", how, nm.c_str(), t.name.c_str(), i->type->toString().c_str());
      auto a = sp->getColumnInfo(t.db, t.id, i->column_id), b = sp->getColumnInfo(t.db, t.id, nm);
      SIM_CHECK(a == i && b == i, "schema:columns", "%s: column %s of %s differs by id, by name and in the list", how, nm.c_str(), t.name.c_str());
    }
    SIM_CHECK(!sp->getColumnInfo(t.db, t.id, Provider::col_id((int)want)) && !sp->getColumnInfo(t.db, t.id, std::string("nosuch")), "schema:phantom", "%s: table %s has a column nobody created", how, t.name.c_str());
  };
  auto body = [&](int t, const Op& o) {
    int d = (int)o.a[0], db = dbs[d];
    auto& prov = *pr[d % np];
    const SchemaProvider* sp = p.get("direct") ? (const SchemaProvider*)&prov : mgr.get();
    auto& mine = tabs[t];
    auto pick = [&](bool live) -> Tab* {
      Quiet q;
      std::vector<Tab*> c;
      for (auto& x : mine)
        if (x.live == live) c.push_back(&x);
      return c.empty() ? nullptr : c[(size_t)o.a[4] % c.size()];
    };
    auto prov_of = [&](int dbid) {
      for (int i = 0; i < 6; ++i)
        if (dbs[i] == dbid) return pr[i % np].get();
      return pr[0].get();
    };
    auto via = [&](int dbid) { return p.get("direct") ? (const SchemaProvider*)prov_of(dbid) : sp; };
    switch (o.kind) {
      case X_CREATE: {
        Tab x;
        {
          Quiet q;
          x = Tab{db, 0, (int)o.a[2] + 1, t, (o.a[3] & 1) != 0, (o.a[3] & 2) != 0, (o.a[3] & 4) != 0, (size_t)o.a[3], (size_t)o.a[4], str("t%d_%d", t, (int)o.a[1])};
          for (auto& y : mine)
            if (y.live && y.db == db && y.name == x.name) x.live = false;
        }
        if (!x.live) break;
        x.id = prov.create(db, x.name, x.ncols, 1 + (int)(o.a[3] >> 6), x.rowid, x.frags, x.rows, x.view, x.stream);
        {
          Quiet q;
          auto& w = all[{db, x.id}];
          SIM_CHECK(!w.second, "schema:id", "two tables have the id %d", x.id);
          w = {t, 1};
          mine.push_back(x);
        }
        auto i = sp->getTableInfo(db, x.id);
        SIM_CHECK(i && same(x, i), "schema:lost", "table %s is not what was created", x.name.c_str());
        sim::count("created");
        break;
      }
      case X_DROP: {
        Tab* x = pick(true);
        if (!x) break;
        prov_of(x->db)->drop(x->db, x->id);
        x->live = false;
        sim::count("dropped");
        break;
      }
      case X_LOOK: {
        if (Tab* x = pick(true)) {
          auto v = via(x->db);
          auto a = v->getTableInfo(x->db, x->id), b = v->getTableInfo(x->db, x->name);
          SIM_CHECK(a && b && a == b, "schema:lost", "table %s (%d) by id: %s, by name: %s", x->name.c_str(), x->id, a ? a->toString().c_str() : "none", b ? b->toString().c_str() : "none");
          SIM_CHECK(same(*x, a), "schema:wrong", "table %s (%d) is %s", x->name.c_str(), x->id, a->toString().c_str());
          check_cols(*x, v->listColumns(x->db, x->id), v, "look up");
        }
        if (Tab* x = pick(false)) {
          auto v = via(x->db);
          SIM_CHECK(!v->getTableInfo(x->db, x->id), "schema:zombie", "dropped table %s (%d) is still there", x->name.c_str(), x->id);
          SIM_CHECK(!v->getColumnInfo(x->db, x->id, Provider::col_id(0)), "schema:zombie", "a column of dropped table %s (%d) is still there", x->name.c_str(), x->id);
          for (int c = 0; c < x->ncols; ++c) {
            std::string nm;
            {
              Quiet q;
              nm = Provider::col_name(x->name, c);
            }
            SIM_CHECK(!v->getColumnInfo(x->db, x->id, nm), "schema:zombie", "column %s of dropped table %s is still there", nm.c_str(), x->name.c_str());
          }
        }
        break;
      }
      case X_LIST: {
        auto l = sp->listTables(db);
        Quiet q;
        std::set<int> ids;
        std::set<std::string> names;
        for (auto& i : l) {
          SIM_CHECK(i && i->db_id == db, "schema:list", "a table of database %d in the list of %d", i ? i->db_id : -1, db);
          SIM_CHECK(ids.insert(i->table_id).second && names.insert(i->name).second, "schema:list", "table %s is listed twice", i->name.c_str());
        }
        for (auto& x : mine)
          if (x.db == db) SIM_CHECK(ids.count(x.id) == x.live, "schema:list", "table %s (%d) is %s, and %s", x.name.c_str(), x.id, x.live ? "live" : "dropped", ids.count(x.id) ? "listed" : "not listed");
        sim::note(l.size());
        break;
      }
      case X_FOREIGN: {
        std::string nm;
        {
          Quiet q;
          nm = str("t%d_%d", (int)o.a[4] % n, (int)o.a[1]);
        }
        auto a = sp->getTableInfo(db, nm);
        if (!a) break;
        SIM_CHECK(a->db_id == db && a->name == nm, "schema:wrong", "asked for %s, got %s", nm.c_str(), a->toString().c_str());
        auto b = sp->getTableInfo(db, a->table_id);
        SIM_CHECK(!b || b == a, "schema:wrong", "table %s by name is not the one by its id", nm.c_str());
        auto c = sp->getColumnInfo(db, a->table_id, Provider::col_id(0));
        SIM_CHECK(!c || (c->db_id == db && c->table_id == a->table_id && !c->is_rowid && c->type == prov.col_type(0)), "schema:wrong", "first column of %s is %s", nm.c_str(), c->toString().c_str());
        sim::count("foreign_lookups");
        break;
      }
      default: {
        auto l = mgr->listDatabases();
        Quiet q;
        std::set<int> s;
        for (int x : l) SIM_CHECK(s.insert(x).second && std::count(dbs.begin(), dbs.end(), x), "schema:databases", "database %d is listed twice or does not exist", x);
        for (auto& x : mine)
          if (x.live) SIM_CHECK(s.count(x.db), "schema:databases", "database %d with table %s is not listed", x.db, x.name.c_str());
      }
    }
  };
  run_threads(p, n, body);
  // at rest: the merged catalogue has exactly the live tables
  std::vector<SchemaProviderPtr> ps;
  for (auto& x : pr) ps.push_back(x);
  auto merged = mergeProviders(ps);
  for (int d = 0; d < 6; ++d) {
    auto l = merged->listTables(dbs[d]);
    size_t want = 0;
    for (auto& m : tabs)
      for (auto& x : m)
        if (x.db == dbs[d] && x.live) {
          ++want;
          auto i = merged->getTableInfo(x.db, x.name);
          SIM_CHECK(i && same(x, i), "schema:merged", "table %s is lost or wrong in the merged catalogue", x.name.c_str());
          check_cols(x, merged->listColumns(x.db, x.id), merged.get(), "merged");
        }
    SIM_CHECK(l.size() == want, "schema:merged", "database %d has %zu tables, not %zu", dbs[d], l.size(), want);
  }
  int none = 5;
  while (std::count(sid.begin(), sid.end(), none)) ++none;
  int nodb = addSchemaId(1, none);
  SIM_CHECK(merged->listTables(nodb).empty() && !merged->getTableInfo(nodb, 1) && !mgr->getTableInfo(nodb, std::string("t0_0")) && !mgr->getColumnInfo(nodb, 1, 1), "schema:merged", "a database of no provider has tables");
}
sim::Scenario s22{"C22", "schema", nullptr, gen, run, kNames, 60'000'000};
sim::Registrar r22(&s22);
}  // namespace
