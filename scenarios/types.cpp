// C12: interning of IR types, concurrent creation, copies between contexts.
#include "harness.h"

#include "IR/Context.h"
#include "IR/Exception.h"
#include "IR/Type.h"

using namespace hs;
using namespace hdk::ir;
namespace {
// An independent description of a type: what the user asks for.
struct Spec {
  int kind = 0;  // Type::Id
  int size = 0;
  bool nullable = true;
  int a = 0, b = 0;    // precision, scale / max length / number of elements / dictionary id
  int unit = 0;        // TimeUnit
  std::shared_ptr<Spec> elem;
};
const char* const kUnits[] = {"m", "d", "s", "ms", "us", "ns"};
const TimeUnit kUnit[] = {TimeUnit::kMonth, TimeUnit::kDay, TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};

std::string nn(const Spec& s) { return s.nullable ? "" : "[NN]"; }
std::string show(const Spec& s) {
  switch (s.kind) {
    case Type::kNull: return "NULLT";
    case Type::kBoolean: return "BOOL" + nn(s);
    case Type::kInteger: return str("INT%d", s.size * 8) + nn(s);
    case Type::kFloatingPoint: return str("FP%d", s.size * 8) + nn(s);
    case Type::kDecimal: return str("DEC%d(%d,%d)", s.size * 8, s.a, s.b) + nn(s);
    case Type::kVarChar: return str("VARCHAR(%d)", s.a) + nn(s);
    case Type::kText: return "TEXT" + nn(s);
    case Type::kDate: return str("DATE%d[%s]", s.size * 8, kUnits[s.unit]) + nn(s);
    case Type::kTime: return str("TIME%d[%s]", s.size * 8, kUnits[s.unit]) + nn(s);
    case Type::kTimestamp: return str("TIMESTAMP[%s]", kUnits[s.unit]) + nn(s);
    case Type::kInterval: return str("INTERVAL%d[%s]", s.size * 8, kUnits[s.unit]) + nn(s);
    case Type::kFixedLenArray: return "ARRAY(" + show(*s.elem) + str(")(%d)", s.a) + nn(s);
    case Type::kVarLenArray: return str("ARRAY%d(", s.size * 8) + show(*s.elem) + ")" + nn(s);
    case Type::kExtDictionary: return str("DICT%d(", s.size * 8) + show(*s.elem) + str(")[%d]", s.a) + (s.elem->nullable ? "" : "[NN]");
    case Type::kColumn: return "COLUMN(" + show(*s.elem) + ")" + nn(s);
    default: return str("COLUMN_LIST%d(", s.a) + show(*s.elem) + ")" + nn(s);
  }
}
bool elem_ok(const Spec& e) {
  switch (e.kind) {
    case Type::kVarChar: case Type::kText: case Type::kFixedLenArray: case Type::kVarLenArray: case Type::kColumn: case Type::kColumnList: return false;
    default: return true;
  }
}
bool valid(const Spec& s) {
  if (s.elem && !valid(*s.elem)) return false;
  switch (s.kind) {
    case Type::kInteger: return s.size == 1 || s.size == 2 || s.size == 4 || s.size == 8;
    case Type::kDecimal: return s.size == 8 && s.a >= 0 && s.b >= 0;
    case Type::kVarChar: return s.a >= 0;
    case Type::kDate:
      if (s.size != 2 && s.size != 4 && s.size != 8) return false;
      if (s.unit == 0) return false;
      if (s.size == 2) return s.unit == 1;
      if (s.size == 4) return s.unit == 1 || s.unit == 2;
      return true;
    case Type::kTime:
      if (s.size != 2 && s.size != 4 && s.size != 8) return false;
      if (s.unit < 2) return false;
      if (s.size == 2) return s.unit == 2;
      if (s.size == 4) return s.unit == 2 || s.unit == 3;
      return true;
    case Type::kTimestamp: return s.unit >= 2;
    case Type::kFixedLenArray: return s.a >= 0 && elem_ok(*s.elem);
    case Type::kVarLenArray: return s.size == 4 && elem_ok(*s.elem);
    case Type::kExtDictionary: return (s.size == 1 || s.size == 2 || s.size == 4) && (s.elem->kind == Type::kText || s.elem->kind == Type::kVarChar);
    case Type::kColumnList: return s.a >= 1;
    default: return true;
  }
}
Spec make_spec(Rng& r, int depth, int wide) {
  Spec s;
  static const int flat[] = {Type::kBoolean, Type::kInteger, Type::kInteger, Type::kFloatingPoint, Type::kDecimal, Type::kVarChar, Type::kText,
                             Type::kDate, Type::kTime, Type::kTimestamp, Type::kInterval, Type::kNull};
  static const int deep[] = {Type::kFixedLenArray, Type::kVarLenArray, Type::kExtDictionary, Type::kColumn, Type::kColumnList};
  if (depth < 2 && r.chance(0.35)) s.kind = deep[r.below(5)];
  else s.kind = flat[r.below(12)];
  s.nullable = r.below(2);
  static const int sizes[] = {1, 2, 4, 8};
  bool odd = r.chance(0.06);
  switch (s.kind) {
    case Type::kNull: s.nullable = true; break;
    case Type::kInteger: s.size = odd ? (int)r.range(-1, 16) : sizes[r.below(4)]; break;
    case Type::kFloatingPoint: s.size = r.below(2) ? 4 : 8; break;
    case Type::kDecimal: s.size = odd ? 4 : 8; s.a = (int)r.range(odd ? -1 : 0, wide + 3); s.b = (int)r.range(odd ? -1 : 0, 3); break;
    case Type::kVarChar: s.a = (int)r.range(odd ? -2 : 0, wide + 2); break;
    case Type::kDate: case Type::kTime: s.size = odd ? 1 : sizes[r.range(1, 3)]; s.unit = (int)r.below(6); break;
    case Type::kTimestamp: s.unit = (int)r.range(odd ? 0 : 2, 5); break;
    case Type::kInterval: s.size = sizes[r.range(1, 3)]; s.unit = (int)r.below(6); break;
    case Type::kFixedLenArray: s.a = (int)r.range(odd ? -1 : 0, wide + 2); break;
    case Type::kVarLenArray: s.size = odd ? 8 : 4; break;
    case Type::kExtDictionary: s.size = odd ? 8 : sizes[r.below(3)]; s.a = (int)r.range(-1, wide + 2); break;
    case Type::kColumnList: s.a = (int)r.range(odd ? 0 : 1, 3); break;
    default: break;
  }
  if (s.kind >= Type::kFixedLenArray) {
    s.elem = std::make_shared<Spec>(make_spec(r, depth + 1, wide));
    if (s.kind == Type::kExtDictionary && r.chance(0.9)) {
      *s.elem = Spec();
      s.elem->kind = r.chance(0.8) ? Type::kText : Type::kVarChar;
      s.elem->a = (int)r.below(3);
      s.elem->nullable = r.below(2);
      s.nullable = s.elem->nullable;
    }
  }
  return s;
}
const Type* create(Context& c, const Spec& s, int how) {
  switch (s.kind) {
    case Type::kNull: return c.null();
    case Type::kBoolean: return c.boolean(s.nullable);
    case Type::kInteger:
      if (how % 2 == 1) {
        if (s.size == 1) return c.int8(s.nullable);
        if (s.size == 2) return c.int16(s.nullable);
        if (s.size == 4) return c.int32(s.nullable);
        if (s.size == 8) return c.int64(s.nullable);
      }
      return c.integer(s.size, s.nullable);
    case Type::kFloatingPoint:
      if (how % 2) return s.size == 4 ? c.fp32(s.nullable) : c.fp64(s.nullable);
      return c.fp(s.size == 4 ? FloatingPointType::kFloat : FloatingPointType::kDouble, s.nullable);
    case Type::kDecimal: return how % 2 && s.size == 8 ? c.decimal64(s.a, s.b, s.nullable) : c.decimal(s.size, s.a, s.b, s.nullable);
    case Type::kVarChar: return c.varChar(s.a, s.nullable);
    case Type::kText: return c.text(s.nullable);
    case Type::kDate:
      if (how % 2 && s.size == 2) return c.date16(kUnit[s.unit], s.nullable);
      if (how % 2 && s.size == 4) return c.date32(kUnit[s.unit], s.nullable);
      if (how % 2 && s.size == 8) return c.date64(kUnit[s.unit], s.nullable);
      return c.date(s.size, kUnit[s.unit], s.nullable);
    case Type::kTime:
      if (how % 2 && s.size == 2) return c.time16(kUnit[s.unit], s.nullable);
      if (how % 2 && s.size == 4) return c.time32(kUnit[s.unit], s.nullable);
      if (how % 2 && s.size == 8) return c.time64(kUnit[s.unit], s.nullable);
      return c.time(s.size, kUnit[s.unit], s.nullable);
    case Type::kTimestamp: return c.timestamp(kUnit[s.unit], s.nullable);
    case Type::kInterval:
      if (how % 2 && s.size == 2) return c.interval16(kUnit[s.unit], s.nullable);
      if (how % 2 && s.size == 4) return c.interval32(kUnit[s.unit], s.nullable);
      if (how % 2 && s.size == 8) return c.interval64(kUnit[s.unit], s.nullable);
      return c.interval(s.size, kUnit[s.unit], s.nullable);
    case Type::kFixedLenArray: return c.arrayFixed(s.a, create(c, *s.elem, how / 2), s.nullable);
    case Type::kVarLenArray: return c.arrayVarLen(create(c, *s.elem, how / 2), s.size, s.nullable);
    case Type::kExtDictionary: return c.extDict(create(c, *s.elem, how / 2), s.a, s.size);
    case Type::kColumn: return c.column(create(c, *s.elem, how / 2), s.nullable);
    default: return c.columnList(create(c, *s.elem, how / 2), s.a, s.nullable);
  }
}
// the type says what was asked for
std::string mismatch(const Type* t, const Spec& s, Context* ctx) {
  if (&t->ctx() != ctx) return "belongs to another context";
  if ((int)t->id() != s.kind) return str("has kind %d", (int)t->id());
  bool nullable = s.kind == Type::kExtDictionary ? s.elem->nullable : s.nullable;
  if (t->nullable() != nullable) return "has the wrong nullability";
  int size = s.size;
  switch (s.kind) {
    case Type::kNull: size = 0; break;
    case Type::kBoolean: size = 1; break;
    case Type::kVarChar: case Type::kText: case Type::kVarLenArray: size = -1; break;
    case Type::kTimestamp: size = 8; break;
    case Type::kFixedLenArray: size = s.a * static_cast<const FixedLenArrayType*>(t)->elemType()->size(); break;
    case Type::kColumn: size = static_cast<const ColumnType*>(t)->columnType()->size(); break;
    case Type::kColumnList: size = static_cast<const ColumnListType*>(t)->columnType()->size(); break;
    default: break;
  }
  if (t->size() != size) return str("has size %d", t->size());
  switch (s.kind) {
    case Type::kFloatingPoint:
      if ((static_cast<const FloatingPointType*>(t)->precision() == FloatingPointType::kFloat) != (s.size == 4)) return "has the wrong precision";
      break;
    case Type::kDecimal:
      if (static_cast<const DecimalType*>(t)->precision() != s.a || static_cast<const DecimalType*>(t)->scale() != s.b) return "has the wrong precision or scale";
      break;
    case Type::kVarChar:
      if (static_cast<const VarCharType*>(t)->maxLength() != s.a) return "has the wrong length";
      break;
    case Type::kDate: case Type::kTime: case Type::kTimestamp: case Type::kInterval:
      if (static_cast<const DateTimeBaseType*>(t)->unit() != kUnit[s.unit]) return "has the wrong unit";
      break;
    case Type::kFixedLenArray:
      if (static_cast<const FixedLenArrayType*>(t)->numElems() != s.a) return "has the wrong number of elements";
      return mismatch(static_cast<const FixedLenArrayType*>(t)->elemType(), *s.elem, ctx);
    case Type::kVarLenArray: return mismatch(static_cast<const VarLenArrayType*>(t)->elemType(), *s.elem, ctx);
    case Type::kExtDictionary:
      if (static_cast<const ExtDictionaryType*>(t)->dictId() != s.a) return "has the wrong dictionary";
      return mismatch(static_cast<const ExtDictionaryType*>(t)->elemType(), *s.elem, ctx);
    case Type::kColumn: return mismatch(static_cast<const ColumnType*>(t)->columnType(), *s.elem, ctx);
    case Type::kColumnList:
      if (static_cast<const ColumnListType*>(t)->length() != s.a) return "has the wrong length";
      return mismatch(static_cast<const ColumnListType*>(t)->columnType(), *s.elem, ctx);
    default: break;
  }
  return "";
}
bool has_column(const Spec& s) { return s.kind >= Type::kColumn || (s.elem && has_column(*s.elem)); }
// a spelling typeFromString accepts, or ""
std::string spelling(const Spec& s, int how) {
  std::string n = s.nullable ? "" : how % 3 == 0 ? "[nn]" : "[NN]";
  switch (s.kind) {
    case Type::kNull: return "NULLT";
    case Type::kBoolean: return "bool" + n;
    case Type::kInteger: return (s.size == 8 && how % 2 ? std::string("int") : str("int%d", s.size * 8)) + n;
    case Type::kFloatingPoint: return (s.size == 8 && how % 2 ? std::string("FP") : str("fp%d", s.size * 8)) + n;
    case Type::kDecimal: return (how % 2 ? str("decimal(%d, %d)", s.a, s.b) : str("DEC64(%d,%d)", s.a, s.b)) + n;
    case Type::kVarChar: return str("varchar(%d)", s.a) + n;
    case Type::kText: return "Text" + n;
    case Type::kDate: return str("date%d[%s]", s.size * 8, kUnits[s.unit]) + n;
    case Type::kTime: return str("time%d[%s]", s.size * 8, kUnits[s.unit]) + n;
    case Type::kTimestamp: return (how % 2 ? str("timestamp64[%s]", kUnits[s.unit]) : str("timestamp[%s]", kUnits[s.unit])) + n;
    case Type::kInterval: return str("interval%d[%s]", s.size * 8, kUnits[s.unit]) + n;
    case Type::kFixedLenArray: {
      auto e = spelling(*s.elem, how / 2);
      return e.empty() ? e : "array(" + e + str(")(%d)", s.a) + n;
    }
    case Type::kVarLenArray: {
      auto e = spelling(*s.elem, how / 2);
      return e.empty() ? e : "array(" + e + ")" + n;
    }
    case Type::kExtDictionary: {
      auto e = spelling(*s.elem, how / 2);
      return e.empty() ? e : str("dict%d(", s.size * 8) + e + str(")[%d]", s.a);
    }
    default: return "";
  }
}

enum K { K_CREATE, K_COPY, K_PARSE, K_NULLABLE, K_EQUAL, K_CANON, K_FOREIGN, K_MAX };
const char* const kNames[] = {"create", "copyType", "typeFromString", "withNullable", "equal", "canonicalize", "foreign element", nullptr};

void gen(Rng& r, Plan& p) {
  int n = (int)r.range(1, 4);
  p.set("threads", n);
  p.set("universe", r.chance(0.5) ? r.range(1, 6) : r.range(10, 200));
  p.set("base", r.below(100000));
  p.set("wide", r.chance(0.3) ? 300 : 3);
  int ops = (int)r.range(4, 60);
  for (int i = 0; i < ops; ++i) {
    int x = (int)r.below(100);
    int k = x < 50 ? K_CREATE : x < 64 ? K_COPY : x < 74 ? K_PARSE : x < 84 ? K_NULLABLE : x < 92 ? K_EQUAL : x < 96 ? K_CANON : K_FOREIGN;
    p.add((int)r.below(n), k, r.below(1000000), r.below(2), r.below(1024), r.below(1000000));
  }
}
struct World {
  Context c[2];
  std::map<std::string, const Type*> seen[2];
  int64_t universe, base;
  int wide;
  Spec spec(int64_t x) {
    Rng r(Rng::mix(base + x % universe));
    return make_spec(r, 0, wide);
  }
};
// records a type handed out for a spec: one instance per context, with the right attributes
void got(World& w, int ctx, const Spec& s, const Type* t, const Op& o) {
  auto name = show(s);
  auto bad = mismatch(t, s, &w.c[ctx]);
  if (!bad.empty()) sim::fail("type:wrong", "op %d %s: asked for %s, got %s, which %s", o.id, kNames[o.kind], name.c_str(), t->toString().c_str(), bad.c_str());
  auto it = w.seen[ctx].emplace(name, t);
  if (it.first->second != t)
    sim::fail("type:two-instances", "op %d %s: %s has two instances in one context", o.id, kNames[o.kind], name.c_str());
  if (!t->equal(it.first->second)) sim::fail("type:equal", "%s is not equal to itself", name.c_str());
  if (!has_column(s) && t->toString() != name)
    sim::fail("type:to-string", "op %d: %s prints as %s", o.id, name.c_str(), t->toString().c_str());
  sim::note(name.size());
}
void run(const Plan& p) {
  std::unique_ptr<World> wp;
  {
    Quiet q;
    wp = std::make_unique<World>();
    wp->universe = p.get("universe");
    wp->base = p.get("base");
    wp->wide = (int)p.get("wide");
  }
  World& w = *wp;
  run_threads(p, (int)p.get("threads"), [&](int, const Op& o) {
    Spec s;
    int ctx = (int)o.a[1], how = (int)o.a[2];
    bool ok;
    {
      Quiet q;
      s = w.spec(o.a[0]);
      ok = valid(s);
    }
    const Type* t = nullptr;
    try {
      t = create(w.c[ctx], s, how);
    } catch (const Error&) {
    }
    {
      Quiet q;
      if (!t && ok) sim::fail("type:rejected", "op %d: %s was rejected", o.id, show(s).c_str());
      if (t && !ok) sim::fail("type:accepted", "op %d: %s was accepted", o.id, show(s).c_str());
      if (!t) {
        sim::count("rejected");
        return;
      }
      got(w, ctx, s, t, o);
    }
    switch (o.kind) {
      case K_COPY: {
        const Type* u = nullptr;
        try {
          u = how % 2 ? w.c[1 - ctx].copyType(t) : t->copyTo(w.c[1 - ctx]);
        } catch (const Error&) {
        }
        Quiet q;
        if (has_column(s)) return;
        if (!u) sim::fail("type:copy-rejected", "op %d: copy of %s to another context was rejected", o.id, show(s).c_str());
        got(w, 1 - ctx, s, u, o);
        if (!t->equal(u) || !u->equal(t)) sim::fail("type:copy-differs", "op %d: the copy of %s is not equal to it", o.id, show(s).c_str());
        if (w.c[ctx].copyType(t) != t) sim::fail("type:copy-self", "op %d: a copy of %s in its own context is another type", o.id, show(s).c_str());
        break;
      }
      case K_PARSE: {
        std::string sp;
        {
          Quiet q;
          sp = spelling(s, how);
          if (sp.empty()) return;
          if (how % 5 == 0) sp = " " + sp + " ";
        }
        const Type* u = nullptr;
        try {
          u = w.c[ctx].typeFromString(sp);
        } catch (const Error&) {
        }
        Quiet q;
        if (!u) sim::fail("type:parse-rejected", "op %d: '%s' was rejected", o.id, sp.c_str());
        got(w, ctx, s, u, o);
        break;
      }
      case K_NULLABLE: {
        const Type* u = t->withNullable(how & 1);
        Quiet q;
        if (s.kind == Type::kNull) return;
        if (s.kind == Type::kExtDictionary) s.elem = std::make_shared<Spec>(*s.elem), s.elem->nullable = how & 1;
        s.nullable = how & 1;
        got(w, ctx, s, u, o);
        break;
      }
      case K_EQUAL: {
        // equal exactly when the specs print the same, also across contexts
        Spec s2;
        int ctx2 = (how >> 2) & 1;
        bool ok2;
        {
          Quiet q;
          s2 = w.spec(o.a[3]);
          ok2 = valid(s2);
        }
        if (!ok2) return;
        const Type* u = create(w.c[ctx2], s2, how / 3);
        bool e = t->equal(u), e2 = u->equal(t);
        Quiet q;
        bool want = show(s) == show(s2);
        if (e != want || e2 != want)
          sim::fail("type:equal", "op %d: %s %s %s across %s", o.id, show(s).c_str(), e ? "equals" : "differs from", show(s2).c_str(),
                    ctx == ctx2 ? "one context" : "two contexts");
        break;
      }
      case K_CANON: {
        const Type* u = t->canonicalize();
        Quiet q;
        if (s.kind == Type::kDate) s.size = 8, s.unit = 2;
        if (s.kind == Type::kTime || s.kind == Type::kInterval) s.size = 8;
        if (s.kind == Type::kExtDictionary) s.size = 4;
        got(w, ctx, s, u, o);
        break;
      }
      case K_FOREIGN: {
        // element types of another context are rejected
        bool threw = false;
        try {
          if (s.kind == Type::kText) w.c[1 - ctx].extDict(t, 1, 4);
          else if (how % 2) w.c[1 - ctx].arrayFixed(3, t, true);
          else w.c[1 - ctx].arrayVarLen(t, 4, true);
        } catch (const Error&) {
          threw = true;
        }
        Quiet q;
        if (!threw) sim::fail("type:foreign", "op %d: a type of another context was accepted as element", o.id);
        sim::count("rejected");
        break;
      }
    }
  });
  Quiet q;
  // everything handed out is still valid and the instance the context gives now
  for (int c = 0; c < 2; ++c)
    for (auto& [name, t] : w.seen[c]) {
      const Type* u = w.c[c].copyType(t);
      if (u != t) sim::fail("type:copy-self", "%s", name.c_str());
    }
  wp.reset();
}
sim::Scenario s1 = {"C12", "types", nullptr, gen, run, kNames, 20000000};
sim::Registrar r1(&s1);
}  // namespace
