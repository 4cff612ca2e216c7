// Types, expressions and literals of the intermediate representation: identity (equality, hash,
// rewriting, collecting) and literal conversion.
#include "hutil.h"

#include "IR/Context.h"
#include "IR/Exception.h"
#include "IR/Expr.h"
#include "IR/ExprCollector.h"
#include "IR/ExprRewriter.h"
#include "IR/InputRewriter.h"
#include "IR/Node.h"
#include "Shared/sqltypes.h"

#include <cmath>
#include <functional>
#include <map>
#include <optional>

using namespace hdk::ir;
using mc::strf;

#define CHK(cond, key, msg)        \
  do {                             \
    if (!(cond)) c.fail(key, msg); \
  } while (0)

namespace {

// ---------------------------------------------------------------------------------------- types
struct TD {  // type descriptor
  Type::Id id;
  int a = 0, b = 0;  // size, precision/scale, length, unit ...
  bool nullable = true;
  std::shared_ptr<TD> elem;
  std::string key() const {
    return strf("%d/%d/%d/%d", int(id), a, b, int(nullable)) + (elem ? "<" + elem->key() + ">" : "");
  }
  TD withNull(bool n) const {
    TD r = *this;
    if (id == Type::kNull) return r;
    if (id == Type::kExtDictionary) {
      r.elem = std::make_shared<TD>(elem->withNull(n));
    }
    r.nullable = n;
    return r;
  }
  const Type* make(Context& x) const {
    switch (id) {
      case Type::kNull: return x.null();
      case Type::kBoolean: return x.boolean(nullable);
      case Type::kInteger: return x.integer(a, nullable);
      case Type::kFloatingPoint: return x.fp(a == 4 ? FloatingPointType::kFloat : FloatingPointType::kDouble, nullable);
      case Type::kDecimal: return x.decimal64(a, b, nullable);
      case Type::kVarChar: return x.varChar(a, nullable);
      case Type::kText: return x.text(nullable);
      case Type::kDate: return x.date(a, TimeUnit(b), nullable);
      case Type::kTime: return x.time(a, TimeUnit(b), nullable);
      case Type::kTimestamp: return x.timestamp(TimeUnit(b), nullable);
      case Type::kInterval: return x.interval(a, TimeUnit(b), nullable);
      case Type::kFixedLenArray: return x.arrayFixed(a, elem->make(x), nullable);
      case Type::kVarLenArray: return x.arrayVarLen(elem->make(x), a, nullable);
      case Type::kExtDictionary: return x.extDict(elem->make(x), b, a);
      case Type::kColumn: return x.column(elem->make(x), nullable);
      case Type::kColumnList: return x.columnList(elem->make(x), a, nullable);
      default: abort();
    }
  }
  int size() const {
    switch (id) {
      case Type::kNull: return 0;
      case Type::kBoolean: return 1;
      case Type::kInteger:
      case Type::kFloatingPoint:
      case Type::kDate:
      case Type::kTime:
      case Type::kInterval:
      case Type::kExtDictionary: return a;
      case Type::kDecimal:
      case Type::kTimestamp: return 8;
      case Type::kFixedLenArray: return a * elem->size();
      case Type::kColumn:
      case Type::kColumnList: return elem->size();
      default: return -1;
    }
  }
  bool hasColumn() const { return id == Type::kColumn || id == Type::kColumnList; }
};

bool validUnit(Type::Id id, int size, TimeUnit u) {
  try {
    Context x;
    if (id == Type::kDate) x.date(size, u);
    if (id == Type::kTime) x.time(size, u);
    if (id == Type::kInterval) x.interval(size, u);
    if (id == Type::kTimestamp) x.timestamp(u);
    return true;
  } catch (const std::exception&) {
    return false;
  }
}

const std::vector<TD>& scalars() {
  static std::vector<TD> r = [] {
    std::vector<TD> v;
    v.push_back({Type::kNull});
    for (bool n : {true, false}) {
      v.push_back({Type::kBoolean, 0, 0, n});
      for (int s : {1, 2, 4, 8}) v.push_back({Type::kInteger, s, 0, n});
      for (int s : {4, 8}) v.push_back({Type::kFloatingPoint, s, 0, n});
      for (auto [p, s] : {std::pair(1, 0), {1, 1}, {2, 1}, {10, 2}, {12, 0}, {10, 0}, {2, 0}, {19, 0}, {18, 18}, {18, 2}}) v.push_back({Type::kDecimal, p, s, n});
      for (int l : {1, 2, 10, 32767}) v.push_back({Type::kVarChar, l, 0, n});
      v.push_back({Type::kText, 0, 0, n});
      for (auto id : {Type::kDate, Type::kTime, Type::kInterval}) {
        for (int s : {2, 4, 8}) {
          for (int u = 0; u < 6; ++u) {
            if (validUnit(id, s, TimeUnit(u))) v.push_back({id, s, u, n});
          }
        }
      }
      for (int u = 0; u < 6; ++u) {
        if (validUnit(Type::kTimestamp, 8, TimeUnit(u))) v.push_back({Type::kTimestamp, 0, u, n});
      }
    }
    return v;
  }();
  return r;
}

const std::vector<TD>& allTypes() {
  static std::vector<TD> r = [] {
    auto v = scalars();
    auto sc = v;
    std::map<int, int> seen;
    for (auto& e : sc) {
      // arrays and columns over the first, second and last description of each kind
      if (e.id == Type::kNull || (seen[int(e.id)]++ > 1 && &e != &sc.back())) continue;
      auto pe = std::make_shared<TD>(e);
      for (bool n : {true, false}) {
        if (e.id != Type::kText && e.id != Type::kVarChar) {
          for (int len : {1, 2, 11}) v.push_back({Type::kFixedLenArray, len, 0, n, pe});
        }
        if (e.id != Type::kText && e.id != Type::kVarChar) {
          v.push_back({Type::kVarLenArray, 4, 0, n, pe});
        }
        v.push_back({Type::kColumn, 0, 0, n, pe});
        for (int len : {1, 2}) v.push_back({Type::kColumnList, len, 0, n, pe});
      }
    }
    for (bool n : {true, false}) {
      auto pe = std::make_shared<TD>(TD{Type::kText, 0, 0, n});
      for (int id : {-1, 0, 1, 16, 160, -16, 1 << 20}) {
        for (int s : {1, 2, 4}) v.push_back({Type::kExtDictionary, s, id, n, pe});
      }
    }
    return v;
  }();
  return r;
}

void irTypes(mc::Ctx& c) {
  auto& all = allTypes();
  size_t k = c.choose(all.size(), "type");
  auto& d = all[k];
  Context A, B;
  auto t = d.make(A);
  auto name = t->toString();
  c.op("%s", name.c_str());
  CHK(d.make(A) == t, "ir:type:identity", name + ": the same description gives two types");
  CHK(t->id() == d.id && &t->ctx() == &A && t->size() == d.size(), "ir:type:attributes", strf("%s: wrong kind, context or size %d (want %d)", name.c_str(), t->size(), d.size()));
  CHK(t->nullable() == d.nullable, "ir:type:nullable", name + ": wrong nullability");
  if (auto x = t->as<DecimalType>()) CHK(x->precision() == d.a && x->scale() == d.b, "ir:type:attributes", name + ": precision or scale");
  if (auto x = t->as<VarCharType>()) CHK(x->maxLength() == d.a, "ir:type:attributes", name + ": length");
  if (auto x = t->as<DateTimeBaseType>()) CHK(int(x->unit()) == d.b, "ir:type:attributes", name + ": unit");
  if (auto x = t->as<ArrayBaseType>()) CHK(x->elemType() == d.elem->make(A), "ir:type:attributes", name + ": element");
  if (auto x = t->as<FixedLenArrayType>()) CHK(x->numElems() == d.a, "ir:type:attributes", name + ": element count");
  if (auto x = t->as<VarLenArrayType>()) CHK(x->offsetSize() == d.a, "ir:type:attributes", name + ": offset size");
  if (auto x = t->as<ExtDictionaryType>()) CHK(x->dictId() == d.b && x->elemType() == d.elem->make(A), "ir:type:attributes", name + ": dictionary");
  if (auto x = t->as<ColumnType>()) CHK(x->columnType() == d.elem->make(A), "ir:type:attributes", name + ": column");
  if (auto x = t->as<ColumnListType>()) CHK(x->columnType() == d.elem->make(A) && x->length() == d.a, "ir:type:attributes", name + ": column list");
  for (bool n : {true, false}) {
    auto w = t->withNullable(n);
    CHK(w == d.withNull(n).make(A), "ir:type:nullable", strf("%s with nullable=%d is %s", name.c_str(), n, w->toString().c_str()));
  }
  // Another context: equal to itself only
  if (!d.hasColumn()) {
    auto u = t->copyTo(B);
    CHK(&u->ctx() == &B && u == d.make(B), "ir:type:copy", name + ": copy in another context");
    CHK(u->toString() == name, "ir:type:copy", name + " copied is " + u->toString());
    CHK(t->copyTo(A) == t, "ir:type:copy", name + ": copy into its own context");
  }
  std::map<std::string, std::string> texts;
  for (size_t j = 0; j < all.size(); ++j) {
    auto a = all[j].make(A);
    auto b = all[j].make(B);
    bool same = j == k;
    CHK(t->equal(a) == same && a->equal(t) == same && (*t == *a) == same && (t == a) == same, "ir:type:equal", strf("%s and %s are %s", name.c_str(), a->toString().c_str(), same ? "different" : "equal"));
    CHK(t->equal(b) == same && b->equal(t) == same, "ir:type:equal", strf("%s and %s of another context are %s", name.c_str(), b->toString().c_str(), same ? "different" : "equal"));
    if (!d.hasColumn() && !all[j].hasColumn()) CHK((a->toString() == name) == same, "ir:type:print", name + " is printed like another type");
  }
  // Printing and reading
  bool readable = !d.hasColumn() && d.id != Type::kVarLenArray && !(d.id == Type::kExtDictionary && !d.nullable);
  if (readable) {
    for (auto text : {name, hu::lower(name), "  " + name + " "}) {
      CHK(A.typeFromString(text) == t, "ir:type:parse", "\"" + text + "\" is read as " + A.typeFromString(text)->toString());
    }
  }
  if (d.id == Type::kVarLenArray) {
    auto text = "array(" + d.elem->make(A)->toString() + ")" + (d.nullable ? "" : "[nn]");
    CHK(A.typeFromString(text) == t, "ir:type:parse", "\"" + text + "\" is read as " + A.typeFromString(text)->toString());
  }
  if (d.id == Type::kExtDictionary) {
    auto text = strf("dict%d(text%s)[%d]", d.a * 8, d.nullable ? "" : "[nn]", d.b);
    CHK(A.typeFromString(text) == t, "ir:type:parse", "\"" + text + "\" is read as " + A.typeFromString(text)->toString());
  }
  // Canonical form: full width, same values
  auto q = t->canonicalize();
  if (t->isDate()) {
    CHK(q == A.date64(TimeUnit::kSecond, d.nullable), "ir:type:canonical", name + ": canonical form " + q->toString());
  } else if (t->isTime()) {
    CHK(q == A.time64(TimeUnit(d.b), d.nullable), "ir:type:canonical", name + ": canonical form " + q->toString());
  } else if (t->isInterval()) {
    CHK(q == A.interval64(TimeUnit(d.b), d.nullable), "ir:type:canonical", name + ": canonical form " + q->toString());
  } else if (t->isExtDictionary()) {
    CHK(q == A.extDict(d.elem->make(A), d.b, 4), "ir:type:canonical", name + ": canonical form " + q->toString());
  } else {
    CHK(q == t, "ir:type:canonical", name + ": canonical form " + q->toString());
  }
  CHK(q->canonicalize() == q, "ir:type:canonical", name + ": canonical form of the canonical form");
  c.state(name);
}

void irTypeErrors(mc::Ctx& c) {
  static const std::vector<std::pair<const char*, std::function<const Type*(Context&)>>> bad = {
      {"int size", [](Context& x) -> const Type* { return x.integer(3); }},
      {"int size 0", [](Context& x) -> const Type* { return x.integer(0); }},
      {"int size 16", [](Context& x) -> const Type* { return x.integer(16); }},
      {"decimal size", [](Context& x) -> const Type* { return x.decimal(4, 5, 2); }},
      {"decimal precision", [](Context& x) -> const Type* { return x.decimal(8, -1, 0); }},
      {"decimal scale", [](Context& x) -> const Type* { return x.decimal(8, 5, -1); }},
      {"date size", [](Context& x) -> const Type* { return x.date(1); }},
      {"time size", [](Context& x) -> const Type* { return x.time(1); }},
      {"foreign element", [](Context& x) -> const Type* { return x.arrayFixed(2, Context::defaultCtx().int32()); }},
      {"foreign element", [](Context& x) -> const Type* { return x.arrayVarLen(Context::defaultCtx().int32()); }},
      {"foreign element", [](Context& x) -> const Type* { return x.extDict(Context::defaultCtx().text(), 1); }},
      {"text int7", [](Context& x) -> const Type* { return x.typeFromString("int7"); }},
      {"text empty", [](Context& x) -> const Type* { return x.typeFromString(""); }},
      {"text trailing", [](Context& x) -> const Type* { return x.typeFromString("int32x"); }},
      {"text decimal", [](Context& x) -> const Type* { return x.typeFromString("dec(10)"); }},
      {"text unit", [](Context& x) -> const Type* { return x.typeFromString("timestamp[x]"); }},
      {"text array", [](Context& x) -> const Type* { return x.typeFromString("array()"); }},
      {"text fp16", [](Context& x) -> const Type* { return x.typeFromString("fp16"); }},
  };
  static const std::vector<std::pair<const char*, std::function<const Type*(Context&)>>> good = {
      {"int", [](Context& x) -> const Type* { return x.int64(); }},
      {"int[nn]", [](Context& x) -> const Type* { return x.int64(false); }},
      {"INT8", [](Context& x) -> const Type* { return x.int8(); }},
      {"fp", [](Context& x) -> const Type* { return x.fp64(); }},
      {"fp[NN]", [](Context& x) -> const Type* { return x.fp64(false); }},
      {"decimal(10,2)", [](Context& x) -> const Type* { return x.decimal64(10, 2); }},
      {"decimal64( 10 , 2 )[nn]", [](Context& x) -> const Type* { return x.decimal64(10, 2, false); }},
      {"date", [](Context& x) -> const Type* { return x.date64(TimeUnit::kSecond); }},
      {"date16", [](Context& x) -> const Type* { return x.date16(TimeUnit::kDay); }},
      {"date32", [](Context& x) -> const Type* { return x.date32(TimeUnit::kSecond); }},
      {"time", [](Context& x) -> const Type* { return x.time64(TimeUnit::kMicro); }},
      {"time16", [](Context& x) -> const Type* { return x.time16(TimeUnit::kSecond); }},
      {"time32", [](Context& x) -> const Type* { return x.time32(TimeUnit::kMilli); }},
      {"timestamp", [](Context& x) -> const Type* { return x.timestamp(TimeUnit::kMicro); }},
      {"timestamp64[ns][nn]", [](Context& x) -> const Type* { return x.timestamp(TimeUnit::kNano, false); }},
      {"interval", [](Context& x) -> const Type* { return x.interval64(TimeUnit::kMicro); }},
      {"interval[m]", [](Context& x) -> const Type* { return x.interval64(TimeUnit::kMonth); }},
      {"dict", [](Context& x) -> const Type* { return x.extDict(x.text(), 0, 4); }},
      {"dict16", [](Context& x) -> const Type* { return x.extDict(x.text(), 0, 2); }},
      {"dict[7]", [](Context& x) -> const Type* { return x.extDict(x.text(), 7, 4); }},
      {"dict8(text)[-3]", [](Context& x) -> const Type* { return x.extDict(x.text(), -3, 1); }},
      {"array(dict(text)[2])", [](Context& x) -> const Type* { return x.arrayVarLen(x.extDict(x.text(), 2, 4)); }},
      {"array(dec(10,2))(3)[nn]", [](Context& x) -> const Type* { return x.arrayFixed(3, x.decimal64(10, 2), false); }},
  };
  size_t k = c.choose(bad.size() + good.size(), "case");
  Context x;
  if (k < bad.size()) {
    c.op("refuse %s", bad[k].first);
    for (int i = 0; i < 2; ++i) {  // refused again when asked again
      bool threw = false;
      try {
        bad[k].second(x);
      } catch (const hdk::ir::TypeError&) {
        threw = true;
      }
      CHK(threw, "ir:type:invalid", strf("an invalid type (%s) is accepted", bad[k].first));
    }
  } else {
    auto& g = good[k - bad.size()];
    c.op("read %s", g.first);
    CHK(x.typeFromString(g.first) == g.second(x), "ir:type:parse", strf("\"%s\" is read as %s", g.first, x.typeFromString(g.first)->toString().c_str()));
  }
  c.state(k);
}

// ---------------------------------------------------------------------------------- expressions
Context& X() { return Context::defaultCtx(); }

std::shared_ptr<const Node> node(int k) {
  static std::vector<std::shared_ptr<const Node>> r = [] {
    std::vector<std::shared_ptr<const Node>> v;
    for (int i = 0; i < 2; ++i) {
      std::vector<TargetMetaInfo> tt;
      for (int j = 0; j < 4; ++j) tt.emplace_back(strf("c%d_%d", i, j), X().int32());
      v.push_back(std::make_shared<LogicalValues>(tt, std::vector<ExprPtrVector>()));
    }
    return v;
  }();
  return r[k];
}

ExprPtr intC(const Type* t, int64_t v) { return Constant::make(t, v); }
ExprPtr strC(const std::string& s, const Type* t = nullptr) {
  Datum d;
  d.stringval = new std::string(s);
  return makeExpr<Constant>(t ? t : X().text(false), false, d);
}
ExprPtr fpC(const Type* t, double v) {
  Datum d{0};
  if (t->size() == 4) d.floatval = v; else d.doubleval = v;
  return makeExpr<Constant>(t, false, d);
}
ExprPtr decC(int p, int s, int64_t raw) {
  Datum d{0};
  d.bigintval = raw;
  return makeExpr<Constant>(X().decimal64(p, s, false), false, d);
}
ExprPtr nullC(const Type* t) { return makeExpr<Constant>(t, true, Datum{0}); }

using Cat = std::vector<std::pair<std::string, ExprPtr>>;
using L = std::function<ExprPtr(int)>;  // leaf number -> fresh leaf expression

// Leaves: every pair differs.
Cat leaves() {
  Cat r;
  auto add = [&](const std::string& k, ExprPtr e) { r.emplace_back(k, e); };
  for (int n = 0; n < 2; ++n)
    for (unsigned i = 0; i < 3; ++i) add(strf("ref %d.%u", n, i), makeExpr<hdk::ir::ColumnRef>(X().int32(), node(n).get(), i));
  for (int db : {1, 2})
    for (int t : {1, 2})
      for (int col : {1, 2})
        for (int rte : {0, 1}) add(strf("col %d.%d.%d rte %d", db, t, col, rte), makeExpr<ColumnVar>(X().int32(), db, t, col, rte));
  for (int w = 0; w < 4; ++w)
    for (int v : {1, 2}) add(strf("var %d.%d", w, v), makeExpr<Var>(X().int32(), Var::WhichRow(w), v));
  for (auto t : std::vector<const Type*>{X().int8(false), X().int16(false), X().int32(false), X().int64(false), X().timestamp(TimeUnit::kSecond, false), X().timestamp(TimeUnit::kMilli, false),
                                         X().date64(TimeUnit::kSecond, false), X().time64(TimeUnit::kSecond, false), X().interval64(TimeUnit::kMilli, false), X().interval64(TimeUnit::kMonth, false)}) {
    for (int64_t v : {0, 1, -1, 100}) add(strf("const %s %ld", t->toString().c_str(), long(v)), intC(t, v));
    if (t->size() == 8)
      for (int64_t v : {int64_t(1) << 32, (int64_t(1) << 32) + 1, int64_t(1) << 62}) add(strf("const %s %ld", t->toString().c_str(), long(v)), intC(t, v));
  }
  for (int v : {0, 1}) add(strf("const bool %d", v), intC(X().boolean(false), v));
  for (auto t : {X().fp32(false), X().fp64(false)})
    for (double v : {0.0, 1.0, -1.0, 0.5, 1e20}) add(strf("const %s %g", t->toString().c_str(), v), fpC(t, v));
  for (auto [p, s] : {std::pair(10, 2), {10, 3}, {18, 2}})
    for (int64_t v : {int64_t(0), int64_t(100), int64_t(1) << 33}) add(strf("const dec(%d,%d) %ld", p, s, long(v)), decC(p, s, v));
  for (auto s : {"", "a", "b", "ab", "A"}) {
    add(strf("const text '%s'", s), strC(s));
    add(strf("const varchar '%s'", s), strC(s, X().varChar(5, false)));
  }
  for (auto t : std::vector<const Type*>{X().int8(), X().int32(), X().int64(), X().fp32(), X().fp64(), X().boolean(), X().text(), X().decimal64(10, 2), X().timestamp(TimeUnit::kSecond), X().null()}) add("null " + t->toString(), nullC(t));
  for (int id : {1, 2})
    for (int32_t v : {0, 1, 5}) {
      Datum d{0};
      d.intval = v;
      add(strf("const dict %d: %d", id, v), makeExpr<Constant>(X().extDict(X().text(false), id, 4), false, d));
    }
  for (int n = 0; n < 2; ++n) add(strf("subquery %d", n), makeExpr<ScalarSubquery>(X().int32(), node(n)));
  add("offset in fragment", makeExpr<OffsetInFragment>());
  return r;
}

// Composite expressions; args taken from the leaf function so that the same shapes can be built over
// other leaves. `a`, `b`, `p` are leaf numbers. Every pair of keys differs in meaning.
Cat composites(const L& leaf, bool sub = true) {
  Cat r;
  auto add = [&](const std::string& k, ExprPtr e) { r.emplace_back(k, e); };
  auto a = [&] { return leaf(0); };
  auto b = [&] { return leaf(1); };
  auto B = X().boolean();
  for (auto t : std::vector<const Type*>{X().int8(), X().int64(), X().fp64(), X().fp32(), X().decimal64(10, 2), X().decimal64(10, 3), X().timestamp(TimeUnit::kSecond), X().timestamp(TimeUnit::kMilli)}) {
    for (int x : {0, 1}) add(strf("cast %d to %s", x, t->toString().c_str()), makeExpr<UOper>(t, OpType::kCast, leaf(x)));
  }
  for (auto [n, t, o] : {std::tuple("not", (const Type*)B, OpType::kNot), {"uminus", X().int32(), OpType::kUMinus}, {"isnull", X().boolean(false), OpType::kIsNull}, {"bwnot", X().int32(), OpType::kBwNot}, {"unnest", X().int32(), OpType::kUnnest}})
    for (int x : {0, 1}) add(strf("%s %d", n, x), makeExpr<UOper>(t, o, leaf(x)));
  for (int o = 0; o <= int(OpType::kArrayAt); ++o) {
    auto op = OpType(o);
    if (isUnary(op)) continue;
    const Type* t = isComparison(op) || isLogic(op) ? (const Type*)B : X().int32();
    add(strf("binop %d ab", o), makeExpr<BinOper>(t, op, Qualifier::kOne, a(), b()));
    add(strf("binop %d ba", o), makeExpr<BinOper>(t, op, Qualifier::kOne, b(), a()));
    add(strf("binop %d aa", o), makeExpr<BinOper>(t, op, Qualifier::kOne, a(), a()));
  }
  for (int q = 1; q < 3; ++q) add(strf("binop any/all %d", q), makeExpr<BinOper>(B, OpType::kEq, Qualifier(q), a(), b()));
  for (int i = 0; i < 4; ++i) {
    // RangeOper is not visited by ExprVisitor (geo overlaps joins only)
    if (sub) add(strf("range %d", i), makeExpr<RangeOper>(i & 1, i & 2, a(), b()));
  }
  if (sub) add("range ba", makeExpr<RangeOper>(false, false, b(), a()));
  auto one = [] { return intC(X().int32(false), 1); };
  auto two = [] { return intC(X().int32(false), 2); };
  add("in 1", makeExpr<InValues>(a(), ExprPtrList{one()}));
  add("in 12", makeExpr<InValues>(a(), ExprPtrList{one(), two()}));
  add("in 2", makeExpr<InValues>(a(), ExprPtrList{two()}));
  add("in b", makeExpr<InValues>(a(), ExprPtrList{b()}));
  add("b in 1", makeExpr<InValues>(b(), ExprPtrList{one()}));
  for (auto v : std::vector<std::vector<int64_t>>{{}, {1}, {2}, {1, 2}})
    for (int x : {0, 1}) add(strf("inset %d %s", x, hu::join(v).c_str()), makeExpr<InIntegerSet>(leaf(x), v, false));
  for (int n = 0; n < 2; ++n)
    for (int x : {0, 1}) add(strf("insub %d %d", n, x), makeExpr<InSubquery>(B, leaf(x), node(n)));
  for (int x : {0, 1}) {
    for (bool e : {false, true}) add(strf("charlen %d %d", x, e), makeExpr<CharLengthExpr>(leaf(x), e));
    add(strf("key %d", x), makeExpr<KeyForStringExpr>(leaf(x)));
    add(strf("ratio %d", x), makeExpr<SampleRatioExpr>(leaf(x)));
    add(strf("lower %d", x), makeExpr<LowerExpr>(leaf(x)));
    add(strf("card %d", x), makeExpr<CardinalityExpr>(leaf(x)));
    for (float l : {0.1f, 0.9f}) add(strf("likely %d %g", x, l), makeExpr<LikelihoodExpr>(leaf(x), l));
  }
  auto P = [](const char* s) { return strC(s); };
  for (int x : {0, 1})
    for (auto p : {"a%", "b%"})
      for (auto e : {"", "\\", "!"}) {
        for (bool i : {false, true}) add(strf("like %d %s %s %d", x, p, e, i), makeExpr<LikeExpr>(leaf(x), P(p), *e ? P(e) : nullptr, i, false));
        add(strf("regexp %d %s %s", x, p, e), makeExpr<RegexpExpr>(leaf(x), P(p), *e ? P(e) : nullptr));
      }
  for (int m = 0; m < 5; ++m) {
    auto w = [&](int i) { return intC(X().int32(false), 10 + i + (m == i ? 100 : 0)); };
    add(strf("bucket %d", m), makeExpr<WidthBucketExpr>(a(), w(0), w(1), w(2)));
    add(strf("bucket b %d", m), makeExpr<WidthBucketExpr>(b(), w(0), w(1), w(2)));
    if (m == 2) break;
  }
  for (int g = 0; g <= int(AggType::kCorr); ++g) {
    auto ag = AggType(g);
    bool second = ag == AggType::kApproxCountDistinct || ag == AggType::kApproxQuantile || ag == AggType::kTopK || ag == AggType::kQuantile;
    for (int x : {0, 1}) {
      for (bool d : {false, true}) add(strf("agg %d %d %d", g, x, d), makeExpr<AggExpr>(X().int64(), ag, leaf(x), d, nullptr));
      if (second) {
        for (int v : {1, 2}) {
          add(strf("agg %d %d second %d", g, x, v), makeExpr<AggExpr>(X().int64(), ag, leaf(x), false, intC(X().int32(false), v)));
          if (ag == AggType::kQuantile)
            for (int i = 0; i < 4; ++i) add(strf("agg %d %d second %d interp %d", g, x, v, i), makeExpr<AggExpr>(X().int64(), ag, leaf(x), false, intC(X().int32(false), v), Interpolation(i)));
        }
      }
      if (ag == AggType::kCorr) {
        add(strf("corr %d a", x), makeExpr<AggExpr>(X().fp64(), ag, leaf(x), false, a()));
        add(strf("corr %d b", x), makeExpr<AggExpr>(X().fp64(), ag, leaf(x), false, b()));
      }
    }
  }
  for (bool d : {false, true}) add(strf("count* %d", d), makeExpr<AggExpr>(X().int64(), AggType::kCount, nullptr, d, nullptr));
  using PL = std::list<std::pair<ExprPtr, ExprPtr>>;
  auto cb = [&](int x) { return makeExpr<BinOper>(B, OpType::kGt, Qualifier::kOne, leaf(x), intC(X().int32(false), 0)); };
  add("case a:1 else 2", makeExpr<CaseExpr>(X().int32(), false, PL{{cb(0), one()}}, two()));
  add("case a:2 else 1", makeExpr<CaseExpr>(X().int32(), false, PL{{cb(0), two()}}, one()));
  add("case b:1 else 2", makeExpr<CaseExpr>(X().int32(), false, PL{{cb(1), one()}}, two()));
  add("case a:1 else 1", makeExpr<CaseExpr>(X().int32(), false, PL{{cb(0), one()}}, one()));
  add("case a:1,b:2 else 2", makeExpr<CaseExpr>(X().int32(), false, PL{{cb(0), one()}, {cb(1), two()}}, two()));
  add("case b:2,a:1 else 2", makeExpr<CaseExpr>(X().int32(), false, PL{{cb(1), two()}, {cb(0), one()}}, two()));
  add("case a:b else a", makeExpr<CaseExpr>(X().int32(), false, PL{{cb(0), b()}}, a()));
  if (sub) add("case a:1 no else", makeExpr<CaseExpr>(X().int32(), false, PL{{cb(0), one()}}, nullptr));
  for (int x : {0, 1}) {
    for (int f = 0; f <= int(DateExtractField::kDateEpoch); ++f) add(strf("extract %d %d", f, x), makeExpr<ExtractExpr>(X().int64(), false, DateExtractField(f), leaf(x)));
    for (int f = 0; f < int(DateTruncField::kInvalid); ++f) add(strf("trunc %d %d", f, x), makeExpr<DateTruncExpr>(X().timestamp(TimeUnit::kSecond), false, DateTruncField(f), leaf(x)));
  }
  for (int f = 0; f < int(DateAddField::kInvalid); ++f) {
    add(strf("dateadd %d ab", f), makeExpr<DateAddExpr>(X().timestamp(TimeUnit::kSecond), DateAddField(f), a(), b()));
    add(strf("dateadd %d ba", f), makeExpr<DateAddExpr>(X().timestamp(TimeUnit::kSecond), DateAddField(f), b(), a()));
  }
  for (int f = 0; f < int(DateTruncField::kInvalid); ++f) {
    add(strf("datediff %d ab", f), makeExpr<DateDiffExpr>(X().int64(), DateTruncField(f), a(), b()));
    add(strf("datediff %d ba", f), makeExpr<DateDiffExpr>(X().int64(), DateTruncField(f), b(), a()));
  }
  for (auto t : std::vector<const Type*>{X().int32(), X().fp64()})
    for (auto n : {"f", "g"}) {
      add(strf("fn %s %s()", t->toString().c_str(), n), makeExpr<FunctionOper>(t, n, ExprPtrVector{}));
      add(strf("fn %s %s(a)", t->toString().c_str(), n), makeExpr<FunctionOper>(t, n, ExprPtrVector{a()}));
      add(strf("fn %s %s(a,b)", t->toString().c_str(), n), makeExpr<FunctionOper>(t, n, ExprPtrVector{a(), b()}));
      add(strf("fn %s %s(b,a)", t->toString().c_str(), n), makeExpr<FunctionOper>(t, n, ExprPtrVector{b(), a()}));
      add(strf("fnc %s %s_(a)", t->toString().c_str(), n), makeExpr<FunctionOperWithCustomTypeHandling>(t, std::string(n) + "_", ExprPtrVector{a()}));
      add(strf("fnc %s %s_(b)", t->toString().c_str(), n), makeExpr<FunctionOperWithCustomTypeHandling>(t, std::string(n) + "_", ExprPtrVector{b()}));
    }
  using V = ExprPtrVector;
  using O = std::vector<OrderEntry>;
  for (int w = 0; w <= int(WindowFunctionKind::Count); ++w) add(strf("window %d", w), makeExpr<WindowFunction>(X().int64(), WindowFunctionKind(w), V{a()}, V{b()}, V{b()}, O{OrderEntry(1, false, false)}));
  auto K = WindowFunctionKind::Sum;
  add("window arg b", makeExpr<WindowFunction>(X().int64(), K, V{b()}, V{b()}, V{b()}, O{OrderEntry(1, false, false)}));
  add("window part a", makeExpr<WindowFunction>(X().int64(), K, V{a()}, V{a()}, V{b()}, O{OrderEntry(1, false, false)}));
  add("window order a", makeExpr<WindowFunction>(X().int64(), K, V{a()}, V{b()}, V{a()}, O{OrderEntry(1, false, false)}));
  add("window order desc", makeExpr<WindowFunction>(X().int64(), K, V{a()}, V{b()}, V{b()}, O{OrderEntry(1, true, false)}));
  add("window order nulls first", makeExpr<WindowFunction>(X().int64(), K, V{a()}, V{b()}, V{b()}, O{OrderEntry(1, false, true)}));
  add("window no part", makeExpr<WindowFunction>(X().int64(), K, V{a()}, V{}, V{b()}, O{OrderEntry(1, false, false)}));
  add("window no order", makeExpr<WindowFunction>(X().int64(), K, V{a()}, V{b()}, V{}, O{}));
  add("window no part, order bb", makeExpr<WindowFunction>(X().int64(), K, V{a()}, V{}, V{b(), b()}, O{OrderEntry(1, false, false), OrderEntry(2, false, false)}));
  for (auto v : std::vector<std::vector<int>>{{}, {0}, {1}, {0, 1}, {1, 0}, {0, 0}, {0, 1, 0}}) {
    V el;
    for (int x : v) el.push_back(leaf(x));
    add("array " + hu::join(v), makeExpr<ArrayExpr>(X().arrayVarLen(X().int32()), el));
    if (sub) add("tuple " + hu::join(v), makeExpr<ExpressionTuple>(el));
  }
  add("array null", makeExpr<ArrayExpr>(X().arrayVarLen(X().int32()), V{}, true));
  return r;
}

// number -> fresh leaf of the given flavour
ExprPtr leafOf(int kind, int i) {
  switch (kind) {
    case 0: return makeExpr<hdk::ir::ColumnRef>(X().int32(), node(0).get(), i);
    case 1: return makeExpr<ColumnVar>(X().int32(), 1, 1, i + 1, 0);
    case 2: return makeExpr<ColumnVar>(X().int32(), 1, 1, 1, i);  // same column of two scans
    case 3: return makeExpr<BinOper>(X().int32(), OpType::kPlus, Qualifier::kOne, leafOf(0, 0), intC(X().int32(false), i + 1));
    case 4: return makeExpr<UOper>(i ? X().int64() : (const Type*)X().int16(), OpType::kCast, leafOf(0, 0));
    case 5: return strC(i ? "x" : "y");
    case 6: return makeExpr<FunctionOper>(X().int32(), "f", ExprPtrVector{leafOf(0, i), leafOf(0, 2)});
    default: return makeExpr<CaseExpr>(X().int32(), false, std::list<std::pair<ExprPtr, ExprPtr>>{{makeExpr<BinOper>(X().boolean(), OpType::kLt, Qualifier::kOne, leafOf(0, i), leafOf(0, 2)), leafOf(0, 2)}}, leafOf(0, i));
  }
}
constexpr int kLeafKinds = 8;

void comparePair(mc::Ctx& c, const Cat& u, const Cat& v, size_t i) {
  for (size_t j = 0; j < v.size(); ++j) {
    bool same = i == j;
    auto& x = *u[i].second;
    auto& y = *v[j].second;
    bool eq = x == y;
    CHK(eq == same, "ir:expr:equal", strf("expressions \"%s\" and \"%s\" count as %s", u[i].first.c_str(), v[j].first.c_str(), same ? "different" : "equal"));
    CHK((y == x) == eq && x.equal(&y) == eq, "ir:expr:equal", strf("comparing \"%s\" and \"%s\" depends on the order", u[i].first.c_str(), v[j].first.c_str()));
    if (same) CHK(x.hash() == y.hash(), "ir:expr:hash", strf("two equal expressions \"%s\" have different hashes", u[i].first.c_str()));
    // The join and query caches identify expressions by their hash.
    else CHK(x.hash() != y.hash(), "ir:expr:hash", strf("expressions \"%s\" and \"%s\" have the same hash", u[i].first.c_str(), v[j].first.c_str()));
  }
  CHK(u[i].second->hash() == u[i].second->hash(), "ir:expr:hash", "the hash of an expression changes");
}

void irLeaves(mc::Ctx& c) {
  auto u = leaves(), v = leaves();
  size_t i = c.choose(u.size(), "leaf");
  c.op("%s", u[i].first.c_str());
  comparePair(c, u, v, i);
  auto w = composites([](int k) { return leafOf(0, k); });
  for (auto& [k, e] : w) CHK(!(*e == *u[i].second) && !(*u[i].second == *e), "ir:expr:equal", strf("\"%s\" equals \"%s\"", u[i].first.c_str(), k.c_str()));
  c.state(i);
}

void irComposites(mc::Ctx& c) {
  int kind = c.choose(kLeafKinds, "leaves");
  static std::map<int, std::pair<Cat, Cat>> cats;
  if (!cats.count(kind)) cats[kind] = {composites([=](int k) { return leafOf(kind, k); }), composites([=](int k) { return leafOf(kind, k); })};
  auto& u = cats[kind].first;
  auto& v = cats[kind].second;
  size_t i = c.choose(u.size(), "expression");
  c.op("%s over leaves %d", u[i].first.c_str(), kind);
  comparePair(c, u, v, i);
  // withType keeps everything but the type
  auto& e = u[i].second;
  if (!e->is<LowerExpr>() || e->type()->isString()) CHK(e->withType(e->type())->equal(e.get()), "ir:expr:withtype", u[i].first + ": same type");
  c.state(kind * 10000 + i);
}

struct LeafRewriter : ExprRewriter {
  int kind = 0, from = 0, to = 0;
  ExprPtr visit(const Expr* e) override {
    if (*e == *leafOf(kind, from)) return leafOf(kind, to);
    return ExprRewriter::visit(e);
  }
};
struct Keep : ExprRewriter {};
struct RefCollector : ExprCollector<std::multiset<unsigned>, RefCollector> {
  void visitColumnRef(const hdk::ir::ColumnRef* r) override { result_.insert(r->index()); }
};

void irRewrite(mc::Ctx& c) {
  int kind = c.choose(4, "leaves");  // 3: replacing a whole subexpression
  int from = c.choose(2, "from");
  int to = from ? 0 : 1 + c.choose(2, "to");
  static std::map<int, std::pair<Cat, Cat>> cats;
  auto& [u, want] = cats[kind * 16 + from * 4 + to];
  if (u.empty()) {
    u = composites([=](int k) { return leafOf(kind, k); }, false);
    want = composites([=](int k) { return leafOf(kind, k == from ? to : k); }, false);
  }
  size_t i = c.choose(u.size(), "expression");
  auto& e = u[i].second;
  c.op("%s: leaf %d -> %d of kind %d", u[i].first.c_str(), from, to, kind);
  auto same = Keep().visit(e.get());
  CHK(same.get() == e.get(), "ir:expr:rewrite", u[i].first + " is copied by a rewriter that changes nothing");
  LeafRewriter r;
  r.kind = kind;
  r.from = from;
  r.to = to;
  auto text = e->toString();
  auto hash = e->hash();
  auto got = r.visit(e.get());
  CHK(*got == *want[i].second && got->type()->equal(want[i].second->type()) && got->containsAgg() == want[i].second->containsAgg(), "ir:expr:rewrite",
      u[i].first + ": replaced leaves give " + got->toString() + ", want " + want[i].second->toString());
  CHK(got->hash() == want[i].second->hash(), "ir:expr:rewrite", u[i].first + ": a rewritten expression has another hash");
  CHK(got->toString() == want[i].second->toString(), "ir:expr:rewrite", u[i].first + ": " + got->toString());
  CHK(e->toString() == text && e->hash() == hash, "ir:expr:rewrite", u[i].first + ": rewriting changed the original");
  if (kind == 0) {
    // Collecting sees the leaves: count them by replacing with distinct columns
    auto all = RefCollector::collect(e);
    auto after = RefCollector::collect(got);
    std::multiset<unsigned> mapped;
    for (auto x : all) mapped.insert(int(x) == from ? to : x);
    CHK(after == mapped, "ir:expr:collect", u[i].first + ": collected columns differ after rewriting");
    for (unsigned k : {0u, 1u}) {
      std::string ref = leafOf(0, k)->toString();
      size_t n = 0;
      for (size_t pos = 0; (pos = text.find(ref, pos)) != std::string::npos; ++pos) ++n;
      bool printed = !(u[i].first.rfind("window", 0) == 0);
      if (printed) CHK(all.count(k) == n, "ir:expr:collect", strf("%s: %zu uses of column %u collected, %zu printed in %s", u[i].first.c_str(), all.count(k), k, n, text.c_str()));
    }
    // Input rewriting: node and column mapping
    InputRewriter in(node(0).get(), node(1).get(), {{0u, 2u}});
    auto moved = in.visit(e.get());
    static auto wantMoved = composites([](int k) -> ExprPtr { return makeExpr<hdk::ir::ColumnRef>(X().int32(), node(1).get(), k == 0 ? 2 : k); }, false);
    CHK(*moved == *wantMoved[i].second, "ir:expr:rewrite", u[i].first + ": moved to another input gives " + moved->toString());
  }
  c.state((kind * 4 + from * 2 + to) * 10000 + i);
}

// ------------------------------------------------------------------------------------ literals
using I = __int128;
std::string show(I v) {
  if (v == 0) return "0";
  bool n = v < 0;
  std::string s;
  while (v) {
    int d = int(v % 10);
    s += char('0' + (d < 0 ? -d : d));
    v /= 10;
  }
  if (n) s += '-';
  return std::string(s.rbegin(), s.rend());
}
I p10(int n) {
  I r = 1;
  while (n-- > 0) r *= 10;
  return r;
}
I divRound(I a, I b) {  // half away from zero
  bool n = a < 0;
  I u = n ? -a : a;
  I q = u / b;
  if (2 * (u % b) >= b) ++q;
  return n ? -q : q;
}
// value = digits * 10^-scale, exactly; nullopt if not a plain decimal number
struct Num {
  I mant;
  int scale;
};
std::optional<Num> parseRef(const std::string& s) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && s[i] == '-') neg = true, ++i;
  I m = 0;
  int sc = 0;
  bool digits = false, dot = false;
  for (; i < s.size(); ++i) {
    if (s[i] == '.' && !dot) {
      dot = true;
    } else if (s[i] >= '0' && s[i] <= '9') {
      digits = true;
      m = m * 10 + (s[i] - '0');
      if (dot) ++sc;
    } else {
      return std::nullopt;
    }
  }
  if (!digits) return std::nullopt;
  return Num{neg ? -m : m, sc};
}
I scaleTo(const Num& n, int scale) { return n.scale <= scale ? n.mant * p10(scale - n.scale) : divRound(n.mant, p10(n.scale - scale)); }

I lo(int size) { return -(I(1) << (size * 8 - 1)); }
I hi(int size) { return (I(1) << (size * 8 - 1)) - 1; }

std::vector<std::string> numberTexts(bool thorough) {
  std::vector<std::string> v;
  std::vector<std::string> ints = {"0", "1", "9", "10", "00", "007", "99", "127", "128", "129", "255", "256", "1000", "32767", "32768", "32769", "65536", "2147483647", "2147483648", "2147483649", "4294967296",
                                   "999999999", "123456789012", "99999999999999999", "100000000000000000", "922337203685477580", "922337203685477581", "999999999999999999", "1000000000000000000", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "99999999999999999999"};
  std::vector<std::string> fracs = {"", ".", ".0", ".00", ".4", ".49", ".5", ".50", ".51", ".05", ".005", ".0049", ".995", ".999", ".9999999", ".123456789"};
  if (thorough) for (auto f : {".000", ".45", ".499999", ".000001", ".1", ".9", ".99", ".015", ".014999"}) fracs.push_back(f);
  for (auto& i : ints)
    for (auto& f : fracs)
      for (auto s : {"", "-"}) v.push_back(s + i + f);
  for (auto f : {".5", ".05", ".999", ".4"}) v.push_back(f);
  return v;
}
const std::vector<std::string> garbage = {"", " ", "abc", "1a", "a1", "--1", "1-", "1-1", "1.2.3", "-", "-.", "1,000", "1 2", "1.5abc", "1.a", "1.-5", "1.+5", "1. 5", "t", "1.5-"};

std::optional<I> parsed(const std::string& s, const Type* t) {
  try {
    return extract_int_type_from_datum(StringToDatum(s, t), t);
  } catch (const std::exception&) {
    return std::nullopt;
  }
}

void litInteger(mc::Ctx& c) {
  static const auto texts = numberTexts(c.thorough());
  static const int sizes[] = {1, 2, 4, 8};
  int size = sizes[c.choose(4, "size")];
  bool nullable = c.flip("nullable");
  size_t k = c.choose(texts.size() + garbage.size(), "text");
  auto t = X().integer(size, nullable);
  auto& s = k < texts.size() ? texts[k] : garbage[k - texts.size()];
  c.op("'%s' as %s", s.c_str(), t->toString().c_str());
  auto got = parsed(s, t);
  if (k >= texts.size()) {
    CHK(!got, "lit:int:garbage", strf("'%s' is read as %s %s", s.c_str(), t->toString().c_str(), show(*got).c_str()));
  } else {
    auto n = *parseRef(s);
    I v = scaleTo(n, 0);
    bool ok = v >= lo(size) + (nullable ? 1 : 0) && v <= hi(size);
    size_t sig = 0;
    for (char ch : s) sig += ch >= '0' && ch <= '9';
    if (sig > 18 && n.scale > 0 && size == 8) {
      // Texts with a fraction are read through long double: exact to 64 bits.
      if (got) {
        I d = *got - v;
        CHK((d < 0 ? -d : d) <= 1, "lit:int:value", strf("'%s' as %s is %s", s.c_str(), t->toString().c_str(), show(*got).c_str()));
      }
      return;
    }
    CHK(got.has_value() == ok, "lit:int:range", strf("'%s' is %s as %s", s.c_str(), ok ? "refused" : "accepted", t->toString().c_str()));
    if (ok) CHK(*got == v, "lit:int:value", strf("'%s' as %s is %s, want %s", s.c_str(), t->toString().c_str(), show(*got).c_str(), show(v).c_str()));
    if (ok) {
      Datum d = StringToDatum(s, t);
      CHK(DatumToString(d, t) == show(v), "lit:int:print", strf("%s prints %s", show(v).c_str(), DatumToString(d, t).c_str()));
    }
  }
  c.state(k * 8 + size + nullable);
}

void litDecimal(mc::Ctx& c) {
  static const auto texts = numberTexts(c.thorough());
  static const std::vector<std::pair<int, int>> ps = {{18, 0}, {10, 1}, {10, 2}, {18, 5}, {18, 9}, {18, 18}};
  auto [p, sc] = ps[c.choose(ps.size(), "type")];
  size_t k = c.choose(texts.size() + garbage.size(), "text");
  auto t = X().decimal64(p, sc);
  auto& s = k < texts.size() ? texts[k] : garbage[k - texts.size()];
  c.op("'%s' as %s", s.c_str(), t->toString().c_str());
  auto got = parsed(s, t);
  if (k >= texts.size()) {
    CHK(!got, "lit:dec:garbage", strf("'%s' is read as %s with value %s", s.c_str(), t->toString().c_str(), show(*got).c_str()));
    return;
  }
  auto n = *parseRef(s);
  I v = scaleTo(n, sc);
  size_t sig = 0;
  for (char ch : s) sig += ch >= '0' && ch <= '9';
  bool ok = v > lo(8) && v <= hi(8);
  if (sig > 18 && n.scale > 0) {
    // Longer texts are cut after 18 digits; only the magnitude is claimed.
    if (got && ok) {
      I d = *got - v;
      int kept = std::max(0, 18 - int(sig - n.scale));
      CHK((d < 0 ? -d : d) <= p10(std::max(0, sc - kept)), "lit:dec:value", strf("'%s' as %s is %s, want %s", s.c_str(), t->toString().c_str(), show(*got).c_str(), show(v).c_str()));
    }
    return;
  }
  CHK(got.has_value() == ok, "lit:dec:range", strf("'%s' is %s as %s", s.c_str(), ok ? "refused" : "accepted", t->toString().c_str()));
  if (ok) CHK(*got == v, "lit:dec:value", strf("'%s' as %s is %s, want %s", s.c_str(), t->toString().c_str(), show(*got).c_str(), show(v).c_str()));
  if (ok) {
    // printed exactly and read back
    Datum d{0};
    d.bigintval = int64_t(v);
    auto text = DatumToString(d, t);
    auto back = parseRef(text);
    CHK(back && back->scale == sc && back->mant == v, "lit:dec:print", strf("%s of scale %d prints %s", show(v).c_str(), sc, text.c_str()));
    auto again = parsed(text, t);
    CHK(again && *again == v, "lit:dec:print", strf("%s of scale %d prints %s, which reads back as %s", show(v).c_str(), sc, text.c_str(), again ? show(*again).c_str() : "an error"));
  }
  c.state(k * 8 + sc);
}

struct NT {
  const Type* t;
  int scale;  // -1: floating point
  int size;
};
const std::vector<NT>& numTypes() {
  static std::vector<NT> r = {{X().int8(false), 0, 1}, {X().int16(false), 0, 2}, {X().int32(false), 0, 4}, {X().int64(false), 0, 8}, {X().decimal64(18, 0, false), 0, 8}, {X().decimal64(10, 1, false), 1, 8},
                              {X().decimal64(10, 2, false), 2, 8}, {X().decimal64(18, 9, false), 9, 8}, {X().decimal64(18, 17, false), 17, 8}, {X().fp32(false), -1, 4}, {X().fp64(false), -1, 8}, {X().timestamp(TimeUnit::kSecond, false), 0, 8}};
  return r;
}
Datum datumOf(const NT& t, int64_t v) {
  Datum d{0};
  switch (t.size) {
    case 1: d.tinyintval = v; break;
    case 2: d.smallintval = v; break;
    case 4: d.intval = v; break;
    default: d.bigintval = v;
  }
  return d;
}

void litCast(mc::Ctx& c) {
  auto& nt = numTypes();
  auto& f = nt[c.choose(nt.size(), "from")];
  auto& t = nt[c.choose(nt.size(), "to")];
  if (f.t == t.t) c.skip();
  bool null = c.flip("null");
  if (null) {
    auto got = nullC(f.t->withNullable(true))->cast(t.t->withNullable(true));
    auto k = got->as<Constant>();
    c.op("cast null");
    CHK(k && k->isNull() && k->type()->equal(t.t->withNullable(true)), "lit:cast:null", "null cast to " + t.t->toString() + " gives " + got->toString());
    return;
  }
  ExprPtr src;
  std::string what;
  long double fv = 0;
  I raw = 0;
  if (f.scale >= 0) {
    std::vector<I> vals;
    for (int s : {1, 2, 4, 8})
      for (I base : {lo(s), hi(s)})
        for (int d = -2; d <= 2; ++d) vals.push_back(base + d);
    for (int64_t x : {0, 1, -1, 4, 5, 6, -4, -5, -6, 49, 50, 51, -50, 99, 100, 149, 150, -150, 12345}) vals.push_back(x);
    for (int e : {1, 2, 9, 17}) for (int d : {-1, 0, 1}) {
      vals.push_back(p10(e) + d);
      vals.push_back(p10(e) / 2 + d);
      vals.push_back(-p10(e) / 2 + d);
      vals.push_back(hi(8) / p10(e) + d);
      vals.push_back(lo(8) / p10(e) + d);
    }
    raw = vals[c.choose(vals.size(), "value")];
    if (raw <= lo(f.size) || raw > hi(f.size)) c.skip();  // the lowest value stands for null
    src = makeExpr<Constant>(f.t, false, datumOf(f, int64_t(raw)));
    what = show(raw) + " of " + f.t->toString();
  } else {
    static const std::vector<double> vals = {0, 1, -1, 0.25, 0.5, -0.5, 1.5, -1.5, 2.5, 126.5, 127, 127.25, 127.5, -128, -128.25, -128.5, -129, 32767, 32767.5, -32768.5, 65536, 2147483520.0, 2147483647.0, 2147483647.5, 2147483648.0, -2147483648.0, -2147483649.0, 4294967296.0,
                                             9007199254740992.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0, 1e19, -1e19, 1e30, 3e38, 1e300, -1e300, INFINITY, -INFINITY, 1e-10, 123.456, 0.005, 1.005, 99.995, 922337203685477.5};
    double v = vals[c.choose(vals.size(), "value")];
    fv = f.size == 4 ? (long double)(float)v : (long double)v;
    if (f.size == 4 && !std::isfinite((float)v) && std::isfinite(v)) c.skip();
    src = fpC(f.t, v);
    what = strf("%g of %s", v, f.t->toString().c_str());
  }
  c.op("cast %s to %s", what.c_str(), t.t->toString().c_str());
  ExprPtr got;
  bool refused = false;
  try {
    got = src->cast(t.t);
  } catch (const std::exception&) {
    refused = true;
  }
  auto label = "cast of " + what + " to " + t.t->toString();
  const Constant* k = got ? got->as<Constant>() : nullptr;
  if (!refused) CHK(k && !k->isNull() && k->type()->equal(t.t), "lit:cast:type", label + " gives " + got->toString());
  if (t.scale >= 0) {
    bool ok;
    I want = 0;
    if (f.scale >= 0) {
      want = scaleTo({raw, f.scale}, t.scale);
      ok = want >= lo(t.size) && want <= hi(t.size);
    } else {
      long double x = fv;
      if (t.scale) x = (long double)((double)fv * (double)p10(t.scale));  // scaling happens in double
      x = std::round(x);
      ok = std::isfinite(x) && x >= (long double)lo(t.size) && x <= (long double)hi(t.size);
      // at the very top of the range either answer is a rounding question
      if (std::isfinite(x) && t.size == 8 && fabsl(x) > 9.2233720368547e18L && fabsl(x) < 9.2233720368548e18L && x != (long double)lo(8) && x != 9223372036854775808.0L) {
        if (refused) return;
        ok = true;
      }
      if (ok) want = I(x);
    }
    CHK(refused == !ok, "lit:cast:range", label + (refused ? " is refused" : " gives " + got->toString()));
    if (ok) CHK(I(extract_int_type_from_datum(k->value(), t.t)) == want, "lit:cast:value", label + " gives " + show(extract_int_type_from_datum(k->value(), t.t)) + ", want " + show(want));
  } else {
    CHK(!refused, "lit:cast:range", label + " is refused");
    double g = t.size == 4 ? k->value().floatval : k->value().doubleval;
    long double x = f.scale >= 0 ? (long double)raw / (long double)p10(f.scale) : fv;
    double want = t.size == 4 ? (double)(float)x : (double)x;
    double tol = f.scale > 0 ? fabs(want) * (t.size == 4 ? 1e-6 : 1e-15) : 0;
    CHK(g == want || fabs(g - want) <= tol, "lit:cast:value", strf("%s gives %.20g, want %.20g", label.c_str(), g, want));
  }
  c.state(what + ">" + t.t->toString());
}

void litText(mc::Ctx& c) {
  int k = c.choose(4, "kind");
  if (k == 0) {  // booleans
    static const std::vector<std::pair<const char*, int>> v = {{"t", 1}, {"T", 1}, {"true", 1}, {"TRUE", 1}, {"True", 1}, {"1", 1}, {"f", 0}, {"F", 0}, {"false", 0}, {"FALSE", 0}, {"0", 0}, {"", -1}, {"2", -1}, {"tru", -1}, {"yes", -1}, {"truee", -1}, {"10", -1}};
    auto [s, want] = v[c.choose(v.size(), "text")];
    auto got = parsed(s, X().boolean());
    c.op("'%s' as bool", s);
    CHK(want < 0 ? !got : got && *got == want, "lit:bool", strf("'%s' as a boolean", s));
    if (want >= 0) {
      Datum d{0};
      d.boolval = want;
      CHK(parsed(DatumToString(d, X().boolean()), X().boolean()) == std::optional<I>(want), "lit:bool", "a printed boolean reads back");
    }
  } else if (k == 1) {  // varchar truncation
    static const std::vector<std::string> v = {"", "a", "ab", "abc", "abcd", "abcde", "abcdef"};
    auto& s = v[c.choose(v.size(), "text")];
    int len = 1 + c.choose(6, "length");
    auto got = strC(s)->cast(X().varChar(len, false));
    c.op("'%s' as varchar(%d)", s.c_str(), len);
    CHK(got->as<Constant>() && *got->as<Constant>()->value().stringval == s.substr(0, len), "lit:varchar", strf("'%s' cast to varchar(%d)", s.c_str(), len));
    auto back = got->cast(X().text(false));
    CHK(*back->as<Constant>()->value().stringval == s.substr(0, len), "lit:varchar", "cast back to text");
    auto num = intC(X().int32(false), 12345)->cast(X().varChar(len, false));
    CHK(*num->as<Constant>()->value().stringval == std::string("12345").substr(0, len), "lit:varchar", "number cast to varchar");
  } else if (k == 2) {  // dates and timestamps round trip through text
    static const std::vector<int64_t> secs = {0, 1, -1, 59, 3600, 86399, 86400, -86400, 951782400, 951868799, 1583020799, 4102444800, -2208988800, -62135596800, 253402300799};
    int64_t s = secs[c.choose(secs.size(), "moment")];
    int u = 2 + c.choose(4, "unit");
    int fr = c.choose(3, "fraction");
    int64_t per = u == 2 ? 1 : u == 3 ? 1000 : u == 4 ? 1000000 : 1000000000;
    int64_t frac = fr == 0 ? 0 : fr == 1 ? (per > 1 ? 1 : 0) : per - 1;
    I v = I(s) * per + frac;
    if (v > hi(8) || v < lo(8)) c.skip();
    auto t = X().timestamp(TimeUnit(u), false);
    Datum d{0};
    d.bigintval = int64_t(v);
    auto text = DatumToString(d, t);
    c.op("%s", text.c_str());
    auto got = parsed(text, t);
    CHK(got && *got == v, "lit:timestamp", strf("timestamp %s of unit %d prints %s, which reads back as %s", show(v).c_str(), u, text.c_str(), got ? show(*got).c_str() : "an error"));
    // to a date: the start of the day
    auto src = makeExpr<Constant>(t, false, d);
    auto date = src->cast(X().date64(TimeUnit::kSecond, false));
    int64_t day = s >= 0 ? s / 86400 : -((-s + 86399) / 86400);
    CHK(date->as<Constant>()->value().bigintval == day * 86400, "lit:timestamp", text + " cast to a date");
    auto dt = DatumToString(date->as<Constant>()->value(), date->type());
    CHK(dt == text.substr(0, dt.size()) && parsed(dt, date->type()) == std::optional<I>(I(day) * 86400), "lit:date", text + " prints as date " + dt);
    // to another unit: floor or exact multiple
    for (int w = 2; w < 6; ++w) {
      int64_t pw = w == 2 ? 1 : w == 3 ? 1000 : w == 4 ? 1000000 : 1000000000;
      I want = pw >= per ? v * (pw / per) : (v >= 0 ? v / (per / pw) : -((-v + per / pw - 1) / (per / pw)));
      if (want > hi(8) || want <= lo(8)) continue;
      auto r = src->cast(X().timestamp(TimeUnit(w), false));
      CHK(r->as<Constant>() && r->as<Constant>()->value().bigintval == int64_t(want), "lit:timestamp", strf("%s cast from unit %d to %d gives %ld, want %s", text.c_str(), u, w, long(r->as<Constant>()->value().bigintval), show(want).c_str()));
    }
  } else {  // times
    int s = c.choose(7, "time");
    static const int v[] = {0, 1, 59, 60, 3599, 43200, 86399};
    auto t = X().time64(TimeUnit::kSecond, false);
    Datum d{0};
    d.bigintval = v[s];
    auto text = DatumToString(d, t);
    c.op("%s", text.c_str());
    CHK(text == strf("%02d:%02d:%02d", v[s] / 3600, v[s] / 60 % 60, v[s] % 60) && parsed(text, t) == std::optional<I>(v[s]), "lit:time", text);
  }
  c.state(k);
}
}  // namespace

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.rule = "every type description, every pair of expressions of the catalogue, every rewriting of a leaf, and every literal text, value and pair of types listed";
  return mc::run(argc, argv,
                 {
                     {"ir_types", irTypes, 1},
                     {"ir_type_text", irTypeErrors, 1},
                     {"ir_leaves", irLeaves, 1},
                     {"ir_exprs", irComposites, 2},
                     {"ir_rewrite", irRewrite, 4},
                     {"lit_integer", litInteger, 2},
                     {"lit_decimal", litDecimal, 1},
                     {"lit_cast", litCast, 2},
                     {"lit_text", litText, 2},
                 },
                 o);
}
