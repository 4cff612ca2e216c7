// Shared by the query-level harnesses: tables, value domains, reference aggregates, comparison.
#pragma once
#include "MiniDb.h"
#include "hutil.h"

#include <map>
#include <memory>
#include <set>

namespace q {
using namespace mini;
using hdk::ir::BuilderExpr;
using hdk::ir::BuilderNode;
using hdk::ir::QueryBuilder;
using hdk::ir::Type;
using i128 = __int128;

inline std::unique_ptr<Db> g;
inline hdk::ir::Context& C() { return hdk::ir::Context::defaultCtx(); }
inline const Type* nn(const Type* t, bool nullable) { return nullable ? t : t->withNullable(false); }

struct Tab {
  std::string name;
  int id;
  Tab(const std::vector<Col>& cols, const Rows& rows, std::vector<size_t> frags = {}) {
    static int n = 0;
    name = "t" + std::to_string(n++);
    if (frags.empty()) frags = {rows.size()};
    id = g->addTable(name, cols, rows, frags);
  }
  Tab(const Tab&) = delete;
  ~Tab() { g->dropTable(id); }
};

struct Dom {
  std::string name;
  const Type* t;
  std::vector<Val> v;  // distinct non-null values, ascending
  bool num;            // sums and averages exist
};
inline std::vector<Val> iv(std::initializer_list<int64_t> l) { return std::vector<Val>(l.begin(), l.end()); }
inline std::vector<Val> fv(std::initializer_list<double> l) { return std::vector<Val>(l.begin(), l.end()); }
inline const Type* dict(int k, int size = 4) {  // dictionaries are large: keep a few
  static std::map<std::pair<int, int>, const Type*> d;
  auto& t = d[{k, size}];
  if (!t) t = g->dictType(size);
  return t;
}
inline std::vector<Dom> doms() {
  auto& c = C();
  return {{"i8", c.int8(), iv({-127, -1, 127}), true},
          {"i16", c.int16(), iv({-32767, -1, 32767}), true},
          {"i32", c.int32(), iv({-2147483647, -1, 2147483647}), true},
          {"i32s", c.int32(), iv({-1000, 5, 70}), true},
          {"i64s", c.int64(), iv({-70, 0, 1001}), true},
          {"i64", c.int64(), iv({-3000000000000000000, 7, 3000000000000000000}), true},
          {"f32", c.fp32(), fv({-1.5, 0.25, 1000}), true},
          {"f64", c.fp64(), fv({-1e10, 0.25, 3}), true},
          {"dec", c.decimal64(12, 2), iv({-150, 5, 999999999999}), true},
          {"bool", c.boolean(), iv({0, 1}), false},
          {"date", c.date64(hdk::ir::TimeUnit::kSecond), iv({-86400, 0, 86400 * 19000LL}), false},
          {"time", c.time64(hdk::ir::TimeUnit::kSecond), iv({0, 3600, 86399}), false},
          {"ts", c.timestamp(hdk::ir::TimeUnit::kMilli), iv({-1, 1, 1600000000000}), false},
          {"dict", dict(0), {Val("a"), Val("b"), Val("zz")}, false},
          {"dict1", dict(1, 1), {Val("a"), Val("b"), Val("zz")}, false}};
}
inline int scaleOf(const Type* t) { return t->isDecimal() ? t->as<hdk::ir::DecimalType>()->scale() : 0; }
inline double num(const Val& v, const Type* t) {
  if (v.k == Val::Fp) return v.d;
  return (double)v.i / std::pow(10.0, scaleOf(t));
}

// Reference aggregates over the values of one group.
struct Agg {
  std::string name;
  std::function<BuilderExpr(const BuilderNode&)> make;
  std::function<Val(const Rows&)> ref;           // the rows of the group
  std::function<bool(const Rows&, const Val&)> ok;  // instead of ref when several answers are right
};

inline Val fp32(double d) { return Val((double)(float)d); }

inline bool near(const Val& a, const Val& w) {
  if (a == w) return true;
  return a.k == Val::Fp && w.k == Val::Fp && std::fabs(a.d - w.d) <= 1e-5 * std::max({1.0, std::fabs(a.d), std::fabs(w.d)});
}
inline bool near(const Row& a, const Row& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!near(a[i], b[i])) return false;
  return true;
}
// Runs f and turns an engine error into a violation.
template <class F>
Rows guarded(mc::Ctx& c, const std::string& what, F f) {
  try {
    return f();
  } catch (const std::exception& e) {
    c.fail("refused:" + what, what + ": query failed: " + e.what());
  }
}
// got must be a permutation of want
inline void sameRows(mc::Ctx& c, const std::string& what, Rows got, Rows want, bool ordered = false) {
  if (got.size() != want.size())
    c.fail("rows:" + what, mc::strf("%s: %zu rows instead of %zu: %s instead of %s", what.c_str(), got.size(), want.size(), str(got).substr(0, 700).c_str(), str(want).substr(0, 700).c_str()));
  if (!ordered) {
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
  }
  for (size_t i = 0; i < got.size(); ++i)
    if (!near(got[i], want[i]))
      c.fail("value:" + what, mc::strf("%s: row %zu is %s instead of %s; got %s", what.c_str(), i, str(got[i]).c_str(), str(want[i]).c_str(), str(got).substr(0, 700).c_str()));
}
}  // namespace q
