// Scalar expressions and filters, evaluated by the real query engine end to end (build, optimise,
// compile, run) over tables that hold every combination of a boundary domain, against a reference
// evaluator written here.
#include "MiniDb.h"
#include "hutil.h"

#include <memory>
#include <set>

using namespace mini;
using hdk::ir::BuilderExpr;
using hdk::ir::BuilderNode;
using hdk::ir::QueryBuilder;
using hdk::ir::Type;
using i128 = __int128;

static std::unique_ptr<Db> g;

static hdk::ir::Context& C() { return hdk::ir::Context::defaultCtx(); }

struct Res {
  Val v;
  bool err = false;      // an error must be reported
  bool any = false;      // the outcome is not specified
  i128 exact = 0;        // integer overflow: the mathematical result
  bool has_exact = false;
};
static Res Err() { Res r; r.err = true; return r; }
static Res Any() { Res r; r.any = true; return r; }

struct Ex {
  BuilderExpr e;
  std::function<Res(const Row&)> f;
  std::string text;
  const Type* t() const { return e.type(); }
};

static i128 p10(int n) {
  i128 r = 1;
  while (n-- > 0) r *= 10;
  return r;
}
static int scaleOf(const Type* t) { return t->isDecimal() ? t->as<hdk::ir::DecimalType>()->scale() : 0; }
static bool intLike(const Type* t) { return t->isInteger() || t->isDecimal(); }
static bool fits(i128 v, const Type* t) {
  int n = t->isDecimal() ? 8 : t->size();
  i128 mx = ((i128)1 << (8 * n - 1)) - 1;
  return v <= mx && v >= -mx;
}
static double fpOf(const Val& v, const Type* t) {
  if (v.k == Val::Fp) return v.d;
  return (double)v.i / (double)p10(scaleOf(t));
}
static Res asInt(i128 v, const Type* t) {
  if (v == -((i128)1 << (8 * (t->isDecimal() ? 8 : t->size()) - 1))) return Any();  // the reserved null value
  if (!fits(v, t)) {
    auto r = Err();
    r.exact = v;
    r.has_exact = true;
    return r;
  }
  return {Val((int64_t)v)};
}
static i128 divRound(i128 a, i128 b) {  // half away from zero
  i128 h = b / 2;
  return (a >= 0 ? a + h : a - h) / b;
}
// value of x (type t) as an integer with the given scale; ok=false when out of the type's range
static bool toScale(const Val& x, const Type* t, int scale, i128& out) {
  int s = scaleOf(t);
  out = scale >= s ? (i128)x.i * p10(scale - s) : divRound(x.i, p10(s - scale));
  return true;
}

static Ex col(const BuilderNode& n, const std::string& name, int idx) {
  Ex r;
  r.e = n.ref(name);
  r.f = [idx](const Row& row) { return Res{row[idx]}; };
  r.text = name;
  return r;
}
static Ex lit(QueryBuilder& b, int64_t v, const Type* t, bool raw = true) {
  Ex r;
  r.e = raw && t->isDecimal() ? b.cstNoScale(v, t) : b.cst(v, t);
  r.f = [v](const Row&) { return Res{Val(v)}; };
  r.text = std::to_string(v) + ":" + t->toString();
  return r;
}
static Ex litF(QueryBuilder& b, double v, const Type* t) {
  Ex r;
  r.e = b.cst(v, t);
  r.f = [v](const Row&) { return Res{Val(v)}; };
  r.text = std::to_string(v) + ":" + t->toString();
  return r;
}
static Ex litNull(QueryBuilder& b, const Type* t) {
  Ex r;
  r.e = b.nullCst(t);
  r.f = [](const Row&) { return Res{}; };
  r.text = "NULL:" + t->toString();
  return r;
}

enum Op { Add, Sub, Mul, Div, Mod, BwAnd, BwOr, BwXor, Eq, Ne, Lt, Le, Gt, Ge, And, Or, kOps };
static const char* kOpName[] = {"+", "-", "*", "/", "%", "&", "|", "^", "=", "<>", "<", "<=", ">", ">=", "and", "or"};

static BuilderExpr apply(Op op, const BuilderExpr& a, const BuilderExpr& b) {
  switch (op) {
    case Add: return a.add(b);
    case Sub: return a.sub(b);
    case Mul: return a.mul(b);
    case Div: return a.div(b);
    case Mod: return a.mod(b);
    case BwAnd: return a.bwAnd(b);
    case BwOr: return a.bwOr(b);
    case BwXor: return a.bwXor(b);
    case Eq: return a.eq(b);
    case Ne: return a.ne(b);
    case Lt: return a.lt(b);
    case Le: return a.le(b);
    case Gt: return a.gt(b);
    case Ge: return a.ge(b);
    case And: return a.logicalAnd(b);
    case Or: return a.logicalOr(b);
    default: abort();
  }
}

static bool cmp3(Op op, int c) {
  switch (op) {
    case Eq: return c == 0;
    case Ne: return c != 0;
    case Lt: return c < 0;
    case Le: return c <= 0;
    case Gt: return c > 0;
    case Ge: return c >= 0;
    default: abort();
  }
}

static Res evalBin(Op op, const Res& x, const Res& y, const Type* tx, const Type* ty, const Type* t) {
  if (op == And || op == Or) {
    // a false (true) operand decides; an operand that need not be evaluated may fail unnoticed
    int64_t dom = op == And ? 0 : 1;
    if (x.any || y.any) return Any();
    if (x.err || y.err) {
      const Res& o = x.err ? y : x;
      if (!o.err && !o.v.null() && o.v.i == dom) return Any();
      return x.err && y.err ? Err() : Any();
    }
    if ((!x.v.null() && x.v.i == dom) || (!y.v.null() && y.v.i == dom)) return {Val(dom)};
    if (x.v.null() || y.v.null()) return {};
    return {Val(1 - dom)};
  }
  if (x.any || y.any) return Any();
  if (x.err || y.err) return Err();
  if (x.v.null() || y.v.null()) {
    // converting the other operand to a common decimal may overflow and be reported
    if ((tx->isDecimal() || ty->isDecimal()) && !t->isFloatingPoint()) {
      int s = std::max(scaleOf(tx), scaleOf(ty));
      for (auto p : {std::make_pair(&x.v, tx), std::make_pair(&y.v, ty)}) {
        if (p.first->k == Val::Int && !fits((i128)p.first->i * p10(s - scaleOf(p.second)), C().int64())) return Any();
      }
      if (op == Div) return Any();
    }
    return {};
  }
  if (op >= Eq && op <= Ge) {
    int c;
    if (x.v.k == Val::Str) {
      c = x.v.s < y.v.s ? -1 : x.v.s > y.v.s;
    } else if (x.v.k == Val::Fp || y.v.k == Val::Fp) {
      double a = fpOf(x.v, tx), b = fpOf(y.v, ty);
      if ((tx->isFp32() || ty->isFp32()) && a != b && std::fabs(a - b) <= 1e-6 * std::max(std::fabs(a), std::fabs(b))) return Any();
      c = a < b ? -1 : a > b;
    } else {
      int s = std::max(scaleOf(tx), scaleOf(ty));
      i128 a, b;
      toScale(x.v, tx, s, a);
      toScale(y.v, ty, s, b);
      if (s && (!fits(a, C().int64()) || !fits(b, C().int64()))) return Any();
      c = a < b ? -1 : a > b;
    }
    return {Val((int64_t)cmp3(op, c))};
  }
  if (t->isFloatingPoint()) {
    double a = fpOf(x.v, tx), b = fpOf(y.v, ty), r = 0;
    switch (op) {
      case Add: r = a + b; break;
      case Sub: r = a - b; break;
      case Mul: r = a * b; break;
      case Div:
        if (b == 0) return Err();
        r = a / b;
        break;
      default: return Any();
    }
    double lim = t->isFp32() ? 1e38 : 1e300;
    if (std::fabs(r) > lim || (r != 0 && std::fabs(r) < 1 / lim)) return Any();
    return {Val(r)};
  }
  if (t->isDecimal() || tx->isDecimal() || ty->isDecimal()) {
    int s = scaleOf(t), sx = scaleOf(tx), sy = scaleOf(ty);
    // operands must first fit the decimal they are converted to
    i128 a = x.v.i, b = y.v.i, r;
    switch (op) {
      case Add:
      case Sub: {
        a = a * p10(s - sx);
        b = b * p10(s - sy);
        if (!fits(a, C().int64()) || !fits(b, C().int64())) return Err();
        r = op == Add ? a + b : a - b;
        break;
      }
      case Mul: {
        r = a * b;
        if (s > sx + sy) r *= p10(s - sx - sy);
        else if (s < sx + sy) return Any();
        break;
      }
      case Div: return Any();
      default: return Any();
    }
    return asInt(r, C().int64());
  }
  i128 a = x.v.i, b = y.v.i;
  switch (op) {
    case Add: return asInt(a + b, t);
    case Sub: return asInt(a - b, t);
    case Mul: return asInt(a * b, t);
    case Div:
      if (!b) return Err();
      return asInt(a / b, t);
    case Mod:
      if (!b) return Err();
      return asInt(a % b, t);
    case BwAnd: { auto r = asInt(a & b, t); return r.err ? Any() : r; }
    case BwOr: { auto r = asInt(a | b, t); return r.err ? Any() : r; }
    case BwXor: { auto r = asInt(a ^ b, t); return r.err ? Any() : r; }
    default: abort();
  }
}

static std::optional<Ex> bin(Op op, const Ex& a, const Ex& b) {
  Ex r;
  try {
    r.e = apply(op, a.e, b.e);
  } catch (const hdk::ir::InvalidQueryError&) {
    return {};
  }
  auto tx = a.t(), ty = b.t(), t = r.e.type();
  auto fa = a.f, fb = b.f;
  r.f = [=](const Row& row) { return evalBin(op, fa(row), fb(row), tx, ty, t); };
  r.text = "(" + a.text + " " + kOpName[op] + " " + b.text + ")";
  return r;
}

static Ex notEx(const Ex& a) {
  Ex r;
  r.e = a.e.logicalNot();
  auto fa = a.f;
  r.f = [=](const Row& row) {
    auto x = fa(row);
    if (x.err || x.any || x.v.null()) return x;
    return Res{Val((int64_t)!x.v.i)};
  };
  r.text = "not " + a.text;
  return r;
}
static Ex isNullEx(const Ex& a) {
  Ex r;
  r.e = a.e.isNull();
  auto fa = a.f;
  r.f = [=](const Row& row) {
    auto x = fa(row);
    if (x.err || x.any) return x;
    return Res{Val((int64_t)x.v.null())};
  };
  r.text = "(" + a.text + " is null)";
  return r;
}
static std::optional<Ex> uminusEx(const Ex& a) {
  Ex r;
  try {
    r.e = a.e.uminus();
  } catch (const hdk::ir::InvalidQueryError&) {
    return {};
  }
  auto fa = a.f;
  r.f = [=](const Row& row) {
    auto x = fa(row);
    if (x.err || x.any || x.v.null()) return x;
    return x.v.k == Val::Fp ? Res{Val(-x.v.d)} : Res{Val(-x.v.i)};
  };
  r.text = "-" + a.text;
  return r;
}
static Ex caseEx(QueryBuilder& b, const Ex& c, const Ex& x, const Ex& y) {
  Ex r;
  r.e = b.ifThenElse(c.e, x.e, y.e);
  auto fc = c.f, fx = x.f, fy = y.f;
  r.f = [=](const Row& row) {
    auto k = fc(row);
    if (k.err || k.any) return k;
    return !k.v.null() && k.v.i ? fx(row) : fy(row);
  };
  r.text = "case when " + c.text + " then " + x.text + " else " + y.text + " end";
  return r;
}

static int64_t floorDiv(int64_t a, int64_t b) { return a / b - ((a % b != 0) && ((a < 0) != (b < 0))); }
static int64_t ups(const Type* t) {
  if (t->isTimestamp()) return hdk::ir::unitsPerSecond(t->as<hdk::ir::TimestampType>()->unit());
  if (t->isTime()) return hdk::ir::unitsPerSecond(t->as<hdk::ir::TimeType>()->unit());
  return 1;
}

static std::optional<Ex> castEx(const Ex& a, const Type* to) {
  Ex r;
  try {
    r.e = a.e.cast(to);
  } catch (const hdk::ir::InvalidQueryError&) {
    return {};
  }
  auto fa = a.f;
  auto from = a.t();
  r.f = [=](const Row& row) -> Res {
    auto x = fa(row);
    if (x.err || x.any || x.v.null()) return x;
    if (from->isFloatingPoint()) {
      double d = x.v.d;
      if (to->isFloatingPoint()) {
        if (std::fabs(d) > 1e38) return Any();
        return {Val(d)};
      }
      if (to->isInteger()) {
        double q = d < 0 ? std::ceil(d - 0.5) : std::floor(d + 0.5);
        if (std::fabs(q) > std::ldexp(1.0, 8 * to->size() - 1) - 1) return Any();
        if (from->isFp32() && std::fabs(q) > 1e6) return Any();
        return {Val((int64_t)q)};
      }
      return Any();
    }
    if (to->isFloatingPoint()) return {Val(fpOf(x.v, from))};
    if (intLike(from) && intLike(to)) {
      i128 v;
      toScale(x.v, from, scaleOf(to), v);
      if (to->isDecimal()) {
        if (!fits(v, C().int64())) return Err();
        return {Val((int64_t)v)};
      }
      return asInt(v, to);
    }
    if (to->isBoolean()) return {Val((int64_t)(x.v.i != 0))};
    if (from->isBoolean() && to->isInteger()) return x;
    if (from->isBoolean() && to->isDecimal()) return {Val((int64_t)(x.v.i * p10(scaleOf(to))))};
    if (from->isTimestamp() && to->isTimestamp()) {
      auto uf = ups(from), ut = ups(to);
      if (ut >= uf) {
        i128 v = (i128)x.v.i * (ut / uf);
        return asInt(v, C().int64());
      }
      return {Val(floorDiv(x.v.i, uf / ut))};
    }
    if (from->isTimestamp() && to->isDate()) return {Val(floorDiv(x.v.i, 86400 * ups(from)) * 86400)};
    if (from->isDate() && to->isTimestamp()) return {Val(x.v.i * ups(to))};
    if (from->isDate() && to->isDate()) return x;
    if (from->isTimestamp() && to->isTime()) {
      int64_t day = 86400 * ups(from);
      int64_t tod = x.v.i - floorDiv(x.v.i, day) * day;
      auto uf = ups(from), ut = ups(to);
      return {Val(ut >= uf ? tod * (ut / uf) : tod / (uf / ut))};
    }
    if (from->isTimestamp() && to->isInteger()) return asInt(x.v.i, to);
    if (from->isInteger() && to->isTimestamp()) return x;
    return Any();
  };
  r.text = "cast(" + a.text + " as " + to->toString() + ")";
  return r;
}

// ---------------------------------------------------------------- domains
struct Dom {
  std::string name;
  const Type* t;
  std::vector<Val> v;  // null first
};
static std::vector<Val> iv(std::initializer_list<int64_t> l) {
  std::vector<Val> r{Val()};
  for (auto x : l) r.push_back(Val(x));
  return r;
}
static std::vector<Val> fv(std::initializer_list<double> l) {
  std::vector<Val> r{Val()};
  for (auto x : l) r.push_back(Val(x));
  return r;
}
static std::vector<Dom>& doms() {
  static std::vector<Dom> d;
  if (d.empty()) {
    auto& c = C();
    d.push_back({"i8", c.int8(), iv({-127, -13, -2, -1, 0, 1, 2, 7, 100, 127})});
    d.push_back({"i16", c.int16(), iv({-32767, -300, -2, -1, 0, 1, 2, 7, 129, 32767})});
    d.push_back({"i32", c.int32(), iv({-2147483647, -70000, -2, -1, 0, 1, 2, 7, 65536, 2147483647})});
    d.push_back({"i64", c.int64(), iv({-9223372036854775807, -5000000000, -2, -1, 0, 1, 2, 7, 3037000500, 9223372036854775807})});
    d.push_back({"f32", c.fp32(), fv({-1e6, -2.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 1e6})});
    d.push_back({"f64", c.fp64(), fv({-1e15, -2.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 1e15})});
    d.push_back({"dec", c.decimal64(12, 2), iv({-999999999999, -250, -150, -50, -1, 0, 1, 49, 50, 100, 150, 999999999999})});
    d.push_back({"dec4", c.decimal64(18, 4), iv({-999999999999999999, -25000, -1, 0, 1, 5000, 10000, 999999999999999999})});
  }
  return d;
}

// A temporary table.
struct Tab {
  std::string name;
  int id;
  Tab(const std::vector<Col>& cols, const Rows& rows, std::vector<size_t> frags = {}) {
    static int n = 0;
    name = "t" + std::to_string(n++);
    if (frags.empty()) frags = {rows.size()};
    id = g->addTable(name, cols, rows, frags);
  }
  ~Tab() { g->dropTable(id); }
};

static void compare(mc::Ctx& c, const std::string& what, const Rows& got, const Rows& want) {
  if (got.size() != want.size()) {
    c.fail("rows:" + what, mc::strf("%s: %zu rows instead of %zu: %s instead of %s", what.c_str(), got.size(), want.size(),
                                    str(got).substr(0, 600).c_str(), str(want).substr(0, 600).c_str()));
  }
  for (size_t i = 0; i < got.size(); ++i) {
    for (size_t j = 0; j < got[i].size(); ++j) {
      auto& w = want[i][j];
      if (w.k == Val::Str && w.s == "<any>") continue;
      if (got[i][j] != w && !(w.k == Val::Fp && got[i][j].k == Val::Fp && std::fabs(got[i][j].d - w.d) <= 1e-4 * std::fabs(w.d))) {
        c.fail("value:" + what, mc::strf("%s: row %zu column %zu is %s instead of %s; got %s", what.c_str(), i, j, got[i][j].str().c_str(),
                                         w.str().c_str(), str(got).substr(0, 900).c_str()));
      }
    }
  }
}

using Make = std::function<std::optional<Ex>(const BuilderNode&)>;

// Evaluates expressions over all rows of a table with an id column: the rows on which all have a
// value in one query; each row on which one must fail in a query of its own. filter: which boolean
// expression is also used as a filter (-1: all).
static void evalMany(mc::Ctx& c, QueryBuilder& b, const std::string& tname, const std::vector<Col>& cols, const Rows& rows,
                     const std::vector<Make>& mks, bool may_widen = false, int filter = -1) {
  Rows ok;
  std::vector<std::pair<size_t, Row>> bad;
  {
    auto s = b.scan(tname);
    std::vector<std::optional<Ex>> ex;
    for (auto& m : mks) ex.push_back(m(s));
    for (auto& r : rows) {
      bool good = true;
      for (size_t i = 0; i < ex.size(); ++i) {
        if (!ex[i]) continue;
        auto v = ex[i]->f(r);
        if (v.any) good = false;
        if (v.err) {
          good = false;
          bad.push_back({i, r});
        }
      }
      if (good) ok.push_back(r);
    }
  }
  if (!ok.empty()) {
    Tab t(cols, ok);
    auto s = b.scan(t.name);
    std::vector<Ex> ex;
    std::vector<BuilderExpr> out{s.ref(0)};
    std::string text;
    for (auto& m : mks) {
      if (auto e = m(s)) {
        ex.push_back(*e);
        out.push_back(e->e);
        text += (text.empty() ? "" : ", ") + e->text + " : " + e->t()->toString();
      }
    }
    if (ex.empty()) return;
    c.op("%s over %zu rows", text.c_str(), ok.size());
    Rows got;
    try {
      got = g->run(s.proj(out));
    } catch (const std::exception& e) {
      c.fail("refused:" + text, text + ": query failed: " + e.what());
    }
    Rows want;
    for (auto& r : ok) {
      want.push_back({r[0]});
      for (auto& e : ex) want.back().push_back(e.f(r).v);
      c.state(text + str(r));
    }
    for (size_t i = 0; i < want.size() && i < got.size(); ++i) {
      for (size_t k = 0; k < ex.size(); ++k) {
        auto w = want[i][k + 1], x = got[i][k + 1];
        if (x != w && !(w.k == Val::Fp && x.k == Val::Fp && std::fabs(x.d - w.d) <= 1e-4 * std::fabs(w.d))) {
          c.fail("value:" + ex[k].text + " : " + ex[k].t()->toString(),
                 mc::strf("%s : %s on row %s gives %s instead of %s", ex[k].text.c_str(), ex[k].t()->toString().c_str(), str(ok[i]).c_str(), x.str().c_str(), w.str().c_str()));
        }
      }
    }
    compare(c, text, got, want);
    for (size_t k = 0; k < ex.size(); ++k) {
      if (!ex[k].t()->isBoolean() || (filter >= 0 && (int)k != filter)) continue;
      Rows wf;
      for (auto& r : ok) {
        auto v = ex[k].f(r).v;
        if (!v.null() && v.i) wf.push_back({r[0]});
      }
      auto ft = "filter " + ex[k].text;
      c.op("%s", ft.c_str());
      Rows gf;
      try {
        gf = g->run(s.filter(ex[k].e).proj({0}));
      } catch (const std::exception& e) {
        c.fail("refused:" + ft, ft + ": query failed: " + e.what());
      }
      compare(c, ft, gf, wf);
    }
  }
  size_t n = 0;
  for (auto& p : bad) {
    if (!c.thorough() && bad.size() > 8 && n++ % 4) continue;
    auto& r = p.second;
    Tab t(cols, {r});
    auto s = b.scan(t.name);
    auto ex = *mks[p.first](s);
    auto text = ex.text + " : " + ex.t()->toString();
    c.op("%s on %s must fail", text.c_str(), str(r).c_str());
    c.state(text + str(r));
    bool threw = false;
    std::string why;
    Rows got;
    try {
      got = g->run(s.proj({ex.e}));
    } catch (const std::exception& e) {
      threw = true;
      why = e.what();
    }
    auto rr = ex.f(r);
    if (!threw && may_widen && rr.has_exact && got.size() == 1 && got[0][0].k == Val::Int && got[0][0].i == rr.exact) continue;
    if (!threw) c.fail("no-error:" + text, mc::strf("%s on row %s gives %s but must be reported as an error", text.c_str(), str(r).c_str(), str(got).c_str()));
    if (why.find("verflow") == std::string::npos && why.find("ivision by zero") == std::string::npos) {
      c.fail("error-kind:" + text, mc::strf("%s on row %s fails with: %s", text.c_str(), str(r).c_str(), why.c_str()));
    }
  }
}
static void evalAll(mc::Ctx& c, QueryBuilder& b, const std::string& tname, const std::vector<Col>& cols, const Rows& rows, const Make& mk, bool may_widen = false) {
  evalMany(c, b, tname, cols, rows, {mk}, may_widen);
}

static const Type* nn(const Type* t, bool nullable) { return nullable ? t : t->withNullable(false); }

// table (id, a, b) with all pairs of values
static Rows pairs(const std::vector<Val>& a, const std::vector<Val>& b, bool na, bool nb) {
  Rows rows;
  for (auto& x : a) {
    if (x.null() && !na) continue;
    for (auto& y : b) {
      if (y.null() && !nb) continue;
      rows.push_back({Val((int)rows.size()), x, y});
    }
  }
  return rows;
}

static void s_binary(mc::Ctx& c) {
  auto& D = doms();
  size_t x = c.choose(D.size(), "left type"), y = c.choose(D.size(), "right type");
  int nul = c.thorough() ? c.choose(4, "nullability") : (x + 3 * y) % 4;
  bool na = !(nul & 1), nb = !(nul & 2);
  static const std::vector<std::vector<Op>> groups{{Add}, {Sub}, {Mul}, {Div}, {Mod}, {BwAnd, BwOr, BwXor}, {Eq, Ne, Lt, Le, Gt, Ge}};
  auto& grp = groups[c.choose(groups.size(), "operators")];
  auto b = g->builder();
  std::vector<Col> cols{{"id", C().int32()}, {"a", nn(D[x].t, na)}, {"b", nn(D[y].t, nb)}};
  auto rows = pairs(D[x].v, D[y].v, na, nb);
  Tab t(cols, rows);
  std::vector<Make> mks;
  for (auto op : grp) {
    mks.push_back([&, op](const BuilderNode& s) -> std::optional<Ex> {
      auto r = bin(op, col(s, "a", 1), col(s, "b", 2));
      if (!r && op != Mod && (op < BwAnd || op >= Eq)) c.fail(mc::strf("unsupported:%s %s %s", D[x].name.c_str(), kOpName[op], D[y].name.c_str()), "the builder refuses a numeric operation");
      return r;
    });
  }
  evalMany(c, b, t.name, cols, rows, mks, false, c.thorough() ? -1 : (x * 3 + y + nul) % grp.size());
}

// constants only: folding must agree with evaluation
static void s_const(mc::Ctx& c) {
  auto& D = doms();
  static const int cts[] = {0, 2, 3, 5, 6};
  size_t x = c.thorough() ? c.choose(D.size(), "type") : cts[c.choose(5, "type")];
  Op op = (Op)c.choose(BwAnd, "operator");
  size_t k = c.choose(D[x].v.size(), "left literal");
  auto b = g->builder();
  std::vector<Col> cols{{"id", C().int32()}};
  Rows rows{{Val(0)}};
  Tab t(cols, rows);
  for (auto& w : D[x].v) {
    evalAll(c, b, t.name, cols, rows, [&](const BuilderNode& s) -> std::optional<Ex> {
      auto mk = [&](const Val& v) { return v.null() ? litNull(b, D[x].t) : v.k == Val::Fp ? litF(b, v.d, nn(D[x].t, false)) : lit(b, v.i, nn(D[x].t, false)); };
      auto r = bin(op, mk(D[x].v[k]), mk(w));
      return r;
    }, true);
  }
}

// column with literal on either side
static void s_literal(mc::Ctx& c) {
  auto& D = doms();
  size_t x = c.choose(D.size(), "type");
  bool na = c.flip("nullable");
  static const std::vector<std::vector<Op>> groups{{Add}, {Sub}, {Mul}, {Div}, {Mod}, {BwAnd, BwOr, BwXor}, {Eq, Ne, Lt, Le, Gt, Ge}};
  auto& grp = groups[c.choose(groups.size(), "operators")];
  int side = c.choose(2, "side");
  size_t k = c.thorough() ? c.choose(D[x].v.size(), "literal") : 2 * c.choose((D[x].v.size() + 1) / 2, "literal");
  auto b = g->builder();
  std::vector<Col> cols{{"id", C().int32()}, {"a", nn(D[x].t, na)}};
  Rows rows;
  for (auto& v : D[x].v) {
    if (!v.null() || na) rows.push_back({Val((int)rows.size()), v});
  }
  Tab t(cols, rows);
  std::vector<Make> mks;
  for (auto op : grp) {
    mks.push_back([&, op](const BuilderNode& s) -> std::optional<Ex> {
      auto& v = D[x].v[k];
      Ex l = v.null() ? litNull(b, D[x].t) : v.k == Val::Fp ? litF(b, v.d, nn(D[x].t, false)) : lit(b, v.i, nn(D[x].t, false));
      auto a = col(s, "a", 1);
      return side ? bin(op, l, a) : bin(op, a, l);
    });
  }
  evalMany(c, b, t.name, cols, rows, mks, false, c.thorough() ? -1 : k % grp.size());
}

static void s_cast(mc::Ctx& c) {
  auto& D = doms();
  auto& x = C();
  std::vector<Dom> from = D;
  from.push_back({"bool", x.boolean(), iv({0, 1})});
  using U = hdk::ir::TimeUnit;
  std::vector<const Type*> to{x.int8(), x.int16(), x.int32(), x.int64(), x.fp32(), x.fp64(), x.boolean(), x.decimal64(12, 2), x.decimal64(18, 4), x.decimal64(15, 0)};
  for (auto u : {U::kSecond, U::kMilli, U::kMicro, U::kNano}) {
    int64_t k = hdk::ir::unitsPerSecond(u);
    from.push_back({"ts" + std::to_string(k), x.timestamp(u),
                    iv({-86400 * k * 2, -86400 * k - 1, -86400 * k, -86399 * k, -k - 1, -k, -1, 0, 1, k - 1, k, 86399 * k, 86400 * k - 1, 86400 * k, 1582934400 * k + 7,
                        1000000000000000000 / 1000000000 * k})});
    to.push_back(x.timestamp(u));
    to.push_back(x.time64(u));
  }
  from.push_back({"date", x.date64(U::kSecond), iv({-86400 * 3, -86400, 0, 86400, 1582934400 / 86400 * 86400})});
  to.push_back(x.date64(U::kSecond));
  size_t f = c.choose(from.size(), "from"), k = c.choose(to.size(), "to");
  bool na = c.flip("nullable");
  auto b = g->builder();
  std::vector<Col> cols{{"id", x.int32()}, {"a", nn(from[f].t, na)}};
  Rows rows;
  for (auto& v : from[f].v) {
    if (!v.null() || na) rows.push_back({Val((int)rows.size()), v});
  }
  Tab t(cols, rows);
  evalAll(c, b, t.name, cols, rows, [&](const BuilderNode& s) { return castEx(col(s, "a", 1), nn(to[k], na)); });
}

// boolean trees over atoms with nulls
static std::vector<Ex> atoms(QueryBuilder& b, const BuilderNode& s) {
  Ex p = col(s, "p", 1), q = col(s, "q", 2), a = col(s, "a", 3), d = col(s, "d", 4);
  std::vector<Ex> r{p, q};
  r.push_back(*bin(Lt, a, lit(b, 1, C().int32(false))));
  r.push_back(*bin(Eq, a, lit(b, 1, C().int32(false))));
  r.push_back(isNullEx(a));
  r.push_back(*bin(Ge, a, d));
  r.push_back(*bin(Gt, *bin(Div, lit(b, 6, C().int32(false)), d), a));  // fails when d = 0
  return r;
}
static Rows boolRows() {
  Rows rows;
  std::vector<Val> tri{Val(), Val(0), Val(1)};
  for (auto& p : tri)
    for (auto& q : tri)
      for (auto& a : {Val(), Val(0), Val(1), Val(2)})
        for (auto& d : {Val(), Val(0), Val(1)}) rows.push_back({Val((int)rows.size()), p, q, a, d});
  return rows;
}
static void s_logic(mc::Ctx& c) {
  static const Rows rows = boolRows();
  auto b = g->builder();
  std::vector<Col> cols{{"id", C().int32()}, {"p", C().boolean()}, {"q", C().boolean()}, {"a", C().int32()}, {"d", C().int32()}};
  Tab t(cols, rows);
  size_t n;
  {
    auto s = b.scan(t.name);
    n = atoms(b, s).size();
  }
  static const int few[] = {0, 2, 6};
  bool deep = c.thorough() || c.flip("two connectives");
  auto pick = [&](const char* l) { return c.thorough() || !deep ? c.choose(n, l) : (size_t)few[c.choose(3, l)]; };
  size_t x = pick("x"), y = pick("y"), z = deep ? pick("z") : 0;
  int shape = c.choose(c.thorough() ? 8 : deep ? 4 : 2, "shape");
  // shapes: operators of the inner and outer node; negations
  int neg = c.choose(c.thorough() ? 4 : 2, "negation");
  evalAll(c, b, t.name, cols, rows, [&](const BuilderNode& s) -> std::optional<Ex> {
    auto at = atoms(b, s);
    Op in = shape & 1 ? Or : And, out = shape & 2 ? Or : And;
    Ex inner = *bin(in, at[x], at[y]);
    if (neg & 1) inner = notEx(inner);
    if (!deep) return inner;
    Ex outer = shape & 4 ? *bin(out, at[z], inner) : *bin(out, inner, at[z]);
    if (neg & 2) outer = notEx(outer);
    return outer;
  });
}

static void s_case(mc::Ctx& c) {
  static const Rows rows = boolRows();
  auto b = g->builder();
  std::vector<Col> cols{{"id", C().int32()}, {"p", C().boolean()}, {"q", C().boolean()}, {"a", C().int32()}, {"d", C().int32()}};
  Tab t(cols, rows);
  size_t n;
  {
    auto s = b.scan(t.name);
    n = atoms(b, s).size();
  }
  size_t x = c.choose(n, "x"), y = c.choose(n, "y");
  int vals = c.choose(6, "values");
  evalAll(c, b, t.name, cols, rows, [&](const BuilderNode& s) -> std::optional<Ex> {
    auto at = atoms(b, s);
    Ex a = col(s, "a", 3), d = col(s, "d", 4);
    Ex two = lit(b, 2, C().int32(false)), nul = litNull(b, C().int32());
    switch (vals) {
      case 0: return caseEx(b, at[x], a, d);
      case 1: return caseEx(b, at[x], two, nul);
      case 2: return caseEx(b, at[x], nul, caseEx(b, at[y], a, two));
      case 3: return *bin(Add, caseEx(b, at[x], a, two), caseEx(b, at[y], d, two));
      case 4: return caseEx(b, notEx(at[x]), *bin(Mul, a, d), *uminusEx(d));
      default: return isNullEx(caseEx(b, *bin(Or, at[x], at[y]), a, nul));
    }
  });
}

// arithmetic of depth two: intermediate overflow and nulls
static void s_nested(mc::Ctx& c) {
  auto& D = doms();
  static const int ts[] = {0, 2, 3, 5, 6};
  size_t x = ts[c.choose(c.thorough() ? 5 : 3, "type")];
  Op o1 = (Op)c.choose(Mod + 1, "inner"), o2 = (Op)c.choose(Mod + 1, "outer");
  int shape = c.choose(c.thorough() ? 4 : 2, "shape");
  auto b = g->builder();
  std::vector<Col> cols{{"id", C().int32()}, {"a", D[x].t}, {"b", D[x].t}};
  auto rows = pairs(D[x].v, D[x].v, true, true);
  Tab t(cols, rows);
  evalAll(c, b, t.name, cols, rows, [&](const BuilderNode& s) -> std::optional<Ex> {
    auto a = col(s, "a", 1), bb = col(s, "b", 2);
    auto l = D[x].v[3].k == Val::Fp ? litF(b, 3, nn(D[x].t, false)) : lit(b, 3, nn(D[x].t, false));
    auto in = bin(o1, a, shape & 1 ? l : bb);
    if (!in) return {};
    return shape & 2 ? bin(o2, a, *in) : bin(o2, *in, bb);
  });
}

static void s_unary(mc::Ctx& c) {
  auto& D = doms();
  size_t x = c.choose(D.size(), "type");
  bool na = c.flip("nullable");
  int k = c.choose(4, "operator");
  auto b = g->builder();
  std::vector<Col> cols{{"id", C().int32()}, {"a", nn(D[x].t, na)}};
  Rows rows;
  for (auto& v : D[x].v) {
    if (!v.null() || na) rows.push_back({Val((int)rows.size()), v});
  }
  Tab t(cols, rows);
  evalAll(c, b, t.name, cols, rows, [&](const BuilderNode& s) -> std::optional<Ex> {
    auto a = col(s, "a", 1);
    switch (k) {
      case 0: return uminusEx(a);
      case 1: return isNullEx(a);
      case 2: return notEx(isNullEx(a));
      case 3: {
        if (!a.t()->isInteger()) return {};
        Ex r;
        r.e = a.e.bwNot();
        auto fa = a.f;
        auto ty = a.t();
        r.f = [=](const Row& row) {
          auto v = fa(row);
          if (v.v.null()) return v;
          auto q = asInt(~(i128)v.v.i, ty);
          return q.err ? Any() : q;
        };
        r.text = "~a";
        return r;
      }
      default: return {};
    }
  });
}

// strings: comparisons between columns of one or two dictionaries and with literals
static void s_text(mc::Ctx& c) {
  static const std::vector<std::string> words{"a", "ab", "b", "B", "\xc3\xa9"};
  int size = (int[]){4, 1, 2}[c.choose(3, "id width")];
  bool same = c.flip("same dictionary");
  int form = c.choose(8, "form");  // 0: columns, 1: isnull, 2..7 literals
  auto b = g->builder();
  static std::map<int, const Type*> dicts;  // dictionaries are large: keep a few
  auto dict = [&](int k) {
    auto& d = dicts[size * 2 + k];
    if (!d) d = g->dictType(size);
    return d;
  };
  auto t1 = dict(0), t2 = same ? t1 : dict(1);
  std::vector<Col> cols{{"id", C().int32()}, {"a", t1}, {"b", t2}};
  std::vector<Val> va{Val()}, vb{Val()};
  for (auto& w : words) va.push_back(w);
  for (auto it = words.rbegin(); it != words.rend(); ++it) vb.push_back(*it);
  vb.push_back("zz");
  auto rows = pairs(va, vb, true, true);
  Tab t(cols, rows);
  std::vector<Make> mks;
  for (auto op : {Eq, Ne, Lt, Le, Gt, Ge}) {
    mks.push_back([&, op](const BuilderNode& s) -> std::optional<Ex> {
      auto a = col(s, "a", 1), bb = col(s, "b", 2);
      if (form == 0) return bin(op, a, bb);
      if (form == 1) return op == Eq ? std::optional<Ex>(isNullEx(a)) : std::nullopt;
      std::string w = form - 2 < (int)words.size() ? words[form - 2] : "missing";
      Ex l;
      l.e = b.cst(w);
      l.f = [w](const Row&) { return Res{Val(w)}; };
      l.text = "'" + w + "'";
      return bin(op, a, l);
    });
  }
  evalMany(c, b, t.name, cols, rows, mks);
}

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.worker_init = [] { g = std::make_unique<Db>(); };
  o.rule = "every operator, cast and connective over every pair of column types (nullable and not), evaluated by the query engine on all combinations of a boundary domain; "
           "boolean trees of two connectives over seven atoms on all three-valued inputs";
  o.assumptions = {"Arrow is replaced by an empty stub: tables come from an in-memory data provider", "results that have no defined value (division of decimals, floating-point overflow, bit patterns of null) are not compared"};
  std::vector<mc::Scenario> sc{
      {"expr_binary", s_binary, 4, 120}, {"expr_literal", s_literal, 5, 120}, {"expr_const", s_const, 3, 120}, {"expr_cast", s_cast, 3, 120}, {"expr_unary", s_unary, 3, 120},
      {"expr_nested", s_nested, 4, 120}, {"expr_text", s_text, 4, 120},        {"logic_tree", s_logic, 5, 120}, {"logic_case", s_case, 3, 120}};
  return mc::run(argc, argv, sc, o);
}
