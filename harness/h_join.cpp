// Joins by the real engine against nested loops.
#include "q_common.h"

using namespace q;

namespace {
const char* kConfig[] = {"default", "columnar", "no hash table cache", "no reordering", "no lazy fetch", "no inner materialization", "no left hoisting"};
void configure(int k) {
  auto& cf = *g->config;
  cf.rs.enable_columnar_output = k == 1;
  cf.cache.use_hashtable_cache = k != 2;
  cf.opts.from_table_reordering = k != 3;
  cf.rs.enable_lazy_fetch = k != 4;
  cf.exec.materialize_inner_join_tables = k != 5;
  cf.opts.enable_left_join_filter_hoisting = k != 6;
}
enum : int { kUnknown = -1 };
using Cond = std::function<int(const Row&, const Row&)>;  // 1, 0 or unknown
int eq(const Val& a, const Val& b) {
  if (a.null() || b.null()) return kUnknown;
  if (a.k == b.k) return a == b;
  double x = a.k == Val::Fp ? a.d : a.i, y = b.k == Val::Fp ? b.d : b.i;
  return x == y;
}
int lt(const Val& a, const Val& b) {
  if (a.null() || b.null()) return kUnknown;
  return a < b;
}
int andd(int a, int b) {
  if (a == 0 || b == 0) return 0;
  return a == 1 && b == 1 ? 1 : kUnknown;
}
int orr(int a, int b) {
  if (a == 1 || b == 1) return 1;
  return a == 0 && b == 0 ? 0 : kUnknown;
}
Rows joined(const Rows& l, const Rows& r, bool left, const Cond& cond, size_t rw) {
  Rows out;
  for (auto& a : l) {
    bool hit = false;
    for (auto& b : r)
      if (cond(a, b) == 1) {
        Row x = a;
        x.insert(x.end(), b.begin(), b.end());
        out.push_back(x);
        hit = true;
      }
    if (!hit && left) {
      Row x = a;
      x.resize(a.size() + rw);
      out.push_back(x);
    }
  }
  return out;
}
struct Form {
  const char* name;
  std::function<BuilderExpr(const BuilderNode&, const BuilderNode&)> make;
  Cond ref;
};
BuilderExpr safeEq(const BuilderNode& a, const BuilderNode& b, const char* n) {
  return a.ref(n).eq(b.ref(n)).logicalOr(a.ref(n).isNull().logicalAnd(b.ref(n).isNull()));
}
// columns of both sides: k, id, m
std::vector<Form> forms() {
  return {
      {"k=k", [](const BuilderNode& a, const BuilderNode& b) { return a.ref("k").eq(b.ref("k")); }, [](const Row& a, const Row& b) { return eq(a[0], b[0]); }},
      {"k=k reversed", [](const BuilderNode& a, const BuilderNode& b) { return b.ref("k").eq(a.ref("k")); }, [](const Row& a, const Row& b) { return eq(a[0], b[0]); }},
      {"k=k and m=m", [](const BuilderNode& a, const BuilderNode& b) { return a.ref("k").eq(b.ref("k")).logicalAnd(a.ref("m").eq(b.ref("m"))); },
       [](const Row& a, const Row& b) { return andd(eq(a[0], b[0]), eq(a[2], b[2])); }},
      {"k=k and id<id", [](const BuilderNode& a, const BuilderNode& b) { return a.ref("k").eq(b.ref("k")).logicalAnd(a.ref("id").lt(b.ref("id"))); },
       [](const Row& a, const Row& b) { return andd(eq(a[0], b[0]), lt(a[1], b[1])); }},
      {"k=k and right m is not null", [](const BuilderNode& a, const BuilderNode& b) { return a.ref("k").eq(b.ref("k")).logicalAnd(b.ref("m").isNull().logicalNot()); },
       [](const Row& a, const Row& b) { return andd(eq(a[0], b[0]), !b[2].null()); }},
      {"k=k and left m>0", [](const BuilderNode& a, const BuilderNode& b) { return a.ref("k").eq(b.ref("k")).logicalAnd(a.ref("m").gt(0)); },
       [](const Row& a, const Row& b) { return andd(eq(a[0], b[0]), lt(Val(0), a[2])); }},
      {"id<id", [](const BuilderNode& a, const BuilderNode& b) { return a.ref("id").lt(b.ref("id")); }, [](const Row& a, const Row& b) { return lt(a[1], b[1]); }},
      {"k=k or m=m", [](const BuilderNode& a, const BuilderNode& b) { return a.ref("k").eq(b.ref("k")).logicalOr(a.ref("m").eq(b.ref("m"))); },
       [](const Row& a, const Row& b) { return orr(eq(a[0], b[0]), eq(a[2], b[2])); }},
      {"k=k or both null", [](const BuilderNode& a, const BuilderNode& b) { return safeEq(a, b, "k"); },
       [](const Row& a, const Row& b) { return orr(eq(a[0], b[0]), a[0].null() && b[0].null()); }},
      {"k=k and (m=m or both null)", [](const BuilderNode& a, const BuilderNode& b) { return a.ref("k").eq(b.ref("k")).logicalAnd(safeEq(a, b, "m")); },
       [](const Row& a, const Row& b) { return andd(eq(a[0], b[0]), orr(eq(a[2], b[2]), a[2].null() && b[2].null())); }},
      {"(m=m or both null) and k=k", [](const BuilderNode& a, const BuilderNode& b) { return safeEq(a, b, "m").logicalAnd(a.ref("k").eq(b.ref("k"))); },
       [](const Row& a, const Row& b) { return andd(eq(a[0], b[0]), orr(eq(a[2], b[2]), a[2].null() && b[2].null())); }},
      {"both null or k=k, and (m=m or both null)", [](const BuilderNode& a, const BuilderNode& b) { return safeEq(a, b, "k").logicalAnd(safeEq(a, b, "m")); },
       [](const Row& a, const Row& b) { return andd(orr(eq(a[0], b[0]), a[0].null() && b[0].null()), orr(eq(a[2], b[2]), a[2].null() && b[2].null())); }},
  };
}

// Runs l join r under a condition and looks at the rows in one of several ways.
void check(mc::Ctx& c, std::string what, const std::string& lt_, const std::string& rt, const Rows& l, const Rows& r, bool left, const Form& f, int use) {
  auto b = g->builder();
  auto ls = b.scan(lt_), rs = b.scan(rt);
  auto ln = ls.proj(std::vector<BuilderExpr>{ls.ref("k").rename("k"), ls.ref("id").rename("id"), ls.ref("m").rename("m")});
  auto j = use == 4 ? ln.join(rs, f.make(ln, rs), left ? "left" : "inner") : ls.join(rs, f.make(ls, rs), left ? "left" : "inner");
  auto all = joined(l, r, left, f.ref, 3);
  what += std::string(left ? " left join " : " inner join ") + f.name;
  auto i = [](int64_t x) { return Val(x); };
  auto n = [&](int x) { return j.ref(x); };
  switch (use) {
    case 0:
    case 4: {
      auto got = guarded(c, what, [&] { return g->run(j); });
      sameRows(c, what, got, all);
      break;
    }
    case 1: {
      what += ", aggregated";
      auto got = guarded(c, what, [&] { return g->run(j.agg(std::vector<BuilderExpr>{}, {j.count().rename("a"), n(4).count().rename("b"), n(4).sum().rename("s"), n(1).sum().rename("t"), n(4).min().rename("u")})); });
      int64_t cnt = 0, s = 0, t = 0, mn = INT64_MAX;
      for (auto& x : all) {
        t += x[1].i;
        if (x[4].null()) continue;
        cnt++;
        s += x[4].i;
        mn = std::min(mn, x[4].i);
      }
      sameRows(c, what, got, {{i(all.size()), i(cnt), cnt ? i(s) : Val(), all.empty() ? Val() : i(t), cnt ? i(mn) : Val()}});
      break;
    }
    case 2: {
      what += ", grouped by the right id";
      auto got = guarded(c, what, [&] { return g->run(j.agg(std::vector<BuilderExpr>{n(4)}, {j.count().rename("a"), n(1).sum().rename("s")})); });
      std::map<Val, Row> gr;
      for (auto& x : all) {
        auto& w = gr[x[4]];
        if (w.empty()) w = {x[4], Val(0), Val(0)};
        w[1].i++;
        w[2].i += x[1].i;
      }
      Rows want;
      for (auto& w : gr) want.push_back(w.second);
      sameRows(c, what, got, want);
      break;
    }
    case 3: {
      what += ", filtered on the right m";
      auto p = j.filter(n(5).isNull().logicalOr(n(5).lt(2)));
      auto got = guarded(c, what, [&] { return g->run(p.proj(std::vector<BuilderExpr>{p.ref(1).rename("a"), p.ref(4).rename("b"), p.ref(3).rename("c")})); });
      Rows want;
      for (auto& x : all)
        if (x[5].null() || x[5].i < 2) want.push_back({x[1], x[4], x[3]});
      sameRows(c, what, got, want);
      break;
    }
  }
}

std::vector<Col> cols(const Type* k, const Type* m) { return {{"k", k}, {"id", C().int32()}, {"m", m}}; }

// every key type, also of different widths and dictionaries
void s_types(mc::Ctx& c) {
  static const auto D = doms();
  static const auto F = forms();
  struct P {
    size_t l, r;
  };
  static const std::vector<P> pairs = [] {
    std::vector<P> p;
    for (size_t i = 0; i < D.size(); ++i)
      for (size_t j = 0; j < D.size(); ++j) {
        bool ok = i == j || (D[i].t->isInteger() && D[j].t->isInteger()) || (D[i].t->isExtDictionary() && D[j].t->isExtDictionary());
        if (ok) p.push_back({i, j});
      }
    return p;
  }();
  auto p = pairs[c.choose(pairs.size(), "types")];
  size_t f = c.choose(F.size(), "condition");
  bool left = c.flip("left join");
  size_t h = p.l * 5 + p.r * 3 + f;
  int nul = c.thorough() ? c.choose(4, "nullability") : h % 4;
  int use = c.thorough() ? c.choose(5, "use") : (h + left) % 5;
  int cf = c.thorough() ? c.choose(7, "config") : (h / 2 + left) % 7;
  bool other_dict = D[p.l].t->isExtDictionary() && h % 2;
  auto side = [&](size_t x, size_t y, bool n, int64_t base) {
    // the values of the type, those of the other side that fit, and null
    std::vector<Val> v = D[x].v;
    if (D[x].t->isInteger() && x != y)
      for (auto& w : D[y].v)
        if (D[x].t->size() == 8 || std::llabs(w.i) < (1ll << (8 * D[x].t->size() - 1))) v.push_back(w);
    if (n) v.push_back(Val());
    Rows rows;
    for (size_t i = 0; i < v.size(); ++i) rows.push_back({v[i], Val((int64_t)(base + i * 3)), i % 3 ? Val((int64_t)(i % 3)) : Val()});
    rows.push_back({v[1], Val(base + 40), Val(1)});
    rows.push_back({v[1], Val(base + 41), Val(2)});
    return rows;
  };
  auto l = side(p.l, p.r, !(nul & 1), 0), r = side(p.r, p.l, !(nul & 2), 1);
  r.erase(r.begin());  // one value without partner
  configure(cf);
  const Type* rt = other_dict ? dict(7, D[p.r].t->size()) : D[p.r].t;
  Tab a(cols(nn(D[p.l].t, !(nul & 1)), C().int64()), l, {2, l.size() - 2}), b(cols(nn(rt, !(nul & 2)), C().int64()), r, {1, r.size() - 1});
  std::string what = D[p.l].name + (nul & 1 ? " not null" : "") + " with " + D[p.r].name + (nul & 2 ? " not null" : "") + (other_dict ? " of another dictionary" : "") + ", " + kConfig[cf];
  c.op("%s %s %s use %d: %s and %s", what.c_str(), left ? "left" : "inner", F[f].name, use, str(l).c_str(), str(r).c_str());
  c.state(mc::strf("%zu %zu %zu %d %d %d %d", p.l, p.r, f, left, nul, use, cf));
  check(c, what, a.name, b.name, l, r, left, F[f], use);
}

// every small right table
void s_rights(mc::Ctx& c) {
  static const auto F = forms();
  static const std::vector<std::vector<Val>> V{{Val(), Val(1), Val(2), Val(4)}, {Val(), Val(-3000000000ll), Val(5), Val(3000000000ll)}, {Val(), Val("a"), Val("b"), Val("c")}};
  size_t t = c.choose(3, "keys");
  Rows r;
  int64_t id = 1;
  size_t h = t;
  for (auto& v : V[t]) {
    int k = c.choose(3, "multiplicity");
    h = h * 3 + k;
    for (int i = 0; i < k; ++i) r.push_back({v, Val(id += 2), i ? Val() : Val((int64_t)(id % 4))});
  }
  if (r.size() > 2) std::swap(r[0], r[2]);
  Rows l;
  for (auto& v : {V[t][0], V[t][1], V[t][2], V[t][1]}) l.push_back({v, Val((int64_t)l.size() * 2), Val((int64_t)l.size())});
  l[1][2] = Val();
  const Type* kt = t == 0 ? C().int32() : t == 1 ? C().int64() : dict(0);
  std::vector<size_t> fr{r.size()};
  if (r.size() >= 3 && h % 2) fr = {r.size() - 2, 2};
  Tab a(cols(kt, C().int64()), l, h % 3 ? std::vector<size_t>{4} : std::vector<size_t>{1, 3}), b(cols(kt, C().int64()), r, fr);
  for (size_t f = 0; f < F.size(); ++f)
    for (int left = 0; left < 2; ++left)
      for (int use = 0; use < 5; ++use) {
        if (!c.thorough() && (h + f * 5 + left * 3 + use * 2) % 11) continue;
        int cf = (h + f + use) % 7;
        configure(cf);
        std::string what = std::string(kConfig[cf]);
        c.op("%s: %s %s use %d of %s and %s", what.c_str(), left ? "left" : "inner", F[f].name, use, str(l).c_str(), str(r).c_str());
        c.state(mc::strf("%zu %zu %d %d", h, f, left, use));
        check(c, what + " over " + str(l) + " and " + str(r), a.name, b.name, l, r, left, F[f], use);
      }
}

// three tables, every mix of join kinds, chained or fanned out
void s_three(mc::Ctx& c) {
  static const auto F = forms();
  bool l1 = c.flip("first left"), l2 = c.flip("second left"), star = c.flip("star");
  size_t f1 = c.choose(F.size() - 5, "first condition"), shape = c.choose(4, "data"), f2 = c.choose(3, "second condition");
  int cf = (f1 + shape + f2 + star) % 7;
  configure(cf);
  static const size_t second[] = {0, 2, 3};
  auto& F1 = F[f1];
  auto& F2 = F[second[f2]];
  Rows t1{{Val(1), Val(0), Val(1)}, {Val(2), Val(1), Val()}, {Val(), Val(2), Val(2)}, {Val(3), Val(3), Val(0)}};
  Rows t2{{Val(1), Val(2), Val(1)}, {Val(1), Val(5), Val(2)}, {Val(3), Val(4), Val()}, {Val(), Val(9), Val(0)}};
  Rows t3{{Val(1), Val(6), Val(1)}, {Val(3), Val(7), Val(0)}, {Val(2), Val(8), Val()}};
  if (shape == 1) t2.clear();
  if (shape == 2) t3.clear();
  if (shape == 3) t2 = {{Val(2), Val(3), Val(7)}}, t3.push_back({Val(2), Val(1), Val(7)});
  auto cs = cols(C().int32(), C().int64());
  Tab a(cs, t1, {2, 2}), b(cs, t2), d(cs, t3);
  auto bl = g->builder();
  auto s1 = bl.scan(a.name), s2 = bl.scan(b.name), s3 = bl.scan(d.name);
  auto j1 = s1.join(s2, F1.make(s1, s2), l1 ? "left" : "inner");
  auto all1 = joined(t1, t2, l1, F1.ref, 3);
  // the second join is on the columns of the first or of the second table
  int off = star ? 0 : 3;
  auto p = j1.proj(std::vector<BuilderExpr>{j1.ref(0 + off).rename("k"), j1.ref(1 + off).rename("id"), j1.ref(2 + off).rename("m"), j1.ref(4 - off).rename("o")});
  Rows q1;
  for (auto& x : all1) q1.push_back({x[0 + off], x[1 + off], x[2 + off], x[4 - off]});
  auto j2 = p.join(s3, F2.make(p, s3), l2 ? "left" : "inner");
  auto all2 = joined(q1, t3, l2, F2.ref, 3);
  std::string what = mc::strf("%s %s then %s %s, %s, data %zu, %s", l1 ? "left" : "inner", F1.name, l2 ? "left" : "inner", F2.name, star ? "star" : "chain", shape, kConfig[cf]);
  c.op("%s", what.c_str());
  c.state(what);
  auto got = guarded(c, what, [&] { return g->run(j2); });
  sameRows(c, what, got, all2);
}
}  // namespace

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.worker_init = [] {
    g = std::make_unique<Db>();
    g->config->exec.join.allow_loop_joins = true;
  };
  o.rule = "inner and left joins under eight forms of conditions: every pair of joinable key types with nulls and extremes, every right table with up to two copies of null and three keys (also empty), and all chains and stars of three tables; five ways to use the result and seven configurations";
  o.assumptions = {"Arrow is replaced by an empty stub: tables come from an in-memory data provider"};
  return mc::run(argc, argv, {{"join_types", s_types, 2, 120}, {"join_rights", s_rights, 3, 120}, {"join_three", s_three, 3, 120}}, o);
}
