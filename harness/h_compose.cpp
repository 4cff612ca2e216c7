// Queries made of several operations by the real engine against an interpreter of relational algebra.
#include "q_common.h"

using namespace q;
using hdk::ir::NullSortedPosition;
using hdk::ir::SortDirection;

namespace {
const char* kConfig[] = {"default", "columnar", "no lazy fetch", "one result set", "no reordering", "no inner materialization"};
void configure(int k) {
  auto& cf = *g->config;
  cf.rs.enable_columnar_output = k == 1;
  cf.rs.enable_lazy_fetch = k != 2;
  cf.exec.enable_multifrag_rs = k != 3;
  cf.opts.from_table_reordering = k != 4;
  cf.exec.materialize_inner_join_tables = k != 5;
}

// A relation: the plan that computes it and its rows. Columns 0 and 1 are always integers.
struct Rel {
  BuilderNode n;
  std::string kinds;  // i(nteger), s(tring), f(loating point)
  Rows rows;
  bool ordered = false;
};
using Exprs = std::vector<BuilderExpr>;

struct Plan {
  QueryBuilder b = g->builder();
  std::string t, u;
  const Rows &tr, &ur;
  Rel base() { return {b.scan(t), "iis", tr}; }
  Rel other() { return {b.scan(u), "ii", ur}; }
};
std::string nm(size_t i) { return "c" + std::to_string(i); }

Rel filter(const Rel& r, const std::function<BuilderExpr(const BuilderNode&)>& e, const std::function<bool(const Row&)>& keep) {
  Rel o{r.n.filter(e(r.n)), r.kinds, {}};
  for (auto& x : r.rows)
    if (keep(x)) o.rows.push_back(x);
  return o;
}
struct PE {
  BuilderExpr e;
  char kind;
  std::function<Val(const Row&)> f;
};
Rel proj(const Rel& r, const std::vector<PE>& es) {
  Exprs v;
  std::string kinds;
  for (auto& e : es) v.push_back(e.e.rename(nm(v.size()))), kinds += e.kind;
  Rel o{r.n.proj(v), kinds, {}};
  for (auto& x : r.rows) {
    Row y;
    for (auto& e : es) y.push_back(e.f(x));
    o.rows.push_back(y);
  }
  return o;
}
PE col(const Rel& r, size_t i) {
  return {r.n.ref((int)i), r.kinds[i], [i](const Row& x) { return x[i]; }};
}
// count(*), count(v), sum(v), min(v), max(v), count(distinct v)
Val agg(const std::string& f, const Rows& rows, int c) {
  std::vector<Val> v;
  for (auto& r : rows)
    if (c < 0 || !r[c].null()) v.push_back(c < 0 ? Val(1) : r[c]);
  if (f == "count") return Val((int64_t)v.size());
  if (f == "distinct") return Val((int64_t)std::set<Val>(v.begin(), v.end()).size());
  if (f == "stddev") {
    if (v.size() < 2) return Val();
    double m = 0, s = 0;
    for (auto& x : v) m += x.i;
    m /= v.size();
    for (auto& x : v) s += (x.i - m) * (x.i - m);
    return Val(std::sqrt(s / (v.size() - 1)));
  }
  if (v.empty()) return Val();
  if (f == "min") return *std::min_element(v.begin(), v.end());
  if (f == "max") return *std::max_element(v.begin(), v.end());
  int64_t s = 0;
  for (auto& x : v) s += x.i;
  if (f == "avg") return Val((double)s / v.size());
  return Val(s);
}
BuilderExpr aggExpr(const Rel& r, const std::string& f, int c) {
  if (c < 0) return r.n.count();
  auto e = r.n.ref(c);
  if (f == "count") return e.count();
  if (f == "distinct") return e.count(true);
  if (f == "min") return e.min();
  if (f == "max") return e.max();
  if (f == "avg") return e.avg();
  if (f == "stddev") return e.stdDev();
  return e.sum();
}
Rel group(const Rel& r, const std::vector<int>& keys, const std::vector<std::pair<std::string, int>>& aggs) {
  Exprs k, a;
  std::string kinds;
  for (int x : keys) k.push_back(r.n.ref(x).rename(nm(k.size()))), kinds += r.kinds[x];
  for (auto& x : aggs) a.push_back(aggExpr(r, x.first, x.second).rename(nm(k.size() + a.size()))), kinds += x.first == "avg" || x.first == "stddev" ? 'f' : 'i';
  Rel o{r.n.agg(k, a), kinds, {}};
  std::map<Row, Rows> gr;
  for (auto& x : r.rows) {
    Row key;
    for (int y : keys) key.push_back(x[y]);
    gr[key].push_back(x);
  }
  if (keys.empty()) gr[{}];
  for (auto& x : gr) {
    Row y = x.first;
    for (auto& z : aggs) y.push_back(agg(z.first, x.second, z.second));
    o.rows.push_back(y);
  }
  return o;
}
// by all columns, beginning with one; so the rows of a slice are determined
Rel sorted(const Rel& r, size_t first, bool desc, bool nulls_first, size_t limit, size_t offset) {
  std::vector<hdk::ir::BuilderSortField> fs;
  std::vector<size_t> order;
  for (size_t i = 0; i < r.kinds.size(); ++i) order.push_back((first + i) % r.kinds.size());
  for (size_t i : order) fs.emplace_back((int)i, desc ? SortDirection::Descending : SortDirection::Ascending, nulls_first ? NullSortedPosition::First : NullSortedPosition::Last);
  Rel o{r.n.sort(fs, limit, offset), r.kinds, r.rows, true};
  std::stable_sort(o.rows.begin(), o.rows.end(), [&](const Row& a, const Row& b) {
    for (size_t i : order) {
      if (a[i] == b[i]) continue;
      if (a[i].null() || b[i].null()) return a[i].null() == nulls_first;
      return (a[i] < b[i]) != desc;
    }
    return false;
  });
  o.rows.erase(o.rows.begin(), o.rows.begin() + std::min(offset, o.rows.size()));
  if (limit && o.rows.size() > limit) o.rows.resize(limit);
  return o;
}
Rel join(const Rel& l, const Rel& r, int lc, int rc, bool left) {
  Rel o{l.n.join(r.n, l.n.ref(lc).eq(r.n.ref(rc)), left ? "left" : "inner"), l.kinds + r.kinds, {}};
  for (auto& a : l.rows) {
    bool hit = false;
    for (auto& b : r.rows)
      if (!a[lc].null() && a[lc] == b[rc]) {
        Row x = a;
        x.insert(x.end(), b.begin(), b.end());
        o.rows.push_back(x);
        hit = true;
      }
    if (!hit && left) {
      Row x = a;
      x.resize(a.size() + r.kinds.size());
      o.rows.push_back(x);
    }
  }
  return o;
}

struct Op {
  const char* name;
  std::function<Rel(Plan&, const Rel&)> f;
  bool core = false;
  bool window = false;
};
bool has(const Row& r, int i) { return !r[i].null(); }
int strCol(const Rel& r) {
  auto p = r.kinds.find('s');
  return p == std::string::npos ? -1 : (int)p;
}
const std::vector<Op>& ops() {
  static const std::vector<Op> v{
      {"filter c0>1", [](Plan&, const Rel& r) { return filter(r, [](auto& n) { return n.ref(0).gt(1); }, [](const Row& x) { return has(x, 0) && x[0].i > 1; }); }, true},
      {"filter c1 null", [](Plan&, const Rel& r) { return filter(r, [](auto& n) { return n.ref(1).isNull(); }, [](const Row& x) { return !has(x, 1); }); }},
      {"filter c0<=c1 or c0 null", [](Plan&, const Rel& r) { return filter(r, [](auto& n) { return n.ref(0).le(n.ref(1)).logicalOr(n.ref(0).isNull()); }, [](const Row& x) { return !has(x, 0) || (has(x, 1) && x[0].i <= x[1].i); }); }, true},
      {"filter string", [](Plan&, const Rel& r) -> Rel {
         int s = strCol(r);
         if (s < 0) return {};
         return filter(r, [s](auto& n) { return n.ref(s).ne("b"); }, [s](const Row& x) { return has(x, s) && x[s].s != "b"; });
       }},
      {"swap", [](Plan&, const Rel& r) {
         std::vector<PE> e{col(r, 1), col(r, 0)};
         for (size_t i = 2; i < r.kinds.size(); ++i) e.push_back(col(r, i));
         return proj(r, e);
       }, true},
      {"all columns", [](Plan&, const Rel& r) {
         std::vector<PE> e;
         for (size_t i = 0; i < r.kinds.size(); ++i) e.push_back(col(r, i));
         return proj(r, e);
       }},
      {"twice", [](Plan&, const Rel& r) { return proj(r, {col(r, 1), col(r, 1), col(r, 0)}); }, true},
      {"c0+1, c1, c0*c1", [](Plan&, const Rel& r) {
         return proj(r, {{r.n.ref(0).add(1), 'i', [](const Row& x) { return has(x, 0) ? Val(x[0].i + 1) : Val(); }}, col(r, 1),
                         {r.n.ref(0).cast("int64").mul(r.n.ref(1).cast("int64")), 'i', [](const Row& x) { return has(x, 0) && has(x, 1) ? Val(x[0].i * x[1].i) : Val(); }}});
       }, true},
      {"constant, c0", [](Plan& p, const Rel& r) { return proj(r, {{p.b.cst(2), 'i', [](const Row&) { return Val(2); }}, col(r, 0)}); }},
      {"case", [](Plan& p, const Rel& r) {
         return proj(r, {{p.b.ifThenElse(r.n.ref(0).isNull(), p.b.cst((int64_t)-1), r.n.ref(0).cast("int64")), 'i', [](const Row& x) { return has(x, 0) ? x[0] : Val(-1); }}, col(r, 1)});
       }},
      {"group by c0: count, sum(c1)", [](Plan&, const Rel& r) { return group(r, {0}, {{"count", -1}, {"sum", 1}}); }, true},
      {"group by c1, c0: count(c0)", [](Plan&, const Rel& r) { return group(r, {1, 0}, {{"count", 0}}); }},
      {"sum(c0), max(c1), count", [](Plan&, const Rel& r) { return group(r, {}, {{"sum", 0}, {"max", 1}, {"count", -1}}); }, true},
      {"group by c1: min, avg, stddev, distinct(c0)", [](Plan&, const Rel& r) { return group(r, {1}, {{"min", 0}, {"avg", 0}, {"stddev", 0}, {"distinct", 0}}); }},
      {"group by string: max(c0), distinct(c1)", [](Plan&, const Rel& r) -> Rel {
         int s = strCol(r);
         if (s < 0) return {};
         auto x = group(r, {s}, {{"max", 0}, {"distinct", 1}});
         return proj(x, {col(x, 1), col(x, 2), col(x, 0)});
       }},
      {"sort", [](Plan&, const Rel& r) { return sorted(r, 0, false, false, 0, 0); }, true},
      {"sort by c1 desc limit 3", [](Plan&, const Rel& r) { return sorted(r, 1, true, true, 3, 0); }, true},
      {"sort limit 2 offset 1", [](Plan&, const Rel& r) { return sorted(r, 0, false, true, 2, 1); }},
      {"join u on c0", [](Plan& p, const Rel& r) { return join(r, p.other(), 0, 0, false); }, true},
      {"left join u on c1", [](Plan& p, const Rel& r) { return join(r, p.other(), 1, 0, true); }, true},
      {"left join grouped u", [](Plan& p, const Rel& r) { return join(r, group(p.other(), {0}, {{"sum", 1}}), 0, 0, true); }},
      {"u left join this", [](Plan& p, const Rel& r) { return join(p.other(), r, 0, 0, true); }},
      {"join filtered t", [](Plan& p, const Rel& r) { return join(r, filter(p.base(), [](auto& n) { return n.ref(1).ge(0); }, [](const Row& x) { return has(x, 1) && x[1].i >= 0; }), 0, 0, false); }},
      {"join sorted and limited u", [](Plan& p, const Rel& r) { return join(r, sorted(p.other(), 0, true, false, 2, 0), 1, 0, false); }},
      {"count over c0", [](Plan& p, const Rel& r) {
         std::map<Val, int64_t> n;
         for (auto& x : r.rows) n[x[0]]++;
         return proj(r, {{r.n.count().over(r.n.ref(0)), 'i', [n](const Row& x) { return Val(n.at(x[0])); }}, col(r, 1), col(r, 0)});
       }, false, true},
  };
  return v;
}

void run(mc::Ctx& c, const std::string& what, const Rel& r) {
  c.op("%s", what.c_str());
  c.state(what);
  auto got = guarded(c, what, [&] { return g->run(r.n); });
  sameRows(c, what, got, r.rows, r.ordered);
}

struct DataSet {
  Rows t, u;
};
const std::vector<DataSet>& data() {
  static const std::vector<DataSet> d{
      {{{Val(1), Val(5), Val("a")}, {Val(2), Val(), Val("b")}, {Val(), Val(1), Val("a")}, {Val(2), Val(2), Val()}, {Val(3), Val(-1), Val("c")}, {Val(1), Val(5), Val("a")}},
       {{Val(1), Val(10)}, {Val(2), Val(20)}, {Val(2), Val()}, {Val(), Val(40)}, {Val(5), Val(2)}}},
      {{}, {{Val(1), Val(10)}, {Val(7), Val(3)}}},
      {{{Val(4), Val(4), Val("b")}}, {}},
      {{{Val(), Val(), Val()}, {Val(), Val(), Val()}, {Val(2), Val(), Val("z")}}, {{Val(), Val()}, {Val(2), Val(2)}}},
  };
  return d;
}
struct Tables {
  Tab t, u;
  Tables(const DataSet& d, bool one)
      : t({{"a", C().int32()}, {"b", C().int64()}, {"s", dict(0)}}, d.t, one || d.t.size() < 3 ? std::vector<size_t>{} : std::vector<size_t>{2, d.t.size() - 2})
      , u({{"k", C().int32()}, {"v", C().int64()}}, d.u, one || d.u.size() < 3 ? std::vector<size_t>{} : std::vector<size_t>{d.u.size() - 1, 1}) {}
};

// chains of operations
void chain(mc::Ctx& c, size_t depth, bool core) {
  auto& O = ops();
  static const std::vector<size_t> cores = [] {
    std::vector<size_t> v;
    for (size_t i = 0; i < ops().size(); ++i)
      if (ops()[i].core) v.push_back(i);
    return v;
  }();
  std::vector<size_t> s;
  size_t h = depth;
  bool window = false;
  for (size_t i = 0; i < depth; ++i) {
    size_t x = core ? cores[c.choose(cores.size(), "operation")] : c.choose(O.size(), "operation");
    s.push_back(x);
    h = h * 31 + x;
    window |= O[x].window;
  }
  size_t d = core || (depth > 2 && !c.thorough()) ? 0 : c.choose(data().size(), "data");
  int cf = core || !c.thorough() ? (h / 3 + d) % 6 : c.choose(6, "config");
  configure(cf);
  Tables tabs(data()[d], window);
  Plan p{.t = tabs.t.name, .u = tabs.u.name, .tr = data()[d].t, .ur = data()[d].u};
  Rel r = p.base();
  std::string what = mc::strf("data %zu, %s: ", d, kConfig[cf]);
  for (size_t i = 0; i < s.size(); ++i) {
    what += (i ? "; " : "") + std::string(O[s[i]].name);
    try {
      r = O[s[i]].f(p, r);
    } catch (const std::exception& e) {
      c.fail("builder:" + what, what + ": the builder refused: " + e.what());
    }
    if (r.kinds.empty()) c.skip();
  }
  run(c, what, r);
}
void s_chain2(mc::Ctx& c) { chain(c, 1 + c.choose(2, "length"), false); }
void s_chain3(mc::Ctx& c) { chain(c, 3, false); }
void s_chain4(mc::Ctx& c) {
  if (!c.thorough()) c.skip();
  chain(c, 4, true);
}

// joins of two derived relations
void s_pairs(mc::Ctx& c) {
  auto& O = ops();
  size_t x = c.choose(O.size(), "left operation"), y = c.choose(O.size(), "right operation");
  bool left = c.flip("left join");
  if (!c.thorough() && (x * 3 + y + left) % 3) c.skip();
  int cf = (x + y * 5 + left) % 6;
  configure(cf);
  auto& d = data()[0];
  Tables tabs(d, O[x].window || O[y].window);
  Plan p{.t = tabs.t.name, .u = tabs.u.name, .tr = d.t, .ur = d.u};
  auto l = O[x].f(p, p.base()), r = O[y].f(p, p.base());
  if (l.kinds.empty() || r.kinds.empty()) c.skip();
  auto j = join(l, r, 0, 0, left);
  std::string what = mc::strf("%s: (%s) %s join (%s)", kConfig[cf], O[x].name, left ? "left" : "inner", O[y].name);
  run(c, what, (x + y) % 2 ? j : group(j, {1}, {{"count", -1}, {"sum", (int)l.kinds.size() + 1}}));
}
}  // namespace

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.worker_init = [] {
    g = std::make_unique<Db>();
    g->config->exec.join.allow_loop_joins = true;
  };
  o.rule = "every chain of one and two of 25 operations (filters, projections, groupings, sorts and slices, joins, a window) over four data sets, every chain of three over one of them (thorough: over all, and four of eleven operations), and joins of two derived relations; six configurations. Every result is compared with an interpreter of relational algebra";
  o.assumptions = {"Arrow is replaced by an empty stub: tables come from an in-memory data provider"};
  return mc::run(argc, argv, {{"chain2", s_chain2, 2, 120}, {"chain3", s_chain3, 2, 120}, {"chain4", s_chain4, 2, 120}, {"pairs", s_pairs, 2, 120}}, o);
}
