// Sorting, limits and offsets by the real engine, against the order of the values.
#include "q_common.h"

using namespace q;
using hdk::ir::BuilderSortField;
using hdk::ir::NullSortedPosition;
using hdk::ir::SortDirection;

namespace {
struct Spec {
  bool desc, first;
};
// does a come before b
int before(const Val& a, const Val& b, Spec s) {
  if (a == b) return 0;
  if (a.null() || b.null()) return (a.null() == s.first) ? -1 : 1;
  return ((a < b) != s.desc) ? -1 : 1;
}
struct Field {
  int col;
  Spec s;
};
Rows reference(Rows rows, const std::vector<Field>& fs) {
  std::stable_sort(rows.begin(), rows.end(), [&](const Row& a, const Row& b) {
    for (auto& f : fs) {
      int r = before(a[f.col], b[f.col], f.s);
      if (r) return r < 0;
    }
    return false;
  });
  return rows;
}
void checkSorted(mc::Ctx& c, const std::string& what, const Rows& got, const Rows& all, const std::vector<Field>& fs, size_t limit, size_t offset) {
  auto want = reference(all, fs);
  if (offset >= want.size()) want.clear();
  else want.erase(want.begin(), want.begin() + offset);
  if (limit && want.size() > limit) want.resize(limit);
  if (got.size() != want.size())
    c.fail("rows:" + what, mc::strf("%s: %zu rows instead of %zu: %s", what.c_str(), got.size(), want.size(), str(got).substr(0, 500).c_str()));
  for (size_t i = 0; i < got.size(); ++i)
    for (auto& f : fs)
      if (!near(got[i][f.col], want[i][f.col]))
        c.fail("order:" + what, mc::strf("%s: row %zu is %s instead of one like %s; got %s, all rows %s", what.c_str(), i, str(got[i]).c_str(), str(want[i]).c_str(), str(got).substr(0, 500).c_str(), str(all).substr(0, 500).c_str()));
  std::vector<bool> used(all.size());
  for (auto& r : got) {
    size_t i = 0;
    while (i < all.size() && (used[i] || !near(all[i], r))) ++i;
    if (i == all.size()) c.fail("row:" + what, mc::strf("%s: row %s is not one of the input or comes twice; got %s", what.c_str(), str(r).c_str(), str(got).substr(0, 500).c_str()));
    used[i] = true;
  }
}
const std::vector<std::pair<size_t, size_t>> kLimits = {{0, 0}, {1, 0}, {2, 1}, {3, 3}, {0, 2}, {100, 0}, {2, 100}, {4, 4}};
const char* kConfig[] = {"default", "columnar", "parallel top", "no streaming top-n", "one result set", "no lazy fetch"};
void configure(int k) {
  auto& cf = *g->config;
  cf.rs.enable_columnar_output = k == 1;
  cf.exec.parallel_top_min = k == 2 ? 1 : 100000;
  cf.exec.streaming_topn_max = k == 3 ? 0 : 100000;
  cf.exec.enable_multifrag_rs = k != 4;
  cf.exec.enable_multifrag_execution_result = k != 4;
  cf.rs.enable_lazy_fetch = k != 5;
}
BuilderSortField field(const BuilderNode& n, const Field& f) {
  return BuilderSortField(n.ref(f.col), f.s.desc ? SortDirection::Descending : SortDirection::Ascending, f.s.first ? NullSortedPosition::First : NullSortedPosition::Last);
}
std::string str(const std::vector<Field>& fs, std::pair<size_t, size_t> lo) {
  std::string s = "sort by";
  for (auto& f : fs) s += mc::strf(" #%d %s nulls %s", f.col, f.s.desc ? "desc" : "asc", f.s.first ? "first" : "last");
  if (lo.first) s += mc::strf(" limit %zu", lo.first);
  if (lo.second) s += mc::strf(" offset %zu", lo.second);
  return s;
}

// One column of every type; rows straight from the table, computed, or from a grouping.
void s_one(mc::Ctx& c) {
  static const auto D = doms();
  size_t x = c.choose(D.size(), "type"), src = c.choose(4, "source");
  Spec sp{c.flip("desc"), c.flip("nulls first")};
  bool nul = c.thorough() ? c.flip("nullable") : (x + src + sp.desc) % 4 != 0;
  int order = c.thorough() ? c.choose(3, "row order") : (x + src) % 3;
  auto& d = D[x];
  std::vector<Val> vs = d.v;
  vs.push_back(d.v.back());
  vs.push_back(d.v[1]);
  if (nul) {
    vs.insert(vs.begin() + 1, Val());
    vs.push_back(Val());
  }
  size_t n = vs.size();
  Rows rows;
  for (size_t i = 0; i < n; ++i) {
    size_t j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5 + 3) % n;
    if (n == 5 && order == 2) j = (i * 3 + 1) % n;
    rows.push_back({vs[j], Val((int64_t)i)});
  }
  Tab t({{"v", nn(d.t, nul)}, {"id", C().int32()}}, rows, {2, n - 4, 2});
  for (size_t l = 0; l < kLimits.size(); ++l)
    for (int cf = 0; cf < 6; ++cf) {
      if (!c.thorough() && (l + cf + x + src * 3 + sp.desc * 2 + sp.first) % 2 && !(cf == 0 && l == 0)) continue;
      auto lo = kLimits[l];
      configure(cf);
      auto b = g->builder();
      auto s = b.scan(t.name);
      BuilderNode n = s;
      Rows all;
      std::vector<Field> fs{{0, sp}};
      std::string what = d.name + (nul ? "" : " not null");
      switch (src) {
        case 0:
          n = s.proj(std::vector<BuilderExpr>{s.ref("v").rename("a"), s.ref("id").rename("b")});
          all = rows;
          break;
        case 1:
          n = s.proj(std::vector<BuilderExpr>{s.ref("id").add(1).rename("a"), s.ref("v").rename("b")});
          for (auto& r : rows) all.push_back({Val(r[1].i + 1), r[0]});
          fs[0].col = 1;
          what += " computed";
          break;
        case 2: {  // grouped by the value itself
          n = s.agg(std::vector<BuilderExpr>{s.ref("v")}, {s.count().rename("n"), s.ref("id").max().rename("m")});
          std::map<Val, Row> gr;
          for (auto& r : rows) {
            auto& w = gr[r[0]];
            if (w.empty()) w = {r[0], Val(0), Val(-1)};
            w[1].i++;
            w[2].i = std::max(w[2].i, r[1].i);
          }
          for (auto& w : gr) all.push_back(w.second);
          what += " as key";
          break;
        }
        default: {  // the value as an aggregate
          if (!d.num && !d.t->isDateTime()) {
            n = s.filter(s.ref("id").ge(0));
            n = n.proj(std::vector<BuilderExpr>{n.ref("v").rename("a"), n.ref("id").rename("b")});
            all = rows;
            what += " filtered";
          } else {
            n = s.agg(std::vector<BuilderExpr>{s.ref("id")}, {s.ref("v").max().rename("m"), s.count().rename("n")});
            for (auto& r : rows) all.push_back({r[1], r[0], Val(1)});
            fs[0].col = 1;
            what += " aggregated";
          }
        }
      }
      what += ", " + str(fs, lo) + ", " + kConfig[cf];
      c.op("%s, rows %s", what.c_str(), str(rows).c_str());
      c.state(what + std::to_string(order));
      auto got = guarded(c, what, [&] { return g->run(n.sort(std::vector<BuilderSortField>{field(n, fs[0])}, lo.first, lo.second)); });
      checkSorted(c, what, got, all, fs, lo.first, lo.second);
    }
}

// Two columns of every pair of types
void s_two(mc::Ctx& c) {
  static const auto D = doms();
  size_t x = c.choose(D.size(), "first"), y = c.choose(D.size(), "second");
  int spec = c.thorough() ? c.choose(16, "directions") : (x * 7 + y * 5) % 16;
  int cf = c.thorough() ? c.choose(6, "config") : (x + y) % 6;
  bool grouped = c.thorough() ? c.flip("grouped") : (x / 2 + y) % 2;
  Rows rows;
  auto a = D[x].v, b = D[y].v;
  a.insert(a.begin() + 1, Val());
  b.push_back(Val());
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j) rows.push_back({a[(i * 3 + 1) % a.size()], b[(j + i) % b.size()], Val((int64_t)(i * b.size() + j))});
  if (a.size() == 3) {  // 3 is no unit modulo 3
    rows.clear();
    for (size_t i = 0; i < a.size(); ++i)
      for (size_t j = 0; j < b.size(); ++j) rows.push_back({a[i], b[(j + i) % b.size()], Val((int64_t)(i * b.size() + j))});
  }
  if (!grouped) rows.push_back({a[0], b[0], Val(99)});
  Tab t({{"x", D[x].t}, {"y", D[y].t}, {"id", C().int64()}}, rows, {rows.size() - 3, 3});
  configure(cf);
  std::vector<Field> fs{{0, {bool(spec & 1), bool(spec & 2)}}, {1, {bool(spec & 4), bool(spec & 8)}}};
  if ((x + y) % 3 == 0) std::swap(fs[0], fs[1]);
  auto bl = g->builder();
  for (auto lo : std::vector<std::pair<size_t, size_t>>{{0, 0}, {3, 2}, {rows.size() - 1, 0}}) {
    auto s = bl.scan(t.name);
    BuilderNode n = s;
    if (grouped) n = s.agg(std::vector<BuilderExpr>{s.ref("x"), s.ref("y")}, {s.ref("id").sum().rename("m")});
    else n = s.proj(std::vector<BuilderExpr>{s.ref("x").rename("a"), s.ref("y").rename("b"), s.ref("id").rename("c")});
    std::string what = D[x].name + ", " + D[y].name + (grouped ? " grouped, " : ", ") + str(fs, lo) + ", " + kConfig[cf];
    c.op("%s", what.c_str());
    c.state(what);
    auto got = guarded(c, what, [&] { return g->run(n.sort(std::vector<BuilderSortField>{field(n, fs[0]), field(n, fs[1])}, lo.first, lo.second)); });
    checkSorted(c, what, got, rows, fs, lo.first, lo.second);
  }
  // only a limit
  {
    auto s = bl.scan(t.name);
    auto n = s.proj(std::vector<BuilderExpr>{s.ref("x").rename("a"), s.ref("y").rename("b"), s.ref("id").rename("c")});
    size_t lim = 1 + (x + y) % 5, off = (x * y) % 4;
    std::string what = mc::strf("limit %zu offset %zu, %s", lim, off, kConfig[cf]);
    c.op("%s", what.c_str());
    auto got = guarded(c, what, [&] { return g->run(n.sort(std::vector<BuilderSortField>{}, lim, off)); });
    checkSorted(c, what, got, rows, {}, lim, off);
  }
}

// Every order of the input rows, every fragmentation, every limit.
void s_orders(mc::Ctx& c) {
  static const std::vector<Val> V{Val(3), Val(), Val(-1), Val(3), Val(7)};
  std::vector<int> left{0, 1, 2, 3, 4};
  Rows rows;
  std::vector<size_t> frags;
  size_t run = 0;
  while (!left.empty()) {
    size_t k = c.choose(left.size(), "row");
    rows.push_back({V[left[k]], Val((int64_t)left[k])});
    left.erase(left.begin() + k);
    ++run;
    if (left.empty() || (rows.size() == 2 ? c.flip("cut") : rows.size() == 4)) {
      frags.push_back(run);
      run = 0;
    }
  }
  Tab t({{"v", C().int32()}, {"id", C().int32()}}, rows, frags);
  size_t h = rows[0][1].i * 5 + rows[1][1].i * 3 + rows[2][1].i;
  configure(h % 6);
  std::vector<Field> fs{{0, {bool(h & 1), bool(h & 2)}}};
  auto b = g->builder();
  for (size_t k = 0; k < 6; ++k) {
    if (!c.thorough() && (k + h) % 3) continue;
    std::pair<size_t, size_t> lo{k, (h + k) % 3};
    auto s = b.scan(t.name);
    auto n = s.proj(std::vector<BuilderExpr>{s.ref("v").rename("a"), s.ref("id").rename("b")});
    std::string what = str(fs, lo) + ", " + kConfig[h % 6];
    c.op("%s, rows %s, %zu fragments", what.c_str(), str(rows).c_str(), frags.size());
    c.state(what + str(rows) + std::to_string(frags.size()));
    auto got = guarded(c, what, [&] { return g->run(n.sort(std::vector<BuilderSortField>{field(n, fs[0])}, lo.first, lo.second)); });
    checkSorted(c, what, got, rows, fs, lo.first, lo.second);
  }
}
}  // namespace

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.worker_init = [] { g = std::make_unique<Db>(); };
  o.rule = "columns of every type with nulls and duplicates, from tables, expressions and groupings, sorted in every direction and null position under eight limit/offset pairs and six configurations; every pair of column types; every row order of five rows";
  o.assumptions = {"Arrow is replaced by an empty stub: tables come from an in-memory data provider", "rows that compare equal may come in any order"};
  return mc::run(argc, argv, {{"sort_one", s_one, 3, 120}, {"sort_two", s_two, 2, 120}, {"sort_orders", s_orders, 3, 120}}, o);
}
