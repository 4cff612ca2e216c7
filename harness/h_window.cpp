// Window functions by the real engine against their definition.
#include "q_common.h"

using namespace q;
using hdk::ir::BuilderOrderByKey;
using hdk::ir::NullSortedPosition;
using hdk::ir::SortDirection;

namespace {
struct Ord {
  int col;
  bool desc, first;
};
int before(const Val& a, const Val& b, const Ord& s) {
  if (a == b) return 0;
  if (a.null() || b.null()) return (a.null() == s.first) ? -1 : 1;
  return ((a < b) != s.desc) ? -1 : 1;
}
// columns of every table: k, o, v, id
enum { K, O, V, ID };
const char* kCol[] = {"k", "o", "v", "id"};
struct Win {
  std::vector<int> part;
  std::vector<Ord> ord;
  std::string str() const {
    std::string s = " over(";
    for (int p : part) s += std::string(" by ") + kCol[p];
    for (auto& o : ord) s += std::string(" order ") + kCol[o.col] + (o.desc ? " desc" : "") + (o.first ? " nulls first" : "");
    return s + ")";
  }
};
enum F { ROWNUM, RANK, DENSE, PERCENT, NTILE2, NTILE3, LAG1, LAG2, LEAD1, LEAD3, FIRST, LAST, SUM, AVG, MIN, MAX, COUNT, COUNTALL, NF };
const char* kF[] = {"row_number", "rank", "dense_rank", "percent_rank", "ntile(2)", "ntile(3)", "lag(1)", "lag(2)", "lead(1)", "lead(3)", "first_value", "last_value", "sum", "avg", "min", "max", "count", "count(*)"};
bool onlyNum(int f) { return f == SUM || f == AVG; }
bool noDict(int f) { return f == MIN || f == MAX; }
bool exactOrder(int f) { return f >= LAG1 && f <= LEAD3; }

BuilderExpr make(const BuilderNode& n, int f, const Win& w) {
  static auto b = g->builder();
  auto v = n.ref("v");
  BuilderExpr e;
  switch (f) {
    case ROWNUM: e = b.rowNumber(); break;
    case RANK: e = b.rank(); break;
    case DENSE: e = b.denseRank(); break;
    case PERCENT: e = b.percentRank(); break;
    case NTILE2: e = b.nTile(2); break;
    case NTILE3: e = b.nTile(3); break;
    case LAG1: e = v.lag(1); break;
    case LAG2: e = v.lag(2); break;
    case LEAD1: e = v.lead(1); break;
    case LEAD3: e = v.lead(3); break;
    case FIRST: e = v.firstValue(); break;
    case LAST: e = v.lastValue(); break;
    case SUM: e = v.sum(); break;
    case AVG: e = v.avg(); break;
    case MIN: e = v.min(); break;
    case MAX: e = v.max(); break;
    case COUNT: e = v.count(); break;
    case COUNTALL: e = n.count(); break;
  }
  std::vector<BuilderExpr> ks;
  for (int p : w.part) ks.push_back(n.ref(kCol[p]));
  e = e.over(ks);
  if (!w.ord.empty()) {
    std::vector<BuilderOrderByKey> os;
    for (auto& o : w.ord)
      os.emplace_back(n.ref(kCol[o.col]), o.desc ? SortDirection::Descending : SortDirection::Ascending, o.first ? NullSortedPosition::First : NullSortedPosition::Last);
    e = e.orderBy(os);
  }
  return e;
}

// The partition of row i, in the order of the window; rows of equal rank are in the order of the table.
struct View {
  std::vector<size_t> rows;
  size_t pos, lo, hi;  // of the row, and of its peers
};
View view(const Rows& t, size_t i, const Win& w) {
  View v;
  auto cmp = [&](size_t a, size_t b) {
    for (auto& o : w.ord) {
      int r = before(t[a][o.col], t[b][o.col], o);
      if (r) return r;
    }
    return 0;
  };
  for (size_t j = 0; j < t.size(); ++j) {
    bool same = true;
    for (int p : w.part) same &= t[j][p] == t[i][p];
    if (same) v.rows.push_back(j);
  }
  std::stable_sort(v.rows.begin(), v.rows.end(), [&](size_t a, size_t b) { return cmp(a, b) < 0; });
  v.lo = v.hi = 0;
  bool seen = false;
  for (size_t x = 0; x < v.rows.size(); ++x) {
    int r = cmp(v.rows[x], i);
    if (v.rows[x] == i) v.pos = x;
    if (r == 0 && !seen) v.lo = x, seen = true;
    if (r == 0) v.hi = x + 1;
  }
  return v;
}
size_t ranks(const Rows& t, const View& v, const Win& w) {
  size_t d = 1;
  for (size_t x = 1; x <= v.lo; ++x) {
    bool differ = false;
    for (auto& o : w.ord) differ |= t[v.rows[x]][o.col] != t[v.rows[x - 1]][o.col];
    d += differ;
  }
  return d;
}
// the answers that are right for row i (more than one only among peers)
std::vector<Val> right(const Rows& t, size_t i, int f, const Win& w, const Type* vt) {
  auto v = view(t, i, w);
  size_t n = v.rows.size();
  auto I = [](size_t x) { return Val((int64_t)x); };
  std::vector<Val> r;
  auto at = [&](int64_t p) { return p < 0 || p >= (int64_t)n ? Val() : t[v.rows[p]][V]; };
  switch (f) {
    case ROWNUM:
      for (size_t x = v.lo; x < v.hi; ++x) r.push_back(I(x + 1));
      break;
    case RANK: r = {I(v.lo + 1)}; break;
    case DENSE: r = {I(ranks(t, v, w))}; break;
    case PERCENT: r = {Val(n == 1 ? 0.0 : (double)v.lo / (n - 1))}; break;
    case NTILE2:
    case NTILE3: {
      size_t k = f == NTILE2 ? 2 : 3;
      for (size_t x = v.lo; x < v.hi; ++x) r.push_back(I(x / ((n + k - 1) / k) + 1));
      // the other customary division: the first n % k tiles have one row more
      if (n % k) {
        size_t q = n / k, m = n % k;
        for (size_t x = v.lo; x < v.hi; ++x) r.push_back(I(x < m * (q + 1) ? x / (q + 1) + 1 : m + (x - m * (q + 1)) / q + 1));
      }
      break;
    }
    case LAG1: r = {at((int64_t)v.pos - 1)}; break;
    case LAG2: r = {at((int64_t)v.pos - 2)}; break;
    case LEAD1: r = {at(v.pos + 1)}; break;
    case LEAD3: r = {at(v.pos + 3)}; break;
    case FIRST:
      for (size_t x = 0; x < n; ++x) {
        bool peer = true;
        for (auto& o : w.ord) peer &= t[v.rows[x]][o.col] == t[v.rows[0]][o.col];
        if (peer) r.push_back(at(x));
      }
      break;
    case LAST:
      for (size_t x = v.lo; x < v.hi; ++x) r.push_back(at(x));
      break;
    default: {
      // the rows up to the last peer
      i128 si = 0;
      double sd = 0;
      int64_t cnt = 0;
      Val mn, mx;
      for (size_t x = 0; x < v.hi; ++x) {
        auto& y = t[v.rows[x]][V];
        if (y.null()) continue;
        ++cnt;
        if (y.k == Val::Int) si += y.i;
        if (y.k == Val::Fp) sd += y.d;
        if (mn.null() || y < mn) mn = y;
        if (mx.null() || mx < y) mx = y;
      }
      bool fp = vt->isFloatingPoint();
      if (f == SUM) r = {cnt ? fp ? Val(sd) : Val((int64_t)si) : Val()};
      if (f == AVG) r = {cnt ? Val((fp ? sd : (double)si) / std::pow(10.0, scaleOf(vt)) / cnt) : Val()};
      if (f == MIN) r = {mn};
      if (f == MAX) r = {mx};
      if (f == COUNT) r = {I(cnt)};
      if (f == COUNTALL) r = {I(v.hi)};
    }
  }
  return r;
}

bool oneOf(const Val& a, const std::vector<Val>& r) {
  for (auto& w : r)
    if (near(a, w)) return true;
  return false;
}
const char* kConfig[] = {"default", "columnar", "no lazy fetch", "parallel partitions"};
void configure(int k) {
  auto& cf = *g->config;
  cf.rs.enable_columnar_output = k == 1;
  cf.rs.enable_lazy_fetch = k != 2;
  cf.exec.window_func.parallel_window_partition_compute_threshold = k == 3 ? 1 : 4096;
  cf.exec.window_func.parallel_window_partition_sort_threshold = k == 3 ? 1 : 1024;
}

// Asks for several window functions over one table at once and compares each with its definition.
void check(mc::Ctx& c, const std::string& what, const std::vector<Col>& cols, const Rows& t, const std::vector<std::pair<int, Win>>& ws) {
  Tab tab(cols, t);
  auto b = g->builder();
  auto s = b.scan(tab.name);
  std::vector<BuilderExpr> out{s.ref("id").rename("id")};
  for (size_t i = 0; i < ws.size(); ++i) out.push_back(make(s, ws[i].first, ws[i].second).rename("w" + std::to_string(i)));
  std::string all = what;
  for (auto& w : ws) all += std::string(", ") + kF[w.first] + w.second.str();
  auto got = guarded(c, all, [&] { return g->run(s.proj(out)); });
  if (got.size() != t.size()) c.fail("rows:" + what, mc::strf("%s: %zu rows instead of %zu: %s", all.c_str(), got.size(), t.size(), str(got).c_str()));
  std::vector<bool> used(t.size());
  for (auto& r : got) {
    if (r[0].null() || r[0].i < 0 || r[0].i >= (int64_t)t.size() || used[r[0].i]) c.fail("row:" + what, mc::strf("%s: row %s is not one of the table or comes twice", all.c_str(), str(r).c_str()));
    size_t i = r[0].i;
    used[i] = true;
    for (size_t x = 0; x < ws.size(); ++x) {
      auto want = right(t, i, ws[x].first, ws[x].second, cols[V].type);
      if (!oneOf(r[x + 1], want))
        c.fail("value:" + what + kF[ws[x].first] + ws[x].second.str(), mc::strf("%s: %s%s of row %s is %s, not %s; table %s", what.c_str(), kF[ws[x].first], ws[x].second.str().c_str(), str(t[i]).c_str(),
                                                                                   r[x + 1].str().c_str(), str(want).c_str(), str(t).c_str()));
    }
  }
  // peers may be numbered in any order, but each number is used once
  for (size_t x = 0; x < ws.size(); ++x) {
    if (ws[x].first != ROWNUM) continue;
    std::set<std::pair<std::string, int64_t>> nums;
    for (auto& r : got) {
      std::string key;
      for (int p : ws[x].second.part) key += t[r[0].i][p].str() + "|";
      if (!nums.insert({key, r[x + 1].i}).second) c.fail("twice:" + what, mc::strf("%s: row number %ld comes twice in partition %s", all.c_str(), (long)r[x + 1].i, key.c_str()));
    }
  }
}

std::vector<Win> windows(bool exact) {
  std::vector<Win> r;
  for (auto part : std::vector<std::vector<int>>{{}, {K}, {K, V}}) {
    if (!exact) r.push_back({part, {}});
    if (!exact) r.push_back({part, {{O, false, false}}});
    if (!exact) r.push_back({part, {{O, true, true}}});
    r.push_back({part, {{O, false, true}, {ID, false, false}}});
    r.push_back({part, {{O, true, false}, {ID, true, false}}});
  }
  return r;
}

// every function over every type of argument
void s_funcs(mc::Ctx& c) {
  static const auto D = doms();
  size_t d = c.choose(D.size(), "type");
  int f = c.choose(NF, "function");
  if ((onlyNum(f) && !D[d].num) || (noDict(f) && (D[d].t->isExtDictionary() || D[d].t->isBoolean()))) c.skip();
  auto W = windows(exactOrder(f));
  size_t w = c.choose(W.size(), "window");
  bool nulls = c.thorough() ? c.flip("nulls") : (d + w) % 4 != 0;
  int cf = c.thorough() ? c.choose(4, "config") : (d + f + w) % 4;
  if ((D[d].t->isFloatingPoint() || D[d].t->isBoolean()) && W[w].part.size() > 1) c.skip();  // refused as keys
  Rows t;
  auto& v = D[d].v;
  size_t m = v.size();
  int64_t ks[] = {1, 2, 1, 1, 2, 1, 2, 3}, os[] = {5, 5, 3, 5, 4, 1, 4, 2};
  for (int64_t i = 0; i < 8; ++i) t.push_back({Val(ks[i]), Val(os[i]), v[(i * 5 + i / 3) % m], Val(i)});
  if (f == SUM && D[d].t->size() == 8 && v.back().k == Val::Int && v.back().i > (1ll << 60))
    for (auto& r : t) if (r[V] == v.back()) r[V] = Val(11);
  if (f == SUM && v.front().k == Val::Int && v.front().i < -(1ll << 60))
    for (auto& r : t) if (r[V] == v.front()) r[V] = Val(-12);
  if (nulls) t[3][V] = Val(), t[7][V] = Val(), t[4][K] = Val(), t[6][K] = Val(), t[2][O] = Val();
  configure(cf);
  std::string what = D[d].name + (nulls ? "" : " not null") + ", " + kConfig[cf];
  c.op("%s %s%s of %s", what.c_str(), kF[f], W[w].str().c_str(), str(t).c_str());
  c.state(what + kF[f] + W[w].str());
  check(c, what, {{"k", nn(C().int32(), nulls)}, {"o", nn(C().int16(), nulls)}, {"v", nn(D[d].t, nulls)}, {"id", nn(C().int32(), false)}}, t, {{f, W[w]}});
}

// every type of partition key and every type of order key, with both directions and positions of nulls
void s_keys(mc::Ctx& c) {
  static const auto D = doms();
  bool part = c.flip("partition key");
  size_t d = c.choose(D.size(), "type");
  if (part ? D[d].t->isFloatingPoint() || D[d].t->isBoolean() : D[d].t->isExtDictionary()) c.skip();  // refused
  static const int fs[] = {ROWNUM, RANK, DENSE, PERCENT, LAG1, LEAD1, FIRST, LAST, SUM, MIN, COUNT, AVG};
  size_t fi = c.choose(12, "function");
  int f = fs[fi];
  int nul = c.choose(3, "nulls");  // none, some, only
  int o = c.choose(4, "order");
  if (!c.thorough() && (d + fi + nul + o) % 2) c.skip();
  int cf = c.thorough() ? c.choose(4, "config") : (d + fi + nul + o) / 2 % 4;
  auto& v = D[d].v;
  Rows t;
  for (int64_t i = 0; i < 7; ++i) {
    Val x = nul == 2 || (nul == 1 && i % 3 == 1) ? Val() : v[(i * i + i / 2) % v.size()];
    Val y((int64_t)(i * 3 % 4));
    t.push_back({part ? x : Val((int64_t)(i % 2)), part ? y : x, Val((int64_t)(10 + i)), Val(i)});
  }
  Win w{{K}, {{O, bool(o & 1), bool(o & 2)}}};
  if (exactOrder(f)) w.ord.push_back({ID, false, false});
  configure(cf);
  std::string what = D[d].name + (part ? " as partition key" : " as order key") + (nul == 0 ? " not null" : nul == 2 ? " all null" : "") + ", " + kConfig[cf];
  c.op("%s %s%s of %s", what.c_str(), kF[f], w.str().c_str(), str(t).c_str());
  c.state(what + kF[f] + w.str());
  check(c, what, {{"k", part ? nn(D[d].t, nul) : C().int32()}, {"o", part ? C().int64() : nn(D[d].t, nul)}, {"v", C().int32()}, {"id", nn(C().int32(), false)}}, t, {{f, w}});
}

// every small table, several window functions at once
void s_tables(mc::Ctx& c) {
  size_t n = c.choose(c.thorough() ? 5 : 4, "rows");
  static const std::vector<Val> ks{Val(), Val(1), Val(2)}, os{Val(), Val(7), Val(8)};
  Rows t;
  size_t h = n;
  for (size_t i = 0; i < n; ++i) {
    size_t x = c.choose(9, "row");
    h = h * 9 + x;
    t.push_back({ks[x % 3], os[x / 3], (i + x) % 3 == 2 ? Val() : Val((int64_t)(i * 10 + 1)), Val((int64_t)i)});
  }
  static const std::vector<std::vector<int>> sets{{ROWNUM, SUM, LAG1}, {RANK, COUNT, LEAD1}, {DENSE, AVG, FIRST}, {PERCENT, MIN, LAST}, {NTILE2, MAX, COUNTALL}};
  for (size_t k = 0; k < sets.size(); ++k) {
    if (!c.thorough() && n > 2 && (h + k) % 5) continue;
    std::vector<std::pair<int, Win>> ws;
    for (size_t x = 0; x < 3; ++x) {
      auto W = windows(exactOrder(sets[k][x]));
      W.erase(std::remove_if(W.begin(), W.end(), [](const Win& w) { return w.part.size() > 1; }), W.end());
      ws.push_back({sets[k][x], W[(h * 7 + k + x * 3) % W.size()]});
    }
    int cf = (h + k) % 4;
    configure(cf);
    c.op("%s set %zu of %s", kConfig[cf], k, str(t).c_str());
    c.state(mc::strf("%zu %zu", h, k));
    check(c, std::string("set ") + std::to_string(k) + ", " + kConfig[cf], {{"k", C().int32()}, {"o", C().int32()}, {"v", C().int64()}, {"id", nn(C().int32(), false)}}, t, ws);
  }
}

// more rows than narrow types can count
void s_long(mc::Ctx& c) {
  static const auto D = doms();
  static const int64_t sizes[] = {126, 127, 128, 130, 255, 256, 257, 300, 32767, 32769, 65537};
  size_t d = c.choose(D.size(), "type");
  int64_t n = sizes[c.choose(11, "rows")];
  int parts = c.choose(2, "partitions") + 1;
  int cf = c.thorough() ? c.choose(4, "config") : (d + n + parts) % 4;
  Rows t;
  for (int64_t i = 0; i < n; ++i) t.push_back({Val(i % parts), Val(i / 3), i % 7 == 3 ? Val() : D[d].v[i % D[d].v.size()], Val(i)});
  configure(cf);
  std::string what = D[d].name + mc::strf(", %ld rows in %d partitions, ", (long)n, parts) + kConfig[cf];
  c.op("%s", what.c_str());
  c.state(what);
  Tab tab({{"k", C().int32()}, {"o", C().int32()}, {"v", D[d].t}, {"id", nn(C().int32(), false)}}, t);
  auto b = g->builder();
  auto s = b.scan(tab.name);
  Win all{{K}, {}}, run{{K}, {{O, false, false}}};
  auto got = guarded(c, what, [&] { return g->run(s.proj(std::vector<BuilderExpr>{s.ref("id").rename("id"), make(s, COUNT, all).rename("a"), make(s, COUNT, run).rename("b"), make(s, COUNTALL, run).rename("c"), make(s, RANK, run).rename("d"), make(s, DENSE, run).rename("e")})); });
  std::vector<int64_t> tot(parts), cnt(parts), pos(parts), rank(parts), dense(parts), last(parts, -1);
  for (auto& r : t) tot[r[K].i] += !r[V].null();
  Rows want(n);
  for (int64_t i = 0; i < n; ++i) {
    int64_t k = t[i][K].i;
    pos[k]++;
    cnt[k] += !t[i][V].null();
    if (t[i][O].i != last[k]) rank[k] = pos[k], dense[k]++, last[k] = t[i][O].i;
    want[i] = {t[i][ID], Val(tot[k]), Val(cnt[k]), Val(pos[k]), Val(rank[k]), Val(dense[k])};
  }
  // peers share the counts of the last of them
  for (int64_t i = n - 1; i >= 0; --i)
    for (int64_t j = i + 1; j < n && j <= i + 3; ++j)
      if (t[j][K] == t[i][K] && t[j][O] == t[i][O]) {
        want[i][2] = want[j][2], want[i][3] = want[j][3];
        break;
      }
  if (got.size() != want.size()) c.fail("rows:" + what, mc::strf("%s: %zu rows", what.c_str(), got.size()));
  for (auto& r : got)
    if (r[0].null() || r[0].i >= n || !near(r, want[r[0].i])) c.fail("value:" + what, mc::strf("%s: row (id, count(v), running count(v), running count, rank, dense rank) is %s, expected %s", what.c_str(), str(r).c_str(), str(want[r[0].i]).c_str()));
}

// window functions as a part of larger queries
void s_shapes(mc::Ctx& c) {
  static const int fs[] = {ROWNUM, RANK, LAG1, SUM, COUNT, AVG, MAX, FIRST};
  int f = fs[c.choose(8, "function")];
  int shape = c.choose(7, "shape");
  int o = c.choose(2, "order"), data = c.choose(3, "data");
  int cf = c.choose(c.thorough() ? 4 : 2, "config");
  Rows t;
  int64_t n = data == 0 ? 6 : data == 1 ? 1 : 9;
  for (int64_t i = 0; i < n; ++i) t.push_back({i % 4 == 3 ? Val() : Val(i % 2), i % 5 == 4 ? Val() : Val((i * 7) % 5), Val(100 + i * 3), Val(i)});
  Win w{{K}, {{O, bool(o), false}, {ID, false, false}}};
  configure(cf);
  Tab tab({{"k", C().int32()}, {"o", C().int32()}, {"v", C().int64()}, {"id", nn(C().int32(), false)}}, t);
  auto b = g->builder();
  auto s = b.scan(tab.name);
  auto refs = [&](const Rows& rows) {
    std::vector<Val> r;
    for (size_t i = 0; i < rows.size(); ++i) r.push_back(right(rows, i, f, w, C().int64())[0]);
    return r;
  };
  static const char* names[] = {"filter before", "filter after", "aggregate after", "sort after", "window over aggregate", "join after", "window over projection"};
  std::string what = std::string(names[shape]) + ", " + kF[f] + w.str() + mc::strf(", data %d, ", data) + kConfig[cf];
  c.op("%s", what.c_str());
  c.state(what);
  Rows want;
  auto win = [&](const BuilderNode& x) { return make(x, f, w).rename("w"); };
  switch (shape) {
    case 0: {
      auto p = s.filter(s.ref("id").ne(2));
      Rows sub;
      for (auto& r : t) if (r[ID].i != 2) sub.push_back(r);
      auto w_ = refs(sub);
      for (size_t i = 0; i < sub.size(); ++i) want.push_back({sub[i][ID], w_[i]});
      sameRows(c, what, guarded(c, what, [&] { return g->run(p.proj(std::vector<BuilderExpr>{p.ref("id").rename("id"), win(p)})); }), want);
      break;
    }
    case 1: {
      auto p = s.proj(std::vector<BuilderExpr>{s.ref("id").rename("id"), win(s)});
      auto q = p.filter(p.ref("w").gt(1).logicalAnd(p.ref("id").ne(0)));
      auto w_ = refs(t);
      for (size_t i = 0; i < t.size(); ++i)
        if (!w_[i].null() && (w_[i].k == Val::Fp ? w_[i].d > 1 : w_[i].i > 1) && t[i][ID].i != 0) want.push_back({t[i][ID], w_[i]});
      sameRows(c, what, guarded(c, what, [&] { return g->run(q); }), want);
      break;
    }
    case 2: {
      auto p = s.proj(std::vector<BuilderExpr>{s.ref("k").rename("k"), win(s)});
      std::map<Val, std::vector<Val>> gr;
      auto w_ = refs(t);
      for (size_t i = 0; i < t.size(); ++i) gr[t[i][K]].push_back(w_[i]);
      for (auto& x : gr) {
        Val m;
        int64_t k = 0;
        for (auto& y : x.second) if (!y.null()) { ++k; if (m.null() || m < y) m = y; }
        want.push_back({x.first, Val(k), m});
      }
      sameRows(c, what, guarded(c, what, [&] { return g->run(p.agg(std::vector<BuilderExpr>{p.ref("k")}, {p.ref("w").count().rename("a"), p.ref("w").max().rename("b")})); }), want);
      break;
    }
    case 3: {
      auto p = s.proj(std::vector<BuilderExpr>{s.ref("id").rename("id"), win(s)});
      auto w_ = refs(t);
      for (int64_t i = n - 1; i >= 0 && i > n - 4; --i) want.push_back({t[i][ID], w_[i]});
      sameRows(c, what, guarded(c, what, [&] { return g->run(p.sort({{p.ref("id"), SortDirection::Descending}}, 3)); }), want, true);
      break;
    }
    case 4: {
      auto a = s.agg(std::vector<BuilderExpr>{s.ref("k"), s.ref("o")}, {s.ref("v").sum().rename("v"), s.ref("id").min().rename("id")});
      std::map<std::pair<Val, Val>, Row> gr;
      for (auto& r : t) {
        auto& x = gr[{r[K], r[O]}];
        if (x.empty()) x = r;
        else x[V].i += r[V].i;
      }
      Rows sub;
      for (auto& x : gr) sub.push_back(x.second);
      auto w_ = refs(sub);
      for (size_t i = 0; i < sub.size(); ++i) want.push_back({sub[i][ID], w_[i]});
      sameRows(c, what, guarded(c, what, [&] { return g->run(a.proj(std::vector<BuilderExpr>{a.ref("id").rename("id"), win(a)})); }), want);
      break;
    }
    case 5: {
      auto p = s.proj(std::vector<BuilderExpr>{s.ref("id").rename("id"), win(s)});
      auto r = b.scan(tab.name);
      auto j = p.join(r, p.ref("id").eq(r.ref("id")), "inner");
      auto w_ = refs(t);
      for (size_t i = 0; i < t.size(); ++i) want.push_back({t[i][ID], w_[i], t[i][V]});
      sameRows(c, what, guarded(c, what, [&] { return g->run(j.proj(std::vector<BuilderExpr>{j.ref(0).rename("a"), j.ref(1).rename("b"), j.ref(4).rename("c")})); }), want);
      break;
    }
    case 6: {
      auto p = s.proj(std::vector<BuilderExpr>{s.ref("k").mod(2).rename("k"), s.ref("o").add(1).rename("o"), s.ref("v").sub(100).rename("v"), s.ref("id").rename("id")});
      Rows sub = t;
      for (auto& r : sub) {
        if (!r[O].null()) r[O].i++;
        r[V].i -= 100;
      }
      auto w_ = refs(sub);
      for (size_t i = 0; i < sub.size(); ++i) want.push_back({sub[i][ID], w_[i]});
      sameRows(c, what, guarded(c, what, [&] { return g->run(p.proj(std::vector<BuilderExpr>{p.ref("id").rename("id"), win(p)})); }), want);
      break;
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.worker_init = [] { g = std::make_unique<Db>(); };
  o.rule = "18 window functions: every function over every type of argument and every form of window (no, one or two partition keys; no, one or two order keys, both directions and positions of nulls), every type of partition and order key, every table of up to three rows (thorough: four) of two keys with nulls, seven larger query shapes, and counts and ranks in tables of 126 to 65537 rows; four configurations. Each output row is compared with the definition over its partition";
  o.assumptions = {"tables of one fragment (the engine refuses others)", "Arrow is replaced by an empty stub: tables come from an in-memory data provider"};
  return mc::run(argc, argv, {{"win_funcs", s_funcs, 2, 120}, {"win_keys", s_keys, 2, 120}, {"win_tables", s_tables, 2, 120}, {"win_shapes", s_shapes, 2, 120}, {"win_long", s_long, 2, 120}}, o);
}
