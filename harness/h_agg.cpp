// Grouping and aggregation by the real engine over tables that hold every short sequence of values as
// a group, against reference aggregates.
#include "q_common.h"

using namespace q;
using hdk::ir::Interpolation;

namespace {
struct Group {
  Row key;
  Rows rows;  // (v, w)
};

// Aggregates of column v of domain d; sets are queried together.
std::vector<std::vector<Agg>> aggSets(const Dom& d) {
  auto t = d.t;
  auto vals = [](const Rows& rs) {
    std::vector<Val> r;
    for (auto& x : rs)
      if (!x[0].null()) r.push_back(x[0]);
    return r;
  };
  auto sortedVals = [=](const Rows& rs) {
    auto v = vals(rs);
    std::sort(v.begin(), v.end());
    return v;
  };
  Agg cstar{"count(*)", [](const BuilderNode& s) { return s.count(); }, [](const Rows& r) { return Val((int64_t)r.size()); }};
  Agg cnt{"count(v)", [](const BuilderNode& s) { return s.count("v"); }, [=](const Rows& r) { return Val((int64_t)vals(r).size()); }};
  Agg dist{"count(distinct v)", [](const BuilderNode& s) { return s.count("v", true); }, [=](const Rows& r) {
             auto v = vals(r);
             std::set<Val> q(v.begin(), v.end());
             return Val((int64_t)q.size());
           }};
  Agg adist{"approx_count_dist(v)", [](const BuilderNode& s) { return s.ref("v").approxCountDist(); }, dist.ref};
  Agg mn{"min(v)", [](const BuilderNode& s) { return s.ref("v").min(); }, [=](const Rows& r) {
           auto v = sortedVals(r);
           return v.empty() ? Val() : v.front();
         }};
  Agg mx{"max(v)", [](const BuilderNode& s) { return s.ref("v").max(); }, [=](const Rows& r) {
           auto v = sortedVals(r);
           return v.empty() ? Val() : v.back();
         }};
  Agg sum{"sum(v)", [](const BuilderNode& s) { return s.ref("v").sum(); }, [=](const Rows& r) {
            auto v = vals(r);
            if (v.empty()) return Val();
            if (t->isFloatingPoint()) {
              double q = 0;
              for (auto& x : v) q += x.d;
              return Val(q);
            }
            int64_t q = 0;
            for (auto& x : v) q += x.i;
            return Val(q);
          }};
  Agg avg{"avg(v)", [](const BuilderNode& s) { return s.ref("v").avg(); }, [=](const Rows& r) {
            auto v = vals(r);
            if (v.empty()) return Val();
            if (t->isFloatingPoint()) {
              double q = 0;
              for (auto& x : v) q += x.d;
              return Val(q / v.size());
            }
            long double q = 0;  // 64 bits of precision: the exact sum
            for (auto& x : v) q += x.i;
            return Val((double)(q / v.size() / std::pow(10.0, scaleOf(t))));
          }};
  Agg sample{"sample(v)", [](const BuilderNode& s) { return s.ref("v").sample(); }, {}, [=](const Rows& r, const Val& x) {
               auto v = vals(r);
               if (v.empty()) return x.null();
               for (auto& y : r)
                 if (near(x, y[0])) return true;
               return false;
             }};
  Agg sd{"stddev(v)", [](const BuilderNode& s) { return s.ref("v").stdDev(); }, [=](const Rows& r) {
           auto v = vals(r);
           if (v.size() < 2) return Val();
           long double m = 0, q = 0;
           for (auto& x : v) m += num(x, t);
           m /= v.size();
           for (auto& x : v) q += (num(x, t) - m) * (num(x, t) - m);
           return Val((double)std::sqrt(q / (v.size() - 1)));
         }};
  auto top = [=](int k) {
    return Agg{mc::strf("topK(v,%d)", k), [k](const BuilderNode& s) { return s.ref("v").topK(k); }, [=](const Rows& r) {
                 auto v = sortedVals(r);
                 if (k > 0) std::reverse(v.begin(), v.end());
                 std::string s;
                 for (int i = 0; i < std::abs(k) && i < (int)v.size(); ++i) s += (i ? "," : "") + v[i].str();
                 return Val("[" + s + "]");
               }};
  };
  auto quant = [=](double p, Interpolation in, const char* nm) {
    return Agg{mc::strf("quantile(v,%g,%s)", p, nm), [=](const BuilderNode& s) { return s.ref("v").quantile(p, in); }, [=](const Rows& r) {
                 auto v = sortedVals(r);
                 if (v.empty()) return Val();
                 double pos = (v.size() - 1) * p;
                 size_t lo = std::floor(pos), hi = std::ceil(pos);
                 switch (in) {
                   case Interpolation::kLower: return v[lo];
                   case Interpolation::kHigher: return v[hi];
                   case Interpolation::kNearest: return v[(size_t)std::round(pos)];
                   default: break;
                 }
                 double f = in == Interpolation::kMidpoint ? 0.5 : pos - lo;
                 if (lo == hi) f = 0;
                 double a = v[lo].k == Val::Fp ? v[lo].d : (double)v[lo].i, b = v[hi].k == Val::Fp ? v[hi].d : (double)v[hi].i;
                 double x = a + (b - a) * f;
                 if (t->isInteger() || t->isFloatingPoint()) return Val(x);
                 return Val((int64_t)x);  // decimals and times: whole units
               }};
  };
  std::vector<std::vector<Agg>> sets;
  bool date = t->isDateTime();
  // An exact distinct count over integers takes one bit per value between the least and the greatest.
  bool wide = !d.v.empty() && d.v[0].k == Val::Int && d.v.back().i - d.v.front().i > 1000000;
  if (d.num) {
    sets.push_back({cstar, cnt, sum, mn, mx, avg});
    sets.push_back({avg});
    sets.push_back({mx, cnt, sd});
    sets.push_back({top(2), top(-2), top(1), sum});
    sets.push_back({quant(0, Interpolation::kLower, "lower"), quant(0.5, Interpolation::kHigher, "higher"), quant(1, Interpolation::kNearest, "nearest"), cnt});
    sets.push_back({quant(0.5, Interpolation::kMidpoint, "midpoint"), quant(0.25, Interpolation::kLinear, "linear"), quant(0.75, Interpolation::kLinear, "linear")});
    sets.push_back(wide ? std::vector<Agg>{sum, adist} : std::vector<Agg>{sum, dist, adist});
    sets.push_back({sample, sum});
    sets.push_back({mn});
  } else if (date) {
    sets.push_back({mn, mx, cnt, cstar});
    sets.push_back({top(2), top(-1)});
    sets.push_back({quant(0.3, Interpolation::kLower, "lower"), quant(0.5, Interpolation::kNearest, "nearest")});
    sets.push_back(wide ? std::vector<Agg>{adist, sample} : std::vector<Agg>{dist, sample});
  } else {
    sets.push_back({cstar, cnt, dist});
    sets.push_back({sample, adist});
  }
  return sets;
}

// All sequences over the domain (with null) of length 1..len
std::vector<Rows> sequences(const Dom& d, bool nullable, int len) {
  std::vector<Val> dom = d.v;
  if (nullable) dom.insert(dom.begin(), Val());
  std::vector<Rows> all, cur{{}};
  for (int l = 1; l <= len; ++l) {
    std::vector<Rows> next;
    for (auto& s : cur)
      for (auto& v : dom) {
        auto x = s;
        x.push_back({v});
        next.push_back(x);
      }
    cur = next;
    all.insert(all.end(), cur.begin(), cur.end());
  }
  return all;
}

// Key layouts: how the group number becomes key columns.
struct Keys {
  const char* name;
  std::vector<const Type*> types;
  std::function<Row(int)> key;  // group 0 may be null
};
std::vector<Keys> keyLayouts() {
  auto& c = C();
  auto days = c.date64(hdk::ir::TimeUnit::kSecond);
  return {
      {"small int", {c.int32()}, [](int i) { return i ? Row{Val(i - 40)} : Row{Val()}; }},
      {"small int, not null", {c.int16(false)}, [](int i) { return Row{Val(i + 1000)}; }},
      {"sparse bigint", {c.int64()}, [](int i) { return i ? Row{Val((int64_t)i * 100000000000000000 % 8999999999999999999 - 3)} : Row{Val()}; }},
      {"two small", {c.int8(), days}, [](int i) { return Row{i % 11 ? Val(i % 11 - 5) : Val(), i / 11 ? Val(86400LL * (i / 11)) : Val()}; }},
      {"two sparse", {c.int64(), c.int32()}, [](int i) { return Row{i % 11 ? Val((int64_t)(i % 11) * 100000000000000000) : Val(), i / 11 ? Val(i / 11 * 10000000) : Val()}; }},
      {"text", {dict(2)}, [](int i) { return i ? Row{Val("k" + std::to_string(i))} : Row{Val()}; }},
      {"text8 and bool", {dict(3, 1), c.boolean()}, [](int i) { return Row{i / 3 ? Val("k" + std::to_string(i / 3)) : Val(), i % 3 ? Val(i % 3 - 1) : Val()}; }},
      {"double", {c.fp64()}, [](int i) { return i ? Row{Val(i * 0.5 - 10)} : Row{Val()}; }},
      {"three", {c.int16(), c.decimal64(10, 2), c.timestamp(hdk::ir::TimeUnit::kSecond)}, [](int i) { return Row{Val(i % 5), i % 7 ? Val(i % 7 * 25) : Val(), i / 35 ? Val(i / 35 * 1000) : Val()}; }},
      {"float", {c.fp32(), c.int8(false)}, [](int i) { return Row{i / 4 ? Val(i / 4 * 0.25) : Val(), Val(i % 4)}; }},
  };
}

// rows of all groups, in one of several orders, and the fragment sizes
Rows arrange(const std::vector<Group>& gs, int order, std::vector<size_t>& frags) {
  Rows rows;
  auto put = [&](const Group& gr, size_t i) {
    Row r = gr.key;
    r.insert(r.end(), gr.rows[i].begin(), gr.rows[i].end());
    rows.push_back(r);
  };
  if (order == 0 || order == 3) {  // group after group
    for (auto& gr : gs)
      for (size_t i = 0; i < gr.rows.size(); ++i) put(gr, i);
    if (order == 0) frags = {rows.size()};
    else
      for (size_t i = 0; i < rows.size(); i += 32) frags.push_back(std::min<size_t>(32, rows.size() - i));
  } else {  // first rows of all groups, then second rows...
    size_t n = 0;
    for (size_t i = 0;; ++i) {
      size_t before = rows.size();
      for (size_t k = 0; k < gs.size(); ++k) {
        auto& gr = order == 2 ? gs[gs.size() - 1 - k] : gs[k];
        if (i < gr.rows.size()) put(gr, i);
      }
      if (rows.size() == before) break;
      frags.push_back(rows.size() - before);
      ++n;
    }
  }
  return rows;
}

void checkGroups(mc::Ctx& c, const std::string& what, const Rows& got, const std::vector<Group>& gs, const std::vector<Agg>& aggs, size_t nk) {
  std::vector<std::pair<Row, const Group*>> index;
  for (auto& gr : gs) index.push_back({gr.key, &gr});
  std::sort(index.begin(), index.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<bool> seen(index.size());
  for (auto& r : got) {
    Row key(r.begin(), r.begin() + nk);
    auto it = std::lower_bound(index.begin(), index.end(), key, [](auto& a, const Row& k) { return a.first < k; });
    if (it == index.end() || !near(it->first, key)) c.fail("key:" + what, mc::strf("%s: unknown group %s", what.c_str(), str(key).c_str()));
    size_t i = it - index.begin();
    if (seen[i]) c.fail("twice:" + what, mc::strf("%s: group %s comes twice", what.c_str(), str(key).c_str()));
    seen[i] = true;
    for (size_t a = 0; a < aggs.size(); ++a) {
      auto& x = r[nk + a];
      bool ok = aggs[a].ok ? aggs[a].ok(it->second->rows, x) : near(x, aggs[a].ref(it->second->rows));
      if (!ok)
        c.fail("value:" + aggs[a].name + " " + what,
               mc::strf("%s: %s of group %s with values %s is %s instead of %s", what.c_str(), aggs[a].name.c_str(), str(key).c_str(), str(it->second->rows).c_str(), x.str().c_str(), aggs[a].ref ? aggs[a].ref(it->second->rows).str().c_str() : "one of them"));
    }
  }
  for (size_t i = 0; i < seen.size(); ++i)
    if (!seen[i]) c.fail("lost:" + what, mc::strf("%s: group %s is missing (%zu of %zu groups)", what.c_str(), str(index[i].first).c_str(), got.size(), gs.size()));
}

std::vector<Col> columns(const std::vector<const Type*>& keys, const Type* v) {
  std::vector<Col> cols;
  for (size_t i = 0; i < keys.size(); ++i) cols.push_back({"k" + std::to_string(i), keys[i]});
  cols.push_back({"v", v});
  return cols;
}

// every aggregate, every value type, every key layout
void s_groups(mc::Ctx& c) {
  static const auto D = doms();
  static const auto L = keyLayouts();
  size_t x = c.choose(D.size(), "value type");
  auto sets = aggSets(D[x]);
  size_t k = c.choose(sets.size(), "aggregates");
  size_t l = c.choose(L.size(), "keys");
  bool nul, col;
  int order;
  if (c.thorough()) {
    nul = c.flip("nullable");
    order = c.choose(4, "order");
    col = c.flip("columnar");
  } else {
    size_t h = x * 7 + k * 5 + l * 3;
    int two = c.choose(2, "variant");
    nul = (h + two) % 2;
    col = (h / 2 + two) % 2;
    order = two ? 1 + h % 3 : (h / 3) % 2 * 3;
  }
  g->config->rs.enable_columnar_output = col;
  std::vector<Group> gs;
  int n = 0;
  for (auto& s : sequences(D[x], nul, 3)) gs.push_back({L[l].key(n++), s});
  std::vector<size_t> frags;
  auto rows = arrange(gs, order, frags);
  Tab t(columns(L[l].types, nn(D[x].t, nul)), rows, frags);
  auto b = g->builder();
  auto s = b.scan(t.name);
  std::vector<BuilderExpr> keys, aggs;
  for (size_t i = 0; i < L[l].types.size(); ++i) keys.push_back(s.ref((int)i));
  std::string what = D[x].name + (nul ? "" : " not null") + " by " + L[l].name + ":";
  for (auto& a : sets[k]) {
    aggs.push_back(a.make(s).rename("r" + std::to_string(aggs.size())));
    what += " " + a.name;
  }
  what += mc::strf("%s", col ? ", columnar" : "");
  c.op("%s, %zu groups, %zu rows, %zu fragments", what.c_str(), gs.size(), rows.size(), frags.size());
  auto got = guarded(c, what, [&] { return g->run(s.agg(keys, aggs)); });
  for (auto& gr : gs) c.state(what + str(gr.rows) + std::to_string(order));
  checkGroups(c, what, got, gs, sets[k], L[l].types.size());
}

// no keys: one row, whatever the input
void s_global(mc::Ctx& c) {
  static const auto D = doms();
  size_t x = c.choose(D.size(), "value type");
  auto sets = aggSets(D[x]);
  size_t k = c.choose(sets.size(), "aggregates");
  bool nul = c.thorough() ? c.flip("nullable") : (x + k) % 2;
  bool filtered = c.flip("filter");
  auto seqs = sequences(D[x], nul, 2);
  seqs.push_back({});  // nothing
  g->config->rs.enable_columnar_output = (x + k + filtered) % 2;
  for (size_t i = 0; i < seqs.size(); ++i) {
    if (!c.thorough() && i + 1 < seqs.size() && (i + x + k + filtered) % 3) continue;
    auto& sq = seqs[i];
    if (sq.empty() && !filtered) continue;
    Rows rows;
    std::vector<size_t> frags;
    for (auto& r : sq) {
      rows.push_back({Val(1), r[0]});
      if (filtered) rows.push_back({Val(0), D[x].v.back()});
      if (filtered) rows.push_back({Val(), D[x].v.front()});
      frags.push_back(filtered ? 3 : 1);
    }
    if (sq.empty()) {
      rows = {{Val(0), D[x].v[0]}};
      frags = {1};
    }
    Tab t(columns({C().int32()}, nn(D[x].t, nul)), rows, frags);
    auto b = g->builder();
    auto s = b.scan(t.name);
    auto in = filtered ? s.filter(s.ref("k0").eq(1)) : s;
    std::vector<BuilderExpr> aggs;
    std::string what = D[x].name + (nul ? "" : " not null") + " global" + (filtered ? " filtered" : "") + ":";
    for (auto& a : sets[k]) {
      aggs.push_back(a.make(in).rename("r" + std::to_string(aggs.size())));
      what += " " + a.name;
    }
    c.op("%s over %s", what.c_str(), str(sq).c_str());
    c.state(what + str(sq));
    auto got = guarded(c, what, [&] { return g->run(in.agg(std::vector<BuilderExpr>{}, aggs)); });
    if (got.size() != 1) c.fail("global-rows:" + what, mc::strf("%s over %s gives %zu rows", what.c_str(), str(sq).c_str(), got.size()));
    checkGroups(c, what + (sq.empty() ? " over nothing" : ""), got, {{Row{}, sq}}, sets[k], 0);
  }
}

// every pair of key types, extreme keys, exactly one group per distinct key
void s_keys(mc::Ctx& c) {
  static const auto D = doms();
  size_t x = c.choose(D.size(), "first key"), y = c.choose(D.size() + 1, "second key");
  int nul = c.thorough() ? c.choose(4, "nullability") : (x + y) % 4;
  bool col = c.thorough() ? c.flip("columnar") : (x / 2 + y) % 2;
  g->config->rs.enable_columnar_output = col;
  bool one = y == D.size();
  std::vector<Val> a = D[x].v, b{Val(1)};
  if (!one) b = D[y].v;
  if (!(nul & 1)) a.push_back(Val());
  if (!one && !(nul & 2)) b.push_back(Val());
  std::vector<Group> gs;
  int n = 1;
  for (auto& p : a)
    for (auto& r : b) {
      Group gr;
      gr.key = one ? Row{p} : Row{p, r};
      for (int i = 0; i < n % 3 + 1; ++i) gr.rows.push_back({Val(n * 10 + i)});
      ++n;
      gs.push_back(gr);
    }
  std::vector<const Type*> kt{nn(D[x].t, !(nul & 1))};
  if (!one) kt.push_back(nn(D[y].t, !(nul & 2)));
  std::vector<size_t> frags;
  auto rows = arrange(gs, 1 + (x + y) % 3, frags);
  Tab t(columns(kt, C().int32()), rows, frags);
  auto bl = g->builder();
  auto s = bl.scan(t.name);
  auto d32 = Dom{"i32", C().int32(), iv({1}), true};
  std::vector<Agg> aggs = aggSets(d32)[0];
  std::vector<BuilderExpr> keys, ex;
  for (size_t i = 0; i < kt.size(); ++i) keys.push_back(s.ref((int)i));
  for (auto& q : aggs) ex.push_back(q.make(s).rename("r" + std::to_string(ex.size())));
  std::string what = "group by " + D[x].name + (one ? "" : ", " + D[y].name) + mc::strf(" nulls %d%s", nul, col ? " columnar" : "");
  c.op("%s, %zu groups", what.c_str(), gs.size());
  for (auto& gr : gs) c.state(what + str(gr.key));
  auto got = guarded(c, what, [&] { return g->run(s.agg(keys, ex)); });
  checkGroups(c, what, got, gs, aggs, kt.size());
  // keys only: distinct
  auto got2 = guarded(c, what + " distinct", [&] { return g->run(s.agg(keys, std::vector<BuilderExpr>{})); });
  checkGroups(c, what + " distinct", got2, gs, {}, kt.size());
  // a condition on the groups, and aggregates of aggregates
  std::vector<Group> big;
  for (auto& gr : gs)
    if (gr.rows.size() > 1) big.push_back(gr);
  auto got3 = guarded(c, what + " having", [&] {
    auto ag = s.agg(keys, ex);
    return g->run(ag.filter(ag.ref("r0").gt(1)));
  });
  checkGroups(c, what + " having", got3, big, aggs, kt.size());
  auto got4 = guarded(c, what + " twice", [&] {
    auto ag = s.agg(keys, ex);
    return g->run(ag.agg(std::vector<BuilderExpr>{}, {ag.ref("r0").sum().rename("x"), ag.ref("r2").max().rename("y"), ag.count().rename("z")}));
  });
  int64_t tot = 0, mx = 0;
  for (auto& gr : gs) {
    int64_t sm = 0;
    for (auto& r : gr.rows) sm += r[0].i;
    tot += gr.rows.size();
    mx = std::max(mx, sm);
  }
  sameRows(c, what + " twice", got4, {{Val(tot), Val(mx), Val((int64_t)gs.size())}});
}
}  // namespace

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.worker_init = [] { g = std::make_unique<Db>(); };
  o.rule = "groups holding every sequence of up to three values (nulls and extremes included) of every type, aggregated with every aggregate under ten key layouts, several row orders and fragmentations, row-wise and columnar; "
           "every pair of key types with extreme keys; aggregates without keys over every short input, also empty";
  o.assumptions = {"Arrow is replaced by an empty stub: tables come from an in-memory data provider", "sums stay within 64 bits"};
  return mc::run(argc, argv, {{"agg_groups", s_groups, 3, 120}, {"agg_global", s_global, 3, 120}, {"agg_keys", s_keys, 2, 120}}, o);
}
