// Exhaustive operation sequences on real string dictionaries against a list-of-strings model.
#include "StringDictionary/StringDictionary.h"

#include <tbb/global_control.h>

#include <boost/regex.hpp>
#include <set>

#include "Shared/InlineNullValues.h"
#include "Shared/thread_count.h"
#include "hutil.h"

#include <unordered_map>

extern bool g_enable_stringdict_parallel;

// The dictionary grows its storage 1024 pages at a time; a tiny page brings growth within reach.
extern "C" int getpagesize() noexcept {
  return 1;
}

using mc::Ctx;
using mc::strf;
using Dict = StringDictionary;
using DictPtr = std::shared_ptr<Dict>;
using hu::join;
using hu::sorted;

namespace {

// "4ru9qy"/"ec4rao" have equal 32-bit hashes under the dictionary's hash function.
const std::vector<std::string> kAlpha = {"a", "b", "", "4ru9qy", "ec4rao", "ab", "B", "\xc3\xa9"};
constexpr int32_t kNull = std::numeric_limits<int32_t>::min();

// A stack of dictionaries: level 0 owns its strings, level k is built over level k-1 at a generation.
struct Level {
  DictPtr d;
  std::vector<std::string> own;
  int64_t base_gen = 0;
};
struct Stack {
  std::vector<Level> lv;
  // All strings visible at level k, by id.
  std::vector<std::string> all(size_t k) const {
    if (k == 0) return lv[0].own;
    auto base = all(k - 1);
    base.resize(lv[k].base_gen);
    base.insert(base.end(), lv[k].own.begin(), lv[k].own.end());
    return base;
  }
  int32_t find(size_t k, const std::string& s, int64_t gen = -1) const {
    if (k > 0) {
      auto id = find(k - 1, s, gen < 0 ? lv[k].base_gen : std::min(gen, lv[k].base_gen));
      if (id >= 0) return id;
    }
    auto& v = lv[k].own;
    for (size_t i = 0; i < v.size() && (gen < 0 || lv[k].base_gen + (int64_t)i < gen); ++i) {
      if (v[i] == s) return lv[k].base_gen + i;
    }
    return Dict::INVALID_STR_ID;
  }
  int32_t add(size_t k, const std::string& s) {
    if (s.empty()) return kNull;
    auto id = find(k, s);
    if (id >= 0) return id;
    lv[k].own.push_back(s);
    return lv[k].base_gen + lv[k].own.size() - 1;
  }
};

struct Cfg {
  bool hashes;
  bool parallel;
  size_t cap;
};

Level makeBase(const Cfg& c) {
  Level l;
  l.d = std::make_shared<Dict>(DictRef{1, 7}, c.hashes, c.cap);
  return l;
}
Level makeNested(const DictPtr& base, int64_t gen, size_t base_count, const Cfg& c) {
  Level l;
  l.d = std::make_shared<Dict>(base, gen, c.hashes, c.cap);
  l.base_gen = gen >= 0 ? gen : base_count;
  return l;
}

struct Collect : Dict::StringCallback {
  std::vector<std::pair<int32_t, std::string>> got;
  void operator()(std::string const& s, int32_t id) override { got.emplace_back(id, s); }
  void operator()(std::string_view s, int32_t id) override { got.emplace_back(id, std::string(s)); }
};

// Every read access of every level agrees with the model.
void audit(Ctx& c, const Stack& st, bool deep) {
  uint64_t h = 17;
  for (size_t k = 0; k < st.lv.size(); ++k) {
    auto& d = *st.lv[k].d;
    auto all = st.all(k);
    h = mc::mix(h, 1000 + st.lv[k].base_gen);
    for (auto& s : all) h = mc::mix(h, std::hash<std::string>()(s));
    c.check(d.entryCount() == all.size(), "entry-count",
            strf("level %zu: entryCount %zu, expected %zu", k, d.entryCount(), all.size()));
    c.check(d.storageEntryCount() == st.lv[k].own.size(), "own-count", strf("level %zu own count", k));
    for (size_t id = 0; id < all.size(); ++id) {
      auto s = d.getString(id);
      c.check(s == all[id], "id-to-string",
              strf("level %zu: id %zu decodes to '%s', expected '%s'", k, id, s.c_str(), all[id].c_str()));
      auto b = d.getStringBytes(id);
      c.check(std::string(b.first, b.second) == all[id], "id-to-bytes", strf("level %zu id %zu", k, id));
      auto back = d.getIdOfString(all[id]);
      c.check(back == (int32_t)id, "string-to-id",
              strf("level %zu: '%s' has id %d, expected %zu", k, all[id].c_str(), back, id));
    }
    c.check(d.getString(kNull).empty(), "null-decode", "the null id decodes to the empty string");
    for (auto& s : kAlpha) {
      if (s.empty()) continue;
      auto id = d.getIdOfString(s);
      c.check(id == st.find(k, s), "lookup",
              strf("level %zu: lookup '%s' gives %d, expected %d", k, s.c_str(), id, st.find(k, s)));
    }
    // bulk lookup at every generation
    for (int64_t gen = -1; gen <= (int64_t)all.size(); ++gen) {
      if (!deep && gen > 0 && gen < (int64_t)all.size() - 1) continue;
      std::vector<int32_t> ids(kAlpha.size(), 12345);
      auto missing = d.getBulk(kAlpha, ids.data(), gen);
      size_t want_missing = 0;
      for (size_t i = 0; i < kAlpha.size(); ++i) {
        auto want = kAlpha[i].empty() ? kNull : st.find(k, kAlpha[i], gen);
        if (want == Dict::INVALID_STR_ID) ++want_missing;
        c.check(ids[i] == want, "bulk-lookup",
                strf("level %zu gen %ld: bulk lookup of '%s' gives %d, expected %d", k, (long)gen,
                     kAlpha[i].c_str(), ids[i], want));
      }
      c.check(missing == want_missing, "bulk-missing-count",
              strf("level %zu gen %ld: %zu missing reported, expected %zu", k, (long)gen, missing, want_missing));
    }
    if (deep) {
      for (int64_t gen = -1; gen <= (int64_t)all.size(); ++gen) {
        auto got = d.copyStrings(gen);
        auto want = all;
        if (gen >= 0) want.resize(gen);
        c.check(got == want, "copy-strings", strf("level %zu gen %ld: %s, expected %s", k, (long)gen,
                                                  join(got).c_str(), join(want).c_str()));
        Collect cb;
        d.eachStringSerially(gen, cb);
        c.check(cb.got.size() == want.size(), "each-string", strf("level %zu gen %ld: %zu strings visited", k,
                                                                  (long)gen, cb.got.size()));
        for (size_t i = 0; i < cb.got.size(); ++i) {
          c.check(cb.got[i].first == (int32_t)i && cb.got[i].second == want[i], "each-string",
                  strf("level %zu gen %ld: visit %zu", k, (long)gen, i));
        }
      }
    }
  }
  c.state(h);
}

void bulkAdd(Ctx& c, Stack& st, size_t k, const std::vector<std::string>& in, bool views) {
  c.op("bulk_add L%zu %s%s", k, join(in).c_str(), views ? " (views)" : "");
  std::vector<int32_t> ids(in.size(), 4242), want;
  if (views) {
    std::vector<std::string_view> v(in.begin(), in.end());
    st.lv[k].d->getOrAddBulk(v, ids.data());
  } else {
    st.lv[k].d->getOrAddBulk(in, ids.data());
  }
  for (auto& s : in) want.push_back(st.add(k, s));
  c.check(ids == want, "bulk-add-ids",
          strf("bulk add of %s returned %s, expected %s", join(in).c_str(), join(ids).c_str(), join(want).c_str()));
}

const std::vector<std::vector<std::string>>& bulks() {
  static const std::vector<std::vector<std::string>> b = {
      {"a"},      {"b", "a"},          {"a", "a", "b"}, {"", "b", ""},       {"4ru9qy", "ec4rao"},
      {"ec4rao", "4ru9qy", "ec4rao", "a"}, {"ab", "B", "a", "b", "ab", "4ru9qy"},  {},
  };
  return b;
}

Cfg chooseCfg(Ctx& c) {
  Cfg cfg;
  size_t x = c.choose(6, "config");
  cfg.hashes = x & 1;
  cfg.parallel = (x >> 1) == 1;
  cfg.cap = (x >> 1) == 2 ? 64 : 2;
  g_enable_stringdict_parallel = cfg.parallel;
  return cfg;
}

std::vector<std::string> numbered(size_t n, const char* prefix, size_t len) {
  std::vector<std::string> r;
  for (size_t i = 0; i < n; ++i) {
    auto s = prefix + std::to_string(i);
    while (s.size() < len) s += 'z';
    r.push_back(s);
  }
  return r;
}

// ---- C01: ids ---------------------------------------------------------------------------------
void idsFlat(Ctx& c) {
  auto cfg = chooseCfg(c);
  Stack st;
  st.lv.push_back(makeBase(cfg));
  size_t depth = c.thorough() ? 4 : 3;
  audit(c, st, true);
  for (size_t i = 0; i < depth; ++i) {
    size_t o = c.choose(kAlpha.size() + bulks().size(), "op");
    if (o < kAlpha.size()) {
      c.op("add '%s'", kAlpha[o].c_str());
      auto id = st.lv[0].d->getOrAdd(kAlpha[o]);
      auto want = st.add(0, kAlpha[o]);
      c.check(id == want, "add-id", strf("add '%s' returned %d, expected %d", kAlpha[o].c_str(), id, want));
    } else {
      bulkAdd(c, st, 0, bulks()[o - kAlpha.size()], (i & 1));
    }
    audit(c, st, i + 1 == depth || (i & 1));
  }
}

void idsNested(Ctx& c) {
  auto cfg = chooseCfg(c);
  Stack st;
  st.lv.push_back(makeBase(cfg));
  // base content, then where the nested dictionary starts, then optionally a third level
  static const std::vector<std::vector<std::string>> bases = {{}, {"a"}, {"b", "a", "ec4rao"}};
  auto& b = bases[c.choose(bases.size(), "base")];
  bulkAdd(c, st, 0, b, false);
  size_t ngen = b.size() + 2;
  int64_t gen = (int64_t)c.choose(ngen, "generation") - 1;
  st.lv.push_back(makeNested(st.lv[0].d, gen, b.size(), cfg));
  bool three = c.choose(2, "levels");
  if (three) {
    st.lv[1].d->getOrAdd("ab");
    st.add(1, "ab");
    st.lv.push_back(makeNested(st.lv[1].d, -1, st.all(1).size(), cfg));
  }
  audit(c, st, true);
  size_t depth = c.thorough() ? 3 : 2;
  static const std::vector<size_t> nb = {1, 2, 3, 5, 6};
  static const std::vector<size_t> na = {0, 1, 2, 3, 4};
  for (size_t i = 0; i < depth; ++i) {
    size_t o = c.choose(na.size() + nb.size(), "op");
    size_t level = c.choose(st.lv.size(), "level");
    if (o < na.size()) {
      auto& s = kAlpha[na[o]];
      c.op("add L%zu '%s'", level, s.c_str());
      auto id = st.lv[level].d->getOrAdd(s);
      auto want = st.add(level, s);
      c.check(id == want, "add-id", strf("add '%s' at level %zu returned %d, expected %d", s.c_str(), level, id, want));
    } else {
      bulkAdd(c, st, level, bulks()[nb[o - na.size()]], false);
    }
    audit(c, st, true);
  }
}

// Growth of hash table, offset and payload storage, in every order of chunk shapes.
void idsGrowth(Ctx& c) {
  auto cfg = chooseCfg(c);
  Stack st;
  st.lv.push_back(makeBase(cfg));
  if (c.choose(2, "nested")) {
    bulkAdd(c, st, 0, {"q0", "q1", "q2"}, false);
    st.lv.push_back(makeNested(st.lv[0].d, 2, 3, cfg));
  }
  size_t k = st.lv.size() - 1;
  size_t depth = c.thorough() ? 3 : 2;
  for (size_t i = 0; i < depth; ++i) {
    std::vector<std::string> in;
    switch (c.choose(7, "chunk")) {
      case 0: in = numbered(1, "p", 4); break;
      case 1: in = numbered(64, "p", 4); break;
      case 2: in = numbered(127, "q", 8); break;
      case 3: in = numbered(300, "r", 4); break;
      case 4: in = numbered(2, "s", 1024); break;
      case 5: in = numbered(3, "t", 341); break;
      case 6: in = {std::string(Dict::MAX_STRLEN, 'm')}; break;
    }
    // repeat members: first input again at the end, and a null in the middle
    in.push_back(in[0]);
    in.insert(in.begin() + in.size() / 3, "");
    if (c.choose(2, "how") == 0) {
      bulkAdd(c, st, k, in, i & 1);
    } else {
      c.op("add %zu strings one by one", in.size());
      for (auto& s : in) {
        auto id = st.lv[k].d->getOrAdd(s);
        auto want = st.add(k, s);
        c.check(id == want, "add-id", strf("add returned %d, expected %d", id, want));
      }
    }
    audit(c, st, false);
  }
}

// Narrow encodings: a bulk add into 8 or 16 bits either returns ids that decode to the strings or
// throws, and a throw leaves the dictionary usable and consistent.
template <class T>
void narrow(Ctx& c, Stack& st, size_t k, const std::vector<std::string>& in) {
  c.op("bulk_add<%zu bits> L%zu %zu strings", sizeof(T) * 8, k, in.size());
  std::vector<T> ids(in.size(), 3);
  bool threw = false;
  try {
    st.lv[k].d->getOrAddBulk(in, ids.data());
  } catch (const std::runtime_error&) {
    threw = true;
  }
  auto& d = *st.lv[k].d;
  if (!threw) {
    for (size_t i = 0; i < in.size(); ++i) {
      auto want = st.add(k, in[i]);
      if (in[i].empty()) {
        c.check(ids[i] == inline_int_null_value<T>(), "narrow-null", "empty string is the null id");
      } else {
        c.check((int64_t)ids[i] == want, "narrow-id",
                strf("%zu-bit id of '%s' is %ld, expected %d", sizeof(T) * 8, in[i].substr(0, 20).c_str(),
                     (long)ids[i], want));
      }
    }
  } else {
    // some prefix of the new strings may have been added, in order
    size_t n = d.entryCount(), have = st.all(k).size();
    c.check(n >= have, "narrow-shrunk", "entries lost after a rejected bulk add");
    for (auto& s : in) {
      if (st.all(k).size() >= n) break;
      st.add(k, s);
    }
    c.check(st.all(k).size() == n, "narrow-throw-count", "entry count after a rejected bulk add");
    // the limit was really reached
    auto copy = st;
    for (auto& s : in) copy.add(k, s);
    bool over = false;
    for (auto& s : in) {
      if (!s.empty() && copy.find(k, s) > max_valid_int_value<T>()) over = true;
    }
    c.check(over, "narrow-spurious-throw", "bulk add rejected although every id fits");
  }
}

void idsNarrow(Ctx& c) {
  auto cfg = chooseCfg(c);
  Stack st;
  st.lv.push_back(makeBase(cfg));
  if (c.choose(2, "nested")) {
    bulkAdd(c, st, 0, numbered(c.choose(2, "basesize") ? 250 : 3, "q", 2), false);
    st.lv.push_back(makeNested(st.lv[0].d, -1, st.all(0).size(), cfg));
  }
  size_t k = st.lv.size() - 1;
  size_t depth = c.thorough() ? 3 : 2;
  for (size_t i = 0; i < depth; ++i) {
    std::vector<std::string> in;
    switch (c.choose(6, "chunk")) {
      case 0: in = {"a", "", "b", "a"}; break;
      case 1: in = numbered(254, "p", 2); break;
      case 2: in = numbered(255, "p", 2); break;
      case 3: in = numbered(256, "p", 2); break;
      case 4: in = numbered(300, "r", 2); break;
      case 5: in = {"zz", "q1", "", "q0", "ec4rao", "4ru9qy"}; break;
    }
    switch (c.choose(3, "width")) {
      case 0: narrow<uint8_t>(c, st, k, in); break;
      case 1: narrow<uint16_t>(c, st, k, in); break;
      case 2: bulkAdd(c, st, k, in, false); break;
    }
    audit(c, st, false);
    // searching after a rejected add sees the same strings
    auto all = st.all(k);
    auto got = sorted(st.lv[k].d->getCompare("b", "="));
    std::vector<int32_t> want;
    for (size_t j = 0; j < all.size(); ++j) if (all[j] == "b") want.push_back(j);
    c.check(got == want, "narrow-search", "equality search after bulk add");
    got = sorted(st.lv[k].d->getCompare("b", "<"));
    want.clear();
    for (size_t j = 0; j < all.size(); ++j) if (all[j] < "b") want.push_back(j);
    c.check(got == want, "narrow-search", strf("order search after bulk add: %zu vs %zu", got.size(), want.size()));
  }
}

// Dictionary equality is equality of content.
void idsEqual(Ctx& c) {
  auto cfg = chooseCfg(c);
  Stack base;
  base.lv.push_back(makeBase(cfg));
  static const std::vector<std::vector<std::string>> cont = {{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "b", "ab"}};
  auto mk = [&](size_t i, bool nested) {
    Level l = nested ? makeNested(base.lv[0].d, -1, base.lv[0].own.size(), cfg) : makeBase(cfg);
    if (!cont[i].empty()) l.d->getOrAddBulk(cont[i]);
    return l;
  };
  size_t nb = c.choose(5, "base-size");
  bool nested = nb > 0;
  if (nested) base.lv[0].d->getOrAddBulk(numbered(nb - 1 ? 1 << (nb - 1) : 0, "q", 2));
  base.lv[0].own.resize(base.lv[0].d->entryCount());
  size_t i = c.choose(cont.size(), "left"), j = c.choose(cont.size(), "right");
  auto l = mk(i, nested), r = mk(j, nested);
  c.op("compare %s with %s over base of %zu", join(cont[i]).c_str(), join(cont[j]).c_str(), base.lv[0].own.size());
  bool eq = *l.d == *r.d;
  c.check(eq == (cont[i] == cont[j]), "equality", strf("dictionaries with own strings %s and %s compare %s",
                                                       join(cont[i]).c_str(), join(cont[j]).c_str(), eq ? "equal" : "different"));
  c.check((*l.d != *r.d) == !eq, "inequality", "!= is the negation of ==");
  c.state(mc::mix(mc::mix(i, j), nb));
}

// ---- C02: searches ------------------------------------------------------------------------------
struct Query {
  int kind;  // 0 like, 1 compare, 2 regexp
  std::string pat;
  bool icase, simple;
  std::string cmp;
};
const std::vector<Query>& queries() {
  static std::vector<Query> q;
  if (q.empty()) {
    q.push_back({0, "%a%", false, false, ""});
    q.push_back({0, "a", false, true, ""});
    q.push_back({0, "_b", true, false, ""});
    q.push_back({0, "a\\%b", false, false, ""});
    q.push_back({0, "b", true, true, ""});
    q.push_back({2, "a.*", false, false, ""});
    q.push_back({2, "[ab]b?", false, false, ""});
    for (auto* p : {"ab", "b", "aa"}) {
      for (auto* o : {"=", "<>", "<", "<=", ">", ">="}) q.push_back({1, p, false, false, o});
    }
  }
  return q;
}
bool ucless(const std::string& a, const std::string& b) {
  return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(),
                                      [](unsigned char x, unsigned char y) { return x < y; });
}
bool matches(const Query& q, const std::string& s) {
  if (q.kind == 0) {
    auto t = q.icase ? hu::lower(s) : s;
    return q.simple ? t.find(q.pat) != std::string::npos : hu::likeRef(t, 0, q.pat, 0, '\\');
  }
  if (q.kind == 2) {
    if (q.pat == "a.*") return s[0] == 'a';
    return s == "a" || s == "b" || s == "ab" || s == "bb";
  }
  bool lt = ucless(s, q.pat), eq = s == q.pat;
  if (q.cmp == "=") return eq;
  if (q.cmp == "<>") return !eq;
  if (q.cmp == "<") return lt;
  if (q.cmp == "<=") return lt || eq;
  if (q.cmp == ">") return !lt && !eq;
  return !lt;
}
void ask(Ctx& c, const Stack& st, size_t k, const Query& q, int64_t gen) {
  auto& d = *st.lv[k].d;
  std::vector<int32_t> got;
  if (q.kind == 0) got = d.getLike(q.pat, q.icase, q.simple, '\\', gen);
  if (q.kind == 1) got = d.getCompare(q.pat, q.cmp, gen);
  if (q.kind == 2) got = d.getRegexpLike(q.pat, '\\', gen);
  auto all = st.all(k);
  std::vector<int32_t> want;
  for (size_t i = 0; i < all.size() && (gen < 0 || (int64_t)i < gen); ++i) {
    if (matches(q, all[i])) want.push_back(i);
  }
  c.check(sorted(got) == want, "search-result",
          strf("level %zu gen %ld %s '%s'%s over %s: got %s, expected %s", k, (long)gen,
               q.kind == 0 ? "LIKE" : q.kind == 1 ? q.cmp.c_str() : "REGEXP", q.pat.c_str(), q.icase ? " icase" : "",
               join(all).c_str(), join(sorted(got)).c_str(), join(want).c_str()));
}

void searchHist(Ctx& c, bool nested) {
  Cfg cfg;
  size_t x = c.choose(2, "config");
  cfg.hashes = x;
  cfg.parallel = x;
  cfg.cap = 2;
  g_enable_stringdict_parallel = cfg.parallel;
  Stack st;
  st.lv.push_back(makeBase(cfg));
  static const std::vector<std::vector<std::string>> init = {{}, {"b", "Ab", "a"}, {"c", "ab", "aa", "a%b", "bb"}};
  bulkAdd(c, st, 0, init[c.choose(init.size(), "init")], false);
  if (nested) {
    int64_t gen = (int64_t)c.choose(2, "gen") ? -1 : std::min<int64_t>(1, st.all(0).size());
    st.lv.push_back(makeNested(st.lv[0].d, gen, st.all(0).size(), cfg));
  }
  // history: queries (cached answers) and additions alternate
  static const std::vector<std::vector<std::string>> adds = {{"ab"}, {"b"}, {"aa", "Bb"}, {"a%b", "ab", "b"}, {"aab", "\xc3\xa9", "B"}};
  size_t steps = c.thorough() ? 3 : 2;
  for (size_t i = 0; i < steps; ++i) {
    size_t nq = queries().size();
    bool last = i + 1 == steps;
    size_t o = last ? nq + c.choose(adds.size(), "add") : c.choose(nq + adds.size(), "op");
    size_t k = nested ? c.choose(2, "level") : 0;
    if (o < nq) {
      // remember the choice of generation too: it is part of the cache key
      int64_t n = st.all(k).size();
      int64_t gen = c.choose(2, "gen") ? n / 2 : -1;
      auto& q = queries()[o];
      c.op("query L%zu %d '%s' %s gen %ld", k, q.kind, q.pat.c_str(), q.cmp.c_str(), (long)gen);
      ask(c, st, k, q, gen);
    } else {
      if (c.choose(2, "how")) {
        bulkAdd(c, st, k, adds[o - nq], false);
      } else {
        for (auto& s : adds[o - nq]) {
          c.op("add L%zu '%s'", k, s.c_str());
          auto id = st.lv[k].d->getOrAdd(s);
          c.check(id == st.add(k, s), "add-id", "id of added string");
        }
      }
    }
  }
  uint64_t h = 5;
  for (size_t k = 0; k < st.lv.size(); ++k) {
    for (auto& s : st.all(k)) h = mc::mix(h, std::hash<std::string>()(s));
    int64_t n = st.all(k).size();
    for (int64_t gen : {n / 2, (int64_t)0, (int64_t)-1, n}) {
      auto want = st.all(k);
      if (gen >= 0) want.resize(gen);
      auto got = st.lv[k].d->copyStrings(gen);
      c.check(got == want, "copy-strings", strf("level %zu gen %ld: %s, expected %s", k, (long)gen, join(got).c_str(), join(want).c_str()));
    }
    for (auto& q : queries()) {
      ask(c, st, k, q, -1);
    }
    for (auto& q : queries()) {
      if (q.pat == "aa") continue;
      ask(c, st, k, q, n - 1 >= 0 ? n - 1 : 0);
      ask(c, st, k, q, 1);
    }
  }
  c.state(h);
}

// Sizes around the limits above which work is split among threads, for every number of threads.
void searchLarge(Ctx& c) {
  static const size_t sizes[] = {9, 10001, 10007, 10000, 1000, 9999};
  static const size_t threads[] = {2, 3, 1, 8};
  Cfg cfg;
  cfg.hashes = c.choose(2, "hash cache");
  cfg.parallel = cfg.hashes;
  cfg.cap = 64;
  g_enable_stringdict_parallel = cfg.parallel;
  size_t n = sizes[c.choose(c.thorough() ? 6 : 3, "size")];
  g_cpu_threads_override = threads[c.choose(c.thorough() ? 4 : 3, "threads")];
  size_t cut = c.choose(2, "nested") ? n / 3 : n;
  Stack st;
  st.lv.push_back(makeBase(cfg));
  std::vector<std::string> v;
  for (size_t i = 0; i < n; ++i) v.push_back(strf("%05zu", i * 7919 % 10009));
  auto put = [&](size_t k, size_t a, size_t b) {
    std::vector<std::string> part(v.begin() + a, v.begin() + b);
    part.insert(part.begin() + part.size() / 2, "");
    c.op("bulk add of %zu strings", part.size());
    auto ids = st.lv[k].d->getOrAddBulk(part);
    for (size_t i = 0, id = a; i < part.size(); ++i) {
      int32_t want = part[i].empty() ? kNull : (int32_t)id++;
      if (ids[i] != want) c.check(false, "large-add", strf("string %zu of a bulk add of %zu got id %d, expected %d", i, part.size(), ids[i], want));
    }
    st.lv[k].own.insert(st.lv[k].own.end(), v.begin() + a, v.begin() + b);
  };
  put(0, 0, cut);
  if (cut < n) {
    st.lv.push_back(makeNested(st.lv[0].d, -1, cut, cfg));
    put(1, cut, n);
  }
  auto& d = *st.lv.back().d;
  int64_t N = n;
  for (size_t i = 0; i < n; ++i) if (d.getIdOfString(v[i]) != (int32_t)i) c.check(false, "large-id", strf("string %zu of %zu has id %d", i, n, d.getIdOfString(v[i])));
  for (int64_t gen : {N / 2, (int64_t)0, (int64_t)-1, N}) {
    auto want = v;
    if (gen >= 0) want.resize(gen);
    auto got = d.copyStrings(gen);
    c.check(got == want, "large-copy", strf("copy of %zu strings at generation %ld gives %zu strings, or others", n, (long)gen, got.size()));
    struct S {
      const char* what;
      std::vector<int32_t> got;
      std::function<bool(const std::string&)> f;
    };
    std::vector<S> qs;
    qs.push_back({"LIKE %7%", d.getLike("%7%", false, false, '\\', gen), [](auto& s) { return s.find('7') != std::string::npos; }});
    qs.push_back({"LIKE simple 12", d.getLike("12", false, true, '\\', gen), [](auto& s) { return s.find("12") != std::string::npos; }});
    if (gen < 0 || n < 100 || c.thorough()) qs.push_back({"REGEXP 0.*9", d.getRegexpLike("0.*9", '\\', gen), [](auto& s) { return s[0] == '0' && s.back() == '9'; }});
    for (const char* o : {"=", "<>", "<", "<=", ">", ">="}) {
      for (const char* p : {"05003", "07", "99", ""}) {
        if (!*p) continue;
        std::string O = o, P = p;
        qs.push_back({o, d.getCompare(P, O, gen), [O, P](auto& s) {
                        int x = s.compare(P);
                        return O == "=" ? x == 0 : O == "<>" ? x != 0 : O == "<" ? x < 0 : O == "<=" ? x <= 0 : O == ">" ? x > 0 : x >= 0;
                      }});
      }
    }
    for (auto& q : qs) {
      std::vector<int32_t> w;
      for (size_t i = 0; i < want.size(); ++i) if (q.f(want[i])) w.push_back(i);
      c.op("%s at generation %ld", q.what, (long)gen);
      c.check(sorted(q.got) == w, "large-search", strf("%s over %zu strings at generation %ld, %zu threads: %zu matches, expected %zu", q.what, n,
                                                       (long)gen, (size_t)g_cpu_threads_override, q.got.size(), w.size()));
    }
  }
  g_cpu_threads_override = 2;
  c.state(mc::mix(n, cut));
}

// ---- C03: translation ---------------------------------------------------------------------------
void translate(Ctx& c) {
  Cfg cfg;
  size_t x = c.choose(2, "config");
  cfg.hashes = x;
  cfg.parallel = false;
  cfg.cap = 2;
  g_enable_stringdict_parallel = false;
  static const std::vector<std::vector<std::string>> sets = {
      {}, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"ec4rao", "4ru9qy"}, {"4ru9qy", "a", "ec4rao"}, {"b", "ab", "a", "B"}};
  // shape: 0 flat, 1 nested over all of base, 2 nested over a prefix of base
  auto build = [&](Stack& st, const char* who) {
    st.lv.push_back(makeBase(cfg));
    size_t shape = c.choose(3, "shape");
    size_t i = c.choose(sets.size(), who);
    if (!sets[i].empty()) bulkAdd(c, st, 0, sets[i], false);
    if (shape) {
      int64_t gen = shape == 1 ? -1 : (int64_t)sets[i].size() / 2;
      st.lv.push_back(makeNested(st.lv[0].d, gen, st.all(0).size(), cfg));
      size_t j = c.choose(3, "own");
      static const std::vector<std::vector<std::string>> own = {{}, {"a"}, {"ec4rao", "b"}};
      if (!own[j].empty()) bulkAdd(c, st, 1, own[j], false);
    }
  };
  Stack src, dst;
  build(src, "source");
  build(dst, "dest");
  size_t sk = src.lv.size() - 1, dk = dst.lv.size() - 1;
  auto sall = src.all(sk), dall = dst.all(dk);
  c.op("translate %s -> %s", join(sall).c_str(), join(dall).c_str());
  std::vector<int32_t> want;
  for (auto& s : sall) want.push_back(dst.find(dk, s));
  auto got = src.lv[sk].d->buildIntersectionTranslationMap(dst.lv[dk].d.get());
  c.check(got == want, "intersection-map", strf("%s -> %s: %s, expected %s", join(sall).c_str(), join(dall).c_str(),
                                                join(got).c_str(), join(want).c_str()));
  // capped generations
  for (int64_t sg = 0; sg <= (int64_t)sall.size(); ++sg) {
    for (int64_t dg = 0; dg <= (int64_t)dall.size(); ++dg) {
      std::vector<int32_t> ids(sall.size(), 777);
      auto n = StringDictionaryTranslator::buildDictionaryTranslationMap(
          src.lv[sk].d.get(), dst.lv[dk].d.get(), ids.data(), sg, dg, false,
          [](const std::string_view&, int32_t) { return true; });
      size_t miss = 0;
      for (int64_t i = 0; i < sg; ++i) {
        auto w = dst.find(dk, sall[i], dg);
        miss += w < 0;
        c.check(ids[i] == w, "capped-map", strf("%s[%ld] -> %s[%ld]: '%s' -> %d, expected %d", join(sall).c_str(), (long)sg,
                                                join(dall).c_str(), (long)dg, sall[i].c_str(), ids[i], w));
      }
      for (size_t i = sg; i < ids.size(); ++i) c.check(ids[i] == 777, "capped-map-overrun", "wrote past the generation");
      c.check(n == miss, "capped-map-count", strf("%s[%ld] -> %s[%ld]: %zu untranslated reported, expected %zu", join(sall).c_str(), (long)sg,
                                                join(dall).c_str(), (long)dg, n, miss));
    }
  }
  auto un = src.lv[sk].d->buildUnionTranslationMap(dst.lv[dk].d.get());
  want.clear();
  for (auto& s : sall) want.push_back(dst.add(dk, s));
  c.check(un == want, "union-map", strf("%s -> %s: %s, expected %s", join(sall).c_str(), join(dall).c_str(), join(un).c_str(),
                                        join(want).c_str()));
  audit(c, dst, true);
  audit(c, src, false);
  auto again = src.lv[sk].d->buildIntersectionTranslationMap(dst.lv[dk].d.get());
  c.check(again == want, "map-after-union", "every source string is now translated");
}

// Sizes around the block sizes of the parallel loops.
void translateLarge(Ctx& c) {
  static const size_t sizes[] = {1, 999, 1000, 1001, 2000, 2500, 3001};
  Cfg cfg;
  cfg.hashes = c.choose(2, "hash cache");
  cfg.parallel = c.choose(2, "parallel");
  cfg.cap = 2;
  g_enable_stringdict_parallel = cfg.parallel;
  size_t n = sizes[c.choose(7, "source size")];
  size_t m = sizes[c.choose(7, "dest size")];
  bool nested = c.choose(2, "nested");
  std::vector<std::string> sv, dv;
  for (size_t i = 0; i < n; ++i) sv.push_back(strf("s%zu", i * 7 % 4001));
  for (size_t i = 0; i < m; ++i) dv.push_back(strf("s%zu", i * 11 % 4001));
  Stack src, dst;
  src.lv.push_back(makeBase(cfg));
  dst.lv.push_back(makeBase(cfg));
  auto fill = [&](Stack& st, std::vector<std::string>& v) {
    size_t cut = nested ? v.size() / 3 : v.size();
    auto put = [&](size_t k, size_t a, size_t b) {
      std::vector<std::string> part(v.begin() + a, v.begin() + b);
      c.op("bulk add of %zu strings", part.size());
      auto ids = st.lv[k].d->getOrAddBulk(part);
      for (size_t i = 0; i < part.size(); ++i) c.check(ids[i] == (int32_t)(a + i), "large-add", strf("string %zu of a bulk add of %zu got id %d", i, part.size(), ids[i]));
      st.lv[k].own.insert(st.lv[k].own.end(), part.begin(), part.end());
    };
    put(0, 0, cut);
    if (nested) {
      st.lv.push_back(makeNested(st.lv[0].d, -1, cut, cfg));
      put(1, cut, v.size());
    }
  };
  fill(src, sv);
  fill(dst, dv);
  auto& S = *src.lv.back().d;
  auto& D = *dst.lv.back().d;
  std::unordered_map<std::string, int32_t> pos;
  for (size_t i = 0; i < m; ++i) pos[dv[i]] = i;
  auto at = [&](const std::string& s, int64_t g) {
    auto it = pos.find(s);
    return it == pos.end() || it->second >= g ? Dict::INVALID_STR_ID : it->second;
  };
  for (int64_t sg : {(int64_t)n, (int64_t)n / 2, (int64_t)std::min<size_t>(n, 1000)}) {
    for (int64_t dg : {(int64_t)m, (int64_t)m / 2}) {
      std::vector<int32_t> ids(n, 777);
      size_t cnt = StringDictionaryTranslator::buildDictionaryTranslationMap(
          &S, &D, ids.data(), sg, dg, false, [](const std::string_view&, int32_t) { return true; });
      c.op("translate %ld -> %ld", (long)sg, (long)dg);
      size_t miss = 0;
      for (int64_t i = 0; i < sg; ++i) {
        auto w = at(sv[i], dg);
        miss += w < 0;
        c.check(ids[i] == w, "large-map", strf("%ld of %zu -> %ld of %zu: id %ld gives %d, expected %d", (long)sg, n, (long)dg, m, (long)i, ids[i], w));
      }
      c.check(cnt == miss, "large-map-count", strf("%ld of %zu -> %ld of %zu: %zu untranslated reported, expected %zu", (long)sg, n, (long)dg, m, cnt, miss));
    }
  }
  std::vector<int32_t> got(n);
  size_t missing = D.getBulk(sv, got.data());
  size_t miss = 0;
  for (size_t i = 0; i < n; ++i) {
    auto w = at(sv[i], m);
    miss += w < 0;
    c.check(got[i] == w, "large-lookup", strf("bulk lookup of %zu: entry %zu gives %d, expected %d", n, i, got[i], w));
  }
  c.check(missing == miss, "large-lookup-count", strf("bulk lookup of %zu: %zu missing reported, expected %zu", n, missing, miss));
  auto un = S.buildUnionTranslationMap(&D);
  for (size_t i = 0; i < n; ++i) {
    auto w = at(sv[i], m + n);
    if (w < 0) {
      w = dv.size();
      dv.push_back(sv[i]);
    }
    c.check(un[i] == w, "large-union", strf("union map of %zu into %zu: id %zu gives %d, expected %d", n, m, i, un[i], w));
  }
  c.check(D.entryCount() == dv.size(), "large-union-size", "destination size after a union");
  for (size_t i = 0; i < dv.size(); ++i) c.check(D.getString(i) == dv[i], "large-read", strf("id %zu reads wrong after a union", i));
  c.state(mc::mix(mc::mix(n, m), nested));
}

// A destination with transient strings: the callback decides about strings that are not there.
void translateTransient(Ctx& c) {
  Cfg cfg;
  cfg.hashes = c.choose(2, "hash cache");
  cfg.parallel = false;
  cfg.cap = 2;
  g_enable_stringdict_parallel = false;
  Stack src, dst;
  src.lv.push_back(makeBase(cfg));
  dst.lv.push_back(makeBase(cfg));
  static const std::vector<std::vector<std::string>> sets = {{"a"}, {"a", "b"}, {"b", "a", "ab", "B"}, {"ec4rao", "4ru9qy", "b"}};
  bulkAdd(c, src, 0, sets[c.choose(4, "source")], false);
  bulkAdd(c, dst, 0, sets[c.choose(4, "dest")], false);
  auto sall = src.all(0), dall = dst.all(0);
  size_t transient = c.choose(1u << sall.size(), "transient");
  for (int64_t sg = 0; sg <= (int64_t)sall.size(); ++sg) {
    for (int64_t dg = 1; dg <= (int64_t)dall.size(); ++dg) {
      std::vector<int32_t> ids(sall.size(), 777);
      std::vector<int> asked(sall.size(), 0);
      size_t n = StringDictionaryTranslator::buildDictionaryTranslationMap(
          src.lv[0].d.get(), dst.lv[0].d.get(), ids.data(), sg, dg, true, [&](const std::string_view& s, int32_t id) {
            c.check(id >= 0 && id < sg && sall[id] == s, "transient-callback", "callback got an id that is not the string's");
            ++asked[id];
            if (transient >> id & 1) {
              ids[id] = -5 - id;
              return false;
            }
            return true;
          });
      size_t miss = 0;
      for (int64_t i = 0; i < sg; ++i) {
        auto w = dst.find(0, sall[i], dg);
        c.check(asked[i] == (w < 0), "transient-asked", strf("'%s' was asked %d times", sall[i].c_str(), asked[i]));
        if (w < 0 && (transient >> i & 1)) {
          w = -5 - i;
        } else {
          miss += w < 0;
        }
        c.check(ids[i] == w, "transient-map", strf("'%s' -> %d, expected %d", sall[i].c_str(), ids[i], w));
      }
      c.check(n == miss, "transient-count", strf("%zu untranslated reported, expected %zu", n, miss));
      c.op("translate with transients %ld -> %ld", (long)sg, (long)dg);
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> sc = {
      {"ids-flat", idsFlat, 2},     {"ids-nested", idsNested, 4},   {"ids-growth", idsGrowth, 3},
      {"ids-narrow", idsNarrow, 3}, {"ids-equality", idsEqual, 2},
      {"search-flat", [](Ctx& c) { searchHist(c, false); }, 3},
      {"search-nested", [](Ctx& c) { searchHist(c, true); }, 4},
      {"search-large", searchLarge, 4},
      {"translate", translate, 3},
      {"translate-large", translateLarge, 4},
      {"translate-transient", translateTransient, 3},
  };
  mc::Options o;
  o.worker_init = [] {
    hu::quietLogger();
    static tbb::global_control tc(tbb::global_control::max_allowed_parallelism, 1);
    g_cpu_threads_override = 2;
  };
  o.rule =
      "every sequence of dictionary operations up to the stated depth over a small alphabet of strings (with full 32-bit "
      "hash collisions), for flat, nested and doubly nested dictionaries, hash cache on/off, serial/parallel bulk add, small/large "
      "initial capacity; after each operation every read access is compared with a list-of-strings model. A state is a "
      "dictionary content; a transition is one operation on the real dictionary";
  o.assumptions = {"storage page size shrunk to 1 byte so that growth happens within the bound", "strings without NUL bytes"};
  return mc::run(argc, argv, sc, o);
}
