// Every schedule (within a preemption bound) of small concurrent programs on string dictionaries.
#include "Shared/thread_count.h"
#include "StringDictionary/StringDictionary.h"
#include "hutil.h"
#include "mc.h"
#include "mcsched.h"

#include <tbb/global_control.h>
#include <limits>
#include <map>
#include <memory>
#include <set>

extern bool g_enable_stringdict_parallel;
// The dictionary grows its storage 1024 pages at a time; a tiny page brings growth within reach.
extern "C" int getpagesize() noexcept { return 1; }

using mc::Ctx;
using mc::strf;

namespace {
constexpr int32_t kNull = std::numeric_limits<int32_t>::min();
using SD = StringDictionary;
enum { B, N, O };  // base, nested over base, other
const char* kD[] = {"base", "nested", "other"};

enum Kind { Add, Bulk, Find, BulkFind, Read, Bytes, Like, Cmp, Eq, Neq, Regexp, Copy, Count, Same, Trans, Union, Each };
struct Prog {
  const char* name;
  Kind k;
  int d, e;  // dictionary, second dictionary
  std::vector<std::string> s;
};
// clang-format off
const std::vector<Prog> kProg = {
    {"add x to base", Add, B, B, {"x"}},
    {"add x, y to nested", Add, N, N, {"x", "y"}},
    {"bulk add y, a, x, y to base", Bulk, B, B, {"y", "a", "x", "y"}},
    {"bulk add y, a, x, y to nested", Bulk, N, N, {"y", "a", "x", "y"}},
    {"find x and read in base", Find, B, B, {"x", "b"}},
    {"find x and read in nested", Find, N, N, {"x", "b", "n"}},
    {"bulk find in nested", BulkFind, N, N, {"n", "x", "a", "", "q"}},
    {"read bytes of nested", Bytes, N, N, {}},
    {"like on base", Like, B, B, {}},
    {"like on nested", Like, N, N, {}},
    {"compare < on base", Cmp, B, B, {}},
    {"compare < on nested", Cmp, N, N, {}},
    {"equals x on base", Eq, B, B, {}},
    {"differs from x on nested", Neq, N, N, {}},
    {"regexp on base", Regexp, B, B, {}},
    {"copy strings of base", Copy, B, B, {}},
    {"copy strings of nested", Copy, N, N, {}},
    {"count entries", Count, N, N, {}},
    {"compare nested with itself and other", Same, N, O, {}},
    {"translate base to other", Trans, B, O, {}},
    {"translate other to base", Trans, O, B, {}},
    {"translate other to nested", Trans, O, N, {}},
    {"translate nested to other", Trans, N, O, {}},
    {"translate base to nested", Trans, B, N, {}},
    {"unite other into base", Union, O, B, {}},
    {"unite base into other", Union, B, O, {}},
    {"unite nested into other", Union, N, O, {}},
    {"unite base into nested", Union, B, N, {}},
    {"add x to other", Add, O, O, {"x"}},
};
// clang-format on

bool like(const std::string& s) { return s.size() == 1 && s != "b"; }

struct World {
  std::shared_ptr<SD> d[3];
  int64_t gen;
  size_t before[3];
  // observations of the threads, checked when all have ended
  struct Obs {
    int prog;
    std::vector<int32_t> ids;
    std::vector<std::string> strs;
    size_t n = 0;
  };
  std::vector<Obs> obs;

  World(bool tiny, bool hashes, bool gap, bool full) {
    size_t cap = tiny ? 2 : 256;
    d[B] = std::make_shared<SD>(DictRef{1, 1}, hashes, cap);
    d[B]->getOrAdd("a");
    d[B]->getOrAdd("b");
    if (full) d[B]->getOrAdd(std::string(1022, 'z'));
    gen = gap ? 1 : full ? 3 : 2;
    d[N] = std::make_shared<SD>(d[B], gen, hashes, cap);
    d[N]->getOrAdd("n");
    if (full) d[N]->getOrAdd(std::string(1023, 'y'));
    d[O] = std::make_shared<SD>(DictRef{1, 2}, hashes, cap);
    d[O]->getOrAdd("x");
    d[O]->getOrAdd("b");
    d[O]->getOrAdd("n");
    if (full) d[O]->getOrAdd(std::string(1021, 'w'));
    for (int i = 0; i < 3; ++i) before[i] = d[i]->entryCount();
  }

  void body(int p, Obs& o) {
    const auto& g = kProg[p];
    auto& x = *d[g.d];
    o.prog = p;
    switch (g.k) {
      case Add:
        for (auto& s : g.s) {
          o.ids.push_back(x.getOrAdd(s));
          o.strs.push_back(x.getString(o.ids.back()));
        }
        break;
      case Bulk: {
        std::vector<int32_t> out(g.s.size(), 7);
        x.getOrAddBulk(g.s, out.data());
        for (auto id : out) {
          o.ids.push_back(id);
          o.strs.push_back(x.getString(id));
        }
        break;
      }
      case Find:
        for (auto& s : g.s) {
          o.ids.push_back(x.getIdOfString(s));
          o.strs.push_back(o.ids.back() >= 0 ? x.getString(o.ids.back()) : "");
        }
        break;
      case BulkFind:
        o.ids.resize(g.s.size());
        o.n = x.getBulk(g.s, o.ids.data());
        break;
      case Bytes:
        for (int id = 0; id < (int)before[g.d]; ++id) {
          auto [p, n] = x.getStringBytes(id);
          o.strs.push_back(std::string(p, n));
        }
        break;
      case Like: o.ids = x.getLike("_", false, false, '\\', -1); break;
      case Cmp: o.ids = x.getCompare("o", "<", -1); break;
      case Eq: o.ids = x.getCompare("x", "=", -1); break;
      case Neq: o.ids = x.getCompare("x", "<>", -1); break;
      case Regexp: o.ids = x.getRegexpLike("[axn]", '\\', -1); break;
      case Copy: o.strs = x.copyStrings(); break;
      case Count:
        o.n = x.entryCount();
        if (x.storageEntryCount() < o.n - gen) sched::fail("shrank", "the dictionary lost strings");
        break;
      case Same:
        if (!(x == x)) sched::fail("not-itself", "a dictionary differs from itself");
        if (x == *d[g.e]) sched::fail("not-other", "different dictionaries compare equal");
        break;
      case Trans: o.ids = x.buildIntersectionTranslationMap(d[g.e].get()); break;
      case Union: o.ids = x.buildUnionTranslationMap(d[g.e].get()); break;
      default: break;
    }
  }
  std::vector<std::string> content(Ctx& c, int i) {
    std::vector<std::string> v;
    size_t n = d[i]->entryCount();
    for (size_t id = 0; id < n; ++id) {
      v.push_back(d[i]->getString(id));
      c.check(d[i]->getIdOfString(v.back()) == (int)id, "end-find", strf("at the end id %zu of %s holds '%s', which has id %d", id, kD[i], v.back().c_str(), d[i]->getIdOfString(v.back())));
    }
    return v;
  }
  void final(Ctx& c) {
    std::vector<std::string> v[3];
    std::string st;
    for (int i = 0; i < 3; ++i) {
      v[i] = content(c, i);
      st += hu::join(v[i]);
    }
    c.state(st);
    c.check(v[B].size() >= 2 && v[B][0] == "a" && v[B][1] == "b" && v[N].size() > (size_t)gen && v[N][gen] == "n" && v[O].size() >= 3, "end-old", "strings that were there have changed: " + st);
    auto idIn = [&](int i, const std::string& s) {
      for (size_t k = 0; k < v[i].size(); ++k)
        if (v[i][k] == s) return (int)k;
      return -1;
    };
    for (auto& o : obs) {
      const auto& g = kProg[o.prog];
      auto bad = [&](const std::string& w) { c.fail(std::string("result-") + g.name, strf("%s: %s, ids %s strings %s, at the end %s", g.name, w.c_str(), hu::join(o.ids).c_str(), hu::join(o.strs).c_str(), st.c_str())); };
      // result = what holds for the first k strings, for one k that the dictionary had meanwhile
      auto someGen = [&](auto want) {
        for (size_t k = before[g.d]; k <= v[g.d].size(); ++k)
          if (want(k)) return;
        bad("no moment has this result");
      };
      auto search = [&](auto pred) {
        someGen([&](size_t k) {
          std::vector<int32_t> w;
          for (size_t id = 0; id < k; ++id)
            if (pred(v[g.d][id])) w.push_back(id);
          return w == hu::sorted(o.ids);
        });
      };
      switch (g.k) {
        case Add:
        case Bulk:
          for (size_t i = 0; i < g.s.size(); ++i)
            if (o.ids[i] != idIn(g.d, g.s[i]) || o.strs[i] != g.s[i]) bad("wrong id or string");
          break;
        case Find:
          for (size_t i = 0; i < g.s.size(); ++i) {
            int id = idIn(g.d, g.s[i]);
            bool old = id >= 0 && id < (int)before[g.d];
            if (o.ids[i] == -1 ? old : o.ids[i] != id || o.strs[i] != g.s[i]) bad("wrong id or string");
          }
          break;
        case BulkFind: {
          size_t missing = 0;
          for (size_t i = 0; i < g.s.size(); ++i) {
            int id = g.s[i].empty() ? kNull : idIn(g.d, g.s[i]);
            bool old = id == kNull || (id >= 0 && id < (int)before[g.d]);
            if (o.ids[i] == -1 ? old : o.ids[i] != id) bad("wrong id");
            missing += o.ids[i] == -1;
          }
          if (missing != o.n) bad("wrong count of missing strings");
          break;
        }
        case Bytes:
          if (o.strs != std::vector<std::string>(v[g.d].begin(), v[g.d].begin() + before[g.d])) bad("wrong strings");
          break;
        case Like: search([](const std::string& s) { return s.size() == 1; }); break;
        case Cmp: search([](const std::string& s) { return s < "o"; }); break;
        case Eq: search([](const std::string& s) { return s == "x"; }); break;
        case Neq: search([](const std::string& s) { return s != "x"; }); break;
        case Regexp: search([](const std::string& s) { return s == "a" || s == "x" || s == "n"; }); break;
        case Copy:
          someGen([&](size_t k) { return o.strs == std::vector<std::string>(v[g.d].begin(), v[g.d].begin() + k); });
          break;
        case Count:
          if (o.n < before[g.d] || o.n > v[g.d].size()) bad("wrong count");
          break;
        case Trans:
        case Union:
          if (o.ids.size() < before[g.d] || o.ids.size() > v[g.d].size()) bad("wrong size");
          for (size_t i = 0; i < o.ids.size(); ++i) {
            int id = idIn(g.e, v[g.d][i]);
            bool must = g.k == Union || (id >= 0 && id < (int)before[g.e]);
            if (o.ids[i] == -1 ? must : o.ids[i] != id) bad("wrong translation");
          }
          break;
        default: break;
      }
    }
    // searches and copies after everything give the final content
    for (int i = 0; i < 3; ++i) {
      std::vector<int32_t> w, l;
      for (size_t id = 0; id < v[i].size(); ++id) {
        if (v[i][id] < "o") w.push_back(id);
        if (v[i][id] != "b") l.push_back(id);
      }
      auto strs = d[i]->copyStrings();
      c.check(strs == v[i], "end-copy", strf("copy of %s at the end is %s instead of %s", kD[i], hu::join(strs).c_str(), hu::join(v[i]).c_str()));
      c.check(hu::sorted(d[i]->getCompare("o", "<", -1)) == w, "end-compare", strf("search in %s at the end is wrong", kD[i]));
      auto r = hu::sorted(d[i]->getLike("_", false, false, '\\', -1));
      c.check(r.size() == (size_t)std::count_if(v[i].begin(), v[i].end(), [](auto& s) { return s.size() == 1; }), "end-like", strf("LIKE in %s at the end is wrong", kD[i]));
      c.check(hu::sorted(d[i]->getCompare("b", "<>", -1)) == l, "end-differs", strf("search in %s at the end is wrong", kD[i]));
    }
  }
};

void programs(Ctx& c, int threads) {
  bool lean = threads > 2 && !c.thorough();
  static const std::vector<int> few = {0, 1, 3, 5, 9, 11, 16, 23};
  std::vector<int> menu;
  if (lean) menu = few;
  else
    for (size_t i = 0; i < kProg.size(); ++i) menu.push_back(i);
  std::vector<int> progs;
  size_t lo = 0;
  for (int i = 0; i < threads; ++i) {
    lo += c.choose(menu.size() - lo, "program");
    progs.push_back(menu[lo]);
  }
  int shape = lean ? 3 * c.choose(2, "shape") : c.choose(c.thorough() ? 6 : 4, "shape");
  bool par = shape == 1 || shape == 4, tiny = shape < 2 || shape == 4, hashes = shape == 2 || shape > 3, gap = shape == 1 || shape == 5, full = shape >= 3;
  if (full) {  // the bytes of a string stay valid only as long as the dictionary does not grow
    for (int p : progs)
      if (kProg[p].k == Bytes) c.skip();
  }
  World w(tiny, hashes, gap, full);
  g_enable_stringdict_parallel = par;
  w.obs.resize(threads);
  std::vector<std::function<void()>> bodies;
  std::string names;
  for (int i = 0; i < threads; ++i) {
    names += std::string(i ? " || " : "") + kProg[progs[i]].name;
    bodies.push_back([&, i] { w.body(progs[i], w.obs[i]); });
  }
  c.op("%s, shape %d", names.c_str(), shape);
  int bound = threads == 2 ? (c.thorough() ? 3 : 2) : (c.thorough() ? 2 : 1);
  auto r = sched::run(c, bodies, bound, 0);
  for (uint64_t i = 0; i < r.switches; ++i) c.op("switch");
  w.final(c);
}
void s_two(Ctx& c) { programs(c, 2); }
void s_three(Ctx& c) { programs(c, 3); }
}  // namespace

int main(int argc, char** argv) {
  mc::Options o;
  o.worker_init = [] {
    static tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
    g_cpu_threads_override = 1;
    for (bool par : {false, true}) {
      g_enable_stringdict_parallel = par;
      for (size_t p = 0; p < kProg.size(); ++p) {
        World w(true, false, false, true);
        World::Obs ob;
        w.body(p, ob);
      }
    }
  };
  o.rule = "every schedule with a bounded number of preemptions of two and three threads, each running one of thirty programs (add, bulk add, find, read, search, copy, translate, unite) on a base dictionary, a dictionary nested over it and another one";
  o.assumptions = {"threads interleave at synchronisation operations; plain accesses are checked for races by vector clocks, so this covers all interleavings of race-free code", "parallel loops inside one call run serially (they are covered single-threaded by C01-C03)"};
  return mc::run(argc, argv, {{"dict_two", s_two, 3, 20}, {"dict_three", s_three, 4, 20}}, o);
}
