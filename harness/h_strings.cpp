// C15: LIKE, ILIKE, REGEXP and comparison of strings, null-aware variants.
#include "Utils/Regexp.h"
#include "Utils/StringLike.h"
#include "hutil.h"
#include "mc.h"

#include <cstring>
#include <map>
#include <memory>
#include <set>

using mc::Ctx;
using mc::strf;

#define DECL_NULLABLE(f) extern "C" int8_t f##_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
DECL_NULLABLE(string_lt) DECL_NULLABLE(string_le) DECL_NULLABLE(string_gt) DECL_NULLABLE(string_ge) DECL_NULLABLE(string_eq) DECL_NULLABLE(string_ne)
DECL_NULLABLE(string_like_simple) DECL_NULLABLE(string_ilike_simple)
extern "C" int8_t string_like_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);
extern "C" int8_t string_ilike_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);
extern "C" int8_t regexp_like_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);

namespace {
std::string show(const std::string& s) {
  std::string r = "'";
  for (char ch : s) {
    if (ch < 32 || ch > 126) r += strf("\\x%02x", (unsigned char)ch);
    else r += ch;
  }
  return r + "'";
}
// A heap copy of exactly the string's bytes: reading past either end is an error the sanitizer reports.
struct Exact {
  char* p;
  int n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), s.size()); }
  ~Exact() { delete[] p; }
  Exact(const Exact&) = delete;
};
char low(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }
std::string lowerAll(std::string s) {
  for (auto& c : s) c = low(c);
  return s;
}
// Reference LIKE: tokens, then a table of which prefixes match.
struct Tok {
  enum { kLit, kOne, kAny, kSet } k;
  char c;
  std::set<char> set;
};
bool tokenize(const std::string& p, char esc, std::vector<Tok>& out) {
  out.clear();
  for (size_t i = 0; i < p.size();) {
    char ch = p[i];
    if (ch == esc) {
      if (i + 1 >= p.size()) return false;
      out.push_back({Tok::kLit, p[i + 1], {}});
      i += 2;
    } else if (ch == '%') {
      out.push_back({Tok::kAny, 0, {}});
      ++i;
    } else if (ch == '_') {
      out.push_back({Tok::kOne, 0, {}});
      ++i;
    } else if (ch == '[') {
      auto e = p.find(']', i + 1);
      if (e == std::string::npos) return false;
      Tok t{Tok::kSet, 0, {}};
      t.set.insert(p.begin() + i + 1, p.begin() + e);
      out.push_back(t);
      i = e + 1;
    } else {
      out.push_back({Tok::kLit, ch, {}});
      ++i;
    }
  }
  return true;
}
bool refLike(const std::string& s, const std::vector<Tok>& toks, bool icase) {
  uint64_t reach = 1;  // bit i: the first i characters are matched by the tokens so far
  uint64_t full = ((uint64_t)1 << (s.size() + 1)) - 1;
  for (auto& t : toks) {
    uint64_t next = 0;
    if (t.k == Tok::kAny) {
      if (reach) next = full & ~((reach & (~reach + 1)) - 1);
    } else {
      for (size_t i = 0; i < s.size(); ++i) {
        if (!(reach >> i & 1)) continue;
        char ch = icase ? low(s[i]) : s[i];
        bool ok = t.k == Tok::kOne || (t.k == Tok::kLit ? ch == t.c : t.set.count(ch) != 0);
        if (ok) next |= (uint64_t)1 << (i + 1);
      }
    }
    reach = next;
  }
  return reach >> s.size() & 1;
}
const std::vector<std::string>& texts(const std::string& alpha, size_t max) {
  static std::map<std::pair<std::string, size_t>, std::vector<std::string>> cache;
  auto& v = cache[{alpha, max}];
  if (v.empty()) {
    v.push_back("");
    for (size_t b = 0, e = 1; max > 0; --max) {
      for (size_t i = b; i < e; ++i)
        for (char ch : alpha) v.push_back(v[i] + ch);
      b = e;
      e = v.size();
    }
  }
  return v;
}
void likeWith(Ctx& c, const std::string& pat_alpha, size_t max_pat, const std::string& txt_alpha, size_t max_txt, char esc) {
  std::string p;
  size_t n = c.choose(max_pat + 1, "pattern length");
  size_t inner = 0;
  if (n > 2) {
    p += pat_alpha[c.choose(pat_alpha.size(), "char")];
    p += pat_alpha[c.choose(pat_alpha.size(), "char")];
    inner = n - 2;
  } else {
    inner = n;
  }
  auto& tv = texts(txt_alpha, max_txt);
  static std::vector<std::unique_ptr<Exact>> bufs;
  static const std::vector<std::string>* bufs_of = nullptr;
  if (bufs_of != &tv) {
    bufs.clear();
    for (auto& s : tv) bufs.push_back(std::make_unique<Exact>(s));
    bufs_of = &tv;
  }
  size_t total = 1;
  for (size_t i = 0; i < inner; ++i) total *= pat_alpha.size();
  std::vector<Tok> toks, itoks;
  size_t matched = 0;
  for (size_t k = 0; k < total; ++k) {
    std::string pat = p;
    for (size_t i = 0, x = k; i < inner; ++i, x /= pat_alpha.size()) pat += pat_alpha[x % pat_alpha.size()];
    bool ok = tokenize(pat, esc, toks);
    auto lp = lowerAll(pat);
    bool iok = tokenize(lp, esc, itoks);
    Exact pb(pat), lpb(lp);
    for (size_t i = 0; i < tv.size(); ++i) {
      auto& s = tv[i];
      bool want = ok && refLike(s, toks, false), iwant = iok && refLike(s, itoks, true);
      matched += want;
      bool got = string_like(bufs[i]->p, bufs[i]->n, pb.p, pb.n, esc);
      if (got != want) c.fail("like", strf("%s LIKE %s ESCAPE '%c' is %d, expected %d", show(s).c_str(), show(pat).c_str(), esc, got, want));
      bool igot = string_ilike(bufs[i]->p, bufs[i]->n, lpb.p, lpb.n, esc);
      if (igot != iwant) c.fail("ilike", strf("%s ILIKE %s ESCAPE '%c' is %d, expected %d", show(s).c_str(), show(lp).c_str(), esc, igot, iwant));
    }
  }
  c.op("%zu patterns from %s of length %zu on %zu strings", total, show(p).c_str(), n, tv.size());
  c.state(mc::mix(n, matched));
}
void likeWide(Ctx& c) { likeWith(c, "aB%_[]\\", c.thorough() ? 6 : 5, "aAbB[", c.thorough() ? 5 : 4, '\\'); }
void likeDeep(Ctx& c) { likeWith(c, "ab%_", c.thorough() ? 9 : 8, "ab", c.thorough() ? 9 : 7, '\\'); }
void likeLiterals(Ctx& c) { likeWith(c, "a%_\\", c.thorough() ? 7 : 6, "a%_\\", c.thorough() ? 5 : 4, '\\'); }
void likeEscapes(Ctx& c) {
  static const char escs[] = {'%', '_', '[', 'a', '!'};
  likeWith(c, "a%_[]!", c.thorough() ? 5 : 4, "a%_[b!", 3, escs[c.choose(5, "escape")]);
}
// Long strings and patterns: many wildcards around repeated segments.
void likeLong(Ctx& c) {
  static const std::vector<std::string> segs = {"%", "_", "ab", "aab", "%_", "[ab]", "\\%", "b"};
  std::string pat;
  size_t n = 1 + c.choose(c.thorough() ? 6 : 5, "segments");
  for (size_t i = 0; i < n; ++i) pat += segs[c.choose(segs.size(), "segment")];
  std::vector<Tok> toks;
  c.check(tokenize(pat, '\\', toks), "harness", "pattern");
  static const std::vector<std::string> strs = [] {
    std::vector<std::string> v = {"", "ab", "aab", "aaab", "abaab", "aabaabaab", std::string(40, 'a'), std::string(39, 'a') + "b", "b%b", "%", "ab%aab_b"};
    for (int i = 1; i < 6; ++i) {
      std::string s;
      for (int k = 0; k < i; ++k) s += k % 2 ? "aab" : "ab";
      v.push_back(s);
      v.push_back(s + "%");
      v.push_back("b" + s);
    }
    return v;
  }();
  Exact pb(pat);
  c.op("pattern %s", show(pat).c_str());
  for (auto& s : strs) {
    Exact sb(s);
    bool want = refLike(s, toks, false), got = string_like(sb.p, sb.n, pb.p, pb.n, '\\');
    if (got != want) c.fail("like", strf("%s LIKE %s is %d, expected %d", show(s).c_str(), show(pat).c_str(), got, want));
    bool iwant = refLike(s, toks, true);
    std::string up;
    for (char ch : s) up += toupper(ch);
    Exact ub(up);
    bool igot = string_ilike(ub.p, ub.n, pb.p, pb.n, '\\');
    if (igot != iwant) c.fail("ilike", strf("%s ILIKE %s is %d, expected %d", show(up).c_str(), show(pat).c_str(), igot, iwant));
  }
}
void comparisons(Ctx& c) {
  static const std::string alpha = std::string("aB") + '\0' + (char)0xc3 + (char)0x7f;
  auto& tv = texts(alpha, c.thorough() ? 4 : 3);
  size_t i = c.choose(tv.size(), "left");
  auto& a = tv[i];
  Exact ab(a);
  auto cmp = [](const std::string& x, const std::string& y) {
    for (size_t k = 0; k < x.size() && k < y.size(); ++k) {
      unsigned char p = x[k], q = y[k];
      if (p != q) return p < q ? -1 : 1;
    }
    return x.size() == y.size() ? 0 : x.size() < y.size() ? -1 : 1;
  };
  for (auto& b : tv) {
    Exact bb(b);
    int want = cmp(a, b);
    auto who = [&] { return show(a) + " and " + show(b); };
    int got = StringCompare(ab.p, ab.n, bb.p, bb.n);
    if ((got > 0) - (got < 0) != want) c.fail("compare", strf("%s compare as %d, expected %d", who().c_str(), got, want));
#define CMP(f, op)                                                                                                                                              \
  if (f(ab.p, ab.n, bb.p, bb.n) != (want op 0)) c.fail(#f, strf(#f " of %s", who().c_str()));                                                                   \
  if (f##_nullable(ab.p, ab.n, bb.p, bb.n, -128) != (want op 0)) c.fail(#f "_nullable", strf(#f "_nullable of %s", who().c_str()));                             \
  if (f##_nullable(nullptr, 0, bb.p, bb.n, -128) != -128 || f##_nullable(ab.p, ab.n, nullptr, 0, -128) != -128) c.fail(#f "_null", #f "_nullable of null");
    CMP(string_lt, <) CMP(string_le, <=) CMP(string_gt, >) CMP(string_ge, >=) CMP(string_eq, ==) CMP(string_ne, !=)
    bool sub = a.find(b) != std::string::npos;
    if (string_like_simple(ab.p, ab.n, bb.p, bb.n) != sub) c.fail("like_simple", strf("substring search of %s", who().c_str()));
    if (string_like_simple_nullable(ab.p, ab.n, bb.p, bb.n, -128) != sub || string_like_simple_nullable(nullptr, 0, bb.p, bb.n, -128) != -128 ||
        string_like_simple_nullable(ab.p, ab.n, nullptr, 0, -128) != -128)
      c.fail("like_simple_null", strf("nullable substring search of %s", who().c_str()));
    auto lb = lowerAll(b);
    Exact lbb(lb);
    bool isub = lowerAll(a).find(lb) != std::string::npos;
    if (string_ilike_simple(ab.p, ab.n, lbb.p, lbb.n) != isub) c.fail("ilike_simple", strf("case-insensitive substring search of %s", who().c_str()));
    if (string_ilike_simple_nullable(ab.p, ab.n, lbb.p, lbb.n, -128) != isub || string_ilike_simple_nullable(nullptr, 0, lbb.p, lbb.n, -128) != -128 ||
        string_ilike_simple_nullable(ab.p, ab.n, nullptr, 0, -128) != -128)
      c.fail("ilike_simple_null", strf("nullable case-insensitive substring search of %s", who().c_str()));
    if (string_like_nullable(nullptr, 0, bb.p, bb.n, '\\', -128) != -128 || string_like_nullable(ab.p, ab.n, nullptr, 0, '\\', -128) != -128 ||
        string_ilike_nullable(nullptr, 0, bb.p, bb.n, '\\', -128) != -128 || string_ilike_nullable(ab.p, ab.n, nullptr, 0, '\\', -128) != -128)
      c.fail("like_null", "LIKE of null");
    if (string_like_nullable(ab.p, ab.n, bb.p, bb.n, '\\', -128) != (want == 0)) c.fail("like_nullable", strf("LIKE without wildcards of %s", who().c_str()));
    if (string_ilike_nullable(ab.p, ab.n, lbb.p, lbb.n, '\\', -128) != (lowerAll(a) == lb)) c.fail("ilike_nullable", strf("ILIKE without wildcards of %s", who().c_str()));
  }
  c.op("compare %s with %zu strings", show(a).c_str(), tv.size());
  c.state(a);
}
// Regular expressions: every expression tree of bounded size against a set-based reference matcher.
struct Re {
  enum { kChar, kDot, kSet, kNotSet, kCat, kAlt, kStar, kPlus, kOpt } k;
  char c = 0;
  std::shared_ptr<Re> l, r;
};
using ReP = std::shared_ptr<Re>;
ReP genRe(Ctx& c, int size) {
  if (size <= 1) {
    size_t k = c.choose(5, "atom");
    auto r = std::make_shared<Re>();
    if (k < 2) {
      r->k = Re::kChar;
      r->c = k ? 'b' : 'a';
    } else {
      r->k = k == 2 ? Re::kDot : k == 3 ? Re::kSet : Re::kNotSet;
    }
    return r;
  }
  size_t k = c.choose(size >= 3 ? 5 : 3, "node");
  auto r = std::make_shared<Re>();
  if (k < 3) {
    r->k = k == 0 ? Re::kStar : k == 1 ? Re::kPlus : Re::kOpt;
    r->l = genRe(c, size - 1);
    if (r->l->k == Re::kStar || r->l->k == Re::kPlus || r->l->k == Re::kOpt) c.skip();  // repeated repetition: syntax differs by dialect
    return r;
  }
  r->k = k == 3 ? Re::kCat : Re::kAlt;
  size_t left = 1 + c.choose(size - 2, "left size");
  r->l = genRe(c, left);
  r->r = genRe(c, size - 1 - left);
  return r;
}
std::string reText(const ReP& r) {
  switch (r->k) {
    case Re::kChar: return std::string(1, r->c);
    case Re::kDot: return ".";
    case Re::kSet: return "[ac]";
    case Re::kNotSet: return "[^a]";
    case Re::kCat: return reText(r->l) + reText(r->r);
    case Re::kAlt: return "(" + reText(r->l) + "|" + reText(r->r) + ")";
    default: {
      auto t = reText(r->l);
      if (r->l->k == Re::kCat) t = "(" + t + ")";
      return t + (r->k == Re::kStar ? "*" : r->k == Re::kPlus ? "+" : "?");
    }
  }
}
uint64_t reEnds(const ReP& r, const std::string& s, size_t i) {  // set of end positions of matches starting at i
  auto one = [&](bool ok) -> uint64_t { return ok ? (uint64_t)1 << (i + 1) : 0; };
  auto many = [&](const ReP& x, uint64_t from) {
    uint64_t out = 0;
    for (size_t k = 0; k <= s.size(); ++k)
      if (from >> k & 1) out |= reEnds(x, s, k);
    return out;
  };
  switch (r->k) {
    case Re::kChar: return one(i < s.size() && s[i] == r->c);
    case Re::kDot: return one(i < s.size());
    case Re::kSet: return one(i < s.size() && (s[i] == 'a' || s[i] == 'c'));
    case Re::kNotSet: return one(i < s.size() && s[i] != 'a');
    case Re::kCat: return many(r->r, reEnds(r->l, s, i));
    case Re::kAlt: return reEnds(r->l, s, i) | reEnds(r->r, s, i);
    case Re::kOpt: return (uint64_t)1 << i | reEnds(r->l, s, i);
    default: {
      uint64_t cur = r->k == Re::kStar ? (uint64_t)1 << i : reEnds(r->l, s, i);
      for (;;) {
        uint64_t nx = cur | many(r->l, cur);
        if (nx == cur) return cur;
        cur = nx;
      }
    }
  }
}
void regexps(Ctx& c) {
  int size = 1 + (int)c.choose(c.thorough() ? 7 : 6, "size");
  auto re = genRe(c, size);
  auto pat = reText(re);
  auto& tv = texts("abc", c.thorough() ? 5 : 3);
  Exact pb(pat);
  uint64_t h = size;
  c.op("REGEXP '%s'", pat.c_str());
  for (auto& s : tv) {
    Exact sb(s);
    bool want = reEnds(re, s, 0) >> s.size() & 1, got = regexp_like(sb.p, sb.n, pb.p, pb.n, '\\');
    if (got != want) c.fail("regexp", strf("%s REGEXP '%s' is %d, expected %d", show(s).c_str(), pat.c_str(), got, want));
    h = mc::mix(h, want);
  }
  Exact sb(tv[1]);
  bool want = reEnds(re, tv[1], 0) >> tv[1].size() & 1;
  if (regexp_like_nullable(sb.p, sb.n, pb.p, pb.n, '\\', -128) != want || regexp_like_nullable(nullptr, 0, pb.p, pb.n, '\\', -128) != -128 ||
      regexp_like_nullable(sb.p, sb.n, nullptr, 0, '\\', -128) != -128)
    c.fail("regexp_null", "nullable REGEXP '" + pat + "'");
  c.state(h);
}
void regexpInvalid(Ctx& c) {
  static const std::vector<std::string> bad = {"(", "(a", "[", "[a", "a)", "a{2", "a{3,2}", "\\"};
  auto& p = bad[c.choose(bad.size(), "pattern")];
  auto& tv = texts("a(", 2);
  Exact pb(p);
  c.op("malformed REGEXP '%s'", p.c_str());
  if (p == "a)") return;  // boost accepts some of these as literals; only that it does not escape as an exception matters
  for (auto& s : tv) {
    Exact sb(s);
    (void)regexp_like(sb.p, sb.n, pb.p, pb.n, '\\');
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> sc = {{"like-wide", likeWide, 3},    {"like-deep", likeDeep, 3}, {"like-literals", likeLiterals, 3}, {"like-escapes", likeEscapes, 3},
                                  {"like-long", likeLong, 3},    {"compare", comparisons, 1}, {"regexp", regexps, 3},             {"regexp-invalid", regexpInvalid, 1}};
  mc::Options o;
  o.worker_init = [] { hu::quietLogger(); };
  o.rule =
      "every pattern over an alphabet of wildcards, brackets, escapes and letters up to the length bound against every string up to its bound, for LIKE and ILIKE with six escape characters; "
      "every pair of strings over five bytes (including NUL and non-ASCII) for the comparisons; every regular expression tree up to the size bound. A state is a class of matching results";
  o.assumptions = {"ILIKE patterns arrive in lower case, as the planner passes them", "malformed LIKE patterns (unclosed bracket, trailing escape) match nothing"};
  return mc::run(argc, argv, sc, o);
}
