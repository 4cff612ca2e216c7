// Small helpers shared by the harnesses.
#pragma once
#include "Logger/Logger.h"
#include "mc.h"
#include <algorithm>
#include <sstream>

namespace hu {
inline void quietLogger() {
  static char arg0[] = "verif";
  char* argv[] = {arg0, nullptr};
  logger::LogOptions lo(arg0);
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  lo.max_files_ = 0;
  lo.set_options();
  lo.parse_command_line(1, argv);
  logger::init(lo);
}
template <class V>
std::string join(const V& v) {
  std::ostringstream o;
  o << '[';
  bool f = true;
  for (auto& x : v) {
    o << (f ? "" : " ") << x;
    f = false;
  }
  o << ']';
  return o.str();
}
template <class T>
std::vector<T> sorted(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  return v;
}
// SQL LIKE, reference: '%' any run, '_' one char, escape makes the next char literal.
inline bool likeRef(const std::string& s, size_t i, const std::string& p, size_t j, char esc) {
  if (j == p.size()) return i == s.size();
  if (p[j] == esc) {
    if (j + 1 >= p.size()) return false;
    return i < s.size() && s[i] == p[j + 1] && likeRef(s, i + 1, p, j + 2, esc);
  }
  if (p[j] == '%') {
    for (size_t k = i; k <= s.size(); ++k) {
      if (likeRef(s, k, p, j + 1, esc)) return true;
    }
    return false;
  }
  return i < s.size() && (p[j] == '_' || s[i] == p[j]) && likeRef(s, i + 1, p, j + 1, esc);
}
inline std::string lower(std::string s) {
  for (auto& c : s) {
    if (c >= 'A' && c <= 'Z') c += 32;
  }
  return s;
}
}  // namespace hu
