// C17: a result set hands out exactly the rows its buffers hold, by every way of reading it.
#include "IR/Context.h"
#include "ResultSet/ResultSet.h"
#include "ResultSet/ResultSetBufferAccessors.h"
#include "ResultSet/RowSetMemoryOwner.h"
#include "Shared/EmptyKeyValues.h"
#include "StringDictionary/StringDictionary.h"
#include "hutil.h"
#include "mc.h"

#include <tbb/global_control.h>
#include <cstring>
#include <map>
#include <memory>
#include <optional>

using mc::Ctx;
using mc::strf;
using hdk::ir::AggType;
#define CHK(cond, key, msg)        \
  do {                             \
    if (!(cond)) c.fail(key, msg); \
  } while (0)

namespace {
hdk::ir::Context& T() { return hdk::ir::Context::defaultCtx(); }
constexpr int DICT = 7;

// A cell as it should be read.
struct Cell {
  bool null = false;
  int64_t i = 0;  // integers, ids
  double d = 0;   // floating point
  std::string s;  // strings
  std::vector<int64_t> a;
};
using Row = std::vector<Cell>;

enum Kind { Int, Fp, Str, Arr };
struct ColT {
  const char* name;
  const hdk::ir::Type* stored;  // as it lies in a table
  Kind kind;
  std::vector<int64_t> ints;
  std::vector<double> fps;
};

const std::vector<std::string>& words() {
  static std::vector<std::string> w = {"x", "", "yy", "with\0zero", "zzz"};
  return w;
}

std::shared_ptr<StringDictionary> dict() {
  static std::shared_ptr<StringDictionary> d;
  if (!d) {
    d = std::make_shared<StringDictionary>(DictRef{1, DICT}, -1, false);
    for (auto& s : {"apple", "bee", "cat", "dog", "eel"}) d->getOrAdd(s);
  }
  return d;
}
const char* dword(int64_t id) {
  static const char* w[] = {"apple", "bee", "cat", "dog", "eel"};
  return w[id];
}

const std::vector<ColT>& cols() {
  using hdk::ir::TimeUnit;
  static std::vector<ColT> v = {
      {"int64", T().int64(), Int, {0, -1, INT64_MAX, INT64_MIN + 1, 1}, {}},
      {"int32", T().int32(), Int, {0, -1, INT32_MAX, INT32_MIN + 1, 1}, {}},
      {"int16", T().int16(), Int, {0, -1, INT16_MAX, INT16_MIN + 1, 1}, {}},
      {"int8", T().int8(), Int, {0, -1, INT8_MAX, INT8_MIN + 1, 1}, {}},
      {"bool", T().boolean(), Int, {0, 1, 0, 1, 1}, {}},
      {"float", T().fp32(), Fp, {}, {0, -1.5, 3e38, 1e-30, 2}},
      {"double", T().fp64(), Fp, {}, {0, -1.5, 1e308, 1e-300, 2}},
      {"decimal", T().decimal64(12, 2), Int, {0, -150, 99999999999, 1, -1}, {}},
      {"timestamp", T().timestamp(TimeUnit::kMilli), Int, {0, -1, 1600000000123, 86400000, 5}, {}},
      {"date", T().date64(TimeUnit::kSecond), Int, {0, -86400, 86400, 1600041600, 864000}, {}},
      {"time", T().time64(TimeUnit::kSecond), Int, {0, 1, 86399, 3600, 60}, {}},
      {"interval", T().interval64(TimeUnit::kMilli), Int, {0, -1, 86399, 3600, 60}, {}},
      {"dict", T().extDict(T().text(), DICT, 4), Int, {0, 1, 2, 3, 4}, {}},
      {"text", T().text(), Str, {}, {}},
      {"array", T().arrayVarLen(T().int32()), Arr, {}, {}},
  };
  return v;
}
// Narrow forms that only lie in tables (read through lazy fetch).
const std::vector<ColT>& lazyCols() {
  using hdk::ir::TimeUnit;
  static std::vector<ColT> v = {
      {"lazy int64", T().int64(), Int, {0, -1, INT64_MAX, INT64_MIN + 1, 1}, {}},
      {"lazy int32", T().int32(), Int, {0, -1, INT32_MAX, INT32_MIN + 1, 1}, {}},
      {"lazy int8", T().int8(), Int, {0, -1, INT8_MAX, INT8_MIN + 1, 1}, {}},
      {"lazy float", T().fp32(), Fp, {}, {0, -1.5, 3e38, 1e-30, 2}},
      {"lazy double", T().fp64(), Fp, {}, {0, -1.5, 1e308, 1e-300, 2}},
      {"lazy date16", T().date16(TimeUnit::kDay), Int, {0, -86400, 86400, 864000, 2678400}, {}},
      {"lazy date32", T().date32(TimeUnit::kDay), Int, {0, -86400, 86400, 864000, 8640000000}, {}},
      {"lazy time32", T().time32(TimeUnit::kSecond), Int, {0, 1, 86399, 3600, 60}, {}},
      {"lazy dict32", T().extDict(T().text(), DICT, 4), Int, {0, 1, 2, 3, 4}, {}},
      {"lazy dict16", T().extDict(T().text(), DICT, 2), Int, {0, 1, 2, 3, 4}, {}},
      {"lazy dict8", T().extDict(T().text(), DICT, 1), Int, {0, 1, 2, 3, 4}, {}},
      {"lazy decimal", T().decimal64(12, 2), Int, {0, -150, 99999999999, 1, -1}, {}},
      {"lazy bool", T().boolean(), Int, {0, 1, 0, 1, 1}, {}},
  };
  return v;
}

Cell cellOf(const ColT& t, int v) {
  Cell r;
  if (v < 0) {
    r.null = true;
    return r;
  }
  switch (t.kind) {
    case Int: r.i = t.ints[v]; break;
    case Fp: r.d = t.stored->isFp32() ? double(float(t.fps[v])) : t.fps[v]; break;
    case Str: r.s = words()[v]; break;
    default:
      for (int k = 0; k < v; ++k) r.a.push_back(k * 10 - 10);
  }
  return r;
}
std::string show(const Cell& x, const hdk::ir::Type* t) {
  if (x.null) return "null";
  if (t->isFloatingPoint()) return strf("%.17g", x.d);
  if (t->isString()) return "'" + x.s + "'";
  if (t->isArray()) return hu::join(x.a);
  return std::to_string(x.i);
}

// Does `v` say what cell `x` of logical type t should read as?
bool same(const TargetValue& v, const Cell& x, const hdk::ir::Type* t, bool translate, bool dec2d) {
  if (t->isArray()) {
    auto a = boost::get<ArrayTargetValue>(&v);
    if (!a) return false;
    if (x.null) return !a->is_initialized();
    if (!a->is_initialized() || (*a)->size() != x.a.size()) return false;
    for (size_t i = 0; i < x.a.size(); ++i) {
      auto p = boost::get<int64_t>(&(**a)[i]);
      if (!p || *p != x.a[i]) return false;
    }
    return true;
  }
  auto s = boost::get<ScalarTargetValue>(&v);
  if (!s) return false;
  if (t->isString() || (t->isExtDictionary() && translate)) {
    auto n = boost::get<NullableString>(s);
    if (!n) return false;
    if (x.null) return n->type() == typeid(void*);
    auto p = boost::get<std::string>(n);
    return p && *p == (t->isString() ? x.s : std::string(dword(x.i)));
  }
  if (t->isExtDictionary()) {
    auto p = boost::get<int64_t>(s);
    return p && *p == (x.null ? int64_t(NULL_INT) : x.i);
  }
  if (t->isFp32()) {
    auto p = boost::get<float>(s);
    return p && (x.null ? *p == NULL_FLOAT : *p == float(x.d));
  }
  if (t->isFp64()) {
    auto p = boost::get<double>(s);
    return p && (x.null ? *p == NULL_DOUBLE : *p == x.d);
  }
  if (t->isDecimal() && dec2d) {
    auto p = boost::get<double>(s);
    return p && (x.null ? *p == NULL_DOUBLE : std::abs(*p - double(x.i) / 100) <= 1e-9 * std::abs(double(x.i)));
  }
  auto p = boost::get<int64_t>(s);
  if (!p) return false;
  if (!x.null) return *p == x.i;
  switch (t->canonicalSize()) {
    case 1: return *p == INT8_MIN;
    case 2: return *p == INT16_MIN;
    case 4: return *p == INT32_MIN;
    default: return *p == INT64_MIN;
  }
}

std::string showGot(const TargetValue& v) {
  if (auto a = boost::get<ArrayTargetValue>(&v)) return a->is_initialized() ? strf("array of %zu", (*a)->size()) : "null array";
  auto s = boost::get<ScalarTargetValue>(&v);
  if (!s) return "?";
  if (auto p = boost::get<int64_t>(s)) return std::to_string(*p);
  if (auto p = boost::get<float>(s)) return strf("%.9gf", *p);
  if (auto p = boost::get<double>(s)) return strf("%.17g", *p);
  auto n = boost::get<NullableString>(s);
  if (auto p = n ? boost::get<std::string>(n) : nullptr) return "'" + *p + "'";
  return "null string";
}

void put(int8_t* p, int64_t v, size_t w) { memcpy(p, &v, w); }
int64_t nullOf(size_t w) { return w == 1 ? INT8_MIN : w == 2 ? INT16_MIN : w == 4 ? INT32_MIN : INT64_MIN; }

// What a row of a result looks like from outside, for checks of every access path.
struct Expect {
  std::vector<const hdk::ir::Type*> types;
  std::vector<std::optional<Row>> entries;  // by entry; nothing = empty entry
  std::vector<uint32_t> perm;               // order to read in, if not empty
  size_t drop = 0, keep = 0;
  std::vector<size_t> visible() const {
    std::vector<size_t> all, r;
    if (perm.empty()) {
      for (size_t i = 0; i < entries.size(); ++i)
        if (entries[i]) all.push_back(i);
    } else {
      for (auto i : perm) all.push_back(i);
    }
    for (size_t i = drop; i < all.size() && (!keep || i < drop + keep); ++i) r.push_back(all[i]);
    return r;
  }
};

void checkRow(Ctx& c, const std::vector<TargetValue>& got, const Row& want, const Expect& e, bool tr, bool dd, const std::string& what, const char* how) {
  CHK(got.size() == want.size(), "result:columns", strf("%s: %s gave %zu columns", what.c_str(), how, got.size()));
  for (size_t k = 0; k < want.size(); ++k)
    CHK(same(got[k], want[k], e.types[k], tr, dd), "result:value", strf("%s: %s column %zu (%s) should read %s%s%s, got %s", what.c_str(), how, k, e.types[k]->toString().c_str(), show(want[k], e.types[k]).c_str(), tr ? " translated" : "", dd ? " as double" : "", showGot(got[k]).c_str()));
}

void verify(Ctx& c, const std::shared_ptr<ResultSet>& rs, const Expect& e, const std::string& what) {
  auto vis = e.visible();
  size_t ne = e.perm.empty() ? e.entries.size() : e.perm.size();
  CHK(rs->colCount() == e.types.size(), "result:columns", what + ": wrong number of columns");
  CHK(rs->entryCount() == ne, "result:entries", strf("%s: %zu entries, want %zu", what.c_str(), rs->entryCount(), ne));
  {
    auto copy = rs->shallowCopy();
    CHK(copy->rowCount(true) == vis.size(), "result:count", strf("%s: parallel row count %zu, want %zu", what.c_str(), copy->rowCount(true), vis.size()));
  }
  CHK(rs->rowCount() == vis.size(), "result:count", strf("%s: row count %zu, want %zu", what.c_str(), rs->rowCount(), vis.size()));
  CHK(rs->rowCount() == vis.size(), "result:count", what + ": the second row count differs");
  CHK(rs->isEmpty() == vis.empty(), "result:empty", what + ": wrong emptiness");
  CHK(!rs->definitelyHasNoRows() || vis.empty(), "result:empty", what + ": claims to have no rows");
  CHK(rs->isTruncated() == (e.keep || e.drop), "result:truncated", what + ": truncated flag");
  CHK(rs->getLimit() == e.keep && rs->getOffset() == e.drop, "result:truncated", what + ": limit or offset");
  // Sequential reading, twice, and a restart in the middle.
  for (int pass = 0; pass < 3; ++pass) {
    bool tr = pass != 1, dd = pass == 1;
    rs->moveToBegin();
    if (pass == 2) {
      for (size_t k = 0; k < (vis.size() + 1) / 2; ++k) rs->getNextRow(tr, dd);
      rs->moveToBegin();
    }
    for (size_t r = 0; r < vis.size(); ++r) {
      auto row = rs->getNextRow(tr, dd);
      CHK(!row.empty(), "result:lost", strf("%s: reading stopped after %zu of %zu rows", what.c_str(), r, vis.size()));
      CHK(e.perm.size() || rs->getCurrentRowBufferIndex() == vis[r], "result:position", strf("%s: row %zu comes from entry %zu, want %zu", what.c_str(), r, rs->getCurrentRowBufferIndex(), vis[r]));
      checkRow(c, row, *e.entries[vis[r]], e, tr, dd, what, strf("row %zu", r).c_str());
    }
    CHK(rs->getNextRow(tr, dd).empty() && rs->getNextRow(tr, dd).empty(), "result:extra", what + ": more rows than there are");
  }
  // Iterators from every start.
  for (size_t from = 0; from <= vis.size(); ++from) {
    auto it = rs->rowIterator(from, true, false);
    size_t r = from;
    while (it.isValid()) {
      CHK(r < vis.size(), "result:extra", what + ": the iterator gives more rows than there are");
      checkRow(c, *it, *e.entries[vis[r]], e, true, false, what, strf("iterator row %zu", r).c_str());
      ++it;
      ++r;
    }
    CHK(r == vis.size(), "result:lost", strf("%s: the iterator from %zu stopped after row %zu of %zu", what.c_str(), from, r, vis.size()));
  }
  // Random access to rows.
  for (size_t k = vis.size(); k-- > 0;) {
    checkRow(c, rs->getRowAt(k, false, false), *e.entries[vis[k]], e, false, false, what, strf("row at %zu", k).c_str());
    for (size_t j = 0; j < e.types.size(); ++j) CHK(same(rs->getRowAt(k, j, true, true), (*e.entries[vis[k]])[j], e.types[j], true, true), "result:value", strf("%s: cell %zu,%zu", what.c_str(), k, j));
  }
  // Access by entry does not know limits.
  for (size_t i = 0; i < ne; ++i) {
    size_t x = e.perm.empty() ? i : e.perm[i];
    CHK(rs->isRowAtEmpty(i) == !e.entries[x], "result:entry", strf("%s: entry %zu should be %s", what.c_str(), i, e.entries[x] ? "used" : "empty"));
    auto row = rs->getRowAt(i);
    auto raw = rs->getRowAtNoTranslations(i);
    CHK(row.empty() == !e.entries[x] && raw.empty() == !e.entries[x], "result:entry", strf("%s: entry %zu", what.c_str(), i));
    if (e.entries[x]) {
      checkRow(c, row, *e.entries[x], e, true, false, what, strf("entry %zu", i).c_str());
      checkRow(c, raw, *e.entries[x], e, false, false, what, strf("untranslated entry %zu", i).c_str());
      for (size_t j = 0; j < e.types.size(); ++j) {
        std::vector<bool> skip(e.types.size(), true);
        skip[j] = false;
        auto one = rs->getRowAtNoTranslations(i, skip);
        CHK(one.size() == e.types.size() && same(one[j], (*e.entries[x])[j], e.types[j], false, false), "result:value", strf("%s: entry %zu, only column %zu", what.c_str(), i, j));
      }
    }
    if (e.perm.empty() && !rs->didOutputColumnar() && e.types[0]->isInteger()) {
      auto one = rs->getOneColRow(i);
      CHK(one.valid == bool(e.entries[x]), "result:entry", strf("%s: single column access to entry %zu", what.c_str(), i));
      if (one.valid) CHK(same(TargetValue(ScalarTargetValue(one.value)), (*e.entries[x])[0], e.types[0], false, false), "result:value", strf("%s: single column access to entry %zu gave %ld", what.c_str(), i, long(one.value)));
    }
  }
  CHK(rs->getRowAt(ne).empty() && rs->getRowAtNoTranslations(ne + 1).empty() && rs->isRowAtEmpty(ne), "result:extra", what + ": an entry past the end");
  // The printed form has one line for each row.
  bool printable = true;
  for (auto i : vis)
    for (size_t j = 0; j < e.types.size(); ++j) printable &= !(*e.entries[i])[j].null || !e.types[j]->isExtDictionary();
  for (auto t : e.types) printable &= !t->isArray() && !t->isTime();
  if (printable) {
    auto txt = rs->contentToString(false);
    CHK(size_t(std::count(txt.begin(), txt.end(), '\n')) == vis.size(), "result:print", what + ": printed another number of rows");
  }
  // Copies do not share the cursor.
  rs->moveToBegin();
  if (vis.size() > 1) {
    rs->getNextRow(false, false);
    auto copy = rs->shallowCopy();
    checkRow(c, copy->getNextRow(true, false), *e.entries[vis[0]], e, true, false, what, "first row of a copy");
    checkRow(c, rs->getNextRow(true, false), *e.entries[vis[1]], e, true, false, what, "second row after copying");
  }
  // Variable-length offsets.
  for (size_t j = 0; j < e.types.size(); ++j) {
    if (!e.types[j]->isVarLen()) continue;
    std::vector<int32_t> off(vis.size() + 1, -77);
    size_t n = rs->computeVarLenOffsets(j, off.data());
    CHK(n == vis.size() + 1 && off[0] == 0, "result:offsets", strf("%s: %zu offsets for %zu rows", what.c_str(), n, vis.size()));
    int64_t at = 0;
    for (size_t r = 0; r < vis.size(); ++r) {
      auto& x = (*e.entries[vis[r]])[j];
      if (!x.null) at += e.types[j]->isString() ? x.s.size() : x.a.size() * 4;
      bool neg = x.null && !e.types[j]->isString();
      CHK(off[r + 1] == (neg ? -at : at), "result:offsets", strf("%s: offset %zu is %d, want %ld", what.c_str(), r + 1, off[r + 1], long(neg ? -at : at)));
    }
  }
}

struct Buf {
  std::vector<int64_t> mem;
  int8_t* p() { return reinterpret_cast<int8_t*>(mem.data()); }
};
// Keeps everything a result set points to.
struct World {
  std::shared_ptr<RowSetMemoryOwner> owner = std::make_shared<RowSetMemoryOwner>(nullptr, 4096, 1);
  std::list<Buf> bufs;
  std::list<std::string> strs;
  std::list<std::vector<int32_t>> arrs;
  World() { owner->addStringDict(dict(), DICT, -1); }
  Buf& buf(size_t bytes) {
    bufs.emplace_back();
    bufs.back().mem.assign((bytes + 7) / 8, 0x5a5a5a5a5a5a5a5a);
    bufs.back().mem.shrink_to_fit();
    bufs.back().mem.reserve(1);
    return bufs.back();
  }
};

// ---- projections ----------------------------------------------------------------------------------------------
struct Proj {
  World w;
  bool columnar;
  std::vector<const ColT*> cts;
  std::vector<TargetInfo> targets;
  QueryMemoryDescriptor base(size_t entries) {
    QueryMemoryDescriptor q(QueryDescriptionType::Projection, 0, 0, false, {8});
    for (auto t : cts) {
      int8_t w8 = t->stored->canonicalize()->size();
      if (t->kind == Str || t->kind == Arr) q.addColSlotInfo({{8, 8}, {8, 8}});
      else q.addColSlotInfo({{w8, 8}});
    }
    q.setEntryCount(entries);
    q.setOutputColumnar(columnar);
    return q;
  }
  void writeCell(int8_t* p, size_t width, int8_t* p2, const ColT& t, const Cell& x) {
    switch (t.kind) {
      case Int: put(p, x.null ? nullOf(t.stored->canonicalSize()) : x.i, width); break;
      case Fp:
        if (width == 4) {
          float f = x.null ? NULL_FLOAT : float(x.d);
          memcpy(p, &f, 4);
        } else {
          double d = x.null ? (t.stored->isFp32() ? double(NULL_FLOAT) : NULL_DOUBLE) : x.d;
          memcpy(p, &d, 8);
        }
        break;
      case Str:
        w.strs.push_back(x.s);
        put(p, x.null ? 0 : reinterpret_cast<int64_t>(w.strs.back().data()), 8);
        put(p2, x.null ? 0 : x.s.size(), 8);
        break;
      case Arr:
        w.arrs.emplace_back(x.a.begin(), x.a.end());
        w.arrs.back().reserve(1);
        put(p, x.null ? 0 : reinterpret_cast<int64_t>(w.arrs.back().data()), 8);
        put(p2, x.null ? 0 : x.a.size(), 8);
        break;
    }
  }
  void fill(QueryMemoryDescriptor& q, int8_t* b, const std::vector<std::optional<Row>>& rows) {
    size_t n = rows.size();
    for (size_t i = 0; i < n; ++i) {
      if (columnar) put(b + 8 * i, rows[i] ? int64_t(i) : int64_t(EMPTY_KEY_64), 8);
      else put(b + i * q.getRowSize(), rows[i] ? int64_t(i) : int64_t(EMPTY_KEY_64), 8);
      if (!rows[i]) continue;
      size_t slot = 0;
      for (size_t k = 0; k < cts.size(); ++k) {
        auto at = [&](size_t s) { return columnar ? b + q.getColOffInBytes(s) + i * q.getPaddedSlotWidthBytes(s) : b + i * q.getRowSize() + q.getColOffInBytes(s); };
        bool two = cts[k]->kind == Str || cts[k]->kind == Arr;
        writeCell(at(slot), q.getPaddedSlotWidthBytes(slot), two ? at(slot + 1) : nullptr, *cts[k], (*rows[i])[k]);
        slot += two ? 2 : 1;
      }
    }
  }
  std::shared_ptr<ResultSet> make(const std::vector<std::optional<Row>>& rows) {
    auto q = base(rows.size());
    auto rs = std::make_shared<ResultSet>(targets, ExecutorDeviceType::CPU, q, w.owner, nullptr, 0, 0);
    auto& b = w.buf(q.getBufferSizeBytes(ExecutorDeviceType::CPU));
    b.mem.reserve(1);
    fill(q, b.p(), rows);
    rs->allocateStorage(b.p(), result_set::initialize_target_values_for_storage(targets));
    return rs;
  }
};

void chunks(Ctx& c, ResultSet& rs, const Expect& e, const std::string& what) {
  auto vis = e.visible();
  for (size_t j = 0; j < e.types.size(); ++j) {
    bool fixed = !e.types[j]->isString() && !e.types[j]->isArray();
    CHK(rs.isChunkedZeroCopyColumnarConversionPossible(j) == (rs.didOutputColumnar() && fixed), "result:direct", strf("%s: column %zu", what.c_str(), j));
    CHK(rs.isZeroCopyColumnarConversionPossible(j) == (rs.didOutputColumnar() && fixed && rs.getStorageCount() == 1), "result:direct", strf("%s: column %zu in one piece", what.c_str(), j));
    if (!rs.didOutputColumnar() || !fixed) continue;
    size_t w = e.types[j]->size(), r = 0;
    auto cell = [&](const int8_t* p, const Cell& x) {
      if (e.types[j]->isFp32()) {
        float f;
        memcpy(&f, p, 4);
        return x.null ? f == NULL_FLOAT : f == float(x.d);
      }
      if (e.types[j]->isFp64()) {
        double f;
        memcpy(&f, p, 8);
        return x.null ? f == NULL_DOUBLE : f == x.d;
      }
      int64_t v = w == 1 ? *p : w == 2 ? *reinterpret_cast<const int16_t*>(p) : w == 4 ? *reinterpret_cast<const int32_t*>(p) : *reinterpret_cast<const int64_t*>(p);
      return v == (x.null ? nullOf(w) : x.i);
    };
    for (auto& [p, n] : rs.getChunkedColumnarBuffer(j))
      for (size_t k = 0; k < n; ++k, ++r) {
        CHK(r < vis.size(), "result:extra", strf("%s: column %zu has more direct values than rows", what.c_str(), j));
        CHK(cell(p + k * w, (*e.entries[vis[r]])[j]), "result:direct", strf("%s: direct value %zu of column %zu", what.c_str(), r, j));
      }
    CHK(r == vis.size(), "result:lost", strf("%s: column %zu has %zu direct values for %zu rows", what.c_str(), j, r, vis.size()));
    std::vector<int8_t> out(vis.size() * w + 1, 0x11);
    out.shrink_to_fit();
    rs.copyColumnIntoBuffer(j, out.data(), vis.size() * w);
    for (size_t k = 0; k < vis.size(); ++k) CHK(cell(out.data() + k * w, (*e.entries[vis[k]])[j]), "result:copy", strf("%s: copied value %zu of column %zu", what.c_str(), k, j));
    if (rs.isZeroCopyColumnarConversionPossible(j)) {
      auto p = rs.getColumnarBuffer(j);
      for (size_t i = 0; i < e.entries.size(); ++i)
        if (e.entries[i]) CHK(cell(p + i * w, (*e.entries[i])[j]), "result:direct", strf("%s: value %zu of column %zu in place", what.c_str(), i, j));
    }
  }
}

// Every type, alone and between others, with every value.
void projTypes(Ctx& c) {
  Proj p;
  p.columnar = c.flip("columnar");
  size_t a = c.choose(cols().size(), "type");
  size_t before = c.choose(cols().size() + 1, "column before");
  bool nn = c.flip("not null");
  if (before) p.cts.push_back(&cols()[before - 1]);
  p.cts.push_back(&cols()[a]);
  p.cts.push_back(&cols()[3]);
  Expect e;
  for (auto t : p.cts) {
    auto ty = t->stored->canonicalize();
    if (t == &cols()[a] && nn) ty = ty->withNullable(false);
    p.targets.push_back({false, AggType::kMin, ty, nullptr, false, false, 0, false, 0, hdk::ir::Interpolation::kLower});
    e.types.push_back(ty);
  }
  bool varlen = cols()[a].kind == Str || cols()[a].kind == Arr;
  if (varlen && p.columnar && cols()[a].kind == Arr) c.op("array");
  for (int v = nn ? 0 : -1; v < 5; ++v) {
    Row r;
    for (size_t k = 0; k < p.cts.size(); ++k) r.push_back(cellOf(*p.cts[k], p.cts[k] == &cols()[a] ? v : int(e.entries.size() % 5)));
    e.entries.push_back(r);
  }
  e.entries.push_back({});
  auto rs = p.make(e.entries);
  std::string what = strf("%s projection of %s%s after %s", p.columnar ? "columnar" : "row-wise", nn ? "not null " : "", cols()[a].name, before ? cols()[before - 1].name : "nothing");
  c.op("%s", what.c_str());
  verify(c, rs, e, what);
  chunks(c, *rs, e, what);
  c.state(mc::mix(a, before * 4 + p.columnar * 2 + nn));
}

// Storages of every size and filling, appended, cut by every limit and offset, read in another order.
void projRows(Ctx& c) {
  Proj p;
  p.columnar = c.flip("columnar");
  static const int menu[][3] = {{1, 7, -1}, {5, 0, 3}, {12, 13, -1}, {0, -1, -1}, {14, 2, 13}};
  int m = c.choose(c.thorough() ? 5 : 4, "columns");
  for (int k = 0; k < 3 && menu[m][k] >= 0; ++k) p.cts.push_back(&cols()[menu[m][k]]);
  Expect e;
  for (auto t : p.cts) {
    auto ty = t->stored->canonicalize();
    p.targets.push_back({false, AggType::kMin, ty, nullptr, false, false, 0, false, 0, hdk::ir::Interpolation::kLower});
    e.types.push_back(ty);
  }
  size_t ns = 1 + c.choose(3, "storages");
  std::string what = strf("%s projection", p.columnar ? "columnar" : "row-wise");
  std::shared_ptr<ResultSet> rs;
  int seq = 0;
  size_t maxe = c.thorough() && ns < 3 ? 5 : ns == 1 ? 5 : 3;
  for (size_t s = 0; s < ns; ++s) {
    size_t n = c.choose(maxe, "entries");
    size_t used = n ? c.choose(n + 1, "used") : 0;
    std::vector<std::optional<Row>> rows(n);
    for (size_t i = 0; i < used; ++i) {
      Row r;
      for (size_t k = 0; k < p.cts.size(); ++k) r.push_back(cellOf(*p.cts[k], (seq + int(k)) % 6 - 1));
      seq++;
      rows[i] = r;
    }
    what += strf(" +%zu/%zu", used, n);
    auto one = p.make(rows);
    if (s) {
      if (c.thorough() && c.flip("count before append")) rs->rowCount();
      rs->append(*one);
    } else {
      rs = one;
    }
    e.entries.insert(e.entries.end(), rows.begin(), rows.end());
  }
  size_t total = 0;
  for (auto& r : e.entries) total += bool(r);
  int order = total ? c.choose(3, "order") : 0;  // storage order, reversed, every second
  if (order) {
    for (size_t i = e.entries.size(); i-- > 0;)
      if (e.entries[i] && (order == 1 || (e.perm.size() + i) % 2 == 0)) e.perm.push_back(i);
    if (e.perm.empty()) order = 0;
    rs->setPermutationBuffer(e.perm);
    what += " permuted";
  }
  size_t seen = order ? e.perm.size() : total;
  e.drop = c.choose(seen + 2, "offset");
  e.keep = c.choose(seen + 2, "limit");
  bool late = c.flip("count before cutting");
  what += strf(" offset %zu limit %zu", e.drop, e.keep);
  if (late) rs->rowCount();
  if (e.drop || late) rs->dropFirstN(e.drop);
  if (late) rs->rowCount();
  if (e.keep || late) rs->keepFirstN(e.keep);
  c.op("%s", what.c_str());
  verify(c, rs, e, what);
  if (!order) chunks(c, *rs, e, what);
  c.state(mc::mix(mc::mix(m, seq), mc::mix(e.drop, e.keep) * 8 + ns * 2 + p.columnar));
}

// Columns that stay in the table until they are read.
void projLazy(Ctx& c) {
  Proj p;
  p.columnar = c.flip("columnar");
  auto& t = lazyCols()[c.choose(lazyCols().size(), "type")];
  bool eager = c.flip("eager column first");
  size_t ns = 1 + c.choose(2, "storages");
  int frags = 1 + c.choose(c.thorough() ? 4 : 3, "fragments");
  bool even = frags > 1 && c.flip("fragments of one size");
  if (eager) p.cts.push_back(&cols()[1]);
  p.cts.push_back(&t);
  size_t li = p.cts.size() - 1;
  Expect e;
  std::vector<ColumnLazyFetchInfo> lazy;
  for (auto ct : p.cts) {
    auto ty = ct->stored->canonicalize();
    p.targets.push_back({false, AggType::kMin, ty, nullptr, false, false, 0, false, 0, hdk::ir::Interpolation::kLower});
    e.types.push_back(ty);
    bool l = ct == &t;
    lazy.push_back({l, l ? 1 : -1, l ? t.stored : nullptr});
  }
  std::list<std::vector<int8_t>> keep;
  std::shared_ptr<ResultSet> rs;
  for (size_t s = 0; s < ns; ++s) {
    // The table: fragments of 2 rows, or of 1, 3, 2, ... rows.
    auto bufs = std::make_shared<ColBuffers>();
    auto offs = std::make_shared<FragOffsets>();
    auto sizes = std::make_shared<FragSizes>();
    std::vector<Cell> table;
    size_t w = t.stored->size();
    for (int f = 0; f < frags; ++f) {
      size_t rows = even || frags == 1 ? 2 : f % 2 ? 3 : 1;
      offs->push_back(std::vector<int64_t>(p.cts.size(), int64_t(table.size())));
      keep.emplace_back(rows * w);
      for (size_t i = 0; i < rows; ++i) {
        Cell x = cellOf(t, int(table.size() + s) % 6 - 1);
        int8_t* at = keep.back().data() + i * w;
        if (t.kind == Fp) {
          if (w == 4) {
            float f32 = x.null ? NULL_FLOAT : float(x.d);
            memcpy(at, &f32, 4);
          } else {
            double f64 = x.null ? NULL_DOUBLE : x.d;
            memcpy(at, &f64, 8);
          }
        } else {
          int64_t v = x.i;
          if (t.stored->isDate() && w < 8) v /= 86400;
          int64_t nul = t.stored->isExtDictionary() && w == 1 ? 255 : t.stored->isExtDictionary() && w == 2 ? 65535 : nullOf(w);
          put(at, x.null ? nul : v, w);
        }
        table.push_back(x);
      }
      bufs->push_back({nullptr, keep.back().data()});
    }
    *sizes = std::vector<int64_t>(p.cts.size(), even ? 2 : frags == 1 ? 2 : -1);
    size_t n = table.size();
    auto q = p.base(n);
    // Positions of lazily fetched columns are always 8 bytes wide.
    q.clearSlotInfo();
    for (auto ct : p.cts) q.addColSlotInfo({{ct == &t ? int8_t(8) : int8_t(ct->stored->canonicalize()->size()), 8}});
    q.setOutputColumnar(p.columnar);
    auto one = std::make_shared<ResultSet>(p.targets, lazy, bufs, offs, sizes, ExecutorDeviceType::CPU, 0, q, p.w.owner, nullptr, 0, 0);
    auto& b = p.w.buf(q.getBufferSizeBytes(ExecutorDeviceType::CPU));
    for (size_t i = 0; i < n; ++i) {
      size_t pos = n - 1 - i;  // rows refer to table rows in descending order
      Row r;
      put(p.columnar ? b.p() + 8 * i : b.p() + i * q.getRowSize(), int64_t(pos), 8);
      for (size_t k = 0; k < p.cts.size(); ++k) {
        int8_t* at = p.columnar ? b.p() + q.getColOffInBytes(k) + i * q.getPaddedSlotWidthBytes(k) : b.p() + i * q.getRowSize() + q.getColOffInBytes(k);
        if (k == li) {
          put(at, int64_t(pos), 8);
          r.push_back(table[pos]);
        } else {
          Cell x = cellOf(*p.cts[k], int(i + s) % 6 - 1);
          p.writeCell(at, q.getPaddedSlotWidthBytes(k), nullptr, *p.cts[k], x);
          r.push_back(x);
        }
      }
      e.entries.push_back(r);
    }
    one->allocateStorage(b.p(), result_set::initialize_target_values_for_storage(p.targets));
    if (s) rs->append(*one);
    else rs = one;
  }
  std::string what = strf("%s projection with %s in %d %s fragments, %zu storages%s", p.columnar ? "columnar" : "row-wise", t.name, frags, even ? "even" : "uneven", ns, eager ? ", eager column first" : "");
  c.op("%s", what.c_str());
  CHK(rs->areAnyColumnsLazyFetched() && rs->getNumColumnsLazyFetched() == 1, "result:lazy", what);
  CHK(!rs->isChunkedZeroCopyColumnarConversionPossible(li) && !rs->isZeroCopyColumnarConversionPossible(li), "result:direct", what + ": positions handed out as values");
  verify(c, rs, e, what);
  c.state(mc::mix(frags * 4 + ns * 2 + p.columnar, std::hash<std::string>()(t.name)));
}

// ---- groupings ------------------------------------------------------------------------------------------------
enum Agg { Key, Count4, Count8, SumI, MinI4, MaxD, MinF, AvgI, AvgD, AvgF, SampleDict, SumDec, NAGG };
const char* aggName[] = {"key", "count32", "count", "sum", "min int32", "max double", "min float", "avg int", "avg double", "avg float", "sample dict", "sum decimal"};
struct AggT {
  TargetInfo ti;
  int slots;
  const hdk::ir::Type* out;
};
AggT aggOf(Agg a, const hdk::ir::Type* key) {
  auto I = hdk::ir::Interpolation::kLower;
  auto mk = [&](AggType k, const hdk::ir::Type* t, const hdk::ir::Type* arg, bool skip) { return TargetInfo{true, k, t, arg, skip, false, 0, false, 0, I}; };
  switch (a) {
    case Key: return {{false, AggType::kMin, key, nullptr, false, false, 0, false, 0, I}, 1, key};
    case Count4: return {mk(AggType::kCount, T().int32(false), nullptr, false), 1, T().int32(false)};
    case Count8: return {mk(AggType::kCount, T().int64(false), nullptr, false), 1, T().int64(false)};
    case SumI: return {mk(AggType::kSum, T().int64(), T().int64(), true), 1, T().int64()};
    case MinI4: return {mk(AggType::kMin, T().int32(), T().int32(), true), 1, T().int32()};
    case MaxD: return {mk(AggType::kMax, T().fp64(), T().fp64(), true), 1, T().fp64()};
    case MinF: return {mk(AggType::kMin, T().fp32(), T().fp32(), true), 1, T().fp32()};
    case AvgI: return {mk(AggType::kAvg, T().int64(), T().int32(), true), 2, T().fp64()};
    case AvgD: return {mk(AggType::kAvg, T().fp64(), T().fp64(), true), 2, T().fp64()};
    case AvgF: return {mk(AggType::kAvg, T().fp32(), T().fp32(), true), 2, T().fp64()};
    case SampleDict: return {mk(AggType::kSample, T().extDict(T().text(), DICT, 4), T().extDict(T().text(), DICT, 4), true), 1, T().extDict(T().text(), DICT, 4)};
    default: return {mk(AggType::kSum, T().decimal64(12, 2), T().decimal64(12, 2), true), 1, T().decimal64(12, 2)};
  }
}
// Writes aggregate a for entry number i into its slot(s); returns how it reads.
Cell writeAgg(Agg a, int i, int8_t* p, size_t w, int8_t* p2, size_t w2, bool& unset) {
  Cell x;
  bool null = i % 4 == 3;
  switch (a) {
    case Count4: case Count8: x.i = i + 1; put(p, x.i, w); break;
    case SumI: case SumDec: x.null = null; x.i = i * 1000 - 1500; put(p, null ? INT64_MIN : x.i, w); break;
    case MinI4: x.null = null; x.i = 5 - i * 3; put(p, null ? int64_t(INT32_MIN) : x.i, w); break;
    case MaxD: { x.null = null; x.d = i * 1.25 - 2; double d = null ? NULL_DOUBLE : x.d; memcpy(p, &d, 8); break; }
    case MinF: { x.null = null; x.d = i * 1.25 - 2; float f = null ? NULL_FLOAT : float(x.d); put(p, 0, w); memcpy(p, &f, 4); break; }
    case AvgI: x.null = null; x.d = (10.0 * i - 15) / (i + 2); put(p, 10 * i - 15, w); put(p2, null ? 0 : i + 2, w2); break;
    case AvgD: { x.null = null; double d = 2.5 * i - 3; x.d = d / (i + 2); memcpy(p, &d, 8); put(p2, null ? 0 : i + 2, w2); break; }
    case AvgF: { x.null = null; float f = 2.5f * i - 3; x.d = double(f) / (i + 2); put(p, 0, w); memcpy(p, &f, 4); put(p2, null ? 0 : i + 2, w2); break; }
    case SampleDict: x.null = null; x.i = i % 5; put(p, null ? int64_t(NULL_INT) : x.i, w); break;
    default: break;
  }
  unset = x.null;
  return x;
}

struct Layout {
  const char* name;
  QueryDescriptionType kind;
  bool columnar, keyless;
  int keyWidth;  // row-wise key width
};
const Layout layouts[] = {
    {"baseline row-wise", QueryDescriptionType::GroupByBaselineHash, false, false, 8},
    {"baseline row-wise, narrow keys", QueryDescriptionType::GroupByBaselineHash, false, false, 4},
    {"baseline columnar", QueryDescriptionType::GroupByBaselineHash, true, false, 8},
    {"perfect row-wise", QueryDescriptionType::GroupByPerfectHash, false, false, 8},
    {"perfect columnar", QueryDescriptionType::GroupByPerfectHash, true, false, 8},
    {"perfect keyless row-wise", QueryDescriptionType::GroupByPerfectHash, false, true, 8},
    {"perfect keyless columnar", QueryDescriptionType::GroupByPerfectHash, true, true, 8},
    {"no keys row-wise", QueryDescriptionType::NonGroupedAggregate, false, false, 8},
    {"no keys columnar", QueryDescriptionType::NonGroupedAggregate, true, false, 8},
};

struct Grouping {
  World w;
  Expect e;
  std::vector<TargetInfo> targets;
  std::vector<Agg> aggs;
  Layout L;
  size_t nkeys;
  bool narrow;  // 4-byte value slots
  std::shared_ptr<ResultSet> rs;

  std::shared_ptr<ResultSet> one(const std::vector<bool>& used, int seed, std::vector<std::optional<Row>>& rows) {
    bool grouped = L.kind != QueryDescriptionType::NonGroupedAggregate;
    bool baseline = L.kind == QueryDescriptionType::GroupByBaselineHash;
    size_t n = used.size();
    std::vector<int8_t> widths(grouped ? nkeys : 0, 8);
    QueryMemoryDescriptor q(L.kind, 0, int64_t(n) - 1, false, widths);
    std::vector<int64_t> keyOf;
    int k = 0, keyless = -1, slot = 0;
    for (size_t j = 0; j < aggs.size(); ++j) {
      int8_t lw = targets[j].type->size(), pw = narrow ? 4 : 8;
      if (aggs[j] == Key && baseline) {
        q.addColSlotInfo({{0, 0}});
        keyOf.push_back(k++);
      } else {
        if (aggs[j] == AvgI || aggs[j] == AvgD || aggs[j] == AvgF) q.addColSlotInfo({{8, 8}, {8, 8}});
        else q.addColSlotInfo({{lw, pw}});
        keyOf.push_back(-1);
        if (aggs[j] == Count8 || aggs[j] == Count4) keyless = slot;
      }
      slot += aggOf(aggs[j], T().int64()).slots;
    }
    if (narrow) q.alignPaddedSlots();  // rows stay aligned to 8 bytes
    if (baseline) q.setAllTargetGroupbyIndices(keyOf);
    q.setEntryCount(n);
    if (L.keyWidth == 4) q.setGroupColCompactWidth(4);
    if (L.keyless) {
      q.setHasKeylessHash(true);
      q.setTargetIdxForKey(keyless);
    }
    q.setOutputColumnar(L.columnar);
    auto r = std::make_shared<ResultSet>(targets, ExecutorDeviceType::CPU, q, w.owner, nullptr, 0, 0);
    auto& b = w.buf(q.getBufferSizeBytes(ExecutorDeviceType::CPU));
    size_t rowsz = L.columnar ? 0 : q.getRowSize();
    rows.assign(n, {});
    for (size_t i = 0; i < n; ++i) {
      int id = seed + int(i);
      if (grouped && !L.keyless)
        for (size_t g = 0; g < nkeys; ++g) {
          int64_t kv = used[i] ? id * 10 + int(g) : L.keyWidth == 4 ? int64_t(EMPTY_KEY_32) : int64_t(EMPTY_KEY_64);
          if (L.columnar) put(b.p() + q.getPrependedGroupColOffInBytes(g) + i * 8, kv, 8);
          else put(b.p() + i * rowsz + g * L.keyWidth, kv, L.keyWidth);
        }
      Row row;
      int key = 0;
      size_t s = 0;
      for (size_t j = 0; j < aggs.size(); ++j) {
        int ns = aggOf(aggs[j], T().int64()).slots;
        auto at = [&](size_t x) { return L.columnar ? b.p() + q.getColOffInBytes(x) + i * q.getPaddedSlotWidthBytes(x) : b.p() + i * rowsz + q.getColOffInBytes(x); };
        if (aggs[j] == Key) {
          Cell x;
          x.i = id * 10 + key++;
          if (!baseline && used[i]) put(at(s), x.i, q.getPaddedSlotWidthBytes(s));
          row.push_back(x);
        } else if (!used[i]) {
          // An unused entry holds the initial values, which tell it apart when there are no keys.
          if (aggs[j] == Count8 || aggs[j] == Count4) put(at(s), 0, q.getPaddedSlotWidthBytes(s));
        } else {
          bool unset;
          row.push_back(writeAgg(aggs[j], id, at(s), q.getPaddedSlotWidthBytes(s), ns == 2 ? at(s + 1) : nullptr, ns == 2 ? q.getPaddedSlotWidthBytes(s + 1) : 0, unset));
        }
        s += ns;
      }
      if (used[i]) rows[i] = row;
    }
    r->allocateStorage(b.p(), result_set::initialize_target_values_for_storage(targets));
    return r;
  }
};

void groups(Ctx& c, bool deep) {
  Grouping g;
  size_t l = c.choose(9, "layout");
  g.L = layouts[l];
  bool grouped = g.L.kind != QueryDescriptionType::NonGroupedAggregate;
  bool baseline = g.L.kind == QueryDescriptionType::GroupByBaselineHash;
  g.nkeys = grouped ? 1 + c.choose(g.L.keyless ? 1 : deep ? 3 : 2, "keys") : 0;
  if (grouped && !g.L.keyless) {
    // A perfect hash over several keys projects them as ordinary targets; keep one of them.
    for (size_t k = 0; k < (baseline ? g.nkeys : 1); ++k) g.aggs.push_back(Key);
  }
  if (deep) {
    int which = c.choose(NAGG - 1, "aggregate");
    int second = c.choose(NAGG, "second aggregate");
    if (g.L.keyless) g.aggs.push_back(Count8);
    g.aggs.push_back(Agg(1 + which));
    if (second) g.aggs.push_back(Agg(second));
    if (baseline && c.flip("key last")) std::rotate(g.aggs.begin(), g.aggs.begin() + 1, g.aggs.end());
  } else {
    static const std::vector<Agg> menus[] = {{Count8}, {AvgI, Count8}, {MinF, AvgD, Count8}, {SumDec, SampleDict, Count8}};
    for (auto a : menus[c.choose(4, "aggregates")]) g.aggs.push_back(a);
  }
  g.narrow = false;
  if (!g.L.columnar && baseline && !deep) {
    g.narrow = c.flip("narrow slots");
    if (g.narrow) {
      std::vector<Agg> r;
      for (auto a : g.aggs)
        if (a == Key) r.push_back(a);
      r.push_back(Count4);
      r.push_back(MinI4);
      if (c.flip("third")) r.push_back(SampleDict);
      g.aggs = r;
    }
  }
  auto keyType = g.L.keyWidth == 4 ? T().int32() : T().int64();
  for (auto a : g.aggs) {
    auto t = aggOf(a, keyType);
    g.targets.push_back(t.ti);
    g.e.types.push_back(t.out);
  }
  size_t n = !grouped ? 1 : deep ? 4 : c.choose(c.thorough() ? 6 : 5, "entries");
  std::vector<bool> used(n, !grouped);
  if (grouped)
    for (size_t i = 0; i < n; ++i) used[i] = deep ? i != 1 : c.flip("used");
  std::string what = strf("%s, %zu keys", g.L.name, g.nkeys);
  for (auto a : g.aggs) what += strf(", %s", aggName[a]);
  for (auto u : used) what += u ? " #" : " .";
  std::vector<std::optional<Row>> rows;
  g.rs = g.one(used, 0, rows);
  g.e.entries = rows;
  size_t total = std::count(used.begin(), used.end(), true);
  bool late = false;
  if (!deep && grouped) {
    if (total && c.flip("permuted")) {
      for (size_t i = n; i-- > 0;)
        if (used[i]) g.e.perm.push_back(i);
      g.rs->setPermutationBuffer(g.e.perm);
      what += " permuted";
    }
    g.e.drop = c.choose(total + 2, "offset");
    g.e.keep = c.choose(total + 2, "limit");
    late = c.flip("count before cutting");
    what += strf(" offset %zu limit %zu", g.e.drop, g.e.keep);
    if (late) g.rs->rowCount();
    if (g.e.drop || late) g.rs->dropFirstN(g.e.drop);
    if (late) g.rs->rowCount();
    if (g.e.keep || late) g.rs->keepFirstN(g.e.keep);
  }
  c.op("%s", what.c_str());
  verify(c, g.rs, g.e, what);
  CHK(g.rs->isDirectColumnarConversionPossible() == (grouped && g.e.perm.empty()), "result:direct", what);
  c.state(mc::mix(mc::mix(l, g.nkeys), mc::mix(g.aggs.size() * 32 + total, g.e.drop * 8 + g.e.keep)));
}
void groupRows(Ctx& c) { groups(c, false); }
void groupAggs(Ctx& c) { groups(c, true); }

// Result sets without rows, explanations, fresh storage.
void special(Ctx& c) {
  int k = c.choose(3, "kind");
  if (k == 0) {
    ResultSet rs(std::string("the plan"));
    c.op("explain");
    CHK(rs.isExplain() && rs.rowCount() == 1 && rs.colCount() == 1 && !rs.isEmpty() && rs.getExplanation() == "the plan", "result:explain", "explanation");
    auto r = rs.getNextRow(true, false);
    CHK(r.size() == 1 && boost::get<std::string>(boost::get<NullableString>(boost::get<ScalarTargetValue>(r[0]))) == "the plan", "result:explain", "explanation row");
    CHK(rs.getNextRow(true, false).empty(), "result:explain", "a second explanation row");
    rs.moveToBegin();
    CHK(rs.getNextRow(true, false).size() == 1, "result:explain", "explanation after a restart");
  } else {
    Proj p;
    p.columnar = c.flip("columnar");
    p.cts = {&cols()[1], &cols()[6]};
    Expect e;
    for (auto t : p.cts) {
      p.targets.push_back({false, AggType::kMin, t->stored, nullptr, false, false, 0, false, 0, hdk::ir::Interpolation::kLower});
      e.types.push_back(t->stored);
    }
    if (k == 1) {
      auto q = p.base(0);
      auto rs = std::make_shared<ResultSet>(p.targets, ExecutorDeviceType::CPU, q, p.w.owner, nullptr, 0, 0);
      c.op("no storage");
      CHK(rs->rowCount() == 0 && rs->isEmpty() && rs->definitelyHasNoRows() && rs->getNextRow(true, false).empty() && rs->getStorageCount() == 0, "result:empty", "a result without storage");
    } else {
      // Names
      auto rs = p.make({});
      CHK(!rs->hasColNames() && rs->colName(1) == "col1", "result:names", "default column names");
      rs->setColNames({"a", "b"});
      c.op("names");
      CHK(rs->hasColNames() && rs->colName(0) == "a" && rs->colName(1) == "b" && rs->getColNames().size() == 2, "result:names", "column names");
      verify(c, rs, e, "empty projection");
      std::vector<std::optional<Row>> rows;
      for (int i = 0; i < 3; ++i) rows.push_back(Row{cellOf(cols()[1], i - 1), cellOf(cols()[6], i)});
      auto more = p.make(rows);
      rs->append(*more);
      e.entries = rows;
      verify(c, rs, e, "appended to an empty projection");
    }
  }
  c.state(k);
}
}  // namespace

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.rule = "every layout, type, filling of the entries, list of storages, order, offset and limit within the stated sizes, each read by every access path";
  o.worker_init = [] { static tbb::global_control tc(tbb::global_control::max_allowed_parallelism, 1); };
  return mc::run(argc, argv,
                 {
                     {"proj_types", projTypes, 3},
                     {"proj_rows", projRows, 5},
                     {"proj_lazy", projLazy, 3},
                     {"group_rows", groupRows, 5},
                     {"group_aggs", groupAggs, 3},
                     {"special", special, 1},
                 },
                 o);
}
