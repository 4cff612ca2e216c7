// Chunk statistics and chunk iteration: every bounded history of statistic updates on every encoder, and
// every position of an iterator over every small chunk, against direct computation on the values.
#include "DataMgr/AbstractBuffer.h"
#include "DataMgr/ArrayNoneEncoder.h"
#include "DataMgr/Chunk/Chunk.h"
#include "DataMgr/Encoder.h"
#include "DataMgr/FixedLengthArrayNoneEncoder.h"
#include "DataMgr/MemoryLevel.h"
#include "DataMgr/StringNoneEncoder.h"
#include "IR/Context.h"
#include "Utils/ChunkIter.h"
#include "hutil.h"

#include <tbb/global_control.h>

using mc::Ctx;
using mc::strf;
using Data_Namespace::AbstractBuffer;
using Data_Namespace::MemoryLevel;

namespace {

struct MemBuffer : AbstractBuffer {
  std::vector<int8_t> mem;
  explicit MemBuffer(const hdk::ir::Type* t) : AbstractBuffer(0, t) {}
  MemBuffer() : AbstractBuffer(0) {}
  void set(const void* p, size_t n) {
    mem.assign((const int8_t*)p, (const int8_t*)p + n);
    setSize(n);
  }
  void read(int8_t* const dst, const size_t n, const size_t off, const MemoryLevel, const int) override { memcpy(dst, mem.data() + off, n); }
  void write(int8_t* src, const size_t n, const size_t off, const MemoryLevel, const int) override {
    if (mem.size() < off + n) mem.resize(off + n);
    memcpy(mem.data() + off, src, n);
  }
  void reserve(size_t n) override { mem.resize(n); }
  void append(int8_t* src, const size_t n, const MemoryLevel, const int) override {
    mem.insert(mem.end(), src, src + n);
    setSize(mem.size());
  }
  int8_t* getMemoryPtr() override { return mem.data(); }
  size_t pageCount() const override { return 1; }
  size_t pageSize() const override { return mem.size(); }
  size_t reservedSize() const override { return mem.size(); }
  MemoryLevel getType() const override { return Data_Namespace::CPU_LEVEL; }
};

auto& ir() { return hdk::ir::Context::defaultCtx(); }

// How a type's values are given to the encoder.
enum Kind { kInt, kFp, kFixed, kDays };
struct Case {
  const hdk::ir::Type* type;
  Kind kind;
  std::string name;
};
std::vector<Case> scalarCases() {
  using namespace hdk::ir;
  std::vector<Case> r;
  for (bool nullable : {true, false}) {
    r.push_back({ir().boolean(nullable), kInt, "bool"});
    for (int s : {1, 2, 4, 8}) r.push_back({ir().integer(s, nullable), kInt, strf("int%d", s)});
    r.push_back({ir().decimal(8, 10, 2, nullable), kInt, "decimal"});
    for (int s : {1, 2, 4}) r.push_back({ir().extDict(ir().text(nullable), 1, s), kInt, strf("dict%d", s)});
    r.push_back({ir().fp32(nullable), kFp, "float"});
    r.push_back({ir().fp64(nullable), kFp, "double"});
    for (int s : {2, 4, 8}) r.push_back({ir().date(s, TimeUnit::kDay, nullable), kDays, strf("date days %d", s)});
    r.push_back({ir().date(8, TimeUnit::kSecond, nullable), kFixed, "date seconds"});
    for (int s : {2, 4, 8}) r.push_back({ir().time(s, TimeUnit::kSecond, nullable), kFixed, strf("time%d", s)});
    for (int s : {4, 8}) r.push_back({ir().timestamp(TimeUnit::kSecond, nullable), kFixed, strf("timestamp%d", s)});
    for (int s : {1, 2, 4, 8}) r.push_back({ir().interval(s, TimeUnit::kSecond, nullable), kFixed, strf("interval%d", s)});
  }
  return r;
}

int64_t nullOf(int size, bool uns) {
  switch (size) {
    case 1: return uns ? 255 : INT8_MIN;
    case 2: return uns ? 65535 : INT16_MIN;
    case 4: return INT32_MIN;
    default: return INT64_MIN;
  }
}
int64_t maxOf(int size, bool uns) {
  switch (size) {
    case 1: return uns ? 254 : INT8_MAX;
    case 2: return uns ? 65534 : INT16_MAX;
    case 4: return INT32_MAX;
    default: return INT64_MAX;
  }
}
void put(std::vector<int8_t>& v, int64_t x, int size) {
  size_t o = v.size();
  v.resize(o + size);
  memcpy(v.data() + o, &x, size);
}

// Reference statistics.
struct Ref {
  bool nulls = false, any = false;
  double fmin = 0, fmax = 0;
  int64_t imin = 0, imax = 0;
  void i(int64_t x) {
    imin = any ? std::min(imin, x) : x;
    imax = any ? std::max(imax, x) : x;
    any = true;
  }
  void f(double x) {
    fmin = any ? std::min(fmin, x) : x;
    fmax = any ? std::max(fmax, x) : x;
    any = true;
  }
  void merge(const Ref& o, bool fp) {
    nulls |= o.nulls;
    if (o.any) {
      if (fp) {
        f(o.fmin);
        f(o.fmax);
      } else {
        i(o.imin);
        i(o.imax);
      }
    }
  }
};

int64_t datumInt(const Datum& d, const hdk::ir::Type* t) {
  if (t->isExtDictionary()) return d.intval;
  if (t->isDateTime() || t->isInterval()) return d.bigintval;
  switch (t->size()) {
    case 1: return d.tinyintval;
    case 2: return d.smallintval;
    case 4: return d.intval;
    default: return d.bigintval;
  }
}
double datumFp(const Datum& d, const hdk::ir::Type* t) { return t->size() == 4 ? d.floatval : d.doubleval; }

void compare(Ctx& c, const std::string& how, const ChunkStats& s, const Ref& r, const hdk::ir::Type* t, const std::string& name) {
  c.check(s.has_nulls == r.nulls, "nulls", strf("%s via %s: has nulls is %d, expected %d", name.c_str(), how.c_str(), s.has_nulls, r.nulls));
  if (t->isFloatingPoint()) {
    double lo = datumFp(s.min, t), hi = datumFp(s.max, t);
    if (r.any) c.check(lo == r.fmin && hi == r.fmax, "range", strf("%s via %s: range [%g, %g], expected [%g, %g]", name.c_str(), how.c_str(), lo, hi, r.fmin, r.fmax));
    else c.check(lo > hi, "empty-range", strf("%s via %s: range [%g, %g] without values", name.c_str(), how.c_str(), lo, hi));
  } else {
    int64_t lo = datumInt(s.min, t), hi = datumInt(s.max, t);
    if (r.any) c.check(lo == r.imin && hi == r.imax, "range", strf("%s via %s: range [%ld, %ld], expected [%ld, %ld]", name.c_str(), how.c_str(), (long)lo, (long)hi, (long)r.imin, (long)r.imax));
    else c.check(lo > hi, "empty-range", strf("%s via %s: range [%ld, %ld] without values", name.c_str(), how.c_str(), (long)lo, (long)hi));
  }
}

constexpr int64_t kDay = 86400;

struct Values {  // the small domain of a type: index 0 is null
  std::vector<int64_t> i;
  std::vector<double> f;
  size_t n() const { return i.empty() ? f.size() : i.size(); }
};
Values domain(const Case& k) {
  Values v;
  int s = k.type->size();
  bool uns = k.type->isExtDictionary() && s < 4;
  if (k.kind == kFp) {
    v.f = {s == 4 ? (double)FLT_MIN : DBL_MIN, -2.5, 0.0, 7.25};
  } else if (k.kind == kDays) {
    v.i = {nullOf(s, false), -1, 0, 9, s == 2 ? 32767 : 100000};
  } else if (k.type->isBoolean()) {
    v.i = {INT8_MIN, 0, 1};
  } else {
    v.i = {nullOf(s, uns), uns ? 3 : -3, uns ? 1 : maxOf(s, uns) * -1, 5, maxOf(s, uns)};
    if (k.type->isExtDictionary() && s == 4) v.i = {INT32_MIN, 3, 0, 5, INT32_MAX};
  }
  return v;
}
// Value as statistics report it.
int64_t statVal(const Case& k, int64_t x) { return k.kind == kDays ? x * kDay : x; }

Ref refOf(const Case& k, const Values& v, const std::vector<int>& idx) {
  Ref r;
  for (int i : idx) {
    if (i == 0) r.nulls = true;
    else if (k.kind == kFp) r.f(v.f[i]);
    else r.i(statVal(k, v.i[i]));
  }
  return r;
}
// The batch as the raw input of updateStats: 64-bit for encoded kinds, the type itself otherwise.
std::vector<int8_t> rawBytes(const Case& k, const Values& v, const std::vector<int>& idx) {
  std::vector<int8_t> b;
  for (int i : idx) {
    if (k.kind == kFp) {
      if (k.type->size() == 4) {
        float f = v.f[i];
        b.insert(b.end(), (int8_t*)&f, (int8_t*)&f + 4);
      } else {
        double f = v.f[i];
        b.insert(b.end(), (int8_t*)&f, (int8_t*)&f + 8);
      }
    } else if (k.kind == kDays) {
      put(b, i ? v.i[i] * kDay + (i == 3 ? 4000 : 0) : v.i[i], 8);
    } else if (k.kind == kFixed) {
      put(b, v.i[i], 8);
    } else {
      put(b, v.i[i], k.type->size());
    }
  }
  return b;
}
std::vector<int8_t> encBytes(const Case& k, const Values& v, const std::vector<int>& idx) {
  std::vector<int8_t> b;
  if (k.kind == kFp) return rawBytes(k, v, idx);
  for (int i : idx) put(b, v.i[i], k.type->size());
  return b;
}

void scalarHistory(Ctx& c) {
  static const auto cases = scalarCases();
  auto& k = cases[c.choose(cases.size(), "type")];
  auto v = domain(k);
  bool fp = k.kind == kFp;
  MemBuffer buf(k.type);
  Ref ref;
  size_t elems = 0;
  std::vector<std::vector<int>> batches = {{}, {0}, {1}, {2}, {3 % (int)v.n()}, {(int)v.n() - 1, 1}, {0, 2}, {2, 0, 1}};
  if (k.type->size() == 8 && k.kind == kInt) batches.push_back({2, (int)v.n() - 1});
  size_t depth = c.thorough() ? 4 : 3;
  for (size_t step = 0; step < depth; ++step) {
    auto* e = buf.getEncoder();
    size_t op = c.choose(9, "op");
    auto batch = [&]() -> const std::vector<int>& {
      size_t skip = step >= 2 && !c.thorough() ? 4 : 0;  // the last step of the quick tier uses the richest batches only
      return batches[skip + c.choose(batches.size() - skip, "batch")];
    };
    switch (op) {
      case 0: {
        auto& b = batch();
        auto raw = rawBytes(k, v, b);
        c.op("update with %zu raw values", b.size());
        e->updateStats(raw.data(), b.size());
        ref.merge(refOf(k, v, b), fp);
        break;
      }
      case 1: {
        auto& b = batch();
        auto enc = encBytes(k, v, b);
        c.op("update with %zu encoded values", b.size());
        e->updateStatsEncoded(enc.data(), b.size());
        ref.merge(refOf(k, v, b), fp);
        break;
      }
      case 2: {  // array elements: the null-array marker is not a value
        auto b = batch();
        auto enc = encBytes(k, v, b);
        int s = k.type->size();
        bool uns = k.type->isExtDictionary() && s < 4;
        if (fp) {
          if (s == 4) {
            float f = FLT_MIN * 2.0;
            enc.insert(enc.end(), (int8_t*)&f, (int8_t*)&f + 4);
          } else {
            double f = DBL_MIN * 2.0;
            enc.insert(enc.end(), (int8_t*)&f, (int8_t*)&f + 8);
          }
        } else {
          put(enc, uns ? nullOf(s, true) - 1 : nullOf(s, false) + 1, s);
        }
        // skip batches that contain the marker as a value
        for (int i : b) {
          if (!fp && i && v.i[i] == (uns ? nullOf(s, true) - 1 : nullOf(s, false) + 1)) c.skip();
        }
        c.op("update with %zu encoded array values", b.size());
        e->updateStatsEncoded(enc.data(), b.size() + 1, true);
        ref.merge(refOf(k, v, b), fp);
        break;
      }
      case 3: {
        size_t i = c.choose(v.n(), "value");
        c.op("update with one value");
        if (fp) e->updateStats(v.f[i], i == 0);
        else e->updateStats(statVal(k, v.i[i]), i == 0);
        ref.merge(refOf(k, v, {(int)i}), fp);
        break;
      }
      case 4: {
        MemBuffer other(k.type);
        auto& b = batch();
        auto raw = rawBytes(k, v, b);
        other.getEncoder()->updateStats(raw.data(), b.size());
        c.op("reduce with %zu values", b.size());
        e->reduceStats(*other.getEncoder());
        ref.merge(refOf(k, v, b), fp);
        break;
      }
      case 5:
        c.op("reset");
        e->resetChunkStats();
        ref = Ref();
        break;
      case 6: {
        c.op("set number of elements, copy metadata to a new buffer and back");
        elems = step + 3;
        e->setNumElems(elems);
        MemBuffer other(k.type);
        other.getEncoder()->copyMetadata(e);
        e->resetChunkStats();
        e->setNumElems(0);
        e->copyMetadata(other.getEncoder());
        break;
      }
      case 7: {
        c.op("write and read metadata");
        elems = step + 5;
        e->setNumElems(elems);
        char mem[128] = {};
        FILE* f = fmemopen(mem, sizeof(mem), "w+");
        e->writeMetadata(f);
        long wrote = ftell(f);
        rewind(f);
        e->resetChunkStats();
        e->setNumElems(0);
        e->readMetadata(f);
        c.check(ftell(f) == wrote, "metadata-size", strf("%s: wrote %ld bytes of metadata, read %ld", k.name.c_str(), wrote, ftell(f)));
        fclose(f);
        break;
      }
      case 8: {
        MemBuffer other(k.type);
        auto& b = batch();
        auto r = refOf(k, v, b);
        if (!r.any) c.skip();
        auto raw = rawBytes(k, v, b);
        other.getEncoder()->updateStats(raw.data(), b.size());
        ChunkStats st;
        memset(&st, 0, sizeof(st));
        other.getEncoder()->fillChunkStats(st, k.type);
        bool same = r.nulls == ref.nulls && ref.any && (fp ? r.fmin == ref.fmin && r.fmax == ref.fmax : r.imin == ref.imin && r.imax == ref.imax);
        c.op("reset to given statistics");
        bool changed = e->resetChunkStats(st);
        c.check(changed == !same, "reset-changed", strf("%s: reset to %s statistics reports %d", k.name.c_str(), same ? "equal" : "different", changed));
        ref = r;
        break;
      }
    }
    auto m = buf.getEncoder()->getMetadata();
    compare(c, "metadata", m->chunkStats(), ref, k.type, k.name);
    c.check(m->type()->equal(k.type) && m->numElements() == elems && m->numBytes() == buf.size(), "metadata", k.name + ": type, size or element count of the metadata");
    compare(c, "typed metadata", buf.getEncoder()->getMetadata(k.type)->chunkStats(), ref, k.type, k.name);
    ChunkStats s;
    memset(&s, 0, sizeof(s));
    buf.getEncoder()->fillChunkStats(s, k.type);
    compare(c, "statistics", s, ref, k.type, k.name);
    c.state(mc::mix(mc::mix(ref.nulls * 2 + ref.any, ref.imin * 31 + ref.imax), (uint64_t)(ref.fmin * 31 + ref.fmax) + k.type->size() * 7 + k.kind));
  }
}

// Long runs: the extreme value and the null at every kind of position.
void scalarLong(Ctx& c) {
  static const auto cases = scalarCases();
  auto& k = cases[c.choose(cases.size(), "type")];
  auto v = domain(k);
  bool fp = k.kind == kFp;
  size_t n = 4099;
  static const size_t at[] = {0, 1, 511, 512, 2047, 2048, 2049, 4095, 4097, 4098};
  size_t p = at[c.choose(10, "extreme at")];
  int what = c.choose(v.n(), "extreme");
  std::vector<int> idx(n, 1);
  idx[p] = what;
  MemBuffer buf(k.type);
  bool enc = c.choose(2, "encoded");
  auto bytes = enc ? encBytes(k, v, idx) : rawBytes(k, v, idx);
  c.op("%zu values, value %d at %zu", n, what, p);
  if (enc) buf.getEncoder()->updateStatsEncoded(bytes.data(), n);
  else buf.getEncoder()->updateStats(bytes.data(), n);
  compare(c, "metadata", buf.getEncoder()->getMetadata()->chunkStats(), refOf(k, v, idx), k.type, k.name);
  (void)fp;
}

// Dates that do not fit the encoding are refused.
void dateOverflow(Ctx& c) {
  int s = c.choose(2, "size") ? 4 : 2;
  bool nullable = c.choose(2, "nullable");
  auto* t = ir().date(s, hdk::ir::TimeUnit::kDay, nullable);
  int64_t mx = s == 2 ? INT16_MAX : INT32_MAX, mn = s == 2 ? INT16_MIN : INT32_MIN;
  int64_t days[] = {mx, mx + 1, mx + 7, mn, mn - 1, mn - 100, 0};
  int64_t d = days[c.choose(7, "days")];
  int64_t off = std::vector<int64_t>{0, 1, kDay - 1}[c.choose(3, "second of day")];
  int64_t sec = d * kDay + off;
  MemBuffer buf(t);
  bool refused = false;
  c.op("date of %ld days as %d bytes", (long)d, s);
  try {
    buf.getEncoder()->updateStats((int8_t*)&sec, 1);
  } catch (const std::runtime_error&) {
    refused = true;
  }
  c.check(refused == (d > mx || d < mn), "date-range", strf("day %ld in %d bytes %s", (long)d, s, refused ? "refused" : "accepted"));
  if (!refused) {
    Ref r;
    r.i(d * kDay);
    compare(c, "metadata", buf.getEncoder()->getMetadata()->chunkStats(), r, t, "date");
  } else {
    Ref r;
    compare(c, "metadata", buf.getEncoder()->getMetadata()->chunkStats(), r, t, "date");
  }
}

// Arrays.
struct ArrCase {
  const hdk::ir::Type* elem;
  const hdk::ir::Type* type;
  bool fixed;
  std::string name;
};
void arrayHistory(Ctx& c) {
  using namespace hdk::ir;
  static const std::vector<const Type*> elems = {ir().boolean(), ir().int8(), ir().int16(), ir().int32(), ir().int64(), ir().decimal(8, 10, 2),
                                                 ir().extDict(ir().text(), 1, 4), ir().fp32(), ir().fp64(), ir().time64(TimeUnit::kSecond),
                                                 ir().timestamp(TimeUnit::kMilli), ir().date64(TimeUnit::kSecond), ir().interval64(TimeUnit::kMilli)};
  auto* et = elems[c.choose(elems.size(), "element type")];
  bool fixed = c.choose(2, "fixed length");
  const Type* t = fixed ? (const Type*)ir().arrayFixed(2, et) : (const Type*)ir().arrayVarLen(et, 4);
  MemBuffer buf(t);
  auto* e = buf.getEncoder();
  bool fp = et->isFloatingPoint();
  int s = et->size();
  auto name = t->toString();
  // element domain: 0 null
  std::vector<int64_t> iv = et->isBoolean() ? std::vector<int64_t>{INT8_MIN, 0, 1, 1} : std::vector<int64_t>{nullOf(s, false), -4, 0, 9};
  std::vector<double> fv = {s == 4 ? (double)FLT_MIN : DBL_MIN, -1.5, 0.0, 3.25};
  std::vector<std::vector<int>> shapes = {{1, 2}, {3, 3}, {0, 1}, {0, 0}, {2, 3}};
  if (!fixed) {
    shapes.push_back({});
    shapes.push_back({2});
    shapes.push_back({1, 0, 3});
  }
  std::vector<std::vector<int8_t>> keep;
  auto datum = [&](int shape) {
    if (shape < 0) return ArrayDatum(0, nullptr, true, DoNothingDeleter());
    std::vector<int8_t> b;
    for (int i : shapes[shape]) {
      if (fp) {
        if (s == 4) {
          float f = fv[i];
          b.insert(b.end(), (int8_t*)&f, (int8_t*)&f + 4);
        } else {
          b.insert(b.end(), (int8_t*)&fv[i], (int8_t*)&fv[i] + 8);
        }
      } else {
        put(b, iv[i], s);
      }
    }
    keep.push_back(b);
    return ArrayDatum(b.size(), keep.back().data(), false, DoNothingDeleter());
  };
  keep.reserve(100);
  auto refOfShape = [&](int shape) {
    Ref r;
    if (shape < 0) {
      r.nulls = true;
      return r;
    }
    for (int i : shapes[shape]) {
      if (i == 0) r.nulls = true;
      else if (fp) r.f(fv[i]);
      else r.i(iv[i]);
    }
    return r;
  };
  Ref ref;
  bool touched = false;
  size_t elems_n = 0;
  for (size_t step = 0; step < (c.thorough() ? 3 : 2); ++step) {
    size_t op = c.choose(5, "op");
    if (op == 0 || op == 1) {
      int a = (int)c.choose(shapes.size() + 1, "array") - 1, b = op == 1 ? -1 : (int)c.choose(3, "array") - 1;
      std::vector<ArrayDatum> v = {datum(0), datum(a), datum(b), datum(1)};
      c.op("update with two arrays");
      if (op == 1) {
        e->updateStats(&v, 1, 1);
        ref.merge(refOfShape(a), fp);
      } else {
        e->updateStats(&v, 1, 2);
        ref.merge(refOfShape(a), fp);
        ref.merge(refOfShape(b), fp);
      }
      touched = true;
    } else if (op == 2) {
      c.op("reset");
      e->resetChunkStats();
      ref = Ref();
      touched = false;
    } else if (op == 3) {
      c.op("copy metadata");
      elems_n = step + 2;
      e->setNumElems(elems_n);
      MemBuffer other(t);
      other.getEncoder()->copyMetadata(e);
      e->resetChunkStats();
      e->setNumElems(0);
      e->copyMetadata(other.getEncoder());
    } else {
      c.op("write and read metadata");
      elems_n = step + 2;
      e->setNumElems(elems_n);
      char mem[128] = {};
      FILE* f = fmemopen(mem, sizeof(mem), "w+");
      e->writeMetadata(f);
      long wrote = ftell(f);
      rewind(f);
      e->resetChunkStats();
      e->setNumElems(0);
      e->readMetadata(f);
      c.check(ftell(f) == wrote, "metadata-size", name + ": metadata written and read differ in size");
      fclose(f);
    }
    if (touched) {
      compare(c, "typed metadata", e->getMetadata(t)->chunkStats(), ref, et, name);
      auto m = e->getMetadata();
      c.check(m->chunkStats().has_nulls == ref.nulls && m->numElements() == elems_n, "metadata", name + ": null flag or element count");
      compare(c, "metadata", m->chunkStats(), ref, et, name);
    }
    c.state(mc::mix(ref.imin * 31 + ref.imax + ref.nulls * 5 + ref.any, s + fp * 100 + fixed * 1000 + (uint64_t)ref.fmax));
  }
}

// How many elements fit a byte limit.
void fitting(Ctx& c) {
  size_t kind = c.choose(3, "kind");
  size_t lens[4];
  for (auto& l : lens) l = kind == 1 ? 8 : c.choose(3, "length") * 4;
  size_t start = c.choose(2, "start"), n = c.choose(5 - start, "count"), limit = c.choose(9, "limit") * 3;
  bool repl = kind == 1 ? false : c.choose(2, "replicating");
  std::vector<std::string> strs;
  std::vector<ArrayDatum> arrs;
  std::vector<int8_t> mem(16);
  for (auto l : lens) {
    strs.push_back(std::string(l, 'x'));
    arrs.emplace_back(l, mem.data(), false, DoNothingDeleter());
  }
  size_t want = 0, sum = 0;
  while (want < n) {
    size_t l = lens[repl ? 0 : start + want];
    if (sum + l > limit) break;
    sum += l;
    ++want;
  }
  size_t got;
  c.op("how many of %zu elements fit %zu bytes", n, limit);
  if (kind == 0) {
    MemBuffer b(ir().text());
    got = dynamic_cast<StringNoneEncoder*>(b.getEncoder())->getNumElemsForBytesInsertData(&strs, start, n, limit, repl);
  } else if (kind == 1) {
    MemBuffer b(ir().arrayFixed(2, ir().int32()));
    got = dynamic_cast<FixedLengthArrayNoneEncoder*>(b.getEncoder())->getNumElemsForBytesInsertData(&arrs, start, n, limit, repl);
  } else {
    MemBuffer b(ir().arrayVarLen(ir().int32(), 4));
    got = dynamic_cast<ArrayNoneEncoder*>(b.getEncoder())->getNumElemsForBytesInsertData(&arrs, start, n, limit, repl);
  }
  c.check(got == want, "fitting", strf("kind %zu: %zu elements fit, expected %zu", kind, got, want));
}

// Merging statistics of chunks.
void merging(Ctx& c) {
  static const auto cases = scalarCases();
  auto& k = cases[c.choose(cases.size(), "type")];
  auto v = domain(k);
  std::vector<std::vector<int>> sets = {{}, {0}, {1}, {0, 2}, {3 % (int)v.n(), 1}, {(int)v.n() - 1}, {2}};
  bool arr = c.choose(2, "as array elements");
  auto one = [&](const std::vector<int>& b, ChunkStats& s) {
    MemBuffer o(k.type);
    auto raw = rawBytes(k, v, b);
    o.getEncoder()->updateStats(raw.data(), b.size());
    memset(&s, 0, sizeof(s));
    o.getEncoder()->fillChunkStats(s, k.type);
  };
  auto& a = sets[c.choose(sets.size(), "left")];
  auto& b = sets[c.choose(sets.size(), "right")];
  ChunkStats l, r;
  one(a, l);
  one(b, r);
  Ref ref = refOf(k, v, a);
  ref.merge(refOf(k, v, b), k.kind == kFp);
  c.op("merge");
  mergeStats(l, r, arr ? (const hdk::ir::Type*)ir().arrayVarLen(k.type, 4) : k.type);
  compare(c, "merge", l, ref, k.type, k.name);
}

// Strings.
void strings(Ctx& c) {
  MemBuffer buf(ir().text());
  auto* e = buf.getEncoder();
  bool nulls = false;
  static const std::vector<std::vector<std::string>> sets = {{"a", "b", "c"}, {"", "b", "c"}, {"a", "", "c"}, {"a", "b", ""}};
  for (int step = 0; step < 3; ++step) {
    size_t op = c.choose(5, "op");
    if (op == 0) {
      auto& s = sets[c.choose(4, "strings")];
      size_t from = c.choose(4, "from");
      size_t n = c.choose(4 - from, "count");
      c.op("update %zu strings from %zu", n, from);
      e->updateStats(&s, from, n);
      for (size_t i = from; i < from + n; ++i) nulls |= s[i].empty();
    } else if (op == 1) {
      c.op("reset");
      e->resetChunkStats();
      nulls = false;
    } else if (op == 2) {
      c.op("copy metadata");
      e->setNumElems(7);
      MemBuffer o(ir().text());
      o.getEncoder()->copyMetadata(e);
      e->resetChunkStats();
      e->setNumElems(0);
      e->copyMetadata(o.getEncoder());
      c.check(e->getNumElems() == 7, "metadata", "element count lost");
    } else if (op == 3) {
      c.op("write and read metadata");
      char mem[64] = {};
      FILE* f = fmemopen(mem, 64, "w+");
      e->setNumElems(9);
      e->writeMetadata(f);
      rewind(f);
      e->resetChunkStats();
      e->setNumElems(0);
      e->readMetadata(f);
      fclose(f);
      c.check(e->getNumElems() == 9, "metadata", "element count lost");
    } else {
      ChunkStats s{};
      s.has_nulls = c.choose(2, "nulls");
      c.op("reset to nulls=%d", s.has_nulls);
      bool ch = e->resetChunkStats(s);
      c.check(ch == (s.has_nulls != nulls), "reset-changed", "string statistics reset");
      nulls = s.has_nulls;
    }
    c.check(e->getMetadata()->chunkStats().has_nulls == nulls, "nulls", "string null flag");
    c.check(e->getMetadata(ir().text())->chunkStats().has_nulls == nulls, "nulls", "string null flag");
  }
}

// Iteration over a chunk of fixed-size values: sequential with every start and stride, and by position.
void iterateFixed(Ctx& c) {
  using namespace hdk::ir;
  static const std::vector<const Type*> types = {ir().boolean(), ir().int8(), ir().int16(), ir().int32(), ir().int64(), ir().fp32(), ir().fp64(),
                                                 ir().time64(TimeUnit::kSecond), ir().time(4, TimeUnit::kSecond), ir().time(2, TimeUnit::kSecond),
                                                 ir().timestamp(TimeUnit::kSecond), ir().date(8, TimeUnit::kSecond), ir().date(4, TimeUnit::kSecond)};
  auto* t = types[c.choose(types.size(), "type")];
  size_t n = c.choose(5, "elements");
  int s = t->size();
  std::vector<int> idx;
  std::vector<int8_t> bytes;
  std::vector<int64_t> iv = {nullOf(s, false), 1, 0};
  for (size_t i = 0; i < n; ++i) {
    idx.push_back(c.choose(3, "value"));
    if (t->isFloatingPoint()) {
      if (s == 4) {
        float f = idx[i] == 0 ? FLT_MIN : idx[i] == 1 ? 1.5f : 0.f;
        bytes.insert(bytes.end(), (int8_t*)&f, (int8_t*)&f + 4);
      } else {
        double f = idx[i] == 0 ? DBL_MIN : idx[i] == 1 ? 1.5 : 0.;
        bytes.insert(bytes.end(), (int8_t*)&f, (int8_t*)&f + 8);
      }
    } else {
      put(bytes, iv[idx[i]], s);
    }
  }
  MemBuffer buf(t);
  buf.set(bytes.data(), bytes.size());
  auto ci = std::make_shared<ColumnInfo>(1, 1, 1, "c", t, false);
  Chunk_NS::Chunk ch(&buf, nullptr, ci);
  auto meta = std::make_shared<ChunkMetadata>(t, bytes.size(), n);
  bool compressed = t->isDateTime() && s != 8;
  auto check = [&](const VarlenDatum& v, size_t i, bool unc, const char* how) {
    if (unc && compressed) {
      c.check(v.length == 8 && *(int64_t*)v.pointer == iv[idx[i]], "iter-value", strf("%s %s: element %zu is wrong", t->toString().c_str(), how, i));
    } else {
      c.check(v.length == (size_t)s && memcmp(v.pointer, bytes.data() + i * s, s) == 0, "iter-value", strf("%s %s: element %zu is wrong", t->toString().c_str(), how, i));
      c.check(v.is_null == (idx[i] == 0), "iter-null", strf("%s %s: element %zu null flag %d", t->toString().c_str(), how, i, v.is_null));
    }
  };
  for (int start = 0; start <= (int)n; ++start) {
    for (int skip = 1; skip <= 3; ++skip) {
      for (bool unc : {false, true}) {
        auto it = ch.begin_iterator(meta, start, skip);
        VarlenDatum v;
        bool end = false;
        for (int round = 0; round < 2; ++round) {
          for (size_t i = start; i < n; i += skip) {
            ChunkIter_get_next(&it, unc, &v, &end);
            c.check(!end, "iter-end", "iterator ended early");
            check(v, i, unc, "next");
          }
          ChunkIter_get_next(&it, unc, &v, &end);
          c.check(end && v.is_null && v.length == 0, "iter-end", "iterator ran past the end");
          ChunkIter_reset(&it);
        }
        c.op("iterate from %d by %d", start, skip);
      }
    }
  }
  for (bool unc : {false, true}) {
    auto it = ch.begin_iterator(meta, 0, 1);
    for (int i = -1; i <= (int)n; ++i) {
      VarlenDatum v;
      bool end = false;
      ChunkIter_get_nth(&it, i, unc, &v, &end);
      bool out = i < 0 || i >= (int)n;
      c.check(end == out, "nth-end", strf("element %d of %zu: end %d", i, n, end));
      if (!out) check(v, i, unc, "nth");
      else c.check(v.is_null && v.length == 0, "nth-end", "element past the end is not null");
    }
  }
}

// Strings and arrays with offsets.
void iterateVar(Ctx& c) {
  size_t n = c.choose(5, "elements");
  bool arr = c.choose(2, "array");
  std::vector<int> len;
  for (size_t i = 0; i < n; ++i) len.push_back((int)c.choose(arr ? 4 : 3, "length") - (arr ? 1 : 0));
  std::vector<int8_t> data;
  if (arr) data.resize(8, 99);  // leading padding, as a null first array requires a non-zero offset
  std::vector<int32_t> offs = {arr ? 8 : 0};
  if (arr && n && len[0] >= 0) {
    data.clear();
    offs[0] = 0;
  }
  std::vector<std::vector<int8_t>> want;
  for (size_t i = 0; i < n; ++i) {
    std::vector<int8_t> w;
    int32_t last = std::abs(offs.back());
    if (len[i] >= 0) {
      for (int j = 0; j < len[i] * 4; ++j) w.push_back(i * 16 + j);
      data.insert(data.end(), w.begin(), w.end());
      offs.push_back(last + len[i] * 4);
    } else {
      offs.push_back(-last);
    }
    want.push_back(w);
  }
  const hdk::ir::Type* t = arr ? (const hdk::ir::Type*)ir().arrayVarLen(ir().int32(), 4) : (const hdk::ir::Type*)ir().text();
  bool zero_first = arr && n && len[0] < 0 && offs[0] == 0;
  if (zero_first) c.skip();
  for (size_t i = 0; i + 1 < offs.size(); ++i) {
    if (len.size() > i && len[i] < 0 && offs[i + 1] == 0) c.skip();  // a null array needs a non-zero offset to be told from an empty one
  }
  MemBuffer buf(t), ib;
  buf.set(data.data(), data.size());
  ib.set(offs.data(), offs.size() * 4);
  auto ci = std::make_shared<ColumnInfo>(1, 1, 1, "c", t, false);
  Chunk_NS::Chunk ch(&buf, &ib, ci);
  auto meta = std::make_shared<ChunkMetadata>(t, data.size(), n);
  c.op("%zu %s", n, arr ? "arrays" : "strings");
  if (!arr) {
    for (int start = 0; start <= (int)n; ++start) {
      for (int skip = 1; skip <= 2; ++skip) {
        auto it = ch.begin_iterator(meta, start, skip);
        VarlenDatum v;
        bool end = false;
        for (size_t i = start; i < n; i += skip) {
          ChunkIter_get_next(&it, false, &v, &end);
          c.check(!end && v.length == want[i].size() && memcmp(v.pointer, want[i].data(), v.length) == 0 && v.is_null == want[i].empty(), "iter-value", strf("string %zu is wrong", i));
        }
        ChunkIter_get_next(&it, false, &v, &end);
        c.check(end, "iter-end", "string iterator ran past the end");
      }
    }
    auto it = ch.begin_iterator(meta, 0, 1);
    for (int i = -1; i <= (int)n; ++i) {
      VarlenDatum v;
      bool end = false;
      ChunkIter_get_nth(&it, i, false, &v, &end);
      if (i < 0 || i >= (int)n) c.check(end, "nth-end", "string past the end");
      else c.check(!end && v.length == want[i].size() && memcmp(v.pointer, want[i].data(), v.length) == 0, "nth-value", strf("string %d is wrong", i));
    }
    return;
  }
  bool any_null = false;
  for (auto l : len) any_null |= l < 0;
  auto it = ch.begin_iterator(meta, 0, 1);
  for (int i = -1; i <= (int)n; ++i) {
    bool out = i < 0 || i >= (int)n;
    for (int f = 0; f < 3; ++f) {
      if (f == 2 && (any_null || out)) continue;
      ArrayDatum v;
      bool end = false;
      if (f == 0) ChunkIter_get_nth(&it, i, &v, &end);
      if (f == 1) ChunkIter_get_nth_varlen(&it, i, &v, &end);
      if (f == 2) ChunkIter_get_nth_varlen_notnull(&it, i, &v, &end);
      c.check(end == out, "nth-end", strf("array %d of %zu: end %d", i, n, end));
      if (out) continue;
      c.check(v.is_null == (len[i] < 0), "nth-null", strf("array %d: null flag %d", i, v.is_null));
      if (len[i] >= 0) c.check(v.length == want[i].size() && memcmp(v.pointer, want[i].data(), v.length) == 0, "nth-value", strf("array %d is wrong (accessor %d)", i, f));
    }
  }
}

// Fixed-length arrays: null marker in the first element.
void iterateFixedArrays(Ctx& c) {
  using namespace hdk::ir;
  static const std::vector<const Type*> elems = {ir().boolean(), ir().int8(), ir().int16(), ir().int32(), ir().int64(), ir().fp32(), ir().fp64(), ir().timestamp(TimeUnit::kSecond)};
  auto* et = elems[c.choose(elems.size(), "element")];
  bool nullable = c.choose(2, "nullable");
  auto* t = ir().arrayFixed(2, et, nullable);
  size_t n = c.choose(4, "arrays");
  std::vector<int8_t> bytes;
  std::vector<int> kind;
  int s = et->size();
  for (size_t i = 0; i < n; ++i) {
    kind.push_back(c.choose(3, "array"));  // 0 null array, 1 null element first, 2 plain
    for (int j = 0; j < 2; ++j) {
      int64_t x = kind[i] == 0 ? (j ? nullOf(s, false) : nullOf(s, false) + 1) : kind[i] == 1 ? (j ? 1 : nullOf(s, false)) : j;
      if (et->isFloatingPoint()) {
        double d = kind[i] == 0 ? (s == 4 ? (j ? FLT_MIN : FLT_MIN * 2.0) : (j ? DBL_MIN : DBL_MIN * 2.0)) : kind[i] == 1 ? (j ? 1. : s == 4 ? FLT_MIN : DBL_MIN) : j;
        if (s == 4) {
          float f = d;
          bytes.insert(bytes.end(), (int8_t*)&f, (int8_t*)&f + 4);
        } else {
          bytes.insert(bytes.end(), (int8_t*)&d, (int8_t*)&d + 8);
        }
      } else {
        put(bytes, x, s);
      }
    }
  }
  MemBuffer buf(t);
  buf.set(bytes.data(), bytes.size());
  auto ci = std::make_shared<ColumnInfo>(1, 1, 1, "c", t, false);
  Chunk_NS::Chunk ch(&buf, nullptr, ci);
  auto meta = std::make_shared<ChunkMetadata>(t, bytes.size(), n);
  auto it = ch.begin_iterator(meta, 0, 1);
  c.op("%zu fixed-length arrays", n);
  for (int i = -1; i <= (int)n; ++i) {
    ArrayDatum v;
    bool end = false;
    ChunkIter_get_nth(&it, i, &v, &end);
    bool out = i < 0 || i >= (int)n;
    c.check(end == out, "nth-end", strf("array %d of %zu: end %d", i, n, end));
    if (out) continue;
    c.check(v.length == (size_t)2 * s && memcmp(v.pointer, bytes.data() + i * 2 * s, 2 * s) == 0, "nth-value", strf("%s: array %d is wrong", t->toString().c_str(), i));
    c.check(v.is_null == (nullable && kind[i] == 0), "nth-null", strf("%s: array %d null flag %d", t->toString().c_str(), i, v.is_null));
    c.check(FixedLengthArrayNoneEncoder::is_null(t, bytes.data() + i * 2 * s) == (nullable && kind[i] == 0), "array-null", strf("%s: array %d null test", t->toString().c_str(), i));
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> sc = {
      {"stats-scalar", scalarHistory, 2}, {"stats-long", scalarLong, 2},      {"stats-date-range", dateOverflow, 2}, {"stats-array", arrayHistory, 3},
      {"stats-merge", merging, 2},        {"stats-strings", strings, 2},      {"fit", fitting, 3},                   {"iter-fixed", iterateFixed, 2},
      {"iter-var", iterateVar, 3},        {"iter-fixed-array", iterateFixedArrays, 3},
  };
  mc::Options o;
  o.worker_init = [] {
    hu::quietLogger();
    static tbb::global_control tc(tbb::global_control::max_allowed_parallelism, 1);
  };
  o.rule =
      "every history of up to three (thorough: four) statistic operations (raw, encoded, array-encoded and single-value updates, reduce, reset, copy, "
      "write/read) over small value domains with nulls and extremes, for every scalar and array column type; every chunk of up to four values "
      "of three kinds iterated from every start with every stride. A state is the pair of type and statistics";
  o.assumptions = {"raw input uses the documented null sentinels", "floating-point input without NaN and infinities"};
  return mc::run(argc, argv, sc, o);
}
