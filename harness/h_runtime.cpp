// C13: hash tables used for grouping and for joining. C16: order statistics, top-k, distinct counting.
#include "QueryEngine/JoinHashTable/Runtime/HashJoinKeyHandlers.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.h"
#include "QueryEngine/RuntimeFunctions.h"
#include "QueryEngine/TopKAggRuntime.h"
#include "ResultSet/CountDistinct.h"
#include "ResultSet/QuantileAccessors.h"
#include "ResultSet/TopKAggAccessors.h"
#include "Shared/approx_quantile.h"
#include "Shared/quantile.h"
#include "IR/Context.h"
#include "hutil.h"
#include "mc.h"

#include <tbb/global_control.h>
#include <cstring>
#include <map>
#include <memory>
#include <set>

using mc::Ctx;
using mc::strf;

extern "C" {
uint64_t dynamic_watchdog_init(unsigned);
int64_t* get_group_value(int64_t*, const uint32_t, const int64_t*, const uint32_t, const uint32_t, const uint32_t);
int64_t* get_group_value_with_watchdog(int64_t*, const uint32_t, const int64_t*, const uint32_t, const uint32_t, const uint32_t);
int32_t get_group_value_columnar_slot(int64_t*, const uint32_t, const int64_t*, const uint32_t, const uint32_t);
int32_t get_group_value_columnar_slot_with_watchdog(int64_t*, const uint32_t, const int64_t*, const uint32_t, const uint32_t);
int64_t* get_group_value_columnar(int64_t*, const uint32_t, const int64_t*, const uint32_t);
int64_t* get_group_value_columnar_with_watchdog(int64_t*, const uint32_t, const int64_t*, const uint32_t);
int64_t* get_group_value_fast(int64_t*, const int64_t, const int64_t, const int64_t, const uint32_t);
int64_t* get_group_value_fast_with_original_key(int64_t*, const int64_t, const int64_t, const int64_t, const int64_t, const uint32_t);
uint32_t get_columnar_group_bin_offset(int64_t*, const int64_t, const int64_t, const int64_t);
int64_t* get_group_value_fast_keyless(int64_t*, const int64_t, const int64_t, const int64_t, const uint32_t);
int64_t* get_matching_group_value_perfect_hash(int64_t*, const uint32_t, const int64_t*, const uint32_t, const uint32_t);
int64_t* get_matching_group_value_perfect_hash_keyless(int64_t*, const uint32_t, const uint32_t);
void set_matching_group_value_perfect_hash_columnar(int64_t*, const uint32_t, const int64_t*, const uint32_t, const uint32_t);
int64_t* get_scan_output_slot(int64_t*, const uint32_t, const uint32_t, const int64_t, const uint32_t);
int32_t get_columnar_scan_output_offset(int64_t*, const uint32_t, const uint32_t, const int64_t);
int64_t bucketized_hash_join_idx(int64_t, int64_t const, int64_t const, int64_t const, int64_t);
int64_t hash_join_idx(int64_t, const int64_t, const int64_t, const int64_t);
int64_t bucketized_hash_join_idx_nullable(int64_t, const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
int64_t hash_join_idx_nullable(int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
int64_t hash_join_idx_bitwise(int64_t, const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
int64_t rowid_hash_join_idx(const int64_t, const int64_t, const int64_t);
int64_t rowid_hash_join_idx_nullable(const int64_t, const int64_t, const int64_t, const int64_t);
int64_t baseline_hash_join_idx_32(const int8_t*, const int8_t*, const size_t, const size_t);
int64_t baseline_hash_join_idx_64(const int8_t*, const int8_t*, const size_t, const size_t);
int64_t get_composite_key_index_32(const int32_t*, const size_t, const int32_t*, const size_t);
int64_t get_composite_key_index_64(const int64_t*, const size_t, const int64_t*, const size_t);
void agg_count_distinct_bitmap(int64_t*, const int64_t, const int64_t);
void agg_count_distinct_bitmap_skip_val(int64_t*, const int64_t, const int64_t, const int64_t);
void agg_approximate_count_distinct(int64_t*, const int64_t, const uint32_t);
#define TK(T, s) void agg_topk_##s(int64_t*, T, T, int, bool); void agg_topk_##s##_skip_val(int64_t*, T, T, int, bool); \
  void agg_quantile_##s(int64_t*, T); void agg_quantile_##s##_skip_val(int64_t*, T, T);
TK(int8_t, int8) TK(int16_t, int16) TK(int32_t, int32) TK(int64_t, int64) TK(float, float) TK(double, double)
}

// Evaluates the message only on failure.
#define CHK(ok, ...) do { if (!(ok)) c.fail(__VA_ARGS__); } while (0)

namespace {
using Key = std::vector<int64_t>;
std::string show(const Key& k) { return hu::join(k); }

// ---------------------------------------------------------------------------------------------- grouping
// Tuples that differ in one component only, incl. extreme and negative values; all values fit 32 bits.
const std::vector<Key>& keyAlphabet(size_t n) {
  static std::vector<std::vector<Key>> a = {
      {},
      {{0}, {1}, {-1}, {INT32_MIN}, {1000000007}, {2}},
      {{0, 0}, {0, 1}, {1, 0}, {INT32_MIN, 7}, {7, INT32_MIN}, {0, -1}},
      {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {INT32_MIN, 0, 0}, {0, 0, INT32_MIN}},
  };
  return a[n];
}

enum Form { ROW, COLSLOT, COL, NFORM };
const char* formName[] = {"row-wise", "columnar slot", "columnar"};

// A group-by buffer of the given form driven through the real insertion routine; rows are numbered.
struct Groups {
  Form form;
  bool wd;
  uint32_t entries, comps, width;
  size_t keyQuads, rowQuads;
  std::vector<int64_t> buf;
  Groups(Form f, bool w, uint32_t e, uint32_t c, uint32_t wi) : form(f), wd(w), entries(e), comps(c), width(wi) {
    keyQuads = form == ROW ? (comps * width + 7) / 8 : comps;
    rowQuads = keyQuads + 2;
    size_t quads = form == ROW ? rowQuads * entries : (comps * width * entries + 7) / 8 + (form == COL ? entries : 0);
    buf.assign(quads, 0);
    for (uint32_t r = 0; r < entries; ++r) {
      for (uint32_t i = 0; i < comps; ++i) {
        size_t at = form == ROW ? r * rowQuads * 8 + i * width : (size_t(i) * entries + r) * width;
        if (width == 4) { int32_t e4 = EMPTY_KEY_32; memcpy(bytes() + at, &e4, 4); }
        else { int64_t e8 = EMPTY_KEY_64; memcpy(bytes() + at, &e8, 8); }
      }
    }
  }
  int8_t* bytes() { return reinterpret_cast<int8_t*>(buf.data()); }
  int64_t comp(uint32_t r, uint32_t i) {
    size_t at = form == ROW ? r * rowQuads * 8 + i * width : (size_t(i) * entries + r) * width;
    if (width == 4) { int32_t v; memcpy(&v, bytes() + at, 4); return v; }
    int64_t v; memcpy(&v, bytes() + at, 8); return v;
  }
  bool empty(uint32_t r) { return comp(r, 0) == (width == 4 ? int64_t(EMPTY_KEY_32) : EMPTY_KEY_64); }
  // The row the key was given, -1 when refused.
  int64_t insert(Ctx& c, const Key& k) {
    std::vector<int64_t> kb((comps * width + 7) / 8);
    for (uint32_t i = 0; i < comps; ++i) {
      if (width == 4) { int32_t v = k[i]; memcpy(reinterpret_cast<int8_t*>(kb.data()) + i * 4, &v, 4); }
      else kb[i] = k[i];
    }
    if (form == COLSLOT) {
      return (wd ? get_group_value_columnar_slot_with_watchdog : get_group_value_columnar_slot)(buf.data(), entries, kb.data(), comps, width);
    }
    if (form == COL) {
      auto p = (wd ? get_group_value_columnar_with_watchdog : get_group_value_columnar)(buf.data(), entries, kb.data(), comps);
      if (!p) return -1;
      int64_t d = p - buf.data() - int64_t(comps) * entries;
      CHK(d >= 0 && d < int64_t(entries), "hash:slot-outside", strf("%s: the aggregate slot returned lies at offset %ld of %u entries", formName[form], long(d), entries));
      return d;
    }
    auto p = (wd ? get_group_value_with_watchdog : get_group_value)(buf.data(), entries, kb.data(), comps, width, rowQuads);
    if (!p) return -1;
    int64_t d = p - buf.data();
    CHK(d >= 0 && d < int64_t(buf.size()) && size_t(d % rowQuads) == keyQuads, "hash:slot-outside",
            strf("row-wise: the aggregate slot returned lies at quad %ld, rows of %zu quads with keys of %zu", long(d), rowQuads, keyQuads));
    return d / rowQuads;
  }
};

void checkGroups(Ctx& c, Groups& g, const std::vector<Key>& keys) {
  std::map<Key, int64_t> rowOf;
  for (size_t n = 0; n < keys.size(); ++n) {
    const Key& k = keys[n];
    int64_t r = g.insert(c, k);
    auto it = rowOf.find(k);
    auto ctxs = [&] { return strf("%s%s table with %u entries, %u x %u bytes, key %s (insertion %zu)", formName[g.form], g.wd ? " watchdog" : "", g.entries, g.comps, g.width, show(k).c_str(), n); };
    if (it != rowOf.end()) {
      CHK(r == it->second, "hash:same-key", strf("%s: row %ld, was given row %ld before", ctxs().c_str(), long(r), long(it->second)));
    } else if (rowOf.size() == g.entries) {
      CHK(r == -1, "hash:full", strf("%s: a new key in a full table got row %ld", ctxs().c_str(), long(r)));
    } else {
      CHK(r >= 0 && r < int64_t(g.entries), "hash:lost", strf("%s: no row although %zu of %u are taken", ctxs().c_str(), rowOf.size(), g.entries));
      for (auto& [ok, orow] : rowOf) {
        CHK(orow != r, "hash:merged", strf("%s: shares row %ld with key %s", ctxs().c_str(), long(r), show(ok).c_str()));
      }
      rowOf[k] = r;
    }
  }
  for (uint32_t r = 0; r < g.entries; ++r) {
    Key have;
    for (uint32_t i = 0; i < g.comps; ++i) have.push_back(g.comp(r, i));
    const Key* want = nullptr;
    for (auto& [k, kr] : rowOf) if (kr == r) want = &k;
    if (!want) {
      CHK(g.empty(r), "hash:phantom", strf("%s: row %u holds key %s that nobody inserted", formName[g.form], r, show(have).c_str()));
    } else {
      CHK(have == *want, "hash:stored-key", strf("%s: row %u holds key %s, inserted %s", formName[g.form], r, show(have).c_str(), show(*want).c_str()));
    }
  }
}

void group_tables(Ctx& c) {
  Form form = Form(c.choose(NFORM, "form"));
  uint32_t width = form == COL ? 8 : (c.flip("width") ? 8 : 4);
  uint32_t comps = 1 + c.choose(3, "components");
  bool wd = c.flip("watchdog");
  uint32_t entries = 1 + c.choose(c.thorough() ? 6 : 5, "entries");
  size_t len = c.thorough() ? 6 : 5;
  auto& al = keyAlphabet(comps);
  size_t nal = c.thorough() ? al.size() : 5;
  std::vector<Key> keys;
  size_t used = 0;
  for (size_t i = 0; i < len; ++i) {
    (void)used;
    keys.push_back(al[c.choose(nal, "key")]);
  }
  c.op("%s %ux%u entries=%u", formName[form], comps, width, entries);
  Groups g(form, wd, entries, comps, width);
  checkGroups(c, g, keys);
  c.state(mc::mix(mc::mix(form * 8 + comps, entries * 2 + wd), width + (keys.back()[0] & 0xff)));
}

// Long probe chains: fill a table of every size in a range to the last entry, then one key more.
void group_full(Ctx& c) {
  Form form = Form(c.choose(NFORM, "form"));
  uint32_t width = form == COL ? 8 : (c.flip("width") ? 8 : 4);
  uint32_t comps = 1 + c.choose(2, "components");
  bool wd = c.flip("watchdog");
  static const uint32_t sizes[] = {7, 64, 99, 100, 101, 102, 200, 201, 202, 256, 301, 512};
  uint32_t entries = sizes[c.choose(c.thorough() ? 12 : 10, "entries")];
  static const int64_t strides[] = {1, -1, 256, 65536, 100000};
  int64_t stride = strides[c.choose(5, "stride")];
  int64_t base = c.flip("base") ? -5000 : 0;
  std::vector<Key> keys;
  for (int rep = 0; rep < 2; ++rep) {
    for (uint32_t i = 0; i <= entries; ++i) {
      Key k{int64_t(int32_t(base + stride * int64_t(i)))};
      if (comps == 2) k.insert(c.thorough() || rep ? k.end() : k.end(), 7);
      keys.push_back(k);
    }
  }
  if (comps == 2 && (entries & 1)) for (auto& k : keys) std::swap(k[0], k[1]);
  c.op("%s full table of %u", formName[form], entries);
  Groups g(form, wd, entries, comps, width);
  checkGroups(c, g, keys);
  c.state(entries);
}

// Directly addressed groups: the slot is a function of the key, distinct buckets have distinct slots.
void group_direct(Ctx& c) {
  static const int64_t buckets[] = {0, 1, 2, 7, 86400};
  static const int64_t mins[] = {0, -3, 5, INT32_MIN + 1LL, 1000000000000LL, -172800};
  int64_t bucket = buckets[c.choose(5, "bucket")], step = bucket ? bucket : 1;
  int64_t mn = mins[c.choose(6, "min")];
  uint32_t rq = 1 + c.choose(3, "row quads");
  const int64_t n = 6;
  int kind = c.choose(6, "kind");
  std::vector<int64_t> offs;
  for (int i = 0; i < 4; ++i) offs.push_back(c.choose(n, "key"));
  int64_t sub = bucket > 1 && c.flip("inside the bucket") ? bucket - 1 : 0;
  if (kind == 4 || kind == 5) rq = std::max<uint32_t>(rq, 3);
  std::vector<int64_t> buf((kind == 2 ? n : n * std::max<uint32_t>(rq, 2)) + 2, EMPTY_KEY_64);
  if (kind < 2) rq = std::max<uint32_t>(rq, 2);
  c.op("direct kind %d", kind);
  std::map<int64_t, std::pair<int64_t, int64_t>> firstKey;
  for (auto o : offs) {
    int64_t key = mn + o * step + sub, off = -1;
    if (kind == 3 && bucket) c.skip();
    if (kind == 0) off = get_group_value_fast(buf.data(), key, mn, bucket, rq) - buf.data();
    else if (kind == 1) off = get_group_value_fast_with_original_key(buf.data(), key, key + 11, mn, bucket, rq) - buf.data();
    else if (kind == 2) off = get_columnar_group_bin_offset(buf.data(), key, mn, bucket);
    else if (kind == 3) off = get_group_value_fast_keyless(buf.data(), key, mn, bucket, rq) - buf.data();
    else {
      int64_t k2[2] = {key, key * 3 + 1};
      if (kind == 4) off = get_matching_group_value_perfect_hash(buf.data(), o, k2, 2, rq) - buf.data();
      else {
        off = get_matching_group_value_perfect_hash_keyless(buf.data(), o, rq) - buf.data();
        std::vector<int64_t> col(n * 2, EMPTY_KEY_64);
        set_matching_group_value_perfect_hash_columnar(col.data(), o, k2, 2, n);
        for (int64_t q = 0; q < n * 2; ++q) {
          int64_t want = q == o ? k2[0] : q == n + o ? k2[1] : EMPTY_KEY_64;
          CHK(col[q] == want, "direct:columnar-key", strf("perfect hash columnar keys: cell %ld is %ld, want %ld", long(q), long(col[q]), long(want)));
        }
        int64_t k3[2] = {-1, -2};
        set_matching_group_value_perfect_hash_columnar(col.data(), o, k3, 2, n);
        CHK(col[o] == k2[0] && col[n + o] == k2[1], "direct:columnar-key", "a stored perfect hash key was overwritten");
      }
    }
    int64_t want = kind == 2 ? o : kind == 3 || kind == 5 ? o * rq : o * rq + (kind == 4 ? 2 : 1);
    CHK(off == want, "direct:slot", strf("kind %d: key %ld, min %ld, bucket %ld, row of %u quads: slot %ld, want %ld", kind, long(key), long(mn), long(bucket), rq, long(off), long(want)));
    firstKey.emplace(o, std::make_pair(kind == 1 ? key + 11 : key, key * 3 + 1));
  }
  if (kind == 3 || kind == 5) return;
  for (int64_t o = 0; o < n; ++o) {
    int64_t at = kind == 2 ? o : o * rq;
    auto it = firstKey.find(o);
    int64_t want = it == firstKey.end() ? EMPTY_KEY_64 : it->second.first;
    CHK(buf[at] == want, "direct:key", strf("kind %d: key cell of slot %ld is %ld, want %ld", kind, long(o), long(buf[at]), long(want)));
    if (kind == 4 && it != firstKey.end()) CHK(buf[at + 1] == it->second.second, "direct:key", "second key component");
  }
  c.state(mc::mix(kind, firstKey.size()));
}

void scan_slots(Ctx& c) {
  uint32_t entries = c.choose(4, "entries"), rq = 1 + c.choose(3, "row quads");
  std::vector<int64_t> buf(entries * rq + 1, -7), col(entries + 1, -7);
  std::vector<int64_t> want = buf, wcol = col;
  for (int i = 0; i < 3; ++i) {
    uint32_t pos = c.choose(6, "pos");
    int64_t frag = 100 + i;
    c.op("slot %u", pos);
    auto p = get_scan_output_slot(buf.data(), entries, pos, frag, rq);
    auto q = get_columnar_scan_output_offset(col.data(), entries, pos, frag);
    if (pos < entries) {
      CHK(p == buf.data() + pos * rq + 1, "scan:slot", strf("row-wise output slot for row %u of %u", pos, entries));
      CHK(q == int32_t(pos), "scan:slot", strf("columnar output slot for row %u of %u: %d", pos, entries, q));
      want[pos * rq] = frag;
      wcol[pos] = frag;
    } else {
      CHK(!p && q == -1, "scan:overflow", strf("row %u accepted in a buffer of %u rows", pos, entries));
    }
    CHK(buf == want && col == wcol, "scan:write", strf("output buffers after row %u of %u: %s %s, want %s %s", pos, entries, hu::join(buf).c_str(), hu::join(col).c_str(), hu::join(want).c_str(), hu::join(wcol).c_str()));
  }
  c.state(entries * 4 + rq);
}

// ---------------------------------------------------------------------------------------------- joining
struct ColSpec {
  const char* name;
  size_t size;
  ColumnType kind;
  int64_t null;
  std::vector<int64_t> vals;  // as stored; the first four are used in the quick tier
  int64_t scale;              // stored value -> key
};
const std::vector<ColSpec>& colSpecs() {
  static std::vector<ColSpec> s = {
      {"int8", 1, Signed, INT8_MIN, {0, 1, -2, 27, 3}, 1},
      {"int16", 2, Signed, INT16_MIN, {-1, 0, 2, 30, 1}, 1},
      {"int32", 4, Signed, INT32_MIN, {5, 6, 8, 45, 7}, 1},
      {"int64", 8, Signed, INT64_MIN, {5000000000, 5000000001, 5000000003, 5000000030, 5000000002}, 1},
      {"dict8", 1, Unsigned, 255, {240, 241, 200, 254, 242}, 1},
      {"dict16", 2, Unsigned, 65535, {40000, 40001, 40030, 40002, 40003}, 1},
      {"date16", 2, SmallDate, INT16_MIN, {-2, -1, 0, 3, 1}, 86400},
      {"date32", 4, SmallDate, INT32_MIN, {20000, 20001, 20002, 20005, 20003}, 86400},
  };
  return s;
}
// A join column of `rows` stored in chunks: `cuts` bit i set = a new chunk starts after row i (two rows
// per bit position is enough to place boundaries everywhere in the short columns explored).
struct Column {
  std::vector<std::vector<int8_t>> data;
  std::vector<JoinChunk> chunks;
  JoinColumn jc{};
  Column() = default;
  Column(const Column&) = delete;
  void build(const ColSpec& sp, const std::vector<int64_t>& rows, unsigned cuts, bool lead_empty) {
    data.clear();
    chunks.clear();
    std::vector<std::vector<int64_t>> parts(1);
    if (lead_empty) parts.emplace_back();
    for (size_t i = 0; i < rows.size(); ++i) {
      parts.back().push_back(rows[i]);
      if (i + 1 < rows.size() && (cuts >> i & 1)) parts.emplace_back();
    }
    data.resize(parts.size());
    size_t row = 0;
    for (size_t p = 0; p < parts.size(); ++p) {
      data[p].resize(std::max<size_t>(1, parts[p].size() * sp.size));
      for (size_t i = 0; i < parts[p].size(); ++i) memcpy(data[p].data() + i * sp.size, &parts[p][i], sp.size);
      data[p].resize(parts[p].size() * sp.size);
      data[p].shrink_to_fit();
      if (data[p].empty()) data[p].reserve(1);
      chunks.push_back({data[p].data(), parts[p].size(), row});
      row += parts[p].size();
    }
    jc.col_chunks_buff = reinterpret_cast<const int8_t*>(chunks.data());
    jc.col_chunks_buff_sz = chunks.size() * sizeof(JoinChunk);
    jc.num_chunks = chunks.size();
    jc.num_elems = rows.size();
    jc.elem_sz = sp.size;
  }
};

// key -> rows that must be found for it
using Index = std::map<Key, std::vector<int64_t>>;

void perfect_join(Ctx& c) {
  auto& sp = colSpecs()[c.choose(colSpecs().size(), "column")];
  size_t nv = c.thorough() ? 5 : 4;
  size_t n = c.choose(c.thorough() ? 6 : 5, "rows");
  std::vector<int64_t> rows;
  for (size_t i = 0; i < n; ++i) {
    size_t v = c.choose(nv + 1, "value");
    rows.push_back(v == nv ? sp.null : sp.vals[v]);
  }
  int layout = c.choose(4, "layout");  // one to one (slices), one to one (cpu), semi, one to many
  bool dict = sp.kind == Unsigned;
  bool bw = sp.kind != SmallDate && c.flip("nulls match");
  bool translate = dict && c.flip("translated");
  unsigned ncuts = n > 1 ? 1u << (n - 1) : 1;
  unsigned cuts = c.thorough() ? c.choose(ncuts, "chunks") : (c.choose(2, "chunks") ? 0x5 & (ncuts - 1) : 0);
  bool lead = !c.thorough() ? false : c.flip("leading empty chunk");
  int threads = layout == 1 ? 1 : c.thorough() ? 1 + c.choose(3, "threads") : c.choose(2, "threads") ? 3 : 1;
  int64_t bucket = sp.kind == SmallDate ? 86400 : 1;
  int64_t mn = INT64_MAX, mx = INT64_MIN;
  for (size_t i = 0; i < nv; ++i) {
    mn = std::min(mn, sp.vals[i] * sp.scale);
    mx = std::max(mx, sp.vals[i] * sp.scale);
  }
  // The map sends inner id i to outer id 3*i, ids whose outer partner does not exist to INVALID or out of range.
  static std::vector<int32_t> map(65536, StringDictionary::INVALID_STR_ID);
  if (translate) {
    for (size_t i = 0; i < nv; ++i) map[sp.vals[i]] = i == 1 ? int32_t(StringDictionary::INVALID_STR_ID) : i == 2 ? 9 : int32_t(3 * (i + 1));
    mn = 3;
    mx = 3 * nv - 3;  // the outer partner of the last value lies outside the range
  }
  auto keyOf = [&](int64_t stored, int64_t& key) {
    if (stored == sp.null) {
      if (!bw) return false;
      key = mx + 1;
      return true;
    }
    if (translate) {
      key = map[stored];
      return key >= mn && key <= mx;
    }
    key = stored * sp.scale;
    return true;
  };
  Column col;
  col.build(sp, rows, cuts, lead);
  JoinColumnTypeInfo ti{sp.size, mn, mx, sp.null, bw, mx + 1, sp.kind};
  const int32_t* tm = translate ? map.data() : nullptr;
  Index want;
  for (size_t i = 0; i < n; ++i) {
    int64_t k;
    if (keyOf(rows[i], k)) want[{k}].push_back(i);
  }
  bool dup = false;
  for (auto& [k, r] : want) dup |= r.size() > 1;
  size_t range = size_t(mx - mn + 1 + (bw ? 1 : 0));
  size_t entries = bucket > 1 ? (range + bucket - 1) / bucket : range;
  std::string what = strf("%s rows %s layout %d%s%s cuts %x threads %d", sp.name, hu::join(rows).c_str(), layout, bw ? " nulls match" : "", translate ? " translated" : "", cuts, threads);
  c.op("%s", what.c_str());
  // The nullable and the null-matching lookups are what generated code calls; the plain one for not-null keys.
  auto look = [&](const int32_t* base, int64_t key, bool isnull) -> int64_t {
    int64_t b = reinterpret_cast<int64_t>(base);
    if (bucket > 1) {
      if (isnull) return bucketized_hash_join_idx_nullable(b, sp.null, mn, mx, sp.null, bucket);
      int64_t r = bucketized_hash_join_idx_nullable(b, key, mn, mx, sp.null, bucket);
      CHK(r == bucketized_hash_join_idx(b, key, mn, mx, bucket), "join:lookup", what + ": nullable and plain lookups differ");
      return r;
    }
    if (isnull) return bw ? hash_join_idx_bitwise(b, sp.null, mn, mx, sp.null, mx + 1) : hash_join_idx_nullable(b, sp.null, mn, mx, sp.null);
    int64_t r = hash_join_idx_nullable(b, key, mn, mx, sp.null);
    CHK(r == hash_join_idx(b, key, mn, mx) && r == hash_join_idx_bitwise(b, key, mn, mx, sp.null, mx + 1), "join:lookup", what + ": lookups of a key that is not null differ");
    return r;
  };
  // Every key around the range: below, inside (also the ones that are not in the column), above, null.
  std::vector<int64_t> probes;
  for (int64_t k = mn - 2 * bucket; k <= mx + 2 * bucket; k += bucket) {
    if (probes.size() > 16 && k < mx - 4 * bucket && !want.count({k}) && !want.count({k - bucket}) && !want.count({k + bucket})) continue;
    if (k != sp.null) probes.push_back(k);  // no value that is not null is stored like that
  }
  if (layout < 3) {
    std::vector<int32_t> buf(entries);
    init_hash_join_buff(buf.data(), entries, -1);
    for (auto v : buf) CHK(v == -1, "join:init", what + ": initialised buffer has a used slot");
    bool err = false;
    if (layout == 1) {
      err = fill_hash_join_buff_bucketized_cpu(buf.data(), -1, false, col.jc, ti, tm, bucket);
    } else {
      for (int t = 0; t < threads; ++t) {
        int e = bucket > 1 ? fill_hash_join_buff_bucketized(buf.data(), -1, layout == 2, col.jc, ti, tm, t, threads, bucket)
                           : fill_hash_join_buff(buf.data(), -1, layout == 2, col.jc, ti, tm, t, threads);
        err |= e != 0;
      }
    }
    CHK(err == (dup && layout != 2), "join:duplicates", strf("%s: duplicate keys %s, reported %s", what.c_str(), dup ? "exist" : "do not exist", err ? "yes" : "no"));
    if (err) return;
    auto probe = [&](int64_t key, bool isnull) {
      int64_t got = look(buf.data(), key, isnull);
      auto it = want.find({isnull ? mx + 1 : key});
      bool known = it != want.end() && (isnull || key <= mx);
      if (!known) {
        CHK(got == -1, "join:phantom", strf("%s: key %ld%s found row %ld", what.c_str(), long(key), isnull ? " (null)" : "", long(got)));
      } else {
        CHK(std::count(it->second.begin(), it->second.end(), got), "join:lost", strf("%s: key %ld%s found row %ld, rows with it %s", what.c_str(), long(key), isnull ? " (null)" : "", long(got), hu::join(it->second).c_str()));
      }
    };
    for (auto k : probes) probe(k, false);
    probe(0, true);
  } else {
    std::vector<int32_t> buf(entries * 2 + n, -1);
    init_hash_join_buff(buf.data(), entries, -1);
    HashEntryInfo hei{range, bucket};
    if (bucket > 1) fill_one_to_many_hash_table_bucketized(buf.data(), hei, -1, col.jc, ti, tm, threads);
    else fill_one_to_many_hash_table(buf.data(), hei, -1, col.jc, ti, tm, threads);
    std::set<int64_t> usedPos;
    auto probe = [&](int64_t key, bool isnull) {
      int64_t pos = look(buf.data(), key, isnull);
      int64_t cnt = pos >= 0 ? look(buf.data() + entries, key, isnull) : 0;
      auto it = want.find({isnull ? mx + 1 : key});
      bool known = it != want.end() && (isnull || key <= mx);
      std::vector<int64_t> got;
      if (pos >= 0) {
        CHK(pos + cnt <= int64_t(n) && cnt >= 0, "join:bounds", strf("%s: key %ld owns positions %ld..+%ld of %zu", what.c_str(), long(key), long(pos), long(cnt), n));
        for (int64_t i = 0; i < cnt; ++i) {
          got.push_back(buf[entries * 2 + pos + i]);
          CHK(usedPos.insert(pos + i).second, "join:shared", strf("%s: position %ld belongs to two keys", what.c_str(), long(pos + i)));
        }
      }
      std::sort(got.begin(), got.end());
      CHK(got == (known ? it->second : std::vector<int64_t>()), "join:rows",
              strf("%s: key %ld%s found rows %s, rows with it %s", what.c_str(), long(key), isnull ? " (null)" : "", hu::join(got).c_str(), known ? hu::join(it->second).c_str() : "none"));
    };
    for (auto k : probes) probe(k, false);
    probe(0, true);
  }
  c.state(mc::mix(mc::mix(layout, n), want.size() * 4 + bw * 2 + dup));
}

void rowid_join(Ctx& c) {
  int64_t mn = int64_t(c.choose(3, "min")) - 1, mx = mn + c.choose(4, "range");
  for (int64_t k = mn - 3; k <= mx + 3; ++k) {
    c.op("rowid %ld", long(k));
    int64_t want = k >= mn && k <= mx ? k : -1;
    CHK(rowid_hash_join_idx(k, mn, mx) == want, "join:rowid", strf("rowid %ld in [%ld, %ld]", long(k), long(mn), long(mx)));
    CHK(rowid_hash_join_idx_nullable(k, mn, mx, mn) == (k == mn ? -1 : want), "join:rowid", strf("nullable rowid %ld in [%ld, %ld]", long(k), long(mn), long(mx)));
  }
}

struct BaseOps {
  bool w64;
  size_t width() const { return w64 ? 8 : 4; }
  void init(int8_t* b, int64_t n, size_t k, bool v) const { (w64 ? init_baseline_hash_join_buff_64 : init_baseline_hash_join_buff_32)(b, n, k, v, -1); }
  int fill(int8_t* b, int64_t n, bool semi, size_t k, bool v, const GenericKeyHandler* h, int64_t ne, int t, int nt) const {
    return (w64 ? fill_baseline_hash_join_buff_64 : fill_baseline_hash_join_buff_32)(b, n, -1, semi, k, v, h, ne, t, nt);
  }
  std::vector<int8_t> key(const Key& k) const {
    std::vector<int8_t> r(k.size() * width());
    for (size_t i = 0; i < k.size(); ++i) memcpy(r.data() + i * width(), &k[i], width());
    return r;
  }
  int64_t idx(const int8_t* b, const Key& k, size_t n) const {
    auto kb = key(k);
    return (w64 ? baseline_hash_join_idx_64 : baseline_hash_join_idx_32)(b, kb.data(), kb.size(), n);
  }
  int64_t composite(const int8_t* dict, const Key& k, size_t n) const {
    if (w64) return get_composite_key_index_64(k.data(), k.size(), reinterpret_cast<const int64_t*>(dict), n);
    std::vector<int32_t> kk(k.begin(), k.end());
    return get_composite_key_index_32(kk.data(), k.size(), reinterpret_cast<const int32_t*>(dict), n);
  }
};

// Key columns of one size each; the second column may be a translated dictionary.
void baseline_join(Ctx& c) {
  static const ColSpec A{"int32", 4, Signed, INT32_MIN, {0, 1, -1, 77}, 1};
  static const ColSpec B{"int16", 2, Signed, INT16_MIN, {0, 1, 2, 9}, 1};
  static const ColSpec D{"dict8", 1, Unsigned, 255, {0, 1, 2, 9}, 1};
  static const ColSpec W{"int64", 8, Signed, INT64_MIN, {0, 5000000000, 1, -5000000000}, 1};
  BaseOps ops{c.flip("64 bit")};
  size_t comps = 1 + c.choose(3, "components");
  int second = comps > 1 ? c.choose(2, "second column") : 0;
  bool bw = c.flip("nulls match");
  int layout = c.choose(3, "layout");  // one to one, semi, one to many
  std::vector<const ColSpec*> cs{ops.w64 ? &W : &A};
  if (comps > 1) cs.push_back(second ? &D : &B);
  if (comps > 2) cs.push_back(&A);
  bool translate = second == 1;
  static const int32_t map[16] = {5, StringDictionary::INVALID_STR_ID, 5, 6, -1, -1, -1, -1, -1, 4, -1, -1, -1, -1, -1, -1};
  // Tuples: a small set in which some differ in one component, some hold nulls.
  static const int tup[][3] = {{0, 0, 0}, {0, 1, 0}, {1, 0, 0}, {0, -1, 0}, {-1, 0, 0}, {0, 2, 0}, {0, 0, 1}};
  size_t ntup = comps == 1 ? 4 : comps == 2 ? 6 : 7;
  static const int one[] = {0, 1, 2, -1};
  size_t n = c.choose(c.thorough() ? 5 : 4, "rows");
  std::vector<std::vector<int64_t>> cols(comps);
  Index want;
  for (size_t i = 0; i < n; ++i) {
    size_t t = c.choose(ntup, "tuple");
    Key k;
    bool skip = false;
    for (size_t j = 0; j < comps; ++j) {
      int v = comps == 1 ? one[t] : tup[t][j];
      int64_t stored = v < 0 ? cs[j]->null : cs[j]->vals[v];
      cols[j].push_back(stored);
      int64_t e = stored;
      if (v < 0) {
        skip |= !bw;
      } else if (j == 1 && translate) {
        e = map[stored];
        skip |= e == StringDictionary::INVALID_STR_ID;
      }
      k.push_back(e);
    }
    if (!skip) want[k].push_back(i);
  }
  size_t distinct = want.size();
  bool dup = false;
  for (auto& [k, r] : want) dup |= r.size() > 1;
  size_t entries = 1 + c.choose(5, "entries");
  int threads = 1 + c.choose(3, "threads");
  std::vector<Column> col(comps);
  std::vector<JoinColumn> jcs;
  std::vector<JoinColumnTypeInfo> tis;
  std::vector<const int32_t*> maps;
  for (size_t j = 0; j < comps; ++j) {
    col[j].build(*cs[j], cols[j], j == 1 ? 0x1 : 0x2, false);
    jcs.push_back(col[j].jc);
    tis.push_back(JoinColumnTypeInfo{cs[j]->size, 0, 0, cs[j]->null, bw, 0, cs[j]->kind});
    maps.push_back(j == 1 && translate ? map : nullptr);
  }
  GenericKeyHandler h(comps, true, jcs.data(), tis.data(), maps.data());
  std::string what = strf("%d bit keys of %zu components, %zu entries, layout %d%s%s, threads %d, columns", ops.w64 ? 64 : 32, comps, entries, layout, bw ? " nulls match" : "", translate ? " translated" : "", threads);
  for (auto& x : cols) what += " " + hu::join(x);
  c.op("%s", what.c_str());
  bool val = layout < 2;
  size_t esz = (comps + (val ? 1 : 0)) * ops.width();
  std::vector<int8_t> buf(esz * entries + (val ? 0 : (entries * 2 + n) * 4));
  ops.init(buf.data(), entries, comps, val);
  int err = 0;
  for (int t = 0; t < threads && !err; ++t) err = ops.fill(buf.data(), entries, layout == 1, comps, val, &h, n, t, threads);
  bool full = distinct > entries;
  if (full || (layout == 0 && dup)) {
    CHK(err != 0, "join:refuse", strf("%s: %zu distinct keys%s, no error", what.c_str(), distinct, dup ? " with duplicates" : ""));
    CHK(err == -1 ? dup && layout == 0 : err == -2 && full, "join:refuse", strf("%s: error %d", what.c_str(), err));
    return;
  }
  CHK(err == 0, "join:refused", strf("%s: error %d for %zu distinct keys%s", what.c_str(), err, distinct, dup ? " with duplicates" : ""));
  // Probe every key of the alphabet, present or not.
  std::vector<Key> probes;
  for (size_t t = 0; t < ntup; ++t) {
    Key k;
    for (size_t j = 0; j < comps; ++j) {
      int v = comps == 1 ? one[t] : tup[t][j];
      int64_t e = v < 0 ? cs[j]->null : cs[j]->vals[v];
      if (j == 1 && translate && v >= 0) e = map[e];
      k.push_back(e);
    }
    probes.push_back(k);
    k.back() += 1000;
    probes.push_back(k);
  }
  if (val) {
    for (auto& k : probes) {
      int64_t got = ops.idx(buf.data(), k, entries);
      auto it = want.find(k);
      if (it == want.end()) CHK(got < 0, "join:phantom", strf("%s: key %s found row %ld", what.c_str(), show(k).c_str(), long(got)));
      else CHK(std::count(it->second.begin(), it->second.end(), got), "join:lost", strf("%s: key %s found row %ld, rows with it %s", what.c_str(), show(k).c_str(), long(got), hu::join(it->second).c_str()));
    }
  } else {
    auto ob = reinterpret_cast<int32_t*>(buf.data() + esz * entries);
    init_hash_join_buff(ob, entries, -1);
    if (ops.w64) fill_one_to_many_baseline_hash_table_64(ob, reinterpret_cast<int64_t*>(buf.data()), entries, -1, comps, jcs, tis, maps, threads);
    else fill_one_to_many_baseline_hash_table_32(ob, reinterpret_cast<int32_t*>(buf.data()), entries, -1, comps, jcs, tis, maps, threads);
    std::set<int64_t> usedPos;
    std::set<Key> seen;
    for (auto& k : probes) {
      if (!seen.insert(k).second) continue;
      int64_t slot = ops.composite(buf.data(), k, entries);
      auto it = want.find(k);
      std::vector<int64_t> got;
      if (slot >= 0) {
        CHK(slot < int64_t(entries), "join:bounds", strf("%s: key %s has slot %ld", what.c_str(), show(k).c_str(), long(slot)));
        int64_t pos = ob[slot], cnt = pos >= 0 ? ob[entries + slot] : 0;
        CHK(cnt >= 0 && pos + cnt <= int64_t(n), "join:bounds", strf("%s: key %s owns positions %ld..+%ld of %zu", what.c_str(), show(k).c_str(), long(pos), long(cnt), n));
        for (int64_t i = 0; i < cnt; ++i) {
          got.push_back(ob[entries * 2 + pos + i]);
          CHK(usedPos.insert(pos + i).second, "join:shared", strf("%s: position %ld belongs to two keys", what.c_str(), long(pos + i)));
        }
      }
      std::sort(got.begin(), got.end());
      CHK(got == (it == want.end() ? std::vector<int64_t>() : it->second), "join:rows",
              strf("%s: key %s found rows %s, rows with it %s", what.c_str(), show(k).c_str(), hu::join(got).c_str(), it == want.end() ? "none" : hu::join(it->second).c_str()));
    }
  }
  c.state(mc::mix(mc::mix(layout, comps), distinct * 8 + entries));
}

// Estimating the number of distinct key tuples, which sizes the baseline tables: many tuples, small error.
void distinct_tuples(Ctx& c) {
  size_t comps = 1 + c.choose(2, "components");
  static const size_t counts[] = {0, 1, 2, 10, 100, 1000, 5000};
  size_t distinct = counts[c.choose(7, "distinct")];
  size_t copies = 1 + c.choose(3, "copies");
  int threads = 1 + c.choose(4, "threads");
  bool nulls = c.flip("null row");
  ColSpec A{"int32", 4, Signed, INT32_MIN, {}, 1};
  std::vector<std::vector<int64_t>> cols(comps);
  for (size_t r = 0; r < copies; ++r) {
    for (size_t i = 0; i < distinct; ++i) {
      cols[0].push_back(comps == 1 ? i : i / 10);
      if (comps == 2) cols[1].push_back(i % 10);
    }
  }
  if (nulls) for (auto& x : cols) x.push_back(INT32_MIN);
  std::vector<Column> col(comps);
  std::vector<JoinColumn> jcs;
  std::vector<JoinColumnTypeInfo> tis;
  for (size_t j = 0; j < comps; ++j) {
    col[j].build(A, cols[j], 0x2, false);
    jcs.push_back(col[j].jc);
    tis.push_back(JoinColumnTypeInfo{4, 0, 0, INT32_MIN, false, 0, Signed});
  }
  const uint32_t b = 11;
  CountDistinctDescriptor d{CountDistinctImplType::Bitmap, 0, b, true, ExecutorDeviceType::CPU, 1};
  size_t pad = d.bitmapPaddedSizeBytes();
  std::vector<uint8_t> hll(pad * threads, 0);
  c.op("distinct tuples %zu x %zu, %d threads", distinct, copies, threads);
  approximate_distinct_tuples(hll.data(), b, pad, jcs, tis, threads);
  for (int t = 1; t < threads; ++t) hll_unify(hll.data(), hll.data() + t * pad, 1 << b);
  double est = hll_size(reinterpret_cast<int8_t*>(hll.data()), b);
  double exp = double(distinct) + (nulls ? 0 : 0);
  // 1.04 / sqrt(2^11) = 2.3 % standard error; the inputs are fixed, so five of it is a bound that holds.
  CHK(std::abs(est - exp) <= 0.12 * exp + 1.5, "join:estimate", strf("%zu distinct tuples of %zu components, %zu copies, %d threads%s estimated as %.0f", distinct, comps, copies, threads, nulls ? ", null row" : "", est));
  c.state(mc::mix(distinct, threads));
}

// ---------------------------------------------------------------------------------------------- C16
struct Alloc : SimpleAllocator {
  std::vector<std::unique_ptr<int8_t[]>> mem;
  int8_t* allocate(const size_t n, const size_t = 0) override {
    mem.emplace_back(new int8_t[n]);
    return mem.back().get();
  }
};
hdk::ir::Context& ir() { return hdk::ir::Context::defaultCtx(); }

template <class T>
struct Tr;
#define TR(T, nm, ty)                                                                                  \
  template <>                                                                                          \
  struct Tr<T> {                                                                                       \
    static const char* name() { return #nm; }                                                          \
    static const hdk::ir::Type* type() { return ty; }                                                  \
    static void topk(int64_t* a, T v, T e, int k, bool i) { agg_topk_##nm(a, v, e, k, i); }             \
    static void topkSkip(int64_t* a, T v, T e, int k, bool i) { agg_topk_##nm##_skip_val(a, v, e, k, i); } \
    static void q(int64_t* a, T v) { agg_quantile_##nm(a, v); }                                        \
    static void qSkip(int64_t* a, T v, T s) { agg_quantile_##nm##_skip_val(a, v, s); }                  \
  };
TR(int8_t, int8, ir().int8())
TR(int16_t, int16, ir().int16())
TR(int32_t, int32, ir().int32())
TR(int64_t, int64, ir().int64())
TR(float, float, ir().fp32())
TR(double, double, ir().fp64())

template <class T>
std::vector<T> vals() {
  if constexpr (std::is_floating_point_v<T>) return {T(0.5), T(-1.25), T(3), T(1e30), T(-1e30), T(0)};
  else return {T(0), T(1), T(-1), std::numeric_limits<T>::max(), T(std::numeric_limits<T>::min() + 1), T(7)};
}

template <class T>
void quantileOf(Ctx& c) {
  using hdk::ir::Interpolation;
  static const double qs[] = {0, 0.25, 0.5, 1.0 / 3, 0.9, 1, 0.1};
  static const Interpolation ips[] = {Interpolation::kLower, Interpolation::kHigher, Interpolation::kNearest, Interpolation::kMidpoint, Interpolation::kLinear};
  size_t n = c.choose(c.thorough() ? 7 : 5, "values");
  size_t parts = 1 + c.choose(3, "parts");
  auto v = vals<T>();
  size_t nv = c.thorough() ? (n > 5 ? 3 : n > 4 ? 4 : 6) : n > 3 ? 4 : 6;
  T null = inline_null_value<T>();
  std::vector<std::vector<T>> in(parts);
  std::vector<T> all;
  for (size_t i = 0; i < n; ++i) {
    size_t k = c.choose(nv, "value");
    // Values are dealt to the parts in contiguous runs whose cuts follow from (n, parts).
    in[i * parts / std::max<size_t>(n, 1)].push_back(v[k]);
    all.push_back(v[k]);
  }
  bool withNull = c.flip("null values in between");
  bool reverse = parts > 1 && c.flip("merge order");
  std::sort(all.begin(), all.end());
  for (double q : qs) {
    for (auto ip : ips) {
      Alloc al;
      std::vector<std::unique_ptr<hdk::quantile::Quantile>> qq;
      for (size_t p = 0; p < parts; ++p) {
        qq.emplace_back(new hdk::quantile::Quantile(&al));
        int64_t h = reinterpret_cast<int64_t>(qq.back().get());
        for (auto x : in[p]) {
          if (withNull) {
            Tr<T>::qSkip(&h, null, null);
            Tr<T>::qSkip(&h, x, null);
          } else {
            Tr<T>::q(&h, x);
          }
        }
      }
      hdk::quantile::Quantile* root;
      if (reverse) {
        root = qq.back().get();
        for (size_t p = parts - 1; p-- > 0;) root->merge(*qq[p]);
      } else {
        root = qq[0].get();
        for (size_t p = 1; p < parts; ++p) root->merge(*qq[p]);
      }
      bool interp = ip == Interpolation::kMidpoint || ip == Interpolation::kLinear;
      auto rt = interp ? ir().fp64() : Tr<T>::type();
      TargetInfo t{true, hdk::ir::AggType::kQuantile, rt, Tr<T>::type(), true, false, 0, false, q, ip};
      c.op("quantile %s n=%zu q=%g ip=%d", Tr<T>::name(), n, q, int(ip));
      std::string what = strf("quantile of %zu %s values %s, q %g, interpolation %d, %zu parts", n, Tr<T>::name(), hu::join(all).c_str(), q, int(ip), parts);
      for (int fin = 0; fin < 2; ++fin) {
        if (fin) finalizeQuantile(root, t);
        TargetValue tv = getQuantile(root, t);
        auto sv = boost::get<ScalarTargetValue>(tv);
        double got = 0;
        int64_t goti = 0;
        bool isi = false;
        if (auto x = boost::get<int64_t>(&sv)) { goti = *x; isi = true; }
        else if (auto x = boost::get<float>(&sv)) got = *x;
        else got = boost::get<double>(sv);
        if (all.empty()) {
          if (interp) CHK(!isi && got == inline_null_value<double>(), "quantile:null", what + ": not null");
          else if constexpr (std::is_floating_point_v<T>) CHK(!isi && got == double(inline_null_value<T>()), "quantile:null", what + ": not null");
          else CHK(isi && goti == int64_t(null), "quantile:null", strf("%s: %ld, not null", what.c_str(), long(goti)));
          continue;
        }
        double pos = double(all.size() - 1) * q;
        size_t l = std::floor(pos), h = std::ceil(pos);
        if (!interp) {
          size_t at = ip == Interpolation::kLower ? l : ip == Interpolation::kHigher ? h : size_t(std::round(pos));
          if constexpr (std::is_floating_point_v<T>) CHK(!isi && got == double(all[at]), "quantile:value", strf("%s: %g, want %g", what.c_str(), got, double(all[at])));
          else CHK(isi && goti == int64_t(all[at]), "quantile:value", strf("%s: %ld, want %ld", what.c_str(), long(goti), long(all[at])));
        } else {
          long double a = all[l], b = all[h], w = ip == Interpolation::kMidpoint ? 0.5L : (long double)(pos - std::floor(pos));
          long double want = l == h ? a : a + (b - a) * w;
          long double tol = 1e-9L * (fabsl(a) + fabsl(b)) + 1e-12L;
          CHK(!isi && fabsl(got - want) <= tol, "quantile:value", strf("%s: %.17g, want %.17Lg", what.c_str(), got, want));
        }
      }
    }
  }
  c.state(mc::mix(n, parts * 8 + sizeof(T)));
}
void quantiles(Ctx& c) {
  switch (c.choose(6, "type")) {
    case 0: return quantileOf<int8_t>(c);
    case 1: return quantileOf<int16_t>(c);
    case 2: return quantileOf<int32_t>(c);
    case 3: return quantileOf<int64_t>(c);
    case 4: return quantileOf<float>(c);
    default: return quantileOf<double>(c);
  }
}

// Values that spill over several chunks of the collector: every size around the chunk boundaries.
void quantile_chunks(Ctx& c) {
  using hdk::ir::Interpolation;
  static const size_t base[] = {8192, 16384, 24576};
  size_t n = base[c.choose(c.thorough() ? 3 : 2, "chunks")] - 1 + c.choose(3, "offset");
  size_t extra = c.choose(3, "second part") * 5;
  int order = c.choose(3, "order");
  static const double qs[] = {0, 0.5, 1, 0.3};
  double q = qs[c.choose(4, "q")];
  Alloc al;
  hdk::quantile::Quantile a(&al), b(&al);
  std::vector<int64_t> all;
  int64_t ha = reinterpret_cast<int64_t>(&a), hb = reinterpret_cast<int64_t>(&b);
  for (size_t i = 0; i < n; ++i) {
    int64_t x = order == 0 ? int64_t(i) : order == 1 ? int64_t(n - i) : int64_t((i * 7919) % n);
    agg_quantile_int64(&ha, x);
    all.push_back(x);
  }
  for (size_t i = 0; i < extra; ++i) {
    agg_quantile_int64(&hb, -int64_t(i));
    all.push_back(-int64_t(i));
  }
  bool swap = c.flip("merge into the small one");
  auto root = swap ? &b : &a;
  if (swap) b.merge(a); else a.merge(b);
  TargetInfo t{true, hdk::ir::AggType::kQuantile, ir().int64(), ir().int64(), true, false, 0, false, q, Interpolation::kLower};
  c.op("quantile of %zu+%zu", n, extra);
  finalizeQuantile(root, t);
  auto sv = boost::get<ScalarTargetValue>(getQuantile(root, t));
  std::sort(all.begin(), all.end());
  int64_t want = all[size_t(std::floor((all.size() - 1) * q))];
  CHK(boost::get<int64_t>(sv) == want, "quantile:chunks", strf("quantile %g of %zu + %zu values is %ld, want %ld", q, n, extra, long(boost::get<int64_t>(sv)), long(want)));
  c.state(n + extra);
}

template <class T>
void topkOf(Ctx& c) {
  int k = 1 + c.choose(c.thorough() ? 5 : 4, "k");
  if (c.flip("bottom")) k = -k;
  size_t n = c.choose(c.thorough() ? 8 : 7, "values");
  bool inl = size_t(std::abs(k)) * sizeof(T) <= 8 && c.flip("inline");
  bool skip = c.flip("nulls in between");
  auto v = vals<T>();
  size_t nv = n > 5 ? 3 : n > 4 ? 4 : 6;
  T null = inline_null_value<T>();
  std::vector<T> heap(std::max<size_t>(std::abs(k), 8 / sizeof(T)), null);
  heap.resize(inl ? heap.size() : std::abs(k));
  int64_t slot = 0;
  int64_t* agg = &slot;
  if (inl) agg = reinterpret_cast<int64_t*>(heap.data());
  else slot = reinterpret_cast<int64_t>(heap.data());
  std::vector<T> all;
  for (size_t i = 0; i < n; ++i) {
    T x = v[c.choose(nv, "value")];
    all.push_back(x);
    if (skip) {
      Tr<T>::topkSkip(agg, null, null, k, inl);
      Tr<T>::topkSkip(agg, x, null, k, inl);
    } else {
      Tr<T>::topk(agg, x, null, k, inl);
    }
    auto want = all;
    if (k > 0) std::sort(want.begin(), want.end(), std::greater<T>());
    else std::sort(want.begin(), want.end());
    want.resize(std::min<size_t>(want.size(), std::abs(k)));
    int sz = getTopKHeapSize(reinterpret_cast<const int8_t*>(heap.data()), Tr<T>::type(), std::abs(k));
    CHK(sz == int(want.size()), "topk:size", strf("top %d of %s %s keeps %d values, want %zu", k, Tr<T>::name(), hu::join(all).c_str(), sz, want.size()));
    std::vector<T> got(heap.begin(), heap.begin() + sz);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    CHK(got == want, "topk:values", strf("top %d of %s %s keeps %s, want %s", k, Tr<T>::name(), hu::join(all).c_str(), hu::join(got).c_str(), hu::join(want).c_str()));
  }
  c.op("topk %s k=%d n=%zu", Tr<T>::name(), k, n);
  c.state(mc::mix(n, k * 8 + sizeof(T)));
}
void topk(Ctx& c) {
  switch (c.choose(6, "type")) {
    case 0: return topkOf<int8_t>(c);
    case 1: return topkOf<int16_t>(c);
    case 2: return topkOf<int32_t>(c);
    case 3: return topkOf<int64_t>(c);
    case 4: return topkOf<float>(c);
    default: return topkOf<double>(c);
  }
}

// Exact distinct counting over bitmaps (incl. partial bitmaps) and hash sets, and their union.
void distinct_exact(Ctx& c) {
  int64_t bits = 1 + c.choose(c.thorough() ? 140 : 76, "bits");
  static const int64_t mins[] = {0, -5, 1000000000000LL};
  int64_t mn = mins[c.choose(3, "min")];
  size_t sub = c.flip("sub-bitmaps") ? 1 + c.choose(3, "count") : 1;
  bool hash = sub == 1 && c.flip("hash set");
  CountDistinctDescriptor d{hash ? CountDistinctImplType::HashSet : CountDistinctImplType::Bitmap, mn, bits, false, ExecutorDeviceType::CPU, sub};
  std::vector<int64_t> cand{0, bits - 1, bits / 2, 7 % bits, 8 % bits, 63 % bits, 64 % bits};
  std::set<int64_t> sets[2];
  std::vector<int8_t> bm[2];
  robin_hood::unordered_set<int64_t> hs[2];
  int64_t handle[2];
  size_t padded = hash ? 0 : d.bitmapPaddedSizeBytes();
  unsigned mask[2] = {unsigned(c.choose(128, "first set")), 0};
  static const unsigned second[] = {0, 1, 2, 0x7f, 0x55, 0x2a, 0x18};
  mask[1] = second[c.choose(7, "second set")];
  for (int s = 0; s < 2; ++s) {
    bm[s].assign(padded, 0);
    handle[s] = hash ? reinterpret_cast<int64_t>(&hs[s]) : reinterpret_cast<int64_t>(bm[s].data());
    for (int i = 0; i < 7; ++i) {
      if (!(mask[s] >> i & 1)) continue;
      int64_t v = mn + cand[i];
      sets[s].insert(v);
      if (hash) {
        hs[s].insert(v);
      } else {
        int64_t part = handle[s] + (i % sub) * (padded / sub);
        if (i & 1) agg_count_distinct_bitmap(&part, v, mn);
        else {
          agg_count_distinct_bitmap_skip_val(&part, v, mn, INT64_MIN);
          agg_count_distinct_bitmap_skip_val(&part, INT64_MIN, mn, INT64_MIN);
        }
      }
    }
  }
  c.op("distinct %ld bits, %zu sub-bitmaps%s", long(bits), sub, hash ? ", hash set" : "");
  std::string what = strf("%ld bits from %ld, %zu sub-bitmaps%s, sets %02x %02x", long(bits), long(mn), sub, hash ? ", hash set" : "", mask[0], mask[1]);
  CHK(count_distinct_set_size(handle[1], d) == int64_t(sets[1].size()), "distinct:size", strf("%s: size %ld, want %zu", what.c_str(), long(count_distinct_set_size(handle[1], d)), sets[1].size()));
  count_distinct_set_union(handle[0], handle[1], d, d);
  std::set<int64_t> all = sets[0];
  all.insert(sets[1].begin(), sets[1].end());
  CHK(count_distinct_set_size(handle[0], d) == int64_t(all.size()), "distinct:union", strf("%s: union has size %ld, want %zu", what.c_str(), long(count_distinct_set_size(handle[0], d)), all.size()));
  CHK(count_distinct_set_size(handle[1], d) == int64_t(sets[1].size()), "distinct:union", what + ": the union changed its source");
  CHK(count_distinct_set_size(0, d) == 0, "distinct:size", "no set");
  c.state(mc::mix(bits, all.size()));
}

// Approximate counting: the sketch of a union is the union of sketches, order and repetition do not
// matter, and the estimate is accurate for every (fixed) input explored.
void distinct_approx(Ctx& c) {
  static const int err[] = {1, 2, 5, 10, 50, 100};
  int e = err[c.choose(6, "error")];
  int b = hll_size_for_rate(e);
  CHK(b >= 4 && b <= 16 && (b == 16 || 1.04 / std::sqrt(double(1 << b)) <= e / 100.0), "hll:size", strf("%d %% error: 2^%d registers", e, b));
  static const size_t counts[] = {0, 1, 2, 7, 50, 500, 5000, 60000};
  size_t n = counts[c.choose(c.thorough() ? 8 : 7, "values")];
  size_t overlap = c.choose(3, "overlap");
  int64_t stride = c.flip("stride") ? 1 : 1000003;
  CountDistinctDescriptor d{CountDistinctImplType::Bitmap, 0, b, true, ExecutorDeviceType::CPU, 1};
  size_t sz = d.bitmapSizeBytes();
  CHK(sz == size_t(1) << b, "hll:bytes", "register bytes");
  std::vector<int8_t> m1(sz, 0), m2(sz, 0), all(sz, 0), rev(sz, 0);
  auto put = [&](std::vector<int8_t>& m, int64_t v) {
    int64_t h = reinterpret_cast<int64_t>(m.data());
    agg_approximate_count_distinct(&h, v, b);
  };
  // overlap 0: halves, 1: both get everything, 2: second is empty
  for (size_t i = 0; i < n; ++i) {
    int64_t v = int64_t(i) * stride - 17;
    if (overlap == 1 || overlap == 2 || i % 2 == 0) put(m1, v);
    if (overlap == 1 || (overlap == 0 && i % 2)) put(m2, v);
    put(all, v);
  }
  for (int rep = 0; rep < 2; ++rep) for (size_t i = n; i-- > 0;) put(rev, int64_t(i) * stride - 17);
  c.op("hll b=%d n=%zu", b, n);
  CHK(rev == all, "hll:order", strf("2^%d registers, %zu values: order or repetition of values changes the sketch", b, n));
  auto keep = m2;
  count_distinct_set_union(reinterpret_cast<int64_t>(m1.data()), reinterpret_cast<int64_t>(m2.data()), d, d);
  CHK(m1 == all, "hll:union", strf("2^%d registers, %zu values: the union of two sketches is not the sketch of the union", b, n));
  double est = count_distinct_set_size(reinterpret_cast<int64_t>(all.data()), d);
  double sd = 1.04 / std::sqrt(double(1 << b));
  CHK(std::abs(est - double(n)) <= 4 * sd * n + 1.0, "hll:accuracy", strf("2^%d registers: %zu distinct values estimated as %.0f", b, n, est));
  if (n) CHK(std::count_if(all.begin(), all.end(), [](int8_t x) { return x != 0; }) > 0, "hll:empty", "values leave no trace");
  c.state(mc::mix(b, n));
}

double exactQ(const std::vector<double>& s, double q) {
  if (q == 1) return s.back();
  double idx, frac = std::modf(q * s.size(), &idx);
  size_t i = size_t(idx);
  return frac == 0 && i ? 0.5 * (s[i] + s[i - 1]) : s[i];
}

void tdigest(Ctx& c) {
  using quantile::TDigest;
  static const double presets[] = {0.5, 0.05, 0.95};
  double preset = presets[c.choose(3, "preset")];
  // The engine uses 300 centroids and a buffer of 1000; with fewer than about 30 centroids the digest overruns its
  // own capacity (asserted there), which no configuration of the engine asks for.
  static const size_t caps[] = {50, 300, 100, 64, 77};
  size_t cap = caps[c.choose(c.thorough() ? 5 : 2, "centroids")];
  size_t bufsz = c.flip("buffer") ? cap : cap * 10 / 3;
  size_t parts = 1 + c.choose(3, "parts");
  static const size_t ns[] = {1, 2, 3, 8, 25, 49, 50, 51, 60, 101, 167, 301, 1000, 1700, 299, 3000, 4, 5, 33, 34, 200, 600, 5000};
  size_t n = ns[c.choose(c.thorough() ? 22 : 14, "values")];
  int shape = c.choose(5, "shape");
  int order = c.choose(3, "order");
  std::vector<double> xs;
  for (size_t i = 0; i < n; ++i) {
    double x = 0;
    switch (shape) {
      case 0: x = i; break;
      case 1: x = double(i / 3) - 4; break;
      case 2: x = i == 0 ? -1e6 : i == 1 ? 1e6 : double(i % 5); break;
      case 3: x = -double(i * i); break;
      default: x = 2.5; break;
    }
    xs.push_back(x);
  }
  if (order == 1) std::reverse(xs.begin(), xs.end());
  if (order == 2) {
    std::vector<double> y;
    size_t step = 7;
    while (std::__gcd(step, n) != 1) step += 1;
    for (size_t i = 0; i < n; ++i) y.push_back(xs[(i * step) % n]);
    xs = y;
  }
  Alloc al;
  std::vector<std::unique_ptr<TDigest>> ds;
  for (size_t p = 0; p < parts; ++p) {
    ds.emplace_back(new TDigest(preset, &al, bufsz, cap));
    ds.back()->allocate();
  }
  for (size_t i = 0; i < n; ++i) ds[i * parts / n]->add(xs[i]);
  for (size_t p = 1; p < parts; ++p) ds[0]->mergeTDigest(*ds[p]);
  ds[0]->mergeBuffer();
  c.op("tdigest n=%zu cap=%zu parts=%zu", n, cap, parts);
  auto sorted = xs;
  std::sort(sorted.begin(), sorted.end());
  std::string what = strf("t-digest with %zu centroids of %zu values (shape %d, order %d) in %zu parts, preset %g", cap, n, shape, order, parts, preset);
  CHK(ds[0]->totalWeight() == n, "tdigest:weight", strf("%s: holds %zu values", what.c_str(), size_t(ds[0]->totalWeight())));
  CHK(ds[0]->centroids().size() <= cap, "tdigest:size", what + ": too many centroids");

  for (int qi = 0; qi <= 20; ++qi) {
    double q = qi / 20.0;
    std::vector<size_t> scratch(cap);
    double got = ds[0]->quantile(scratch.data(), q);
    double want = exactQ(sorted, q);
    double span = sorted.back() - sorted.front();
    CHK(got >= sorted.front() - 1e-9 * span && got <= sorted.back() + 1e-9 * span, "tdigest:range", strf("%s: quantile %g is %g, values lie in [%g, %g]", what.c_str(), q, got, sorted.front(), sorted.back()));
    if (n <= cap) CHK(got == want, "tdigest:exact", strf("%s: quantile %g is %g, want %g", what.c_str(), q, got, want));
    if (qi == 0) CHK(got == sorted.front(), "tdigest:min", strf("%s: minimum %g, want %g", what.c_str(), got, sorted.front()));
    if (qi == 20) CHK(got == sorted.back(), "tdigest:max", strf("%s: maximum %g, want %g", what.c_str(), got, sorted.back()));

    size_t big = 0;
    for (size_t i = 0; i < ds[0]->centroids().size(); ++i) big = std::max<size_t>(big, ds[0]->centroids().counts_[i]);
    double x = q * n;
    size_t lo = x > 2.0 * big ? size_t(x - 2.0 * big) : 0, hi = std::min<size_t>(n - 1, size_t(x + 2.0 * big));
    CHK(got >= sorted[lo] - 1e-9 * span && got <= sorted[hi] + 1e-9 * span, "tdigest:rank", strf("%s: quantile %g is %g, the values two centroids around are %g to %g", what.c_str(), q, got, sorted[lo], sorted[hi]));
  }
  CHK(ds[0]->quantile() == ds[0]->quantile(preset), "tdigest:preset", what);
  c.state(mc::mix(n, cap * 4 + parts));
}
}  // namespace

int main(int argc, char** argv) {
  hu::quietLogger();
  mc::Options o;
  o.rule = "every sequence of keys, rows or values up to the stated length over a small alphabet with extremes and nulls, for every table size, key width, layout, chunking and thread count";
  o.worker_init = [] {
    static tbb::global_control tc(tbb::global_control::max_allowed_parallelism, 1);
    dynamic_watchdog_init(1000000000);  // no deadline within a run
  };
  return mc::run(argc, argv,
                 {
                     {"hash_group", group_tables, 5},
                     {"hash_group_full", group_full, 4},
                     {"hash_group_direct", group_direct, 4},
                     {"hash_scan_slots", scan_slots, 2},
                     {"hash_join_perfect", perfect_join, 4},
                     {"hash_join_rowid", rowid_join, 2},
                     {"hash_join_baseline", baseline_join, 5},
                     {"hash_join_estimate", distinct_tuples, 3, 120},
                     {"stat_quantile", quantiles, 4},
                     {"stat_quantile_chunks", quantile_chunks, 3, 120},
                     {"stat_topk", topk, 4},
                     {"stat_distinct", distinct_exact, 3},
                     {"stat_hll", distinct_approx, 3},
                     {"stat_tdigest", tdigest, 4},
                 },
                 o);
}
