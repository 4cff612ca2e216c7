// Every bounded history of a buffer pool (fetch, pin, evict, write, delete, clear; faults: storage read
// fails, slab allocation fails) against a model of what each chunk must contain.
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBuffer.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/TieredCpuBufferMgr.h"
#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/DataMgr.h"
#include "IR/Context.h"
#include "hutil.h"

#include <map>
#include <set>

using mc::Ctx;
using mc::strf;
using namespace Buffer_Namespace;
using namespace Data_Namespace;

namespace {
constexpr size_t kPage = 64;

int8_t pat(int key, size_t i, int salt = 0) { return (int8_t)(key * 37 + i * 7 + (i >> 6) * 11 + salt * 59 + 1); }

struct FetchFault : std::runtime_error {
  FetchFault() : std::runtime_error("injected storage failure") {}
};

struct Token : AbstractDataToken {
  std::vector<int8_t> data;
  int* live;
  Token(std::vector<int8_t> d, int* l) : data(std::move(d)), live(l) { ++*live; }
  ~Token() override { --*live; }
  const int8_t* getMemoryPtr() const override { return data.data(); }
  size_t getSize() const override { return data.size(); }
  const hdk::ir::Type* getType() const override { return hdk::ir::Context::defaultCtx().int8(); }
};

// The storage below the pool.
struct Store : AbstractDataProvider {
  std::map<ChunkKey, size_t> sizes;
  std::set<ChunkKey> zero_copy;
  bool fail_next = false;
  bool fail_half = false;  // fail after half of the data was written
  int live_tokens = 0;
  std::function<void()> on_fetch;
  static int id(const ChunkKey& k) { return k[1] * 10 + k[3]; }
  void fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) override {
    size_t sz = n ? std::min(n, sizes.at(key)) : sizes.at(key);
    if (fail_next) {
      fail_next = false;
      if (fail_half) {
        dest->reserve(sz);
        if (dest->size() < sz / 2) memset(dest->getMemoryPtr() + dest->size(), 0x5a, sz / 2 - dest->size());
      }
      throw FetchFault();
    }
    dest->reserve(sz);
    if (on_fetch) on_fetch();
    for (size_t i = 0; i < sz; ++i) dest->getMemoryPtr()[i] = pat(id(key), i);
    dest->setSize(sz);
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key, size_t n) override {
    if (!zero_copy.count(key)) return nullptr;
    std::vector<int8_t> d;
    for (size_t i = 0; i < sizes.at(key); ++i) d.push_back(pat(id(key), i));
    return std::make_unique<Token>(std::move(d), &live_tokens);
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
};

template <class Base>
struct Faulty : Base {
  using Base::Base;
  int fail_slabs = 0;
  std::string failed;
  void addSlab(const size_t slab_size) override {
    if (fail_slabs > 0) {
      --fail_slabs;
      failed += strf("%zu,", slab_size);
      throw FailedToCreateSlab(slab_size);
    }
    Base::addSlab(slab_size);
  }
};

struct Live {  // a chunk or allocation the client holds pinned
  AbstractBuffer* b;
  int pins;
  std::vector<int8_t> want;
  int8_t* mem;
};

struct Shape {
  size_t pool, minslab, maxslab;
};

template <class Mgr>
struct World {
  Store store;
  std::unique_ptr<Mgr> mgr;
  std::map<ChunkKey, Live> held;             // pinned chunks
  std::map<int, Live> allocs;                // live allocations
  int salt = 0;
  int open_tokens = 0;
  Ctx& c;
  explicit World(Ctx& ctx) : c(ctx) {}

  void audit(const char* when) {
    auto mi = mgr->getMemoryInfo();
    c.check(mi.numPageAllocated <= mi.maxNumPages, "pool-limit", strf("%s: %zu pages allocated, limit %zu", when, mi.numPageAllocated, mi.maxNumPages));
    // segments tile each slab
    std::map<size_t, size_t> end;
    size_t used = 0, total = 0;
    std::set<std::vector<int32_t>> keys;
    for (auto& d : mi.nodeMemoryData) {
      size_t& e = end[d.slabNum];
      c.check((size_t)d.startPage == e, "segment-gap", strf("%s: slab %zu segment at page %d, expected %zu", when, d.slabNum, d.startPage, e));
      e += d.numPages;
      total += d.numPages;
      if (d.memStatus == USED) {
        used += d.numPages;
        c.check(d.chunk_key.empty() || keys.insert(d.chunk_key).second, "duplicate-chunk", strf("%s: a chunk occupies two segments", when));
      }
    }
    c.check(total == mi.numPageAllocated, "page-count", strf("%s: segments cover %zu pages, %zu allocated", when, total, mi.numPageAllocated));
    c.check(mgr->getInUseSize() == used * kPage, "in-use", strf("%s: in use %zu, segments say %zu", when, mgr->getInUseSize(), used * kPage));
    // held memory is intact and disjoint
    std::vector<std::pair<int8_t*, int8_t*>> ranges;
    auto one = [&](const std::string& name, Live& l) {
      c.check(l.b->getPinCount() == l.pins, "pin-count", strf("%s: %s pin count %d, expected %d", when, name.c_str(), l.b->getPinCount(), l.pins));
      c.check(l.b->size() == l.want.size(), "held-size", strf("%s: %s has size %zu, expected %zu", when, name.c_str(), l.b->size(), l.want.size()));
      if (l.want.empty()) return;
      auto* m = l.b->getMemoryPtr();
      c.check(m != nullptr, "held-null", strf("%s: %s has no memory", when, name.c_str()));
      if (l.mem) c.check(m == l.mem, "held-moved", strf("%s: memory of pinned %s moved", when, name.c_str()));
      l.mem = m;
      c.check(memcmp(m, l.want.data(), l.want.size()) == 0, "held-content", strf("%s: content of pinned %s changed", when, name.c_str()));
      size_t len = std::max(l.b->reservedSize(), l.want.size());
      ranges.emplace_back(m, m + len);
    };
    for (auto& [k, l] : held) one(strf("chunk %d", Store::id(k)), l);
    for (auto& [k, l] : allocs) one(strf("allocation %d", k), l);
    std::sort(ranges.begin(), ranges.end());
    for (size_t i = 1; i < ranges.size(); ++i) {
      c.check(ranges[i - 1].second <= ranges[i].first, "overlap", strf("%s: two held buffers share memory", when));
    }
    for (auto& [k, l] : held) {
      if (!store.zero_copy.count(k)) c.check(mgr->isBufferOnDevice(k), "pinned-evicted", strf("%s: pinned chunk %d is not in the pool", when, Store::id(k)));
    }
  }

  // The largest contiguous run of pages that could be given out now (free or unpinned).
  size_t bestRun(const ChunkKey& fetching = {}) {
    auto mi = mgr->getMemoryInfo();
    std::set<std::pair<size_t, int32_t>> pinned;
    size_t best = 0, run = 0;
    size_t slab = (size_t)-1;
    for (auto& d : mi.nodeMemoryData) {
      if (d.slabNum != slab) run = 0, slab = d.slabNum;
      bool pin = false;
      if (d.memStatus == USED) {
        ChunkKey k = d.chunk_key;
        if (held.count(k) || k == fetching) pin = true;
        for (auto& [id, l] : allocs) {
          if (alloc_keys.count(id) && alloc_keys[id] == k) pin = true;
        }
      }
      run = pin ? 0 : run + d.numPages;
      best = std::max(best, run);
    }
    if (!mi.isAllocationCapped) {
      // a whole new slab
      best = std::max(best, std::min(mi.maxNumPages - mi.numPageAllocated, mgr->getMaxSlabSize() / kPage));
    }
    return best;
  }
  std::map<int, ChunkKey> alloc_keys;

  uint64_t hash() {
    auto mi = mgr->getMemoryInfo();
    std::set<uint32_t> touches;
    for (auto& d : mi.nodeMemoryData) touches.insert(d.touch);
    uint64_t h = 7;
    for (auto& d : mi.nodeMemoryData) {
      h = mc::mix(h, d.slabNum);
      h = mc::mix(h, d.numPages);
      h = mc::mix(h, d.memStatus);
      if (d.memStatus == USED) {
        h = mc::mix(h, std::distance(touches.begin(), touches.find(d.touch)));
        for (auto x : d.chunk_key) h = mc::mix(h, x + 3);
      }
    }
    h = mc::mix(h, mi.isAllocationCapped);
    for (auto& [k, l] : held) h = mc::mix(mc::mix(h, Store::id(k) * 8 + l.pins), l.want.size());
    for (auto& [k, l] : allocs) h = mc::mix(mc::mix(h, k), l.want.size());
    for (auto& [k, s] : store.sizes) {
      if (mgr->isBufferOnDevice(k)) h = mc::mix(h, Store::id(k));
    }
    h = mc::mix(h, std::hash<std::string>()(mgr->failed));
    h = mc::mix(h, mgr->fail_slabs * 4 + store.fail_next * 2 + store.fail_half);
    return h;
  }
};

template <class W>
void get(Ctx& c, W& w, const ChunkKey& k, size_t n) {
  c.op("get chunk %d, %zu bytes", Store::id(k), n);
  bool fault = w.store.fail_next;
  bool was_held = w.held.count(k);
  size_t sz = n ? n : w.store.sizes.at(k);
  AbstractBuffer* b = nullptr;
  size_t slab_faults = w.mgr->fail_slabs;
  try {
    b = w.mgr->getBuffer(k, n);
  } catch (const FetchFault&) {
    c.check(fault && !w.store.fail_next, "spurious-fetch-failure", "storage failure reported though none was injected");
    c.op("-> storage failure");
    if (was_held) w.held.at(k).mem = nullptr;  // growing a chunk may move it
    if (!was_held && w.mgr->isBufferOnDevice(k)) {
      // whatever stays in the pool must not be taken for the chunk
      AbstractBuffer* again;
      try {
        again = w.mgr->getBuffer(k, n);
      } catch (const OutOfMemory&) {
        return;
      }
      bool ok = again->size() >= sz;
      for (size_t i = 0; ok && i < sz; ++i) ok = again->getMemoryPtr()[i] == pat(Store::id(k), i);
      c.check(ok, "failed-fetch-content", strf("after a failed fetch, chunk %d reads wrong", Store::id(k)));
      int pins = again->getPinCount();
      again->unPin();
      c.check(pins == 1, "failed-fetch-pin", strf("after a failed fetch, chunk %d stays pinned", Store::id(k)));
    }
    return;
  } catch (const OutOfMemory&) {
    c.op("-> out of memory");
    if (!was_held && w.mgr->isBufferOnDevice(k)) {
      auto* again = w.mgr->getBuffer(k, 1);
      int pins = again->getPinCount();
      again->unPin();
      c.check(pins == 1, "failed-fetch-pin", strf("after running out of memory, chunk %d stays pinned", Store::id(k)));
    }
    size_t need = (sz + kPage - 1) / kPage;
    bool faulted = (size_t)w.mgr->fail_slabs != slab_faults;
    if (!faulted && w.mgr->failed.empty()) {
      size_t best = w.bestRun(k);
      c.check(best < need, "spurious-oom", strf("out of memory for %zu pages though %zu contiguous pages can be made free", need, best));
    }
    return;
  }
  c.check(b != nullptr, "null-buffer", "getBuffer returned null");
  if (w.store.zero_copy.count(k)) {
    bool ok = b->size() >= sz;
    for (size_t i = 0; ok && i < sz; ++i) ok = b->getMemoryPtr()[i] == pat(Store::id(k), i);
    c.check(ok, "zero-copy-content", "zero-copy chunk reads wrong");
    b->unPin();
    c.check(w.store.live_tokens == w.open_tokens, "zero-copy-release", "unpinned zero-copy chunk keeps its data token");
    return;
  }
  auto it = w.held.find(k);
  if (it == w.held.end()) {
    Live l{b, 1, {}, nullptr};
    it = w.held.emplace(k, l).first;
  } else {
    c.check(it->second.b == b, "two-buffers", strf("chunk %d has two buffers", Store::id(k)));
    ++it->second.pins;
  }
  size_t have = b->size();
  c.check(have >= sz || have == w.store.sizes.at(k), "short-chunk", strf("chunk %d: %zu bytes, asked for %zu", Store::id(k), have, sz));
  bool ok = true;
  for (size_t i = 0; ok && i < have; ++i) ok = b->getMemoryPtr()[i] == pat(Store::id(k), i);
  c.check(ok, "chunk-content", strf("chunk %d reads wrong", Store::id(k)));
  it->second.want.assign(b->getMemoryPtr(), b->getMemoryPtr() + have);
  it->second.mem = nullptr;
}

template <class Mgr>
void history(Ctx& c, const Shape& sh, std::unique_ptr<Mgr> mgr, World<Mgr>& w, size_t depth, bool prune, bool faults) {
  w.mgr = std::move(mgr);
  std::vector<ChunkKey> keys = {{1, 1, 1, 1}, {1, 1, 1, 2}, {1, 2, 1, 1}, {1, 2, 1, 2}};
  w.store.sizes = {{keys[0], 1 * kPage}, {keys[1], 2 * kPage - 10}, {keys[2], 3 * kPage}, {keys[3], 2 * kPage}};
  int next_alloc = 0;
  for (size_t step = 0; step < depth; ++step) {
    // the operations possible now
    struct Op {
      int kind;
      int arg;
    };
    std::vector<Op> ops;
    for (int k = 0; k < 4; ++k) ops.push_back({0, k});
    ops.push_back({1, 2});                                     // partial get of the 3-page chunk
    for (int k = 0; k < 4; ++k) {
      if (w.held.count(keys[k])) ops.push_back({2, k});        // unpin
      else if (w.mgr->isBufferOnDevice(keys[k])) ops.push_back({3, k});  // delete
    }
    ops.push_back({4, 1});                                     // delete all of table 1
    for (int n : {1, 3}) ops.push_back({5, n});                // alloc
    for (auto& [id, l] : w.allocs) {
      ops.push_back({6, id});                                  // free
      ops.push_back({7, id});                                  // append two pages
    }
    ops.push_back({8, 0});                                     // clear slabs
    if (faults) {
      if (!w.store.fail_next) {
        ops.push_back({9, 0});
        ops.push_back({9, 1});
      }
      if (!w.mgr->fail_slabs) {
        for (int n : {1, 2}) ops.push_back({10, n});
      }
    }
    auto o = ops[c.choose(ops.size(), "op")];
    switch (o.kind) {
      case 0: get(c, w, keys[o.arg], w.store.sizes.at(keys[o.arg])); break;
      case 1: get(c, w, keys[o.arg], kPage); break;
      case 2: {
        auto it = w.held.find(keys[o.arg]);
        c.op("unpin chunk %d", Store::id(keys[o.arg]));
        it->second.b->unPin();
        if (--it->second.pins == 0) w.held.erase(it);
        break;
      }
      case 3:
        c.op("delete chunk %d", Store::id(keys[o.arg]));
        w.mgr->deleteBuffer(keys[o.arg]);
        c.check(!w.mgr->isBufferOnDevice(keys[o.arg]), "delete", "deleted chunk still in the pool");
        break;
      case 4: {
        c.op("delete table 1");
        std::map<ChunkKey, bool> other;
        for (auto& k : keys) other[k] = w.mgr->isBufferOnDevice(k);
        w.mgr->deleteBuffersWithPrefix({1, 1});
        for (auto& k : keys) {
          bool want = k[1] == 1 ? w.held.count(k) > 0 : other[k];
          c.check(w.mgr->isBufferOnDevice(k) == want, "delete-prefix",
                  strf("after deleting table 1 chunk %d is %s the pool", Store::id(k), want ? "not in" : "in"));
        }
        break;
      }
      case 5: {
        c.op("alloc %d pages", o.arg);
        size_t bytes = o.arg * kPage - 5;
        size_t slab_faults = w.mgr->fail_slabs;
        auto before = w.mgr->getMemoryInfo();
        try {
          auto* b = w.mgr->alloc(bytes);
          Live l{b, 1, {}, nullptr};
          ++w.salt;
          for (size_t i = 0; i < bytes; ++i) l.want.push_back(pat(9, i, w.salt));
          b->write(l.want.data(), bytes);
          int id = next_alloc++;
          // find its key: the one new USED key
          std::set<std::vector<int32_t>> old;
          for (auto& d : before.nodeMemoryData) if (d.memStatus == USED) old.insert(d.chunk_key);
          for (auto& d : w.mgr->getMemoryInfo().nodeMemoryData) {
            if (d.memStatus == USED && !old.count(d.chunk_key)) w.alloc_keys[id] = d.chunk_key;
          }
          w.allocs.emplace(id, l);
        } catch (const OutOfMemory&) {
          c.op("-> out of memory");
          bool faulted = (size_t)w.mgr->fail_slabs != slab_faults;
          if (!faulted && w.mgr->failed.empty()) {
            size_t best = w.bestRun();
            c.check(best < (size_t)o.arg, "spurious-oom", strf("out of memory for %d pages though %zu can be made free", o.arg, best));
          }
        }
        break;
      }
      case 6: {
        auto it = w.allocs.find(o.arg);
        c.op("free allocation %d", o.arg);
        w.mgr->free(it->second.b);
        w.allocs.erase(it);
        w.alloc_keys.erase(o.arg);
        break;
      }
      case 7: {
        auto& l = w.allocs.find(o.arg)->second;
        c.op("append two pages to allocation %d", o.arg);
        std::vector<int8_t> more;
        for (size_t i = 0; i < 2 * kPage; ++i) more.push_back(pat(11, i, ++w.salt));
        size_t slab_faults = w.mgr->fail_slabs;
        size_t need = (l.want.size() + more.size() + kPage - 1) / kPage;
        try {
          l.b->append(more.data(), more.size());
          l.want.insert(l.want.end(), more.begin(), more.end());
          l.mem = nullptr;
        } catch (const OutOfMemory&) {
          c.op("-> out of memory");
          bool faulted = (size_t)w.mgr->fail_slabs != slab_faults;
          if (!faulted && w.mgr->failed.empty()) {
            size_t best = w.bestRun();
            c.check(best < need, "spurious-oom", strf("cannot grow to %zu pages though %zu can be made free", need, best));
          }
        }
        break;
      }
      case 8: {
        c.op("clear");
        w.mgr->clearSlabs();
        for (auto& k : keys) {
          if (!w.held.count(k)) c.check(!w.mgr->isBufferOnDevice(k), "clear", "unpinned chunk survived a clear");
        }
        if (w.held.empty() && w.allocs.empty()) c.check(w.mgr->getAllocated() == 0 && w.mgr->getInUseSize() == 0, "clear-memory", "memory still allocated after a clear of an idle pool");
        break;
      }
      case 9:
        c.op("next storage read fails%s", o.arg ? " half way" : "");
        w.store.fail_next = true;
        w.store.fail_half = o.arg;
        break;
      case 10:
        c.op("next %d slab allocations fail", o.arg);
        w.mgr->fail_slabs = o.arg;
        break;
    }
    w.audit("after step");
    if (prune && step + 1 < depth && c.revisit(w.hash(), depth - step - 1)) c.skip();
    if (!prune) c.state(w.hash());
  }
  // wind down: everything can be released and the pool is as good as new
  for (auto& [id, l] : w.allocs) w.mgr->free(l.b);
  for (auto& [k, l] : w.held) {
    for (int i = 0; i < l.pins; ++i) l.b->unPin();
  }
  w.allocs.clear();
  w.held.clear();
  w.alloc_keys.clear();
  w.audit("after release");
  w.store.fail_next = false;
  w.mgr->fail_slabs = 0;
  if (w.mgr->failed.empty()) {
    for (auto& k : keys) get(c, w, k, w.store.sizes.at(k));
    w.audit("at the end");
  }
}

using FCpu = Faulty<CpuBufferMgr>;
struct FTier : TieredCpuBufferMgr {
  using TieredCpuBufferMgr::TieredCpuBufferMgr;
  int fail_slabs = 0;
  std::string failed;
};

const Shape kShapes[] = {{8 * kPage, 2 * kPage, 4 * kPage}, {7 * kPage, 1 * kPage, 4 * kPage}, {4 * kPage, 1 * kPage, 4 * kPage}};

void pool(Ctx& c, size_t depth, bool prune, bool faults) {
  auto& s = kShapes[c.choose(3, "shape")];
  World<FCpu> w(c);
  history(c, s, std::make_unique<FCpu>(0, s.pool, nullptr, s.minslab, s.maxslab, kPage, &w.store), w, depth, prune, faults);
}
void tiered(Ctx& c, size_t depth) {
  auto& s = kShapes[0];
  World<FTier> w(c);
  CpuTierSizeVector tiers(numCpuTiers, 4 * kPage);
  history(c, s, std::make_unique<FTier>(0, s.pool, nullptr, s.minslab, s.maxslab, kPage, tiers, &w.store), w, depth, true, false);
}

// A pool over a pool (as a device pool over the host pool): both evict independently.
void stacked(Ctx& c, size_t depth) {
  Store store;
  std::vector<ChunkKey> keys = {{1, 1, 1, 1}, {1, 1, 1, 2}, {1, 2, 1, 1}};
  store.sizes = {{keys[0], 1 * kPage}, {keys[1], 2 * kPage - 10}, {keys[2], 3 * kPage}};
  FCpu host(0, 4 * kPage, nullptr, kPage, 4 * kPage, kPage, &store);
  FCpu dev(1, 3 * kPage, nullptr, kPage, 3 * kPage, kPage, &host);
  std::map<std::pair<int, int>, std::pair<AbstractBuffer*, int>> held;
  auto contentOk = [&](AbstractBuffer* b, int k, size_t n) {
    if (b->size() < n) return false;
    for (size_t i = 0; i < b->size(); ++i) if (b->getMemoryPtr()[i] != pat(Store::id(keys[k]), i)) return false;
    return true;
  };
  for (size_t step = 0; step < depth; ++step) {
    struct Op { int kind, m, k; size_t n; };
    std::vector<Op> ops;
    for (int m = 0; m < 2; ++m) {
      for (int k = 0; k < 3; ++k) {
        ops.push_back({0, m, k, store.sizes.at(keys[k])});
        if (held.count({m, k})) ops.push_back({1, m, k, 0});
      }
      ops.push_back({0, m, 2, kPage});
      ops.push_back({2, m, 0, 0});
      ops.push_back({3, m, 0, 0});
    }
    auto o = ops[c.choose(ops.size(), "op")];
    FCpu& mgr = o.m ? dev : host;
    switch (o.kind) {
      case 0:
        c.op("get chunk %d (%zu bytes) on %s", o.k, o.n, o.m ? "device" : "host");
        try {
          auto* b = mgr.getBuffer(keys[o.k], o.n);
          c.check(contentOk(b, o.k, o.n), "stacked-content", strf("chunk %d read through two pools is wrong", o.k));
          auto& h = held[{o.m, o.k}];
          h.first = b;
          ++h.second;
        } catch (const OutOfMemory&) {
          c.op("-> out of memory");
        }
        break;
      case 1: {
        c.op("unpin chunk %d on %s", o.k, o.m ? "device" : "host");
        auto& h = held[{o.m, o.k}];
        h.first->unPin();
        if (--h.second == 0) held.erase({o.m, o.k});
        break;
      }
      case 2:
        c.op("clear %s", o.m ? "device" : "host");
        mgr.clearSlabs();
        break;
      case 3:
        c.op("delete table 1 on %s", o.m ? "device" : "host");
        mgr.deleteBuffersWithPrefix({1, 1});
        break;
    }
    uint64_t h = 3;
    for (auto* m : {&host, &dev}) {
      auto mi = m->getMemoryInfo();
      std::set<uint32_t> touches;
      for (auto& d : mi.nodeMemoryData) touches.insert(d.touch);
      for (auto& d : mi.nodeMemoryData) {
        h = mc::mix(h, d.numPages * 8 + d.memStatus);
        if (d.memStatus == USED) {
          h = mc::mix(h, std::distance(touches.begin(), touches.find(d.touch)));
          for (auto x : d.chunk_key) h = mc::mix(h, x + 3);
        }
      }
      h = mc::mix(h, 99);
      for (int k = 0; k < 3; ++k) h = mc::mix(h, m->isBufferOnDevice(keys[k]));
    }
    for (auto& [k, p] : held) {
      c.check(p.first->getPinCount() == p.second, "stacked-pin", strf("pin count %d, expected %d", p.first->getPinCount(), p.second));
      c.check(contentOk(p.first, k.second, 1), "stacked-held", "content of a pinned chunk changed");
      h = mc::mix(h, k.first * 10 + k.second + p.second * 100 + p.first->size() * 1000);
    }
    if (step + 1 < depth && c.revisit(h, depth - step - 1)) c.skip();
  }
  for (auto& [k, p] : held) for (int i = 0; i < p.second; ++i) p.first->unPin();
}

// Zero-copy chunks never enter the pool and live exactly as long as they are pinned.
void zeroCopy(Ctx& c) {
  World<FCpu> w(c);
  w.mgr = std::make_unique<FCpu>(0, 4 * kPage, nullptr, kPage, 4 * kPage, kPage, &w.store);
  ChunkKey k{1, 1, 1, 1}, z{1, 1, 1, 2};
  w.store.sizes = {{k, 2 * kPage}, {z, 3 * kPage}};
  w.store.zero_copy = {z};
  std::vector<AbstractBuffer*> open;
  for (int step = 0; step < 5; ++step) {
    size_t o = c.choose(5, "op");
    w.open_tokens = open.size();
    if (o == 0) get(c, w, k, 2 * kPage);
    if (o == 1) get(c, w, z, 3 * kPage - (open.size()));
    if (o == 2) {
      c.op("hold zero-copy");
      open.push_back(w.mgr->getBuffer(z, 3 * kPage));
    }
    if (o == 3) {
      if (open.empty()) c.skip();
      c.op("release zero-copy");
      open.back()->unPin();
      open.pop_back();
    }
    if (o == 4) {
      c.op("clear");
      w.mgr->clearSlabs();
    }
    c.check(w.store.live_tokens == (int)open.size(), "zero-copy-tokens", strf("%d tokens alive, %zu pinned", w.store.live_tokens, open.size()));
    for (auto* b : open) {
      for (size_t i = 0; i < 3 * kPage; ++i) c.check(b->getMemoryPtr()[i] == pat(Store::id(z), i), "zero-copy-content", "zero-copy content");
    }
    w.audit("zero-copy");
    c.state(w.hash() + open.size());
  }
  for (auto* b : open) b->unPin();
  c.check(w.store.live_tokens == 0, "zero-copy-tokens", "tokens leaked");
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> sc = {
      {"pool", [](Ctx& c) { pool(c, c.thorough() ? 4 : 3, false, false); }, 3},
      {"pool-deep", [](Ctx& c) { pool(c, c.thorough() ? 7 : 5, true, false); }, 3},
      {"pool-faults", [](Ctx& c) { pool(c, c.thorough() ? 6 : 4, true, true); }, 3},
      {"pool-tiered", [](Ctx& c) { tiered(c, c.thorough() ? 7 : 5); }, 2},
      {"pool-stacked", [](Ctx& c) { stacked(c, c.thorough() ? 7 : 5); }, 2},
      {"pool-zerocopy", zeroCopy, 2},
  };
  mc::Options o;
  o.worker_init = [] { hu::quietLogger(); };
  o.rule =
      "every sequence of pool operations (fetch, partial fetch, unpin, delete, delete by table, allocate, grow, free, clear) up to the "
      "stated depth on a pool of at most two slabs of four pages, with storage-read and slab-allocation failures at every point; after each "
      "operation content, placement, pin counts and accounting are compared with the model. A state is the pool layout with contents, pins, "
      "recency order and pending faults; revisited states are not expanded again in the -deep, -faults, -tiered and -stacked scenarios";
  o.assumptions = {"clients unpin what they pinned and delete chunks only while unpinned"};
  return mc::run(argc, argv, sc, o);
}
