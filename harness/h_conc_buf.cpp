// Every schedule (within a preemption bound) of small concurrent programs on one buffer pool.
#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBuffer.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.h"
#include "DataMgr/DataMgr.h"
#include "IR/Context.h"
#include "mc.h"
#include "mcsched.h"

#include <map>
#include <set>

using mc::Ctx;
using mc::strf;
using namespace Buffer_Namespace;
using namespace Data_Namespace;

namespace {
constexpr size_t kPage = 64;
int8_t pat(int key, size_t i) { return (int8_t)(key * 37 + i * 7 + (i >> 6) * 11 + 1); }
ChunkKey ck(int k) { return {1, k / 10, 1, k % 10}; }
int idOf(const ChunkKey& k) { return k[1] * 10 + k[3]; }

struct FetchFault : std::runtime_error {
  FetchFault() : std::runtime_error("injected storage failure") {}
};
struct Token : AbstractDataToken {
  std::vector<int8_t> data;
  explicit Token(std::vector<int8_t> d) : data(std::move(d)) {}
  const int8_t* getMemoryPtr() const override { return data.data(); }
  size_t getSize() const override { return data.size(); }
  const hdk::ir::Type* getType() const override { return hdk::ir::Context::defaultCtx().int8(); }
};

constexpr size_t kSize = 2 * kPage - 5;

// Storage: key 1x: plain chunks; 3x: reads fail; 4x: zero copy.
struct Store : AbstractDataProvider {
  volatile int fetching[64] = {};
  volatile int fetches[64] = {};
  volatile int fail_first = 0;  // key whose first read fails
  __attribute__((no_sanitize("thread"))) void begin(int id) {
    if (fetching[id]++) sched::fail("double-fetch", strf("chunk %d is read twice at the same time into the pool", id));
    ++fetches[id];
  }
  __attribute__((no_sanitize("thread"))) void end(int id) { --fetching[id]; }
  __attribute__((no_sanitize("thread"))) bool fails(int id) {
    if (id / 10 == 3) return true;
    return fail_first == id && fetches[id] == 1;
  }
  void fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) override {
    int id = idOf(key);
    begin(id);
    size_t sz = n ? std::min(n, kSize) : kSize;
    sched::point();
    if (fails(id)) {
      end(id);
      throw FetchFault();
    }
    dest->reserve(sz);
    for (size_t i = 0; i < sz; i += 16) dest->getMemoryPtr()[i] = pat(id, i);
    sched::point();
    for (size_t i = 0; i < sz; ++i) dest->getMemoryPtr()[i] = pat(id, i);
    dest->setSize(sz);
    end(id);
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key, size_t n) override {
    if (idOf(key) / 10 != 4) return nullptr;
    std::vector<int8_t> d;
    for (size_t i = 0; i < kSize; ++i) d.push_back(pat(idOf(key), i));
    return std::make_unique<Token>(std::move(d));
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
};

// Two pools on top of one, as with devices.
struct Child : CpuBufferMgr {
  using CpuBufferMgr::CpuBufferMgr;
};

void verify(AbstractBuffer* b, int id, size_t n, const char* when) {
  if (b->size() < n) sched::fail("short", strf("%s: chunk %d has %zu bytes, %zu requested", when, id, b->size(), n));
  for (size_t i = 0; i < n; ++i) {
    if (b->getMemoryPtr()[i] != pat(id, i)) sched::fail("content", strf("%s: byte %zu of chunk %d is wrong", when, i, id));
  }
}

enum Prog { GetA, GetAB, GetBA, GetB, AllocFree, DropPrefix, Info, GetFail, ZeroCopy, HoldTwo, GetTwice, NProg };
const char* kName[] = {"get A", "get A, get B", "get B, get A", "get B", "alloc and free", "delete table 1", "info", "get chunk whose read fails", "get zero-copy chunk", "hold A and C", "pin A twice"};

struct World {
  Store store;
  std::unique_ptr<CpuBufferMgr> mgr;
  bool failing_a = false;

  void use(CpuBufferMgr* m, int id, size_t n) {
    AbstractBuffer* b;
    try {
      b = m->getBuffer(ck(id), n);
    } catch (const FetchFault&) {
      if (!(id == 31 || (failing_a && id == 11))) throw;
      return;
    }
    if (id == 31) sched::fail("no-error", "a failing read was not reported");
    verify(b, id, n, "after get");
    if (b->getPinCount() < 1) sched::fail("unpinned", "a fetched chunk is not pinned");
    sched::point();
    verify(b, id, n, "while pinned");
    b->unPin();
  }
  void body(CpuBufferMgr* m, int p, int me) {
    switch (p) {
      case GetA: use(m, 11, kSize); break;
      case GetAB: use(m, 11, kSize); use(m, 12, kSize); break;
      case GetBA: use(m, 12, kSize); use(m, 11, kSize); break;
      case GetB: use(m, 12, kSize); break;
      case AllocFree: {
        auto* b = m->alloc(kSize);
        for (size_t i = 0; i < kSize; ++i) b->getMemoryPtr()[i] = pat(me + 100, i);
        b->setSize(kSize);
        sched::point();
        verify(b, me + 100, kSize, "allocation");
        m->free(b);
        break;
      }
      case DropPrefix: m->deleteBuffersWithPrefix({1, 1}); break;
      case Info: {
        auto mi = m->getMemoryInfo();
        size_t pages = 0;
        for (auto& d : mi.nodeMemoryData) pages += d.numPages;
        if (pages != mi.numPageAllocated) sched::fail("info", strf("segments cover %zu pages of %zu", pages, mi.numPageAllocated));
        m->isBufferOnDevice(ck(11));
        m->getNumChunks();
        m->getInUseSize();
        break;
      }
      case GetFail: use(m, 31, kSize); break;
      case ZeroCopy: use(m, 41, kSize); break;
      case HoldTwo: {
        auto* a = m->getBuffer(ck(11), kSize);
        auto* b = m->getBuffer(ck(13), kSize);
        verify(a, 11, kSize, "two held");
        verify(b, 13, kSize, "two held");
        a->unPin();
        b->unPin();
        break;
      }
      case GetTwice: {
        auto* a = m->getBuffer(ck(11), kSize);
        auto* b = m->getBuffer(ck(11), kSize);
        if (a != b) sched::fail("two-copies", "one pool holds two copies of a chunk");
        a->unPin();
        sched::point();
        verify(b, 11, kSize, "second pin");
        b->unPin();
        break;
      }
    }
  }
  void final(Ctx& c, CpuBufferMgr* m) {
    auto mi = m->getMemoryInfo();
    uint64_t h = 3;
    for (auto& d : mi.nodeMemoryData) {
      h = mc::mix(mc::mix(h, d.numPages * 2 + d.memStatus), d.touch);
      for (auto x : d.chunk_key) h = mc::mix(h, x);
    }
    c.state(h);
    std::map<size_t, size_t> end;
    size_t used = 0, total = 0, named = 0;
    std::set<std::vector<int32_t>> keys;
    for (auto& d : mi.nodeMemoryData) {
      c.check((size_t)d.startPage == end[d.slabNum], "segment-gap", "segments do not tile a slab");
      end[d.slabNum] += d.numPages;
      total += d.numPages;
      if (d.memStatus == USED) {
        used += d.numPages;
        c.check(keys.insert(d.chunk_key).second, "duplicate-chunk", "a chunk occupies two segments");
        c.check(m->isBufferOnDevice(d.chunk_key), "orphan", strf("chunk %d occupies memory but is not in the pool's index", idOf(d.chunk_key)));
        ++named;
      }
    }
    c.check(total == mi.numPageAllocated, "page-count", "page accounting is off");
    c.check(m->getInUseSize() == used * kPage, "in-use", "in-use size is off");
    c.check(m->getNumChunks() == named, "index-size", strf("%zu chunks in the index, %zu segments in use", m->getNumChunks(), named));
    for (int id : {11, 12, 13}) {
      bool had = m->isBufferOnDevice(ck(id));
      auto* b = m->getBuffer(ck(id), kSize);
      c.check(b->getPinCount() == 1, "pin-left", strf("chunk %d has pin count %d after everyone let go", id, b->getPinCount() - 1));
      c.check(b->size() == kSize, "size", strf("chunk %d has size %zu at the end", id, b->size()));
      for (size_t i = 0; i < kSize; ++i) c.check(b->getMemoryPtr()[i] == pat(id, i), "content-end", strf("chunk %d is damaged at the end (%s)", id, had ? "cached" : "fetched"));
      b->unPin();
    }
    c.check(!m->isBufferOnDevice(ck(31)), "failed-kept", "a chunk whose read failed is in the pool");
  }
};

void pool(Ctx& c, int threads) {
  World w;
  bool lean = threads > 2 && !c.thorough();
  int pre = lean ? 2 * c.choose(2, "initial") : c.choose(4, "initial");  // empty, A resident, pool full of other chunks, a part of A resident
  bool ff = c.flip("first read of A fails");
  std::vector<int> progs;
  static const int few[] = {GetA, GetAB, AllocFree, DropPrefix, GetFail};
  for (int i = 0; i < threads; ++i) {
    size_t lo = i ? progs.back() : 0;
    progs.push_back(lo + c.choose((lean ? 5 : NProg) - lo, "program"));
  }
  if (lean)
    for (auto& p : progs) p = few[p];
  bool has_a = false;
  for (int p : progs) has_a |= p == GetA || p == GetAB || p == GetBA;
  if (ff) {
    for (int p : progs)
      if (p == HoldTwo || p == GetTwice || false) c.skip();
    if (!has_a || pre == 1 || pre == 3) c.skip();
  }
  // enough room for everything the threads pin at once
  size_t need = 0;
  for (int p : progs) need += p == HoldTwo ? 4 : p == DropPrefix || p == Info || p == ZeroCopy ? 0 : 2;
  if (!need) need = 2;
  if (pre == 3) need += 2;
  w.mgr = std::make_unique<CpuBufferMgr>(0, need * kPage, nullptr, need * kPage, need * kPage, kPage, &w.store);
  if (pre == 1) w.mgr->getBuffer(ck(11), kSize)->unPin();
  if (pre == 3) w.mgr->getBuffer(ck(11), 16)->unPin();
  if (pre == 2)
    for (size_t i = 0; i < need / 2; ++i) w.mgr->getBuffer(ck(21 + i), kSize)->unPin();
  if (ff) {
    w.store.fail_first = 11;
    w.failing_a = true;
  }
  std::vector<std::function<void()>> bodies;
  std::string names;
  for (int i = 0; i < threads; ++i) {
    names += std::string(i ? " || " : "") + kName[progs[i]];
    bodies.push_back([&, i] { w.body(w.mgr.get(), progs[i], i); });
  }
  c.op("%s, initial %d%s", names.c_str(), pre, ff ? ", first read of A fails" : "");
  int bound = threads == 2 ? (c.thorough() ? 3 : 2) : (c.thorough() ? 2 : 1);
  auto r = sched::run(c, bodies, bound, 1);
  for (uint64_t i = 0; i < r.switches; ++i) c.op("switch");
  w.failing_a = false;
  w.store.fail_first = 0;
  w.final(c, w.mgr.get());
}
// Two pools above one, as with devices: each thread works on one of the three.
void s_stacked(Ctx& c) {
  World w;
  int pre = c.choose(3, "initial");  // empty, A resident below, part of A resident below
  std::vector<int> where, progs;
  static const int menu[] = {GetA, GetBA, AllocFree, GetFail, GetAB, GetB};
  for (int i = 0; i < 2; ++i) {
    where.push_back(c.choose(3, "pool"));
    progs.push_back(menu[c.choose(c.thorough() ? 6 : 4, "program")]);
  }
  if (where[0] > where[1] || (where[0] == where[1] && (where[0] == 0 || progs[0] > progs[1])) || where[0] == 2) c.skip();
  bool ff = pre == 0 && c.flip("first read of A fails");
  w.mgr = std::make_unique<CpuBufferMgr>(0, 6 * kPage, nullptr, 6 * kPage, 6 * kPage, kPage, &w.store);
  std::unique_ptr<CpuBufferMgr> top[2];
  for (auto& t : top) t = std::make_unique<CpuBufferMgr>(0, 4 * kPage, nullptr, 4 * kPage, 4 * kPage, kPage, w.mgr.get());
  CpuBufferMgr* pools[3] = {w.mgr.get(), top[0].get(), top[1].get()};
  if (pre == 1) w.mgr->getBuffer(ck(11), kSize)->unPin();
  if (pre == 2) w.mgr->getBuffer(ck(11), 16)->unPin();
  if (ff) {
    w.store.fail_first = 11;
    w.failing_a = true;
  }
  std::vector<std::function<void()>> bodies;
  for (int i = 0; i < 2; ++i) bodies.push_back([&, i] { w.body(pools[where[i]], progs[i], i); });
  c.op("%s on pool %d || %s on pool %d, initial %d%s", kName[progs[0]], where[0], kName[progs[1]], where[1], pre, ff ? ", first read of A fails" : "");
  auto r = sched::run(c, bodies, c.thorough() ? 3 : 2, 0);
  for (uint64_t i = 0; i < r.switches; ++i) c.op("switch");
  w.failing_a = false;
  w.store.fail_first = 0;
  w.final(c, top[0].get());
  w.final(c, top[1].get());
  w.final(c, w.mgr.get());
}
void s_two(Ctx& c) { pool(c, 2); }
void s_three(Ctx& c) { pool(c, 3); }
}  // namespace

int main(int argc, char** argv) {
  mc::Options o;
  o.worker_init = [] {
    World w;
    w.mgr = std::make_unique<CpuBufferMgr>(0, 8 * kPage, nullptr, 8 * kPage, 8 * kPage, kPage, &w.store);
    for (int p = 0; p < NProg; ++p) w.body(w.mgr.get(), p, 0);
  };
  o.rule = "every schedule with a bounded number of preemptions of two and three concurrent clients of one pool, each running one of eleven programs (fetch, partial fetch, pin twice, allocate, drop a table, inspect, failing read, zero copy) from four initial pool states";
  o.assumptions = {"threads interleave at synchronisation operations; plain accesses are checked for races by vector clocks, so this covers all interleavings of race-free code", "sequentially consistent atomics"};
  return mc::run(argc, argv, {{"pool_two", s_two, 5, 20}, {"pool_stacked", s_stacked, 5, 20}, {"pool_three", s_three, 6, 20}}, o);
}
