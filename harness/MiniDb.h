// A tiny in-memory database for driving the real query engine: schema provider + data provider +
// executor. Tables hold typed columns of nullable scalars, cut into fragments as the caller wishes.
#pragma once
#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/DataMgr.h"
#include "DataMgr/PersistentStorageMgr/PersistentStorageMgr.h"
#include "QueryBuilder/QueryBuilder.h"
#include "QueryEngine/Execute.h"
#include "QueryEngine/ExtensionFunctionsWhitelist.h"
#include "QueryEngine/RelAlgExecutor.h"
#include "ResultSetRegistry/ResultSetRegistry.h"
#include "SchemaMgr/SchemaMgr.h"
#include "SchemaMgr/SimpleSchemaProvider.h"
#include "Shared/InlineNullValues.h"

#include <unistd.h>
#include <cmath>
#include <fstream>
#include <regex>
#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace mini {

// One cell: null, integer (also bool/date/time/decimal raw value), double or string.
struct Val {
  enum K : uint8_t { Null, Int, Fp, Str } k = Null;
  int64_t i = 0;
  double d = 0;
  std::string s;
  Val() = default;
  Val(int v) : k(Int), i(v) {}
  Val(int64_t v) : k(Int), i(v) {}
  Val(long long v) : k(Int), i(v) {}
  Val(double v) : k(Fp), d(v) {}
  Val(const char* v) : k(Str), s(v) {}
  Val(std::string v) : k(Str), s(std::move(v)) {}
  bool null() const { return k == Null; }
  bool operator==(const Val& o) const {
    if (k != o.k) {
      return false;
    }
    switch (k) {
      case Null: return true;
      case Int: return i == o.i;
      case Fp: return d == o.d || (std::isnan(d) && std::isnan(o.d)) ||
                      std::fabs(d - o.d) <= 1e-6 * std::max(std::fabs(d), std::fabs(o.d));
      case Str: return s == o.s;
    }
    return false;
  }
  bool operator!=(const Val& o) const { return !(*this == o); }
  bool operator<(const Val& o) const {
    if (k != o.k) return k < o.k;
    switch (k) {
      case Null: return false;
      case Int: return i < o.i;
      case Fp: return d < o.d;
      case Str: return s < o.s;
    }
    return false;
  }
  std::string str() const {
    switch (k) {
      case Null: return "NULL";
      case Int: return std::to_string(i);
      case Fp: { char b[64]; snprintf(b, sizeof b, "%.9g", d); return std::string(b) + "f"; }
      case Str: return "'" + s + "'";
    }
    return "?";
  }
};
using Row = std::vector<Val>;
using Rows = std::vector<Row>;

inline std::string str(const Row& r) {
  std::string res = "(";
  for (size_t i = 0; i < r.size(); ++i) res += (i ? "," : "") + r[i].str();
  return res + ")";
}
inline std::string str(const Rows& rs) {
  std::string res = "[";
  for (auto& r : rs) res += str(r);
  return res + "]";
}

constexpr int kSchemaId = 1;
constexpr int kDbId = (kSchemaId << 24) + 1;

struct Col {
  std::string name;
  const hdk::ir::Type* type;
};

inline void appendCell(std::vector<int8_t>& buf, const hdk::ir::Type* t, const Val& v,
                       StringDictionary* dict) {
  auto put = [&](auto x) {
    auto n = buf.size();
    buf.resize(n + sizeof(x));
    memcpy(buf.data() + n, &x, sizeof(x));
  };
  if (t->isFloatingPoint()) {
    if (t->size() == 4) {
      put(v.null() ? inline_null_value<float>() : (float)(v.k == Val::Int ? v.i : v.d));
    } else {
      put(v.null() ? inline_null_value<double>() : (double)(v.k == Val::Int ? v.i : v.d));
    }
    return;
  }
  int64_t x = v.i;
  if (t->isExtDictionary()) {
    if (!v.null()) {
      x = dict->getOrAdd(v.s);
    }
    switch (t->size()) {
      case 1: put((uint8_t)(v.null() ? 255 : x)); return;
      case 2: put((uint16_t)(v.null() ? 65535 : x)); return;
      default: put((int32_t)(v.null() ? NULL_INT : x)); return;
    }
  }
  switch (t->size()) {
    case 1: put((int8_t)(v.null() ? inline_int_null_value<int8_t>() : x)); return;
    case 2: put((int16_t)(v.null() ? inline_int_null_value<int16_t>() : x)); return;
    case 4: put((int32_t)(v.null() ? inline_int_null_value<int32_t>() : x)); return;
    case 8: put((int64_t)(v.null() ? inline_int_null_value<int64_t>() : x)); return;
  }
  abort();
}

class Schema : public SimpleSchemaProvider {
 public:
  Schema() : SimpleSchemaProvider(hdk::ir::Context::defaultCtx(), kSchemaId, "mini") {}
  using SimpleSchemaProvider::addColumnInfo;
  using SimpleSchemaProvider::addRowidColumn;
  using SimpleSchemaProvider::addTableInfo;
  using SimpleSchemaProvider::dropTable;
};

class Data : public AbstractDataProvider {
 public:
  struct Table {
    std::vector<std::vector<std::vector<int8_t>>> cols;  // [col][frag]
    std::shared_ptr<TableFragmentsInfo> info;
  };
  void fetchBuffer(const ChunkKey& key, Data_Namespace::AbstractBuffer* dest,
                   const size_t num_bytes) override {
    auto& t = tables.at(key[CHUNK_KEY_TABLE_IDX]);
    auto& chunk = t.cols.at(key[CHUNK_KEY_COLUMN_IDX] - 1).at(key[CHUNK_KEY_FRAGMENT_IDX] - 1);
    ++fetches;
    size_t n = num_bytes ? std::min(num_bytes, chunk.size()) : chunk.size();
    dest->reserve(n);
    memcpy(dest->getMemoryPtr(), chunk.data(), n);
    dest->setSize(n);
  }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int table_id) const override {
    return tables.at(table_id).info;
  }
  const DictDescriptor* getDictMetadata(int dict_id, bool) override {
    auto it = dicts.find(dict_id);
    return it == dicts.end() ? nullptr : it->second.get();
  }
  std::map<int, Table> tables;
  std::map<int, std::unique_ptr<DictDescriptor>> dicts;
  size_t fetches = 0;
};

// The signatures of the scalar extension functions, as Calcite would pass them on from the
// ExtensionFunctions.ast that the build generates.
inline void loadExtensionFunctions() {
  static bool done = false;
  if (done) return;
  done = true;
  char exe[4096];
  auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  std::string dir(exe, n > 0 ? n : 0);
  dir = dir.substr(0, dir.rfind('/'));
  std::ifstream in(dir + "/../QueryEngine/ExtensionFunctions.ast");
  static const std::map<std::string, std::string> types{{"bool", "bool"}, {"int8_t", "i8"}, {"int16_t", "i16"}, {"int32_t", "i32"}, {"int64_t", "i64"}, {"float", "float"}, {"double", "double"}};
  static const std::regex re("\\| ([` ]|used)+ (\\w+) '([\\w<>]+) \\((.*)\\)'");
  std::string line, json;
  while (std::getline(in, line)) {
    std::smatch m;
    if (!std::regex_search(line, m, re) || !types.count(m[3])) continue;
    std::string args, a;
    std::stringstream ss(m[4]);
    bool ok = true;
    while (std::getline(ss, a, ',')) {
      a.erase(0, a.find_first_not_of(' '));
      if (a.rfind("const ", 0) == 0) a = a.substr(6);
      auto it = types.find(a);
      if (it == types.end()) {
        ok = false;
        break;
      }
      args += (args.empty() ? "\"" : ",\"") + it->second + "\"";
    }
    if (!ok) continue;
    json += (json.empty() ? "" : ",") + std::string("{\"name\":\"") + m[2].str() + "\",\"ret\":\"" + types.at(m[3]) + "\",\"args\":[" + args + "]}";
  }
  if (json.empty()) throw std::runtime_error("no extension function signatures found below " + dir);
  ExtensionFunctionsWhitelist::add("[" + json + "]");
}

class Db {
 public:
  hdk::ir::Context& ctx = hdk::ir::Context::defaultCtx();
  ConfigPtr config;
  std::shared_ptr<Schema> schema = std::make_shared<Schema>();
  std::shared_ptr<Data> data = std::make_shared<Data>();
  std::shared_ptr<SchemaMgr> schema_mgr = std::make_shared<SchemaMgr>();
  std::shared_ptr<DataMgr> data_mgr;
  std::shared_ptr<hdk::ResultSetRegistry> rs_registry;
  std::shared_ptr<Executor> executor;
  int next_table = 1;
  int next_dict = 1;

  explicit Db(ConfigPtr cfg = std::make_shared<Config>()) : config(cfg) {
    loadExtensionFunctions();
    config->exec.cpu_only = true;
    data_mgr = std::make_shared<DataMgr>(*config, false);
    data_mgr->getPersistentStorageMgr()->registerDataProvider(kSchemaId, data);
    schema_mgr->registerProvider(kSchemaId, schema);
    executor = Executor::getExecutor(data_mgr.get(), config, "", "");
  }

  const hdk::ir::Type* dictType(int size = 4) {
    int dict_id = (kSchemaId << 24) + next_dict++;
    auto desc = std::make_unique<DictDescriptor>(
        kDbId, dict_id, "d", size * 8, true, 1, "", true);
    desc->stringDict = std::make_shared<StringDictionary>(DictRef{kDbId, dict_id});
    data->dicts[dict_id] = std::move(desc);
    return ctx.extDict(ctx.text(), dict_id, size);
  }

  // frag_sizes: number of rows per fragment; must add up to rows.size().
  // Returns the table id.
  int addTable(const std::string& name, const std::vector<Col>& cols, const Rows& rows,
               const std::vector<size_t>& frag_sizes, bool exact_stats = true) {
    int tid = next_table++;
    schema->addTableInfo(kDbId, tid, name, false, frag_sizes.size(), rows.size());
    for (size_t c = 0; c < cols.size(); ++c) {
      schema->addColumnInfo(kDbId, tid, (int)c + 1, cols[c].name, cols[c].type, false);
    }
    schema->addRowidColumn(kDbId, tid, cols.size() + 1);
    Data::Table t;
    t.cols.resize(cols.size());
    t.info = std::make_shared<TableFragmentsInfo>();
    t.info->chunkKeyPrefix = {kDbId, tid};
    t.info->setPhysicalNumTuples(rows.size());
    TableStats table_stats;
    size_t base = 0;
    for (size_t f = 0; f < frag_sizes.size(); ++f) {
      FragmentInfo fi;
      fi.fragmentId = f + 1;
      fi.physicalTableId = tid;
      fi.setPhysicalNumTuples(frag_sizes[f]);
      fi.deviceIds = {0, 0, 0};
      for (size_t c = 0; c < cols.size(); ++c) {
        auto type = cols[c].type;
        StringDictionary* dict = nullptr;
        if (type->isExtDictionary()) {
          dict = data->dicts.at(type->as<hdk::ir::ExtDictionaryType>()->dictId())
                     ->stringDict.get();
        }
        std::vector<int8_t> buf;
        ChunkStats st;
        st.has_nulls = false;
        bool first = true;
        int64_t imin = std::numeric_limits<int64_t>::max(), imax = std::numeric_limits<int64_t>::min();
        double dmin = std::numeric_limits<double>::max(), dmax = -std::numeric_limits<double>::max();
        for (size_t r = base; r < base + frag_sizes[f]; ++r) {
          auto& v = rows[r][c];
          appendCell(buf, type, v, dict);
          if (v.null()) {
            st.has_nulls = true;
            continue;
          }
          if (type->isFloatingPoint()) {
            double d = v.k == Val::Int ? v.i : v.d;
            dmin = std::min(dmin, d);
            dmax = std::max(dmax, d);
          } else {
            int64_t x = v.k == Val::Str ? dict->getOrAdd(v.s) : v.i;
            imin = std::min(imin, x);
            imax = std::max(imax, x);
          }
          first = false;
        }
        (void)first;
        if (type->isFloatingPoint()) {
          if (type->size() == 4) {
            st.min.floatval = first ? std::numeric_limits<float>::max() : dmin;
            st.max.floatval = first ? std::numeric_limits<float>::lowest() : dmax;
          } else {
            st.min.doubleval = dmin;
            st.max.doubleval = dmax;
          }
        } else if (type->isExtDictionary()) {
          st.min.intval = first ? std::numeric_limits<int32_t>::max() : imin;
          st.max.intval = first ? std::numeric_limits<int32_t>::min() : imax;
        } else {
          switch (type->size()) {
            case 1:
              st.min.tinyintval = first ? std::numeric_limits<int8_t>::max() : imin;
              st.max.tinyintval = first ? std::numeric_limits<int8_t>::min() : imax;
              break;
            case 2:
              st.min.smallintval = first ? std::numeric_limits<int16_t>::max() : imin;
              st.max.smallintval = first ? std::numeric_limits<int16_t>::min() : imax;
              break;
            case 4:
              st.min.intval = first ? std::numeric_limits<int32_t>::max() : imin;
              st.max.intval = first ? std::numeric_limits<int32_t>::min() : imax;
              break;
            default: st.min.bigintval = imin; st.max.bigintval = imax;
          }
        }
        auto meta = std::make_shared<ChunkMetadata>(type, buf.size(), frag_sizes[f], st);
        fi.setChunkMetadata(c + 1, meta);
        if (table_stats.count(c + 1)) {
          mergeStats(table_stats.at(c + 1), st, type);
        } else {
          table_stats.emplace(c + 1, st);
        }
        t.cols[c].push_back(std::move(buf));
      }
      base += frag_sizes[f];
      t.info->fragments.push_back(fi);
    }
    t.info->setTableStats(table_stats);
    data->tables[tid] = std::move(t);
    return tid;
  }

  void dropTable(int tid) {
    schema->dropTable(kDbId, tid);
    data_mgr->deleteChunksWithPrefix({kDbId, tid}, Data_Namespace::MemoryLevel::CPU_LEVEL);
    data->tables.erase(tid);
  }

  hdk::ir::QueryBuilder builder() { return hdk::ir::QueryBuilder(ctx, schema, config); }

  ExecutionResult exec(std::unique_ptr<hdk::ir::QueryDag> dag) {
    auto ra = RelAlgExecutor(executor.get(), schema, std::move(dag));
    return ra.executeRelAlgQuery(CompilationOptions::defaults(ExecutorDeviceType::CPU),
                                 ExecutionOptions::fromConfig(*config), false);
  }

  Rows rows(const ExecutionResult& res) {
    Rows out;
    auto tok = res.getToken();
    for (size_t k = 0; k < tok->resultSetCount(); ++k) {
      auto rs = tok->resultSet(k);
      rs->moveToBegin();
      while (true) {
        auto tv = rs->getNextRow(true, false);
        if (tv.empty()) break;
        Row r;
        for (size_t c = 0; c < tv.size(); ++c) r.push_back(cell(tv[c], rs->colType(c)));
        out.push_back(std::move(r));
      }
    }
    return out;
  }
  Rows run(const hdk::ir::BuilderNode& node) { return rows(exec(node.finalize())); }

  static Val cell(const TargetValue& tv, const hdk::ir::Type* type) {
    auto sv = boost::get<ScalarTargetValue>(&tv);
    if (!sv) {
      auto av = boost::get<ArrayTargetValue>(&tv);
      if (!av->is_initialized()) return Val();
      auto et = type->as<hdk::ir::ArrayBaseType>()->elemType();
      std::string s;
      for (auto& x : av->get()) s += (s.empty() ? "" : ",") + cell(TargetValue(x), et).str();
      return Val("[" + s + "]");
    }
    if (isNull(*sv, type)) return Val();
    if (auto p = boost::get<int64_t>(sv)) return Val(*p);
    if (auto p = boost::get<double>(sv)) return Val(*p);
    if (auto p = boost::get<float>(sv)) return Val((double)*p);
    auto ns = boost::get<NullableString>(sv);
    if (auto s = boost::get<std::string>(ns)) return Val(*s);
    return Val();
  }
};

}  // namespace mini
