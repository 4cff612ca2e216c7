// Declarations only, so that the parts of HDK that merely mention Arrow types in
// signatures compile without Arrow C++ (which this sandbox does not have). Nothing here
// imitates Arrow's behaviour: every Arrow conversion throws when called.
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "arrow/status.h"
#define ARROW_VERSION 13000000
namespace arrow {
class Decimal128 {};
class DataType {};
class Field {};
class Schema {};
class Buffer {};
class Array { public: virtual ~Array() = default; };
class ArrayBuilder { public: virtual ~ArrayBuilder() = default; };
class Date32Builder;
class Date64Builder;
class RecordBatch { public: std::string ToString() const { return {}; } };
class Table {};
template <typename T>
class Result {
 public:
  Result(T v) : v_(std::move(v)) {}
  Status status() const { return Status(); }
  T MoveValueUnsafe() && { return std::move(v_); }
 private:
  T v_;
};
inline Result<std::shared_ptr<Table>> ConcatenateTables(
    const std::vector<std::shared_ptr<Table>>&) {
  throw std::runtime_error("arrow is not available");
}
}  // namespace arrow
