#pragma once
#include <string>
namespace arrow {
enum class StatusCode { OK, OutOfMemory, Other };
class Status {
 public:
  bool ok() const { return true; }
  StatusCode code() const { return StatusCode::OK; }
  std::string ToString() const { return "OK"; }
};
}  // namespace arrow
