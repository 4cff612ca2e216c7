#include "ResultSet/ArrowResultSet.h"
std::shared_ptr<arrow::Table> ArrowResultSetConverter::convertToArrowTable() const {
  throw std::runtime_error("arrow is not available");
}
std::shared_ptr<arrow::RecordBatch> ArrowResultSetConverter::convertToArrow() const {
  throw std::runtime_error("arrow is not available");
}
