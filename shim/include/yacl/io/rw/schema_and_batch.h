#pragma once
#include <memory>
#include <string>
#include <variant>
#include <vector>
#include "yacl/base/exception.h"
namespace yacl::io {
struct Schema {
  enum Type { STRING = 0, FLOAT = 1, DOUBLE = 2 };
  std::vector<Type> feature_types;
  std::vector<std::string> feature_names;
};
struct ReaderOptions { Schema file_schema; size_t batch_size = 1024; bool use_header_order = false; std::vector<std::string> column_reader; };
struct WriterOptions { Schema file_schema; int float_precision = 7; };
template <class S> using ColumnVector = std::vector<S>;
using FloatColumnVector = ColumnVector<float>;
using DoubleColumnVector = ColumnVector<double>;
using StringColumnVector = ColumnVector<std::string>;
struct BatchShape { size_t rows = 0, cols = 0; };
class ColumnVectorBatch {
 public:
  using Col = std::variant<StringColumnVector, FloatColumnVector, DoubleColumnVector>;
  BatchShape Shape() const {
    return {cols_.empty() ? 0 : std::visit([](const auto& c) { return c.size(); }, cols_[0]), cols_.size()};
  }
  template <class T> const T& At(size_t r, size_t c) const { return std::get<ColumnVector<T>>(cols_.at(c)).at(r); }
  template <class T> const ColumnVector<T>& Col_(size_t c) const { return std::get<ColumnVector<T>>(cols_.at(c)); }
  template <class T> void AppendCol(const ColumnVector<T>& c) { cols_.emplace_back(c); }
  template <class T> void AppendCol(ColumnVector<T>&& c) { cols_.emplace_back(std::move(c)); }
  void Clear() { cols_.clear(); }
  void Reserve(size_t) {}
 private:
  std::vector<Col> cols_;
};
}  // namespace yacl::io
