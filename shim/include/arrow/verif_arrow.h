// Functional stand-in for the slice of Apache Arrow that psi uses: the CSV
// streaming reader (quoting, type inference on the first block, column
// selection, per-block record batches), the CSV writer for integer columns and
// file streams.
#pragma once
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace verif { extern size_t arrow_block_bytes; }

namespace arrow {
class Status {
 public:
  Status() = default;
  static Status OK() { return {}; }
  static Status Invalid(std::string m) { Status s; s.m_ = std::move(m); s.ok_ = false; return s; }
  bool ok() const { return ok_; }
  const std::string& message() const { return m_; }
  std::string ToString() const { return ok_ ? "OK" : "Invalid: " + m_; }
 private:
  bool ok_ = true;
  std::string m_;
};
[[noreturn]] void DieOnBadResult(const Status& s);
template <class T> class Result {
 public:
  Result(T v) : v_(std::move(v)) {}          // NOLINT
  Result(Status s) : s_(std::move(s)) {}     // NOLINT
  template <class U, class = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, T>>>
  Result(U&& u) : v_(T(std::forward<U>(u))) {}  // NOLINT
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T& operator*() { return *v_; }
  T* operator->() { return &*v_; }
  T ValueOrDie() { if (!ok()) DieOnBadResult(s_); return std::move(*v_); }
 private:
  Status s_;
  std::optional<T> v_;
};
struct Type { enum type { NA, BOOL, INT64, UINT64, DOUBLE, STRING }; };
class DataType {
 public:
  explicit DataType(Type::type t) : t_(t) {}
  Type::type id() const { return t_; }
  std::string ToString() const;
  std::string name() const { return ToString(); }
  bool Equals(const DataType& o) const { return t_ == o.t_; }
 private:
  Type::type t_;
};
std::shared_ptr<DataType> utf8();
std::shared_ptr<DataType> int64();
std::shared_ptr<DataType> uint64();
std::shared_ptr<DataType> float64();
std::shared_ptr<DataType> boolean();
std::shared_ptr<DataType> null();
class Field {
 public:
  Field(std::string n, std::shared_ptr<DataType> t) : n_(std::move(n)), t_(std::move(t)) {}
  const std::string& name() const { return n_; }
  const std::shared_ptr<DataType>& type() const { return t_; }
 private:
  std::string n_;
  std::shared_ptr<DataType> t_;
};
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t) { return std::make_shared<Field>(std::move(n), std::move(t)); }
class Schema {
 public:
  explicit Schema(std::vector<std::shared_ptr<Field>> f) : f_(std::move(f)) {}
  const std::vector<std::shared_ptr<Field>>& fields() const { return f_; }
  const std::shared_ptr<Field>& field(int i) const { return f_.at(i); }
  int num_fields() const { return static_cast<int>(f_.size()); }
  std::vector<std::string> field_names() const { std::vector<std::string> r; for (auto& x : f_) r.push_back(x->name()); return r; }
  int GetFieldIndex(const std::string& n) const {  // -1 when absent or ambiguous
    int r = -1;
    for (size_t i = 0; i < f_.size(); ++i) if (f_[i]->name() == n) { if (r >= 0) return -1; r = static_cast<int>(i); }
    return r;
  }
 private:
  std::vector<std::shared_ptr<Field>> f_;
};
inline std::shared_ptr<Schema> schema(std::vector<std::shared_ptr<Field>> f) { return std::make_shared<Schema>(std::move(f)); }

class Array {
 public:
  explicit Array(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  virtual ~Array() = default;
  int64_t length() const { return n_; }
  const std::shared_ptr<DataType>& type() const { return t_; }
  // raw storage shared by every kind so that numeric reinterpretation of one
  // integer column type as another reads the same bits, as in Arrow
  std::vector<uint64_t> bits_;
  std::vector<std::string> str_;
  int64_t n_ = 0;
 protected:
  std::shared_ptr<DataType> t_;
};
template <class T> class NumericArray : public Array {
 public:
  using Array::Array;
  T Value(int64_t i) const { T v; std::memcpy(&v, &bits_.at(i), sizeof v); return v; }
};
class Int64Array : public NumericArray<int64_t> { public: Int64Array() : NumericArray(int64()) {} };
class UInt64Array : public NumericArray<uint64_t> { public: UInt64Array() : NumericArray(uint64()) {} };
class DoubleArray : public NumericArray<double> { public: DoubleArray() : NumericArray(float64()) {} };
class BooleanArray : public NumericArray<uint64_t> { public: BooleanArray() : NumericArray(boolean()) {} };
class NullArray : public Array { public: NullArray() : Array(null()) {} };
class StringArray : public Array {
 public:
  StringArray() : Array(utf8()) {}
  std::string_view Value(int64_t i) const { return str_.at(i); }
  std::string_view GetView(int64_t i) const { return str_.at(i); }
  std::string GetString(int64_t i) const { return str_.at(i); }
};
class RecordBatch {
 public:
  static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, std::vector<std::shared_ptr<Array>> c) {
    auto b = std::make_shared<RecordBatch>();
    b->s_ = std::move(s); b->n_ = n; b->c_ = std::move(c);
    return b;
  }
  int64_t num_rows() const { return n_; }
  int num_columns() const { return static_cast<int>(c_.size()); }
  const std::shared_ptr<Array>& column(int i) const { return c_.at(i); }
  const std::vector<std::shared_ptr<Array>>& columns() const { return c_; }
  const std::shared_ptr<Schema>& schema() const { return s_; }
  std::shared_ptr<Array> GetColumnByName(const std::string& n) const {
    int i = s_->GetFieldIndex(n);
    return i < 0 ? nullptr : c_[static_cast<size_t>(i)];
  }
 private:
  std::shared_ptr<Schema> s_;
  int64_t n_ = 0;
  std::vector<std::shared_ptr<Array>> c_;
};
struct Scalar { virtual ~Scalar() = default; };
struct UInt64Scalar : Scalar { explicit UInt64Scalar(uint64_t v) : value(v) {} uint64_t value; };
class ArrayBuilder {
 public:
  explicit ArrayBuilder(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  Status Resize(int64_t n) { if (n < static_cast<int64_t>(v_.size())) return Status::Invalid("resize"); return {}; }
  Status AppendScalar(const Scalar& s) {
    const auto* u = dynamic_cast<const UInt64Scalar*>(&s);
    if (u == nullptr || t_->id() != Type::UINT64) return Status::Invalid("scalar type");
    v_.push_back(u->value);
    return {};
  }
  Result<std::shared_ptr<Array>> Finish() {
    auto a = std::make_shared<UInt64Array>();
    a->bits_ = std::move(v_);
    a->n_ = static_cast<int64_t>(a->bits_.size());
    v_.clear();
    return std::shared_ptr<Array>(a);
  }
  void Reset() { v_.clear(); }
  int64_t length() const { return static_cast<int64_t>(v_.size()); }
 private:
  std::shared_ptr<DataType> t_;
  std::vector<uint64_t> v_;
};
inline Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t) { return std::make_unique<ArrayBuilder>(t); }
class MemoryPool {};
inline MemoryPool* default_memory_pool() { static MemoryPool p; return &p; }

namespace io {
struct IOContext {};
inline IOContext default_io_context() { return {}; }
class ReadableFile {
 public:
  static Result<std::shared_ptr<ReadableFile>> Open(const std::string& path, MemoryPool* = nullptr);
  std::ifstream in;
  std::string path;
};
class FileOutputStream {
 public:
  static Result<std::shared_ptr<FileOutputStream>> Open(const std::string& path, bool append = false);
  ~FileOutputStream() { Close(); }
  Status Write(std::string_view s);
  Status Flush() { return {}; }
  Status Close();
  bool closed() const { return fd_ < 0; }
  int fd_ = -1;
};
}  // namespace io

namespace ipc {
class RecordBatchWriter {
 public:
  virtual ~RecordBatchWriter() = default;
  virtual Status WriteRecordBatch(const RecordBatch& b) = 0;
  virtual Status Close() { return {}; }
};
class RecordBatchReader_ {};
}  // namespace ipc
class RecordBatchReader {
 public:
  virtual ~RecordBatchReader() = default;
  virtual std::shared_ptr<Schema> schema() const = 0;
  virtual Status ReadNext(std::shared_ptr<RecordBatch>* out) = 0;
  virtual Status Close() { return {}; }
};
namespace ipc { using RecordBatchReader = ::arrow::RecordBatchReader; }

namespace csv {
struct ReadOptions { static ReadOptions Defaults() { return {}; } int32_t block_size = 1 << 20; bool use_threads = true; int32_t skip_rows = 0; };
struct ParseOptions { static ParseOptions Defaults() { return {}; } char delimiter = ','; };
struct ConvertOptions {
  static ConvertOptions Defaults() { return {}; }
  std::vector<std::string> include_columns;
  std::unordered_map<std::string, std::shared_ptr<DataType>> column_types;
  bool strings_can_be_null = false;
};
struct WriteOptions { static WriteOptions Defaults() { return {}; } bool include_header = true; };
class StreamingReader : public RecordBatchReader {
 public:
  static Result<std::shared_ptr<StreamingReader>> Make(io::IOContext, std::shared_ptr<io::ReadableFile> in, const ReadOptions&, const ParseOptions&, const ConvertOptions&);
  std::shared_ptr<Schema> schema() const override { return s_; }
  Status ReadNext(std::shared_ptr<RecordBatch>* out) override;
 private:
  Status ReadBlock(std::vector<std::vector<std::string>>* rows);
  Status Convert(const std::vector<std::vector<std::string>>& rows, std::shared_ptr<RecordBatch>* out);
  std::shared_ptr<io::ReadableFile> in_;
  ParseOptions p_;
  size_t block_ = 0, ncol_ = 0, line_ = 1;
  std::vector<size_t> sel_;
  std::shared_ptr<Schema> s_;
  std::vector<std::vector<std::string>> first_;
  bool has_first_ = false;
  Status bad_;
};
Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::FileOutputStream> o, const std::shared_ptr<Schema>& s, const WriteOptions&);
}  // namespace csv
}  // namespace arrow
