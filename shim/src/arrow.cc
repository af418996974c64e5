#include "arrow/verif_arrow.h"

#include <fcntl.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include "absl/strings/numbers.h"

namespace verif { size_t arrow_block_bytes = 1 << 20; }

namespace arrow {
void DieOnBadResult(const Status& s) {
  // Arrow aborts the process here; a catchable error is kinder to in-process
  // harnesses and is still an error.
  throw std::runtime_error("arrow ValueOrDie on error: " + s.ToString());
}
std::string DataType::ToString() const {
  switch (t_) {
    case Type::NA: return "null";
    case Type::BOOL: return "bool";
    case Type::INT64: return "int64";
    case Type::UINT64: return "uint64";
    case Type::DOUBLE: return "double";
    default: return "string";
  }
}
#define T_(f, e) std::shared_ptr<DataType> f() { static auto t = std::make_shared<DataType>(Type::e); return t; }
T_(utf8, STRING) T_(int64, INT64) T_(uint64, UINT64) T_(float64, DOUBLE) T_(boolean, BOOL) T_(null, NA)
#undef T_

namespace io {
Result<std::shared_ptr<ReadableFile>> ReadableFile::Open(const std::string& path, MemoryPool*) {
  auto f = std::make_shared<ReadableFile>();
  f->path = path;
  f->in.open(path, std::ios::binary);
  if (!f->in.good() || std::filesystem::is_directory(path)) return Status::Invalid("cannot open " + path);
  return f;
}
Result<std::shared_ptr<FileOutputStream>> FileOutputStream::Open(const std::string& path, bool append) {
  auto f = std::make_shared<FileOutputStream>();
  f->fd_ = ::open(path.c_str(), O_WRONLY | O_CREAT | (append ? O_APPEND : O_TRUNC), 0644);
  if (f->fd_ < 0) return Status::Invalid("cannot open " + path);
  return f;
}
Status FileOutputStream::Write(std::string_view s) {
  while (!s.empty()) {
    auto n = ::write(fd_, s.data(), s.size());
    if (n < 0) return Status::Invalid("write");
    s.remove_prefix(static_cast<size_t>(n));
  }
  return {};
}
Status FileOutputStream::Close() {
  if (fd_ >= 0) { ::close(fd_); fd_ = -1; }
  return {};
}
}  // namespace io

namespace csv {
namespace {
// Splits one record (no embedded newlines, Arrow's default).
bool Split(const std::string& line, char d, std::vector<std::string>* out) {
  out->clear();
  size_t i = 0;
  for (;;) {
    std::string cell;
    if (i < line.size() && line[i] == '"') {
      ++i;
      for (;;) {
        if (i >= line.size()) return false;
        if (line[i] == '"') {
          if (i + 1 < line.size() && line[i + 1] == '"') { cell += '"'; i += 2; continue; }
          ++i;
          break;
        }
        cell += line[i++];
      }
      while (i < line.size() && line[i] != d) cell += line[i++];
    } else {
      while (i < line.size() && line[i] != d) cell += line[i++];
    }
    out->push_back(std::move(cell));
    if (i >= line.size()) return true;
    ++i;
  }
}
bool IsNull(const std::string& s) {
  static const char* k[] = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "N/A", "NA", "NULL", "NaN", "n/a", "nan", "null"};
  for (auto* x : k) if (s == x) return true;
  return false;
}
bool AsInt(const std::string& s, int64_t* v) {
  if (s.empty() || s.find_first_not_of("-0123456789") != std::string::npos) return false;
  return absl::SimpleAtoi(s, v);
}
bool AsBool(const std::string& s, uint64_t* v) {
  if (s == "1" || s == "True" || s == "TRUE" || s == "true") { *v = 1; return true; }
  if (s == "0" || s == "False" || s == "FALSE" || s == "false") { *v = 0; return true; }
  return false;
}
bool Utf8Ok(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
    if (n == 0 || i + n > s.size()) return false;
    for (size_t k = 1; k < n; ++k) if ((static_cast<unsigned char>(s[i + k]) >> 6) != 2) return false;
    i += n;
  }
  return true;
}
}  // namespace

Status StreamingReader::ReadBlock(std::vector<std::vector<std::string>>* rows) {
  rows->clear();
  size_t bytes = 0;
  std::string line;
  while ((bytes < block_ || rows->empty()) && std::getline(in_->in, line)) {
    ++line_;
    bytes += line.size() + 1;
    if (!line.empty() && line.back() == '\r') line.pop_back();
    if (line.empty()) continue;  // ignore_empty_lines
    std::vector<std::string> c;
    if (!Split(line, p_.delimiter, &c)) return Status::Invalid("unterminated quote in line " + std::to_string(line_));
    if (c.size() != ncol_) return Status::Invalid("CSV parse error: Expected " + std::to_string(ncol_) + " columns, got " + std::to_string(c.size()));
    rows->push_back(std::move(c));
  }
  return {};
}
Result<std::shared_ptr<StreamingReader>> StreamingReader::Make(io::IOContext, std::shared_ptr<io::ReadableFile> in, const ReadOptions&, const ParseOptions& p, const ConvertOptions& o) {
  auto r = std::make_shared<StreamingReader>();
  r->in_ = std::move(in);
  r->p_ = p;
  r->block_ = verif::arrow_block_bytes;
  std::string line;
  do {
    if (!std::getline(r->in_->in, line)) return Status::Invalid("Empty CSV file");
    if (!line.empty() && line.back() == '\r') line.pop_back();
  } while (line.empty());
  std::vector<std::string> heads;
  if (!Split(line, p.delimiter, &heads)) return Status::Invalid("bad CSV header");
  r->ncol_ = heads.size();
  auto st = r->ReadBlock(&r->first_);
  if (!st.ok()) return st;
  r->has_first_ = true;
  const auto& names = o.include_columns.empty() ? heads : o.include_columns;
  std::vector<std::shared_ptr<Field>> fs;
  for (size_t q = 0; q < names.size(); ++q) {
    size_t k = 0;
    if (o.include_columns.empty()) k = q;
    else {
      while (k < heads.size() && heads[k] != names[q]) ++k;
      if (k == heads.size()) return Status::Invalid("Column '" + names[q] + "' in include_columns does not exist in CSV file");
    }
    r->sel_.push_back(k);
    auto it = o.column_types.find(names[q]);
    std::shared_ptr<DataType> t;
    if (it != o.column_types.end()) t = it->second;
    else {
      bool n = true, i = true, b = true, d = true;
      for (auto& row : r->first_) {
        if (IsNull(row[k])) continue;
        n = false;
        int64_t x; uint64_t u; double f;
        i = i && AsInt(row[k], &x);
        b = b && AsBool(row[k], &u);
        d = d && absl::SimpleAtod(row[k], &f);
      }
      t = n ? null() : i ? int64() : b ? boolean() : d ? float64() : utf8();
    }
    fs.push_back(arrow::field(names[q], t));
  }
  r->s_ = arrow::schema(std::move(fs));
  return r;
}
Status StreamingReader::Convert(const std::vector<std::vector<std::string>>& rows, std::shared_ptr<RecordBatch>* out) {
  std::vector<std::shared_ptr<Array>> cols;
  for (size_t q = 0; q < sel_.size(); ++q) {
    size_t k = sel_[q];
    std::shared_ptr<Array> a;
    switch (s_->field(static_cast<int>(q))->type()->id()) {
      case Type::STRING: a = std::make_shared<StringArray>(); break;
      case Type::INT64: a = std::make_shared<Int64Array>(); break;
      case Type::UINT64: a = std::make_shared<UInt64Array>(); break;
      case Type::DOUBLE: a = std::make_shared<DoubleArray>(); break;
      case Type::BOOL: a = std::make_shared<BooleanArray>(); break;
      default: a = std::make_shared<NullArray>();
    }
    a->n_ = static_cast<int64_t>(rows.size());
    for (auto& row : rows) {
      const auto& c = row[k];
      auto id = a->type()->id();
      if (id == Type::STRING) {
        if (!Utf8Ok(c)) return Status::Invalid("invalid UTF8 data");
        a->str_.push_back(c);
        continue;
      }
      uint64_t bits = 0;
      if (!IsNull(c)) {
        bool ok = true;
        if (id == Type::INT64) { int64_t x = 0; ok = AsInt(c, &x); std::memcpy(&bits, &x, 8); }
        else if (id == Type::UINT64) ok = absl::SimpleAtoi(c, &bits);
        else if (id == Type::DOUBLE) { double f = 0; ok = absl::SimpleAtod(c, &f); std::memcpy(&bits, &f, 8); }
        else if (id == Type::BOOL) ok = AsBool(c, &bits);
        else ok = false;
        if (!ok) return Status::Invalid("CSV conversion error to " + a->type()->ToString() + ": invalid value '" + c + "'");
      }
      a->bits_.push_back(bits);
    }
    cols.push_back(std::move(a));
  }
  *out = RecordBatch::Make(s_, static_cast<int64_t>(rows.size()), std::move(cols));
  return {};
}
Status StreamingReader::ReadNext(std::shared_ptr<RecordBatch>* out) {
  std::vector<std::vector<std::string>> rows;
  if (!bad_.ok()) return bad_;
  if (has_first_) { rows = std::move(first_); has_first_ = false; }
  else bad_ = ReadBlock(&rows);
  if (!bad_.ok()) return bad_;
  if (rows.empty() && in_->in.eof()) { out->reset(); return {}; }
  if (rows.empty()) { out->reset(); return {}; }
  bad_ = Convert(rows, out);
  return bad_;
}
namespace {
class W : public ipc::RecordBatchWriter {
 public:
  W(std::shared_ptr<io::FileOutputStream> o, std::shared_ptr<Schema> s) : o_(std::move(o)), s_(std::move(s)) {}
  Status WriteRecordBatch(const RecordBatch& b) override {
    std::string s;
    for (int64_t r = 0; r < b.num_rows(); ++r) {
      for (int c = 0; c < b.num_columns(); ++c) {
        if (c) s += ',';
        s += std::to_string(b.column(c)->bits_.at(r));
      }
      s += '\n';
    }
    return o_->Write(s);
  }
 private:
  std::shared_ptr<io::FileOutputStream> o_;
  std::shared_ptr<Schema> s_;
};
}  // namespace
Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::FileOutputStream> o, const std::shared_ptr<Schema>& s, const WriteOptions& w) {
  auto p = std::make_shared<W>(o, s);
  if (w.include_header) {
    std::string h;
    for (auto& f : s->fields()) h += (h.empty() ? "\"" : ",\"") + f->name() + "\"";
    auto st = o->Write(h + "\n");
    if (!st.ok()) return st;
  }
  return std::shared_ptr<ipc::RecordBatchWriter>(p);
}
}  // namespace csv
}  // namespace arrow
